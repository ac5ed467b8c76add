// Shared by the A02 harnesses: keyed items and what a sort must leave.
#pragma once
#include "mc.h"

#include "mc_iter.inc"

#include <algorithm>
#include <array>
#include <functional>
#include <map>
#include <numeric>
#include <set>
#include <unordered_map>

#include "daw/daw_sort_n.h"
#include "daw/deprecated/daw_stack_quick_sort.h"

namespace {
	using namespace chk;

	// not trivially copyable; a moved-from element may only be assigned to
	struct Heavy {
		int key = 0;
		int id = 0;
		bool moved = false;
		Heavy( ) = default;
		Heavy( int k, int i ) noexcept
		  : key( k )
		  , id( i ) {}
		static void look( Heavy const &h ) {
			if( h.moved ) {
				mc::fail_later( "moved_from", "a moved-from element was read" );
			}
		}
		Heavy( Heavy const &o ) noexcept
		  : key( o.key )
		  , id( o.id ) {
			look( o );
		}
		Heavy( Heavy &&o ) noexcept
		  : key( o.key )
		  , id( o.id ) {
			look( o );
			o.moved = true;
		}
		Heavy &operator=( Heavy const &o ) noexcept {
			look( o );
			key = o.key;
			id = o.id;
			moved = false;
			return *this;
		}
		Heavy &operator=( Heavy &&o ) noexcept {
			look( o );
			key = o.key;
			id = o.id;
			moved = false;
			if( &o != this ) {
				o.moved = true;
			}
			return *this;
		}
	};
	static_assert( not std::is_trivially_copy_constructible_v<Heavy> );

	struct Cmp {
		bool rev = false;
		template<typename T>
		bool operator( )( T const &a, T const &b ) const noexcept {
			if constexpr( std::is_same_v<T, Heavy> ) {
				Heavy::look( a );
				Heavy::look( b );
			}
			return rev ? b.key < a.key : a.key < b.key;
		}
	};

	template<typename T>
	std::string text( std::vector<T> const &v ) {
		std::string r = "{";
		for( std::size_t i = 0; i != v.size( ) and i != 80; ++i ) {
			r += ( i ? "," : "" ) + std::to_string( v[i].key );
		}
		return r + "}";
	}

	// one range, one order: run, then the result is a sorted permutation
	template<typename T, typename F>
	void sorted( char const *name, std::vector<int> const &keys, bool rev, F f ) {
		std::vector<T> v;
		for( std::size_t i = 0; i != keys.size( ); ++i ) {
			v.push_back( T{ keys[i], static_cast<int>( i ) } );
		}
		auto const src = v;
		what = name;
		f( v, Cmp{ rev } );
		Cmp const cmp{ rev };
		std::vector<char> seen( v.size( ) );
		bool perm = true;
		for( auto const &x : v ) {
			auto const i = static_cast<std::size_t>( x.id );
			perm = perm and i < seen.size( ) and not seen[i] and src[i].key == x.key;
			if constexpr( std::is_same_v<T, Heavy> ) {
				perm = perm and not x.moved;
			}
			if( not perm ) {
				break;
			}
			seen[i] = 1;
		}
		MC_CHECK( perm, "not_a_permutation", "%s%s of %s gave %s", name, rev ? " (reversed)" : "", text( src ).c_str( ), text( v ).c_str( ) );
		for( std::size_t i = 1; i < v.size( ); ++i ) {
			MC_CHECK( not cmp( v[i], v[i - 1] ), "not_sorted", "%s%s of %s gave %s", name, rev ? " (reversed)" : "", text( src ).c_str( ), text( v ).c_str( ) );
		}
		mc::count_case( );
	}

	std::vector<int> bits( std::uint64_t m, unsigned n ) {
		std::vector<int> r( n );
		for( unsigned i = 0; i != n; ++i ) {
			r[i] = static_cast<int>( ( m >> i ) & 1U );
		}
		return r;
	}
	// digits of m in base k
	std::vector<int> word( std::uint64_t m, unsigned n, unsigned k ) {
		std::vector<int> r( n );
		for( unsigned i = 0; i != n; ++i, m /= k ) {
			r[i] = static_cast<int>( m % k );
		}
		return r;
	}
	std::uint64_t power( unsigned k, unsigned n ) {
		std::uint64_t r = 1;
		while( n-- ) {
			r *= k;
		}
		return r;
	}

	// every word of length n over k keys, split into 16 executions
	template<typename F>
	void words( unsigned n, unsigned k, F f ) {
		auto const all = power( k, n );
		unsigned const parts = all < 64 ? 1 : 16;
		unsigned const part = mc::choose( parts );
		for( std::uint64_t m = part; m < all; m += parts ) {
			f( word( m, n, k ) );
		}
	}
	// every permutation of n whose first element is chosen
	template<typename F>
	void perms( unsigned n, F f ) {
		std::vector<int> p( n );
		std::iota( p.begin( ), p.end( ), 0 );
		if( n > 1 ) {
			std::swap( p[0], p[mc::choose( n )] );
			std::sort( p.begin( ) + 1, p.end( ) );
		}
		do {
			f( p );
		} while( std::next_permutation( p.begin( ) + ( n > 1 ), p.end( ) ) );
	}

} // namespace
