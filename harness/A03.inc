// shared by the A03 harnesses: the laws of the iterator categories
#pragma once
#include "mc.h"

#include "mc_iter.inc"

#include <iterator>
#include <memory>
#include <string>

namespace {
	using namespace chk;

#define LAW( cond, key, ... ) MC_CHECK( ( cond ), key, __VA_ARGS__ )

	// make(p) is the iterator at position p of [0,n]; value(it, p) says whether
	// reading it gives element p
	template<typename It>
	constexpr bool random_access( ) {
		if constexpr( requires { typename It::iterator_category; } ) {
			return std::is_base_of_v<std::random_access_iterator_tag, typename It::iterator_category>;
		} else {
			return true;
		}
	}
	template<typename Make, typename Value>
	void laws( char const *name, int n, Make make, Value value, bool bounded_pre = true ) {
		using It = std::remove_cvref_t<decltype( make( 0 ) )>;
		constexpr bool ra = random_access<It>( );
		for( int i = 0; i <= n; ++i ) {
			It const at_i = make( i );
			if( i < n ) {
				LAW( value( at_i, i ), "read", "%s: element %d of %d", name, i, n );
				It a = at_i;
				It *r = nullptr;
				if constexpr( std::is_same_v<decltype( ++a ), It const &> ) {
					++a;
					r = &a;
				} else {
					r = std::addressof( ++a );
				}
				LAW( r == &a, "preincrement", "%s: ++it is it (%d of %d)", name, i, n );
				LAW( a == make( i + 1 ), "preincrement", "%s: ++ from %d of %d", name, i, n );
				It p = at_i;
				It const old = p++;
				LAW( old == at_i and p == make( i + 1 ), "postincrement", "%s: it++ from %d of %d", name, i, n );
				LAW( value( old, i ), "postincrement", "%s: the result of it++ reads element %d of %d", name, i, n );
			}
			if constexpr( requires( It x ) { --x; x--; } ) {
				if( i > 0 ) {
					It a = at_i;
					It *r = std::addressof( --a );
					LAW( r == &a, "predecrement", "%s: --it is it (%d of %d)", name, i, n );
					LAW( a == make( i - 1 ), "predecrement", "%s: -- from %d of %d", name, i, n );
					LAW( value( a, i - 1 ), "predecrement", "%s: -- from %d of %d reads the element before", name, i, n );
					It p = at_i;
					It const old = p--;
					LAW( old == at_i and p == make( i - 1 ), "postdecrement", "%s: it-- from %d of %d", name, i, n );
					++p;
					LAW( p == at_i, "inverse", "%s: ++ after -- at %d of %d", name, i, n );
				}
			}
			for( int j = 0; j <= n; ++j ) {
				It const at_j = make( j );
				LAW( ( at_i == at_j ) == ( i == j ) and ( at_i != at_j ) == ( i != j ), "equality", "%s: positions %d and %d of %d", name, i, j, n );
				int const d = j - i;
				if constexpr( ra and requires( It x ) { x += 1; } ) {
					It a = at_i;
					auto &r = ( a += d );
					LAW( std::addressof( r ) == &a and a == at_j, "advance", "%s: += %d from %d of %d", name, d, i, n );
				}
				if constexpr( ra and requires( It x ) { x -= 1; } ) {
					It a = at_i;
					auto &r = ( a -= -d );
					LAW( std::addressof( r ) == &a and a == at_j, "advance", "%s: -= %d from %d of %d", name, -d, i, n );
				}
				if constexpr( ra and requires( It const x ) { x + 1; } ) {
					auto const a = at_i + d;
					LAW( a == at_j, "offset", "%s: + %d from %d of %d", name, d, i, n );
					if( j < n ) {
						LAW( value( a, j ), "offset", "%s: + %d from %d of %d reads", name, d, i, n );
					}
				}
				if constexpr( ra and requires( It const x ) { 1 + x; } ) {
					LAW( d + at_i == at_j, "offset", "%s: %d + it from %d of %d", name, d, i, n );
				}
				if constexpr( ra and requires( It const x ) {
					              { x - 1 } -> std::same_as<It>;
				              } ) {
					LAW( at_i - ( -d ) == at_j, "offset", "%s: - %d from %d of %d", name, -d, i, n );
				}
				if constexpr( ra and requires( It const x ) { static_cast<long>( x - x ); } ) {
					LAW( static_cast<long>( at_j - at_i ) == d, "difference", "%s: position %d - position %d of %d is %ld", name, j, i, n, static_cast<long>( at_j - at_i ) );
				}
				if constexpr( ra and requires( It const x ) { x < x; } ) {
					LAW( ( at_i < at_j ) == ( i < j ), "order", "%s: %d < %d of %d", name, i, j, n );
				}
				if constexpr( ra and requires( It const x ) { x > x; } ) {
					LAW( ( at_i > at_j ) == ( i > j ), "order", "%s: %d > %d of %d", name, i, j, n );
				}
				if constexpr( ra and requires( It const x ) { x <= x; } ) {
					LAW( ( at_i <= at_j ) == ( i <= j ), "order", "%s: %d <= %d of %d", name, i, j, n );
				}
				if constexpr( ra and requires( It const x ) { x >= x; } ) {
					LAW( ( at_i >= at_j ) == ( i >= j ), "order", "%s: %d >= %d of %d", name, i, j, n );
				}
			}
		}
		(void)bounded_pre;
		mc::count_case( );
	}
	// walking from the first to the last position visits everything once
	template<typename It, typename Last, typename Value>
	void walk( char const *name, int n, It first, Last const &last, Value value ) {
		int i = 0;
		for( ; first != last; ++first, ++i ) {
			MC_CHECK( i < n, "walk", "%s: walks past its %d elements", name, n );
			LAW( value( first, i ), "walk", "%s: element %d of %d", name, i, n );
		}
		LAW( i == n, "walk", "%s: walks %d of %d elements", name, i, n );
	}
	Items numbered( int n ) {
		Items v( static_cast<std::size_t>( n ) );
		for( int i = 0; i != n; ++i ) {
			v[static_cast<std::size_t>( i )] = { i * 3 + 1, i };
		}
		return v;
	}
	template<typename C>
	auto reads( C &v ) {
		return [&v]( auto it, int p ) {
			bool ok = std::addressof( *it ) == std::addressof( v[static_cast<std::size_t>( p )] );
			if constexpr( requires { it->id; } ) {
				ok = ok and it->id == v[static_cast<std::size_t>( p )].id;
			}
			return ok;
		};
	}
	unsigned len( ) {
		return static_cast<unsigned>( mc::by_tier( 6, 12 ) );
	}
	// every length up to len( ) and two long ones
	int any_len( ) {
		unsigned const k = mc::choose( len( ) + 3 );
		return k <= len( ) ? static_cast<int>( k ) : k == len( ) + 1 ? 17 : 40;
	}

} // namespace
