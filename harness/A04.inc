// A04: pipelines against eager evaluation over vectors.  Sources are lvalue
// ranges of checked iterators (a step or access outside the source is
// reported) and plain vectors.
#pragma once
#include "mc.h"

#include <daw/daw_pipelines.h>

#include <array>
#include <forward_list>
#include <list>
#include <map>
#include <optional>
#include <span>
#include <string>
#include <tuple>
#include <vector>

#include "mc_iter.inc"

namespace p4 {
	namespace dp = daw::pipelines;
	using V = std::vector<int>;
	using VV = std::vector<V>;
	using VP = std::vector<std::pair<int, int>>;

	template<template<typename> class I>
	struct Src {
		V v;
		explicit Src( V x )
		  : v( std::move( x ) ) {
			v.shrink_to_fit( );
		}
		auto begin( ) const {
			return chk::cb<I>( v );
		}
		auto end( ) const {
			return chk::ce<I>( v );
		}
	};

	struct Vec {
		V v;
		explicit Vec( V x )
		  : v( std::move( x ) ) {
			v.shrink_to_fit( );
		}
	};

	// calls f with the source in each of the requested shapes
	enum : unsigned { FWD = 1, BIDI = 2, RA = 4, VEC = 8, LIST = 16, ALL = 31, BACK = 2 | 4 | 8 | 16, JUMP = 4 | 8 };
	template<unsigned Which = ALL, typename F>
	void each_source( V const &in, F &&f ) {
		if constexpr( ( Which & FWD ) != 0 ) {
			Src<chk::Fwd> const s( in );
			f( s );
		}
		if constexpr( ( Which & BIDI ) != 0 ) {
			Src<chk::Bidi> const s( in );
			f( s );
		}
		if constexpr( ( Which & RA ) != 0 ) {
			Src<chk::Ra> const s( in );
			f( s );
		}
		if constexpr( ( Which & VEC ) != 0 ) {
			V v( in );
			v.shrink_to_fit( );
			f( v );
		}
		if constexpr( ( Which & LIST ) != 0 ) {
			std::list<int> const l( in.begin( ), in.end( ) );
			f( l );
		}
	}

	// every sequence up to max_len, and two lengths of long ones: a repeated word
	// of at most two values with at most one element out of line
	inline V input( unsigned max_len, unsigned alphabet, int base = 1, bool out_of_line = true ) {
		unsigned const len = mc::choose( max_len + 2 );
		if( len > max_len ) {
			V r( out_of_line ? mc::pick( { std::size_t{ 17 }, std::size_t{ 33 } } ) : 21U );
			std::size_t const period = 1 + mc::choose( 2 );
			for( std::size_t i = 0; i != r.size( ); ++i ) {
				r[i] = i < period ? base + static_cast<int>( mc::choose( static_cast<int>( alphabet ) ) ) : r[i - period];
			}
			if( unsigned const odd = out_of_line ? mc::choose( 4 ) : 0; odd != 0 ) {
				r[odd == 1 ? 0 : odd == 2 ? r.size( ) / 2 : r.size( ) - 1] = base + static_cast<int>( mc::choose( static_cast<int>( alphabet ) ) );
			}
			return r;
		}
		V r( len );
		for( auto &x : r ) {
			x = base + static_cast<int>( mc::choose( static_cast<int>( alphabet ) ) );
		}
		return r;
	}

	constexpr int limit = 5000;

	template<typename T>
	void put( std::string &s, T const &x );

	template<typename R>
	void put_range( std::string &s, R &&r ) {
		s += '[';
		auto f = std::begin( r );
		auto l = std::end( r );
		int n = 0;
		while( f != l ) {
			if( ++n > limit ) {
				mc::fail_later( "does_not_end", "%s: more than %d elements", chk::what, limit );
				break;
			}
			put( s, *f );
			s += ' ';
			++f;
		}
		s += ']';
	}

	template<typename T>
	void put( std::string &s, T const &x ) {
		if constexpr( std::is_arithmetic_v<T> ) {
			s += std::to_string( static_cast<long long>( x ) );
		} else if constexpr( requires { std::tuple_size<T>::value; } and not requires { std::begin( x ); } ) {
			s += '(';
			std::apply(
			  [&]( auto const &...e ) {
				  ( ( put( s, e ), s += ',' ), ... );
			  },
			  x );
			s += ')';
		} else if constexpr( requires { x.has_value( ); } ) {
			if( x ) {
				put( s, *x );
			} else {
				s += "none";
			}
		} else {
			put_range( s, x );
		}
	}
	template<typename T>
	std::string enc( T const &x ) {
		std::string s;
		put( s, x );
		return s;
	}
	template<typename R>
	std::string run( R &&r ) {
		std::string s;
		put_range( s, r );
		return s;
	}

	inline void expect( char const *stage, V const &in, std::string const &got, std::string const &want ) {
		MC_CHECK( got == want, stage, "%s over %s gives %s, eager evaluation gives %s", stage, enc( in ).c_str( ),
		          got.c_str( ), want.c_str( ) );
		mc::count_case( );
	}

	// eager definitions
	namespace eager {
		template<typename C>
		C take( C const &v, std::size_t n ) {
			return C( v.begin( ), v.begin( ) + static_cast<std::ptrdiff_t>( std::min( n, v.size( ) ) ) );
		}
		template<typename C>
		C skip( C const &v, std::size_t n ) {
			return C( v.begin( ) + static_cast<std::ptrdiff_t>( std::min( n, v.size( ) ) ), v.end( ) );
		}
		template<typename C>
		C reverse( C const &v ) {
			return C( v.rbegin( ), v.rend( ) );
		}
		template<typename P>
		V filter( V const &v, P p ) {
			V r;
			for( auto x : v ) {
				if( p( x ) ) {
					r.push_back( x );
				}
			}
			return r;
		}
		template<typename P>
		std::size_t lead( V const &v, P p ) {
			std::size_t n = 0;
			while( n != v.size( ) and p( v[n] ) ) {
				++n;
			}
			return n;
		}
		template<typename F>
		V map( V const &v, F f ) {
			V r;
			for( auto x : v ) {
				r.push_back( f( x ) );
			}
			return r;
		}
		inline V every( V const &v, std::size_t k ) {
			V r;
			for( std::size_t i = 0; i < v.size( ); i += std::min( k, v.size( ) ) ) {
				r.push_back( v[i] );
			}
			return r;
		}
		inline V unique( V const &v ) {
			V r;
			for( auto x : v ) {
				if( r.empty( ) or r.back( ) != x ) {
					r.push_back( x );
				}
			}
			return r;
		}
		inline VV chunk( V const &v, std::size_t k ) {
			VV r;
			for( std::size_t i = 0; i < v.size( ); i += std::min( k, v.size( ) ) ) {
				r.push_back( take( skip( v, i ), k ) );
			}
			return r;
		}
		inline VV slide( V const &v, std::size_t k ) {
			VV r;
			for( std::size_t i = 0; k <= v.size( ) and i + k <= v.size( ); ++i ) {
				r.push_back( take( skip( v, i ), k ) );
			}
			return r;
		}
		inline V flatten( VV const &v ) {
			V r;
			for( auto const &x : v ) {
				r.insert( r.end( ), x.begin( ), x.end( ) );
			}
			return r;
		}
		// pieces between delimiters; a source ending in a delimiter has no
		// final empty piece, an empty source no piece
		inline VV split( V const &v, V const &d ) {
			VV r;
			std::size_t i = 0;
			while( i < v.size( ) ) {
				auto const it =
				  std::search( v.begin( ) + static_cast<std::ptrdiff_t>( i ), v.end( ), d.begin( ), d.end( ) );
				r.emplace_back( v.begin( ) + static_cast<std::ptrdiff_t>( i ), it );
				if( it == v.end( ) ) {
					break;
				}
				i = static_cast<std::size_t>( it - v.begin( ) ) + d.size( );
			}
			return r;
		}
		template<typename T>
		std::vector<std::pair<T, int>> enumerate( V const &v, T from ) {
			std::vector<std::pair<T, int>> r;
			for( auto x : v ) {
				r.emplace_back( from++, x );
			}
			return r;
		}
		inline VP zip( V const &a, V const &b ) {
			VP r;
			for( std::size_t i = 0; i < a.size( ) and i < b.size( ); ++i ) {
				r.emplace_back( a[i], b[i] );
			}
			return r;
		}
	} // namespace eager

	inline constexpr auto odd = []( int x ) {
		return x % 2 != 0;
	};
	inline constexpr auto twice = []( int x ) {
		return 2 * x + 1;
	};
	struct Neg {
		constexpr int operator( )( int x ) const {
			return 7 - x;
		}
	};
} // namespace p4
