// A04: ranges as values: a range_t of two iterators stepped from both sides of
// its first position, read, measured and compared; element-wise terminals
// MC-FLAGS: -O0
#include "A04.inc"

using namespace p4;
using namespace dp;

namespace {
	template<typename C>
	void history( char const *name, C &c, int len ) {
		chk::what = name;
		using It = decltype( std::begin( c ) );
		using R = range_t<It, It>;
		constexpr bool ra = requires( R r ) { r[0]; };
		auto const nth = [&]( int p ) { return std::next( std::begin( c ), p ); };
		R r( c );
		int p = 0;
		int before = 0;
		R kept = r;
		for( int k = 0; k != mc::by_tier( 4, 7 ); ++k ) {
			// what can be read now
			R const &cr = r;
			bool const ends = r.begin( ) == nth( p ) and cr.begin( ) == nth( p ) and r.cbegin( ) == nth( p ) and r.end( ) == std::end( c ) and
			                  cr.end( ) == std::end( c ) and r.cend( ) == std::end( c ) and std::get<0>( r ) == nth( p ) and std::get<1>( r ) == std::end( c );
			MC_CHECK( ends, "wrong_ends", "%s of %d at %d", name, len, p );
			if( p != len ) {
				MC_CHECK( *r == *nth( p ) and *cr == *nth( p ) and &*r == &*nth( p ), "wrong_element", "%s of %d at %d", name, len, p );
				if constexpr( requires { &*r.operator->( ); } ) {
					MC_CHECK( &*r.operator->( ) == &*nth( p ) and &*cr.operator->( ) == &*nth( p ), "wrong_element", "%s -> of %d at %d", name, len, p );
				}
			}
			int n = 0;
			for( auto &&x : r ) {
				MC_CHECK( x == *nth( p + n ), "wrong_element", "%s of %d: iterating from %d", name, len, p );
				++n;
			}
			MC_CHECK( n == len - p, "wrong_size", "%s of %d: iterating from %d gives %d", name, len, p, n );
			if constexpr( ra ) {
				MC_CHECK( r.size( ) == static_cast<std::size_t>( len - p ), "wrong_size", "%s of %d from %d is %zu", name, len, p, r.size( ) );
				for( int j = -p; j < len - p; ++j ) {
					MC_CHECK( r[j] == *nth( p + j ) and cr[j] == *nth( p + j ), "wrong_element", "%s of %d at %d, [%d]", name, len, p, j );
				}
				MC_CHECK( r - kept == p - before and kept - r == before - p, "wrong_difference", "%s of %d: %d - %d", name, len, p, before );
			}
			if constexpr( requires { r.data( ); } ) {
				MC_CHECK( r.data( ) == std::to_address( nth( 0 ) ) + p and cr.data( ) == r.data( ) and r.data_end( ) == std::to_address( nth( 0 ) ) + len and
				            cr.data_end( ) == r.data_end( ),
				          "wrong_data", "%s of %d at %d", name, len, p );
			}
			kept = r;
			before = p;
			// one move
			enum { pre_inc, post_inc, pre_dec, post_dec, copy_back };
			constexpr int const moves = requires { --r; } ? 5 : 2;
			switch( mc::choose( moves ) ) {
			case pre_inc:
				if( p == len ) {
					return;
				}
				++p;
				MC_CHECK( &++r == &r, "wrong_result", "%s: ++", name );
				break;
			case post_inc:
				if( p == len ) {
					return;
				}
				++p;
				MC_CHECK( r++.begin( ) == kept.begin( ), "wrong_result", "%s of %d: result of ++ after", name, len );
				break;
			case pre_dec:
				if constexpr( requires { --r; } ) {
					if( p == 0 ) {
						return;
					}
					--p;
					MC_CHECK( &--r == &r, "wrong_result", "%s: --", name );
				}
				break;
			case post_dec:
				if constexpr( requires { r--; } ) {
					if( p == 0 ) {
						return;
					}
					--p;
					MC_CHECK( r--.begin( ) == kept.begin( ), "wrong_result", "%s of %d: result of -- after", name, len );
				}
				break;
			default:
				r = R( std::begin( c ), std::end( c ) );
				p = 0;
				break;
			}
			mc::step( );
		}
	}

	MC_TEST( histories ) {
		int const len = static_cast<int>( mc::choose( 5 ) );
		V v( static_cast<std::size_t>( len ) );
		for( int i = 0; i != len; ++i ) {
			v[static_cast<std::size_t>( i )] = 10 + i;
		}
		v.shrink_to_fit( );
		switch( mc::choose( 5 ) ) {
		case 0: {
			history( "range of vector", v, len );
			break;
		}
		case 1: {
			std::span<int> s( v );
			history( "range of span", s, len );
			break;
		}
		case 2: {
			std::list<int> l( v.begin( ), v.end( ) );
			history( "range of list", l, len );
			break;
		}
		case 3: {
			std::forward_list<int> const l( v.begin( ), v.end( ) );
			history( "range of forward_list", l, len );
			break;
		}
		default: {
			struct Ptrs {
				int *f;
				int *l;
				int *begin( ) const {
					return f;
				}
				int *end( ) const {
					return l;
				}
			} p{ v.data( ), v.data( ) + len };
			history( "range of pointers", p, len );
			break;
		}
		}
	}

	MC_TEST( for_each ) {
		chk::what = "ForEachApply/ForEachIndexed";
		auto const in = input( 5, 3 );
		V left;
		for( std::size_t i = 0; i != in.size( ); ++i ) {
			left.push_back( static_cast<int>( i ) );
		}
		std::vector<std::pair<int, int>> seen;
		V right = in;
		auto const &r = pipeline( Zip( left, right ), ForEachApply( [&]( int a, int b ) { seen.emplace_back( a, b ); } ) );
		MC_CHECK( seen.size( ) == in.size( ), "wrong_calls", "ForEachApply over %zu pairs made %zu calls", in.size( ), seen.size( ) );
		for( std::size_t i = 0; i != in.size( ); ++i ) {
			MC_CHECK( seen[i].first == left[i] and seen[i].second == in[i], "wrong_calls", "ForEachApply over %zu pairs: call %zu", in.size( ), i );
		}
		std::size_t n = 0;
		for( auto const &t : r ) {
			MC_CHECK( n < in.size( ) and std::get<0>( t ) == left[n] and std::get<1>( t ) == in[n], "wrong_result", "ForEachApply over %zu pairs passes on another range", in.size( ) );
			++n;
		}
		MC_CHECK( n == in.size( ), "wrong_result", "ForEachApply over %zu pairs passes on %zu", in.size( ), n );
		V v = in;
		(void)pipeline( v, ForEach( []( int &x ) { x += 100; } ) );
		for( std::size_t i = 0; i != in.size( ); ++i ) {
			MC_CHECK( v[i] == in[i] + 100, "wrong_element", "ForEach does not reach element %zu", i );
		}
		v = in;
		V values;
		(void)pipeline( v, ForEachIndexed( [&]( int &x ) {
			                values.push_back( x );
			                x += 100;
		                } ) );
		MC_CHECK( values == in, "wrong_calls", "ForEachIndexed over %zu elements made %zu calls", in.size( ), values.size( ) );
		for( std::size_t i = 0; i != in.size( ); ++i ) {
			MC_CHECK( v[i] == in[i] + 100, "wrong_element", "ForEachIndexed does not reach element %zu", i );
		}
	}
} // namespace
