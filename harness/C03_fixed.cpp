// Property C03: arrays of a fixed size (fixed_array owns one on the heap, carray holds one).
#include "mc.h"
#include "mc_tracked.h"
#include <algorithm>
#include <array>
#include <deque>
#include <list>
#include <stdexcept>
#include <vector>

#include <daw/deprecated/daw_carray.h>
#include <daw/deprecated/daw_fixed_array.h>

namespace {
	using Model = std::vector<int>;

	template<typename A, typename Get>
	void same( A &a, Model const &m, Get get, char const *what ) {
		auto const &c = a;
		MC_CHECK( c.size( ) == m.size( ), "size", "after %s: size %zu, expected %zu", what, std::size_t( c.size( ) ), m.size( ) );
		std::size_t n = 0;
		for( auto it = c.begin( ); it != c.end( ); ++it, ++n ) {
			MC_CHECK( n < m.size( ), "runaway", "after %s: iteration goes past the end", what );
			MC_CHECK( get( *it ) == m[n] and get( c[n] ) == m[n] and get( a[n] ) == m[n] and get( c.data( )[n] ) == m[n], "value", "after %s: element %zu is %d, expected %d", what, n, get( *it ), m[n] );
		}
		MC_CHECK( n == m.size( ), "iteration", "after %s: iteration yields %zu of %zu", what, n, m.size( ) );
		n = 0;
		for( auto it = a.begin( ); it != a.end( ); it++, ++n ) MC_CHECK( get( *it ) == m[n], "value", "after %s: element %zu", what, n );
		MC_CHECK( n == m.size( ) and std::size_t( c.cend( ) - c.cbegin( ) ) == n, "iteration", "after %s: %zu of %zu", what, n, m.size( ) );
		if( n ) MC_CHECK( get( c.front( ) ) == m.front( ) and get( a.front( ) ) == m.front( ) and get( c.back( ) ) == m.back( ) and get( a.back( ) ) == m.back( ), "ends", "after %s: front or back", what );
	}

	template<typename T>
	void histories( int depth ) {
		using FA = daw::fixed_array<T>;
		auto const get = []( T const &v ) { return mc::val( v ); };
		int next = 1;
		auto const fill = [&]( FA &a, Model &m ) {
			for( std::size_t i = 0; i < m.size( ); ++i ) {
				m[i] = next;
				a[i] = T( next++ );
			}
		};
		auto const make = [&]( Model &m ) -> FA {
			switch( mc::choose( 8 ) ) {
			case 0: m = { }; return FA( );
			case 1: { // one of a size, value initialised
				auto const n = static_cast<std::size_t>( mc::choose_range( 0, 3 ) );
				FA a( n );
				m.assign( n, get( T{ } ) );
				same( a, m, get, "construction by size" );
				fill( a, m );
				return a;
			}
			case 2: {
				auto const n = static_cast<std::size_t>( mc::choose_range( 0, 3 ) );
				m.assign( n, next );
				return FA( n, T( next++ ) );
			}
			case 3: {
				FA a( daw::construct_for_overwrite, 2 );
				m.assign( 2, 0 );
				fill( a, m );
				return a;
			}
			case 4: m = { next, next + 1, next + 2 }; next += 3; return FA( std::in_place, T( next - 3 ), T( next - 2 ), T( next - 1 ) );
			case 5: m = { next }; return FA( std::in_place_type<T>, T( next++ ) );
			case 6: { // takes ownership
				auto *p = new T[2];
				m = { next, next + 1 };
				p[0] = T( next++ );
				p[1] = T( next++ );
				return FA( p, 2 );
			}
			default: { // copies a range
				m = { next, next + 1, next + 2 };
				next += 3;
				std::vector<T> const src{ T( next - 3 ), T( next - 2 ), T( next - 1 ) };
				if( mc::choose( 2 ) ) return FA( src.begin( ), src.end( ) );
				m.pop_back( );
				return FA( src.begin( ), std::size_t{ 2 } );
			}
			}
		};
		{
			Model m[2];
			FA a0 = make( m[0] );
			FA a1 = make( m[1] );
			FA *const a[2] = { &a0, &a1 };
			same( a0, m[0], get, "construction" );
			same( a1, m[1], get, "construction" );
			for( int d = 0; d != depth; ++d ) {
				mc::step( );
				int const i = static_cast<int>( mc::choose( 2 ) ), j = 1 - i;
				FA &x = *a[i];
				FA &y = *a[j];
				char const *what = "";
				switch( mc::choose( 9 ) ) {
				case 0: what = "copy assignment"; x = std::as_const( y ); m[i] = m[j]; break;
				case 1: what = "move assignment"; x = std::move( y ); m[i] = m[j]; m[j].clear( ); break;
				case 2: what = "clear"; x.clear( ); m[i].clear( ); break;
				case 3: {
					what = "release";
					auto const *p = x.data( );
					auto r = x.release( );
					MC_CHECK( r.get( ) == p, "release", "releases another array" );
					for( std::size_t k = 0; k < m[i].size( ); ++k ) MC_CHECK( get( r[k] ) == m[i][k], "release", "released element %zu", k );
					m[i].clear( );
				} break;
				case 4: what = "copy construction"; { FA z( std::as_const( x ) ); same( z, m[i], get, what ); fill( z, m[i] ); same( z, m[i], get, what ); x = std::move( z ); } break;
				case 5: what = "move construction"; { FA z( std::move( x ) ); same( z, m[i], get, what ); Model none; same( x, none, get, what ); if( mc::choose( 2 ) ) y = std::move( z ), m[j] = m[i]; m[i].clear( ); } break;
				case 6: what = "write"; if( m[i].empty( ) ) return; fill( x, m[i] ); break;
				case 7: { what = "self assignment"; FA &s = x; if( mc::choose( 2 ) ) x = s; else x = std::move( s ); } break;
				default: { what = "assignment of a new array"; Model n; FA z = make( n ); x = std::move( z ); m[i] = n; } break;
				}
				mc::note( "%s of array %d", what, i );
				same( a0, m[0], get, what );
				same( a1, m[1], get, what );
			}
		}
	}

	// ---- carray: trivial elements held inside ------------------------------------------
	template<std::size_t N>
	void held( int depth ) {
		using CA = daw::carray<int, N>;
		auto const get = []( int v ) { return v; };
		int next = 1;
		CA x{ }, y{ };
		Model m[2] = { Model( N, 0 ), Model( N, 0 ) };
		CA *const a[2] = { &x, &y };
		for( int d = 0; d <= depth; ++d ) {
			for( int i = 0; i != 2; ++i ) {
				auto const &c = *a[i];
				same( *a[i], m[i], get, "an operation" );
				MC_CHECK( not c.empty( ) and c.max_size( ) == N, "size", "empty or max_size" );
				Model r( c.rbegin( ), c.rend( ) ), r2( c.crbegin( ), c.crend( ) ), r3( a[i]->rbegin( ), a[i]->rend( ) );
				std::reverse( r.begin( ), r.end( ) );
				std::reverse( r2.begin( ), r2.end( ) );
				std::reverse( r3.begin( ), r3.end( ) );
				MC_CHECK( r == m[i] and r2 == m[i] and r3 == m[i], "reverse", "reverse iteration of %zu elements", N );
				for( std::size_t p = 0; p < N + 2; ++p ) {
					for( int w = 0; w != 2; ++w ) {
						bool thrown = false;
						try {
							int const v = w ? c.at( p ) : a[i]->at( p );
							MC_CHECK( p < N and v == m[i][p], "at", "at(%zu) yields %d", p, v );
						} catch( std::out_of_range const & ) { thrown = true; }
						MC_CHECK( thrown == ( p >= N ), "at", "at(%zu) of %zu elements", p, N );
					}
				}
			}
			if( d == depth ) break;
			mc::step( );
			int const i = static_cast<int>( mc::choose( 2 ) ), j = 1 - i;
			switch( mc::choose( 7 ) ) {
			case 0: *a[i] = std::as_const( *a[j] ); m[i] = m[j]; break;
			case 1: *a[i] = std::move( *a[j] ); m[i] = m[j]; break;
			case 2: a[i]->fill( next ); m[i].assign( N, next++ ); break;
			case 3: { auto p = mc::choose( N ); ( *a[i] )[p] = next; m[i][p] = next++; } break;
			case 4: {
				int raw[N];
				for( std::size_t k = 0; k < N; ++k ) raw[k] = m[i][k] = next++;
				if( mc::choose( 2 ) ) *a[i] = raw;
				else { CA z( raw ); *a[i] = std::move( z ); }
			} break;
			case 5: {
				CA z( std::as_const( *a[j] ) );
				*a[i] = z;
				m[i] = m[j];
			} break;
			default: { using daw::swap; swap( x, y ); std::swap( m[0], m[1] ); }
			}
		}
	}
} // namespace

MC_TEST( fixed_array_int ) { histories<int>( mc::by_tier( 2, 3 ) ); }
MC_TEST( fixed_array_tracked ) {
	mc::with_tracking( [] { histories<mc::Tracked<1>>( mc::by_tier( 2, 3 ) ); } );
}
MC_TEST( carray_1 ) { held<1>( mc::by_tier( 4, 5 ) ); }
MC_TEST( carray_3 ) { held<3>( mc::by_tier( 4, 5 ) ); }
MC_TEST( carray_values ) {
	daw::carray<int, 4> const a{ 4, 5, 6, 7 };
	MC_CHECK( a[0] == 4 and a[1] == 5 and a[2] == 6 and a[3] == 7 and std::equal( a.begin( ), a.end( ), std::array{ 4, 5, 6, 7 }.begin( ) ), "values", "construction from values" );
}
