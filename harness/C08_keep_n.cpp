// C08: keep_n against a stable merge of everything inserted; simple_array against its elements.
#include "mc.h"
#include "mc_tracked.h"

#include <daw/daw_keep_n.h>
#include <daw/daw_simple_array.h>

#include <algorithm>
#include <functional>
#include <string>
#include <vector>

namespace {
	using TM = mc::Tracked<mc::NoThrowMove>;
	using TC = mc::Tracked<0>;

	// a value whose order looks at the key only, so that ties can be told apart
	struct Keyed {
		int key = 0;
		int id = 0;
	};
	struct ByKey {
		constexpr bool operator( )( Keyed const &a, Keyed const &b ) const {
			return a.key < b.key;
		}
	};
	bool same( Keyed const &a, Keyed const &b ) {
		return a.key == b.key and a.id == b.id;
	}

	// A new value goes in front of the first kept one that it comes before.
	template<typename V, typename Before>
	void put( std::vector<V> &m, V v, Before before ) {
		for( std::size_t n = 0; n != m.size( ); ++n ) {
			if( before( v, m[n] ) ) {
				m.insert( m.begin( ) + static_cast<int>( n ), v );
				m.pop_back( );
				return;
			}
		}
	}

	template<std::size_t N, daw::keep_n_order Order>
	void keyed( int depth, int stride = 0, int offset = 0, int modulus = 1 ) {
		bool constexpr up = Order == daw::keep_n_order::ascending;
		int const worst = up ? 100 : -100;
		Keyed const first{ mc::choose( 2 ) ? worst : 1, 0 };
		daw::keep_n<Keyed, N, Order, ByKey> k( first );
		std::vector<Keyed> m( N, first );
		std::vector<Keyed> all( N, first );
		for( int s = 0; s != depth; ++s ) {
			mc::step( );
			Keyed const v{ stride ? ( s * stride + offset ) % modulus : mc::choose_range( 0, 2 ), s + 1 };
			if( stride ? s % 3 == 0 : mc::choose( 2 ) ) {
				k.insert( v );
			} else {
				k.insert( Keyed( v ) );
			}
			all.push_back( v );
			// which of two equal values is kept by a descending one is not promised
			put( m, v, []( Keyed const &a, Keyed const &b ) { return up ? a.key < b.key : not( a.key < b.key ); } );
			std::vector<int> best;
			for( auto const &x : all ) best.push_back( up ? x.key : -x.key );
			std::sort( best.begin( ), best.end( ) );
			MC_CHECK( k.size( ) == N and k.capacity( ) == N and std::size_t( k.end( ) - k.begin( ) ) == N and std::size_t( k.cend( ) - k.cbegin( ) ) == N, "size", "size" );
			for( std::size_t i = 0; i != N; ++i ) {
				MC_CHECK( ( up ? k[i].key : -k[i].key ) == best[i], "best", "position %zu holds key %d", i, k[i].key );
				MC_CHECK( not up or same( k[i], m[i] ), "kept", "position %zu holds (%d,%d), not (%d,%d)", i, k[i].key, k[i].id, m[i].key, m[i].id );
				MC_CHECK( &k.begin( )[i] == &k[i] and &k.cbegin( )[i] == &k[i], "iterators", "iterators point elsewhere" );
			}
			MC_CHECK( &k.front( ) == &k[0] and &k.back( ) == &k[N - 1], "ends", "front or back" );
		}
	}

	template<typename T, std::size_t N, daw::keep_n_order Order>
	void aliasing( int depth, bool faults ) {
		bool constexpr up = Order == daw::keep_n_order::ascending;
		mc::set_fault_budget( faults ? 1 : 0 );
		daw::keep_n<T, N, Order> k( T( up ? 9 : -9 ) );
		std::vector<int> m( N, up ? 9 : -9 );
		for( int s = 0; s != depth; ++s ) {
			mc::step( );
			int const what = mc::choose_range( 0, 2 );
			bool thrown = false;
			int v = 0;
			if( what == 2 ) { // one of its own
				auto const i = mc::choose( N );
				v = m[i];
				mc::note( "insert own [%u] = %d", i, v );
				try {
					mc::FaultScope f( false, true );
					k.insert( k[i] );
				} catch( mc::InjectedFault const & ) { thrown = true; }
			} else {
				v = mc::choose_range( 0, 3 );
				mc::note( "insert %d %s", v, what ? "by value" : "by reference" );
				T x( v );
				try {
					mc::FaultScope f( false, true );
					if( what ) {
						k.insert( std::move( x ) );
					} else {
						k.insert( x );
						if( mc::val( x ) != v ) mc::fail_later( "source", "inserting changed the argument" );
					}
				} catch( mc::InjectedFault const & ) { thrown = true; }
			}
			if( thrown ) {
				for( std::size_t i = 0; i != N; ++i ) {
					(void)mc::val( k[i] );
				}
				return;
			}
			put( m, v, []( int a, int b ) { return up ? a < b : not( a < b ); } );
			for( std::size_t i = 0; i != N; ++i ) {
				MC_CHECK( mc::val( k[i] ) == m[i], "value", "position %zu holds %d, not %d", i, mc::val( k[i] ), m[i] );
			}
		}
	}
	void strings( ) {
		std::string const long1( 40, 'b' );
		std::string const long2( 40, 'a' );
		daw::keep_n<std::string, 3> k( std::string( "z" ) );
		std::vector<std::string> m( 3, "z" );
		for( int s = 0; s != 4; ++s ) {
			std::string v = mc::pick( { long1, long2, std::string( "c" ) } );
			if( mc::choose( 2 ) ) {
				k.insert( v );
				MC_CHECK( not v.empty( ), "source", "argument was moved from" );
			} else {
				std::string w = v;
				k.insert( std::move( w ) );
			}
			put( m, v, std::less<>{ } );
			for( std::size_t i = 0; i != 3; ++i ) {
				MC_CHECK( k[i] == m[i], "value", "position %zu holds %s", i, k[i].c_str( ) );
			}
		}
		daw::keep_n<int, 2, daw::keep_n_order::ascending, std::greater<>> g( -1 );
		g.insert( 3 );
		g.insert( 5 );
		g.insert( 4 );
		MC_CHECK( g[0] == 5 and g[1] == 4, "greater", "kept (%d,%d) by greater", g[0], g[1] );
	}

	// ---- simple_array -----------------------------------------------------------
	template<typename A>
	void access( A &a, int size ) {
		A const &c = a;
		MC_CHECK( a.end( ) - a.begin( ) == size and c.end( ) - c.begin( ) == size and A::size( ) == std::size_t( size ), "size", "size" );
		MC_CHECK( a.data( ) == a.begin( ) and c.data( ) == c.begin( ) and a.date_end( ) == a.end( ) and c.date_end( ) == c.end( ), "data", "data" );
		MC_CHECK( ( std::is_same_v<decltype( *c.begin( ) ), typename A::value_type const &> ), "const", "elements of a const array can be changed" );
	}
	template<std::size_t N>
	void arrays( ) {
		daw::simple_array<int, N> a{ };
		int m[N + 1] = { };
		for( int s = 0; s != 4; ++s ) {
			auto const i = mc::choose( N );
			int const v = mc::choose_range( 1, 2 ) + 2 * s;
			switch( mc::choose( 3 ) ) {
			case 0: a[i] = v; break;
			case 1: a.begin( )[i] = v; break;
			default: *( a.data( ) + i ) = v; break;
			}
			m[i] = v;
			auto const copy = a;
			for( std::size_t k = 0; k != N; ++k ) {
				MC_CHECK( a[k] == m[k] and copy[k] == m[k] and copy.begin( )[k] == m[k] and a.values[k] == m[k], "value", "element %zu", k );
			}
			access( a, int( N ) );
		}
	}
	void other_arrays( ) {
		daw::simple_array<int, 0> z;
		access( z, 0 );
		daw::simple_array three{ 1, 2, 3 };
		access( three, 3 );
		int sum = 0;
		for( int x : three ) sum += x;
		MC_CHECK( sum == 6, "iterate", "sum %d", sum );
		daw::simple_array<TM, 2> const t{ TM( 1 ), TM( 2 ) };
		MC_CHECK( mc::val( t[0] ) == 1 and mc::val( t[1] ) == 2 and mc::val( *t.begin( ) ) == 1, "owning", "elements" );
	}
	constexpr auto up = daw::keep_n_order::ascending;
	constexpr auto down = daw::keep_n_order::descending;
} // namespace

MC_TEST( keyed_1_up ) { keyed<1, up>( mc::by_tier( 5, 7 ) ); }
MC_TEST( keyed_1_down ) { keyed<1, down>( mc::by_tier( 5, 7 ) ); }
MC_TEST( keyed_2_up ) { keyed<2, up>( mc::by_tier( 5, 7 ) ); }
MC_TEST( keyed_2_down ) { keyed<2, down>( mc::by_tier( 5, 7 ) ); }
MC_TEST( keyed_3_up ) { keyed<3, up>( mc::by_tier( 5, 7 ) ); }
MC_TEST( keyed_3_down ) { keyed<3, down>( mc::by_tier( 5, 7 ) ); }
MC_TEST( keyed_4_up ) { keyed<4, up>( mc::by_tier( 6, 7 ) ); }
MC_TEST( aliasing_2_up ) { mc::with_tracking( [] { aliasing<TM, 2, up>( mc::by_tier( 4, 5 ), false ); } ); }
MC_TEST( aliasing_3_up ) { mc::with_tracking( [] { aliasing<TM, 3, up>( mc::by_tier( 4, 5 ), false ); } ); }
MC_TEST( aliasing_3_down ) { mc::with_tracking( [] { aliasing<TM, 3, down>( mc::by_tier( 4, 5 ), false ); } ); }
MC_TEST( faults_3_up ) { mc::with_tracking( [] { aliasing<TC, 3, up>( mc::by_tier( 3, 4 ), true ); } ); }
MC_TEST( faults_2_down ) { mc::with_tracking( [] { aliasing<TC, 2, down>( mc::by_tier( 3, 4 ), true ); } ); }
MC_TEST( strings ) { strings( ); }
MC_TEST( arrays_1 ) { arrays<1>( ); }
MC_TEST( arrays_3 ) { arrays<3>( ); }
MC_TEST( other_arrays ) { mc::with_tracking( [] { other_arrays( ); } ); }
// more values: ascending, descending and mixed orders with and without ties
template<std::size_t N, daw::keep_n_order Order>
static void many( ) {
	int const modulus = mc::pick( { 5, 13, 61 } );
	int const stride = mc::pick( { 1, 4, modulus - 1, 7 } );
	keyed<N, Order>( 70, stride, mc::choose_range( 0, 4 ), modulus );
}
MC_TEST( keyed_9_up ) { many<9, daw::keep_n_order::ascending>( ); }
MC_TEST( keyed_9_down ) { many<9, daw::keep_n_order::descending>( ); }
MC_TEST( keyed_33_up ) { many<33, daw::keep_n_order::ascending>( ); }
MC_TEST( keyed_33_down ) { many<33, daw::keep_n_order::descending>( ); }
