// A05: argument packs, bound arguments, invoke and apply, zip containers.
// MC-FLAGS: -O0
#include "mc.h"
#include "mc_tracked.h"

#include <daw/daw_apply.h>
#include <daw/daw_bind_args_at.h>
#include <daw/daw_bind_front.h>
#include <daw/daw_fwd_pack_apply.h>
#include <daw/daw_nth_pack_element.h>
#include <daw/daw_zipcontainer.h>

#include <array>
#include <functional>
#include <list>
#include <memory>
#include <vector>

namespace {
	using T = mc::Tracked<0>;
	template<typename A, typename B>
	constexpr bool same = std::is_same_v<A, B>;

	struct Collect {
		std::vector<int> *out;
		static int val( int i ) {
			return i;
		}
		static int val( T const &t ) {
			return t.v;
		}
		template<typename... Args>
		int operator( )( Args const &...args ) const {
			out->clear( );
			( out->push_back( val( args ) ), ... );
			return static_cast<int>( sizeof...( Args ) );
		}
	};

	template<std::size_t N, std::size_t Bound, std::size_t Given>
	void bound( ) {
		if constexpr( N <= Given ) {
			mc::with_tracking( [&] {
				std::vector<int> got;
				std::vector<int> want;
				for( std::size_t i = 0; i != N; ++i ) {
					want.push_back( static_cast<int>( i ) );
				}
				for( std::size_t i = 0; i != Bound; ++i ) {
					want.push_back( 100 + static_cast<int>( i ) );
				}
				for( std::size_t i = N; i != Given; ++i ) {
					want.push_back( static_cast<int>( i ) );
				}
				std::array<T, 4> bound_values{ T( 100 ), T( 101 ), T( 102 ), T( 103 ) };
				std::array<T, 5> given{ T( 0 ), T( 1 ), T( 2 ), T( 3 ), T( 4 ) };
				[&]<std::size_t... B, std::size_t... G>( std::index_sequence<B...>, std::index_sequence<G...> ) {
					auto f = daw::bind_args_at<N>( Collect{ &got }, bound_values[B]... );
					// later changes of the originals do not show
					( ( bound_values[B] = T( -1 ) ), ... );
					for( int k = 0; k != 2; ++k ) {
						int const n = f( given[G]... );
						MC_CHECK( n == static_cast<int>( want.size( ) ) and got == want, "bind",
						          "call %d with %zu arguments bound at %zu and %zu given", k, Bound, N, Given );
						std::as_const( f )( static_cast<int>( G )... );
						MC_CHECK( got == want, "bind", "const call %d with %zu arguments bound at %zu and %zu given", k, Bound, N,
						          Given );
						f( T( static_cast<int>( G ) )... );
						MC_CHECK( got == want, "bind", "call %d with %zu arguments bound at %zu and %zu rvalues given", k, Bound, N,
						          Given );
					}
					MC_CHECK( ( ( given[G].v == static_cast<int>( G ) ) and ... ), "bind", "an lvalue argument is changed" );
				}( std::make_index_sequence<Bound>{ }, std::make_index_sequence<Given>{ } );
			} );
			mc::count_case( );
		}
	}
	MC_TEST( bind_args_at ) {
		[]<std::size_t... Is>( std::index_sequence<Is...> ) {
			( bound<Is / 16, Is / 4 % 4, Is % 4>( ), ... );
		}( std::make_index_sequence<64>{ } );
	}

	MC_TEST( packs ) {
		int const a = static_cast<int>( mc::choose( 3 ) );
		int const b = static_cast<int>( mc::choose( 3 ) );
		mc::with_tracking( [&] {
			int x = a;
			T const c( b );
			T r( 7 );
			auto pk = daw::fwd_pack( x, c, std::move( r ) );
			MC_CHECK( ( same<decltype( pk ), daw::fwd_pack<int &, T const &, T &&>> ), "pack", "categories of the pack" );
			MC_CHECK( &daw::get<0>( pk ) == &x and &daw::get<1>( pk ) == &c and ( same<decltype( daw::get<1>( pk ) ), T const &> ) and
			            ( same<decltype( daw::get<2>( pk ) ), T &&> ) and ( std::tuple_size_v<decltype( pk )> == 3 ),
			          "pack", "get of a pack" );
			std::vector<int> got;
			auto const copies = mc::tr::copies;
			auto const res = daw::apply(
			  [&]( int &i, T const &t, T &&m ) {
				  MC_CHECK( &i == &x and &t == &c and &m == &r, "pack", "apply passes other objects" );
				  ++i;
				  T taken = std::move( m );
				  return i * 10 + t.v + taken.v;
			  },
			  std::move( pk ) );
			MC_CHECK( res == ( a + 1 ) * 10 + b + 7 and x == a + 1 and r.v == mc::MOVED and mc::tr::copies == copies, "pack",
			          "applying to a pack gives %d", res );
			// the nth of a pack
			T q( 9 );
			auto &&n1 = daw::forward_nth_pack_element<1>( x, q, c );
			MC_CHECK( &n1 == &q and ( same<decltype( n1 ), T &> ), "nth", "forward_nth_pack_element<1>" );
			auto &&n2 = daw::forward_nth_pack_element<2>( x, q, c );
			MC_CHECK( &n2 == &c and ( same<decltype( n2 ), T const &> ), "nth", "forward_nth_pack_element<2>" );
			auto &&n0 = daw::forward_nth_pack_element<0>( std::move( q ), x );
			MC_CHECK( &n0 == &q and ( same<decltype( n0 ), T &&> ), "nth", "forward_nth_pack_element<0>" );
			auto v = daw::nth_pack_element<2>( a, b, 42 );
			MC_CHECK( v == 42 and daw::nth_pack_element<0>( a, b ) == a and daw::nth_pack_element<1>( a, b ) == b, "nth",
			          "nth_pack_element" );
			T m = daw::nth_pack_element<1>( 1, std::move( q ) );
			MC_CHECK( m.v == 9 and q.v == mc::MOVED, "nth", "nth_pack_element of an rvalue" );
		} );
		mc::count_case( );
	}

	struct S {
		int v = 3;
		int add( int x ) {
			v += x;
			return v;
		}
		int get( ) const {
			return v;
		}
	};
	struct Overloaded {
		int operator( )( ) const noexcept {
			return 0;
		}
		int operator( )( int &x ) const {
			if( x < 0 ) {
				throw x;
			}
			return x;
		}
		int operator( )( int &x, int &y ) const {
			return ( *this )( x ) * 10 + ( *this )( y );
		}
	};

	MC_TEST( invoke_and_apply ) {
		int const x = static_cast<int>( mc::choose( 3 ) );
		S s;
		MC_CHECK( daw::invoke( &S::add, s, x ) == 3 + x and s.v == 3 + x, "invoke", "member function on an object" );
		MC_CHECK( daw::invoke( &S::add, &s, x ) == 3 + 2 * x and s.v == 3 + 2 * x, "invoke", "member function on a pointer" );
		auto up = std::make_unique<S>( );
		MC_CHECK( daw::invoke( &S::add, up, x ) == 3 + x, "invoke", "member function on a smart pointer" );
		MC_CHECK( daw::invoke( &S::get, s ) == s.v and daw::invoke( &S::get, &s ) == s.v, "invoke", "const member function" );
		MC_CHECK( &daw::invoke( &S::v, s ) == &s.v and &daw::invoke( &S::v, &s ) == &s.v, "invoke", "data member" );
		MC_CHECK( daw::invoke( &S::add, std::ref( s ), x ) == 3 + 3 * x, "invoke", "member function on a reference_wrapper" );
		int a = x, b = 5;
		MC_CHECK( daw::invoke( Overloaded{ }, std::ref( a ) ) == x, "invoke", "one reference_wrapper" );
		MC_CHECK( daw::invoke( Overloaded{ }, std::ref( a ), std::ref( b ) ) == 10 * x + 5, "invoke", "two reference_wrappers" );
		// an exception of the callable is passed on
		bool caught = false;
		int neg = -1 - x;
		try {
			(void)daw::invoke( Overloaded{ }, std::ref( neg ) );
		} catch( int e ) {
			caught = e == neg;
		}
		MC_CHECK( caught, "invoke", "an exception of the callable is lost" );
		// apply
		mc::with_tracking( [&] {
			std::tuple<int, T, std::unique_ptr<int>> t{ x, T( 4 ), std::make_unique<int>( 5 ) };
			auto const f = []( int i, T const &k, std::unique_ptr<int> const &p ) {
				return i * 100 + k.v * 10 + *p;
			};
			MC_CHECK( daw::apply( f, t ) == x * 100 + 45, "apply", "an lvalue tuple" );
			MC_CHECK( daw::apply( f, std::as_const( t ) ) == x * 100 + 45, "apply", "a const tuple" );
			MC_CHECK( daw::apply<false>( f, t ) == x * 100 + 45, "apply", "an lvalue tuple, without invoke" );
			MC_CHECK( daw::apply( &S::add, std::tuple<S &, int>{ s, 1 } ) == 4 + 3 * x, "apply", "a member function" );
			MC_CHECK( daw::apply( []( ) { return 6; }, std::tuple<>{ } ) == 6 and
			            daw::apply<false>( []( ) { return 7; }, std::tuple<>{ } ) == 7,
			          "apply", "no arguments" );
			auto const copies = mc::tr::copies;
			auto const taken = daw::apply(
			  []( int, T &&k, std::unique_ptr<int> &&p ) {
				  T local = std::move( k );
				  auto q = std::move( p );
				  return local.v * 10 + *q;
			  },
			  std::move( t ) );
			MC_CHECK( taken == 45 and mc::tr::copies == copies and not std::get<2>( t ), "apply",
			          "an rvalue tuple passes its elements as rvalues" );
		} );
		mc::count_case( );
	}

	// zipped containers of equal length, lvalue, const and temporary
	template<typename Z>
	void read_zip( char const *what, Z &&z, std::vector<int> const &a, std::vector<int> const &b ) {
		for( int k = 0; k != 2; ++k ) {
			std::size_t n = 0;
			for( auto item : z ) {
				MC_REQUIRE( n < a.size( ) );
				MC_CHECK( std::get<0>( item ) == a[n] and std::get<1>( item ) == b[n], what, "position %zu gives (%d, %d), expected (%d, %d)",
				          n, std::get<0>( item ), std::get<1>( item ), a[n], b[n] );
				++n;
			}
			MC_CHECK( n == a.size( ), what, "%zu items, expected %zu", n, a.size( ) );
		}
	}
	MC_TEST( zip_container ) {
		auto const n = mc::choose( 4 );
		std::vector<int> a;
		std::list<int> b;
		std::vector<int> bv;
		for( unsigned i = 0; i != n; ++i ) {
			a.push_back( static_cast<int>( mc::choose( 2 ) ) );
			b.push_back( static_cast<int>( mc::choose( 2 ) ) + 10 );
			bv.push_back( b.back( ) );
		}
		daw::zip_container z( a, b );
		read_zip( "zip", z, a, bv );
		read_zip( "zip", std::as_const( z ), a, bv );
		read_zip( "zip", daw::make_zipcontainer( a, b ), a, bv );
		read_zip( "zip-const", daw::make_zipcontainer( std::as_const( a ), std::as_const( b ) ), a, bv );
		read_zip( "zip-temporary", daw::make_zipcontainer( std::vector<int>( a ), b ), a, bv );
		{
			daw::zip_container t{ std::vector<int>( a ), std::list<int>( b ) };
			read_zip( "zip-temporary", t, a, bv );
			read_zip( "zip-temporary", std::as_const( t ), a, bv );
			auto u = t;
			read_zip( "zip-temporary", u, a, bv );
			auto m = std::move( t );
			read_zip( "zip-temporary", m, a, bv );
		}
		MC_CHECK( ( z.cbegin( ) == z.cend( ) ) == ( n == 0 ), "zip", "cbegin == cend with %u items", n );
		// writes go to the containers
		for( auto item : z ) {
			std::get<0>( item ) += 5;
			std::get<1>( item ) = std::get<0>( item );
		}
		auto bi = b.begin( );
		for( unsigned i = 0; i != n; ++i, ++bi ) {
			MC_CHECK( a[i] >= 5 and *bi == a[i], "zip", "writes through a zip do not reach the containers" );
		}
		mc::count_case( );
	}
} // namespace
