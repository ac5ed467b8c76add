// A05: tuple2 against the separate values it stands for.
// MC-FLAGS: -O0
#include "mc.h"
#include "mc_tracked.h"

#include <daw/daw_tuple2.h>

#include <memory>
#include <string>
#include <vector>

namespace {
	using T = mc::Tracked<0>;

	template<typename Tp>
	std::vector<int> read( Tp const &t ) {
		return [&]<std::size_t... Is>( std::index_sequence<Is...> ) {
			return std::vector<int>{ daw::get<Is>( t ).v... };
		}( std::make_index_sequence<Tp::size( )>{ } );
	}

	template<std::size_t N>
	auto make( int from ) {
		return [&]<std::size_t... Is>( std::index_sequence<Is...> ) {
			if constexpr( N == 0 ) {
				(void)from;
				return daw::tuple2<>{ };
			} else {
				return daw::tuple2{ T( from + static_cast<int>( Is ) )... };
			}
		}( std::make_index_sequence<N>{ } );
	}
	std::vector<int> iota( std::size_t n, int from ) {
		std::vector<int> r;
		for( std::size_t i = 0; i != n; ++i ) {
			r.push_back( from + static_cast<int>( i ) );
		}
		return r;
	}
	std::vector<int> cat( std::initializer_list<std::vector<int>> l ) {
		std::vector<int> r;
		for( auto const &x : l ) {
			r.insert( r.end( ), x.begin( ), x.end( ) );
		}
		return r;
	}

	template<std::size_t A, std::size_t B, std::size_t C>
	void cat3( ) {
		mc::with_tracking( [&] {
			auto a = make<A>( 10 );
			auto const b = make<B>( 20 );
			auto c = make<C>( 30 );
			auto const want = cat( { iota( A, 10 ), iota( B, 20 ), iota( C, 30 ) } );
			auto const r = daw::tuple2_cat( a, b, c );
			MC_CHECK( read( r ) == want, "cat", "concatenating tuples of %zu, %zu and %zu elements", A, B, C );
			MC_CHECK( read( a ) == iota( A, 10 ) and read( b ) == iota( B, 20 ) and read( c ) == iota( C, 30 ), "cat",
			          "concatenating lvalue tuples of %zu, %zu and %zu elements changes them", A, B, C );
			auto const copies = mc::tr::copies;
			auto const m = daw::tuple2_cat( a, b, std::move( c ) );
			MC_CHECK( read( m ) == want, "cat", "concatenating tuples of %zu, %zu and (rvalue) %zu elements", A, B, C );
			MC_CHECK( mc::tr::copies - copies == A + B, "cat", "%lu copies to concatenate %zu, %zu and (rvalue) %zu elements",
			          mc::tr::copies - copies, A, B, C );
			auto const two = daw::tuple2_cat( a, b );
			MC_CHECK( read( two ) == cat( { iota( A, 10 ), iota( B, 20 ) } ), "cat", "concatenating %zu and %zu elements", A, B );
			auto const one = daw::tuple2_cat( a );
			MC_CHECK( read( one ) == iota( A, 10 ), "cat", "a tuple of %zu elements alone", A );
		} );
		mc::count_case( );
	}
	template<std::size_t... Ns>
	void all_cats( std::index_sequence<Ns...> ) {
		( cat3<Ns / 16, Ns / 4 % 4, Ns % 4>( ), ... );
	}
	MC_TEST( concatenate ) {
		all_cats( std::make_index_sequence<64>{ } );
	}

	template<typename A, typename B>
	constexpr bool same = std::is_same_v<A, B>;

	MC_TEST( elements ) {
		int const v[4] = { static_cast<int>( mc::choose( 3 ) ), static_cast<int>( mc::choose( 3 ) ),
		                   static_cast<int>( mc::choose( 3 ) ), static_cast<int>( mc::choose( 3 ) ) };
		mc::with_tracking( [&] {
			int x = v[3];
			using tp = daw::tuple2<int, T, std::unique_ptr<int>, int &, std::string>;
			tp t{ v[0], T( v[1] ), std::make_unique<int>( v[2] ), x, std::string( 2, 'q' ) };
			MC_CHECK( ( same<decltype( daw::get<0>( t ) ), int &> and same<decltype( daw::get<1>( t ) ), T &> and
			            same<decltype( daw::get<1>( std::as_const( t ) ) ), T const &> and
			            same<decltype( daw::get<1>( std::move( t ) ) ), T &&> and
			            same<decltype( daw::get<0>( std::move( t ) ) ), int &&> and
			            same<decltype( daw::get<3>( std::move( t ) ) ), int &> and daw::tuple2_size_v<tp> == 5 and
			            same<daw::tuple2_element_t<2, tp>, std::unique_ptr<int>> ),
			          "category", "get gives an element of the wrong type" );
			MC_CHECK( daw::get<0>( t ) == v[0] and daw::get<1>( t ).v == v[1] and *daw::get<2>( t ) == v[2] and
			            &daw::get<3>( t ) == &x and daw::get<4>( t ) == "qq",
			          "elements", "a tuple2 of %d %d %d %d reads differently", v[0], v[1], v[2], v[3] );
			daw::get<1>( t ) = T( 7 );
			daw::get<0>( t ) = 8;
			daw::get<3>( t ) = 9;
			MC_CHECK( daw::get<0>( t ) == 8 and daw::get<1>( t ).v == 7 and *daw::get<2>( t ) == v[2] and x == 9, "elements",
			          "assigning elements" );
			auto const r = daw::apply( t, [&]( int &a, T &b, std::unique_ptr<int> &c, int &d, std::string &e ) {
				return &a == &daw::get<0>( t ) and &b == &daw::get<1>( t ) and &c == &daw::get<2>( t ) and &d == &x and
				       &e == &daw::get<4>( t );
			} );
			MC_CHECK( r, "apply", "apply over an lvalue passes something other than the elements" );
			auto const s =
			  daw::apply( std::move( t ), [&]( int &&a, T &&b, std::unique_ptr<int> &&c, int &d, std::string &&e ) {
				  auto p = std::move( c );
				  T y = std::move( b );
				  return a == 8 and y.v == 7 and *p == v[2] and &d == &x and e == "qq";
			  } );
			MC_CHECK( s and not daw::get<2>( t ) and daw::get<1>( t ).v == mc::MOVED, "apply",
			          "apply over an rvalue does not pass its elements as rvalues" );
			auto p = daw::get<4>( std::move( t ) );
			MC_CHECK( p == "qq", "move", "moving an element out" );
			T local( v[0] );
			auto f = daw::forward_as_tuple2( x, local );
			MC_CHECK( &daw::get<0>( f ) == &x and &daw::get<1>( f ) == &local, "forward", "lvalues are not referred to" );
		} );
		mc::count_case( );
	}
} // namespace
