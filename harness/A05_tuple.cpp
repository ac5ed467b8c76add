// A05: daw::tuple against the separate values it stands for.
#include "mc.h"
#include "mc_tracked.h"

#include <daw/daw_tuple.h>

#include <array>
#include <memory>
#include <string>
#include <vector>

namespace {
	using T = mc::Tracked<0>;

	template<std::size_t N, typename = std::make_index_sequence<N>>
	struct tuple_of;
	template<std::size_t N, std::size_t... Is>
	struct tuple_of<N, std::index_sequence<Is...>> {
		template<std::size_t>
		using Elem = T;
		using type = daw::tuple<Elem<Is>...>;
		static type make( int const *v ) {
			return type{ T( v[Is] )... };
		}
		static void read( type const &t, std::vector<int> &out ) {
			out.clear( );
			( out.push_back( daw::get<Is>( t ).v ), ... );
		}
		template<typename F>
		static void at( std::size_t i, F f ) {
			(void)( ( Is == i ? ( f( std::integral_constant<std::size_t, Is>{ } ), true ) : false ) or ... );
		}
	};

	// every history of assignments over three tuples of N elements
	template<std::size_t N>
	void histories( int depth ) {
		using Tp = tuple_of<N>;
		using tuple_t = typename Tp::type;
		mc::with_tracking( [&] {
			std::array<std::vector<int>, 3> model;
			std::array<std::unique_ptr<tuple_t>, 3> t;
			for( int i = 0; i != 3; ++i ) {
				model[i].assign( N, 0 );
				int init[N];
				for( std::size_t k = 0; k != N; ++k ) {
					model[i][k] = init[k] = 10 * ( i + 1 ) + static_cast<int>( k );
				}
				t[i] = std::make_unique<tuple_t>( Tp::make( init ) );
			}
			for( int d = 0; d != depth; ++d ) {
				auto const a = mc::choose( 3 );
				switch( mc::choose( 6 ) ) {
				case 0: { // copy assignment
					auto const b = mc::choose( 3 );
					mc::note( "t%u = t%u", a, b );
					tuple_t const &src = *t[b];
					*t[a] = src;
					model[a] = model[b];
					break;
				}
				case 1: { // move assignment leaves moved-from elements
					auto const b = mc::choose( 3 );
					if( a == b ) {
						break;
					}
					mc::note( "t%u = move(t%u)", a, b );
					*t[a] = std::move( *t[b] );
					model[a] = model[b];
					model[b].assign( N, mc::MOVED );
					break;
				}
				case 2: { // one element
					auto const k = mc::choose( static_cast<int>( N ) );
					mc::note( "get<%u>(t%u) = %d", k, a, 50 + d );
					Tp::at( k, [&]( auto I ) {
						daw::get<I.value>( *t[a] ) = T( 50 + d );
					} );
					model[a][k] = 50 + d;
					break;
				}
				case 3: { // construct a copy in place
					auto const b = mc::choose( 3 );
					mc::note( "t%u is a copy of t%u", a, b );
					t[a] = std::make_unique<tuple_t>( *t[b] );
					model[a] = model[b];
					break;
				}
				case 4: { // move one element out
					auto const k = mc::choose( static_cast<int>( N ) );
					mc::note( "x = get<%u>(move(t%u))", k, a );
					Tp::at( k, [&]( auto I ) {
						T x = daw::get<I.value>( std::move( *t[a] ) );
						MC_CHECK( x.v == model[a][k], "move-out", "moving element %u of %zu out gives %d, expected %d", k, N, x.v,
						          model[a][k] );
					} );
					model[a][k] = mc::MOVED;
					break;
				}
				default: {
					auto const b = mc::choose( 3 );
					if( a == b ) {
						break;
					}
					mc::note( "swap(t%u, t%u)", a, b );
					using std::swap;
					swap( *t[a], *t[b] );
					swap( model[a], model[b] );
				}
				}
				std::vector<int> got;
				for( int i = 0; i != 3; ++i ) {
					Tp::read( *t[i], got );
					MC_CHECK( got == model[i], "elements", "after %d operations tuple %d of %zu elements differs from its model",
					          d + 1, i, N );
					mc::obs( static_cast<unsigned long>( got[0] ) );
				}
				for( int i = 0; i != 3; ++i ) {
					for( int j = 0; j != 3; ++j ) {
						MC_CHECK( ( *t[i] == *t[j] ) == ( model[i] == model[j] ), "equality", "t%d == t%d", i, j );
						MC_CHECK( ( *t[i] != *t[j] ) == ( model[i] != model[j] ), "equality", "t%d != t%d", i, j );
					}
				}
			}
		} );
	}
	MC_TEST( history_1 ) {
		histories<1>( mc::by_tier( 3, 4 ) );
	}
	MC_TEST( history_2 ) {
		histories<2>( mc::by_tier( 2, 3 ) );
	}
	MC_TEST( history_3 ) {
		histories<3>( mc::by_tier( 2, 3 ) );
	}
	MC_TEST( history_4 ) {
		histories<4>( 2 );
	}

	// every pair of values at every position
	MC_TEST( equality ) {
		auto const n = static_cast<int>( mc::by_tier( 3, 4 ) );
		int v[6];
		for( auto &x : v ) {
			x = static_cast<int>( mc::choose( n ) );
		}
		auto const eq = [&]( int k ) {
			return std::equal( v, v + k, v + 3 );
		};
		daw::tuple<int, long, short> const a3{ v[0], static_cast<long>( v[1] ), static_cast<short>( v[2] ) };
		daw::tuple<long, int, int> const b3{ static_cast<long>( v[3] ), v[4], v[5] };
		MC_CHECK( ( a3 == b3 ) == eq( 3 ), "equality", "(%d,%d,%d) == (%d,%d,%d) is %d", v[0], v[1], v[2], v[3], v[4], v[5],
		          a3 == b3 );
		MC_CHECK( ( a3 != b3 ) == not eq( 3 ), "equality", "(%d,%d,%d) != (%d,%d,%d) is %d", v[0], v[1], v[2], v[3], v[4],
		          v[5], a3 != b3 );
		daw::tuple<int, int> const a2{ v[0], v[1] };
		daw::tuple<int, int> const b2{ v[3], v[4] };
		MC_CHECK( ( a2 == b2 ) == eq( 2 ) and ( a2 != b2 ) == not eq( 2 ), "equality", "(%d,%d) and (%d,%d)", v[0], v[1],
		          v[3], v[4] );
		daw::tuple<int> const a1{ v[0] };
		daw::tuple<int> const b1{ v[3] };
		MC_CHECK( ( a1 == b1 ) == eq( 1 ) and ( a1 != b1 ) == not eq( 1 ), "equality", "(%d) and (%d)", v[0], v[3] );
		daw::tuple<> const a0{ };
		daw::tuple<> const b0{ };
		MC_CHECK( a0 == b0 and not( a0 != b0 ), "equality", "two empty tuples are not equal" );
		MC_CHECK( not( a3 == a2 ) and a3 != a2 and not( a1 == a0 ) and a1 != a0, "equality",
		          "tuples of different sizes are equal" );
		mc::count_case( );
	}

	template<typename A, typename B>
	constexpr bool same = std::is_same_v<A, B>;

	MC_TEST( element_categories ) {
		using tp = daw::tuple<int, T, int &, int const, std::unique_ptr<int>>;
		MC_CHECK( ( same<decltype( daw::get<0>( std::declval<tp &>( ) ) ), int &> and
		            same<decltype( daw::get<1>( std::declval<tp const &>( ) ) ), T const &> and
		            same<decltype( daw::get<1>( std::declval<tp &&>( ) ) ), T &&> and
		            same<decltype( daw::get<2>( std::declval<tp &>( ) ) ), int &> and
		            same<decltype( daw::get<2>( std::declval<tp const &>( ) ) ), int &> and
		            same<decltype( daw::get<2>( std::declval<tp &&>( ) ) ), int &> and
		            same<decltype( daw::get<3>( std::declval<tp &>( ) ) ), int const &> ),
		          "category", "get gives an element of the wrong type" );
		MC_CHECK( ( std::tuple_size<tp>::value == 5 and same<std::tuple_element_t<0, tp>, int> and
		            same<std::tuple_element_t<1, tp>, T> and same<std::tuple_element_t<2, tp>, int &> and
		            same<std::tuple_element_t<4, tp>, std::unique_ptr<int>> ),
		          "traits", "tuple_size or tuple_element disagrees with the element types" );
		auto const which = mc::choose( 4 );
		mc::with_tracking( [&] {
			int x = 1;
			tp t{ 5, T( 6 ), x, 7, std::make_unique<int>( 8 ) };
			MC_CHECK( &daw::get<2>( t ) == &x, "reference", "a reference element refers to something else" );
			daw::get<2>( t ) = 3;
			MC_CHECK( x == 3, "reference", "assigning through a reference element" );
			if( which == 0 ) {
				auto p = daw::get<4>( std::move( t ) );
				MC_CHECK( p and *p == 8 and not daw::get<4>( t ), "move-only", "moving a move-only element out" );
				MC_CHECK( daw::get<1>( t ).v == 6, "move-only", "moving one element out changes another" );
			} else if( which == 1 ) {
				tp u{ std::move( t ) };
				MC_CHECK( *daw::get<4>( u ) == 8 and not daw::get<4>( t ) and daw::get<1>( u ).v == 6 and
				            daw::get<1>( t ).v == mc::MOVED and daw::get<0>( u ) == 5 and daw::get<3>( u ) == 7 and
				            &daw::get<2>( u ) == &x,
				          "move", "moving a tuple does not move each of its elements" );
			} else if( which == 2 ) {
				int calls = 0;
				auto const r = daw::apply(
				  [&]( int a, T &&b, int &c, int const d, std::unique_ptr<int> &&e ) {
					  ++calls;
					  auto taken = std::move( e );
					  T moved = std::move( b );
					  return a * 10000 + moved.v * 1000 + ( &c == &x ? 100 : 0 ) + d * 10 + *taken;
				  },
				  std::move( t ) );
				MC_CHECK( r == 56178 and calls == 1 and not daw::get<4>( t ) and daw::get<1>( t ).v == mc::MOVED, "apply",
				          "apply over an rvalue tuple gives %d after %d calls", r, calls );
			} else {
				auto const r = daw::apply(
				  [&]( int &a, T &b, int &c, int const &d, std::unique_ptr<int> &e ) {
					  return &a == &daw::get<0>( t ) and &b == &daw::get<1>( t ) and &c == &x and &d == &daw::get<3>( t ) and
					         &e == &daw::get<4>( t );
				  },
				  t );
				tp const &ct = t;
				auto const s = daw::apply(
				  [&]( int const &a, T const &b, int &c, int const &d, std::unique_ptr<int> const &e ) {
					  return &a == &daw::get<0>( t ) and &b == &daw::get<1>( t ) and &c == &x and &d == &daw::get<3>( t ) and
					         &e == &daw::get<4>( t );
				  },
				  ct );
				MC_CHECK( r and s, "apply", "apply over an lvalue tuple passes something other than its elements" );
			}
		} );
		mc::count_case( );
	}

	MC_TEST( makers ) {
		int const v[3] = { static_cast<int>( mc::choose( 3 ) ), static_cast<int>( mc::choose( 3 ) ),
		                   static_cast<int>( mc::choose( 3 ) ) };
		mc::with_tracking( [&] {
			int a = v[0];
			T b( v[1] );
			auto m = daw::make_tuple( a, b, std::ref( a ), T( v[2] ) );
			MC_CHECK( ( same<decltype( m ), daw::tuple<int, T, int &, T>> ), "make_tuple", "make_tuple gives the wrong types" );
			MC_CHECK( daw::get<0>( m ) == v[0] and daw::get<1>( m ).v == v[1] and &daw::get<2>( m ) == &a and
			            daw::get<3>( m ).v == v[2] and b.v == v[1],
			          "make_tuple", "make_tuple of %d %d %d", v[0], v[1], v[2] );
			a = 9;
			MC_CHECK( daw::get<0>( m ) == v[0] and daw::get<2>( m ) == 9, "make_tuple", "copies or refers to the wrong element" );
			auto t = daw::tie( a, b );
			daw::get<0>( t ) = v[2];
			daw::get<1>( t ) = T( v[0] );
			MC_CHECK( a == v[2] and b.v == v[0], "tie", "assigning the elements of a tie" );
			auto f = daw::forward_as_tuple( a, std::move( b ) );
			MC_CHECK( ( same<decltype( f ), daw::tuple<int &, T &&>> and &daw::get<0>( f ) == &a ), "forward_as_tuple",
			          "forward_as_tuple does not refer to its arguments" );
			T taken = daw::get<1>( std::move( f ) );
			MC_CHECK( taken.v == v[0] and b.v == mc::MOVED, "forward_as_tuple", "moving from a forwarded element" );
			daw::tuple d{ v[0], static_cast<long>( v[1] ), std::string( static_cast<std::size_t>( v[2] ), 'x' ) };
			MC_CHECK( ( same<decltype( d ), daw::tuple<int, long, std::string>> and daw::get<0>( d ) == v[0] and
			            daw::get<1>( d ) == v[1] and daw::get<2>( d ).size( ) == static_cast<std::size_t>( v[2] ) ),
			          "construct", "a deduced tuple of %d %d %d", v[0], v[1], v[2] );
			auto copy = d;
			MC_CHECK( copy == d, "construct", "a copied tuple differs" );
			daw::tuple<std::string> one{ std::string( 3, 'y' ) };
			auto one_copy = one;
			auto one_moved = std::move( one );
			MC_CHECK( daw::get<0>( one_copy ) == "yyy" and daw::get<0>( one_moved ) == "yyy", "construct",
			          "copying or moving a one element tuple" );
		} );
		mc::count_case( );
	}

	struct E1 {
		int tag( ) const {
			return 1;
		}
		bool operator==( E1 const & ) const = default;
	};
	struct E2 {
		int tag( ) const {
			return 2;
		}
		bool operator==( E2 const & ) const = default;
	};
	MC_TEST( empty_elements ) {
		auto const x = static_cast<int>( mc::choose( 3 ) );
		daw::tuple<E1, int, E2, E1> t{ E1{ }, x, E2{ }, E1{ } };
		MC_CHECK( daw::get<0>( t ).tag( ) == 1 and daw::get<1>( t ) == x and daw::get<2>( t ).tag( ) == 2 and
		            daw::get<3>( t ).tag( ) == 1,
		          "empty", "elements of empty class type are mixed up" );
		MC_CHECK( static_cast<void *>( &daw::get<0>( t ) ) != static_cast<void *>( &daw::get<3>( t ) ), "empty",
		          "two elements of the same type share an address" );
		auto u = t;
		MC_CHECK( daw::get<0>( u ).tag( ) == 1 and daw::get<1>( u ) == x and daw::get<2>( u ).tag( ) == 2, "empty",
		          "copy differs" );
		mc::count_case( );
	}

	// an exception from any element's construction or assignment leaks nothing
	MC_TEST( faults ) {
		mc::set_fault_budget( 2 );
		mc::with_tracking( [&] {
			int const v[3] = { 1, 2, 3 };
			auto t = tuple_of<3>::make( v );
			int const w[3] = { 4, 5, 6 };
			auto u = tuple_of<3>::make( w );
			auto const op = mc::choose( 4 );
			try {
				mc::FaultScope fs( false, true );
				switch( op ) {
				case 0: {
					auto c = t;
					MC_CHECK( c == t, "fault", "copy differs" );
					break;
				}
				case 1: {
					auto c = std::move( t );
					MC_CHECK( daw::get<2>( c ).v == 3, "fault", "moved copy differs" );
					break;
				}
				case 2:
					u = t;
					break;
				default:
					(void)daw::make_tuple( daw::get<0>( t ), daw::get<1>( t ), T( 9 ) );
				}
			} catch( mc::InjectedFault const & ) {
			}
			MC_CHECK( mc::tr::reg.n == 6, "fault", "%u elements are alive, expected the 6 of the two tuples", mc::tr::reg.n );
		} );
		mc::count_case( );
	}
} // namespace
