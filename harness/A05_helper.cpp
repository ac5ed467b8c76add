// A05: helpers over std::tuple against the same operation on each element.
// MC-FLAGS: -O0
#include "mc.h"
#include "mc_tracked.h"

#include <daw/daw_tuple_helper.h>

#include <sstream>
#include <string>
#include <vector>

namespace {
	using T = mc::Tracked<0>;
	template<int>
	struct Tag {
		int v;
	};

	// daw::get( tuple, index ) for every index, lvalue and const
	MC_TEST( runtime_get ) {
		auto const n = mc::choose( 4 );
		std::tuple<int, Tag<1>, std::string, double> t{ 5, Tag<1>{ 6 }, "seven", 8.5 };
		auto r = daw::get( t, n );
		MC_CHECK( r.index( ) == n, "index", "get(t, %u) gives alternative %zu", n, r.index( ) );
		bool ok = false;
		switch( n ) {
		case 0:
			ok = &std::get<0>( r ).get( ) == &std::get<0>( t );
			break;
		case 1:
			ok = &std::get<1>( r ).get( ) == &std::get<1>( t );
			break;
		case 2:
			ok = &std::get<2>( r ).get( ) == &std::get<2>( t );
			break;
		default:
			ok = &std::get<3>( r ).get( ) == &std::get<3>( t );
		}
		MC_CHECK( ok, "element", "get(t, %u) does not refer to element %u", n, n );
		auto c = daw::get( std::as_const( t ), n );
		MC_CHECK( c.index( ) == n, "index", "get(const t, %u) gives alternative %zu", n, c.index( ) );
		MC_CHECK( mc::aborts( [&] { (void)daw::get( t, 4 ); } ), "range", "get(t, 4) of 4 elements is not refused" );
		mc::count_case( );
	}

	// apply_at for every index, category and set of callables
	MC_TEST( apply_at ) {
		auto const n = mc::choose( 6 );
		auto const cat = mc::choose( 3 );
		mc::with_tracking( [&] {
			std::tuple<int, T, std::string, T> t{ 1, T( 2 ), "three", T( 4 ) };
			int calls = 0;
			int ints = 0, tracked = 0, strings = 0;
			void const *seen = nullptr;
			auto const fi = [&]( int const &i ) {
				++calls;
				++ints;
				seen = &i;
			};
			auto const ft = [&]( T const &i ) {
				++calls;
				++tracked;
				seen = &i;
			};
			auto const fs = [&]( std::string const &s ) {
				++calls;
				++strings;
				seen = &s;
			};
			if( cat == 0 ) {
				daw::tuple::apply_at( t, n, fi, ft, fs );
			} else if( cat == 1 ) {
				daw::tuple::apply_at( std::as_const( t ), n, fi, ft, fs );
			} else {
				daw::tuple::apply_at( std::move( t ), n, fi, ft, fs );
			}
			void const *const want = n == 0   ? static_cast<void const *>( &std::get<0>( t ) )
			                         : n == 1 ? static_cast<void const *>( &std::get<1>( t ) )
			                         : n == 2 ? static_cast<void const *>( &std::get<2>( t ) )
			                         : n == 3 ? static_cast<void const *>( &std::get<3>( t ) )
			                                  : nullptr;
			MC_CHECK( calls == ( n < 4 ) and seen == want and ints == ( n == 0 ) and strings == ( n == 2 ) and
			            tracked == ( n == 1 or n == 3 ),
			          "apply_at", "apply_at(%u) makes %d calls (%d, %d, %d)", n, calls, ints, tracked, strings );
			// elements no callable accepts are passed over
			calls = 0;
			daw::tuple::apply_at( t, n, fs );
			MC_CHECK( calls == ( n == 2 ), "apply_at", "apply_at(%u) with only a string callable makes %d calls", n, calls );
			// changes are made to the element itself
			daw::tuple::apply_at(
			  t, n,
			  []( int &i ) {
				  i += 10;
			  },
			  []( T &x ) {
				  x = T( x.v + 10 );
			  },
			  []( std::string &s ) {
				  s += "!";
			  } );
			MC_CHECK( std::get<0>( t ) == ( n == 0 ? 11 : 1 ) and std::get<1>( t ).v == ( n == 1 ? 12 : 2 ) and
			            std::get<2>( t ) == ( n == 2 ? "three!" : "three" ) and std::get<3>( t ).v == ( n == 3 ? 14 : 4 ),
			          "apply_at", "apply_at(%u) changes the wrong element", n );
			// an rvalue's element can be moved from
			T got( 0 );
			daw::tuple::apply_at( std::move( t ), n, [&]<typename U>( U &&x )
			                                        requires( std::is_same_v<U, T> )
			{
				got = std::move( x );
			} );
			MC_CHECK( got.v == ( n == 1 ? 12 : n == 3 ? 14 : 0 ), "apply_at", "apply_at(%u) of an rvalue gives %d", n, got.v );
		} );
		mc::count_case( );
	}

	MC_TEST( for_each ) {
		std::tuple<int, long, short> t{ static_cast<int>( mc::choose( 3 ) ), static_cast<long>( mc::choose( 3 ) ),
		                                static_cast<short>( mc::choose( 3 ) ) };
		std::vector<long> seen;
		daw::tuple::for_each( t, [&]( auto const &v ) {
			seen.push_back( static_cast<long>( v ) * 10 + static_cast<long>( sizeof v ) );
		} );
		std::vector<long> const want{ std::get<0>( t ) * 10 + 4, std::get<1>( t ) * 10 + 8, std::get<2>( t ) * 10 + 2 };
		MC_CHECK( seen == want, "for_each", "for_each does not visit the elements in order" );
		auto const before = t;
		daw::tuple::apply( t, []( auto &v ) {
			v = static_cast<std::remove_reference_t<decltype( v )>>( v + 1 );
		} );
		MC_CHECK( std::get<0>( t ) == std::get<0>( before ) + 1 and std::get<1>( t ) == std::get<1>( before ) + 1 and
		            std::get<2>( t ) == std::get<2>( before ) + 1,
		          "apply", "apply does not change every element once" );
		int zero = 0;
		daw::tuple::for_each( std::tuple<>{ }, [&]( auto const & ) {
			++zero;
		} );
		MC_CHECK( zero == 0, "for_each", "an element of an empty tuple" );
		mc::count_case( );
	}

	using t3 = std::tuple<int, long, unsigned char>;
	template<typename F>
	t3 each( t3 const &a, t3 const &b, F f ) {
		return { static_cast<int>( f( std::get<0>( a ), std::get<0>( b ) ) ),
		         static_cast<long>( f( std::get<1>( a ), std::get<1>( b ) ) ),
		         static_cast<unsigned char>( f( std::get<2>( a ), std::get<2>( b ) ) ) };
	}

	// every operator over every pair of operands
	MC_TEST( arithmetic ) {
		using namespace daw::tuple::operators;
		static constexpr int vals[] = { -7, 0, 3, 12 };
		auto const val = [&] {
			return vals[mc::choose( 4 )];
		};
		auto const at = [&]( int k ) {
			auto const u = static_cast<unsigned char>( vals[( k + 1 ) % 4] + 8 );
			return t3{ vals[k % 4], static_cast<long>( vals[( k * 3 + 2 ) % 4] ) * 1'000'000'007L, u };
		};
		t3 const a{ val( ), static_cast<long>( val( ) ) * 1'000'000'007L, static_cast<unsigned char>( val( ) + 8 ) };
		t3 const b = at( static_cast<int>( mc::choose( 4 ) ) );
		int const s = val( );
		t3 const sv{ s, s, 0 };
		auto const scalar = [&]( auto f, bool left ) {
			return left ? t3{ f( s, std::get<0>( a ) ), f( s, std::get<1>( a ) ),
			                  static_cast<unsigned char>( f( s, std::get<2>( a ) ) ) }
			            : t3{ f( std::get<0>( a ), s ), f( std::get<1>( a ), s ),
			                  static_cast<unsigned char>( f( std::get<2>( a ), s ) ) };
		};
		auto const add = []( auto x, auto y ) {
			return x + y;
		};
		auto const sub = []( auto x, auto y ) {
			return x - y;
		};
		auto const mul = []( auto x, auto y ) {
			return x * y;
		};
		auto const div = []( auto x, auto y ) {
			return x / y;
		};
		MC_CHECK( a + b == each( a, b, add ) and a + s == scalar( add, false ) and s + a == scalar( add, true ), "add",
		          "(%d %ld %d) + ", std::get<0>( a ), std::get<1>( a ), std::get<2>( a ) );
		MC_CHECK( a - b == each( a, b, sub ) and a - s == scalar( sub, false ) and s - a == scalar( sub, true ), "sub",
		          "(%d %ld %d) - ", std::get<0>( a ), std::get<1>( a ), std::get<2>( a ) );
		t3 const small{ std::get<0>( b ), s, std::get<2>( b ) };
		MC_CHECK( a * small == each( a, small, mul ) and a * s == scalar( mul, false ) and s * a == scalar( mul, true ), "mul",
		          "(%d %ld %d) * ", std::get<0>( a ), std::get<1>( a ), std::get<2>( a ) );
		auto const nz = []( t3 const &t ) {
			return std::get<0>( t ) != 0 and std::get<1>( t ) != 0 and std::get<2>( t ) != 0;
		};
		if( nz( b ) ) {
			MC_CHECK( a / b == each( a, b, div ), "div", "(%d %ld %d) / ", std::get<0>( a ), std::get<1>( a ),
			          std::get<2>( a ) );
		}
		if( nz( a ) ) {
			MC_CHECK( s / a == scalar( div, true ), "div", "%d / (%d %ld %d)", s, std::get<0>( a ), std::get<1>( a ),
			          std::get<2>( a ) );
		}
		if( s != 0 ) {
			MC_CHECK( a / s == scalar( div, false ), "div", "(%d %ld %d) / %d", std::get<0>( a ), std::get<1>( a ),
			          std::get<2>( a ), s );
		}
		MC_CHECK( ( daw::tuple::min )( a, b ) == each( a, b, []( auto x, auto y ) { return y < x ? y : x; } ), "min",
		          "min of two tuples" );
		MC_CHECK( ( daw::tuple::max )( a, b ) == each( a, b, []( auto x, auto y ) { return x < y ? y : x; } ), "max",
		          "max of two tuples" );
		std::ostringstream os, want;
		{
			using daw::tuple::operator<<;
			os << a;
		}
		want << "{ " << std::get<0>( a ) << ", " << std::get<1>( a ) << ", " << std::get<2>( a ) << " }";
		MC_CHECK( os.str( ) == want.str( ), "print", "printed as %s, expected %s", os.str( ).c_str( ), want.str( ).c_str( ) );
		mc::count_case( );
	}

	struct Agg {
		int a;
		std::string b;
		T c;
	};
	struct Ctor {
		int a;
		T b;
		Ctor( int x, T y )
		  : a( x )
		  , b( std::move( y ) ) {}
	};

	MC_TEST( make ) {
		int const x = static_cast<int>( mc::choose( 4 ) );
		int const y = static_cast<int>( mc::choose( 4 ) );
		mc::with_tracking( [&] {
			std::tuple<int, std::string, T> t{ x, "abc", T( y ) };
			auto const a = daw::make_from_tuple2<Agg>( t );
			MC_CHECK( a.a == x and a.b == "abc" and a.c.v == y and std::get<2>( t ).v == y and std::get<1>( t ) == "abc", "make",
			          "an aggregate made from (%d, abc, %d)", x, y );
			auto const copies = mc::tr::copies;
			auto const b = daw::make_from_tuple2<Agg>( std::move( t ) );
			MC_CHECK( b.a == x and b.b == "abc" and b.c.v == y and mc::tr::copies == copies, "make",
			          "an aggregate made from an rvalue (%d, abc, %d)", x, y );
			auto const c = daw::make_from_tuple2<Ctor>( std::tuple<int, T>{ x, T( y ) } );
			MC_CHECK( c.a == x and c.b.v == y, "make", "a class made from (%d, %d)", x, y );
			T l( y );
			auto f = daw::forward_nontemp_as_tuple( l, T( x ), x );
			MC_CHECK( ( std::is_same_v<decltype( f ), std::tuple<T &, T, int const &>> and &std::get<0>( f ) == &l and
			            std::get<1>( f ).v == x and &std::get<2>( f ) == &x ),
			          "forward", "lvalues are not referred to or rvalues not held" );
			MC_CHECK( ( daw::tuple_size_v<std::tuple<>> == 0 and daw::tuple_size_v<std::tuple<int, T>> == 2 and
			            daw::tuple_size_v<std::tuple<int, T> const &> == 2 and daw::is_empty_tuple_v<std::tuple<>> and
			            not daw::is_empty_tuple_v<std::tuple<int>> ),
			          "size", "tuple_size_v" );
		} );
		mc::count_case( );
	}
} // namespace
