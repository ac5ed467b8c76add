// O08: callable adaptors: which target is called, with which arguments.
#include "mc.h"
#include "mc_tracked.h"

#include <daw/daw_bind_front.h>
#include <daw/daw_construct_a.h>
#include <daw/daw_lift.h>
#include <daw/daw_named_params.h>
#include <daw/daw_operators.h>
#include <daw/daw_overload.h>

#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace {
	using TM = mc::Tracked<mc::NoThrowMove>;

	// ---- what a call saw ----------------------------------------------------------
	struct Log {
		int calls = 0;
		std::vector<int> args;
	};
	struct Arg { // remembers how it was passed
		int v;
	};
	struct Recorder {
		Log *log;
		int tag = 0;
		int one( Arg & ) const {
			return 1;
		}
		int one( Arg const & ) const {
			return 2;
		}
		int one( Arg && ) const {
			return 3;
		}
		template<typename... Args>
		int operator( )( Args &&...args ) {
			++log->calls;
			log->args = { 100, value( std::forward<Args>( args ) )... };
			return tag;
		}
		template<typename... Args>
		int operator( )( Args &&...args ) const {
			++log->calls;
			log->args = { 200, value( std::forward<Args>( args ) )... };
			return tag;
		}
		template<typename A>
		int value( A &&a ) const {
			if constexpr( std::is_same_v<std::remove_cvref_t<A>, Arg> ) {
				return one( std::forward<A>( a ) ) * 1000 + a.v;
			} else if constexpr( std::is_same_v<std::remove_cvref_t<A>, TM> ) {
				return mc::val( a );
			} else if constexpr( std::is_same_v<std::remove_cvref_t<A>, std::string> ) {
				return static_cast<int>( a.size( ) );
			} else {
				return static_cast<int>( a );
			}
		}
	};
	int free_sum( int a, int b, int c ) {
		return a * 100 + b * 10 + c;
	}
	int on_noexcept( long *p ) noexcept {
		return static_cast<int>( *p );
	}
	int free_noexcept( int a ) noexcept {
		return a + 5;
	}
	struct Member {
		int base = 7;
		int add( int x ) const {
			return base + x;
		}
	};

	void bind_front( ) {
		Log log;
		int const n_bound = mc::choose_range( 0, 3 );
		int const n_args = mc::choose_range( 0, 2 );
		bool const as_const = mc::choose( 2 );
		int const a = mc::choose_range( 1, 2 );
		int const repeat = mc::choose_range( 1, 3 );
		Arg lv{ 4 };
		Arg const cv{ 5 };
		auto const run = [&]( auto b, std::vector<int> bound ) {
			auto const &c = b;
			for( int r = 0; r != repeat; ++r ) {
				std::vector<int> expect{ as_const ? 200 : 100 };
				expect.insert( expect.end( ), bound.begin( ), bound.end( ) );
				int result = 0;
				int const kind = mc::choose( n_args ? 3 : 1 );
				auto const call = [&]( auto &&...xs ) { result = as_const ? c( std::forward<decltype( xs )>( xs )... ) : b( std::forward<decltype( xs )>( xs )... ); };
				if( n_args == 0 ) {
					call( );
				} else {
					auto const first = [&]( auto &&...more ) {
						if( kind == 0 ) {
							call( lv, more... );
							expect.push_back( 1004 );
						} else if( kind == 1 ) {
							call( cv, more... );
							expect.push_back( 2005 );
						} else {
							call( Arg{ 6 }, more... );
							expect.push_back( 3006 );
						}
					};
					if( n_args == 1 ) {
						first( );
					} else {
						first( 42 );
						expect.push_back( 42 );
					}
				}
				MC_CHECK( result == 9, "result", "result %d", result );
				MC_CHECK( log.calls == r + 1, "calls", "%d calls for %d", log.calls, r + 1 );
				MC_CHECK( log.args == expect, "arguments", "call %d with %d bound and %d arguments passed something else", r, n_bound, n_args );
			}
		};
		Recorder rec{ &log, 9 };
		switch( n_bound ) {
		case 0: run( daw::bind_front( rec ), { } ); break;
		case 1: run( daw::bind_front( rec, a ), { a } ); break;
		case 2: run( daw::bind_front( rec, a, std::string( 30, 'x' ) ), { a, 30 } ); break;
		default: mc::with_tracking( [&] { run( daw::bind_front( rec, TM( a ), 3L, TM( 5 ) ), { a, 3, 5 } ); } ); break;
		}
	}
	void bind_front_kinds( ) {
		int const x = mc::choose_range( 0, 2 );
		{
			auto f = daw::bind_front( &free_sum, 1, x );
			MC_CHECK( f( 3 ) == 103 + 10 * x, "function", "bound function" );
			auto g = daw::bind_front( f, 4 );
			MC_CHECK( g( ) == 104 + 10 * x, "nested", "bound bind_front" );
		}
		{
			Member m{ 10 };
			auto f = daw::bind_front( &Member::add, &m );
			MC_CHECK( f( x ) == 10 + x, "member", "bound member function" );
			auto g = daw::bind_front( &Member::add, m, x );
			m.base = 50;
			MC_CHECK( g( ) == 10 + x and f( x ) == 50 + x, "by-value", "bound arguments are not copies" );
			auto h = daw::bind_front( &Member::base, &m );
			h( ) = 60;
			MC_CHECK( m.base == 60, "reference-result", "a reference result does not refer" );
		}
		{ // copies are independent of each other and of the source
			std::string s( 20, 'a' );
			auto f = daw::bind_front( []( std::string const &t, int k ) { return t.size( ) + k; }, s );
			s.clear( );
			auto g = f;
			std::function<std::size_t( int )> h( f );
			auto i( g );
			auto j( std::move( g ) );
			MC_CHECK( f( x ) == 20u + x and h( x ) == 20u + x and i( x ) == 20u + x and j( x ) == 20u + x, "copies", "a copy calls something else" );
		}
		{
			int target = 1;
			auto f = daw::bind_front( []( int &t, int k ) { t += k; }, std::ref( target ) );
			f( x );
			f( x );
			MC_CHECK( target == 1 + 2 * x, "reference", "a bound reference_wrapper does not refer" );
		}
		{ // moved in, only invoked while the parameters can be copied
			int counter = 0;
			auto f = daw::bind_front( [&counter, k = 0]( int a ) mutable { counter = ++k * a; }, 3 );
			f( );
			f( );
			MC_CHECK( counter == 6, "state", "the callable's state is not kept: %d", counter );
		}
	}

	// ---- overload -------------------------------------------------------------------
	struct OnInt {
		int operator( )( int ) const {
			return 1;
		}
	};
	struct OnDouble {
		int operator( )( double ) const {
			return 2;
		}
	};
	struct OnString {
		int operator( )( std::string const & ) const {
			return 3;
		}
	};
	struct OnAny {
		template<typename... T>
		int operator( )( T &&... ) const {
			return 4;
		}
	};
	struct OnTwo {
		int operator( )( int, int ) const {
			return 5;
		}
	};
	struct Counting {
		TM t{ 6 };
		int operator( )( char const *, int ) const {
			return mc::val( t );
		}
	};
	int on_short( short *p ) {
		return *p;
	}
	int overloaded( int ) {
		return 11;
	}
	int overloaded( std::string const & ) {
		return 12;
	}
	int overloaded( int a, int b ) noexcept {
		return a * b;
	}

	template<typename O>
	void check_overload( O &o, bool any ) {
		O const &c = o;
		MC_CHECK( o( 1 ) == 1 and c( 1 ) == 1, "int", "int goes to target %d", o( 1 ) );
		MC_CHECK( o( 1.5 ) == 2 and c( 1.5 ) == 2, "double", "double goes to target %d", o( 1.5 ) );
		MC_CHECK( c( std::string( "a" ) ) == ( any ? 4 : 3 ), "string", "string goes to target %d", c( std::string( "a" ) ) );
		std::string const s;
		MC_CHECK( c( s ) == 3, "const-string", "const string goes to target %d", c( s ) );
		MC_CHECK( c( 1, 2 ) == 5, "two", "two ints go to target %d", c( 1, 2 ) );
	}
	void overloads( ) {
		mc::with_tracking( [] {
			switch( mc::choose( 6 ) ) {
			case 0: {
				auto o = daw::overload( OnInt{ }, OnDouble{ }, OnString{ }, OnTwo{ } );
				check_overload( o, false );
			} break;
			case 1: {
				auto o = daw::overload( OnTwo{ }, OnAny{ }, OnString{ }, OnDouble{ }, OnInt{ } );
				check_overload( o, true );
				MC_CHECK( o( nullptr ) == 4 and o( ) == 4, "any", "the catch-all is not called" );
			} break;
			case 2: { // lvalues are copied
				OnInt a;
				OnDouble const b;
				OnString c;
				OnTwo const d;
				auto const o = daw::overload( a, b, c, d );
				check_overload( o, false );
				auto p = daw::overload( daw::overload( OnInt{ }, OnTwo{ } ), daw::overload( OnDouble{ }, OnString{ } ) );
				check_overload( p, false );
			} break;
			case 3: {
				Counting k;
				auto o = daw::overload( k, OnInt{ }, Counting( k ).t.v ? OnDouble{ } : OnDouble{ }, OnString{ }, OnTwo{ } );
				check_overload( o, false );
				MC_CHECK( o( "x", 1 ) == 6 and mc::val( k.t ) == 6, "owning", "owning target" );
				auto q = daw::overload( std::move( k ), OnInt{ } );
				MC_CHECK( q( "x", 1 ) == 6 and q( 3 ) == 1, "moved", "moved target" );
				auto r = q;
				MC_CHECK( r( "x", 1 ) == 6, "copy", "copied overload set" );
			} break;
			case 4: { // functions and pointers to functions
				short sh = 21;
				int ( *const fp )( short * ) = &on_short;
				int ( *fq )( short * ) = &on_short;
				auto o = daw::overload( &on_short, OnInt{ }, OnDouble{ }, OnString{ }, OnTwo{ } );
				auto p = daw::overload( on_short, OnInt{ }, OnDouble{ }, OnString{ }, OnTwo{ } );
				auto q = daw::overload( fp, OnInt{ }, OnDouble{ }, OnString{ }, OnTwo{ } );
				auto r = daw::overload( fq, OnInt{ }, OnDouble{ }, OnString{ }, OnTwo{ } );
				check_overload( o, false );
				check_overload( p, false );
				check_overload( q, false );
				check_overload( r, false );
				MC_CHECK( o( &sh ) == 21 and p( &sh ) == 21 and q( &sh ) == 21 and r( &sh ) == 21, "function", "function target" );
				long lg = 22;
				auto u = daw::overload( &on_noexcept, &on_short, OnInt{ }, OnDouble{ }, OnString{ }, OnTwo{ } );
				auto v = daw::overload( on_short, on_noexcept, OnInt{ }, OnDouble{ }, OnString{ }, OnTwo{ } );
				check_overload( u, false );
				check_overload( v, false );
				MC_CHECK( u( &lg ) == 22 and v( &lg ) == 22 and u( &sh ) == 21 and v( &sh ) == 21, "function-noexcept", "noexcept function target" );
			} break;
			default: { // state of a target is its own
				int calls = 0;
				auto o = daw::overload( [n = 0, &calls]( int k ) mutable { calls += k; return ++n; }, []( std::string const & ) { return -1; } );
				MC_CHECK( o( 2 ) == 1 and o( 3 ) == 2 and calls == 5 and o( "x" ) == -1, "state", "state of a target" );
				auto v = daw::overload( []( std::unique_ptr<int> p ) { return *p; }, []( int k ) { return k; } );
				MC_CHECK( v( std::make_unique<int>( 8 ) ) == 8, "move-only", "move only argument" );
			} break;
			}
		} );
	}
	void lifts( ) {
		int const x = mc::choose_range( -1, 2 );
		auto const l = DAW_LIFT( overloaded );
		MC_CHECK( l( x ) == 11 and l( std::string( ) ) == 12 and l( x, 3 ) == 3 * x, "lift", "lifted overload set" );
		MC_CHECK( not noexcept( l( 1 ) ) and noexcept( l( 1, 2 ) ), "noexcept", "lifted noexcept" );
		MC_CHECK( daw::lift<free_sum>( x, 2, 3 ) == x * 100 + 23, "lift-function", "lifted function" );
		MC_CHECK( daw::lift<free_noexcept>( x ) == x + 5, "lift-noexcept", "lifted noexcept function" );
		MC_CHECK( not( std::is_invocable_v<decltype( daw::lift<free_sum> ), int> ), "lift-invocable", "a lifted function accepts the wrong number of arguments" );
		auto const o = daw::overload( daw::lift<free_sum>, OnInt{ } );
		MC_CHECK( o( 1, x, 3 ) == 103 + 10 * x and o( 3 ) == 1, "lift-overload", "lifted function in an overload set" );
	}

	// ---- generated comparisons --------------------------------------------------------
	struct Cmp {
		int v;
		int compare( Cmp const &o ) const {
			return v - o.v;
		}
	};
	create_comparison_operators( Cmp ) //
	  struct FriendCmp {
		int v;
		int compare( FriendCmp const &o ) const {
			return ( v - o.v ) * 5;
		}
		create_friend_comparison_operators( FriendCmp )
	};
	template<typename T>
	void comparisons( ) {
		for( int a = -2; a != 3; ++a ) {
			for( int b = -2; b != 3; ++b ) {
				T const x{ a };
				T const y{ b };
				mc::count_case( );
				MC_CHECK( ( x == y ) == ( a == b ) and ( x != y ) == ( a != b ) and ( x < y ) == ( a < b ) and ( x <= y ) == ( a <= b ) and ( x > y ) == ( a > b ) and ( x >= y ) == ( a >= b ), "compare", "comparison of %d and %d", a, b );
			}
		}
	}

	// ---- named options ------------------------------------------------------------------
	auto const &opt_a( ) {
		static constexpr auto o = DAW_MAKE_NAMED_OPTION( int, a, 10 );
		return o;
	}
	auto const &opt_b( ) {
		static constexpr auto o = DAW_MAKE_NAMED_OPTION( int, b, 20 );
		return o;
	}
	auto const &opt_c( ) {
		static auto const o = DAW_MAKE_NAMED_OPTION( std::string, c, "def" );
		return o;
	}
	template<daw::nparam::Options... Opts>
	void expect_options( int a, int b, char const *c, Opts &&...opts ) {
		MC_CHECK( daw::nparam::get_opt( opt_a( ), opts... ) == a, "option-a", "a is %d, not %d", daw::nparam::get_opt( opt_a( ), opts... ), a );
		MC_CHECK( daw::nparam::get_opt( opt_b( ), opts... ) == b, "option-b", "b is %d, not %d", daw::nparam::get_opt( opt_b( ), opts... ), b );
		MC_CHECK( daw::nparam::get_opt( opt_c( ), std::as_const( opts )... ) == c, "option-c", "c is another text" );
		MC_CHECK( daw::nparam::get_opt( opt_c( ), opts... ) == c, "option-c-again", "reading an option changed it" );
		MC_CHECK( daw::nparam::get_opt( opt_c( ), std::move( opts )... ) == c, "option-c-moved", "c from rvalues is another text" );
	}
	void options( ) {
		auto const &a = opt_a( );
		auto const &b = opt_b( );
		auto const &c = opt_c( );
		int const x = mc::choose_range( 0, 2 );
		int const y = mc::choose_range( 0, 1 ) * 7;
		char const *t = mc::choose( 2 ) ? "" : "a text that is long enough for the heap";
		switch( mc::choose( 16 ) ) {
		case 0: expect_options( 10, 20, "def" ); break;
		case 1: expect_options( x, 20, "def", a = x ); break;
		case 2: expect_options( 10, y, "def", b = y ); break;
		case 3: expect_options( 10, 20, t, c = t ); break;
		case 4: expect_options( x, y, "def", a = x, b = y ); break;
		case 5: expect_options( x, y, "def", b = y, a = x ); break;
		case 6: expect_options( x, 20, t, a = x, c = t ); break;
		case 7: expect_options( x, 20, t, c = t, a = x ); break;
		case 8: expect_options( 10, y, t, b = y, c = t ); break;
		case 9: expect_options( 10, y, t, c = t, b = y ); break;
		case 10: expect_options( x, y, t, a = x, b = y, c = t ); break;
		case 11: expect_options( x, y, t, a = x, c = t, b = y ); break;
		case 12: expect_options( x, y, t, b = y, a = x, c = t ); break;
		case 13: expect_options( x, y, t, b = y, c = t, a = x ); break;
		case 14: expect_options( x, y, t, c = t, a = x, b = y ); break;
		default: expect_options( x, y, t, c = t, b = y, a = x ); break;
		}
		MC_CHECK( a.value == 10 and b.value == 20 and c.value == "def", "defaults", "setting an option changed its default" );
		auto const u = DAW_MAKE_NAMED_UNIQUE_OPTION( std::string, u, "u" );
		MC_CHECK( daw::nparam::get_opt( u, a = x, u = std::string( t ), c = "z" ) == t, "unique", "unique option" );
	}

	// ---- construct_a ---------------------------------------------------------------------
	struct Agg {
		int a = 1;
		int b = 2;
	};
	struct Both {
		int how = 0;
		Both( int, int )
		  : how( 1 ) {}
		Both( std::initializer_list<int> )
		  : how( 2 ) {}
	};
	struct OnlyRef {
		int &r;
	};
	struct Throws {
		int v;
		explicit Throws( int x )
		  : v( x ) {
			if( x == 2 ) {
				throw x;
			}
		}
	};
	// what each member was made from: 1 an lvalue, 2 a const lvalue, 3 an rvalue
	struct Kind {
		int k = 0;
		Kind( ) = default;
		Kind( Kind & ) : k( 1 ) {}
		Kind( Kind const & ) : k( 2 ) {}
		Kind( Kind && ) : k( 3 ) {}
	};
	struct Kinds { // an aggregate
		Kind a, b, c;
	};
	struct KindsList { // only made with braces from this list
		int a, b, c;
		KindsList( std::initializer_list<int> ) = delete;
		KindsList( Kind const &, Kind const &, Kind && ) : a( 2 ), b( 2 ), c( 3 ) {}
		KindsList( Kind &, Kind const &, Kind && ) : a( 1 ), b( 2 ), c( 3 ) {}
		KindsList( Kind &&, Kind const &, Kind && ) : a( 3 ), b( 2 ), c( 3 ) {}
		KindsList( Kind &&, Kind &, Kind & ) : a( 3 ), b( 1 ), c( 1 ) {}
	};
	void construction_kinds( ) {
		Kind l;
		Kind const c{ };
		auto const is = []( auto const &v, int a, int b, int d, char const *how ) {
			auto const k = []( auto const &x ) { if constexpr( std::is_same_v<std::remove_cvref_t<decltype( x )>, int> ) return x; else return x.k; };
			MC_CHECK( k( v.a ) == a and k( v.b ) == b and k( v.c ) == d, "category", "%s: made from kinds %d %d %d, given %d %d %d", how, k( v.a ), k( v.b ), k( v.c ), a, b, d );
		};
		is( daw::construct_a<Kinds>( l, c, Kind{ } ), 1, 2, 3, "aggregate" );
		is( daw::construct_a<Kinds>( Kind{ }, l, c ), 3, 1, 2, "aggregate" );
		is( daw::construct_a<Kinds>( std::move( l ), Kind{ }, Kind{ } ), 3, 3, 3, "aggregate" );
		is( daw::construct_a<KindsList>( l, c, Kind{ } ), 1, 2, 3, "class" );
		is( daw::construct_a<KindsList>( Kind{ }, c, Kind{ } ), 3, 2, 3, "class" );
		is( daw::construct_a<KindsList>( std::move( l ), l, l ), 3, 1, 1, "class" );
		is( daw::construct_a<KindsList>( c, c, Kind{ } ), 2, 2, 3, "class" );
	}
	void constructions( ) {
		int const x = mc::choose_range( 0, 2 );
		MC_CHECK( daw::construct_a<Agg>( x, 5 ).a == x and daw::construct_a<Agg>( x ).b == 2 and daw::construct_a<Agg>( ).a == 1, "aggregate", "aggregate" );
		MC_CHECK( daw::construct_a<Both>( x, 5 ).how == 1, "parentheses", "constructed with braces where parentheses work" );
		MC_CHECK( daw::construct_a<std::vector<int>>( std::size_t( x ), 5 ) == std::vector<int>( x, 5 ), "vector", "vector of %d", x );
		MC_CHECK( daw::construct_a<std::string>( std::size_t( x ), 'c' ) == std::string( x, 'c' ), "string", "string of %d", x );
		int k = x;
		daw::construct_a<OnlyRef>( k ).r = 9;
		MC_CHECK( k == 9, "reference", "an lvalue was not passed as one" );
		auto p = std::make_unique<int>( x );
		auto q = daw::construct_a<std::unique_ptr<int>>( std::move( p ) );
		MC_CHECK( *q == x and not p, "move", "an rvalue was not passed as one" );
		auto const a = daw::construct_a<std::array<int, 2>>( x, 4 );
		MC_CHECK( a[0] == x and a[1] == 4, "array", "array" );
		bool thrown = false;
		bool const died = mc::aborts( [&] {
			try {
				MC_CHECK( daw::construct_a<Throws>( x ).v == x, "value", "constructed value" );
			} catch( int ) { thrown = true; }
		} );
		MC_CHECK( not died and thrown == ( x == 2 ), "exception", "an exception from a constructor is lost" );
		MC_CHECK( ( daw::can_construct_a_v<Agg, int, int> ) and ( daw::can_construct_a_v<Both, int, int> ) and not( daw::can_construct_a_v<Agg, std::string> ) and not( daw::can_construct_a_v<Throws, int, int> ), "can", "can_construct_a" );
	}
} // namespace

MC_TEST( bind_front ) { bind_front( ); }
MC_TEST( bind_front_kinds ) { bind_front_kinds( ); }
MC_TEST( overloads ) { overloads( ); }
MC_TEST( lifts ) { lifts( ); }
MC_TEST( comparisons ) {
	comparisons<Cmp>( );
	comparisons<FriendCmp>( );
}
MC_TEST( options ) { options( ); }
MC_TEST( constructions ) { constructions( ); }
MC_TEST( construction_kinds ) { construction_kinds( ); }
