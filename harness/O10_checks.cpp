// O10: checking helpers report exactly when their condition says so, with the
// requested exception made from the given arguments, and otherwise do nothing.
#include "mc.h"

#include <daw/daw_ensure.h>
#include <daw/daw_exception.h>

#include <list>
#include <memory>
#include <optional>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

namespace {
	namespace ex = daw::exception;

	// A condition that counts how often it is looked at.
	struct Cond {
		bool value;
		int *looked;
		explicit operator bool( ) const {
			++*looked;
			return value;
		}
	};
	// An exception that records what it was made from.
	struct Report {
		std::string text = "default";
		int code = -1;
		int owned = -1;
		Report( ) = default;
		explicit Report( char const *t ) : text( t ) {}
		Report( char const *t, int c ) : text( t ), code( c ) {}
		Report( char const *t, int c, std::unique_ptr<int> p ) : text( t ), code( c ), owned( p ? *p : -2 ) {}
		bool operator==( Report const & ) const = default;
	};
	// No default: made from an empty text.
	struct Text {
		std::string text;
		explicit Text( char const *t ) : text( t ) {}
	};

	struct Result {
		int thrown = 0; // 0 none, 1 Report, 2 Text, 3 runtime_error, 4 other
		Report report{ };
		std::string text{ };
	};
	template<typename F>
	Result run( F &&f ) {
		Result r;
		try {
			f( );
		} catch( Report const &e ) {
			r.thrown = 1;
			r.report = e;
		} catch( Text const &e ) {
			r.thrown = 2;
			r.text = e.text;
		} catch( std::runtime_error const &e ) {
			r.thrown = 3;
			r.text = e.what( );
		} catch( ... ) { r.thrown = 4; }
		return r;
	}
	void judge( char const *what, Result const &r, bool expect, Report const &report ) {
		MC_CHECK( ( r.thrown != 0 ) == expect, what, "%s %s", what, expect ? "did not report" : "reported without cause" );
		if( expect ) {
			MC_CHECK( r.thrown == 1, what, "%s threw something other than the requested exception", what );
			MC_CHECK( r.report == report, what, "%s made its exception from (%s, %d, %d), not (%s, %d, %d)", what, r.report.text.c_str( ), r.report.code, r.report.owned, report.text.c_str( ), report.code, report.owned );
		}
	}

	// call( condition, args... ) under every kind of condition and every number of arguments
	template<typename Call>
	void conditions( char const *what, bool reports_on, Call call ) {
		bool const value = mc::choose( 2 );
		bool const expect = value == reports_on;
		int const kind = mc::choose( 6 );
		int const nargs = mc::choose( 4 );
		mc::note( "%s: condition of kind %d is %d, %d arguments", what, kind, value, nargs );
		int looked = 0;
		int const number = 5;
		auto owned = std::make_unique<int>( 9 );
		Report const made = nargs == 0 ? Report( ) : nargs == 1 ? Report( "text" ) : nargs == 2 ? Report( "text", 5 ) : Report( "text", 5, std::make_unique<int>( 9 ) );
		auto const with = [&]( auto &&c ) {
			return run( [&] {
				switch( nargs ) {
				case 0: call( DAW_FWD( c ) ); break;
				case 1: call( DAW_FWD( c ), "text" ); break;
				case 2: call( DAW_FWD( c ), "text", number ); break;
				default: call( DAW_FWD( c ), "text", number, std::move( owned ) ); break;
				}
			} );
		};
		Result r;
		bool lvalue = value;
		int const object = 4;
		int const *const pointer = value ? &object : nullptr;
		std::unique_ptr<int> owner = value ? std::make_unique<int>( 3 ) : nullptr;
		switch( kind ) {
		case 0: r = with( bool( value ) ); break;
		case 1: r = with( lvalue ); break;
		case 2: r = with( std::as_const( lvalue ) ); break;
		case 3: r = with( Cond{ value, &looked } ); break;
		case 4: r = with( pointer ); break;
		default: r = with( owner ); break;
		}
		judge( what, r, expect, made );
		MC_CHECK( kind != 3 or looked == 1, what, "%s looked at its condition %d times", what, looked );
		MC_CHECK( kind != 5 or ( owner != nullptr ) == value, what, "%s emptied the owner it was asked about", what );
		MC_CHECK( ( owned == nullptr ) == ( nargs == 3 and expect ), what, "%s %s its arguments", what, owned ? "did not take" : "took" );
		mc::count_case( );
	}
#define MC_COND( name, on )                                                                                    \
	[]( ) {                                                                                                      \
		conditions( #name, on, []( auto &&c, auto &&...args ) { ex::name<Report>( DAW_FWD( c ), DAW_FWD( args )... ); } ); \
	}

	void checks( ) {
		switch( mc::choose( 10 ) ) {
		case 0: MC_COND( daw_throw_on_false, false )( ); break;
		case 1: MC_COND( daw_throw_on_true, true )( ); break;
		case 2: MC_COND( precondition_check, false )( ); break;
		case 3: MC_COND( postcondition_check, false )( ); break;
		case 4: MC_COND( Assert, false )( ); break;
		case 5: MC_COND( dbg_throw_on_false, false )( ); break;
		case 6: MC_COND( DebugAssert, false )( ); break;
		case 7:
			conditions( "dbg_throw_on_true", true, []( auto &&c, auto &&...args ) { ex::dbg_throw_on_true<Report>( static_cast<bool>( c ), DAW_FWD( args )... ); } );
			break;
		case 8:
			// the value given alongside is handed back
			conditions( "daw_throw_on_false_or_return", false, []( auto &&c, auto &&...args ) {
				auto p = std::make_unique<int>( 17 );
				int *const raw = p.get( );
				try {
					auto back = ex::daw_throw_on_false_or_return<Report>( std::move( p ), DAW_FWD( c ), DAW_FWD( args )... );
					MC_CHECK( back.get( ) == raw and not p, "or-return", "daw_throw_on_false_or_return does not hand on a temporary value" );
				} catch( ... ) {
					MC_CHECK( p.get( ) == raw, "or-return", "daw_throw_on_false_or_return reports but keeps the value it was given" );
					throw;
				}
			} );
			break;
		default:
			conditions( "daw_throw_on_true_or_return", true, []( auto &&c, auto &&...args ) {
				int v = 17;
				decltype( auto ) back = ex::daw_throw_on_true_or_return<Report>( v, static_cast<bool>( c ), DAW_FWD( args )... );
				MC_CHECK( &back == &v and v == 17, "or-return", "daw_throw_on_true_or_return does not hand back the value it was given" );
			} );
			break;
		}
	}

	// the condition alone, and the value that comes back
	void returns( ) {
		bool const value = mc::choose( 2 );
		int v = 3;
		switch( mc::choose( 5 ) ) {
		case 0: judge( "daw_throw_on_false_or_return", run( [&] { MC_CHECK( ex::daw_throw_on_false_or_return<Report>( bool( value ) ), "or-return", "gave false" ); } ), not value, { } ); break;
		case 1: judge( "daw_throw_on_true_or_return", run( [&] { MC_CHECK( not ex::daw_throw_on_true_or_return<Report>( bool( value ) ), "or-return", "gave true" ); } ), value, { } ); break;
		case 2: judge( "daw_throw_on_false_or_return", run( [&] {
			               auto &back = ex::daw_throw_on_false_or_return<Report>( v, value, "t", 2 );
			               MC_CHECK( &back == &v and v == 3, "or-return", "does not hand back the value it was given" );
		               } ),
		               not value, Report( "t", 2 ) );
			break;
		case 3: judge( "dbg_throw_on_true_or_return", run( [&] {
			               auto &back = ex::dbg_throw_on_true_or_return<Report>( v, value, "t", 2 );
			               MC_CHECK( &back == &v and v == 3, "or-return", "does not hand back the value it was given" );
		               } ),
		               value, Report( "t", 2 ) );
			break;
		default: judge( "dbg_throw_on_false_or_return", run( [&] {
			                MC_CHECK( ex::dbg_throw_on_false_or_return<Report>( v, value, "t", 2 ) == 3, "or-return", "does not hand back the value it was given" );
		                } ),
		                not value, Report( "t", 2 ) );
			break;
		}
	}

	void pointers( ) {
		int object = 4;
		bool const null = mc::choose( 2 );
		int *const p = null ? nullptr : &object;
		int const *const cp = p;
		bool const args = mc::choose( 2 );
		Report const made = args ? Report( "null", 8 ) : Report( );
		Result r;
		switch( mc::choose( 6 ) ) {
		case 0: r = run( [&] { args ? ex::daw_throw_on_null<Report>( p, "null", 8 ) : ex::daw_throw_on_null<Report>( p ); } ); break;
		case 1: r = run( [&] { args ? ex::daw_throw_on_null<Report>( cp, "null", 8 ) : ex::daw_throw_on_null<Report>( cp ); } ); break;
		case 2: r = run( [&] { args ? ex::dbg_throw_on_null<Report>( cp, "null", 8 ) : ex::dbg_throw_on_null<Report>( cp ); } ); break;
		case 3: r = run( [&] { MC_CHECK( ( args ? ex::daw_throw_on_null_or_return<Report>( p, "null", 8 ) : ex::daw_throw_on_null_or_return<Report>( p ) ) == p, "or-return", "gives another pointer" ); } ); break;
		case 4: r = run( [&] { MC_CHECK( ( args ? ex::daw_throw_on_null_or_return<Report>( cp, "null", 8 ) : ex::daw_throw_on_null_or_return<Report>( cp ) ) == cp, "or-return", "gives another pointer" ); } ); break;
		default: r = run( [&] { MC_CHECK( ( args ? ex::dbg_throw_on_null_or_return<Report>( p, "null", 8 ) : ex::dbg_throw_on_null_or_return<Report>( p ) ) == p, "or-return", "gives another pointer" ); } ); break;
		}
		judge( "a null check", r, null, made );
		MC_CHECK( object == 4, "null", "the object changed" );
	}

	// What is thrown: defaults, an exception without a default, values as exceptions.
	void thrown( ) {
		bool const value = mc::choose( 2 );
		Result r;
		int expect = 0;
		std::string text;
		switch( mc::choose( 16 ) ) {
		case 0: r = run( [] { ex::daw_throw( ); } ); expect = 3; break;
		case 1: r = run( [] { ex::daw_throw( "why" ); } ); expect = 3; text = "why"; break;
		case 2: r = run( [] { ex::daw_throw<Text>( ); } ); expect = 2; break;
		case 3: r = run( [] { ex::daw_throw<Text>( "why" ); } ); expect = 2; text = "why"; break;
		case 4: r = run( [&] { ex::daw_throw_on_false( value ); } ); expect = value ? 0 : 3; break;
		case 5: r = run( [&] { ex::daw_throw_on_false( value, "why" ); } ); expect = value ? 0 : 3; text = "why"; break;
		case 6: r = run( [&] { ex::daw_throw_on_true( value ); } ); expect = value ? 3 : 0; break;
		case 7: r = run( [&] { ex::daw_throw_on_true( value, "why" ); } ); expect = value ? 3 : 0; text = "why"; break;
		case 8: r = run( [&] { ex::daw_throw_on_null( value ? &value : nullptr, "why" ); } ); expect = value ? 0 : 3; text = "why"; break;
		case 9: r = run( [] { ex::daw_throw_not_implemented<Text>( ); } ); expect = 2; text = "Method not implemented"; break;
		case 10: r = run( [] { ex::daw_throw_unexpected_enum( ); } ); expect = 3; text = "Unknown/Unexpected enum"; break;
		case 11: r = run( [&] { ex::debug_throw<Text>( "why" ); } ); expect = 2; text = "why"; break;
		case 12: r = run( [&] { ex::precondition_check<Text>( value, "why" ); } ); expect = value ? 0 : 2; text = "why"; break;
		case 13: {
			int got = -1;
			try {
				if( value ) {
					ex::throw_length_error( "why" );
				} else {
					ex::throw_out_of_range( "why" );
				}
			} catch( std::length_error const &e ) {
				got = std::string( e.what( ) ) == "why";
			} catch( std::out_of_range const &e ) { got = std::string( e.what( ) ) == "why" ? 2 : 0; }
			MC_CHECK( got == ( value ? 1 : 2 ), "named-error", "throw_length_error/throw_out_of_range threw something else" );
			return;
		}
		case 14: {
			// the value itself is thrown
			int code = value ? 5 : 0;
			int got = -1;
			bool const on_true = mc::choose( 2 );
			try {
				if( on_true ) {
					ex::daw_throw_value_on_true( int( code ) );
				} else {
					ex::daw_throw_value_on_false( int( code ) );
				}
			} catch( int const &i ) { got = i; }
			MC_CHECK( got == ( on_true == value ? code : -1 ), "value", "daw_throw_value_on_%s( %d ): threw %d", on_true ? "true" : "false", code, got );
			return;
		}
		default: {
			auto const p = value ? ex::make_exception_ptr<Report>( "held", 6 ) : ex::make_exception_ptr<Report>( );
			MC_CHECK( p != nullptr, "exception-ptr", "nothing held" );
			judge( "make_exception_ptr", run( [&] { std::rethrow_exception( p ); } ), true, value ? Report( "held", 6 ) : Report( ) );
			judge( "make_exception_ptr", run( [&] { std::rethrow_exception( p ); } ), true, value ? Report( "held", 6 ) : Report( ) );
			return;
		}
		}
		MC_CHECK( r.thrown == expect, "kind", "threw kind %d, not %d", r.thrown, expect );
		MC_CHECK( expect == 0 or r.text == text or ( text.empty( ) and expect == 3 ), "text", "threw \"%s\", not \"%s\"", r.text.c_str( ), text.c_str( ) );
	}

	// Without an exception type a failed check ends the program.
	void fatal( ) {
		bool const value = mc::choose( 2 );
		int const which = mc::choose( 4 );
		bool const died = mc::aborts( [&] {
			try {
				switch( which ) {
				case 0: ex::precondition_check( value, "text", 5 ); break;
				case 1: ex::postcondition_check( value ); break;
				case 2: ex::dbg_precondition_check( value, "text" ); break;
				default: ex::dbg_postcondition_check( value, "text" ); break;
				}
			} catch( ... ) {}
		} );
		MC_CHECK( died != value, "fatal", "check %d of a condition that is %d: %s", which, value, died ? "ended the program" : "carried on" );
	}

	// daw_ensure lets a true condition pass, having looked at it once
	void ensures( ) {
		bool const first = mc::choose( 2 );
		bool const second = mc::choose( 2 );
		int const x = mc::choose( 3 );
		bool const died = mc::aborts( [&] {
			try {
				daw_ensure( first, second or x == 1 ); // the last of a list counts
			} catch( ... ) {}
		} );
		MC_CHECK( died == not( second or x == 1 ), "ensure", "daw_ensure( %d, %d or %d == 1 ) %s", first, second, x, died ? "ended the program" : "carried on" );
		int asked = 0;
		if( first )
			daw_ensure( ++asked != 0 );
		else
			daw_ensure( true );
		MC_CHECK( asked == int( first ), "ensure-once", "daw_ensure looked at its condition %d times", asked );
		std::optional<int> const o = second ? std::optional<int>( x ) : std::nullopt;
		MC_CHECK( mc::aborts( [&] { daw_ensure( o ); } ) != second, "ensure-convertible", "daw_ensure of an optional" );
		MC_CHECK( mc::aborts( [&] { daw_ensure( x ); } ) == ( x == 0 ), "ensure-convertible", "daw_ensure( %d )", x );
	}

	// Every sequence: all items are asked about, in order, up to the first offender.
	template<typename C>
	void all_of_a_range( int n, int bits, bool want ) {
		C items;
		for( int i = 0; i != n; ++i ) {
			items.push_back( 2 * i + ( bits >> i & 1 ) );
		}
		int first = n;
		for( int i = n; i-- != 0; ) {
			if( ( ( bits >> i & 1 ) != 0 ) != want ) {
				first = i;
			}
		}
		std::vector<int> asked;
		auto const pred = [&]( int v ) {
			asked.push_back( v / 2 );
			return v % 2 != 0;
		};
		auto const r = run( [&] {
			if( want ) {
				ex::assert_all_true<Report>( items, "item", pred );
			} else {
				ex::assert_all_false<Report>( items, "item", pred );
			}
		} );
		char const *const what = want ? "assert_all_true" : "assert_all_false";
		judge( what, r, first != n, Report( "item" ) );
		std::size_t const count = std::size_t( first == n ? n : first + 1 );
		MC_CHECK( asked.size( ) == count, what, "%s asked about %zu of %d items, the first offender is %d", what, asked.size( ), n, first );
		for( std::size_t i = 0; i != count; ++i ) {
			MC_CHECK( asked[i] == int( i ), what, "%s asked about item %d at position %zu", what, asked[i], i );
		}
		mc::count_case( );
	}

	void swallowed( ) {
		int const how = mc::choose( 4 );
		int calls = 0;
		std::unique_ptr<int> got;
		bool const died = mc::aborts( [&] {
			ex::no_exception( [&]( int ) {
				switch( how ) {
				case 1: throw 5;
				case 2: throw std::runtime_error( "x" );
				case 3: throw Report( );
				default: break;
				}
			},
			                  3 );
		} );
		MC_CHECK( not died, "no-exception", "an exception of kind %d escaped no_exception", how );
		ex::no_exception( [&]( std::unique_ptr<int> p, int v ) {
			++calls;
			MC_CHECK( v == 4, "no-exception", "another argument arrived" );
			got = std::move( p );
			if( how != 0 ) {
				throw how;
			}
		},
		                  std::make_unique<int>( 2 ), 4 );
		MC_CHECK( calls == 1 and got and *got == 2, "no-exception", "no_exception called its function %d times", calls );
	}
} // namespace

MC_TEST( checks ) { checks( ); }
MC_TEST( returns ) { returns( ); }
MC_TEST( pointers ) { pointers( ); }
MC_TEST( thrown ) { thrown( ); }
MC_TEST( fatal ) { fatal( ); }
MC_TEST( ensures ) { ensures( ); }
MC_TEST( swallowed ) { swallowed( ); }
MC_TEST( ranges ) {
	bool const large = mc::choose( 2 );
	int const n = large ? mc::choose_range( 13, 30 ) : mc::choose_range( 0, mc::by_tier( 8, 12 ) );
	// large: none, one or all offend, or all but one
	int const bits = large ? [&] {
		int const all = ( 1 << n ) - 1;
		switch( mc::choose( 3 ) ) {
		case 0: return mc::choose( 2 ) ? all : 0;
		case 1: return 1 << mc::choose( unsigned( n ) );
		default: return all ^ ( 1 << mc::choose( unsigned( n ) ) );
		}
	}( ) : int( mc::choose( 1u << n ) );
	bool const want = mc::choose( 2 );
	if( mc::choose( 2 ) ) {
		all_of_a_range<std::vector<int>>( n, bits, want );
	} else {
		all_of_a_range<std::list<int>>( n, bits, want );
	}
}
