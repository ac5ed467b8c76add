// S05: printing, and format strings known when compiling.
#include "mc.h"

#include <daw/daw_formatters.h>
#include <daw/daw_pipelines.h>
#include <daw/daw_print.h>
#include <daw/daw_print_ostream.h>

#include <cstdio>
#include <format>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

namespace {
	struct Fmt {
		char const *sep = ",";
		char const *left = "[";
		char const *right = "]";
	};

	// One element as the standard formats it.
	template<typename T>
	std::string one( std::string const &spec, T const &v ) {
		return std::vformat( "{:" + spec + "}", std::make_format_args( v ) );
	}
	template<typename T>
	std::string expected( std::string const &spec, T const &v, Fmt f = { } );

	template<typename T>
	struct is_text : std::false_type {};
	template<>
	struct is_text<std::string> : std::true_type {};
	template<>
	struct is_text<daw::string_view> : std::true_type {};
	template<>
	struct is_text<std::vector<char>> : std::true_type {};

	template<typename T>
	std::string element( std::string const &spec, T const &v ) {
		if constexpr( is_text<T>::value ) {
			std::string const s( v.begin( ), v.end( ) );
			return one( spec, s );
		} else if constexpr( daw::Range<T> or daw::is_tuple_like_v<T> ) {
			return expected( spec, v );
		} else {
			return one( spec, v );
		}
	}
	template<typename T>
	std::string expected( std::string const &spec, T const &v, Fmt f ) {
		std::string r = f.left;
		bool first = true;
		auto const add = [&]( std::string const &s ) {
			if( not first ) {
				r += f.sep;
			}
			first = false;
			r += s;
		};
		if constexpr( daw::Range<T> ) {
			for( auto const &e : v ) {
				using E = daw::range_value_t<T>;
				E const &x = e;
				add( element( spec, x ) );
			}
		} else {
			std::apply( [&]( auto const &...e ) { ( add( one( spec, e ) ), ... ); }, v );
		}
		return r + f.right;
	}

	int const values[] = { 0, 7, -15, 123 };
	std::vector<int> some_ints( int n ) {
		std::vector<int> v;
		for( int i = 0; i != n; ++i ) {
			v.push_back( values[mc::choose( 3 )] );
		}
		return v;
	}
	char const *const words[] = { "", "ab", "x{}y", "a longer text, than fits a small string" };

	void compile_time( ) {
		auto const v = some_ints( mc::choose_range( 0, 2 ) );
		std::vector<std::vector<int>> const vv( mc::choose_range( 0, 2 ), v );
		std::pair<int, std::string> const p( values[mc::choose( 4 )], "t" );
		MC_CHECK( std::format( "<{:03}|{}>", daw::fmt_range( v ), 5 ) == "<" + expected( "03", v ) + "|5>", "literal", "literal format string" );
		MC_CHECK( std::format( "<{1}|{0:03}|{0}>", daw::fmt_range( vv ), 5 ) == "<5|" + expected( "03", vv ) + "|" + expected( "", vv ) + ">", "literal-id", "literal format string with ids" );
		MC_CHECK( std::format( "{0:>4}{1:.2}", daw::fmt_tuple( p, "; ", "(", ")" ), daw::string_view( "abc" ) ) == expected( ">4", p, { "; ", "(", ")" } ) + "ab", "literal-tuple", "literal format string with a tuple" );
		std::string out = "before ";
		std::format_to( std::back_inserter( out ), "{}", daw::fmt_any( v ) );
		MC_CHECK( out == "before " + expected( "", v ), "format_to", "format_to" );
		MC_CHECK( std::format( "{}{}", daw::fmt_any( 5 ), daw::fmt_any( p ) ) == "5" + expected( "", p ), "fmt_any", "fmt_any" );
	}

	// ---- printing ----------------------------------------------------------------------
	struct Capture {
		char *data = nullptr;
		std::size_t size = 0;
		FILE *file;
		FILE *old;
		explicit Capture( bool as_stdout )
		  : file( open_memstream( &data, &size ) )
		  , old( stdout ) {
			if( as_stdout ) {
				stdout = file;
			}
		}
		~Capture( ) {
			stdout = old;
			std::fclose( file );
			std::free( data );
		}
		std::string text( ) {
			stdout = old;
			std::fflush( file );
			return std::string( data, size );
		}
	};
	void printing( ) {
		auto const v = some_ints( mc::choose_range( 0, 2 ) );
		std::string const w = mc::choose( 2 ) ? std::string( "nul\0inside", 10 ) : words[mc::choose( 4 )];
		int const x = values[mc::choose( 4 )];
		auto const r = daw::fmt_range( v );
		int const which = mc::choose( 14 );
		bool const to_file = mc::choose( 2 );
		std::string expect = expected( "02", v ) + "|" + w + "|" + std::to_string( x );
		std::string got;
		{
			Capture c( not to_file );
			switch( which ) {
			case 0: to_file ? daw::print( c.file, "{:02}|{}|{}", r, w, x ) : daw::print( "{:02}|{}|{}", r, w, x ); break;
			case 1: to_file ? daw::println( c.file, "{:02}|{}|{}", r, w, x ) : daw::println( "{:02}|{}|{}", r, w, x ); expect += "\n"; break;
			case 2: to_file ? daw::vprint( c.file, "{:02}|{}|{}", r, w, x ) : daw::vprint( "{:02}|{}|{}", r, w, x ); break;
			case 3: to_file ? daw::vprintln( c.file, "{:02}|{}|{}", r, w, x ) : daw::vprintln( "{:02}|{}|{}", r, w, x ); expect += "\n"; break;
			case 4: to_file ? daw::print( c.file, "{2}{0}{2}", daw::fmt_range( v ), w, x + 0 ) : daw::print( "{2}{0}{2}", daw::fmt_range( v ), w, x + 0 ); expect = std::to_string( x ) + expected( "", v ) + std::to_string( x ); break;
			case 5: to_file ? daw::vprint( c.file, "{2}{0:02}{1}", daw::fmt_range( v ), std::string( w ), x + 0 ) : daw::vprint( "{2}{0:02}{1}", daw::fmt_range( v ), std::string( w ), x + 0 ); expect = std::to_string( x ) + expected( "02", v ) + w; break;
			case 6:
				if( to_file ) {
					return;
				}
				daw::println( );
				daw::print( "" );
				expect = "\n";
				break;
			case 7:
				if( to_file ) {
					return;
				}
				daw::dump( x, w, r );
				expect = std::to_string( x ) + " " + w + " " + expected( "", v ) + " \n";
				break;
			case 8:
				if( to_file ) {
					return;
				}
				daw::dump( );
				expect = "\n";
				break;
			case 9: to_file ? daw::vprintln( c.file, "{{{}}}", x ) : daw::vprintln( "{{{}}}", x ); expect = "{" + std::to_string( x ) + "}\n"; break;
			case 10: to_file ? daw::println( c.file, "{{}}" ) : daw::println( "{{}}" ); expect = "{}\n"; break;
			case 11: { // nothing is written when the format string is wrong
				bool thrown = false;
				try {
					to_file ? daw::vprint( c.file, "text {} {}", x ) : daw::vprintln( "text {} {}", x );
				} catch( std::format_error const & ) { thrown = true; }
				MC_CHECK( thrown, "print-error", "a wrong format string is accepted" );
				expect = "";
			} break;
			case 12: { // twice: nothing is lost between
				to_file ? daw::print( c.file, "{}", w ) : daw::print( "{}", w );
				to_file ? daw::println( c.file, "{}", w ) : daw::println( "{}", w );
				expect = w + w + "\n";
			} break;
			default: to_file ? daw::print( c.file, "{}", daw::fmt_tuple( std::tuple<int, std::string>( x, w ) ) ) : daw::print( "{}", daw::fmt_tuple( std::tuple<int, std::string>( x, w ) ) ); expect = "[" + std::to_string( x ) + "," + w + "]"; break;
			}
			got = c.text( );
		}
		MC_CHECK( got == expect, "printed", "case %d printed \"%s\", not \"%s\"", which, got.c_str( ), expect.c_str( ) );
	}
	// printing in the middle of a pipeline passes its range on
	void in_pipelines( ) {
		namespace dp = daw::pipelines;
		auto v = some_ints( mc::choose_range( 0, 3 ) );
		std::pair<int, std::string> p( values[mc::choose( 4 )], words[mc::choose( 4 )] );
		std::string got, expect;
		Capture c( true );
		switch( mc::choose( 4 ) ) {
		case 0: {
			auto const &r = dp::pipeline( v, dp::Print );
			expect = expected( "", v ) + "\n";
			got = c.text( );
			MC_CHECK( std::equal( r.begin( ), r.end( ), v.begin( ), v.end( ) ), "print-passes", "Print passes on another range" );
			break;
		}
		case 1: {
			auto const twice = []( int x ) { return 2 * x; };
			auto const w = dp::pipeline( v, dp::Map( twice ), dp::Print, dp::To<std::vector> );
			std::vector<int> want;
			for( int x : v ) {
				want.push_back( 2 * x );
			}
			expect = expected( "", want ) + "\n";
			got = c.text( );
			MC_CHECK( std::equal( w.begin( ), w.end( ), want.begin( ), want.end( ) ), "print-passes", "Print passes on another range" );
			break;
		}
		case 2: {
			auto const &r = dp::Print( p );
			expect = expected( "", p ) + "\n";
			got = c.text( );
			MC_CHECK( r == p, "print-passes", "Print passes on another value" );
			break;
		}
		default: {
			auto const r = dp::pipeline( v, dp::Sum, dp::Print );
			int sum = 0;
			for( int x : v ) {
				sum += x;
			}
			expect = std::to_string( sum ) + "\n";
			got = c.text( );
			MC_CHECK( r == sum, "print-passes", "Print passes on another value" );
			break;
		}
		}
		MC_CHECK( got == expect, "printed", "Print printed \"%s\", not \"%s\"", got.c_str( ), expect.c_str( ) );
	}
	void streams( ) {
		auto const v = some_ints( mc::choose_range( 0, 2 ) );
		std::string const w = words[mc::choose( 4 )];
		auto const r = daw::fmt_range( v );
		std::ostringstream os;
		os << "before";
		int const which = mc::choose( 3 );
		std::string const body = expected( "02", v ) + "|" + w;
		if( which == 0 ) {
			auto &res = daw::print( os, "{:02}|{}", r, w );
			MC_CHECK( &res == &os, "stream", "another stream is returned" );
			MC_CHECK( os.str( ) == "before" + body, "stream-print", "printed \"%s\"", os.str( ).c_str( ) );
			daw::print( os, "{}", 1 ) << "after";
			MC_CHECK( os.str( ) == "before" + body + "1after", "stream-again", "printed \"%s\"", os.str( ).c_str( ) );
		} else if( which == 1 ) {
			auto &res = daw::println( os, "{:02}|{}", daw::fmt_range( v ), w );
			MC_CHECK( &res == &os, "stream", "another stream is returned" );
			MC_CHECK( os.str( ) == "before" + body + "\n", "stream-println", "printed \"%s\"", os.str( ).c_str( ) );
		} else {
			auto *const old = std::clog.rdbuf( os.rdbuf( ) );
			auto &res = daw::print_log( "{:02}|{}", r, w );
			std::clog.rdbuf( old );
			MC_CHECK( &res == &std::clog, "stream", "another stream is returned" );
			MC_CHECK( os.str( ) == "before" + body + "\n", "print_log", "logged \"%s\"", os.str( ).c_str( ) );
		}
	}
} // namespace

MC_TEST( compile_time ) { compile_time( ); }
MC_TEST( printing ) { printing( ); }
MC_TEST( in_pipelines ) { in_pipelines( ); }
MC_TEST( streams ) { streams( ); }
