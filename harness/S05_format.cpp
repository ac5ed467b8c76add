// S05: ranges, tuples and string views formatted and printed.
#include "mc.h"

#include <daw/daw_formatters.h>

#include <array>
#include <cstdio>
#include <format>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

namespace {
	// A value whose specification may quote braces: "text" is shown after it.
	struct Noted {
		int v;
	};
} // namespace

template<>
struct std::formatter<Noted> {
	std::string text{ };
	constexpr auto parse( std::format_parse_context &ctx ) {
		auto it = ctx.begin( );
		bool quoted = false;
		text.clear( );
		for( ; it != ctx.end( ) and ( quoted or *it != '}' ); ++it ) {
			if( *it == '"' ) {
				quoted = not quoted;
			} else {
				text += *it;
			}
		}
		return it;
	}
	auto format( Noted const &n, auto &ctx ) const {
		return std::format_to( ctx.out( ), "{}{}", n.v, text );
	}
};

namespace {
	struct Fmt {
		char const *sep = ",";
		char const *left = "[";
		char const *right = "]";
	};

	// One element as the standard formats it.
	template<typename T>
	std::string one( std::string const &spec, T const &v ) {
		return std::vformat( "{:" + spec + "}", std::make_format_args( v ) );
	}
	template<typename T>
	std::string expected( std::string const &spec, T const &v, Fmt f = { } );

	template<typename T>
	struct is_text : std::false_type {};
	template<>
	struct is_text<std::string> : std::true_type {};
	template<>
	struct is_text<daw::string_view> : std::true_type {};
	template<>
	struct is_text<std::vector<char>> : std::true_type {};

	template<typename T>
	std::string element( std::string const &spec, T const &v ) {
		if constexpr( is_text<T>::value ) {
			std::string const s( v.begin( ), v.end( ) );
			return one( spec, s );
		} else if constexpr( daw::Range<T> or daw::is_tuple_like_v<T> ) {
			return expected( spec, v );
		} else {
			return one( spec, v );
		}
	}
	template<typename T>
	std::string expected( std::string const &spec, T const &v, Fmt f ) {
		std::string r = f.left;
		bool first = true;
		auto const add = [&]( std::string const &s ) {
			if( not first ) {
				r += f.sep;
			}
			first = false;
			r += s;
		};
		if constexpr( daw::Range<T> ) {
			for( auto const &e : v ) {
				using E = daw::range_value_t<T>;
				E const &x = e;
				add( element( spec, x ) );
			}
		} else {
			std::apply( [&]( auto const &...e ) { ( add( one( spec, e ) ), ... ); }, v );
		}
		return r + f.right;
	}

	char const *const seps[] = { ",", "", ", ", "{}", "}" };
	char const *const int_specs[] = { "", "0>4", ">4", "*^5x", "+d", "#x", "05", "<3" };
	char const *const text_specs[] = { "", ">4", "*^6", "<3s", ".1", ">3.1", "x<5" };
	char const *const nested_specs[] = { "", "03", ">4" };

	struct Frame {
		char const *text;
		char const *shown;
	};
	Frame const frames[] = { { "", "" }, { "a: ", "a: " }, { "{{", "{" }, { "}}", "}" }, { "\"", "\"" } };

	// The value at every place of a format string with another argument.
	template<typename W>
	void place( W const &w, std::string const &spec, std::string const &shown ) {
		auto const &pre = frames[mc::choose( 5 )];
		// quick: the texts vary one at a time
		int const which_mid = mc::choose( 5 );
		auto const &mid = frames[which_mid];
		auto const &post = frames[mc::by_tier( true, false ) and &pre != frames and which_mid != 0 ? 1 : mc::choose( 5 )];
		int const other = 42;
		std::string const other_shown = "  42";
		std::string fmt;
		std::string expect;
		auto const put = [&]( std::string const &id, std::string const &s, std::string const &text, bool colon ) {
			fmt += "{" + id + ( colon ? ":" : "" ) + s + "}";
			expect += text;
		};
		bool const colon = not spec.empty( ) or mc::choose( 2 );
		fmt += pre.text;
		expect += pre.shown;
		int const how = mc::choose( 7 );
		auto const middle = [&] {
			fmt += mid.text;
			expect += mid.shown;
		};
		switch( how ) {
		case 0: put( "", spec, shown, colon ); middle( ); put( "", ">4", other_shown, true ); break;
		case 1: put( "0", spec, shown, colon ); middle( ); put( "1", ">4", other_shown, true ); break;
		case 2: put( "1", ">4", other_shown, true ); middle( ); put( "0", spec, shown, colon ); break;
		case 3: put( "0", spec, shown, colon ); middle( ); put( "0", spec, shown, colon ); break;
		case 4: put( "", spec, shown, colon ); break;
		case 5: put( "0", spec, shown, colon ); break;
		default: put( "2", spec, shown, colon ); middle( ); put( "1", ">4", other_shown, true ); put( "0", spec, shown, colon ); break;
		}
		fmt += post.text;
		expect += post.shown;
		std::string got;
		try {
			got = std::vformat( fmt, std::make_format_args( w, other, w ) );
		} catch( std::format_error const &e ) {
			mc::fail( "format-error", "\"%s\": %s", fmt.c_str( ), e.what( ) );
		}
		MC_CHECK( got == expect, "text", "\"%s\" gives \"%s\", not \"%s\"", fmt.c_str( ), got.c_str( ), expect.c_str( ) );
	}

	template<template<typename...> class W, typename T>
	void with_separators( T const &v, std::string const &spec, bool custom ) {
		if( not custom ) {
			if( mc::choose( 2 ) ) {
				auto const &&w = daw::fmt_any( v );
				place( w, spec, expected( spec, v ) );
			} else {
				place( W( v ), spec, expected( spec, v ) );
			}
			return;
		}
		Fmt f;
		f.sep = seps[mc::choose( 5 )];
		if( mc::choose( 2 ) ) {
			f.left = seps[mc::choose( 4 )];
			f.right = seps[mc::choose( 5 )];
			auto const w = W( v, f.sep, f.left, f.right );
			auto const fmt = "{:" + spec + "}";
			auto const got = std::vformat( fmt, std::make_format_args( w ) );
			MC_CHECK( got == expected( spec, v, f ), "brackets", "\"%s\" gives \"%s\", not \"%s\"", fmt.c_str( ), got.c_str( ), expected( spec, v, f ).c_str( ) );
		} else {
			auto const w = W( v, f.sep );
			auto const got = std::vformat( "{0:" + spec + "}", std::make_format_args( w ) );
			MC_CHECK( got == expected( spec, v, f ), "separator", "spec \"%s\" gives \"%s\", not \"%s\"", spec.c_str( ), got.c_str( ), expected( spec, v, f ).c_str( ) );
		}
	}
	template<typename T>
	void range( T const &v, std::string const &spec, bool custom ) {
		with_separators<daw::fmt_range>( v, spec, custom );
	}
	template<typename T>
	void tuple( T const &v, std::string const &spec, bool custom ) {
		with_separators<daw::fmt_tuple>( v, spec, custom );
	}

	int const values[] = { 0, 7, -15, 123 };
	std::vector<int> some_ints( int n ) {
		std::vector<int> v;
		for( int i = 0; i != n; ++i ) {
			v.push_back( values[mc::choose( 3 )] );
		}
		return v;
	}
	char const *const words[] = { "", "ab", "x{}y", "a longer text, than fits a small string" };

	void flat( bool custom ) {
		auto const v = some_ints( mc::choose_range( 0, 3 ) );
		std::string const spec = int_specs[mc::choose( 8 )];
		switch( mc::choose( 4 ) ) {
		case 0: range( v, spec, custom ); break;
		case 1: range( std::list<int>( v.begin( ), v.end( ) ), spec, custom ); break;
		case 2: range( std::set<int>( v.begin( ), v.end( ) ), spec, custom ); break;
		default: {
			if( v.size( ) != 2 ) {
				return;
			}
			std::array<int, 2> const a{ v[0], v[1] };
			if( mc::choose( 2 ) ) {
				range( a, spec, custom );
			} else {
				tuple( std::tuple<int, int>( v[0], v[1] ), spec, custom );
			}
		}
		}
	}
	void texts( bool custom ) {
		int const n = mc::choose_range( 0, 2 );
		std::string const spec = text_specs[mc::choose( 7 )];
		std::vector<std::string> v;
		for( int i = 0; i != n; ++i ) {
			v.push_back( words[mc::choose( 4 )] );
		}
		switch( mc::choose( 3 ) ) {
		case 0: range( v, spec, custom ); break;
		case 1: {
			std::vector<daw::string_view> s;
			for( auto const &w : v ) {
				s.push_back( w );
			}
			range( s, spec, custom );
		} break;
		default: {
			std::list<std::vector<char>> s;
			for( auto const &w : v ) {
				s.push_back( std::vector<char>( w.begin( ), w.end( ) ) );
			}
			range( s, spec, custom );
		}
		}
	}
	void string_views( ) {
		std::string const w = words[mc::choose( 4 )];
		std::string const spec = text_specs[mc::choose( 7 )];
		daw::string_view const v( w );
		if( mc::choose( 2 ) ) {
			place( v, spec, one( spec, w ) );
		} else {
			place( daw::fmt_range( w ), spec, one( spec, w ) );
		}
		// not null terminated
		std::vector<char> const exact( w.begin( ), w.end( ) );
		daw::string_view const e( exact.data( ), exact.size( ) );
		auto const got = std::vformat( "{:" + spec + "}", std::make_format_args( e ) );
		MC_CHECK( got == one( spec, w ), "exact", "an exactly sized view gives %s", got.c_str( ) );
	}
	void nested( bool custom ) {
		std::string const spec = nested_specs[mc::choose( 3 )];
		int const n = mc::choose_range( 0, 2 );
		switch( mc::choose( 5 ) ) {
		case 0: {
			std::vector<std::vector<int>> v;
			for( int i = 0; i != n; ++i ) {
				v.push_back( some_ints( mc::choose_range( 0, 2 ) ) );
			}
			range( v, spec, custom );
		} break;
		case 1: {
			std::vector<std::pair<int, int>> v;
			for( int i = 0; i != n; ++i ) {
				v.emplace_back( values[mc::choose( 3 )], i );
			}
			range( v, spec, custom );
		} break;
		case 2: {
			std::map<int, int> v;
			for( int i = 0; i != n; ++i ) {
				v.emplace( values[mc::choose( 3 )], i );
			}
			range( v, spec, custom );
		} break;
		case 3: {
			std::vector<std::list<std::tuple<int, int, int>>> v;
			for( int i = 0; i != n; ++i ) {
				v.emplace_back( mc::choose_range( 0, 2 ), std::tuple<int, int, int>( i, 2, 3 ) );
			}
			range( v, spec, custom );
		} break;
		default: {
			std::vector<std::array<int, 2>> v;
			for( int i = 0; i != n; ++i ) {
				v.push_back( { values[mc::choose( 3 )], i } );
			}
			range( v, spec, custom );
		}
		}
	}
	void tuples( bool custom ) {
		std::string const spec = mc::choose( 2 ) ? ">5" : "";
		int const x = values[mc::choose( 4 )];
		std::string const w = words[mc::choose( 4 )];
		switch( mc::choose( 5 ) ) {
		case 0: place( daw::fmt_tuple( std::tuple<>( ) ), spec, "[]" ); break;
		case 1: tuple( std::tuple<int>( x ), spec, custom ); break;
		case 2: tuple( std::pair<int, std::string>( x, w ), spec, custom ); break;
		case 3: tuple( std::tuple<std::string, double, int>( w, 1.5, x ), spec, custom ); break;
		default: tuple( std::tuple<char, bool, char const *>( 'c', true, "t" ), spec, custom ); break;
		}
	}
	// Specifications of the elements with quoted text and nested braces.
	char const *const noted_specs[] = { "\"x\"", "\"}\"", "\"{\"", "\"}{\"z", "\"\"", "\"a\"b\"c\"", "\"{{}\"\"}}\"", "q" };
	void noted( bool custom ) {
		std::string const spec = noted_specs[mc::choose( 8 )];
		int const n = mc::choose_range( 0, 2 );
		std::vector<Noted> v;
		for( int i = 0; i != n; ++i ) {
			v.push_back( { values[i + 1] } );
		}
		switch( mc::choose( 3 ) ) {
		case 0: range( v, spec, custom ); break;
		case 1: tuple( std::tuple<Noted, Noted>( Noted{ 1 }, Noted{ n } ), spec, custom ); break;
		default: range( std::vector<std::vector<Noted>>( 2, v ), spec, custom ); break;
		}
	}
	// Longer ranges, texts and tuples.
	void large( ) {
		int const lengths[] = { 8, 15, 16, 17, 33, 70 };
		int const n = lengths[mc::choose( 6 )];
		bool const custom = mc::choose( 2 );
		switch( mc::choose( 7 ) ) {
		case 0: {
			std::vector<int> v;
			for( int i = 0; i != n; ++i ) {
				v.push_back( values[i % 4] + i );
			}
			range( v, int_specs[mc::choose( 8 )], custom );
		} break;
		case 1: {
			std::vector<std::string> v;
			for( int i = 0; i != n; ++i ) {
				v.push_back( std::string( std::size_t( i ), char( 'a' + i % 26 ) ) );
			}
			range( v, text_specs[mc::choose( 7 )], custom );
		} break;
		case 2: {
			std::vector<std::vector<int>> v( std::size_t( n / 3 ), std::vector<int>( std::size_t( n ), 5 ) );
			range( v, nested_specs[mc::choose( 3 )], custom );
		} break;
		case 3: {
			std::vector<std::string> const v( 2, std::string( std::size_t( n ) * 10, '{' ) );
			range( v, text_specs[mc::choose( 7 )], custom );
		} break;
		case 4: tuple( std::tuple( 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, n ), mc::choose( 2 ) ? "03" : "", custom ); break;
		case 5: {
			std::string spec = ">" + std::to_string( n );
			range( std::vector<int>{ 1, 22, 333 }, spec, custom );
		} break;
		default: {
			std::string const w( std::size_t( n ), 'w' );
			daw::string_view const v( w );
			std::string const spec = text_specs[mc::choose( 7 )];
			place( v, spec, one( spec, w ) );
		}
		}
	}
	// A specification the elements do not accept, or an unterminated one.
	void errors( ) {
		char const *const bad[] = { "{:Q}", "{:03", "{0:03", "{:", "{0:", "{:{", "{:03}}", "{:{}", "{" };
		auto const *const fmt = bad[mc::choose( 9 )];
		std::vector<int> const v( mc::choose_range( 1, 2 ), 3 );
		std::tuple<int, int> const t( 1, 2 );
		auto const r = daw::fmt_range( v );
		auto const u = daw::fmt_tuple( t );
		bool const is_tuple = mc::choose( 2 );
		bool thrown = false;
		bool const died = mc::aborts( [&] {
			try {
				if( is_tuple ) {
					(void)std::vformat( fmt, std::make_format_args( u ) );
				} else {
					(void)std::vformat( fmt, std::make_format_args( r ) );
				}
			} catch( std::format_error const & ) { thrown = true; }
		} );
		MC_CHECK( not died and thrown, "error", "the invalid format string \"%s\" is %s", fmt, died ? "fatal" : "accepted" );
	}
} // namespace

MC_TEST( flat ) { flat( false ); }
MC_TEST( flat_custom ) { flat( true ); }
MC_TEST( texts ) { texts( false ); }
MC_TEST( texts_custom ) { texts( true ); }
MC_TEST( string_views ) { string_views( ); }
MC_TEST( nested ) { nested( false ); }
MC_TEST( nested_custom ) { nested( true ); }
MC_TEST( tuples ) { tuples( false ); }
MC_TEST( tuples_custom ) { tuples( true ); }
MC_TEST( noted ) { noted( false ); }
MC_TEST( noted_custom ) { noted( true ); }
MC_TEST( large ) { large( ); }
MC_TEST( errors ) { errors( ); }
