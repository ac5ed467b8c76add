// Tokenizers and parser primitives: every text up to a length over an alphabet that has
// each delimiter class, for pointers and for forward-only iterators; the oracle locates
// the pieces by position in the text.
#include "mc.h"
#include <cctype>
#include <cstdint>
#include <forward_list>
#include <functional>
#include <list>
#include <optional>
#include <span>
#include <string>
#include <string_view>
#include <vector>
#include <cstring>
#include <regex>
#include <sstream>
#include <stdexcept>

#include <daw/daw_parse_args.h>
#include <daw/daw_parser_addons.h>
#include <daw/daw_parser_helper.h>
#include <daw/daw_parser_helper_sv.h>
#include <daw/daw_span_writer.h>
#include <daw/daw_traits.h>
#include <daw/daw_utility.h>
#include <daw/deprecated/daw_string.h>
#include <daw/iterator/daw_find_iterator.h>
#include <daw/iterator/daw_find_one_iterator.h>

namespace P = daw::parser;

namespace {
	// An exactly sized heap copy of the text, so that ASan sees any read past it
	struct Heap {
		std::size_t n;
		std::unique_ptr<char[]> p;
		explicit Heap( std::string const &s ) : n( s.size( ) ), p( new char[s.size( )] ) { std::copy( s.begin( ), s.end( ), p.get( ) ); }
		char const *begin( ) const { return p.get( ); }
		char const *end( ) const { return p.get( ) + n; }
	};
	struct Chain { // forward-only text
		std::forward_list<char> l;
		explicit Chain( std::string const &s ) { auto it = l.before_begin( ); for( char c : s ) it = l.insert_after( it, c ); }
		auto begin( ) const { return l.begin( ); }
		auto end( ) const { return l.end( ); }
	};
	std::string word( std::string_view alpha, int maxlen ) {
		std::string s;
		int const n = mc::choose( maxlen + 2 );
		if( n > maxlen ) { // a long one: a repeated word with at most one character out of line
			std::size_t const len = mc::pick( { std::size_t{ 17 }, std::size_t{ 40 } } );
			std::size_t const period = 1 + mc::choose( 2 );
			for( std::size_t i = 0; i != len; ++i ) s += i < period ? alpha[mc::choose( int( alpha.size( ) ) )] : s[i - period];
			if( int const at = mc::choose( 4 ); at != 0 ) s[at == 1 ? 0 : at == 2 ? len / 2 : len - 1] = alpha[mc::choose( int( alpha.size( ) ) )];
			return s;
		}
		for( int i = 0; i < n; ++i ) s += alpha[std::size_t( mc::choose( int( alpha.size( ) ) ) )];
		return s;
	}
	// first..last of a result as positions in the text
	template<typename Text, typename It>
	std::size_t at( Text const &t, It it ) { return std::size_t( std::distance( t.begin( ), it ) ); }

	struct Want { std::size_t first, last; bool found; };
	template<typename Text, typename R>
	void same( char const *what, std::string const &s, Text const &t, R const &r, Want w ) {
		auto const f = at( t, r.first ), l = at( t, r.last );
		MC_CHECK( f == w.first and l == w.last and r.found == w.found, what, "%s on \"%s\" gave [%zu,%zu) %s, expected [%zu,%zu) %s", what, s.c_str( ), f, l, r.found ? "found" : "not found", w.first, w.last, w.found ? "found" : "not found" );
		MC_CHECK( static_cast<bool>( r ) == w.found, "find_result-bool", "%s: conversion to bool", what );
		auto m = r;
		MC_CHECK( m.empty( ) == ( w.first == w.last ) and m.empty( false ) == ( w.first == w.last ), "find_result-empty", "%s: empty of [%zu,%zu)", what, f, l );
		bool threw = false;
		try { (void)m.empty( true ); } catch( P::ParserEmptyException const & ) { threw = true; }
		MC_CHECK( threw == ( w.first == w.last ), "find_result-empty-throw", "%s: empty( true )", what );
		MC_CHECK( r.template as<std::string>( ) == s.substr( w.first, w.last - w.first ), "find_result-as", "%s: as<string>", what );
		if constexpr( std::is_pointer_v<decltype( r.first )> ) {
			MC_CHECK( r.to_string( ) == s.substr( w.first, w.last - w.first ), "find_result-to_string", "%s: to_string", what );
			auto const sv = r.to_string_view( );
			MC_CHECK( sv.data( ) == r.first and sv.size( ) == w.last - w.first, "find_result-view", "%s: to_string_view", what );
		}
	}
	template<typename Text, typename F>
	void same_or_throw( char const *what, std::string const &s, Text const &t, F f, std::optional<Want> w ) {
		using R = decltype( f( ) );
		std::optional<R> r;
		try { r = f( ); } catch( P::ParserException const & ) { }
		MC_CHECK( r.has_value( ) == w.has_value( ), what, "%s on \"%s\" %s", what, s.c_str( ), r ? "was accepted" : "was rejected" );
		if( r and w ) same( what, s, t, *r, *w );
	}
	constexpr auto npos = std::string::npos;
	bool ws( char c ) { return c == ' ' or ( c >= 9 and c <= 13 ); }

	template<typename Text>
	void primitives( std::string const &s ) {
		Text const t( s );
		auto const b = t.begin( );
		auto const e = t.end( );
		std::size_t const n = s.size( );
		auto first_of = [&]( auto pred, std::size_t from = 0 ) { for( ; from < n; ++from ) if( pred( s[from] ) ) return from; return npos; };
		auto until = [&]( std::size_t p ) { return p == npos ? Want{ 0, n, false } : Want{ 0, p, true }; };
		auto comma = []( char c ) { return c == ','; };
		auto const p_comma = first_of( comma );
		same( "until", s, t, P::until( b, e, comma ), until( p_comma ) );
		same( "until(no throw)", s, t, P::until( b, e, comma, false ), until( p_comma ) );
		same_or_throw( "until(throw)", s, t, [&] { return P::until( b, e, comma, true ); }, p_comma == npos ? std::nullopt : std::optional<Want>( until( p_comma ) ) );
		same( "until_false", s, t, P::until_false( b, e, comma ), until( first_of( []( char c ) { return c != ','; } ) ) );
		same( "until_value", s, t, P::until_value( b, e, ',' ), until( p_comma ) );
		auto comma_or_a = []( char c ) { return c == ',' or c == 'a'; };
		same( "until_value(2)", s, t, P::until_value( b, e, ',', 'a' ), until( first_of( comma_or_a ) ) );
		same( "until_values", s, t, P::until_values( b, e, std::string( ",a" ) ), until( first_of( comma_or_a ) ) );
		same( "until_values(array)", s, t, P::until_values( b, e, std::vector<char>{ 'a' } ), until( first_of( []( char c ) { return c == 'a'; } ) ) );
		same( "until(in)", s, t, P::until( b, e, P::in( ",a" ) ), until( first_of( comma_or_a ) ) );
		same( "until(one_of)", s, t, P::until( b, e, P::one_of( ',', 'a' ) ), until( first_of( comma_or_a ) ) );
		same( "until(negate)", s, t, P::until( b, e, P::negate( comma ) ), until( first_of( []( char c ) { return c != ','; } ) ) );
		{
			auto const last = s.rfind( ',' );
			same( "until_last_of", s, t, P::until_last_of( b, e, ',' ), until( last ) );
		}
		{ // a match of a whole sequence
			auto const pos = s.find( "a," );
			same( "matcher", s, t, P::matcher( std::string( "a," ) )( b, e ), until( pos ) );
			char const arr[2] = { 'a', ',' };
			same( "matcher(array)", s, t, P::matcher( arr )( b, e ), until( pos ) );
			std::string const pre = "a,";
			MC_CHECK( P::starts_with( b, e, pre.begin( ), pre.end( ), std::equal_to<>{ } ) == ( s.compare( 0, 2, "a," ) == 0 ), "starts_with", "starts_with on \"%s\"", s.c_str( ) );
		}
		auto from_to = [&]( bool thr ) -> std::optional<Want> {
			auto const f = first_of( []( char c ) { return c == 'a'; } );
			if( f == npos ) return std::nullopt;
			auto const l = first_of( comma, f );
			if( l == npos and thr ) return std::nullopt;
			auto const end = l == npos ? n : l;
			return Want{ f, end, f != end };
		};
		for( bool thr : { false, true } ) {
			same_or_throw( "from_to", s, t, [&] { return P::from_to( b, e, 'a', ',', thr ); }, from_to( thr ) );
			same_or_throw( "from_to_pred", s, t, [&] { return P::from_to_pred( b, e, []( char c ) { return c == 'a'; }, comma, thr ); }, from_to( thr ) );
		}
		// splitting: the end of every piece; a final empty piece has no end of its own
		auto ends = [&]( auto pred ) {
			std::vector<std::size_t> r;
			for( std::size_t i = 0; i < n; ++i ) if( pred( s[i] ) ) r.push_back( i );
			if( n != 0 and not pred( s[n - 1] ) ) r.push_back( n );
			return r;
		};
		auto pos_of = [&]( auto const &v ) { std::vector<std::size_t> r; for( auto const &it : v ) r.push_back( at( t, it ) ); return r; };
		MC_CHECK( pos_of( P::split_on( b, e, ',' ) ) == ends( comma ), "split_on", "split_on of \"%s\" has the wrong endings", s.c_str( ) );
		MC_CHECK( pos_of( P::split_on( b, e, ',', 'a' ) ) == ends( comma_or_a ), "split_on-2", "split_on of \"%s\" has the wrong endings", s.c_str( ) );
		MC_CHECK( pos_of( P::split_if( b, e, comma_or_a ) ) == ends( comma_or_a ), "split_if", "split_if of \"%s\" has the wrong endings", s.c_str( ) );
		// whitespace
		std::size_t l = 0, r = n;
		while( l < n and ws( s[l] ) ) ++l;
		while( r > l and ws( s[r - 1] ) ) --r;
		same( "skip_ws", s, t, P::skip_ws( b, e ), { l, n, l != n } );
		same( "trim_left", s, t, P::trim_left( b, e ), { l, n, false } );
		same( "trim_right", s, t, P::trim_right( b, e ), { 0, l == n ? 0 : r, l != n } );
		same( "trim", s, t, P::trim( b, e ), { l, r, l != n } );
		bool te = false, tn = false;
		try { P::assert_not_empty( b, e ); } catch( P::ParserEmptyException const & ) { tn = true; }
		try { P::assert_empty( b, e ); } catch( P::ParserException const & ) { te = true; }
		MC_CHECK( tn == ( n == 0 ) and te == ( n != 0 ), "assert-empty", "assert_empty or assert_not_empty on \"%s\"", s.c_str( ) );
		mc::count_case( );
	}
	MC_TEST( parser_primitives ) {
		auto const s = word( " \ta,b", mc::by_tier( 6, 7 ) );
		primitives<Heap>( s );
		primitives<Chain>( s );
	}
	template<typename Text>
	void numbers( std::string const &s ) {
		Text const t( s );
		std::optional<Want> w;
		std::size_t i = 0;
		while( i < s.size( ) and s[i] != '-' and not std::isdigit( s[i] ) ) ++i;
		if( i != s.size( ) ) {
			std::size_t j = i + 1;
			bool dec = false;
			for( ; j < s.size( ); ++j ) {
				if( s[j] == '.' ) { if( dec ) break; dec = true; }
				else if( not std::isdigit( s[j] ) ) break;
			}
			w = Want{ i, j, true };
		}
		same_or_throw( "find_number", s, t, [&] { return P::find_number( t.begin( ), t.end( ) ); }, w );
	}
	MC_TEST( find_number ) {
		auto const s = word( "-.17x", mc::by_tier( 6, 7 ) );
		numbers<Heap>( s );
		numbers<Chain>( s );
	}
	template<typename Text>
	void literal( std::string const &s ) {
		Text const t( s );
		std::optional<Want> w;
		std::size_t i = 0;
		while( i < s.size( ) and ws( s[i] ) ) ++i;
		if( i != s.size( ) and s[i] == '"' ) {
			for( std::size_t j = i + 1; j < s.size( ); ++j )
				if( s[j] == '"' and s[j - 1] != '\\' ) { w = Want{ i + 1, j, true }; break; }
		}
		same_or_throw( "parse_string_literal", s, t, [&] { return P::parse_string_literal( t.begin( ), t.end( ) ); }, w );
	}
	MC_TEST( string_literal ) {
		auto const s = word( "\"\\a ", mc::by_tier( 7, 8 ) );
		literal<Heap>( s );
		literal<Chain>( s );
	}
	MC_TEST( expectations ) {
		char const c = "abc,"[mc::choose( 4 )];
		auto threw = [&]( auto f ) { try { f( ); return false; } catch( P::ParserException const & ) { return true; } };
		auto isa = []( char x ) { return x == 'a'; };
		auto isb = []( char x ) { return x == 'b'; };
		auto isc = []( char x ) { return x == 'c'; };
		MC_CHECK( P::is_a( c, 'a' ) == ( c == 'a' ) and P::is_a( c, 'a', 'b' ) == ( c == 'a' or c == 'b' ) and P::is_a( c, 'a', 'b', 'c' ) == ( c != ',' ), "is_a", "is_a of '%c'", c );
		MC_CHECK( P::is_true( c, isa ) == ( c == 'a' ) and P::is_true( c, isa, isb ) == ( c == 'a' or c == 'b' ) and P::is_true( c, isa, isb, isc ) == ( c != ',' ), "is_true", "is_true of '%c'", c );
		MC_CHECK( threw( [&] { P::expect( c, 'a', 'b' ); } ) == ( c != 'a' and c != 'b' ), "expect", "expect of '%c'", c );
		MC_CHECK( threw( [&] { P::expect_true( c, isa, isb ); } ) == ( c != 'a' and c != 'b' ), "expect_true", "expect_true of '%c'", c );
		MC_CHECK( threw( [&] { P::assert_equal( c, 'a' ); } ) == ( c != 'a' ), "assert_equal", "assert_equal of '%c'", c );
		MC_CHECK( threw( [&] { P::assert_not_equal( c, 'a' ); } ) == ( c == 'a' ), "assert_not_equal", "assert_not_equal of '%c'", c );
		MC_CHECK( P::in( "ab" )( c ) == ( c == 'a' or c == 'b' ) and P::one_of( 'b', 'c' )( c ) == ( c == 'b' or c == 'c' ), "membership", "in or one_of of '%c'", c );
		char const arr[] = { 'a', ',' };
		MC_CHECK( P::value_in( c, arr ) == ( c == 'a' or c == ',' ) and P::value_in( c, std::vector<int>{ 'a', 'b' } ) == ( c == 'a' or c == 'b' ), "value_in", "value_in of '%c'", c );
		P::char_in_t<'a', 'b'> const in_ab{ };
		P::char_in_t<'c'> const in_c{ };
		MC_CHECK( in_ab( c ) == ( c == 'a' or c == 'b' ) and in_c( c ) == ( c == 'c' ), "char_in", "char_in_t of '%c'", c );
		MC_CHECK( P::pred_true( c ) and not P::pred_false( c ) and P::is_space( ' ' ) and not P::is_space( c ) and P::not_space( c ) and P::is_cr( '\n' ) and not P::is_cr( c ) and P::is_escape( '\\' ) and not P::is_escape( c ) and P::is_quote( '"' ) and not P::is_quote( c ), "constants", "constant predicates" );
	}
	MC_TEST( crlf ) {
		auto const s = word( "\r\nx", mc::by_tier( 8, 9 ) );
		std::size_t const k = 1 + std::size_t( mc::choose( 2 ) );
		P::is_crlf<char> f( k );
		for( std::size_t i = 0; i < s.size( ); ++i ) {
			auto const end = s.substr( 0, i + 1 );
			std::string const want = k == 1 ? "\r\n" : "\r\n\r\n";
			bool const w = end.size( ) >= want.size( ) and end.compare( end.size( ) - want.size( ), want.size( ), want ) == 0;
			MC_CHECK( f( s[i] ) == w, "is_crlf", "is_crlf( %zu ) after %zu characters", k, i + 1 );
		}
	}
	MC_TEST( unicode_whitespace ) {
		// White_Space of the Unicode character database
		for( char32_t c = 0; c < 0x11000; ++c ) {
			bool const w = ( c >= 9 and c <= 13 ) or c == 32 or c == 0x85 or c == 0xA0 or c == 0x1680 or ( c >= 0x2000 and c <= 0x200A ) or c == 0x2028 or c == 0x2029 or c == 0x202F or c == 0x205F or c == 0x3000;
			MC_CHECK( P::is_unicode_whitespace( c ) == w and P::not_unicode_whitespace( c ) == not w, "unicode-ws", "U+%04X", unsigned( c ) );
			mc::count_case( );
		}
	}
	MC_TEST( view_helpers ) {
		auto const s = word( " \ta,", mc::by_tier( 6, 8 ) );
		Heap const t( s );
		daw::string_view const sv( t.begin( ), t.n );
		std::size_t l = 0, r = s.size( );
		while( l < s.size( ) and ws( s[l] ) ) ++l;
		std::size_t rr = s.size( );
		while( rr > 0 and ws( s[rr - 1] ) ) --rr;
		r = std::max( l, rr );
		auto is = [&]( daw::string_view v, std::size_t f, std::size_t n ) { return v.size( ) == n and ( n == 0 or v.data( ) == t.begin( ) + f ); };
		MC_CHECK( is( P::trim_left( sv ), l, s.size( ) - l ) and is( P::trim_right( sv ), 0, rr ) and is( P::trim( sv ), l, r - l ), "sv-trim", "trim of \"%s\"", s.c_str( ) );
		auto const p = s.find( ',' );
		MC_CHECK( P::find_first_of( sv, ',' ) == sv.begin( ) + std::ptrdiff_t( p == npos ? s.size( ) : p ), "sv-find_first_of", "find_first_of on \"%s\"", s.c_str( ) );
		MC_CHECK( P::find_first_of_when( sv, []( char c ) { return c == ','; } ) == sv.begin( ) + std::ptrdiff_t( p == npos ? s.size( ) : p ), "sv-find_first_of_when", "find_first_of_when on \"%s\"", s.c_str( ) );
	}
	MC_TEST( find_iterators ) {
		auto const s = word( "ab,", mc::by_tier( 7, 9 ) );
		Heap const t( s );
		Chain const ch( s );
		std::vector<std::size_t> want_p, want_one;
		std::vector<std::size_t> want_ix;
		for( std::size_t i = 0; i < s.size( ); ++i ) {
			if( s[i] == 'a' ) want_p.push_back( i );
			if( s[i] != 'b' ) { want_one.push_back( i ); want_ix.push_back( s[i] == 'a' ? 0 : 1 ); }
		}
		auto isa = []( char c ) { return c == 'a'; };
		auto isc = []( char c ) { return c == ','; };
		auto visit = [&]( auto const &text, auto it, char const *name ) {
			auto const last = it.end( );
			std::vector<std::size_t> got;
			std::size_t guard = 0;
			for( auto i = it.begin( ); i != last and guard <= s.size( ); ++guard ) {
				got.push_back( at( text, i.raw_begin( ) ) );
				MC_CHECK( *i == 'a' and i.raw_end( ) == text.end( ) and not( i == last ), "find-deref", "find_iterator on \"%s\"", s.c_str( ) );
				if( guard % 2 ) ++i;
				else { auto const old = i; auto const ret = i++; MC_CHECK( ret == old, "find-postinc", "find_iterator post increment" ); }
			}
			MC_CHECK( got == want_p, "find-iterator", "find_iterator(%s) on \"%s\" visits %zu positions instead of %zu", name, s.c_str( ), got.size( ), want_p.size( ) );
		};
		auto run = [&]( auto const &text, auto pred, char const *name ) {
			visit( text, daw::find_iterator( text.begin( ), text.end( ), pred ), name );
		};
		run( t, isa, "lambda" );
		run( ch, isa, "lambda" );
		run( t, +isa, "pointer" );
		// without a last position the search runs to the default constructed
		// iterator, the end of a linked list
		visit( ch, daw::find_iterator( ch.begin( ), isa ), "to the default iterator" );
		visit( ch, daw::find_iterator( ch.begin( ), +isa ), "pointer to the default iterator" );
		auto run1 = [&]( auto const &text ) {
			daw::find_one_iterator it( text.begin( ), text.end( ), isa, isc );
			auto const last = it.end( );
			std::vector<std::size_t> got, ix;
			std::size_t guard = 0;
			for( auto i = it.begin( ); i != last and guard <= s.size( ); ++guard ) {
				auto const el = *i;
				got.push_back( at( text, i.raw_begin( ) ) );
				ix.push_back( el.index );
				MC_CHECK( el.value == s[got.back( )] and i->index == el.index and i->value == el.value, "find-one-value", "find_one_iterator on \"%s\"", s.c_str( ) );
				if( guard % 2 ) ++i;
				else i++;
			}
			MC_CHECK( got == want_one and ix == want_ix, "find-one", "find_one_iterator on \"%s\" visits %zu positions instead of %zu", s.c_str( ), got.size( ), want_one.size( ) );
		};
		run1( t );
		run1( ch );
	}
	MC_TEST( arguments ) {
		int const n = mc::choose( 3 );
		std::vector<std::string> args{ "prog" };
		for( int i = 0; i < n; ++i ) args.push_back( word( "-=\"a", n == 1 ? mc::by_tier( 7, 8 ) : 3 ) );
		bool const noprog = n == 0 and mc::choose( 2 );
		std::vector<std::unique_ptr<char[]>> hold;
		std::vector<char *> argv;
		for( auto const &a : args ) { hold.emplace_back( new char[a.size( ) + 1] ); std::memcpy( hold.back( ).get( ), a.c_str( ), a.size( ) + 1 ); argv.push_back( hold.back( ).get( ) ); }
		argv.push_back( nullptr );
		daw::Arguments const A( noprog ? 0 : int( args.size( ) ), argv.data( ) );
		auto sv = []( daw::string_view v ) { return std::string( v.data( ), v.size( ) ); };
		MC_CHECK( sv( A.program_name( ) ) == ( noprog ? "" : "prog" ), "args-program", "program name" );
		MC_CHECK( A.size( ) == std::size_t( n ) and A.empty( ) == ( n == 0 ) and std::size_t( A.end( ) - A.begin( ) ) == std::size_t( n ) and A.cend( ) - A.cbegin( ) == n, "args-size", "number of arguments" );
		std::vector<std::pair<std::string, std::string>> want;
		for( int i = 0; i < n; ++i ) {
			std::string a = args[std::size_t( i ) + 1], name, value;
			bool more = true;
			if( a.rfind( "--", 0 ) == 0 ) {
				a.erase( 0, 2 );
				auto const eq = a.find( '=' );
				name = a.substr( 0, eq );
				a.erase( 0, eq == npos ? npos : eq + 1 );
				more = not a.empty( );
			}
			if( more ) value = a.size( ) >= 2 and a.front( ) == '"' and a.back( ) == '"' ? a.substr( 1, a.size( ) - 2 ) : a;
			want.emplace_back( name, value );
			auto const &g = A[std::size_t( i )];
			MC_CHECK( sv( g.name ) == name and sv( g.value ) == value, "args-split", "argument %s is split into \"%s\" and \"%s\"", args[std::size_t( i ) + 1].c_str( ), sv( g.name ).c_str( ), sv( g.value ).c_str( ) );
		}
		std::vector<std::string> names{ "", "a", "=", "aa", "zz" };
		for( auto const &w : want ) names.push_back( w.first );
		for( auto const &nm : names ) {
			std::optional<std::size_t> wp;
			for( std::size_t i = want.size( ); i-- > 0; ) if( want[i].first == nm ) wp = i;
			auto const key = daw::string_view( nm.data( ), nm.size( ) );
			auto const p = A.find_argument_position( key );
			auto const v = A[key];
			MC_CHECK( p == wp and v.has_value( ) == wp.has_value( ), "args-find", "lookup of \"%s\"", nm.c_str( ) );
			if( v ) MC_CHECK( sv( *v ) == want[*wp].second, "args-value", "value of \"%s\"", nm.c_str( ) );
		}
		std::optional<std::size_t> fn;
		for( std::size_t i = want.size( ); i-- > 0; ) if( not want[i].first.empty( ) ) fn = i;
		MC_CHECK( A.first_named_argument( ) == fn and A.has_named_argument( ) == fn.has_value( ), "args-named", "first named argument" );
	}
	MC_TEST( span_writing ) {
		std::size_t const n = std::size_t( mc::choose( 5 ) );
		std::vector<char> buf( n, '.' );
		buf.shrink_to_fit( );
		std::string want( n, '.' );
		std::size_t pos = 0;
		bool const counted = mc::choose( 2 );
		std::size_t const cap = counted ? std::size_t( mc::choose( int( n ) + 1 ) ) : n;
		auto w = counted ? daw::span_writer<char>( buf, cap ) : daw::span_writer<char>( buf );
		std::span<char> sp( buf.data( ), cap );
		bool const use_span = mc::choose( 2 );
		for( int step = 0; step < 3; ++step ) {
			int const op = mc::choose( use_span ? 4 : 6 );
			std::string txt;
			switch( op ) {
			case 0: txt = "x"; break;
			case 1: txt = "yz"; break;
			case 2: txt = "ab"; break;
			case 3: txt = "lit"; break;
			case 4: case 5: txt = std::string( 1, '\0' ); break;
			}
			auto act = [&] {
				if( use_span ) {
					if( op == 0 ) sp = daw::write_to_span( sp, 'x' );
					else if( op == 1 ) sp = daw::write_to_span( sp, 'y', int( 'z' ) );
					else if( op == 2 ) sp = daw::write_to_span( sp, std::string( "ab" ) );
					else sp = daw::write_to_span_ntz( sp, "lit" );
				} else {
					if( op == 0 ) w.write( 'x' );
					else if( op == 1 ) w.write( 'y', int( 'z' ) );
					else if( op == 2 ) w.write( std::string( "ab" ) );
					else if( op == 3 ) w.write_ntz( "lit" );
					else if( op == 4 ) w.remove_prefix( 1 );
					else w = w.subspan( 1 );
				}
			};
			if( txt.size( ) > cap - pos ) { MC_CHECK( mc::aborts( act ), "span-overflow", "writing %zu characters into %zu was not stopped", txt.size( ), cap - pos ); return; }
			act( );
			if( op < 4 ) want.replace( pos, txt.size( ), txt );
			pos += txt.size( );
			MC_CHECK( std::string( buf.begin( ), buf.end( ) ) == want, "span-content", "buffer is wrong after writing %zu characters", pos );
			if( use_span ) MC_CHECK( sp.size( ) == cap - pos and ( sp.empty( ) or sp.data( ) == buf.data( ) + pos ), "span-rest", "remaining span" );
			else {
				MC_CHECK( w.size( ) == cap - pos and w.data( ) == buf.data( ) + pos and w.begin( ) == w.data( ) and w.end( ) == buf.data( ) + cap and std::as_const( w ).data( ) == w.data( ) and std::as_const( w ).end( ) == w.end( ), "span-rest", "remaining writer" );
				for( std::size_t i = 0; i < w.size( ); ++i ) MC_CHECK( &w[i] == buf.data( ) + pos + i and &std::as_const( w )[i] == &w[i], "span-index", "operator[]" );
			}
		}
		if( not use_span and w.size( ) < 3 ) MC_CHECK( mc::aborts( [&] { (void)w[w.size( )]; } ) and mc::aborts( [&] { (void)w.remove_prefix( w.size( ) + 1 ); } ) and mc::aborts( [&] { (void)w.subspan( w.size( ) + 1 ); } ), "span-bounds", "an access past the end was not stopped" );
	}
	MC_TEST( old_strings ) {
		namespace S = daw::string;
		auto const s = word( " ,a\t", mc::by_tier( 5, 7 ) );
		auto pieces = [&]( auto pred ) {
			std::vector<std::string> r( 1 );
			for( char c : s ) { if( pred( c ) ) r.emplace_back( ); else r.back( ) += c; }
			return r;
		};
		auto isws = []( char c ) { return c == ' ' or c == '\t'; };
		MC_CHECK( S::split( s ) == pieces( isws ), "split-ws", "split of \"%s\"", s.c_str( ) );
		MC_CHECK( S::split( s, ',' ) == pieces( []( char c ) { return c == ','; } ), "split-char", "split of \"%s\" on a comma", s.c_str( ) );
		MC_CHECK( S::split( s, std::string( ",a" ) ) == pieces( []( char c ) { return c == ',' or c == 'a'; } ), "split-set", "split of \"%s\" on a set", s.c_str( ) );
		MC_CHECK( S::split_if( s, isws ) == pieces( isws ), "split_if", "split_if of \"%s\"", s.c_str( ) );
		MC_CHECK( S::combine( S::split( s, ',' ), ',' ) == s, "combine", "joining the pieces of \"%s\"", s.c_str( ) );
		std::size_t l = 0, r = s.size( );
		while( l < s.size( ) and isws( s[l] ) ) ++l;
		while( r > 0 and isws( s[r - 1] ) ) --r;
		auto const wl = s.substr( l ), wr = s.substr( 0, r ), wb = l < r ? s.substr( l, r - l ) : std::string( );
		auto inplace = [&]( auto f ) { auto c = s; f( c ); return c; };
		auto noexc = [&]( auto f ) -> std::string { try { return f( ); } catch( std::exception const &e ) { return std::string( "(" ) + e.what( ); } };
		MC_CHECK( noexc( [&] { return S::trim_left_copy( s ); } ) == wl and noexc( [&] { return inplace( []( auto &c ) { S::trim_left( c ); } ); } ) == wl, "trim_left", "trim_left of \"%s\"", s.c_str( ) );
		MC_CHECK( S::trim_right_copy( s ) == wr and inplace( []( auto &c ) { S::trim_right( c ); } ) == wr, "trim_right", "trim_right of \"%s\"", s.c_str( ) );
		MC_CHECK( S::trim_copy( s ) == wb and inplace( []( auto &c ) { S::trim( c ); } ) == wb, "trim", "trim of \"%s\"", s.c_str( ) );
		MC_CHECK( noexc( [&] { daw::String x( s ); return x.trim_left( ).trim_right( ).to_string( ); } ) == wb and daw::String( s ).trim( ).to_string( ) == wb, "String", "String trim of \"%s\"", s.c_str( ) );
		std::string const c1 = ",", ca = ",a";
		auto ends = [&]( std::string const &x ) { return s.size( ) >= x.size( ) and s.compare( s.size( ) - x.size( ), x.size( ), x ) == 0; };
		MC_CHECK( S::ends_with( s, c1 ) == ends( c1 ) and S::ends_with( s, ca ) == ends( ca ) and S::ends_with( s, 'a' ) == ends( "a" ), "ends_with", "ends_with of \"%s\"", s.c_str( ) );
		MC_CHECK( S::contains( s, ca ) == ( s.find( ca ) != npos ) and S::in( 'a', s ) == ( s.find( 'a' ) != npos ), "contains", "contains of \"%s\"", s.c_str( ) );
		for( auto const &[f, t] : std::vector<std::pair<char const *, char const *>>{ { ",", "" }, { ",", ",," }, { ",a", "a," }, { "aa", "a" } } ) {
			std::string want;
			for( std::size_t i = 0; i < s.size( ); ) {
				if( s.compare( i, std::strlen( f ), f ) == 0 ) { want += t; i += std::strlen( f ); }
				else want += s[i++];
			}
			MC_CHECK( S::search_replace_copy( s, f, t ) == want and inplace( [&]( auto &c ) { S::search_replace( c, f, t ); } ) == want and daw::String( s ).search_replace( f, t ).to_string( ) == want, "search_replace", "replacing %s by %s in \"%s\"", f, t, s.c_str( ) );
		}
		MC_CHECK( S::string_join( s, 5, "x" ) == s + "5x" and S::string_join( s ) == s and S::string_join( 1, s ) == "1" + s and S::string_join( s, s, s, s ) == s + s + s + s, "string_join", "string_join of \"%s\"", s.c_str( ) );
		MC_CHECK( S::to_string( s ) == s and S::to_string( 42 ) == "42" and S::to_string( "lit" ) == "lit", "to_string", "to_string" );
	}
	MC_TEST( old_format ) {
		static char const *const part[] = { "{0}", "{1}", "x", "{", "}", "{a}", "" };
		std::string f, want;
		bool literal = false;
		std::string const arg0 = "A{1}", arg1 = "7";
		for( int i = 0; i < 4; ++i ) {
			int const k = mc::choose( 7 );
			// a field directly after an opening brace stands for itself
			if( k <= 1 ) want += not f.empty( ) and f.back( ) == '{' ? part[k] : k == 0 ? arg0 : arg1;
			else want += part[k];
			f += part[k];
		}
		(void)literal;
		auto const got = daw::string::fmt( f, arg0, 7 );
		MC_CHECK( got == want, "fmt", "fmt of \"%s\" gave \"%s\"", f.c_str( ), got.c_str( ) );
	}
} // namespace
