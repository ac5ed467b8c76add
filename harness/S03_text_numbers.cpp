// Text to number conversions: every text up to a length over an alphabet of digits, sign
// and junk for every integer type, every value of the 8 and 16 bit types and every value
// around each boundary of the wide types, through every parsing interface; the oracle is
// exact 128 bit arithmetic on the same text.
#include "mc.h"
#include <cstdint>
#include <cstdlib>
#include <limits>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>

#include <daw/daw_ascii.h>
#include <daw/daw_constant.h>
#include <daw/daw_from_string.h>
#include <daw/daw_parse_to.h>
#include <daw/daw_parser_addons.h>
#include <daw/daw_parser_helper_sv.h>
#include <daw/daw_string_concat.h>

namespace {
	using I128 = __int128;
	enum Kind { good, empty_text, malformed, overflow };
	struct Want { Kind kind; I128 v = 0; };
	// [-]?[0-9]+ ; a minus sign on an unsigned type counts as malformed
	template<typename T>
	Want reference( std::string const &s ) {
		if( s.empty( ) ) return { empty_text };
		std::size_t i = 0;
		bool neg = false;
		if( s[0] == '-' ) {
			neg = true; i = 1;
			if( not std::numeric_limits<T>::is_signed ) return { malformed };
		}
		if( i == s.size( ) ) return { malformed };
		I128 v = 0;
		bool over = false;
		for( ; i < s.size( ); ++i ) {
			if( s[i] < '0' or s[i] > '9' ) return { malformed };
			v = v * 10 + ( s[i] - '0' );
			if( v > I128( 1 ) << 100 ) { v = I128( 1 ) << 100; over = true; }
		}
		if( neg ) v = -v;
		if( over or v > I128( std::numeric_limits<T>::max( ) ) or v < I128( std::numeric_limits<T>::min( ) ) ) return { overflow };
		return { good, v };
	}
	std::string show( I128 v ) {
		if( v < 0 ) return "-" + show( -v );
		std::string r;
		do { r.insert( r.begin( ), char( '0' + int( v % 10 ) ) ); v /= 10; } while( v != 0 );
		return r;
	}
	char const *kind_name( Kind k ) { return k == good ? "value" : k == empty_text ? "empty" : k == malformed ? "malformed" : "overflow"; }

	// outcome of one interface; `reported` when it used an error channel it documents
	template<typename T>
	struct Out { bool value = false; T v{ }; bool reported = false; char const *how = "another exception"; };

	template<typename T, typename F>
	Out<T> via( F f ) {
		Out<T> o;
		try {
			o.v = f( ); o.value = true; o.how = "value";
		} catch( daw::parser::parser_exception const & ) { o.reported = true; o.how = "parser_exception"; }
		catch( daw::parser::ParserException const & ) { o.reported = true; o.how = "ParserException"; }
		catch( std::out_of_range const & ) { o.reported = true; o.how = "out_of_range"; }
		return o;
	}
	template<typename T>
	void judge( char const *api, char const *ty, std::string const &s, Out<T> const &o, Want w ) {
		bool const ok = w.kind == good ? o.value and I128( o.v ) == w.v : o.reported;
		MC_CHECK( ok, mc::strf( "%s-%s", api, kind_name( w.kind ) ).c_str( ), "%s<%s>(\"%s\"): got %s %s, the text means %s %s", api, ty, s.c_str( ), o.how,
		          o.value ? show( I128( o.v ) ).c_str( ) : "", kind_name( w.kind ), w.kind == good ? show( w.v ).c_str( ) : "" );
	}
	// The text lives in an exactly sized heap block, so a read past it is caught by ASan.
	struct Exact {
		std::vector<char> b;
		explicit Exact( std::string const &s ) : b( s.begin( ), s.end( ) ) { b.shrink_to_fit( ); }
		daw::string_view sv( ) const { return b.empty( ) ? daw::string_view( "", std::size_t( 0 ) ) : daw::string_view( b.data( ), b.size( ) ); }
	};
	template<typename T>
	void all_apis( char const *ty, std::string const &s ) {
		Exact const ex( s );
		auto const sv = ex.sv( );
		auto const w = reference<T>( s );
		judge( "parse_to", ty, s, via<T>( [&] { return std::get<0>( daw::parser::parse_to<T>( sv, "," ) ); } ), w );
		judge( "construct_from", ty, s, via<T>( [&] { return daw::construct_from<T, T>( sv, daw::string_view( "," ) ); } ), w );
		judge( "apply_string", ty, s, via<T>( [&] { return daw::apply_string<T>( []( T v ) { return v; }, sv, "," ); } ), w );
		if constexpr( not std::is_same_v<T, bool> ) {
			judge( "parser::parse_int", ty, s, via<T>( [&] { return daw::parser::parse_int<T>( sv.data( ), sv.data( ) + sv.size( ) ); } ), w );
			judge( "parser::parse_int(sv)", ty, s, via<T>( [&] { return daw::parser::parse_int<T>( sv ); } ), w );
			judge( "parse_int(out)", ty, s, via<T>( [&] { T r = 77; daw::parser::parse_int( sv.data( ), sv.data( ) + sv.size( ), r ); return r; } ), w );
			auto const wu = w.kind == good and not s.empty( ) and s[0] == '-' ? Want{ malformed } : w;
			judge( "parser::parse_unsigned_int", ty, s, via<T>( [&] { return daw::parser::parse_unsigned_int<T>( sv.data( ), sv.data( ) + sv.size( ) ); } ), wu );
			judge( "parser::parse_unsigned_int(sv)", ty, s, via<T>( [&] { return daw::parser::parse_unsigned_int<T>( sv ); } ), wu );
			if( s.find( '\0' ) == std::string::npos )
				judge( "parser::parse_unsigned_int(z)", ty, s, via<T>( [&] { return daw::parser::parse_unsigned_int<T>( daw::not_null<char const *>( s.c_str( ) ) ); } ), wu );
			std::optional<T> const fs = daw::from_string( daw::tag<T>, sv );
			Out<T> o; o.value = fs.has_value( ); o.reported = not o.value; o.how = o.value ? "value" : "nullopt"; if( fs ) o.v = *fs;
			judge( "from_string", ty, s, o, w );
		}
	}
	template<typename T>
	void text( char const *ty ) {
		static char const alpha[] = { '0', '1', '2', '5', '9', '-', ' ', 'a', '+', '\0', '/', ':', char( 0xB5 ) };
		auto const maxlen = mc::by_tier( sizeof( T ) == 1 or std::is_same_v<T, int> ? 4 : 3, 5 );
		std::string s;
		auto const n = mc::choose( unsigned( maxlen + 1 ) );
		// first characters are branched on, the rest enumerated, so that the tree stays small
		for( unsigned i = 0; i < n; ++i ) s += alpha[0];
		std::vector<unsigned> ix( n, 0 );
		for( ;; ) {
			all_apis<T>( ty, s );
			mc::count_case( );
			unsigned i = 0;
			for( ; i < n; ++i ) {
				if( ++ix[i] < sizeof( alpha ) ) { s[i] = alpha[ix[i]]; break; }
				ix[i] = 0; s[i] = alpha[0];
			}
			if( i == n ) break;
		}
	}
	template<typename T>
	void values( char const *ty ) {
		using L = std::numeric_limits<T>;
		std::vector<I128> centres = { 0, L::max( ), L::min( ) };
		if( sizeof( T ) > 2 ) for( I128 p = 10; p < I128( L::max( ) ) * 1000; p *= 10 ) centres.insert( centres.end( ), { p, -p, I128( L::max( ) ) / p, I128( L::min( ) ) / p } );
		centres.insert( centres.end( ), { I128( L::max( ) ) * 2, I128( L::max( ) ) * 10, I128( L::max( ) ) * 10 + 9, I128( L::max( ) ) * 16, I128( L::max( ) ) * 100, I128( L::min( ) ) * 2, I128( L::min( ) ) * 10, I128( L::min( ) ) * 100 } );
		auto const &c = centres[mc::choose( unsigned( centres.size( ) ) )];
		int const w = sizeof( T ) <= 2 and c == 0 ? int( mc::by_tier( sizeof( T ) == 1 ? 2000 : 33500, 400000 ) ) : int( mc::by_tier( 60, 3000 ) );
		for( int d = -w; d <= w; ++d ) {
			auto const t = show( c + d );
			all_apis<T>( ty, t );
			if( d % 16 == 0 ) {
				all_apis<T>( ty, ( t[0] == '-' ? "-0" + t.substr( 1 ) : "0" + t ) );
				all_apis<T>( ty, ( t[0] == '-' ? "-0000000000000000000000000000" + t.substr( 1 ) : "000000000000000000000000000000" + t ) );
				all_apis<T>( ty, t + "x" );
				all_apis<T>( ty, t + "0000000000000000000000000000000000000" );
				all_apis<T>( ty, "+" + t );
				all_apis<T>( ty, " " + t );
				all_apis<T>( ty, t + " " );
			}
			mc::count_case( );
		}
	}
#define EACH( f )                                                                                                       \
	switch( mc::choose( 12 ) ) {                                                                                \
	case 0: return f<std::int8_t>( "int8_t" );                                                                          \
	case 1: return f<std::uint8_t>( "uint8_t" );                                                                        \
	case 2: return f<std::int16_t>( "int16_t" );                                                                        \
	case 3: return f<std::uint16_t>( "uint16_t" );                                                                      \
	case 4: return f<std::int32_t>( "int32_t" );                                                                        \
	case 5: return f<std::uint32_t>( "uint32_t" );                                                                      \
	case 6: return f<std::int64_t>( "int64_t" );                                                                        \
	case 7: return f<std::uint64_t>( "uint64_t" );                                                                      \
	case 8: return f<long long>( "long long" );                                                                         \
	case 9: return f<unsigned long long>( "unsigned long long" );                                                       \
	case 10: return f<bool>( "bool" );                                                                                  \
	default: return f<long>( "long" );                                                                                  \
	}
	MC_TEST( every_text ) { EACH( text ) }
	MC_TEST( every_value ) { EACH( values ) }

	// from_string of every part of every text, so that something follows what is converted
	MC_TEST( parts ) {
		static char const alpha[] = { 'a', '1', '-', '.', '\0', ' ', '9' };
		int const n = mc::choose_range( 0, mc::by_tier( 4, 5 ) );
		std::string s;
		for( int i = 0; i < n; ++i ) s += alpha[mc::choose( unsigned( sizeof( alpha ) ) )];
		Exact const ex( s );
		for( std::size_t b = 0; b <= s.size( ); ++b )
			for( std::size_t c = 0; b + c <= s.size( ); ++c ) {
				auto const want = s.substr( b, c );
				auto const sv = daw::string_view( ex.sv( ).data( ) + b, c );
				auto const str = daw::from_string( daw::tag<std::string>, sv );
				MC_CHECK( str and *str == want, "from_string-text", "from_string<std::string> of characters %zu to %zu of \"%s\" is \"%s\"", b, b + c, s.c_str( ), str ? str->c_str( ) : "(nothing)" );
				auto const view = daw::from_string( daw::tag<std::string_view>, sv );
				MC_CHECK( view and *view == want, "from_string-text", "from_string<std::string_view> of characters %zu to %zu of \"%s\"", b, b + c, s.c_str( ) );
				auto const own = daw::from_string( daw::tag<daw::string_view>, sv );
				MC_CHECK( own and std::string( own->data( ), own->size( ) ) == want, "from_string-text", "from_string<daw::string_view> of characters %zu to %zu of \"%s\"", b, b + c, s.c_str( ) );
				auto const w = reference<int>( want );
				auto const num = daw::from_string( daw::tag<int>, sv );
				MC_CHECK( num.has_value( ) == ( w.kind == good ) and ( not num or I128( *num ) == w.v ), "from_string-part", "from_string<int> of characters %zu to %zu of \"%s\"", b, b + c, s.c_str( ) );
				// -?(d+(.d*)?|.d+) and nothing else is a number
				std::size_t i = 0, digits = 0, dots = 0;
				if( i < c and want[i] == '-' ) ++i;
				for( ; i < c and ( ( want[i] >= '0' and want[i] <= '9' ) or ( want[i] == '.' and not dots ) ); ++i ) ( want[i] == '.' ? dots : digits )++;
				auto const real = daw::from_string( daw::tag<double>, sv );
				MC_CHECK( real.has_value( ) == ( i == c and digits != 0 ), "from_string-real", "from_string<double> of \"%s\" %s", want.c_str( ), real ? "is accepted" : "is refused" );
				MC_CHECK( not real or *real == std::strtod( want.c_str( ), nullptr ), "from_string-real", "from_string<double> of \"%s\" is %g", want.c_str( ), *real );
				mc::count_case( );
			}
	}

	// several items in one text: positions, splitters, missing and surplus items
	MC_TEST( items ) {
		static char const *const item[] = { "1", "-7", "", "x", "300", "2147483648", "12" };
		static char const *const delim[] = { ",", " ", ", ", "ab" };
		std::string const d = delim[mc::choose( 4 )];
		unsigned const n = mc::choose( 5 );
		std::vector<std::string> it;
		std::string s;
		for( unsigned i = 0; i < n; ++i ) {
			it.push_back( item[mc::choose( 7 )] );
			if( i ) s += d;
			s += it.back( );
		}
		Exact const ex( s );
		it.resize( std::max<std::size_t>( it.size( ), 3 ) );
		Want const w[3] = { reference<int>( it[0] ), reference<unsigned char>( it[1] ), reference<long long>( it[2] ) };
		bool const ok = w[0].kind == good and w[1].kind == good and w[2].kind == good;
		auto check = [&]( std::string const &api, auto f ) {
			bool got = false;
			std::tuple<int, unsigned char, long long> t;
			try { t = f( ); got = true; } catch( daw::parser::parser_exception const & ) { }
			MC_CHECK( got == ok, mc::strf( "%s-%s", api.c_str( ), ok ? "good" : "bad" ).c_str( ), "%s of \"%s\" split on \"%s\" %s", api.c_str( ), s.c_str( ), d.c_str( ), got ? "accepted" : "rejected" );
			if( got and ok ) MC_CHECK( std::get<0>( t ) == w[0].v and std::get<1>( t ) == w[1].v and std::get<2>( t ) == w[2].v, mc::strf( "%s-value", api.c_str( ) ).c_str( ), "%s of \"%s\" split on \"%s\" gave %d,%d,%lld", api.c_str( ), s.c_str( ), d.c_str( ), std::get<0>( t ), int( std::get<1>( t ) ), std::get<2>( t ) );
		};
		daw::string_view const dv( d.data( ), d.size( ) );
		check( "parse_to", [&] { return daw::parser::parse_to<int, unsigned char, long long>( ex.sv( ), dv ); } );
		check( "apply_string", [&] { return daw::apply_string<int, unsigned char, long long>( []( int a, unsigned char b, long long c ) { return std::tuple<int, unsigned char, long long>( a, b, c ); }, ex.sv( ), dv ); } );
		check( "apply_string2", [&] { return daw::apply_string2( []( int a, unsigned char b, long long c ) { return std::tuple<int, unsigned char, long long>( a, b, c ); }, ex.sv( ), dv ); } );
		check( "construct_from", [&] { return daw::construct_from<std::tuple<int, unsigned char, long long>, int, unsigned char, long long>( ex.sv( ), dv ); } );
		check( "values_from_stream", [&] { std::stringstream ss( s ); return daw::values_from_stream<int, unsigned char, long long>( ss, dv ); } );
		if( d == " " ) check( "parse_to default", [&] { return daw::parser::parse_to<int, unsigned char, long long>( ex.sv( ) ); } );
	}
	MC_TEST( whitespace_items ) {
		static char const alpha[] = { ' ', '\t', '1', '2' };
		unsigned const n = mc::choose( unsigned( mc::by_tier( 8, 10 ) ) );
		std::string s;
		for( unsigned i = 0; i < n; ++i ) s += alpha[mc::choose( 4 )];
		Exact const ex( s );
		auto const ws = []( char c ) { return c == ' ' or c == '\t'; };
		std::string a, b;
		std::size_t p = 0;
		bool const merge = mc::choose( 2 );
		auto next = [&]( std::string &o ) {
			while( p < s.size( ) and not ws( s[p] ) ) o += s[p++];
			if( p < s.size( ) ) ++p;
			while( merge and p < s.size( ) and ws( s[p] ) ) ++p;
		};
		next( a ); next( b );
		using U = daw::parser::converters::unquoted_string;
		bool got = false;
		std::tuple<std::string, std::string> t;
		try {
			t = merge ? daw::parser::parse_to<U, U>( ex.sv( ), daw::parser::basic_whitespace_splitter<true>{ } )
			          : daw::parser::parse_to<U, U>( ex.sv( ), daw::parser::basic_whitespace_splitter<false>{ } );
			got = true;
		} catch( daw::parser::empty_input_exception const & ) { }
		MC_CHECK( got == ( not a.empty( ) and not b.empty( ) ), "ws-accept", "\"%s\" %s", s.c_str( ), got ? "accepted" : "rejected" );
		if( got ) MC_CHECK( std::get<0>( t ) == a and std::get<1>( t ) == b, "ws-value", "\"%s\" gave \"%s\" and \"%s\"", s.c_str( ), std::get<0>( t ).c_str( ), std::get<1>( t ).c_str( ) );
	}
	MC_TEST( quoted ) {
		static char const alpha[] = { '"', '\\', 'a' };
		unsigned const n = mc::choose( unsigned( mc::by_tier( 9, 11 ) ) );
		std::string s;
		for( unsigned i = 0; i < n; ++i ) s += alpha[mc::choose( 3 )];
		Exact const ex( s );
		// "text" up to the first quote that no backslash precedes
		std::optional<std::string> want;
		if( s.size( ) >= 2 and s[0] == '"' )
			for( std::size_t i = 1; i < s.size( ); ++i )
				if( s[i] == '"' and ( i == 1 or s[i - 1] != '\\' ) ) { want = s.substr( 1, i - 1 ); break; }
		std::optional<std::string> got, got2;
		try { got = std::get<0>( daw::parser::parse_to<std::string>( ex.sv( ), "," ) ); } catch( ... ) { }
		try { auto const v = std::get<0>( daw::parser::parse_to<daw::string_view>( ex.sv( ), "," ) ); got2 = std::string( v.data( ), v.size( ) ); } catch( ... ) { }
		MC_CHECK( got == want and got2 == want, want ? "quoted" : "unquoted", "%s read as %s", s.c_str( ), got ? got->c_str( ) : "(rejected)" );
	}
	// ASCII classification for every value of the character types
	template<typename C>
	void ascii( ) {
		for( long v = std::numeric_limits<C>::min( ); v <= long( std::numeric_limits<C>::max( ) ); ++v ) {
			C const c = static_cast<C>( v );
			bool const dig = v >= '0' and v <= '9', up = v >= 'A' and v <= 'Z', lo = v >= 'a' and v <= 'z', pr = v >= 32 and v < 127;
			MC_CHECK( daw::is_ascii_digit( c ) == dig and daw::is_ascii_alpha( c ) == ( up or lo ) and daw::is_ascii_alphanum( c ) == ( dig or up or lo ) and daw::is_ascii_printable( c ) == pr, "ascii-class", "character %ld is classified wrongly", v );
			MC_CHECK( daw::to_upper_ascii( c ) == C( lo ? v - 32 : v ) and daw::to_lower_ascii( c ) == C( up ? v + 32 : v ), "ascii-case", "case mapping of character %ld", v );
			bool const hex = dig or ( v >= 'a' and v <= 'f' ) or ( v >= 'A' and v <= 'F' );
			MC_CHECK( daw::parser::is_number( c ) == dig and daw::parser::is_hex( c ) == hex and daw::parser::is_alpha( c ) == ( up or lo ) and daw::parser::is_alphanumeric( c ) == ( dig or up or lo ), "parser-class", "parser classification of character %ld", v );
			mc::count_case( );
		}
	}
	MC_TEST( characters ) {
		switch( mc::choose( 4 ) ) {
		case 0: return ascii<char>( );
		case 1: return ascii<unsigned char>( );
		case 2: return ascii<short>( );
		default: return ascii<char16_t>( );
		}
	}
	// concatenation and the joining iterator read every character exactly once
	MC_TEST( concat ) {
		static char const *const part[] = { "", "a", "bc", "d\0" };
		unsigned const n = mc::choose_range( 1, 4 );
		std::string p[4], want;
		for( unsigned i = 0; i < n; ++i ) {
			unsigned const k = mc::choose( 4 );
			p[i] = k == 3 ? std::string( "d\0", 2 ) : std::string( part[k] );
			want += p[i];
		}
		std::string got, joined;
		auto join = [&]( auto... s ) {
#ifndef MC_NO_INTERNALS
			using It = daw::string_concat_impl::string_join_iterator<sizeof...( s )>;
			It first( s... ), last;
			if( ( ( s.size( ) != 0 ) or ... ) ) MC_CHECK( last - first == std::ptrdiff_t( want.size( ) ), "join-distance", "distance of a join" );
			for( std::size_t guard = 0; first != last and guard <= want.size( ); ++guard ) { joined += *first; first++; }
#else
			( ( joined += s ), ... );
#endif
		};
		switch( n ) {
		case 1: got = daw::string_concat( p[0] ); join( p[0] ); break;
		case 2: got = daw::string_concat( p[0], p[1] ); join( p[0], p[1] ); break;
		case 3: got = daw::string_concat( p[0], p[1], std::string_view( p[2] ) ); join( p[0], p[1], p[2] ); break;
		default: got = daw::string_concat( std::move( p[0] ), p[1], p[2], p[3] ); p[0] = want.substr( 0, want.size( ) - p[1].size( ) - p[2].size( ) - p[3].size( ) ); join( p[0], p[1], p[2], p[3] ); break;
		}
		MC_CHECK( got == want, "concat", "string_concat gave a text of %zu characters instead of %zu", got.size( ), want.size( ) );
		MC_CHECK( joined == want, "join", "join iteration gave %zu characters instead of %zu", joined.size( ), want.size( ) );
	}
	// the value of a numeric literal
	MC_TEST( literals ) {
		using namespace daw::literals;
		MC_CHECK( 0_c == 0ULL and 7_c == 7ULL and 65536_c == 65536ULL and 9999999999_c == 9999999999ULL and 18446744073709551615_c == 18446744073709551615ULL, "literal", "_c literal" );
	}
} // namespace
