// String views: every subject over a small alphabet up to a length, with every needle
// up to a length and every position, against the standard string view. Subject and
// needle live in buffers of exactly their size, so that one read outside them is caught.
#include "mc.h"
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

#include <daw/daw_string_view.h>
#include <daw/deprecated/daw_string_view1.h>

namespace {
	template<typename C>
	struct Buf { // exactly n characters
		std::unique_ptr<C[]> p;
		std::size_t n;
		explicit Buf( std::basic_string<C> const &s, bool zero = false ) : p( new C[s.size( ) + zero] ), n( s.size( ) ) {
			for( std::size_t i = 0; i < n; ++i ) p[i] = s[i];
			if( zero ) p[n] = C{ };
		}
	};
	template<typename C>
	std::basic_string<C> word( std::vector<C> const &alphabet, int max ) {
		int const len = mc::choose_range( 0, max );
		std::basic_string<C> r;
		for( int i = 0; i < len; ++i ) r.push_back( mc::pick( alphabet ) );
		return r;
	}
	template<typename C>
	std::string show( std::basic_string<C> const &s ) {
		std::string r = "\"";
		for( auto c : s ) {
			auto const u = static_cast<unsigned long>( static_cast<std::make_unsigned_t<C>>( c ) );
			if( u >= 32 and u < 127 ) r += static_cast<char>( u );
			else r += mc::strf( "\\x%lx", u );
		}
		return r + "\"";
	}
	template<> inline std::string show<char16_t>( std::basic_string<char16_t> const &s ) {
		std::string r = "u\"";
		for( auto c : s ) r += mc::strf( c >= 32 and c < 127 ? "%c" : "\\x%x", c );
		return r + "\"";
	}
	template<> inline std::string show<char32_t>( std::basic_string<char32_t> const &s ) {
		std::string r = "U\"";
		for( auto c : s ) r += mc::strf( c >= 32 and c < 127 ? "%c" : "\\x%x", static_cast<unsigned>( c ) );
		return r + "\"";
	}
	constexpr std::size_t npos = static_cast<std::size_t>( -1 );
	int sign( int v ) { return ( v > 0 ) - ( v < 0 ); }
	// lexicographic by the character's own <, which is what the views document
	template<typename C>
	int order( std::basic_string_view<C> a, std::basic_string_view<C> b ) {
		for( std::size_t i = 0; i < a.size( ) and i < b.size( ); ++i ) {
			if( a[i] < b[i] ) return -1;
			if( b[i] < a[i] ) return 1;
		}
		return a.size( ) < b.size( ) ? -1 : a.size( ) > b.size( );
	}

	template<typename C, typename SV, bool One> // One: the deprecated sv1 view
	struct Check {
		using Str = std::basic_string<C>;
		using Std = std::basic_string_view<C>;
		Str subj, ndl;
		Std s, n;
		void eq( char const *op, std::size_t got, std::size_t want, std::size_t pos ) const {
			mc::count_case( );
			MC_CHECK( got == want, op, "%s of %s in %s at %zd gave %zd, expected %zd", op, show( ndl ).c_str( ), show( subj ).c_str( ), static_cast<ssize_t>( pos ), static_cast<ssize_t>( got ), static_cast<ssize_t>( want ) );
		}
		void tr( char const *op, bool ok, std::size_t pos = 0 ) const {
			mc::count_case( );
			MC_CHECK( ok, op, "%s is wrong for %s and %s at %zd", op, show( subj ).c_str( ), show( ndl ).c_str( ), static_cast<ssize_t>( pos ) );
		}
		template<typename F>
		bool throws( F f ) const {
			try { f( ); } catch( std::out_of_range const & ) { return true; }
			return false;
		}

		// needle given as a view
		void pair( SV v, SV w ) const {
			for( std::size_t i = 0; i <= s.size( ) + 2; ++i ) {
				std::size_t const pos = i == s.size( ) + 2 ? npos : i;
				bool const inside = pos <= s.size( );
				// every find is npos for a position past the end
				eq( "find", v.find( w, pos ), s.find( n, pos ), pos );
				eq( "rfind", v.rfind( w, pos ), s.rfind( n, pos ), pos );
				eq( "find_first_of", v.find_first_of( w, pos ), s.find_first_of( n, pos ), pos );
				eq( "find_first_not_of", v.find_first_not_of( w, pos ), s.find_first_not_of( n, pos ), pos );
				// search: as find, but an empty pattern is never found
				auto const srch = n.empty( ) ? npos : s.find( n, pos );
				eq( "search", v.search( w, pos ), srch, pos );
				auto last = n.empty( ) ? npos : s.rfind( n );
				if( last != npos and ( pos > s.size( ) or last < pos ) ) last = npos;
				eq( "search_last", v.search_last( w, pos ), last, pos );
				if( pos >= s.size( ) or One or sizeof( C ) > 1 ) eq( "find_last_of", v.find_last_of( w, pos ), s.find_last_of( n, pos ), pos );
				else { // the position is known not to be honoured: still, never a position without a match
					auto const r = v.find_last_of( w, pos );
					tr( "find_last_of-found", r == npos or ( r < s.size( ) and n.find( s[r] ) != npos ), pos );
					if( s.find_last_of( n, pos ) != npos ) tr( "find_last_of-missed", r != npos, pos );
				}
				if constexpr( not One ) {
					eq( "find_last_not_of", v.find_last_not_of( w, pos ), s.find_last_not_of( n, pos ), pos );
					eq( "find_first_match", v.find_first_match( w, pos ), s.find( n, pos ), pos );
				}
				if( inside ) {
					eq( "find(p,pos,count)", v.find( w.data( ), pos, w.size( ) ), s.find( n, pos ), pos );
					if constexpr( not One ) {
						tr( "contains(p,pos,count)", v.contains( w.data( ), pos, w.size( ) ) == ( s.find( n, pos ) != npos ), pos );
					}
				}
				eq( "rfind(p,pos,count)", v.rfind( w.data( ), pos, w.size( ) ), s.rfind( n, pos ), pos );
				eq( "find_first_of(p,pos,count)", v.find_first_of( w.data( ), pos, w.size( ) ), s.find_first_of( n, pos ), pos );
				eq( "find_first_not_of(p,pos,count)", v.find_first_not_of( w.data( ), pos, w.size( ) ), s.find_first_not_of( n, pos ), pos );
				if constexpr( not One ) eq( "find_last_not_of(p,pos,count)", v.find_last_not_of( w.data( ), pos, w.size( ) ), s.find_last_not_of( n, pos ), pos );
				// substr / compare of parts
				for( std::size_t c = 0; c <= s.size( ) + 1; ++c ) {
					std::size_t const cnt = c == s.size( ) + 1 ? npos : c;
					if( not inside ) {
						tr( "substr-throws", throws( [&] { (void)v.substr( pos, cnt ); } ), pos );
						continue;
					}
					auto const sub = v.substr( pos, cnt );
					auto const ref = s.substr( pos, cnt );
					tr( "substr", sub.size( ) == ref.size( ) and sub.data( ) == v.data( ) + pos, pos );
					tr( "compare(pos,count,view)", sign( v.compare( pos, cnt, w ) ) == order( ref, n ), pos );
					tr( "compare(pos,count,p,count)", sign( v.compare( pos, cnt, w.data( ), w.size( ) ) ) == order( ref, n ), pos );
					if( not n.empty( ) ) tr( "compare(pos,count,view,pos,count)", sign( v.compare( pos, cnt, w, 1, 1 ) ) == order( ref, n.substr( 1, 1 ) ), pos );
					C dest[64];
					auto const k = v.copy( dest, cnt, pos );
					tr( "copy", k == ref.size( ) and Std( dest, k ) == ref, pos );
				}
			}
			eq( "find", v.find( w ), s.find( n ), 0 );
			eq( "rfind", v.rfind( w ), s.rfind( n ), npos );
			eq( "find_first_of", v.find_first_of( w ), s.find_first_of( n ), 0 );
			eq( "find_first_not_of", v.find_first_not_of( w ), s.find_first_not_of( n ), 0 );
			eq( "find_last_of", v.find_last_of( w ), s.find_last_of( n ), npos );
			eq( "search", v.search( w ), n.empty( ) ? npos : s.find( n ), 0 );
			eq( "search_last", v.search_last( w ), n.empty( ) ? npos : s.rfind( n ), 0 );
			tr( "starts_with", v.starts_with( w ) == s.starts_with( n ) );
			tr( "ends_with", v.ends_with( w ) == s.ends_with( n ) );
			tr( "compare", sign( v.compare( w ) ) == order( s, n ) );
			int const o = order( s, n );
			tr( "==", ( v == w ) == ( o == 0 ) );
			tr( "!=", ( v != w ) == ( o != 0 ) );
			tr( "<", ( v < w ) == ( o < 0 ) );
			tr( "<=", ( v <= w ) == ( o <= 0 ) );
			tr( ">", ( v > w ) == ( o > 0 ) );
			tr( ">=", ( v >= w ) == ( o >= 0 ) );
			tr( "==string", ( v == ndl ) == ( o == 0 ) and ( v != ndl ) == ( o != 0 ) and ( ndl == v ) == ( o == 0 ) and ( ndl != v ) == ( o != 0 ) );
			if( o == 0 ) tr( "hash", std::hash<SV>{ }( v ) == std::hash<SV>{ }( w ) );
			if constexpr( not One ) {
				tr( "contains", v.contains( w ) == ( s.find( n ) != npos ) );
				eq( "find_last_not_of", v.find_last_not_of( w ), s.find_last_not_of( n ), npos );
				tr( "string<", ( ndl < v ) == ( o > 0 ) and ( ndl <= v ) == ( o >= 0 ) and ( ndl > v ) == ( o < 0 ) and ( ndl >= v ) == ( o <= 0 ) );
				tr( "compare(cmp)", sign( v.compare( w, []( C a, C b ) { return a > b; } ) ) == [&] {
					for( std::size_t i = 0; i < s.size( ) and i < n.size( ); ++i ) if( s[i] != n[i] ) return s[i] > n[i] ? -1 : 1;
					return s.size( ) < n.size( ) ? -1 : s.size( ) > n.size( ) ? 1 : 0;
				}( ) );
				// patterns tried together: the first position at which any of them matches
				for( std::size_t pos = 0; pos <= s.size( ); ++pos ) {
					C const c0 = n.empty( ) ? C( 'a' ) : n[0];
					Str const other( 2, c0 );
					SV const o2( other.data( ), other.size( ) );
					auto const f = std::min( s.find( n, pos ), s.find( other, pos ) );
					eq( "find_first_match", v.find_first_match( { w, o2 }, pos ), f, pos );
					eq( "find_first_match", v.find_first_match( { o2, w }, pos ), f, pos );
				}
			}
		}
		// needle given as a zero terminated pointer
		void pointer( SV v, C const *z ) const {
			for( std::size_t pos = 0; pos <= s.size( ); ++pos ) {
				eq( "find(p)", v.find( z, pos ), s.find( z, pos ), pos );
				eq( "rfind(p)", v.rfind( z, pos ), s.rfind( z, pos ), pos );
				eq( "find_first_of(p)", v.find_first_of( z, pos ), s.find_first_of( z, pos ), pos );
				eq( "find_first_not_of(p)", v.find_first_not_of( z, pos ), s.find_first_not_of( z, pos ), pos );
				eq( "search(p)", v.search( z, pos ), *z ? s.find( z, pos ) : npos, pos );
				if constexpr( not One ) {
					eq( "find_last_not_of(p)", v.find_last_not_of( z, pos ), s.find_last_not_of( z, pos ), pos );
					tr( "contains(p,pos)", v.contains( z, pos ) == ( s.find( z, pos ) != npos ), pos );
				}
				tr( "compare(pos,count,p)", sign( v.compare( pos, 2, z ) ) == order( s.substr( pos, 2 ), n ), pos );
			}
			eq( "find_last_of(p)", v.find_last_of( z, npos ), s.find_last_of( z ), npos );
			eq( "find_first_of(p)", v.find_first_of( z ), s.find_first_of( z ), 0 );
			eq( "find_first_not_of(p)", v.find_first_not_of( z ), s.find_first_not_of( z ), 0 );
			tr( "starts_with(p)", v.starts_with( z ) == s.starts_with( z ) );
			tr( "ends_with(p)", v.ends_with( z ) == s.ends_with( z ) );
			tr( "==p", ( v == z ) == ( s == n ) and ( z == v ) == ( s == n ) and ( v != z ) == ( s != n ) and ( z != v ) == ( s != n ) );
			int const o = order( s, n );
			tr( "<p", ( v < z ) == ( o < 0 ) and ( z < v ) == ( o > 0 ) and ( v <= z ) == ( o <= 0 ) and ( z >= v ) == ( o <= 0 ) );
			if constexpr( not One ) {
				tr( "contains(p)", v.contains( z ) == ( s.find( z ) != npos ) );
				eq( "find_last_not_of(p)", v.find_last_not_of( z ), s.find_last_not_of( z ), npos );
			}
		}
		void character( SV v, C c ) const {
			for( std::size_t pos = 0; pos <= s.size( ) + 1; ++pos ) {
				if( pos <= s.size( ) ) {
					eq( "find(c)", v.find( c, pos ), s.find( c, pos ), pos );
					if constexpr( not One ) tr( "contains(c)", v.contains( c, pos ) == ( s.find( c, pos ) != npos ), pos );
				}
				eq( "rfind(c)", v.rfind( c, pos ), s.rfind( c, pos ), pos );
				eq( "find_first_of(c)", v.find_first_of( c, pos ), s.find_first_of( c, pos ), pos );
				eq( "find_first_not_of(c)", v.find_first_not_of( c, pos ), s.find_first_not_of( c, pos ), pos );
				if constexpr( not One ) eq( "find_last_not_of(c)", v.find_last_not_of( c, pos ), s.find_last_not_of( c, pos ), pos );
				auto const is = [c]( C x ) { return x == c; };
				eq( "find_first_of_if", v.find_first_of_if( is, pos ), s.find_first_of( c, pos ), pos );
				eq( "find_first_not_of_if", v.find_first_not_of_if( is, pos ), s.find_first_not_of( c, pos ), pos );
				if constexpr( One ) eq( "find_last_of_if", v.find_last_of_if( is, pos ), s.find_last_of( c, pos ), pos );
				else {
					eq( "find_last_of_if", v.find_last_of_if( is, pos ), pos == 0 ? npos : s.find_last_of( c, pos - 1 ), pos );
					eq( "find_last_not_of_if", v.find_last_not_of_if( is, pos ), s.find_last_not_of( c, pos ), pos );
				}
			}
			auto const is = [c]( C x ) { return x == c; };
			eq( "find(c)", v.find( c ), s.find( c ), 0 );
			eq( "rfind(c)", v.rfind( c ), s.rfind( c ), npos );
			eq( "find_last_of(c)", v.find_last_of( c ), s.find_last_of( c ), npos );
			eq( "find_last_of_if", v.find_last_of_if( is ), s.find_last_of( c ), npos );
			if constexpr( not One ) {
				eq( "find_last_not_of(c)", v.find_last_not_of( c ), s.find_last_not_of( c ), npos );
				eq( "find_last_not_of_if", v.find_last_not_of_if( is ), s.find_last_not_of( c ), npos );
				eq( "find_first_not_of(c)", v.find_first_not_of( c ), s.find_first_not_of( c ), 0 );
			}
			tr( "starts_with(c)", v.starts_with( c ) == s.starts_with( c ) );
			tr( "ends_with(c)", v.ends_with( c ) == s.ends_with( c ) );
		}
		void access( SV v, C const *data ) const {
			tr( "size", v.size( ) == s.size( ) and v.length( ) == s.size( ) and v.empty( ) == s.empty( ) );
			tr( "data", v.data( ) == data and v.data_end( ) == data + s.size( ) );
			tr( "begin/end", v.begin( ) == data and v.end( ) == data + s.size( ) and v.cbegin( ) == v.begin( ) and v.cend( ) == v.end( ) );
			tr( "iteration", Str( v.begin( ), v.end( ) ) == subj );
			tr( "reverse iteration", Str( v.rbegin( ), v.rend( ) ) == Str( s.rbegin( ), s.rend( ) ) and Str( v.crbegin( ), v.crend( ) ) == Str( s.rbegin( ), s.rend( ) ) );
			for( std::size_t i = 0; i < s.size( ); ++i ) tr( "element", &v[i] == data + i and &v.at( i ) == data + i, i );
			for( std::size_t i = s.size( ); i < s.size( ) + 3; ++i ) tr( "at-throws", throws( [&] { (void)v.at( i ); } ), i );
			tr( "at-throws", throws( [&] { (void)v.at( npos ); } ), npos );
			if( not s.empty( ) ) tr( "front/back", &v.front( ) == data and &v.back( ) == data + s.size( ) - 1 );
			auto const whole = v.substr( );
			tr( "substr()", whole.data( ) == data and whole.size( ) == s.size( ) );
			tr( "conversion", static_cast<Str>( v ) == subj and static_cast<Std>( v ) == s );
			SV copy = v, assigned{ };
			assigned = copy;
			tr( "copies", copy.data( ) == data and copy.size( ) == s.size( ) and assigned.data( ) == data and assigned.size( ) == s.size( ) );
		}
	};

	// a repeated word with at most one character out of line, and a part of it,
	// perhaps with its last character changed
	template<typename C>
	std::basic_string<C> long_word( std::vector<C> const &alphabet ) {
		std::size_t const n = mc::pick( { std::size_t{ 17 }, std::size_t{ 40 } } );
		std::size_t const period = 1 + mc::choose( 3 );
		std::basic_string<C> r;
		for( std::size_t i = 0; i != n; ++i ) r.push_back( i < period ? mc::pick( alphabet ) : r[i - period] );
		if( unsigned const at = mc::choose( 4 ); at != 0 ) r[at == 1 ? 0 : at == 2 ? n / 2 : n - 1] = alphabet.back( );
		return r;
	}
	template<typename C>
	std::basic_string<C> part_of( std::basic_string<C> const &s, std::vector<C> const &alphabet ) {
		std::size_t const n = mc::pick( { std::size_t{ 1 }, std::size_t{ 5 }, std::size_t{ 16 }, s.size( ) } );
		std::size_t const room = s.size( ) - n;
		std::basic_string<C> r = s.substr( room == 0 ? 0 : mc::pick( { std::size_t{ 0 }, room / 2, room } ), n );
		switch( mc::choose( 4 ) ) {
		case 1: r.back( ) = r.back( ) == alphabet[0] ? alphabet[1] : alphabet[0]; break;
		case 2: r.front( ) = r.front( ) == alphabet[0] ? alphabet[1] : alphabet[0]; break;
		case 3: r.push_back( alphabet[0] ); break;
		default: break;
		}
		return r;
	}

	template<typename C, typename SV, bool One>
	void pairs( std::vector<C> const &alphabet, int ls, int ln ) {
		auto const subj = ls < 0 ? long_word( alphabet ) : word( alphabet, ls );
		auto const ndl = ls < 0 ? part_of( subj, alphabet ) : word( alphabet, ln );
		mc::note( "subject %s needle %s", show( subj ).c_str( ), show( ndl ).c_str( ) );
		Buf<C> const b( subj ), m( ndl );
		Check<C, SV, One> const k{ subj, ndl, { subj.data( ), subj.size( ) }, { ndl.data( ), ndl.size( ) } };
		SV const v( static_cast<C const *>( b.p.get( ) ), b.n ), w( static_cast<C const *>( m.p.get( ) ), m.n );
		k.pair( v, w );
		if( ndl.size( ) == 1 ) k.character( v, ndl[0] );
		if( ndl.empty( ) ) k.access( v, b.p.get( ) );
		if( ndl.find( C{ } ) == npos ) {
			Buf<C> const z( ndl, true );
			k.pointer( v, z.p.get( ) );
		}
		if( subj.empty( ) ) { // a view of nothing at all
			SV const none{ };
			k.pair( none, w );
			if( ndl.size( ) == 1 ) k.character( none, ndl[0] );
			if( ndl.empty( ) ) k.access( none, nullptr ), k.pair( none, none );
		}
		if( ndl.empty( ) ) k.pair( v, SV{ } );
	}
	template<typename C>
	std::vector<C> letters( ) { return { C( 'a' ), C( 'b' ) }; }
	template<typename C>
	std::vector<C> odd( ) { return { C( 'a' ), C( 0 ), C( ~C( 0 ) ) }; } // NUL and the all-ones character
	template<typename C>
	std::vector<C> edge( ) { return { C( 0x61 ), C( 0x161 ), std::numeric_limits<C>::min( ), std::numeric_limits<C>::max( ) }; }

	template<typename C>
	using One = daw::sv1::basic_string_view<C>;
	template<typename C>
	using OneSize = daw::sv1::basic_string_view<C, daw::sv1::StringViewBoundsSize>;
	template<typename C>
	using Two = daw::sv2::basic_string_view<C>;
}

MC_TEST( sv2_char ) { pairs<char, Two<char>, false>( letters<char>( ), mc::by_tier( 8, 11 ), mc::by_tier( 3, 4 ) ); }
MC_TEST( sv2_char_odd ) { pairs<char, Two<char>, false>( odd<char>( ), mc::by_tier( 4, 6 ), mc::by_tier( 2, 3 ) ); }
MC_TEST( sv2_char16 ) { pairs<char16_t, Two<char16_t>, false>( letters<char16_t>( ), mc::by_tier( 5, 7 ), mc::by_tier( 2, 3 ) ); }
MC_TEST( sv2_char16_odd ) { pairs<char16_t, Two<char16_t>, false>( edge<char16_t>( ), mc::by_tier( 2, 4 ), 2 ); }
MC_TEST( sv2_char32 ) { pairs<char32_t, Two<char32_t>, false>( edge<char32_t>( ), mc::by_tier( 3, 4 ), 2 ); }
MC_TEST( sv2_wchar ) { pairs<wchar_t, Two<wchar_t>, false>( edge<wchar_t>( ), mc::by_tier( 3, 4 ), 2 ); }
MC_TEST( sv1_char ) { pairs<char, One<char>, true>( letters<char>( ), mc::by_tier( 7, 9 ), 3 ); }
MC_TEST( sv1_char_odd ) { pairs<char, One<char>, true>( odd<char>( ), mc::by_tier( 3, 4 ), 2 ); }
MC_TEST( sv1_char_size ) { pairs<char, OneSize<char>, true>( letters<char>( ), mc::by_tier( 4, 6 ), 2 ); }
MC_TEST( sv1_char16 ) { pairs<char16_t, One<char16_t>, true>( edge<char16_t>( ), 2, 2 ); }
MC_TEST( sv2_char_long ) { pairs<char, Two<char>, false>( letters<char>( ), -1, 0 ); }
MC_TEST( sv2_char16_long ) { pairs<char16_t, Two<char16_t>, false>( letters<char16_t>( ), -1, 0 ); }
MC_TEST( sv1_char_long ) { pairs<char, One<char>, true>( letters<char>( ), -1, 0 ); }

// every byte as subject and as needle
MC_TEST( bytes ) {
	unsigned const a = mc::choose( 256 );
	char const hay[3] = { 'x', static_cast<char>( a ), 'y' };
	Two<char> const v( static_cast<char const *>( hay ), 3 );
	std::string_view const s( hay, 3 );
	for( unsigned b = 0; b < 256; ++b ) {
		char const c = static_cast<char>( b );
		std::string_view const n( &c, 1 );
		Two<char> const w( &c, 1 );
		mc::count_case( );
		bool const ok = v.find( c ) == s.find( c ) and v.find( w ) == s.find( n ) and v.find_first_of( w ) == s.find_first_of( n ) and v.find_last_of( w ) == s.find_last_of( n ) and v.find_first_not_of( w ) == s.find_first_not_of( n ) and v.find_last_not_of( w ) == s.find_last_not_of( n ) and v.rfind( c ) == s.rfind( c );
		MC_CHECK( ok, "byte", "searching byte %u in x,%u,y differs from the standard view", b, a );
	}
}
// finding the last of a set from a position; the library's own test expects the position to be ignored
MC_TEST( sv2_find_last_of_position ) {
	auto const subj = word( letters<char>( ), 3 );
	auto const ndl = word( letters<char>( ), 1 );
	Two<char> const v( subj.data( ), subj.size( ) ), w( ndl.data( ), ndl.size( ) );
	if( not subj.empty( ) ) {
		auto const pos = static_cast<std::size_t>( mc::choose( static_cast<unsigned>( subj.size( ) ) ) );
		auto const got = v.find_last_of( w, pos ), want = subj.find_last_of( ndl, pos );
		// the known failure is the answer for the whole view; any other wrong answer is another failure
		char const *const key = got == subj.find_last_of( ndl ) ? "find_last_of-position" : "find_last_of-wrong";
		MC_CHECK( got == want, key, "find_last_of(%s, %zu) in %s gives %zd, the standard view %zd", show( ndl ).c_str( ), pos, show( subj ).c_str( ), static_cast<ssize_t>( got ), static_cast<ssize_t>( want ) );
	}
}
MC_TEST( sv1_find_last_not_of ) {
	auto const subj = word( letters<char>( ), 3 );
	auto const ndl = word( letters<char>( ), 2 );
	One<char> const v( subj.data( ), subj.size( ) ), w( ndl.data( ), ndl.size( ) );
	{
		auto const pos = static_cast<std::size_t>( mc::choose( static_cast<unsigned>( subj.size( ) ) + 2 ) );
		auto const at = pos > subj.size( ) ? std::string::npos : pos;
		auto const got = v.find_last_not_of( w, at ), want = subj.find_last_not_of( ndl, at );
		bool const known = not ndl.empty( ) and got == subj.rfind( ndl[0], at );
		MC_CHECK( got == want, known ? "sv1-find_last_not_of" : "sv1-find_last_not_of-wrong", "find_last_not_of(%s, %zd) in %s gives %zd, the standard view %zd", show( ndl ).c_str( ), static_cast<ssize_t>( at ), show( subj ).c_str( ), static_cast<ssize_t>( got ), static_cast<ssize_t>( want ) );
	}
}
// construction from every kind of source
MC_TEST( construction ) {
	auto const subj = word( letters<char>( ), 4 );
	Buf<char> const z( subj, true );
	Buf<char> const e( subj );
	auto same = [&]( auto const &v, char const *data, std::size_t n, char const *how ) {
		mc::count_case( );
		MC_CHECK( v.data( ) == data and v.size( ) == n, how, "view of %s from %s has size %zu", show( subj ).c_str( ), how, v.size( ) );
	};
	char const *const zp = z.p.get( ), *const ep = e.p.get( );
	same( Two<char>( zp ), zp, z.n, "pointer" );
	same( Two<char>( zp, zp + z.n ), zp, z.n, "pointer pair" );
	same( Two<char>( ep, ep + e.n ), ep, e.n, "pointer pair" );
	same( Two<char>( zp, z.n, daw::sv2::zero_terminated ), zp, z.n, "pointer, size, zero terminated" );
	same( Two<char>( subj ), subj.data( ), subj.size( ), "string" );
	MC_CHECK( Two<char>( subj ).get_c_str( ).c_str( ) == subj.data( ), "get_c_str-string", "a view of a whole std::string %s was copied for its terminator", show( subj ).c_str( ) );
	same( Two<char>( std::string_view( ep, e.n ) ), ep, e.n, "standard view" );
	std::vector<char> const vec( subj.begin( ), subj.end( ) );
	same( Two<char>( vec ), vec.data( ), vec.size( ), "vector" );
	for( std::size_t c = 0; c <= subj.size( ) + 1; ++c ) {
		same( Two<char>( subj, c ), subj.data( ), std::min( c, subj.size( ) ), "string, count" );
		if( c <= subj.size( ) ) same( Two<char>( std::string_view( ep, e.n ), c, daw::dont_clip_to_bounds ), ep, c, "view, count, unclipped" );
	}
	for( std::size_t c = 0; c <= subj.size( ); ++c ) {
		Two<char> const v( subj, c, daw::dont_clip_to_bounds );
		same( v, subj.data( ), c, "string, count, unclipped" );
		MC_CHECK( not v.is_zero_terminated( ) or c == subj.size( ), "terminated-part", "%zu characters of %s claim to be zero terminated", c, show( subj ).c_str( ) );
		MC_CHECK( v.get_c_str( ).string( ) == subj.substr( 0, c ) and std::strlen( v.get_c_str( ).c_str( ) ) == c, "get_c_str-part", "%zu characters of %s", c, show( subj ).c_str( ) );
	}
	{ // the array overloads
		char const ab[3] = { 'a', 'b', 0 };
		Two<char> v( ep, e.n );
		std::string_view const s( subj );
		MC_CHECK( v.find_last_of( ab ) == s.find_last_of( ab ) and v.find_first_of( ab ) == s.find_first_of( ab ) and v.find_first_not_of( ab ) == s.find_first_not_of( ab ) and v.find( ab ) == s.find( ab ), "array-needle", "finding \"ab\" in %s", show( subj ).c_str( ) );
		MC_CHECK( v.find_last_of( ab, std::string_view::npos, 1 ) == s.find_last_of( 'a' ), "array-needle-count", "finding \"a\" from the end in %s", show( subj ).c_str( ) );
		MC_CHECK( v.find_first_match( { "ab", "b" } ) == std::min( s.find( "ab" ), s.find( 'b' ) ), "first-match", "first match of ab or b in %s", show( subj ).c_str( ) );
		std::string dest( subj.size( ) + 2, '.' );
		for( std::size_t n = 0; n <= subj.size( ) + 1; ++n ) {
			dest.assign( subj.size( ) + 2, '.' );
			std::size_t const k = v.copy( dest.data( ), n );
			MC_CHECK( k == std::min( n, subj.size( ) ) and dest == subj.substr( 0, k ) + std::string( subj.size( ) + 2 - k, '.' ), "copy-front", "copy of %zu from %s", n, show( subj ).c_str( ) );
		}
	}
	char const lit[4] = { 'a', 'b', 'c', 0 };
	same( Two<char>( lit ), lit, 3, "array" );
	char const nz[3] = { 'a', 'b', 'c' };
	same( Two<char>( nz ), nz, 3, "array without zero" );
	same( Two<char>( lit, daw::sv2::not_zero_terminated ), lit, 4, "array, not zero terminated" );
	same( Two<char>( nullptr ), nullptr, 0, "nullptr" );
	same( Two<char>( static_cast<char const *>( nullptr ) ), nullptr, 0, "null pointer" );
	same( Two<char>( nullptr, 0 ), nullptr, 0, "nullptr, 0" );
	same( One<char>( zp ), zp, z.n, "sv1 pointer" );
	same( One<char>( ep, ep + e.n ), ep, e.n, "sv1 pointer pair" );
	same( One<char>( subj ), subj.data( ), subj.size( ), "sv1 string" );
	same( One<char>( std::string_view( ep, e.n ) ), ep, e.n, "sv1 standard view" );
	same( One<char>( nullptr ), nullptr, 0, "sv1 nullptr" );
	for( std::size_t c = 0; c <= subj.size( ) + 1; ++c ) same( One<char>( One<char>( ep, e.n ), c ), ep, std::min( c, e.n ), "sv1 view, count" );
	MC_CHECK( One<char>( ep, e.n ).to_string( ) == subj, "to_string", "sv1 to_string of %s", show( subj ).c_str( ) );
	{
		auto const c = Two<char>( zp ).get_c_str( );
		MC_CHECK( std::string( c.c_str( ) ) == subj and c.size( ) == subj.size( ) and c.c_str( ) == zp, "get_c_str", "of a terminated view of %s", show( subj ).c_str( ) );
		auto const d = Two<char>( ep, e.n ).get_c_str( );
		MC_CHECK( std::string( d.c_str( ) ) == subj and d.size( ) == subj.size( ) and d.string( ) == subj and std::string( static_cast<char const *>( d ) ) == subj, "get_c_str", "of an unterminated view of %s", show( subj ).c_str( ) );
		MC_CHECK( c.string( ) == subj and Two<char>( zp ).get_c_str( ).string( ) == subj and Two<char>( ep, e.n ).get_c_str( ).string( ) == subj, "get_c_str-string-copy", "string() of the terminated text of %s", show( subj ).c_str( ) );
		auto m = Two<char>( ep, e.n ).get_c_str( );
		MC_CHECK( m.string( ) == subj and m.string( ) == subj and m.data( ) == m.c_str( ), "get_c_str-string-twice", "string() of the terminated text of %s taken twice", show( subj ).c_str( ) );
		MC_CHECK( static_cast<std::string_view>( c ) == subj and static_cast<std::string_view>( d ) == subj, "get_c_str-view", "view of the terminated text of %s", show( subj ).c_str( ) );
	}
}
// stream insertion with every width and adjustment
MC_TEST( streaming ) {
	auto const subj = word( letters<char>( ), 3 );
	Buf<char> const e( subj );
	int const width = mc::pick( { 0, 1, 2, 3, 4, 9, 10, 11, 12, 20 } );
	unsigned const adj = mc::choose( 4 );
	auto put = [&]( auto const &v, std::ios_base::iostate st ) {
		std::ostringstream os;
		os.fill( '.' );
		os.width( width );
		if( adj == 1 ) os << std::left;
		if( adj == 2 ) os << std::right;
		if( adj == 3 ) os << std::internal;
		os.setstate( st );
		os << v;
		auto const w2 = os.width( );
		os.clear( );
		os << '|';
		return os.str( ) + ( w2 ? "!" : "" );
	};
	auto const want = put( std::string_view( subj ), std::ios_base::goodbit );
	MC_CHECK( put( Two<char>( static_cast<char const *>( e.p.get( ) ), e.n ), std::ios_base::goodbit ) == want, "stream", "%s at width %d adjust %u", show( subj ).c_str( ), width, adj );
	MC_CHECK( put( One<char>( static_cast<char const *>( e.p.get( ) ), e.n ), std::ios_base::goodbit ) == want, "stream-sv1", "%s at width %d adjust %u", show( subj ).c_str( ), width, adj );
}
