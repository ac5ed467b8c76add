// Editing operations of string views: every operation with every argument, on every
// window of every text up to a length (the state of a view is exactly its window and
// its zero-termination flag), plus histories of several operations. Each operation is
// compared, by position in the text, with where the pieces must lie.
#include "mc.h"
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

#include <daw/daw_string_view.h>
#include <daw/daw_take.h>
#include <daw/deprecated/daw_string_view1.h>

namespace {
	constexpr std::size_t npos = static_cast<std::size_t>( -1 );
	struct Win { std::size_t b, e; };
	struct Exp { // where the returned piece and the remaining view must be
		std::optional<Win> piece;
		Win rest;
	};
	template<typename C, typename SV>
	struct Op {
		std::string name;
		std::function<std::optional<SV>( SV & )> run;
		std::function<Exp( std::basic_string_view<C>, Win )> want;
		std::function<bool( std::size_t )> allowed = []( std::size_t ) { return true; };
	};
	Exp front( Win w, std::size_t pos, std::size_t dlen, bool discard, bool attempt ) {
		if( pos == npos ) return attempt ? Exp{ Win{ w.b, w.b }, w } : Exp{ w, Win{ w.e, w.e } };
		return { Win{ w.b, w.b + pos }, Win{ w.b + pos + ( discard ? dlen : 0 ), w.e } };
	}
	Exp back( Win w, std::size_t pos, std::size_t dlen, bool discard, bool attempt ) {
		if( pos == npos ) return attempt ? Exp{ Win{ w.e, w.e }, w } : Exp{ w, Win{ w.e, w.e } };
		return { Win{ w.b + pos + dlen, w.e }, Win{ w.b, w.b + pos + ( discard ? 0 : dlen ) } };
	}
	template<typename C>
	bool space( C c ) { return c == C( ' ' ) or c == C( '\t' ) or c == C( '\n' ) or c == C( '\v' ) or c == C( '\f' ) or c == C( '\r' ); }

	template<typename C>
	struct Two {
		using SV = daw::sv2::basic_string_view<C>;
		using Std = std::basic_string_view<C>;
		using Str = std::basic_string<C>;
		std::vector<Op<C, SV>> ops;
		template<typename R, typename W>
		void add( std::string n, R r, W w ) { ops.push_back( { std::move( n ), r, w } ); }
		template<typename R, typename W, typename A>
		void add( std::string n, R r, W w, A a ) { ops.push_back( { std::move( n ), r, w, a } ); }
		static constexpr auto none = std::optional<SV>{ };

		Two( ) {
			using daw::nodiscard;
			auto atleast = []( std::size_t k ) { return [k]( std::size_t n ) { return n >= k; }; };
			for( std::size_t k : { 0, 1, 2, 3, 5, 9, 17, 33, -1 } ) {
				auto pre = [k]( Std s, Win w ) { return Exp{ { }, { w.b + std::min( k, s.size( ) ), w.e } }; };
				auto suf = [k]( Std s, Win w ) { return Exp{ { }, { w.b, w.e - std::min( k, s.size( ) ) } }; };
				auto pf = [k]( Std s, Win w ) { auto const c = std::min( k, s.size( ) ); return Exp{ Win{ w.b, w.b + c }, { w.b + c, w.e } }; };
				auto pb = [k]( Std s, Win w ) { auto const c = std::min( k, s.size( ) ); return Exp{ Win{ w.e - c, w.e }, { w.b, w.e - c } }; };
				auto const sk = mc::strf( "(%zd)", static_cast<ssize_t>( k ) );
				add( "remove_prefix" + sk, [k]( SV &v ) { v.remove_prefix( k ); return none; }, pre );
				add( "remove_suffix" + sk, [k]( SV &v ) { v.remove_suffix( k ); return none; }, suf );
				add( "pop_front" + sk, [k]( SV &v ) { return std::optional( v.pop_front( k ) ); }, pf );
				add( "pop_back" + sk, [k]( SV &v ) { return std::optional( v.pop_back( k ) ); }, pb );
				if( k > 40 ) continue;
				add( "remove_prefix_unsafe" + sk, [k]( SV &v ) { v.remove_prefix_unsafe( k ); return none; }, pre, atleast( k ) );
				add( "remove_suffix_unsafe" + sk, [k]( SV &v ) { v.remove_suffix_unsafe( k ); return none; }, suf, atleast( k ) );
				add( "pop_front_unsafe" + sk, [k]( SV &v ) { return std::optional( v.pop_front_unsafe( k ) ); }, pf, atleast( k ) );
				add( "pop_back_unsafe" + sk, [k]( SV &v ) { return std::optional( v.pop_back_unsafe( k ) ); }, pb, atleast( k ) );
				add( "resize" + sk, [k]( SV &v ) { v.resize( k ); return none; }, [k]( Std, Win w ) { return Exp{ { }, { w.b, w.b + k } }; }, atleast( k ) );
				for( std::size_t c : { 0, 1, 2, 16, -1 } ) {
					auto const skc = mc::strf( "(%zu,%zd)", k, static_cast<ssize_t>( c ) );
					add( "substr" + skc, [k, c]( SV &v ) { return std::optional( v.substr( k, c ) ); }, [k, c]( Std s, Win w ) { return Exp{ Win{ w.b + k, w.b + k + std::min( c, s.size( ) - k ) }, w }; }, atleast( k ) );
					if( c < 40 ) add( "substr_unsafe" + skc, [k, c]( SV &v ) { return std::optional( v.substr_unsafe( k, c ) ); }, [k, c]( Std, Win w ) { return Exp{ Win{ w.b + k, w.b + k + c }, w }; }, atleast( k + c ) );
				}
				add( "substr" + sk, [k]( SV &v ) { return std::optional( v.substr( k ) ); }, [k]( Std, Win w ) { return Exp{ Win{ w.b + k, w.e }, w }; }, atleast( k ) );
				add( "substr_unsafe" + sk, [k]( SV &v ) { return std::optional( v.substr_unsafe( k ) ); }, [k]( Std, Win w ) { return Exp{ Win{ w.b + k, w.e }, w }; }, atleast( k ) );
			}
			add( "substr()", []( SV &v ) { return std::optional( v.substr( ) ); }, []( Std, Win w ) { return Exp{ w, w }; } );
			add( "remove_prefix()", []( SV &v ) { v.remove_prefix( ); return none; }, []( Std s, Win w ) { return Exp{ { }, { w.b + not s.empty( ), w.e } }; } );
			add( "remove_suffix()", []( SV &v ) { v.remove_suffix( ); return none; }, []( Std s, Win w ) { return Exp{ { }, { w.b, w.e - not s.empty( ) } }; } );
			add( "remove_prefix_unsafe()", []( SV &v ) { v.remove_prefix_unsafe( ); return none; }, []( Std, Win w ) { return Exp{ { }, { w.b + 1, w.e } }; }, atleast( 1 ) );
			add( "remove_suffix_unsafe()", []( SV &v ) { v.remove_suffix_unsafe( ); return none; }, []( Std, Win w ) { return Exp{ { }, { w.b, w.e - 1 } }; }, atleast( 1 ) );
			// single characters are returned by value: given as a one character piece of the original
			auto chr = []( char const *op, auto f, bool at_front ) {
				return [=]( SV &v ) {
					SV const before = v;
					C const c = f( v );
					C const was = at_front ? before.front( ) : before.back( );
					MC_CHECK( c == was, op, "%s returned the wrong character", op );
					return none;
				};
			};
			auto drop_f = []( Std, Win w ) { return Exp{ { }, { w.b + 1, w.e } }; };
			auto drop_b = []( Std, Win w ) { return Exp{ { }, { w.b, w.e - 1 } }; };
			add( "pop_front()", chr( "pop_front()", []( SV &v ) { return v.pop_front( ); }, true ), drop_f, atleast( 1 ) );
			add( "pop_front_unsafe()", chr( "pop_front_unsafe()", []( SV &v ) { return v.pop_front_unsafe( ); }, true ), drop_f, atleast( 1 ) );
			add( "pop_back()", chr( "pop_back()", []( SV &v ) { return v.pop_back( ); }, false ), drop_b, atleast( 1 ) );
			add( "pop_back_unsafe()", chr( "pop_back_unsafe()", []( SV &v ) { return v.pop_back_unsafe( ); }, false ), drop_b, atleast( 1 ) );
			add( "clear", []( SV &v ) { v.clear( ); return none; }, []( Std, Win w ) { return Exp{ { }, { w.b, w.b } }; } );
			add( "reset", []( SV &v ) { v.reset( ); return none; }, []( Std, Win w ) { return Exp{ { }, { w.b, w.b } }; } );

			for( C const c : { C( 'a' ), C( 'b' ), C( ' ' ), C( 'x' ) } ) {
				auto const n = mc::strf( "('%c'", static_cast<char>( c ) );
				auto const is = [c]( C x ) { return x == c; };
				auto add_both = [&]( std::string op, auto with_char, auto with_pred, auto want ) {
					if constexpr( not std::is_same_v<decltype( with_char ), int> ) add( op + n + ")", with_char, want );
					if constexpr( not std::is_same_v<decltype( with_pred ), int> ) add( op + "_pred" + n + ")", with_pred, want );
				};
				auto fr = [c]( bool d, bool t ) { return [=]( Std s, Win w ) { return front( w, s.find( c ), 1, d, t ); }; };
				auto bk = [c]( bool d, bool t ) { return [=]( Std s, Win w ) { return back( w, s.rfind( c ), 1, d, t ); }; };
				auto rp = [c]( bool d ) { return [=]( Std s, Win w ) { auto x = front( w, s.find( c ), 1, d, false ); x.piece.reset( ); return x; }; };
				add_both( "pop_front_until", [c]( SV &v ) { return std::optional( v.pop_front_until( c ) ); }, [is]( SV &v ) { return std::optional( v.pop_front_until( is ) ); }, fr( true, false ) );
				add_both( "pop_front_until nodiscard", [c]( SV &v ) { return std::optional( v.pop_front_until( c, nodiscard ) ); }, [is]( SV &v ) { return std::optional( v.pop_front_until( is, nodiscard ) ); }, fr( false, false ) );
				add_both( "try_pop_front_until", [c]( SV &v ) { return std::optional( v.try_pop_front_until( c ) ); }, [is]( SV &v ) { return std::optional( v.try_pop_front_until( is ) ); }, fr( true, true ) );
				add_both( "try_pop_front_until nodiscard", [c]( SV &v ) { return std::optional( v.try_pop_front_until( c, nodiscard ) ); }, [is]( SV &v ) { return std::optional( v.try_pop_front_until( is, nodiscard ) ); }, fr( false, true ) );
				add_both( "pop_back_until", [c]( SV &v ) { return std::optional( v.pop_back_until( c ) ); }, [is]( SV &v ) { return std::optional( v.pop_back_until( is ) ); }, bk( true, false ) );
				add_both( "pop_back_until nodiscard", [c]( SV &v ) { return std::optional( v.pop_back_until( c, nodiscard ) ); }, [is]( SV &v ) { return std::optional( v.pop_back_until( is, nodiscard ) ); }, bk( false, false ) );
				add_both( "try_pop_back_until", [c]( SV &v ) { return std::optional( v.try_pop_back_until( c ) ); }, [is]( SV &v ) { return std::optional( v.try_pop_back_until( is ) ); }, bk( true, true ) );
				add_both( "try_pop_back_until nodiscard", [c]( SV &v ) { return std::optional( v.try_pop_back_until( c, nodiscard ) ); }, [is]( SV &v ) { return std::optional( v.try_pop_back_until( is, nodiscard ) ); }, bk( false, true ) );
				add_both( "remove_prefix_until", [c]( SV &v ) { v.remove_prefix_until( c ); return none; }, [is]( SV &v ) { v.remove_prefix_until( is ); return none; }, rp( true ) );
				add_both( "remove_prefix_until nodiscard", [c]( SV &v ) { v.remove_prefix_until( c, nodiscard ); return none; }, [is]( SV &v ) { v.remove_prefix_until( is, nodiscard ); return none; }, rp( false ) );
				auto wh = [c]( Std s, Win w ) { return front( w, s.find_first_not_of( c ), 0, false, false ); };
				add_both( "pop_front_while", [c]( SV &v ) { return std::optional( v.pop_front_while( c ) ); }, [is]( SV &v ) { return std::optional( v.pop_front_while( is ) ); }, wh );
				auto rw = [wh]( Std s, Win w ) { auto x = wh( s, w ); x.piece.reset( ); return x; };
				add_both( "remove_prefix_while", [c]( SV &v ) { v.remove_prefix_while( c ); return none; }, [is]( SV &v ) { v.remove_prefix_while( is ); return none; }, rw );
				auto rs = [c]( Std s, Win w ) { return Exp{ { }, { w.b, w.b + s.find_last_not_of( c ) + 1 } }; };
				add_both( "remove_suffix_while", [c]( SV &v ) { v.remove_suffix_while( c ); return none; }, [is]( SV &v ) { v.remove_suffix_while( is ); return none; }, rs );
			}
			static std::vector<Str> const pats = { Str{ }, Str( 1, C( 'a' ) ), Str( 1, C( ' ' ) ), Str{ C( 'a' ), C( 'b' ) }, Str( 2, C( 'a' ) ), Str{ C( 'b' ), C( ' ' ), C( 'b' ) }, Str( 9, C( 'a' ) ) };
			for( auto const &p : pats ) {
				Std const d = p;
				SV const q( p.data( ), p.size( ) );
				std::string n = "(\"";
				for( auto x : p ) n += static_cast<char>( x );
				n += "\")";
				auto fr = [d]( bool disc, bool t ) { return [=]( Std s, Win w ) { return front( w, s.find( d ), d.size( ), disc, t ); }; };
				auto bk = [d]( bool disc, bool t ) { return [=]( Std s, Win w ) { return back( w, s.rfind( d ), d.size( ), disc, t ); }; };
				auto rp = [d]( bool disc ) { return [=]( Std s, Win w ) { auto x = front( w, s.find( d ), d.size( ), disc, false ); x.piece.reset( ); return x; }; };
				add( "pop_front_until" + n, [q]( SV &v ) { return std::optional( v.pop_front_until( q ) ); }, fr( true, false ) );
				add( "pop_front_until nodiscard" + n, [q]( SV &v ) { return std::optional( v.pop_front_until( q, nodiscard ) ); }, fr( false, false ) );
				add( "try_pop_front_until" + n, [q]( SV &v ) { return std::optional( v.try_pop_front_until( q ) ); }, fr( true, true ) );
				add( "try_pop_front_until nodiscard" + n, [q]( SV &v ) { return std::optional( v.try_pop_front_until( q, nodiscard ) ); }, fr( false, true ) );
				add( "pop_back_until" + n, [q]( SV &v ) { return std::optional( v.pop_back_until( q ) ); }, bk( true, false ) );
				add( "pop_back_until nodiscard" + n, [q]( SV &v ) { return std::optional( v.pop_back_until( q, nodiscard ) ); }, bk( false, false ) );
				add( "try_pop_back_until" + n, [q]( SV &v ) { return std::optional( v.try_pop_back_until( q ) ); }, bk( true, true ) );
				add( "try_pop_back_until nodiscard" + n, [q]( SV &v ) { return std::optional( v.try_pop_back_until( q, nodiscard ) ); }, bk( false, true ) );
				add( "remove_prefix_until" + n, [q]( SV &v ) { v.remove_prefix_until( q ); return none; }, rp( true ) );
				add( "remove_prefix_until nodiscard" + n, [q]( SV &v ) { v.remove_prefix_until( q, nodiscard ); return none; }, rp( false ) );
				add( "pop_front_while" + n, [q]( SV &v ) { return std::optional( v.pop_front_while( q ) ); }, [d]( Std s, Win w ) { return front( w, s.find_first_not_of( d ), 0, false, false ); } );
			}
			auto lead = []( Std s ) { std::size_t k = 0; while( k < s.size( ) and space( s[k] ) ) ++k; return k; };
			auto tail = []( Std s, std::size_t from ) { std::size_t k = s.size( ); while( k > from and space( s[k - 1] ) ) --k; return k; };
			auto tp = [=]( Std s, Win w ) { return Win{ w.b + lead( s ), w.e }; };
			auto ts = [=]( Std s, Win w ) { return Win{ w.b, w.b + tail( s, 0 ) }; };
			auto tb = [=]( Std s, Win w ) { auto const k = lead( s ); return Win{ w.b + k, w.b + tail( s, k ) }; };
			add( "trim_prefix", []( SV &v ) { v.trim_prefix( ); return none; }, [=]( Std s, Win w ) { return Exp{ { }, tp( s, w ) }; } );
			add( "trim_suffix", []( SV &v ) { v.trim_suffix( ); return none; }, [=]( Std s, Win w ) { return Exp{ { }, ts( s, w ) }; } );
			add( "trim", []( SV &v ) { v.trim( ); return none; }, [=]( Std s, Win w ) { return Exp{ { }, tb( s, w ) }; } );
			add( "trim_prefix_copy", []( SV &v ) { return std::optional( v.trim_prefix_copy( ) ); }, [=]( Std s, Win w ) { return Exp{ tp( s, w ), w }; } );
			add( "trim_suffix_copy", []( SV &v ) { return std::optional( v.trim_suffix_copy( ) ); }, [=]( Std s, Win w ) { return Exp{ ts( s, w ), w }; } );
			add( "trim_copy", []( SV &v ) { return std::optional( v.trim_copy( ) ); }, [=]( Std s, Win w ) { return Exp{ tb( s, w ), w }; } );
		}
	};
	template<typename C>
	struct One { // the deprecated view
		using SV = daw::sv1::basic_string_view<C>;
		using Std = std::basic_string_view<C>;
		using Str = std::basic_string<C>;
		std::vector<Op<C, SV>> ops;
		template<typename R, typename W>
		void add( std::string n, R r, W w ) { ops.push_back( { std::move( n ), r, w } ); }
		template<typename R, typename W, typename A>
		void add( std::string n, R r, W w, A a ) { ops.push_back( { std::move( n ), r, w, a } ); }
		static constexpr auto none = std::optional<SV>{ };
		One( ) {
			for( std::size_t k : { 0, 1, 2, 3, 5, 9, 17, 33, -1 } ) {
				auto const sk = mc::strf( "(%zd)", static_cast<ssize_t>( k ) );
				add( "sv1 remove_prefix" + sk, [k]( SV &v ) { v.remove_prefix( k ); return none; }, [k]( Std s, Win w ) { return Exp{ { }, { w.b + std::min( k, s.size( ) ), w.e } }; } );
				add( "sv1 remove_suffix" + sk, [k]( SV &v ) { v.remove_suffix( k ); return none; }, [k]( Std s, Win w ) { return Exp{ { }, { w.b, w.e - std::min( k, s.size( ) ) } }; } );
				add( "sv1 pop_front" + sk, [k]( SV &v ) { return std::optional( v.pop_front( k ) ); }, [k]( Std s, Win w ) { auto const c = std::min( k, s.size( ) ); return Exp{ Win{ w.b, w.b + c }, { w.b + c, w.e } }; } );
				add( "sv1 pop_back" + sk, [k]( SV &v ) { return std::optional( v.pop_back( k ) ); }, [k]( Std s, Win w ) { auto const c = std::min( k, s.size( ) ); return Exp{ Win{ w.e - c, w.e }, { w.b, w.e - c } }; } );
				add( "sv1 substr" + sk, [k]( SV &v ) { return std::optional( v.substr( k ) ); }, [k]( Std, Win w ) { return Exp{ Win{ w.b + k, w.e }, w }; }, [k]( std::size_t n ) { return n >= k; } );
			}
			for( C const c : { C( 'a' ), C( ' ' ), C( 'x' ) } ) {
				auto const is = [c]( C x ) { return x == c; };
				auto const n = mc::strf( "('%c')", static_cast<char>( c ) );
				add( "sv1 pop_front pred" + n, [is]( SV &v ) { return std::optional( v.pop_front( is ) ); }, [c]( Std s, Win w ) { return front( w, s.find( c ), 1, true, false ); } );
				add( "sv1 pop_back pred" + n, [is]( SV &v ) { return std::optional( v.pop_back( is ) ); }, [c]( Std s, Win w ) { return back( w, s.rfind( c ), 1, true, false ); } );
			}
			static std::vector<Str> const pats = { Str{ }, Str( 1, C( 'a' ) ), Str( 1, C( ' ' ) ), Str{ C( 'a' ), C( 'b' ) }, Str( 2, C( 'a' ) ), Str( 9, C( 'a' ) ) };
			for( auto const &p : pats ) {
				Std const d = p;
				SV const q( p.data( ), p.size( ) );
				auto const n = "(\"" + std::string( p.begin( ), p.end( ) ) + "\")";
				add( "sv1 pop_front" + n, [q]( SV &v ) { return std::optional( v.pop_front( q ) ); }, [d]( Std s, Win w ) { return front( w, s.find( d ), d.size( ), true, false ); } );
				add( "sv1 pop_back" + n, [q]( SV &v ) { return std::optional( v.pop_back( q ) ); }, [d]( Std s, Win w ) { return back( w, s.rfind( d ), d.size( ), true, false ); } );
				add( "sv1 try_pop_front" + n, [q]( SV &v ) { return std::optional( v.try_pop_front( q ) ); }, [d]( Std s, Win w ) { return front( w, s.find( d ), d.size( ), true, true ); } );
				add( "sv1 try_pop_back" + n, [q]( SV &v ) { return std::optional( v.try_pop_back( q ) ); }, [d]( Std s, Win w ) { return back( w, s.rfind( d ), d.size( ), true, true ); } );
				add( "sv1 consume_front" + n, [q]( SV &v ) { (void)v.consume_front( q ); return none; }, [d]( Std s, Win w ) { auto x = front( w, s.find( d ), d.size( ), true, false ); x.piece.reset( ); return x; } );
			}
			auto some = []( std::size_t n ) { return n > 0; };
			add( "sv1 pop_front()", []( SV &v ) { C const c = v.front( ); MC_CHECK( v.pop_front( ) == c, "sv1 pop_front()", "wrong character" ); return none; }, []( Std, Win w ) { return Exp{ { }, { w.b + 1, w.e } }; }, some );
			add( "sv1 pop_back()", []( SV &v ) { C const c = v.back( ); MC_CHECK( v.pop_back( ) == c, "sv1 pop_back()", "wrong character" ); return none; }, []( Std, Win w ) { return Exp{ { }, { w.b, w.e - 1 } }; }, some );
			add( "sv1 resize(1)", []( SV &v ) { v.resize( 1 ); return none; }, []( Std, Win w ) { return Exp{ { }, { w.b, w.b + 1 } }; }, []( std::size_t n ) { return n > 1; } );
			add( "sv1 clear", []( SV &v ) { v.clear( ); return none; }, []( Std, Win w ) { return Exp{ { }, { w.b, w.b } }; } );
		}
	};

	template<typename C>
	struct Text {
		std::basic_string<C> s;
		bool zero;
		std::unique_ptr<C[]> p;
		Text( std::basic_string<C> str, bool z ) : s( std::move( str ) ), zero( z ), p( new C[s.size( ) + z] ) {
			for( std::size_t i = 0; i < s.size( ); ++i ) p[i] = s[i];
			if( z ) p[s.size( )] = C{ };
		}
		std::string show( Win w ) const {
			std::string r;
			for( std::size_t i = 0; i <= s.size( ); ++i ) {
				if( i == w.b ) r += '[';
				if( i == w.e ) r += ']';
				if( i < s.size( ) ) r += static_cast<char>( s[i] );
			}
			return r;
		}
		template<typename SV>
		void piece( char const *op, char const *what, SV const &v, Win w, Win from ) const {
			MC_CHECK( v.size( ) == w.e - w.b, op, "%s on %s: %s has %zu characters, expected %zu", op, show( from ).c_str( ), what, v.size( ), w.e - w.b );
			if( w.b != w.e ) MC_CHECK( v.data( ) == p.get( ) + w.b, op, "%s on %s: %s starts at %td, expected %zu", op, show( from ).c_str( ), what, v.data( ) - p.get( ), w.b );
			else MC_CHECK( v.data( ) == nullptr or ( v.data( ) >= p.get( ) + from.b and v.data( ) <= p.get( ) + from.e ), op, "%s on %s: empty %s lies outside", op, show( from ).c_str( ), what );
			if constexpr( requires { v.is_zero_terminated( ); } ) {
				if( v.is_zero_terminated( ) == daw::ZeroTerminated::Yes ) MC_CHECK( v.data( ) != nullptr and zero and v.data( ) + v.size( ) == p.get( ) + s.size( ), op, "%s on %s: %s claims to be zero terminated", op, show( from ).c_str( ), what );
			}
		}
		template<typename SV, typename O>
		Win apply( SV &v, O const &op, Win w ) const {
			std::basic_string_view<C> const cur( s.data( ) + w.b, w.e - w.b );
			auto const want = op.want( cur, w );
			auto const got = op.run( v );
			if( want.piece ) piece( op.name.c_str( ), "the returned piece", *got, *want.piece, w );
			piece( op.name.c_str( ), "the rest", v, want.rest, w );
			return want.rest;
		}
	};
	template<typename C>
	std::basic_string<C> text( int max ) {
		if( max < 0 ) { // a repeated word with at most one character out of line
			std::size_t const len = max == -1 ? mc::pick( { std::size_t{ 17 }, std::size_t{ 40 } } ) : 24;
			std::size_t const period = 1 + mc::choose( 2 );
			std::basic_string<C> r;
			for( std::size_t i = 0; i != len; ++i ) r.push_back( i < period ? mc::pick( { C( 'a' ), C( 'b' ), C( ' ' ) } ) : r[i - period] );
			if( unsigned const at = mc::choose( 4 ); at != 0 ) r[at == 1 ? 0 : at == 2 ? len / 2 : len - 1] = mc::pick( { C( 'a' ), C( ' ' ) } );
			return r;
		}
		int const n = mc::choose_range( 0, max );
		std::basic_string<C> r;
		for( int i = 0; i < n; ++i ) r.push_back( mc::pick( { C( 'a' ), C( 'b' ), C( ' ' ) } ) );
		return r;
	}
	template<typename C, typename SV>
	SV view( Text<C> const &t, Win w ) {
		if constexpr( requires { SV( t.p.get( ), 1, daw::zero_terminated ); } ) {
			if( t.zero and w.e == t.s.size( ) ) return SV( static_cast<C const *>( t.p.get( ) ) + w.b, w.e - w.b, daw::zero_terminated );
		}
		return SV( static_cast<C const *>( t.p.get( ) ) + w.b, w.e - w.b );
	}
	template<typename C, typename K>
	void every( int len ) {
		static K const &k = *[] { mc::NoTrack nt; return new K; }( );
		using SV = typename K::SV;
		Text<C> const t( text<C>( len ), mc::choose( 2 ) );
		auto const keep = [&]( std::size_t i ) { return len >= 0 or i < 2 or i + 2 > t.s.size( ) or i == t.s.size( ) / 2; };
		for( std::size_t b = 0; b <= t.s.size( ); ++b )
			for( std::size_t e = b; e <= t.s.size( ); ++e ) {
				if( not keep( b ) or not keep( e ) ) continue;
				Win const w{ b, e };
				for( auto const &op : k.ops ) {
					if( not op.allowed( e - b ) ) continue;
					mc::count_case( );
					SV v = view<C, SV>( t, w );
					t.apply( v, op, w );
				}
				if constexpr( requires { SV{ }.expand_prefix( ); } ) {
					for( std::size_t x = 0; x <= b; ++x )
						for( std::size_t y = 0; e + y <= t.s.size( ); ++y ) {
							mc::count_case( );
							SV v = view<C, SV>( t, w );
							v.expand_prefix( x );
							t.piece( "expand_prefix", "the view", v, { b - x, e }, { 0, t.s.size( ) } );
							v.expand_suffix( y );
							t.piece( "expand_suffix", "the view", v, { b - x, e + y }, { 0, t.s.size( ) } );
							if( x == 1 ) { SV u = view<C, SV>( t, w ); u.expand_prefix( ); t.piece( "expand_prefix", "the view", u, { b - 1, e }, { 0, t.s.size( ) } ); }
							if( y == 1 ) { SV u = view<C, SV>( t, w ); u.expand_suffix( ); t.piece( "expand_suffix", "the view", u, { b, e + 1 }, { 0, t.s.size( ) } ); }
						}
				}
			}
		// a view of nothing
		for( auto const &op : k.ops ) {
			if( not op.allowed( 0 ) ) continue;
			SV v{ };
			mc::count_case( );
			auto const got = op.run( v );
			MC_CHECK( v.empty( ) and ( not got or got->empty( ) ), op.name.c_str( ), "%s on a default view", op.name.c_str( ) );
		}
	}
	// several operations on the same view
	template<typename C, typename K>
	void history( int len, int depth ) {
		static K const &k = *[] { mc::NoTrack nt; return new K; }( );
		using SV = typename K::SV;
		Text<C> const t( text<C>( len ), mc::choose( 2 ) );
		Win w{ 0, t.s.size( ) };
		SV v = view<C, SV>( t, w );
		for( int d = 0; d < depth; ++d ) {
			std::uint64_t h = mc::hash_bytes( t.zero, t.s.data( ), t.s.size( ) * sizeof( C ) );
			bool zt = false;
			if constexpr( requires { v.is_zero_terminated( ); } ) zt = static_cast<bool>( v.is_zero_terminated( ) );
			h = mc::mix( mc::mix( h, v.empty( ) ? 0 : w.b ), mc::mix( v.size( ), zt + 2 * ( v.data( ) == nullptr ) ) );
			if( not mc::enter_state( h, static_cast<unsigned>( depth - d ) ) ) return;
			auto const &op = k.ops[mc::choose( static_cast<unsigned>( k.ops.size( ) ) )];
			if( not op.allowed( v.size( ) ) ) return;
			if( w.b == w.e and v.data( ) == nullptr ) { // detached by reset: nothing left to compare
				auto const got = op.run( v );
				MC_CHECK( v.empty( ) and ( not got or got->empty( ) ), op.name.c_str( ), "%s after the view was emptied", op.name.c_str( ) );
				return;
			}
			if( w.b == w.e ) { // an empty rest may lie anywhere in the old window
				w.b = w.e = static_cast<std::size_t>( v.data( ) - t.p.get( ) );
			}
			mc::note( "%s on %s", op.name.c_str( ), t.show( w ).c_str( ) );
			w = t.apply( v, op, w );
			mc::step( );
		}
	}
}

MC_TEST( char_single ) { every<char, Two<char>>( mc::by_tier( 5, 7 ) ); }
MC_TEST( char32_single ) { every<char32_t, Two<char32_t>>( mc::by_tier( 4, 6 ) ); }
MC_TEST( sv1_single ) { every<char, One<char>>( mc::by_tier( 5, 7 ) ); }
MC_TEST( char_single_long ) { every<char, Two<char>>( -1 ); }
MC_TEST( char32_single_long ) { every<char32_t, Two<char32_t>>( -1 ); }
MC_TEST( sv1_single_long ) { every<char, One<char>>( -1 ); }
MC_TEST( char_history_long ) { history<char, Two<char>>( -2, mc::by_tier( 2, 3 ) ); }
MC_TEST( sv1_history_long ) { history<char, One<char>>( -2, mc::by_tier( 2, 3 ) ); }
MC_TEST( char_history ) { history<char, Two<char>>( mc::by_tier( 3, 4 ), mc::by_tier( 3, 4 ) ); }
MC_TEST( sv1_history ) { history<char, One<char>>( mc::by_tier( 3, 5 ), mc::by_tier( 3, 5 ) ); }
// every character as white space or not
MC_TEST( trim_every_byte ) {
	unsigned const a = mc::choose( 256 );
	char const buf[3] = { static_cast<char>( a ), 'x', static_cast<char>( a ) };
	daw::sv2::string_view v( static_cast<char const *>( buf ), 3 );
	bool const sp = space( buf[0] );
	MC_CHECK( v.trim_copy( ).size( ) == ( sp or false ? 1u : 3u ) and v.trim_prefix_copy( ).size( ) == ( sp ? 2u : 3u ) and v.trim_suffix_copy( ).size( ) == ( sp ? 2u : 3u ), "trim", "byte %u", a );
}

// take: moves a value out and leaves the default behind
MC_TEST( take_history ) {
	using T = daw::take_t<std::string>;
	int const depth = mc::by_tier( 4, 6 );
	std::string const vals[3] = { "", "short", std::string( 40, 'q' ) };
	std::unique_ptr<T> o[2];
	std::string m[2];
	for( int i = 0; i < 2; ++i ) o[i] = std::make_unique<T>( m[i] = vals[i + 1] );
	for( int d = 0; d < depth; ++d ) {
		std::uint64_t h = 0;
		for( int i = 0; i < 2; ++i ) h = mc::mix( h, mc::hash_bytes( 0, m[i].data( ), m[i].size( ) ) );
		for( int i = 0; i < 2; ++i ) MC_CHECK( o[i]->get( ) == m[i] and **o[i] == m[i] and ( *o[i] )->size( ) == m[i].size( ), "value", "object %d holds '%s', expected '%s'", i, o[i]->get( ).c_str( ), m[i].c_str( ) );
		if( not mc::enter_state( h, static_cast<unsigned>( depth - d ) ) ) return;
		unsigned const i = mc::choose( 2 ), j = 1 - i;
		mc::step( );
		switch( mc::choose( 9 ) ) {
		case 0: { T n( std::move( *o[i] ) ); MC_CHECK( n.get( ) == m[i], "move-construct", "lost the value" ); m[i].clear( ); } break;
		case 1: { T n( *o[i] ); MC_CHECK( n.get( ) == m[i], "copy-construct", "lost the value" ); } break;
		case 2: *o[j] = std::move( *o[i] ); m[j] = m[i]; m[i].clear( ); break;
		case 3: *o[j] = *o[i]; m[j] = m[i]; break;
		case 4: { auto const v = *std::move( *o[i] ); MC_CHECK( v == m[i], "take", "wrong value" ); m[i].clear( ); } break;
		case 5: { auto const v = std::move( *o[i] ).get( ); MC_CHECK( v == m[i], "take", "wrong value" ); m[i].clear( ); } break;
		case 6: o[i]->reset( ); m[i].clear( ); break;
		case 7: o[i]->get( ) = m[i] = mc::pick( { vals[0], vals[1], vals[2] } ); break;
		case 8: { std::string s = m[i]; MC_CHECK( daw::take( s ) == m[i] and s.empty( ), "take", "free function" ); } break;
		}
	}
}
