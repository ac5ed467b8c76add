// A04: pipelines over single-pass sources: every element is read in order, none
// is skipped, revisited or read past the end of the source
// MC-FLAGS: -O0
#include "A04.inc"

#include <numeric>
#include <set>

using namespace p4;
using namespace dp;

namespace {
	struct Stream { // a single-pass range; only the newest position may be used
		V v;
		mutable std::size_t pos = 0;
		struct It {
			using iterator_category = std::input_iterator_tag;
			using value_type = int;
			using difference_type = std::ptrdiff_t;
			using pointer = int const *;
			using reference = int const &;
			Stream const *s = nullptr; // null: the end
			std::size_t at = 0;

			void live( char const *what ) const {
				if( not s or at >= s->v.size( ) ) {
					mc::fail_later( "past_end", "%s: %s at the end of the source", chk::what, what );
				} else if( at != s->pos ) {
					mc::fail_later( "revisited", "%s: %s of element %zu after the source moved to %zu", chk::what, what, at, s->pos );
				}
			}
			int const &operator*( ) const {
				live( "read" );
				static int const none = -99;
				return s and at < s->v.size( ) ? s->v[at] : none;
			}
			int const *operator->( ) const {
				return &**this;
			}
			It &operator++( ) {
				live( "step" );
				if( s and at < s->v.size( ) ) {
					s->pos = ++at;
				}
				return *this;
			}
			It operator++( int ) {
				It r = *this;
				++*this;
				return r;
			}
			bool done( ) const {
				return not s or at >= s->v.size( );
			}
			friend bool operator==( It const &a, It const &b ) {
				return a.done( ) == b.done( );
			}
			friend bool operator!=( It const &a, It const &b ) {
				return not( a == b );
			}
		};
		explicit Stream( V x ) : v( std::move( x ) ) {}
		It begin( ) const {
			return { this, pos };
		}
		It end( ) const {
			return { };
		}
	};

	MC_TEST( single_pass ) {
		auto const in = input( static_cast<unsigned>( mc::by_tier( 4, 6 ) ), 3 );
		auto const k = static_cast<std::size_t>( mc::pick( { 0, 1, 2, 3, 4, 5, 40 } ) );
		auto const small = []( int x ) { return x < 3; };
		auto const go = [&]( char const *name, auto stage, std::string const &want ) {
			chk::what = name;
			Stream const s( in );
			expect( name, in, run( pipeline( s, stage ) ), want );
		};
		auto const evens = eager::filter( in, []( int x ) { return not odd( x ); } );
		V from_big( std::find_if_not( in.begin( ), in.end( ), small ), in.end( ) );
		V const lead( in.begin( ), std::find_if_not( in.begin( ), in.end( ), small ) );
		switch( mc::choose( 29 ) ) {
		case 0: return go( "Map", Map( twice ), enc( eager::map( in, twice ) ) );
		case 1: return go( "Filter", Filter( odd ), enc( eager::filter( in, odd ) ) );
		case 2: return go( "Take", Take( k ), enc( eager::take( in, k ) ) );
		case 3: return go( "Skip", Skip( k ), enc( eager::skip( in, k ) ) );
		case 4: return go( "Unique", Unique, enc( eager::unique( in ) ) );
		case 5: return go( "TakeWhile", TakeWhile( small ), enc( lead ) );
		case 6: return go( "DropWhile", DropWhile( small ), enc( from_big ) );
		case 7: return go( "TakeUntil", TakeUntil( [&]( int x ) { return not small( x ); } ), enc( lead ) );
		case 8: return go( "DropUntil", DropUntil( [&]( int x ) { return not small( x ); } ), enc( from_big ) );
		case 9: return go( "Every", Every( k + 1 ), enc( eager::every( in, k + 1 ) ) );
		case 10: return go( "Enumerate", EnumerateWith<int>, enc( eager::enumerate( in, 0 ) ) );
		case 11: return go( "To", pipeline( To<std::vector> ), enc( in ) );
		case 12: return go( "Copy To", pipeline( Copy, To<std::vector> ), enc( in ) );
		case 13: {
			chk::what = "Zip";
			Stream const s( in );
			V const other{ 5, 6, 7 };
			return expect( "Zip", in, run( pipeline( zip_view( s, other ), Map( []( auto const &t ) { return std::get<0>( t ) * 10 + std::get<1>( t ); } ) ) ), enc( [&] { V r; for( std::size_t i = 0; i < std::min<std::size_t>( 3, in.size( ) ); ++i ) r.push_back( in[i] * 10 + other[i] ); return r; }( ) ) );
		}
		case 14: {
			chk::what = "Sum";
			Stream const s( in );
			return expect( "Sum", in, enc( pipeline( s, Sum ) ), enc( std::accumulate( in.begin( ), in.end( ), 0 ) ) );
		}
		case 15: {
			chk::what = "Count";
			Stream const s( in );
			return expect( "Count", in, enc( pipeline( s, Count ) ), enc( in.size( ) ) );
		}
		case 16: {
			chk::what = "CountIf";
			Stream const s( in );
			return expect( "CountIf", in, enc( pipeline( s, CountIf( odd ) ) ), enc( eager::filter( in, odd ).size( ) ) );
		}
		case 17: {
			chk::what = "Contains";
			Stream const s( in );
			return expect( "Contains", in, enc( pipeline( s, Contains( 3 ) ) ), enc( std::find( in.begin( ), in.end( ), 3 ) != in.end( ) ) );
		}
		case 18: {
			chk::what = "First";
			Stream const s( in );
			return expect( "First", in, enc( pipeline( s, First ) ), in.empty( ) ? "none" : enc( in[0] ) );
		}
		case 19: {
			chk::what = "ForEach";
			Stream const s( in );
			V seen;
			(void)pipeline( s, ForEach( [&]( int x ) { seen.push_back( x ); } ) );
			return expect( "ForEach", in, enc( seen ), enc( in ) );
		}
		case 20: return go( "Skip Take", pipeline( Skip( 1 ), Take( k ) ), enc( eager::take( eager::skip( in, 1 ), k ) ) );
		case 21: return go( "Filter Map", pipeline( Filter( odd ), Map( twice ) ), enc( eager::map( eager::filter( in, odd ), twice ) ) );
		case 22: return go( "Filter To", pipeline( Filter( odd ), To<std::vector> ), enc( eager::filter( in, odd ) ) );
		case 23: return go( "Unique To", pipeline( Unique, To<std::vector> ), enc( eager::unique( in ) ) );
		case 24: return go( "Take To", pipeline( Take( k ), To<std::vector> ), enc( eager::take( in, k ) ) );
		case 25: return go( "Skip To", pipeline( Skip( k ), To<std::vector<long>> ), enc( eager::skip( in, k ) ) );
		case 26: return go( "Every To", pipeline( Every( k + 1 ), To<std::vector> ), enc( eager::every( in, k + 1 ) ) );
		case 27: return go( "TakeWhile To", pipeline( TakeWhile( small ), To<std::vector> ), enc( lead ) );
		default: return go( "Map Filter To", pipeline( Map( twice ), Filter( []( int x ) { return x % 3 == 0; } ), To<std::vector> ), enc( eager::filter( eager::map( in, twice ), []( int x ) { return x % 3 == 0; } ) ) );
		}
	}
} // namespace
