// A04: each lazily evaluated stage alone, for every source up to length 5 over
// three values and every parameter up to one past that length.
// MC-FLAGS: -O0
#include "A04.inc"

namespace {
	using namespace p4;
	using namespace daw::pipelines;

	MC_TEST( map ) {
		chk::what = "Map";
		auto const in = input( 4, 3 );
		each_source( in, [&]( auto &s ) {
			expect( "Map", in, run( pipeline( s, Map( twice ) ) ), enc( eager::map( in, twice ) ) );
			expect( "Map projected", in, run( pipeline( s, Map( twice, Neg{ } ) ) ),
			        enc( eager::map( in, []( int x ) { return twice( 7 - x ); } ) ) );
			expect( "Clamp", in, run( pipeline( s, Clamp( 2, 2 ) ) ), enc( V( in.size( ), 2 ) ) );
			expect( "Clamp", in, run( pipeline( s, Clamp( 2, 3 ) ) ),
			        enc( eager::map( in, []( int x ) { return x < 2 ? 2 : x; } ) ) );
			expect( "CacheLast", in, run( pipeline( s, Map( twice ), CacheLast ) ), enc( eager::map( in, twice ) ) );
		} );
	}

	MC_TEST( filter ) {
		chk::what = "Filter";
		auto const in = input( 5, 3 );
		each_source( in, [&]( auto &s ) {
			expect( "Filter", in, run( pipeline( s, Filter( odd ) ) ), enc( eager::filter( in, odd ) ) );
			expect( "Filter Not", in, run( pipeline( s, Filter( Not( IsOneOf<1, 3> ) ) ) ),
			        enc( eager::filter( in, []( int x ) { return x == 2; } ) ) );
#ifndef MC_NO_INTERNALS
			expect( "Filter projected", in, run( pipeline( s, daw::pipelines::pimpl::filter_t{ odd, Neg{ } } ) ),
			        enc( eager::filter( in, []( int x ) { return odd( 7 - x ); } ) ) );
#endif
			expect( "Unique", in, run( pipeline( s, Unique ) ), enc( eager::unique( in ) ) );
		} );
	}

	// small counts and counts beyond what a difference can hold
	std::size_t count( int small ) {
		auto const c = static_cast<int>( mc::choose( small + 5 ) );
		if( c < small ) {
			return static_cast<std::size_t>( c );
		}
		if( c > small + 1 ) {
			return static_cast<std::size_t>( c - small + 13 ); // 15, 16, 17
		}
		return c == small ? static_cast<std::size_t>( PTRDIFF_MAX ) : SIZE_MAX - 1;
	}

	MC_TEST( counted ) {
		chk::what = "Take/Skip/Every";
		auto const in = input( 5, 2 );
		auto const n = count( 7 );
		each_source( in, [&]( auto &s ) {
			expect( "Take", in, run( pipeline( s, Take( n ) ) ), enc( eager::take( in, n ) ) );
			expect( "Skip", in, run( pipeline( s, Skip( n ) ) ), enc( eager::skip( in, n ) ) );
			if( n != 0 ) {
				expect( "Every", in, run( pipeline( s, Every( n ) ) ), enc( eager::every( in, n ) ) );
			}
		} );
	}

	MC_TEST( conditional ) {
		chk::what = "while";
		auto const in = input( 5, 2 );
		auto const even = []( int x ) {
			return x % 2 == 0;
		};
		auto const a = eager::lead( in, odd );
		auto const c = eager::lead( in, even );
		each_source( in, [&]( auto &s ) {
			expect( "TakeWhile", in, run( pipeline( s, TakeWhile( odd ) ) ), enc( eager::take( in, a ) ) );
			expect( "TakeUntil", in, run( pipeline( s, TakeUntil( odd ) ) ), enc( eager::take( in, c ) ) );
			expect( "DropWhile", in, run( pipeline( s, DropWhile( odd ) ) ), enc( eager::skip( in, a ) ) );
			expect( "DropUntil", in, run( pipeline( s, DropUntil( odd ) ) ), enc( eager::skip( in, c ) ) );
		} );
	}

	MC_TEST( reverse ) {
		chk::what = "Reverse";
		auto const in = input( 5, 2 );
		each_source<BACK>( in, [&]( auto &s ) {
			expect( "Reverse", in, run( pipeline( s, Reverse ) ), enc( eager::reverse( in ) ) );
			expect( "Reverse twice", in, run( pipeline( s, Reverse, Reverse ) ), enc( in ) );
		} );
	}

	MC_TEST( windows ) {
		chk::what = "Chunk/Slide";
		auto const in = input( 6, 2 );
		auto const n = 1 + count( 7 );
		each_source( in, [&]( auto &s ) {
			expect( "Chunk", in, run( pipeline( s, Chunk( n ) ) ), enc( eager::chunk( in, n ) ) );
			expect( "Slide", in, run( pipeline( s, Slide( n ) ) ), enc( eager::slide( in, n ) ) );
			expect( "Chunk Flatten", in, run( pipeline( s, Chunk( n ), Flatten ) ), enc( in ) );
			expect( "Slide Flatten", in, run( pipeline( s, Slide( n ), Flatten ) ),
			        enc( eager::flatten( eager::slide( in, n ) ) ) );
		} );
	}

	MC_TEST( split ) {
		chk::what = "Split";
		auto const in = input( 6, 3 );
		each_source( in, [&]( auto &s ) {
			expect( "Split value", in, run( pipeline( s, Split( 1 ) ) ), enc( eager::split( in, V{ 1 } ) ) );
			expect( "Split if", in, run( pipeline( s, Split( []( int x ) { return x == 1; } ) ) ),
			        enc( eager::split( in, V{ 1 } ) ) );
			expect( "Split projected", in, run( pipeline( s, Split( 1, []( int x ) { return x - 1; } ) ) ),
			        enc( eager::split( in, V{ 2 } ) ) );
			expect( "Split range", in, run( pipeline( s, Split( std::array{ 1, 2 } ) ) ),
			        enc( eager::split( in, V{ 1, 2 } ) ) );
			expect( "Split range", in, run( pipeline( s, Split( std::array{ 1, 1 } ) ) ),
			        enc( eager::split( in, V{ 1, 1 } ) ) );
			static constexpr std::array<int, 3> three{ 1, 2, 1 };
			expect( "Split range", in, run( pipeline( s, Split( three ) ) ), enc( eager::split( in, V{ 1, 2, 1 } ) ) );
		} );
	}

	MC_TEST( flatten ) {
		chk::what = "Flatten";
		bool const large = mc::choose( 2 );
		VV in( large ? mc::pick( { 3U, 20U } ) : mc::choose( 4 ) );
		V flat;
		std::vector<std::size_t> sizes;
		for( auto &x : in ) {
			// in a large one every third part has the same size
			sizes.push_back( large and sizes.size( ) >= 3 ? sizes[sizes.size( ) - 3] : large ? mc::pick( { std::size_t{ 0 }, std::size_t{ 1 }, std::size_t{ 17 } } ) : mc::choose( 3 ) );
			x = V( sizes.back( ) );
			for( auto &y : x ) {
				y = static_cast<int>( flat.size( ) );
				flat.push_back( y );
			}
		}
		expect( "Flatten", flat, run( pipeline( in, Flatten ) ), enc( flat ) );
		auto const &c = in;
		expect( "Flatten const", flat, run( pipeline( c, Flatten ) ), enc( flat ) );
		std::list<std::list<int>> l;
		for( auto &x : in ) {
			l.emplace_back( x.begin( ), x.end( ) );
		}
		expect( "Flatten lists", flat, run( pipeline( l, Flatten ) ), enc( flat ) );
	}
} // namespace
