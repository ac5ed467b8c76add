// A04: stages that pair up, number, select from and join ranges.
// MC-FLAGS: -O0
#include "A04.inc"

namespace {
	using namespace p4;
	using namespace daw::pipelines;

	MC_TEST( zip ) {
		chk::what = "Zip";
		auto const a = input( 3, 2 );
		auto const b = input( 4, 2, 5 );
		auto const want = eager::zip( a, b );
		auto const one = [&]( auto &x, auto &y ) {
			auto z = Zip( x, y );
			expect( "Zip", a, run( z ), enc( want ) );
			expect( "Zip MapApply", a, run( pipeline( Zip( x, y ), MapApply( std::plus<>{ } ) ) ),
			        enc( [&] {
				        V r;
				        for( auto p : want ) {
					        r.push_back( p.first + p.second );
				        }
				        return r;
			        }( ) ) );
			auto const zipped = pipeline( Zip, MapApply( []( int p, int q ) { return 10 * p + q; } ) );
			expect( "Zip composed", a, run( zipped( x, y ) ), enc( [&] {
				        V r;
				        for( auto p : want ) {
					        r.push_back( 10 * p.first + p.second );
				        }
				        return r;
			        }( ) ) );
			expect( "Zip Take", a, run( pipeline( Zip( x, y ), Take( 2 ) ) ), enc( eager::take( want, 2 ) ) );
			expect( "Zip Skip", a, run( pipeline( Zip( x, y ), Skip( 1 ) ) ), enc( eager::skip( want, 1 ) ) );
			MC_CHECK( Count( z ) == want.size( ), "Count", "Zip then Count gives %zu for %zu pairs", Count( z ),
			          want.size( ) );
			auto const f = pipeline( Zip( x, y ), First );
			MC_CHECK( f.has_value( ) == not want.empty( ), "First", "Zip then First has %s value",
			          f.has_value( ) ? "a" : "no" );
			expect( "Elements<1,0>", a, run( pipeline( Zip( x, y ), Elements<1, 0> ) ), enc( [&] {
				        VP r;
				        for( auto p : want ) {
					        r.emplace_back( p.second, p.first );
				        }
				        return r;
			        }( ) ) );
			expect( "Element<1>", a, run( pipeline( Zip( x, y ), Element<1> ) ), enc( [&] {
				        V r;
				        for( auto p : want ) {
					        r.push_back( p.second );
				        }
				        return r;
			        }( ) ) );
			expect( "Swizzle<1,0,0>", a, run( pipeline( Zip( x, y ), Swizzle<1, 0, 0> ) ), enc( [&] {
				        std::vector<std::tuple<int, int, int>> r;
				        for( auto p : want ) {
					        r.emplace_back( p.second, p.first, p.first );
				        }
				        return r;
			        }( ) ) );
		};
		each_source<FWD | RA | VEC>( a, [&]( auto &x ) {
			each_source<FWD | RA | LIST>( b, [&]( auto &y ) { one( x, y ); } );
		} );
	}

	MC_TEST( zip_reverse ) {
		chk::what = "Zip Reverse";
		auto const a = input( 3, 2 );
		auto const b = input( 3, 2, 5 );
		auto const want = eager::reverse( eager::zip( a, b ) );
		each_source<JUMP>( a, [&]( auto &x ) {
			each_source<JUMP>( b, [&]( auto &y ) {
				expect( "Zip Reverse", a, run( pipeline( Zip( x, y ), Reverse ) ), enc( want ) );
			} );
		} );
		if( a.size( ) == b.size( ) ) {
			each_source<BIDI | LIST>( a, [&]( auto &x ) {
				each_source<BIDI | RA>( b, [&]( auto &y ) {
					expect( "Zip Reverse", a, run( pipeline( Zip( x, y ), Reverse ) ), enc( want ) );
				} );
			} );
		}
	}

	MC_TEST( zip_three ) {
		chk::what = "Zip of three";
		auto const a = input( 3, 1, 1 );
		auto const b = input( 3, 1, 2 );
		auto const c = input( 3, 1, 3 );
		auto const n = std::min( { a.size( ), b.size( ), c.size( ) } );
		std::vector<std::tuple<int, int, int>> want( n, { 1, 2, 3 } );
		each_source<FWD | RA>( a, [&]( auto &x ) {
			each_source<BIDI | VEC>( b, [&]( auto &y ) {
				each_source<LIST | RA>( c, [&]( auto &z ) {
					expect( "Zip", a, run( Zip( x, y, z ) ), enc( want ) );
					expect( "ZipMore", a, run( pipeline( y, ZipMore( range_t( x ) ) ) ),
					        enc( VP( std::min( a.size( ), b.size( ) ), { 1, 2 } ) ) );
					expect( "ZipMore on a zip", a, run( pipeline( Zip( y, z ), ZipMore( range_t( x ) ) ) ), enc( want ) );
					expect( "Swizzle of a plain range", a, run( pipeline( x, Swizzle<0, 0> ) ),
					        enc( VP( a.size( ), { 1, 1 } ) ) );
				} );
			} );
		} );
	}

	MC_TEST( enumerate ) {
		chk::what = "Enumerate";
		auto const in = input( 5, 2 );
		auto const from = static_cast<int>( mc::choose( 4 ) ) - 1;
		auto const sfrom = static_cast<std::size_t>( from + 1 );
		each_source( in, [&]( auto &s ) {
			expect( "Enumerate", in, run( pipeline( s, Enumerate ) ), enc( eager::enumerate<std::size_t>( in, 0 ) ) );
			expect( "EnumerateWith", in, run( pipeline( s, EnumerateWith<short> ) ),
			        enc( eager::enumerate<short>( in, 0 ) ) );
			expect( "EnumerateFrom", in, run( pipeline( s, EnumerateFrom( from ) ) ),
			        enc( eager::enumerate( in, from ) ) );
			expect( "EnumerateFrom", in, run( pipeline( s, EnumerateFrom( sfrom ) ) ),
			        enc( eager::enumerate( in, sfrom ) ) );
			expect( "EnumerateApply", in, run( pipeline( s, EnumerateApply ) ),
			        enc( eager::enumerate<std::size_t>( in, 0 ) ) );
			expect( "EnumerateApplyFrom", in, run( pipeline( s, EnumerateApplyFrom( from ) ) ),
			        enc( eager::enumerate( in, from ) ) );
			expect( "EnumerateApply of a zip", in, run( pipeline( Zip( s, s ), EnumerateApply ) ), enc( [&] {
				        std::vector<std::tuple<int, int, int>> r;
				        int i = 0;
				        for( auto x : in ) {
					        r.emplace_back( i++, x, x );
				        }
				        return r;
			        }( ) ) );
			expect( "Enumerate Take", in, run( pipeline( s, Enumerate, Take( 2 ) ) ),
			        enc( eager::take( eager::enumerate<std::size_t>( in, 0 ), 2 ) ) );
			expect( "Enumerate Skip", in, run( pipeline( s, Enumerate, Skip( 2 ) ) ),
			        enc( eager::skip( eager::enumerate<std::size_t>( in, 0 ), 2 ) ) );
			expect( "Enumerate MapApply", in,
			        run( pipeline( s, Enumerate, MapApply( []( std::size_t i, int x ) { return 10 * static_cast<int>( i ) + x; } ) ) ),
			        enc( [&] {
				        V r;
				        for( std::size_t i = 0; i != in.size( ); ++i ) {
					        r.push_back( 10 * static_cast<int>( i ) + in[i] );
				        }
				        return r;
			        }( ) ) );
			auto const v = pipeline( s, Enumerate, To<std::vector> );
			expect( "Enumerate To<vector>", in, enc( v ), enc( eager::enumerate<std::size_t>( in, 0 ) ) );
			auto const m = pipeline( s, EnumerateWith<int>, To<std::map> );
			expect( "Enumerate To<map>", in, enc( m ), enc( eager::enumerate<int>( in, 0 ) ) );
			MC_CHECK( pipeline( s, Enumerate, Count ) == in.size( ), "Count", "Enumerate then Count" );
		} );
		each_source<JUMP>( in, [&]( auto &s ) {
			expect( "Enumerate Reverse", in, run( pipeline( s, Enumerate, Reverse ) ),
			        enc( eager::reverse( eager::enumerate<std::size_t>( in, 0 ) ) ) );
		} );
	}

	MC_TEST( concat ) {
		chk::what = "Concat";
		auto const a = V( mc::choose( 3 ), 1 );
		auto const b = V( mc::choose( 3 ), 2 );
		auto const c = V( mc::choose( 3 ), 3 );
		auto want = a;
		want.insert( want.end( ), b.begin( ), b.end( ) );
		auto const ab = want;
		want.insert( want.end( ), c.begin( ), c.end( ) );
		each_source<FWD | RA>( a, [&]( auto &x ) {
			each_source<FWD | VEC>( b, [&]( auto &y ) {
				expect( "concat_view of two", ab, run( concat_view( range_t( x ), range_t( y ) ) ), enc( ab ) );
				each_source<LIST | FWD>( c, [&]( auto &z ) {
					expect( "concat_view", want, run( concat_view( range_t( x ), range_t( y ), range_t( z ) ) ),
					        enc( want ) );
				} );
			} );
			expect( "concat_view of one", a, run( concat_view( range_t( x ) ) ), enc( a ) );
		} );
	}

	MC_TEST( concat_of_zip ) {
		chk::what = "Zip Concat";
		auto const n = static_cast<std::size_t>( mc::choose( 4 ) );
		V const a( n, 1 ), b( n, 2 );
		auto want = a;
		want.insert( want.end( ), b.begin( ), b.end( ) );
		each_source<FWD | RA | VEC>( a, [&]( auto &x ) {
			each_source<FWD | RA>( b, [&]( auto &y ) {
				expect( "Zip Concat", want, run( pipeline( Zip( x, y ), Concat ) ), enc( want ) );
			} );
		} );
	}
} // namespace
