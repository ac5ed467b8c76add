// A04: terminal stages, searches and generators; pipelines whose intermediate
// results own their elements.
// MC-FLAGS: -O0
#include "A04.inc"

#include <algorithm>
#include <array>
#include <memory>
#include <numeric>
#include <set>

namespace {
	using namespace p4;
	using namespace daw::pipelines;

	struct Pod {
		int value = -1;
		friend bool operator==( Pod const &, Pod const & ) = default;
	};

	void expect_n( char const *stage, V const &in, long got, long want ) {
		MC_CHECK( got == want, stage, "%s over %s gives %ld, expected %ld", stage, enc( in ).c_str( ), got, want );
	}

	MC_TEST( reductions ) {
		chk::what = "reductions";
		auto const in = input( 5, 3 );
		long sum = 0, odds = 0;
		for( auto x : in ) {
			sum += x;
			odds += odd( x );
		}
		each_source( in, [&]( auto &s ) {
			expect_n( "Sum", in, pipeline( s, Sum ), sum );
			expect_n( "Count", in, static_cast<long>( pipeline( s, Count ) ), static_cast<long>( in.size( ) ) );
			expect_n( "CountIf", in, static_cast<long>( pipeline( s, CountIf( odd ) ) ), odds );
			expect_n( "Map Sum", in, pipeline( s, Map( twice ), Sum ), 2 * sum + static_cast<long>( in.size( ) ) );
			expect_n( "Filter Count", in, static_cast<long>( pipeline( s, Filter( odd ), Count ) ), odds );
			for( int k = 0; k != 5; ++k ) {
				bool const has = std::find( in.begin( ), in.end( ), k ) != in.end( );
				expect_n( "Contains", in, pipeline( s, Contains( k ) ), has );
				expect_n( "Contains", in, pipeline( s, Contains( k, std::equal_to<>{ } ) ), has );
				expect_n( "Contains projected", in, pipeline( s, Contains( 7 - k, std::equal_to<>{ }, Neg{ } ) ), has );
				expect_n( "Contains compared", in, pipeline( s, Contains( k, std::less<>{ } ) ),
				          std::any_of( in.begin( ), in.end( ), [&]( int x ) { return x < k; } ) );
			}
			std::vector<int> seen;
			auto const &r = pipeline( s, ForEach( [&]( int x ) { seen.push_back( x ); } ) );
			expect( "ForEach", in, enc( seen ), enc( in ) );
			expect( "ForEach result", in, run( r ), enc( in ) );
		} );
	}

	MC_TEST( extremes ) {
		chk::what = "Min/Max";
		auto const in = input( 5, 3 );
		each_source( in, [&]( auto &s ) {
			auto const pos = [&]( auto it ) {
				return static_cast<long>( std::distance( std::begin( s ), it ) );
			};
			auto const b = in.begin( );
			expect_n( "Min", in, pos( pipeline( s, Min ) ), std::min_element( b, in.end( ) ) - b );
			expect_n( "Max", in, pos( pipeline( s, Max ) ), std::max_element( b, in.end( ) ) - b );
			auto const mm = pipeline( s, MinMax );
			auto const want = std::minmax_element( b, in.end( ) );
			expect_n( "MinMax", in, pos( std::get<0>( mm ) ), want.first - b );
			expect_n( "MinMax", in, pos( std::get<1>( mm ) ), want.second - b );
			expect_n( "Min compared", in, pos( pipeline( s, Min( std::greater<>{ } ) ) ),
			          std::max_element( b, in.end( ) ) - b );
			expect_n( "Max compared", in, pos( pipeline( s, Max( std::greater<>{ } ) ) ),
			          std::min_element( b, in.end( ) ) - b );
			expect_n( "Max projected", in, pos( pipeline( s, Max( std::less<>{ }, Neg{ } ) ) ),
			          std::min_element( b, in.end( ) ) - b );
			expect_n( "Min projected", in, pos( pipeline( s, Min( std::less<>{ }, Neg{ } ) ) ),
			          std::max_element( b, in.end( ) ) - b );
			auto const cm = pipeline( s, MinMax( std::greater<>{ } ) );
			auto const cw = std::minmax_element( b, in.end( ), std::greater<>{ } );
			expect_n( "MinMax compared", in, pos( std::get<0>( cm ) ), cw.first - b );
			expect_n( "MinMax compared", in, pos( std::get<1>( cm ) ), cw.second - b );
		} );
	}

	MC_TEST( searches ) {
		chk::what = "Find";
		auto const in = input( 5, 3 );
		each_source( in, [&]( auto &s ) {
			auto const pos = [&]( auto it ) {
				return static_cast<long>( std::distance( std::begin( s ), it ) );
			};
			auto const b = in.begin( );
			for( int k = 0; k != 5; ++k ) {
				long const at = std::find( b, in.end( ), k ) - b;
				expect_n( "Find", in, pos( pipeline( s, Find( k ) ) ), at );
				expect_n( "Find", in, pos( Find( s, k ) ), at );
				expect_n( "Find projected", in, pos( Find( s, 7 - k, Neg{ } ) ), at );
				auto const is = [k]( int x ) {
					return x == k;
				};
				expect_n( "FindIf", in, pos( pipeline( s, FindIf( is ) ) ), at );
				expect_n( "FindIf", in, pos( FindIf( s, is ) ), at );
				expect_n( "FindIf projected", in, pos( FindIf( s, [k]( int x ) { return x == 7 - k; }, Neg{ } ) ), at );
			}
			auto const two = std::adjacent_find( b, in.end( ) );
			expect_n( "FindIf<2>", in, pos( FindIf<2>( s, []( int x, int y ) { return x == y; } ) ), two - b );
			expect_n( "FindIf<2> projected", in, pos( FindIf<2>( s, []( int x, int y ) { return x == y + 1; }, Neg{ } ) ),
			          std::adjacent_find( b, in.end( ), []( int x, int y ) { return 7 - x == 7 - y + 1; } ) - b );
			long three = static_cast<long>( in.size( ) );
			for( long i = 0; i + 2 < static_cast<long>( in.size( ) ); ++i ) {
				auto const u = static_cast<std::size_t>( i );
				if( in[u] + in[u + 1] == 2 * in[u + 2] ) {
					three = i;
					break;
				}
			}
			expect_n( "FindIf<3>", in, pos( pipeline( s, FindIf<3>( []( int x, int y, int z ) { return x + y == 2 * z; } ) ) ),
			          three );
			auto const f = pipeline( s, First );
			expect_n( "First", in, f.has_value( ) ? *f : 0, in.empty( ) ? 0 : in[0] );
			auto const fr = pipeline( s, FirstRef );
			expect_n( "FirstRef", in, fr.has_value( ) ? std::addressof( fr->get( ) ) == std::addressof( *std::begin( s ) ) : in.empty( ),
			          1 );
			auto const ff = pipeline( s, Filter( odd ), First );
			auto const o = eager::filter( in, odd );
			expect_n( "Filter First", in, ff.has_value( ) ? *ff : 0, o.empty( ) ? 0 : o[0] );
		} );
	}

	MC_TEST( collectors ) {
		chk::what = "To";
		auto const in = input( 5, 3 );
		each_source( in, [&]( auto &s ) {
			expect( "To<vector>", in, enc( pipeline( s, To<std::vector> ) ), enc( in ) );
			expect( "To<list<int>>", in, enc( pipeline( s, To<std::list<int>> ) ), enc( in ) );
			expect( "To<set>", in, enc( pipeline( s, To<std::set> ) ), enc( std::set<int>( in.begin( ), in.end( ) ) ) );
			expect( "To<vector<long>>", in, enc( pipeline( s, Map( twice ), To<std::vector<long>> ) ),
			        enc( eager::map( in, twice ) ) );
			auto pad = in;
			pad.resize( 3, 0 );
			expect( "To<array<3>>", in, enc( pipeline( s, To<std::array<int, 3>> ) ), enc( pad ) );
			auto five = in;
			five.resize( 5, 9 );
			expect( "To<array<5>> default value", in, enc( pipeline( s, To<std::array<int, 5>, 9> ) ), enc( five ) );
			auto eight = in;
			eight.resize( 6, 8 );
			expect( "To<array<6>> default function", in, enc( pipeline( s, To<std::array<long, 6>, [] { return 8; }> ) ),
			        enc( eight ) );
			expect( "Filter To<vector>", in, enc( pipeline( s, Filter( odd ), To<std::vector> ) ),
			        enc( eager::filter( in, odd ) ) );
			expect( "Unique To<vector>", in, enc( pipeline( s, Unique, To<std::vector> ) ), enc( eager::unique( in ) ) );
			expect( "Skip Take To<vector>", in, enc( pipeline( s, Skip( 1 ), Take( 2 ), To<std::vector> ) ),
			        enc( eager::take( eager::skip( in, 1 ), 2 ) ) );
			expect( "Chunk Flatten To<vector>", in, enc( pipeline( s, Chunk( 2 ), Flatten, To<std::vector> ) ), enc( in ) );
			expect( "Split Map To<vector>", in,
			        enc( pipeline( s, Split( 1 ), Map( []( auto r ) { return pipeline( r, To<std::vector> ); } ),
			                       To<std::vector> ) ),
			        enc( eager::split( in, V{ 1 } ) ) );
			expect( "Chunk Map Sum", in, enc( pipeline( s, Chunk( 2 ), Map( Sum ), To<std::vector> ) ), enc( [&] {
				        V r;
				        for( auto const &c : eager::chunk( in, 2 ) ) {
					        r.push_back( std::accumulate( c.begin( ), c.end( ), 0 ) );
				        }
				        return r;
			        }( ) ) );
		} );
	}

	// stages whose results own their elements feed every kind of stage
	MC_TEST( owned ) {
		chk::what = "owned";
		auto const in = input( 4, 3 );
		auto sorted = in;
		std::sort( sorted.begin( ), sorted.end( ) );
		auto const &s = in;
		expect( "Copy Filter To", in, enc( pipeline( s, Copy, Filter( odd ), To<std::vector> ) ),
		        enc( eager::filter( in, odd ) ) );
		expect( "Copy Sort Unique To", in, enc( pipeline( s, Copy, Sort, Unique, To<std::vector> ) ),
		        enc( eager::unique( sorted ) ) );
		expect( "Copy Sort Take To", in, enc( pipeline( s, Copy, Sort, Take( 2 ), To<std::vector> ) ),
		        enc( eager::take( sorted, 2 ) ) );
		expect( "Copy Sort Skip To", in, enc( pipeline( s, Copy, Sort, Skip( 1 ), To<std::vector> ) ),
		        enc( eager::skip( sorted, 1 ) ) );
		expect( "Copy Reverse To", in, enc( pipeline( s, Copy, Reverse, To<std::vector> ) ), enc( eager::reverse( in ) ) );
		expect( "To Map Filter To", in, enc( pipeline( s, To<std::vector>, Map( Neg{ } ), Filter( odd ), To<std::vector> ) ),
		        enc( eager::filter( eager::map( in, Neg{ } ), odd ) ) );
		expect( "To Unique Map Filter To", in,
		        enc( pipeline( s, To<std::vector>, Unique, Map( Neg{ } ), Filter( odd ), To<std::vector> ) ),
		        enc( eager::filter( eager::map( eager::unique( in ), Neg{ } ), odd ) ) );
		expect( "To Chunk Map To", in, enc( pipeline( s, To<std::vector>, Chunk( 2 ), Map( Sum ), To<std::vector> ) ),
		        enc( pipeline( s, Chunk( 2 ), Map( Sum ), To<std::vector> ) ) );
		expect( "To Slide Flatten To", in, enc( pipeline( s, To<std::vector>, Slide( 2 ), Flatten, To<std::vector> ) ),
		        enc( eager::flatten( eager::slide( in, 2 ) ) ) );
		expect( "To Split Map To", in, enc( pipeline( s, To<std::vector>, Split( 2 ), Map( Count ), To<std::vector> ) ),
		        enc( pipeline( s, Split( 2 ), Map( Count ), To<std::vector> ) ) );
		expect( "To Enumerate Map To", in,
		        enc( pipeline( s, To<std::vector>, EnumerateWith<int>, MapApply( std::plus<>{ } ), To<std::vector> ) ),
		        enc( pipeline( s, EnumerateWith<int>, MapApply( std::plus<>{ } ), To<std::vector> ) ) );
		// an rvalue source
		expect( "rvalue Map To", in, enc( pipeline( V( in ), Map( twice ), To<std::vector> ) ), enc( eager::map( in, twice ) ) );
		expect( "rvalue Filter Map To", in, enc( pipeline( V( in ), Filter( odd ), Map( twice ), To<std::vector> ) ),
		        enc( eager::map( eager::filter( in, odd ), twice ) ) );
		expect( "rvalue Sort", in, enc( pipeline( V( in ), Sort ) ), enc( sorted ) );
		expect( "rvalue Map", in, run( pipeline( V( in ), Map( twice ) ) ), enc( eager::map( in, twice ) ) );
		expect( "rvalue Unique", in, run( pipeline( V( in ), Unique ) ), enc( eager::unique( in ) ) );
		expect( "To Map", in, run( pipeline( s, To<std::vector>, Map( twice ) ) ), enc( eager::map( in, twice ) ) );
		// a stored pipeline used twice
		auto const p = pipeline( Copy, Sort, Unique, Map( twice ), To<std::vector> );
		auto const want = enc( eager::map( eager::unique( sorted ), twice ) );
		expect( "stored pipeline", in, enc( p( s ) ), want );
		expect( "stored pipeline again", in, enc( p( s ) ), want );
		auto const q = pipeline( p, Take( 1 ), To<std::vector> );
		expect( "nested pipeline", in, enc( q( s ) ), enc( eager::take( eager::map( eager::unique( sorted ), twice ), 1 ) ) );
		MC_REQUIRE( in == s );
	}

	// a view that owns its source is the same sequence after every copy, move and
	// assignment, whatever became of the view it was made from
	template<typename Make>
	void lives_on( char const *stage, V const &in, Make make, std::string const &want ) {
		using W = decltype( make( in ) );
		auto a = std::make_unique<W>( make( in ) );
		expect( stage, in, run( *a ), want );
		std::string how;
		for( int k = 0; k != 3; ++k ) {
			std::unique_ptr<W> b;
			unsigned const op = mc::choose( 6 );
			how += "cmCMsS"[op];
			switch( op ) {
			case 0: b = std::make_unique<W>( std::as_const( *a ) ); break;
			case 1: b = std::make_unique<W>( std::move( *a ) ); break;
			case 2: if constexpr( std::is_copy_assignable_v<W> ) { b = std::make_unique<W>( make( V{ 7, 7 } ) ); *b = std::as_const( *a ); break; } else return;
			case 3: if constexpr( std::is_copy_assignable_v<W> ) { b = std::make_unique<W>( make( V{ 7, 7 } ) ); *b = std::move( *a ); break; } else return;
			case 4: if constexpr( std::is_copy_assignable_v<W> ) *a = std::as_const( *a ); b = std::move( a ); break;
			default: { // the copy goes away and the original stays
				auto c = std::make_unique<W>( std::as_const( *a ) );
				expect( stage, in, run( *c ), want );
				b = std::move( a );
			}
			}
			a.reset( );
			auto const got = run( *b );
			MC_CHECK( got == want, "owned-view", "%s over %s gives %s after %s, eager evaluation gives %s", stage, enc( in ).c_str( ), got.c_str( ), how.c_str( ), want.c_str( ) );
			a = std::move( b );
		}
	}
	MC_TEST( owned_views ) {
		chk::what = "owned views";
		auto const in = input( mc::by_tier( 2, 3 ), 2 );
		using Few = std::array<int, 3>;
		auto const few = []( V const &v ) {
			Few r{ };
			std::copy_n( v.begin( ), std::min<std::size_t>( v.size( ), 3 ), r.begin( ) );
			return r;
		};
		auto const f = few( in );
		V const inf( f.begin( ), f.end( ) );
		auto const parts = []( V const &v ) { return pipeline( v, Split( 0 ), To<std::vector> ); };
		switch( mc::choose( 8 ) ) {
		case 0: return lives_on( "owned Map", in, []( V v ) { return pipeline( std::move( v ), Map( twice ) ); }, enc( eager::map( in, twice ) ) );
		case 1: return lives_on( "owned Map projected", in, []( V v ) { return pipeline( std::move( v ), Map( twice, Neg{ } ) ); }, enc( eager::map( eager::map( in, Neg{ } ), twice ) ) );
		case 2: return lives_on( "owned Map Map", in, []( V v ) { return pipeline( std::move( v ), Map( twice ), Map( Neg{ } ) ); }, enc( eager::map( eager::map( in, twice ), Neg{ } ) ) );
		case 3: return lives_on( "array Map", inf, [few]( V const &v ) { return pipeline( few( v ), Map( twice ) ); }, enc( eager::map( inf, twice ) ) );
		case 4: return lives_on( "owned Split", in, []( V v ) { return pipeline( std::move( v ), Split( 0 ) ); }, enc( parts( in ) ) );
		case 5: return lives_on( "array Split", inf, [few]( V const &v ) { return pipeline( few( v ), Split( 0 ) ); }, enc( parts( inf ) ) );
		case 6: return lives_on( "owned Split by range", in, []( V v ) { return pipeline( std::move( v ), Split( std::array<int, 1>{ 0 } ) ); }, enc( parts( in ) ) );
		default: return lives_on( "owned Unique", in, []( V v ) { return pipeline( std::move( v ), Unique ); }, enc( eager::unique( in ) ) );
		}
	}

	MC_TEST( sorted_in_place ) {
		chk::what = "Sort";
		auto const in = input( 5, 3 );
		auto want = in;
		std::sort( want.begin( ), want.end( ) );
		auto v = in;
		auto const r = pipeline( v, Sort, To<std::vector> );
		expect( "Sort", in, enc( v ), enc( want ) );
		expect( "Sort result", in, enc( r ), enc( want ) );
		auto w = in;
		auto const t = pipeline( w, Sort, Take( 3 ) );
		expect( "Sort Take", in, run( t ), enc( eager::take( want, 3 ) ) );
		auto g = in;
		(void)pipeline( g, Sort( std::greater<>{ } ), Count );
		expect( "Sort compared", in, enc( g ), enc( eager::reverse( want ) ) );
	}

	MC_TEST( generators ) {
		chk::what = "iota";
		int const a = static_cast<int>( mc::choose( 6 ) ) - 3;
		int const n = static_cast<int>( mc::choose( 6 ) );
		V want;
		for( int i = 0; i != n; ++i ) {
			want.push_back( a + i );
		}
		expect( "iota_view", want, run( iota_view<int>( a, a + n ) ), enc( want ) );
		expect( "iota_view Reverse", want, run( pipeline( iota_view<int>( a, a + n ), Reverse ) ),
		        enc( eager::reverse( want ) ) );
		expect( "iota_view Filter", want, run( pipeline( iota_view<int>( a, a + n ), Filter( odd ) ) ),
		        enc( eager::filter( want, odd ) ) );
		expect( "iota_view<short>", want,
		        run( iota_view<short>( static_cast<short>( a ), static_cast<short>( a + n ) ) ), enc( want ) );
		V zero;
		for( int i = 0; i != n; ++i ) {
			zero.push_back( i );
		}
		expect( "iota_view(n)", zero, run( iota_view( static_cast<std::size_t>( n ) ) ), enc( zero ) );
		expect( "ToIota", zero, run( ToIota( n ) ), enc( zero ) );
		expect( "Count ToIota", zero, run( pipeline( iota_view<int>( a, a + n ), Count, ToIota ) ), enc( zero ) );
		int calls = 0;
		V squares;
		for( int i = 0; i != n; ++i ) {
			squares.push_back( i * i );
		}
		expect( "generate_n", squares,
		        run( generate_n( static_cast<std::size_t>( n ), [&calls] {
			        int const c = calls++;
			        return c * c;
		        } ) ),
		        enc( squares ) );
		MC_CHECK( calls == n, "generate_n", "generate_n( %d ) called its function %d times", n, calls );
		int value = a;
		maybe_view<int> const one{ value };
		expect( "maybe_view", want, run( one ), enc( V{ a } ) );
		maybe_view<int> const none{ };
		expect( "maybe_view", want, run( none ), enc( V{ } ) );
		// stages applied to a single value
		auto const f = Filter( odd )( a );
		MC_CHECK( f.has_value( ) == ( odd( a ) != 0 ) and ( not f or *f == a ), "Filter",
		          "Filter( odd ) of %d gives %d", a, f ? static_cast<int>( *f ) : -99 );
		MC_CHECK( Map( twice )( a ) == twice( a ), "Map", "Map of the value %d", a );
		MC_CHECK( Clamp( -1, 1 )( a ) == ( a < -1 ? -1 : a > 1 ? 1 : a ), "Clamp", "Clamp( -1, 1 ) of %d", a );
		MC_CHECK( enc( To<std::vector>( )( a ) ) == enc( V{ a } ), "To", "To<vector> of the value %d", a );
		MC_CHECK( enc( To<std::list<int>>( )( a ) ) == enc( V{ a } ), "To", "To<list<int>> of the value %d", a );
		MC_CHECK( enc( To<std::array<int, 2>, 5>( )( a ) ) == enc( V{ a, 5 } ), "To", "To<array> of the value %d", a );
		MC_CHECK( Count( a ) == 1, "Count", "Count of one value" );
	}

	// CacheLast evaluates the stage before it once per element
	MC_TEST( cached ) {
		chk::what = "CacheLast";
		auto const in = input( 4, 2 );
		unsigned const reads = mc::choose( 4 );
		each_source( in, [&]( auto &s ) {
			int calls = 0;
			auto const f = [&calls]( int x ) {
				++calls;
				return x + 1;
			};
			auto v = pipeline( s, Map( f ), CacheLast );
			auto first = std::begin( v );
			auto const last = std::end( v );
			V got;
			while( first != last ) {
				for( unsigned i = 0; i != reads; ++i ) {
					auto const x = *first;
					if( i == 0 ) {
						got.push_back( x );
					} else {
						MC_CHECK( got.back( ) == x, "CacheLast", "the cached value changed" );
					}
				}
				++first;
			}
			int const want = reads == 0 ? 0 : static_cast<int>( in.size( ) );
			MC_CHECK( calls == want, "CacheLast", "%d reads of each of %zu elements call the function %d times", reads, in.size( ), calls );
			if( reads != 0 ) {
				expect( "CacheLast", in, enc( got ), enc( eager::map( in, []( int x ) { return x + 1; } ) ) );
			}
		} );
	}

	// every walk of moves and reads over a cached source, each iterator also through its copies
	MC_TEST( cached_walk ) {
		V const in = { 3, 1, 4 };
		bool const mapped = mc::choose( 2 );
		auto const walk = [&]( auto v, auto const &want ) {
			auto it = std::begin( v );
			auto const last = std::end( v );
			using It = decltype( it );
			constexpr bool back = std::is_base_of_v<std::bidirectional_iterator_tag, typename It::iterator_category>;
			std::size_t at = 0;
			It kept = it;
			std::size_t kept_at = 0;
			for( int n = mc::by_tier( 7, 9 ); n > 0; --n ) {
				MC_CHECK( ( it == last ) == ( at == want.size( ) ), "CacheLast-walk", "at %zu of %zu", at, want.size( ) );
				switch( mc::choose( 8 ) ) {
				case 0: if( at == want.size( ) ) return; ++it; ++at; break;
				case 1: {
					if( at == want.size( ) ) return;
					auto old = it++;
					MC_CHECK( *old == want[at], "CacheLast-walk", "the iterator that it++ returns is at another element" );
					++at;
					break;
				}
				case 2:
					if constexpr( back ) { if( at == 0 ) return; --it; --at; break; } else return;
				case 3:
					if constexpr( back ) {
						if( at == 0 ) return;
						auto old = it--;
						if( at != want.size( ) ) MC_CHECK( *old == want[at], "CacheLast-walk", "the iterator that it-- returns is at another element" );
						--at;
						break;
					} else return;
				case 4: if( at == want.size( ) ) return; MC_CHECK( *it == want[at], "CacheLast-walk", "element %zu reads as %d, not %d", at, *it, want[at] ); break;
				case 5: kept = it; kept_at = at; break;
				case 6: it = kept; at = kept_at; break;
				default: return;
				}
				mc::step( );
			}
			if( kept_at != want.size( ) ) MC_CHECK( *kept == want[kept_at], "CacheLast-walk", "the iterator kept at %zu reads as %d", kept_at, *kept );
		};
		auto const twice = []( int x ) { return x * 2; };
		if( mapped ) walk( pipeline( in, Map( []( int x ) { return x * 2; } ), CacheLast ), eager::map( in, twice ) );
		else walk( pipeline( in, CacheLast ), in );
	}

	// sums of every short list of values at very different scales: the
	// compensated sum is exact where the exact result is representable
	MC_TEST( kahan ) {
		static double const vals[] = { 1.0, -1.0, 1e100, -1e100, 3.0, 1e-3 };
		std::vector<double> v( mc::choose( 5 ) );
		int units = 0, big = 0, small = 0;
		for( auto &x : v ) {
			auto const i = mc::choose( 6 );
			x = vals[i];
			units += i == 0 ? 1 : i == 1 ? -1 : i == 4 ? 3 : 0;
			big += i == 2 ? 1 : i == 3 ? -1 : 0;
			small += i == 5;
		}
		auto const got = SumKahanBabushkaNeumaier( v );
		double const exact = big * 1e100 + units + small * 1e-3;
		MC_CHECK( std::abs( got - exact ) <= 1e-15 * std::max( 1.0, std::abs( exact ) ), "Kahan",
		          "compensated sum is %.17g, exact %.17g", got, exact );
		std::list<double> const l( v.begin( ), v.end( ) );
		MC_REQUIRE( SumKahanBabushkaNeumaier( l ) == got );
		auto const neg = pipeline( v, SumKahanBabushkaNeumaier( []( double d ) { return -d; } ) );
		MC_CHECK( neg == -got, "Kahan", "compensated sum of the negated values is %.17g, of the values %.17g", neg, got );
	}

	MC_TEST( sampled ) {
		// an engine with every sequence of answers: Sample keeps exactly the
		// elements whose draw is among the first n of m
		struct Dist {
			using result_type = std::size_t;
			result_type lo, hi;
			Dist( result_type a, result_type b )
			  : lo( a )
			  , hi( b ) {}
			result_type operator( )( std::vector<std::size_t> &e ) {
				auto const r = e.back( );
				e.pop_back( );
				return lo + r % ( hi - lo + 1 );
			}
		};
		auto const n = static_cast<std::size_t>( mc::choose( 4 ) );
		std::size_t const keep = 1 + mc::choose( 2 );
		V in;
		V want;
		std::vector<std::size_t> draws;
		for( std::size_t i = 0; i != n; ++i ) {
			in.push_back( static_cast<int>( i ) );
			auto const d = static_cast<std::size_t>( mc::choose( 3 ) );
			draws.insert( draws.begin( ), d );
			if( d + 1 <= keep ) {
				want.push_back( static_cast<int>( i ) );
			}
		}
		draws.insert( draws.begin( ), 5, 0 );
		each_source( in, [&]( auto &s ) {
			expect( "Sample", in, run( pipeline( s, Sample<Dist>( keep, 3, draws ) ) ), enc( want ) );
		} );
	}
} // namespace
