// A04: the iterators of the lazy views obey the laws of their category
// MC-FLAGS: -O0
#include "A03.inc"
#include "A04.inc"

using namespace p4;
using namespace dp;

namespace {
	template<typename R>
	void view_laws( char const *name, V const &in, R &&view, std::vector<std::string> const &want ) {
		(void)in;
		chk::what = name;
		using It = std::remove_cvref_t<decltype( std::begin( view ) )>;
		auto const n = static_cast<int>( want.size( ) );
		auto const value = [&]( auto it, int p ) {
			return enc( *it ) == want[static_cast<std::size_t>( p )];
		};
		auto const first = std::begin( view );
		laws( name, n,
		      [&]( int p ) {
			      It it = first;
			      while( p-- > 0 ) {
				      ++it;
			      }
			      return it;
		      },
		      value );
		walk( name, n, std::begin( view ), std::end( view ), value );
		// the end of the view is where the walk ends, also going backwards
		if constexpr( std::is_same_v<It, std::remove_cvref_t<decltype( std::end( view ) )>> and
		              requires( It x ) { --x; } ) {
			auto it = std::end( view );
			for( int i = n; i > 0; --i ) {
				--it;
				MC_CHECK( value( it, i - 1 ), "backwards", "%s: element %d of %d from the end", name, i - 1, n );
			}
			MC_CHECK( it == first, "backwards", "%s: %d steps back from the end", name, n );
		}
		if constexpr( random_access<It>( ) ) {
			if constexpr( requires( It const x ) { x[0]; } ) {
				for( int i = 0; i != n; ++i ) {
					It at_i = first;
					at_i += i;
					for( int j = 0; j != n; ++j ) {
						MC_CHECK( enc( at_i[j - i] ) == want[static_cast<std::size_t>( j )], "index", "%s: [%d] from %d of %d", name,
						          j - i, i, n );
					}
				}
			}
		}
	}

	template<typename C>
	std::vector<std::string> parts( C const &c ) {
		std::vector<std::string> r;
		for( auto const &x : c ) {
			r.push_back( enc( x ) );
		}
		return r;
	}

	V ramp( unsigned n ) {
		V r;
		for( unsigned i = 0; i != n; ++i ) {
			r.push_back( static_cast<int>( i * 3 + 1 ) );
		}
		return r;
	}
	unsigned size( ) {
		unsigned const small = static_cast<unsigned>( mc::by_tier( 6, 9 ) );
		unsigned const n = mc::choose( small + 1 );
		return n == small ? 18 : n;
	}

	MC_TEST( map_iterators ) {
		auto const in = ramp( size( ) );
		each_source( in, [&]( auto &s ) {
			view_laws( "map_iterator", in, pipeline( s, Map( twice ) ), parts( eager::map( in, twice ) ) );
		} );
	}
	MC_TEST( sized_iterators ) {
		auto const in = ramp( size( ) );
		auto const k = static_cast<std::size_t>( mc::choose( static_cast<int>( in.size( ) ) + 2 ) );
		each_source( in, [&]( auto &s ) {
			auto t = pipeline( s, Take( k ) );
			chk::what = "sized_iterator";
			// iterators of a Take compare by what remains
			view_laws( "sized_iterator", in, t, parts( eager::take( in, k ) ) );
		} );
	}
	MC_TEST( skip_iterators ) {
		auto const in = ramp( size( ) );
		auto const k = static_cast<std::size_t>( mc::choose( static_cast<int>( in.size( ) ) + 2 ) );
		each_source( in, [&]( auto &s ) {
			view_laws( "skip", in, pipeline( s, Skip( k ) ), parts( eager::skip( in, k ) ) );
		} );
	}
	MC_TEST( filter_iterators ) {
		auto const in = input( static_cast<unsigned>( mc::by_tier( 4, 6 ) ), 2 );
		each_source( in, [&]( auto &s ) {
			auto f = pipeline( s, Filter( odd ) );
			// two odd elements are told apart by position, not value
			view_laws( "filter_view", in, f, parts( eager::filter( in, odd ) ) );
		} );
	}
	MC_TEST( reverse_iterators ) {
		auto const in = ramp( size( ) );
		each_source<BACK>( in, [&]( auto &s ) {
			view_laws( "Reverse", in, pipeline( s, Reverse ), parts( eager::reverse( in ) ) );
			view_laws( "Reverse Map", in, pipeline( s, Reverse, Map( twice ) ),
			           parts( eager::map( eager::reverse( in ), twice ) ) );
		} );
	}
	MC_TEST( zip_iterators ) {
		auto const in = ramp( size( ) );
		auto const other = ramp( static_cast<unsigned>( mc::choose( 5 ) ) );
		each_source<FWD | RA | VEC>( in, [&]( auto &s ) {
			Src<chk::Ra> const o( other );
			view_laws( "zip_iterator", in, Zip( s, o ), parts( eager::zip( in, other ) ) );
		} );
		if( in.size( ) == other.size( ) ) {
			each_source<BIDI | LIST>( in, [&]( auto &s ) {
				Src<chk::Bidi> const o( other );
				view_laws( "zip_iterator", in, Zip( s, o ), parts( eager::zip( in, other ) ) );
			} );
		}
	}
	MC_TEST( enumerate_iterators ) {
		auto const in = ramp( size( ) );
		each_source<FWD | RA | VEC>( in, [&]( auto &s ) {
			view_laws( "enumerate", in, pipeline( s, Enumerate ), parts( eager::enumerate<std::size_t>( in, 0 ) ) );
		} );
	}
	MC_TEST( element_iterators ) {
		auto const in = ramp( size( ) );
		V tens;
		VP pairs;
		for( auto x : in ) {
			tens.push_back( x * 10 );
			pairs.emplace_back( x * 10, x );
		}
		std::vector<std::pair<int, int>> src;
		for( auto x : in ) {
			src.emplace_back( x, x * 10 );
		}
		view_laws( "element_iterator", in, pipeline( src, Element<1> ), parts( tens ) );
		view_laws( "elements_iterator", in, pipeline( src, Elements<1, 0> ), parts( pairs ) );
		std::list<std::pair<int, int>> const lst( src.begin( ), src.end( ) );
		view_laws( "element_iterator", in, pipeline( lst, Element<1> ), parts( tens ) );
		view_laws( "elements_iterator", in, pipeline( lst, Elements<1, 0> ), parts( pairs ) );
	}
	MC_TEST( iota_iterators ) {
		auto const n = static_cast<int>( size( ) );
		auto const from = static_cast<int>( mc::choose( 4 ) ) - 2;
		V want;
		for( int i = 0; i < n; ++i ) {
			want.push_back( from + i );
		}
		view_laws( "iota_iterator", want, iota_view<int>( from, from + n ), parts( want ) );
		V chars;
		for( int i = 0; i < n; ++i ) {
			chars.push_back( 'a' + i );
		}
		view_laws( "iota_iterator<char>", want, iota_view<char>( 'a', static_cast<char>( 'a' + n ) ), parts( chars ) );
	}
	MC_TEST( window_iterators ) {
		auto const in = ramp( size( ) );
		auto const k = static_cast<std::size_t>( 1 + mc::choose( 4 ) );
		each_source( in, [&]( auto &s ) {
			view_laws( "chunk", in, pipeline( s, Chunk( k ) ), parts( eager::chunk( in, k ) ) );
			view_laws( "slide", in, pipeline( s, Slide( k ) ), parts( eager::slide( in, k ) ) );
			view_laws( "every", in, pipeline( s, Every( k ) ), parts( eager::every( in, k ) ) );
		} );
	}
	MC_TEST( split_iterators ) {
		auto const in = input( static_cast<unsigned>( mc::by_tier( 5, 7 ) ), 2 );
		each_source( in, [&]( auto &s ) {
			view_laws( "split", in, pipeline( s, Split( 1 ) ), parts( eager::split( in, V{ 1 } ) ) );
			view_laws( "split if", in, pipeline( s, Split( odd ) ), parts( eager::split( in, V{ 1 } ) ) );
		} );
	}
	MC_TEST( flatten_iterators ) {
		VV in( mc::choose( static_cast<int>( mc::by_tier( 4, 5 ) ) ) );
		int at = 0;
		for( auto &x : in ) {
			x.resize( mc::choose( 3 ) );
			for( auto &y : x ) {
				y = ++at;
			}
		}
		V const all = eager::flatten( in );
		view_laws( "flatten", all, pipeline( in, Flatten ), parts( all ) );
		std::list<V> const lst( in.begin( ), in.end( ) );
		view_laws( "flatten list", all, pipeline( lst, Flatten ), parts( all ) );
	}
	MC_TEST( unique_iterators ) {
		auto const in = input( static_cast<unsigned>( mc::by_tier( 4, 6 ) ), 2 );
		each_source( in, [&]( auto &s ) {
			view_laws( "unique", in, pipeline( s, Unique ), parts( eager::unique( in ) ) );
		} );
	}
	MC_TEST( cached_iterators ) {
		auto const in = ramp( size( ) );
		each_source( in, [&]( auto &s ) {
			view_laws( "cache_last", in, pipeline( s, CacheLast ), parts( in ) );
			view_laws( "map cache_last", in, pipeline( s, Map( twice ), CacheLast ), parts( eager::map( in, twice ) ) );
			// and compares with the iterator it was made from
			auto v = pipeline( s, CacheLast );
			auto raw = std::begin( s );
			auto it = v.begin( );
			for( std::size_t p = 0; p <= in.size( ); ++p ) {
				auto other = std::begin( s );
				for( std::size_t q = 0; q <= in.size( ); ++q ) {
					MC_CHECK( ( it == other ) == ( p == q ) and ( it != other ) == ( p != q ), "cache_last-raw", "cache_last at %zu against the raw iterator at %zu", p, q );
					if( q != in.size( ) ) ++other;
				}
				MC_CHECK( it == raw, "cache_last-raw", "cache_last at %zu", p );
				if( p != in.size( ) ) {
					(void)*it;
					++it;
					++raw;
				}
			}
		} );
	}
} // namespace
