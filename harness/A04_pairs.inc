// A04: every ordered pair of stages that keep a range of ints one, over every
// source and parameter within the bounds.  The first stage is fixed per file.
#pragma once
#include "A04.inc"

namespace {
	using namespace p4;
	using namespace daw::pipelines;

	enum Kind {
		KMap,
		KFilter,
		KTake,
		KSkip,
		KTakeWhile,
		KTakeUntil,
		KDropWhile,
		KDropUntil,
		KEvery,
		KReverse,
		KUnique,
		KCache,
		KChunk,
		KSlide,
		KSplit,
		KZip,
		KEnumerate,
		KElement,
		KCount
	};
	char const *const kind_names[] = { "Map",    "Filter", "Take",  "Skip",           "TakeWhile",     "TakeUntil",
	                                   "DropWhile", "DropUntil", "Every", "Reverse", "Unique", "CacheLast",
	                                   "Chunk Flatten", "Slide Flatten", "Split Flatten", "Zip MapApply",
	                                   "Enumerate MapApply", "Zip Element" };

	inline constexpr struct big_t {
		constexpr auto operator( )( int x ) const {
			return x > 1;
		}
	} big{ };
	inline constexpr struct add_t {
		constexpr auto operator( )( auto a, auto b ) const {
			return static_cast<int>( a ) + static_cast<int>( b );
		}
	} add{ };
	inline constexpr struct step_t {
		constexpr auto operator( )( int x ) const {
			return ( x + 1 ) % 4;
		}
	} step{ };

	template<Kind K>
	constexpr bool has_parameter = K == KTake or K == KSkip or K == KEvery or K == KChunk or K == KSlide;

	// the other range of a zip outlives the pipelines
	V const &partner( ) {
		static V const &v = *[] {
			mc::NoTrack nt;
			return new V{ 3, 1, 2, 0 };
		}( );
		return v;
	}

	template<Kind K>
	auto stage( std::size_t n ) {
		(void)n;
		if constexpr( K == KMap ) {
			return Map( step_t{ } );
		} else if constexpr( K == KFilter ) {
			return Filter( big_t{ } );
		} else if constexpr( K == KTake ) {
			return Take( n );
		} else if constexpr( K == KSkip ) {
			return Skip( n );
		} else if constexpr( K == KTakeWhile ) {
			return TakeWhile( big_t{ } );
		} else if constexpr( K == KTakeUntil ) {
			return TakeUntil( big_t{ } );
		} else if constexpr( K == KDropWhile ) {
			return DropWhile( big_t{ } );
		} else if constexpr( K == KDropUntil ) {
			return DropUntil( big_t{ } );
		} else if constexpr( K == KEvery ) {
			return Every( n + 1 );
		} else if constexpr( K == KReverse ) {
			return Reverse;
		} else if constexpr( K == KUnique ) {
			return Unique;
		} else if constexpr( K == KCache ) {
			return CacheLast;
		} else if constexpr( K == KChunk ) {
			return [n]( auto &&r ) {
				return Flatten( Chunk( n + 1 )( r ) );
			};
		} else if constexpr( K == KSlide ) {
			return [n]( auto &&r ) {
				return Flatten( Slide( n + 1 )( r ) );
			};
		} else if constexpr( K == KSplit ) {
			return []( auto &&r ) {
				return Flatten( Split( 2 )( r ) );
			};
		} else if constexpr( K == KZip ) {
			return []( auto &&r ) {
				return MapApply( add_t{ } )( Zip( r, partner( ) ) );
			};
		} else if constexpr( K == KEnumerate ) {
			return []( auto &&r ) {
				return MapApply( add_t{ } )( EnumerateWith<int>( r ) );
			};
		} else {
			return []( auto &&r ) {
				return Element<1>( Zip( partner( ), r ) );
			};
		}
	}

	template<Kind K>
	V model( V const &v, std::size_t n ) {
		auto const lead = eager::lead( v, big );
		auto const lead_not = eager::lead( v, []( int x ) {
			return not big( x );
		} );
		if constexpr( K == KMap ) {
			return eager::map( v, step );
		} else if constexpr( K == KFilter ) {
			return eager::filter( v, big );
		} else if constexpr( K == KTake ) {
			return eager::take( v, n );
		} else if constexpr( K == KSkip ) {
			return eager::skip( v, n );
		} else if constexpr( K == KTakeWhile ) {
			return eager::take( v, lead );
		} else if constexpr( K == KTakeUntil ) {
			return eager::take( v, lead_not );
		} else if constexpr( K == KDropWhile ) {
			return eager::skip( v, lead );
		} else if constexpr( K == KDropUntil ) {
			return eager::skip( v, lead_not );
		} else if constexpr( K == KEvery ) {
			return eager::every( v, n + 1 );
		} else if constexpr( K == KReverse ) {
			return eager::reverse( v );
		} else if constexpr( K == KUnique ) {
			return eager::unique( v );
		} else if constexpr( K == KCache or K == KChunk ) {
			return v;
		} else if constexpr( K == KSlide ) {
			return eager::flatten( eager::slide( v, n + 1 ) );
		} else if constexpr( K == KSplit ) {
			return eager::filter( v, []( int x ) {
				return x != 2;
			} );
		} else if constexpr( K == KZip ) {
			V r;
			for( std::size_t i = 0; i < v.size( ) and i < 4; ++i ) {
				r.push_back( v[i] + partner( )[i] );
			}
			return r;
		} else if constexpr( K == KEnumerate ) {
			V r;
			for( std::size_t i = 0; i < v.size( ); ++i ) {
				r.push_back( v[i] + static_cast<int>( i ) );
			}
			return r;
		} else {
			return eager::take( v, 4 );
		}
	}

	// going backwards from the end of a zip of bidirectional iterators needs
	// both ranges to be equally long, which only the random access ones can find
	template<Kind K, typename R>
	constexpr bool can_apply( ) {
		if constexpr( K == KReverse ) {
			return daw::BidirectionalRange<R>;
		} else {
			return true;
		}
	}

	template<Kind A, Kind B, typename S>
	void pair( V const &in, S &s ) {
		std::string const name = mc::strf( "%s, %s", kind_names[A], kind_names[B] );
		chk::what = name.c_str( );
		using R1 = decltype( stage<A>( 0 )( s ) );
		if constexpr( can_apply<B, R1>( ) ) {
			std::size_t const na = has_parameter<A> ? 4 : 1;
			std::size_t const nb = has_parameter<B> ? 4 : 1;
			static constexpr std::array<std::size_t, 4> small{ 0, 1, 2, 3 }, large{ 1, 6, 10, 20 };
			auto const &param = in.size( ) > 10 ? large : small;
			for( std::size_t ka = 0; ka != na; ++ka ) {
				for( std::size_t kb = 0; kb != nb; ++kb ) {
					std::size_t const a = param[ka], b = param[kb];
					V const want = model<B>( model<A>( in, a ), b );
					std::string const got = run( pipeline( s, stage<A>( a ), stage<B>( b ) ) );
					MC_CHECK( got == enc( want ), name.c_str( ),
					          "%s with parameters %zu and %zu over %s gives %s, eager evaluation gives %s", name.c_str( ), a,
					          b, enc( in ).c_str( ), got.c_str( ), enc( want ).c_str( ) );
					mc::count_case( );
				}
			}
		}
		chk::what = "";
	}

	template<Kind A, typename S, std::size_t... Bs>
	void pairs( V const &in, S &s, std::index_sequence<Bs...> ) {
		( pair<A, static_cast<Kind>( Bs )>( in, s ), ... );
	}

	template<Kind A>
	void all_pairs( ) {
		auto const in = input( static_cast<unsigned>( mc::by_tier( 4, 6 ) ), static_cast<unsigned>( mc::by_tier( 3, 4 ) ), 0, false );
		auto const go = [&]( auto &s ) {
			if constexpr( can_apply<A, decltype( s )>( ) ) {
				pairs<A>( in, s, std::make_index_sequence<KCount>{ } );
			}
		};
		each_source<FWD | RA>( in, go );
	}
} // namespace
