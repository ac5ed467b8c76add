// A02: daw::sort and quick_sort on every short range and on long patterns.
#include "A02.inc"

namespace {
	template<typename T>
	void general( std::vector<int> const &keys, bool rev ) {
		sorted<T>( "sort", keys, rev, []( auto &v, Cmp c ) { daw::sort( b<Ra>( v ), e<Ra>( v ), c ); } );
	}
	template<typename T>
	void quick( std::vector<int> const &keys, bool rev ) {
		sorted<T>( "quick_sort", keys, rev, []( auto &v, Cmp c ) { daw::quick_sort( b<Ra>( v ), e<Ra>( v ), c ); } );
	}
	MC_TEST( sort_two_keys ) {
		auto const n = mc::choose( static_cast<unsigned>( mc::by_tier( 14, 17 ) ) );
		words( n, 2, []( auto const &w ) {
			general<Item>( w, false );
			general<Heavy>( w, false );
		} );
	}
	MC_TEST( sort_three_keys ) {
		auto const n = mc::choose( static_cast<unsigned>( mc::by_tier( 11, 13 ) ) );
		words( n, 3, []( auto const &w ) { general<Heavy>( w, true ); } );
	}
	MC_TEST( sort_permutations ) {
		auto const n = mc::choose( static_cast<unsigned>( mc::by_tier( 10, 11 ) ) );
		perms( n, []( auto const &p ) { general<Heavy>( p, false ); } );
		if( n <= 8 ) {
			perms( n, []( auto const &p ) { general<Item>( p, true ); } );
		}
	}
	// longer ranges: two exchanged elements, rotations, block patterns and
	// interleavings around every length where the strategy changes
	MC_TEST( sort_long ) {
		static constexpr int lengths[] = { 15, 16, 17, 28, 29, 30, 31, 32, 33, 34, 48, 63, 64, 65, 100, 999, 1000, 1001 };
		auto const len = lengths[mc::choose( 18 )];
		bool const rev = mc::choose( 2 ) != 0;
		auto const n = static_cast<std::size_t>( len );
		auto const both = [&]( std::vector<int> const &k ) {
			general<Item>( k, rev );
			if( n < 200 ) {
				general<Heavy>( k, rev );
			}
		};
		std::vector<int> up( n );
		std::iota( up.begin( ), up.end( ), 0 );
		auto const down = std::vector<int>( up.rbegin( ), up.rend( ) );
		both( up );
		both( down );
		std::size_t const hop = n < 70 ? 1 : n < 200 ? 7 : 331;
		for( std::size_t i = 0; i < n; i += hop ) {
			for( std::size_t j = i + 1; j < n; j += hop ) {
				for( auto const &base : { up, down } ) {
					auto k = base;
					std::swap( k[i], k[j] );
					both( k );
				}
				if( n < 40 ) { // 0-1 block, 1 between i and j
					std::vector<int> k( n, 0 );
					std::fill( k.begin( ) + static_cast<std::ptrdiff_t>( i ), k.begin( ) + static_cast<std::ptrdiff_t>( j ), 1 );
					both( k );
				}
			}
		}
		for( std::size_t r = 1; r < n; r += hop ) {
			auto k = up;
			std::rotate( k.begin( ), k.begin( ) + static_cast<std::ptrdiff_t>( r ), k.end( ) );
			both( k );
			for( std::size_t i = 0; i != n; ++i ) {
				k[i] = static_cast<int>( i % r );
			}
			both( k );
			for( std::size_t i = 0; i != n; ++i ) {
				k[i] = static_cast<int>( ( i * r + i / 2 ) % n );
			}
			both( k );
			for( std::size_t i = 0; i != n; ++i ) { // up to r, then down
				k[i] = static_cast<int>( i < r ? i : n + r - i );
			}
			both( k );
		}
	}

	MC_TEST( quick_sort_two_keys ) {
		auto const n = mc::choose( static_cast<unsigned>( mc::by_tier( 12, 15 ) ) );
		words( n, 2, []( auto const &w ) { quick<Item>( w, false ); } );
	}
	MC_TEST( quick_sort_words ) {
		auto const n = mc::choose( static_cast<unsigned>( mc::by_tier( 8, 9 ) ) );
		words( n, 4, []( auto const &w ) { quick<Heavy>( w, true ); } );
	}
	MC_TEST( quick_sort_permutations ) {
		auto const n = mc::choose( static_cast<unsigned>( mc::by_tier( 9, 10 ) ) );
		perms( n, []( auto const &p ) { quick<Item>( p, false ); } );
	}

	// McIlroy's adversary: answers comparisons so that partitions are as uneven
	// as possible, then replays the input it has fixed
	struct Adversary {
		std::vector<int> val;
		int solid = 0, candidate = 0, gas = 0;
		explicit Adversary( int n )
		  : val( static_cast<std::size_t>( n ), n )
		  , gas( n ) {}
		bool less( int x, int y ) {
			auto &a = val[static_cast<std::size_t>( x )];
			auto &c = val[static_cast<std::size_t>( y )];
			if( a == gas and c == gas ) {
				( x == candidate ? a : c ) = solid++;
			}
			if( a == gas ) {
				candidate = x;
			} else if( c == gas ) {
				candidate = y;
			}
			return a < c;
		}
	};
	MC_TEST( hostile_inputs ) {
		bool const q = mc::choose( 2 ) != 0;
		static constexpr int lengths[] = { 9, 33, 200, 700, 2000 };
		int const n = lengths[mc::choose( 5 )];
		Adversary adv( n );
		std::vector<int> order( static_cast<std::size_t>( n ) );
		std::iota( order.begin( ), order.end( ), 0 );
		auto const less = [&]( int x, int y ) noexcept { return adv.less( x, y ); };
		if( q ) {
			daw::quick_sort( order.begin( ), order.end( ), less );
		} else {
			daw::sort( order.begin( ), order.end( ), less );
		}
		auto const keys = adv.val;
		if( q ) {
			quick<Item>( keys, false );
		} else {
			general<Item>( keys, false );
		}
	}

} // namespace
