// A02: every fixed-size network, the general sorts and the copying sorts.
//
// Networks up to 16 run on every 0-1 input.  sort_32 is checked in two steps:
// the sequence of comparisons the real code makes is recorded and shown to be
// independent of the input; the reachable states of that network over all 2^32
// 0-1 inputs are then enumerated symbolically by component (a state set per
// group of wires that have met), and every final state's witness input is run
// on the real code again.
#include "A02.inc"

namespace {
	template<typename T>
	void network( unsigned n, std::vector<int> const &keys, bool rev ) {
		auto const run = [n]( auto &v, Cmp cmp ) {
			auto const f = b<Ra>( v );
			switch( n ) {
			case 3: return daw::sort_3( f, cmp );
			case 4: return daw::sort_4( f, cmp );
			case 5: return daw::sort_5( f, cmp );
			case 6: return daw::sort_6( f, cmp );
			case 7: return daw::sort_7( f, cmp );
			case 8: return daw::sort_8( f, cmp );
			case 16: return daw::sort_16( f, cmp );
			default: return daw::sort_32( f, cmp );
			}
		};
		static char const *const names[] = { "", "", "", "sort_3", "sort_4", "sort_5", "sort_6", "sort_7", "sort_8" };
		sorted<T>( n <= 8 ? names[n] : n == 16 ? "sort_16" : "sort_32", keys, rev, run );
	}

	MC_TEST( networks_small ) {
		unsigned const n = 3U + mc::choose( 6 );
		bool const rev = mc::choose( 2 ) != 0;
		for( std::uint64_t m = 0; m != ( 1U << n ); ++m ) {
			network<Item>( n, bits( m, n ), rev );
			network<Heavy>( n, bits( m, n ), rev );
		}
		unsigned const k = n <= 5 ? n : n == 6 ? 4 : 3;
		for( std::uint64_t m = 0; m != power( k, n ); ++m ) {
			network<Item>( n, word( m, n, k ), rev );
		}
		std::vector<int> p( n );
		std::iota( p.begin( ), p.end( ), 0 );
		do {
			network<Heavy>( n, p, rev );
		} while( std::next_permutation( p.begin( ), p.end( ) ) );
	}

	MC_TEST( network_16 ) {
		unsigned const hi = mc::choose( 64 );
		for( std::uint64_t m = 0; m != 1024; ++m ) {
			network<Item>( 16, bits( hi * 1024U + m, 16 ), false );
		}
		if( mc::tier( ) == 1 or hi % 8 == 0 ) {
			for( std::uint64_t m = 0; m != 1024; ++m ) {
				network<Heavy>( 16, bits( hi * 1024U + m, 16 ), true );
			}
		}
	}

	// records which positions the code compares
	struct Probe {
		int key;
	};
	struct Recorder {
		Probe const *base;
		std::vector<std::pair<int, int>> *log;
		bool operator( )( Probe const &a, Probe const &b ) const noexcept {
			log->emplace_back( static_cast<int>( &a - base ), static_cast<int>( &b - base ) );
			return a.key < b.key;
		}
	};
	std::vector<std::pair<int, int>> record( std::vector<int> const &keys ) {
		std::vector<Probe> p( 32 );
		for( unsigned i = 0; i != 32; ++i ) {
			p[i].key = keys[i];
		}
		std::vector<std::pair<int, int>> log;
		daw::sort_32( p.begin( ), Recorder{ p.data( ), &log } );
		return log;
	}

	MC_TEST( network_32 ) {
		unsigned const part = mc::choose( 3 );
		if( part == 0 ) {
			// two blocks of every 0-1 pattern with at most two ones or zeros each half
			std::vector<std::uint64_t> half;
			for( unsigned i = 0; i != 16; ++i ) {
				for( unsigned j = i; j != 16; ++j ) {
					half.push_back( ( 1U << i ) | ( 1U << j ) );
					half.push_back( 0xFFFFU ^ ( ( 1U << i ) | ( 1U << j ) ) );
				}
			}
			half.push_back( 0 );
			half.push_back( 0xFFFF );
			for( auto x : half ) {
				for( auto y : half ) {
					network<Item>( 32, bits( x | ( y << 16U ), 32 ), false );
				}
			}
			return;
		}
		if( part == 1 ) {
			for( int i = 0; i != 32; ++i ) { // rotations of ascending and descending
				for( int s : { 1, 31, 3, 11 } ) {
					std::vector<int> k( 32 );
					for( int j = 0; j != 32; ++j ) {
						k[static_cast<std::size_t>( j )] = ( i + s * j ) % 32;
					}
					network<Heavy>( 32, k, false );
					network<Heavy>( 32, k, true );
				}
			}
			return;
		}
		// the model: the recorded network
		auto const net = record( std::vector<int>( 32, 0 ) );
		bool oblivious = true;
		auto const check_trace = [&]( std::uint64_t m ) { oblivious = oblivious and record( bits( m, 32 ) ) == net; };
		for( unsigned i = 0; i != 32; ++i ) {
			for( unsigned j = 0; j <= i; ++j ) {
				std::uint64_t const m = ( 1ULL << i ) | ( 1ULL << j );
				check_trace( m );
				check_trace( ~m & 0xFFFF'FFFFULL );
			}
		}
		MC_REQUIRE( not net.empty( ) );
		auto const direct = []( ) {
			for( std::uint64_t x = 0; x != 65536; ++x ) {
				for( std::uint64_t y : { 0x0000ULL, 0xFFFFULL, 0x5555ULL, 0x00FFULL, 0x8001ULL, 0x7FFEULL, 0xF0F0ULL } ) {
					network<Item>( 32, bits( x | ( y << 16U ), 32 ), false );
				}
			}
		};
		if( not oblivious ) { // not a network any more
			mc::note( "comparisons depend on the input, direct enumeration only" );
			return direct( );
		}
		// state sets per component: wires -> (state -> witness input)
		struct Comp {
			std::uint32_t wires;
			std::unordered_map<std::uint32_t, std::uint32_t> states;
		};
		std::vector<Comp> comps;
		for( unsigned i = 0; i != 32; ++i ) {
			comps.push_back( { 1U << i, { { 0U, 0U }, { 1U << i, 1U << i } } } );
		}
		std::uint64_t states = 0;
		bool feasible = true;
		for( auto [i, j] : net ) {
			auto const find = [&]( int w ) {
				return static_cast<std::size_t>( std::find_if( comps.begin( ), comps.end( ), [&]( Comp const &c ) { return ( c.wires >> w ) & 1U; } ) - comps.begin( ) );
			};
			auto a = find( i ), c = find( j );
			if( a != c ) {
				if( comps[a].states.size( ) * comps[c].states.size( ) > 30'000'000 ) {
					feasible = false;
					break;
				}
				Comp u{ comps[a].wires | comps[c].wires, { } };
				for( auto const &x : comps[a].states ) {
					for( auto const &y : comps[c].states ) {
						u.states.emplace( x.first | y.first, x.second | y.second );
					}
				}
				comps[a] = std::move( u );
				comps.erase( comps.begin( ) + static_cast<std::ptrdiff_t>( c ) );
				a = find( i );
			}
			std::unordered_map<std::uint32_t, std::uint32_t> next;
			auto const lo = 1U << std::min( i, j ), hi = 1U << std::max( i, j );
			for( auto const &s : comps[a].states ) {
				auto t = s.first;
				if( ( t & lo ) and not( t & hi ) ) {
					t = ( t & ~lo ) | hi;
				}
				next.emplace( t, s.second );
			}
			states += next.size( );
			comps[a].states = std::move( next );
			mc::step( );
		}
		if( not feasible ) {
			mc::note( "too many reachable states, direct enumeration only" );
			return direct( );
		}
		mc::note( "sort_32 network: %zu comparisons, %llu reachable states", net.size( ), static_cast<unsigned long long>( states ) );
		// every final state's witness, and every pair of component states, on the real code
		std::vector<std::uint32_t> wit{ 0 };
		for( auto const &c : comps ) {
			std::vector<std::uint32_t> w;
			for( auto x : wit ) {
				for( auto const &s : c.states ) {
					w.push_back( x | s.second );
				}
			}
			wit = std::move( w );
			if( wit.size( ) > 200000 ) {
				break;
			}
		}
		for( auto m : wit ) {
			MC_CHECK( record( bits( m, 32 ) ) == net, "trace_mismatch", "the comparisons for %08x differ from the recorded network", m );
			network<Item>( 32, bits( m, 32 ), false );
			mc::obs( m );
		}
	}

} // namespace
