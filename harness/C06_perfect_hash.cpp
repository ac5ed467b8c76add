// Perfect hash tables: every ordered choice of keys from a small universe, for
// every table size up to 6 (subsets beyond), under hash functions that give
// every bucket shape, from one key per bucket to all keys in one bucket.
// MC-FLAGS: -O0
#include "mc.h"
#include <cstdint>
#include <map>
#include <set>
#include <vector>

#include <daw/daw_fnv1a_hash.h>
#include <daw/daw_min_perfect_hash.h>

namespace {
	int mode = 0;
	struct H64 {
		constexpr std::size_t operator( )( int k ) const {
			auto const u = std::size_t( k );
			switch( mode ) {
			case 0: return u;
			case 1: return u * 16 + 3; // distinct hashes in one bucket
			case 2: return u * 4 + 3;
			case 3: return std::size_t( k / 2 ) + ( std::size_t( k % 2 ) << 40U ); // two clusters
			case 4: return u << 56U; // only the high bits differ
			case 5: return ~u;
			default: { // well mixed
				auto x = ( u + 1 ) * 0x9e3779b97f4a7c15ULL;
				x = ( x ^ ( x >> 30U ) ) * 0xbf58476d1ce4e5b9ULL;
				x = ( x ^ ( x >> 27U ) ) * 0x94d049bb133111ebULL;
				return x ^ ( x >> 31U );
			}
			}
		}
	};
	struct H32 {
		constexpr std::uint32_t operator( )( int k ) const { return std::uint32_t( k ) * 2654435761U; }
	};

	template<std::size_t N, typename Hash>
	void table( std::vector<int> const &keys, int universe ) {
		using T = daw::perfect_hash_table<N, int, int, Hash>;
		std::pair<int, int> data[N];
		std::map<int, int> m;
		for( std::size_t i = 0; i < N; ++i ) {
			data[i] = { keys[i], 100 + int( i ) };
			m[keys[i]] = 100 + int( i );
		}
		T const c = N % 2 ? T( data ) : T( data + 0, data + N );
		T t = daw::make_perfect_hash_table<Hash>( data );
		MC_CHECK( c.size( ) == N, "size", "size %zu, expected %zu", c.size( ), N );
		std::set<int const *> pos, cpos;
		for( int k = -1; k <= universe + 1; ++k ) {
			auto const *p = c.find( k );
			auto *q = t.find( k );
			bool const in = m.count( k );
			MC_CHECK( c.contains( k ) == in, "contains", "contains(%d) is %d", k, c.contains( k ) );
			MC_CHECK( ( p != nullptr ) == in, "find", "find(%d) is %s", k, p ? "found" : "null" );
			MC_CHECK( ( q != nullptr ) == in, "find", "mutable find(%d) is %s", k, q ? "found" : "null" );
			if( not in ) continue;
			MC_CHECK( *p == m[k] and *q == m[k], "value", "find(%d) gives %d, expected %d", k, *p, m[k] );
			MC_CHECK( &c[k] == p and &t[k] == q, "index", "[%d] is not the value found", k );
			MC_CHECK( cpos.insert( p ).second and pos.insert( q ).second, "shared", "key %d shares its position with another key", k );
		}
		// a write through one key reaches that key only
		for( auto &[k, v] : m ) {
			t[k] = -v;
			for( auto &[k2, v2] : m ) MC_CHECK( *t.find( k2 ) == ( k2 <= k ? -v2 : v2 ), "write", "after writing key %d, key %d is %d", k, k2, *t.find( k2 ) );
		}
		mc::count_case( );
	}

	template<std::size_t N>
	void every( std::vector<int> const &keys, int universe ) {
		for( mode = 0; mode < 6; ++mode ) table<N, H64>( keys, universe );
		if constexpr( N == 3 or N == 4 ) table<N, H32>( keys, universe );
	}
	template<std::size_t N>
	void ordered( int universe ) {
		std::vector<int> keys, left;
		for( int i = 0; i <= universe; ++i ) left.push_back( i );
		for( std::size_t i = 0; i < N; ++i ) {
			auto const c = mc::choose( unsigned( left.size( ) ) );
			keys.push_back( left[c] );
			left.erase( left.begin( ) + c );
		}
		every<N>( keys, universe );
	}
	template<std::size_t N>
	void subsets( int universe ) {
		std::vector<int> keys;
		for( int i = 0; i <= universe and keys.size( ) < N; ++i ) {
			if( std::size_t( universe - i + 1 ) == N - keys.size( ) or mc::choose( 2 ) ) keys.push_back( i );
		}
		if( keys.size( ) != N ) return;
		every<N>( keys, universe );
	}
	// larger tables: keys at regular distances, in three orders
	template<std::size_t N>
	void spaced( ) {
		int const step = mc::pick( { 1, 2, 3, 7, 10, 16, 33 } ), start = mc::pick( { 0, 1, 5, 100 } );
		int const order = mc::choose_range( 0, 2 );
		mode = mc::pick( { 0, 5, 6 } );
		// an unmixed hash that leaves most buckets empty makes the search for the
		// remaining ones exponential: not a promise of the table
		if( mode != 6 and step % 16 == 0 ) return;
		std::vector<int> keys;
		for( int i = 0; i < int( N ); ++i ) keys.push_back( start + step * ( order == 0 ? i : order == 1 ? int( N ) - 1 - i : ( i % 2 ? i / 2 : int( N ) - 1 - i / 2 ) ) );
		mc::note( "%zu keys from %d by %d", N, start, step );
		int const top = start + step * int( N );
		table<N, H64>( keys, top );
	}
} // namespace

MC_TEST( sixteen ) { spaced<16>( ); }
MC_TEST( fifty ) { spaced<50>( ); }
MC_TEST( one ) { ordered<1>( 20 ); }
MC_TEST( two ) { ordered<2>( 16 ); }
MC_TEST( three ) { ordered<3>( mc::by_tier( 12, 20 ) ); }
MC_TEST( four ) { ordered<4>( mc::by_tier( 8, 12 ) ); }
MC_TEST( five ) { ordered<5>( mc::by_tier( 6, 9 ) ); }
MC_TEST( five_sets ) { subsets<5>( mc::by_tier( 13, 20 ) ); }
MC_TEST( six ) { subsets<6>( mc::by_tier( 13, 18 ) ); }
MC_TEST( seven ) { subsets<7>( mc::by_tier( 12, 17 ) ); }
MC_TEST( eight ) { subsets<8>( mc::by_tier( 12, 16 ) ); }
MC_TEST( nine ) { subsets<9>( mc::by_tier( 13, 16 ) ); }
