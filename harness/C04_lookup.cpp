// Hash / ordered lookup containers: every history of insertions, lookups and
// erasures over small key alphabets and three hash functions (distinct homes,
// all colliding, clustered), against std::map / an insertion-ordered list.
#include "mc.h"
#include <algorithm>
#include <functional>
#include <iterator>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#include <daw/daw_hash_set.h>
#include <daw/deprecated/daw_bounded_hash_map.h>
#include <daw/deprecated/daw_bounded_hash_set.h>
#include <daw/deprecated/daw_fixed_lookup.h>
#include <daw/deprecated/daw_ordered_map.h>
#include <daw/static_hash_table.h>

namespace {
	int hash_mode = 0;
	struct Hash {
		constexpr std::size_t operator( )( int k ) const {
			switch( hash_mode ) {
			case 0: return std::size_t( k );
			case 1: return 7;
			case 2: return std::size_t( k / 2 );
			case 3: return std::size_t( k ) * 0x9e3779b97f4a7c15ULL;
			default: return ~std::size_t( k );
			}
		}
	};

	// Large tables: fill in an order, erase every e-th key, fill again until full
	// and beyond; the operations are those of the histories below.
	std::vector<int> script;
	int next_op( int arity, int d ) {
		return script.empty( ) ? int( mc::choose( unsigned( arity ) ) ) : script[std::size_t( d )];
	}
	int make_script( int cap, int keys, int insert2, int erase ) { // number of steps
		script.clear( );
		int const stride = mc::pick( { 1, 5, keys - 1 } );
		int const fill = mc::pick( { cap / 2, cap - 1, cap } );
		int const every = erase < 0 ? 0 : mc::pick( { 1, 2, 3 } );
		bool const backwards = erase < 0 ? false : bool( mc::choose( 2 ) );
		mc::note( "fill %d of %d, stride %d, erase every %d%s, fill again", fill, cap, stride, every, backwards ? " from the end" : "" );
		std::vector<int> in;
		for( int i = 0; i < fill; ++i ) in.push_back( i * stride % keys );
		auto const ins = [&]( int k, std::size_t i ) { return i % 2 ? insert2 + k : k; };
		for( std::size_t i = 0; i < in.size( ); ++i ) script.push_back( ins( in[i], i ) );
		if( every ) {
			if( backwards ) std::reverse( in.begin( ), in.end( ) );
			for( std::size_t i = 0; i < in.size( ); i += std::size_t( every ) ) script.push_back( erase + in[i] );
			script.push_back( erase + in[0] ); // absent by now
		}
		for( int i = keys; i-- > 0; ) script.push_back( ins( i, std::size_t( i / 2 ) ) );
		return int( script.size( ) );
	}

	void hash_set( std::size_t cap, int keys, int depth ) {
		hash_mode = mc::choose_range( 0, 4 );
		daw::hash_set_t<int, Hash> s( cap );
		std::map<int, std::size_t> m; // key -> position last reported
		for( int d = 0; d <= depth; ++d ) {
			auto const &c = s;
			MC_CHECK( c.size( ) == m.size( ), "set-size", "size %zu, expected %zu", c.size( ), m.size( ) );
			MC_CHECK( c.capacity( ) == cap, "set-capacity", "capacity %zu", c.capacity( ) );
			for( int k = 0; k <= keys; ++k ) {
				MC_CHECK( c.exists( k ) == ( m.count( k ) == 1 ), "set-exists", "exists(%d) is %d", k, c.exists( k ) );
				MC_CHECK( c.count( k ) == m.count( k ), "set-count", "count(%d) is %zu", k, c.count( k ) );
			}
			if( d == depth ) break;
			int const op = next_op( 2 * keys, d ), k = op % keys;
			mc::step( );
			if( op < keys ) {
				mc::note( "insert(%d)", k );
				bool threw = false;
				try {
					auto p = s.insert( k );
					MC_CHECK( p < cap, "set-insert", "insert returned position %zu", std::size_t( p ) );
				} catch( std::out_of_range const & ) { threw = true; }
				bool const expect = not m.count( k ) and m.size( ) == cap;
				MC_CHECK( threw == expect, "set-full", "insert(%d) into %zu of %zu %s", k, m.size( ), cap, threw ? "threw" : "did not throw" );
				if( not threw ) m[k] = 0;
			} else {
				mc::note( "erase(%d)", k );
				auto r = s.erase( k );
				MC_CHECK( r.has_value( ) == ( m.count( k ) == 1 ), "set-erase", "erase(%d) reported %s", k, r ? "present" : "absent" );
				m.erase( k );
			}
		}
	}

	template<typename It, typename Fn>
	void walk( It f, It l, std::size_t max, Fn fn ) {
		std::size_t n = 0;
		for( auto it = f; it != l; ++it ) {
			MC_CHECK( ++n <= max, "iteration-runaway", "iteration yields more than %zu elements", max );
			fn( *it );
		}
	}

	/// every pair of positions: all four comparisons, compare, arrow, steps in both directions
	template<typename S>
	void iterator_laws( S &s, std::size_t n ) {
		auto const &c = s;
		using It = decltype( s.begin( ) );
		using CIt = decltype( c.begin( ) );
		std::vector<It> a;
		std::vector<CIt> b;
		{
			auto i = s.begin( );
			auto j = c.begin( );
			for( std::size_t k = 0; k < n; ++k ) {
				auto oi = k % 2 ? i++ : ( ++i, a.empty( ) ? s.begin( ) : std::next( It( a.back( ) ) ) );
				auto oj = k % 2 ? ( ++j, std::next( CIt( b.back( ) ) ) ) : j++;
				MC_CHECK( std::addressof( *oi ) == std::addressof( *oj ) and oi.operator->( ) == oj.operator->( ) and std::as_const( oi ).operator->( ) == oj.operator->( ) and std::addressof( *oi ) == oi.operator->( ) and std::addressof( *std::as_const( oi ) ) == oj.operator->( ), "bounded-iterator-steps", "iterator %zu of the two kinds refer to different elements", k );
				a.push_back( oi );
				b.push_back( oj );
			}
			MC_CHECK( i == s.end( ) and j == c.end( ) and j == c.cend( ), "bounded-iterator-steps", "%zu steps do not reach the end", n );
			a.push_back( i );
			b.push_back( j );
		}
		for( std::size_t x = 0; x <= n; ++x ) {
			for( std::size_t y = 0; y <= n; ++y ) {
				bool const e = x == y;
				It const &ax = a[x], &ay = a[y];
				CIt const &bx = b[x], &by = b[y];
				CIt const conv = ax;
				MC_CHECK( ( ax == ay ) == e and ( bx == by ) == e and ( ax == by ) == e and ( bx == ay ) == e and ( conv == by ) == e, "bounded-iterator-equal", "iterators %zu and %zu of %zu", x, y, n );
				MC_CHECK( ( ax != ay ) != e and ( bx != by ) != e and ( ax != by ) != e and ( bx != ay ) != e, "bounded-iterator-equal", "iterators %zu and %zu of %zu (not equal)", x, y, n );
				auto const sgn = []( int v ) { return v < 0 ? -1 : v > 0 ? 1 : 0; };
				int const want = x < y ? -1 : x > y ? 1 : 0;
				MC_CHECK( sgn( ax.compare( ay ) ) == want and sgn( bx.compare( by ) ) == want and sgn( ax.compare( by ) ) == want and sgn( bx.compare( ay ) ) == want, "bounded-iterator-order", "compare of iterators %zu and %zu of %zu", x, y, n );
			}
		}
		auto j = c.end( );
		for( std::size_t k = n; k-- > 0; ) {
			if( k % 2 ) j--; else --j;
			MC_CHECK( j == b[k], "bounded-iterator-back", "walking the const iterator back to %zu", k );
		}
	}

	template<std::size_t N>
	void bounded_set( int keys, int depth ) {
		hash_mode = mc::choose_range( 0, 4 );
		using S = daw::bounded_hash_set_t<int, N, Hash>;
		S s{ };
		std::set<int> m;
		for( int d = 0; d <= depth; ++d ) {
			auto const &c = s;
			MC_CHECK( c.size( ) == m.size( ), "bset-size", "size %zu, expected %zu", c.size( ), m.size( ) );
			MC_CHECK( bool( c.empty( ) ) == m.empty( ), "bset-empty", "empty" );
			MC_CHECK( c.capacity( ) == N, "bset-capacity", "capacity" );
			for( int k = 0; k <= keys; ++k ) {
				bool const in = m.count( k );
				MC_CHECK( c.exists( k ) == in and bool( c.count( k ) ) == in, "bset-exists", "exists(%d) is %d", k, c.exists( k ) );
				auto it = s.find( k );
				auto cit = c.find( k );
				MC_CHECK( ( it != s.end( ) ) == in and ( cit != c.end( ) ) == in, "bset-find", "find(%d) reports %d", k, it != s.end( ) );
				if( in ) MC_CHECK( *it == k and *cit == k, "bset-find", "find(%d) yields %d", k, *it );
			}
			for( int w = 0; w < 4; ++w ) {
				std::multiset<int> seen;
				auto ins = [&]( int const &k ) { seen.insert( k ); };
				if( w == 0 ) walk( s.begin( ), s.end( ), N, ins );
				if( w == 1 ) walk( c.begin( ), c.end( ), N, ins );
				if( w == 2 ) walk( c.cbegin( ), c.cend( ), N, ins );
				if( w == 3 and not m.empty( ) ) { // backwards
					std::vector<int> fwd, back;
					walk( s.begin( ), s.end( ), N, [&]( int const &k ) { fwd.push_back( k ); } );
					auto it = s.end( );
					for( std::size_t i = 0; i < fwd.size( ); ++i ) {
						if( i % 2 ) it--; else --it;
						back.push_back( *it );
					}
					MC_CHECK( it == s.begin( ), "bset-reverse", "walking back does not reach begin" );
					std::reverse( back.begin( ), back.end( ) );
					MC_CHECK( back == fwd, "bset-reverse", "backward walk differs" );
				}
				if( w < 3 ) MC_CHECK( std::equal( seen.begin( ), seen.end( ), m.begin( ), m.end( ) ), "bset-iteration", "iteration %d yields %zu elements, expected %zu", w, seen.size( ), m.size( ) );
			}
			if( d == depth ) iterator_laws( s, m.size( ) );
			if( d == depth ) break;
			int const op = next_op( 2 * keys, d );
			int k = op % keys;
			mc::step( );
			if( op < keys ) {
				bool const full = not m.count( k ) and m.size( ) == N;
				mc::note( "insert(%d)%s", k, full ? " into full" : "" );
				if( full ) {
					MC_CHECK( mc::aborts( [&] { (void)s.insert( k ); } ), "bset-full", "insert into a full set was not reported" );
				} else {
					auto it = k % 2 ? s.insert( std::as_const( k ) ) : s.insert( int( k ) );
					MC_CHECK( *it == k, "bset-insert", "insert(%d) returned an iterator to %d", k, *it );
					m.insert( k );
				}
			} else {
				mc::note( "erase(%d)", k );
				auto r = s.erase( k );
				MC_CHECK( r.has_value( ) == ( m.count( k ) == 1 ), "bset-erase", "erase(%d) reported %s", k, r ? "present" : "absent" );
				m.erase( k );
			}
		}
	}

	template<std::size_t N>
	void bounded_map( int keys, int depth ) {
		hash_mode = mc::choose_range( 0, 4 );
		using S = daw::bounded_hash_map<int, int, N, Hash>;
		S s{ };
		std::map<int, int> m;
		int next = 100;
		for( int d = 0; d <= depth; ++d ) {
			auto const &c = s;
			MC_CHECK( c.size( ) == m.size( ), "bmap-size", "size %zu, expected %zu", c.size( ), m.size( ) );
			MC_CHECK( bool( c.empty( ) ) == m.empty( ), "bmap-empty", "empty" );
			for( int k = 0; k <= keys; ++k ) {
				bool const in = m.count( k );
				MC_CHECK( c.exists( k ) == in and ( c.count( k ) == 1 ) == in, "bmap-exists", "exists(%d) is %d", k, c.exists( k ) );
				auto it = s.find( k );
				auto cit = c.find( k );
				MC_CHECK( ( it != s.end( ) ) == in and ( cit != c.end( ) ) == in, "bmap-find", "find(%d) reports %d", k, it != s.end( ) );
				auto g = c.try_get( k );
				MC_CHECK( g.has_value( ) == in, "bmap-try_get", "try_get(%d) reports %d", k, g.has_value( ) );
				if( in ) {
					int const v = m[k];
					MC_CHECK( it->key == k and it->value == v and ( *cit ).value == v and *g == v and c[k] == v and s[k] == v, "bmap-value", "value of %d is %d, expected %d", k, it->value, v );
				}
			}
			MC_CHECK( m.count( keys ) == 0 and mc::aborts( [&] { (void)c[keys]; } ), "bmap-const-index", "const lookup of an absent key was not reported" );
			for( int w = 0; w < 3; ++w ) {
				std::multimap<int, int> seen;
				auto ins = [&]( auto const &kv ) { seen.emplace( kv.key, kv.value ); };
				if( w == 0 ) walk( s.begin( ), s.end( ), N, ins );
				if( w == 1 ) walk( c.begin( ), c.end( ), N, ins );
				if( w == 2 ) walk( c.cbegin( ), c.cend( ), N, ins );
				MC_CHECK( std::equal( seen.begin( ), seen.end( ), m.begin( ), m.end( ), []( auto const &x, auto const &y ) { return x.first == y.first and x.second == y.second; } ), "bmap-iteration", "iteration %d yields %zu elements, expected %zu", w, seen.size( ), m.size( ) );
			}
			{
				auto it = s.end( );
				for( std::size_t i = 0; i < m.size( ); ++i ) {
					if( i % 2 ) it--; else --it;
					MC_CHECK( m.count( it->key ), "bmap-reverse", "walking back meets %d", it->key );
				}
				MC_CHECK( it == s.begin( ), "bmap-reverse", "walking back does not reach begin" );
			}
			if( d == depth ) iterator_laws( s, m.size( ) );
			if( d == depth ) break;
			int const op = next_op( 3 * keys, d );
			int k = op % keys;
			mc::step( );
			bool const full = not m.count( k ) and m.size( ) == N;
			if( op < keys ) {
				int const v = next++;
				mc::note( "insert(%d)%s", k, full ? " into full" : "" );
				if( full ) {
					MC_CHECK( mc::aborts( [&] { s.insert( k, v ); } ), "bmap-full", "insert into a full map was not reported" );
					MC_CHECK( mc::aborts( [&] { s.insert( std::pair<int const, int>( k, v ) ); } ), "bmap-full", "insert of a pair into a full map was not reported" );
				} else {
					if( k % 2 ) s.insert( k, v );
					else s.insert( std::pair<int const, int>( k, v ) );
					m[k] = v;
				}
			} else if( op < 2 * keys ) {
				mc::note( "[%d]%s", k, full ? " full" : "" );
				if( full ) {
					MC_CHECK( mc::aborts( [&] { (void)s[k]; } ), "bmap-full", "indexing a full map was not reported" );
					MC_CHECK( mc::aborts( [&] { (void)s[int( k )]; } ), "bmap-full", "indexing a full map was not reported" );
				} else {
					int &r = k % 2 ? s[k] : s[int( k )];
					MC_CHECK( r == m[k], "bmap-index", "[%d] yields %d, expected %d", k, r, m[k] );
					if( d % 2 ) r = m[k] = next++;
				}
			} else {
				mc::note( "erase(%d)", k );
				s.erase( k );
				m.erase( k );
			}
		}
	}
	std::uint64_t fhash( std::size_t r ) { return r; }

	template<std::size_t N>
	void fixed( int keys, int depth ) {
		daw::fixed_lookup<int, N> *sp;
		alignas( daw::fixed_lookup<int, N> ) unsigned char mem[sizeof( daw::fixed_lookup<int, N> )];
		std::memset( mem, 0x5a, sizeof mem );
		sp = new( mem ) daw::fixed_lookup<int, N>;
		auto &s = *sp;
		std::map<int, std::pair<int, std::uint64_t>> m;
		int next = 100;
		for( int d = 0; d <= depth; ++d ) {
			auto const &c = s;
			MC_CHECK( c.size( ) == m.size( ), "fixed-size", "size %zu, expected %zu", std::size_t( c.size( ) ), m.size( ) );
			MC_CHECK( c.capacity( ) == N, "fixed-capacity", "capacity" );
			for( int k = 0; k <= keys; ++k ) {
				bool const in = m.count( k );
				MC_CHECK( c.exists( k ) == in, "fixed-exists", "exists(%d) is %d", k, c.exists( k ) );
				bool threw = false;
				try {
					auto const p = c.find_existing( k );
					if( in ) MC_CHECK( p == m[k].second and c.get_existing( p ) == m[k].first and s.get_existing( p ) == m[k].first and c[k] == m[k].first, "fixed-value", "value of %d is %d, expected %d", k, c.get_existing( p ), m[k].first );
				} catch( std::exception const & ) { threw = true; }
				MC_CHECK( threw == not in, "fixed-absent", "find_existing(%d) %s", k, threw ? "threw" : "did not throw" );
			}
			if( d == depth ) break;
			int const op = next_op( 2 * keys, d );
			int const k = op % keys;
			mc::step( );
			bool const full = not m.count( k ) and m.size( ) == N;
			bool threw = false;
			if( op < keys ) {
				mc::note( "insert(%d)", k );
				int const v = next++;
				try {
					auto const p = s.insert( k, v );
					m[k] = { v, fhash( p ) };
				} catch( std::exception const & ) { threw = true; }
			} else {
				mc::note( "[%d]=", k );
				try {
					int &r = s[k];
					if( m.count( k ) ) MC_CHECK( r == m[k].first, "fixed-index", "[%d] yields %d", k, r );
					r = next++;
					m[k] = { r, s.find_existing( k ) };
				} catch( std::exception const & ) { threw = true; }
			}
			MC_CHECK( threw == full, "fixed-full", "insertion into %zu of %zu %s", m.size( ), N, threw ? "threw" : "did not throw" );
		}
	}

	template<std::size_t N>
	void static_hash( int keys, int depth ) {
		static char const *const names[] = { "", "a", "b", "ab", "ba", "abc", "key" };
		bool const str = script.empty( ) and mc::choose( 2 );
		daw::static_hash_t<int, N> s{ };
		std::map<int, int> m;
		int next = 100;
		auto at = [&]( int k ) -> int & { return str ? s[names[k]] : s[k]; };
		auto cat = [&]( int k ) -> int const & { return str ? std::as_const( s )[names[k]] : std::as_const( s )[k]; };
		for( int d = 0; d <= depth; ++d ) {
			std::set<std::size_t> pos;
			for( auto &[k, v] : m ) {
				MC_CHECK( cat( k ) == v, "static-value", "value of %d is %d, expected %d", k, cat( k ), v );
				pos.insert( str ? s.find( names[k] ) : s.find( k ) );
			}
			MC_CHECK( pos.size( ) == m.size( ) and ( pos.empty( ) or *pos.rbegin( ) < N ), "static-positions", "positions are shared or out of range" );
			for( int k = 0; k <= keys; ++k )
				if( not m.count( k ) ) {
					std::size_t const p = str ? s.find( names[k] ) : s.find( k );
					MC_CHECK( not pos.count( p ), "static-absent", "absent key %d found at an occupied position", k );
					MC_CHECK( ( p >= N ) == ( m.size( ) == N ), "static-absent", "absent key %d at %zu with %zu of %zu", k, p, m.size( ), N );
				}
			if( d == depth ) break;
			int const k = next_op( keys, d );
			mc::step( );
			mc::note( "[%d]=", k );
			bool threw = false;
			bool const full = not m.count( k ) and m.size( ) == N;
			try {
				int &r = at( k );
				MC_CHECK( not full, "static-full", "insertion into a full table was not reported" );
				MC_CHECK( r == m[k], "static-index", "[%d] yields %d, expected %d", k, r, m[k] );
				m[k] = r = next++;
			} catch( std::out_of_range const & ) { threw = true; }
			MC_CHECK( threw == full, "static-full", "insertion into %zu of %zu %s", m.size( ), N, threw ? "threw" : "did not throw" );
		}
	}

	void ordered( int keys, int depth ) {
		using S = daw::ordered_map<int, int>;
		std::vector<std::pair<int, int>> m;
		auto mfind = [&]( int k ) { return std::find_if( m.begin( ), m.end( ), [&]( auto &p ) { return p.first == k; } ); };
		S s;
		int next = 100;
		int const ctor = script.empty( ) ? int( mc::choose( 4 ) ) : 0;
		if( ctor ) {
			int const n = mc::choose_range( 0, 3 );
			std::vector<std::pair<int const, int>> src;
			for( int i = 0; i < n; ++i ) src.emplace_back( mc::choose_range( 0, 2 ), next++ );
			for( auto &p : src )
				if( mfind( p.first ) == m.end( ) ) m.emplace_back( p.first, p.second );
			if( ctor == 1 ) s = S( src.begin( ), src.end( ), std::allocator<std::pair<int, int>>{ } );
			if( ctor == 2 ) s = S( src.begin( ), src.end( ), std::less<int>{ } );
			if( ctor == 3 ) {
				if( n == 0 ) s = S( std::initializer_list<std::pair<int const, int>>{ }, std::allocator<std::pair<int, int>>{ } );
				if( n == 1 ) s = S( { src[0] }, std::allocator<std::pair<int, int>>{ } );
				if( n == 2 ) s = S( { src[0], src[1] }, std::allocator<std::pair<int, int>>{ } );
				if( n == 3 ) s = S( { src[0], src[1], src[2] }, std::less<int>{ }, std::allocator<std::pair<int, int>>{ } );
			}
		}
		for( int d = 0; d <= depth; ++d ) {
			auto const &c = s;
			MC_CHECK( c.size( ) == m.size( ) and c.empty( ) == m.empty( ), "omap-size", "size %zu, expected %zu", c.size( ), m.size( ) );
			MC_CHECK( std::equal( s.begin( ), s.end( ), m.begin( ), m.end( ) ) and std::equal( c.begin( ), c.end( ), m.begin( ), m.end( ) ) and std::equal( c.cbegin( ), c.cend( ), m.begin( ), m.end( ) ), "omap-iteration", "order differs" );
			MC_CHECK( std::equal( s.rbegin( ), s.rend( ), m.rbegin( ), m.rend( ) ) and std::equal( c.rbegin( ), c.rend( ), m.rbegin( ), m.rend( ) ) and std::equal( c.crbegin( ), c.crend( ), m.rbegin( ), m.rend( ) ), "omap-reverse", "reverse order differs" );
			if( not m.empty( ) ) MC_CHECK( s.front( ) == m.front( ) and c.front( ) == m.front( ) and s.back( ) == m.back( ) and c.back( ) == m.back( ), "omap-ends", "front/back" );
			for( int k = 0; k <= keys; ++k ) {
				auto it = mfind( k );
				bool const in = it != m.end( );
				MC_CHECK( ( s.find( k ) != s.end( ) ) == in and ( c.find( k ) != c.end( ) ) == in, "omap-find", "find(%d)", k );
				for( int w = 0; w < 2; ++w ) {
					bool threw = false;
					try {
						int const v = w ? c.at( k ) : s.at( k );
						if( in ) MC_CHECK( v == it->second and s.find( k )->second == v, "omap-at", "at(%d) is %d", k, v );
					} catch( std::out_of_range const & ) { threw = true; }
					MC_CHECK( threw == not in, "omap-at", "at(%d) %s", k, threw ? "threw" : "did not throw" );
				}
			}
			if( d == depth ) break;
			int const op = next_op( 3 * keys + 1, d ), k = op % keys;
			mc::step( );
			auto it = mfind( k );
			if( op == 3 * keys ) {
				mc::note( "clear" );
				s.clear( );
				m.clear( );
			} else if( op < 2 * keys ) {
				mc::note( "insert(%d)", k );
				int const v = next++;
				std::pair<int const, int> const p( k, v );
				auto r = op < keys ? s.insert( p ) : s.insert( std::pair<int, int>( k, v ) );
				bool const fresh = it == m.end( );
				if( fresh ) m.emplace_back( k, v );
				MC_CHECK( r.second == fresh and r.first->first == k and r.first->second == mfind( k )->second, "omap-insert", "insert(%d) reported %d", k, r.second );
			} else {
				mc::note( "[%d]=", k );
				int &r = s[k];
				if( it == m.end( ) ) {
					m.emplace_back( k, 0 );
					it = m.end( ) - 1;
				}
				MC_CHECK( r == it->second, "omap-index", "[%d] yields %d", k, r );
				it->second = r = next++;
			}
		}
	}
} // namespace

MC_TEST( hash_set_1 ) { script.clear( ); hash_set( 1, 2, mc::by_tier( 5, 8 ) ); }
MC_TEST( hash_set_3 ) { script.clear( ); hash_set( 3, 4, mc::by_tier( 5, 6 ) ); }
MC_TEST( hash_set_4 ) { script.clear( ); hash_set( 4, 5, mc::by_tier( 4, 6 ) ); }
MC_TEST( hash_set_5 ) { script.clear( ); hash_set( 5, 3, mc::by_tier( 5, 7 ) ); }
MC_TEST( hash_set_0 ) {
	daw::hash_set_t<int, Hash> s( 0 );
	MC_CHECK( not s.exists( 1 ) and s.size( ) == 0 and not s.erase( 1 ), "set-zero", "a set without room is not empty" );
}
MC_TEST( bounded_set_1 ) { script.clear( ); bounded_set<1>( 2, mc::by_tier( 5, 8 ) ); }
MC_TEST( bounded_set_3 ) { script.clear( ); bounded_set<3>( 4, mc::by_tier( 5, 6 ) ); }
MC_TEST( bounded_set_4 ) { script.clear( ); bounded_set<4>( 5, mc::by_tier( 4, 6 ) ); }
MC_TEST( bounded_map_1 ) { script.clear( ); bounded_map<1>( 2, mc::by_tier( 4, 6 ) ); }
MC_TEST( bounded_map_3 ) { script.clear( ); bounded_map<3>( 4, mc::by_tier( 4, 5 ) ); }
MC_TEST( bounded_map_4 ) { script.clear( ); bounded_map<4>( 3, mc::by_tier( 5, 6 ) ); }
MC_TEST( bounded_map_4_5 ) { script.clear( ); bounded_map<4>( 5, mc::by_tier( 4, 5 ) ); }
MC_TEST( bounded_map_build ) {
	hash_mode = mc::choose_range( 0, 4 );
	std::pair<int, int> src[3];
	std::map<int, int> m;
	for( int i = 0; i < 3; ++i ) {
		src[i] = { mc::choose_range( 0, 2 ), 100 + i };
		m[src[i].first] = 100 + i;
	}
	daw::bounded_hash_map<int, int, 4, Hash> const s( src );
	std::vector<std::pair<int const, int>> v( src, src + 3 );
	daw::bounded_hash_map<int, int, 4, Hash> const s2( v.begin( ), v.end( ) );
	for( auto &[k, x] : m ) MC_CHECK( s[k] == x and s2[k] == x, "bmap-build", "value of %d is %d", k, s[k] );
	MC_CHECK( s.size( ) == m.size( ) and s2.size( ) == m.size( ), "bmap-build", "size %zu", s.size( ) );
	int keys[3] = { src[0].first, src[1].first, src[2].first };
	auto bs = daw::make_bounded_hash_set<int, Hash>( keys );
	MC_CHECK( bs.size( ) == m.size( ), "bset-build", "size %zu", bs.size( ) );
	for( int k = 0; k < 4; ++k ) MC_CHECK( bs.exists( k ) == ( m.count( k ) == 1 ), "bset-build", "exists(%d)", k );
}
MC_TEST( fixed_lookup_1 ) { script.clear( ); fixed<1>( 2, mc::by_tier( 4, 6 ) ); }
MC_TEST( fixed_lookup_3 ) { script.clear( ); fixed<3>( 4, mc::by_tier( 5, 6 ) ); }
MC_TEST( fixed_lookup_7 ) { script.clear( ); fixed<7>( 9, mc::by_tier( 3, 5 ) ); }
MC_TEST( static_hash_2 ) { script.clear( ); static_hash<2>( 4, mc::by_tier( 5, 7 ) ); }
MC_TEST( static_hash_5 ) { script.clear( ); static_hash<5>( 6, mc::by_tier( 6, 7 ) ); }
MC_TEST( static_hash_init ) {
	daw::static_hash_t<int, 3> const a = { { "x", 1 }, { "y", 2 }, { "x", 3 } };
	MC_CHECK( a["x"] == 3 and a["y"] == 2, "static-init", "initializer values" );
	bool threw = false;
	try {
		daw::static_hash_t<int, 2> const b = { { "x", 1 }, { "y", 2 }, { "z", 3 } };
		(void)b;
	} catch( std::out_of_range const & ) { threw = true; }
	MC_CHECK( threw, "static-full", "overfull initializer was not reported" );
}
MC_TEST( ordered_map ) { script.clear( ); ordered( 3, mc::by_tier( 3, 4 ) ); }

MC_TEST( hash_set_large ) {
	int const cap = mc::pick( { 16, 31, 64 } ), keys = cap == 16 ? 23 : cap == 31 ? 37 : 71;
	hash_set( std::size_t( cap ), keys, make_script( cap, keys, 0, keys ) );
}
MC_TEST( bounded_set_large ) { bounded_set<31>( 37, make_script( 31, 37, 0, 37 ) ); }
MC_TEST( bounded_map_large ) { bounded_map<31>( 37, make_script( 31, 37, 37, 74 ) ); }
MC_TEST( fixed_lookup_large ) { fixed<31>( 37, make_script( 31, 37, 37, -1 ) ); }
MC_TEST( static_hash_large ) { static_hash<31>( 37, make_script( 31, 37, 0, -1 ) ); }
MC_TEST( ordered_map_large ) { ordered( 37, make_script( 31, 37, 74, -1 ) ); }
