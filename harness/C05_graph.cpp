// graph_t: every edit history up to a depth against an adjacency-matrix model,
// and every directed graph on up to 4 nodes (with self loops up to 3) through
// every walk, sort and spanning-tree routine.
#include "mc.h"
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include <daw/daw_graph.h>
#include <daw/daw_graph_algorithm.h>

namespace {
	using G = daw::graph_t<int>;
	using Id = daw::node_id_t;

	struct Model {
		std::map<int, int> value;       // index -> value
		std::set<std::pair<int, int>> e; // directed edges
	};

	void check( G &g, Model const &m, std::vector<Id> const &ids, char const *op ) {
		G const &c = g;
		MC_CHECK( g.size( ) == m.value.size( ) and g.empty( ) == m.value.empty( ), "graph-size", "after %s: size %zu, expected %zu", op, g.size( ), m.value.size( ) );
		for( int i = 0; i < int( ids.size( ) ); ++i ) {
			bool const in = m.value.count( i );
			MC_CHECK( c.has_node( ids[i] ) == in, "graph-has_node", "after %s: has_node(%d) is %d", op, i, c.has_node( ids[i] ) );
			if( not in ) continue;
			auto n = g.get_node( ids[i] );
			auto cn = c.get_node( ids[i] );
			MC_CHECK( n.value( ) == m.value.at( i ) and cn.value( ) == m.value.at( i ) and g.get_raw_node( ids[i] ).value( ) == m.value.at( i ) and n.id( ) == ids[i] and n.graph( ) == &g and n and not n.empty( ), "graph-value", "after %s: value of node %d is %d, expected %d", op, i, n.value( ), m.value.at( i ) );
			std::size_t outs = 0, ins = 0;
			for( int j = 0; j < int( ids.size( ) ); ++j ) {
				bool const out = m.e.count( { i, j } ), inc = m.e.count( { j, i } );
				outs += out;
				ins += inc;
				MC_CHECK( ( n.outgoing_edges( ).count( ids[j] ) == 1 ) == out and ( cn.outgoing_edges( ).count( ids[j] ) == 1 ) == out, "graph-outgoing", "after %s: edge %d->%d seen from %d: %zu, expected %d", op, i, j, i, n.outgoing_edges( ).count( ids[j] ), out );
				MC_CHECK( ( n.incoming_edges( ).count( ids[j] ) == 1 ) == inc and ( cn.incoming_edges( ).count( ids[j] ) == 1 ) == inc, "graph-incoming", "after %s: edge %d->%d seen from %d: %zu, expected %d", op, j, i, i, n.incoming_edges( ).count( ids[j] ), inc );
			}
			MC_CHECK( n.outgoing_edges( ).size( ) == outs and n.incoming_edges( ).size( ) == ins, "graph-dangling", "after %s: node %d has edges to nodes that do not exist", op, i );
		}
		auto idset = []( std::vector<Id> v ) {
			std::sort( v.begin( ), v.end( ) );
			return v;
		};
		std::vector<Id> roots, leaves, all, ones;
		for( auto &[i, v] : m.value ) {
			all.push_back( ids[i] );
			if( v == 1 ) ones.push_back( ids[i] );
			if( std::none_of( m.e.begin( ), m.e.end( ), [&]( auto &p ) { return p.second == i; } ) ) roots.push_back( ids[i] );
			if( std::none_of( m.e.begin( ), m.e.end( ), [&]( auto &p ) { return p.first == i; } ) ) leaves.push_back( ids[i] );
		}
		MC_CHECK( idset( c.find_roots( ) ) == idset( roots ) and idset( c.find_leaves( ) ) == idset( leaves ), "graph-roots", "after %s: %zu roots %zu leaves, expected %zu %zu", op, c.find_roots( ).size( ), c.find_leaves( ).size( ), roots.size( ), leaves.size( ) );
		MC_CHECK( idset( c.find_by_value( 1 ) ) == idset( ones ), "graph-find_by_value", "after %s", op );
		std::vector<Id> v1, v2, v3;
		g.visit( [&]( auto const &n ) { v1.push_back( n.id( ) ); } );
		c.visit( [&]( auto const &n ) { v2.push_back( n.id( ) ); } );
		g.visit( []( auto const &n ) { return n.value( ) == 1; }, [&]( auto const &n ) { v3.push_back( n.id( ) ); } );
		MC_CHECK( idset( v1 ) == idset( all ) and idset( v2 ) == idset( all ) and idset( v3 ) == idset( ones ), "graph-visit", "after %s: visited %zu of %zu", op, v1.size( ), all.size( ) );
	}

	void history( int depth, int max_nodes ) {
		G g;
		Model m;
		std::vector<Id> ids;
		auto const step = [&]( ) -> bool {
			std::vector<int> live;
			for( auto &[i, v] : m.value ) live.push_back( i );
			int const op = mc::choose( live.empty( ) ? 2 : 7 );
			int a = 0, b = 0;
			char const *name = "";
			if( op >= 2 ) a = mc::pick( live );
			if( op >= 3 ) b = mc::pick( live );
			switch( op ) {
			case 0:
			case 1:
				if( int( ids.size( ) ) == max_nodes ) return false;
				name = "add_node";
				m.value[int( ids.size( ) )] = op;
				ids.push_back( g.add_node( op ) );
				for( std::size_t i = 0; i + 1 < ids.size( ); ++i ) MC_CHECK( ids[i] != ids.back( ), "graph-id", "an id is handed out twice" );
				break;
			case 2:
				name = "remove_node";
				g.remove_node( ids[a] );
				m.value.erase( a );
				std::erase_if( m.e, [&]( auto &p ) { return p.first == a or p.second == a; } );
				break;
			case 3: name = "add_directed_edge"; g.add_directed_edge( ids[a], ids[b] ); m.e.insert( { a, b } ); break;
			case 4: name = "add_undirected_edge"; g.add_undirected_edge( ids[a], ids[b] ); m.e.insert( { a, b } ); m.e.insert( { b, a } ); break;
			case 5: name = "remove_directed_edge"; g.remove_directed_edge( ids[a], ids[b] ); m.e.erase( { a, b } ); break;
			case 6: name = "remove_edges"; g.remove_edges( ids[a], ids[b] ); m.e.erase( { a, b } ); m.e.erase( { b, a } ); break;
			}
			mc::note( "%s(%d,%d)", name, a, b );
			mc::step( );
			check( g, m, ids, name );
			return true;
		};
		if( depth == 0 ) { // every word of four operations, repeated
			mc::lasso( 4, 16, step, [&] { max_nodes = 14; } );
			return;
		}
		for( int d = 0; d < depth; ++d ) {
			std::uint64_t h = ids.size( );
			for( auto &[i, v] : m.value ) h = mc::mix( h, i * 8 + v );
			for( auto &[a, b] : m.e ) h = mc::mix( h, 1000 + a * 16 + b );
			if( not mc::enter_state( h, depth - d ) ) return;
			if( not step( ) ) return;
		}
	}

	// larger graphs of regular shapes
	enum Shape { AnyShape, Path, Back, Cycle, StarOut, StarIn, Tree, Parents, Grid, Ladder, Pieces, Loops, Steps, Dense, NShapes };
	bool edge( int shape, int n, int i, int j ) {
		switch( shape ) {
		case Path: return j == i + 1;
		case Back: return j == i - 1;
		case Cycle: return j == ( i + 1 ) % n;
		case StarOut: return i == 0 and j != 0;
		case StarIn: return i != 0 and j == 0;
		case Tree: return j == 2 * i + 1 or j == 2 * i + 2;
		case Parents: return i == 2 * j + 1 or i == 2 * j + 2;
		case Grid: return ( j == i + 1 and j % 4 != 0 ) or j == i + 4;
		case Ladder: return j == i + 1 or j == i + 2;
		case Pieces: return j == i + 1 and j % 3 != 0;
		case Loops: return ( j == i + 1 and j % 4 != 0 ) or ( i % 4 == 3 and j == i - 3 );
		case Steps: return j == ( i * 3 + 1 ) % n;
		default: return i < j;
		}
	}
	int large_shape = AnyShape;
	int shape( bool dense ) {
		large_shape = mc::choose_range( 1, NShapes - ( dense ? 1 : 2 ) );
		return mc::pick( large_shape == Grid or large_shape == Ladder ? std::initializer_list<int>{ 6, 9, 12 } : std::initializer_list<int>{ 6, 13, 24 } );
	}
	std::vector<int> values( int n, int how ) {
		std::vector<int> v;
		for( int i = 0; i < n; ++i ) v.push_back( 10 * ( how == 0 ? i : how == 1 ? n - i : ( i * 7 + 3 ) % n ) + ( how == 2 and n % 7 == 0 ? i : 0 ) );
		return v;
	}
	// every directed graph on n nodes
	struct Given {
		int n;
		bool e[32][32] = { };
		G g;
		std::vector<Id> ids;
		std::vector<int> val;
		Given( int n_, bool self, std::vector<int> values )
		  : n( n_ )
		  , val( values ) {
			for( int i = 0; i < n; ++i ) ids.push_back( g.add_node( val[i] ) );
			std::string s;
			for( int i = 0; i < n; ++i )
				for( int j = 0; j < n; ++j )
					if( large_shape ? edge( large_shape, n, i, j ) : ( self or i != j ) and mc::choose( 2 ) ) {
						e[i][j] = true;
						g.add_directed_edge( ids[i], ids[j] );
						s += mc::strf( "%d->%d ", i, j );
					}
			mc::note( "nodes %d edges %s", n, s.c_str( ) );
		}
		int index( Id id ) const {
			for( int i = 0; i < n; ++i )
				if( ids[i] == id ) return i;
			mc::fail( "walk-unknown-node", "a walk met a node that does not exist" );
		}
		std::vector<int> dist( int s ) const {
			std::vector<int> d( n, -1 );
			std::vector<int> q{ s };
			d[s] = 0;
			for( std::size_t k = 0; k < q.size( ); ++k )
				for( int j = 0; j < n; ++j )
					if( e[q[k]][j] and d[j] < 0 ) {
						d[j] = d[q[k]] + 1;
						q.push_back( j );
					}
			return d;
		}
	};
	std::string show( std::vector<int> const &v ) {
		std::string s;
		for( int x : v ) s += mc::strf( "%d ", x );
		return s;
	}

	void walks( int n, bool self ) {
		std::vector<int> const perms[] = { { 10, 20, 30, 40, 50 }, { 50, 40, 30, 20, 10 }, { 20, 50, 10, 40, 30 } };
		int const how = mc::choose( 3 );
		Given x( n, self, large_shape ? values( n, how ) : perms[how] );
		G const &cg = x.g;
		for( int s = 0; s < n; ++s ) {
			auto const dist = x.dist( s );
			// expected orders
			std::vector<int> bfs, dfs;
			auto sorted_children = [&]( int i ) {
				std::vector<int> c;
				for( int j = 0; j < n; ++j )
					if( x.e[i][j] ) c.push_back( j );
				std::sort( c.begin( ), c.end( ), [&]( int p, int q ) { return x.val[p] < x.val[q]; } );
				return c;
			};
			{
				std::vector<bool> seen( n );
				bfs.push_back( s );
				seen[s] = true;
				for( std::size_t k = 0; k < bfs.size( ); ++k )
					for( int j : sorted_children( bfs[k] ) )
						if( not seen[j] ) {
							seen[j] = true;
							bfs.push_back( j );
						}
				std::vector<bool> seen2( n );
				auto rec = [&]( auto &self_, int i ) -> void {
					seen2[i] = true;
					dfs.push_back( i );
					for( int j : sorted_children( i ) )
						if( not seen2[j] ) self_( self_, j );
				};
				rec( rec, s );
			}
			for( int cst = 0; cst < 2; ++cst ) {
				std::vector<int> ob, od, ub, ud;
				auto into = [&]( std::vector<int> &v ) {
					return [&]( auto const &node ) {
						int const i = x.index( node.id( ) );
						MC_CHECK( node.value( ) == x.val[i], "walk-value", "node %d carries %d", i, node.value( ) );
						v.push_back( i );
						MC_CHECK( int( v.size( ) ) <= 65536, "walk-runaway", "the walk does not stop" );
					};
				};
				if( cst ) {
					daw::bfs_walk( cg, x.ids[s], into( ob ), std::less<int>{ } );
					daw::dfs_walk( cg, x.ids[s], into( od ), std::less<int>{ } );
					daw::bfs_walk( cg, x.ids[s], into( ub ) );
					daw::dfs_walk( cg, x.ids[s], into( ud ) );
				} else {
					daw::bfs_walk( x.g, x.ids[s], into( ob ), std::less<int>{ } );
					daw::dfs_walk( x.g, x.ids[s], into( od ), std::less<int>{ } );
					daw::bfs_walk( x.g, x.ids[s], into( ub ) );
					daw::dfs_walk( x.g, x.ids[s], into( ud ) );
				}
				// a node reached over several edges may be reported once per edge of a
				// reported parent (the repository's tests pin that); its first report counts
				auto firsts = [&]( std::vector<int> &v ) {
					std::vector<int> r, times( n );
					for( int i : v ) if( ++times[i] == 1 ) r.push_back( i );
					for( int i = 0; i < n; ++i ) {
						int most = i == s;
						for( int j = 0; j < n; ++j ) if( x.e[j][i] ) most += times[j];
						MC_CHECK( times[i] <= most, "bfs-repeat", "bfs from %d reports node %d %d times: %s", s, i, times[i], show( v ).c_str( ) );
						if( i == s ) MC_CHECK( times[i] == 1, "bfs-repeat", "bfs from %d comes back to it: %s", s, show( v ).c_str( ) );
					}
					v = r;
				};
				firsts( ob ), firsts( ub );
				MC_CHECK( ob == bfs, "bfs-order", "bfs from %d first visits %s, expected %s", s, show( ob ).c_str( ), show( bfs ).c_str( ) );
				MC_CHECK( od == dfs, "dfs-order", "dfs from %d visits %s, expected %s", s, show( od ).c_str( ), show( dfs ).c_str( ) );
				// unordered: same node set once each; bfs by distance; dfs: each node
				// has its parent as the deepest still-open ancestor
				auto once = [&]( std::vector<int> v ) {
					std::sort( v.begin( ), v.end( ) );
					std::vector<int> r;
					for( int i = 0; i < n; ++i )
						if( dist[i] >= 0 ) r.push_back( i );
					return v == r;
				};
				MC_CHECK( once( ub ), "bfs-once", "bfs from %d visits %s", s, show( ub ).c_str( ) );
				MC_CHECK( once( ud ), "dfs-once", "dfs from %d visits %s", s, show( ud ).c_str( ) );
				for( std::size_t k = 1; k < ub.size( ); ++k ) MC_CHECK( dist[ub[k - 1]] <= dist[ub[k]], "bfs-layers", "bfs from %d visits %s", s, show( ub ).c_str( ) );
				std::vector<int> open;
				std::vector<bool> seen( n );
				for( int i : ud ) {
					while( not open.empty( ) ) {
						int const t = open.back( );
						if( x.e[t][i] ) break;
						// t may only be closed when it has no unvisited child left
						for( int j = 0; j < n; ++j ) MC_CHECK( not x.e[t][j] or seen[j], "dfs-depth", "dfs from %d visits %s: leaves %d before %d", s, show( ud ).c_str( ), t, j );
						open.pop_back( );
					}
					MC_CHECK( not open.empty( ) or i == s, "dfs-depth", "dfs from %d visits %s", s, show( ud ).c_str( ) );
					seen[i] = true;
					open.push_back( i );
				}
				mc::count_case( 4 );
			}
		}
	}

	void topo( int n, bool self ) {
		std::vector<int> const perms[] = { { 10, 20, 30, 40, 50 }, { 50, 40, 30, 20, 10 }, { 10, 10, 10, 10, 10 } };
		int const how = mc::choose( 3 );
		Given x( n, self, large_shape ? how == 2 ? std::vector<int>( std::size_t( n ), 10 ) : values( n, how ) : perms[how] );
		G const &cg = x.g;
		// nodes that can be ordered: not on and not behind a cycle
		std::vector<bool> orderable( n );
		for( bool more = true; more; ) {
			more = false;
			for( int i = 0; i < n; ++i )
				if( not orderable[i] ) {
					bool ok = true;
					for( int j = 0; j < n; ++j ) ok = ok and ( not x.e[j][i] or orderable[j] );
					if( ok ) orderable[i] = more = true;
				}
		}
		int total = int( std::count( orderable.begin( ), orderable.end( ), true ) );
		auto judge = [&]( std::vector<int> const &v, char const *what, bool ordered ) {
			std::vector<int> pos( n, -1 );
			for( std::size_t k = 0; k < v.size( ); ++k ) {
				MC_CHECK( pos[v[k]] < 0, "topo-once", "%s: node %d appears twice in %s", what, v[k], show( v ).c_str( ) );
				pos[v[k]] = int( k );
			}
			MC_CHECK( int( v.size( ) ) == total, "topo-complete", "%s: %s, expected %d nodes", what, show( v ).c_str( ), total );
			for( int i = 0; i < n; ++i )
				for( int j = 0; j < n; ++j )
					if( pos[j] >= 0 and x.e[i][j] ) MC_CHECK( pos[i] >= 0 and pos[i] < pos[j], "topo-order", "%s: %s puts %d before its predecessor %d", what, show( v ).c_str( ), j, i );
			// an ordering decides between the nodes that could come next
			for( std::size_t k = 0; ordered and k < v.size( ); ++k )
				for( std::size_t later = k + 1; later < v.size( ); ++later ) {
					bool ready = true;
					for( int i = 0; i < n; ++i ) ready = ready and ( not x.e[i][v[later]] or pos[i] < int( k ) );
					MC_CHECK( not ready or x.val[v[later]] <= x.val[v[k]], "topo-sorted", "%s: %s takes %d while %d could come", what, show( v ).c_str( ), v[k], v[later] );
				}
			mc::count_case( );
		};
		auto into = [&]( std::vector<int> &v ) {
			return [&]( auto const &node ) {
				v.push_back( x.index( node.id( ) ) );
				MC_CHECK( int( v.size( ) ) <= 65536, "topo-runaway", "the walk does not stop" );
			};
		};
		auto const cmp = []( auto const &a, auto const &b ) { return a.value( ) < b.value( ); };
		std::vector<int> fwd, tmp;
		auto next = [&]( char const *what, bool reversed = false, bool ordered = false ) {
			if( reversed ) std::reverse( tmp.begin( ), tmp.end( ) );
			judge( tmp, what, ordered );
			tmp.clear( );
		};
		daw::topological_sorted_walk( x.g, into( tmp ) );
		fwd = tmp;
		next( "walk" );
		daw::topological_sorted_walk( cg, into( tmp ) );
		next( "const walk" );
		daw::topological_sorted_walk( x.g, into( tmp ), cmp );
		next( "sorted walk", false, true );
		daw::topological_sorted_walk( cg, into( tmp ), cmp );
		next( "const sorted walk", false, true );
		daw::reverse_topological_sorted_walk( x.g, into( tmp ) );
		next( "reverse walk", true );
		daw::reverse_topological_sorted_walk( cg, into( tmp ) );
		next( "const reverse walk", true );
		daw::reverse_topological_sorted_walk( x.g, into( tmp ), cmp );
		next( "reverse sorted walk", true, true );
		daw::reverse_topological_sorted_walk( cg, into( tmp ), cmp );
		next( "const reverse sorted walk", true, true );
		{
			auto r = daw::make_reverse_topological_sorted_range( cg, cmp );
			for( auto const &nd : r ) tmp.push_back( x.index( nd.id( ) ) );
			next( "const reverse sorted range", true, true );
		}
		{
			auto r = daw::make_topological_sorted_range( x.g );
			MC_CHECK( int( r.size( ) ) == total and r.empty( ) == ( total == 0 ), "topo-range-size", "range size %zu", r.size( ) );
			for( auto &nd : r ) tmp.push_back( x.index( nd.id( ) ) );
			next( "range" );
			int k = 0;
			for( auto it = r.rbegin( ); it != r.rend( ); ++it ) {
				MC_CHECK( ++k <= total, "topo-range-runaway", "reverse iteration does not stop" );
				tmp.push_back( x.index( ( *it ).id( ) ) );
			}
			next( "range backwards", true );
			auto it = r.begin( );
			for( int i = 0; i < total; ++i ) {
				auto j = it + i;
				MC_CHECK( j != r.end( ) and j >= it and ( j == it ) == ( i == 0 ) and ( it < j ) == ( i > 0 ) and j - i == it and int( j.size( ) ) == total - i, "topo-iterator", "iterator arithmetic at %d", i );
				auto c = it;
				c += i;
				MC_CHECK( c == j, "topo-iterator", "+= %d", i );
				c -= i;
				MC_CHECK( c == it, "topo-iterator", "-= %d", i );
				MC_CHECK( c++ == it and c-- == it + 1 and c == it, "topo-iterator", "post increment" );
				MC_CHECK( std::as_const( j ).end( ) == r.end( ), "topo-iterator", "end" );
				MC_CHECK( j->id( ) == std::as_const( j )->id( ), "topo-iterator", "arrow" );
			}
		}
		{
			auto r = daw::make_topological_sorted_range( cg, cmp );
			for( auto const &nd : r ) tmp.push_back( x.index( nd.id( ) ) );
			next( "const sorted range", false, true );
		}
		{
			auto r = daw::make_reverse_topological_sorted_range( x.g );
			int k = 0;
			for( auto &nd : r ) {
				MC_CHECK( ++k <= total, "topo-range-runaway", "iteration does not stop" );
				tmp.push_back( x.index( nd.id( ) ) );
			}
			next( "reverse range", true );
			for( auto it = r.rbegin( ); it != r.rend( ); ++it ) tmp.push_back( x.index( it->id( ) ) );
			next( "reverse range backwards" );
		}
	}

	void spanning( int n, bool self ) {
		Given x( n, self, std::vector<int>( 32, 1 ) );
		std::vector<int> roots;
		for( int j = 0; j < n; ++j ) {
			bool root = true;
			for( int i = 0; i < n; ++i ) root = root and not x.e[i][j];
			if( root ) roots.push_back( j );
		}
		std::vector<bool> covered( n );
		for( int r : roots ) {
			auto d = x.dist( r );
			for( int i = 0; i < n; ++i ) covered[i] = covered[i] or d[i] >= 0;
		}
		daw::mst( x.g );
		bool before[32][32];
		std::memcpy( before, x.e, sizeof before );
		for( int i = 0; i < n; ++i )
			for( int j = 0; j < n; ++j ) {
				x.e[i][j] = std::as_const( x.g ).get_node( x.ids[i] ).outgoing_edges( ).count( x.ids[j] );
				MC_CHECK( not x.e[i][j] or before[i][j], "mst-edges", "edge %d->%d was invented", i, j );
				MC_CHECK( x.e[i][j] == ( std::as_const( x.g ).get_node( x.ids[j] ).incoming_edges( ).count( x.ids[i] ) == 1 ), "mst-edges", "edge %d->%d is visible from one side only", i, j );
				if( before[i][j] and not x.e[i][j] ) MC_CHECK( covered[j], "mst-edges", "edge %d->%d was removed though no root reaches it", i, j );
			}
		std::vector<bool> after( n );
		for( int r : roots ) {
			auto d = x.dist( r );
			for( int i = 0; i < n; ++i ) after[i] = after[i] or d[i] >= 0;
		}
		MC_CHECK( after == covered, "mst-spanning", "a node lost its connection to every root" );
		if( roots.size( ) == 1 )
			for( int j = 0; j < n; ++j )
				if( covered[j] ) {
					int in = 0;
					for( int i = 0; i < n; ++i ) in += covered[i] and x.e[i][j];
					MC_CHECK( in == ( j == roots[0] ? 0 : 1 ), "mst-tree", "node %d is left with %d incoming edges", j, in );
				}
		mc::count_case( );
	}
} // namespace

MC_TEST( history_3 ) { history( mc::by_tier( 8, 10 ), 3 ); }
MC_TEST( history_4 ) { history( mc::by_tier( 7, 8 ), 4 ); }
MC_TEST( history_long ) { history( 0, 3 ); }
MC_TEST( walks_3 ) { large_shape = AnyShape; walks( 3, true ); }
MC_TEST( walks_4 ) { large_shape = AnyShape; walks( 4, mc::tier( ) ); }
MC_TEST( topo_3 ) { large_shape = AnyShape; topo( 3, true ); }
MC_TEST( topo_4 ) { large_shape = AnyShape; topo( 4, mc::tier( ) ); }
MC_TEST( spanning_3 ) { large_shape = AnyShape; spanning( 3, true ); }
MC_TEST( spanning_4 ) { large_shape = AnyShape; spanning( 4, true ); }
MC_THOROUGH_TEST( walks_5 ) { large_shape = AnyShape; walks( 5, false ); }
MC_THOROUGH_TEST( spanning_5 ) { large_shape = AnyShape; spanning( 5, false ); }
MC_TEST( equality ) {
	G g[2];
	Id ids[2][2];
	for( int a = 0; a < 2; ++a )
		for( int b = 0; b < 2; ++b ) ids[a][b] = g[a].add_node( b );
	int const a = mc::choose( 2 ), b = mc::choose( 2 ), c = mc::choose( 2 ), d = mc::choose( 2 );
	auto const x = g[a].get_node( ids[a][b] );
	auto const y = g[c].get_node( ids[c][d] );
	auto const cx = std::as_const( g[a] ).get_node( ids[a][b] );
	auto const cy = std::as_const( g[c] ).get_node( ids[c][d] );
	bool const same = a == c and b == d;
	MC_CHECK( ( x == y ) == same and ( x != y ) == not same and ( cx == cy ) == same and ( cx != cy ) == not same and ( x == cy ) == same and ( cx == y ) == same, "graph-equality", "graph %d node %d compared with graph %d node %d", a, b, c, d );
	if( a == c ) MC_CHECK( ( x < y ) == ( ids[a][b] < ids[c][d] ) and ( cx < cy ) == ( ids[a][b] < ids[c][d] ), "graph-less", "order" );
	daw::const_graph_node_t<int> conv = x;
	MC_CHECK( conv == cx and not daw::graph_node_t<int>{ } and daw::graph_node_t<int>{ }.empty( ) and daw::const_graph_node_t<int>{ }.empty( ), "graph-proxy", "proxies" );
}
MC_TEST( ties ) { // many equal children: an invalid comparison corrupts memory
	G g;
	auto root = g.add_node( 0 );
	int const n = 40;
	for( int i = 0; i < n; ++i ) g.add_directed_edge( root, g.add_node( mc::tier( ) ? i % 2 : 1 ) );
	int k[4] = { };
	daw::bfs_walk( g, root, [&]( auto const & ) { ++k[0]; }, std::less<int>{ } );
	daw::dfs_walk( g, root, [&]( auto const & ) { ++k[1]; }, std::less<int>{ } );
	auto const cmp = []( auto const &a, auto const &b ) { return a.value( ) < b.value( ); };
	daw::topological_sorted_walk( g, [&]( auto const & ) { ++k[2]; }, cmp );
	for( int i = 0; i < 3; ++i ) MC_CHECK( k[i] == n + 1, "ties", "walk %d visits %d of %d", i, k[i], n + 1 );
}
MC_TEST( walks_large ) { int const n = shape( false ); walks( n, false ); }
MC_TEST( topo_large ) { int const n = shape( true ); topo( n, false ); }
MC_TEST( spanning_large ) { int const n = shape( true ); spanning( n, false ); }
