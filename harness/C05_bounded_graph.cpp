// bounded_graph_t: every edit history up to a depth, filling the graph to its
// capacity, against an adjacency-matrix model.
#include "mc.h"
#include <algorithm>
#include <map>
#include <set>
#include <vector>

#include <daw/deprecated/daw_bounded_graph.h>

namespace {
	using Id = daw::node_id_t;
	template<std::size_t N, typename Hash>
	void history( int depth, int max_ids ) {
		using G = daw::bounded_graph_t<int, N, Hash>;
		G g;
		std::map<int, int> value;
		std::set<std::pair<int, int>> e;
		std::vector<Id> ids;
		std::uint64_t hist = 0;
		(void)hist;
		auto const step = [&]( ) -> bool {
			std::vector<int> live;
			for( auto &[i, v] : value ) live.push_back( i );
			int const op = mc::choose( live.empty( ) ? 1 : 6 );
			int a = 0, b = 0;
			char const *name = "";
			if( op >= 1 ) a = mc::pick( live );
			if( op >= 2 ) b = mc::pick( live );
			switch( op ) {
			case 0:
				name = "add_node";
				if( value.size( ) == N ) {
					MC_CHECK( mc::aborts( [&] { (void)g.add_node( 1 ); } ), "bgraph-full", "adding a node to a full graph was not reported" );
					return false;
				}
				if( int( ids.size( ) ) == max_ids ) return false;
				value[int( ids.size( ) )] = int( ids.size( ) ) % 2;
				ids.push_back( g.add_node( int( ids.size( ) ) % 2 ) );
				break;
			case 1:
				name = "remove_node";
				g.remove_node( ids[a] );
				value.erase( a );
				std::erase_if( e, [&]( auto &p ) { return p.first == a or p.second == a; } );
				break;
			case 2: name = "add_directed_edge"; g.add_directed_edge( ids[a], ids[b] ); e.insert( { a, b } ); break;
			case 3: name = "add_undirected_edge"; g.add_undirected_edge( ids[a], ids[b] ); e.insert( { a, b } ); e.insert( { b, a } ); break;
			case 4: name = "remove_directed_edge"; g.remove_directed_edge( ids[a], ids[b] ); e.erase( { a, b } ); break;
			case 5: name = "remove_edges"; g.remove_edges( ids[a], ids[b] ); e.erase( { a, b } ); e.erase( { b, a } ); break;
			}
			mc::note( "%s(%d,%d)", name, a, b );
			mc::step( );
			G const &c = g;
			MC_CHECK( c.size( ) == value.size( ), "bgraph-size", "after %s: size %zu, expected %zu", name, c.size( ), value.size( ) );
			std::set<int> roots, leaves, ones, all;
			for( int i = 0; i < int( ids.size( ) ); ++i ) {
				bool const in = value.count( i );
				MC_CHECK( c.has_node( ids[i] ) == in, "bgraph-has_node", "after %s: has_node(%d) is %d", name, i, c.has_node( ids[i] ) );
				if( not in ) continue;
				auto n = g.get_node( ids[i] );
				auto const cn = c.get_node( ids[i] );
				MC_CHECK( n.value( ) == value[i] and cn.value( ) == value[i] and n.id( ) == ids[i] and n.graph( ) == &g, "bgraph-value", "after %s: value of node %d is %d", name, i, n.value( ) );
				std::size_t outs = 0, ins = 0;
				for( int j = 0; j < int( ids.size( ) ); ++j ) {
					bool const o = e.count( { i, j } ), k = e.count( { j, i } );
					outs += o;
					ins += k;
					MC_CHECK( n.outgoing_edges( ).exists( ids[j] ) == o and cn.outgoing_edges( ).exists( ids[j] ) == o, "bgraph-outgoing", "after %s: edge %d->%d seen from %d: %d, expected %d", name, i, j, i, n.outgoing_edges( ).exists( ids[j] ), o );
					MC_CHECK( n.incoming_edges( ).exists( ids[j] ) == k and cn.incoming_edges( ).exists( ids[j] ) == k, "bgraph-incoming", "after %s: edge %d->%d seen from %d: %d, expected %d", name, j, i, i, n.incoming_edges( ).exists( ids[j] ), k );
					if( value.count( j ) ) {
						auto const o2 = g.get_node( ids[j] );
						auto const co2 = c.get_node( ids[j] );
						MC_CHECK( ( n == o2 ) == ( i == j ) and ( n != o2 ) == ( i != j ) and ( cn == co2 ) == ( i == j ) and ( cn != co2 ) == ( i != j ) and ( cn < co2 ) == ( ids[i] < ids[j] ), "bgraph-equality", "node %d compared with node %d", i, j );
					}
				}
				MC_CHECK( n.outgoing_edges( ).size( ) == outs and n.incoming_edges( ).size( ) == ins, "bgraph-dangling", "after %s: node %d has edges to nodes that do not exist", name, i );
				if( not ins ) roots.insert( i );
				if( not outs ) leaves.insert( i );
				if( value[i] ) ones.insert( i );
				all.insert( i );
			}
			auto same = [&]( auto const &v, std::set<int> const &s ) {
				std::multiset<int> r;
				for( auto id : v )
					for( int i = 0; i < int( ids.size( ) ); ++i )
						if( ids[i] == id ) r.insert( i );
				return v.size( ) == s.size( ) and std::equal( r.begin( ), r.end( ), s.begin( ), s.end( ) );
			};
			MC_CHECK( same( c.find_roots( ), roots ) and same( c.find_leaves( ), leaves ) and same( c.find_by_value( 1 ), ones ), "bgraph-find", "after %s: roots/leaves/by value", name );
			std::vector<Id> v;
			g.visit( []( auto const & ) { return true; }, [&]( auto const &n ) { v.push_back( n.id( ) ); } );
			MC_CHECK( same( v, all ), "bgraph-visit", "after %s: visits %zu of %zu", name, v.size( ), all.size( ) );
			return true;
		};
		if( depth == 0 ) { // every word of four operations, repeated
			mc::lasso( 4, 16, step, [&] { max_ids = 2 * int( N ); } );
			return;
		}
		for( int d = 0; d < depth; ++d ) {
			std::uint64_t h = ids.size( );
			unsigned char raw[sizeof( G )];
			std::memcpy( raw, static_cast<void const *>( &g ), sizeof raw );
			if( not mc::enter_state( mc::hash_bytes( h, raw, sizeof raw ), depth - d ) ) return;
			if( not step( ) ) return;
		}
	}
	struct Clash {
		constexpr std::size_t operator( )( std::size_t ) const { return 3; }
	};
} // namespace
MC_TEST( history_3 ) { history<3, std::hash<std::size_t>>( mc::by_tier( 8, 10 ), 5 ); }
MC_TEST( history_3_clash ) { history<3, Clash>( mc::by_tier( 8, 10 ), 5 ); }
MC_TEST( history_4 ) { history<4, std::hash<std::size_t>>( mc::by_tier( 7, 9 ), 6 ); }
MC_TEST( history_2 ) { history<2, std::hash<std::size_t>>( mc::by_tier( 7, 9 ), 6 ); }
MC_TEST( history_12_long ) { history<12, std::hash<std::size_t>>( 0, 3 ); }
MC_TEST( history_11_clash_long ) { history<11, Clash>( 0, 3 ); }
