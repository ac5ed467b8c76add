// A01: the container forms of the algorithms, against the iterator definitions.
#include "mc.h"

#include "mc_iter.inc"

#include <algorithm>
#include <array>
#include <deque>
#include <functional>
#include <list>
#include <numeric>
#include <set>

#include "daw/daw_container_algorithm.h"

namespace {
	using namespace chk;
	namespace dc = daw::container;

	constexpr unsigned AB = 3;
	unsigned len( int q, int t ) {
		return static_cast<unsigned>( mc::by_tier( q, t ) );
	}
	struct Pred {
		unsigned mask;
		bool operator( )( Item const &x ) const {
			return ( mask >> x.key ) & 1U;
		}
	};
	Item plus10( Item const &x ) {
		return { x.key + 10, x.id };
	}
	template<typename C>
	Items list_of( C const &c ) {
		return Items( c.begin( ), c.end( ) );
	}
	void expect( char const *name, Items const &src, Items const &got, Items const &want ) {
		MC_CHECK( same( got, want ), "wrong_content", "%s of %s gave %s, expected %s", name, show( src ).c_str( ), show( got ).c_str( ), show( want ).c_str( ) );
	}

	template<typename C>
	void forms( Items const &v, unsigned m, int x ) {
		C const c( v.begin( ), v.end( ) );
		auto at = [&]( auto const &k, auto it ) { return std::distance( k.begin( ), it ); };
		auto const idx = [&]( auto p ) { return std::find_if( v.begin( ), v.end( ), p ) - v.begin( ); };
		Item const needle{ x, 99 };
		C mut( c );
		MC_CHECK( at( c, dc::find( c, needle ) ) == idx( [&]( Item const &y ) { return y.key == x; } ), "wrong_position", "find %d in %s", x, show( v ).c_str( ) );
		MC_CHECK( std::distance( mut.begin( ), dc::find( mut, needle ) ) == idx( [&]( Item const &y ) { return y.key == x; } ), "wrong_position", "find %d in %s (mutable)", x,
		          show( v ).c_str( ) );
		MC_CHECK( std::distance( mut.begin( ), dc::find_if( mut, Pred{ m } ) ) == idx( Pred{ m } ), "wrong_position", "find_if %u in %s", m, show( v ).c_str( ) );
		MC_CHECK( dc::contains( c, needle ) == ( std::find( v.begin( ), v.end( ), needle ) != v.end( ) ), "wrong_answer", "contains %d in %s", x, show( v ).c_str( ) );
		MC_CHECK( dc::contains( c, Pred{ m } ) == std::any_of( v.begin( ), v.end( ), Pred{ m } ), "wrong_answer", "contains predicate %u in %s", m, show( v ).c_str( ) );
		MC_CHECK( dc::container_size( c ) == v.size( ), "wrong_answer", "container_size of %s", show( v ).c_str( ) );
		auto const by_key = []( Item const &a, Item const &b ) { return a.key < b.key; };
		MC_CHECK( at( c, dc::max_element( c, by_key ) ) == std::max_element( v.begin( ), v.end( ), by_key ) - v.begin( ), "wrong_position", "max_element of %s", show( v ).c_str( ) );
		MC_CHECK( at( c, dc::max_element( c, std::greater<>{ } ) ) == std::max_element( v.begin( ), v.end( ), std::greater<>{ } ) - v.begin( ), "wrong_position",
		          "max_element (reversed) of %s", show( v ).c_str( ) );
		MC_CHECK( std::distance( mut.begin( ), dc::max_element( mut, by_key ) ) == std::max_element( v.begin( ), v.end( ), by_key ) - v.begin( ), "wrong_position",
		          "max_element (mutable) of %s", show( v ).c_str( ) );
		auto const acc = []( std::string s, Item const &y ) { return s + std::to_string( y.key ) + "," + std::to_string( y.id ) + ";"; };
		MC_CHECK( dc::accumulate( c, std::string( "i" ), acc ) == std::accumulate( v.begin( ), v.end( ), std::string( "i" ), acc ), "fold_order", "accumulate of %s", show( v ).c_str( ) );
		{
			C k( c );
			auto const r = dc::erase_remove( k, needle );
			MC_CHECK( r == k.end( ), "wrong_end", "erase_remove of %d in %s", x, show( v ).c_str( ) );
			Items w;
			std::remove_copy( v.begin( ), v.end( ), std::back_inserter( w ), needle );
			expect( "erase_remove", v, list_of( k ), w );
		}
		{
			C k( c );
			auto const r = dc::erase_remove_if( k, Pred{ m } );
			MC_CHECK( r == k.end( ), "wrong_end", "erase_remove_if by %u in %s", m, show( v ).c_str( ) );
			Items w;
			std::remove_copy_if( v.begin( ), v.end( ), std::back_inserter( w ), Pred{ m } );
			expect( "erase_remove_if", v, list_of( k ), w );
		}
		{
			C k( c );
			auto const p = std::distance( k.begin( ), dc::partition( k, Pred{ m } ) );
			auto l = list_of( k );
			bool ok = p == std::count_if( v.begin( ), v.end( ), Pred{ m } );
			for( std::size_t i = 0; i != l.size( ); ++i ) {
				ok = ok and Pred{ m }( l[i] ) == ( static_cast<std::ptrdiff_t>( i ) < p );
			}
			std::sort( l.begin( ), l.end( ), []( Item const &a, Item const &b ) { return a.id < b.id; } );
			MC_CHECK( ok and same( l, v ), "partition", "partition of %s by %u", show( v ).c_str( ), m );
		}
		{
			C k( c );
			auto const p = std::distance( k.begin( ), dc::stable_partition( k, Pred{ m } ) );
			Items w( v );
			auto const q = std::stable_partition( w.begin( ), w.end( ), Pred{ m } ) - w.begin( );
			MC_CHECK( p == q, "wrong_end", "stable_partition of %s by %u", show( v ).c_str( ), m );
			expect( "stable_partition", v, list_of( k ), w );
		}
		Items tr( v );
		for( auto &y : tr ) {
			y = plus10( y );
		}
		{
			C k( c );
			MC_CHECK( dc::transform( k, plus10 ) == k.end( ), "wrong_end", "transform of %s", show( v ).c_str( ) );
			expect( "transform", v, list_of( k ), tr );
			Items d( v.size( ) );
			auto out = b<Fwd>( d );
			auto const end = dc::transform( c, out, plus10 );
			MC_CHECK( end.pos == static_cast<std::ptrdiff_t>( v.size( ) ), "wrong_end", "transform of %s", show( v ).c_str( ) );
			expect( "transform (to output)", v, d, tr );
			Items d2( v.size( ) );
			auto const end2 = dc::transform( c, b<Fwd>( d2 ), plus10 );
			MC_CHECK( end2.pos == static_cast<std::ptrdiff_t>( v.size( ) ), "wrong_end", "transform of %s", show( v ).c_str( ) );
			expect( "transform (to temporary output)", v, d2, tr );
		}
		{
			Items d( v.size( ) );
			dc::copy( c, b<Fwd>( d ) );
			expect( "copy", v, d, v );
			for( std::size_t n = 0; n <= v.size( ) + 2; ++n ) {
				Items e( std::min( n, v.size( ) ) );
				dc::copy_n( c, n, b<Fwd>( e ) );
				expect( "copy_n", v, e, Items( v.begin( ), v.begin( ) + static_cast<std::ptrdiff_t>( e.size( ) ) ) );
			}
			Items w;
			std::copy_if( v.begin( ), v.end( ), std::back_inserter( w ), Pred{ m } );
			Items f( w.size( ) );
			MC_CHECK( dc::copy_if( c, b<Fwd>( f ), Pred{ m } ).pos == static_cast<std::ptrdiff_t>( w.size( ) ), "wrong_end", "copy_if of %s", show( v ).c_str( ) );
			expect( "copy_if", v, f, w );
		}
		std::size_t const stride = long_items ? 8 : 1;
		for( std::size_t i = 0; i <= v.size( ); i += stride ) {
			for( std::size_t j = 0; j <= v.size( ); j += stride ) {
				C k( c );
				std::string calls;
				dc::for_each_with_pos( k, i, j, [&]( Item &y, std::size_t p ) {
					calls += std::to_string( y.id ) + "@" + std::to_string( p ) + ";";
					y.key += 10;
				} );
				std::string want;
				Items w( v );
				for( std::size_t p = i; p < j; ++p ) {
					want += std::to_string( p ) + "@" + std::to_string( p ) + ";";
					w[p].key += 10;
				}
				MC_CHECK( calls == want, "for_each_with_pos", "for_each_with_pos [%zu,%zu) of %s called %s", i, j, show( v ).c_str( ), calls.c_str( ) );
				expect( "for_each_with_pos", v, list_of( k ), w );
			}
		}
		{
			std::string calls;
			dc::for_each_with_pos( c, [&]( Item const &y, std::size_t p ) { calls += std::to_string( y.id ) + "@" + std::to_string( p ) + ";"; } );
			std::string want;
			for( std::size_t p = 0; p < v.size( ); ++p ) {
				want += std::to_string( p ) + "@" + std::to_string( p ) + ";";
			}
			MC_CHECK( calls == want, "for_each_with_pos", "for_each_with_pos of %s called %s", show( v ).c_str( ), calls.c_str( ) );
		}
		if constexpr( requires( C k ) { k[0]; } ) {
			for( std::size_t i = 0; i <= v.size( ); i += stride ) {
				for( std::size_t j = 0; j <= v.size( ); j += stride ) {
					C k( c );
					std::string calls, want;
					dc::for_each_subset( k, i, j, [&]( C &q, std::size_t p ) {
						calls += std::to_string( q[p].id ) + ";";
						if( &q != &k ) {
							calls += "!";
						}
					} );
					for( std::size_t p = i; p < j; ++p ) {
						want += std::to_string( p ) + ";";
					}
					MC_CHECK( calls == want, "for_each_subset", "for_each_subset [%zu,%zu) of %s called %s", i, j, show( v ).c_str( ), calls.c_str( ) );
				}
			}
			C k( c );
			dc::stable_sort( k, by_key );
			Items w( v );
			std::stable_sort( w.begin( ), w.end( ), by_key );
			expect( "stable_sort", v, list_of( k ), w );
			C k2( c );
			dc::stable_sort( k2 );
			expect( "stable_sort", v, list_of( k2 ), w );
			auto sorted = [&]( char const *name, C const &s, bool rev ) {
				auto l = list_of( s );
				bool ok = rev ? std::is_sorted( l.begin( ), l.end( ), std::greater<>{ } ) : std::is_sorted( l.begin( ), l.end( ) );
				std::sort( l.begin( ), l.end( ), []( Item const &a, Item const &b2 ) { return a.id < b2.id; } );
				MC_CHECK( ok and same( l, v ), "sort", "%s of %s", name, show( v ).c_str( ) );
			};
			C k3( c ), k4( c );
			dc::sort( k3 );
			dc::sort( k4, []( Item const &a, Item const &b2 ) { return b2 < a; } );
			sorted( "sort", k3, false );
			sorted( "sort (reversed)", k4, true );
		}
		{
			C k( c );
			Items dst{ { 1, 77 }, { 2, 78 } };
			dc::append( k, dst );
			Items w{ { 1, 77 }, { 2, 78 } };
			w.insert( w.end( ), v.begin( ), v.end( ) );
			expect( "append", v, dst, w );
		}
	}

	CHK_SHORT_AND_LONG( container_forms ) {
		auto const v = items( len( 4, 6 ), AB );
		unsigned const m = mc::choose( 1U << AB );
		int const x = static_cast<int>( mc::choose( AB ) );
		forms<Items>( v, m, x );
		forms<std::list<Item>>( v, m, x );
		forms<std::deque<Item>>( v, m, x );
	}
	CHK_SHORT_AND_LONG( container_numbers ) {
		auto const v = items( len( 5, 6 ), AB );
		std::vector<int> n;
		std::multiset<int> s;
		for( auto const &x : v ) {
			n.push_back( x.key );
			s.insert( x.key );
		}
		MC_CHECK( dc::accumulate( n, 5 ) == std::accumulate( n.begin( ), n.end( ), 5 ), "fold_order", "accumulate of %s", show( n ).c_str( ) );
		MC_CHECK( dc::accumulate( s, 0 ) == std::accumulate( n.begin( ), n.end( ), 0 ), "fold_order", "accumulate of a set of %s", show( n ).c_str( ) );
		for( int k = 0; k != 4; ++k ) {
			MC_CHECK( dc::contains( s, k ) == s.contains( k ), "wrong_answer", "contains %d in a set of %s", k, show( n ).c_str( ) );
		}
		int arr[3] = { 4, 5, 6 };
		MC_CHECK( dc::container_size( arr ) == 3, "wrong_answer", "container_size of an array" );
	}
} // namespace
