// A01: algorithms that write.  Destinations are exactly sized and checked, the
// source and everything outside the documented range must stay as it was.
#include "mc.h"

#include "mc_iter.inc"
#include "mc_tracked.h"

#include <algorithm>
#include <array>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <stdexcept>

#include "daw/algorithms/daw_algorithm_accumulate.h"
#include "daw/algorithms/daw_algorithm_copy.h"
#include "daw/algorithms/daw_algorithm_copy_n.h"
#include "daw/algorithms/daw_algorithm_partial_sum.h"
#include "daw/daw_algorithm.h"
#include "daw/daw_algorithm_cx.h"
#include "daw/daw_do_n.h"
#include "daw/daw_swap.h"

namespace {
	using namespace chk;
	namespace da = daw::algorithm;

	constexpr unsigned AB = 3;
	unsigned len( int q, int t ) {
		return static_cast<unsigned>( mc::by_tier( q, t ) );
	}
	struct Pred {
		unsigned mask;
		bool operator( )( Item const &x ) const {
			return ( mask >> x.key ) & 1U;
		}
	};
	Item plus10( Item const &x ) {
		return { x.key + 10, x.id };
	}
	void expect( char const *name, Items const &src, Items const &got, Items const &want ) {
		MC_CHECK( same( got, want ), "wrong_content", "%s of %s gave %s, expected %s", name, show( src ).c_str( ), show( got ).c_str( ), show( want ).c_str( ) );
	}
	void end_at( char const *name, Items const &src, std::ptrdiff_t got, std::size_t want ) {
		MC_CHECK( got == static_cast<std::ptrdiff_t>( want ), "wrong_end", "%s of %s returned end %td, expected %zu", name, show( src ).c_str( ), got, want );
	}

	CHK_SHORT_AND_LONG( copies ) {
		auto const v = items( len( 4, 6 ), AB );
		unsigned const m = mc::choose( 1U << AB );
		std::size_t const k = v.empty( ) ? 0 : mc::choose( static_cast<unsigned>( v.size( ) ) + 1 );
		auto const sz = static_cast<std::ptrdiff_t>( v.size( ) );
		auto const B = cb<Fwd>( v );
		auto const E = ce<Fwd>( v );
		{
			Items d( v.size( ) );
			end_at( "copy", v, da::copy( B, E, b<Fwd>( d ) ).pos, v.size( ) );
			expect( "copy", v, d, v );
		}
		{
			Items d( v.size( ) );
			end_at( "copy (sentinel)", v, da::copy( B, Sent{ sz }, b<Fwd>( d ) ).pos, v.size( ) );
			expect( "copy (sentinel)", v, d, v );
		}
		{
			Items d( k );
			auto const r = da::copy_n( B, b<Fwd>( d ), k );
			end_at( "copy_n", v, r.output.pos, k );
			end_at( "copy_n (input)", v, r.input.pos, k );
			expect( "copy_n", v, d, Items( v.begin( ), v.begin( ) + static_cast<std::ptrdiff_t>( k ) ) );
		}
		Items sel, tsel;
		for( auto const &x : v ) {
			if( Pred{ m }( x ) ) {
				sel.push_back( x );
				tsel.push_back( plus10( x ) );
			}
		}
		{
			Items d( sel.size( ) );
			end_at( "copy_if", v, da::copy_if( B, E, b<Fwd>( d ), Pred{ m } ).pos, sel.size( ) );
			expect( "copy_if", v, d, sel );
		}
		{
			Items d( sel.size( ) );
			end_at( "transform_if", v, da::transform_if( B, Sent{ sz }, b<Fwd>( d ), Pred{ m }, plus10 ).pos, tsel.size( ) );
			expect( "transform_if", v, d, tsel );
		}
		Items tr( v );
		for( auto &x : tr ) {
			x = plus10( x );
		}
		{
			Items d( v.size( ) );
			end_at( "transform", v, da::transform( B, E, b<Fwd>( d ), plus10 ).pos, v.size( ) );
			expect( "transform", v, d, tr );
			Items in( v );
			end_at( "transform (in place)", v, da::transform( b<Fwd>( in ), e<Fwd>( in ), b<Fwd>( in ), plus10 ).pos, v.size( ) );
			expect( "transform (in place)", v, in, tr );
		}
		{
			Items d( k );
			auto const r = da::transform_n( B, b<Fwd>( d ), k, plus10 );
			end_at( "transform_n", v, r.output.pos, k );
			end_at( "transform_n (input)", v, r.input.pos, k );
			expect( "transform_n", v, d, Items( tr.begin( ), tr.begin( ) + static_cast<std::ptrdiff_t>( k ) ) );
		}
		{
			Items d( k );
			auto const with_index = []( Item const &x, std::size_t n ) { return Item{ x.key * 10 + static_cast<int>( n ), x.id }; };
			auto const r = da::transform_n( B, b<Fwd>( d ), k, with_index );
			end_at( "transform_n (indexed)", v, r.output.pos, k );
			Items want( v.begin( ), v.begin( ) + static_cast<std::ptrdiff_t>( k ) );
			for( std::size_t i = 0; i != k; ++i ) {
				want[i].key = want[i].key * 10 + static_cast<int>( i );
			}
			expect( "transform_n (indexed)", v, d, want );
		}
		{
			Items d( v.size( ) * 2 );
			auto const twice = []( Item const &x, Fwd<Item> out ) {
				*out = x;
				++out;
				*out = plus10( x );
				++out;
				return out;
			};
			end_at( "transform_it", v, da::transform_it( B, E, b<Fwd>( d ), twice ).pos, v.size( ) * 2 );
			Items want;
			for( auto const &x : v ) {
				want.push_back( x );
				want.push_back( plus10( x ) );
			}
			expect( "transform_it", v, d, want );
		}
		{
			std::vector<long> d( v.size( ) );
			std::vector<int> s;
			for( auto const &x : v ) {
				s.push_back( x.key );
			}
			auto const r = da::convert_copy<long>( cb<Ra>( s ), ce<Ra>( s ), b<Ra>( d ) );
			end_at( "convert_copy", v, r.pos, v.size( ) );
			std::vector<long> d2( k );
			auto const r2 = da::convert_copy_n<long>( cb<Ra>( s ), b<Ra>( d2 ), k );
			end_at( "convert_copy_n", v, r2.pos, k );
			for( std::size_t i = 0; i != v.size( ); ++i ) {
				MC_CHECK( d[i] == s[i] and ( i >= k or d2[i] == s[i] ), "wrong_content", "convert_copy of %s, element %zu", show( s ).c_str( ), i );
			}
		}
		{
			Items d( v.size( ) );
			std::vector<int> calls;
			auto const add = [&]( Item const &a, Item const &x ) {
				calls.push_back( x.id );
				return Item{ ( a.key * 3 + x.key ) % 10007, x.id };
			};
			end_at( "partial_sum", v, da::partial_sum( B, E, b<Fwd>( d ), add ).pos, v.size( ) );
			Items want( v.size( ) );
			std::partial_sum( v.begin( ), v.end( ), want.begin( ), []( Item const &a, Item const &x ) { return Item{ ( a.key * 3 + x.key ) % 10007, x.id }; } );
			expect( "partial_sum", v, d, want );
		}
		{
			Items d( v.size( ) );
			auto const f = []( Item const &a, Item const &x ) { return Item{ a.key * 10 + x.key, a.id }; };
			Items const w( v.size( ), Item{ 7, 1 } );
			end_at( "cartesian_product_map", v, da::cartesian_product_map( f, B, E, b<Fwd>( d ), cb<Fwd>( w ) ).pos, v.size( ) );
			Items want( v );
			for( auto &x : want ) {
				x.key = x.key * 10 + 7;
			}
			expect( "cartesian_product_map", v, d, want );
		}
	}

	MC_TEST( moves ) {
		using T = mc::Tracked<mc::NoThrowMove>;
		std::size_t const n = mc::choose( 5 );
		std::size_t const k = mc::choose( static_cast<unsigned>( n ) + 1 );
		for( int which = 0; which < 2; ++which ) {
			std::vector<T> s, d;
			for( std::size_t i = 0; i != n; ++i ) {
				s.emplace_back( static_cast<int>( i ) );
			}
			std::size_t const cnt = which ? k : n;
			for( std::size_t i = 0; i != cnt; ++i ) {
				d.emplace_back( 90 );
			}
			if( which ) {
				auto const r = da::move_n( b<Fwd>( s ), b<Fwd>( d ), k );
				MC_CHECK( r.input.pos == static_cast<std::ptrdiff_t>( k ) and r.output.pos == static_cast<std::ptrdiff_t>( k ), "wrong_end", "move_n of %zu returned %td, %td", k,
				          r.input.pos, r.output.pos );
			} else {
				auto const r = da::move( b<Fwd>( s ), e<Fwd>( s ), b<Fwd>( d ) );
				MC_CHECK( r.pos == static_cast<std::ptrdiff_t>( n ), "wrong_end", "move of %zu returned %td", n, r.pos );
			}
			for( std::size_t i = 0; i != n; ++i ) {
				MC_CHECK( mc::val( s[i] ) == ( i < cnt ? mc::MOVED : static_cast<int>( i ) ), "move_source", "source element %zu after moving %zu of %zu", i, cnt, n );
				MC_CHECK( i >= cnt or mc::val( d[i] ) == static_cast<int>( i ), "move_target", "target element %zu after moving %zu of %zu", i, cnt, n );
			}
		}
	}

	CHK_SHORT_AND_LONG( removals ) {
		auto const v = items( len( 5, 7 ), AB );
		unsigned const m = mc::choose( 1U << AB );
		int const x = static_cast<int>( mc::choose( AB ) );
		auto kept = [&]( auto drop ) {
			Items r;
			for( auto const &y : v ) {
				if( not drop( y ) ) {
					r.push_back( y );
				}
			}
			return r;
		};
		auto run = [&]( char const *name, Items const &want, auto fn ) {
			Items c( v );
			auto const end = fn( c ).pos;
			end_at( name, v, end, want.size( ) );
			c.resize( want.size( ) );
			expect( name, v, c, want );
		};
		run( "remove", kept( [&]( Item const &y ) { return y.key == x; } ), [&]( Items &c ) { return da::remove( b<Fwd>( c ), e<Fwd>( c ), Item{ x, 99 } ); } );
		run( "remove_if", kept( Pred{ m } ), [&]( Items &c ) { return da::remove_if( b<Fwd>( c ), e<Fwd>( c ), Pred{ m } ); } );
		run( "consume_if", kept( Pred{ m } ), [&]( Items &c ) { return da::consume_if( b<Fwd>( c ), e<Fwd>( c ), Pred{ m }, []( Item const & ) {} ); } );
		// partition: accepted elements first, nothing lost
		{
			Items c( v );
			auto const p = da::partition( b<Fwd>( c ), e<Fwd>( c ), Pred{ m } ).pos;
			end_at( "partition", v, p, static_cast<std::size_t>( std::count_if( v.begin( ), v.end( ), Pred{ m } ) ) );
			bool ok = true;
			std::vector<int> ids( v.size( ) );
			for( std::size_t i = 0; i != c.size( ); ++i ) {
				ok = ok and Pred{ m }( c[i] ) == ( static_cast<std::ptrdiff_t>( i ) < p );
				ok = ok and same( v[static_cast<std::size_t>( c[i].id )], c[i] ) and ids[static_cast<std::size_t>( c[i].id )]++ == 0;
			}
			MC_CHECK( ok, "partition", "partition of %s by %u gave %s", show( v ).c_str( ), m, show( c ).c_str( ) );
		}
		for( std::size_t t = 0; t <= v.size( ); ++t ) {
			Items c( v );
			auto const r = da::gather( b<Bidi>( c ), e<Bidi>( c ), at<Bidi>( c, t ), Pred{ m } );
			Items want;
			auto const mid = v.begin( ) + static_cast<std::ptrdiff_t>( t );
			std::copy_if( v.begin( ), mid, std::back_inserter( want ), std::not_fn( Pred{ m } ) );
			auto const lo = want.size( );
			std::copy_if( v.begin( ), v.end( ), std::back_inserter( want ), Pred{ m } );
			auto const hi = want.size( );
			std::copy_if( mid, v.end( ), std::back_inserter( want ), std::not_fn( Pred{ m } ) );
			expect( "gather", v, c, want );
			end_at( "gather (first)", v, r.first.pos, lo );
			end_at( "gather (second)", v, r.second.pos, hi );
		}
	}

	CHK_SHORT_AND_LONG( permutations ) {
		auto const v = items( len( 6, 8 ), 1 );
		std::size_t const n = v.size( );
		{
			Items c( v );
			da::reverse( b<Bidi>( c ), e<Bidi>( c ) );
			expect( "reverse", v, c, Items( v.rbegin( ), v.rend( ) ) );
			Items seen;
			Items copy( v );
			for( auto &x : da::reverse( copy ) ) {
				seen.push_back( x );
			}
			expect( "reverse (container)", v, seen, Items( v.rbegin( ), v.rend( ) ) );
		}
		for( std::size_t m = 0; m <= n; ++m ) {
			Items c( v ), w( v );
			da::rotate( b<Fwd>( c ), at<Fwd>( c, m ), e<Fwd>( c ) );
			std::rotate( w.begin( ), w.begin( ) + static_cast<std::ptrdiff_t>( m ), w.end( ) );
			expect( "rotate", v, c, w );
		}
		// slide [i,j) to k
		for( std::size_t i = 0; i <= n; ++i ) {
			for( std::size_t j = i; j <= n; ++j ) {
				for( std::size_t k = 0; k <= n; ++k ) {
					Items c( v ), w( v );
					auto const r = da::slide( at<Ra>( c, i ), at<Ra>( c, j ), at<Ra>( c, k ) );
					auto const W = [&]( std::size_t p ) { return w.begin( ) + static_cast<std::ptrdiff_t>( p ); };
					std::size_t lo = i, hi = j;
					if( k < i ) {
						std::rotate( W( k ), W( i ), W( j ) );
						lo = k;
						hi = k + ( j - i );
					} else if( j < k ) {
						std::rotate( W( i ), W( j ), W( k ) );
						lo = k - ( j - i );
						hi = k;
					}
					expect( "slide", v, c, w );
					end_at( "slide (first)", v, r.first.pos, lo );
					end_at( "slide (second)", v, r.second.pos, hi );
				}
			}
		}
		{
			Items c( v ), d( v );
			for( auto &x : d ) {
				x.id += 50;
			}
			Items const d0( d );
			end_at( "swap_ranges", v, daw::swap_ranges( b<Fwd>( c ), e<Fwd>( c ), b<Fwd>( d ) ).pos, n );
			expect( "swap_ranges", v, c, d0 );
			expect( "swap_ranges", v, d, v );
			for( std::size_t i = 0; i < n; ++i ) {
				for( std::size_t j = 0; j < n; ++j ) {
					Items f( v ), w( v );
					daw::iter_swap( at<Fwd>( f, i ), at<Fwd>( f, j ) );
					std::swap( w[i], w[j] );
					expect( "iter_swap", v, f, w );
				}
			}
		}
	}

	CHK_SHORT_AND_LONG( nth ) {
		auto const v = items( len( 5, 7 ), AB );
		bool const rev = mc::choose( 2 );
		auto const less = [rev]( Item const &a, Item const &b ) { return rev ? b.key < a.key : a.key < b.key; };
		Items s( v );
		std::stable_sort( s.begin( ), s.end( ), less );
		for( std::size_t k = 0; k <= v.size( ); ++k ) {
			Items c( v );
			da::nth_element( b<Ra>( c ), at<Ra>( c, k ), e<Ra>( c ), less );
			std::vector<int> ids( v.size( ) );
			bool ok = true;
			for( auto const &x : c ) {
				ok = ok and same( v[static_cast<std::size_t>( x.id )], x ) and ids[static_cast<std::size_t>( x.id )]++ == 0;
			}
			MC_CHECK( ok, "nth_element_lost", "nth_element( %zu ) of %s gave %s", k, show( v ).c_str( ), show( c ).c_str( ) );
			if( k < v.size( ) ) {
				ok = c[k].key == s[k].key;
				for( std::size_t i = 0; i != c.size( ); ++i ) {
					ok = ok and ( i < k ? not less( c[k], c[i] ) : not less( c[i], c[k] ) );
				}
				MC_CHECK( ok, "nth_element", "nth_element( %zu ) of %s gave %s", k, show( v ).c_str( ), show( c ).c_str( ) );
			}
		}
	}

	CHK_SHORT_AND_LONG( fills ) {
		std::size_t const n = long_items ? mc::pick( { std::size_t{ 16 }, std::size_t{ 33 } } ) : mc::choose( 6 );
		std::size_t const i = mc::choose( static_cast<unsigned>( n ) + 1 );
		std::size_t const j = i + mc::choose( static_cast<unsigned>( n - i ) + 1 );
		Items v( n );
		for( std::size_t k = 0; k != n; ++k ) {
			v[k] = { 1, static_cast<int>( k ) };
		}
		Item const x{ 9, 9 };
		Items want( v );
		for( std::size_t k = i; k != j; ++k ) {
			want[k] = x;
		}
		{
			Items c( v );
			da::fill( at<Fwd>( c, i ), at<Fwd>( c, j ), x );
			expect( "fill", v, c, want );
		}
		{
			Items c( v );
			da::fill( at<Fwd>( c, i ), Sent{ static_cast<std::ptrdiff_t>( j ) }, x );
			expect( "fill (sentinel)", v, c, want );
		}
		{
			Items c( v );
			end_at( "fill_n", v, da::fill_n( at<Fwd>( c, i ), j - i, x ).pos, j );
			expect( "fill_n", v, c, want );
		}
		{
			std::vector<int> c( n, -1 );
			da::iota( at<Fwd>( c, i ), at<Fwd>( c, j ), 5 );
			for( std::size_t k = 0; k != n; ++k ) {
				int const w = k >= i and k < j ? 5 + static_cast<int>( k - i ) : -1;
				MC_CHECK( c[k] == w, "iota", "iota over [%zu,%zu) of %zu left %d at %zu", i, j, n, c[k], k );
			}
			Items d( v );
			da::iota( at<Fwd>( d, i ), Sent{ static_cast<std::ptrdiff_t>( j ) }, 5, []( Item &e, int value ) { e.key = value; } );
			for( std::size_t k = 0; k != n; ++k ) {
				int const w = k >= i and k < j ? 5 + static_cast<int>( k - i ) : 1;
				MC_CHECK( d[k].key == w and d[k].id == static_cast<int>( k ), "iota", "iota with a setter over [%zu,%zu) of %zu left %d at %zu", i, j, n, d[k].key, k );
			}
		}
	}

	CHK_SHORT_AND_LONG( maps ) {
		auto const v = items( len( 4, 6 ), AB );
		std::vector<int> s;
		for( auto const &x : v ) {
			s.push_back( x.key );
		}
		std::vector<int> t( s.size( ), 100 );
		std::vector<int> d( s.size( ) ), d2( s.size( ) );
		auto const e1 = da::map( cb<Ra>( s ), ce<Ra>( s ), d.data( ), []( int x ) { return x * 2 + 1; } );
		auto const e2 = da::map( cb<Ra>( s ), ce<Ra>( s ), cb<Ra>( t ), d2.data( ), []( int x, int y ) { return y - x; } );
		MC_CHECK( e1 == d.data( ) + d.size( ) and e2 == d2.data( ) + d2.size( ), "wrong_end", "map of %s", show( s ).c_str( ) );
		for( std::size_t i = 0; i != s.size( ); ++i ) {
			MC_CHECK( d[i] == s[i] * 2 + 1 and d2[i] == 100 - s[i], "wrong_content", "map of %s gave %d, %d at %zu", show( s ).c_str( ), d[i], d2[i], i );
		}
	}

	CHK_SHORT_AND_LONG( intersections ) {
		auto gen = [&]( int base ) {
			Items v;
			for( int k = 0; k != 3; ++k ) {
				for( unsigned c = long_items ? mc::pick( { 0U, 1U, 9U, 17U } ) : mc::choose( len( 3, 4 ) ); c != 0; --c ) {
					v.push_back( { k, base++ } );
				}
			}
			return v;
		};
		auto const v = gen( 0 );
		auto const w = gen( 50 );
		Items want;
		std::set_intersection( v.begin( ), v.end( ), w.begin( ), w.end( ), std::back_inserter( want ) );
		Items d( want.size( ) );
		end_at( "set_intersection", v, da::set_intersection( cb<Fwd>( v ), ce<Fwd>( v ), cb<Fwd>( w ), ce<Fwd>( w ), b<Fwd>( d ) ).pos, want.size( ) );
		expect( "set_intersection", v, d, want );
		Items rv( v.rbegin( ), v.rend( ) ), rw( w.rbegin( ), w.rend( ) ), rwant;
		auto const gt = []( Item const &a, Item const &b ) { return b < a; };
		std::set_intersection( rv.begin( ), rv.end( ), rw.begin( ), rw.end( ), std::back_inserter( rwant ), gt );
		Items rd( rwant.size( ) );
		end_at( "set_intersection (reversed)", rv, da::set_intersection( cb<Fwd>( rv ), ce<Fwd>( rv ), cb<Fwd>( rw ), ce<Fwd>( rw ), b<Fwd>( rd ), gt ).pos, rwant.size( ) );
		expect( "set_intersection (reversed)", rv, rd, rwant );
	}

	CHK_SHORT_AND_LONG( splits ) {
		auto const v = items( len( 6, 8 ), 2 );
		std::vector<Items> want( 1 );
		for( auto const &x : v ) {
			if( x.key == 0 ) {
				want.emplace_back( );
			} else {
				want.back( ).push_back( x );
			}
		}
		auto const got = da::split( cb<Fwd>( v ), ce<Fwd>( v ), Item{ 0, 99 } );
		bool ok = got.size( ) == want.size( );
		for( std::size_t i = 0; ok and i != want.size( ); ++i ) {
			ok = same( got[i], want[i] );
		}
		MC_CHECK( ok, "split", "split of %s gave %zu pieces, expected %zu", show( v ).c_str( ), got.size( ), want.size( ) );
		for( std::size_t count = 1; count <= ( long_items ? 9U : 4U ); ++count ) {
			Items c( v );
			auto const parts = da::partition_range( c.begin( ), c.end( ), count );
			auto const parts2 = da::partition_range<2>( daw::view( c.begin( ), c.end( ) ), count );
			for( auto const *p : { &parts, &parts2 } ) {
				MC_CHECK( p->size( ) == count, "partition_range", "partition_range of %zu into %zu gave %zu parts", v.size( ), count, p->size( ) );
				Items all;
				for( auto const &part : *p ) {
					for( auto const &x : part ) {
						all.push_back( x );
					}
				}
				expect( "partition_range", v, all, v );
			}
			std::size_t const each = std::max<std::size_t>( 1, v.size( ) / count );
			for( std::size_t i = 0; i + 1 < count; ++i ) {
				std::size_t const w = std::min( each, v.size( ) - std::min( v.size( ), i * each ) );
				MC_CHECK( parts[i].size( ) == w, "partition_range", "partition_range of %zu into %zu: part %zu has %zu elements", v.size( ), count, i,
				          static_cast<std::size_t>( parts[i].size( ) ) );
			}
		}
	}

	// ---- nodes moved between containers ----------------------------------------
	MC_TEST( extractions ) {
		unsigned const from_mask = mc::choose( 32 );
		unsigned const to_mask = mc::choose( 32 );
		unsigned const drop = mc::choose( 32 );
		int const key = mc::choose_range( 0, 4 );
		auto fill = [&]( auto &c, unsigned m, int copies ) {
			for( int i = 0; i != 5; ++i ) {
				for( int k = 0; ( ( m >> i ) & 1U ) and k != copies; ++k ) {
					c.insert( i );
				}
			}
		};
		for( int which = 0; which != 3; ++which ) {
			std::multiset<int> from, to, wf, wt;
			fill( from, from_mask, 2 );
			fill( to, to_mask, 1 );
			for( int x : from ) {
				bool const moved = which == 0 ? x == key : which == 1 ? true : ( ( drop >> x ) & 1U ) != 0;
				( moved ? wt : wf ).insert( x );
			}
			for( int x : to ) {
				wt.insert( x );
			}
			if( which == 0 ) {
				da::extract_to( from, to, key );
			} else if( which == 1 ) {
				da::extract_all( from, to );
			} else {
				da::extract_matching( from, to, [&]( int x ) { return ( drop >> x ) & 1U; } );
			}
			MC_CHECK( from == wf and to == wt, which == 0 ? "extract_to" : which == 1 ? "extract_all" : "extract_matching", "extracting (%d) from %u to %u, key %d set %u", which,
			          from_mask, to_mask, key, drop );
		}
	}

	// ---- bounded moves ----------------------------------------------------------
	template<template<typename> class I, bool Back>
	void bounded_moves( ) {
		std::size_t const n = mc::choose( 5 );
		std::size_t const p = mc::choose( static_cast<unsigned>( n ) + 1 );
		Items v( n );
		auto const sz = static_cast<std::ptrdiff_t>( n );
		auto const at_p = static_cast<std::ptrdiff_t>( p );
		constexpr auto mx = std::numeric_limits<std::ptrdiff_t>::max( );
		constexpr auto mn = std::numeric_limits<std::ptrdiff_t>::min( );
		struct Cont {
			using value_type = Item;
			using iterator = I<Item>;
			using const_iterator = I<Item const>;
			Items *v;
			iterator begin( ) {
				return b<I>( *v );
			}
			iterator end( ) {
				return e<I>( *v );
			}
			const_iterator begin( ) const {
				return cb<I>( *v );
			}
			const_iterator end( ) const {
				return ce<I>( *v );
			}
			std::size_t size( ) const {
				return v->size( );
			}
		} c{ &v };
		auto clamp = [&]( std::ptrdiff_t d ) { return d > sz - at_p ? sz : d < -at_p ? 0 : at_p + d; };
		for( std::ptrdiff_t d : { std::ptrdiff_t{ 0 }, std::ptrdiff_t{ 1 }, std::ptrdiff_t{ 2 }, std::ptrdiff_t{ 3 }, std::ptrdiff_t{ 4 }, std::ptrdiff_t{ 5 }, std::ptrdiff_t{ 9 }, mx - 1, mx,
		                          std::ptrdiff_t{ -1 }, std::ptrdiff_t{ -2 }, std::ptrdiff_t{ -4 }, std::ptrdiff_t{ -5 }, mn, mn + 1 } ) {
			if( d >= 0 or Back ) {
				auto it = at<I>( v, p );
				daw::safe_advance( c, it, d );
				MC_CHECK( it.pos == clamp( d ), "safe_advance", "safe_advance from %zu of %zu by %td ends at %td", p, n, d, it.pos );
			}
			if( d >= 0 ) {
				auto const r = daw::safe_next( at<I>( v, p ), e<I>( v ), d );
				MC_CHECK( r.pos == clamp( d ), "safe_next", "safe_next from %zu of %zu by %td ends at %td", p, n, d, r.pos );
				if constexpr( Back ) {
					auto const q = daw::safe_prev( at<I>( v, p ), b<I>( v ), d );
					MC_CHECK( q.pos == clamp( -d ), "safe_prev", "safe_prev from %zu of %zu by %td ends at %td", p, n, d, q.pos );
				}
				auto const s = daw::begin_at( c, static_cast<std::size_t>( d ) );
				MC_CHECK( s.pos == ( d > sz ? sz : d ), "begin_at", "begin_at( %td ) of %zu is %td", d, n, s.pos );
			}
		}
		std::size_t const big[] = { static_cast<std::size_t>( -1 ), static_cast<std::size_t>( mx ) + 1U };
		for( auto d : big ) {
			auto it = at<I>( v, p );
			daw::safe_advance( c, it, d );
			MC_CHECK( it.pos == sz, "safe_advance", "safe_advance from %zu of %zu by %zu ends at %td", p, n, d, it.pos );
			MC_CHECK( daw::safe_next( at<I>( v, p ), e<I>( v ), d ).pos == sz, "safe_next", "safe_next from %zu of %zu by %zu", p, n, d );
			MC_CHECK( daw::begin_at( c, d ).pos == sz, "begin_at", "begin_at( %zu ) of %zu", d, n );
			if constexpr( Back ) {
				MC_CHECK( daw::safe_prev( at<I>( v, p ), b<I>( v ), d ).pos == 0, "safe_prev", "safe_prev from %zu of %zu by %zu", p, n, d );
			}
		}
		if( p < n ) {
			MC_CHECK( daw::safe_next( at<I>( v, p ), e<I>( v ) ).pos == at_p + 1, "safe_next", "safe_next from %zu of %zu", p, n );
		}
	}
	MC_TEST( bounded_moves_random ) {
		bounded_moves<Ra, true>( );
	}
	MC_TEST( bounded_moves_bidirectional ) {
		bounded_moves<Bidi, true>( );
	}

	MC_TEST( repeats ) {
		std::size_t const n = mc::choose( 70 );
		std::size_t calls = 0;
		da::do_n( n, [&]( std::size_t by ) { calls += by; }, 2U );
		MC_CHECK( calls == n * 2, "do_n", "do_n( %zu ) made %zu calls", n, calls / 2 );
		std::vector<std::size_t> args;
		da::do_n_arg( n, [&]( std::size_t i ) { args.push_back( i ); } );
		bool ok = args.size( ) == n;
		for( std::size_t i = 0; ok and i != n; ++i ) {
			ok = args[i] == i;
		}
		MC_CHECK( ok, "do_n_arg", "do_n_arg( %zu ) made %zu calls", n, args.size( ) );
		auto fixed = [&]( auto N ) {
			constexpr std::size_t K = decltype( N )::value;
			std::size_t c = 0;
			da::do_n<K>( [&] { ++c; } );
			std::vector<std::size_t> a;
			da::do_n_arg<K>( [&]( std::size_t i ) { a.push_back( i ); } );
			bool good = c == K and a.size( ) == K;
			for( std::size_t i = 0; good and i != K; ++i ) {
				good = a[i] == i;
			}
			MC_CHECK( good, "do_n_fixed", "do_n<%zu> made %zu and %zu calls", K, c, a.size( ) );
		};
		fixed( std::integral_constant<std::size_t, 0>{ } );
		fixed( std::integral_constant<std::size_t, 1>{ } );
		fixed( std::integral_constant<std::size_t, 2>{ } );
		fixed( std::integral_constant<std::size_t, 7>{ } );
		fixed( std::integral_constant<std::size_t, 40>{ } );
		std::vector<std::size_t> a;
		da::do_n_arg<6, 2>( [&]( std::size_t i ) { a.push_back( i ); } );
		MC_CHECK( ( a == std::vector<std::size_t>{ 0, 2, 4 } ), "do_n_fixed", "do_n_arg<6, 2> made %zu calls", a.size( ) );
	}
	MC_TEST( try_gets ) {
		unsigned const m = mc::choose( 16 );
		std::map<int, int> c;
		for( int i = 0; i != 4; ++i ) {
			if( ( m >> i ) & 1U ) {
				c[i] = i * 10;
			}
		}
		for( int k = -1; k <= 4; ++k ) {
			auto const r = daw::try_get( c, k );
			auto const r2 = daw::try_get( std::as_const( c ), k );
			bool const in = c.contains( k );
			MC_CHECK( r.has_value( ) == in and r2.has_value( ) == in, "try_get", "try_get( %d ) of %u", k, m );
			MC_CHECK( not in or ( r->second == k * 10 and r2->second == k * 10 and r->first == k ), "try_get", "try_get( %d ) of %u has the wrong value", k, m );
		}
	}
} // namespace
