// A01: algorithms that only read their range.  Every range up to a length over
// a small alphabet, every predicate over that alphabet, every needle; checked
// iterators report any step or access outside the range.
#include "mc.h"

#include "mc_iter.inc"

#include <algorithm>
#include <array>
#include <functional>
#include <numeric>
#include <optional>
#include <stdexcept>

#include "daw/algorithms/daw_algorithm_accumulate.h"
#include "daw/algorithms/daw_algorithm_adjacent_find.h"
#include "daw/algorithms/daw_algorithm_find.h"
#include "daw/algorithms/daw_algorithm_find_transform.h"
#include "daw/algorithms/daw_array_compare.h"
#include "daw/daw_algorithm.h"

namespace {
	using namespace chk;
	namespace da = daw::algorithm;

	constexpr unsigned AB = 3;

	// unary predicate given by the set of keys it accepts; records its calls
	struct Pred {
		unsigned mask;
		std::vector<int> *calls = nullptr;
		bool operator( )( Item const &x ) const {
			if( calls ) {
				calls->push_back( x.id );
			}
			return ( mask >> x.key ) & 1U;
		}
	};
	struct Less { // order by key through a permutation of the alphabet
		bool rev = false;
		bool operator( )( Item const &a, Item const &b ) const {
			return rev ? b.key < a.key : a.key < b.key;
		}
	};

	unsigned len( int q, int t ) {
		return static_cast<unsigned>( mc::by_tier( q, t ) );
	}

	void calls_are_prefix( char const *name, std::vector<int> const &calls, std::size_t n ) {
		bool ok = calls.size( ) == n;
		for( std::size_t i = 0; ok and i != n; ++i ) {
			ok = calls[i] == static_cast<int>( i );
		}
		MC_CHECK( ok, "predicate_calls", "%s called its predicate on %s, expected the first %zu elements in order", name, show( calls ).c_str( ), n );
	}

	template<template<typename> class I>
	void with_pred( ) {
		auto const v = items( len( 5, 7 ), AB );
		unsigned const m = mc::choose( 1U << AB );
		std::vector<int> calls;
		calls.reserve( 200 );
		Pred const p{ m, &calls };
		auto const B = cb<I>( v );
		auto const E = ce<I>( v );
		auto const sz = static_cast<std::ptrdiff_t>( v.size( ) );
		std::ptrdiff_t first_in = 0;
		while( first_in != sz and not( ( m >> v[static_cast<std::size_t>( first_in )].key ) & 1U ) ) {
			++first_in;
		}
		std::ptrdiff_t first_out = 0;
		while( first_out != sz and ( ( m >> v[static_cast<std::size_t>( first_out )].key ) & 1U ) ) {
			++first_out;
		}
		auto const upto = [&]( std::ptrdiff_t k ) { return static_cast<std::size_t>( k == sz ? sz : k + 1 ); };
		auto pos = [&]( char const *name, std::ptrdiff_t got, std::ptrdiff_t want, std::size_t ncalls ) {
			MC_CHECK( got == want, "wrong_position", "%s over %s with predicate %u is %td, expected %td", name, show( v ).c_str( ), m, got, want );
			calls_are_prefix( name, calls, ncalls );
			calls.clear( );
		};
		auto yes = [&]( char const *name, bool got, bool want, std::size_t ncalls ) {
			MC_CHECK( got == want, "wrong_answer", "%s over %s with predicate %u is %d", name, show( v ).c_str( ), m, got );
			calls_are_prefix( name, calls, ncalls );
			calls.clear( );
		};
		mc::count_case( );
		pos( "find_if", da::find_if( B, E, p ).pos, first_in, upto( first_in ) );
		pos( "find_if_not", da::find_if_not( B, E, p ).pos, first_out, upto( first_out ) );
		pos( "find_first_of", da::find_first_of( B, E, p ).pos, first_in, upto( first_in ) );
		yes( "all_of", da::all_of( B, E, p ), first_out == sz, upto( first_out ) );
		yes( "any_of", da::any_of( B, E, p ), first_in != sz, upto( first_in ) );
		yes( "none_of", da::none_of( B, E, p ), first_in == sz, upto( first_in ) );
		yes( "contains_if", da::contains_if( B, E, p ), first_in != sz, upto( first_in ) );
		yes( "contains_if (sentinel)", da::contains_if( B, Sent{ sz }, p ), first_in != sz, upto( first_in ) );
		{
			auto const r = da::find_index_if( B, E, p );
			pos( "find_index_if", r ? static_cast<std::ptrdiff_t>( *r ) : sz, first_in, upto( first_in ) );
			MC_CHECK( r.has_value( ) == ( first_in != sz ), "wrong_answer", "find_index_if over %s with predicate %u", show( v ).c_str( ), m );
		}
		pos( "find_index_of_if", static_cast<std::ptrdiff_t>( da::find_index_of_if( B, E, p ) ), first_in, upto( first_in ) );
		pos( "count_if", static_cast<std::ptrdiff_t>( da::count_if( B, Sent{ sz }, p ) ),
		     std::count_if( v.begin( ), v.end( ), Pred{ m } ), v.size( ) );
		pos( "count_if<int>", da::count_if<int>( B, E, p ), std::count_if( v.begin( ), v.end( ), Pred{ m } ), v.size( ) );
		// last element of the leading run
		pos( "find_last_of", da::find_last_of( B, E, p ).pos, first_out == 0 ? sz : first_out - 1, upto( first_out ) );
		{
			auto const r = da::find_first_range_of( B, E, p );
			std::ptrdiff_t run = first_in;
			while( run != sz and ( ( m >> v[static_cast<std::size_t>( run )].key ) & 1U ) ) {
				++run;
			}
			MC_CHECK( r.first.pos == first_in and r.second.pos == run, "wrong_position", "find_first_range_of over %s with predicate %u is [%td,%td), expected [%td,%td)",
			          show( v ).c_str( ), m, r.first.pos, r.second.pos, first_in, run );
			calls.clear( );
		}
		yes( "satisfies_one", da::satisfies_one( B, E, p ), first_in != sz, upto( first_in ) );
		yes( "satisfies_all", da::satisfies_all( B, E, p ), first_out == sz, upto( first_out ) );
		{
			std::vector<int> seen;
			da::for_each_if( B, E, p, [&]( Item const &x ) { seen.push_back( x.id ); } );
			std::vector<int> want;
			for( auto const &x : v ) {
				if( ( m >> x.key ) & 1U ) {
					want.push_back( x.id );
				}
			}
			MC_CHECK( seen == want, "for_each_if_calls", "for_each_if over %s with predicate %u visited %s", show( v ).c_str( ), m, show( seen ).c_str( ) );
			calls_are_prefix( "for_each_if", calls, v.size( ) );
			calls.clear( );
		}
		{
			auto const r = da::find_transform( B, E, []( Item const &x ) { return Item{ x.key, x.id + 100 }; }, [&]( Item const &x ) { return ( m >> x.key ) & 1U; } );
			MC_CHECK( r.iterator.pos == first_in and r.value.has_value( ) == ( first_in != sz ) and static_cast<bool>( r ) == ( first_in != sz ), "wrong_position",
			          "find_transform over %s with predicate %u is %td", show( v ).c_str( ), m, r.iterator.pos );
			MC_CHECK( first_in == sz or r.value->id == 100 + static_cast<int>( first_in ), "find_transform_value", "find_transform over %s returned the wrong value",
			          show( v ).c_str( ) );
		}
	}
	CHK_SHORT_AND_LONG( unary_predicate_forward ) {
		with_pred<Fwd>( );
	}
	CHK_SHORT_AND_LONG( unary_predicate_random ) {
		with_pred<Ra>( );
	}

	CHK_SHORT_AND_LONG( two_predicates ) {
		auto const v = items( len( 3, 4 ), AB );
		unsigned const m1 = mc::choose( 8 );
		unsigned const m2 = mc::choose( 8 );
		Pred const p{ m1 }, q{ m2 };
		auto const B = cb<Fwd>( v );
		auto const E = ce<Fwd>( v );
		auto const in = []( unsigned m, Item const &x ) { return ( ( m >> x.key ) & 1U ) != 0; };
		bool any = false, all = true;
		std::size_t first = v.size( );
		for( std::size_t i = 0; i != v.size( ); ++i ) {
			bool const a = in( m1, v[i] ), b = in( m2, v[i] );
			any = any or a or b;
			all = all and a and b;
			if( first == v.size( ) and ( a or b ) ) {
				first = i;
			}
		}
		MC_CHECK( da::satisfies_one( B, E, p, q ) == any, "wrong_answer", "satisfies_one over %s with %u, %u is not %d", show( v ).c_str( ), m1, m2, any );
		MC_CHECK( da::satisfies_all( B, E, p, q ) == all, "wrong_answer", "satisfies_all over %s with %u, %u is not %d", show( v ).c_str( ), m1, m2, all );
		for( auto const &x : v ) {
			MC_CHECK( da::satisfies_one( x, p, q ) == ( in( m1, x ) or in( m2, x ) ), "wrong_answer", "satisfies_one of %d with %u, %u", x.key, m1, m2 );
			MC_CHECK( da::satisfies_all( x, p, q ) == ( in( m1, x ) and in( m2, x ) ), "wrong_answer", "satisfies_all of %d with %u, %u", x.key, m1, m2 );
		}
		{
			auto const r = da::find_some( B, E, p, q );
			bool ok = static_cast<std::size_t>( r.position.pos ) == first;
			if( ok and first != v.size( ) ) {
				ok = r.results[0] == in( m1, v[first] ) and r.results[1] == in( m2, v[first] );
			} else if( ok ) {
				ok = not r.results[0] and not r.results[1];
			}
			MC_CHECK( ok, "find_some", "find_some over %s with %u, %u stops at %td with %d %d", show( v ).c_str( ), m1, m2, r.position.pos, r.results[0], r.results[1] );
		}
		{
			auto const r = da::find_one_of( B, E, p, q );
			std::size_t const idx = first == v.size( ) ? static_cast<std::size_t>( -1 ) : in( m1, v[first] ) ? 0U : 1U;
			MC_CHECK( static_cast<std::size_t>( r.position.pos ) == first and r.index == idx, "find_one_of", "find_one_of over %s with %u, %u is (%td, %zu)", show( v ).c_str( ), m1,
			          m2, r.position.pos, r.index );
		}
	}

	template<template<typename> class I>
	void with_needle( ) {
		auto const v = items( len( 5, 7 ), AB );
		Item const x{ static_cast<int>( mc::choose( AB + 1 ) ), 99 };
		auto const B = cb<I>( v );
		auto const E = ce<I>( v );
		auto const sz = static_cast<std::ptrdiff_t>( v.size( ) );
		auto const at = std::find( v.begin( ), v.end( ), x ) - v.begin( );
		auto pos = [&]( char const *name, std::ptrdiff_t got ) {
			MC_CHECK( got == at, "wrong_position", "%s of %d in %s is %td, expected %td", name, x.key, show( v ).c_str( ), got, at );
		};
		pos( "find", da::find( B, E, x ).pos );
		auto const i = da::find_index( B, E, x );
		pos( "find_index", i ? static_cast<std::ptrdiff_t>( *i ) : sz );
		pos( "find_index_of", static_cast<std::ptrdiff_t>( da::find_index_of( B, E, x ) ) );
		MC_CHECK( da::contains( B, E, x ) == ( at != sz ), "wrong_answer", "contains %d in %s", x.key, show( v ).c_str( ) );
		bool const gt = std::any_of( v.begin( ), v.end( ), [&]( Item const &y ) { return x < y; } );
		MC_CHECK( da::contains( B, Sent{ sz }, x, []( Item const &a, Item const &b ) { return b < a; } ) == gt, "wrong_answer", "contains with a comparison of %d in %s", x.key,
		          show( v ).c_str( ) );
		// extrema
		auto const mx = da::max_element( B, E ).pos;
		MC_CHECK( mx == std::max_element( v.begin( ), v.end( ) ) - v.begin( ), "wrong_position", "max_element of %s is %td", show( v ).c_str( ), mx );
		auto const mn = da::max_element( B, E, Less{ true } ).pos;
		MC_CHECK( mn == std::max_element( v.begin( ), v.end( ), Less{ true } ) - v.begin( ), "wrong_position", "max_element (reversed) of %s is %td", show( v ).c_str( ), mn );
		for( bool rev : { false, true } ) {
			auto const r = da::minmax_element( B, E, Less{ rev } );
			auto const w = std::minmax_element( v.begin( ), v.end( ), Less{ rev } );
			MC_CHECK( r.min_element.pos == w.first - v.begin( ) and r.max_element.pos == w.second - v.begin( ), "minmax_element",
			          "minmax_element of %s (reversed %d) is %td, %td, expected %td, %td", show( v ).c_str( ), rev, r.min_element.pos, r.max_element.pos,
			          w.first - v.begin( ), w.second - v.begin( ) );
			auto const u = std::is_sorted_until( v.begin( ), v.end( ), Less{ rev } ) - v.begin( );
			MC_CHECK( da::is_sorted_until( B, E, Less{ rev } ).pos == u, "wrong_position", "is_sorted_until of %s (reversed %d) is not %td", show( v ).c_str( ), rev, u );
			MC_CHECK( da::is_sorted( B, E, Less{ rev } ) == ( u == sz ), "wrong_answer", "is_sorted of %s (reversed %d)", show( v ).c_str( ), rev );
		}
		MC_CHECK( da::is_sorted( B, E ) == std::is_sorted( v.begin( ), v.end( ) ), "wrong_answer", "is_sorted of %s", show( v ).c_str( ) );
		{
			auto const a = std::adjacent_find( v.begin( ), v.end( ), Less{ } ) - v.begin( );
			MC_CHECK( da::adjacent_find( B, E, Less{ } ).pos == a, "wrong_position", "adjacent_find (ascending) of %s is not %td", show( v ).c_str( ), a );
			auto const q = std::adjacent_find( v.begin( ), v.end( ) ) - v.begin( );
			MC_CHECK( da::adjacent_find( B, E, std::equal_to<>{ } ).pos == q, "wrong_position", "adjacent_find (equal) of %s is not %td", show( v ).c_str( ), q );
			bool const ae = std::adjacent_find( v.begin( ), v.end( ), std::not_equal_to<>{ } ) == v.end( );
			MC_CHECK( da::all_equal<>{ }( B, E ) == ae, "wrong_answer", "all_equal of %s", show( v ).c_str( ) );
		}
	}
	CHK_SHORT_AND_LONG( needle_forward ) {
		with_needle<Fwd>( );
	}
	CHK_SHORT_AND_LONG( needle_random ) {
		with_needle<Ra>( );
	}
	CHK_SHORT_AND_LONG( needle_find_unsorted ) {
		auto const v = items( len( 6, 8 ), AB );
		auto const r = da::find_unsorted( cb<Ra>( v ), ce<Ra>( v ) ).pos;
		auto const u = std::is_sorted_until( v.begin( ), v.end( ) ) - v.begin( );
		auto const want = u == static_cast<std::ptrdiff_t>( v.size( ) ) ? u : u - 1;
		MC_CHECK( r == want, "find_unsorted", "find_unsorted of %s is %td, expected %td", show( v ).c_str( ), r, want );
	}

	template<template<typename> class I>
	void sorted_search( ) {
		unsigned const n = long_items ? mc::pick( { 15U, 16U, 17U, 33U, 64U } ) : mc::choose( len( 8, 11 ) );
		unsigned const period = long_items ? 1 + mc::choose( 4 ) : n;
		Items v( n );
		int k = 0;
		std::vector<int> steps;
		for( unsigned i = 0; i != n; ++i ) {
			steps.push_back( i < period ? static_cast<int>( mc::choose( 3 ) ) : steps[i - period] );
			k += steps.back( );
			v[i] = { k, static_cast<int>( i ) };
		}
		bool const rev = mc::choose( 2 );
		if( rev ) {
			std::reverse( v.begin( ), v.end( ) );
		}
		for( int x = -1; x <= k + 1; ++x ) {
			mc::count_case( );
			Item const y{ x, 0 };
			auto const lo = std::lower_bound( v.begin( ), v.end( ), y, Less{ rev } ) - v.begin( );
			auto const hi = std::upper_bound( v.begin( ), v.end( ), y, Less{ rev } ) - v.begin( );
			auto const l = da::lower_bound( cb<I>( v ), ce<I>( v ), y, Less{ rev } ).pos;
			MC_CHECK( l == lo, "wrong_position", "lower_bound of %d in %s is %td, expected %td", x, show( v ).c_str( ), l, lo );
			auto const h = da::upper_bound( cb<I>( v ), ce<I>( v ), y, Less{ rev } ).pos;
			MC_CHECK( h == hi, "wrong_position", "upper_bound of %d in %s is %td, expected %td", x, show( v ).c_str( ), h, hi );
			if( not rev ) {
				MC_CHECK( da::lower_bound( cb<I>( v ), ce<I>( v ), y ).pos == lo, "wrong_position", "lower_bound of %d in %s (default order)", x, show( v ).c_str( ) );
				MC_CHECK( da::upper_bound( cb<I>( v ), ce<I>( v ), y ).pos == hi, "wrong_position", "upper_bound of %d in %s (default order)", x, show( v ).c_str( ) );
			}
			if constexpr( I<Item>::ra ) {
				if( n > 0 ) {
					auto const f = da::binary_search( cb<I>( v ), ce<I>( v ), y, Less{ rev } ).pos;
					bool const present = lo != hi;
					MC_CHECK( present ? ( lo <= f and f < hi ) : f == static_cast<std::ptrdiff_t>( n ), "binary_search", "binary_search of %d in %s is %td", x, show( v ).c_str( ), f );
				}
			}
		}
	}
	CHK_SHORT_AND_LONG( sorted_forward ) {
		sorted_search<Fwd>( );
	}
	CHK_SHORT_AND_LONG( sorted_random ) {
		sorted_search<Ra>( );
	}

	// ---- two ranges -----------------------------------------------------------
	CHK_SHORT_AND_LONG( two_ranges ) {
		auto const v = items( len( 4, 5 ), 3 );
		Items w;
		if( long_items ) {
			// a part of the other sequence, with at most one element changed
			std::size_t const n = v.size( );
			std::size_t const at = mc::pick( { std::size_t{ 0 }, std::size_t{ 1 }, n / 2 } );
			w.assign( v.begin( ) + static_cast<std::ptrdiff_t>( at ), v.end( ) - static_cast<std::ptrdiff_t>( mc::choose( 3 ) ) );
			if( unsigned const c = mc::choose( 3 ); c != 0 ) {
				auto &x = c == 1 ? w.front( ) : w.back( );
				x.key = ( x.key + 1 ) % 3;
			}
		} else {
			w = items( len( 4, 4 ), 3, 50 );
		}
		bool const rev = mc::choose( 2 );
		auto const B = cb<Fwd>( v );
		auto const E = ce<Fwd>( v );
		auto const B2 = cb<Fwd>( w );
		auto const E2 = ce<Fwd>( w );
		auto both = [&] { return show( v ) + " and " + show( w ); };
		bool const eq = std::equal( v.begin( ), v.end( ), w.begin( ), w.end( ) );
		MC_CHECK( da::equal( B, E, B2, E2 ) == eq, "wrong_answer", "equal of %s", both( ).c_str( ) );
		MC_CHECK( da::not_equal( B, E, B2, E2 ) == not eq, "wrong_answer", "not_equal of %s is %d", both( ).c_str( ), eq );
		auto const approx = []( Item const &a, Item const &b ) { return a.key - b.key <= 1 and b.key - a.key <= 1; };
		MC_CHECK( da::equal( B, E, B2, E2, approx ) == std::equal( v.begin( ), v.end( ), w.begin( ), w.end( ), approx ), "wrong_answer", "equal (within one) of %s",
		          both( ).c_str( ) );
		if( v.size( ) <= w.size( ) ) {
			bool const pe = std::equal( v.begin( ), v.end( ), w.begin( ) );
			MC_CHECK( da::equal( B, E, B2 ) == pe, "wrong_answer", "equal (open) of %s", both( ).c_str( ) );
			MC_CHECK( da::not_equal( B, E, B2 ) == not pe, "wrong_answer", "not_equal (open) of %s is %d", both( ).c_str( ), pe );
		}
		bool const lt = std::lexicographical_compare( v.begin( ), v.end( ), w.begin( ), w.end( ), Less{ rev } );
		MC_CHECK( da::lexicographical_compare( B, E, B2, E2, Less{ rev } ) == lt, "wrong_answer", "lexicographical_compare of %s (reversed %d) is not %d", both( ).c_str( ), rev, lt );
		bool const gt = std::lexicographical_compare( w.begin( ), w.end( ), v.begin( ), v.end( ), Less{ rev } );
		int const want = lt ? -1 : gt ? 1 : 0;
		int const got = da::compare_range( B, E, B2, E2, Less{ rev } );
		MC_CHECK( ( got < 0 ? -1 : got > 0 ? 1 : 0 ) == want, "wrong_answer", "compare_range of %s (reversed %d) is %d, expected %d", both( ).c_str( ), rev, got, want );
		auto const s = std::search( v.begin( ), v.end( ), w.begin( ), w.end( ) ) - v.begin( );
		MC_CHECK( da::search( B, E, B2, E2 ).pos == s, "wrong_position", "search in %s is %td, expected %td", both( ).c_str( ), da::search( B, E, B2, E2 ).pos, s );
		auto const f = std::find_first_of( v.begin( ), v.end( ), w.begin( ), w.end( ) ) - v.begin( );
		MC_CHECK( da::find_first_of( B, E, B2, E2 ).pos == f, "wrong_position", "find_first_of in %s is not %td", both( ).c_str( ), f );
	}
	CHK_SHORT_AND_LONG( search_long ) {
		auto const v = items( len( 7, 9 ), 2 );
		Items w;
		if( long_items ) {
			std::size_t const n = mc::pick( { std::size_t{ 2 }, std::size_t{ 9 }, std::size_t{ 16 } } );
			w = repeated( n, 2, 2, 50 );
		} else {
			w = items( 3, 2, 50 );
		}
		auto const s = std::search( v.begin( ), v.end( ), w.begin( ), w.end( ) ) - v.begin( );
		auto const g = da::search( cb<Fwd>( v ), ce<Fwd>( v ), cb<Fwd>( w ), ce<Fwd>( w ) ).pos;
		MC_CHECK( g == s, "wrong_position", "search in %s for %s is %td, expected %td", show( v ).c_str( ), show( w ).c_str( ), g, s );
		auto const less_eq = []( Item const &a, Item const &b ) { return a.key <= b.key; };
		auto const s2 = std::search( v.begin( ), v.end( ), w.begin( ), w.end( ), less_eq ) - v.begin( );
		auto const g2 = da::search( cb<Fwd>( v ), ce<Fwd>( v ), cb<Fwd>( w ), ce<Fwd>( w ), less_eq ).pos;
		MC_CHECK( g2 == s2, "wrong_position", "search (<=) in %s for %s is %td, expected %td", show( v ).c_str( ), show( w ).c_str( ), g2, s2 );
	}

	// the library asks for operations whose result converts to bool
	struct Acc {
		std::string s;
		operator bool( ) const {
			return true;
		}
	};

	// ---- folds: the exact sequence of calls -----------------------------------
	CHK_SHORT_AND_LONG( folds ) {
		auto const v = items( len( 5, 7 ), 2 );
		auto const sz = static_cast<std::ptrdiff_t>( v.size( ) );
		auto const B = cb<Fwd>( v );
		auto const op = []( std::string acc, Item const &x ) { return acc + "(" + std::to_string( x.key ) + "," + std::to_string( x.id ) + ")"; };
		auto const want = std::accumulate( v.begin( ), v.end( ), std::string( "i" ), op );
		MC_CHECK( da::accumulate( B, ce<Fwd>( v ), std::string( "i" ), op ) == want, "fold_order", "accumulate of %s with an operation", show( v ).c_str( ) );
		MC_CHECK( da::accumulate( B, Sent{ sz }, std::string( "i" ), op ) == want, "fold_order", "accumulate of %s with an operation and sentinel", show( v ).c_str( ) );
		auto const aop = []( Acc acc, Item const &x ) { return Acc{ acc.s + "(" + std::to_string( x.key ) + "," + std::to_string( x.id ) + ")" }; };
		MC_CHECK( da::reduce( B, ce<Fwd>( v ), Acc{ "i" }, aop ).s == want, "fold_order", "reduce of %s", show( v ).c_str( ) );
		MC_CHECK( da::reduce( B, Sent{ sz }, Acc{ "i" }, aop ).s == want, "fold_order", "reduce of %s with sentinel", show( v ).c_str( ) );
		std::vector<std::string> s;
		std::string all = "x";
		for( auto const &x : v ) {
			s.push_back( std::string( 1, static_cast<char>( 'a' + x.key * 8 + x.id ) ) );
			all += s.back( );
		}
		MC_CHECK( da::accumulate( cb<Fwd>( s ), ce<Fwd>( s ), std::string( "x" ) ) == all, "fold_order", "accumulate of strings is not %s", all.c_str( ) );
		auto const w = items( 5, 1, 50 );
		if( w.size( ) >= v.size( ) ) {
			std::string mr = "i";
			for( std::size_t i = 0; i != v.size( ); ++i ) {
				mr += "<" + std::to_string( v[i].id ) + std::to_string( w[i].id ) + ">";
			}
			auto const red = []( Acc a, Acc const &x ) { return Acc{ a.s + "<" + x.s + ">" }; };
			auto const map = []( Item const &a, Item const &b ) { return Acc{ std::to_string( a.id ) + std::to_string( b.id ) }; };
			MC_CHECK( da::map_reduce( B, ce<Fwd>( v ), cb<Fwd>( w ), Acc{ "i" }, red, map ).s == mr, "fold_order", "map_reduce of %s", show( v ).c_str( ) );
			std::string cp;
			da::cartesian_product( [&]( Item const &a, Item const &b ) { cp += std::to_string( a.id ) + "-" + std::to_string( b.id ) + ";"; }, B, ce<Fwd>( v ), cb<Fwd>( w ) );
			std::string cpw;
			for( std::size_t i = 0; i != v.size( ); ++i ) {
				cpw += std::to_string( v[i].id ) + "-" + std::to_string( w[i].id ) + ";";
			}
			MC_CHECK( cp == cpw, "cartesian_product", "cartesian_product called %s, expected %s", cp.c_str( ), cpw.c_str( ) );
		}
	}

	// ---- values ---------------------------------------------------------------
	MC_TEST( value_helpers ) {
		int const a = mc::choose_range( -2, 2 );
		int const b = mc::choose_range( -2, 2 );
		int const c = mc::choose_range( -2, 2 );
		int const d = mc::choose_range( -2, 2 );
		MC_CHECK( da::min_item( a, b, c, d ) == std::min( { a, b, c, d } ), "min_item", "min_item( %d, %d, %d, %d )", a, b, c, d );
		MC_CHECK( da::max_item( a, b, c, d ) == std::max( { a, b, c, d } ), "max_item", "max_item( %d, %d, %d, %d )", a, b, c, d );
		auto const *mn = &da::min_item( a, b, c, d );
		MC_CHECK( mn == &a or mn == &b or mn == &c or mn == &d, "min_item_reference", "min_item does not refer to an argument" );
		MC_CHECK( da::are_equal( a, b ) == ( a == b ), "are_equal", "are_equal( %d, %d )", a, b );
		MC_CHECK( da::are_equal( a, b, c ) == ( a == b and b == c ), "are_equal", "are_equal( %d, %d, %d )", a, b, c );
		MC_CHECK( da::are_equal( a, b, c, d ) == ( a == b and b == c and c == d ), "are_equal", "are_equal( %d, %d, %d, %d )", a, b, c, d );
		MC_CHECK( da::are_equal( a ), "are_equal", "are_equal( %d )", a );
		Item const x{ a, 0 }, y{ b, 1 };
		auto const mm = da::minmax_item( x, y );
		auto const wm = std::minmax( x, y );
		MC_CHECK( same( mm.first, wm.first ) and same( mm.second, wm.second ), "minmax_item", "minmax_item( %d, %d )", a, b );
		auto const mr = da::minmax_item( x, y, Less{ true } );
		auto const wr = std::minmax( x, y, Less{ true } );
		MC_CHECK( same( mr.first, wr.first ) and same( mr.second, wr.second ), "minmax_item", "minmax_item( %d, %d ) reversed", a, b );
		MC_CHECK( da::clamp( int{ a }, int{ b } ) == std::min( a, b ), "clamp", "clamp( %d, %d )", a, b );
		MC_CHECK( da::equal_to( b )( a ) == ( a == b ), "comparison", "equal_to( %d )( %d )", b, a );
		MC_CHECK( da::less_than( b )( a ) == ( a < b ), "comparison", "less_than( %d )( %d )", b, a );
		MC_CHECK( da::greater_than( b )( a ) == ( a > b ), "comparison", "greater_than( %d )( %d )", b, a );
		MC_CHECK( da::less_than_or_equal_to( b )( a ) == ( a <= b ), "comparison", "less_than_or_equal_to( %d )( %d )", b, a );
		MC_CHECK( da::greater_than_or_equal_to( b )( a ) == ( a >= b ), "comparison", "greater_than_or_equal_to( %d )( %d )", b, a );
		bool threw = false;
		bool in = false;
		try {
			in = da::in_range( int{ b }, int{ c } )( a );
		} catch( std::out_of_range const & ) {
			threw = true;
		}
		MC_CHECK( threw == ( b > c ), "in_range_bounds", "in_range( %d, %d ) %s", b, c, threw ? "throws" : "accepts" );
		MC_CHECK( threw or in == ( b <= a and a <= c ), "comparison", "in_range( %d, %d )( %d )", b, c, a );
		// owning bounds
		auto str = []( int i ) { return std::string( 30, 'x' ) + static_cast<char>( 'm' + i ); };
		threw = false;
		try {
			in = da::in_range( str( b ), str( c ) )( str( a ) );
		} catch( std::out_of_range const & ) {
			threw = true;
		}
		MC_CHECK( threw == ( b > c ), "in_range_bounds", "in_range of strings %d, %d %s", b, c, threw ? "throws" : "accepts" );
		MC_CHECK( threw or in == ( b <= a and a <= c ), "comparison", "in_range of strings %d, %d of %d", b, c, a );
		MC_CHECK( da::equal_to( str( b ) )( str( a ) ) == ( a == b ), "comparison", "equal_to of strings %d, %d", b, a );
		MC_CHECK( da::less_than( str( b ) )( str( a ) ) == ( a < b ), "comparison", "less_than of strings %d, %d", b, a );
	}

	MC_TEST( arrays_compare ) {
		int a[2][2], b[2][2];
		for( auto &r : a ) {
			for( int &x : r ) {
				x = static_cast<int>( mc::choose( 2 ) );
			}
		}
		for( auto &r : b ) {
			for( int &x : r ) {
				x = static_cast<int>( mc::choose( 3 ) );
			}
		}
		int const fa[4] = { a[0][0], a[0][1], a[1][0], a[1][1] };
		int const fb[4] = { b[0][0], b[0][1], b[1][0], b[1][1] };
		bool const eq = std::equal( fa, fa + 4, fb );
		MC_CHECK( daw::array_cmp( a, b ) == eq, "array_cmp", "array_cmp of two-dimensional arrays is not %d", eq );
		MC_CHECK( daw::array_cmp( fa, fb ) == eq, "array_cmp", "array_cmp of arrays is not %d", eq );
		auto const want = std::lexicographical_compare_three_way( fa, fa + 4, fb, fb + 4 );
		MC_CHECK( daw::array_cmp( fa, fb, std::compare_three_way{ } ) == want, "array_cmp", "three-way array_cmp of arrays" );
		MC_CHECK( daw::array_cmp( a, b, std::compare_three_way{ } ) == want, "array_cmp", "three-way array_cmp of two-dimensional arrays" );
	}
} // namespace
