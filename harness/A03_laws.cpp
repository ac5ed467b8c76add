// A03: the laws of the iterator categories for every positional adaptor, at
// every pair of positions of every small range and parameter.
#include "A03.inc"
#include <limits>

#include <array>
#include <deque>
#include <list>
#include <memory>
#include <numeric>
#include <stdexcept>
#include <string>

#include "daw/cpp_17_iterator.h"
#include "daw/iterator/daw_argument_iterator.h"
#include "daw/iterator/daw_checked_iterator_proxy.h"
#include "daw/iterator/daw_chunk_iterator.h"
#include "daw/iterator/daw_circular_iterator.h"
#include "daw/iterator/daw_counting_iterators.h"
#include "daw/iterator/daw_indexed_iterator.h"
#include "daw/iterator/daw_integer_iterator.h"
#include "daw/iterator/daw_iota_iterator.h"
#include "daw/iterator/daw_pointer_iterator.h"
#include "daw/iterator/daw_repeat_n_char_iterator.h"
#include "daw/iterator/daw_reverse_iterator.h"
#include "daw/iterator/daw_zipiter.h"
#include "daw/wrap_iter.h"

namespace {
	MC_TEST( random_access_wrappers ) {
		int const n = any_len( );
		auto v = numbered( n );
		what = "adaptor";
		auto *const d = v.data( );
		if( n != 0 ) {
			laws( "pointer_iterator", n, [&]( int p ) { return daw::pointer_iterator<Item>( d + p ); }, reads( v ) );
			laws( "pointer_iterator<const>", n, [&]( int p ) { return daw::pointer_iterator<Item const>( d + p ); }, reads( v ) );
		}
		struct Tag {};
		laws( "wrap_iter", n, [&]( int p ) { return daw::wrap_iter<Item *, Tag>( d + p ); }, reads( v ) );
		laws( "indexed_iterator", n, [&]( int p ) { return daw::indexed_iterator<Items>( &v, static_cast<std::size_t>( p ) ); }, reads( v ) );
		laws( "indexed_iterator<const>", n, [&]( int p ) { return daw::indexed_iterator<Items const>( &v, static_cast<std::size_t>( p ) ); }, reads( v ) );
		std::deque<Item> q( v.begin( ), v.end( ) );
		laws( "indexed_iterator<deque>", n, [&]( int p ) { return daw::indexed_iterator<std::deque<Item>>( &q, static_cast<std::size_t>( p ) ); }, reads( q ) );
		walk( "ibegin", n, daw::ibegin( v ), daw::iend( v ), reads( v ) );
		walk( "cibegin", n, daw::cibegin( v ), daw::ciend( v ), reads( v ) );
		auto backward = [&]( auto it, int p ) { return reads( v )( it, n - 1 - p ); };
		laws( "reverse_iterator", n, [&]( int p ) { return daw::reverse_iterator( at<Ra>( v, static_cast<std::size_t>( n - p ) ) ); },
		      [&]( auto it, int p ) { return std::addressof( *it ) == d + ( n - 1 - p ); } );
		laws( "reverse_iterator<pointer>", n, [&]( int p ) { return daw::make_reverse_iterator( d + ( n - p ) ); }, backward );
		laws( "counting (forward)", n, [&]( int p ) { return daw::forward_counting_iterator( at<Fwd>( v, static_cast<std::size_t>( p ) ) ); },
		      [&]( auto it, int p ) { return std::addressof( *it ) == d + p; } );
		laws( "counting (bidirectional)", n, [&]( int p ) { return daw::bidirectional_counting_iterator( at<Bidi>( v, static_cast<std::size_t>( p ) ) ); },
		      [&]( auto it, int p ) { return std::addressof( *it ) == d + p; } );
	}
	MC_TEST( reverse_of_bidirectional ) {
		int const n = any_len( );
		auto v = numbered( n );
		what = "reverse_iterator";
		laws( "reverse_iterator<bidirectional>", n, [&]( int p ) { return daw::reverse_iterator( at<Bidi>( v, static_cast<std::size_t>( n - p ) ) ); },
		      [&]( auto it, int p ) { return std::addressof( *it ) == v.data( ) + ( n - 1 - p ); } );
		std::list<int> l;
		for( int i = 0; i != n; ++i ) {
			l.push_back( i );
		}
		walk( "reverse_iterator<list>", n, daw::make_reverse_iterator( l.end( ) ), daw::make_reverse_iterator( l.begin( ) ), [&]( auto it, int p ) { return *it == n - 1 - p; } );
		for( int p = 0; p <= n; ++p ) {
			auto const r = daw::make_reverse_iterator( v.data( ) + p );
			MC_CHECK( r.base( ) == v.data( ) + p, "base", "reverse_iterator base at %d of %d", p, n );
			for( int j = 0; j < p; ++j ) {
				MC_CHECK( &r[j] == v.data( ) + p - 1 - j, "index", "reverse_iterator[%d] from %d of %d", j, p, n );
			}
		}
	}

	template<template<typename> class It>
	void primitives( char const *name, Items &v ) {
		int const n = static_cast<int>( v.size( ) );
		what = name;
		constexpr bool back = std::is_base_of_v<std::bidirectional_iterator_tag, typename It<Item>::iterator_category>;
		for( int i = 0; i <= n; ++i ) {
			for( int j = back ? 0 : i; j <= n; ++j ) {
				auto const from = at<It>( v, static_cast<std::size_t>( i ) );
				auto const to = at<It>( v, static_cast<std::size_t>( j ) );
				auto a = from;
				daw::advance( a, j - i );
				MC_CHECK( a == to, "advance", "%s: advance %d from %d of %d", name, j - i, i, n );
				auto a2 = from;
				daw::advance( a2, static_cast<long long>( j - i ) );
				MC_CHECK( a2 == to, "advance", "%s: advance %d from %d of %d", name, j - i, i, n );
				MC_CHECK( daw::next( from, j - i ) == to, "next", "%s: next %d from %d of %d", name, j - i, i, n );
				if constexpr( back ) {
					MC_CHECK( daw::prev( from, i - j ) == to, "prev", "%s: prev %d from %d of %d", name, i - j, i, n );
				}
				if( i <= j or std::is_base_of_v<std::random_access_iterator_tag, typename It<Item>::iterator_category> ) {
					MC_CHECK( daw::distance( from, to ) == j - i, "distance", "%s: from %d to %d of %d", name, i, j, n );
				}
			}
			if( i < n ) {
				MC_CHECK( daw::next( at<It>( v, static_cast<std::size_t>( i ) ) ) == at<It>( v, static_cast<std::size_t>( i + 1 ) ), "next", "%s: from %d of %d", name, i, n );
			}
			if constexpr( back ) {
				if( i > 0 ) {
					MC_CHECK( daw::prev( at<It>( v, static_cast<std::size_t>( i ) ) ) == at<It>( v, static_cast<std::size_t>( i - 1 ) ), "prev", "%s: from %d of %d", name, i, n );
				}
			}
			mc::count_case( );
		}
	}
	MC_TEST( iterator_primitives ) {
		auto v = numbered( any_len( ) );
		primitives<Fwd>( "forward", v );
		primitives<Bidi>( "bidirectional", v );
		primitives<Ra>( "random access", v );
	}

	// a history of moves: the counted distance is the sum of the moves
	MC_TEST( counted_distance ) {
		int const n = static_cast<int>( mc::choose( 5 ) );
		auto v = numbered( n );
		what = "counting iterator";
		int const start = static_cast<int>( mc::choose( static_cast<unsigned>( n ) + 1 ) );
		daw::bidirectional_counting_iterator it( at<Bidi>( v, static_cast<std::size_t>( start ) ) );
		daw::forward_counting_iterator fw( at<Fwd>( v, static_cast<std::size_t>( start ) ) );
		int pos = start, fpos = start;
		std::string h;
		for( int step = 0; step != mc::by_tier( 5, 7 ); ++step ) {
			MC_CHECK( it.distance( ) == pos - start, "counted_distance", "bidirectional from %d of %d after%s is %d", start, n, h.c_str( ), static_cast<int>( it.distance( ) ) );
			MC_CHECK( fw.distance( ) == fpos - start, "counted_distance", "forward from %d of %d after%s is %d", start, n, h.c_str( ), static_cast<int>( fw.distance( ) ) );
			MC_CHECK( it == at<Bidi>( v, static_cast<std::size_t>( pos ) ) and at<Bidi>( v, static_cast<std::size_t>( pos ) ) == it, "counted_position", "bidirectional after%s", h.c_str( ) );
			switch( mc::choose( 4 ) ) {
			case 0:
				if( pos < n ) {
					++it, ++pos, h += " ++it";
				}
				if( fpos < n ) {
					++fw, ++fpos;
				}
				break;
			case 1:
				if( pos < n ) {
					it++, ++pos, h += " it++";
				}
				if( fpos < n ) {
					fw++, ++fpos;
				}
				break;
			case 2:
				if( pos > 0 ) {
					--it, --pos, h += " --it";
				}
				break;
			default:
				if( pos > 0 ) {
					it--, --pos, h += " it--";
				}
				break;
			}
			mc::step( );
		}
	}

	MC_TEST( chunks ) {
		int const size = 1 + static_cast<int>( mc::choose( 9 ) );
		int const n = any_len( );
		auto v = numbered( n * size );
		what = "chunk_iterator";
		auto const make = [&]( int p ) { return daw::chunk_iterator( at<Ra>( v, static_cast<std::size_t>( p * size ) ), static_cast<std::size_t>( size ) ); };
		laws( "chunk_iterator", n, make, [&]( auto it, int p ) {
			bool ok = true;
			for( int k = 0; k != size; ++k ) {
				ok = ok and it[static_cast<std::size_t>( k )].id == p * size + k;
			}
			return ok and std::addressof( *it ) == v.data( ) + p * size and it->id == p * size;
		} );
		auto const pm = [&]( int p ) { return daw::chunk_iterator( v.data( ) + p * size, static_cast<std::size_t>( size ) ); };
		laws( "chunk_iterator<pointer>", n, pm, [&]( auto it, int p ) { return &*it == v.data( ) + p * size and it->id == p * size; } );
	}

	// circular: a position is an index; every move from every position lands on
	// the index reduced modulo the size
	MC_TEST( circular ) {
		int const n = 1 + static_cast<int>( mc::choose( static_cast<unsigned>( mc::by_tier( 5, 8 ) ) ) );
		auto v = numbered( n );
		auto const idx = [&]( auto const &it ) { return static_cast<int>( std::addressof( *it ) - v.data( ) ); };
		auto const mod = [&]( int x ) { return ( ( x % n ) + n ) % n; };
		for( int p = 0; p <= n; ++p ) {
			using C = daw::circular_iterator<Items>;
			C const start = p == n ? C( v ).end( ) : daw::make_circular_iterator( v, v.begin( ) + p );
			if( p < n ) {
				MC_CHECK( idx( start ) == p and start->id == p, "circular_read", "position %d of %d", p, n );
			}
			for( int d = -3 * n; d <= 3 * n; ++d ) {
				C a = start, s = start;
				a += d;
				s -= -d;
				auto const pl = start + d, mi = start - ( -d );
				int const want = mod( p + d );
				for( auto const &x : { a, s, pl, mi } ) {
					auto const off = x - C( v );
					MC_CHECK( off >= 0 and off < n, "circular_leaves_range", "moving %d from %d of %d gives position %d", d, p, n, static_cast<int>( off ) );
					MC_CHECK( off == want and idx( x ) == want, "circular_move", "moving %d from %d of %d gives %d", d, p, n, static_cast<int>( off ) );
				}
				mc::count_case( );
			}
			C a = start, c = start;
			auto &r1 = ++a;
			auto const old = c++;
			MC_CHECK( &r1 == &a and idx( a ) == mod( p + 1 ) and a == c and old == start, "circular_increment", "from %d of %d", p, n );
			C e = start, f = start;
			auto &r2 = --e;
			auto const old2 = f--;
			auto const off = e - C( v );
			MC_CHECK( off >= 0 and off < n, "circular_leaves_range", "-- from %d of %d gives position %d", p, n, static_cast<int>( off ) );
			MC_CHECK( &r2 == &e and idx( e ) == mod( p - 1 ) and e == f and old2 == start, "circular_decrement", "from %d of %d", p, n );
			for( int q = 0; q < n; ++q ) {
				auto const o = daw::make_circular_iterator( v, v.begin( ) + q );
				MC_CHECK( ( start == o ) == ( p == q ) and ( start != o ) == ( p != q ) and ( start < o ) == ( p < q ) and ( start > o ) == ( p > q ) and ( start <= o ) == ( p <= q ) and
				            ( start >= o ) == ( p >= q ) and start - o == p - q,
				          "circular_order", "%d and %d of %d", p, q, n );
			}
		}
		// the longest moves there are, around and around
		constexpr auto lo = std::numeric_limits<std::ptrdiff_t>::min( );
		constexpr auto hi = std::numeric_limits<std::ptrdiff_t>::max( );
		for( int p = 0; p <= n; ++p ) {
			using C = daw::circular_iterator<Items>;
			C const start = p == n ? C( v ).end( ) : daw::make_circular_iterator( v, v.begin( ) + p );
			for( std::ptrdiff_t d : { lo, lo + 1, lo / 2 - 1, lo / 2, hi / 2, hi / 2 + 1, hi - 7, hi - 1, hi } ) {
				auto const turn = [&]( __int128 x ) { return static_cast<int>( ( ( x % n ) + n ) % n ); };
				int const fwd = turn( static_cast<__int128>( p ) + d ), bwd = turn( static_cast<__int128>( p ) - d );
				C a = start, s = start;
				a += d;
				s -= d;
				for( auto const &[x, want] : { std::pair( a, fwd ), std::pair( start + d, fwd ), std::pair( s, bwd ), std::pair( start - d, bwd ) } ) {
					MC_CHECK( x - C( v ) == want and idx( x ) == want, "circular_far", "moving %td from %d of %d gives %d", d, p, n, static_cast<int>( x - C( v ) ) );
				}
				mc::count_case( );
			}
		}
		// histories of moves
		daw::circular_iterator<Items> it( v );
		int pos = 0;
		for( int k = 0; k != mc::by_tier( 3, 5 ); ++k ) {
			static constexpr int moves[] = { 1, -1, 2, -2, 5, -5 };
			auto const m = mc::choose( 6 );
			if( m == 0 ) {
				++it;
			} else if( m == 1 ) {
				--it;
			} else {
				it += moves[m];
			}
			pos = mod( pos + moves[m] );
			MC_CHECK( it - daw::circular_iterator<Items>( v ) == pos and idx( it ) == pos, "circular_history", "size %d", n );
			mc::step( );
		}
		int arr[3] = { 1, 2, 3 };
		auto ai = daw::make_circular_iterator( arr );
		--ai;
		MC_CHECK( *ai == 3, "circular_array", "-- on an array gives %d", *ai );
	}

	template<typename T>
	void iota_of( char const *name, T first, int n, long step ) {
		using D = typename daw::iota_iterator<T>::difference_type;
		auto const val = [&]( int p ) { return static_cast<T>( static_cast<long>( first ) + step * p ); };
		auto const make = [&]( int p ) { return daw::iota_iterator<T>( val( p ), static_cast<D>( step ) ); };
		laws( name, n, make, [&]( auto it, int p ) {
			bool ok = *it == val( p );
			for( int j = -p; j < n - p; ++j ) {
				ok = ok and it[static_cast<D>( j )] == val( p + j );
			}
			return ok;
		} );
	}
	MC_TEST( iota_default ) { // a default constructed one counts from zero by one
		int const n = static_cast<int>( mc::choose( 5 ) );
		auto it = daw::iota_iterator<int>{ };
		auto du = daw::iota_iterator<unsigned char>{ };
		auto dd = daw::iota_iterator<double>{ };
		for( int i = 0; i != n; ++i ) {
			++it;
			du++;
			++dd;
		}
		MC_CHECK( *it == n and *du == n and *dd == n, "iota_default", "after %d steps at %d, %d, %g", n, *it, int( *du ), *dd );
		MC_CHECK( it - daw::iota_iterator<int>{ } == n, "iota_default", "distance after %d steps", n );
	}
	MC_TEST( iota_laws ) {
		long const step = std::array<long, 5>{ 1, 2, 3, -1, -3 }[mc::choose( 5 )];
		int const n = static_cast<int>( mc::choose( len( ) ) );
		long const base = step < 0 ? 20 : 0;
		iota_of<int>( "iota<int>", static_cast<int>( base - 4 ), n, step );
		iota_of<unsigned>( "iota<unsigned>", static_cast<unsigned>( base ), n, step );
		iota_of<std::size_t>( "iota<size_t>", static_cast<std::size_t>( base + 1 ), n, step );
		iota_of<signed char>( "iota<signed char>", static_cast<signed char>( step > 0 ? -128 : 127 ), n, step );
		iota_of<unsigned char>( "iota<unsigned char>", static_cast<unsigned char>( step > 0 ? 200 : 255 ), n, step );
		iota_of<unsigned short>( "iota<unsigned short>", static_cast<unsigned short>( step > 0 ? 65000 : 65535 ), n, step );
		iota_of<long long>( "iota<long long>", static_cast<long long>( base - 2 ), n, step );
		iota_of<double>( "iota<double>", static_cast<double>( base ), n, step );
	}
	template<typename T>
	void ranges( char const *name ) {
		int const a = static_cast<int>( mc::choose( 8 ) );
		int const b = static_cast<int>( mc::choose( 8 ) );
		int const step = std::array<int, 6>{ 1, 2, 3, 5, -1, -2 }[mc::choose( 6 )];
		std::vector<int> want, got;
		for( int x = a; step > 0 ? x < b : x > b; x += step ) {
			want.push_back( x );
		}
		using D = typename daw::iota_iterator<T>::difference_type;
		auto const fill = [&]( auto const &r ) {
			got.clear( );
			for( auto it = r.begin( ); it != r.end( ); ++it ) {
				MC_CHECK( got.size( ) < 20, "iota_range_endless", "%s [%d,%d) by %d runs past its end", name, a, b, step );
				got.push_back( static_cast<int>( *it ) );
			}
		};
		daw::iota_range<T> const r( static_cast<T>( a ), static_cast<T>( b ), static_cast<D>( step ) );
		fill( r );
		MC_CHECK( same( got, want ), "iota_range", "%s [%d,%d) by %d gave %s", name, a, b, step, show( got ).c_str( ) );
		for( std::size_t i = 0; i != want.size( ); ++i ) {
			MC_CHECK( static_cast<int>( r[static_cast<D>( i )] ) == want[i], "iota_range_index", "%s [%d,%d) by %d at %zu", name, a, b, step, i );
		}
		if( std::is_integral_v<T> ) {
			MC_CHECK( static_cast<std::size_t>( r.end( ) - r.begin( ) ) == want.size( ), "iota_range_size", "%s [%d,%d) by %d", name, a, b, step );
			auto back = r.end( );
			for( std::size_t i = want.size( ); i != 0; --i ) {
				--back;
				MC_CHECK( static_cast<int>( *back ) == want[i - 1], "iota_range_back", "%s [%d,%d) by %d at %zu", name, a, b, step, i );
			}
		}
		if( step == 1 ) {
			fill( daw::iota_range<T>( static_cast<T>( a ), static_cast<T>( b ) ) );
			MC_CHECK( same( got, want ), "iota_range", "%s [%d,%d) gave %s", name, a, b, show( got ).c_str( ) );
			if( a == 0 ) {
				fill( daw::iota_range<T>( static_cast<T>( b ) ) );
				MC_CHECK( same( got, want ), "iota_range", "%s [0,%d) gave %s", name, b, show( got ).c_str( ) );
			}
			if( std::is_integral_v<T> and a <= b ) {
				got.clear( );
				for( auto x : daw::integer_range<int>( a, b ) ) {
					got.push_back( x );
				}
				MC_CHECK( same( got, want ), "integer_range", "[%d,%d) gave %s", a, b, show( got ).c_str( ) );
				daw::integer_range_iterator<int> it( a );
				auto const old = it++;
				MC_CHECK( *old == a and *it == a + 1 and old != it, "integer_range", "post increment from %d", a );
			}
		}
	}
	MC_TEST( iota_ranges_int ) {
		ranges<int>( "int" );
	}
	MC_TEST( iota_ranges_size_t ) {
		ranges<std::size_t>( "size_t" );
	}
	MC_TEST( iota_ranges_double ) {
		ranges<double>( "double" );
	}
	MC_TEST( iota_ranges_narrow ) { // every bound and step of a four bit slice at both ends of the type
		int const lo = mc::choose( 2 ) ? -128 : 112;
		int const a = lo + static_cast<int>( mc::choose( 16 ) );
		int const b = lo + static_cast<int>( mc::choose( 16 ) );
		int const step = std::array<int, 4>{ 1, 3, -1, -4 }[mc::choose( 4 )];
		// the values must be representable, the end may wrap
		std::vector<int> want, got;
		for( int x = a; step > 0 ? x < b : x > b; x += step ) {
			want.push_back( x );
		}
		daw::iota_range<signed char> const r( static_cast<signed char>( a ), static_cast<signed char>( b ), static_cast<signed char>( step ) );
		for( auto it = r.begin( ); it != r.end( ); ++it ) {
			MC_CHECK( got.size( ) < 20, "iota_range_endless", "signed char [%d,%d) by %d runs past its end", a, b, step );
			got.push_back( *it );
		}
		MC_CHECK( same( got, want ), "iota_range", "signed char [%d,%d) by %d gave %s", a, b, step, show( got ).c_str( ) );
	}

	MC_TEST( repeated_char ) {
		int const n = any_len( );
		laws( "repeat_n_char_iterator", n, [&]( int p ) { return daw::repeat_n_char_iterator<char>( static_cast<std::size_t>( n - p ), 'x' ); },
		      [&]( auto it, int ) { return *it == 'x' and it[0] == 'x'; } );
		walk( "repeat_n_char_iterator", n, daw::repeat_n_char_iterator<char>( static_cast<std::size_t>( n ), 'x' ), daw::repeat_n_char_end<char>( ),
		      [&]( auto it, int ) { return *it == 'x'; } );
		std::string const s( daw::repeat_n_char_iterator<char>( static_cast<std::size_t>( n ), 'q' ), daw::repeat_n_char_end<char>( ) );
		MC_CHECK( s == std::string( static_cast<std::size_t>( n ), 'q' ), "repeat_n_char", "%d times gave \"%s\"", n, s.c_str( ) );
	}

	MC_TEST( arguments ) {
		int const n = static_cast<int>( mc::choose( 6 ) );
		static constexpr char const *argv[] = { "prog", "a", "", "bc", "-d", nullptr };
		auto const make = [&]( int p ) { return daw::arg_iterator_t( n, argv ) + p; };
		auto const value = [&]( auto it, int p ) {
			bool ok = *it == argv[p] and it.position( ) == p and static_cast<bool>( it ) and not it.at_end( );
			for( int j = 0; j < n; ++j ) {
				ok = ok and it[j - p] == argv[j] and it.at( j - p ) == argv[j];
			}
			return ok;
		};
		laws( "arg_iterator_t", n, make, value );
		daw::arg_iterator_t const args( n, argv );
		MC_CHECK( args.size( ) == static_cast<std::size_t>( n ), "size", "of %d arguments", n );
		walk( "arg_iterator_t", n, args.begin( ), args.end( ), value );
		for( int p = 0; p <= n; ++p ) {
			auto const it = make( p );
			bool const at_end = p == n;
			auto const end = args.end( );
			MC_CHECK( it.at_end( ) == at_end and static_cast<bool>( it ) == not at_end, "end", "%d of %d", p, n );
			MC_CHECK( ( it == end ) == at_end and ( end == it ) == at_end and ( it != end ) == not at_end and ( end != it ) == not at_end, "end_equality", "%d of %d", p, n );
			MC_CHECK( ( it < end ) == not at_end and ( it <= end ) and not( it > end ) and ( it >= end ) == at_end, "end_order", "%d of %d", p, n );
			MC_CHECK( not( end < it ) and ( end <= it ) == at_end and ( end > it ) == not at_end and ( end >= it ), "end_order", "end against %d of %d", p, n );
			MC_CHECK( end - it == n - p and it - end == p - n and std::distance( it, end ) == n - p, "end_difference", "%d of %d", p, n );
			for( int j : { -p - 1, n - p, n - p + 1 } ) {
				bool threw = false;
				try {
					(void)it.at( j );
				} catch( std::out_of_range const & ) {
					threw = true;
				}
				MC_CHECK( threw, "at", "at(%d) from %d of %d", j, p, n );
			}
		}
	}

	MC_TEST( zipped ) {
		int const n = any_len( );
		auto v = numbered( n );
		auto w = numbered( n );
		std::vector<char> c( static_cast<std::size_t>( n ), 'z' );
		what = "zip_iterator";
		auto const make = [&]( int p ) { return daw::zip_iterator( v.data( ) + p, at<Bidi>( w, static_cast<std::size_t>( p ) ), c.begin( ) + p ); };
		auto const value = [&]( auto it, int p ) {
			auto const i = static_cast<std::size_t>( p );
			auto t = *it;
			auto const &cit = it;
			auto ct = *cit;
			auto ptr = it.operator->( ).operator->( );
			return &std::get<0>( t ) == &v[i] and &std::get<1>( t ) == &w[i] and &std::get<2>( t ) == &c[i] and &std::get<0>( ct ) == &v[i] and std::get<0>( *ptr ) == &v[i] and
			       std::get<1>( *ptr ) == &w[i] and &*daw::get<2>( it ) == &c[i] and &*it.template get<1>( ) == &w[i];
		};
		(void)value;
		laws( "zip_iterator", n, make, [&]( auto it, int p ) {
			auto const i = static_cast<std::size_t>( p );
			auto t = *it;
			auto const &cit = it;
			auto ct = *cit;
			return &std::get<0>( t ) == &v[i] and &std::get<1>( t ) == &w[i] and &std::get<2>( t ) == &c[i] and &std::get<0>( ct ) == &v[i] and &*daw::get<2>( it ) == &c[i] and
			       &*it.template get<1>( ) == &w[i];
		} );
		for( int p = 0; p < n; ++p ) {
			auto it = make( p );
			auto const proxy = it.operator->( );
			auto const i = static_cast<std::size_t>( p );
			MC_CHECK( std::get<0>( proxy.value ) == &v[i] and std::get<1>( proxy.value ) == &w[i] and std::get<2>( proxy.value ) == &c[i], "zip_arrow", "%d of %d", p, n );
		}
		for( int i = 0; i <= n; ++i ) {
			for( int j = 0; j <= n; ++j ) {
				auto it = make( i );
				it.advance( j - i );
				MC_CHECK( it == make( j ), "zip_advance", "%d from %d of %d", j - i, i, n );
			}
		}
	}

	// checked proxies: every history of moves, every setting of the flags
	MC_TEST( checked_proxy ) {
		int const n = static_cast<int>( mc::choose( 4 ) );
		auto v = numbered( n + 2 ); // the range has a neighbour on each side
		auto *const base = v.data( ) + 1;
		unsigned const flags = mc::choose( 8 );
		what = "checked_iterator_proxy";
		auto it = daw::make_checked_iterator_proxy( base, base + n, flags & 1, flags & 2, flags & 4 );
		int pos = 0;
		std::string h;
		for( int k = 0; k != mc::by_tier( 4, 5 ); ++k ) {
			unsigned const op = mc::choose( 6 );
			bool const up = op < 2, down = op == 2 or op == 3;
			bool const leaves = up ? pos == n : down ? pos == 0 : pos == n;
			bool const checked = up ? flags & 1 : down ? flags & 2 : flags & 4;
			bool threw = false;
			static constexpr char const *const names[] = { " ++it", " it++", " --it", " it--", " *it", " it->" };
			h += names[op];
			bool right = true;
			try {
				switch( op ) {
				case 0: right = &++it == &it; break;
				case 1: {
					auto const before = it;
					auto const r = it++;
					right = r == before;
					break;
				}
				case 2: right = &--it == &it; break;
				case 3: {
					auto const before = it;
					auto const r = it--;
					right = r == before;
					break;
				}
				case 4: right = &*it == base + pos and &*std::as_const( it ) == base + pos; break;
				default: right = &it->id == &base[pos].id and &std::as_const( it )->id == &base[pos].id; break;
				}
			} catch( std::out_of_range const & ) {
				threw = true;
			}
			MC_CHECK( threw == ( leaves and checked ), leaves and checked ? "unreported_move" : "spurious_report", "size %d flags %u:%s %s", n, flags, h.c_str( ), threw ? "threw" : "did not throw" );
			MC_CHECK( right or threw, "checked_result", "size %d flags %u:%s", n, flags, h.c_str( ) );
			if( not threw ) {
				pos += up ? 1 : down ? -1 : 0;
			}
			MC_CHECK( it == base + pos and not( it != base + pos ), "checked_position", "size %d flags %u:%s", n, flags, h.c_str( ) );
			mc::step( );
			if( leaves and not checked ) {
				return; // outside on the caller's own account: made unreported, nothing more is promised
			}
		}
	}
	MC_TEST( indexed_checks ) { // moves and accesses outside the container abort
		int const n = static_cast<int>( mc::choose( 3 ) );
		auto v = numbered( n );
		using I = daw::indexed_iterator<Items>;
		auto const at_p = [&]( int p ) { return I( &v, static_cast<std::size_t>( p ) ); };
		unsigned const op = mc::choose( 9 );
		int const p = static_cast<int>( mc::choose( static_cast<unsigned>( n ) + 1 ) );
		int const d = static_cast<int>( mc::choose( 9 ) ) - 4;
		static constexpr char const *const names[] = { "*", "++", "--", "+", "-", "+=", "-=", "next", "prev" };
		int target = p;
		bool access = false;
		switch( op ) {
		case 0: access = true; break;
		case 1: target = p + 1; break;
		case 2: target = p - 1; break;
		case 3:
		case 5:
		case 7: target = p + d; break;
		default: target = p - d; break;
		}
		bool const bad = access ? p == n : target < 0 or target > n;
		if( op == 6 and target > n ) {
			return; // -= only checks the lower bound
		}
		bool const aborted = mc::aborts( [&] {
			auto it = at_p( p );
			auto const c = it;
			switch( op ) {
			case 0: (void)( it->id + ( *c ).id ); break;
			case 1: ++it; break;
			case 2: --it; break;
			case 3: it = c + d; break;
			case 4: it = c - d; break;
			case 5: it += d; break;
			case 6: it -= d; break;
			case 7: it = c.next( d ); break;
			default: it = c.prev( d ); break;
			}
			if( not access and it != at_p( target ) ) {
				std::abort( );
			}
		} );
		MC_CHECK( aborted == bad, bad ? "unreported_move" : "spurious_report", "indexed_iterator at %d of %d: %s %d %s", p, n, names[op], d, aborted ? "aborted" : "did not abort" );
	}
} // namespace
