// Fixed-capacity sequences: every operation history up to a depth from every
// reachable state, against std::vector as the ideal bounded sequence.
#include "mc.h"
#include "mc_tracked.h"
#include <algorithm>
#include <array>
#include <stdexcept>
#include <vector>

#include <daw/daw_array.h>
#include <daw/daw_bounded_array.h>
#include <daw/daw_bounded_vector.h>
#include <daw/daw_ring_adaptor.h>

namespace {
	using Model = std::vector<int>;
	std::string show( Model const &m ) {
		std::string s = "[";
		for( int x : m ) s += mc::strf( "%d ", x );
		return s + "]";
	}
	struct Renamer { // values are opaque to the code: rename by first use
		std::vector<int> seen;
		std::uint64_t operator( )( int v ) {
			for( std::size_t i = 0; i < seen.size( ); ++i )
				if( seen[i] == v ) return i + 1;
			seen.push_back( v );
			return seen.size( );
		}
	};

	template<std::size_t N>
	void bv_check( daw::bounded_vector_t<int, N> &v, Model const &m, char const *op ) {
		auto const &c = v;
		MC_CHECK( c.size( ) == m.size( ), "size", "after %s: size %zu, expected %zu", op, c.size( ), m.size( ) );
		MC_CHECK( c.empty( ) == m.empty( ), "empty", "after %s: empty %d", op, c.empty( ) );
		MC_CHECK( c.full( ) == ( m.size( ) == N ), "full", "after %s: full %d with %zu of %zu", op, c.full( ), m.size( ), N );
		MC_CHECK( c.capacity( ) == N and c.available( ) == N - m.size( ), "available", "after %s: available %zu", op, c.available( ) );
		for( std::size_t k = 0; k <= N + 1; ++k )
			MC_CHECK( v.has_room( k ) == ( m.size( ) + k <= N ), "has_room", "after %s: has_room(%zu) is %d with %zu of %zu", op, k, v.has_room( k ), m.size( ), N );
		for( std::size_t const k : { static_cast<std::size_t>( -1 ), static_cast<std::size_t>( -1 ) - m.size( ), static_cast<std::size_t>( 0 ) - m.size( ) } )
			MC_CHECK( v.has_room( k ) == ( k == 0 ), "has_room", "after %s: has_room(%zu) with %zu of %zu", op, k, m.size( ), N );
		for( std::size_t i = 0; i < m.size( ); ++i ) {
			MC_CHECK( c[i] == m[i] and v[i] == m[i] and c.at( i ) == m[i] and v.at( i ) == m[i] and c.data( )[i] == m[i], "element", "after %s: element %zu is %d, expected %s", op, i, c[i], show( m ).c_str( ) );
		}
		if( not m.empty( ) )
			MC_CHECK( c.front( ) == m.front( ) and c.back( ) == m.back( ) and v.front( ) == m.front( ) and v.back( ) == m.back( ), "front-back", "after %s", op );
		MC_CHECK( std::equal( v.begin( ), v.end( ), m.begin( ), m.end( ) ), "iteration", "after %s", op );
		MC_CHECK( std::equal( c.begin( ), c.end( ), m.begin( ), m.end( ) ), "iteration", "after %s (const)", op );
		MC_CHECK( std::equal( c.cbegin( ), c.cend( ), m.begin( ), m.end( ) ), "iteration", "after %s (c)", op );
		MC_CHECK( std::equal( v.rbegin( ), v.rend( ), m.rbegin( ), m.rend( ) ) and std::equal( c.rbegin( ), c.rend( ), m.rbegin( ), m.rend( ) ) and std::equal( c.crbegin( ), c.crend( ), m.rbegin( ), m.rend( ) ), "reverse-iteration", "after %s", op );
		MC_CHECK( mc::aborts( [&] { (void)v.at( m.size( ) ); } ) and mc::aborts( [&] { (void)c.at( static_cast<std::size_t>( -1 ) ); } ) and mc::aborts( [&] { (void)v.at( static_cast<std::size_t>( -1 ) - N ); } ), "at-bounds", "at(size) did not report after %s", op );
	}

	template<std::size_t N>
	void bounded_vector( int depth ) {
		using V = daw::bounded_vector_t<int, N>;
		V v[2];
		Model m[2];
		int next = 1000;
		switch( depth == 0 ? 0 : mc::choose( 4 ) ) {
		case 1: {
			int const k = mc::choose_range( 0, int( N ) + 1 );
			int src[N + 2];
			for( int i = 0; i < k; ++i ) src[i] = next++;
			v[0] = V( static_cast<int const *>( src ), std::size_t( k ) );
			m[0].assign( src, src + std::min<int>( k, N ) );
			mc::note( "construct from pointer, %d", k );
			break;
		}
		case 2: {
			int const k = mc::choose_range( 0, int( N ) );
			std::vector<int> src;
			for( int i = 0; i < k; ++i ) src.push_back( next++ );
			v[0] = V( src.begin( ), src.end( ) );
			m[0] = src;
			mc::note( "construct from range, %d", k );
			break;
		}
		case 3: { // second vector with content
			int const k = mc::choose_range( 0, int( N ) );
			for( int i = 0; i < k; ++i ) {
				v[1].push_back( next );
				m[1].push_back( next++ );
			}
			if( k and mc::choose( 2 ) ) {
				(void)v[1].pop_front( );
				m[1].erase( m[1].begin( ) );
			}
			mc::note( "second vector %s", show( m[1] ).c_str( ) );
			break;
		}
		}
		bv_check( v[0], m[0], "construction" );
		auto const step = [&]( ) -> bool {
			auto &a = v[0];
			auto &ma = m[0];
			std::size_t const n = ma.size( ), room = N - n;
			char const *op = "";
			switch( mc::choose( 19 ) ) {
			case 0: if( not room ) return false; op = "push_back"; { int x = next; a.push_back( x ); ma.push_back( next++ ); } break;
			case 1: if( not room ) return false; op = "push_back&&"; a.push_back( std::move( next ) ); ma.push_back( next++ ); break;
			case 2: if( not room ) return false; op = "push_back()"; { auto p = a.push_back( ); a.back( ) = next; (void)p; ma.push_back( next++ ); } break;
			case 3: {
				int k = mc::choose_range( 0, int( N ) );
				if( k > int( room ) ) return false;
				int src[N];
				for( int i = 0; i < k; ++i ) ma.push_back( src[i] = next++ );
				op = "push_back(ptr)";
				mc::note( "push_back(ptr,%d)", k );
				a.push_back( static_cast<int const *>( src ), std::size_t( k ) );
				break;
			}
			case 4: {
				int k = mc::choose_range( 0, int( N ) );
				if( k > int( room ) ) return false;
				short src[N];
				for( int i = 0; i < k; ++i ) {
					ma.push_back( next );
					src[i] = short( next++ );
				}
				op = "push_back(short*)";
				mc::note( "push_back(short*,%d)", k );
				a.push_back( static_cast<short const *>( src ), std::size_t( k ) );
				break;
			}
			case 5: if( not room ) return false; op = "emplace_back"; a.emplace_back( next ); ma.push_back( next++ ); break;
			case 6: if( not n ) return false; op = "pop_back"; { int x = a.pop_back( ); MC_CHECK( x == ma.back( ), "pop_back", "returned %d, expected %d", x, ma.back( ) ); ma.pop_back( ); } break;
			case 7: if( not n ) return false; op = "pop_front"; { int x = a.pop_front( ); MC_CHECK( x == ma.front( ), "pop_front", "returned %d, expected %d", x, ma.front( ) ); ma.erase( ma.begin( ) ); } break;
			case 8: {
				int k = mc::choose_range( 0, int( N ) + 1 );
				op = "pop_front(n)";
				mc::note( "pop_front(%d)", k );
				bool thrown = false;
				try { a.pop_front( k > int( N ) ? static_cast<std::size_t>( -1 ) : std::size_t( k ) ); } catch( std::out_of_range const & ) { thrown = true; }
				MC_CHECK( thrown == ( k > int( n ) ), "pop_front-bounds", "pop_front(%d) of %zu %s", k, n, thrown ? "threw" : "did not throw" );
				if( not thrown ) ma.erase( ma.begin( ), ma.begin( ) + k );
				break;
			}
			case 9: {
				int k = mc::choose_range( 0, int( N ) + 1 );
				op = "resize";
				mc::note( "resize(%d)", k );
				bool thrown = false;
				try { a.resize( std::size_t( k ) ); } catch( std::out_of_range const & ) { thrown = true; }
				MC_CHECK( thrown == ( k > int( N ) ), "resize-bounds", "resize(%d) of capacity %zu %s", k, N, thrown ? "threw" : "did not throw" );
				if( not thrown ) ma.resize( std::size_t( k ) );
				break;
			}
			case 10: {
				if( not n ) return false;
				int k = mc::choose_range( 0, int( n ) - 1 );
				op = "erase(pos)";
				mc::note( "erase(%d)", k );
				auto it = a.erase( a.cbegin( ) + k );
				ma.erase( ma.begin( ) + k );
				MC_CHECK( it == a.begin( ) + k, "erase-result", "erase(%d) returned position %td", k, it - a.begin( ) );
				break;
			}
			case 11: {
				int f = mc::choose_range( 0, int( n ) ), l = mc::choose_range( 0, int( n ) );
				if( f > l ) return false;
				op = "erase(range)";
				mc::note( "erase(%d,%d)", f, l );
				auto it = a.erase( a.cbegin( ) + f, a.cbegin( ) + l );
				ma.erase( ma.begin( ) + f, ma.begin( ) + l );
				MC_CHECK( it == a.begin( ) + f, "erase-result", "erase(%d,%d) returned position %td", f, l, it - a.begin( ) );
				break;
			}
			case 12: op = "clear"; a.clear( ); ma.clear( ); break;
			case 13: {
				int k = mc::choose_range( 0, int( N ) );
				op = "assign";
				mc::note( "assign(%d)", k );
				a.assign( std::size_t( k ), next );
				ma.assign( std::size_t( k ), next++ );
				break;
			}
			case 14: op = "swap"; v[0].swap( v[1] ); std::swap( m[0], m[1] ); break;
			case 15: op = "copy"; v[1] = v[0]; m[1] = m[0]; break;
			case 16: {
				if( not n ) return false;
				int k = mc::choose_range( 0, int( n ) - 1 );
				op = "write";
				( mc::choose( 2 ) ? a[k] : a.at( k ) ) = next;
				ma[k] = next++;
				break;
			}
			case 18: { // one of its own elements
				if( not n ) return false;
				int const j = mc::choose_range( 0, int( n ) - 1 ), how = mc::choose_range( 0, 3 );
				int const x = ma[std::size_t( j )];
				if( how != 3 and not room ) return false;
				op = "add own";
				mc::note( "add own [%d], way %d", j, how );
				switch( how ) {
				case 0: a.push_back( std::as_const( a )[std::size_t( j )] ); break;
				case 1: a.push_back( std::move( a[std::size_t( j )] ) ); break;
				case 2: a.emplace_back( a[std::size_t( j )] ); break;
				default: {
					int const k = mc::choose_range( 0, int( N ) );
					a.assign( std::size_t( k ), a[std::size_t( j )] );
					ma.assign( std::size_t( k ), x );
					break;
				}
				}
				if( how != 3 ) ma.push_back( x );
				break;
			}
			case 17: op = "zero"; a.zero( ); for( int &x : ma ) x = 0; break;
			}
			mc::note( "%s", op );
			mc::step( );
			bv_check( v[0], m[0], op );
			bv_check( v[1], m[1], op );
			mc::obs( m[0].size( ) );
			return true;
		};
		if( depth == 0 ) { // every word of two operations, repeated
			mc::lasso( 2, 40, step, [] {} );
			return;
		}
		for( int d = 0; d < depth; ++d ) {
			Renamer rn;
			std::uint64_t h = N;
			for( int k = 0; k < 2; ++k ) {
				// the whole object, stale slots included; element values start at 1000
				int raw[sizeof( V ) / sizeof( int )];
				std::memcpy( raw, static_cast<void const *>( &v[k] ), sizeof raw );
				for( int x : raw ) h = mc::mix( h, x >= 1000 ? 1000 + rn( x ) : std::uint64_t( x ) );
			}
			if( not mc::enter_state( h, depth - d ) ) return;
			if( not step( ) ) return;
		}
	}
} // namespace
MC_TEST( bounded_vector_1 ) { bounded_vector<1>( mc::by_tier( 6, 9 ) ); }
MC_TEST( bounded_vector_2 ) { bounded_vector<2>( mc::by_tier( 7, 9 ) ); }
MC_TEST( bounded_vector_3 ) { bounded_vector<3>( mc::by_tier( 5, 8 ) ); }
MC_TEST( bounded_vector_5 ) { bounded_vector<5>( mc::by_tier( 3, 6 ) ); }
MC_TEST( bounded_vector_17_long ) { bounded_vector<17>( 0 ); }
MC_TEST( bounded_vector_0 ) {
	daw::bounded_vector_t<int, 0> v;
	MC_CHECK( v.empty( ) and v.full( ) and v.size( ) == 0 and v.capacity( ) == 0 and v.available( ) == 0 and not v.has_room( 1 ), "zero", "zero capacity" );
	MC_CHECK( v.begin( ) == v.end( ), "zero", "range" );
	bool thrown = false;
	try { v.resize( 1 ); } catch( std::out_of_range const & ) { thrown = true; }
	MC_CHECK( thrown, "zero", "resize" );
	v.resize( 0 );
}

// ---- ring ---------------------------------------------------------------------------
namespace {
	template<typename R>
	void ring_check( R &r, Model const &m, std::size_t cap, char const *op ) {
		R const &c = r;
		MC_CHECK( c.capacity( ) == cap, "capacity", "capacity %zu", std::size_t( c.capacity( ) ) );
		MC_CHECK( c.size( ) == m.size( ), "size", "after %s: size %zu expected %zu", op, std::size_t( c.size( ) ), m.size( ) );
		MC_CHECK( c.is_empty( ) == m.empty( ) and c.is_full( ) == ( m.size( ) == cap ), "empty-full", "after %s", op );
		for( std::size_t i = 0; i < m.size( ); ++i )
			MC_CHECK( mc::val( c[i] ) == m[i] and mc::val( r[i] ) == m[i], "element", "after %s: element %zu is %d, expected %d", op, i, mc::val( c[i] ), m[i] );
		std::size_t i = 0;
		for( auto const &x : r ) {
			MC_CHECK( i < m.size( ) and mc::val( x ) == m[i], "iteration", "after %s at %zu", op, i );
			++i;
		}
		MC_CHECK( i == m.size( ), "iteration", "after %s: %zu elements", op, i );
		i = 0;
		for( auto const &x : c ) {
			MC_CHECK( i < m.size( ) and mc::val( x ) == m[i], "iteration", "after %s at %zu", op, i );
			++i;
		}
		MC_CHECK( i == m.size( ), "iteration", "after %s: %zu elements", op, i );
	}
	template<typename R>
	void ring( R &r, std::size_t cap, int depth ) {
		using V = typename R::value_type;
		Model m;
		int next = 1;
		int head = 0;
		auto const step = [&]( ) -> bool {
			char const *op = "";
			switch( mc::choose( 5 ) ) {
			case 0: {
				if( m.size( ) == cap ) return false;
				op = "push_back";
				V x( next );
				auto &ref = r.push_back( std::as_const( x ) );
				m.push_back( next++ );
				MC_CHECK( &ref == &r[m.size( ) - 1], "returned-ref", "push_back returned another element" );
				break;
			}
			case 1: {
				if( m.size( ) == cap ) return false;
				op = "push_back&&";
				auto &ref = r.push_back( V( next ) );
				m.push_back( next++ );
				MC_CHECK( &ref == &r[m.size( ) - 1], "returned-ref", "push_back returned another element" );
				break;
			}
			case 2: {
				if( m.size( ) == cap ) return false;
				op = "emplace_back";
				auto &ref = r.emplace_back( next );
				m.push_back( next++ );
				MC_CHECK( &ref == &r[m.size( ) - 1], "returned-ref", "emplace_back returned another element" );
				break;
			}
			case 3: {
				if( m.empty( ) ) return false;
				op = "pop_front";
				int const x = mc::val( r.pop_front( ) );
				MC_CHECK( x == m.front( ), "pop_front", "returned %d, expected %d", x, m.front( ) );
				m.erase( m.begin( ) );
				++head;
				break;
			}
			case 4: op = "clear"; r.clear( ); m.clear( ); head = 0; break;
			}
			mc::note( "%s", op );
			mc::step( );
			ring_check( r, m, cap, op );
			return true;
		};
		if( depth == 0 ) { // every word of five operations, repeated
			mc::lasso( 5, 100, step, [] {} );
			return;
		}
		for( int d = 0; d < depth; ++d ) {
			if( not mc::enter_state( mc::mix( mc::mix( cap, std::uint64_t( head ) ), m.size( ) ), unsigned( depth - d ) ) ) return;
			if( not step( ) ) return;
		}
	}
} // namespace
MC_TEST( ring_array ) {
	int const depth = mc::by_tier( 14, 24 );
	switch( mc::choose( 4 ) ) {
	case 0: { daw::ring_adaptor<int[1]> r{ }; ring( r, 1, depth ); break; }
	case 1: { daw::ring_adaptor<int[2]> r{ }; ring( r, 2, depth ); break; }
	case 2: { daw::ring_adaptor<int[3]> r{ }; ring( r, 3, depth ); break; }
	case 3: { daw::ring_adaptor<std::array<int, 4>> r{ }; ring( r, 4, depth ); break; }
	}
}
MC_TEST( ring_vector ) {
	std::size_t const cap = 1 + mc::choose( 4 );
	daw::ring_adaptor<std::vector<int>> r( cap );
	ring( r, cap, mc::by_tier( 14, 20 ) );
}
MC_TEST( ring_long ) {
	std::size_t const cap = mc::pick( { 7, 16, 33, 65, 129, 257 } );
	daw::ring_adaptor<std::vector<int>> r( cap );
	ring( r, cap, 0 );
}
MC_TEST( ring_tracked ) {
	mc::with_tracking( [] {
		std::size_t const cap = 1 + mc::choose( 3 );
		daw::ring_adaptor<std::vector<mc::Tracked<0>>> r( cap );
		ring( r, cap, mc::by_tier( 10, 14 ) );
	} );
}

// ---- plain array ---------------------------------------------------------------------
MC_TEST( bounded_array ) {
	using A = daw::bounded_array_t<int, 3>;
	A a{ }, b{ };
	for( int i = 0; i < 3; ++i ) {
		a[i] = mc::choose_range( 0, 2 );
		b.data( )[i] = mc::choose_range( 0, 2 );
	}
	auto const &c = a;
	bool eq = true;
	for( int i = 0; i < 3; ++i ) {
		eq = eq and a[i] == b[i];
		MC_CHECK( c[i] == *( c.begin( ) + i ) and &c[i] == c.data( ) + i and &a[i] == a.begin( ) + i and &c[i] == c.cbegin( ) + i, "element", "element %d", i );
	}
	MC_CHECK( ( a == b ) == eq and ( a != b ) == not eq, "compare", "comparison" );
	MC_CHECK( a.end( ) - a.begin( ) == 3 and c.cend( ) - c.cbegin( ) == 3 and c.end( ) - c.begin( ) == 3 and c.size( ) == 3 and not c.empty( ), "size", "size" );
	MC_CHECK( &a.front( ) == a.data( ) and &a.back( ) == a.data( ) + 2 and &c.front( ) == c.data( ) and &c.back( ) == c.data( ) + 2, "front-back", "front/back" );
	int const f = mc::choose_range( 0, 2 );
	a.fill( f );
	MC_CHECK( c[0] == f and c[1] == f and c[2] == f, "fill", "fill" );
}
MC_TEST( array_helpers ) {
	int x = mc::choose_range( -1, 1 ), y = mc::choose_range( -1, 1 ), z = mc::choose_range( -1, 1 );
	int raw[3] = { x, y, z };
	auto t = daw::to_array( raw );
	MC_CHECK( ( t == std::array<int, 3>{ x, y, z } ), "to_array", "to_array" );
	auto m1 = daw::make_array( x, y, z );
	static_assert( std::is_same_v<decltype( m1 ), std::array<int, 3>> );
	MC_CHECK( ( m1 == std::array<int, 3>{ x, y, z } ), "make_array", "make_array" );
	auto m2 = daw::make_array<long>( x, y );
	static_assert( std::is_same_v<decltype( m2 ), std::array<long, 2>> );
	MC_CHECK( ( m2 == std::array<long, 2>{ x, y } ), "make_array", "make_array<long>" );
	auto s = daw::make_string_array( "a", std::string( std::size_t( x + 1 ), 'q' ) );
	MC_CHECK( s[0] == "a" and s[1] == std::string( std::size_t( x + 1 ), 'q' ), "make_string_array", "strings" );
	daw::md_stdarray_t<int, 2, 3> md{ };
	md[1][2] = x;
	static_assert( std::is_same_v<decltype( md ), std::array<std::array<int, 3>, 2>> );
}
