// C01: sizes no vector can have, the cost of growing, and elements that travel
// rather than being copied
#include "mc.h"
#include "mc_tracked.h"
#include <daw/vector.h>
#include <iterator>
#include <new>
#include <stdexcept>
#include <vector>

using TM = mc::Tracked<mc::NoThrowMove>;
using TC = mc::Tracked<0>;

template<typename V>
static std::vector<int> contents( V const &v ) {
	std::vector<int> r;
	for( auto const &x : v ) r.push_back( mc::val( x ) );
	return r;
}

// sizes no vector can have: reported, and nothing is lost or overrun
template<typename T>
static void impossible( ) {
	using V = daw::vector<T>;
	mc::with_tracking( [&] {
		T const x( 50 );
		unsigned const n = mc::choose( 4 );
		V a{ };
		for( unsigned i = 0; i < n; ++i ) a.emplace_back( int( i + 1 ) );
		unsigned const spare = mc::choose( 3 );
		if( spare == 0 ) a.shrink_to_fit( ); else a.reserve( n + ( spare == 1 ? 1 : 6 ) );
		std::size_t const most = a.max_size( );
		std::size_t const all = ~std::size_t( 0 );
		std::size_t const sizes[] = { all, all - 1, all - n, all - n + 1, all - n + 2, all / 2 + 1, most + 1, most, all - a.capacity( ), all - a.capacity( ) + 1 };
		std::size_t const c = sizes[mc::choose( 10 )];
		if( c == 0 ) return; // all - 0 + 1
		if( c < 100 ) return;
		auto const before = contents( a );
		auto const pos = a.cbegin( ) + std::ptrdiff_t( mc::choose( n + 1 ) );
		unsigned const op = mc::choose( 10 );
		char const *const names[] = { "vector(n)", "vector(n,x)", "resize(n)", "resize(n,x)", "reserve(n)", "assign(n,x)", "insert(pos,n,x)", "append(n,x)", "resize_and_overwrite", "append_and_overwrite" };
		bool thrown = false;
		mc::note( "%s with %zx, size %u capacity %zu", names[op], c, n, a.capacity( ) );
		auto const fill = []( auto *, std::size_t ) -> std::size_t { return 0; };
		try {
			switch( op ) {
			case 0: { V t{ c }; } break;
			case 1: { V t( c, x ); } break;
			case 2: a.resize( c ); break;
			case 3: a.resize( c, x ); break;
			case 4: a.reserve( c ); break;
			case 5: a.assign( c, x ); break;
			case 6: (void)a.insert( pos, c, x ); break;
			case 7: a.append( c, x ); break;
			case 8: (void)a.resize_and_overwrite( c, fill ); break;
			default: (void)a.append_and_overwrite( c, fill ); break;
			}
		} catch( std::length_error const & ) {
			thrown = true;
		} catch( std::bad_alloc const & ) { thrown = true; }
		MC_CHECK( thrown, "impossible-size", "%s accepts %zx elements", names[op], c );
		if( op != 5 ) MC_CHECK( contents( a ) == before, "impossible-contents", "%s changed the vector", names[op] );
		a.emplace_back( 99 );
		MC_CHECK( mc::val( a.back( ) ) == 99 and a.size( ) <= a.capacity( ), "usable", "vector not usable after %s", names[op] );
		mc::step( );
	} );
}

// whatever adds one element at a time obtains storage only now and then
namespace counted {
	inline int calls = 0;
	template<typename T, bool Equal>
	struct Alloc {
		using value_type = T;
		using propagate_on_container_move_assignment = std::false_type;
		using is_always_equal = std::false_type;
		template<typename U>
		struct rebind {
			using other = Alloc<U, Equal>;
		};
		int id = 0;
		Alloc( ) = default;
		explicit Alloc( int i ) : id( i ) {}
		template<typename U>
		Alloc( Alloc<U, Equal> const &o ) : id( o.id ) {}
		T *allocate( std::size_t n ) {
			++calls;
			return static_cast<T *>( ::operator new( n * sizeof( T ) ) );
		}
		void deallocate( T *p, std::size_t ) { ::operator delete( p ); }
		friend bool operator==( Alloc const &a, Alloc const &b ) { return a.id == b.id; }
	};
} // namespace counted

template<typename T>
static void growth( ) {
	mc::with_tracking( [&] {
		daw::vector<T, counted::Alloc<T, true>> v;
		int const start = mc::choose_range( 0, 5 ), spare = mc::choose_range( 0, 3 ), how = mc::choose_range( 0, 7 );
		v.reserve( std::size_t( start + spare ) );
		for( int i = 0; i < start; ++i ) v.emplace_back( i );
		counted::calls = 0;
		int const many = mc::by_tier( 300, 1000 );
		T const x( 7 );
		int one[1] = { 7 };
		for( int i = 0; i < many; ++i ) {
			switch( how ) {
			case 0: v.push_back( x ); break;
			case 1: v.push_back( T( 7 ) ); break;
			case 2: v.emplace_back( 7 ); break;
			case 3: (void)v.insert( v.end( ), x ); break;
			case 4: (void)v.insert( v.begin( ), T( 7 ) ); break;
			case 5: (void)v.emplace( v.begin( ) + ( v.size( ) ? 1 : 0 ), 7 ); break;
			case 6: (void)v.insert( v.end( ), std::size_t( 1 ), x ); break;
			default: (void)v.insert( v.end( ), one, one + 1 ); break;
			}
		}
		// doubling needs 9 or 10, growing by half 18
		MC_CHECK( counted::calls <= mc::by_tier( 24, 30 ), "growth", "adding %d elements one at a time (way %d) obtained storage %d times", many, how, counted::calls );
		MC_CHECK( int( v.size( ) ) == start + many, "growth-size", "size %zu", v.size( ) );
		// enough capacity: no storage is obtained
		v.reserve( v.size( ) + 20 );
		counted::calls = 0;
		for( int i = 0; i < 20; ++i ) v.emplace_back( i );
		for( int i = 0; i < 20; ++i ) v.pop_back( );
		v.resize( v.size( ) + 20, x );
		v.resize( v.size( ) - 20 );
		v.clear( );
		v.resize( std::size_t( start + many ) );
		MC_CHECK( counted::calls == 0, "reserved", "storage obtained %d times within the reserved capacity", counted::calls );
		mc::step( );
	} );
}

// elements handed over or relocated are never copied when they can be moved
static void moving( ) {
	using V = daw::vector<TM, counted::Alloc<TM, false>>;
	mc::with_tracking( [&] {
		int const n = mc::choose_range( 0, 4 ), spare = mc::choose_range( 0, 2 ), k = mc::choose_range( 0, 13 );
		V a( counted::Alloc<TM, false>( 1 ) );
		a.reserve( std::size_t( n + spare ) );
		for( int i = 0; i < n; ++i ) a.emplace_back( i );
		auto want = contents( a );
		char const *const names[] = { "push_back(&&)", "emplace_back(&&)", "insert(pos,&&)", "emplace", "pop_back_value", "reserve", "shrink_to_fit", "erase", "erase range", "move construction", "move assignment", "move assignment with another allocator", "swap", "move construction with another allocator" };
		int const p = mc::choose_range( 0, n );
		auto const at = [&] { return a.cbegin( ) + p; };
		TM x( 50 );
		auto const copies = mc::tr::copies;
		V other( counted::Alloc<TM, false>( k == 11 ? 2 : 1 ) );
		switch( k ) {
		case 0: a.push_back( std::move( x ) ); want.push_back( 50 ); break;
		case 1: a.emplace_back( std::move( x ) ); want.push_back( 50 ); break;
		case 2: (void)a.insert( at( ), std::move( x ) ); want.insert( want.begin( ) + p, 50 ); break;
		case 3: (void)a.emplace( at( ), std::move( x ) ); want.insert( want.begin( ) + p, 50 ); break;
		case 4: {
			if( n == 0 ) return;
			TM y = a.pop_back_value( );
			MC_CHECK( mc::val( y ) == want.back( ), "moving-value", "pop_back_value returned %d", mc::val( y ) );
			want.pop_back( );
			break;
		}
		case 5: a.reserve( std::size_t( n + 9 ) ); break;
		case 6: a.shrink_to_fit( ); break;
		case 7: if( p == n ) return; (void)a.erase( at( ) ); want.erase( want.begin( ) + p ); break;
		case 8: (void)a.erase( a.cbegin( ), at( ) ); want.erase( want.begin( ), want.begin( ) + p ); break;
		case 9: { V t( std::move( a ) ); a = V( counted::Alloc<TM, false>( 1 ) ); a.swap( t ); break; }
		case 10: case 11: {
			if( p ) other.emplace_back( 99 );
			other = std::move( a );
			MC_CHECK( contents( other ) == want, "moving", "%s of %d loses elements", names[k], n );
			for( auto const &e : a ) MC_CHECK( mc::val( e ) == mc::MOVED, "moving-source", "%s of %d leaves an element behind", names[k], n );
			want = contents( a );
			break;
		}
		case 12: other.emplace_back( 99 ); a.swap( other ); MC_CHECK( contents( other ) == want, "moving", "swap" ); want = { 99 }; break;
		default: { V t( std::move( a ), counted::Alloc<TM, false>( 3 ) ); MC_CHECK( contents( t ) == want, "moving", "%s of %d loses elements", names[k], n ); want = contents( a ); break; }
		}
		MC_CHECK( mc::tr::copies == copies, "moving-copies", "%s on %d elements (position %d, spare %d) copied %lu", names[k], n, p, spare, mc::tr::copies - copies );
		MC_CHECK( contents( a ) == want, "moving", "%s on %d elements (position %d, spare %d): wrong contents", names[k], n, p, spare );
		mc::step( );
	} );
}

// the operation's answer decides the size, whatever integer it is
template<typename Int>
static void answers( ) {
	mc::with_tracking( [&] {
		unsigned const n = mc::choose( 4 );
		daw::vector<int> a;
		for( unsigned i = 0; i < n; ++i ) a.push_back( 100 + int( i ) );
		unsigned const room = mc::choose( 5 );
		int const answer = int( mc::choose( room + ( std::is_signed_v<Int> ? 3 : 1 ) ) ) - ( std::is_signed_v<Int> ? 2 : 0 );
		unsigned const how = mc::choose( 4 );
		using A = std::allocator<int>;
		auto const fill = [&]( int *p, std::size_t m ) {
			MC_CHECK( m == room, "answer-room", "operation called with %zu", m );
			for( unsigned i = 0; i < room; ++i ) p[i] = int( i );
			return static_cast<Int>( answer );
		};
		auto const fill_alloc = [&]( int *p, std::size_t m, A & ) { return fill( p, m ); };
		Int got{ };
		switch( how ) {
		case 0: got = a.resize_and_overwrite( room, fill ); break;
		case 1: got = a.resize_and_overwrite( room, fill_alloc ); break;
		case 2: got = a.append_and_overwrite( room, fill ); break;
		default: got = a.append_and_overwrite( room, fill_alloc ); break;
		}
		MC_CHECK( got == static_cast<Int>( answer ), "answer", "returned %d, not %d", int( got ), answer );
		std::vector<int> want;
		if( how >= 2 ) for( unsigned i = 0; i < n; ++i ) want.push_back( 100 + int( i ) );
		for( int i = 0; i < answer; ++i ) want.push_back( i );
		MC_CHECK( contents( a ) == want, "answer-contents", "way %u of %u elements, room %u, answer %d: size %zu", how, n, room, answer, a.size( ) );
		mc::step( );
	} );
}

MC_TEST( impossible_sizes ) { impossible<TM>( ); }
MC_TEST( impossible_sizes_int ) { impossible<int>( ); }
MC_TEST( growth_int ) { growth<int>( ); }
MC_TEST( growth_tracked ) { growth<TM>( ); }
MC_TEST( moving ) { moving( ); }
MC_TEST( answers_int ) { answers<int>( ); }
MC_TEST( answers_long ) { answers<long>( ); }
MC_TEST( answers_char ) { answers<signed char>( ); }
MC_TEST( answers_unsigned ) { answers<unsigned short>( ); }
