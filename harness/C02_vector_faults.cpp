// Property C02: every throw point of every vector operation, from every small state.
#include "mc.h"
#include "mc_tracked.h"
#include <daw/vector.h>
#include <iterator>
#include <stdexcept>

using TM = mc::Tracked<mc::NoThrowMove>;
using TC = mc::Tracked<0>;
using TO = mc::Tracked<mc::NoThrowMove | mc::NoCopy>; // move only

template<typename T>
struct InputIt {
	using iterator_category = std::input_iterator_tag;
	using value_type = T;
	using difference_type = std::ptrdiff_t;
	using pointer = T const *;
	using reference = T const &;
	T const *p = nullptr;
	InputIt( ) = default;
	explicit InputIt( T const *q ) : p( q ) {}
	reference operator*( ) const { return *p; }
	InputIt &operator++( ) { ++p; return *this; }
	InputIt operator++( int ) { auto t = *this; ++p; return t; }
	friend bool operator==( InputIt a, InputIt b ) { return a.p == b.p; }
};

template<typename V>
static std::vector<int> contents( V const &v ) {
	std::vector<int> r;
	for( auto const &x : v ) r.push_back( mc::val( x ) );
	return r;
}

template<typename T>
static void faults( unsigned maxn, unsigned budget, int nops, bool large = false ) {
	using V = daw::vector<T>;
	constexpr bool copyable = std::is_copy_constructible_v<T>;
	mc::with_tracking( [&] {
		T x( 50 );
		alignas( T ) unsigned char raw[3 * sizeof( T )];
		T *src = reinterpret_cast<T *>( raw );
		for( int i = 0; i < 3; ++i ) new( src + i ) T( 60 + i );
		struct Kill { T *p; ~Kill( ) { for( int i = 0; i < 3; ++i ) p[i].~T( ); } } kill{ src };
		unsigned const external = 4;
		{
			V a{ }, b{ };
			unsigned const sizes[] = { 7, 8, 9, 16, 17 };
			unsigned const n = large ? sizes[mc::choose( 5 )] : mc::choose( maxn + 1 );
			// a new size, chosen around the present one when that is large
			auto const new_size = [&]( std::size_t now ) -> unsigned {
				if( not large ) return mc::choose( maxn + 3 );
				unsigned const c[] = { 0, 1, unsigned( now / 2 ), unsigned( now ), unsigned( now + 1 ), unsigned( now + 3 ), unsigned( 2 * now + 1 ) };
				return c[mc::choose( 7 )];
			};
			for( unsigned i = 0; i < n; ++i ) a.emplace_back( int( i + 1 ) );
			unsigned const spare = mc::choose( 3 ); // 0 exact, 1 one slot, 2 plenty
			if( spare == 0 ) a.shrink_to_fit( ); else a.reserve( n + ( spare == 1 ? 1 : 6 ) );
			unsigned const nb = mc::choose( 3 );
			for( unsigned i = 0; i < nb; ++i ) b.emplace_back( int( i + 100 ) );
			mc::set_fault_budget( budget );
			for( int k = 0; k < nops; ++k ) {
				auto const before = contents( a );
				auto const bb = contents( b );
				std::size_t const sz = a.size( );
				using D = std::ptrdiff_t;
				bool strong = false, threw = false;
				unsigned const op = mc::choose( 22 );
				char const *name = "?";
				// arguments are chosen outside the fault scope
				auto pos = [&] {
					if( large and mc::tier( ) == 0 ) {
						D const p[] = { 0, 1, D( sz / 2 ), D( sz ) - 1, D( sz ) };
						return std::min( std::max( p[mc::choose( 5 )], D( 0 ) ), D( sz ) );
					}
					return D( mc::choose( unsigned( sz + 1 ) ) );
				};
				auto call = [&]( char const *nm, auto f ) {
					name = nm;
					mc::note( "%s (size %zu capacity %zu)", nm, sz, a.capacity( ) );
					try {
						mc::FaultScope fs;
						f( );
					} catch( mc::InjectedFault const & ) {
						threw = true;
					} catch( std::bad_alloc const & ) {
						threw = true;
					}
				};
				switch( op ) {
				case 0: if constexpr( copyable ) { strong = true; call( "push_back(const&)", [&] { a.push_back( x ); } ); } break;
				case 1: { strong = copyable or std::is_nothrow_move_constructible_v<T>; T t( 51 ); call( "push_back(&&)", [&] { a.push_back( std::move( t ) ); } ); break; }
				case 2: strong = true; call( "emplace_back", [&] { a.emplace_back( 52 ); } ); break;
				case 3: if constexpr( copyable ) { auto p = pos( ); call( "insert(pos,const&)", [&] { (void)a.insert( a.cbegin( ) + p, x ); } ); } break;
				case 4: { auto p = pos( ); T t( 53 ); call( "insert(pos,&&)", [&] { (void)a.insert( a.cbegin( ) + p, std::move( t ) ); } ); break; }
				case 5: { auto p = pos( ); call( "emplace(pos)", [&] { (void)a.emplace( a.cbegin( ) + p, 54 ); } ); break; }
				case 6: if constexpr( copyable ) { auto p = pos( ); auto c = mc::choose( 3 ) + 1; call( "insert(pos,n,x)", [&] { (void)a.insert( a.cbegin( ) + p, std::size_t( c ), x ); } ); } break;
				case 7: if constexpr( copyable ) { auto p = pos( ); auto c = mc::choose( 3 ) + 1; call( "insert(pos,fwd range)", [&] { (void)a.insert( a.cbegin( ) + p, src, src + c ); } ); } break;
				case 8: if constexpr( copyable ) { auto p = pos( ); auto c = mc::choose( 3 ) + 1; call( "insert(pos,input range)", [&] { (void)a.insert( a.cbegin( ) + p, InputIt<T>( src ), InputIt<T>( src + c ) ); } ); } break;
				case 9: { if( sz == 0 ) break; auto p = D( mc::choose( unsigned( sz ) ) ); call( "erase(pos)", [&] { (void)a.erase( a.cbegin( ) + p ); } ); break; }
				case 10: { auto p = pos( ); auto q = p + D( mc::choose( unsigned( D( sz ) - p + 1 ) ) ); call( "erase(range)", [&] { (void)a.erase( a.cbegin( ) + p, a.cbegin( ) + q ); } ); break; }
				case 11: { auto s = new_size( sz ); strong = true; call( "resize(n)", [&] { a.resize( s ); } ); break; }
				case 12: if constexpr( copyable ) { auto s = new_size( sz ); strong = true; call( "resize(n,x)", [&] { a.resize( s, x ); } ); } break;
				case 13: { auto s = new_size( sz ); strong = true; call( "reserve", [&] { a.reserve( s ); } ); break; }
				case 14: { strong = true; call( "shrink_to_fit", [&] { a.shrink_to_fit( ); } ); MC_CHECK( contents( a ) == before, "shrink-contents", "shrink_to_fit changed the contents" ); break; }
				case 15: if constexpr( copyable ) { auto s = new_size( sz ); call( "assign(n,x)", [&] { a.assign( std::size_t( s ), x ); } ); } break;
				case 16: if constexpr( copyable ) { auto c = mc::choose( 4 ); auto in = mc::choose( 2 ); call( "assign(range)", [&] { if( in ) a.assign( InputIt<T>( src ), InputIt<T>( src + c ) ); else a.assign( src, src + c ); } ); } break;
				case 17: if constexpr( copyable ) { call( "a = b", [&] { a = std::as_const( b ); } ); MC_CHECK( contents( b ) == bb, "source-changed", "copy assignment changed its source" ); } break;
				case 18: if constexpr( copyable ) { strong = true; call( "copy construct", [&] { V t( a ); MC_CHECK( t.size( ) == sz, "copy-size", "copy" ); } ); MC_CHECK( contents( a ) == before, "source-changed", "copy construction changed its source" ); } break;
				case 19: { if( sz == 0 ) break; if constexpr( copyable or std::is_nothrow_move_constructible_v<T> ) { strong = true; call( "pop_back_value", [&] { T t = a.pop_back_value( ); } ); } break; }
				case 20: { // constructors
					auto w = mc::choose( 6 );
					auto c = mc::choose( 3 ) + 1;
					strong = true;
					std::allocator<T> al;
					bool const ext = mc::choose( 2 );
					if( w == 0 ) call( "vector(n)", [&] { if( ext ) V t( std::size_t( c ), al ); else V t{ std::size_t( c ) }; } );
					if constexpr( copyable ) {
						if( w == 1 ) call( "vector(n,x)", [&] { if( ext ) V t( std::size_t( c ), x, al ); else V t( std::size_t( c ), x ); } );
						if( w == 2 ) call( "vector(fwd range)", [&] { if( ext ) V t( src, src + c, al ); else V t( src, src + c ); } );
						if( w == 3 ) call( "vector(input range)", [&] { if( ext ) V t( InputIt<T>( src ), InputIt<T>( src + c ), al ); else V t( InputIt<T>( src ), InputIt<T>( src + c ) ); } );
						if( w == 4 ) { std::initializer_list<T> il{ src[0], src[1] }; mc::tr::reg.n -= 0; call( "vector(il)", [&] { V t( il, al ); } ); }
						if( w == 5 ) call( "vector(copy, alloc)", [&] { V t( a, al ); } );
					}
					break;
				}
				case 21: if constexpr( copyable ) { auto c = mc::choose( 3 ) + 1; strong = true; call( "append(n,x)", [&] { a.append( c, x ); } ); } break;
				}
				if( threw ) {
					auto const after = contents( a ); // touches every element
					MC_CHECK( a.size( ) <= a.capacity( ), "capacity", "%s failed and left capacity below size", name );
					if( strong ) MC_CHECK( after == before, "strong-guarantee", "%s failed and changed the vector (size %zu -> %zu)", name, before.size( ), after.size( ) );
				}
				MC_CHECK( contents( b ).size( ) == b.size( ), "other", "other vector" );
				MC_CHECK( mc::tr::reg.n == external + a.size( ) + b.size( ), "live-elements", "after %s%s: %u elements alive, expected %zu", name, threw ? " (failed)" : "", mc::tr::reg.n, external + a.size( ) + b.size( ) );
				mc::step( );
				mc::obs( std::uint64_t( op * 2 + threw ) );
				mc::obs( a.size( ) );
				for( int v : contents( a ) ) mc::obs( std::uint64_t( v ) );
			}
			mc::set_fault_budget( 0 );
			// the survivor is usable
			a.emplace_back( 99 );
			MC_CHECK( mc::val( a.back( ) ) == 99, "usable", "vector not usable after a failure" );
			if( mc::choose( 2 ) ) { b = std::move( a ); MC_CHECK( mc::val( b.back( ) ) == 99, "usable", "vector not movable after a failure" ); }
		}
		MC_CHECK( mc::tr::reg.n == external, "element-leak", "%u elements not destroyed", mc::tr::reg.n - external );
	} );
}

// sizes no vector can have: reported, and nothing is lost or overrun
template<typename T>
static void impossible( ) {
	using V = daw::vector<T>;
	mc::with_tracking( [&] {
		T const x( 50 );
		unsigned const n = mc::choose( 4 );
		V a{ };
		for( unsigned i = 0; i < n; ++i ) a.emplace_back( int( i + 1 ) );
		unsigned const spare = mc::choose( 3 );
		if( spare == 0 ) a.shrink_to_fit( ); else a.reserve( n + ( spare == 1 ? 1 : 6 ) );
		std::size_t const most = a.max_size( );
		std::size_t const all = ~std::size_t( 0 );
		std::size_t const sizes[] = { all, all - 1, all - n, all - n + 1, all - n + 2, all / 2 + 1, most + 1, most, all - a.capacity( ), all - a.capacity( ) + 1 };
		std::size_t const c = sizes[mc::choose( 10 )];
		if( c == 0 ) return; // all - 0 + 1
		if( c < 100 ) return;
		auto const before = contents( a );
		auto const pos = a.cbegin( ) + std::ptrdiff_t( mc::choose( n + 1 ) );
		unsigned const op = mc::choose( 10 );
		char const *const names[] = { "vector(n)", "vector(n,x)", "resize(n)", "resize(n,x)", "reserve(n)", "assign(n,x)", "insert(pos,n,x)", "append(n,x)", "resize_and_overwrite", "append_and_overwrite" };
		bool thrown = false;
		mc::note( "%s with %zx, size %u capacity %zu", names[op], c, n, a.capacity( ) );
		auto const fill = []( auto *, std::size_t ) -> std::size_t { return 0; };
		try {
			switch( op ) {
			case 0: { V t{ c }; } break;
			case 1: { V t( c, x ); } break;
			case 2: a.resize( c ); break;
			case 3: a.resize( c, x ); break;
			case 4: a.reserve( c ); break;
			case 5: a.assign( c, x ); break;
			case 6: (void)a.insert( pos, c, x ); break;
			case 7: a.append( c, x ); break;
			case 8: (void)a.resize_and_overwrite( c, fill ); break;
			default: (void)a.append_and_overwrite( c, fill ); break;
			}
		} catch( std::length_error const & ) {
			thrown = true;
		} catch( std::bad_alloc const & ) { thrown = true; }
		MC_CHECK( thrown, "impossible-size", "%s accepts %zx elements", names[op], c );
		if( op != 5 ) MC_CHECK( contents( a ) == before, "impossible-contents", "%s changed the vector", names[op] );
		a.emplace_back( 99 );
		MC_CHECK( mc::val( a.back( ) ) == 99 and a.size( ) <= a.capacity( ), "usable", "vector not usable after %s", names[op] );
		mc::step( );
	} );
}
MC_TEST( impossible_sizes ) { impossible<TM>( ); }
MC_TEST( impossible_sizes_throwing_move ) { impossible<TC>( ); }
MC_TEST( nothrow_move_single_fault ) { faults<TM>( 3, 1, mc::by_tier( 1, 2 ) ); }
MC_TEST( throwing_move_single_fault ) { faults<TC>( 3, 1, mc::by_tier( 1, 2 ) ); }
MC_TEST( move_only_single_fault ) { faults<TO>( 3, 1, mc::by_tier( 1, 2 ) ); }
MC_TEST( throwing_move_double_fault ) { faults<TC>( mc::by_tier( 1, 2 ), 2, 2 ); }
MC_TEST( nothrow_move_double_fault ) { faults<TM>( mc::by_tier( 1, 2 ), 2, 2 ); }
MC_TEST( nothrow_move_large ) { faults<TM>( 0, 1, 1, true ); }
MC_TEST( throwing_move_large ) { faults<TC>( 0, 1, 1, true ); }
MC_TEST( move_only_large ) { faults<TO>( 0, 1, 1, true ); }
