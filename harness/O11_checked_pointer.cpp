// O11: checked pointers and the allocator built on them.
#include "mc.h"
#include "mc_tracked.h"

#include <cassert>
#include <cstdint>
#include <limits>
#include <daw/daw_safe_pointer.h>
#include <daw/daw_tracked_allocator.h>

#include <memory>
#include <set>
#include <vector>

namespace {
	using P = daw::memory::safe_pointer<int>;
	using CP = daw::memory::safe_pointer<int const>;

	// exactly sized, so that a step outside shows
	struct Block {
		std::size_t n;
		std::unique_ptr<int[]> p;
		explicit Block( std::size_t size ) : n( size ), p( new int[size] ) {
			for( std::size_t i = 0; i != n; ++i ) {
				p[i] = 10 + int( i );
			}
		}
	};

	template<typename F>
	void outcome( char const *what, bool allowed, int at, int d, int n, F &&f ) {
		bool const died = mc::aborts( f );
		MC_CHECK( died != allowed, what, "%s from %d by %d in an array of %d: %s", what, at, d, n, died ? "stopped" : "not stopped" );
	}

	void same( char const *what, Block const &b, P const &p, int at ) {
		int *const raw = b.p.get( ) + at;
		MC_CHECK( p.get( ) == raw, what, "%s: points to element %td, not %d", what, p.get( ) - b.p.get( ), at );
		MC_CHECK( p.get_base( ) == b.p.get( ) and p.get_base_size( ) == b.n, what, "%s: the range changes", what );
		MC_CHECK( bool( p ), what, "%s: a valid pointer is not true", what );
		if( at != int( b.n ) ) {
			MC_CHECK( &*p == raw and p.operator->( ) == raw and *p == 10 + at, what, "%s: element %d is read as %d", what, at, *p );
		}
		for( int i = -at; i < int( b.n ) - at; ++i ) {
			MC_CHECK( &p[i] == raw + i, what, "%s: [%d] from %d is another element", what, i, at );
		}
	}

	void steps( ) {
		int const n = mc::choose_range( 1, 4 );
		Block const b( static_cast<std::size_t>( n ) );
		P p( b.p.get( ), b.n );
		same( "construct", b, p, 0 );
		int const at = mc::choose_range( 0, n );
		for( int i = 0; i != at; ++i ) {
			same( "++", b, ++p, i + 1 );
		}
		int const d = mc::choose_range( -6, 6 );
		bool const in = at + d >= 0 and at + d <= n;
		int const op = mc::choose( 6 );
		mc::note( "at %d of %d, by %d, operation %d", at, n, d, op );
		switch( op ) {
		case 0:
			if( in ) {
				P q( p );
				same( "+=", b, q += d, at + d );
				same( "+", b, p + d, at + d );
				same( "source", b, p, at );
			} else {
				outcome( "+", false, at, d, n, [&] { (void)( p + d ); } );
			}
			break;
		case 1:
			if( in ) {
				P q( p );
				same( "-=", b, q -= -d, at + d );
				same( "-", b, p - -d, at + d );
				same( "source", b, p, at );
			} else {
				outcome( "-", false, at, d, n, [&] { (void)( p - -d ); } );
			}
			break;
		case 2: {
			if( at + d < 0 or at + d >= n ) {
				outcome( "[]", false, at, d, n, [&] { p[d] = 3; } );
			} else {
				p[d] = 3;
				MC_CHECK( b.p[std::size_t( at + d )] == 3, "[]", "writes elsewhere" );
			}
			break;
		}
		case 3:
			if( at == n ) {
				outcome( "++", false, at, 1, n, [&] { ++p; } );
				outcome( "*", false, at, 0, n, [&] { *p = 3; } );
			} else {
				same( "post ++", b, p++, at );
				same( "++", b, p, at + 1 );
			}
			break;
		case 4:
			if( at == 0 ) {
				outcome( "--", false, at, -1, n, [&] { --p; } );
			} else {
				same( "post --", b, p--, at );
				same( "--", b, p, at - 1 );
				same( "--", b, at == 1 ? p : --p, at == 1 ? 0 : at - 2 );
			}
			break;
		default: {
			// given back: nothing may use it
			MC_CHECK( p.destroy( ) == b.p.get( ), "destroy", "gives another block" );
			MC_CHECK( not p, "destroy", "a destroyed pointer is still true" );
			outcome( "* after destroy", false, at, 0, n, [&] { (void)*p; } );
			outcome( "-> after destroy", false, at, 0, n, [&] { (void)p.operator->( ); } );
			outcome( "++ after destroy", false, at, 0, n, [&] { ++p; } );
			outcome( "-- after destroy", false, at, 0, n, [&] { --p; } );
			break;
		}
		}
		mc::count_case( );
	}

	void pairs( ) {
		int const n = mc::choose_range( 1, 4 );
		Block const b( static_cast<std::size_t>( n ) );
		int const i = mc::choose_range( 0, n );
		int const k = mc::choose_range( 0, n );
		P const base( b.p.get( ), b.n );
		P const p = base + i;
		P const q = base + k;
		MC_CHECK( p - q == i - k, "distance", "from %d to %d is %td", k, i, p - q );
		MC_CHECK( p - q.get( ) == i - k, "distance", "from %d to %d is %td", k, i, p - q.get( ) );
		MC_CHECK( ( p == q ) == ( i == k ) and ( p != q ) == ( i != k ) and ( p < q ) == ( i < k ) and ( p <= q ) == ( i <= k ) and ( p > q ) == ( i > k ) and ( p >= q ) == ( i >= k ), "compare", "%d and %d", i, k );
		auto const cp = static_cast<CP>( p );
		MC_CHECK( cp.get( ) == p.get( ) and cp.get_base( ) == p.get_base( ) and cp.get_base_size( ) == b.n and cp == p, "convert", "to a pointer to constant" );
		if( i != n ) {
			MC_CHECK( *cp == 10 + i and &cp[0] == p.get( ), "convert", "reads another element" );
		}
		MC_CHECK( cp - q == i - k, "distance", "of a pointer to constant" );
		auto const vp = static_cast<daw::memory::safe_pointer<void>>( p );
		auto const vq = static_cast<daw::memory::safe_pointer<void const>>( q );
		MC_CHECK( vp.get( ) == p.get( ) and bool( vp ) and ( vp == vq ) == ( i == k ) and ( vp < vq ) == ( i < k ) and ( vp != vq ) == ( i != k ) and ( vp <= vq ) == ( i <= k ) and ( vp > vq ) == ( i > k ) and ( vp >= vq ) == ( i >= k ), "untyped", "%d and %d", i, k );
		// none at all
		P const none = nullptr;
		MC_CHECK( not none and none == nullptr and nullptr == none and not( none != nullptr ) and p != nullptr and nullptr != p and not( p == nullptr ) and none == P( ) and none != p and none.get( ) == nullptr, "null", "comparisons with nullptr" );
		outcome( "* of null", false, 0, 0, 0, [&] { (void)*none; } );
		outcome( "+ 1 of null", false, 0, 1, 0, [&] { (void)( none + 1 ); } );
		// one object, and an array
		int object = 5;
		P const one( &object );
		MC_CHECK( &*one == &object and one.get( ) == &object and one.get_base( ) == &object, "object", "another object" );
		int array[3] = { 1, 2, 3 };
		P const a( array );
		MC_CHECK( a.get_base_size( ) == 3 and a[2] == 3 and *( a + 1 ) == 2 and std::pointer_traits<P>::pointer_to( array[1] ).get( ) == array + 1 and std::to_address( a ) == array, "array", "of three" );
		outcome( "array end", false, 3, 0, 3, [&] { (void)*( a + 3 ); } );
		// another block
		Block const other( 2 );
		P const far( other.p.get( ), 2 );
		outcome( "distance to another block", false, i, 0, n, [&] { (void)( p - far ); } );
		mc::count_case( );
	}

	// An allocator that knows its blocks.
	template<typename T>
	struct Known {
		using value_type = T;
		static inline std::set<std::pair<void *, std::size_t>> out;
		Known( ) = default;
		template<typename U>
		Known( Known<U> const & ) {}
		T *allocate( std::size_t n ) {
			auto *const p = std::allocator<T>{ }.allocate( n );
			mc::NoTrack const nt;
			out.insert( { p, n } );
			return p;
		}
		void deallocate( T *p, std::size_t n ) {
			mc::NoTrack const nt;
			if( out.erase( { p, n } ) != 1 ) {
				mc::fail_later( "deallocate", "a block of %zu that was not handed out is given back", n );
			}
			std::allocator<T>{ }.deallocate( p, n );
		}
		friend bool operator==( Known const &, Known const & ) { return true; }
	};

	// an allocator no two of which are equal
	template<typename T>
	struct Apart : std::allocator<T> {
		using is_always_equal = std::false_type;
		Apart( ) = default;
		template<typename U>
		Apart( Apart<U> const & ) {}
		friend bool operator==( Apart const &, Apart const & ) { return false; }
	};

	template<typename T>
	void history( int depth ) {
		using A = daw::memory::tracked_allocator<T, Known<T>>;
		mc::with_tracking( [&] {
			Known<T>::out.clear( );
			{
				std::vector<T, A> v;
				std::vector<int> m;
				int next = 1;
				for( int d = 0;; ++d ) {
					MC_CHECK( v.size( ) == m.size( ), "size", "%zu items, not %zu", v.size( ), m.size( ) );
					std::size_t k = 0;
					for( auto const &x : v ) {
						MC_CHECK( mc::val( x ) == m[k] and mc::val( v[k] ) == m[k], "item", "item %zu is %d, not %d", k, mc::val( x ), m[k] );
						++k;
					}
					MC_CHECK( Known<T>::out.size( ) == ( v.capacity( ) != 0 ), "blocks", "%zu blocks are held for %zu items", Known<T>::out.size( ), v.size( ) );
					if( not m.empty( ) ) {
						MC_CHECK( mc::val( v.front( ) ) == m.front( ) and mc::val( v.back( ) ) == m.back( ), "ends", "first or last" );
					}
					if( d == depth ) {
						break;
					}
					mc::step( );
					auto const at = [&] { return std::ptrdiff_t( mc::choose( unsigned( m.size( ) ) ) ); };
					switch( mc::choose( 6 ) ) {
					case 0: v.push_back( T( next ) ); m.push_back( next++ ); break;
					case 1: if( m.empty( ) ) return; v.pop_back( ); m.pop_back( ); break;
					case 2: { if( m.empty( ) ) return; auto const i = at( ); v.erase( v.begin( ) + i ); m.erase( m.begin( ) + i ); } break;
					case 3: { auto const i = std::ptrdiff_t( mc::choose( unsigned( m.size( ) + 1 ) ) ); v.insert( v.begin( ) + i, T( next ) ); m.insert( m.begin( ) + i, next++ ); } break;
					case 4: v.clear( ); m.clear( ); if( mc::choose( 2 ) ) v.shrink_to_fit( ); break;
					default: { std::vector<T, A> w( v ); v = std::move( w ); } break;
					}
				}
			}
			MC_CHECK( Known<T>::out.empty( ), "blocks", "%zu blocks are never given back", Known<T>::out.size( ) );
		} );
	}
} // namespace

MC_TEST( steps ) { steps( ); }
MC_TEST( farthest_steps ) { // the displacements that no array reaches are stopped like any other
	int const n = mc::choose_range( 1, 4 );
	Block const b( static_cast<std::size_t>( n ) );
	int const at = mc::choose_range( 0, n );
	P p( b.p.get( ), b.n );
	p += at;
	constexpr auto lo = std::numeric_limits<std::ptrdiff_t>::min( );
	constexpr auto hi = std::numeric_limits<std::ptrdiff_t>::max( );
	constexpr std::ptrdiff_t far[] = { lo, lo + 1, lo + 2, lo / 2, lo / 4, lo / 4 + 1, -( std::ptrdiff_t( 1 ) << 32 ), std::ptrdiff_t( 1 ) << 32, hi / 4, hi / 4 + 1, hi / 2, hi / 2 + 1, hi - 4, hi - 1, hi };
	std::ptrdiff_t const d = far[mc::choose( unsigned( std::size( far ) ) )];
	int const op = mc::choose( 5 );
	mc::note( "at %d of %d, by %td, operation %d", at, n, d, op );
	bool const died = mc::aborts( [&] {
		switch( op ) {
		case 0: (void)( p + d ); break;
		case 1: (void)( p - d ); break;
		case 2: p += d; break;
		case 3: p -= d; break;
		default: (void)p[d]; break;
		}
	} );
	MC_CHECK( died, "far", "a step of %td from %d in an array of %d is not stopped", d, at, n );
	mc::count_case( );
}
MC_TEST( pairs ) { pairs( ); }
MC_TEST( allocator_int ) { history<int>( mc::by_tier( 6, 8 ) ); }
MC_TEST( allocator_tracked ) { history<mc::Tracked<0>>( mc::by_tier( 6, 8 ) ); }
MC_TEST( allocator_equal ) { // exactly when the allocators within are
	daw::memory::tracked_allocator<int, Known<int>> const a{ }, b{ };
	daw::memory::tracked_allocator<int, Apart<int>> const c{ }, d{ };
	daw::memory::tracked_allocator<int> const e{ }, f{ };
	MC_CHECK( a == b and not( a != b ) and e == f, "equal", "equal allocators differ" );
	MC_CHECK( not( c == d ) and c != d, "equal", "different allocators are equal" );
}
