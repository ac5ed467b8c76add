// Untimed atomic waits: every interleaving up to a preemption bound, with
// spurious futex wakeups, of small waiter/notifier programs on the real code.
// MC-RT: conc
#include "mc_conc.h"
#include <daw/daw_atomic_wait.h>
#include <memory>

using namespace mc::conc;
namespace {
	template<typename T>
	T mk( int i ) {
		if constexpr( std::is_pointer_v<T> ) return reinterpret_cast<T>( std::uintptr_t( i ) * 16 );
		else if constexpr( std::is_same_v<T, bool> ) return i != 0;
		else return static_cast<T>( i );
	}
	struct Pair {
		std::int32_t a, b;
		Pair( ) = default;
		explicit constexpr Pair( int i ) : a( i ), b( -i ) {}
		friend bool operator==( Pair const &, Pair const & ) = default;
	};
	enum class Enum : std::uint16_t {};

	template<typename T>
	struct Shared {
		std::atomic<T> v{ mk<T>( 0 ) };
		std::atomic<T> w{ mk<T>( 0 ) };
		int data[4]{ };
	};
	template<typename T>
	bool observed( std::atomic<T> const &a, T want ) {
		std::uint64_t x = 0, y = 0;
		if( not last_load( self( ), &a, x ) ) return false;
		std::memcpy( &y, &want, sizeof want );
		std::uint64_t const mask = sizeof( T ) >= 8 ? ~0ULL : ( 1ULL << ( 8 * sizeof( T ) ) ) - 1;
		return ( x & mask ) == ( y & mask );
	}

	// one writer publishes data and stores `steps` successive values, the last of
	// which every waiter wants; waiters must see the data
	template<typename T>
	void publish( unsigned pb, int waiters, int steps, bool one, unsigned spur ) {
		Shared<T> s;
		int done = 0;
		T const want = mk<T>( steps );
		std::vector<std::function<void( )>> b;
		for( int i = 0; i < waiters; ++i )
			b.push_back( [&, i] {
				daw::atomic_wait_value_equal( &s.v, want );
				MC_CHECK( observed( s.v, want ), "early-return", "waiter %d returned without having observed the wanted value", i );
				for( int k = 0; k < steps; ++k )
					MC_CHECK( s.data[k] == 10 + k, "stale-data", "waiter %d sees data[%d]=%d", i, k, s.data[k] );
			} );
		b.push_back( [&] {
			for( int k = 0; k < steps; ++k ) {
				s.data[k] = 10 + k;
				s.v.store( mk<T>( k + 1 ), std::memory_order_release );
				if( one ) s.v.notify_one( ); else s.v.notify_all( );
			}
		} );
		set_spurious_wakeups( spur );
		run( pb, std::move( b ) );
		(void)done;
	}
} // namespace

MC_TEST( one_waiter_int ) { publish<int>( mc::by_tier( 5, 8 ), 1, 1, true, 1 ); }
MC_TEST( one_waiter_two_steps_int ) { publish<int>( mc::by_tier( 3, 5 ), 1, 2, true, mc::choose( 2 ) ); }
MC_TEST( two_waiters_int ) { publish<int>( mc::by_tier( 2, 4 ), 2, 1, false, 1 ); }
MC_TEST( two_waiters_two_steps_int ) { publish<int>( mc::by_tier( 2, 3 ), 2, 2, false, 0 ); }
MC_TEST( one_waiter_proxy ) {
	unsigned const pb = mc::by_tier( 4, 6 );
	switch( mc::choose( 5 ) ) {
	case 0: publish<std::uint8_t>( pb, 1, 1, true, 1 ); break;
	case 1: publish<std::int64_t>( pb, 1, 1, true, 1 ); break;
	case 2: publish<Pair>( pb, 1, 1, true, 1 ); break;
	case 3: publish<int *>( pb, 1, 1, false, 0 ); break;
	case 4: publish<Enum>( pb, 1, 1, false, 0 ); break;
	}
}
MC_TEST( one_waiter_bool ) { publish<bool>( mc::by_tier( 4, 7 ), 1, 1, true, 1 ); }
MC_TEST( two_waiters_proxy ) { publish<std::int64_t>( mc::by_tier( 2, 4 ), 2, 1, false, mc::choose( 2 ) ); }
MC_TEST( one_waiter_two_steps_proxy ) { publish<std::uint16_t>( mc::by_tier( 3, 5 ), 1, 2, true, 0 ); }

MC_TEST( three_waiters_int ) { publish<int>( mc::by_tier( 1, 2 ), 3, 1, false, 0 ); }

// two writers, each publishing its own datum, count down to zero
template<typename T>
static void countdown( unsigned pb, int writers, unsigned spur, bool pred ) {
	Shared<T> s;
	s.v.store( mk<T>( writers ) );
	std::vector<std::function<void( )>> b;
	b.push_back( [&] {
		if( pred ) {
			T last = mk<T>( 99 );
			bool res = false;
			daw::atomic_wait_if( &s.v, [&]( T x ) {
				last = x;
				return res = x <= mk<T>( 0 );
			} );
			MC_CHECK( res, "early-return", "atomic_wait_if returned although its predicate was false for %d", int( last ) );
			MC_CHECK( observed( s.v, last ), "predicate-arg", "predicate was given a value that was not loaded" );
		} else {
			daw::atomic_wait_value_equal( &s.v, mk<T>( 0 ) );
			MC_CHECK( observed( s.v, mk<T>( 0 ) ), "early-return", "returned without having observed zero" );
		}
		for( int i = 0; i < writers; ++i )
			MC_CHECK( s.data[i] == i + 1, "stale-data", "data[%d]=%d", i, s.data[i] );
	} );
	for( int i = 0; i < writers; ++i )
		b.push_back( [&, i] {
			s.data[i] = i + 1;
			s.v.fetch_sub( 1, std::memory_order_acq_rel );
			s.v.notify_one( );
		} );
	set_spurious_wakeups( spur );
	run( pb, std::move( b ) );
}
MC_TEST( countdown_two_writers ) { countdown<int>( mc::by_tier( 3, 5 ), 2, 0, mc::choose( 2 ) ); }
MC_TEST( countdown_two_writers_proxy ) { countdown<std::int64_t>( mc::by_tier( 3, 4 ), 2, 0, mc::choose( 2 ) ); }
MC_TEST( countdown_three_writers ) { countdown<int>( mc::by_tier( 2, 3 ), 3, 0, true ); }

// relaxed intermediate values, released final value
MC_TEST( relaxed_then_release ) {
	Shared<int> s;
	run( mc::by_tier( 5, 7 ), { [&] {
		     daw::atomic_wait_value_equal( &s.v, 2 );
		     MC_CHECK( s.data[0] == 7, "stale-data", "data=%d", s.data[0] );
	     },
	                            [&] {
		                            s.v.store( 1, std::memory_order_relaxed );
		                            s.v.notify_one( );
		                            s.data[0] = 7;
		                            s.v.store( 2, std::memory_order_release );
		                            s.v.notify_one( );
	                            } } );
}

// two threads alternate through one atomic
template<typename T>
static void ping_pong( unsigned pb, int rounds, unsigned spur ) {
	Shared<T> s;
	int shared_counter = 0;
	auto body = [&]( int me ) {
		return [&, me] {
			for( int r = 0; r < rounds; ++r ) {
				T const mine = mk<T>( 2 * r + me );
				daw::atomic_wait_value_equal( &s.v, mine );
				MC_CHECK( shared_counter == 2 * r + me, "order", "turn %d entered with counter %d", 2 * r + me, shared_counter );
				++shared_counter;
				s.v.store( mk<T>( 2 * r + me + 1 ), std::memory_order_release );
				s.v.notify_one( );
			}
		};
	};
	set_spurious_wakeups( spur );
	run( pb, { body( 0 ), body( 1 ) } );
	MC_CHECK( shared_counter == 2 * rounds, "order", "counter %d", shared_counter );
}
MC_TEST( ping_pong_int ) { ping_pong<int>( mc::by_tier( 3, 4 ), mc::by_tier( 2, 3 ), 1 ); }
MC_TEST( ping_pong_proxy ) { ping_pong<std::int64_t>( mc::by_tier( 3, 4 ), mc::by_tier( 2, 3 ), 1 ); }

// two different atomics, crossing waits
MC_TEST( rendezvous ) {
	Shared<int> s;
	run( mc::by_tier( 4, 6 ), { [&] {
		     s.data[0] = 1;
		     s.v.store( 1, std::memory_order_release );
		     s.v.notify_all( );
		     daw::atomic_wait_if( &s.w, []( int x ) { return x != 0; } );
		     MC_CHECK( s.data[1] == 2, "stale-data", "data[1]=%d", s.data[1] );
	     },
	                            [&] {
		                            s.data[1] = 2;
		                            s.w.store( 1, std::memory_order_release );
		                            s.w.notify_all( );
		                            daw::atomic_wait_if( &s.v, []( int x ) { return x != 0; } );
		                            MC_CHECK( s.data[0] == 1, "stale-data", "data[0]=%d", s.data[0] );
	                            } } );
}

// explicit orders
MC_TEST( explicit_order ) {
	Shared<int> s;
	auto const o = mc::pick( { std::memory_order_seq_cst, std::memory_order_acquire } );
	bool const eq = mc::choose( 2 );
	run( mc::by_tier( 4, 6 ), { [&] {
		     if( eq ) daw::atomic_wait_value_equal( &s.v, 2, o );
		     else daw::atomic_wait_if( &s.v, []( int x ) { return x == 2; }, o );
		     MC_CHECK( observed( s.v, 2 ), "early-return", "returned early" );
		     MC_CHECK( s.data[0] == 7, "stale-data", "data=%d", s.data[0] );
	     },
	                            [&] {
		                            s.v.store( 1 );
		                            s.v.notify_one( );
		                            s.data[0] = 7;
		                            s.v.store( 2, std::memory_order_release );
		                            s.v.notify_one( );
	                            } } );
}
MC_TEST( relaxed_order ) {
	Shared<int> s;
	run( mc::by_tier( 4, 6 ), { [&] {
		     daw::atomic_wait_value_equal( &s.v, 2, std::memory_order_relaxed );
		     MC_CHECK( observed( s.v, 2 ), "early-return", "returned early" );
	     },
	                            [&] {
		                            s.v.store( 1, std::memory_order_relaxed );
		                            s.v.notify_one( );
		                            s.v.store( 2, std::memory_order_relaxed );
		                            s.v.notify_one( );
	                            } } );
}
// already satisfied: must not block at all
MC_TEST( already_satisfied ) {
	Shared<int> s;
	s.v.store( 5 );
	run( 1, { [&] { daw::atomic_wait_value_equal( &s.v, 5 ); daw::atomic_wait_if( &s.v, []( int x ) { return x == 5; } ); } } );
}
