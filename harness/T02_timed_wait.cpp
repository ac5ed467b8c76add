// Timed atomic waits under a controlled scheduler and a virtual clock.
// MC-RT: conc
#include "mc_conc.h"
#include <daw/daw_atomic_wait.h>

using namespace mc::conc;
using namespace std::chrono_literals;
namespace {
	constexpr std::uint64_t US = 1000, MS = 1000 * US;
	std::uint64_t const margin = 300 * US; // virtual cost of the polling code itself is charged 1us per clock read

	enum Form { For, Until, UntilSteady, IfFor, IfUntil, EqFor, EqUntil, NForms };
	char const *fname[] = { "atomic_wait_for", "atomic_wait_until", "atomic_wait_until(steady)", "atomic_wait_if_for", "atomic_wait_if_until", "atomic_wait_value_equal_for", "atomic_wait_value_equal_until" };

	template<typename T>
	struct Sh {
		std::atomic<T> v{ };
		int data = 0;
		std::uint64_t stored_at_ = ~0ULL; // harness bookkeeping, hidden from the race detector
		__attribute__( ( noinline, no_sanitize( "thread" ) ) ) std::uint64_t stored_at( ) const { return stored_at_; }
		__attribute__( ( noinline, no_sanitize( "thread" ) ) ) void stored_at( std::uint64_t t ) { stored_at_ = t; }
	};
} // namespace
namespace {
	// waits until *v becomes `want` (or differs from 0 for the wait_for forms)
	template<typename T>
	bool timed_wait( Form f, std::atomic<T> &v, T want, std::uint64_t rel_ns ) {
		std::chrono::nanoseconds const rel( rel_ns );
		using std::chrono::steady_clock;
		using std::chrono::system_clock;
		T const zero{ };
		auto pred = [&]( T x ) { return x == want; };
		daw::wait_status s{ };
		switch( f ) {
		case For: s = daw::atomic_wait_for( &v, zero, rel ); break;
		case Until: s = daw::atomic_wait_until( &v, zero, system_clock::now( ) + rel ); break;
		case UntilSteady: s = daw::atomic_wait_until( &v, zero, steady_clock::now( ) + rel ); break;
		case IfFor: s = daw::atomic_wait_if_for( &v, pred, rel ); break;
		case IfUntil: s = daw::atomic_wait_if_until( &v, pred, steady_clock::now( ) + rel ); break;
		case EqFor: s = daw::atomic_wait_value_equal_for( &v, want, rel ); break;
		case EqUntil: s = daw::atomic_wait_value_equal_until( &v, want, system_clock::now( ) + rel ); break;
		default: break;
		}
		return s == daw::wait_status::found;
	}
	template<typename T>
	void check_wait( Form f, Sh<T> &s, T want, std::uint64_t rel, bool jumps, bool must_find_if_early ) {
		auto const t0 = now_ns( );
		bool const found = timed_wait<T>( f, s.v, want, rel );
		auto const t1 = now_ns( );
		std::uint64_t raw = 0;
		MC_CHECK( last_load( self( ), &s.v, raw ), "never-looked", "%s never loaded the value", fname[f] );
		T last{ };
		std::memcpy( &last, &raw, sizeof last );
		bool const sat = f <= UntilSteady ? last != T{ } : last == want;
		auto const deadline = t0 + rel;
		mc::note( "  %s rel=%lluus -> %s after %lluus", fname[f], (unsigned long long)( rel / US ), found ? "found" : "timeout", (unsigned long long)( ( t1 - t0 ) / US ) );
		mc::obs( found );
		mc::obs( f );
		MC_CHECK( found == sat, found ? "false-found" : "false-timeout", "%s reported %s although the last observed value %s", fname[f], found ? "found" : "timeout", sat ? "satisfies" : "does not satisfy" );
		if( found ) {
			if( last == want ) MC_CHECK( s.data == 7, "stale-data", "%s: data=%d", fname[f], s.data );
		} else {
			MC_CHECK( t1 >= deadline, "early-timeout", "%s timed out %lluns before the deadline", fname[f], (unsigned long long)( deadline - t1 ) );
			if( must_find_if_early and not jumps )
				MC_CHECK( s.stored_at( ) == ~0ULL or s.stored_at( ) + margin >= deadline, "missed", "%s timed out although the value was stored %lluus before the deadline", fname[f], (unsigned long long)( ( deadline - s.stored_at( ) ) / US ) );
		}
		if( not jumps and t1 > deadline )
			MC_CHECK( t1 - deadline <= rel / 2 + 8 * MS + MS, "overshoot", "%s kept waiting %lluus after the deadline", fname[f], (unsigned long long)( ( t1 - deadline ) / US ) );
		// a found wait must have noticed soon after the store
		if( found and not jumps and s.stored_at( ) != ~0ULL and s.stored_at( ) > t0 and t1 > s.stored_at( ) )
			MC_CHECK( t1 - s.stored_at( ) <= ( s.stored_at( ) - t0 ) / 2 + 8 * MS + MS, "late", "%s noticed the value %lluus after it was stored", fname[f], (unsigned long long)( ( t1 - s.stored_at( ) ) / US ) );
	}
	template<typename T>
	std::function<void( )> writer( Sh<T> &s, T want, std::uint64_t delay, bool blip ) {
		return [&s, want, delay, blip] {
			if( delay ) sleep_ns( delay );
			if( blip ) {
				s.v.store( T( 9 ), std::memory_order_release );
				s.v.store( T{ }, std::memory_order_release );
			}
			s.data = 7;
			s.v.store( want, std::memory_order_release );
			s.stored_at( now_ns( ) );
		};
	}
} // namespace

// nobody stores: truthful timeout within the allowed overshoot, every form and timeout
MC_TEST( timeout_only ) {
	Sh<int> s;
	Form const f = Form( mc::choose( NForms ) );
	std::uint64_t const rel = mc::pick( { 0 * US, 1 * US, 3 * US, 5 * US, 30 * US, 70 * US, 200 * US, 900 * US, 3 * MS, 20 * MS, 100 * MS, 130 * MS, 150 * MS, 500 * MS, 2000 * MS } );
	bool const pre = mc::choose( 2 );
	if( pre ) {
		s.v.store( 5 );
		s.data = 7;
	}
	run( 0, { [&] { check_wait<int>( f, s, 5, rel, false, false ); } } );
}
// one writer at every interesting time, every interleaving up to the bound
template<typename T>
static void with_writer( unsigned pb, bool blip ) {
	Sh<T> s;
	Form const f = Form( mc::choose( NForms ) );
	std::uint64_t const rel = mc::pick( { 2 * US, 40 * US, 600 * US, 5 * MS, 200 * MS } );
	std::uint64_t const at = mc::pick( { 0ul, 20ul, 45ul, 80ul, 99ul, 130ul } );
	bool const b = blip and f > UntilSteady;
	run( pb, { [&] { check_wait<T>( f, s, T( 5 ), rel, false, true ); }, writer<T>( s, T( 5 ), rel * at / 100, b ) } );
}
MC_TEST( writer_int ) { with_writer<int>( mc::by_tier( 2, 3 ), false ); }
MC_TEST( writer_blip_int64 ) { with_writer<std::int64_t>( mc::by_tier( 2, 2 ), true ); }
MC_TEST( writer_u8 ) { with_writer<std::uint8_t>( mc::by_tier( 1, 1 ), false ); }

// the waiter may find at any clock read that a long time has passed
MC_TEST( waiter_delayed ) {
	Sh<int> s;
	Form const f = Form( mc::choose( NForms ) );
	std::uint64_t const rel = mc::pick( { 40 * US, 600 * US, 150 * MS } );
	set_time_jumps( mc::by_tier( 2, 3 ), mc::choose( 2 ) ? rel * 2 : rel / 2 );
	run( mc::by_tier( 1, 1 ), { [&] { check_wait<int>( f, s, 5, rel, true, false ); }, writer<int>( s, 5, rel / 2, mc::tier( ) and f > UntilSteady ) } );
}
// value appears then goes away: only the truthfulness of the report matters
MC_TEST( value_flickers ) {
	Sh<int> s;
	Form const f = Form( mc::choose( NForms ) );
	std::uint64_t const rel = mc::pick( { 40 * US, 600 * US, 20 * MS } );
	std::uint64_t const at = mc::pick( { 0ul, 45ul, 97ul } );
	run( mc::by_tier( 1, 2 ), { [&] {
		     auto const t0 = now_ns( );
		     bool const found = timed_wait<int>( f, s.v, 5, rel );
		     std::uint64_t raw = 0;
		     MC_CHECK( last_load( self( ), &s.v, raw ), "never-looked", "never loaded" );
		     int const last = int( raw );
		     bool const sat = f <= UntilSteady ? last != 0 : last == 5;
		     MC_CHECK( found == sat, found ? "false-found" : "false-timeout", "%s reported %s but last saw %d", fname[f], found ? "found" : "timeout", last );
		     MC_CHECK( found or now_ns( ) >= t0 + rel, "early-timeout", "timed out early" );
	     },
	                            [&] {
		                            sleep_ns( rel * at / 100 );
		                            s.v.store( 5, std::memory_order_release );
		                            sleep_ns( 10 * US );
		                            s.v.store( 0, std::memory_order_release );
	                            } } );
}
// deadlines that never come, and ones that have passed long before
MC_TEST( distant_deadlines ) {
	Sh<int> s;
	Form const f = Form( mc::choose( NForms ) );
	bool const past = mc::choose( 2 );
	unsigned const how = mc::choose( 3 );
	std::uint64_t const at = mc::pick( { 0 * US, 50 * US, 3 * MS } );
	bool const pre = past and mc::choose( 2 );
	if( pre ) s.v.store( 5 );
	auto const wait = [&] {
		using namespace std::chrono;
		auto pred = []( int x ) { return x == 5; };
		nanoseconds const rel = past ? ( how == 0 ? nanoseconds( -1 ) : how == 1 ? nanoseconds( hours( -1 ) ) : nanoseconds( hours( -24 * 365 * 100 ) ) ) : ( how == 0 ? nanoseconds::max( ) : how == 1 ? nanoseconds( hours( 24 * 365 * 290 ) ) : nanoseconds::max( ) - nanoseconds( hours( 1 ) ) );
		auto const sys = past ? system_clock::now( ) - hours( how + 1 ) : how == 0 ? system_clock::time_point::max( ) : how == 1 ? system_clock::time_point( nanoseconds( hours( 24 * 365 * 290 ) ) ) : system_clock::time_point::max( ) - hours( 1 );
		auto const steady = past ? ( how == 0 ? steady_clock::time_point( ) : steady_clock::now( ) - nanoseconds( how ) ) : how == 0 ? steady_clock::time_point::max( ) : how == 1 ? steady_clock::time_point( nanoseconds( hours( 24 * 365 * 290 ) ) ) : steady_clock::time_point::max( ) - hours( 1 );
		daw::wait_status st{ };
		auto const t0 = now_ns( );
		switch( f ) {
		case For: st = daw::atomic_wait_for( &s.v, 0, rel ); break;
		case Until: st = daw::atomic_wait_until( &s.v, 0, sys ); break;
		case UntilSteady: st = daw::atomic_wait_until( &s.v, 0, steady ); break;
		case IfFor: st = daw::atomic_wait_if_for( &s.v, pred, rel ); break;
		case IfUntil: st = daw::atomic_wait_if_until( &s.v, pred, steady ); break;
		case EqFor: st = daw::atomic_wait_value_equal_for( &s.v, 5, rel ); break;
		default: st = daw::atomic_wait_value_equal_until( &s.v, 5, sys ); break;
		}
		bool const found = st == daw::wait_status::found;
		if( past ) {
			MC_CHECK( found == pre, "past-deadline", "%s reported %s for a deadline that had passed, the value %s", fname[f], found ? "found" : "timeout", pre ? "satisfied" : "did not satisfy" );
			MC_CHECK( now_ns( ) - t0 <= margin, "past-deadline", "%s took %lluus for a deadline that had passed", fname[f], (unsigned long long)( ( now_ns( ) - t0 ) / US ) );
		} else {
			MC_CHECK( found, "distant-deadline", "%s timed out after %lluus although its deadline never comes", fname[f], (unsigned long long)( ( now_ns( ) - t0 ) / US ) );
		}
	};
	if( past ) {
		run( 0, { wait } );
	} else {
		run( 1, { wait, [&] {
			     if( at ) sleep_ns( at );
			     s.v.store( 5, std::memory_order_release );
		     } } );
	}
}
// two waiters with different deadlines on one atomic
MC_TEST( two_waiters ) {
	Sh<int> s;
	Form const f = mc::pick( { For, IfFor, EqFor } ), g = mc::pick( { Until, EqUntil } );
	std::uint64_t const r = mc::pick( { 60 * US, 900 * US } );
	run( mc::by_tier( 1, 1 ), { [&] { check_wait<int>( f, s, 5, r, false, true ); }, [&] { check_wait<int>( g, s, 5, 4 * r, false, true ); }, writer<int>( s, 5, mc::choose( 2 ) ? r / 2 : 2 * r, false ) } );
}
// the polling engine itself: gives up when the policy says so, never calls the
// condition again after it succeeded
#ifndef MC_NO_INTERNALS
MC_TEST( poll_engine ) {
	int const succeed_at = mc::choose_range( 0, 70 );
	int const quit_at = mc::choose_range( 0, 6 );
	std::uint64_t const limit = mc::pick( { 0 * US, 5 * US, 1000 * US } );
	run( 0, { [&] {
		int calls = 0, pol = 0;
		bool done = false;
		auto const t0 = now_ns( );
		bool const r = daw::atomic_impl::poll_with_backoff(
		  [&]( std::chrono::nanoseconds e ) {
			  MC_CHECK( e < std::chrono::nanoseconds( limit ), "policy-late", "policy consulted after the limit" );
			  return ++pol > quit_at;
		  },
		  [&] {
			  MC_CHECK( not done, "poll-after-success", "condition polled after it succeeded" );
			  return done = ( calls++ == succeed_at );
		  },
		  std::chrono::nanoseconds( limit ) );
		MC_CHECK( r == done, "poll-result", "result %d, condition %d", r, done );
		if( not r ) MC_CHECK( pol > quit_at or now_ns( ) - t0 >= limit, "poll-early", "gave up early" );
	} } );
}
#endif
