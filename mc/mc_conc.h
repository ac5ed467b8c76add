// Controlled scheduler for the real code: every atomic access, futex call,
// clock read, sleep and yield made by the instrumented harness translation unit
// is a scheduling point; plain accesses feed a happens-before race detector.
#pragma once
#include "mc.h"
#include <functional>

namespace mc::conc {
	// Runs the bodies as threads 1..n to completion under every schedule with at
	// most `preemptions` preemptive switches; throws Stop on deadlock, race, ...
	void run( unsigned preemptions, std::vector<std::function<void( )>> bodies );
	void set_spurious_wakeups( unsigned n ); // futex waits that may return early
	void set_time_jumps( unsigned n, std::uint64_t ns ); // clock reads that may find `ns` passed
	void set_max_steps( unsigned n );
	std::uint64_t now_ns( ); // virtual time
	unsigned self( );
	void sleep_ns( std::uint64_t ns ); // the calling thread sleeps in virtual time
	// last value the thread loaded atomically from [addr, addr+8)
	bool last_load( unsigned tid, void const *addr, std::uint64_t &value );
	unsigned jumps_used( );
	bool blocked_forever( unsigned tid );
} // namespace mc::conc
