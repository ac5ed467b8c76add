#include "mc_conc.h"
#include <atomic>
#include <cerrno>
#include <dlfcn.h>
#include <linux/futex.h>
#include <sched.h>
#include <sys/mman.h>
#include <malloc.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

// ---- fibers --------------------------------------------------------------------
extern "C" void mc_switch( void **save_sp, void *load_sp );
asm( R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)" );

namespace {
	using u8 = std::uint8_t;
	using u64 = std::uint64_t;
	constexpr unsigned MAXT = 8;
	constexpr std::size_t STACK = 256 * 1024;
	struct VC {
		unsigned c[MAXT];
		void join( VC const &o ) {
			for( unsigned i = 0; i < MAXT; ++i ) if( o.c[i] > c[i] ) c[i] = o.c[i];
		}
	};
	enum St : u8 { Ready, Futex, Sleep, Done };
	struct Thr {
		void *sp;
		St st;
		VC vc, pend, frel; // clock, pending acquires, clock of last release fence
		std::function<void( )> *fn;
		void *futex_addr;
		bool futex_woken;
		u64 wake;
		u64 npoints;
	};
	Thr T[MAXT];
	unsigned N, cur;
	bool active, aborting;
	unsigned bound, used, spur_budget, spur_used, jump_budget, jump_used, max_steps, steps;
	u64 jump_ns, vnow;
	char *stacks;
	VC sc_clock;

	// ---- shadow -------------------------------------------------------------------
	enum Kind : u8 { PR = 0, PW = 1, AR = 2, AW = 3 };
	struct Rec {
		u8 tid, mask, kind;
		unsigned clk;
	};
	struct Gran {
		u64 addr; // granule index +1, 0 empty
		unsigned gen, n;
		Rec r[12];
	};
	constexpr unsigned GB = 13;
	Gran gran[1 << GB];
	unsigned gen = 0;
	struct Loc {
		u64 addr;
		unsigned gen;
		VC rel;
	};
	constexpr unsigned LB = 10;
	Loc locs[1 << LB];
	struct Load {
		u64 addr, val;
		unsigned gen;
	};
	Load loads[MAXT][32];

	Gran *gfind( u64 g, bool make ) {
		unsigned i = unsigned( ( g * 0x9e3779b97f4a7c15ULL ) >> ( 64 - GB ) );
		for( unsigned k = 0; k < ( 1u << GB ); ++k, i = ( i + 1 ) & ( ( 1u << GB ) - 1 ) ) {
			if( gran[i].gen != gen ) {
				if( not make ) return nullptr;
				gran[i].gen = gen;
				gran[i].addr = g;
				gran[i].n = 0;
				return &gran[i];
			}
			if( gran[i].addr == g ) return &gran[i];
		}
		return nullptr;
	}
	Loc &loc( void const *p ) {
		u64 const a = u64( p );
		unsigned i = unsigned( ( a * 0x9e3779b97f4a7c15ULL ) >> ( 64 - LB ) );
		for( ;; i = ( i + 1 ) & ( ( 1u << LB ) - 1 ) ) {
			if( locs[i].gen != gen ) {
				locs[i].gen = gen;
				locs[i].addr = a;
				locs[i].rel = VC{ };
				return locs[i];
			}
			if( locs[i].addr == a ) return locs[i];
		}
	}
	char const *kn( u8 k ) {
		static char const *n[] = { "plain read", "plain write", "atomic read", "atomic write" };
		return n[k];
	}
	bool own_stack( u64 a ) {
		if( cur == 0 or not stacks ) return false;
		u64 lo = u64( stacks ) + ( cur - 1 ) * STACK;
		return a >= lo and a < lo + STACK;
	}
	// storage released by a thread stays untouched until the execution ends, so that
	// later uses of it are seen
	struct Freed {
		u64 p;
		std::size_t n;
	};
	Freed freed[256];
	unsigned nfreed;
	u64 freed_lo, freed_hi;
	bool is_freed( u64 a, std::size_t n ) {
		if( nfreed == 0 or a >= freed_hi or a + n <= freed_lo ) return false;
		for( unsigned i = 0; i < nfreed; ++i )
			if( a < freed[i].p + freed[i].n and a + n > freed[i].p ) return true;
		return false;
	}
	void access( u64 a, std::size_t n, u8 kind ) {
		if( own_stack( a ) ) return;
		if( is_freed( a, n ) ) mc::fail_later( "use-after-free", "%s by thread %u of storage that was already released", kn( kind ), cur );
		while( n ) {
			u64 const g = a >> 3;
			unsigned const off = unsigned( a & 7 );
			unsigned const len = unsigned( std::min<std::size_t>( n, 8 - off ) );
			u8 const mask = u8( ( ( 1u << len ) - 1 ) << off );
			Gran *G = gfind( g + 1, true );
			if( not G ) return;
			VC const &v = T[cur].vc;
			bool stored = false;
			for( unsigned i = 0; i < G->n; ++i ) {
				Rec &r = G->r[i];
				if( r.tid == cur ) {
					if( r.kind == kind and r.mask == mask ) {
						r.clk = v.c[cur];
						stored = true;
					}
					continue;
				}
				if( not( r.mask & mask ) ) continue;
				bool const conflict = ( ( r.kind & 1 ) or ( kind & 1 ) ) and not( r.kind >= AR and kind >= AR );
				if( conflict and r.clk > v.c[r.tid] ) {
					mc::fail_later( "data-race", "data race: %s by thread %u is unordered with an earlier %s by thread %u on the same memory", kn( kind ), cur, kn( r.kind ), unsigned( r.tid ) );
				}
			}
			if( not stored ) {
				if( G->n < 12 ) G->r[G->n++] = { u8( cur ), mask, kind, v.c[cur] };
				else {
					std::memmove( &G->r[0], &G->r[1], sizeof( Rec ) * 11 );
					G->r[11] = { u8( cur ), mask, kind, v.c[cur] };
				}
			}
			a += len;
			n -= len;
		}
	}

	void swap_to( unsigned t ) {
		unsigned const from = cur;
		if( from == t ) return;
		cur = t;
		mc_switch( &T[from].sp, T[t].sp );
	}

	[[noreturn]] void abort_run( ) { // back to the main fiber, which throws
		aborting = true;
		if( cur == 0 ) throw mc::Stop{ };
		swap_to( 0 );
		__builtin_unreachable( );
	}

	// choose who runs next; `self_ok` when the current thread may continue
	void reschedule( bool self_ok ) {
		if( mc::failed( ) ) abort_run( );
		if( ++steps > max_steps ) {
			mc::fail_later( "livelock", "no progress after %u scheduling points", steps );
			abort_run( );
		}
		for( ;; ) {
			unsigned opt[MAXT], n = 0;
			for( unsigned i = 1; i <= N; ++i )
				if( T[i].st == Sleep and T[i].wake <= vnow ) T[i].st = Ready;
			if( self_ok and cur != 0 and T[cur].st == Ready ) opt[n++] = cur;
			for( unsigned i = 1; i <= N; ++i )
				if( T[i].st == Ready and not( n and opt[0] == i ) ) opt[n++] = i;
			if( n == 0 ) {
				u64 w = ~0ULL;
				unsigned done = 0;
				for( unsigned i = 1; i <= N; ++i ) {
					if( T[i].st == Sleep ) w = std::min( w, T[i].wake );
					if( T[i].st == Done ) ++done;
				}
				if( w != ~0ULL ) {
					vnow = w;
					continue;
				}
				if( done == N ) {
					swap_to( 0 );
					return;
				}
				mc::fail_later( "deadlock", "%u thread(s) blocked forever", N - done );
				abort_run( );
			}
			bool const can_continue = self_ok and n and opt[0] == cur;
			unsigned c = 0;
			if( n > 1 and ( not can_continue or used < bound ) ) {
				c = mc::choose( n );
				if( c and can_continue ) ++used;
			}
			unsigned const t = opt[c];
			mc::step( );
			T[t].npoints++;
			u64 h = 0x777 + t;
			for( unsigned i = 1; i <= N; ++i ) h = mc::mix( h, T[i].npoints * 8 + T[i].st );
			mc::state( mc::mix( h, vnow ) );
			if( mc::verbose( ) and t != cur and cur ) mc::note( "  switch to thread %u", t );
			swap_to( t );
			if( aborting and cur == 0 ) throw mc::Stop{ };
			return;
		}
	}
	void point( ) {
		if( not active or cur == 0 ) return;
		reschedule( true );
	}

	void fiber_main( ) {
		unsigned const me = cur;
		try {
			( *T[me].fn )( );
		} catch( mc::Stop const & ) {
			abort_run( );
		} catch( std::exception const &e ) {
			mc::fail_later( "unexpected-exception", "exception escaped a thread: %s", e.what( ) );
			abort_run( );
		}
		T[me].st = Done;
		T[0].vc.join( T[me].vc );
		reschedule( false );
		__builtin_trap( );
	}

	bool acq( int mo ) { return mo == __ATOMIC_ACQUIRE or mo == __ATOMIC_CONSUME or mo == __ATOMIC_ACQ_REL or mo == __ATOMIC_SEQ_CST; }
	bool rel( int mo ) { return mo == __ATOMIC_RELEASE or mo == __ATOMIC_ACQ_REL or mo == __ATOMIC_SEQ_CST; }

	void on_load( void const *p, std::size_t n, int mo, u64 val ) {
		if( not active ) return;
		Thr &t = T[cur];
		Loc &l = loc( p );
		if( acq( mo ) ) t.vc.join( l.rel ); else t.pend.join( l.rel );
		access( u64( p ), n, AR );
		auto &ld = loads[cur][( u64( p ) >> 2 ) & 31];
		ld = { u64( p ), val, gen };
	}
	void on_store( void const *p, std::size_t n, int mo ) {
		if( not active ) return;
		Thr &t = T[cur];
		Loc &l = loc( p );
		l.rel = rel( mo ) ? t.vc : t.frel;
		access( u64( p ), n, AW );
		t.vc.c[cur]++;
	}
	void on_rmw( void const *p, std::size_t n, int mo, u64 val ) {
		if( not active ) return;
		Thr &t = T[cur];
		Loc &l = loc( p );
		if( acq( mo ) ) t.vc.join( l.rel ); else t.pend.join( l.rel );
		l.rel.join( rel( mo ) ? t.vc : t.frel );
		access( u64( p ), n, AW );
		t.vc.c[cur]++;
		loads[cur][( u64( p ) >> 2 ) & 31] = { u64( p ), val, gen };
	}
	void on_fence( int mo ) {
		if( not active ) return;
		Thr &t = T[cur];
		if( acq( mo ) ) t.vc.join( t.pend );
		if( mo == __ATOMIC_SEQ_CST ) {
			t.vc.join( sc_clock );
			sc_clock = t.vc;
		}
		if( rel( mo ) ) {
			t.frel = t.vc;
			t.vc.c[cur]++;
		}
	}
} // namespace

namespace mc::conc {
	void run( unsigned preemptions, std::vector<std::function<void( )>> bodies ) {
		if( not stacks ) {
			stacks = static_cast<char *>( mmap( nullptr, STACK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
		}
		++gen;
		N = unsigned( bodies.size( ) );
		if( N + 1 > MAXT ) __builtin_trap( );
		bound = preemptions;
		used = 0;
		steps = 0;
		vnow = 1'000'000'000ULL;
		sc_clock = VC{ };
		aborting = false;
		for( unsigned i = 0; i <= N; ++i ) {
			T[i].st = Ready;
			T[i].vc = T[i].pend = T[i].frel = VC{ };
			T[i].vc.c[i] = 1;
			T[i].npoints = 0;
			T[i].futex_addr = nullptr;
		}
		T[0].vc.c[0] = 2;
		for( unsigned i = 1; i <= N; ++i ) {
			T[i].vc.c[0] = 1;
			T[i].fn = &bodies[i - 1];
			auto *top = reinterpret_cast<u64 *>( stacks + i * STACK );
			*--top = 0; // entry stack alignment
			*--top = reinterpret_cast<u64>( &fiber_main );
			for( int k = 0; k < 6; ++k ) *--top = 0;
			T[i].sp = top;
		}
		cur = 0;
		active = true;
		struct Off { ~Off( ) { active = false; spur_budget = jump_budget = 0; } } off;
		reschedule( false );
		active = false;
		if( aborting or mc::failed( ) ) throw mc::Stop{ };
	}
	void set_spurious_wakeups( unsigned n ) { spur_budget = n; spur_used = 0; }
	void set_time_jumps( unsigned n, std::uint64_t ns ) { jump_budget = n; jump_used = 0; jump_ns = ns; }
	void set_max_steps( unsigned n ) { max_steps = n; }
	std::uint64_t now_ns( ) { return vnow; }
	unsigned self( ) { return cur; }
	unsigned jumps_used( ) { return jump_used; }
	void sleep_ns( std::uint64_t ns ) {
		if( not active or cur == 0 ) return;
		T[cur].st = Sleep;
		T[cur].wake = vnow + ns;
		reschedule( false );
	}
	bool last_load( unsigned tid, void const *addr, std::uint64_t &value ) {
		auto &ld = loads[tid][( u64( addr ) >> 2 ) & 31];
		if( ld.gen != gen or ld.addr != u64( addr ) ) return false;
		value = ld.val;
		return true;
	}
} // namespace mc::conc

extern "C" void mc_exec_begin( ) {
	active = false;
	max_steps = 20000;
	spur_budget = jump_budget = spur_used = jump_used = 0;
}
extern "C" void mc_exec_end( ) {
	active = false;
	for( unsigned i = 0; i < nfreed; ++i ) std::free( reinterpret_cast<void *>( freed[i].p ) );
	nfreed = 0;
}

// ---- interposed libc entry points ---------------------------------------------------
extern "C" int clock_gettime( clockid_t id, timespec *ts ) {
	if( not active or cur == 0 ) return int( ::syscall( SYS_clock_gettime, long( id ), long( ts ), 0L, 0L, 0L, 0L ) );
	point( );
	vnow += 1000;
	if( jump_used < jump_budget and mc::choose( 2 ) ) {
		++jump_used;
		vnow += jump_ns;
		mc::note( "  [thread %u: clock read finds %llu ns passed]", cur, (unsigned long long)jump_ns );
	}
	ts->tv_sec = time_t( vnow / 1'000'000'000ULL );
	ts->tv_nsec = long( vnow % 1'000'000'000ULL );
	return 0;
}
extern "C" int nanosleep( timespec const *rq, timespec * ) {
	if( not active or cur == 0 ) return int( ::syscall( SYS_nanosleep, long( rq ), 0L, 0L, 0L, 0L, 0L ) );
	mc::conc::sleep_ns( u64( rq->tv_sec ) * 1'000'000'000ULL + u64( rq->tv_nsec ) );
	return 0;
}
extern "C" int clock_nanosleep( clockid_t, int flags, timespec const *rq, timespec * ) {
	u64 const t = u64( rq->tv_sec ) * 1'000'000'000ULL + u64( rq->tv_nsec );
	if( not active or cur == 0 ) {
		usleep( useconds_t( t / 1000 ) );
		return 0;
	}
	mc::conc::sleep_ns( flags & TIMER_ABSTIME ? ( t > vnow ? t - vnow : 0 ) : t );
	return 0;
}
extern "C" int sched_yield( ) noexcept {
	if( not active or cur == 0 ) return 0;
	point( );
	return 0;
}
static long raw_syscall( long n, long a, long b, long c, long d, long e, long f ) {
	long r;
	register long r10 asm( "r10" ) = d;
	register long r8 asm( "r8" ) = e;
	register long r9 asm( "r9" ) = f;
	asm volatile( "syscall" : "=a"( r ) : "a"( n ), "D"( a ), "S"( b ), "d"( c ), "r"( r10 ), "r"( r8 ), "r"( r9 ) : "rcx", "r11", "memory" );
	if( r < 0 and r > -4096 ) {
		errno = int( -r );
		return -1;
	}
	return r;
}
extern "C" long syscall( long n, ... ) noexcept {
	va_list ap;
	va_start( ap, n );
	long a[6];
	for( auto &x : a ) x = va_arg( ap, long );
	va_end( ap );
	if( n != SYS_futex or not active or cur == 0 ) return raw_syscall( n, a[0], a[1], a[2], a[3], a[4], a[5] );
	int const op = int( a[1] ) & 0x7f & ~FUTEX_CLOCK_REALTIME;
	auto *addr = reinterpret_cast<std::atomic<int> *>( a[0] );
	Thr &t = T[cur];
	if( op == FUTEX_WAIT or op == FUTEX_WAIT_BITSET ) {
		point( );
		if( addr->load( ) != int( a[2] ) ) {
			errno = EAGAIN;
			return -1;
		}
		if( spur_used < spur_budget and mc::choose( 2 ) ) {
			++spur_used;
			mc::note( "  [thread %u: spurious wakeup]", cur );
			errno = EINTR;
			return mc::choose( 2 ) ? -1 : 0;
		}
		t.futex_addr = addr;
		t.futex_woken = false;
		t.st = Futex;
		mc::note( "  thread %u blocks", cur );
		if( a[3] ) { // timeout
			auto const *ts = reinterpret_cast<timespec const *>( a[3] );
			u64 ns = u64( ts->tv_sec ) * 1'000'000'000ULL + u64( ts->tv_nsec );
			t.st = Sleep;
			t.wake = op == FUTEX_WAIT ? vnow + ns : ns;
		}
		reschedule( false );
		t.futex_addr = nullptr;
		if( a[3] and not t.futex_woken ) {
			errno = ETIMEDOUT;
			return -1;
		}
		return 0;
	}
	if( op == FUTEX_WAKE or op == FUTEX_WAKE_BITSET ) {
		point( );
		long want = int( a[2] ), woken = 0;
		for( ; woken < want; ++woken ) {
			unsigned w[MAXT], k = 0;
			for( unsigned i = 1; i <= N; ++i )
				if( T[i].futex_addr == addr and not T[i].futex_woken and T[i].st != Done ) w[k++] = i;
			if( k == 0 ) break;
			unsigned const pick = want >= long( k ) ? 0 : mc::choose( k );
			Thr &x = T[w[pick]];
			x.futex_woken = true;
			x.st = Ready;
			mc::note( "  thread %u wakes thread %u", cur, w[pick] );
		}
		return woken;
	}
	mc::fail_later( "unsupported", "futex operation %d", op );
	abort_run( );
}

extern "C" void mc_on_alloc( void *p, std::size_t n ) {
	if( not active ) return;
	for( u64 g = u64( p ) >> 3; g <= ( u64( p ) + ( n ? n - 1 : 0 ) ) >> 3; ++g )
		if( auto *G = gfind( g + 1, false ) ) G->n = 0;
}

extern "C" bool mc_on_free( void *p ) {
	for( unsigned i = 0; i < nfreed; ++i )
		if( freed[i].p == u64( p ) ) {
			mc::fail_later( "double-free", "thread %u releases storage that was already released", cur );
			return true;
		}
	if( not active or cur == 0 or nfreed == 256 ) return false;
	std::size_t const n = malloc_usable_size( p );
	access( u64( p ), n, PW ); // ordered after everything done to it
	if( nfreed == 0 ) freed_lo = u64( p ), freed_hi = u64( p ) + n;
	freed_lo = std::min( freed_lo, u64( p ) );
	freed_hi = std::max( freed_hi, u64( p ) + n );
	freed[nfreed++] = { u64( p ), n };
	return true;
}

// ---- compiler instrumentation ----------------------------------------------------------
#define PLAIN( N )                                                                                             \
	extern "C" void __tsan_read##N( void *p ) { if( active ) access( u64( p ), N, PR ); }                         \
	extern "C" void __tsan_write##N( void *p ) { if( active ) access( u64( p ), N, PW ); }                        \
	extern "C" void __tsan_unaligned_read##N( void *p ) { if( active ) access( u64( p ), N, PR ); }               \
	extern "C" void __tsan_unaligned_write##N( void *p ) { if( active ) access( u64( p ), N, PW ); }              \
	extern "C" void __tsan_read_write##N( void *p ) { if( active ) { access( u64( p ), N, PR ); access( u64( p ), N, PW ); } } \
	extern "C" void __tsan_unaligned_read_write##N( void *p ) { if( active ) { access( u64( p ), N, PR ); access( u64( p ), N, PW ); } } \
	extern "C" void __tsan_volatile_read##N( void *p ) { if( active ) access( u64( p ), N, PR ); }                \
	extern "C" void __tsan_volatile_write##N( void *p ) { if( active ) access( u64( p ), N, PW ); }
PLAIN( 1 )
PLAIN( 2 )
PLAIN( 4 )
PLAIN( 8 )
PLAIN( 16 )
extern "C" void __tsan_read_range( void *p, std::size_t n ) { if( active ) access( u64( p ), n, PR ); }
extern "C" void __tsan_write_range( void *p, std::size_t n ) { if( active ) access( u64( p ), n, PW ); }
extern "C" void __tsan_init( ) {}
extern "C" void __tsan_func_entry( void * ) {}
extern "C" void __tsan_func_exit( ) {}
extern "C" void __tsan_vptr_update( void **p, void *v ) { if( active and *p != v ) access( u64( p ), 8, PW ); }
extern "C" void __tsan_vptr_read( void **p ) { if( active ) access( u64( p ), 8, PR ); }
extern "C" void *__tsan_memcpy( void *d, void const *s, std::size_t n ) { if( active ) { access( u64( s ), n, PR ); access( u64( d ), n, PW ); } return std::memcpy( d, s, n ); }
extern "C" void *__tsan_memmove( void *d, void const *s, std::size_t n ) { if( active ) { access( u64( s ), n, PR ); access( u64( d ), n, PW ); } return std::memmove( d, s, n ); }
extern "C" void *__tsan_memset( void *d, int c, std::size_t n ) { if( active ) access( u64( d ), n, PW ); return std::memset( d, c, n ); }

template<typename A>
static A val_old_cas( A volatile *p, A e, A d, int mo, int fmo, bool &ok ) {
	point( );
	A const old = __atomic_load_n( p, __ATOMIC_SEQ_CST );
	ok = old == e;
	if( ok ) {
		__atomic_store_n( p, d, __ATOMIC_SEQ_CST );
		on_rmw( const_cast<A *>( p ), sizeof( A ), mo, u64( old ) );
	} else on_load( const_cast<A *>( p ), sizeof( A ), fmo, u64( old ) );
	return old;
}
static bool mc_weak_cas_fails( ) { return false; }
#define ATOMIC( B, A )                                                                                             \
	extern "C" A __tsan_atomic##B##_load( A const volatile *p, int mo ) { point( ); A v = __atomic_load_n( p, __ATOMIC_SEQ_CST ); on_load( const_cast<A *>( p ), sizeof( A ), mo, u64( v ) ); return v; } \
	extern "C" void __tsan_atomic##B##_store( A volatile *p, A v, int mo ) { point( ); __atomic_store_n( p, v, __ATOMIC_SEQ_CST ); on_store( const_cast<A *>( p ), sizeof( A ), mo ); } \
	extern "C" A __tsan_atomic##B##_exchange( A volatile *p, A v, int mo ) { point( ); A o = __atomic_exchange_n( p, v, __ATOMIC_SEQ_CST ); on_rmw( const_cast<A *>( p ), sizeof( A ), mo, u64( o ) ); return o; } \
	extern "C" A __tsan_atomic##B##_fetch_add( A volatile *p, A v, int mo ) { point( ); A o = __atomic_fetch_add( p, v, __ATOMIC_SEQ_CST ); on_rmw( const_cast<A *>( p ), sizeof( A ), mo, u64( o ) ); return o; } \
	extern "C" A __tsan_atomic##B##_fetch_sub( A volatile *p, A v, int mo ) { point( ); A o = __atomic_fetch_sub( p, v, __ATOMIC_SEQ_CST ); on_rmw( const_cast<A *>( p ), sizeof( A ), mo, u64( o ) ); return o; } \
	extern "C" A __tsan_atomic##B##_fetch_and( A volatile *p, A v, int mo ) { point( ); A o = __atomic_fetch_and( p, v, __ATOMIC_SEQ_CST ); on_rmw( const_cast<A *>( p ), sizeof( A ), mo, u64( o ) ); return o; } \
	extern "C" A __tsan_atomic##B##_fetch_or( A volatile *p, A v, int mo ) { point( ); A o = __atomic_fetch_or( p, v, __ATOMIC_SEQ_CST ); on_rmw( const_cast<A *>( p ), sizeof( A ), mo, u64( o ) ); return o; } \
	extern "C" A __tsan_atomic##B##_fetch_xor( A volatile *p, A v, int mo ) { point( ); A o = __atomic_fetch_xor( p, v, __ATOMIC_SEQ_CST ); on_rmw( const_cast<A *>( p ), sizeof( A ), mo, u64( o ) ); return o; } \
	extern "C" A __tsan_atomic##B##_fetch_nand( A volatile *p, A v, int mo ) { point( ); A o = __atomic_fetch_nand( p, v, __ATOMIC_SEQ_CST ); on_rmw( const_cast<A *>( p ), sizeof( A ), mo, u64( o ) ); return o; } \
	extern "C" int __tsan_atomic##B##_compare_exchange_strong( A volatile *p, A *e, A d, int mo, int fmo ) { bool ok; A o = val_old_cas<A>( p, *e, d, mo, fmo, ok ); if( not ok ) *e = o; return ok; } \
	extern "C" int __tsan_atomic##B##_compare_exchange_weak( A volatile *p, A *e, A d, int mo, int fmo ) { if( mc_weak_cas_fails( ) ) return 0; bool ok; A o = val_old_cas<A>( p, *e, d, mo, fmo, ok ); if( not ok ) *e = o; return ok; } \
	extern "C" A __tsan_atomic##B##_compare_exchange_val( A volatile *p, A e, A d, int mo, int fmo ) { bool ok; return val_old_cas<A>( p, e, d, mo, fmo, ok ); }
ATOMIC( 8, std::uint8_t )
ATOMIC( 16, std::uint16_t )
ATOMIC( 32, std::uint32_t )
ATOMIC( 64, std::uint64_t )
extern "C" void __tsan_atomic_thread_fence( int mo ) { point( ); on_fence( mo ); }
extern "C" void __tsan_atomic_signal_fence( int ) {}
