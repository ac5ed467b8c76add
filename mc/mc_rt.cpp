#include "mc.h"
#include <atomic>
#include <cerrno>
#include <cstdlib>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <cxxabi.h>

namespace {
	using u16 = std::uint16_t;
	using u32 = std::uint32_t;
	using u64 = std::uint64_t;
	constexpr unsigned MAXD = 16384;  // choices in one execution
	constexpr unsigned MAXP = 256;    // prefix length of a shared task
	constexpr unsigned QCAP = 1 << 15;
	constexpr unsigned MAXW = 64;
	constexpr unsigned MAXT = 128;
	constexpr unsigned SAMPLES = 3;
	constexpr u64 SBITS = 22, OBITS = 20;

	std::vector<mc::Test *> &tests( ) {
		static std::vector<mc::Test *> t;
		return t;
	}

	double now( ) {
		timespec ts;
		clock_gettime( CLOCK_MONOTONIC, &ts );
		return double( ts.tv_sec ) + double( ts.tv_nsec ) * 1e-9;
	}

	struct Task {
		u32 test, len;
		u16 path[MAXP];
	};
	struct Slot {
		std::atomic<u64> exec_id;
		std::atomic<u32> busy; // executing a body
		u32 has_task;
		u32 test, base;
		u32 depth;    // entries on the stack that the current execution may use
		u32 pos;      // choices consumed by the current execution
		u16 choice[MAXD], arity[MAXD];
	};
	struct Viol {
		u32 used, test, known, len;
		char key[200];
		char msg[1500];
		u16 path[4096];
	};
	struct SampleP {
		std::atomic<u32> used;
		u32 len;
		u16 path[2048];
	};
	struct TestStats {
		std::atomic<u64> execs, steps, cases, states, outcomes, pruned, maxdepth;
		std::atomic<u32> nviol, stop, full;
		SampleP sample[SAMPLES];
	};
	struct Shared {
		std::atomic<u32> qlock;
		std::atomic<int> active;
		std::atomic<u32> qn;
		std::atomic<u32> quit, deadline_hit, qcap_hit;
		std::atomic<u32> vlock, nviol;
		Viol viol[64];
		TestStats st[MAXT];
		Slot slot[MAXW];
		Task q[QCAP];
	};
	Shared *S;
	u64 *stab[MAXT]; // state -> key
	std::uint8_t *srem[MAXT];
	u64 *otab[MAXT];
	int g_tier = 0, g_jobs = 8;
	double g_deadline = 1e18;
	std::vector<std::string> g_known;

	// ---- current execution ----------------------------------------------------
	Slot *cur;
	Slot replay_slot;
	u32 g_fault_budget, g_faults;
	bool g_verbose, g_running, g_failed, g_pruned;
	char g_key[200], g_msg[1500];
	u64 g_obs;
	bool es_repeat, es_answer[4096];
	unsigned es_i, es_n; // answers of enter_state in this execution
	u32 g_fresh; // first stack position that is new in this execution
	u64 g_steps, g_cases;
	int g_test;

	void spin( std::atomic<u32> &l ) {
		u32 z = 0;
		while( not l.compare_exchange_weak( z, 1 ) ) { z = 0; usleep( 10 ); }
	}
	void unspin( std::atomic<u32> &l ) { l.store( 0 ); }

	// returns 0 new, 1 existed; with rem: prune decision
	bool table_insert( u64 *tab, u64 bits, u64 h, std::atomic<u64> &cnt, std::atomic<u32> &full, u64 *where ) {
		if( h == 0 ) h = 1;
		u64 const mask = ( 1ULL << bits ) - 1;
		u64 i = ( h * 0x9e3779b97f4a7c15ULL ) >> ( 64 - bits );
		for( u64 n = 0; n < 256; ++n, i = ( i + 1 ) & mask ) {
			u64 v = __atomic_load_n( &tab[i], __ATOMIC_RELAXED );
			if( v == h ) { if( where ) *where = i; return false; }
			if( v == 0 ) {
				u64 z = 0;
				if( __atomic_compare_exchange_n( &tab[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED ) ) {
					cnt.fetch_add( 1, std::memory_order_relaxed );
					if( where ) *where = i;
					return true;
				}
				if( z == h ) { if( where ) *where = i; return false; }
			}
		}
		full = 1;
		if( where ) *where = ~0ULL;
		return true;
	}

	// ---- allocation table --------------------------------------------------------
	struct Blk {
		void *p;
		std::size_t size, align;
		bool arr;
	};
	constexpr unsigned ABITS = 14;
	Blk ablk[1 << ABITS];
	u32 alive;
	bool aoverflow;
	bool g_track, g_allocf, g_trackf;
	int g_notrack;

	unsigned ahash( void *p ) {
		return unsigned( ( u64( p ) * 0x9e3779b97f4a7c15ULL ) >> ( 64 - ABITS ) );
	}
	void a_add( void *p, std::size_t n, std::size_t al, bool arr ) {
		if( alive > ( 1u << ABITS ) * 3 / 4 ) { aoverflow = true; return; }
		unsigned i = ahash( p );
		while( ablk[i].p ) i = ( i + 1 ) & ( ( 1u << ABITS ) - 1 );
		ablk[i] = { p, n, al, arr };
		++alive;
	}
	bool a_del( void *p, Blk &out ) {
		unsigned const mask = ( 1u << ABITS ) - 1;
		unsigned i = ahash( p );
		while( ablk[i].p ) {
			if( ablk[i].p == p ) {
				out = ablk[i];
				--alive;
				// backward shift delete
				unsigned j = i;
				for( ;; ) {
					ablk[i].p = nullptr;
					for( ;; ) {
						j = ( j + 1 ) & mask;
						if( not ablk[j].p ) return true;
						unsigned k = ahash( ablk[j].p );
						if( i <= j ? ( i < k and k <= j ) : ( i < k or k <= j ) ) continue;
						break;
					}
					ablk[i] = ablk[j];
					i = j;
				}
			}
			i = ( i + 1 ) & mask;
		}
		return false;
	}
	void a_clear( ) {
		if( alive or aoverflow ) std::memset( ablk, 0, sizeof ablk );
		alive = 0;
		aoverflow = false;
	}
} // namespace

extern "C" __attribute__( ( weak ) ) void mc_exec_begin( );
extern "C" __attribute__( ( weak ) ) void mc_exec_end( );
extern "C" __attribute__( ( weak ) ) void mc_on_alloc( void *, std::size_t );
extern "C" __attribute__( ( weak ) ) bool mc_on_free( void * ); // true: the block is kept until the execution ends
namespace {
	void *do_new( std::size_t n, std::size_t al, bool arr, bool nothrow ) {
		if( g_running and g_allocf and not g_notrack ) {
			if( mc::fault( ) ) {
				mc::note( "  [allocation of %zu bytes fails]", n );
				if( nothrow ) return nullptr;
				throw std::bad_alloc( );
			}
		}
		void *p = al > alignof( std::max_align_t ) ? aligned_alloc( al, ( n + al - 1 ) / al * al + ( n ? 0 : al ) ) : malloc( n ? n : 1 );
		if( not p ) {
			if( nothrow ) return nullptr;
			throw std::bad_alloc( );
		}
		if( mc_on_alloc ) mc_on_alloc( p, n );
		if( g_running and g_track and not g_notrack ) a_add( p, n, al, arr );
		return p;
	}
	void do_delete( void *p, std::size_t n, std::size_t al, bool arr, bool sized ) {
		if( not p ) return;
		if( g_running ) {
			Blk b;
			if( a_del( p, b ) ) {
				if( b.arr != arr )
					mc::fail_later( "alloc-mismatch", "storage from operator %s released with operator %s", b.arr ? "new[]" : "new", arr ? "delete[]" : "delete" );
				if( sized and b.size != n )
					mc::fail_later( "alloc-size-mismatch", "storage of %zu bytes released as %zu bytes", b.size, n );
				if( b.align != al )
					mc::fail_later( "alloc-align-mismatch", "storage of alignment %zu released with alignment %zu", b.align, al );
			}
		}
		if( mc_on_free and mc_on_free( p ) ) return;
		free( p );
	}
	constexpr std::size_t DA = 0;
} // namespace
void *operator new( std::size_t n ) { return do_new( n, DA, false, false ); }
void *operator new[]( std::size_t n ) { return do_new( n, DA, true, false ); }
void *operator new( std::size_t n, std::nothrow_t const & ) noexcept { return do_new( n, DA, false, true ); }
void *operator new[]( std::size_t n, std::nothrow_t const & ) noexcept { return do_new( n, DA, true, true ); }
void *operator new( std::size_t n, std::align_val_t a ) { return do_new( n, std::size_t( a ), false, false ); }
void *operator new[]( std::size_t n, std::align_val_t a ) { return do_new( n, std::size_t( a ), true, false ); }
void operator delete( void *p ) noexcept { do_delete( p, 0, DA, false, false ); }
void operator delete[]( void *p ) noexcept { do_delete( p, 0, DA, true, false ); }
void operator delete( void *p, std::size_t n ) noexcept { do_delete( p, n, DA, false, true ); }
void operator delete[]( void *p, std::size_t n ) noexcept { do_delete( p, n, DA, true, true ); }
void operator delete( void *p, std::align_val_t a ) noexcept { do_delete( p, 0, std::size_t( a ), false, false ); }
void operator delete[]( void *p, std::align_val_t a ) noexcept { do_delete( p, 0, std::size_t( a ), true, false ); }
void operator delete( void *p, std::size_t n, std::align_val_t a ) noexcept { do_delete( p, n, std::size_t( a ), false, true ); }
void operator delete[]( void *p, std::size_t n, std::align_val_t a ) noexcept { do_delete( p, n, std::size_t( a ), true, true ); }
void operator delete( void *p, std::nothrow_t const & ) noexcept { do_delete( p, 0, DA, false, false ); }
void operator delete[]( void *p, std::nothrow_t const & ) noexcept { do_delete( p, 0, DA, true, false ); }

namespace {
	struct OffTrack { // runtime's own allocations
		bool r;
		OffTrack( ) : r( g_running ) { g_running = false; }
		~OffTrack( ) { g_running = r; }
	};
	[[noreturn]] void harness_error( char const *what ) {
		fprintf( stderr, "MC-HARNESS-ERROR: %s (test %s)\n", what, g_test >= 0 ? tests( )[unsigned( g_test )]->name : "?" );
		fflush( stderr );
		_exit( 77 );
	}
} // namespace


namespace mc {
	Test::Test( char const *n, void ( *f )( ), int mt ) : name( n ), fn( f ), min_tier( mt ) {
		tests( ).push_back( this );
	}
	int tier( ) { return g_tier; }
	bool verbose( ) { return g_verbose; }

	namespace {
		struct LassoState {
			enum { STEPS = 8, CHOICES = 24 };
			u16 pick[STEPS][CHOICES], of[STEPS][CHOICES];
			unsigned n[STEPS];
			unsigned steps = 0, at = 0;
			int mode = 0;
			enum { Off, Record, Play } what = Off;
			unsigned step = 0;
			unsigned play( unsigned m ) {
				if( at >= n[step] ) return 0;
				unsigned const v = pick[step][at], k = of[step][at];
				++at;
				if( k == 1 ) return mode ? m - 1 : 0;
				if( v + 1 == k ) return m - 1;
				return mode ? unsigned( u64( v ) * m / k ) : v % m;
			}
		} g_lasso;
	} // namespace
	Lasso::Lasso( ) {
		g_lasso.steps = 0;
		g_lasso.what = LassoState::Off;
	}
	Lasso::~Lasso( ) {
		g_lasso.what = LassoState::Off;
	}
	void Lasso::record( ) {
		if( g_lasso.steps == LassoState::STEPS ) harness_error( "lasso: too many steps" );
		g_lasso.what = LassoState::Record;
		g_lasso.n[g_lasso.steps++] = 0;
	}
	void Lasso::play( unsigned step, int mode ) {
		g_lasso.what = LassoState::Play;
		g_lasso.step = step;
		g_lasso.at = 0;
		g_lasso.mode = mode;
	}
	unsigned Lasso::steps( ) const {
		return g_lasso.steps;
	}

	static unsigned choose_fresh( unsigned n );
	unsigned choose( unsigned n ) {
		if( n == 0 ) harness_error( "choose(0)" );
		if( n == 1 and g_lasso.what == LassoState::Off ) return 0;
		if( g_lasso.what == LassoState::Play ) return g_lasso.play( n );
		unsigned const v = choose_fresh( n );
		if( g_lasso.what == LassoState::Record ) {
			unsigned &k = g_lasso.n[g_lasso.steps - 1];
			if( k == LassoState::CHOICES ) harness_error( "lasso: too many choices in a step" );
			g_lasso.pick[g_lasso.steps - 1][k] = u16( v );
			g_lasso.of[g_lasso.steps - 1][k++] = u16( n );
		}
		return v;
	}
	static unsigned choose_fresh( unsigned n ) {
		if( n == 1 ) return 0;
		if( not g_running ) harness_error( "choose outside execution" );
		if( n > 65535 ) harness_error( "choose: too many" );
		u32 const i = cur->pos;
		if( i >= MAXD ) harness_error( "too many choices in one execution" );
		if( i < cur->depth ) {
			if( cur->arity[i] == 0 ) { // prefix of a task or replay: arity unknown
				if( cur->choice[i] >= n ) harness_error( "replay divergence (choice out of range)" );
				cur->arity[i] = u16( n );
			} else if( cur->choice[i] >= n ) {
				harness_error( "replay divergence" );
			}
		} else {
			cur->choice[i] = 0;
			cur->arity[i] = u16( n );
			cur->depth = i + 1;
		}
		cur->pos = i + 1;
		return cur->choice[i];
	}
	bool fault( ) {
		if( g_faults >= g_fault_budget ) return false;
		if( choose( 2 ) ) {
			++g_faults;
			return true;
		}
		return false;
	}
	void set_fault_budget( unsigned n ) { g_fault_budget = n; }

	static void vfail( char const *key, char const *fmt, va_list ap ) {
		if( g_failed ) return;
		g_failed = true;
		snprintf( g_key, sizeof g_key, "%s", key );
		vsnprintf( g_msg, sizeof g_msg, fmt, ap );
	}
	void fail( char const *key, char const *fmt, ... ) {
		va_list ap;
		va_start( ap, fmt );
		vfail( key, fmt, ap );
		va_end( ap );
		if( g_verbose ) note( "FAIL %s: %s", g_key, g_msg );
		throw Stop{ };
	}
	void fail_later( char const *key, char const *fmt, ... ) {
		va_list ap;
		va_start( ap, fmt );
		vfail( key, fmt, ap );
		va_end( ap );
		if( g_verbose ) note( "FAIL %s: %s", g_key, g_msg );
	}
	bool failed( ) { return g_failed; }
	void note( char const *fmt, ... ) {
		if( not g_verbose ) return;
		OffTrack o;
		char b[1024];
		va_list ap;
		va_start( ap, fmt );
		vsnprintf( b, sizeof b, fmt, ap );
		va_end( ap );
		std::size_t const n = std::strlen( b );
		b[n < sizeof b - 1 ? n : n - 1] = '\n';
		if( write( 1, b, n < sizeof b - 1 ? n + 1 : n ) < 0 ) return;
	}
	void obs( u64 v ) { g_obs = mix( g_obs, v ); }
	void obs_bytes( void const *p, std::size_t n ) { g_obs = hash_bytes( g_obs, p, n ); }
	void step( u64 n ) {
		if( cur->pos >= g_fresh ) g_steps += n;
	}
	void count_case( u64 n ) { g_cases += n; }
	static bool enter_state_impl( u64 h, unsigned remaining ) {
		if( cur == &replay_slot ) return true;
		if( cur->pos < g_fresh ) return true; // inside replayed prefix
		if( remaining > 254 ) remaining = 254;
		auto &st = S->st[g_test];
		u64 w;
		bool const isnew = table_insert( stab[g_test], SBITS, h, st.states, st.full, &w );
		if( w == ~0ULL ) return true;
		auto const r = std::uint8_t( remaining + 1 );
		if( not isnew ) {
			auto old = __atomic_load_n( &srem[g_test][w], __ATOMIC_RELAXED );
			while( old < r and not __atomic_compare_exchange_n( &srem[g_test][w], &old, r, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED ) ) {}
			if( old >= r ) {
				g_pruned = true;
				return false;
			}
			return true;
		}
		__atomic_store_n( &srem[g_test][w], r, __ATOMIC_RELAXED );
		return true;
	}
	bool enter_state( u64 h, unsigned remaining ) {
		// a repeated execution gets the answers of the first
		if( es_repeat ) return es_i < es_n ? es_answer[es_i++] : true;
		bool const r = enter_state_impl( h, remaining );
		if( es_n < sizeof es_answer ) es_answer[es_n++] = r;
		return r;
	}
	void state( u64 h ) {
		if( cur == &replay_slot ) return;
		auto &st = S->st[g_test];
		(void)table_insert( stab[g_test], SBITS, h, st.states, st.full, nullptr );
	}
	FaultScope::FaultScope( bool alloc, bool tracked ) : a( g_allocf ), t( g_trackf ) {
		g_allocf = alloc;
		g_trackf = tracked;
	}
	FaultScope::~FaultScope( ) {
		g_allocf = a;
		g_trackf = t;
	}
	NoTrack::NoTrack( ) { ++g_notrack; }
	NoTrack::~NoTrack( ) { --g_notrack; }
	bool tracked_faults_on( ) { return g_trackf; }
	std::size_t live_allocs( ) { return alive; }
} // namespace mc

namespace {
	// one execution of the path in *cur
	void run_once( int t, bool retry = false ) {
		g_test = t;
		g_faults = 0;
		g_fault_budget = 0;
		g_failed = g_pruned = false;
		g_obs = 0x12345;
		g_steps = g_cases = 0;
		g_allocf = g_trackf = false;
		g_notrack = 0;
		cur->pos = 0;
		es_repeat = retry;
		es_i = 0;
		if( not retry ) es_n = 0;
		a_clear( );
		if( mc_exec_begin ) mc_exec_begin( );
		cur->busy.store( 1 );
		g_track = true;
		g_running = true;
		bool stopped = false;
		try {
			tests( )[unsigned( t )]->fn( );
		} catch( mc::Stop const & ) {
			stopped = true;
		} catch( std::exception const &e ) {
			g_allocf = g_trackf = false;
			mc::fail_later( "unexpected-exception", "unexpected exception escaped: %s", e.what( ) );
			stopped = true;
		} catch( mc::InjectedFault const & ) {
			g_allocf = g_trackf = false;
			mc::fail_later( "unexpected-exception", "injected fault escaped" );
			stopped = true;
		} catch( ... ) {
			g_allocf = g_trackf = false;
			mc::fail_later( "unexpected-exception", "unexpected exception of type %s", abi::__cxa_current_exception_type( ) ? abi::__cxa_current_exception_type( )->name( ) : "?" );
			stopped = true;
		}
		g_allocf = g_trackf = false;
		if( mc_exec_end ) mc_exec_end( );
		g_running = false;
		if( not g_failed and not stopped and alive and not retry ) {
			// a lazily initialised static is not a leak: it does not happen twice
			mc::note( "(repeating: storage still allocated)" );
			cur->depth = cur->pos;
			return run_once( t, true );
		}
		if( not g_failed and not stopped and alive ) {
			std::size_t bytes = 0;
			for( auto &b : ablk ) if( b.p ) bytes += b.size;
			mc::fail_later( "storage-leak", "%u allocation(s), %zu bytes never released", alive, bytes );
		}
		cur->busy.store( 0 );
		if( cur->pos < cur->depth and not g_failed and not stopped ) harness_error( "replay divergence: execution made fewer choices" );
		if( g_failed or stopped ) cur->depth = cur->pos; // rest of the path was not reached
	}

	bool is_known( std::string const &k ) {
		for( auto &x : g_known ) if( x == k ) return true;
		return false;
	}

	void record_violation( int t, char const *key, char const *msg, u16 const *path, u32 len ) {
		spin( S->vlock );
		std::string full = std::string( tests( )[unsigned( t )]->name ) + ":" + key;
		bool const known = is_known( full );
		bool dup = false;
		for( u32 i = 0; i < S->nviol; ++i ) {
			auto &v = S->viol[i];
			if( int( v.test ) == t and full == v.key ) {
				dup = true;
				if( len < v.len and len < 4096 ) { // keep the shortest
					v.len = len;
					if( len ) std::memcpy( v.path, path, len * sizeof( u16 ) );
					snprintf( v.msg, sizeof v.msg, "%s", msg );
				}
				break;
			}
		}
		if( not dup and S->nviol < 64 ) {
			auto &v = S->viol[S->nviol];
			v.test = u32( t );
			v.known = known;
			v.len = len < 4096 ? len : 4096;
			if( v.len ) std::memcpy( v.path, path, v.len * sizeof( u16 ) );
			snprintf( v.key, sizeof v.key, "%s", full.c_str( ) );
			snprintf( v.msg, sizeof v.msg, "%s", msg );
			S->nviol.fetch_add( 1 );
		}
		if( not known ) {
			S->st[t].nviol.fetch_add( 1 );
			S->st[t].stop = 1; // an unlisted violation ends this test
		}
		unspin( S->vlock );
	}

	void after_exec( int t ) {
		auto &st = S->st[t];
		u64 const e = st.execs.fetch_add( 1 ) + 1;
		st.steps += g_steps;
		st.cases += g_cases;
		if( g_pruned ) st.pruned++;
		if( cur->pos > st.maxdepth ) st.maxdepth = cur->pos;
		if( g_failed ) {
			OffTrack o;
			record_violation( t, g_key, g_msg, cur->choice, cur->pos );
		} else if( not g_pruned ) {
			(void)table_insert( otab[t], OBITS, g_obs, st.outcomes, st.full, nullptr );
			// samples: execution 1, then widely spaced ones
			unsigned want = e == 1 ? 0 : ( e == 50 ? 1 : ( ( e & ( e - 1 ) ) == 0 and e >= 128 ? 2 : SAMPLES ) );
			if( want < SAMPLES and cur->pos < 2048 ) {
				auto &sp = st.sample[want];
				u32 z = sp.used.exchange( 2 );
				if( z != 2 ) {
					sp.len = cur->pos;
					if( cur->pos ) std::memcpy( sp.path, cur->choice, cur->pos * sizeof( u16 ) );
					sp.used = 1;
				}
			}
		}
	}

	void donate( Slot &s ) {
		if( S->qn.load( std::memory_order_relaxed ) >= u32( 2 * g_jobs ) ) return;
		// shallowest level with unexplored siblings
		for( u32 i = s.base; i < s.depth and i + 1 < MAXP; ++i ) {
			if( s.choice[i] + 1 < s.arity[i] ) {
				if( i + 1 == s.depth ) return; // keep last-level work local
				spin( S->qlock );
				u16 c = s.choice[i];
				u16 lim = s.arity[i];
				while( u32( c + 1 ) < lim and S->qn < QCAP ) {
					Task &t = S->q[S->qn];
					t.test = s.test;
					t.len = i + 1;
					std::memcpy( t.path, s.choice, ( i + 1 ) * sizeof( u16 ) );
					t.path[i] = u16( lim - 1 );
					--lim;
					S->qn++;
				}
				s.arity[i] = lim;
				unspin( S->qlock );
				return;
			}
		}
	}

	bool advance( Slot &s ) {
		donate( s );
		while( s.depth > s.base ) {
			u32 const i = s.depth - 1;
			if( s.choice[i] + 1 < s.arity[i] ) {
				s.choice[i]++;
				g_fresh = i + 1;
				return true;
			}
			s.depth--;
		}
		return false;
	}

	void worker( unsigned id, bool resume ) {
		Slot &s = S->slot[id];
		cur = &s;
		if( resume ) goto next;
		for( ;; ) {
			{
				spin( S->qlock );
				bool got = S->qn > 0;
				if( got ) {
					Task const &t = S->q[S->qn - 1];
					s.test = t.test;
					s.base = s.depth = t.len;
					if( t.len ) std::memcpy( s.choice, t.path, t.len * sizeof( u16 ) );
					std::memset( s.arity, 0, t.len * sizeof( u16 ) );
					S->qn--;
					S->active++;
					s.has_task = 1;
					g_fresh = t.len;
				}
				int const act = S->active;
				unspin( S->qlock );
				if( not got ) {
					if( act == 0 or S->quit ) return;
					usleep( 200 );
					continue;
				}
			}
			for( ;; ) {
				if( S->st[s.test].stop ) break;
				if( ( s.exec_id.load( std::memory_order_relaxed ) & 63 ) == 0 and now( ) > g_deadline ) {
					S->deadline_hit = 1;
					break;
				}
				s.exec_id.fetch_add( 1 );
				run_once( int( s.test ) );
				after_exec( int( s.test ) );
			next:
				if( S->st[s.test].stop or S->quit ) break;
				if( not advance( s ) ) break;
			}
			s.has_task = 0;
			S->active--;
		}
	}

	// ---- replay in a child --------------------------------------------------------
	struct Replay {
		bool failed = false, crashed = false, hung = false, harness = false;
		std::string key, msg, log, err;
		u64 obs = 0;
	};
	Replay replay( int t, u16 const *path, u32 len, double limit ) {
		int pe[2], po[2];
		if( pipe( pe ) or pipe( po ) ) exit( 2 );
		fflush( stdout );
		fflush( stderr );
		pid_t const pid = fork( );
		if( pid == 0 ) {
			close( pe[0] );
			close( po[0] );
			dup2( pe[1], 2 );
			dup2( pe[1], 1 );
			cur = &replay_slot;
			if( len ) std::memcpy( replay_slot.choice, path, len * sizeof( u16 ) );
			std::memset( replay_slot.arity, 0, sizeof replay_slot.arity );
			replay_slot.depth = len;
			g_fresh = 0;
			g_verbose = true;
			run_once( t );
			std::string out = mc::strf( "%d %llu\n%s\n%s\n", g_failed ? 1 : 0, (unsigned long long)g_obs, g_failed ? g_key : "", g_failed ? g_msg : "" );
			std::size_t o = 0;
			while( o < out.size( ) ) {
				auto r = write( po[1], out.data( ) + o, out.size( ) - o );
				if( r <= 0 ) break;
				o += std::size_t( r );
			}
			_exit( 0 );
		}
		close( pe[1] );
		close( po[1] );
		Replay R;
		std::string out;
		double const end = now( ) + limit;
		bool e1 = true, e2 = true;
		while( e1 or e2 ) {
			pollfd f[2] = { { e1 ? pe[0] : -1, POLLIN, 0 }, { e2 ? po[0] : -1, POLLIN, 0 } };
			int const ms = int( ( end - now( ) ) * 1000 );
			if( ms <= 0 or ::poll( f, 2, ms ) == 0 ) {
				R.hung = true;
				kill( pid, SIGKILL );
				break;
			}
			char b[65536];
			if( f[0].revents ) {
				auto r = read( pe[0], b, sizeof b );
				if( r <= 0 ) e1 = false; else if( R.err.size( ) < 200000 ) R.err.append( b, std::size_t( r ) );
			}
			if( f[1].revents ) {
				auto r = read( po[0], b, sizeof b );
				if( r <= 0 ) e2 = false; else out.append( b, std::size_t( r ) );
			}
		}
		int st = 0;
		waitpid( pid, &st, 0 );
		close( pe[0] );
		close( po[0] );
		R.log = R.err;
		if( R.hung ) return R;
		if( WIFEXITED( st ) and WEXITSTATUS( st ) == 77 ) {
			R.harness = true;
			return R;
		}
		if( not WIFEXITED( st ) or WEXITSTATUS( st ) != 0 ) {
			R.crashed = true;
			return R;
		}
		auto nl = out.find( '\n' );
		int f = 0;
		unsigned long long ob = 0;
		sscanf( out.c_str( ), "%d %llu", &f, &ob );
		R.failed = f;
		R.obs = ob;
		auto n2 = out.find( '\n', nl + 1 );
		R.key = out.substr( nl + 1, n2 - nl - 1 );
		auto n3 = out.find( '\n', n2 + 1 );
		R.msg = out.substr( n2 + 1, n3 - n2 - 1 );
		return R;
	}

	std::string crash_key( std::string const &err ) {
		// classify: assertion / sanitizer kind / terminate
		auto grab = [&]( char const *pat, std::size_t max ) -> std::string {
			auto p = err.find( pat );
			if( p == std::string::npos ) return { };
			p += std::strlen( pat );
			auto e = err.find_first_of( "\n", p );
			auto r = err.substr( p, std::min( e - p, max ) );
			return r;
		};
		std::string s;
		if( not( s = grab( "ERROR: AddressSanitizer: ", 60 ) ).empty( ) ) return "asan " + s.substr( 0, s.find( ' ' ) );
		if( not( s = grab( "runtime error: ", 100 ) ).empty( ) ) return "ubsan " + s.substr( 0, s.find_first_of( "0123456789" ) );
		if( not( s = grab( "Assertion `", 100 ) ).empty( ) ) return "assert " + s;
		if( err.find( "terminate called" ) != std::string::npos ) return "terminate";
		return "crash";
	}
	std::string jesc( std::string const &s ) {
		std::string r;
		for( unsigned char c : s ) {
			if( c == '"' or c == '\\' ) { r += '\\'; r += char( c ); }
			else if( c == '\n' ) r += "\\n";
			else if( c < 32 or c >= 127 ) r += mc::strf( "\\u%04x", c );
			else r += char( c );
		}
		return r;
	}
	std::string path_str( u16 const *p, u32 n ) {
		std::string r;
		for( u32 i = 0; i < n; ++i ) r += ( i ? "," : "" ) + std::to_string( p[i] );
		return r;
	}
} // namespace

int main( int argc, char **argv ) {
	std::string out, rep, only;
	double limit = 1e9, hang = 10;
	for( int i = 1; i < argc; ++i ) {
		std::string a = argv[i];
		auto val = [&] { return std::string( argv[++i] ); };
		if( a == "--tier" ) g_tier = val( ) == "thorough";
		else if( a == "--jobs" ) g_jobs = atoi( val( ).c_str( ) );
		else if( a == "--out" ) out = val( );
		else if( a == "--limit" ) limit = atof( val( ).c_str( ) );
		else if( a == "--hang" ) hang = atof( val( ).c_str( ) );
		else if( a == "--replay" ) rep = val( );
		else if( a == "--only" ) only = val( );
		else if( a == "--known" ) g_known.push_back( val( ) );
		else if( a == "--list" ) {
			for( auto *t : tests( ) ) puts( t->name );
			return 0;
		} else {
			fprintf( stderr, "bad argument %s\n", a.c_str( ) );
			return 2;
		}
	}
	if( g_jobs > int( MAXW ) ) g_jobs = int( MAXW );
	if( tests( ).empty( ) or tests( ).size( ) > MAXT ) {
		fprintf( stderr, "bad number of tests\n" );
		return 2;
	}
	std::set_terminate( [] {
		if( g_failed ) fprintf( stderr, "FAIL %s: %s\n", g_key, g_msg );
		fprintf( stderr, "terminate called\n" );
		fflush( stderr );
		abort( );
	} );
	if( not rep.empty( ) ) { // test:path
		auto c = rep.find( ':' );
		std::string name = rep.substr( 0, c );
		std::vector<u16> p;
		for( std::size_t i = c + 1; i < rep.size( ); ) {
			p.push_back( u16( atoi( rep.c_str( ) + i ) ) );
			auto k = rep.find( ',', i );
			if( k == std::string::npos ) break;
			i = k + 1;
		}
		for( unsigned t = 0; t < tests( ).size( ); ++t ) {
			if( name != tests( )[t]->name ) continue;
			auto R = replay( int( t ), p.data( ), u32( p.size( ) ), 60 );
			fputs( R.log.c_str( ), stdout );
			printf( "REPLAY %s\n", R.harness ? "harness error" : R.hung ? "hang" : R.crashed ? "crash" : R.failed ? ( R.key + ": " + R.msg ).c_str( ) : "ok" );
			return R.harness ? 2 : ( R.hung or R.crashed or R.failed ) ? 1 : 0;
		}
		return 2;
	}
	double const t0 = now( );
	g_deadline = t0 + limit;
	S = static_cast<Shared *>( mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
	std::vector<bool> enabled( tests( ).size( ) );
	for( unsigned t = 0; t < tests( ).size( ); ++t ) {
		enabled[t] = ( only.empty( ) or only == tests( )[t]->name ) and tests( )[t]->min_tier <= g_tier;
		auto mm = []( std::size_t n ) {
			void *p = mmap( nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
			if( p == MAP_FAILED ) exit( 2 );
			return p;
		};
		if( not enabled[t] ) continue;
		stab[t] = static_cast<u64 *>( mm( sizeof( u64 ) << SBITS ) );
		srem[t] = static_cast<std::uint8_t *>( mm( 1 << SBITS ) );
		otab[t] = static_cast<u64 *>( mm( sizeof( u64 ) << OBITS ) );
	}
	for( unsigned t = unsigned( tests( ).size( ) ); t-- > 0; ) {
		if( not enabled[t] ) continue;
		S->q[S->qn].test = t;
		S->q[S->qn].len = 0;
		S->qn++;
	}
	std::vector<pid_t> pid( unsigned( g_jobs ), -1 );
	std::vector<u64> last( unsigned( g_jobs ), 0 );
	std::vector<double> since( unsigned( g_jobs ), now( ) );
	std::vector<int> errp( unsigned( g_jobs ), -1 );
	auto spawn = [&]( unsigned w, bool resume ) {
		fflush( stdout );
		fflush( stderr );
		pid_t p = fork( );
		if( p == 0 ) {
			int dn = open( "/dev/null", O_WRONLY );
			dup2( dn, 1 );
			if( not getenv( "MC_STDERR" ) ) dup2( dn, 2 );
			worker( w, resume );
			_exit( 0 );
		}
		pid[w] = p;
		since[w] = now( );
		last[w] = S->slot[w].exec_id;
	};
	for( unsigned w = 0; w < unsigned( g_jobs ); ++w ) spawn( w, false );
	int running = g_jobs, crashes = 0;
	bool herr = false;
	std::string herr_text;
	while( running > 0 ) {
		int st;
		pid_t p = waitpid( -1, &st, WNOHANG );
		if( p == 0 ) {
			usleep( 2000 );
			double const n = now( );
			for( unsigned w = 0; w < pid.size( ); ++w ) {
				if( pid[w] < 0 ) continue;
				u64 e = S->slot[w].exec_id;
				if( e != last[w] or not S->slot[w].busy ) {
					last[w] = e;
					since[w] = n;
				} else if( n - since[w] > hang ) {
					kill( pid[w], SIGKILL );
					since[w] = n;
				}
			}
			continue;
		}
		if( p < 0 ) break;
		unsigned w = 0;
		while( w < pid.size( ) and pid[w] != p ) ++w;
		if( w == pid.size( ) ) continue;
		pid[w] = -1;
		if( WIFEXITED( st ) and WEXITSTATUS( st ) == 0 ) {
			--running;
			continue;
		}
		// crashed, hung or harness error in the middle of an execution
		Slot &s = S->slot[w];
		u32 len = s.pos;
		std::vector<u16> path( s.choice, s.choice + len );
		int const t = int( s.test );
		++crashes;
		Replay R;
		bool const moot = S->st[t].stop;
		if( s.busy and not moot ) R = replay( t, path.data( ), len, hang * 3 );
		s.busy = 0;
		bool stop = false;
		if( moot ) {
			// this test already has a confirmed violation
		} else if( R.hung ) {
			record_violation( t, "hang", "execution does not terminate", path.data( ), len );
		} else if( R.crashed ) {
			auto k = crash_key( R.err );
			std::string tail = R.err.size( ) > 1300 ? R.err.substr( 0, 1300 ) : R.err;
			record_violation( t, k.c_str( ), tail.c_str( ), path.data( ), len );
		} else if( R.failed ) {
			record_violation( t, R.key.c_str( ), R.msg.c_str( ), path.data( ), len );
		} else if( WIFSIGNALED( st ) and WTERMSIG( st ) == SIGKILL and not R.harness ) {
			// slow but terminating: carry on
		} else {
			herr = true;
			herr_text = mc::strf( "test %s path %s: worker ended with status %x, replay %s", tests( )[unsigned( t )]->name, path_str( path.data( ), len ).c_str( ), unsigned( st ), R.harness ? "harness error" : "did not reproduce" );
			stop = true;
		}
		if( crashes > 200 ) { herr = true; herr_text = "too many crashes"; stop = true; }
		if( stop ) {
			S->quit = 1;
			for( unsigned i = 0; i < pid.size( ); ++i )
				if( pid[i] > 0 ) { kill( pid[i], SIGKILL ); waitpid( pid[i], nullptr, 0 ); }
			break;
		}
		s.depth = len;
		spawn( w, true );
	}
	// determinism: replay every sample twice; replay every violation again
	std::string js = "{\"tests\":[";
	bool first = true;
	u64 validated = 0;
	for( unsigned t = 0; t < tests( ).size( ) and not herr; ++t ) {
		if( not enabled[t] ) continue;
		auto &st = S->st[t];
		std::string samples;
		for( auto &sp : st.sample ) {
			if( sp.used != 1 ) continue;
			auto A = replay( int( t ), sp.path, sp.len, 60 );
			auto B = replay( int( t ), sp.path, sp.len, 60 );
			if( A.obs != B.obs or A.failed != B.failed or A.crashed or B.crashed or A.hung or A.harness ) {
				if( not st.nviol ) {
					record_violation( int( t ), "nondeterministic", "the same choices gave different observations in two runs", sp.path, sp.len );
				}
				continue;
			}
			++validated;
			if( A.log.size( ) > 700 ) A.log.resize( 700 );
			samples += std::string( samples.empty( ) ? "" : "," ) + "{\"path\":\"" + path_str( sp.path, std::min<u32>( sp.len, 60 ) ) + "\",\"log\":\"" + jesc( A.log ) + "\"}";
		}
		js += std::string( first ? "" : "," ) + "{\"name\":\"" + tests( )[t]->name + "\"" +
		      mc::strf( ",\"executions\":%llu,\"transitions\":%llu,\"cases\":%llu,\"states\":%llu,\"outcomes\":%llu,\"pruned\":%llu,\"max_choices\":%llu,\"table_full\":%u,\"stopped\":%u",
		                (unsigned long long)st.execs, (unsigned long long)st.steps, (unsigned long long)st.cases, (unsigned long long)st.states, (unsigned long long)st.outcomes,
		                (unsigned long long)st.pruned, (unsigned long long)st.maxdepth, unsigned( st.full ), unsigned( st.stop ) ) +
		      ",\"samples\":[" + samples + "]}";
		first = false;
	}
	js += "],\"violations\":[";
	first = true;
	for( u32 i = 0; i < S->nviol; ++i ) {
		auto &v = S->viol[i];
		auto R = replay( int( v.test ), v.path, v.len, 15 );
		bool const ok = R.failed or R.crashed or R.hung;
		std::string log = R.log;
		if( log.size( ) > 6000 ) log.resize( 6000 );
		js += std::string( first ? "" : "," ) + "{\"test\":\"" + tests( )[v.test]->name + "\",\"key\":\"" + jesc( v.key ) + "\",\"known\":" + ( v.known ? "true" : "false" ) +
		      ",\"reproduced\":" + ( ok ? "true" : "false" ) + ",\"msg\":\"" + jesc( v.msg ) + "\",\"path\":\"" + path_str( v.path, v.len ) + "\",\"log\":\"" + jesc( log ) + "\"}";
		first = false;
	}
	js += mc::strf( "],\"deadline_hit\":%u,\"harness_error\":\"%s\",\"replayed_twice\":%llu,\"wall\":%.2f}\n", unsigned( S->deadline_hit ), jesc( herr_text ).c_str( ), (unsigned long long)validated, now( ) - t0 );
	if( not out.empty( ) ) {
		FILE *f = fopen( out.c_str( ), "w" );
		fputs( js.c_str( ), f );
		fclose( f );
	} else {
		fputs( js.c_str( ), stdout );
	}
	if( herr ) return 2;
	for( u32 i = 0; i < S->nviol; ++i ) if( not S->viol[i].known ) return 1;
	return 0;
}

// ---- expected aborts ------------------------------------------------------------
#include <csetjmp>
#include <csignal>
static sigjmp_buf mc_abort_jmp;
static void mc_on_abort( int ) { siglongjmp( mc_abort_jmp, 1 ); }
bool mc::aborts_impl( void ( *fn )( void * ), void *ctx ) {
	struct sigaction sa { }, old { };
	sa.sa_handler = mc_on_abort;
	sa.sa_flags = SA_NODEFER;
	sigaction( SIGABRT, &sa, &old );
	auto const term = std::set_terminate( []( ) { std::abort( ); } );
	bool died = true;
	if( sigsetjmp( mc_abort_jmp, 1 ) == 0 ) {
		fn( ctx );
		died = false;
	}
	std::set_terminate( term );
	sigaction( SIGABRT, &old, nullptr );
	return died;
}
