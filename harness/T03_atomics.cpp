// Atomic wrapper, one-shot gate, live-instance counter: every interleaving of
// small concurrent programs, checked for linearizability against the
// sequential meaning of each operation; publication checked by a
// happens-before race detector.
// MC-RT: conc
#include "mc_conc.h"
#include <daw/daw_allow_once.h>
#include <daw/daw_countable_resource.h>
#include "T03.inc"
#include <memory>

using namespace mc::conc;
namespace {
	template<typename T>
	struct Hist {
		std::vector<Op> ops[3];
		std::vector<Res<T>> res[3];
		unsigned clock = 0;
		__attribute__( ( no_sanitize( "thread" ), noinline ) ) unsigned tick( ) { return ++clock; }
		__attribute__( ( no_sanitize( "thread" ), noinline ) ) void put( int t, unsigned i, Res<T> r ) { res[t][i] = r; }
	};
	template<typename T>
	bool lin( Hist<T> const &h, T m, T fin, unsigned i0, unsigned i1, unsigned i2 ) {
		unsigned const idx[3] = { i0, i1, i2 };
		bool any = false;
		for( int t = 0; t < 3; ++t ) {
			if( idx[t] >= h.ops[t].size( ) ) continue;
			any = true;
			auto const &r = h.res[t][idx[t]];
			bool ok = true; // no pending operation may have completed before this one began
			for( int u = 0; u < 3; ++u )
				if( u != t and idx[u] < h.ops[u].size( ) and h.res[u][idx[u]].res < r.inv ) ok = false;
			if( not ok ) continue;
			T m2 = m;
			auto const want = seq( m2, h.ops[t][idx[t]] );
			if( want.r == r.r and want.ok == r.ok ) {
				unsigned n[3] = { i0, i1, i2 };
				++n[t];
				if( lin( h, m2, fin, n[0], n[1], n[2] ) ) return true;
			}
		}
		return not any and m == fin;
	}
	template<typename T>
	Op pick_op( ) {
		OpK k;
		do {
			k = OpK( mc::choose( NOps ) );
			if( not has<T>( k ) ) throw mc::Stop{ };
		} while( false );
		Op o{ k, 1, 2 };
		switch( k ) {
		case Load: case Conv: case CopyCt: case PreInc: case PostInc: case PreDec: case PostDec: break;
		case CasS: case CasS2: case CasW: case CasW2: o.a = mc::choose( 2 ); o.b = 2; break;
		case FAnd: case AndA: o.a = 6; break;
		case FOr: case OrA: o.a = 12; break;
		case FXor: case XorA: o.a = 9; break;
		default: o.a = 3; break;
		}
		return o;
	}
	template<typename T>
	void linearize( unsigned pb, std::initializer_list<int> sizes, T init ) {
		Hist<T> h;
		int t = 0;
		for( int n : sizes ) {
			for( int i = 0; i < n; ++i ) h.ops[t].push_back( pick_op<T>( ) );
			h.res[t].resize( n );
			++t;
		}
		daw::atomic<T> m( init );
		std::vector<std::function<void( )>> b;
		for( int k = 0; k < t; ++k )
			b.push_back( [&, k] {
				for( unsigned i = 0; i < h.ops[k].size( ); ++i ) {
					unsigned const inv = h.tick( );
					Res<T> r = real( m, h.ops[k][i] );
					r.inv = inv;
					r.res = h.tick( );
					h.put( k, i, r );
				}
			} );
		run( pb, std::move( b ) );
		if( not lin( h, init, m.load( ), 0, 0, 0 ) ) {
			std::string s;
			for( int k = 0; k < t; ++k )
				for( unsigned i = 0; i < h.ops[k].size( ); ++i )
					s += mc::strf( " T%d:%s(%ld,%ld)->%g/%d", k, oname[h.ops[k][i].k], h.ops[k][i].a, h.ops[k][i].b, double( h.res[k][i].r ), int( h.res[k][i].ok ) );
			mc::fail( "not-linearizable", "no sequential order explains%s final=%g", s.c_str( ), double( m.load( ) ) );
		}
	}
} // namespace

// every operation alone and every sequence of 3, against the sequential meaning
template<typename T>
static void sequential( int depth ) {
	T m = T( mc::choose( 3 ) ? 1 : 0 );
	daw::atomic<T> a( m );
	if( mc::choose( 2 ) ) {
		daw::atomic<T> z;
		MC_CHECK( z.load( ) == T{ }, "default-value", "default value" );
	}
	for( int i = 0; i < depth; ++i ) {
		Op const o = pick_op<T>( );
		auto const w = seq( m, o );
		auto const r = real( a, o );
		MC_CHECK( r.r == w.r and r.ok == w.ok, "result", "%s(%ld,%ld) gave %g/%d, expected %g/%d", oname[o.k], o.a, o.b, double( r.r ), r.ok, double( w.r ), w.ok );
		MC_CHECK( a.load( ) == m, "value", "after %s(%ld,%ld) holds %g, expected %g", oname[o.k], o.a, o.b, double( a.load( ) ), double( m ) );
		mc::step( );
	}
	mc::obs( std::uint64_t( m ) );
}
MC_TEST( sequential_int ) { sequential<int>( mc::by_tier( 2, 3 ) ); }
MC_TEST( sequential_u8 ) { sequential<std::uint8_t>( mc::by_tier( 2, 3 ) ); }
MC_TEST( sequential_bool ) { sequential<bool>( 3 ); }
MC_TEST( sequential_double ) { sequential<double>( mc::by_tier( 2, 3 ) ); }
MC_TEST( pairs_int ) { linearize<int>( 9, { 1, 1 }, mc::choose( 2 ) ); }
MC_TEST( pairs_i64 ) { linearize<std::int64_t>( 9, { 1, 1 }, 1 ); }
MC_TEST( pairs_u8 ) { linearize<std::uint8_t>( 9, { 1, 1 }, 255 ); }
MC_TEST( pairs_bool ) { linearize<bool>( 9, { 2, 1 }, false ); }
MC_TEST( pairs_double ) { linearize<double>( 9, { 1, 1 }, 1 ); }
MC_TEST( two_and_one_int ) { linearize<int>( 9, { 2, 1 }, mc::choose( 2 ) ); }
MC_TEST( triples_u16 ) { linearize<std::uint16_t>( 9, { 1, 1, 1 }, 1 ); }
MC_TEST( two_and_one_double ) { linearize<double>( mc::by_tier( 3, 9 ), { 2, 1 }, 1 ); }
MC_THOROUGH_TEST( two_and_two_int ) { linearize<int>( 9, { 2, 2 }, 1 ); }
MC_THOROUGH_TEST( triples_double ) { linearize<double>( 4, { 1, 1, 1 }, 1 ); }

// what a thread wrote before publishing is visible to the thread that observes it
MC_TEST( publication ) {
	daw::atomic<int> a( 0 );
	int data = 0;
	unsigned const how = mc::choose( 16 ), obs = mc::choose( 12 );
	run( 6, { [&] {
		     data = 7;
		     int e = 0;
		     switch( how ) {
		     case 0: a.store( 1, std::memory_order_release ); break;
		     case 1: a.store( 1 ); break;
		     case 2: a = 1; break;
		     case 3: (void)a.exchange( 1, std::memory_order_release ); break;
		     case 4: (void)a.exchange( 1 ); break;
		     case 5: (void)a.compare_exchange_strong( e, 1, std::memory_order_release, std::memory_order_relaxed ); break;
		     case 6: (void)a.compare_exchange_strong( e, 1 ); break;
		     case 7: (void)a.fetch_add( 1, std::memory_order_release ); break;
		     case 8: a += 1; break;
		     case 9: ++a; break;
		     case 10: a++; break;
		     case 11: (void)a.fetch_or( 1, std::memory_order_release ); break;
		     case 12: (void)a.fetch_xor( 1 ); break;
		     case 13: a |= 1; break;
		     case 14: (void)a.compare_exchange_weak( e, 1, std::memory_order_release, std::memory_order_relaxed ); break;
		     case 15: (void)a.fetch_sub( -1, std::memory_order_release ); break;
		     }
	     },
	          [&] {
		          int x = 0, e = 5;
		          switch( obs ) {
		          case 0: x = a.load( std::memory_order_acquire ); break;
		          case 1: x = a.load( ); break;
		          case 2: x = a; break;
		          case 3: x = a.exchange( 9, std::memory_order_acquire ); break;
		          case 4: (void)a.compare_exchange_strong( e, 6, std::memory_order_acq_rel, std::memory_order_acquire ); x = e; break;
		          case 5: (void)a.compare_exchange_strong( e, 6 ); x = e; break;
		          case 6: x = a.fetch_add( 0, std::memory_order_acquire ); break;
		          case 7: x = a.fetch_and( 255, std::memory_order_acquire ); break;
		          case 8: { daw::atomic<int> c( a ); x = c.load( std::memory_order_relaxed ); break; }
		          case 9: (void)a.compare_exchange_weak( e, 6, std::memory_order_acq_rel, std::memory_order_acquire ); x = e; break;
		          case 10: e = 1; if( a.compare_exchange_strong( e, 6, std::memory_order_acquire, std::memory_order_relaxed ) ) x = 1; break;
		          case 11: x = a.fetch_xor( 0, std::memory_order_acq_rel ); break;
		          }
		          if( x == 1 ) MC_CHECK( data == 7, "stale-data", "publisher %u observer %u: data=%d", how, obs, data );
	          } } );
}
// explicit orders are honoured for every other modifying operation
MC_TEST( rmw_chain ) {
	daw::atomic<unsigned> a( 0 );
	int d1 = 0, d2 = 0;
	unsigned const k = mc::choose( 5 );
	auto rmw = [&]( unsigned bit ) {
		switch( k ) {
		case 0: return a.fetch_add( bit, std::memory_order_acq_rel );
		case 1: return a.fetch_or( bit, std::memory_order_acq_rel );
		case 2: return a.fetch_xor( bit, std::memory_order_acq_rel );
		case 3: return a.fetch_sub( 0u - bit, std::memory_order_acq_rel );
		default: {
			unsigned e = a.load( std::memory_order_relaxed );
			while( not a.compare_exchange_weak( e, e | bit, std::memory_order_acq_rel, std::memory_order_relaxed ) ) {}
			return e;
		}
		}
	};
	auto see = [&]( unsigned x ) {
		if( x & 1 ) MC_CHECK( d1 == 1, "stale-data", "d1" );
		if( x & 2 ) MC_CHECK( d2 == 2, "stale-data", "d2" );
	};
	run( 6, { [&] { d1 = 1; see( rmw( 1 ) & ~1u ); }, [&] { d2 = 2; see( rmw( 2 ) & ~2u ); }, [&] { see( rmw( 4 ) ); } } );
}

// ---- one-shot gate -----------------------------------------------------------------
MC_TEST( gate_concurrent ) {
	daw::allow_once_t g;
	int const nt = 2 + int( mc::choose( 2 ) );
	int passed[3] = { }, data[3] = { };
	std::vector<std::function<void( )>> b;
	for( int i = 0; i < nt; ++i )
		b.push_back( [&, i] {
			data[i] = i + 1;
			bool const has_run = i == 1 ? bool( g ) : g.check( );
			if( not has_run ) passed[i]++;
			else if( nt == 2 ) MC_CHECK( data[1 - i] == 2 - i, "stale-data", "the loser does not see what the winner wrote" );
			if( not( i == 0 ? g.check( ) : bool( g ) ) ) passed[i]++;
		} );
	run( 6, std::move( b ) );
	MC_CHECK( passed[0] + passed[1] + passed[2] == 1, "gate", "%d callers got through", passed[0] + passed[1] + passed[2] );
}
MC_TEST( gate_reset_concurrent ) {
	daw::allow_once_t g;
	int pass_a = 0, pass_b = 0, data = 0;
	run( 9, { [&] {
		     pass_a += not g.check( );
		     data = 5;
		     g.reset( );
	     },
	          [&] {
		          if( not g.check( ) ) {
			          ++pass_b;
		          }
		          if( not g.check( ) ) {
			          ++pass_b;
		          }
	          } } );
	int const total = pass_a + pass_b;
	bool const left = g.check( );
	MC_CHECK( total + ( left ? 0 : 1 ) >= 1 and total <= 2, "gate", "%d callers got through one reset", total );
	MC_CHECK( left or total <= 1, "gate", "gate open although %d got through", total );
}
MC_TEST( gate_reset_publishes ) {
	daw::allow_once_t g;
	(void)g.check( );
	int data = 0;
	run( 9, { [&] { data = 5; g.reset( ); }, [&] { if( not g.check( ) ) MC_CHECK( data == 5, "stale-data", "data=%d", data ); } } );
}
MC_TEST( gate_sequential ) {
	daw::allow_once_t g;
	bool open = true;
	for( int i = 0; i < 6; ++i ) {
		switch( mc::choose( 3 ) ) {
		case 0: MC_CHECK( g.check( ) == not open, "gate", "check()" ); open = false; break;
		case 1: MC_CHECK( bool( g ) == not open, "gate", "bool" ); open = false; break;
		case 2: g.reset( ); open = true; break;
		}
		mc::step( );
	}
}

// ---- live instance counter ----------------------------------------------------------
namespace {
	struct Counted : daw::countable_resource_t<int> {
		int v = 0;
	};
} // namespace
MC_TEST( counter_sequential ) {
	int const base = Counted::value( );
	{
		std::vector<std::unique_ptr<Counted>> v;
		for( int i = 0; i < mc::by_tier( 5, 7 ); ++i ) {
			unsigned const n = unsigned( v.size( ) );
			switch( mc::choose( 6 ) ) {
			case 0: v.push_back( std::make_unique<Counted>( ) ); break;
			case 1: if( n ) v.push_back( std::make_unique<Counted>( *v[0] ) ); break;
			case 2: if( n ) v.push_back( std::make_unique<Counted>( std::move( *v[0] ) ) ); break;
			case 3: if( n > 1 ) *v[0] = *v[1]; break;
			case 4: if( n > 1 ) *v[1] = std::move( *v[0] ); break;
			case 5: if( n ) v.pop_back( ); break;
			}
			mc::step( );
			MC_CHECK( Counted::value( ) - base == int( v.size( ) ), "count", "%d counted, %d alive", Counted::value( ) - base, int( v.size( ) ) );
		}
	}
	MC_CHECK( Counted::value( ) == base, "count", "not back to the start" );
}
MC_TEST( counter_concurrent ) {
	using R = daw::countable_resource_t<long>;
	long const base = R::value( );
	alignas( R ) static char mem[3][sizeof( R )];
	run( 5, { [&] { auto *p = new( mem[0] ) R; R c( *p ); long x = R::value( ); MC_CHECK( x - base >= 2 and x - base <= 5, "count", "%ld", x - base ); },
	          [&] { auto *p = new( mem[1] ) R; { R d; d = *p; } },
	          [&] { new( mem[2] ) R; } } );
	MC_CHECK( R::value( ) - base == 3, "count", "%ld counted, 3 alive", R::value( ) - base );
	for( auto &m : mem ) reinterpret_cast<R *>( m )->~R( );
	MC_CHECK( R::value( ) == base, "count", "%ld left", R::value( ) - base );
}
