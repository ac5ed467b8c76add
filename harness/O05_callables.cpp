// Type-erased callables: every history over the wrappers up to a depth, with at
// most one injected failure, against a model that says which target each
// wrapper holds and which targets are alive.
#include "mc.h"
#include "mc_tracked.h"
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include <daw/daw_any_if.h>
#include <daw/daw_function.h>
#include <daw/daw_function_ref.h>
#include <daw/daw_function_table.h>
#include <daw/daw_function_view.h>
#include <daw/daw_sbo.h>
#include <daw/daw_shared_function.h>
#include <daw/daw_stack_function.h>

using TM = mc::Tracked<mc::NoThrowMove>;
using TC = mc::Tracked<0>;

namespace {
	template<typename F>
	bool attempt( F &&f ) {
		try {
			mc::FaultScope fs( true );
			f( );
		} catch( mc::InjectedFault const & ) {
			return true;
		} catch( std::bad_alloc const & ) {
			return true;
		}
		return false;
	}

	// ---- owning function with in-place storage ------------------------------------------
	template<typename T>
	struct Add { // monitored state, result depends on it
		T t;
		explicit Add( int v ) : t( v ) {}
		int operator( )( int &calls, int x ) const { ++calls; return t.get( ) * 10 + x; }
	};
	template<typename T>
	struct Count { // mutable call operator: every call advances the state of this copy
		mutable int n = 0;
		T t;
		explicit Count( int v ) : t( v ) {}
		int operator( )( int &calls, int x ) const { ++calls; return t.get( ) * 100 + 10 * n++ + x; }
	};
	int plain1( int &calls, int x ) { ++calls; return 7000 + x; }
	int plain2( int &calls, int x ) { ++calls; return 8000 + x; }
	enum FK { None, KAdd, KCount, KFp };
	struct FM {
		int k = None, v = 0, n = 0;
		bool operator==( FM const & ) const = default;
		std::uint64_t h( ) const { return std::uint64_t( k * 10000 + ( v + 100 ) * 20 + n ); }
	};
	using Sig = int( int &, int );
	template<typename Fn>
	FM call_of( Fn &f, FM const &m, char const *after ) {
		FM r = m;
		MC_CHECK( f.empty( ) == ( m.k == None ) and static_cast<bool>( f ) == ( m.k != None ), "empty", "after %s: empty is %d", after, int( f.empty( ) ) );
		int calls = 0;
		if( m.k == None ) {
			for( int way = 0; way < 2; ++way ) {
				bool got = false;
				try { if( way ) (void)f( calls, 1 ); else (void)std::as_const( f )( calls, 1 ); } catch( std::bad_function_call const & ) { got = true; }
				MC_CHECK( got and calls == 0, "empty-call", "after %s: calling an empty function does not throw bad_function_call", after );
			}
			return r;
		}
		for( int way = 0; way < 2; ++way ) {
			int const x = way + 3;
			int const got = way ? f( calls, x ) : std::as_const( f )( calls, x );
			int const want = m.k == KAdd ? m.v * 10 + x : m.k == KCount ? m.v * 100 + 10 * r.n++ + x : m.v + x;
			MC_CHECK( calls == way + 1, "calls", "after %s: the target ran %d times", after, calls );
			MC_CHECK( got == want, "result", "after %s: result %d, expected %d", after, got, want );
		}
		return r;
	}
	template<typename T>
	void owning( int depth, unsigned faults ) {
		using F = daw::function<96, Sig>;
		using G = daw::function<64, Sig>;
		static_assert( not std::is_constructible_v<G, F const &> );
		mc::with_tracking( [&] {
			F s[2];
			G g;
			FM m[3];
			mc::set_fault_budget( faults );
			unsigned left = faults;
			for( int k = 0; k < depth; ++k ) {
				std::uint64_t h = left;
				for( auto &x : m ) h = mc::mix( h, x.h( ) );
				if( not mc::enter_state( h, unsigned( depth - k ) ) ) break;
				unsigned const op = mc::choose( 17 );
				unsigned const i = op < 13 or op == 15 ? mc::choose( 2 ) : 0;
				unsigned const j = op < 2 ? mc::choose( 2 ) : i;
				int const v = op == 4 or op == 5 or op == 6 or op == 13 ? mc::choose_range( 1, 2 ) : 0;
				FM const before[3] = { m[0], m[1], m[2] };
				char const *nm = "";
				bool const threw = attempt( [&] {
					switch( op ) {
					case 0: nm = "copy assignment"; s[i] = std::as_const( s[j] ); m[i] = m[j]; break;
					case 1:
						nm = "move assignment"; s[i] = std::move( s[j] );
						if( i != j ) { m[i] = m[j]; if( m[j].k == KAdd or m[j].k == KCount ) m[j].v = mc::MOVED; }
						break;
					case 2: { nm = "copy construction"; F t( std::as_const( s[i] ) ); mc::FaultScope off( false, false ); call_of( t, m[i], nm ); } break;
					case 3: { nm = "copy of a mutable value"; F t( s[i] ); s[1 - i] = t; m[1 - i] = m[i]; } break;
					case 4: { nm = "assign lvalue callable"; { Add<T> a( v ); s[i] = a; a.t.v = 55; } m[i] = { KAdd, v, 0 }; } break;
					case 5: { nm = "assign rvalue callable"; if( mc::choose( 2 ) ) { s[i] = Count<T>( v ); m[i] = { KCount, v, 0 }; } else { s[i] = Add<T>( v ); m[i] = { KAdd, v, 0 }; } } break;
					case 6: { nm = "construct from callable"; Count<T> const c( v ); F t( c ); s[i] = std::move( t ); m[i] = { KCount, v, 0 }; } break;
					case 7: nm = "assign function"; s[i] = plain1; m[i] = { KFp, 7000, 0 }; break;
					case 8: { nm = "assign function pointer"; int ( *fp )( int &, int ) = mc::choose( 2 ) ? plain2 : nullptr; s[i] = fp; m[i] = fp ? FM{ KFp, 8000, 0 } : FM{ }; fp = plain1; } break;
					case 9: nm = "assign empty"; s[i] = F{ }; m[i] = FM{ }; break;
					case 10: { nm = "assign empty std::function"; std::function<Sig> e; s[i] = e; m[i] = FM{ }; } break;
					case 11: nm = "assign a smaller function"; s[i] = std::as_const( g ); m[i] = m[2]; break;
					case 12: { nm = "construct from a smaller function"; F t( std::as_const( g ) ); s[i] = std::move( t ); m[i] = m[2]; } break;
					case 13: nm = "assign to the smaller function"; g = Add<T>( v ); m[2] = { KAdd, v, 0 }; break;
					case 14: nm = "empty the smaller function"; { G t( nullptr ); g = t; } m[2] = FM{ }; break;
					case 15: {
						nm = "move construction"; F t( std::move( s[i] ) );
						FM const was = m[i];
						if( m[i].k == KAdd or m[i].k == KCount ) m[i].v = mc::MOVED;
						mc::FaultScope off( false, false );
						call_of( t, was, nm );
					} break;
					case 16: { nm = "move construction of the smaller function"; G t( std::move( g ) ); FM const was = m[2]; if( m[2].k == KAdd or m[2].k == KCount ) m[2].v = mc::MOVED; g = std::move( t ); m[2] = was; } break;
					}
				} );
				mc::note( "%s %u/%u value %d%s", nm, i, j, v, threw ? " (failed)" : "" );
				if( threw ) {
					if( left ) --left;
					// a failed operation may leave its target empty, and a source of a move moved from
					for( unsigned q = 0; q < 3; ++q ) {
						bool const e = q < 2 ? s[q].empty( ) : g.empty( );
						m[q] = before[q];
						if( e ) {
							bool const target = q == i or ( op == 3 and q == 1 - i ) or ( op >= 13 and op != 15 and q == 2 );
							MC_CHECK( target or before[q].k == None, "lost", "a failed %s empties function %u", nm, q );
							m[q] = FM{ };
						}
					}
				}
				for( unsigned q = 0; q < 3; ++q ) m[q] = q < 2 ? call_of( s[q], m[q], nm ) : call_of( g, m[q], nm );
				unsigned live = 0;
				for( auto &x : m ) { live += x.k == KAdd or x.k == KCount; if( x.n > 4 ) x.n = 99; }
				MC_CHECK( mc::tr::reg.n == live, "live", "after %s %u targets alive, expected %u", nm, mc::tr::reg.n, live );
				if( m[0].n == 99 or m[1].n == 99 ) break;
				mc::obs( m[0].h( ) * 31 + m[1].h( ) );
			}
			mc::set_fault_budget( 0 );
		} );
	}
	struct Tok { // every copy and move is visible
		int copies = 0, moves = 0;
		Tok( ) = default;
		Tok( Tok const &o ) : copies( o.copies + 1 ), moves( o.moves ) {}
		Tok( Tok &&o ) noexcept : copies( o.copies ), moves( o.moves + 1 ) {}
	};
	template<typename W>
	void arguments( char const *nm ) { // arguments reach the target as given
		int hit = 0;
		Tok t;
		auto const by_ref = [&]( Tok &x ) { ++hit; return &x; };
		auto const by_cref = [&]( Tok const &x ) { ++hit; return &x; };
		auto const by_rref = [&]( Tok &&x ) { ++hit; return &x; };
		auto const by_val = [&]( Tok x ) { ++hit; return x.copies; };
		auto const owner = [&]( std::unique_ptr<int> p ) { ++hit; return *p; };
		typename W::template of<Tok *( Tok & )> f1 = by_ref;
		typename W::template of<Tok const *( Tok const & )> f2 = by_cref;
		typename W::template of<Tok *( Tok && )> f3 = by_rref;
		typename W::template of<int( Tok )> f4 = by_val;
		typename W::template of<int( std::unique_ptr<int> )> f5 = owner;
		typename W::template of<void( Tok & )> f6 = by_ref;
		MC_CHECK( f1( t ) == &t and f2( t ) == &t and f3( std::move( t ) ) == &t, "argument-identity", "%s: a reference argument is not the object passed", nm );
		MC_CHECK( f4( Tok{ } ) == 0, "argument-copied", "%s: an rvalue argument is copied", nm );
		MC_CHECK( f5( std::make_unique<int>( 9 ) ) == 9, "argument-moved", "%s: a move only argument is lost", nm );
		f6( t );
		MC_CHECK( hit == 6, "argument-calls", "%s: %d calls, expected 6", nm, hit );
		mc::count_case( 6 );
	}
	struct WStack { template<typename S> using of = daw::function<64, S>; };
	struct WRef { template<typename S> using of = daw::function_ref<S>; };
	struct WView { template<typename S> using of = daw::function_view<S>; };
	struct WShared {
		template<typename S> struct of : daw::shared_function<S> {
			template<typename F> of( F const &f ) : daw::shared_function<S>( F( f ) ) {}
		};
	};

	// ---- non-owning references ------------------------------------------------------------
	struct Target { int v; int operator( )( int x ) const { return v * 100 + x; } };
	struct Target2 { int v; long pad[4] = { }; int operator( )( int x ) const { return v * 1000 + x; } };
	struct Stateless { int operator( )( int x ) const { return 50 + x; } };
	int fn1( int x ) { return 9000 + x; }
	int fn2( int x ) { return -x; }
	template<typename R>
	void refs( int depth ) {
		Target a{ 1 };
		Target2 b{ 2 };
		Stateless const st{ };
		auto const cap = [&a]( int x ) { return a.v + x * 7; };
		auto want = [&]( int t, int x ) {
			switch( t ) { case 0: return a( x ); case 1: return b( x ); case 2: return st( x ); case 3: return cap( x ); case 4: return fn1( x ); default: return fn2( x ); }
		};
		auto made = [&]( int t ) -> R {
			switch( t ) { case 0: return R( a ); case 1: return R( std::as_const( b ) ); case 2: return R( st ); case 3: return R( cap ); case 4: return R( fn1 ); default: return R( &fn2 ); }
		};
		std::optional<R> s[2] = { made( 0 ), made( 4 ) };
		int m[2] = { 0, 4 };
		for( int k = 0; k < depth; ++k ) {
			if( not mc::enter_state( mc::mix( std::uint64_t( m[0] * 10 + m[1] ), std::uint64_t( a.v * 100 + b.v ) ), unsigned( depth - k ) ) ) break;
			unsigned const op = mc::choose( 7 );
			unsigned const i = mc::choose( 2 );
			switch( op ) {
			case 0: m[i] = int( mc::choose( 6 ) ); s[i] = made( m[i] ); break;
			case 1: *s[i] = *s[1 - i]; m[i] = m[1 - i]; break;
			case 2: s[i].emplace( *s[1 - i] ); m[i] = m[1 - i]; break; // copy of a mutable one
			case 3: s[i].emplace( std::as_const( *s[1 - i] ) ); m[i] = m[1 - i]; break;
			case 4: { R t( std::move( *s[1 - i] ) ); *s[i] = t; m[i] = m[1 - i]; } break;
			case 5: a.v = 1 + ( a.v % 3 ); b.v = 1 + ( b.v % 2 ); break; // the targets change
			case 6: {
				m[i] = int( mc::choose( 6 ) );
				switch( m[i] ) { // assign a target directly
				case 0: *s[i] = a; break;
				case 1: *s[i] = b; break;
				case 2: *s[i] = st; break;
				case 3: *s[i] = cap; break;
				case 4: *s[i] = fn1; break;
				default: *s[i] = &fn2; break;
				}
			} break;
			}
			mc::note( "operation %u on %u", op, i );
			for( int q = 0; q < 2; ++q )
				for( int x = 0; x < 3; ++x ) MC_CHECK( ( *s[q] )( x ) == want( m[q], x ) and std::as_const( *s[q] )( x ) == want( m[q], x ), "view-call", "reference %d calls the wrong target: %d, expected %d", q, ( *s[q] )( x ), want( m[q], x ) );
		}
	}

	// ---- shared functions ----------------------------------------------------------------
	void shared( int depth, unsigned faults ) {
		using S = daw::shared_function<int( int & ) const>;
		using Wk = daw::weak_shared_function<int( int & ) const>;
		struct Own { TC t; int operator( )( int &c ) const { ++c; return t.get( ); } explicit Own( int v ) : t( v ) {} };
		mc::with_tracking( [&] {
			S s[2];
			std::optional<Wk> w[2];
			int m[2] = { -1, -1 }, mw[2] = { -1, -1 }; // id of target
			int val[64];
			int ids = 0;
			mc::set_fault_budget( faults );
			unsigned left = faults;
			auto strong = [&]( int id ) { return id >= 0 and ( m[0] == id or m[1] == id ); };
			for( int k = 0; k < depth; ++k ) {
				std::uint64_t h = left;
				auto canon = [&]( int id ) { return id < 0 ? 0 : id == m[0] ? 1 : id == m[1] ? 2 : id == mw[0] ? 3 : 4; };
				for( int id : { m[0], m[1], mw[0], mw[1] } ) h = mc::mix( h, std::uint64_t( canon( id ) * 10 + ( id >= 0 and id < 1000 ? val[id] : 9 ) ) );
				h = mc::mix( h, std::uint64_t( w[0].has_value( ) * 2 + w[1].has_value( ) ) );
				if( not mc::enter_state( h, unsigned( depth - k ) ) ) break;
				unsigned const op = mc::choose( 12 );
				unsigned const i = mc::choose( 2 );
				unsigned const j = op < 2 or ( op >= 7 and op < 9 ) ? mc::choose( 2 ) : i;
				char const *nm = "";
				int const m0[2] = { m[0], m[1] }, mw0[2] = { mw[0], mw[1] };
				bool const threw = attempt( [&] {
					switch( op ) {
					case 0: nm = "copy assignment"; s[i] = std::as_const( s[j] ); m[i] = m[j]; break;
					case 1: nm = "move assignment"; s[i] = std::move( s[j] ); if( i != j ) { m[i] = m[j]; m[j] = -1; } break;
					case 2: { nm = "copy construction"; S t( s[i] ); S u( std::as_const( t ) ); s[1 - i] = u; m[1 - i] = m[i]; } break;
					case 3: { nm = "move construction"; S t( std::move( s[i] ) ); MC_CHECK( not s[i] and static_cast<bool>( t ) == ( m[i] >= 0 ), "shared-moved", "move construction" ); std::swap( s[i], t ); } break;
					case 4: case 5: { nm = "new target"; int const v = int( op ) - 3; S t( Own{ v } ); s[i] = t; val[ids] = v; m[i] = ids++; } break;
					case 6: nm = "reset"; if( mc::choose( 2 ) ) s[i] = nullptr; else s[i] = S( ); m[i] = -1; break;
					case 7: nm = "get_weak"; w[i] = s[j].get_weak( ); mw[i] = m[j]; break;
					case 8: nm = "copy weak"; if( not w[j] ) { w[i].reset( ); mw[i] = -1; } else if( mc::choose( 2 ) and w[i] ) { *w[i] = *w[j]; mw[i] = mw[j]; } else { w[i] = std::optional<Wk>( *w[j] ); mw[i] = mw[j]; } break;
					case 9: nm = "move weak"; if( w[i] ) { if( mc::choose( 2 ) and w[1 - i] ) *w[1 - i] = std::move( *w[i] ); else { Wk t( std::move( *w[i] ) ); w[1 - i] = std::move( t ); } mw[1 - i] = mw[i]; mw[i] = -1; } break;
					case 10: nm = "lock"; if( w[i] ) { bool const alive = strong( mw[i] ); S t = w[i]->lock( ); MC_CHECK( static_cast<bool>( t ) == alive, "lock", "lock() of a %s target is %s", alive ? "live" : "dead", t ? "set" : "empty" ); unsigned const to = mc::choose( 2 ); s[to] = std::move( t ); m[to] = alive ? mw[i] : -1; } break;
					case 11: nm = "drop weak"; w[i].reset( ); mw[i] = -1; break;
					}
				} );
				mc::note( "%s %u/%u%s", nm, i, j, threw ? " (failed)" : "" );
				if( threw ) { if( left ) --left; for( int q = 0; q < 2; ++q ) { m[q] = m0[q]; mw[q] = mw0[q]; } }
				unsigned live = ( m[0] >= 0 ) + ( m[1] >= 0 and m[1] != m[0] );
				MC_CHECK( mc::tr::reg.n == live, "shared-live", "after %s %u targets alive, expected %u", nm, mc::tr::reg.n, live );
				for( int q = 0; q < 2; ++q ) {
					MC_CHECK( static_cast<bool>( s[q] ) == ( m[q] >= 0 ), "shared-empty", "after %s function %d", nm, q );
					int c = 0;
					if( m[q] >= 0 ) MC_CHECK( std::as_const( s[q] )( c ) == val[m[q]] and s[q]( c ) == val[m[q]] and c == 2, "shared-call", "after %s the wrong target is called", nm );
				}
			}
			mc::set_fault_budget( 0 );
			if( not s[0] and mc::choose( 2 ) == 0 ) {
				int c = 0;
				MC_CHECK( mc::aborts( [&] { (void)s[0]( c ); } ), "shared-empty-call", "calling an empty shared function does not terminate" );
			}
		} );
	}
	struct Quals { // which overload ran
		int operator( )( int x ) & { return 100 + x; }
		int operator( )( int x ) const & { return 200 + x; }
		int operator( )( int x ) && { return 300 + x; }
		int operator( )( int x ) const && { return 400 + x; }
	};
	void shared_signatures( ) {
		auto four = [&]<typename Sg, bool NE>( int want, auto how ) {
			daw::shared_function<Sg> f( Quals{ } );
			auto wk = f.get_weak( );
			MC_CHECK( how( f, 5 ) == want + 5, "signature", "got %d, expected %d", how( f, 5 ), want + 5 );
			auto g = wk.lock( );
			MC_CHECK( how( g, 6 ) == want + 6, "signature-lock", "locked copy calls another overload" );
			f = nullptr; g = nullptr;
			MC_CHECK( not wk.lock( ), "signature-weak", "lock() after the last owner went" );
			mc::count_case( );
		};
		auto lv = []( auto &f, int x ) { return f( x ); };
		auto cl = []( auto &f, int x ) { return std::as_const( f )( x ); };
		auto rv = []( auto &f, int x ) { return std::move( f )( x ); };
		auto cr = []( auto &f, int x ) { return std::move( std::as_const( f ) )( x ); };
		four.operator( )<int( int ), false>( 100, lv );
		four.operator( )<int( int ) const, false>( 200, lv );
		four.operator( )<int( int ) const, false>( 200, cl );
		four.operator( )<int( int ) &, false>( 100, lv );
		four.operator( )<int( int ) const &, false>( 200, lv );
		four.operator( )<int( int ) const &, false>( 200, cl );
		four.operator( )<int( int ) &&, false>( 300, rv );
		four.operator( )<int( int ) const &&, false>( 400, rv );
		four.operator( )<int( int ) const &&, false>( 400, cr );
		four.operator( )<int( int ) noexcept, false>( 100, lv );
		four.operator( )<int( int ) const noexcept, false>( 200, cl );
		four.operator( )<int( int ) & noexcept, false>( 100, lv );
		four.operator( )<int( int ) const & noexcept, false>( 200, cl );
		four.operator( )<int( int ) && noexcept, false>( 300, rv );
		four.operator( )<int( int ) const && noexcept, false>( 400, cr );
		int ( *none )( int ) = nullptr;
		daw::shared_function<int( int )> e( none ), d( nullptr ), z, p( fn1 ), q( &fn2 );
		MC_CHECK( not e and not d and not z and p and q and p( 3 ) == 9003 and q( 3 ) == -3, "shared-pointers", "function pointers" );
	}

	// ---- tables ------------------------------------------------------------------------------
	void tables( ) {
		int log[8], n = 0;
		auto f0 = [&]( int x ) { log[n++] = 0; return x; };
		auto f1 = [&]( int x ) { log[n++] = 1; return x * 2; };
		auto f2 = [&]( int x ) { log[n++] = 2; return x * 3; };
		auto f3 = [&] { log[n++] = 3; return -1; };
		auto const t = daw::make_function_table<int>( f0, f1, f2 );
		auto const u = daw::make_function_table<int>( f0, f1, f2, f3 );
		auto v = daw::make_function_table<int>( fn1, fn2, fn1 );
		static_assert( t.size( ) == 3 and u.size( ) == 4 and v.size( ) == 3 );
		for( std::size_t i = 0; i < 4; ++i )
			for( int x = -2; x <= 2; ++x ) {
				int const want = i < 3 ? x * int( i + 1 ) : -1;
				for( int way = 0; way < 4; ++way ) {
					bool const plain = way < 2;
					if( plain and i == 3 ) continue;
					n = 0;
					int const got = way == 0 ? t( i, x ) : way == 1 ? u.call( i, x ) : way == 2 ? u.call<true>( i, x ) : u.operator( )<true>( i, x );
					MC_CHECK( got == want and n == 1 and log[0] == int( i ), "table", "entry %zu of argument %d gives %d, expected %d (%d calls)", i, x, got, want, n );
					mc::count_case( );
				}
			}
		MC_CHECK( mc::aborts( [&] { (void)u.call( 3, 1 ); } ), "table-uncallable", "an entry that cannot take the argument does not terminate" );
		MC_CHECK( mc::aborts( [&] { (void)u.call( 4, 1 ); } ), "table-range", "an entry that does not exist does not terminate" );
		for( std::size_t i = 0; i < 3; ++i ) {
			auto w = v;
			w.set( i, &fn2 );
			for( std::size_t j = 0; j < 3; ++j ) MC_CHECK( w( j, 4 ) == ( j == i or j == 1 ? fn2( 4 ) : fn1( 4 ) ), "table-set", "entry %zu after setting %zu", j, i );
			mc::count_case( );
		}
		daw::function_table_t<int, std::function<int( int )>, int ( * )( int )> w( fn1, fn2 );
		w.set( 0, []( int x ) { return x + 1000; } );
		MC_CHECK( w( 0, 1 ) == 1001 and w( 1, 1 ) == -1, "table-set", "mixed table" );
		w.set( 1, fn1 );
		MC_CHECK( w( 0, 1 ) == 1001 and w( 1, 1 ) == 9001, "table-set", "mixed table, second" );
	}

	// ---- small buffer ------------------------------------------------------------------------
	template<typename T>
	struct Big { T t; long pad[6]; explicit Big( int v ) : t( v ), pad{ v, v, v, v, v, v } {} };
	template<typename T>
	struct alignas( 64 ) Wide { T t; explicit Wide( int v ) : t( v ) {} };
	template<typename T>
	void sbo( int depth, unsigned faults ) {
		mc::with_tracking( [&] {
			daw::sbo_storage<8, 8> s{ };
			int kind = 0, value = 0;
			mc::set_fault_budget( faults );
			unsigned left = faults;
			for( int k = 0; k < depth; ++k ) {
				if( not mc::enter_state( mc::mix( std::uint64_t( kind * 10 + value ), left ), unsigned( depth - k ) ) ) break;
				auto drop = [&] {
					switch( kind ) { case 1: s.deallocate<T>( ); break; case 2: s.deallocate<Big<T>>( ); break; case 3: s.deallocate<Wide<T>>( ); break; }
					kind = 0;
				};
				drop( );
				MC_CHECK( mc::tr::reg.n == 0 and s.engaged == decltype( s )::engaged_types::none, "sbo-left", "something is left after deallocate" );
				int const nk = mc::choose_range( 0, 3 ), v = mc::choose_range( 1, 2 );
				bool const threw = attempt( [&] {
					void *p = nullptr;
					switch( nk ) { case 1: p = s.allocate( T( v ) ); break; case 2: p = s.allocate( Big<T>( v ) ); break; case 3: p = s.allocate( Wide<T>( v ) ); break; }
					kind = nk; value = v;
					MC_CHECK( kind != 3 or reinterpret_cast<std::uintptr_t>( p ) % 64 == 0, "sbo-align", "an over-aligned value is not aligned" );
				} );
				if( threw ) { if( left ) --left; kind = 0; }
				auto const &c = s;
				switch( kind ) {
				case 1: MC_CHECK( s.get<T>( )->get( ) == v and c.get<T>( )->get( ) == v, "sbo-value", "small value" ); break;
				case 2: MC_CHECK( s.get<Big<T>>( )->t.get( ) == v and c.get<Big<T>>( )->pad[5] == v, "sbo-value", "big value" ); break;
				case 3: MC_CHECK( s.get<Wide<T>>( )->t.get( ) == v and c.get<Wide<T>>( )->t.get( ) == v, "sbo-value", "aligned value" ); break;
				}
				MC_CHECK( mc::tr::reg.n == unsigned( kind != 0 ), "sbo-live", "%u values alive", mc::tr::reg.n );
				if( k + 1 == depth ) drop( );
			}
			switch( kind ) { case 1: s.deallocate<T>( ); break; case 2: s.deallocate<Big<T>>( ); break; case 3: s.deallocate<Wide<T>>( ); break; }
			mc::set_fault_budget( 0 );
		} );
	}
	void predicates( ) { // the existing tests pin any_if to "every predicate holds"
		int n = 0;
		for( int a = 0; a < 2; ++a )
			for( int b = 0; b < 2; ++b )
				for( int c = 0; c < 2; ++c ) {
					n = 0;
					auto f = [&]( bool v ) { return [&n, v] { ++n; return v; }; };
					bool const got = daw::any_if( f( a ), f( b ), f( c ) );
					MC_CHECK( got == ( a and b and c ), "predicates", "any_if( %d, %d, %d ) is %d", a, b, c, int( got ) );
					MC_CHECK( n == ( not a ? 1 : not b ? 2 : 3 ), "predicates-lazy", "%d predicates evaluated for %d %d %d", n, a, b, c );
					n = 0;
					bool const mixed = daw::any_if( bool( a ), f( b ), bool( c ) );
					MC_CHECK( mixed == ( a and b and c ) and n == a, "predicates-mixed", "mixed any_if( %d, %d, %d ) is %d", a, b, c, int( mixed ) );
					mc::count_case( 2 );
				}
		int k = 0;
		auto g = daw::make_callable( fn1 );
		auto &&h2 = daw::make_callable( [&]( int x ) { ++k; return x + 1; } );
		(void)h2;
		MC_CHECK( g( 4 ) == 9004, "make-callable", "function" );
		using FI = daw::function_info<Target>;
		static_assert( FI::arity == 1 and std::is_same_v<FI::result_type, int> and std::is_same_v<FI::arg<0>::type, int> );
	}
} // namespace

MC_TEST( stack_function ) { owning<TM>( mc::by_tier( 5, 6 ), 1 ); }
MC_TEST( stack_function_throwing ) { owning<TC>( mc::by_tier( 4, 6 ), 2 ); }
MC_TEST( arguments ) { arguments<WStack>( "function" ); arguments<WRef>( "function_ref" ); arguments<WView>( "function_view" ); arguments<WShared>( "shared_function" ); }
MC_TEST( function_ref ) { refs<daw::function_ref<int( int )>>( mc::by_tier( 6, 10 ) ); }
MC_TEST( function_view ) { refs<daw::function_view<int( int )>>( mc::by_tier( 6, 10 ) ); }
MC_TEST( shared_function ) { shared( mc::by_tier( 6, 8 ), 1 ); }
MC_TEST( shared_signatures ) { shared_signatures( ); }
MC_TEST( tables ) { tables( ); }
MC_TEST( sbo ) { sbo<TM>( mc::by_tier( 6, 9 ), 2 ); }
MC_TEST( sbo_throwing ) { sbo<TC>( mc::by_tier( 6, 9 ), 2 ); }
MC_TEST( predicates ) { predicates( ); }
