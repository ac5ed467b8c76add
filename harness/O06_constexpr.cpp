// Scope guards inside constant expressions: every program of two nested guards of
// either kind, with every use of each, evaluated by the compiler.
#include "mc.h"
#include <array>
#include <daw/daw_scope_guard.h>

namespace {
	enum Use { Nothing, Cancel, Dismiss, RunNow, Move, AssignOver, NUses };
	struct Act {
		int *p, d;
		constexpr void operator( )( ) const { *p = *p * 10 + d; }
	};
	constexpr void guard( int use, Act a ) {
		daw::ScopeGuard<Act> g( a );
		switch( use ) {
		case Cancel: g.cancel( ); break;
		case Dismiss: g.dismiss( ); break;
		case RunNow: g.run_now( ); break;
		case Move: { daw::ScopeGuard<Act> h( std::move( g ) ); *a.p = *a.p * 10 + 8; break; }
		case AssignOver: { daw::ScopeGuard<Act> h( Act{ a.p, 9 } ); g = std::move( h ); *a.p = *a.p * 10 + 8; break; }
		default: break;
		}
		*a.p = *a.p * 10 + 7;
	}
	// digits in the order the actions ran
	constexpr int program( int outer, int use, bool ret ) {
		int log = 0;
		[&] {
			if( outer == 0 ) {
				daw::on_exit_success const g( Act{ &log, 1 } );
				guard( use, Act{ &log, 2 } );
				if( ret ) return;
				log = log * 10 + 3;
			} else {
				auto const g = daw::on_scope_exit( Act{ &log, 1 } );
				guard( use, Act{ &log, 2 } );
				if( ret ) return;
				log = log * 10 + 3;
			}
		}( );
		return log;
	}
	constexpr auto got = [] {
		std::array<std::array<std::array<int, 2>, NUses>, 2> r{ };
		for( int o = 0; o < 2; ++o )
			for( int u = 0; u < NUses; ++u )
				for( int e = 0; e < 2; ++e ) r[std::size_t( o )][std::size_t( u )][std::size_t( e )] = program( o, u, e == 1 );
		return r;
	}( );
} // namespace
MC_TEST( constant_guards ) {
	int const o = mc::choose( 2 ), u = mc::choose( NUses ), e = mc::choose( 2 );
	// Move: moved-to guard runs at the end of its block (8 then 2), then 7
	// AssignOver: g runs its action (2) and takes over 9; 8; 7; then 9 at the end
	int want = 0;
	switch( u ) {
	case Nothing: want = 72; break;
	case Cancel:
	case Dismiss: want = 7; break;
	case RunNow: want = 27; break;
	case Move: want = 827; break;
	case AssignOver: want = 2879; break;
	}
	if( not e ) want = want * 10 + 3;
	want = want * 10 + 1;
	int const g = got[std::size_t( o )][std::size_t( u )][std::size_t( e )];
	MC_CHECK( g == want, "constant-guards", "outer guard %d, inner use %d, %s: actions ran as %d, expected %d", o, u, e ? "return" : "end", g, want );
	MC_CHECK( program( o, u, e ) == want, "run-time-guards", "outer guard %d, inner use %d", o, u );
}
