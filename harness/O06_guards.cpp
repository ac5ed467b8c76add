// Scope guards: every program of nested scopes up to a depth, each with up to two
// guards that are used in every way, left normally, by return or by exception, run
// directly or from a destructor while another exception is already unwinding.
#include "mc.h"
#include <exception>
#include <optional>
#include <utility>
#include <vector>

#include <daw/daw_scope_guard.h>

namespace {
	struct Exit { int level; };
	struct World {
		int ran[64] = { };
		int want[64] = { };
		int n = 0;
		int id( ) { return n++; }
	} *w;
	struct Act { // assignable, so that guards can be move assigned
		int id;
		void operator( )( ) const { ++w->ran[id]; }
	};
	struct ActN : Act { // promises not to throw
		ActN( int i ) : Act{ i } {}
		void operator( )( ) const noexcept { ++w->ran[id]; }
	};
	template<typename F>
	struct AtExit { F f; ~AtExit( ) noexcept( false ) { f( ); } };
	template<typename F> AtExit( F ) -> AtExit<F>;

	void verify( int from, char const *when ) {
		for( int i = from; i < w->n; ++i ) MC_CHECK( w->ran[i] == w->want[i], "runs", "%s: the action of guard %d ran %d times, expected %d", when, i, w->ran[i], w->want[i] );
	}
	// one scope; leaves normally or throws Exit
	template<typename A>
	void scope( int depth ) {
		int const first = w->n;
		unsigned const kind = mc::choose( 10 );
		unsigned const leave = mc::choose( 3 ); // 0 fall off the end, 1 return, 2 throw
		unsigned const inside = depth ? mc::choose( 3 ) : 0; // nothing, nested scope, nested scope in a destructor during unwinding
		auto nested = [&] {
			int const before = w->n;
			if( inside == 1 ) {
				try { scope<A>( depth - 1 ); } catch( Exit const & ) {}
			} else if( inside == 2 ) {
				try {
					AtExit d{ [&] {
						int const b2 = w->n;
						try { scope<A>( depth - 1 ); } catch( Exit const & ) {}
						verify( b2, "scope inside unwinding" );
					} };
					throw Exit{ depth };
				} catch( Exit const & ) {}
			}
			verify( before, "nested scope" );
			for( int i = first; i < before; ++i ) MC_CHECK( w->ran[i] <= w->want[i] or w->want[i] < 0, "early", "guard %d ran in a nested scope", i );
		};
		bool const normal = leave != 2;
		// `want` of a guard that is still pending is 0 until the scope is about to be left
		auto go = [&]( std::initializer_list<std::pair<int, bool>> pending ) { // (id, on success only)
			nested( );
			verify( first, "before leaving" );
			for( auto [id, s] : pending ) w->want[id] += not s or normal;
			mc::note( "scope of depth %d: guard use %u, inside %u, left %s", depth, kind, inside, leave == 0 ? "normally" : leave == 1 ? "by return" : "by exception" );
			if( leave == 2 ) throw Exit{ depth };
		};
		switch( kind ) {
		case 0: {
			int const a = w->id( ), b = w->id( );
			auto g = daw::on_scope_exit( A{ a } );
			auto h = daw::on_scope_exit( A{ b } );
			go( { { a, false }, { b, false } } );
			if( leave == 1 ) return;
		} break;
		case 1: {
			int const a = w->id( ), b = w->id( );
			daw::on_exit_success g( A{ a } );
			auto h = daw::on_scope_exit( A{ b } );
			go( { { a, true }, { b, false } } );
			if( leave == 1 ) return;
		} break;
		case 2: {
			int const a = w->id( ), b = w->id( );
			A const act{ a };
			daw::on_exit_success<A> g( act );
			daw::on_exit_success h( [b] { ++w->ran[b]; } );
			go( { { a, true }, { b, true } } );
			if( leave == 1 ) return;
		} break;
		case 3: { // dismissed, cancelled
			int const a = w->id( ), b = w->id( );
			auto g = daw::on_scope_exit( A{ a } );
			auto h = daw::on_scope_exit( [b] { ++w->ran[b]; } );
			if( mc::choose( 2 ) ) g.dismiss( ); else { g.cancel( ); g.cancel( ); }
			go( { { b, false } } );
			if( leave == 1 ) return;
		} break;
		case 4: { // run early
			int const a = w->id( );
			A const act{ a };
			daw::ScopeGuard<A> g( act );
			g.run_now( );
			w->want[a] = 1;
			go( { } );
			if( leave == 1 ) return;
		} break;
		case 5: { // duty moves on
			int const a = w->id( );
			auto g = daw::on_scope_exit( A{ a } );
			{
				auto h = std::move( g );
				verify( first, "moved" );
				if( mc::choose( 2 ) ) { auto k = std::move( h ); w->want[a] = 1; }
				else { g = std::move( h ); }
			}
			verify( first, "moved" );
			if( w->want[a] ) go( { } ); else go( { { a, false } } );
			if( leave == 1 ) return;
		} break;
		case 6: { // move assignment takes over after the old duty is done
			int const a = w->id( ), b = w->id( );
			auto g = daw::on_scope_exit( A{ a } );
			{
				auto h = daw::on_scope_exit( A{ b } );
				unsigned const how = mc::choose( 3 );
				if( how == 1 ) g.cancel( );
				if( how == 2 ) h.cancel( );
				g = std::move( h );
				if( how != 1 ) w->want[a] = 1; // the action g was responsible for
				verify( first, "move assignment" );
				if( how == 2 ) w->want[b] = -1000;
			}
			if( w->want[b] < 0 ) { w->want[b] = 0; go( { } ); } else go( { { b, false } } );
			if( leave == 1 ) return;
		} break;
		case 7: { // self move, moved from, reuse
			int const a = w->id( );
			auto g = daw::on_scope_exit( A{ a } );
			auto &r = g;
			g = std::move( r );
			verify( first, "self move" );
			go( { { a, false } } );
			if( leave == 1 ) return;
		} break;
		case 8: { // guards kept in a container, which moves them
			int const a = w->id( ), b = w->id( ), c = w->id( );
			std::vector<daw::ScopeGuard<A>> v;
			int const ids[3] = { a, b, c };
			for( int i : ids ) { v.push_back( daw::on_scope_exit( A{ i } ) ); verify( first, "container growth" ); }
			unsigned const drop = mc::choose( 4 );
			if( drop < 3 ) { v[drop].dismiss( ); go( { { ids[( drop + 1 ) % 3], false }, { ids[( drop + 2 ) % 3], false } } ); }
			else go( { { a, false }, { b, false }, { c, false } } );
			if( leave == 1 ) return;
		} break;
		case 9: { // optional guard reset early
			int const a = w->id( ), b = w->id( );
			std::optional<daw::on_exit_success<A>> g( std::in_place, A{ a } );
			std::optional<daw::ScopeGuard<A>> h( daw::on_scope_exit( A{ b } ) );
			g.reset( );
			h.reset( );
			w->want[a] = w->want[b] = 1;
			go( { } );
			if( leave == 1 ) return;
		} break;
		}
	}
	template<typename A>
	void programs( int depth ) {
		World world;
		w = &world;
		try { scope<A>( depth ); } catch( Exit const & ) {}
		verify( 0, "end" );
		MC_CHECK( std::uncaught_exceptions( ) == 0, "uncaught", "exceptions left" );
		mc::count_case( );
	}
	template<typename G>
	void moved_success( ) { // a success guard may be movable only if the moved from one no longer acts
		static_assert( not std::is_copy_assignable_v<daw::ScopeGuard<Act>> );
		if constexpr( std::is_move_constructible_v<G> ) {
			World world;
			w = &world;
			(void)w->id( );
			{ G g( Act{ 0 } ); auto h = std::move( g ); }
			MC_CHECK( world.ran[0] == 1, "success-moved", "the action of a moved guard ran %d times", world.ran[0] );
		}
	}
	struct Boom { };
	void throwing_actions( ) { // an action that throws has run, and only once
		int n = 0;
		for( int way = 0; way < 4; ++way ) {
			n = 0;
			bool got = false;
			try {
				auto act = [&] { ++n; throw Boom{ }; };
				if( way == 3 ) { daw::on_exit_success g( act ); }
				else {
					auto g = daw::on_scope_exit( act );
					if( way == 1 ) { try { g.run_now( ); } catch( Boom const & ) { got = true; } }
					if( way == 2 ) g.run_now( );
				}
			} catch( Boom const & ) { got = true; }
			MC_CHECK( n == 1 and got, "throwing-action", "way %d: a throwing action ran %d times, exception %s", way, n, got ? "seen" : "lost" );
			mc::count_case( );
		}
		moved_success<daw::on_exit_success<Act>>( );
		// constant evaluation
		constexpr int c = [] {
			int k = 0;
			{ auto g = daw::on_scope_exit( [&] { k += 1; } ); auto h = std::move( g ); auto d = daw::on_scope_exit( [&] { k += 10; } ); d.dismiss( ); }
			{ daw::on_exit_success g( [&] { k += 100; } ); }
			return k;
		}( );
		MC_CHECK( c == 101, "constant", "guards in a constant expression give %d", c );
	}
} // namespace

MC_TEST( programs ) { programs<Act>( mc::by_tier( 2, 3 ) ); }
MC_TEST( programs_noexcept ) { programs<ActN>( mc::by_tier( 2, 3 ) ); }
MC_TEST( throwing_actions ) { throwing_actions( ); }
