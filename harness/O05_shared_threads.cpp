// shared_function across threads: every interleaving of small programs that copy,
// drop, lock and call; the target is destroyed exactly once, after the last call,
// and never reachable through lock() afterwards.
// MC-RT: conc
#include "mc_conc.h"
#include <daw/daw_shared_function.h>
#include <optional>
#include <utility>

using namespace mc::conc;
namespace {
	struct Life {
		int dead = 0;   // plain: every access must be ordered
		int calls = 0;
	};
	struct Target {
		Life *l;
		explicit Target( Life *p ) : l( p ) {}
		Target( Target &&o ) noexcept : l( std::exchange( o.l, nullptr ) ) {}
		~Target( ) { if( l ) ++l->dead; }
		int operator( )( int x ) const { MC_CHECK( l->dead == 0, "call-dead", "a destroyed target is called" ); return x + 1; }
	};
	using S = daw::shared_function<int( int ) const>;
	using W = daw::weak_shared_function<int( int ) const>;

	// what a thread does with what it was given
	enum Prog { Drop, CallDrop, CopyDrop, LockCall, LockKeep, WeakDrop, MakeWeakLock, NProg, OnlyStrong = NProg, OnlyWeak, NProgAll };
	void thread_body( int p, std::optional<S> &s, std::optional<W> &w, bool &locked ) {
		switch( p ) {
		case Drop: w.reset( ); s.reset( ); break;
		case CallDrop: MC_CHECK( ( *s )( 3 ) == 4, "result", "wrong result" ); s.reset( ); w.reset( ); break;
		case CopyDrop: { S t( *s ); s.reset( ); MC_CHECK( t( 4 ) == 5, "result", "wrong result" ); w.reset( ); } break;
		case LockCall: { s.reset( ); S t = w->lock( ); locked = static_cast<bool>( t ); if( t ) MC_CHECK( t( 1 ) == 2, "result", "wrong result" ); w.reset( ); } break;
		case LockKeep: { S t = w->lock( ); w.reset( ); s.reset( ); locked = static_cast<bool>( t ); MC_CHECK( locked, "lock-alive", "lock() fails while this thread owns the target" ); MC_CHECK( t( 1 ) == 2, "result", "wrong result" ); } break;
		case WeakDrop: s.reset( ); { W t( *w ); w.reset( ); S u = t.lock( ); locked = static_cast<bool>( u ); } break;
		case OnlyStrong: s.reset( ); break;
		case OnlyWeak: { S t = w->lock( ); locked = static_cast<bool>( t ); if( t ) MC_CHECK( t( 1 ) == 2, "result", "wrong result" ); w.reset( ); } break;
		case MakeWeakLock: { W t = s->get_weak( ); w.reset( ); s.reset( ); S u = t.lock( ); locked = static_cast<bool>( u ); if( u ) MC_CHECK( u( 1 ) == 2, "result", "wrong result" ); } break;
		}
	}
	void programs( unsigned n, int preemptions ) {
		int p[3];
		for( unsigned i = 0; i < n; ++i ) p[i] = int( mc::choose( NProg ) );
		for( unsigned i = 1; i < n; ++i ) if( p[i] < p[i - 1] ) return; // symmetric
		bool const keep = mc::choose( 2 ) != 0; // another owner outlives the threads
		auto *life = new Life;
		{
			std::optional<S> s[3];
			std::optional<W> w[3];
			bool locked[3] = { };
			std::optional<S> base( std::in_place, Target( life ) );
			for( unsigned i = 0; i < n; ++i ) { s[i] = *base; w[i] = base->get_weak( ); }
			std::optional<W> wb( base->get_weak( ) );
			if( not keep ) base.reset( );
			std::vector<std::function<void( )>> bodies;
			for( unsigned i = 0; i < n; ++i ) bodies.push_back( [&, i] { thread_body( p[i], s[i], w[i], locked[i] ); } );
			run( preemptions, bodies );
			if( keep ) {
				MC_CHECK( life->dead == 0, "early", "the target is destroyed while an owner remains" );
				for( unsigned i = 0; i < n; ++i ) MC_CHECK( locked[i] or p[i] < LockCall, "lock-alive", "lock() fails while an owner remains" );
				MC_CHECK( static_cast<bool>( wb->lock( ) ), "lock-alive", "lock() fails while an owner remains" );
				base.reset( );
			}
			MC_CHECK( life->dead == 1, "destroyed", "the target is destroyed %d times", life->dead );
			MC_CHECK( not wb->lock( ), "lock-dead", "lock() succeeds after the last owner went" );
		}
		delete life;
		mc::count_case( );
	}
	// nothing outlives the threads: one of them also frees the shared storage
	void to_the_end( unsigned n, int preemptions ) {
		int p[3];
		for( unsigned i = 0; i < n; ++i ) p[i] = int( mc::choose( NProgAll ) );
		for( unsigned i = 1; i < n; ++i ) if( p[i] < p[i - 1] ) return; // symmetric
		auto *life = new Life;
		{
			std::optional<S> s[3];
			std::optional<W> w[3];
			bool locked[3] = { };
			std::optional<S> base( std::in_place, Target( life ) );
			for( unsigned i = 0; i < n; ++i ) {
				if( p[i] != OnlyWeak ) s[i] = *base;
				if( p[i] != OnlyStrong ) w[i] = base->get_weak( );
			}
			base.reset( );
			std::vector<std::function<void( )>> bodies;
			for( unsigned i = 0; i < n; ++i ) bodies.push_back( [&, i] { thread_body( p[i], s[i], w[i], locked[i] ); } );
			run( preemptions, bodies );
			MC_CHECK( life->dead == 1, "destroyed", "the target is destroyed %d times", life->dead );
		}
		delete life;
		mc::count_case( );
	}
	// many owners: the counts neither wrap nor saturate
	void many( ) {
		unsigned const counts[] = { 100, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537 };
		unsigned const n = counts[mc::choose( 12 )];
		bool const weak_too = mc::choose( 2 );
		bool const chain = mc::choose( 2 );
		auto *life = new Life;
		{
			std::optional<S> first( std::in_place, Target( life ) );
			std::optional<W> look( first->get_weak( ) );
			std::vector<S> v;
			std::vector<W> w;
			v.reserve( n );
			w.reserve( n );
			for( unsigned i = 1; i < n; ++i ) {
				v.push_back( chain and i > 1 ? v.back( ) : *first );
				if( weak_too ) w.push_back( chain and i > 1 ? w.back( ) : *look );
			}
			first.reset( );
			if( weak_too and not chain ) w.clear( );
			while( v.size( ) > 1 ) {
				v.pop_back( );
				MC_CHECK( life->dead == 0, "many-early", "the target is destroyed while %zu of %u own it", v.size( ), n );
			}
			MC_CHECK( v[0]( 1 ) == 2 and static_cast<bool>( look->lock( ) ), "many-call", "the last owner of %u", n );
			v.clear( );
			MC_CHECK( life->dead == 1, "many-destroyed", "the target is destroyed %d times after %u owners", life->dead, n );
			while( not w.empty( ) ) {
				w.pop_back( );
			}
			MC_CHECK( not look->lock( ), "many-lock", "lock() succeeds after the last of %u owners went", n );
		}
		delete life;
		mc::count_case( );
	}
} // namespace

MC_TEST( many_owners ) { many( ); }
MC_TEST( two_threads ) { programs( 2, mc::by_tier( 7, 12 ) ); }
MC_TEST( two_to_the_end ) { to_the_end( 2, mc::by_tier( 7, 12 ) ); }
MC_TEST( three_to_the_end ) { to_the_end( 3, mc::by_tier( 2, 3 ) ); }
MC_TEST( three_threads ) { programs( 3, mc::by_tier( 2, 3 ) ); }
