// Element type whose every construction, assignment and destruction is
// monitored, and which can throw at any of them (inside a FaultScope).
#pragma once
#include "mc.h"
#include <compare>
#include <unordered_set>

namespace mc {
	namespace tr {
		constexpr unsigned BITS = 12;
		struct Reg {
			void const *p[1u << BITS];
			unsigned n = 0;
			static unsigned h( void const *q ) {
				return unsigned( ( reinterpret_cast<std::uintptr_t>( q ) * 0x9e3779b97f4a7c15ULL ) >> ( 64 - BITS ) );
			}
			bool has( void const *q ) const {
				for( unsigned i = h( q );; i = ( i + 1 ) & ( ( 1u << BITS ) - 1 ) ) {
					if( p[i] == q ) return true;
					if( not p[i] ) return false;
				}
			}
			bool add( void const *q ) {
				if( n > ( 1u << BITS ) / 2 ) return true;
				unsigned i = h( q );
				for( ;; i = ( i + 1 ) & ( ( 1u << BITS ) - 1 ) ) {
					if( p[i] == q ) return false;
					if( not p[i] ) break;
				}
				p[i] = q;
				++n;
				return true;
			}
			bool del( void const *q ) {
				constexpr unsigned mask = ( 1u << BITS ) - 1;
				unsigned i = h( q );
				for( ;; i = ( i + 1 ) & mask ) {
					if( p[i] == q ) break;
					if( not p[i] ) return false;
				}
				--n;
				unsigned j = i;
				for( ;; ) {
					p[i] = nullptr;
					for( ;; ) {
						j = ( j + 1 ) & mask;
						if( not p[j] ) return true;
						unsigned k = h( p[j] );
						if( i <= j ? ( i < k and k <= j ) : ( i < k or k <= j ) ) continue;
						break;
					}
					p[i] = p[j];
					i = j;
				}
			}
			void clear( ) {
				std::memset( static_cast<void *>( p ), 0, sizeof p );
				n = 0;
			}
		};
		inline Reg reg{ };
		inline unsigned long ctors = 0, copies = 0, moves = 0, dtors = 0;
		inline void born( void const *q, char const *how ) {
			++ctors;
			if( not reg.add( q ) ) fail_later( "double-construct", "element constructed (%s) over a live element", how );
		}
		inline void dead( void const *q ) {
			++dtors;
			if( not reg.del( q ) ) fail_later( "double-destroy", "destructor run on something that is not a live element" );
		}
		inline void use( void const *q, char const *how ) {
			if( not reg.has( q ) ) fail_later( "dead-use", "%s uses an element that is not alive", how );
		}
		inline void maybe_throw( char const *what ) {
			if( tracked_faults_on( ) and fault( ) ) {
				note( "  [%s throws]", what );
				throw InjectedFault{ };
			}
		}
		// every monitored object still alive is a leak
		inline void begin( ) {
			reg.clear( );
			ctors = copies = moves = dtors = 0;
		}
		inline void check_none( char const *when ) {
			if( reg.n ) fail( "element-leak", "%u element(s) never destroyed (%s)", reg.n, when );
		}
	} // namespace tr

	constexpr int MOVED = -77;

	enum : unsigned { NoThrowMove = 1, NoCopy = 2, NoDefault = 4, NoMoveFn = 8 };

	template<unsigned F = 0>
	struct Tracked {
		int v;
		Tracked( ) requires( not( F & NoDefault ) ) : v( 0 ) {
			tr::maybe_throw( "default construction" );
			tr::born( this, "default" );
		}
		Tracked( int x ) : v( x ) {
			tr::maybe_throw( "value construction" );
			tr::born( this, "value" );
		}
		Tracked( Tracked const &o ) requires( not( F & NoCopy ) ) : v( o.v ) {
			tr::use( &o, "copy construction" );
			tr::maybe_throw( "copy construction" );
			++tr::copies;
			tr::born( this, "copy" );
		}
		Tracked( Tracked &&o ) noexcept( ( F & NoThrowMove ) != 0 ) : v( o.v ) {
			tr::use( &o, "move construction" );
			if constexpr( not( F & NoThrowMove ) ) tr::maybe_throw( "move construction" );
			o.v = MOVED;
			++tr::moves;
			tr::born( this, "move" );
		}
		Tracked &operator=( Tracked const &o ) requires( not( F & NoCopy ) ) {
			tr::use( this, "copy assignment (target)" );
			tr::use( &o, "copy assignment (source)" );
			tr::maybe_throw( "copy assignment" );
			++tr::copies;
			v = o.v;
			return *this;
		}
		Tracked &operator=( Tracked &&o ) noexcept( ( F & NoThrowMove ) != 0 ) {
			tr::use( this, "move assignment (target)" );
			tr::use( &o, "move assignment (source)" );
			if constexpr( not( F & NoThrowMove ) ) tr::maybe_throw( "move assignment" );
			++tr::moves;
			int x = o.v;
			if( this != &o ) o.v = MOVED;
			v = x;
			return *this;
		}
		~Tracked( ) { tr::dead( this ); }
		int get( ) const {
			tr::use( this, "read" );
			return v;
		}
		friend bool operator==( Tracked const &a, Tracked const &b ) { return a.get( ) == b.get( ); }
		friend auto operator<=>( Tracked const &a, Tracked const &b ) { return a.get( ) <=> b.get( ); }
	};
	inline int val( int x ) { return x; }
	template<unsigned F>
	int val( Tracked<F> const &t ) { return t.get( ); }

	// body wrapper: run f, then every tracked element must be gone
	template<typename Fn>
	void with_tracking( Fn &&f ) {
		tr::begin( );
		f( );
		if( not failed( ) ) tr::check_none( "end of history" );
	}
} // namespace mc
