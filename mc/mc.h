// Bounded exhaustive explorer ("choice-stack odometer").  A test body is run
// once per path through its mc::choose() calls; every path within the bounds
// the body states is executed on the real code.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <exception>
#include <initializer_list>
#include <new>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace mc {
	struct Stop {}; // ends the current execution (violation or prune)

	// ---- nondeterminism ------------------------------------------------------
	unsigned choose( unsigned n ); // 0..n-1, every value explored
	bool fault( );                 // false first, then true while budget remains
	void set_fault_budget( unsigned n );
	inline int choose_range( int lo, int hi ) {
		return lo + static_cast<int>( choose( static_cast<unsigned>( hi - lo + 1 ) ) );
	}
	template<typename T>
	T const &pick( std::vector<T> const &v ) {
		return v[choose( static_cast<unsigned>( v.size( ) ) )];
	}
	template<typename T>
	T pick( std::initializer_list<T> v ) {
		return v.begin( )[choose( static_cast<unsigned>( v.size( ) ) )];
	}
	// Long histories: the choices of a few steps are explored as usual and
	// recorded; the steps are then repeated with the choices they were made with
	// (no new ones), carried over to the larger bounds they meet: the last option
	// stays the last, others stay at their distance from the first (mode 0) or at
	// their relative place (mode 1).
	class Lasso {
	public:
		Lasso( );
		~Lasso( );
		Lasso( Lasso const & ) = delete;
		Lasso &operator=( Lasso const & ) = delete;
		void record( );                         // the choices from here on belong to the next step
		void play( unsigned step, int mode ); // the choices from here on are those of step
		unsigned steps( ) const;
	};
	// explores every word of `len` steps, then repeats it `rounds` times; step()
	// returns false where it does not apply, grow() is called before the repetition
	template<typename Step, typename Grow>
	void lasso( int len, int rounds, Step step, Grow grow ) {
		Lasso l;
		int const mode = static_cast<int>( choose( 2 ) );
		for( int i = 0; i < len; ++i ) {
			l.record( );
			if( not step( ) ) return;
		}
		grow( );
		for( int r = 0; r < rounds; ++r ) {
			bool any = false;
			for( unsigned i = 0; i < l.steps( ); ++i ) {
				l.play( i, mode );
				any = step( ) or any;
			}
			if( not any ) return;
		}
	}

	int tier( ); // 0 quick, 1 thorough
	inline int by_tier( int q, int t ) { return tier( ) ? t : q; }

	// ---- oracle --------------------------------------------------------------
	[[noreturn]] void fail( char const *key, char const *fmt, ... )
	  __attribute__( ( format( printf, 2, 3 ) ) );
	void fail_later( char const *key, char const *fmt, ... )
	  __attribute__( ( format( printf, 2, 3 ) ) );
	bool failed( );

	// runs f and tells whether it ended in abort()/terminate (f must not own resources)
	bool aborts_impl( void ( *fn )( void * ), void *ctx );
	template<typename Fn>
	bool aborts( Fn &&f ) {
		return aborts_impl( []( void *c ) { ( *static_cast<std::remove_reference_t<Fn> *>( c ) )( ); }, const_cast<void *>( static_cast<void const *>( &f ) ) );
	}

	// ---- observation ---------------------------------------------------------
	void note( char const *fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
	bool verbose( );
	void obs( std::uint64_t v );
	void obs_bytes( void const *p, std::size_t n );
	inline void obs( std::string_view s ) { obs_bytes( s.data( ), s.size( ) ); obs( s.size( ) ); }
	void step( std::uint64_t n = 1 ); // transitions executed beyond the replayed prefix
	void count_case( std::uint64_t n = 1 ); // inputs evaluated inside one execution
	// state dedupe: false when this state was already explored with at least
	// `remaining` further steps (caller must return)
	bool enter_state( std::uint64_t h, unsigned remaining );
	void state( std::uint64_t h ); // just count a distinct state

	inline std::uint64_t mix( std::uint64_t h, std::uint64_t v ) {
		h ^= v + 0x9e3779b97f4a7c15ULL + ( h << 6 ) + ( h >> 2 );
		h *= 0xff51afd7ed558ccdULL;
		h ^= h >> 33;
		return h;
	}
	inline std::uint64_t hash_bytes( std::uint64_t h, void const *p, std::size_t n ) {
		auto const *b = static_cast<unsigned char const *>( p );
		for( std::size_t i = 0; i < n; ++i ) h = mix( h, b[i] );
		return mix( h, n );
	}

	// ---- allocation tracking / fault scopes ------------------------------------
	struct FaultScope { // operator new and Tracked throw points consult fault() in here
		bool a, t;
		explicit FaultScope( bool alloc = true, bool tracked = true );
		~FaultScope( );
		FaultScope( FaultScope const & ) = delete;
	};
	struct NoTrack { // allocations inside are ignored by the leak check
		NoTrack( );
		~NoTrack( );
	};
	bool tracked_faults_on( );
	bool in_faulting_call( );
	std::size_t live_allocs( );
	struct InjectedFault {};

	// ---- registry ------------------------------------------------------------
	struct Test {
		char const *name;
		void ( *fn )( );
		int min_tier;
		Test( char const *n, void ( *f )( ), int mt = 0 );
	};

	inline std::string strf( char const *fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
	inline std::string strf( char const *fmt, ... ) {
		char b[2048];
		va_list ap;
		va_start( ap, fmt );
		vsnprintf( b, sizeof b, fmt, ap );
		va_end( ap );
		return b;
	}
} // namespace mc

#define MC_CAT2( a, b ) a##b
#define MC_CAT( a, b ) MC_CAT2( a, b )
#define MC_TEST( name )                                                        \
	static void mc_body_##name( );                                               \
	static ::mc::Test mc_reg_##name( #name, mc_body_##name );                    \
	static void mc_body_##name( )
#define MC_THOROUGH_TEST( name )                                               \
	static void mc_body_##name( );                                               \
	static ::mc::Test mc_reg_##name( #name, mc_body_##name, 1 );                 \
	static void mc_body_##name( )
// key should name the observable that disagreed
#define MC_CHECK( cond, key, ... )                                             \
	do {                                                                         \
		if( not( cond ) ) { ::mc::fail( key, __VA_ARGS__ ); }                      \
	} while( false )
#define MC_REQUIRE( cond )                                                     \
	do {                                                                         \
		if( not( cond ) ) { ::mc::fail( #cond, "line %d", __LINE__ ); }            \
	} while( false )
