// O07: wrappers around a value: what was stored is what is there, once, whatever throws.
#include "mc.h"
#include "mc_tracked.h"

#include <daw/compressed_pair.h>
#include <daw/daw_aligned_storage.h>
#include <daw/daw_alias_cast.h>
#include <daw/daw_construct_at.h>
#include <daw/daw_move_only.h>
#include <daw/daw_mutable_capture.h>
#include <daw/daw_swap.h>
#include <daw/daw_take.h>
#include <daw/daw_uninitialized_storage.h>

#include <array>
#include <compare>
#include <list>
#include <memory>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

namespace {
	using TM = mc::Tracked<mc::NoThrowMove>;
	using TC = mc::Tracked<0>;
	using TO = mc::Tracked<mc::NoThrowMove | mc::NoCopy>;

	template<typename F>
	bool throws( F &&f, bool alloc = false ) {
		try {
			mc::FaultScope s( alloc, true );
			f( );
			return false;
		} catch( mc::InjectedFault const & ) { return true; }
	}

	// ---- take -------------------------------------------------------------------
	template<typename T>
	void take_history( int depth ) {
		mc::set_fault_budget( 1 );
		using W = daw::take_t<T>;
		W w[2] = { W( 1 ), W( 2 ) };
		int m[2] = { 1, 2 };
		for( int s = 0; s != depth; ++s ) {
			mc::step( );
			int const i = mc::choose( 2 );
			int const o = 1 - i;
			auto const op = mc::choose( 9 );
			mc::note( "op %u on %d (%d, %d)", op, i, m[0], m[1] );
			bool any = false; // after a throw the objects involved hold some value
			switch( op ) {
			case 0: {
				any = throws( [&] {
					T r = daw::take( *w[i] );
					MC_CHECK( mc::val( r ) == m[i], "take", "take gave %d, not %d", mc::val( r ), m[i] );
				} );
				m[i] = 0;
			} break;
			case 1:
				any = throws( [&] {
					T r = *std::move( w[i] );
					MC_CHECK( mc::val( r ) == m[i], "take-rvalue", "*move gave %d, not %d", mc::val( r ), m[i] );
				} );
				m[i] = 0;
				break;
			case 2:
				any = throws( [&] {
					T r = std::move( w[i] ).get( );
					MC_CHECK( mc::val( r ) == m[i], "get-rvalue", "move.get gave %d, not %d", mc::val( r ), m[i] );
				} );
				m[i] = 0;
				break;
			case 3:
				any = throws( [&] { w[i].reset( ); } );
				m[i] = 0;
				break;
			case 4: // moving takes
				any = throws( [&] {
					W r( std::move( w[i] ) );
					MC_CHECK( mc::val( *r ) == m[i], "move", "moving gave %d, not %d", mc::val( *r ), m[i] );
				} );
				m[i] = 0;
				break;
			case 5:
				any = throws( [&] { w[i] = std::move( w[o] ); } );
				m[i] = m[o];
				m[o] = 0;
				break;
			case 6:
				any = throws( [&] { w[i] = std::move( w[i] ); } );
				if( not any ) {
					MC_CHECK( mc::val( *w[i] ) == m[i] or mc::val( *w[i] ) == 0, "self-move", "self move left %d", mc::val( *w[i] ) );
					m[i] = mc::val( *w[i] );
				}
				break;
			case 7:
				if constexpr( std::is_copy_assignable_v<T> ) {
					any = throws( [&] { w[i] = w[o]; } );
					m[i] = m[o];
				}
				break;
			default: {
				int const v = mc::choose_range( 3, 4 );
				any = throws( [&] { w[i].get( ) = T( v ); } );
				m[i] = v;
			} break;
			}
			if( any ) {
				m[0] = mc::val( *w[0] );
				m[1] = mc::val( *w[1] );
				for( int &x : m ) {
					MC_CHECK( ( x >= 0 and x <= 4 ) or x == mc::MOVED, "torn", "value %d after an exception", x );
				}
			}
			for( int k = 0; k != 2; ++k ) {
				W const &c = w[k];
				MC_CHECK( mc::val( *c ) == m[k] and mc::val( c.get( ) ) == m[k] and mc::val( *w[k] ) == m[k] and &*w[k] == w[k].operator->( ) and &*c == c.operator->( ) and &w[k].get( ) == &*c, "value", "wrapper %d holds %d, not %d", k, mc::val( *c ), m[k] );
				MC_CHECK( mc::val( *std::move( c ) ) == m[k] and mc::val( std::move( c ).get( ) ) == m[k] and mc::val( *c ) == m[k], "const-rvalue", "a const rvalue was taken from" );
			}
			MC_CHECK( ( w[0] <=> w[1] ) == ( m[0] <=> m[1] ) and ( w[0] == w[1] ) == ( m[0] == m[1] ), "compare", "comparison of %d and %d", m[0], m[1] );
		}
	}
	// a type whose move assignment alone may throw
	struct ThrowAssign {
		int v = 0;
		ThrowAssign( ) = default;
		explicit ThrowAssign( int x )
		  : v( x ) {}
		ThrowAssign( ThrowAssign &&o ) noexcept
		  : v( std::exchange( o.v, 0 ) ) {}
		ThrowAssign &operator=( ThrowAssign &&o ) {
			mc::tr::maybe_throw( "move assignment" );
			v = std::exchange( o.v, 0 );
			return *this;
		}
	};
	struct ThrowMove {
		int v = 0;
		explicit ThrowMove( int x )
		  : v( x ) {}
		ThrowMove( ThrowMove &&o )
		  : v( o.v ) {
			mc::tr::maybe_throw( "move construction" );
			o.v = -1;
		}
		ThrowMove( ThrowMove const &o ) noexcept
		  : v( o.v ) {}
		ThrowMove &operator=( ThrowMove const &o ) noexcept {
			v = o.v;
			return *this;
		}
		ThrowMove &operator=( ThrowMove &&o ) noexcept {
			v = o.v;
			return *this;
		}
		~ThrowMove( ) {}
	};
	void take_throwing_assignment( ) {
		mc::set_fault_budget( 1 );
		ThrowAssign a( 3 );
		bool thrown = false;
		bool const died = mc::aborts( [&] { thrown = throws( [&] { (void)daw::take( a ); } ); } );
		MC_CHECK( not died, "terminates", "an exception from the reset of take ends the program" );
		MC_CHECK( thrown or a.v == 0, "reset", "take did not reset" );
		daw::take_t<ThrowAssign> t( 4 );
		daw::take_t<ThrowAssign> u( 5 );
		bool const died2 = mc::aborts( [&] { (void)throws( [&] { t = std::move( u ); } ); } );
		MC_CHECK( not died2, "terminates-assign", "an exception from the assignment of take_t ends the program" );
	}
	void take_kinds( ) {
		{
			std::string s( "a long enough string to be on the heap" );
			auto r = daw::take( s );
			MC_CHECK( s.empty( ) and r.size( ) == 38, "string", "take of a string" );
			auto p = std::make_unique<int>( 4 );
			auto q = daw::take( p );
			MC_CHECK( not p and *q == 4, "unique", "take of a unique_ptr" );
			int i = 5;
			int j = daw::take( i );
			MC_CHECK( i == 0 and j == 5, "int", "take of an int" );
			std::vector<int> v{ 1, 2 };
			auto w = daw::take( v );
			MC_CHECK( v.empty( ) and w.size( ) == 2, "vector", "take of a vector" );
			int *ip = &i;
			MC_CHECK( daw::take( ip ) == &i and ip == nullptr, "pointer", "take of a pointer" );
			bool b = true;
			MC_CHECK( daw::take( b ) and not b, "bool", "take of a bool" );
		}
	}

	// ---- swap ---------------------------------------------------------------------
	struct MemberSwap {
		int v;
		int *calls;
		MemberSwap( int x, int *c )
		  : v( x )
		  , calls( c ) {}
		MemberSwap( MemberSwap const &o )
		  : v( o.v )
		  , calls( o.calls ) {}
		MemberSwap &operator=( MemberSwap const & ) = default;
		void swap( MemberSwap &o ) {
			++*calls;
			std::swap( v, o.v );
		}
	};
	namespace adl {
		struct AdlSwap {
			int v;
			int *calls;
			AdlSwap( int x, int *c )
			  : v( x )
			  , calls( c ) {}
			AdlSwap( AdlSwap const &o )
			  : v( o.v )
			  , calls( o.calls ) {}
			AdlSwap &operator=( AdlSwap const & ) = default;
		};
		void swap( AdlSwap &a, AdlSwap &b ) {
			++*a.calls;
			std::swap( a.v, b.v );
		}
	} // namespace adl
	template<typename T>
	void swap_pair( T a, T b, bool self ) {
		T const ca = a;
		T const cb = b;
		if( self ) {
			daw::cswap( a, a );
			MC_CHECK( a == ca, "self", "self swap changed the value" );
		} else {
			daw::cswap( a, b );
			MC_CHECK( a == cb and b == ca, "swap", "values were not exchanged" );
			daw::iter_swap( &a, &b );
			MC_CHECK( a == ca and b == cb, "iter_swap", "iter_swap did not exchange" );
		}
	}
	void swaps( ) {
		bool const self = mc::choose( 2 );
		int const x = mc::choose_range( 0, 2 );
		int const y = mc::choose_range( 0, 2 );
		switch( mc::choose( 8 ) ) {
		case 0: swap_pair<int>( x, y, self ); break;
		case 1: swap_pair<std::string>( std::string( x * 20, 'a' ), std::string( y, 'b' ), self ); break;
		case 2: swap_pair<std::vector<int>>( std::vector<int>( x, 1 ), std::vector<int>( y, 2 ), self ); break;
		case 3: swap_pair<std::pair<int, std::string>>( { x, "x" }, { y, "yy" }, self ); break;
		case 4: swap_pair<std::array<std::string, 2>>( { std::string( x, 'a' ), "k" }, { std::string( y, 'b' ), "l" }, self ); break;
		case 5: swap_pair<std::array<int, 3>>( { x, 1, 2 }, { y, 5, 6 }, self ); break;
		case 6: {
			int calls = 0;
			MemberSwap a( x, &calls );
			MemberSwap b( y, &calls );
			daw::cswap( a, b );
			MC_CHECK( a.v == y and b.v == x and calls == 1, "member", "member swap: %d calls", calls );
			adl::AdlSwap c( x, &calls );
			adl::AdlSwap d( y, &calls );
			daw::cswap( c, d );
			MC_CHECK( c.v == y and d.v == x and calls == 2, "adl", "adl swap: %d calls", calls );
		} break;
		default: swap_pair<double>( x, y, self ); break;
		}
	}
	template<typename T>
	void swap_tracked( ) {
		mc::set_fault_budget( 1 );
		T a( 1 );
		T b( 2 );
		if( not throws( [&] { daw::cswap( a, b ); } ) ) {
			MC_CHECK( mc::val( a ) == 2 and mc::val( b ) == 1, "swap", "values were not exchanged" );
		}
		T c( 1 );
		T d( 2 );
		if( not throws( [&] { daw::iter_swap( &c, &d ); } ) ) {
			MC_CHECK( mc::val( c ) == 2 and mc::val( d ) == 1, "iter_swap", "values were not exchanged" );
		}
	}
	void swap_throwing_move( ) {
		mc::set_fault_budget( 1 );
		ThrowMove a( 1 );
		ThrowMove b( 2 );
		auto const which = mc::choose( 2 );
		bool const died = mc::aborts( [&] {
			bool const t = throws( [&] {
				if( which ) {
					daw::cswap( a, b );
				} else {
					daw::iter_swap( &a, &b );
				}
			} );
			if( not t and ( a.v != 2 or b.v != 1 ) ) {
				mc::fail_later( "swap", "values were not exchanged" );
			}
		} );
		MC_CHECK( not died, "terminates", "an exception from a move while swapping ends the program" );
	}
	template<typename It1, typename It2, typename V>
	void ranges_of( V &a, V &b, int n, int off ) {
		std::vector<int> ma, mb;
		for( auto &x : a ) ma.push_back( mc::val( x ) );
		for( auto &x : b ) mb.push_back( mc::val( x ) );
		It1 f = std::next( a.begin( ), off );
		It1 l = std::next( f, n );
		It2 r = daw::swap_ranges( f, l, b.begin( ) );
		MC_CHECK( r == std::next( b.begin( ), n ), "end", "swap_ranges returns another position" );
		for( int i = 0; i != n; ++i ) std::swap( ma[off + i], mb[i] );
		int i = 0;
		for( auto &x : a ) { MC_CHECK( mc::val( x ) == ma[i], "first", "element %d of the first range", i ); ++i; }
		i = 0;
		for( auto &x : b ) { MC_CHECK( mc::val( x ) == mb[i], "second", "element %d of the second range", i ); ++i; }
	}
	void swapped_ranges( ) {
		int const size = mc::choose_range( 0, 4 );
		int const off = mc::choose_range( 0, size );
		int const n = mc::choose_range( 0, size - off );
		mc::with_tracking( [&] {
			std::vector<TM> a, b;
			std::list<TM> c, d;
			for( int i = 0; i != size; ++i ) {
				a.emplace_back( i );
				c.emplace_back( i );
			}
			for( int i = 0; i != size; ++i ) {
				b.emplace_back( 10 + i );
				d.emplace_back( 10 + i );
			}
			b.resize( n, TM( 10 ) );
			d.resize( n, TM( 10 ) );
			ranges_of<std::vector<TM>::iterator, std::vector<TM>::iterator>( a, b, n, off );
			ranges_of<std::list<TM>::iterator, std::list<TM>::iterator>( c, d, n, off );
		} );
	}

	// ---- move_only, mutable_capture ---------------------------------------------------
	template<typename T>
	void move_onlys( int depth ) {
		using W = daw::move_only<T>;
		mc::set_fault_budget( 1 );
		MC_CHECK( not std::is_copy_constructible_v<W> and not std::is_copy_assignable_v<W> and std::is_move_constructible_v<W> and not( std::is_convertible_v<W, T> ) and not( std::is_convertible_v<T, W> ), "copyable", "move_only can be copied or converts implicitly" );
		W w[2] = { W( T( 1 ) ), W( T( 2 ) ) };
		int m[2] = { 1, 2 };
		for( int s = 0; s != depth; ++s ) {
			mc::step( );
			int const i = mc::choose( 2 );
			int const o = 1 - i;
			bool any = false;
			switch( mc::choose( 4 ) ) {
			case 0:
				any = throws( [&] { w[i] = std::move( w[o] ); } );
				m[i] = m[o];
				m[o] = mc::MOVED;
				break;
			case 1: {
				any = throws( [&] {
					W r( std::move( w[i] ) );
					MC_CHECK( mc::val( r.get( ) ) == m[i], "move", "moved value" );
				} );
				m[i] = mc::MOVED;
			} break;
			case 2: {
				int const v = mc::choose_range( 3, 4 );
				any = throws( [&] { static_cast<T &>( w[i] ) = T( v ); } );
				m[i] = v;
			} break;
			default: {
				int const v = mc::choose_range( 3, 4 );
				any = throws( [&] {
					if constexpr( std::is_copy_constructible_v<T> ) {
						T const t( v );
						w[i] = W( t );
						MC_CHECK( mc::val( t ) == v, "source", "construction from a const value changed it" );
					} else {
						w[i] = W( T( v ) );
					}
				} );
				m[i] = v;
			} break;
			}
			if( any ) {
				m[0] = mc::val( w[0].get( ) );
				m[1] = mc::val( w[1].get( ) );
			}
			for( int k = 0; k != 2; ++k ) {
				W const &c = w[k];
				MC_CHECK( mc::val( c.get( ) ) == m[k] and &c.get( ) == c.operator->( ) and &w[k].get( ) == w[k].operator->( ) and &static_cast<T const &>( c ) == &c.get( ), "value", "wrapper %d holds %d, not %d", k, mc::val( c.get( ) ), m[k] );
			}
			MC_CHECK( ( w[0] <=> w[1] ) == ( m[0] <=> m[1] ) and ( w[0] == w[1] ) == ( m[0] == m[1] ), "compare", "comparison" );
		}
	}
	template<typename T>
	void mutable_captures( ) {
		mc::set_fault_budget( 1 );
		using W = daw::mutable_capture<T>;
		T in( 3 );
		int moved_in = mc::choose( std::is_copy_constructible_v<T> ? 3 : 1 );
		(void)throws( [&] {
			auto const make = [&]( ) -> W {
				if constexpr( std::is_copy_constructible_v<T> ) {
					if( moved_in == 1 ) return W( in );
					if( moved_in == 2 ) return W( std::as_const( in ) );
				}
				return W( std::move( in ) );
			};
			W const c = make( );
			MC_CHECK( mc::val( in ) == ( moved_in ? 3 : mc::MOVED ), "source", "source holds %d", mc::val( in ) );
			MC_CHECK( mc::val( c.get( ) ) == 3 and c.ptr( ) == &c.get( ) and &*c == c.ptr( ) and c.operator->( ) == c.ptr( ), "value", "captured value" );
			c.get( ).v = 5; // a const capture is writable
			T &r = c;
			MC_CHECK( mc::val( *c ) == 5 and &r == c.ptr( ), "write", "a write through a const capture" );
			switch( mc::choose( 3 ) ) {
			case 0: {
				T o = c.move_out( );
				MC_CHECK( mc::val( o ) == 5 and mc::val( *c ) == mc::MOVED, "move_out", "move_out" );
			} break;
			case 1: {
				T o = *std::move( c );
				MC_CHECK( mc::val( o ) == 5 and mc::val( *c ) == mc::MOVED, "rvalue", "* of an rvalue" );
			} break;
			default: {
				T o = static_cast<T>( std::move( c ) );
				MC_CHECK( mc::val( o ) == 5, "convert", "conversion of an rvalue" );
			} break;
			}
		} );
	}

	// ---- compressed_pair ----------------------------------------------------------------
	struct Empty {
		int tag( ) const {
			return 9;
		}
	};
	struct EmptyFinal final {
		int tag( ) const {
			return 8;
		}
	};
	template<typename T, typename U>
	void pairs( ) {
		mc::set_fault_budget( 1 );
		using P = daw::compressed_pair<T, U>;
		int const x = mc::choose_range( 1, 2 );
		(void)throws( [&] {
			switch( mc::choose( 5 ) ) {
			case 0: {
				P p( T{ x }, U{ x + 5 } );
				MC_CHECK( mc::val( p.first( ) ) == x and mc::val( p.second( ) ) == x + 5, "values", "pair of (%d, %d)", x, x + 5 );
				P const &c = p;
				MC_CHECK( &c.first( ) == &p.first( ) and &c.second( ) == &p.second( ) and static_cast<void const *>( &c.first( ) ) != &c.second( ), "references", "references to the parts" );
				MC_CHECK( P::get_first_base( &p )->get( ) == p.first( ) and P::get_second_base( &p )->get( ) == p.second( ), "bases", "bases" );
				p.first( ) = T{ 7 };
				MC_CHECK( mc::val( c.first( ) ) == 7 and mc::val( c.second( ) ) == x + 5, "write", "write to the first part" );
			} break;
			case 1: {
				P p;
				MC_CHECK( mc::val( p.first( ) ) == 0 and mc::val( p.second( ) ) == 0, "default", "default pair holds (%d, %d)", mc::val( p.first( ) ), mc::val( p.second( ) ) );
			} break;
			case 2: {
				P p( std::piecewise_construct, std::tuple<int>( x ), std::tuple<int>( x + 5 ) );
				MC_CHECK( mc::val( p.first( ) ) == x and mc::val( p.second( ) ) == x + 5, "piecewise", "piecewise pair" );
				T t{ x };
				P q( std::piecewise_construct, std::forward_as_tuple( std::move( t ) ), std::tuple<>( ) );
				MC_CHECK( mc::val( q.first( ) ) == x and mc::val( q.second( ) ) == 0, "piecewise-empty", "piecewise pair with nothing for the second" );
				if constexpr( not std::is_trivial_v<T> ) {
					MC_CHECK( mc::val( t ) == mc::MOVED, "piecewise-rvalue", "an rvalue argument was copied" );
				}
			} break;
			case 3: {
				P p( T{ 1 }, U{ 2 } );
				P q( T{ 3 }, U{ 4 } );
				if( mc::choose( 2 ) ) {
					p.swap( q );
				} else {
					swap( p, q );
				}
				MC_CHECK( mc::val( p.first( ) ) == 3 and mc::val( p.second( ) ) == 4 and mc::val( q.first( ) ) == 1 and mc::val( q.second( ) ) == 2, "swap", "swap of pairs" );
			} break;
			default: {
				P p( T{ 1 }, U{ 2 } );
				P q( std::move( p ) );
				P r( T{ 5 }, U{ 6 } );
				r = std::move( q );
				MC_CHECK( mc::val( r.first( ) ) == 1 and mc::val( r.second( ) ) == 2, "move", "moved pair" );
				if constexpr( std::is_copy_constructible_v<T> and std::is_copy_constructible_v<U> ) {
					P s( std::as_const( r ) );
					MC_CHECK( mc::val( s.first( ) ) == 1 and mc::val( s.second( ) ) == 2 and mc::val( r.first( ) ) == 1, "copy", "copied pair" );
				}
			} break;
			}
		} );
	}
	void empty_pairs( ) {
		daw::compressed_pair<Empty, int> a( Empty{ }, 4 );
		daw::compressed_pair<int, Empty> b( 5, Empty{ } );
		daw::compressed_pair<EmptyFinal, int> c( EmptyFinal{ }, 6 );
		daw::compressed_pair<Empty, EmptyFinal> d( Empty{ }, EmptyFinal{ } );
		daw::compressed_pair<Empty, TM> e( Empty{ }, TM( 3 ) );
		MC_CHECK( a.first( ).tag( ) == 9 and a.second( ) == 4 and b.first( ) == 5 and b.second( ).tag( ) == 9 and c.first( ).tag( ) == 8 and c.second( ) == 6 and d.first( ).tag( ) == 9 and d.second( ).tag( ) == 8 and mc::val( e.second( ) ) == 3, "empty", "pairs with an empty part" );
		MC_CHECK( sizeof a == sizeof( int ) and sizeof b == sizeof( int ), "compressed", "an empty part takes room" );
		daw::compressed_pair<Empty, int> a2( Empty{ }, 7 );
		a.swap( a2 );
		MC_CHECK( a.second( ) == 7 and a2.second( ) == 4, "empty-swap", "swap with an empty part" );
		daw::compressed_pair<Empty, int> z;
		MC_CHECK( z.second( ) == 0, "empty-default", "default pair with an empty part" );
	}

	// ---- uninitialized_storage ---------------------------------------------------------------
	template<typename T>
	void storage( int depth ) {
		mc::set_fault_budget( 1 );
		daw::uninitialized_storage<T> s[2];
		bool live[2] = { false, false };
		int m[2] = { 0, 0 };
		MC_CHECK( sizeof s[0] == sizeof( T ) and alignof( decltype( s[0] ) ) == alignof( T ), "layout", "size or alignment" );
		for( int d = 0; d != depth; ++d ) {
			mc::step( );
			int const i = mc::choose( 2 );
			if( not live[i] ) {
				int const v = mc::choose_range( 1, 2 );
				bool const by_default = mc::choose( 2 );
				live[i] = not throws( [&] {
					if( by_default ) {
						s[i].construct( );
					} else {
						s[i].construct( v );
					}
				} );
				m[i] = by_default ? 0 : v;
			} else {
				switch( mc::choose( 4 ) ) {
				case 0:
					s[i].destruct( );
					live[i] = false;
					break;
				case 1:
					if( not throws( [&] {
						    T r = s[i].rref( );
						    MC_CHECK( mc::val( r ) == m[i], "rref", "rref gave %d", mc::val( r ) );
					    } ) ) {
						m[i] = mc::val( *s[i] );
					}
					m[i] = mc::val( *s[i] );
					break;
				case 2:
					s[i]->v = 8;
					m[i] = 8;
					break;
				default:
					s[i].ref( ).v = 6;
					m[i] = 6;
					break;
				}
			}
			for( int k = 0; k != 2; ++k ) {
				if( live[k] ) {
					auto const &c = s[k];
					MC_CHECK( mc::val( *c ) == m[k] and &*c == c.ptr( ) and c.ptr( ) == c.cptr( ) and &c.cref( ) == c.ptr( ) and c.operator->( ) == c.ptr( ) and s[k].ptr( ) == c.ptr( ) and &*s[k] == c.ptr( ), "value", "storage %d holds %d, not %d", k, mc::val( *c ), m[k] );
					MC_CHECK( static_cast<void const *>( c.raw_data( ) ) == c.ptr( ), "raw", "raw data is elsewhere" );
				}
			}
		}
		for( int k = 0; k != 2; ++k ) {
			if( live[k] ) {
				s[k].destruct( );
			}
		}
	}
	struct Aggregate {
		int v = 0;
		int w = 4;
	};
	struct alignas( 64 ) Wide {
		char c[3];
	};
	void aligned( ) {
		MC_CHECK( alignof( daw::aligned_storage_t<3, 64> ) >= 64 and sizeof( daw::aligned_storage_t<3, 64> ) >= 3, "over-aligned", "storage for alignment 64 is aligned to %zu", alignof( daw::aligned_storage_t<3, 64> ) );
		MC_CHECK( ( alignof( daw::aligned_storage_for_t<Wide, int> ) >= 64 and sizeof( daw::aligned_storage_for_t<char, Wide> ) >= sizeof( Wide ) ), "for-types", "storage for an over-aligned type is aligned to %zu", ( alignof( daw::aligned_storage_for_t<Wide, int> ) ) );
		MC_CHECK( ( sizeof( daw::aligned_storage_for_t<char, int, double> ) >= 8 ), "size", "storage is too small" );
		daw::aligned_storage_for_t<TM, int> st;
		int const v = mc::choose_range( 1, 3 );
		TM *p = daw::construct_at<TM>( &st, v );
		MC_CHECK( mc::val( *p ) == v and static_cast<void *>( p ) == &st, "construct_at", "construct_at" );
		p->~TM( );
		daw::uninitialized_storage<Aggregate> a;
		a.construct( v );
		MC_CHECK( a->v == v and a->w == 4, "aggregate", "aggregate" );
		a.destruct( );
		daw::uninitialized_storage<Wide> w;
		w.construct( );
		MC_CHECK( reinterpret_cast<std::uintptr_t>( w.ptr( ) ) % 64 == 0, "wide", "storage for an over-aligned type" );
		w.destruct( );
		unsigned char bytes[2] = { 1, 2 };
		daw::fixed_cast<unsigned char, char> cast;
		char *q = cast.operator( )<char>( &bytes[0] );
		MC_CHECK( static_cast<void *>( q ) == bytes, "alias", "fixed_cast of a pointer" );
		auto &&r = cast.operator( )<char>( bytes[1] );
		MC_CHECK( static_cast<void *>( &r ) == bytes + 1, "alias-reference", "fixed_cast of a reference" );
	}
} // namespace

MC_TEST( take_nothrow ) { mc::with_tracking( [] { take_history<TM>( mc::by_tier( 4, 5 ) ); } ); }
MC_TEST( take_throwing ) { mc::with_tracking( [] { take_history<TC>( mc::by_tier( 3, 4 ) ); } ); }
MC_TEST( take_move_only ) { mc::with_tracking( [] { take_history<TO>( mc::by_tier( 3, 4 ) ); } ); }
MC_TEST( take_throwing_assignment ) { take_throwing_assignment( ); }
MC_TEST( take_kinds ) { take_kinds( ); }
MC_TEST( swaps ) { swaps( ); }
MC_TEST( swap_nothrow ) { mc::with_tracking( [] { swap_tracked<TM>( ); } ); }
MC_TEST( swap_throwing ) { mc::with_tracking( [] { swap_tracked<TC>( ); } ); }
MC_TEST( swap_move_only ) { mc::with_tracking( [] { swap_tracked<TO>( ); } ); }
MC_TEST( swap_throwing_move ) { swap_throwing_move( ); }
MC_TEST( swapped_ranges ) { swapped_ranges( ); }
MC_TEST( move_only_nothrow ) { mc::with_tracking( [] { move_onlys<TM>( mc::by_tier( 4, 5 ) ); } ); }
MC_TEST( move_only_throwing ) { mc::with_tracking( [] { move_onlys<TC>( mc::by_tier( 3, 4 ) ); } ); }
MC_TEST( move_only_uncopyable ) { mc::with_tracking( [] { move_onlys<TO>( mc::by_tier( 3, 4 ) ); } ); }
MC_TEST( mutable_nothrow ) { mc::with_tracking( [] { mutable_captures<TM>( ); } ); }
MC_TEST( mutable_throwing ) { mc::with_tracking( [] { mutable_captures<TC>( ); } ); }
MC_TEST( mutable_uncopyable ) { mc::with_tracking( [] { mutable_captures<TO>( ); } ); }
MC_TEST( pair_tracked ) { mc::with_tracking( [] { pairs<TM, TC>( ); } ); }
MC_TEST( pair_uncopyable ) { mc::with_tracking( [] { pairs<TO, int>( ); } ); }
MC_TEST( pair_int ) { mc::with_tracking( [] { pairs<int, TC>( ); } ); }
MC_TEST( empty_pairs ) { mc::with_tracking( [] { empty_pairs( ); } ); }
MC_TEST( storage_nothrow ) { mc::with_tracking( [] { storage<TM>( mc::by_tier( 5, 6 ) ); } ); }
MC_TEST( storage_throwing ) { mc::with_tracking( [] { storage<TC>( mc::by_tier( 5, 6 ) ); } ); }
MC_TEST( aligned ) { mc::with_tracking( [] { aligned( ); } ); }
