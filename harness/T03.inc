// The operations of daw::atomic and their sequential meaning, shared by the
// T03 harnesses
#pragma once
#include <daw/daw_cx_atomic.h>
#include <type_traits>
#include <utility>
namespace {
	enum OpK { Load, Conv, Store, Assign, Exch, CasS, CasS2, CasW, CasW2, FAdd, FSub, AddA, SubA, PreInc, PostInc, PreDec, PostDec, FAnd, FOr, FXor, AndA, OrA, XorA, CopyAs, MoveAs, CopyCt, NOps };
	[[maybe_unused]] char const *oname[] = { "load", "conversion", "store", "operator=", "exchange", "compare_exchange_strong", "compare_exchange_strong(2 orders)", "compare_exchange_weak", "compare_exchange_weak(2 orders)", "fetch_add", "fetch_sub", "+=", "-=", "++x", "x++", "--x", "x--", "fetch_and", "fetch_or", "fetch_xor", "&=", "|=", "^=", "copy-assign", "move-assign", "copy-construct" };
	struct Op {
		OpK k;
		long a, b; // argument; for CAS expected/desired
	};
	template<typename T>
	struct Res {
		T r{ };
		bool ok = true;
		unsigned inv = 0, res = 0;
		friend constexpr bool same( Res const &x, Res const &y ) { return x.r == y.r and x.ok == y.ok; }
	};
	template<typename T>
	constexpr bool has( OpK k ) {
		if constexpr( std::is_same_v<T, bool> ) return k <= CasW2 or k >= CopyAs;
		else if constexpr( std::is_floating_point_v<T> ) return k <= SubA or k >= CopyAs;
		else return true;
	}
	template<typename T>
	constexpr Res<T> seq( T &m, Op o ) { // sequential meaning
		Res<T> r;
		T const a = T( o.a ), b = T( o.b );
		T const old = m;
		switch( o.k ) {
		case Load: case Conv: case CopyCt: r.r = m; break;
		case Store: m = a; break;
		case Assign: m = a; r.r = T{ }; break;
		case CopyAs: case MoveAs: m = a; break;
		case Exch: m = a; r.r = old; break;
		case CasS: case CasS2: case CasW: case CasW2:
			r.ok = m == a;
			r.r = r.ok ? a : m;
			if( r.ok ) m = b;
			break;
		default:
			if constexpr( not std::is_same_v<T, bool> ) {
				switch( o.k ) {
				case FAdd: m = T( m + a ); r.r = old; break;
				case FSub: m = T( m - a ); r.r = old; break;
				case AddA: m = T( m + a ); r.r = m; break;
				case SubA: m = T( m - a ); r.r = m; break;
				default:
					if constexpr( std::is_integral_v<T> ) {
						switch( o.k ) {
						case PreInc: m = T( m + 1 ); r.r = m; break;
						case PostInc: m = T( m + 1 ); r.r = old; break;
						case PreDec: m = T( m - 1 ); r.r = m; break;
						case PostDec: m = T( m - 1 ); r.r = old; break;
						case FAnd: m = T( m & a ); r.r = old; break;
						case FOr: m = T( m | a ); r.r = old; break;
						case FXor: m = T( m ^ a ); r.r = old; break;
						case AndA: m = T( m & a ); r.r = m; break;
						case OrA: m = T( m | a ); r.r = m; break;
						case XorA: m = T( m ^ a ); r.r = m; break;
						default: break;
						}
					}
				}
			}
		}
		return r;
	}
	template<typename T>
	constexpr Res<T> real( daw::atomic<T> &m, Op o ) {
		Res<T> r;
		T const a = T( o.a ), b = T( o.b );
		switch( o.k ) {
		case Load: r.r = m.load( ); break;
		case Conv: r.r = static_cast<T>( m ); break;
		case CopyCt: { daw::atomic<T> c( m ); r.r = c.load( ); break; }
		case Store: m.store( a ); break;
		case Assign: m = a; break;
		case CopyAs: { daw::atomic<T> const c( a ); m = c; break; }
		case MoveAs: { daw::atomic<T> c( a ); m = std::move( c ); break; }
		case Exch: r.r = m.exchange( a ); break;
		case CasS: { T e = a; r.ok = m.compare_exchange_strong( e, b ); r.r = e; break; }
		case CasS2: { T e = a; r.ok = m.compare_exchange_strong( e, b, std::memory_order_acq_rel, std::memory_order_acquire ); r.r = e; break; }
		case CasW: { T e = a; r.ok = m.compare_exchange_weak( e, b ); r.r = e; break; }
		case CasW2: { T e = a; r.ok = m.compare_exchange_weak( e, b, std::memory_order_acq_rel, std::memory_order_acquire ); r.r = e; break; }
		default:
			if constexpr( not std::is_same_v<T, bool> ) {
				switch( o.k ) {
				case FAdd: r.r = m.fetch_add( a ); break;
				case FSub: r.r = m.fetch_sub( a ); break;
				case AddA: r.r = ( m += a ); break;
				case SubA: r.r = ( m -= a ); break;
				default:
					if constexpr( std::is_integral_v<T> ) {
						switch( o.k ) {
						case PreInc: r.r = ++m; break;
						case PostInc: r.r = m++; break;
						case PreDec: r.r = --m; break;
						case PostDec: r.r = m--; break;
						case FAnd: r.r = m.fetch_and( a ); break;
						case FOr: r.r = m.fetch_or( a ); break;
						case FXor: r.r = m.fetch_xor( a ); break;
						case AndA: r.r = ( m &= a ); break;
						case OrA: r.r = ( m |= a ); break;
						case XorA: r.r = ( m ^= a ); break;
						default: break;
						}
					}
				}
			}
		}
		return r;
	}
}
