// Value-semantic owners: every history of construction, copy, move, assignment,
// swap, reset, release, in-place writes over two or three slots up to a depth,
// with at most one injected failure anywhere, against "optional value" models.
#include "mc.h"
#include "mc_tracked.h"
#include <memory>
#include <optional>
#include <utility>
#include <vector>

#include <daw/daw_poly_value.h>
#include <daw/daw_poly_var.h>
#include <daw/daw_value_ptr.h>
#include <daw/deprecated/daw_copiable_unique_ptr.h>
#include <daw/deprecated/daw_heap_array.h>
#include <daw/deprecated/daw_heap_value.h>

using TM = mc::Tracked<mc::NoThrowMove>;
using TC = mc::Tracked<0>;
template<unsigned F>
struct std::hash<mc::Tracked<F>> {
	std::size_t operator( )( mc::Tracked<F> const &t ) const { return std::size_t( t.get( ) ) * 31 + 7; }
};

namespace {
	using M = std::optional<int>; // MOVED value is never compared
	std::uint64_t hash_model( std::vector<M> const &m, std::uint64_t h ) {
		for( auto const &x : m ) h = mc::mix( h, x ? std::uint64_t( *x + 1000 ) : 0 );
		return h;
	}
	int three( M const &a, M const &b ) { // empty sorts first
		if( not a or not b ) return int( a.has_value( ) ) - int( b.has_value( ) );
		return *a < *b ? -1 : *a > *b;
	}
	// runs op, returns true when the injected failure came through
	template<typename F>
	bool attempt( F &&f, bool alloc = true ) {
		try {
			mc::FaultScope fs( alloc );
			f( );
		} catch( mc::InjectedFault const & ) {
			return true;
		} catch( std::bad_alloc const & ) {
			return true;
		}
		return false;
	}

	// ---- value_ptr / copiable_unique_ptr -------------------------------------------
	template<typename W>
	struct is_vp : std::false_type {};
	template<typename T>
	struct is_vp<daw::value_ptr<T>> : std::true_type {};

	template<typename W, typename T>
	W make( int v ) {
		if constexpr( is_vp<W>::value ) return W( v );
		else return daw::make_copiable_unique_ptr<T>( v );
	}
	template<typename W>
	W empty( ) {
		if constexpr( is_vp<W>::value ) return W( std::nullopt );
		else return W{ };
	}
	template<typename W>
	void check_one( W const &w, M const &m, char const *after ) {
		MC_CHECK( static_cast<bool>( w ) == m.has_value( ), "engaged", "after %s: holds a value %d, expected %d", after, int( static_cast<bool>( w ) ), int( m.has_value( ) ) );
		MC_CHECK( ( w.get( ) != nullptr ) == m.has_value( ), "get", "after %s: get() is wrong", after );
		if( m ) {
			MC_CHECK( mc::val( *w ) == *m and mc::val( *w.operator->( ) ) == *m, "value", "after %s: value %d, expected %d", after, mc::val( *w ), *m );
			mc::obs( std::uint64_t( *m ) );
		} else mc::obs( 0 );
	}
	template<typename W>
	void pointers( int depth, unsigned nslots, unsigned faults ) {
		using T = std::remove_cvref_t<decltype( *std::declval<W &>( ) )>;
		std::vector<T *> freed;
		freed.reserve( 64 ); // no allocation (and so no failure) while recording
		mc::with_tracking( [&] {
			W s[3] = { empty<W>( ), empty<W>( ), empty<W>( ) };
			std::vector<M> m( nslots );
			mc::set_fault_budget( faults );
			unsigned left = faults;
			for( int k = 0; k < depth; ++k ) {
				if( not mc::enter_state( hash_model( m, left ), unsigned( depth - k ) ) ) break;
				unsigned const op = mc::choose( is_vp<W>::value ? 14 : 10 );
				unsigned const i = mc::choose( nslots );
				unsigned const j = op < 4 or op == 8 ? mc::choose( nslots ) : 0;
				int const v = op == 5 or op == 10 or op == 11 or op == 7 ? mc::choose_range( 1, 2 ) : 0;
				auto const before = m;
				char const *nm = "";
				bool assign_from_value = false;
				bool threw = attempt( [&] {
					switch( op ) {
					case 0: nm = "copy assignment"; s[i] = std::as_const( s[j] ); m[i] = m[j]; break;
					case 1: {
						nm = "move assignment";
						s[i] = std::move( s[j] );
						if( i != j ) {
							// the source keeps the target's old value or nothing
							auto const old = m[i];
							m[i] = m[j];
							m[j] = s[j] ? old : M{ };
						}
					} break;
					case 2: {
						nm = "copy construction and swap";
						auto t = W( std::as_const( s[j] ) );
						s[i].swap( t );
						m[i] = m[j];
					} break;
					case 3: {
						nm = "swap";
						if( mc::choose( 2 ) ) s[i].swap( s[j] );
						else { using daw::swap; swap( s[i], s[j] ); }
						std::swap( m[i], m[j] );
					} break;
					case 4: {
						nm = "move construction";
						auto t = W( std::move( s[i] ) );
						if( s[i] ) mc::fail( "moved-from", "a moved-from owner still holds something" );
						check_one( t, m[i], "move construction" );
						m[i] = { };
					} break;
					case 5: nm = "replace"; s[i] = make<W, T>( v ); m[i] = v; break;
					case 6: nm = "reset"; s[i].reset( ); m[i] = { }; break;
					case 7: nm = "write"; if( m[i] ) { *s[i] = T( v ); m[i] = v; } break;
					case 8: {
						nm = "compare";
						int const c = three( m[i], m[j] );
						auto const &a = s[i];
						auto const &b = s[j];
						if constexpr( is_vp<W>::value ) {
							MC_CHECK( ( a == b ) == ( c == 0 ) and ( a != b ) == ( c != 0 ) and ( a < b ) == ( c < 0 ) and ( a > b ) == ( c > 0 ) and ( a <= b ) == ( c <= 0 ) and ( a >= b ) == ( c >= 0 ), "compare", "comparison of values disagrees" );
							MC_CHECK( a.compare( b ) == c, "compare3", "compare() is %d, expected %d", a.compare( b ), c );
							if( m[i] ) MC_CHECK( std::hash<W>{ }( a ) == std::hash<T>{ }( *a ), "hash", "hash does not follow the value" );
							if( c == 0 ) MC_CHECK( std::hash<W>{ }( a ) == std::hash<W>{ }( b ), "hash", "equal values hash differently" );
						} else {
							std::less<void> lt;
							auto p = a.get( ), q = b.get( );
							MC_CHECK( ( a == b ) == ( p == q ) and ( a != b ) == ( p != q ) and ( a < b ) == lt( p, q ) and ( a > b ) == lt( q, p ) and ( a <= b ) == not lt( q, p ) and ( a >= b ) == not lt( p, q ), "compare", "comparison of owners disagrees" );
							bool const e = not m[i];
							MC_CHECK( ( a == nullptr ) == e and ( nullptr == a ) == e and ( a != nullptr ) == not e and ( nullptr != a ) == not e, "compare-null", "null tests disagree" );
							MC_CHECK( not( a < nullptr ) and ( nullptr < a ) == not e and ( a > nullptr ) == not e and not( nullptr > a ) and ( a <= nullptr ) == e and ( nullptr <= a ) and ( a >= nullptr ) and ( nullptr >= a ) == e, "order-null", "ordering against null disagrees" );
							MC_CHECK( std::hash<W>{ }( a ) == std::hash<T const *>{ }( p ), "hash", "hash does not follow the pointer" );
						}
					} break;
					case 9: {
						nm = "release";
						T *p = s[i].release( );
						MC_CHECK( ( p != nullptr ) == m[i].has_value( ), "release", "release() returned the wrong thing" );
						if( p ) { MC_CHECK( mc::val( *p ) == *m[i], "release", "released object has the wrong value" ); freed.push_back( p ); }
						m[i] = { };
					} break;
					default:
						if constexpr( is_vp<W>::value ) {
							if( op == 10 ) { nm = "assign value"; assign_from_value = true; T t( v ); s[i] = std::as_const( t ); m[i] = v; }
							if( op == 11 ) { nm = "assign value (move)"; assign_from_value = true; T t( v ); s[i] = std::move( t ); m[i] = v; }
							if( op == 12 ) { nm = "emplace"; s[i] = W::template emplace<T>( 2 ); m[i] = 2; }
							if( op == 13 ) { nm = "default"; s[i] = W( ); m[i] = 0; }
						}
					}
				}, op != 11 ); // assigning an rvalue is declared noexcept: out of memory there terminates by design
				mc::note( "%s slot %u/%u value %d%s", nm, i, j, v, threw ? " (failed)" : "" );
				if( threw ) {
					if( left ) --left;
					// the assigned owner holds the old value, the new one, or nothing; the others are untouched
					m = before;
					M const want = op == 0 or op == 2 ? before[j] : M( op == 12 ? 2 : op == 13 ? 0 : v );
					M now = s[i] ? M( mc::val( *s[i] ) ) : M{ };
					bool const ok = now == before[i] or now == want or not now or ( op == 11 and *now == mc::MOVED );
					MC_CHECK( ok, "after-failure", "after a failed %s the target is neither old nor new", nm );
					m[i] = now;
				}
				(void)assign_from_value;
				for( unsigned q = 0; q < nslots; ++q ) check_one( s[q], m[q], nm );
				for( unsigned q = 0; q < nslots; ++q ) for( unsigned r = 0; r < q; ++r )
					MC_CHECK( not s[q] or s[q].get( ) != s[r].get( ), "shared", "two owners share one object after %s", nm );
				std::size_t live = freed.size( );
				for( auto const &x : m ) live += x.has_value( );
				MC_CHECK( mc::tr::reg.n == live, "live", "after %s %u objects are alive, expected %zu", nm, mc::tr::reg.n, live );
			}
			mc::set_fault_budget( 0 );
			for( T *p : freed ) delete p;
			freed.clear( );
		} );
	}

	// ---- heap_value ---------------------------------------------------------------
	template<typename T>
	void heap_values( int depth, unsigned nslots, unsigned faults ) {
		using W = daw::heap_value<T>;
		mc::with_tracking( [&] {
			W s[3] = { W( 1 ), W( 2 ), W( 1 ) };
			std::vector<M> m( nslots );
			m[0] = 1; m[1] = 2; if( nslots > 2 ) m[2] = 1;
			for( unsigned q = nslots; q < 3; ++q ) { auto t = W( std::move( s[q] ) ); }
			mc::set_fault_budget( faults );
			unsigned left = faults;
			for( int k = 0; k < depth; ++k ) {
				if( not mc::enter_state( hash_model( m, left ), unsigned( depth - k ) ) ) break;
				unsigned const op = mc::choose( 9 );
				unsigned const i = mc::choose( nslots );
				unsigned const j = op < 5 or op == 6 ? mc::choose( nslots ) : 0;
				auto const before = m;
				char const *nm = "";
				bool threw = attempt( [&] {
					switch( op ) {
					case 0: nm = "copy assignment"; s[i] = std::as_const( s[j] ); m[i] = m[j]; break;
					case 1: nm = "move assignment"; s[i] = std::move( s[j] ); if( i != j ) { m[i] = m[j]; m[j] = { }; } break;
					case 2: { nm = "copy construction (const)"; W t( std::as_const( s[j] ) ); s[i].swap( t ); m[i] = m[j]; } break;
					case 3: { nm = "copy construction (mutable)"; W t( s[j] ); swap( s[i], t ); m[i] = m[j]; } break;
					case 4: nm = "swap"; swap( s[i], s[j] ); std::swap( m[i], m[j] ); break;
					case 5: nm = "write"; if( m[i] ) { s[i]->v = 3 - *m[i]; s[i].get( ); m[i] = 3 - *m[i]; } break;
					case 6: {
						nm = "compare";
						if( m[i] and m[j] ) {
							int const c = three( m[i], m[j] );
							auto const &a = s[i];
							auto const &b = s[j];
							MC_CHECK( ( a == b ) == ( c == 0 ) and ( a != b ) == ( c != 0 ) and ( a < b ) == ( c < 0 ) and ( a > b ) == ( c > 0 ) and ( a <= b ) == ( c <= 0 ) and ( a >= b ) == ( c >= 0 ), "compare", "comparison disagrees with the values" );
						}
					} break;
					case 7: nm = "replace"; s[i] = W( 2 ); m[i] = 2; break;
					case 8: nm = "default"; s[i] = W( ); m[i] = 0; break;
					}
				} );
				mc::note( "%s slot %u/%u%s", nm, i, j, threw ? " (failed)" : "" );
				if( threw ) {
					if( left ) --left;
					m = before;
					M now = s[i].ptr( ) ? M( mc::val( *s[i] ) ) : M{ };
					MC_CHECK( now == before[i], "after-failure", "a failed %s changed its target", nm );
				}
				std::size_t live = 0;
				for( unsigned q = 0; q < nslots; ++q ) {
					auto const &c = s[q];
					MC_CHECK( ( c.ptr( ) != nullptr ) == m[q].has_value( ), "engaged", "after %s slot %u engaged %d", nm, q, int( c.ptr( ) != nullptr ) );
					if( m[q] ) { MC_CHECK( mc::val( *c ) == *m[q] and mc::val( c.get( ) ) == *m[q] and c.operator->( ) == c.ptr( ), "value", "after %s slot %u is %d, expected %d", nm, q, mc::val( *c ), *m[q] ); ++live; }
				}
				MC_CHECK( mc::tr::reg.n == live, "live", "after %s %u objects alive, expected %zu", nm, mc::tr::reg.n, live );
			}
			mc::set_fault_budget( 0 );
		} );
	}

	struct Small { // model contents: never allocates
		int a[4] = { };
		std::size_t n = 0;
		Small( ) = default;
		Small( std::initializer_list<int> l ) { for( int x : l ) a[n++] = x; }
		Small( std::size_t c, int v ) { while( n < c ) a[n++] = v; }
		Small( int const *f, int const *l ) { while( f != l ) a[n++] = *f++; }
		std::size_t size( ) const { return n; }
		bool empty( ) const { return n == 0; }
		int const *begin( ) const { return a; }
		int const *end( ) const { return a + n; }
		int &back( ) { return a[n - 1]; }
		int &front( ) { return a[0]; }
		int back( ) const { return a[n - 1]; }
		int front( ) const { return a[0]; }
		int operator[]( std::size_t i ) const { return a[i]; }
		void push_back( int x ) { if( n == 4 ) mc::fail( "size", "more elements than were ever given" ); a[n++] = x; }
		bool operator==( Small const & ) const = default;
	};

	// ---- heap_array --------------------------------------------------------------------
	template<typename T>
	void arrays( int depth, unsigned faults ) {
		using W = daw::heap_array<T>;
		using V = std::optional<Small>; // nullopt: no storage
		constexpr unsigned nslots = 2;
		mc::with_tracking( [&] {
			W s[nslots];
			V m[nslots];
			mc::set_fault_budget( faults );
			unsigned left = faults;
			auto contents = []( W const &w ) {
				Small r;
				for( auto const &x : w ) r.push_back( mc::val( x ) );
				return r;
			};
			for( int k = 0; k < depth; ++k ) {
				std::uint64_t h = left;
				for( auto const &x : m ) { h = mc::mix( h, x ? x->size( ) + 1 : 0 ); if( x ) for( int q : *x ) h = mc::mix( h, std::uint64_t( q ) ); }
				if( not mc::enter_state( h, unsigned( depth - k ) ) ) break;
				unsigned const op = mc::choose( 11 );
				unsigned const i = mc::choose( nslots );
				unsigned const j = op < 4 ? mc::choose( nslots ) : 0;
				unsigned const n = op >= 4 and op <= 7 ? mc::choose( 4 ) : 0;
				V const before[nslots] = { m[0], m[1] };
				auto norm = []( V const &x ) { return x ? *x : Small{ }; };
				char const *nm = "";
				bool threw = attempt( [&] {
					switch( op ) {
					case 0: nm = "copy assignment"; s[i] = std::as_const( s[j] ); m[i] = m[j]; if( not m[i] ) m[i] = Small{ }; break;
					case 1: {
						nm = "move assignment"; s[i] = std::move( s[j] );
						if( i != j ) { m[i] = m[j]; m[j] = V{ }; }
					} break;
					case 2: { nm = "copy construction"; W t( std::as_const( s[j] ) ); s[i].swap( t ); m[i] = norm( m[j] ); } break;
					case 3: { nm = "swap"; swap( s[i], s[j] ); std::swap( m[i], m[j] ); } break;
					case 4: nm = "sized"; { Small x( n, 7 ); W t( n, T( 7 ) ); s[i] = std::move( t ); m[i] = x; } break;
					case 5: nm = "from pointer"; { T src[3] = { T( 1 ), T( 2 ), T( 1 ) }; Small all{ 1, 2, 1 }; unsigned const c = n < 3 ? n : 3; W t( src, c ); s[i].swap( t ); m[i] = Small( all.begin( ), all.begin( ) + c ); } break;
					case 6:
						nm = "from list";
						if( n == 0 ) { s[i] = std::initializer_list<T>{ }; m[i] = Small{ }; }
						if( n == 1 ) { s[i] = { T( 4 ) }; m[i] = Small{ 4 }; }
						if( n == 2 ) { s[i] = { T( 1 ), T( 2 ) }; m[i] = Small{ 1, 2 }; }
						if( n == 3 ) { s[i] = { T( 2 ), T( 2 ), T( 1 ) }; m[i] = Small{ 2, 2, 1 }; }
						break;
					case 7: {
						nm = "find_first_of";
						if( m[i] ) {
							T const needle( int( n ) + 1 );
							auto const &x = *m[i];
							auto want = std::size_t( std::find( x.begin( ), x.end( ), int( n ) + 1 ) - x.begin( ) );
							MC_CHECK( std::size_t( s[i].find_first_of( needle ) - s[i].begin( ) ) == want, "find", "found at %td, expected %zu", s[i].find_first_of( needle ) - s[i].begin( ), want );
							for( std::size_t st = 0; st <= x.size( ); ++st ) {
								auto w2 = std::size_t( std::find( x.begin( ) + std::ptrdiff_t( st ), x.end( ), int( n ) + 1 ) - x.begin( ) );
								MC_CHECK( std::size_t( s[i].find_first_of( needle, s[i].cbegin( ) + st ) - s[i].begin( ) ) == w2, "find-from", "from %zu", st );
							}
						}
					} break;
					case 8: nm = "clear"; s[i].clear( ); m[i] = V{ }; break;
					case 9: nm = "move construction"; { W t( std::move( s[i] ) ); MC_CHECK( contents( t ) == norm( m[i] ) and t.size( ) == norm( m[i] ).size( ), "move", "moved array differs" ); m[i] = V{ }; } break;
					case 10: nm = "write"; if( m[i] and not m[i]->empty( ) ) { s[i].back( ).v = 5; m[i]->back( ) = 5; s[i][0].v = 6; m[i]->front( ) = 6; } break;
					}
				} );
				mc::note( "%s slot %u/%u n %u%s", nm, i, j, n, threw ? " (failed)" : "" );
				if( threw ) { if( left ) --left; for( unsigned q = 0; q < nslots; ++q ) m[q] = before[q]; }
				std::size_t live = 0;
				for( unsigned q = 0; q < nslots; ++q ) {
					auto const &c = s[q];
					auto const x = norm( m[q] );
					MC_CHECK( c.size( ) == x.size( ) and c.empty( ) == x.empty( ) and c.end( ) - c.begin( ) == std::ptrdiff_t( x.size( ) ), "size", "after %s slot %u has size %zu, expected %zu", nm, q, c.size( ), x.size( ) );
					MC_CHECK( contents( c ) == x, "contents", "after %s slot %u has other contents", nm, q );
					if( m[q] ) { MC_CHECK( static_cast<bool>( c ), "bool", "an array that was given is reported as none" ); live += x.size( ) + 1; }
					else MC_CHECK( not c and not c.data( ), "bool", "a missing array is reported as present" );
					for( std::size_t p = 0; p < x.size( ); ++p ) MC_CHECK( mc::val( c[p] ) == x[p] and mc::val( c.at( p ) ) == x[p] and mc::val( c.data( )[p] ) == x[p], "index", "element %zu", p );
					bool out = false;
					try { (void)c.at( x.size( ) ); } catch( std::out_of_range const & ) { out = true; }
					MC_CHECK( out, "at", "at(size()) is not reported" );
					if( not x.empty( ) ) MC_CHECK( mc::val( c.front( ) ) == x.front( ) and mc::val( c.back( ) ) == x.back( ), "ends", "front or back" );
				}
				// how many spare slots an array carries is its own business, but never fewer objects than elements
				std::size_t need = 0;
				for( auto const &x : m ) if( x ) need += x->size( );
				MC_CHECK( mc::tr::reg.n >= need and mc::tr::reg.n <= live, "live", "after %s %u objects alive for %zu elements", nm, mc::tr::reg.n, need );
			}
			mc::set_fault_budget( 0 );
		} );
	}

	// ---- poly_value / poly_var ------------------------------------------------------------
	struct Base {
		TM v;
		Base( ) : v( 0 ) {}
		explicit Base( int x ) : v( x ) {}
		Base( Base const & ) = default;
		Base( Base && ) = default;
		Base &operator=( Base const & ) = default;
		Base &operator=( Base && ) = default;
		virtual ~Base( ) = default;
		virtual int kind( ) const { return 0; }
	};
	struct D1 : Base {
		TC w;
		explicit D1( int x ) : Base( x ), w( x + 10 ) {}
		int kind( ) const override { return w.get( ) == v.get( ) + 10 ? 1 : 100; }
	};
	struct D2 : Base {
		TM w, u;
		explicit D2( int x ) : Base( x ), w( x + 20 ), u( 5 ) {}
		int kind( ) const override { return w.get( ) == v.get( ) + 20 and u.get( ) == 5 ? 2 : 200; }
	};
	unsigned parts( int kind ) { return unsigned( kind + 1 ); }

	void poly( int depth, unsigned faults ) {
		using P = daw::poly_value<Base>;
		struct S { int kind, v; };
		mc::with_tracking( [&] {
			P s[2] = { P( ), P( daw::construct_emplace<D1>, 1 ) };
			S m[2] = { { 0, 0 }, { 1, 1 } };
			bool moved[2] = { false, false };
			mc::set_fault_budget( faults );
			unsigned left = faults;
			for( int k = 0; k < depth; ++k ) {
				std::uint64_t h = left;
				for( int q = 0; q < 2; ++q ) h = mc::mix( h, std::uint64_t( moved[q] ? 9999 : m[q].kind * 100 + m[q].v ) * 4 + std::uint64_t( m[q].kind ) );
				if( not mc::enter_state( h, unsigned( depth - k ) ) ) break;
				unsigned const op = mc::choose( 9 );
				unsigned const i = mc::choose( 2 );
				unsigned const j = op < 3 ? mc::choose( 2 ) : i;
				S const before[2] = { m[0], m[1] };
				bool const bm[2] = { moved[0], moved[1] };
				char const *nm = "";
				bool threw = attempt( [&] {
					switch( op ) {
					case 0: nm = "copy assignment"; s[i] = std::as_const( s[j] ); m[i] = m[j]; moved[i] = moved[j]; break;
					case 1: // moves allocate and are noexcept: no failure injected
						nm = "move assignment";
						{ struct Off { unsigned b; ~Off( ) { mc::set_fault_budget( b ); } } off{ left }; mc::set_fault_budget( 0 ); s[i] = std::move( s[j] ); }
						if( i != j ) { m[i] = m[j]; moved[i] = moved[j]; moved[j] = true; }
						break;
					case 2: {
						nm = "copy construction";
						P t( std::as_const( s[j] ) );
						{ struct Off { unsigned b; ~Off( ) { mc::set_fault_budget( b ); } } off{ left }; mc::set_fault_budget( 0 ); s[i] = std::move( t ); }
						m[i] = m[j]; moved[i] = moved[j];
					} break;
					default: {
						int const v = op & 1 ? 1 : 2;
						nm = "assign a value";
						mc::set_fault_budget( 0 );
						struct Off { unsigned b; ~Off( ) { mc::set_fault_budget( b ); } } off{ left };
						if( op == 3 or op == 4 ) { s[i] = P( D1( v ) ); m[i] = { 1, v }; }
						if( op == 5 or op == 6 ) { D2 d( v ); s[i] = d; m[i] = { 2, v }; }
						if( op == 7 ) { s[i] = P( daw::construct_emplace<D2>, v ); m[i] = { 2, v }; }
						if( op == 8 ) { nm = "write"; if( not moved[i] and m[i].kind == 0 ) { s[i]->v = TM( v ); m[i].v = v; } return; }
						moved[i] = false;
					}
					}
				} );
				mc::note( "%s slot %u/%u op %u%s", nm, i, j, op, threw ? " (failed)" : "" );
				if( threw ) { if( left ) --left; for( int q = 0; q < 2; ++q ) { m[q] = before[q]; moved[q] = bm[q]; } }
				unsigned live = 0;
				for( int q = 0; q < 2; ++q ) {
					auto const &c = s[q];
					live += parts( m[q].kind );
					if( moved[q] ) continue;
					MC_CHECK( c->kind( ) == m[q].kind, "kind", "after %s slot %d is of kind %d, expected %d", nm, q, c->kind( ), m[q].kind );
					Base const &r = c;
					MC_CHECK( ( *c ).v.get( ) == m[q].v and c.get( )->v.get( ) == m[q].v and &r == c.get( ), "value", "after %s slot %d is %d, expected %d", nm, q, c->v.get( ), m[q].v );
				}
				MC_CHECK( s[0].get( ) != s[1].get( ), "shared", "two values share one object" );
				MC_CHECK( mc::tr::reg.n == live, "live", "after %s %u parts alive, expected %u", nm, mc::tr::reg.n, live );
			}
			mc::set_fault_budget( 0 );
		} );
	}
	void variant( int depth ) {
		using P = daw::poly_var<Base, Base, D1, D2>;
		struct S { int kind, v; };
		mc::with_tracking( [&] {
			P s[2];
			S m[2] = { { 0, 0 }, { 0, 0 } };
			for( int k = 0; k < depth; ++k ) {
				std::uint64_t h = 3;
				for( auto const &x : m ) h = mc::mix( h, std::uint64_t( x.kind * 10 + x.v ) );
				if( not mc::enter_state( h, unsigned( depth - k ) ) ) break;
				unsigned const op = mc::choose( 6 );
				unsigned const i = mc::choose( 2 );
				int const v = mc::choose_range( 1, 2 );
				if( op == 0 ) { s[i] = Base( v ); m[i] = { 0, v }; }
				if( op == 1 ) { s[i] = D1( v ); m[i] = { 1, v }; }
				if( op == 2 ) { D2 const d( v ); s[i] = d; m[i] = { 2, v }; }
				if( op == 3 ) { s[i] = std::as_const( s[1 - i] ); m[i] = m[1 - i]; }
				if( op == 4 ) { P t( std::as_const( s[1 - i] ) ); s[i] = std::move( t ); m[i] = m[1 - i]; }
				if( op == 5 and m[i].kind == 0 ) { ( *s[i] ).v = TM( v ); m[i].v = v; }
				unsigned live = 0;
				for( int q = 0; q < 2; ++q ) {
					auto const &c = s[q];
					live += parts( m[q].kind );
					MC_CHECK( c->kind( ) == m[q].kind and ( *c ).kind( ) == m[q].kind and c->v.get( ) == m[q].v and ( *c ).v.get( ) == m[q].v, "poly-var", "slot %d holds another value", q );
					MC_CHECK( &*c == c.operator->( ) and static_cast<Base const *>( &*s[q] ) == c.operator->( ), "poly-var-ref", "dereference does not refer to the held value" );
				}
				MC_CHECK( mc::tr::reg.n == live, "live", "%u parts alive, expected %u", mc::tr::reg.n, live );
			}
		} );
	}
} // namespace

MC_TEST( value_ptr ) { pointers<daw::value_ptr<TM>>( mc::by_tier( 6, 12 ), 2, 1 ); }
MC_TEST( value_ptr_throwing_move ) { pointers<daw::value_ptr<TC>>( mc::by_tier( 5, 10 ), 2, 1 ); }
MC_TEST( value_ptr_three ) { pointers<daw::value_ptr<TM>>( mc::by_tier( 6, 12 ), 3, 0 ); }
MC_TEST( copiable ) { pointers<daw::copiable_unique_ptr<TM>>( mc::by_tier( 6, 9 ), 2, 1 ); }
MC_TEST( copiable_throwing_move ) { pointers<daw::copiable_unique_ptr<TC>>( mc::by_tier( 5, 8 ), 2, 1 ); }
MC_TEST( copiable_three ) { pointers<daw::copiable_unique_ptr<TM>>( mc::by_tier( 6, 9 ), 3, 0 ); }
MC_TEST( heap_value ) { heap_values<TM>( mc::by_tier( 8, 14 ), 2, 1 ); }
MC_TEST( heap_value_three ) { heap_values<TM>( mc::by_tier( 5, 9 ), 3, 1 ); }
MC_TEST( heap_value_throwing ) { heap_values<TC>( mc::by_tier( 8, 14 ), 2, 1 ); }
MC_TEST( heap_value_forward ) {
	// calls and subscripts reach the held object itself
	struct Fn {
		int a[3] = { 1, 2, 3 };
		int &operator[]( std::size_t i ) { return a[i]; }
		int const &operator[]( std::size_t i ) const { return a[i]; }
		int operator( )( int x, int y ) const { return x * 10 + y; }
	};
	daw::heap_value<Fn> h;
	for( std::size_t i = 0; i < 3; ++i ) {
		h[i] = 40 + int( i );
		MC_CHECK( h->a[i] == 40 + int( i ), "subscript", "writing through [] does not reach the value" );
		MC_CHECK( std::as_const( h )[i] == 40 + int( i ), "subscript", "const []" );
	}
	MC_CHECK( h( 1, 2 ) == 12 and std::as_const( h )( 3, 4 ) == 34, "call", "call is not forwarded" );
}
template<typename T>
static void long_arrays( ) {
	using W = daw::heap_array<T>;
	unsigned const lengths[] = { 8, 16, 17, 33, 64, 65, 127, 128, 129, 255, 256, 257 };
	unsigned const n = lengths[mc::choose( 12 )];
	bool const pointer = mc::choose( 2 );
	mc::with_tracking( [&] {
		W a;
		if( pointer ) {
			std::vector<T> src;
			for( unsigned i = 0; i < n; ++i ) src.emplace_back( int( i ) );
			W t( src.data( ), n );
			a = std::move( t );
		} else {
			W t( n, T( 3 ) );
			for( unsigned i = 0; i < n; ++i ) { MC_CHECK( mc::val( t[i] ) == 3, "fill", "element %u of %u", i, n ); t[i].v = int( i ); }
			a = std::move( t );
		}
		W b( std::as_const( a ) ), c;
		c = std::as_const( b );
		swap( b, a );
		for( W const *w : { &a, &b, &c } ) {
			MC_CHECK( w->size( ) == n and w->end( ) - w->begin( ) == std::ptrdiff_t( n ), "size", "%zu for %u", w->size( ), n );
			for( unsigned i = 0; i < n; ++i ) MC_CHECK( mc::val( ( *w )[i] ) == int( i ), "index", "element %u of %u is %d", i, n, mc::val( ( *w )[i] ) );
			unsigned const at[] = { 0, n / 2, n - 1, n };
			for( unsigned p : at ) MC_CHECK( std::size_t( w->find_first_of( T( int( p ) ) ) - w->begin( ) ) == p, "find", "%u in %u", p, n );
			MC_CHECK( mc::val( w->front( ) ) == 0 and mc::val( w->back( ) ) == int( n ) - 1, "ends", "of %u", n );
		}
		mc::step( );
	} );
}
MC_TEST( heap_array_long ) { long_arrays<TM>( ); }
MC_TEST( heap_array_long_throwing ) { long_arrays<TC>( ); }
MC_TEST( heap_array ) { arrays<TM>( mc::by_tier( 5, 8 ), 1 ); }
MC_TEST( heap_array_throwing ) { arrays<TC>( mc::by_tier( 4, 7 ), 1 ); }
MC_TEST( poly_value ) { poly( mc::by_tier( 7, 12 ), 1 ); }
MC_TEST( poly_var ) { variant( mc::by_tier( 6, 10 ) ); }
