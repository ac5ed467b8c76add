// Optional, expected and sum types: every history over two objects up to a depth
// with at most one injected failure, against the ideal sum type.
#include "mc.h"
#include "mc_tracked.h"
#include <memory>
#include <optional>
#include <stdexcept>
#include <utility>
#include <vector>

#include <daw/daw_expected.h>
#include <daw/daw_optional.h>
#include <daw/daw_union_pair.h>
#include <daw/daw_validated.h>
#include <daw/deprecated/daw_optional_poly.h>
#include <daw/traits/daw_traits_concepts.h>
#include <tuple>
#include <daw/deprecated/daw_checked_expected.h>

using TM = mc::Tracked<mc::NoThrowMove>;
using TC = mc::Tracked<0>;

namespace {
	using M = std::optional<int>;
	template<typename F>
	bool attempt( F &&f, bool alloc = true ) {
		try {
			mc::FaultScope fs( alloc );
			f( );
		} catch( mc::InjectedFault const & ) {
			return true;
		} catch( std::bad_alloc const & ) {
			return true;
		}
		return false;
	}
	std::uint64_t hm( M const &m ) { return m ? std::uint64_t( *m + 1000 ) : 0; }
	template<typename E, typename F>
	bool throws( F &&f ) {
		try { f( ); } catch( E const & ) { return true; }
		return false;
	}

	// ---- daw::optional of a value -----------------------------------------------------
	template<typename O>
	void check_opt( O const &o, M const &m, char const *after ) {
		MC_CHECK( o.has_value( ) == m.has_value( ) and static_cast<bool>( o ) == m.has_value( ), "optional-engaged", "after %s: engaged %d, expected %d", after, int( o.has_value( ) ), int( m.has_value( ) ) );
		if( m ) MC_CHECK( mc::val( *o ) == *m and mc::val( o.value( ) ) == *m and &*o == o.operator->( ), "optional-value", "after %s: %d, expected %d", after, mc::val( *o ), *m );
		else MC_CHECK( throws<std::bad_optional_access>( [&] { (void)o.value( ); } ), "optional-access", "value() of an empty optional does not throw" );
	}
	template<typename A, typename B>
	void cmp6( A const &a, B const &b, int c, char const *what ) {
		MC_CHECK( ( a == b ) == ( c == 0 ), "optional-eq", "%s: ==", what );
		MC_CHECK( ( a != b ) == ( c != 0 ), "optional-ne", "%s: !=", what );
		MC_CHECK( ( a < b ) == ( c < 0 ), "optional-lt", "%s: <", what );
		MC_CHECK( ( a > b ) == ( c > 0 ), "optional-gt", "%s: >", what );
		MC_CHECK( ( a <= b ) == ( c <= 0 ), "optional-le", "%s: <=", what );
		MC_CHECK( ( a >= b ) == ( c >= 0 ), "optional-ge", "%s: >=", what );
	}
	int three( M const &a, M const &b ) {
		if( not a or not b ) return int( a.has_value( ) ) - int( b.has_value( ) );
		return *a < *b ? -1 : *a > *b;
	}
	template<typename T>
	void optionals( int depth, unsigned faults ) {
		using O = daw::optional<T>;
		mc::with_tracking( [&] {
			O s[2];
			M m[2];
			mc::set_fault_budget( faults );
			unsigned left = faults;
			for( int k = 0; k < depth; ++k ) {
				if( not mc::enter_state( mc::mix( mc::mix( hm( m[0] ), hm( m[1] ) ), left ), unsigned( depth - k ) ) ) break;
				unsigned const op = mc::choose( 13 );
				unsigned const i = mc::choose( 2 );
				unsigned const j = op < 5 ? mc::choose( 2 ) : i;
				int const v = op >= 5 and op < 10 ? mc::choose_range( 1, 2 ) : 0;
				M const before[2] = { m[0], m[1] };
				char const *nm = "";
				bool const threw = attempt( [&] {
					switch( op ) {
					case 0: nm = "copy assignment"; s[i] = std::as_const( s[j] ); m[i] = m[j]; break;
					case 1: nm = "move assignment"; s[i] = std::move( s[j] ); if( i != j ) { m[i] = m[j]; if( m[j] ) m[j] = mc::MOVED; } break;
					case 2: nm = "swap"; s[i].swap( s[j] ); std::swap( m[i], m[j] ); break;
					case 3: { nm = "copy construction"; O t( std::as_const( s[j] ) ); check_opt( t, m[j], nm ); O u( s[j] ); check_opt( u, m[j], nm ); } break;
					case 4: { nm = "move construction"; O t( std::move( s[i] ) ); check_opt( t, m[i], nm ); if( m[i] ) m[i] = mc::MOVED; } break;
					case 5: { nm = "assign a value"; T const t( v ); s[i] = t; m[i] = v; } break;
					case 6: nm = "assign a temporary"; s[i] = T( v ); m[i] = v; break;
					case 7: nm = "assign a convertible value"; s[i] = v; m[i] = v; break;
					case 8: { nm = "emplace"; m[i] = { }; auto &r = s[i].emplace( v ); MC_CHECK( &r == &*s[i], "optional-emplace", "emplace returns another object" ); m[i] = v; } break;
					case 9: { nm = "construct from a value"; O t( T{ v } ); check_opt( t, M( v ), nm ); O u( v ); check_opt( u, M( v ), nm ); O w = T( v ); check_opt( w, M( v ), nm ); } break;
					case 10: nm = "reset"; s[i].reset( ); m[i] = { }; break;
					case 11: nm = "assign nullopt"; s[i] = daw::nullopt; m[i] = { }; { O t( daw::nullopt ); check_opt( t, M{ }, nm ); } break;
					case 12: nm = "take the value out"; if( m[i] ) { T t( *std::move( s[i] ) ); MC_CHECK( mc::val( t ) == *m[i], "optional-move-out", "moved-out value" ); m[i] = mc::MOVED; T u( std::move( s[i] ).value( ) ); s[i]->v = 2; m[i] = 2; } break;
					}
				} );
				mc::note( "%s %u/%u value %d%s", nm, i, j, v, threw ? " (failed)" : "" );
				if( threw ) {
					if( left ) --left;
					// still a valid optional: whatever it now holds is what it held before, or the new value, or nothing
					for( unsigned q = 0; q < 2; ++q ) {
						M now = s[q].has_value( ) ? M( mc::val( *s[q] ) ) : M{ };
						bool const involved = q == i or ( op < 3 and q == j );
						MC_CHECK( now == before[q] or ( involved and ( not now or now == before[1 - q] or *now == v or *now == mc::MOVED or *now == 2 ) ), "optional-after-failure", "after a failed %s optional %u holds something else", nm, q );
						m[q] = now;
					}
				}
				unsigned live = 0;
				for( unsigned q = 0; q < 2; ++q ) { check_opt( s[q], m[q], nm ); live += m[q].has_value( ); mc::obs( hm( m[q] ) ); }
				MC_CHECK( mc::tr::reg.n == live, "optional-live", "after %s %u values alive, expected %u", nm, mc::tr::reg.n, live );
				cmp6( std::as_const( s[0] ), std::as_const( s[1] ), three( m[0], m[1] ), "two optionals" );
				cmp6( std::as_const( s[0] ), daw::nullopt, three( m[0], M{ } ), "optional and nullopt" );
				cmp6( daw::nullopt, std::as_const( s[0] ), three( M{ }, m[0] ), "nullopt and optional" );
			}
			mc::set_fault_budget( 0 );
			for( int v = 1; v <= 2; ++v ) {
				T const t( v );
				cmp6( std::as_const( s[0] ), t, three( m[0], M( v ) ), "optional and value" );
				cmp6( t, std::as_const( s[0] ), three( M( v ), m[0] ), "value and optional" );
			}
		} );
	}
	// pairs of integer optionals of different widths: every ordering
	void optional_compare( ) {
		for( int a = -1; a <= 3; ++a )
			for( int b = -1; b <= 3; ++b ) {
				daw::optional<int> x;
				daw::optional<long> y;
				M p, q;
				if( a >= 0 ) { x = a; p = a; }
				if( b >= 0 ) { y = long( b ); q = b; }
				cmp6( x, y, three( p, q ), "int and long" );
				if( b >= 0 ) { cmp6( x, b, three( p, q ), "optional and int" ); cmp6( b, x, three( q, p ), "int and optional" ); }
				mc::count_case( );
			}
	}
	void optional_refs( int depth ) {
		static int obj[3];
		for( int i = 0; i < 3; ++i ) obj[i] = i;
		using O = daw::optional<int &>;
		O s[2];
		int m[2] = { -1, -1 };
		int vals[3] = { 0, 1, 2 };
		for( int k = 0; k < depth; ++k ) {
			std::uint64_t h = 1;
			for( int x : m ) h = mc::mix( h, std::uint64_t( x + 1 ) );
			for( int x : vals ) h = mc::mix( h, std::uint64_t( x ) );
			if( not mc::enter_state( h, unsigned( depth - k ) ) ) break;
			unsigned const op = mc::choose( 8 );
			unsigned const i = mc::choose( 2 );
			unsigned const o = op < 2 ? mc::choose( 3 ) : 0;
			switch( op ) {
			case 0: s[i] = O( obj[o] ); m[i] = int( o ); break;
			case 1: { O t( obj[o] ); s[i].swap( t ); MC_CHECK( t.has_value( ) == ( m[i] >= 0 ), "ref-swap", "swap" ); m[i] = int( o ); } break;
			case 2: s[i] = s[1 - i]; m[i] = m[1 - i]; break;
			case 3: s[i].reset( ); m[i] = -1; break;
			case 4: s[i] = daw::nullopt; m[i] = -1; break;
			case 5: if( m[i] >= 0 ) { *s[i] = 5 - *s[i]; vals[m[i]] = 5 - vals[m[i]]; } break;
			case 6: s[0].swap( s[1] ); std::swap( m[0], m[1] ); break;
			case 7: { O t( s[i] ); MC_CHECK( t.has_value( ) == ( m[i] >= 0 ) and ( m[i] < 0 or &*t == &obj[m[i]] ), "ref-copy", "copy refers elsewhere" ); } break;
			}
			for( int q = 0; q < 3; ++q ) MC_CHECK( obj[q] == vals[q], "ref-target", "object %d changed", q );
			for( int q = 0; q < 2; ++q ) {
				auto const &c = s[q];
				MC_CHECK( c.has_value( ) == ( m[q] >= 0 ) and static_cast<bool>( c ) == c.has_value( ), "ref-engaged", "engaged" );
				if( m[q] >= 0 ) MC_CHECK( &*c == &obj[m[q]] and &c.value( ) == &obj[m[q]] and c.operator->( ) == &obj[m[q]] and &s[q].value( ) == &obj[m[q]], "ref-bound", "refers to another object" );
				else MC_CHECK( throws<std::bad_optional_access>( [&] { (void)c.value( ); } ), "ref-access", "value() of empty" );
			}
			auto mv = [&]( int q ) { return m[q] >= 0 ? M( vals[m[q]] ) : M{ }; };
			cmp6( s[0], s[1], three( mv( 0 ), mv( 1 ) ), "two references" );
		}
		static_assert( not std::is_constructible_v<daw::optional<int const &>, int>, "a reference must not bind to a temporary" );
		static_assert( std::is_constructible_v<daw::optional<int const &>, int const &> );
	}

	// ---- expected ----------------------------------------------------------------------
	struct Err1 : std::runtime_error { // monitored like every value
		TM t;
		explicit Err1( int v ) : std::runtime_error( v == 1 ? "one" : "two" ), t( v ) {}
	};
	struct Err2 { int x; };
	struct Err3 { int x; }; // never expected
	enum Kind { Empty, Value, Ex1, Ex2, Inj };
	struct S { Kind k = Empty; int v = 0; bool operator==( S const & ) const = default; };

	template<typename X>
	S look( X &x ) { // classify through the accessors
		S r;
		bool const e = x.empty( ), hv = x.has_value( ), he = x.has_exception( );
		MC_CHECK( int( e ) + int( hv ) + int( he ) == 1, "states", "empty %d value %d exception %d", int( e ), int( hv ), int( he ) );
		MC_CHECK( static_cast<bool>( x ) == not e, "expected-bool", "operator bool" );
		MC_CHECK( ( x.get_exception_ptr( ) != nullptr ) == he, "exception-ptr", "get_exception_ptr() and has_exception() disagree" );
		if( hv ) {
			r.k = Value;
			x.throw_if_exception( );
			if constexpr( requires { x.operator->( ); } ) {
				r.v = mc::val( x.get( ) );
				MC_CHECK( mc::val( *x ) == r.v and x.operator->( ) == &x.get( ) and mc::val( std::as_const( x ).get( ) ) == r.v, "expected-access", "accessors disagree" );
			} else x.get( );
			MC_CHECK( x.get_exception_message( ).empty( ), "message", "message of a value" );
		}
		if( he ) {
			for( int way = 0; way < 2; ++way ) {
				S t;
				try {
					if( way ) (void)x.get( );
					else x.throw_if_exception( );
					mc::fail( "no-throw", "access to the value while holding an exception" );
				} catch( Err1 const &ex ) {
					t = { Ex1, ex.t.get( ) };
					MC_CHECK( x.get_exception_message( ) == ex.what( ), "message", "message is not the exception's" );
				} catch( Err2 const &ex ) {
					t = { Ex2, ex.x };
					MC_CHECK( x.get_exception_message( ).empty( ), "message", "message of something unnamed" );
				} catch( mc::InjectedFault const & ) { t = { Inj, 0 };
				} catch( std::bad_alloc const & ) { t = { Inj, 0 }; }
				if( way ) MC_CHECK( t == r, "rethrow", "get() and throw_if_exception() throw different things" );
				r = t;
			}
		}
		return r;
	}
	std::uint64_t hs( S const &s ) { return std::uint64_t( s.k ) * 100 + std::uint64_t( s.v + 90 ); }

	template<typename X, bool Void, bool Checked>
	void expecteds( int depth, unsigned faults ) {
		mc::with_tracking( [&] {
			X s[2];
			S m[2];
			mc::set_fault_budget( faults );
			unsigned left = faults;
			for( int k = 0; k < depth; ++k ) {
				if( not mc::enter_state( mc::mix( mc::mix( hs( m[0] ), hs( m[1] ) ), left ), unsigned( depth - k ) ) ) break;
				unsigned const op = mc::choose( 13 );
				unsigned const i = mc::choose( 2 );
				unsigned const j = op < 2 ? mc::choose( 2 ) : i;
				int const v = op >= 4 and op < 12 ? mc::choose_range( 1, 2 ) : 0;
				S const before[2] = { m[0], m[1] };
				char const *nm = "";
				[[maybe_unused]] auto code = [&]( int how ) {
					if( how == 1 ) throw Err1( v );
					if( how == 2 ) throw Err2{ v };
					if( how == 3 ) throw Err3{ v };
					if constexpr( not Void ) return typename X::value_type( v );
				};
				bool const how = op == 5 and not Checked and mc::choose( 2 );
				bool const threw = attempt( [&] {
					switch( op ) {
					case 0: nm = "copy assignment"; s[i] = std::as_const( s[j] ); m[i] = m[j]; break;
					case 1:
						nm = "move assignment"; s[i] = std::move( s[j] );
						if( i != j ) { m[i] = m[j]; if( m[j].k == Value and not Void ) m[j].v = mc::MOVED; else { mc::FaultScope off( false, false ); s[j] = X( ); m[j] = S{ }; } }
						break;
					case 2: { nm = "copy construction"; X t( std::as_const( s[i] ) ); X u( s[i] ); mc::FaultScope off( false, false ); MC_CHECK( look( t ) == m[i] and look( u ) == m[i], "copy", "a copy differs" ); } break;
					case 3: {
						nm = "move construction"; X t( std::move( s[i] ) );
						mc::FaultScope off( false, false );
						MC_CHECK( look( t ) == m[i], "move", "moved differs" );
						if( m[i].k == Value and not Void ) m[i].v = mc::MOVED; else { s[i] = X( ); m[i] = S{ }; }
					} break;
					case 4:
						nm = "assign a value";
						if constexpr( Void ) { s[i] = v % 2 != 0; m[i] = { Value, 0 }; }
						else if( v % 2 ) { s[i] = typename X::value_type( v ); m[i] = { Value, v }; }
						else { typename X::value_type const t( v ); s[i] = t; m[i] = { Value, v }; }
						break;
					case 5:
						nm = "set_value";
						if constexpr( Checked ) { if constexpr( Void ) { X t( 5 ); s[i] = t; m[i] = { Value, 0 }; } else { s[i] = X( typename X::value_type( v ) ); m[i] = { Value, v }; } }
						else if constexpr( Void ) { if( how ) s[i].set_value( 5 ); else s[i].set_value( ); m[i] = { Value, 0 }; }
						else if( how ) { typename X::value_type const t( v ); s[i].set_value( t ); m[i] = { Value, v }; }
						else { s[i].set_value( typename X::value_type( v ) ); m[i] = { Value, v }; }
						break;
					case 6: nm = "assign an exception"; { mc::FaultScope off( false, false ); s[i] = std::make_exception_ptr( Err1( v ) ); } m[i] = { Ex1, v }; break;
					case 7: {
						nm = "exception tag"; mc::FaultScope off( false, false );
						X t( typename X::exception_tag{ }, Err2{ v } ); s[i] = t; m[i] = { Ex2, v };
					} break;
					case 8: { nm = "from_code, value"; auto r = X::from_code( code, 0 ); mc::FaultScope off( false, false ); S const got = look( r ); MC_CHECK( got == ( S{ Value, Void ? 0 : v } ) or ( left and got.k == Inj ), "from-code", "from_code of a value holds kind %d value %d", int( got.k ), got.v ); if( got.k == Inj ) --left; s[i] = r; m[i] = got; } break;
					case 9: { nm = "from_code, exception"; mc::FaultScope off( false, false ); int const how = 1 + int( mc::choose( 2 ) ); auto r = X::from_code( code, how ); s[i] = r; m[i] = { how == 1 ? Ex1 : Ex2, v }; } break;
					case 10: {
						nm = "current exception"; mc::FaultScope off( false, false );
						try { throw Err2{ v }; } catch( ... ) {
							if constexpr( Checked ) { X t( typename X::exception_tag{ } ); s[i] = t; }
							else { if( mc::choose( 2 ) ) s[i].set_exception( ); else { X t( typename X::exception_tag{ } ); s[i] = t; } }
						}
						m[i] = { Ex2, v };
					} break;
					case 11: {
						nm = "construct by call"; mc::FaultScope off( false, false );
						bool ran = false;
						int const how = int( mc::choose( 3 ) );
						auto f = [&] { ran = true; return code( how ); };
						X t( f );
						MC_CHECK( ran, "call-skipped", "the callable is never run" );
						m[i] = how == 0 ? S{ Value, Void ? 0 : v } : S{ how == 1 ? Ex1 : Ex2, v };
						MC_CHECK( look( t ) == m[i], "call-result", "the outcome of the call is not what is held" );
						s[i] = t;
					} break;
					case 12:
						nm = "clear";
						if constexpr( Checked ) {
							// exceptions that were not declared are passed on
							mc::FaultScope off( false, false );
							bool any = false;
							try { (void)X::from_code( code, 3 ); } catch( ... ) { any = true; }
							MC_CHECK( any, "unexpected-kept", "an undeclared exception is stored" );
							any = false;
							try { s[i] = std::make_exception_ptr( Err3{ 1 } ); } catch( ... ) { any = true; }
							MC_CHECK( any, "unexpected-assigned", "an undeclared exception is assigned" );
							s[i] = X( ); m[i] = S{ };
						} else { s[i].clear( ); m[i] = S{ }; }
						break;
					}
				}, op != 4 and op != 5 );
				mc::note( "%s %u/%u value %d%s", nm, i, j, v, threw ? " (failed)" : "" );
				if( threw and left ) --left;
				for( unsigned q = 0; q < 2; ++q ) {
					S const now = look( s[q] );
					if( threw ) {
						bool const involved = q == i or ( op == 1 and q == j );
						MC_CHECK( now == before[q] or ( involved and ( now.k == Empty or now == before[1 - q] or now.v == v or now.v == mc::MOVED ) ), "after-failure", "after a failed %s object %u is of kind %d", nm, q, int( now.k ) );
						m[q] = now;
					} else MC_CHECK( now == m[q], "state", "after %s object %u has kind %d value %d, expected kind %d value %d", nm, q, int( now.k ), now.v, int( m[q].k ), m[q].v );
					mc::obs( hs( now ) );
				}
				if constexpr( not Checked ) {
					bool const eq = m[0] == m[1];
					// the same exception thrown twice is two exceptions, kept in two different objects
					bool const either = eq and ( m[0].k == Ex1 or m[0].k == Ex2 or m[0].k == Inj );
					MC_CHECK( either or ( s[0] == s[1] ) == eq, "expected-eq", "equality" );
					MC_CHECK( ( s[0] != s[1] ) == not( s[0] == s[1] ) and ( s[1] == s[0] ) == ( s[0] == s[1] ), "expected-eq", "inequality" );
					X c( std::as_const( s[0] ) );
					MC_CHECK( c == s[0] and not( c != s[0] ), "expected-eq", "a copy compares different" );
				}
			}
			mc::set_fault_budget( 0 );
			if constexpr( not Checked ) {
				s[0].clear( );
				if( mc::choose( 2 ) == 0 ) MC_CHECK( mc::aborts( [&] { (void)s[0].get( ); } ), "empty-get", "get() of an empty expected does not terminate" );
			}
		} );
	}
	void expected_helpers( ) {
		auto ok = daw::expected_from_code( []( int a, int b ) { return a * b; }, 6, 7 );
		MC_CHECK( ok.has_value( ) and ok.get( ) == 42, "helper", "expected_from_code" );
		auto bad = daw::expected_from_code( []( int ) -> int { throw Err2{ 3 }; }, 1 );
		MC_CHECK( bad.has_exception( ), "helper", "expected_from_code of a throwing function" );
		auto conv = daw::expected_from_code<int>( []( int a ) { return a + 1; }, 6 );
		MC_CHECK( conv.has_value( ) and *conv == 7, "helper-typed", "expected_from_code<Result> lost the result" );
		auto cbad = daw::expected_from_code<int>( []( int ) -> int { throw Err2{ 3 }; }, 6 );
		MC_CHECK( cbad.has_exception( ), "helper-typed", "expected_from_code<Result> lost the exception" );
		auto vd = daw::expected_from_code( [] {} );
		MC_CHECK( vd.has_value( ), "helper", "void function" );
		try { throw Err2{ 4 }; } catch( ... ) {
			auto e = daw::expected_from_exception<int>( );
			MC_CHECK( e.has_exception( ) and throws<Err2>( [&] { (void)e.get( ); } ), "helper", "expected_from_exception" );
			auto e2 = daw::expected_from_exception<int>( std::current_exception( ) );
			MC_CHECK( e2.has_exception( ), "helper", "expected_from_exception(ptr)" );
		}
		auto mo = daw::expected_t<std::unique_ptr<int>>( std::make_unique<int>( 5 ) );
		auto p = std::move( mo ).get( );
		MC_CHECK( p and *p == 5, "helper", "moving the value out" );
		auto f = daw::make_checked_function<int, std::runtime_error>( []( int i ) { if( i == 0 ) throw std::runtime_error( "zero" ); if( i > 9 ) throw Err3{ 1 }; return 10 / i; } );
		for( int i = 0; i <= 10; ++i ) {
			bool any = false;
			try {
				auto r = f( i );
				MC_CHECK( i <= 9 and r.has_exception( ) == ( i == 0 ) and ( i == 0 or r.get( ) == 10 / i ), "checked-function", "argument %d", i );
				if( i == 0 ) MC_CHECK( r.get_exception_message( ) == "zero", "checked-function", "message" );
			} catch( ... ) { any = true; }
			MC_CHECK( any == ( i > 9 ), "checked-function", "argument %d: undeclared exception", i );
			mc::count_case( );
		}
	}

	// ---- optional_poly --------------------------------------------------------------------
	struct B {
		TM v;
		explicit B( int x ) : v( x ) {}
		B( B const & ) = default;
		B( B && ) = default;
		B &operator=( B const & ) = default;
		virtual ~B( ) = default;
		virtual int kind( ) const { return 0; }
		friend bool operator==( B const &a, B const &b ) { return a.v == b.v; }
		friend auto operator<=>( B const &a, B const &b ) { return a.v <=> b.v; }
	};
	struct D : B {
		TM w;
		explicit D( int x ) : B( x ), w( x + 10 ) {}
		int kind( ) const override { return w.get( ) == v.get( ) + 10 ? 1 : 100; }
	};
	void polys( int depth, unsigned faults ) {
		using O = daw::optional_poly<B>;
		struct P { int k = -1, v = 0; bool operator==( P const & ) const = default; };
		mc::with_tracking( [&] {
			O s[2];
			P m[2];
			mc::set_fault_budget( faults );
			unsigned left = faults;
			for( int k = 0; k < depth; ++k ) {
				std::uint64_t h = left;
				for( auto &x : m ) h = mc::mix( h, std::uint64_t( x.k * 10 + x.v + 50 ) );
				if( not mc::enter_state( h, unsigned( depth - k ) ) ) break;
				unsigned const op = mc::choose( 13 );
				unsigned const i = mc::choose( 2 );
				int const v = op < 7 ? mc::choose_range( 1, 2 ) : 0;
				unsigned const j = op >= 7 and op < 9 ? mc::choose( 2 ) : i;
				P const before[2] = { m[0], m[1] };
				char const *nm = "";
				bool sliced = false;
				bool const threw = attempt( [&] {
					switch( op ) {
					case 0: nm = "assign base"; { B const b( v ); s[i] = b; } m[i] = { 0, v }; break;
					case 1: nm = "assign derived"; { D const d( v ); s[i] = d; } m[i] = { 1, v }; break;
					case 2: { nm = "construct base"; O t( B{ v } ); s[i].swap( t ); m[i] = { 0, v }; } break;
					case 3: { nm = "construct derived"; O t( D{ v } ); s[i] = std::move( t ); m[i] = { 1, v }; } break;
					case 4: { nm = "from optional of derived"; daw::optional_poly<D> d( D{ v } ); if( mc::choose( 2 ) ) { O t( std::as_const( d ) ); swap( s[i], t ); } else s[i] = std::as_const( d ); m[i] = { 1, v }; } break;
					case 5: { nm = "from moved optional of derived"; daw::optional_poly<D> d( D{ v } ); if( mc::choose( 2 ) ) { O t( std::move( d ) ); swap( s[i], t ); } else s[i] = std::move( d ); m[i] = { 1, v }; MC_CHECK( d.empty( ), "poly-moved", "moved-from optional keeps a value" ); } break;
					case 6: { nm = "emplace"; s[i].emplace( v ); m[i] = { 0, v }; } break;
					case 7: nm = "copy assignment"; s[i] = std::as_const( s[j] ); sliced = m[j].k == 1; m[i] = m[j]; break;
					case 8: nm = "move assignment"; s[i] = std::move( s[j] ); if( i != j ) { m[i] = m[j]; m[j] = P{ }; } break;
					case 9: nm = "reset"; s[i].reset( ); m[i] = P{ }; break;
					case 10: { nm = "copy construction"; O t( std::as_const( s[i] ) ); sliced = m[i].k == 1; s[i].swap( t ); } break;
					case 11: { nm = "move construction"; O t( std::move( s[i] ) ); MC_CHECK( t.has_value( ) == ( m[i].k >= 0 ) and s[i].empty( ), "poly-moved", "move construction" ); s[i].swap( t ); } break;
					case 12: { nm = "make_optional_poly"; auto t = daw::make_optional_poly<B>( 2 ); s[i] = std::move( t ); m[i] = { 0, 2 }; } break;
					}
				} );
				mc::note( "%s %u/%u value %d%s", nm, i, j, v, threw ? " (failed)" : "" );
				if( threw ) { if( left ) --left; m[0] = before[0]; m[1] = before[1]; }
				if( sliced and not threw ) {
					// copying a derived object through the base optional keeps only the base part: known
					// finding, reported in its own test; here the history goes on with what is left
					if( s[i] and s[i]->kind( ) == 0 ) m[i].k = 0;
				}
				unsigned live = 0;
				for( unsigned q = 0; q < 2; ++q ) {
					auto const &c = s[q];
					MC_CHECK( c.has_value( ) == ( m[q].k >= 0 ) and static_cast<bool>( c ) == c.has_value( ) and c.empty( ) != c.has_value( ), "poly-engaged", "after %s object %u", nm, q );
					if( m[q].k < 0 ) continue;
					MC_CHECK( c->v.get( ) == m[q].v and ( *c ).v.get( ) == m[q].v and c.get( ).v.get( ) == m[q].v, "poly-value", "after %s object %u is %d, expected %d", nm, q, c->v.get( ), m[q].v );
					MC_CHECK( c->kind( ) == m[q].k, "poly-kind", "after %s object %u is of kind %d, expected %d", nm, q, c->kind( ), m[q].k );
					live += unsigned( m[q].k + 1 );
				}
				MC_CHECK( mc::tr::reg.n == live, "poly-live", "after %s %u parts alive, expected %u", nm, mc::tr::reg.n, live );
				M a = m[0].k < 0 ? M{ } : M( m[0].v ), b = m[1].k < 0 ? M{ } : M( m[1].v );
				cmp6( std::as_const( s[0] ), std::as_const( s[1] ), three( a, b ), "optional_poly" );
			}
			mc::set_fault_budget( 0 );
		} );
	}

	void poly_copies( ) {
		mc::with_tracking( [&] {
			using O = daw::optional_poly<B>;
			O a;
			int const v = mc::choose_range( 1, 3 );
			if( mc::choose( 2 ) ) a = D( v ); else a = B( v );
			int const k = a->kind( );
			O b( a ), c;
			c = b;
			MC_CHECK( b->v.get( ) == v and c->v.get( ) == v, "poly-copy-value", "value of a copy" );
			if( k == 1 and ( b->kind( ) != 1 or c->kind( ) != 1 ) ) mc::fail( "poly-copy-slices", "copying an optional_poly of a base that holds a derived object keeps only the base part" );
			MC_CHECK( b->kind( ) == k and c->kind( ) == k, "poly-copy-kind", "kind of a copy" );
		} );
	}

	// ---- union_pair ------------------------------------------------------------------------
	template<typename T0, typename T1>
	void pairs( int depth, unsigned faults ) {
		using U = daw::union_pair_t<T0, T1>;
		struct P { int k = 2, v = 0; bool operator==( P const & ) const = default; };
		auto look_at = []( U const &u ) {
			P p;
			p.k = u.which( );
			if( p.k == 2 ) {
				MC_CHECK( throws<daw::visit_null_union_pair_exception>( [&] { u.visit( []( auto const & ) { } ); } ), "pair-visit-null", "visiting nothing does not throw" );
			} else {
				p.v = u.visit( []( auto const &x ) { return mc::val( x ); } );
				int const t = u.visit( []( auto const &x ) { return int( not std::is_same_v<std::remove_cvref_t<decltype( x )>, T0> ); } );
				MC_CHECK( t == p.k, "pair-which", "which() is %d but alternative %d is visited", p.k, t );
			}
			return p;
		};
		mc::with_tracking( [&] {
			U s[2];
			P m[2];
			mc::set_fault_budget( faults );
			unsigned left = faults;
			for( int k = 0; k < depth; ++k ) {
				std::uint64_t h = left;
				for( auto &x : m ) h = mc::mix( h, std::uint64_t( x.k * 10 + x.v + 1000 ) );
				if( not mc::enter_state( h, unsigned( depth - k ) ) ) break;
				unsigned const op = mc::choose( 11 );
				unsigned const i = mc::choose( 2 );
				int const v = op < 6 ? mc::choose_range( 1, 2 ) : 0;
				unsigned const j = op == 6 or op == 7 ? mc::choose( 2 ) : i;
				P const before[2] = { m[0], m[1] };
				char const *nm = "";
				bool const threw = attempt( [&] {
					switch( op ) {
					case 0: { nm = "assign first"; T0 const t( v ); s[i] = t; m[i] = { 0, v }; } break;
					case 1: { nm = "assign second"; T1 const t( v ); s[i] = t; m[i] = { 1, v }; } break;
					case 2: { nm = "move-assign first"; T0 t( v ); s[i] = std::move( t ); m[i] = { 0, v }; } break;
					case 3: { nm = "move-assign second"; T1 t( v ); s[i] = std::move( t ); m[i] = { 1, v }; } break;
					case 4: { nm = "construct first"; T0 const t( v ); U u( t ); MC_CHECK( look_at( u ) == ( P{ 0, v } ), "pair-ctor", "constructed from the first" ); s[i] = std::move( u ); m[i] = { 0, v }; } break;
					case 5: { nm = "construct second"; U u( T1{ v } ); MC_CHECK( look_at( u ) == ( P{ 1, v } ), "pair-ctor", "constructed from the second" ); s[i] = std::move( u ); m[i] = { 1, v }; } break;
					case 6: nm = "copy assignment"; s[i] = std::as_const( s[j] ); m[i] = m[j]; break;
					case 7: nm = "move assignment"; s[i] = std::move( s[j] ); if( i != j ) { m[i] = m[j]; if( m[j].k != 2 ) m[j].v = mc::MOVED; } break;
					case 8: { nm = "copy construction"; U u( std::as_const( s[i] ) ); MC_CHECK( look_at( u ) == m[i], "pair-copy", "a copy differs" ); } break;
					case 9: { nm = "move construction"; U u( std::move( s[i] ) ); MC_CHECK( look_at( u ) == m[i], "pair-move", "moved differs" ); if( m[i].k != 2 ) m[i].v = mc::MOVED; } break;
					case 10: nm = "write"; if( m[i].k != 2 ) { s[i].visit( []( auto &x ) { x.v = 3; } ); m[i].v = 3; } break;
					}
				} );
				mc::note( "%s %u/%u value %d%s", nm, i, j, v, threw ? " (failed)" : "" );
				unsigned live = 0;
				if( threw and left ) --left;
				for( unsigned q = 0; q < 2; ++q ) {
					P const now = look_at( s[q] );
					if( threw ) {
						MC_CHECK( now == before[q] or ( q == i and ( now.k == 2 or now.v == v or now == before[1 - q] ) ), "pair-after-failure", "after a failed %s object %u holds alternative %d value %d", nm, q, now.k, now.v );
						m[q] = now;
					} else MC_CHECK( now == m[q], "pair-state", "after %s object %u holds alternative %d value %d, expected %d value %d", nm, q, now.k, now.v, m[q].k, m[q].v );
					live += now.k != 2;
					mc::obs( std::uint64_t( now.k * 100 + now.v + 100 ) );
				}
				MC_CHECK( mc::tr::reg.n == live, "pair-live", "after %s %u objects alive, expected %u", nm, mc::tr::reg.n, live );
			}
			mc::set_fault_budget( 0 );
		} );
	}

	// ---- validated ---------------------------------------------------------------------------
	struct InRange {
		template<typename T>
		bool operator( )( T const &x ) const { return mc::val( x ) >= 1 and mc::val( x ) <= 3; }
	};
	template<typename T>
	void valid( int depth ) {
		using V = daw::validated<T, InRange>;
		mc::with_tracking( [&] {
			V s{ T( 1 ) };
			int m = 1;
			for( int k = 0; k < depth; ++k ) {
				if( not mc::enter_state( std::uint64_t( m + 100 ), unsigned( depth - k ) ) ) break;
				unsigned const op = mc::choose( 6 );
				int const v = int( mc::choose( 6 ) ) - 1; // -1..4, valid 1..3
				bool const good = v >= 1 and v <= 3;
				bool rejected = false, built = true;
				try {
					if( op == 0 ) { T const t( v ); s = t; }
					if( op == 1 ) s = T( v );
					if( op == 2 ) { V t( T{ v } ); built = mc::val( t.get( ) ) == v; s = t; }
					if( op == 3 ) { V t( std::in_place, v ); built = mc::val( *t ) == v; s = std::move( t ); }
					if( op == 4 ) { V t( v ); T u( std::move( t ).get( ) ); built = mc::val( u ) == v; s = u; }
					if( op == 5 ) { V t( std::as_const( s ) ); V u( s ); built = mc::val( t.get( ) ) == m and mc::val( u.get( ) ) == m; }
				} catch( std::out_of_range const & ) { rejected = true; }
				MC_CHECK( rejected == ( op != 5 and not good ), "validated", "op %u value %d is %s", op, v, rejected ? "rejected" : "accepted" );
				MC_CHECK( built, "validated-value", "op %u value %d holds something else", op, v );
				if( op != 5 and good ) m = v;
				T const &r = s;
				MC_CHECK( mc::val( s.get( ) ) == m and mc::val( *s ) == m and mc::val( r ) == m and mc::val( *s.operator->( ) ) == m, "validated-state", "holds %d, expected %d", mc::val( *s ), m );
			}
		} );
	}
} // namespace

MC_TEST( optional_value ) { optionals<TM>( mc::by_tier( 6, 10 ), 1 ); }
MC_TEST( optional_value_throwing ) { optionals<TC>( mc::by_tier( 6, 10 ), 1 ); }
MC_TEST( optional_mixed ) { optional_compare( ); }
MC_TEST( optional_reference ) { optional_refs( mc::by_tier( 8, 12 ) ); }
MC_TEST( expected_value ) { expecteds<daw::expected_t<TM>, false, false>( mc::by_tier( 4, 7 ), 1 ); }
MC_TEST( expected_value_throwing ) { expecteds<daw::expected_t<TC>, false, false>( mc::by_tier( 4, 7 ), 1 ); }
MC_TEST( expected_void ) { expecteds<daw::expected_t<void>, true, false>( mc::by_tier( 5, 8 ), 0 ); }
MC_TEST( checked_value ) { expecteds<daw::checked_expected_t<TM, Err1, Err2>, false, true>( mc::by_tier( 4, 7 ), 0 ); }
MC_TEST( checked_void ) { expecteds<daw::checked_expected_t<void, Err1, Err2>, true, true>( mc::by_tier( 5, 8 ), 0 ); }
MC_TEST( expected_functions ) { expected_helpers( ); }
MC_TEST( optional_poly ) { polys( mc::by_tier( 6, 9 ), 1 ); }
MC_TEST( optional_poly_copies ) { poly_copies( ); }
MC_TEST( union_pair ) { pairs<TM, mc::Tracked<mc::NoThrowMove | 16>>( mc::by_tier( 6, 10 ), 1 ); }
MC_TEST( validated_value ) { valid<TM>( mc::by_tier( 4, 6 ) ); }
MC_TEST( validated_int ) { valid<int>( mc::by_tier( 4, 6 ) ); }
