// O07: pointer and reference wrappers, every history against a plain position in an array.
#include "mc.h"

#include <daw/daw_not_null.h>
#include <daw/daw_observer_ptr.h>
#include <daw/daw_prop_const_ptr.h>
#include <daw/daw_read_only.h>
#include <daw/daw_reference.h>
#include <daw/daw_rw_ref.h>

#include <functional>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace {
	int const N = 4;

	template<typename T>
	[[gnu::noinline]] T *hide( T *p ) {
		T *volatile q = p;
		return q;
	}

	struct Base {
		int b = 0;
	};
	struct Derived : Base {
		int d = 0;
		explicit Derived( int v ) {
			b = v;
			d = v + 100;
		}
	};

	// all six orders of two positions
	template<typename A, typename B>
	void orders( A const &a, B const &b, int i, int j, char const *what ) {
		MC_CHECK( ( a == b ) == ( i == j ), "equal", "%s: ==(%d,%d)", what, i, j );
		MC_CHECK( ( a != b ) == ( i != j ), "not-equal", "%s: !=(%d,%d)", what, i, j );
		MC_CHECK( ( a < b ) == ( i < j ), "less", "%s: <(%d,%d)", what, i, j );
		MC_CHECK( ( a <= b ) == ( i <= j ), "less-equal", "%s: <=(%d,%d)", what, i, j );
		MC_CHECK( ( a > b ) == ( i > j ), "greater", "%s: >(%d,%d)", what, i, j );
		MC_CHECK( ( a >= b ) == ( i >= j ), "greater-equal", "%s: >=(%d,%d)", what, i, j );
	}

	// ---- not_null -------------------------------------------------------------
	void not_null_moves( int depth ) {
		int data[N] = { 10, 11, 12, 13 };
		using P = daw::not_null<int *>;
		int at[2] = { mc::choose_range( 0, N - 1 ), mc::choose_range( 0, N - 1 ) };
		P p[2] = { P( hide( data + at[0] ) ), P( daw::never_null, data + at[1] ) };
		for( int s = 0; s != depth; ++s ) {
			if( not mc::enter_state( mc::mix( mc::mix( at[0], at[1] ), p[0].get( ) - data ), depth - s ) ) {
				return;
			}
			mc::step( );
			int const i = mc::choose( 2 );
			int const o = 1 - i;
			auto const op = mc::choose( 12 );
			mc::note( "op %u on %d at %d (other %d)", op, i, at[i], at[o] );
			switch( op ) {
			case 0: // bind
				at[i] = mc::choose_range( 0, N - 1 );
				p[i] = hide( data + at[i] );
				break;
			case 1:
				at[i] = at[o];
				p[i] = p[o];
				break;
			case 2: {
				if( at[i] >= N ) { return; }
				P &r = ++p[i];
				++at[i];
				MC_CHECK( &r == p + i, "pre-increment", "++ does not return its operand" );
			} break;
			case 3: {
				if( at[i] <= 0 ) { return; }
				P &r = --p[i];
				--at[i];
				MC_CHECK( &r == p + i, "pre-decrement", "-- does not return its operand" );
			} break;
			case 4: {
				if( at[i] >= N ) { return; }
				P r = p[i]++;
				MC_CHECK( r.get( ) == data + at[i], "post-increment", "p++ is not the old position" );
				++at[i];
			} break;
			case 5: {
				if( at[i] <= 0 ) { return; }
				P r = p[i]--;
				MC_CHECK( r.get( ) == data + at[i], "post-decrement", "p-- is not the old position" );
				--at[i];
			} break;
			case 6: {
				int const k = mc::choose_range( -at[i], N - at[i] );
				P &r = mc::choose( 2 ) ? ( p[i] += k ) : ( p[i] += static_cast<signed char>( k ) );
				at[i] += k;
				MC_CHECK( &r == p + i, "plus-assign", "+= does not return its operand" );
			} break;
			case 7: {
				int const k = mc::choose_range( at[i] - N, at[i] );
				P &r = mc::choose( 2 ) ? ( p[i] -= k ) : ( p[i] -= static_cast<long long>( k ) );
				at[i] -= k;
				MC_CHECK( &r == p + i, "minus-assign", "-= does not return its operand" );
			} break;
			case 8: {
				int const k = mc::choose_range( -at[i], N - at[i] );
				p[o] = mc::choose( 2 ) ? p[i] + std::ptrdiff_t{ k } : std::ptrdiff_t{ k } + p[i];
				at[o] = at[i] + k;
			} break;
			case 9: {
				int const k = mc::choose_range( at[i] - N, at[i] );
				p[o] = p[i] - std::ptrdiff_t{ k };
				at[o] = at[i] - k;
			} break;
			case 10:
				std::swap( p[0], p[1] );
				std::swap( at[0], at[1] );
				break;
			default: {
				if( at[i] >= N ) { return; }
				int const v = mc::choose_range( 0, 1 ) * 50 + at[i];
				*p[i] = v;
				MC_CHECK( data[at[i]] == v, "write", "a write through the pointer went elsewhere" );
				data[at[i]] = 10 + at[i];
			} break;
			}
			for( int k = 0; k != 2; ++k ) {
				P const &c = p[k];
				MC_CHECK( c.get( ) == data + at[k] and p[k].get( ) == data + at[k], "position", "pointer %d is at %d, not %d", k, int( c.get( ) - data ), at[k] );
				int *const raw = c;
				int *const raw2 = p[k];
				MC_CHECK( raw == data + at[k] and raw2 == raw, "conversion", "conversion to a pointer" );
				if( at[k] < N ) {
					MC_CHECK( &*p[k] == data + at[k] and &*c == data + at[k] and p[k].operator->( ) == raw and c.operator->( ) == raw, "dereference", "dereference at %d", at[k] );
				}
				for( int j = 0; j != N; ++j ) {
					MC_CHECK( &p[k][j - at[k]] == data + j and &c[static_cast<short>( j - at[k] )] == data + j, "index", "p[%d] from %d", j - at[k], at[k] );
				}
				MC_CHECK( std::hash<P>{ }( p[k] ) == std::hash<int *>{ }( data + at[k] ), "hash", "hash differs from the pointer's" );
			}
			orders( p[0], p[1], at[0], at[1], "not_null,not_null" );
			int *const q = data + at[1];
			orders( p[0], q, at[0], at[1], "not_null,pointer" );
			orders( q, p[0], at[1], at[0], "pointer,not_null" );
			MC_CHECK( ( q == p[0] ) == ( at[0] == at[1] ) and ( q != p[0] ) == ( at[0] != at[1] ), "pointer-equal", "pointer == not_null" );
			MC_CHECK( p[0] - p[1] == at[0] - at[1], "difference", "difference of %d and %d", at[0], at[1] );
		}
	}

	void not_null_null( ) {
		int x = 5;
		int *const null = hide( static_cast<int *>( nullptr ) );
		daw::not_null<int *> p( hide( &x ) );
		auto const op = mc::choose( 6 );
		mc::note( "null through path %u", op );
		bool const a = mc::aborts( [&] {
			switch( op ) {
			case 0: daw::not_null<int *>{ null }; break;
			case 1: p = null; break;
			case 2: (void)daw::not_null<int const *>( static_cast<int const *>( null ) ); break;
			case 3: p.operator=( null ); break;
			case 4: (void)daw::not_null( null ); break;
			default: {
				[]( daw::not_null<int *> ) {}( null );
			}
			}
		} );
		MC_CHECK( a, "null-accepted", "a null pointer was accepted (path %u)", op );
		bool const b = mc::aborts( [&] {
			daw::not_null<int *> q( hide( &x ) );
			q = hide( &x );
			if( *q != 5 ) {
				mc::fail_later( "value", "wrong value" );
			}
		} );
		MC_CHECK( not b, "valid-rejected", "a valid pointer was rejected" );
		MC_CHECK( not( std::is_constructible_v<daw::not_null<int *>, std::nullptr_t> ), "nullptr", "nullptr is accepted at compile time" );
		MC_CHECK( not( std::is_assignable_v<daw::not_null<int *> &, std::nullptr_t> ), "nullptr-assign", "nullptr can be assigned" );
		MC_CHECK( not( std::is_default_constructible_v<daw::not_null<int *>> ), "default", "a not_null can be made from nothing" );
	}

	// ---- observer_ptr -----------------------------------------------------------
	void observers( int depth ) {
		int data[N] = { 10, 11, 12, 13 };
		using P = daw::observer_ptr<int>;
		P p[2];
		int at[2] = { -1, -1 };
		auto const raw = [&]( int i ) { return i < 0 ? nullptr : data + i; };
		for( int s = 0; s != depth; ++s ) {
			if( not mc::enter_state( mc::mix( at[0] + 1, at[1] + 1 ), depth - s ) ) {
				return;
			}
			mc::step( );
			int const i = mc::choose( 2 );
			int const o = 1 - i;
			auto const op = mc::choose( 9 );
			mc::note( "op %u on %d at %d (other %d)", op, i, at[i], at[o] );
			switch( op ) {
			case 0:
				at[i] = mc::choose_range( -1, N - 1 );
				p[i] = raw( at[i] );
				break;
			case 1:
				p[i] = p[o];
				at[i] = at[o];
				break;
			case 2: {
				int *r = p[i].release( );
				MC_CHECK( r == raw( at[i] ), "release", "release does not return the pointer" );
				at[i] = -1;
			} break;
			case 3:
				p[i].reset( );
				at[i] = -1;
				break;
			case 4:
				at[i] = mc::choose_range( -1, N - 1 );
				p[i].reset( raw( at[i] ) );
				break;
			case 5: // an out parameter
				at[i] = mc::choose_range( -1, N - 1 );
				*p[i].get_out( ) = raw( at[i] );
				break;
			case 6:
				at[i] = mc::choose_range( 0, N - 1 );
				p[i] = P( data + at[i] );
				break;
			case 7:
				std::swap( p[0], p[1] );
				std::swap( at[0], at[1] );
				break;
			default:
				p[i] = std::move( p[o] ); // does not own: the source keeps its pointer
				at[i] = at[o];
				break;
			}
			for( int k = 0; k != 2; ++k ) {
				P const &c = p[k];
				MC_CHECK( c.get( ) == raw( at[k] ), "position", "observer %d", k );
				MC_CHECK( static_cast<bool>( c ) == ( at[k] >= 0 ), "bool", "operator bool" );
				int *q = c;
				MC_CHECK( q == raw( at[k] ), "conversion", "conversion to a pointer" );
				if( at[k] >= 0 ) {
					MC_CHECK( &*c == q and &c.value( ) == q and c.operator->( ) == q, "dereference", "dereference" );
				}
				// monadic operations
				int calls = 0;
				int const v = c.and_then( [&]( auto x ) {
					++calls;
					return *x + 1;
				} );
				MC_CHECK( calls == ( at[k] >= 0 ) and v == ( at[k] >= 0 ? 11 + at[k] : 0 ), "and_then", "and_then: %d calls, value %d", calls, v );
				calls = 0;
				auto const r = c.or_else( [&] {
					++calls;
					return P( data );
				} );
				MC_CHECK( calls == ( at[k] < 0 ) and r.get( ) == ( at[k] < 0 ? data : q ), "or_else", "or_else: %d calls", calls );
				calls = 0;
				int const t = c.transform( [&]( P x ) {
					++calls;
					return x ? *x : -5;
				} );
				MC_CHECK( calls == 1 and t == ( at[k] < 0 ? -5 : 10 + at[k] ), "transform", "transform: %d calls, %d", calls, t );
			}
			P const &a = p[0];
			P const &b = p[1];
			MC_CHECK( ( a == b ) == ( at[0] == at[1] ) and ( a != b ) == ( at[0] != at[1] ), "equality", "equality" );
			if( at[0] >= 0 and at[1] >= 0 ) {
				MC_CHECK( ( a < b ) == ( at[0] < at[1] ) and ( a > b ) == ( at[0] > at[1] ) and ( a <= b ) == ( at[0] <= at[1] ) and ( a >= b ) == ( at[0] >= at[1] ), "order", "order of observers" );
				auto const c = a <=> raw( at[1] );
				MC_CHECK( ( c < 0 ) == ( at[0] < at[1] ) and ( c == 0 ) == ( at[0] == at[1] ), "three-way", "three-way comparison with a pointer" );
			}
			MC_CHECK( a.operator==( raw( at[1] ) ) == ( at[0] == at[1] ) and a.operator!=( raw( at[1] ) ) == ( at[0] != at[1] ), "pointer-equal", "comparison with a pointer" );
		}
	}

	void observers_convert( ) {
		Derived d( mc::choose_range( 1, 3 ) );
		daw::observer_ptr<Derived> p( mc::choose( 2 ) ? &d : nullptr );
		daw::observer_ptr<Base> b = p;
		daw::observer_ptr<Derived const> c = p;
		MC_CHECK( b.get( ) == p.get( ) and c.get( ) == p.get( ), "convert", "a converted observer points elsewhere" );
		int a[2] = { 1, 2 };
		daw::observer_ptr e( a );
		daw::observer_ptr f( &a[1] );
		MC_CHECK( *e == 1 and *f == 2 and f > e, "deduced", "deduced observers" );
		daw::observer_ptr<int> def{ };
		MC_CHECK( def.get( ) == nullptr and def == nullptr, "empty", "a default observer is not empty" );
	}

	// ---- prop_const_ptr -----------------------------------------------------------
	void const_propagation( int depth ) {
		int data[N] = { 10, 11, 12, 13 };
		using P = daw::prop_const_ptr<int>;
		using C = daw::prop_const_ptr<int const>;
		int at[2] = { mc::choose_range( 0, N - 1 ), mc::choose_range( 0, N - 1 ) };
		P p[2] = { P( data + at[0] ), P( data + at[1] ) };
		MC_CHECK( ( std::is_same_v<decltype( *std::declval<P const &>( ) ), int const &> ) and ( std::is_same_v<decltype( *std::declval<P &>( ) ), int &> ), "dereference-type", "const does not propagate through *" );
		MC_CHECK( ( std::is_same_v<decltype( std::declval<P const &>( )[0] ), int const &> ) and ( std::is_same_v<decltype( std::declval<P &>( )[0] ), int &> ), "index-type", "const does not propagate through []" );
		MC_CHECK( ( std::is_same_v<decltype( std::declval<P const &>( ).get( ) ), int const *> ) and ( std::is_same_v<decltype( std::declval<P const &>( ).operator->( ) ), int const *> ), "get-type", "const does not propagate through get" );
		for( int s = 0; s != depth; ++s ) {
			if( not mc::enter_state( mc::mix( mc::mix( at[0], at[1] ), p[0].get( ) - data ), depth - s ) ) {
				return;
			}
			mc::step( );
			int const i = mc::choose( 2 );
			int const o = 1 - i;
			auto const op = mc::choose( 11 );
			mc::note( "op %u on %d at %d (other %d)", op, i, at[i], at[o] );
			switch( op ) {
			case 0:
				p[i] = p[o];
				at[i] = at[o];
				break;
			case 1:
				if( at[i] >= N ) { return; }
				MC_CHECK( &++p[i] == p + i, "pre-increment", "++ does not return its operand" );
				++at[i];
				break;
			case 2:
				if( at[i] <= 0 ) { return; }
				MC_CHECK( &--p[i] == p + i, "pre-decrement", "-- does not return its operand" );
				--at[i];
				break;
			case 3: {
				if( at[i] >= N ) { return; }
				P r = p[i]++;
				MC_CHECK( r.get( ) == data + at[i], "post-increment", "p++ is not the old position" );
				++at[i];
			} break;
			case 4: {
				if( at[i] <= 0 ) { return; }
				P r = p[i]--;
				MC_CHECK( r.get( ) == data + at[i], "post-decrement", "p-- is not the old position" );
				--at[i];
			} break;
			case 5: {
				int const k = mc::choose_range( -at[i], N - at[i] );
				MC_CHECK( &( p[i] += k ) == p + i, "plus-assign", "+= does not return its operand" );
				at[i] += k;
			} break;
			case 6: {
				int const k = mc::choose_range( at[i] - N, at[i] );
				MC_CHECK( &( p[i] -= k ) == p + i, "minus-assign", "-= does not return its operand" );
				at[i] -= k;
			} break;
			case 7: {
				int const k = mc::choose_range( -at[i], N - at[i] );
				p[o] = p[i] + k;
				at[o] = at[i] + k;
			} break;
			case 8: {
				int const k = mc::choose_range( -at[i], N - at[i] );
				P const &c = p[i];
				auto const r = c + k;
				MC_CHECK( r.get( ) == data + at[i] + k, "plus-const", "const p + %d", k );
			} break;
			case 9: {
				C c = p[i];
				C c2( data + at[o] );
				c2 = p[i];
				MC_CHECK( c.get( ) == data + at[i] and c2.get( ) == data + at[i], "convert", "conversion to a pointer to const" );
				MC_CHECK( c - p[o] == at[i] - at[o], "mixed-difference", "difference of pointers of both kinds" );
			} break;
			default:
				if( at[i] >= N ) { return; }
				*p[i] = 77;
				MC_CHECK( data[at[i]] == 77, "write", "a write went elsewhere" );
				data[at[i]] = 10 + at[i];
				break;
			}
			for( int k = 0; k != 2; ++k ) {
				P const &c = p[k];
				MC_CHECK( c.get( ) == data + at[k] and p[k].get( ) == data + at[k], "position", "pointer %d is not at %d", k, at[k] );
				if( at[k] < N ) {
					MC_CHECK( &*c == data + at[k] and &*p[k] == data + at[k], "dereference", "dereference at %d", at[k] );
				}
				for( int j = 0; j != N; ++j ) {
					MC_CHECK( &c[j - at[k]] == data + j and &p[k][j - at[k]] == data + j, "index", "p[%d] from %d", j - at[k], at[k] );
				}
			}
			orders( p[0], p[1], at[0], at[1], "prop_const_ptr" );
			MC_CHECK( p[0] - p[1] == at[0] - at[1], "difference", "difference" );
		}
	}

	// ---- rw_ref, read_only, Reference -------------------------------------------------
	void references( int depth ) {
		int data[3] = { 10, 11, 12 };
		using R = daw::rw_ref<int>;
		int at[2] = { mc::choose_range( 0, 2 ), mc::choose_range( 0, 2 ) };
		R r[2] = { R( data[at[0]] ), daw::rw_ref( data[at[1]] ) };
		MC_CHECK( ( std::is_same_v<decltype( std::declval<R const &>( ).get( ) ), int const &> ) and ( std::is_same_v<decltype( std::declval<R const &>( )( ) ), int const &> ), "const-type", "const does not propagate" );
		for( int s = 0; s != depth; ++s ) {
			mc::step( );
			int const i = mc::choose( 2 );
			switch( mc::choose( 4 ) ) {
			case 0:
				at[i] = mc::choose_range( 0, 2 );
				r[i] = data[at[i]];
				break;
			case 1:
				r[i] = r[1 - i];
				at[i] = at[1 - i];
				break;
			case 2:
				r[i].get( ) = 20 + s;
				MC_CHECK( data[at[i]] == 20 + s, "write", "write through get" );
				data[at[i]] = 10 + at[i];
				break;
			default:
				r[i]( ) = 30 + s;
				MC_CHECK( data[at[i]] == 30 + s, "write-call", "write through ()" );
				data[at[i]] = 10 + at[i];
				break;
			}
			for( int k = 0; k != 2; ++k ) {
				R const &c = r[k];
				int &x = r[k];
				int const &y = c;
				MC_CHECK( &x == data + at[k] and &y == data + at[k] and &r[k].get( ) == &x and &c.get( ) == &x and &r[k]( ) == &x and &c( ) == &x, "refers", "reference %d refers elsewhere", k );
			}
		}
	}

	struct Owner {
		daw::read_only<std::string, Owner> name{ std::string( "a" ) };
		daw::read_only<int, Owner> count = 1;
		void set( char const *n, int c ) {
			name = std::string( n );
			count = c;
		}
	};
	struct Holder {
		daw::read_only<std::string> text;
	};

	void read_only_values( ) {
		Owner a;
		Owner b;
		std::string am = "a", bm = "a";
		int ac = 1, bc = 1;
		for( int s = 0; s != 3; ++s ) {
			mc::step( );
			int const v = mc::choose_range( 0, 2 );
			switch( mc::choose( 3 ) ) {
			case 0:
				a.set( v == 0 ? "" : v == 1 ? "x" : "a longer text than fits in place", v );
				am = v == 0 ? "" : v == 1 ? "x" : "a longer text than fits in place";
				ac = v;
				break;
			case 1: {
				Owner c( a );
				MC_CHECK( c.name.get( ) == am and c.count.get( ) == ac, "copy", "copy holds another value" );
				Owner d( std::move( c ) );
				MC_CHECK( d.name.get( ) == am and d.count.get( ) == ac, "move", "move holds another value" );
			} break;
			default:
				b.set( am.c_str( ), ac );
				bm = am;
				bc = ac;
				break;
			}
			std::string const &n = a.name;
			int const &k = a.count;
			MC_CHECK( n == am and k == ac and &a.name.get( ) == &n, "value", "value of a" );
			MC_CHECK( b.name.get( ) == bm and b.count.get( ) == bc, "other", "value of b" );
			std::string const moved = std::move( b.name ).get( );
			MC_CHECK( moved == bm, "rvalue", "value through an rvalue" );
		}
		MC_CHECK( not( std::is_assignable_v<daw::read_only<int> &, int> ) and not( std::is_assignable_v<daw::read_only<int> &, daw::read_only<int> const &> ) and not( std::is_copy_assignable_v<Holder> ) and not( std::is_move_assignable_v<Holder> ), "assignable", "a read only value can be assigned" );
		MC_CHECK( ( std::is_same_v<decltype( std::declval<daw::read_only<int> &>( ).get( ) ), int const &> ), "mutable", "a read only value can be changed" );
	}

	void reference_objects( ) {
		int const n = mc::choose_range( 0, 4 );
		std::vector<int> v;
		for( int i = 0; i != n; ++i ) {
			v.push_back( mc::choose_range( 0, 2 ) );
		}
		auto const refs = daw::to_reference_vector( v.begin( ), v.end( ) );
		MC_CHECK( refs.size( ) == v.size( ), "size", "%zu references to %zu values", refs.size( ), v.size( ) );
		for( int i = 0; i != n; ++i ) {
			MC_CHECK( &*refs[i] == &v[i] and &refs[i].get( ) == &v[i], "refers", "reference %d", i );
			for( int j = 0; j != n; ++j ) {
				orders( refs[i], refs[j], v[i], v[j], "Reference" );
			}
			std::ostringstream ss;
			ss << refs[i];
			MC_CHECK( ss.str( ) == std::to_string( v[i] ), "print", "printed %s", ss.str( ).c_str( ) );
			v[i] += 5;
			MC_CHECK( *refs[i] == v[i], "follows", "a reference does not follow its value" );
		}
		std::string const t = "t";
		auto const r = daw::ref( t );
		MC_CHECK( &r.get( ) == &t, "ref", "ref of a string" );
	}
} // namespace

MC_TEST( not_null_moves ) { not_null_moves( mc::by_tier( 5, 8 ) ); }
MC_TEST( not_null_null ) { not_null_null( ); }
MC_TEST( observers ) { observers( mc::by_tier( 4, 8 ) ); }
MC_TEST( observers_convert ) { observers_convert( ); }
MC_TEST( const_propagation ) { const_propagation( mc::by_tier( 5, 8 ) ); }
MC_TEST( references ) { references( mc::by_tier( 3, 4 ) ); }
MC_TEST( read_only_values ) { read_only_values( ); }
MC_TEST( reference_objects ) { reference_objects( ); }
