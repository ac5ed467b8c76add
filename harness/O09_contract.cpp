// Property O09: a contract holds a value exactly when the value satisfies every condition.
#include "mc.h"
#include <string>
#include <thread>
#include <daw/daw_contract.h>

namespace {
	int calls = 0; // conditions evaluated
	struct NonNeg {
		constexpr bool operator( )( int v ) const {
			return v >= 0;
		}
	};
	struct Odd {
		constexpr bool operator( )( int const &v ) const {
			return v % 2 != 0; // a default constructed value is not
		}
	};
	struct Small {
		template<typename T>
		constexpr bool operator( )( T const &v ) const {
			return v < T{ 4 };
		}
	};
	template<int M>
	struct by_mask;
	template<> struct by_mask<0> { using type = daw::contract<int>; };
	template<> struct by_mask<1> { using type = daw::contract<int, NonNeg>; };
	template<> struct by_mask<2> { using type = daw::contract<int, Odd>; };
	template<> struct by_mask<3> { using type = daw::contract<int, NonNeg, Odd>; };
	template<> struct by_mask<4> { using type = daw::contract<int, Small>; };
	template<> struct by_mask<5> { using type = daw::contract<int, NonNeg, Small>; };
	template<> struct by_mask<6> { using type = daw::contract<int, Odd, Small>; };
	template<> struct by_mask<7> { using type = daw::contract<int, NonNeg, Odd, Small>; };
	template<int M>
	using C = typename by_mask<M>::type;

	bool ok( int mask, int v ) {
		return ( not( mask & 1 ) or v >= 0 ) and ( not( mask & 2 ) or v % 2 != 0 ) and ( not( mask & 4 ) or v < 4 );
	}
	struct Mine {};
	void throw_mine( ) {
		++calls;
		throw Mine{ };
	}
	struct with_handler {
		daw::function_ref<void( )> old;
		explicit with_handler( bool custom )
		  : old( daw::contract_failure_handler ) {
			if( custom ) daw::contract_failure_handler = throw_mine;
		}
		~with_handler( ) {
			daw::contract_failure_handler = old;
		}
	};
	/// 1: the value was accepted, 0: reported by the handler in charge, -1: reported in another way
	template<typename Fn>
	int attempt( bool custom, Fn fn ) {
		with_handler const h( custom );
		calls = 0;
		try {
			fn( );
			return calls == 0 ? 1 : -1;
		} catch( Mine const & ) {
			return custom and calls == 1 ? 0 : -1;
		} catch( daw::daw_contract_violation const & ) {
			return custom ? -1 : 0;
		}
	}
	template<typename Ct>
	void reads( Ct c, int v ) {
		Ct const &k = c;
		int const &r = k;
		MC_CHECK( *k == v and k.get( ) == v and r == v and *k.operator->( ) == v, "value", "a contract of %d reads %d", v, *k );
		Ct copy = c;
		MC_CHECK( copy.get( ) == v and copy.extract( ) == v and c.get( ) == v, "value", "copy of a contract of %d", v );
	}
	template<int From, int To>
	void convert( ) {
		bool const custom = mc::choose( 2 );
		int const v = mc::choose_range( -5, 8 );
		mc::note( "conditions %d -> %d, value %d, %s handler", From, To, v, custom ? "own" : "default" );
		int got = attempt( custom, [&] {
			C<From> const c( v );
			reads( c, v );
		} );
		MC_CHECK( got == int( ok( From, v ) ), "construct", "a value of %d under conditions %d: %s", v, From, got == 1 ? "accepted" : got == 0 ? "rejected" : "reported in another way" );
		if( not got ) return;
		C<From> const c( v );
		got = attempt( custom, [&] {
			C<To> const d = c;
			reads( d, v );
		} );
		MC_CHECK( got == int( ok( To, v ) ), "convert", "converting %d from conditions %d to %d: %s", v, From, To, got == 1 ? "accepted" : got == 0 ? "rejected" : "reported in another way" );
		got = attempt( custom, [&] {
			auto const d = static_cast<C<To>>( c );
			reads( d, v );
		} );
		MC_CHECK( got == int( ok( To, v ) ), "convert", "casting %d from conditions %d to %d: %s", v, From, To, got == 1 ? "accepted" : got == 0 ? "rejected" : "reported in another way" );
		if constexpr( not( From & 1 ) and not( From & 2 ) ) {
			got = attempt( custom, [&] {
				auto const d = c.add_condition( Odd{ }, NonNeg{ } );
				reads( d, v );
			} );
			MC_CHECK( got == int( ok( 3, v ) ), "add-condition", "adding two conditions to %d: %d", v, got );
		}
		if constexpr( not( From & 4 ) ) {
			got = attempt( custom, [&] { reads( typename C<From>::template add_precondition_t<Small>( v ), v ); } );
			MC_CHECK( got == int( ok( From | 4, v ) ), "add-precondition", "conditions %d and one more, value %d: %d", From, v, got );
			got = attempt( custom, [&] { reads( c.add_condition( Small{ } ), v ); } );
			MC_CHECK( got == int( ok( 4, v ) ), "add-condition", "adding a condition to %d: %d", v, got );
		}
	}
	template<int From, int To = 0>
	void all_targets( int to ) {
		if constexpr( To < 8 ) {
			if( to == To ) return convert<From, To>( );
			all_targets<From, To + 1>( to );
		}
	}
	template<int From = 0>
	void all( int from, int to ) {
		if constexpr( From < 8 ) {
			if( from == From ) return all_targets<From>( to );
			all<From + 1>( from, to );
		}
	}

	// ---- other types ------------------------------------------------------------------
	struct NotNull {
		constexpr bool operator( )( int const *p ) const {
			return p != nullptr;
		}
	};
	struct NonEmpty {
		bool operator( )( std::string const &s ) const {
			return not s.empty( );
		}
	};
	struct LowerCase {
		bool operator( )( std::string_view s ) const {
			for( char c : s )
				if( c < 'a' ) return false;
			return true;
		}
	};
	void texts( ) {
		std::string s;
		for( int n = mc::choose_range( 0, 3 ); n > 0; --n ) {
			s += mc::choose( 2 ) ? 'a' : 'Z';
		}
		s += s.empty( ) ? "" : "a tail that does not fit a small buffer"[0] == 'a' ? "qqqqqqqqqqqqqqqqqqqqqqqqqqqqq" : "";
		bool const want = not s.empty( ) and s.find( 'Z' ) == std::string::npos;
		int const got = attempt( false, [&] {
			daw::contract<std::string, NonEmpty, LowerCase> c( s );
			MC_CHECK( c.get( ) == s and *c == s and c->size( ) == s.size( ) and static_cast<std::string const &>( c ) == s, "text", "a contract of a text reads '%s'", c.get( ).c_str( ) );
			MC_CHECK( c.extract( ) == s, "text", "extracting a text" );
		} );
		MC_CHECK( got == int( want ), "text", "text '%s': %d", s.c_str( ), got );
	}
	void pointers( ) {
		int x = 5;
		int *p = mc::choose( 2 ) ? &x : nullptr;
		int const got = attempt( mc::choose( 2 ), [&] {
			daw::contract<int *, NotNull> c( p );
			MC_CHECK( c.get( ) == p and *c == p and c.operator->( ) == p and c.extract( ) == p, "pointer", "a contract of a pointer" );
		} );
		MC_CHECK( got == int( p != nullptr ), "pointer", "a pointer: %d", got );
	}
} // namespace

MC_TEST( conversions ) {
	int const from = mc::choose_range( 0, 7 );
	int const to = mc::choose_range( 0, 7 );
	all( from, to );
}
MC_TEST( text_contracts ) { texts( ); }
MC_TEST( pointer_contracts ) { pointers( ); }

// Replacing the handler of one thread leaves the other threads' handlers alone.
MC_TEST( handler_of_a_thread ) {
	bool const custom = mc::choose( 2 ), other = mc::choose( 2 );
	int const v = mc::choose_range( -3, 3 );
	int r = 0;
	{
		with_handler const h( custom );
		std::thread( [&] { r = other ? attempt( true, [&] { C<1> c( v ); } ) : [&] {
			calls = 0;
			try { C<1> c( v ); return 1; } catch( daw::daw_contract_violation const & ) { return 0; } catch( ... ) { return -1; }
		}( ); } ).join( );
	}
	MC_CHECK( r == int( v >= 0 ), "handler-thread", "value %d in a thread with %s handler while this one has %s handler: %d", v, other ? "its own" : "the default", custom ? "its own" : "the default", r );
	MC_CHECK( attempt( false, [&] { C<1> c( v ); } ) == int( v >= 0 ), "handler-thread", "value %d after another thread had %s handler", v, other ? "its own" : "the default" );
}
