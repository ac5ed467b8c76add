// A06: small facilities: casts over ranges, forward_like, reverse access, throwing
// helpers, the identity, tuples of forwarded arguments, single-type make functions.
// MC-FLAGS: -Wno-deprecated-declarations
#include "mc.h"
#include "mc_tracked.h"

#include <daw/daw_algorithm.h>
#include <daw/daw_bit_cast_util.h>
#include <daw/daw_character_traits.h>
#include <daw/daw_check_exceptions.h>
#include <daw/daw_forward_like.h>
#include <daw/daw_identity_function.h>
#include <daw/daw_move_only_base.h>
#include <daw/daw_ring_adaptor.h>
#include <daw/daw_tuple_forward.h>
#include <daw/deprecated/daw_fixed_lookup.h>

#include <array>
#include <cstring>
#include <deque>
#include <list>
#include <string>
#include <vector>

namespace {
	int const lengths[] = { 0, 1, 2, 3, 7, 16, 17, 33 };
	std::uint32_t const patterns[] = { 0, 1, 0x3F80'0000, 0x8000'0000, 0xFFFF'FFFF, 0x7F80'0000, 0x1234'5678 };

	MC_TEST( bit_casts ) {
		int const n = lengths[mc::choose( 8 )];
		unsigned const at = mc::choose( 7 );
		std::list<std::uint32_t> bits;
		for( int i = 0; i != n; ++i ) {
			bits.push_back( patterns[( unsigned( i ) + at ) % 7] );
		}
		auto const raw = []( float f ) {
			std::uint32_t r;
			std::memcpy( &r, &f, 4 );
			return r;
		};
		std::vector<std::uint32_t> const want( bits.begin( ), bits.end( ) );
		std::vector<float> floats( std::size_t( n ), 7.0f );
		daw::bit_cast_copy( bits.begin( ), bits.end( ), floats.begin( ) );
		std::vector<std::uint32_t> got;
		for( float f : floats ) {
			got.push_back( raw( f ) );
		}
		MC_CHECK( got == want, "bit-copy", "bit_cast_copy of %d values", n );
		std::vector<std::uint64_t> wide( std::size_t( n ), 9 );
		daw::bit_cast_copy<std::int32_t>( bits.begin( ), bits.end( ), wide.begin( ) );
		for( int i = 0; i != n; ++i ) {
			MC_CHECK( wide[std::size_t( i )] == std::uint64_t( std::int64_t( std::int32_t( want[std::size_t( i )] ) ) ), "bit-copy-as", "value %d of %d", i, n );
		}
		got.clear( );
		daw::bit_cast_for_each<float>( bits.begin( ), bits.end( ), [&]( float f ) { got.push_back( raw( f ) ); } );
		MC_CHECK( got == want, "bit-each", "bit_cast_for_each of %d values", n );
		std::vector<std::uint32_t> negated( std::size_t( n ), 3 );
		daw::bit_cast_transform<float>( bits.begin( ), bits.end( ), negated.begin( ), []( float f ) { return -f; } );
		for( int i = 0; i != n; ++i ) {
			float f;
			std::memcpy( &f, &want[std::size_t( i )], 4 );
			if( f == f ) {
				MC_CHECK( negated[std::size_t( i )] == ( want[std::size_t( i )] ^ 0x8000'0000 ), "bit-transform", "value %d of %d", i, n );
			}
		}
	}

	template<typename R>
	int category( R && ) {
		return std::is_lvalue_reference_v<R> ? ( std::is_const_v<std::remove_reference_t<R>> ? 1 : 0 ) : ( std::is_const_v<std::remove_reference_t<R>> ? 3 : 2 );
	}
	MC_TEST( forward_like ) {
		struct Owner {};
		int x = 5;
		int const c = 6;
		bool const constant = mc::choose( 2 );
		unsigned const owner = mc::choose( 5 );
		auto const go = [&]( auto &v, bool is_const ) {
			int got = -1;
			int const *p = nullptr;
			auto const with = [&]( auto &&r ) {
				got = category( static_cast<decltype( r )>( r ) );
				p = &r;
			};
			switch( owner ) {
			case 0: with( daw::forward_like<Owner>( v ) ); break;
			case 1: with( daw::forward_like<Owner &>( v ) ); break;
			case 2: with( daw::forward_like<Owner const &>( v ) ); break;
			case 3: with( daw::forward_like<Owner const>( v ) ); break;
			default: with( daw::forward_like<Owner &&>( v ) ); break;
			}
			int const base[] = { 2, 0, 1, 3, 2 };
			MC_CHECK( got == ( base[owner] | int( is_const ) ) and p == &v, "forward-like", "owner kind %u: category %d", owner, got );
		};
		if( constant ) {
			go( c, true );
		} else {
			go( x, false );
		}
	}

	MC_TEST( reversed_access ) {
		int const n = lengths[mc::choose( 8 )];
		std::vector<int> v;
		for( int i = 0; i != n; ++i ) {
			v.push_back( i );
		}
		std::list<int> const l( v.begin( ), v.end( ) );
		std::vector<int> const want( v.rbegin( ), v.rend( ) );
		MC_CHECK( std::vector<int>( daw::algorithm::rbegin2( v ), daw::algorithm::rend2( v ) ) == want, "rbegin2", "%d items", n );
		MC_CHECK( std::vector<int>( daw::algorithm::crbegin2( l ), daw::algorithm::crend2( l ) ) == want, "crbegin2", "%d items", n );
		int const *none = nullptr;
		MC_CHECK( daw::algorithm::is_null_ptr( none ) and not daw::algorithm::is_null_ptr( &n ), "is-null", "is_null_ptr" );
	}

	MC_TEST( throwing ) {
		unsigned const how = mc::choose( 3 );
		std::string got;
		try {
			if( how == 0 ) {
				DAW_THROW_OR_TERMINATE( std::runtime_error, "boom" );
			} else if( how == 1 ) {
				DAW_THROW_OR_TERMINATE( std::out_of_range, "range" );
			} else {
				DAW_THROW_OR_TERMINATE_NA( std::bad_alloc );
			}
		} catch( std::runtime_error const &e ) {
			got = std::string( "r:" ) + e.what( );
		} catch( std::out_of_range const &e ) {
			got = std::string( "o:" ) + e.what( );
		} catch( std::bad_alloc const & ) {
			got = "b";
		}
		char const *const want[] = { "r:boom", "o:range", "b" };
		MC_CHECK( got == want[how], "throws", "threw %s", got.c_str( ) );
#ifndef MC_NO_INTERNALS
		MC_CHECK( mc::aborts( [] { daw::check_except_detail::terminate_error( ); } ), "terminates", "terminate_error returned" );
#endif
	}

	MC_TEST( forwarding ) {
		mc::with_tracking( [] {
			mc::Tracked<> x( 4 );
			auto const copies = mc::tr::copies;
			auto &same = daw::identity_function( x );
			MC_CHECK( &same == &x and mc::tr::copies == copies, "identity", "another object" );
			mc::Tracked<> const y( 5 );
			auto t = daw::forward_nonrvalue_as_tuple( x, y, mc::Tracked<>( 6 ), 7 );
			MC_CHECK( &std::get<0>( t ) == &x and &std::get<1>( t ) == &y, "as-tuple-references", "lvalues are kept by reference" );
			MC_CHECK( mc::val( std::get<2>( t ) ) == 6 and std::get<3>( t ) == 7, "as-tuple-values", "rvalues are stored" );
			std::get<0>( t ) = mc::Tracked<>( 8 );
			MC_CHECK( mc::val( x ) == 8, "as-tuple-references", "a write does not arrive" );
			MC_CHECK( mc::tr::copies == copies, "as-tuple-copies", "something is copied" );
		} );
	}

	MC_TEST( ring_storage ) {
		daw::ring_adaptor<std::deque<int>> r( 4u );
		auto const &c = r;
		int const n = int( mc::choose( 7 ) );
		for( int i = 0; i != n; ++i ) {
			if( r.size( ) == 4 ) {
				break;
			}
			r.push_back( i + 1 );
		}
		MC_CHECK( &r.underlying_container( ) == &c.underlying_container( ) and c.underlying_container( ).size( ) == 4, "ring-storage", "%zu places", c.underlying_container( ).size( ) );
		for( std::size_t i = 0; i != r.size( ); ++i ) {
			bool found = false;
			for( int x : c.underlying_container( ) ) {
				found = found or x == int( i ) + 1;
			}
			MC_CHECK( found and r[i] == int( i ) + 1, "ring-storage", "item %zu is not in the container", i );
		}
	}

	MC_TEST( fixed_lookups ) {
		auto t = daw::make_fixed_lookup<int>( 'a', 'b', 'c' );
		char const keys[] = { 'a', 'b', 'c', 'd' };
		int const v = int( mc::choose( 3 ) ) + 1;
		char const k = keys[mc::choose( 3 )];
		for( char c : keys ) {
			MC_CHECK( t.exists( c ) == ( c != 'd' ), "lookup-exists", "'%c'", c );
		}
		t[k] = v;
		auto const &ct = t;
		for( char c : keys ) {
			if( c != 'd' ) {
				MC_CHECK( ct[c] == ( c == k ? v : 0 ), "lookup-value", "'%c' is %d", c, ct[c] );
			}
		}
		bool full = false;
		try {
			t['d'] = 3;
		} catch( std::exception const & ) { full = true; }
		MC_CHECK( full and not t.exists( 'd' ), "lookup-full", "a fourth key is accepted" );
	}
} // namespace
