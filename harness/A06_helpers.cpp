// A06: small helpers over values, functions and ranges.
#include "mc.h"
#include "mc_tracked.h"

#include <daw/daw_cx_offset_of.h>
#include <daw/daw_do_n.h>
#include <daw/daw_ordering_to_integer.h>
#include <daw/daw_parser_addons.h>
#include <daw/daw_utility.h>
#include <daw/daw_virtual_base.h>

#include <cstring>
#include <deque>
#include <list>
#include <memory>
#include <string>
#include <vector>

namespace {
	// Every sequence of up to n values below k.
	std::vector<int> sequence( int n, int k ) {
		std::vector<int> v( std::size_t( mc::choose_range( 0, n ) ) );
		for( auto &x : v ) {
			x = int( mc::choose( k ) );
		}
		return v;
	}

	template<typename C>
	void searches( std::vector<int> const &v, int x ) {
		C const c( v.begin( ), v.end( ) );
		auto const pos = std::find( v.begin( ), v.end( ), x ) - v.begin( );
		MC_CHECK( daw::index_of( c, x ) == pos, "index-of", "index_of %d among %zu items is %td, not %td", x, v.size( ), std::ptrdiff_t( daw::index_of( c, x ) ), pos );
		MC_CHECK( daw::contains( c, x ) == ( pos != std::ptrdiff_t( v.size( ) ) ), "contains", "contains %d among %zu items", x, v.size( ) );
		int calls = 0;
		auto const places = daw::find_all_where( c, [&]( int i ) {
			++calls;
			return i == x;
		} );
		MC_CHECK( calls == int( v.size( ) ), "find-all", "find_all_where asks %d times about %zu items", calls, v.size( ) );
		std::size_t n = 0;
		for( std::size_t i = 0; i != v.size( ); ++i ) {
			if( v[i] == x ) {
				MC_CHECK( n < places.size( ) and std::size_t( std::distance( c.begin( ), places[n] ) ) == i, "find-all", "find_all_where does not list item %zu as number %zu", i, n );
				++n;
			}
		}
		MC_CHECK( n == places.size( ), "find-all", "find_all_where lists %zu of %zu places", places.size( ), n );
	}

	void ranges( ) {
		auto const v = sequence( mc::by_tier( 5, 7 ), 3 );
		int const x = int( mc::choose( 3 ) );
		searches<std::vector<int>>( v, x );
		searches<std::list<int>>( v, x );

		// one after another
		daw::equal_to_last<int> last{ };
		auto same = daw::equal_to( x );
		auto other = daw::Not( daw::equal_to( x ) );
		for( std::size_t i = 0; i != v.size( ); ++i ) {
			MC_CHECK( last( v[i] ) == ( i != 0 and v[i] == v[i - 1] ), "equal-to-last", "item %zu", i );
			MC_CHECK( same( v[i] ) == ( v[i] == x ) and other( v[i] ) == ( v[i] != x ), "equal-to", "item %zu", i );
		}

		// the leading items, and not more than there are
		for( std::size_t n = 0; n != v.size( ) + 2; ++n ) {
			bool thrown = false;
			std::vector<int> got;
			try {
				got = daw::copy_vector( v, n );
			} catch( std::exception const & ) { thrown = true; }
			MC_CHECK( thrown == ( n > v.size( ) ), "copy-vector", "%zu of %zu items: %s", n, v.size( ), thrown ? "refused" : "not refused" );
			MC_CHECK( thrown or got == std::vector<int>( v.begin( ), v.begin( ) + std::ptrdiff_t( n ) ), "copy-vector", "%zu of %zu items: others", n, v.size( ) );
		}

		// added at the end
		auto w = v;
		auto const at = daw::append( w, x, 7 );
		MC_CHECK( w.size( ) == v.size( ) + 2 and w[v.size( )] == x and w.back( ) == 7 and std::equal( v.begin( ), v.end( ), w.begin( ) ) and at - w.begin( ) == std::ptrdiff_t( v.size( ) ), "append", "after %zu items", v.size( ) );

		std::vector<int> out( v.size( ) + 1, -1 );
		auto e = daw::cxpr_copy( v.begin( ), v.end( ), out.begin( ) );
		MC_CHECK( e - out.begin( ) == std::ptrdiff_t( v.size( ) ) and std::equal( v.begin( ), v.end( ), out.begin( ) ) and out.back( ) == -1, "copy-range", "%zu items", v.size( ) );
		mc::count_case( );
	}

	void narrowed( ) {
		int const n = mc::choose_range( 0, 5 );
		std::list<int> items;
		for( int i = 0; i != n; ++i ) {
			items.push_back( i );
		}
		auto r = daw::make_range( items.begin( ), items.end( ) );
		int lo = 0;
		int hi = n;
		for( int d = 0; d != 4; ++d ) {
			int k = lo;
			for( int i : std::as_const( r ) ) {
				MC_CHECK( k < hi and i == k, "range", "item %d is %d of [%d, %d)", k, i, lo, hi );
				++k;
			}
			MC_CHECK( k == hi and std::distance( r.begin( ), r.end( ) ) == hi - lo, "range", "stops at %d of [%d, %d)", k, lo, hi );
			int const count = mc::choose_range( 0, 2 );
			mc::step( );
			if( hi - lo < ( count == 0 ? 1 : count ) ) {
				return;
			}
			switch( mc::choose( 2 ) ) {
			case 0:
				count == 0 ? r.remove_prefix( ) : r.remove_prefix( std::size_t( count ) );
				lo += count == 0 ? 1 : count;
				break;
			default:
				count == 0 ? r.remove_suffix( ) : r.remove_suffix( std::size_t( count ) );
				hi -= count == 0 ? 1 : count;
				break;
			}
		}
	}

	void moved( ) {
		using T = mc::Tracked<mc::NoThrowMove | mc::NoCopy>;
		mc::with_tracking( [&] {
			int const n = mc::choose_range( 0, 4 );
			std::deque<T> from;
			std::deque<T> to;
			for( int i = 0; i != n; ++i ) {
				from.emplace_back( i + 1 );
				to.emplace_back( 0 );
			}
			auto const e = daw::cxpr_move( from.begin( ), from.end( ), to.begin( ) );
			MC_CHECK( e == to.end( ), "move-range", "ends elsewhere" );
			for( int i = 0; i != n; ++i ) {
				MC_CHECK( mc::val( to[std::size_t( i )] ) == i + 1 and mc::val( from[std::size_t( i )] ) == mc::MOVED, "move-range", "item %d", i );
			}
		} );
	}

	void one_of( ) {
		int const a = int( mc::choose( 3 ) ), b = int( mc::choose( 3 ) ), c = int( mc::choose( 3 ) ), x = int( mc::choose( 3 ) );
		MC_CHECK( not daw::value_is( x ).one_of( ) and daw::value_is( x ).none_of( ), "value-is", "of nothing" );
		MC_CHECK( daw::value_is( x ).one_of( a ) == ( x == a ) and daw::value_is( x ).none_of( a ) == ( x != a ), "value-is", "%d of %d", x, a );
		bool const in = x == a or x == b or x == c;
		MC_CHECK( daw::value_is( x ).one_of( a, b, c ) == in and daw::value_is( x ).none_of( a, b, c ) == not in, "value-is", "%d of %d, %d, %d", x, a, b, c );
		MC_CHECK( daw::in_range( x, a, b ) == ( a <= x and x < b ), "in-range", "%d of [%d, %d)", x, a, b );
		std::string const t = std::to_string( x );
		MC_CHECK( daw::value_is( t ).one_of( std::to_string( a ), std::to_string( b ) ) == ( x == a or x == b ), "value-is", "texts" );
	}

	struct Seen {
		int which = 0;
		void const *where = nullptr;
		int calls = 0;
		void operator( )( int &i ) { which = 1, where = &i, ++calls; }
		void operator( )( std::string const &s ) { which = 2, where = &s, ++calls; }
		void operator( )( double &&d ) { which = 3, where = &d, ++calls; }
		// nothing for a pointer
	};
	void packs( ) {
		auto const n = mc::choose( 6 );
		int i = 1;
		std::string const s = "x";
		double d = 2.5;
		int *p = &i;
		int j = 3;
		Seen seen;
		daw::pack_apply( n, seen, i, s, std::move( d ), p, j );
		int const which[] = { 1, 2, 3, 0, 1, 0 };
		void const *const where[] = { &i, &s, &d, nullptr, &j, nullptr };
		MC_CHECK( seen.which == which[n] and seen.where == where[n] and seen.calls == ( which[n] != 0 ), "pack-apply", "argument %u of 5: callable %d was called %d times", n, seen.which, seen.calls );
		MC_CHECK( &daw::pack_get<0>( i, s, j ) == &i and &daw::pack_get<1>( i, s, j ) == &s and &daw::pack_get<2>( i, s, j ) == &j, "pack-get", "gives another argument" );
	}

	int plus( int a, int b ) { return a + 10 * b; }
	struct Obj {
		int base;
		int add( int a ) { return base += a; }
	};
	void functions( ) {
		int const a = int( mc::choose( 4 ) ), b = int( mc::choose( 4 ) );
		static int calls;
		calls = 0;
		auto const f = daw::make_function( []( int x, int y ) {
			++calls;
			return plus( x, y );
		} );
		MC_CHECK( f( a, b ) == plus( a, b ) and calls == 1, "make-function", "of a lambda" );
		auto const bound = daw::make_function<int, int>( [a]( int x ) { return plus( a, x ); } );
		MC_CHECK( bound( b ) == plus( a, b ), "make-function", "of a bound lambda" );
		std::function<int( int, int )> const p = &plus;
		MC_CHECK( p( a, b ) == plus( a, b ), "make-function", "of a function" );
		Obj o{ a };
		auto const m = std::mem_fn( &Obj::add );
		MC_CHECK( m( o, b ) == a + b and o.base == a + b, "make-function", "of a member" );
		int object = 5;
		auto copy = daw::copy( object );
		static_assert( not std::is_reference_v<decltype( daw::copy( object ) )> );
		copy = 6;
		MC_CHECK( object == 5, "copy", "a copy is the original" );
		std::string const text( std::size_t( 20 * a ), 'q' );
		std::unique_ptr<std::string> const q( daw::copy_ptr_value( &text ) );
		MC_CHECK( q.get( ) != &text and *q == text and daw::copy( text ) == text and daw::copy( std::string( text ) ) == text, "copy", "a copy differs" );
	}

	void while_alive( ) {
		int const owners = mc::choose_range( 0, 2 );
		std::vector<std::shared_ptr<int>> hold;
		auto first = std::make_shared<int>( 4 );
		for( int i = 0; i != owners; ++i ) {
			hold.push_back( first );
		}
		auto run = daw::RunIfValid( std::weak_ptr<int>( first ) );
		first.reset( );
		for( ;; ) {
			int calls = 0;
			bool const ran = run( [&]( std::shared_ptr<int> const &p ) {
				++calls;
				MC_CHECK( p and *p == 4 and p.use_count( ) >= 2, "run-if-valid", "the object is not kept" );
			} );
			MC_CHECK( ran == not hold.empty( ) and calls == int( ran ), "run-if-valid", "with %zu owners: ran %d, calls %d", hold.size( ), ran, calls );
			if( hold.empty( ) ) {
				return;
			}
			hold.pop_back( );
		}
	}

	// Bytes of values, and numbers out of their bytes.
	template<typename To, typename From>
	void bytes( From v ) {
		auto const chars = daw::as_char_array( v );
		MC_CHECK( chars.size( ) == sizeof( From ) and std::memcmp( chars.data( ), &v, sizeof( From ) ) == 0, "char-array", "other bytes" );
		auto const a = daw::to_array_of<To>( v );
		MC_CHECK( a.size( ) == sizeof( From ) / sizeof( To ), "to-array-of", "%zu values", a.size( ) );
		for( std::size_t i = 0; i != a.size( ); ++i ) {
			std::uint64_t want = 0;
			for( std::size_t k = 0; k != sizeof( To ); ++k ) {
				want = want << 8U | chars[i * sizeof( To ) + k];
			}
			MC_CHECK( a[i] == To( want ), "to-array-of", "value %zu of %zu is %llx, not %llx", i, a.size( ), (unsigned long long)a[i], (unsigned long long)want );
		}
		mc::count_case( );
	}
	void as_bytes( ) {
		std::uint64_t v = 0;
		for( int i = 0; i != 4; ++i ) {
			std::uint64_t const parts[] = { 0, 0x7F01, 0x80FE, 0xFFFF };
			v = v << 16U | parts[mc::choose( 4 )];
		}
		bytes<std::uint8_t>( v );
		bytes<std::uint16_t>( v );
		bytes<std::uint32_t>( v );
		bytes<std::uint64_t>( v );
		bytes<std::uint16_t>( std::uint32_t( v ) );
		bytes<std::uint8_t>( std::uint16_t( v ) );
		struct {
			std::uint32_t a, b;
		} const pair{ std::uint32_t( v ), std::uint32_t( v >> 32U ) };
		bytes<std::uint32_t>( pair );
	}

	void letters( ) {
		// all characters, alone and in texts of wide ones
		for( int i = 0; i != 256; ++i ) {
			char const c = char( i );
			char const up = i >= 'a' and i <= 'z' ? char( i - 'a' + 'A' ) : c;
			char const lo = i >= 'A' and i <= 'Z' ? char( i - 'A' + 'a' ) : c;
			MC_CHECK( daw::AsciiUpper( c ) == up and daw::AsciiLower( c ) == lo, "case", "character %d", i );
			MC_CHECK( daw::is_space( c ) == ( c == ' ' ), "space", "character %d", i );
		}
		unsigned const places[] = { 'a', 'Z', 'z', '@', '[', '`', '{', 0xE9, 0x161, 0x141, 0x2061, 0xFF41 };
		std::u32string t;
		std::u32string up;
		std::u32string lo;
		std::string n;
		int const len = mc::choose_range( 0, 3 );
		for( int i = 0; i != len; ++i ) {
			auto const c = places[mc::choose( 12 )];
			t += char32_t( c );
			up += char32_t( c >= 'a' and c <= 'z' ? c - 32 : c );
			lo += char32_t( c >= 'A' and c <= 'Z' ? c + 32 : c );
			n += char( c );
		}
		MC_CHECK( daw::AsciiUpper( t ) == up and daw::AsciiLower( t ) == lo, "case", "a text of %d wide characters changes otherwise", len );
		auto const nup = daw::AsciiUpper( n );
		auto const nlo = daw::AsciiLower( n );
		for( std::size_t i = 0; i != n.size( ); ++i ) {
			MC_CHECK( nup[i] == daw::AsciiUpper( n[i] ) and nlo[i] == daw::AsciiLower( n[i] ), "case", "character %zu of a text", i );
		}
		MC_CHECK( nup.size( ) == n.size( ) and nlo.size( ) == n.size( ), "case", "a text changes its length" );
		mc::count_case( );
	}

	struct alignas( 32 ) Wide {
		char c[32];
	};
	void buffers( ) {
		auto const n = std::size_t( mc::choose_range( 1, 9 ) );
		auto *const i = daw::get_buffer<int>( n );
		auto *const w = daw::get_buffer<Wide>( n );
		MC_CHECK( i and w and reinterpret_cast<std::uintptr_t>( i ) % alignof( int ) == 0 and reinterpret_cast<std::uintptr_t>( w ) % 32 == 0, "buffer", "not aligned" );
		std::memset( i, 1, sizeof( int ) * n );
		std::memset( w, 1, sizeof( Wide ) * n );
		daw::return_buffer( i );
		daw::return_buffer( w );
	}

	struct Fields {
		char a;
		int b;
		char c;
		double d;
		char e[3];
	};
	struct Shape : daw::virtual_base<Shape> {
		int *gone = nullptr;
		Shape( ) = default;
	};
	struct Circle : Shape {
		int *count;
		explicit Circle( int *c ) : count( c ) {}
		~Circle( ) override { ++*count; }
	};
	void small( ) {
		MC_CHECK( daw::offset_of( &Fields::a ) == offsetof( Fields, a ) and daw::offset_of( &Fields::b ) == offsetof( Fields, b ) and daw::offset_of( &Fields::c ) == offsetof( Fields, c ) and
		            daw::offset_of( &Fields::d ) == offsetof( Fields, d ) and daw::offset_of( &Fields::e ) == offsetof( Fields, e ),
		          "offset-of", "another offset" );
		int gone = 0;
		{
			std::unique_ptr<Shape> p = std::make_unique<Circle>( &gone );
		}
		MC_CHECK( gone == 1, "virtual-base", "the derived object was destroyed %d times", gone );

		// orderings as enumerators and back
		double const nan = std::numeric_limits<double>::quiet_NaN( );
		double const xs[] = { 1.0, 2.0, nan };
		auto const x = xs[mc::choose( 3 )];
		auto const y = xs[mc::choose( 3 )];
		auto const o = x <=> y;
		auto const e = daw::order_to_enum( o );
		auto const want = x < y ? daw::partial_ordering::less : x > y ? daw::partial_ordering::greater : x == y ? daw::partial_ordering::equivalent : daw::partial_ordering::unordered;
		MC_CHECK( e == want, "ordering", "%g <=> %g", x, y );
		MC_CHECK( daw::equal_or_equivalent( o ) == ( x == y ) and daw::equal_or_equivalent( e ) == ( x == y ), "ordering", "%g <=> %g equivalent", x, y );
		if( x == x and y == y ) {
			auto const s = int( x ) <=> int( y );
			MC_CHECK( ( daw::order_to_enum( s ) == daw::strong_ordering::less ) == ( x < y ) and ( daw::order_to_enum( s ) == daw::strong_ordering::greater ) == ( x > y ) and ( daw::order_to_enum( s ) == daw::strong_ordering::equal ) == ( x == y ),
			          "ordering", "strong" );
			std::weak_ordering const w = s;
			MC_CHECK( ( daw::order_to_enum( w ) == daw::weak_ordering::less ) == ( x < y ) and ( daw::order_to_enum( w ) == daw::weak_ordering::greater ) == ( x > y ) and daw::equal_or_equivalent( w ) == ( x == y ), "ordering", "weak" );
		}
	}
	void repeated( ) {
		int const n = mc::choose_range( 0, 6 );
		int calls = 0;
		daw::algorithm::do_n( std::size_t( n ), [&] { ++calls; } );
		MC_CHECK( calls == n, "do-n", "do_n( %d ) calls %d times", n, calls );
		std::vector<std::size_t> at;
		daw::algorithm::do_n_arg( std::size_t( n ), [&]( std::size_t i ) { at.push_back( i ); } );
		MC_CHECK( int( at.size( ) ) == n, "do-n", "do_n_arg( %d ) calls %zu times", n, at.size( ) );
		for( std::size_t i = 0; i != at.size( ); ++i ) {
			MC_CHECK( at[i] == i, "do-n", "call %zu is given %zu", i, at[i] );
		}
	}
} // namespace

MC_TEST( ranges ) { ranges( ); }
MC_TEST( narrowed ) { narrowed( ); }
MC_TEST( moved ) { moved( ); }
MC_TEST( one_of ) { one_of( ); }
MC_TEST( packs ) { packs( ); }
MC_TEST( functions ) { functions( ); }
MC_TEST( while_alive ) { while_alive( ); }
MC_TEST( as_bytes ) { as_bytes( ); }
MC_TEST( letters ) { letters( ); }
MC_TEST( buffers ) { buffers( ); }
MC_TEST( small ) { small( ); }
MC_TEST( repeated ) { repeated( ); }
