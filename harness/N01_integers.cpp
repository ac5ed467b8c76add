// N01: integer, bit and byte-order primitives, compared with exact (128 bit or
// bit-by-bit) arithmetic on every operand of the stated sets.
#include "mc.h"

#include "daw/daw_arith_traits.h"
#include "daw/daw_bit.h"
#include "daw/daw_bit_count.h"
#include "daw/daw_cxmath.h"
#include "daw/daw_endian.h"
#include "daw/daw_int_cmp.h"
#include "daw/daw_integer_reverse.h"
#include "daw/daw_logic.h"
#include "daw/daw_size_literals.h"
#include "daw/daw_to_underlying_type.h"
#include "daw/daw_utility.h"

#include <array>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace {
	using i128 = __int128;
	using u128 = unsigned __int128;

	using types = std::tuple<std::int8_t, std::uint8_t, std::int16_t, std::uint16_t, std::int32_t, std::uint32_t, std::int64_t, std::uint64_t, long long, unsigned long long, char>;
	constexpr char const *names[] = { "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "llong", "ullong", "char" };
	constexpr int ntypes = static_cast<int>( std::tuple_size_v<types> );

	// Every value for 8 bit types; for the others zero, the limits, every power of
	// two and their neighbours.
	template<typename T>
	std::vector<T> const &values( ) {
		static std::vector<T> const &k = *[] {
			mc::NoTrack nt;
			auto *v = new std::vector<T>( );
			auto const lo = static_cast<i128>( std::numeric_limits<T>::min( ) );
			auto const hi = static_cast<i128>( std::numeric_limits<T>::max( ) );
			auto add = [&]( i128 x ) {
				if( x < lo or x > hi ) {
					return;
				}
				for( auto y : *v ) {
					if( static_cast<i128>( y ) == x ) {
						return;
					}
				}
				v->push_back( static_cast<T>( x ) );
			};
			if( sizeof( T ) == 1 ) {
				for( i128 x = lo; x <= hi; ++x ) {
					add( x );
				}
			} else {
				for( int d = -2; d <= 2; ++d ) {
					add( d );
					add( lo + d );
					add( hi + d );
					for( unsigned b = 1; b < sizeof( T ) * 8; ++b ) {
						bool const edge = b % 8 == 0 or b % 8 == 7;
						if( edge or d == 0 or ( d == -1 and mc::tier( ) > 0 ) ) {
							add( ( static_cast<i128>( 1 ) << b ) + d );
							add( -( static_cast<i128>( 1 ) << b ) + d );
						}
					}
				}
			}
			return v;
		}( );
		return k;
	}

	template<typename F>
	void with_type( int i, F f ) {
		[&]<std::size_t... Is>( std::index_sequence<Is...> ) {
			(void)( ( static_cast<int>( Is ) == i ? ( f( std::tuple_element_t<Is, types>{ } ), true ) : false ) or ... );
		}( std::make_index_sequence<static_cast<std::size_t>( ntypes )>{ } );
	}

	std::string show( i128 v ) {
		bool const neg = v < 0;
		u128 u = neg ? -static_cast<u128>( v ) : static_cast<u128>( v );
		std::string s;
		do {
			s.insert( s.begin( ), static_cast<char>( '0' + static_cast<int>( u % 10 ) ) );
			u /= 10;
		} while( u );
		return neg ? "-" + s : s;
	}
} // namespace

MC_TEST( comparisons ) {
	int const ti = mc::choose( ntypes );
	int const ui = mc::choose( ntypes );
	with_type( ti, [&]( auto tt ) {
		using T = decltype( tt );
		with_type( ui, [&]( auto uu ) {
			using U = decltype( uu );
			for( T t : values<T>( ) ) {
				auto const x = static_cast<i128>( t );
				for( U u : values<U>( ) ) {
					auto const y = static_cast<i128>( u );
					mc::count_case( );
					bool const ok = daw::cmp_equal( t, u ) == ( x == y ) and daw::cmp_not_equal( t, u ) == ( x != y ) and daw::cmp_less( t, u ) == ( x < y ) and daw::cmp_greater( t, u ) == ( x > y ) and daw::cmp_less_equal( t, u ) == ( x <= y ) and
					                daw::cmp_greater_equal( t, u ) == ( x >= y );
					if( not ok ) {
						MC_CHECK( false, "int-cmp", "cmp_* of %s %s and %s %s is not exact", names[ti], show( x ).c_str( ), names[ui], show( y ).c_str( ) );
					}
					bool const cx = daw::cxmath::cmp_equal( t, u ) == ( x == y ) and daw::cxmath::cmp_not_equal( t, u ) == ( x != y ) and daw::cxmath::cmp_less( t, u ) == ( x < y ) and daw::cxmath::cmp_greater( t, u ) == ( x > y ) and
					                daw::cxmath::cmp_less_equal( t, u ) == ( x <= y ) and daw::cxmath::cmp_greater_equal( t, u ) == ( x >= y );
					if( not cx ) {
						MC_CHECK( false, "cxmath-cmp", "cxmath::cmp_* of %s %s and %s %s is not exact", names[ti], show( x ).c_str( ), names[ui], show( y ).c_str( ) );
					}
				}
				// Range checks of the value against the other type
				bool const fits = x >= static_cast<i128>( std::numeric_limits<U>::min( ) ) and x <= static_cast<i128>( std::numeric_limits<U>::max( ) );
				if( daw::in_range<U>( t ) != fits ) {
					MC_CHECK( false, "in-range", "in_range<%s>( %s %s ) is not %d", names[ui], names[ti], show( x ).c_str( ), fits );
				}
				if( daw::can_fit<U>( t ) != fits ) {
					MC_CHECK( false, "can-fit", "can_fit<%s>( %s %s ) is not %d", names[ui], names[ti], show( x ).c_str( ), fits );
				}
			}
		} );
	} );
}

MC_TEST( narrowing ) {
	int const ti = mc::choose( ntypes );
	int const ui = mc::choose( ntypes );
	with_type( ti, [&]( auto tt ) {
		using T = decltype( tt );
		with_type( ui, [&]( auto uu ) {
			using U = decltype( uu );
			auto const lo = static_cast<i128>( std::numeric_limits<U>::min( ) );
			auto const hi = static_cast<i128>( std::numeric_limits<U>::max( ) );
			int thrown = 0;
			for( T t : values<T>( ) ) {
				auto const x = static_cast<i128>( t );
				bool const fits = x >= lo and x <= hi;
				bool const edge = x == lo - 1 or x == hi + 1 or x == -1 or x == 255 or x == 256;
				if( not fits and not edge and ++thrown > 4 ) {
					continue; // the exception path is slow; the rest is covered by in_range
				}
				mc::count_case( );
				bool threw = false;
				U got{ };
				try {
					got = daw::narrow_cast<U>( t );
				} catch( std::out_of_range const & ) { threw = true; }
				if( threw == fits or ( fits and static_cast<i128>( got ) != x ) ) {
					MC_CHECK( false, "narrow-cast", "narrow_cast<%s>( %s %s ) threw %d, gave %s", names[ui], names[ti], show( x ).c_str( ), threw, show( static_cast<i128>( got ) ).c_str( ) );
				}
			}
		} );
	} );
}

namespace {
	template<typename T>
	void bit_functions( T t, char const *name ) {
		using U = std::make_unsigned_t<T>;
		constexpr unsigned W = sizeof( T ) * 8;
		auto const u = static_cast<U>( t );
		auto const x = static_cast<i128>( t );
		std::size_t ones = 0;
		unsigned lead = W, trail = W;
		U rev = 0;
		for( unsigned b = 0; b < W; ++b ) {
			if( ( u >> b ) & 1U ) {
				++ones;
				lead = W - 1 - b;
				if( trail == W ) {
					trail = b;
				}
				rev = static_cast<U>( rev | ( U{ 1 } << ( W - 1 - b ) ) );
			}
		}
		U swapped = 0;
		for( unsigned b = 0; b < sizeof( T ); ++b ) {
			swapped = static_cast<U>( swapped | ( static_cast<U>( ( u >> ( 8 * b ) ) & 0xFFU ) << ( 8 * ( sizeof( T ) - 1 - b ) ) ) );
		}
		mc::count_case( );
		auto bad = [&]( char const *what ) {
			MC_CHECK( false, what, "%s of %s %s is not exact", what, name, show( x ).c_str( ) );
		};
		if( daw::bitcount( t ) != ones or daw::bitcount( t, t ) != 2 * ones or daw::bitcount( t, T{ 0 }, T{ 1 } ) != ones + 1 ) {
			bad( "bitcount" );
		}
		if( static_cast<std::size_t>( daw::cxmath::popcount( t ) ) != ones ) {
			bad( "popcount" );
		}
		if( daw::cxmath::is_odd( t ) != ( ( u & 1U ) != 0 ) ) {
			bad( "is-odd" );
		}
		if( daw::cxmath::is_even( t ) != ( ( u & 1U ) == 0 ) ) {
			bad( "is-even" );
		}
		if( daw::signbit( t ) != ( x < 0 ) or daw::cxmath::signbit( t ) != ( x < 0 ) ) {
			bad( "signbit" );
		}
		if( daw::cxmath::to_unsigned( t ) != u or static_cast<i128>( daw::cxmath::to_signed( u ) ) != static_cast<i128>( static_cast<std::make_signed_t<T>>( u ) ) ) {
			bad( "to-unsigned" );
		}
		// native byte order
		constexpr bool little = std::endian::native == std::endian::little;
		auto const sw = static_cast<T>( swapped );
		if( daw::to_big_endian( t ) != ( little ? sw : t ) or daw::to_little_endian( t ) != ( little ? t : sw ) ) {
			bad( "to-endian" );
		}
		if( daw::network_to_host_endian( t ) != ( little ? sw : t ) or daw::network_to_host_endian( daw::to_big_endian( t ) ) != t ) {
			bad( "network-to-host" );
		}
		if( daw::to_native_endian<daw::endian::little>( t ) != ( little ? t : sw ) or daw::to_native_endian<daw::endian::big>( t ) != ( little ? sw : t ) or daw::to_native_endian<daw::endian::native>( t ) != t ) {
			bad( "to-native" );
		}
		// hexadecimal digits, most significant first
		std::string want;
		for( unsigned b = 0; b < 2 * sizeof( T ); ++b ) {
			want.push_back( "0123456789ABCDEF"[( u >> ( W - 4 - 4 * b ) ) & 0xF] );
		}
		char out[2 * sizeof( T ) + 1] = { };
		char *const e = daw::hex( t, static_cast<char *>( out ) );
		if( e != out + 2 * sizeof( T ) or want != out ) {
			bad( "hex" );
		}
		// bytes in memory order and back
		auto const ary = daw::as_char_array( t );
		if( ary.size( ) != sizeof( T ) or std::memcmp( ary.data( ), &t, sizeof( T ) ) != 0 ) {
			bad( "as-char-array" );
		}
		unsigned char be[sizeof( T )];
		for( unsigned b = 0; b < sizeof( T ); ++b ) {
			be[b] = static_cast<unsigned char>( u >> ( W - 8 - 8 * b ) );
		}
		if( daw::value_from_chars<U>( be, std::integral_constant<std::size_t, sizeof( T )>{ } ) != u ) {
			bad( "value-from-chars" );
		}
		if constexpr( std::is_same_v<T, std::uint8_t> or std::is_same_v<T, std::uint16_t> or std::is_same_v<T, std::uint32_t> or std::is_same_v<T, std::uint64_t> ) {
			if( daw::integers::reverse_bits( t ) != rev ) {
				bad( "reverse-bits" );
			}
		}
		if constexpr( std::is_unsigned_v<T> and sizeof( T ) >= 4 ) {
			if( daw::cxmath::count_leading_zeroes( t ) != lead ) {
				bad( "clz" );
			}
			if constexpr( std::is_same_v<T, std::uint32_t> or std::is_same_v<T, std::uint64_t> ) {
				if( daw::cxmath::count_trailing_zeros( t ) != trail ) {
					bad( "ctz" );
				}
				if( daw::cxmath::count_leading_zeroes( static_cast<daw::UInt<W>>( t ) ) != lead ) {
					bad( "clz-uint" );
				}
			}
#ifndef MC_NO_INTERNALS
			if( daw::cxmath::cxmath_impl::count_trailing_zeros_cx( t ) != trail ) {
				bad( "ctz-cx" );
			}
#endif
			if( u <= ( U{ 1 } << ( W - 1 ) ) ) {
				U p = 1;
				while( p < u ) {
					p = static_cast<U>( p * 2 );
				}
				if( daw::cxmath::round_up_pow2( t ) != ( u == 0 ? 0 : p ) ) {
					bad( "round-up-pow2" );
				}
			}
		}
		if( x >= 0 ) {
			if( daw::cxmath::count_digits( static_cast<std::uint64_t>( x ) ) != static_cast<int>( show( x ).size( ) ) ) {
				bad( "count-digits" );
			}
		}
	}
} // namespace

MC_TEST( single_operand ) {
	int const ti = mc::choose( ntypes );
	with_type( ti, [&]( auto tt ) {
		using T = decltype( tt );
		if constexpr( sizeof( T ) <= 2 ) {
			for( i128 x = std::numeric_limits<T>::min( ); x <= static_cast<i128>( std::numeric_limits<T>::max( ) ); ++x ) {
				bit_functions<T>( static_cast<T>( x ), names[ti] );
			}
		} else {
			for( T t : values<T>( ) ) {
				bit_functions<T>( t, names[ti] );
			}
			using U = std::make_unsigned_t<T>;
			// one or two set bits, runs of bits, decimal boundaries
			for( unsigned a = 0; a < sizeof( T ) * 8; ++a ) {
				for( unsigned b = a; b < sizeof( T ) * 8; ++b ) {
					bit_functions<T>( static_cast<T>( ( U{ 1 } << a ) | ( U{ 1 } << b ) ), names[ti] );
					bit_functions<T>( static_cast<T>( ( std::numeric_limits<U>::max( ) << a ) & ( std::numeric_limits<U>::max( ) >> ( sizeof( T ) * 8 - 1 - b ) ) ), names[ti] );
				}
			}
			for( u128 p = 1; p <= std::numeric_limits<U>::max( ); p *= 10 ) {
				for( int m = 1; m < 10; ++m ) {
					for( int d = -1; d <= 1; ++d ) {
						bit_functions<T>( static_cast<T>( p * static_cast<unsigned>( m ) + static_cast<u128>( d ) ), names[ti] );
					}
				}
			}
		}
	} );
}

MC_TEST( wide_128 ) {
	int const a = mc::choose( 129 );
	int const b = mc::choose( 129 );
	int const neg = mc::choose( 2 );
	auto bit = []( int n ) {
		return n == 128 ? u128{ 0 } : u128{ 1 } << n;
	};
	u128 u = bit( a ) | bit( b );
	if( neg ) {
		u = ~u;
	}
	int ones = 0;
	unsigned lead = 128;
	for( int n = 0; n < 128; ++n ) {
		if( ( u >> n ) & 1U ) {
			++ones;
			lead = static_cast<unsigned>( 127 - n );
		}
	}
#if defined( DAW_HAS_INT128 )
#if not DAW_HAS_BUILTIN( __builtin_clzg )
	MC_CHECK( daw::cxmath::count_leading_zeros( static_cast<daw::uint128_t>( u ) ) == lead, "clz-128", "count_leading_zeros of bits %d and %d (inverted %d) is %u, not %u", a, b, neg, daw::cxmath::count_leading_zeros( static_cast<daw::uint128_t>( u ) ), lead );
#endif
	auto const s = static_cast<i128>( u );
	for( std::int64_t v : { std::numeric_limits<std::int64_t>::min( ), std::int64_t{ -1 }, std::int64_t{ 0 }, std::int64_t{ 1 }, std::numeric_limits<std::int64_t>::max( ) } ) {
		mc::count_case( );
		MC_CHECK( daw::cmp_less( s, v ) == ( s < v ) and daw::cmp_equal( s, v ) == ( s == v ) and daw::cmp_less( v, s ) == ( v < s ) and daw::cmp_greater_equal( s, v ) == ( s >= v ), "cmp-128", "cmp_* of a 128 bit integer (bits %d, %d, inverted %d) and %lld", a, b,
		          neg, static_cast<long long>( v ) );
		bool const ult = v >= 0 and u < static_cast<u128>( v );
		bool const ueq = v >= 0 and u == static_cast<u128>( v );
		MC_CHECK( daw::cmp_less( u, v ) == ult and daw::cmp_equal( u, v ) == ueq and daw::cmp_greater( v, u ) == ult and daw::cmp_less_equal( u, v ) == ( ult or ueq ), "cmp-u128", "cmp_* of an unsigned 128 bit integer (bits %d, %d, inverted %d) and %lld", a, b, neg,
		          static_cast<long long>( v ) );
	}
	MC_CHECK( daw::in_range<std::int64_t>( s ) == ( s >= std::numeric_limits<std::int64_t>::min( ) and s <= std::numeric_limits<std::int64_t>::max( ) ), "in-range-128", "in_range<int64> of a 128 bit integer (bits %d, %d, inverted %d)", a, b, neg );
	MC_CHECK( daw::in_range<std::uint64_t>( u ) == ( u <= std::numeric_limits<std::uint64_t>::max( ) ), "in-range-u128", "in_range<uint64> of an unsigned 128 bit integer (bits %d, %d, inverted %d)", a, b, neg );
	MC_CHECK( daw::in_range<i128>( u ) == ( ( u >> 127 ) == 0 ) and daw::in_range<u128>( s ) == ( s >= 0 ), "in-range-128-sign", "in_range between the 128 bit integers (bits %d, %d, inverted %d)", a, b, neg );
#endif
	(void)ones;
	(void)lead;
}

namespace {
	template<typename T>
	void masks( ) {
		constexpr unsigned W = sizeof( T ) * 8;
		for( unsigned n = 0; n <= W + 2; ++n ) {
			mc::count_case( );
			u128 const full = ( u128{ 1 } << W ) - 1;
			auto const hi = static_cast<T>( n >= W ? u128{ 0 } : full >> n );
			auto const lo = static_cast<T>( n >= W ? u128{ 0 } : ( full << n ) & full );
			MC_CHECK( daw::mask_msb<T>( n ) == hi, "mask-msb", "mask_msb of %u in %u bits", n, W );
			MC_CHECK( daw::mask_lsb<T>( n ) == lo, "mask-lsb", "mask_lsb of %u in %u bits", n, W );
		}
	}

	template<typename T>
	void positions( ) {
		constexpr unsigned W = sizeof( T ) * 8;
		auto const a = static_cast<unsigned>( mc::choose( static_cast<int>( W ) ) );
		auto const b = static_cast<unsigned>( mc::choose( static_cast<int>( W ) ) );
		auto const one = static_cast<T>( T{ 1 } << a );
		auto const two = static_cast<T>( one | static_cast<T>( T{ 1 } << b ) );
		for( T v : values<T>( ) ) {
			mc::count_case( );
			bool const s = daw::set_bits( v, a ) == static_cast<T>( v | one ) and daw::set_bits( v, a, b ) == static_cast<T>( v | two ) and daw::set_bits( v, a, b, 0U ) == static_cast<T>( v | two | 1U );
			MC_CHECK( s, "set-bits", "set_bits %u %u of %llu in %u bits", a, b, static_cast<unsigned long long>( v ), W );
			bool const u = daw::unset_bits( v, a ) == static_cast<T>( v & ~one ) and daw::unset_bits( v, a, b ) == static_cast<T>( v & ~two ) and daw::unset_bits( v, a, b, 0U ) == static_cast<T>( v & ~static_cast<T>( two | 1U ) );
			MC_CHECK( u, "unset-bits", "unset_bits %u %u of %llu in %u bits", a, b, static_cast<unsigned long long>( v ), W );
			bool const g = daw::get_bits( v, a ) == static_cast<T>( v & one ) and daw::get_bits( v, a, b ) == static_cast<T>( v & two ) and daw::get_bits( v, a, b, 0U ) == static_cast<T>( v & ( two | 1U ) );
			MC_CHECK( g, "get-bits", "get_bits %u %u of %llu in %u bits", a, b, static_cast<unsigned long long>( v ), W );
			// any of the bits of the masks
			bool const q = daw::are_set( v, one ) == ( ( v & one ) != 0 ) and daw::are_set( v, one, two ) == ( ( v & two ) != 0 );
			MC_CHECK( q, "are-set", "are_set of masks %u %u on %llu in %u bits", a, b, static_cast<unsigned long long>( v ), W );
		}
		MC_CHECK( daw::make_mask( one ) == one and daw::make_mask( one, two ) == two and daw::make_mask( one, two, T{ 1 } ) == static_cast<T>( two | 1U ), "make-mask", "make_mask of bits %u %u in %u bits", a, b, W );
	}
} // namespace

MC_TEST( bit_masks ) {
	switch( mc::choose( 4 ) ) {
	case 0: masks<std::uint8_t>( ); break;
	case 1: masks<std::uint16_t>( ); break;
	case 2: masks<std::uint32_t>( ); break;
	default: masks<std::uint64_t>( ); break;
	}
}

MC_TEST( bit_positions ) {
	switch( mc::choose( 4 ) ) {
	case 0: positions<std::uint8_t>( ); break;
	case 1: positions<std::uint16_t>( ); break;
	case 2: positions<std::uint32_t>( ); break;
	default: positions<std::uint64_t>( ); break;
	}
}

MC_TEST( logic_and_ranges ) {
	int const a = mc::choose( 2 ), b = mc::choose( 2 ), c = mc::choose( 2 );
	MC_CHECK( daw::nsc_and( a != 0 ) == ( a != 0 ) and daw::nsc_and( a, b ) == ( a and b ) and daw::nsc_and( a, b != 0, 2 * c ) == ( a and b and c ), "nsc-and", "nsc_and of %d %d %d", a, b, c );
	MC_CHECK( daw::nsc_or( a != 0 ) == ( a != 0 ) and daw::nsc_or( a, b ) == ( a or b ) and daw::nsc_or( a, b != 0, 2 * c ) == ( a or b or c ), "nsc-or", "nsc_or of %d %d %d", a, b, c );
	MC_CHECK( not daw::or_all( ) and daw::or_all( a ) == a and daw::or_all( a, 2 * b ) == ( a | 2 * b ) and daw::or_all( a, 2 * b, 4 * c ) == ( a | 2 * b | 4 * c ), "or-all", "or_all of %d %d %d", a, b, c );
	int const v = mc::choose_range( -3, 3 ), lo = mc::choose_range( -3, 3 ), hi = mc::choose_range( -3, 3 );
	MC_CHECK( daw::in_range( v, lo, hi ) == ( lo <= v and v < hi ), "in-range-bounds", "in_range( %d, %d, %d )", v, lo, hi );
}

namespace {
	template<typename T>
	void traits( char const *name ) {
		bool const ok = daw::is_integral_v<T> == std::is_integral_v<T> and daw::is_signed_v<T> == std::is_signed_v<T> and daw::is_unsigned_v<T> == std::is_unsigned_v<T> and daw::is_floating_point_v<T> == std::is_floating_point_v<T> and
		                daw::is_number_v<T> == std::is_arithmetic_v<T> and daw::is_arithmetic_v<T> and daw::is_system_integral_v<T> == std::is_integral_v<T>;
		MC_CHECK( ok, "arith-traits", "arithmetic traits of %s", name );
		bool const lim = daw::max_value<T> == std::numeric_limits<T>::max( ) and daw::min_value<T> == std::numeric_limits<T>::min( ) and daw::lowest_value<T> == std::numeric_limits<T>::lowest( ) and daw::digits<T> == std::numeric_limits<T>::digits and
		                 daw::digits10<T> == std::numeric_limits<T>::digits10 and daw::max_digits10<T> == std::numeric_limits<T>::max_digits10 and daw::bit_count_v<T> == sizeof( T ) * 8;
		MC_CHECK( lim, "arith-limits", "limits of %s", name );
		if constexpr( std::is_integral_v<T> and not std::is_same_v<T, bool> ) {
			MC_CHECK( ( std::is_same_v<daw::make_unsigned_t<T>, std::make_unsigned_t<T>> and std::is_same_v<daw::make_signed_t<T>, std::make_signed_t<T>> ), "make-signed", "make_signed/make_unsigned of %s", name );
		}
	}

	template<std::size_t N>
	void sized( ) {
		using S = daw::intN_t<N>;
		using U = daw::uintN_t<N>;
		MC_CHECK( sizeof( S ) * 8 == N and sizeof( U ) * 8 == N and std::is_unsigned_v<U> and ( std::is_same_v<std::make_unsigned_t<S>, std::make_unsigned_t<U>> ), "intN", "intN_t/uintN_t of %zu bits", N );
		MC_CHECK( ( daw::is_same_size_v<U, N> and not daw::is_same_size_v<U, N + 1> ), "same-size", "is_same_size of %zu bits", N );
	}

	enum class small_enum : std::int8_t { lo = -128, mid = 0, hi = 127 };
	enum class big_enum : std::uint64_t { hi = ~0ULL };

	struct pod_t {
		unsigned char bytes[3];
	};
} // namespace

MC_TEST( type_traits ) {
	traits<bool>( "bool" );
	traits<char>( "char" );
	traits<std::int8_t>( "int8" );
	traits<std::uint8_t>( "uint8" );
	traits<std::int16_t>( "int16" );
	traits<std::uint16_t>( "uint16" );
	traits<std::int32_t>( "int32" );
	traits<std::uint32_t>( "uint32" );
	traits<std::int64_t>( "int64" );
	traits<std::uint64_t>( "uint64" );
	traits<long long>( "llong" );
	traits<float>( "float" );
	traits<double>( "double" );
	traits<long double>( "ldouble" );
	sized<8>( );
	sized<16>( );
	sized<32>( );
	sized<64>( );
	MC_CHECK( daw::to_underlying( small_enum::lo ) == -128 and daw::to_underlying( small_enum::hi ) == 127 and ( std::is_same_v<decltype( daw::to_underlying( small_enum::mid ) ), std::int8_t> ), "to-underlying", "to_underlying of an 8 bit enum" );
	MC_CHECK( daw::to_underlying( big_enum::hi ) == ~std::uint64_t{ 0 }, "to-underlying-64", "to_underlying of a 64 bit enum" );
	for( int n = 0; n < 19; ++n ) {
		mc::count_case( );
		std::uint64_t p = 1;
		for( int m = 0; m <= n; ++m ) {
			p *= 10;
		}
		MC_CHECK( daw::cxmath::powers_of_ten[n] == p, "powers-of-ten", "powers_of_ten[%d]", n );
	}
}

MC_TEST( hex_forms ) {
	// All short byte strings over a few characters through every hex form
	static constexpr char alphabet[] = { '\0', '\x0f', 'A', '\x7f', '\x80', '\xff' };
	int const len = mc::choose( 4 );
	char in[4] = { };
	std::string want, want_lc;
	for( int n = 0; n < len; ++n ) {
		in[n] = alphabet[mc::choose( static_cast<int>( sizeof( alphabet ) ) )];
		auto const c = static_cast<unsigned char>( in[n] );
		want.push_back( "0123456789ABCDEF"[c >> 4] );
		want.push_back( "0123456789ABCDEF"[c & 15] );
		want_lc.push_back( "0123456789abcdef"[c >> 4] );
		want_lc.push_back( "0123456789abcdef"[c & 15] );
	}
	auto const ulen = static_cast<std::size_t>( len );
	std::vector<char> out( 2 * ulen + 1, '#' );
	char *e = daw::hex( static_cast<char const *>( in ), ulen, out.data( ) );
	MC_CHECK( e == out.data( ) + 2 * ulen and std::string( out.data( ), 2 * ulen ) == want and out.back( ) == '#', "hex-pointer", "hex of %d characters by pointer and length gives %s, not %s", len, std::string( out.data( ), 2 * ulen ).c_str( ), want.c_str( ) );
	out.assign( 2 * ulen + 1, '#' );
	e = daw::hex( static_cast<char const *>( in ), static_cast<char const *>( in ) + len, out.data( ) );
	MC_CHECK( e == out.data( ) + 2 * ulen and std::string( out.data( ), 2 * ulen ) == want and out.back( ) == '#', "hex-range", "hex of a range of %d characters", len );
	out.assign( 2 * ulen + 1, '#' );
	e = out.data( );
	for( int n = 0; n < len; ++n ) {
		e = daw::hex_lc( in[n], e );
	}
	MC_CHECK( std::string( out.data( ), 2 * ulen ) == want_lc and out.back( ) == '#', "hex-lower", "lower case hex of %d characters", len );
	if( len == 3 ) {
		out.assign( 2 * ulen + 1, '#' );
		e = daw::hex( in, out.data( ) ); // char[4]: all but the terminator
		MC_CHECK( e == out.data( ) + 6 and std::string( out.data( ), 6 ) == want and out.back( ) == '#', "hex-array", "hex of a character array" );
		pod_t p;
		std::memcpy( p.bytes, in, 3 );
		std::vector<char> obj( 13, '#' );
		e = daw::hex( p, obj.data( ) );
		MC_CHECK( e == obj.data( ) + 6 and std::string( obj.data( ), 6 ) == want and obj[6] == '#', "hex-object", "hex of a three byte object gives %.6s", obj.data( ) );
		pod_t const ps[2] = { p, pod_t{ { 1, 2, 0xFE } } };
		obj.assign( 13, '#' );
		e = daw::hex( ps, ps + 2, obj.data( ) );
		MC_CHECK( e == obj.data( ) + 12 and std::string( obj.data( ), 12 ) == want + "0102FE" and obj[12] == '#', "hex-object-range", "hex of a range of objects" );
	}
}

// a size is its number times its unit, and each unit is the power of the first one that its name says
MC_TEST( size_units ) {
	namespace L = daw::size_literals;
	using U = unsigned long long;
	U const n = mc::pick( { 0ull, 1ull, 2ull, 3ull, 7ull, 1000ull, 1023ull, 1024ull, 4095ull } );
	U const k = 1024, t = L::operator""_KiB( 1 );
	MC_CHECK( L::operator""_KB( n ) == n * k and L::operator""_MB( n ) == n * k * k and L::operator""_GB( n ) == n * k * k * k and L::operator""_TB( n ) == n * k * k * k * k and L::operator""_PB( n ) == n * k * k * k * k * k, "size-unit", "%llu of a KB, MB, GB, TB or PB", n );
	MC_CHECK( L::operator""_KiB( n ) == n * t and L::operator""_MiB( n ) == n * t * t and L::operator""_GiB( n ) == n * t * t * t and L::operator""_TiB( n ) == n * t * t * t * t and L::operator""_PiB( n ) == n * t * t * t * t * t, "size-unit", "%llu of a KiB, MiB, GiB, TiB or PiB", n );
}
