// N03: the strong unsigned integer types, every operator overload compared
// with modular arithmetic of the result's width.
#include "mc.h"

#include "daw/daw_ordering_to_integer.h"
#include "daw/daw_to_underlying_type.h"
#include "daw/daw_uint_buffer.h"
#include "daw/daw_uint_buffer_ios.h"
#include "daw/daw_uint_types.h"

#include <cstdint>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace {
	using u64 = std::uint64_t;
	using u128 = unsigned __int128;

	template<typename T, bool = std::is_enum_v<T>>
	struct rep {
		using type = std::underlying_type_t<T>;
	};
	template<typename T>
	struct rep<T, false> {
		using type = T;
	};
	template<typename T>
	using rep_t = typename rep<T>::type;
	template<typename T>
	constexpr unsigned width = sizeof( rep_t<T> ) * 8;
	template<typename T>
	constexpr char const *name( ) {
		if constexpr( std::is_same_v<T, daw::UInt8> ) {
			return "UInt8";
		} else if constexpr( std::is_same_v<T, daw::UInt16> ) {
			return "UInt16";
		} else if constexpr( std::is_same_v<T, daw::UInt32> ) {
			return "UInt32";
		} else if constexpr( std::is_same_v<T, daw::UInt64> ) {
			return "UInt64";
		} else if constexpr( sizeof( T ) == 1 ) {
			return "uint8_t";
		} else if constexpr( sizeof( T ) == 2 ) {
			return "uint16_t";
		} else if constexpr( sizeof( T ) == 4 ) {
			return "uint32_t";
		} else {
			return "uint64_t";
		}
	}
	template<typename T>
	constexpr u64 mask = width<T> == 64 ? ~u64{ 0 } : ( u64{ 1 } << ( width<T> % 64 ) ) - 1;

	template<typename T>
	u64 raw( T v ) {
		return static_cast<u64>( static_cast<rep_t<T>>( v ) );
	}
	template<typename T>
	T make( u64 v ) {
		return static_cast<T>( static_cast<rep_t<T>>( v ) );
	}

	// all values of 8 bits; otherwise the neighbourhoods of 0 and every power of two
	std::vector<u64> const &values( unsigned bits ) {
		static auto const &k = *[] {
			mc::NoTrack nt;
			auto *all = new std::vector<std::vector<u64>>( 9 );
			for( unsigned w : { 8U, 16U, 32U, 64U } ) {
				auto &v = ( *all )[w / 8];
				u64 const m = w == 64 ? ~u64{ 0 } : ( u64{ 1 } << w ) - 1;
				auto add = [&]( u64 x ) {
					x &= m;
					for( auto y : v ) {
						if( y == x ) {
							return;
						}
					}
					v.push_back( x );
				};
				if( w == 8 ) {
					for( u64 x = 0; x != 256; ++x ) {
						add( x );
					}
					continue;
				}
				unsigned const stride = w == 64 ? ( mc::tier( ) == 0 ? 3 : 1 ) : 1;
				for( unsigned s = 0; s < w; s += ( s < 9 or s + 2 >= w or s % 8 == 7 or s % 8 == 0 ) ? 1 : stride ) {
					add( u64{ 1 } << s );
					add( ( u64{ 1 } << s ) - 1 );
					add( ( u64{ 1 } << s ) + 1 );
				}
				add( m );
				add( m - 1 );
				add( m >> 1 );
				add( 0x5555'5555'5555'5555ULL );
				add( 0xAAAA'AAAA'AAAA'AAAAULL );
				add( 0x0123'4567'89AB'CDEFULL );
			}
			return all;
		}( );
		return k[bits / 8];
	}

	template<typename L, typename R>
	std::string at( char const *op, u64 a, u64 b ) {
		return mc::strf( "%s{%llu} %s %s{%llu}", name<L>( ), static_cast<unsigned long long>( a ), op, name<R>( ), static_cast<unsigned long long>( b ) );
	}

	template<typename Res, typename L, typename R>
	void expect( char const *op, u64 a, u64 b, Res got, u128 want ) {
		if constexpr( std::is_same_v<Res, bool> ) {
			MC_CHECK( got == ( want != 0 ), op, "%s is %d", at<L, R>( op, a, b ).c_str( ), static_cast<int>( got ) );
		} else {
			static_assert( std::is_enum_v<Res> or std::is_integral_v<Res> );
			u64 const g = raw( got );
			u64 const w = static_cast<u64>( want ) & mask<Res>;
			MC_CHECK( g == w, op, "%s is %s{%llu}, expected %llu", at<L, R>( op, a, b ).c_str( ), name<Res>( ), static_cast<unsigned long long>( g ),
			          static_cast<unsigned long long>( w ) );
		}
	}

#define BINARY( NAME, OP )                                                     \
	template<typename L, typename R>                                             \
	void bin_##NAME( u64 a, u64 b, u128 want ) {                                 \
		if constexpr( requires( L l, R r ) { l OP r; } ) {                         \
			L const l = make<L>( a );                                                \
			R const r = make<R>( b );                                                \
			auto const got = l OP r;                                                 \
			expect<std::remove_cv_t<decltype( got )>, L, R>( #OP, a, b, got, want ); \
			MC_CHECK( sizeof( got ) == 1 or sizeof( got ) >= sizeof( L ) or          \
			            sizeof( got ) >= sizeof( R ),                                \
			          #OP "-width", "narrower than both operands" );                 \
		}                                                                          \
	}
	BINARY( add, + )
	BINARY( sub, - )
	BINARY( mul, * )
	BINARY( div, / )
	BINARY( mod, % )
	BINARY( bor, | )
	BINARY( band, & )
	BINARY( bxor, ^ )
	BINARY( shl, << )
	BINARY( shr, >> )
	BINARY( eq, == )
	BINARY( ne, != )
	BINARY( lt, < )
	BINARY( le, <= )
	BINARY( gt, > )
	BINARY( ge, >= )
#undef BINARY

#define COMPOUND( NAME, OP )                                                   \
	template<typename L, typename R>                                             \
	void cmp_##NAME( u64 a, u64 b, u128 want ) {                                 \
		if constexpr( requires( L &l, R r ) { l OP r; } ) {                        \
			L l = make<L>( a );                                                      \
			R const r = make<R>( b );                                                \
			auto &&res = l OP r;                                                     \
			MC_CHECK( &res == &l, #OP, "does not return its left operand" );         \
			expect<L, L, R>( #OP, a, b, l, want );                                   \
		}                                                                          \
	}
	COMPOUND( add, += )
	COMPOUND( sub, -= )
	COMPOUND( mul, *= )
	COMPOUND( div, /= )
	COMPOUND( mod, %= )
	COMPOUND( bor, |= )
	COMPOUND( band, &= )
	COMPOUND( bxor, ^= )
	COMPOUND( shl, <<= )
	COMPOUND( shr, >>= )
#undef COMPOUND

	template<typename L, typename R>
	void pair( ) {
		auto const &va = values( width<L> );
		auto const &vb = values( width<R> );
		auto const &blocks = 8;
		int const blk = mc::choose( blocks );
		for( std::size_t i = static_cast<std::size_t>( blk ); i < va.size( ); i += blocks ) {
			u64 const a = va[i];
			for( u64 const b : vb ) {
				mc::count_case( );
				u128 const A = a;
				u128 const B = b;
				bin_add<L, R>( a, b, A + B );
				bin_sub<L, R>( a, b, A - B );
				bin_mul<L, R>( a, b, A * B );
				bin_bor<L, R>( a, b, A | B );
				bin_band<L, R>( a, b, A & B );
				bin_bxor<L, R>( a, b, A ^ B );
				bin_eq<L, R>( a, b, A == B );
				bin_ne<L, R>( a, b, A != B );
				bin_lt<L, R>( a, b, A < B );
				bin_le<L, R>( a, b, A <= B );
				bin_gt<L, R>( a, b, A > B );
				bin_ge<L, R>( a, b, A >= B );
				cmp_add<L, R>( a, b, A + B );
				cmp_sub<L, R>( a, b, A - B );
				cmp_mul<L, R>( a, b, A * B );
				cmp_bor<L, R>( a, b, A | B );
				cmp_band<L, R>( a, b, A & B );
				cmp_bxor<L, R>( a, b, A ^ B );
				if( b != 0 ) {
					bin_div<L, R>( a, b, A / B );
					bin_mod<L, R>( a, b, A % B );
					cmp_div<L, R>( a, b, A / B );
					cmp_mod<L, R>( a, b, A % B );
				}
				if( b < width<L> ) {
					bin_shl<L, R>( a, b, A << b );
					bin_shr<L, R>( a, b, A >> b );
					cmp_shl<L, R>( a, b, A << b );
					cmp_shr<L, R>( a, b, A >> b );
				}
			}
		}
	}

	template<typename L>
	void pairs_with( ) {
		switch( mc::choose( 4 ) ) {
		case 0:
			return pair<L, daw::UInt8>( );
		case 1:
			return pair<L, daw::UInt16>( );
		case 2:
			return pair<L, daw::UInt32>( );
		default:
			return pair<L, daw::UInt64>( );
		}
	}
	template<typename L>
	void pairs_with_builtin( ) {
		switch( mc::choose( 4 ) ) {
		case 0:
			return pair<L, std::uint8_t>( );
		case 1:
			return pair<L, std::uint16_t>( );
		case 2:
			return pair<L, std::uint32_t>( );
		default:
			return pair<L, std::uint64_t>( );
		}
	}
	MC_TEST( strong_with_strong ) {
		switch( mc::choose( 4 ) ) {
		case 0:
			return pairs_with<daw::UInt8>( );
		case 1:
			return pairs_with<daw::UInt16>( );
		case 2:
			return pairs_with<daw::UInt32>( );
		default:
			return pairs_with<daw::UInt64>( );
		}
	}
	MC_TEST( strong_with_builtin ) {
		switch( mc::choose( 4 ) ) {
		case 0:
			return pairs_with_builtin<daw::UInt8>( );
		case 1:
			return pairs_with_builtin<daw::UInt16>( );
		case 2:
			return pairs_with_builtin<daw::UInt32>( );
		default:
			return pairs_with_builtin<daw::UInt64>( );
		}
	}
	MC_TEST( builtin_with_strong ) {
		switch( mc::choose( 4 ) ) {
		case 0:
			return pairs_with<std::uint8_t>( );
		case 1:
			return pairs_with<std::uint16_t>( );
		case 2:
			return pairs_with<std::uint32_t>( );
		default:
			return pairs_with<std::uint64_t>( );
		}
	}

	// unary operators, rotations, bits -------------------------------------------
	template<typename T, unsigned... N>
	void fixed_bits( u64 a, std::integer_sequence<unsigned, N...> ) {
		constexpr unsigned W = width<T>;
		auto one = [&]<unsigned B>( std::integral_constant<unsigned, B> ) {
			auto const rot = [&]( u64 v, unsigned s ) {
				s %= W;
				return s == 0 ? v : ( ( v << s ) | ( v >> ( W - s ) ) ) & mask<T>;
			};
			T const v = make<T>( a );
			MC_CHECK( raw( daw::rotate_left<B>( v ) ) == rot( a, B ), "rotate_left<>", "%s{%llu} by %u", name<T>( ), static_cast<unsigned long long>( a ), B );
			MC_CHECK( raw( daw::rotate_right<B>( v ) ) == rot( a, W - B % W ), "rotate_right<>", "%s{%llu} by %u", name<T>( ),
			          static_cast<unsigned long long>( a ), B );
			if constexpr( B < W ) {
				if constexpr( requires { daw::get_bit<B>( v ); } ) {
					MC_CHECK( raw( daw::get_bit<B>( v ) ) == ( ( a >> B ) & 1U ), "get_bit", "%s{%llu} bit %u", name<T>( ), static_cast<unsigned long long>( a ),
					          B );
				}
				if constexpr( requires( T & x ) { daw::set_bit<B>( x, true ); } ) {
					T s = v;
					daw::set_bit<B>( s, true );
					MC_CHECK( raw( s ) == ( a | ( u64{ 1 } << B ) ), "set_bit", "%s{%llu} bit %u", name<T>( ), static_cast<unsigned long long>( a ), B );
					daw::set_bit<B>( s, false );
					MC_CHECK( raw( s ) == ( a & ~( u64{ 1 } << B ) ), "clear_bit", "%s{%llu} bit %u", name<T>( ), static_cast<unsigned long long>( a ), B );
				}
			}
		};
		( one( std::integral_constant<unsigned, N>{ } ), ... );
	}

	template<typename T>
	void unary( ) {
		constexpr unsigned W = width<T>;
		auto const &v = values( W );
		int const blk = mc::choose( 4 );
		for( std::size_t i = static_cast<std::size_t>( blk ); i < v.size( ); i += 4 ) {
			u64 const a = v[i];
			T const t = make<T>( a );
			mc::count_case( );
			auto chk = [&]( char const *key, u64 got, u64 want ) {
				MC_CHECK( got == ( want & mask<T> ), key, "%s{%llu} gives %llu", name<T>( ), static_cast<unsigned long long>( a ),
				          static_cast<unsigned long long>( got ) );
			};
			chk( "~", raw( ~t ), ~a );
			chk( "unary+", raw( +t ), a );
			chk( "unary-", raw( -t ), u64{ 0 } - a );
			MC_CHECK( ( not t ) == ( a == 0 ), "!", "%s{%llu}", name<T>( ), static_cast<unsigned long long>( a ) );
			T x = t;
			chk( "++", raw( ++x ), a + 1 );
			chk( "++", raw( x ), a + 1 );
			chk( "post++", raw( x++ ), a + 1 );
			chk( "post++", raw( x ), a + 2 );
			chk( "--", raw( --x ), a + 1 );
			chk( "--", raw( x ), a + 1 );
			chk( "post--", raw( x-- ), a + 1 );
			chk( "post--", raw( x ), a );
			chk( "to_underlying", daw::to_underlying( t ), a );
			for( unsigned b = 0; b <= W; ++b ) {
				unsigned const s = b % W;
				u64 const l = s == 0 ? a : ( a << s ) | ( a >> ( W - s ) );
				u64 const r = s == 0 ? a : ( a >> s ) | ( a << ( W - s ) );
				chk( "rotate_left", raw( daw::rotate_left( t, b ) ), l );
				chk( "rotate_right", raw( daw::rotate_right( t, b ) ), r );
			}
			fixed_bits<T>( a, std::integer_sequence<unsigned, 0, 1, 3, W / 2 - 1, W / 2, W - 2, W - 1, W>{ } );
		}
	}
	MC_TEST( unary_and_bits ) {
		switch( mc::choose( 4 ) ) {
		case 0:
			return unary<daw::UInt8>( );
		case 1:
			return unary<daw::UInt16>( );
		case 2:
			return unary<daw::UInt32>( );
		default:
			return unary<daw::UInt64>( );
		}
	}

	template<unsigned... N>
	void masks( std::integer_sequence<unsigned, N...> ) {
		auto low = []( unsigned n ) {
			return n >= 64 ? ~u64{ 0 } : ( u64{ 1 } << n ) - 1;
		};
		auto one = [&]<unsigned B>( std::integral_constant<unsigned, B> ) {
			mc::count_case( );
			MC_CHECK( raw( daw::mask_from_lsb64<B> ) == low( B ), "mask_from_lsb64", "<%u>", B );
			if constexpr( B <= 32 ) {
				MC_CHECK( raw( daw::mask_from_lsb32<B> ) == low( B ), "mask_from_lsb32", "<%u>", B );
			}
			if constexpr( B <= 16 ) {
				MC_CHECK( raw( daw::mask_from_lsb16<B> ) == low( B ), "mask_from_lsb16", "<%u>", B );
			}
			if constexpr( B <= 8 ) {
				MC_CHECK( raw( daw::mask_from_lsb8<B> ) == low( B ), "mask_from_lsb8", "<%u>", B );
			}
		};
		( one( std::integral_constant<unsigned, N>{ } ), ... );
	}
	MC_TEST( masks_from_lsb ) {
		masks( std::make_integer_sequence<unsigned, 65>{ } );
	}

	// conversions -------------------------------------------------------------------
	template<typename From>
	void conversions( ) {
		auto const &v = values( sizeof( From ) * 8 );
		for( u64 const r : v ) {
			auto const f = static_cast<From>( r );
			auto const w = static_cast<u64>( f );
			mc::count_case( );
			MC_CHECK( raw( daw::to_uint64( f ) ) == w, "to_uint64", "%llx", static_cast<unsigned long long>( w ) );
			MC_CHECK( raw( daw::to_uint32( f ) ) == ( w & 0xFFFF'FFFFU ), "to_uint32", "%llx", static_cast<unsigned long long>( w ) );
			MC_CHECK( raw( daw::to_uint16( f ) ) == ( w & 0xFFFFU ), "to_uint16", "%llx", static_cast<unsigned long long>( w ) );
			MC_CHECK( raw( daw::to_uint8( f ) ) == ( w & 0xFFU ), "to_uint8", "%llx", static_cast<unsigned long long>( w ) );
		}
	}
	MC_TEST( convert_from_builtin ) {
		switch( mc::choose( 8 ) ) {
		case 0:
			return conversions<std::uint8_t>( );
		case 1:
			return conversions<std::int8_t>( );
		case 2:
			return conversions<std::uint16_t>( );
		case 3:
			return conversions<std::int16_t>( );
		case 4:
			return conversions<std::uint32_t>( );
		case 5:
			return conversions<std::int32_t>( );
		case 6:
			return conversions<std::uint64_t>( );
		default:
			return conversions<std::int64_t>( );
		}
	}

	template<typename CharT>
	void buffers( ) {
		// every position holds every byte value while the others hold a pattern; the
		// buffer has exactly the size read, so reading further is detected
		int const pos = mc::choose( 8 );
		int const pat = mc::choose( 3 );
		for( unsigned b = 0; b != 256; ++b ) {
			mc::count_case( );
			unsigned char bytes[8];
			for( unsigned i = 0; i != 8; ++i ) {
				bytes[i] = static_cast<unsigned char>( pat == 0 ? 0 : pat == 1 ? 0xFF : 0x81 + i * 0x17 );
			}
			bytes[pos] = static_cast<unsigned char>( b );
			auto want = [&]( std::size_t n ) {
				u64 r = 0;
				for( std::size_t i = n; i-- > 0; ) {
					r = ( r << 8U ) | bytes[i];
				}
				return r;
			};
			auto copy = [&]( std::size_t n ) {
				mc::NoTrack nt;
				auto p = std::unique_ptr<CharT[]>( new CharT[n] );
				for( std::size_t i = 0; i != n; ++i ) {
					p[i] = static_cast<CharT>( bytes[i] );
				}
				return p;
			};
			MC_CHECK( raw( daw::to_uint64_buffer( copy( 8 ).get( ) ) ) == want( 8 ), "to_uint64_buffer", "byte %d = %u", pos, b );
			MC_CHECK( raw( daw::to_uint32_buffer( copy( 4 ).get( ) ) ) == want( 4 ), "to_uint32_buffer", "byte %d = %u", pos, b );
			MC_CHECK( raw( daw::to_uint16_buffer( copy( 2 ).get( ) ) ) == want( 2 ), "to_uint16_buffer", "byte %d = %u", pos, b );
		}
	}
	MC_TEST( from_buffers ) {
		switch( mc::choose( 3 ) ) {
		case 0:
			return buffers<char>( );
		case 1:
			return buffers<unsigned char>( );
		default:
			return buffers<signed char>( );
		}
	}

	template<typename T>
	void limits( ) {
		using lim = std::numeric_limits<T>;
		using ref = std::numeric_limits<rep_t<T>>;
		mc::count_case( );
		MC_CHECK( lim::is_specialized and not lim::is_signed and lim::is_integer and lim::is_exact and lim::is_modulo and lim::is_bounded, "limits-flags",
		          "%s", name<T>( ) );
		MC_CHECK( lim::digits == ref::digits and lim::digits10 == ref::digits10 and lim::radix == 2, "limits-digits", "%s", name<T>( ) );
		MC_CHECK( raw( ( lim::min )( ) ) == ( ref::min )( ) and raw( lim::lowest( ) ) == ref::lowest( ) and raw( ( lim::max )( ) ) == ( ref::max )( ),
		          "limits-range", "%s", name<T>( ) );
	}
	MC_TEST( numeric_limits_and_aliases ) {
		limits<daw::UInt8>( );
		limits<daw::UInt16>( );
		limits<daw::UInt32>( );
		limits<daw::UInt64>( );
		MC_CHECK( (std::is_same_v<daw::UInt<8>, daw::UInt8> and std::is_same_v<daw::UInt<16>, daw::UInt16> and std::is_same_v<daw::UInt<32>, daw::UInt32> and
		           std::is_same_v<daw::UInt<64>, daw::UInt64>),
		          "UInt<>", "wrong alias" );
	}

	// printed as numbers, never as characters, and in the base of the stream
	template<typename T>
	void printed( ) {
		for( u64 v : values( width<T> ) ) {
			std::ostringstream dec, hex;
			dec << static_cast<T>( static_cast<rep_t<T>>( v ) ) << ';';
			hex << std::hex << static_cast<T>( static_cast<rep_t<T>>( v ) );
			char want[32];
			std::snprintf( want, sizeof want, "%llx", static_cast<unsigned long long>( v ) );
			MC_CHECK( dec.str( ) == std::to_string( v ) + ";" and hex.str( ) == want, "printed", "%s %llu is printed as %s and %s", name<T>( ), static_cast<unsigned long long>( v ), dec.str( ).c_str( ), hex.str( ).c_str( ) );
			mc::count_case( );
		}
	}
	MC_TEST( streams ) {
		printed<daw::UInt8>( );
		printed<daw::UInt16>( );
		printed<daw::UInt32>( );
		printed<daw::UInt64>( );
	}

	MC_TEST( literals ) {
		for( u64 v : values( 8 ) ) {
			MC_CHECK( raw( daw::operator""_u8( v ) ) == v, "_u8", "%llu", static_cast<unsigned long long>( v ) );
		}
		for( u64 v : values( 16 ) ) {
			MC_CHECK( raw( daw::operator""_u16( v ) ) == v, "_u16", "%llu", static_cast<unsigned long long>( v ) );
		}
		for( u64 v : values( 32 ) ) {
			MC_CHECK( raw( daw::operator""_u32( v ) ) == v, "_u32", "%llu", static_cast<unsigned long long>( v ) );
		}
		for( u64 v : values( 64 ) ) {
			MC_CHECK( raw( daw::operator""_u64( v ) ) == v, "_u64", "%llu", static_cast<unsigned long long>( v ) );
		}
	}

	MC_TEST( orderings ) {
		int const a = mc::choose_range( -2, 2 );
		int const b = mc::choose_range( -2, 2 );
		auto const so = a <=> b;
		auto const e = daw::order_to_enum( so );
		MC_CHECK( e == ( a < b ? daw::strong_ordering::less : a > b ? daw::strong_ordering::greater : daw::strong_ordering::equal ), "strong", "%d %d", a, b );
		MC_CHECK( daw::equal_or_equivalent( so ) == ( a == b ) and daw::equal_or_equivalent( e ) == ( a == b ), "equal", "%d %d", a, b );
		std::weak_ordering const wo = so;
		auto const w = daw::order_to_enum( wo );
		MC_CHECK( w == ( a < b ? daw::weak_ordering::less : a > b ? daw::weak_ordering::greater : daw::weak_ordering::equivalent ), "weak", "%d %d", a, b );
		MC_CHECK( daw::equal_or_equivalent( wo ) == ( a == b ), "equal-weak", "%d %d", a, b );
		double const da = a == 2 ? std::numeric_limits<double>::quiet_NaN( ) : a;
		auto const po = da <=> static_cast<double>( b );
		auto const p = daw::order_to_enum( po );
		MC_CHECK( p == ( a == 2 ? daw::partial_ordering::unordered
		                 : a < b ? daw::partial_ordering::less
		                 : a > b ? daw::partial_ordering::greater
		                         : daw::partial_ordering::equivalent ),
		          "partial", "%d %d", a, b );
		MC_CHECK( daw::equal_or_equivalent( po ) == ( a != 2 and a == b ), "equal-partial", "%d %d", a, b );
	}
} // namespace
