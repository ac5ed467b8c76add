// N02: math helpers, compared with exact integer arithmetic and the standard
// library on complete small domains and on a complete grid of floating-point
// exponents times mantissa corner patterns.
#include "mc.h"

#include "daw/daw_cxmath.h"
#include "daw/daw_math.h"
#include "daw/daw_natural.h"
#include "daw/impl/daw_math_impl.h"

#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>

namespace {
	namespace cx = daw::cxmath;

	template<typename F>
	using bits_t = std::conditional_t<sizeof( F ) == 4, std::uint32_t, std::uint64_t>;

	template<typename F>
	F from_bits( bits_t<F> b ) {
		F f;
		std::memcpy( &f, &b, sizeof f );
		return f;
	}
	template<typename F>
	bits_t<F> to_bits( F f ) {
		bits_t<F> b;
		std::memcpy( &b, &f, sizeof f );
		return b;
	}

	template<typename F>
	constexpr int mant_bits = std::numeric_limits<F>::digits - 1;
	template<typename F>
	constexpr int exp_count = sizeof( F ) == 4 ? 256 : 2048;

	template<typename F>
	std::vector<bits_t<F>> const &mantissas( ) {
		static std::vector<bits_t<F>> const &k = *[] {
			mc::NoTrack nt;
			auto *v = new std::vector<bits_t<F>>( );
			bits_t<F> const one = 1;
			bits_t<F> const all = ( one << mant_bits<F> ) - 1;
			auto add = [&]( bits_t<F> m ) {
				for( auto o : *v ) {
					if( o == m ) {
						return;
					}
				}
				v->push_back( m );
			};
			for( bits_t<F> x = 0; x < 4; ++x ) {
				add( x );
				add( all - x );
			}
			for( int b = 0; b < mant_bits<F>; ++b ) {
				add( one << b );
				add( all ^ ( one << b ) );
				add( ( one << b ) - 1 );
			}
			add( all & static_cast<bits_t<F>>( 0x5555'5555'5555'5555ULL ) );
			add( all & static_cast<bits_t<F>>( 0xAAAA'AAAA'AAAA'AAAAULL ) );
			add( all & static_cast<bits_t<F>>( 0x6A09'E667'F3BC'C908ULL ) );
			return v;
		}( );
		return k;
	}

	// distance in units of the last place between two finite non-negative values
	template<typename F>
	std::uint64_t ulps( F a, F b ) {
		auto const x = to_bits( a );
		auto const y = to_bits( b );
		return x > y ? x - y : y - x;
	}

	template<typename F>
	bool same( F a, F b ) {
		return ( std::isnan( a ) and std::isnan( b ) ) or to_bits( a ) == to_bits( b );
	}

	template<typename F>
	void grid( ) {
		int const e = mc::choose( exp_count<F> );
		for( int neg = 0; neg != 2; ++neg ) {
			for( auto m : mantissas<F>( ) ) {
				auto const b = static_cast<bits_t<F>>( m | ( static_cast<bits_t<F>>( e ) << mant_bits<F> ) |
				                                       ( static_cast<bits_t<F>>( neg ) << ( sizeof( F ) * 8 - 1 ) ) );
				F const f = from_bits<F>( b );
				mc::count_case( );
				auto at = [&] {
					return mc::strf( "%a (bits %llx)", static_cast<double>( f ), static_cast<unsigned long long>( b ) );
				};
				// classification
				cx::fp_classes want = cx::fp_classes::normal;
				switch( std::fpclassify( f ) ) {
				case FP_NAN:
					want = cx::fp_classes::nan;
					break;
				case FP_INFINITE:
					want = cx::fp_classes::infinity;
					break;
				case FP_ZERO:
					want = cx::fp_classes::zero;
					break;
				case FP_SUBNORMAL:
					want = cx::fp_classes::subnormal;
					break;
				default:
					break;
				}
				MC_CHECK( cx::fp_classify( f ) == want, "fp_classify", "of %s is %d, expected %d", at( ).c_str( ),
				          static_cast<int>( cx::fp_classify( f ) ), static_cast<int>( want ) );
				MC_CHECK( cx::is_nan( f ) == std::isnan( f ), "is_nan", "of %s", at( ).c_str( ) );
				MC_CHECK( cx::is_inf( f ) == std::isinf( f ), "is_inf", "of %s", at( ).c_str( ) );
				MC_CHECK( cx::is_finite( f ) == std::isfinite( f ), "is_finite", "of %s", at( ).c_str( ) );
				MC_CHECK( cx::signbit( f ) == std::signbit( f ), "signbit", "of %s", at( ).c_str( ) );
				MC_CHECK( static_cast<bits_t<F>>( cx::get_significand( f ) ) == m, "get_significand", "of %s", at( ).c_str( ) );
				if( want == cx::fp_classes::normal ) {
					MC_CHECK( cx::get_exponent( f ) == std::ilogb( f ), "get_exponent", "of %s is %d", at( ).c_str( ), cx::get_exponent( f ) );
					auto const x = cx::intxp( f );
					MC_CHECK( x.has_value( ) and *x == std::ilogb( f ), "intxp", "of %s", at( ).c_str( ) );
				}
				if constexpr( sizeof( F ) == 8 ) {
					MC_CHECK( cx::get_exponent_raw( f ) == static_cast<std::uint64_t>( e ), "get_exponent_raw", "of %s", at( ).c_str( ) );
				}
				// sign
				for( F s : { F( 1 ), F( -1 ), F( 0 ), -F( 0 ), std::numeric_limits<F>::infinity( ), -std::numeric_limits<F>::infinity( ) } ) {
					auto const r = cx::copy_sign( f, s );
					MC_CHECK( to_bits( r ) == to_bits( std::copysign( f, s ) ), "copy_sign", "(%s, %a)", at( ).c_str( ), static_cast<double>( s ) );
				}
				if( not std::isnan( f ) ) {
					MC_CHECK( daw::float_abs( f ) == std::fabs( f ), "float_abs", "of %s", at( ).c_str( ) );
					MC_CHECK( daw::math::abs( f ) == std::fabs( f ), "math::abs", "of %s", at( ).c_str( ) );
					MC_CHECK( cx::abs( f ) == std::fabs( f ), "cxmath::abs", "of %s", at( ).c_str( ) );
				}
				MC_CHECK( daw::math::nearly_equal( f, f ), "nearly_equal-reflexive", "%s", at( ).c_str( ) );
				if( not std::isnan( f ) ) {
					MC_CHECK( not daw::math::nearly_equal( f, std::numeric_limits<F>::quiet_NaN( ) ) and
					            not daw::math::nearly_equal( std::numeric_limits<F>::quiet_NaN( ), f ),
					          "nearly_equal-nan", "%s", at( ).c_str( ) );
				}
				if( want == cx::fp_classes::normal ) {
					MC_CHECK( not daw::math::nearly_equal( f, -f ), "nearly_equal-negated", "%s", at( ).c_str( ) );
					F const d = f * F( 1.25 );
					if( std::isfinite( d ) ) {
						MC_CHECK( not daw::math::nearly_equal( f, d ) and not daw::math::nearly_equal( d, f ), "nearly_equal-far", "%s and 1.25 times it",
						          at( ).c_str( ) );
					}
				}
				// square root
				F const got = cx::sqrt( f );
				F const ref = std::sqrt( f );
				if( std::isnan( ref ) or std::isinf( ref ) or ref == F( 0 ) ) {
					MC_CHECK( ( std::isnan( ref ) and std::isnan( got ) ) or to_bits( got ) == to_bits( ref ), "sqrt-special", "sqrt of %s is %a, expected %a",
					          at( ).c_str( ), static_cast<double>( got ), static_cast<double>( ref ) );
				} else {
					MC_CHECK( std::isfinite( got ) and got > 0 and ulps( got, ref ) <= 4, "sqrt", "sqrt of %s is %a, expected %a", at( ).c_str( ),
					          static_cast<double>( got ), static_cast<double>( ref ) );
				}
				if( not std::isnan( f ) ) {
					mc::obs( to_bits( got ) );
				}
			}
		}
	}

	MC_TEST( float_grid ) {
		grid<float>( );
	}
	MC_TEST( double_grid ) {
		grid<double>( );
	}

	template<typename F>
	void sqrt_squares( ) {
		// perfect squares have exact roots
		int const hi = mc::choose( 64 );
		for( int lo = 0; lo != 64; ++lo ) {
			auto const n = static_cast<F>( hi * 64 + lo );
			mc::count_case( );
			F const r = cx::sqrt( n * n );
			MC_CHECK( std::fabs( r - n ) <= n * std::numeric_limits<F>::epsilon( ) * 2, "sqrt-square", "sqrt(%g * itself) = %a", static_cast<double>( n ),
			          static_cast<double>( r ) );
		}
	}
	MC_TEST( sqrt_of_squares ) {
		sqrt_squares<float>( );
		sqrt_squares<double>( );
	}

	// exponent manipulation -----------------------------------------------------
	template<typename F>
	void exponents( ) {
		int const e1 = mc::choose( exp_count<F> - 2 ) + 1; // normal numbers only
		for( int neg = 0; neg != 2; ++neg ) {
			for( auto m : mantissas<F>( ) ) {
				auto const sign = static_cast<bits_t<F>>( static_cast<bits_t<F>>( neg ) << ( sizeof( F ) * 8 - 1 ) );
				F const f = from_bits<F>( static_cast<bits_t<F>>( m | ( static_cast<bits_t<F>>( e1 ) << mant_bits<F> ) | sign ) );
				int const bias = exp_count<F> / 2 - 1;
				for( int e2 : { 1, 2, bias - 1, bias, bias + 1, exp_count<F> - 3, exp_count<F> - 2 } ) {
					mc::count_case( );
					auto const r = cx::set_exponent( f, e2 - bias );
					auto const want = static_cast<bits_t<F>>( m | ( static_cast<bits_t<F>>( e2 ) << mant_bits<F> ) | sign );
					MC_CHECK( to_bits( r ) == want, "set_exponent", "(%a, %d) = %a", static_cast<double>( f ), e2 - bias, static_cast<double>( r ) );
					auto const a = cx::adjust_exponent( f, e2 - e1 );
					MC_CHECK( to_bits( a ) == want, "adjust_exponent", "(%a, %d) = %a", static_cast<double>( f ), e2 - e1, static_cast<double>( a ) );
				}
			}
		}
	}
	MC_TEST( exponents_float ) {
		exponents<float>( );
	}
	MC_TEST( exponents_double ) {
		exponents<double>( );
	}

	MC_TEST( pow2_all ) {
		int const block = mc::choose( 60 );
		for( int i = 0; i != 40; ++i ) {
			int const e = -1200 + block * 40 + i;
			mc::count_case( );
			MC_CHECK( same( cx::pow2<double>( e ), std::ldexp( 1.0, e ) ), "pow2<double>", "(%d) = %a", e, cx::pow2<double>( e ) );
			MC_CHECK( same( cx::pow2<float>( e ), std::ldexp( 1.0f, e ) ), "pow2<float>", "(%d) = %a", e, static_cast<double>( cx::pow2<float>( e ) ) );
			MC_CHECK( same( cx::dpow2( e ), std::ldexp( 1.0, e ) ), "dpow2", "(%d) = %a", e, cx::dpow2( e ) );
			MC_CHECK( same( cx::fpow2( e ), std::ldexp( 1.0f, e ) ), "fpow2", "(%d) = %a", e, static_cast<double>( cx::fpow2( e ) ) );
			if( e >= -307 and e <= 308 ) {
#ifndef MC_NO_INTERNALS
				double const t = cx::cxmath_impl::pow2_t<double>::get( e );
				MC_CHECK( same( t, std::ldexp( 1.0, e ) ), "pow2-table", "(%d) = %a", e, t );
#endif
				double const p10 = cx::dpow10( e );
				long double const want = std::pow( 10.0L, static_cast<long double>( e ) );
				MC_CHECK( std::fabs( static_cast<long double>( p10 ) / want - 1.0L ) < 1e-14L, "dpow10", "(%d) = %.17g", e, p10 );
				if( e >= -37 and e <= 38 ) {
					float const f10 = cx::fpow10( e );
					MC_CHECK( std::fabs( static_cast<long double>( f10 ) / want - 1.0L ) < 2.4e-7L, "fpow10", "(%d) = %.9g", e, static_cast<double>( f10 ) );
				}
			}
		}
	}

	MC_TEST( pow2_pow10_constants ) {
		MC_CHECK( cx::fpow2_v<0> == 1.0f and cx::fpow2_v<1> == 2.0f and cx::fpow2_v<-1> == 0.5f and cx::fpow2_v<64> == 0x1p64f and
		            cx::fpow2_v<-126> == 0x1p-126f,
		          "fpow2_v", "wrong" );
		MC_CHECK( cx::dpow2_v<0> == 1.0 and cx::dpow2_v<63> == 0x1p63 and cx::dpow2_v<64> == 0x1p64 and cx::dpow2_v<-64> == 0x1p-64 and
		            cx::dpow2_v<200> == 0x1p200 and cx::dpow2_v<-307> == 0x1p-307,
		          "dpow2_v", "wrong" );
		MC_CHECK( cx::fpow10_v<0> == 1.0f and cx::fpow10_v<3> == 1000.0f and cx::dpow10_v<0> == 1.0 and cx::dpow10_v<22> == 1e22, "pow10_v", "wrong" );
		std::uintmax_t want = 1;
		for( std::size_t e = 0; e <= 19; ++e ) {
			mc::count_case( );
			MC_CHECK( cx::pow10( e ) == want, "pow10", "(%zu) = %ju", e, cx::pow10( e ) );
			want *= 10U;
		}
		MC_CHECK( cx::pow10_v<0> == 1U and cx::pow10_v<19> == 10'000'000'000'000'000'000ULL, "pow10_v", "wrong" );
	}

	MC_TEST( ldexp_grid ) {
		int const e = mc::choose( 2048 );
		for( auto m : mantissas<double>( ) ) {
			for( int neg = 0; neg != 2; ++neg ) {
				double const d = from_bits<double>( m | ( static_cast<std::uint64_t>( e ) << 52U ) | ( static_cast<std::uint64_t>( neg ) << 63U ) );
				int const base = e - 1023;
				for( int k : { -2200, -2098, -1075, -1074, -1073, -1023, -1022, -970, -53, -1, 0, 1, 52, 53, 1022, 1023, 1024, 1074, 2046, 2098, 2200,
				               -1022 - base, -1023 - base, -1024 - base, -1074 - base, -1075 - base, -1076 - base, 1023 - base, 1024 - base } ) {
					mc::count_case( );
					double const got = cx::ldexp( d, k );
					double const want = std::ldexp( d, k );
					MC_CHECK( same( got, want ), "ldexp", "(%a, %d) = %a, expected %a", d, k, got, want );
				}
			}
		}
	}

	MC_TEST( adj_ulp_steps ) {
		int const e = mc::choose( 2046 ) + 1;
		for( auto m : mantissas<double>( ) ) {
			auto const b = m | ( static_cast<std::uint64_t>( e ) << 52U );
			double const d = from_bits<double>( b );
			for( int k = -3; k <= 3; ++k ) {
				mc::count_case( );
				double want = d;
				for( int i = 0; i != ( k < 0 ? -k : k ); ++i ) {
					want = std::nextafter( want, k < 0 ? -std::numeric_limits<double>::infinity( ) : std::numeric_limits<double>::infinity( ) );
				}
				if( std::isfinite( want ) ) {
					MC_CHECK( same( cx::adj_ulp( d, k ), want ), "adj_ulp", "(%a, %d)", d, k );
				}
			}
		}
	}

	// powers --------------------------------------------------------------------
	template<typename I>
	void int_powers( char const *name ) {
		using i128 = __int128;
		for( int b = -12; b <= 12; ++b ) {
			if( std::is_unsigned_v<I> and b < 0 ) {
				continue;
			}
			i128 want = 1;
			for( int e = 0; e <= 64; ++e ) {
				if( e > 0 ) {
					want *= b;
				}
				if( want > static_cast<i128>( std::numeric_limits<I>::max( ) ) or want < static_cast<i128>( std::numeric_limits<I>::min( ) ) ) {
					break;
				}
				mc::count_case( );
				auto const ib = static_cast<I>( b );
				auto const p = cx::pow( ib, e );
				MC_CHECK( static_cast<i128>( p ) == want, "cxmath::pow", "%s pow(%d, %d) = %lld", name, b, e, static_cast<long long>( p ) );
				auto const q = daw::math::pow( ib, static_cast<std::size_t>( e ) );
				MC_CHECK( static_cast<i128>( q ) == want, "math::pow", "%s pow(%d, %d) = %lld", name, b, e, static_cast<long long>( q ) );
				// pow_n squares once beyond the last bit it needs: stay where that fits
				i128 sq = b;
				bool fits = true;
				for( int n = e; n > 1; n >>= 1 ) {
					sq *= sq;
					if( sq > static_cast<i128>( std::numeric_limits<I>::max( ) ) ) {
						fits = false;
						break;
					}
				}
				if( fits ) {
					auto const r = cx::pow_n( ib, static_cast<unsigned>( e ) );
					MC_CHECK( static_cast<i128>( r ) == want, "pow_n", "%s pow_n(%d, %d) = %lld", name, b, e, static_cast<long long>( r ) );
				}
			}
		}
	}
	MC_TEST( integer_powers ) {
		switch( mc::choose( 4 ) ) {
		case 0:
			int_powers<int>( "int" );
			break;
		case 1:
			int_powers<unsigned>( "unsigned" );
			break;
		case 2:
			int_powers<long long>( "long long" );
			break;
		default:
			int_powers<std::uint64_t>( "uint64" );
			break;
		}
	}

	template<typename F>
	void real_powers( ) {
		F const bases[] = { F( 0.5 ), F( 1 ), F( 1.5 ), F( 2 ), F( 3 ), F( 10 ), F( -0.5 ), F( -1 ), F( -2 ), F( -3 ) };
		F const b = bases[mc::choose( 10 )];
		for( int e = -24; e <= 24; ++e ) {
			mc::count_case( );
			long double const want = std::pow( static_cast<long double>( b ), e );
			auto near = [&]( F got ) {
				return std::fabs( static_cast<long double>( got ) / want - 1.0L ) <= 64 * static_cast<long double>( std::numeric_limits<F>::epsilon( ) );
			};
			MC_CHECK( near( cx::pow( b, e ) ), "cxmath::pow-real", "pow(%g, %d) = %g", static_cast<double>( b ), e, static_cast<double>( cx::pow( b, e ) ) );
			if( e >= 0 ) {
				MC_CHECK( near( daw::math::pow( b, static_cast<std::size_t>( e ) ) ), "math::pow-real", "pow(%g, %d)", static_cast<double>( b ), e );
				MC_CHECK( near( cx::pow_n( b, static_cast<unsigned>( e ) ) ), "pow_n-real", "pow_n(%g, %d)", static_cast<double>( b ), e );
			}
		}
	}
	MC_TEST( real_powers_all ) {
		if( mc::choose( 2 ) == 0 ) {
			real_powers<float>( );
		} else {
			real_powers<double>( );
		}
	}

	MC_TEST( unsigned_negative_power ) {
		// 1/b^n truncated: 1 for b == 1, 0 for b > 1
		for( unsigned b = 1; b <= 5; ++b ) {
			for( int e = -6; e < 0; ++e ) {
				mc::count_case( );
				MC_CHECK( cx::pow( b, e ) == ( b == 1 ? 1U : 0U ), "cxmath::pow-unsigned", "pow(%u, %d) = %u", b, e, cx::pow( b, e ) );
				MC_CHECK( cx::pow( static_cast<int>( b ), e ) == ( b == 1 ? 1 : 0 ), "cxmath::pow-int", "pow(%u, %d)", b, e );
			}
		}
	}

	// signs and absolute values of integers --------------------------------------
	template<typename I>
	void int_signs( I v ) {
		using i128 = __int128;
		mc::count_case( );
		i128 const w = v;
		i128 const mag = w < 0 ? -w : w;
		auto const m = daw::math::abs( v );
		if constexpr( std::is_signed_v<I> ) {
			MC_CHECK( static_cast<i128>( m ) == mag, "math::abs-int", "abs(%lld) = %llu", static_cast<long long>( v ), static_cast<unsigned long long>( m ) );
			if( v != std::numeric_limits<I>::min( ) ) {
				for( I s : { I( -5 ), I( -1 ), I( 0 ), I( 1 ), I( 7 ) } ) {
					auto const r = cx::copy_sign( v, s );
					MC_CHECK( static_cast<i128>( r ) == ( s < 0 ? -mag : mag ), "copy_sign-int", "copy_sign(%lld, %d) = %lld", static_cast<long long>( v ),
					          static_cast<int>( s ), static_cast<long long>( r ) );
				}
			}
		} else {
			MC_CHECK( static_cast<i128>( m ) == mag, "math::abs-unsigned", "abs" );
		}
		MC_CHECK( cx::signbit( v ) == ( w < 0 ), "signbit-int", "signbit(%lld)", static_cast<long long>( v ) );
		if( mag <= 30'000 ) {
			MC_CHECK( static_cast<i128>( daw::math::sqr( v ) ) == w * w, "sqr", "sqr(%lld)", static_cast<long long>( v ) );
		}
	}
	template<typename I>
	void boundary_signs( ) {
		for( int sh = 0; sh < std::numeric_limits<I>::digits; ++sh ) {
			for( int d = -2; d <= 2; ++d ) {
				auto const u = static_cast<I>( static_cast<std::uint64_t>( 1ULL << sh ) + static_cast<std::uint64_t>( d ) );
				int_signs<I>( u );
				int_signs<I>( static_cast<I>( ~static_cast<std::uint64_t>( u ) + 1U ) );
			}
		}
		int_signs<I>( std::numeric_limits<I>::min( ) );
		int_signs<I>( std::numeric_limits<I>::max( ) );
	}
	MC_TEST( integer_signs ) {
		switch( mc::choose( 6 ) ) {
		case 0:
			for( int v = -128; v != 128; ++v ) {
				int_signs<std::int8_t>( static_cast<std::int8_t>( v ) );
			}
			break;
		case 1:
			for( int v = -32'768; v != 32'768; ++v ) {
				int_signs<std::int16_t>( static_cast<std::int16_t>( v ) );
			}
			break;
		case 2:
			boundary_signs<int>( );
			break;
		case 3:
			boundary_signs<long>( );
			break;
		case 4:
			boundary_signs<unsigned>( );
			break;
		default:
			boundary_signs<std::uint64_t>( );
			break;
		}
	}

	// rounding --------------------------------------------------------------------
	template<typename F>
	void rounding_of( F x ) {
		mc::count_case( );
		auto at = static_cast<double>( x );
		auto const wr = static_cast<std::int64_t>( std::llround( x ) );
		auto const wf = static_cast<std::int64_t>( std::floor( x ) );
		auto const wc = static_cast<std::int64_t>( std::ceil( x ) );
		MC_CHECK( daw::math::round( x ) == wr, "round", "round(%a) = %lld", at, static_cast<long long>( daw::math::round( x ) ) );
		MC_CHECK( daw::math::floor( x ) == wf, "floor", "floor(%a) = %lld", at, static_cast<long long>( daw::math::floor( x ) ) );
		MC_CHECK( daw::math::ceil( x ) == wc, "ceil", "ceil(%a) = %lld", at, static_cast<long long>( daw::math::ceil( x ) ) );
		MC_CHECK( daw::math::round<std::int64_t>( x ) == wr and daw::math::floor<std::int64_t>( x ) == wf and daw::math::ceil<std::int64_t>( x ) == wc,
		          "round<int64>", "of %a", at );
	}
	template<typename F>
	void rounding( ) {
		int const block = mc::choose( 41 ) - 20;
		F const inf = std::numeric_limits<F>::infinity( );
		for( int q = 0; q != 16; ++q ) {
			F const x = static_cast<F>( block ) + static_cast<F>( q ) / F( 16 );
			rounding_of( x );
			rounding_of( std::nextafter( x, inf ) );
			rounding_of( std::nextafter( x, -inf ) );
		}
		for( F scale : { F( 1'000 ), F( 65'536 ), F( 1 << 22 ), F( 1 << 23 ), F( 1 << 24 ) } ) {
			for( F fr : { F( 0 ), F( 0.25 ), F( 0.5 ), F( 0.75 ) } ) {
				F const x = static_cast<F>( block ) * scale + fr;
				rounding_of( x );
				rounding_of( std::nextafter( x, inf ) );
				rounding_of( std::nextafter( x, -inf ) );
			}
		}
	}
	MC_TEST( rounding_float ) {
		rounding<float>( );
	}
	MC_TEST( rounding_double ) {
		rounding<double>( );
	}

	MC_TEST( rounding_by ) {
		int const v = mc::choose( 401 ) - 200;
		for( int by : { 1, 2, 5, 8, 10, 25, 100 } ) {
			mc::count_case( );
			// nearest / lower / upper multiple in exact integer arithmetic
			int lo = v - ( ( v % by ) + by ) % by;
			int hi = lo == v ? v : lo + by;
			int near = ( v - lo ) * 2 < by ? lo : ( ( v - lo ) * 2 > by ? lo + by : ( v < 0 ? lo : lo + by ) );
			if( lo == v ) {
				near = v;
			}
			MC_CHECK( daw::math::floor_by( v, by ) == lo, "floor_by", "(%d, %d) = %d", v, by, daw::math::floor_by( v, by ) );
			MC_CHECK( daw::math::ceil_by( v, by ) == hi, "ceil_by", "(%d, %d) = %d", v, by, daw::math::ceil_by( v, by ) );
			MC_CHECK( daw::math::round_by( v, by ) == near, "round_by", "(%d, %d) = %d, expected %d", v, by, daw::math::round_by( v, by ), near );
			double const d = v + 0.25;
			int lo2 = v - ( ( v % by ) + by ) % by;
			MC_CHECK( daw::math::floor_by( d, by ) == lo2, "floor_by-real", "(%g, %d)", d, by );
			MC_CHECK( daw::math::ceil_by( d, by ) == lo2 + by, "ceil_by-real", "(%g, %d)", d, by );
		}
	}

	MC_TEST( factorials_and_pow2 ) {
		std::uintmax_t f = 1;
		for( int n = 0; n <= 20; ++n ) {
			mc::count_case( );
			if( n > 0 ) {
				f *= static_cast<std::uintmax_t>( n );
			}
			MC_CHECK( daw::math::factorial( n ) == f and daw::math::factorial( static_cast<unsigned>( n ) ) == f, "factorial", "%d! = %ju", n,
			          daw::math::factorial( n ) );
		}
		for( std::uintmax_t n = 0; n < 64; ++n ) {
			mc::count_case( );
			MC_CHECK( daw::math::pow2( n ) == ( std::uintmax_t{ 1 } << n ), "math::pow2", "(%ju)", n );
		}
	}

	MC_TEST( trigonometry ) {
		int const block = mc::choose( 64 ) - 32;
		for( int i = 0; i != 16; ++i ) {
			double const x = ( block * 16 + i ) * ( 2 * daw::math::PI<double> / 512 );
			mc::count_case( );
			MC_CHECK( std::fabs( daw::math::sin( x ) - std::sin( x ) ) < 1e-5, "sin", "(%g) = %g", x, daw::math::sin( x ) );
			MC_CHECK( std::fabs( daw::math::cos( x ) - std::cos( x ) ) < 1e-5, "cos", "(%g) = %g", x, daw::math::cos( x ) );
		}
	}

	// min/max ----------------------------------------------------------------------
	MC_TEST( min_max ) {
		int v[4];
		int const n = mc::choose_range( 1, 4 );
		int lo = 100;
		int hi = -100;
		for( int i = 0; i != n; ++i ) {
			v[i] = mc::choose_range( -2, 2 );
			lo = v[i] < lo ? v[i] : lo;
			hi = v[i] > hi ? v[i] : hi;
		}
		int a = 0;
		int b = 0;
		long long c = 0;
		long long d = 0;
		double e = 0;
		double f = 0;
		switch( n ) {
		case 1:
			a = ( daw::min )( v[0] );
			b = ( daw::max )( v[0] );
			c = lo, d = hi, e = lo, f = hi;
			break;
		case 2:
			a = ( daw::min )( v[0], v[1] );
			b = ( daw::max )( v[0], v[1] );
			c = ( daw::min )( v[0], static_cast<long long>( v[1] ) );
			d = ( daw::max )( v[0], static_cast<long long>( v[1] ) );
			e = ( daw::min )( static_cast<double>( v[0] ), v[1] );
			f = ( daw::max )( static_cast<double>( v[0] ), v[1] );
			{
				int x = v[0];
				int y = v[1];
				int const &mn = daw::min_comp( x, y );
				int const &mx = daw::max_comp( x, y );
				MC_CHECK( mn == lo, "min_comp", "(%d, %d) = %d", x, y, mn );
				MC_CHECK( mx == hi, "max_comp", "(%d, %d) = %d", x, y, mx );
				auto gt = []( int p, int q ) {
					return p > q;
				};
				MC_CHECK( daw::min_comp( x, y, gt ) == hi, "min_comp-greater", "(%d, %d)", x, y );
				MC_CHECK( daw::max_comp( x, y, gt ) == lo, "max_comp-greater", "(%d, %d)", x, y );
				MC_CHECK( daw::math::value_or_min( x, y ) == hi, "value_or_min", "(%d, %d)", x, y );
			}
			break;
		case 3:
			a = ( daw::min )( v[0], v[1], v[2] );
			b = ( daw::max )( v[0], v[1], v[2] );
			c = ( daw::min )( v[0], static_cast<long long>( v[1] ), v[2] );
			d = ( daw::max )( v[0], static_cast<long long>( v[1] ), v[2] );
			e = ( daw::min )( v[0], v[1], static_cast<double>( v[2] ) );
			f = ( daw::max )( v[0], v[1], static_cast<double>( v[2] ) );
			break;
		default:
			a = ( daw::min )( v[0], v[1], v[2], v[3] );
			b = ( daw::max )( v[0], v[1], v[2], v[3] );
			c = ( daw::min )( v[0], v[1], static_cast<long long>( v[2] ), v[3] );
			d = ( daw::max )( v[0], v[1], static_cast<long long>( v[2] ), v[3] );
			e = ( daw::min )( v[0], v[1], v[2], static_cast<double>( v[3] ) );
			f = ( daw::max )( v[0], v[1], v[2], static_cast<double>( v[3] ) );
			break;
		}
		MC_CHECK( a == lo and c == lo and e == lo, "min", "of %d values is %d/%lld/%g, expected %d", n, a, c, e, lo );
		MC_CHECK( b == hi and d == hi and f == hi, "max", "of %d values is %d/%lld/%g, expected %d", n, b, d, f, hi );
	}

	// natural numbers --------------------------------------------------------------
	template<typename L, typename R>
	void natural_pair( char const *name, int max ) {
		int const a = mc::choose_range( 1, max );
		int const b = mc::choose_range( 1, max );
		using NL = daw::natural_t<L>;
		using NR = daw::natural_t<R>;
		auto const l = NL{ static_cast<L>( a ) };
		auto const r = NR{ static_cast<R>( b ) };
		auto at = [&]( char const *op ) {
			return mc::strf( "%s: %d %s %d", name, a, op, b );
		};
		// returns the value or -1 when the operation reports an invalid result
		auto attempt = [&]( auto fn ) -> long long {
			try {
				return static_cast<long long>( fn( ) );
			} catch( daw::invalid_natural_number const & ) {
				return -1;
			}
		};
		auto ok = []( long long v ) {
			return v >= 1 ? v : -1LL;
		};
		mc::count_case( );
		long long g = attempt( [&] {
			return ( l + r ).value( );
		} );
		MC_CHECK( g == a + b, "natural+", "%s = %lld", at( "+" ).c_str( ), g );
		g = attempt( [&] {
			return ( l * r ).value( );
		} );
		MC_CHECK( g == a * b, "natural*", "%s = %lld", at( "*" ).c_str( ), g );
		g = attempt( [&] {
			return ( l - r ).value( );
		} );
		MC_CHECK( g == ok( a - b ), "natural-", "%s = %lld", at( "-" ).c_str( ), g );
		g = attempt( [&] {
			return ( l / r ).value( );
		} );
		MC_CHECK( g == ok( a / b ), "natural/", "%s = %lld", at( "/" ).c_str( ), g );
		g = attempt( [&] {
			return ( l % r ).value( );
		} );
		MC_CHECK( g == ok( a % b ), "natural%", "%s = %lld", at( "%" ).c_str( ), g );
		MC_CHECK( ( l == r ) == ( a == b ) and ( l != r ) == ( a != b ) and ( l < r ) == ( a < b ) and ( l <= r ) == ( a <= b ) and ( l > r ) == ( a > b ) and
		            ( l >= r ) == ( a >= b ),
		          "natural-compare", "%s", at( "<=>" ).c_str( ) );
		// compound assignment: the operand keeps its value when the result is invalid
		auto compound = [&]( char const *key, char const *op, auto fn, long long want ) {
			NL x = l;
			long long const got = attempt( [&] {
				return fn( x ).value( );
			} );
			MC_CHECK( got == want, key, "%s= gives %lld", at( op ).c_str( ), got );
			MC_CHECK( static_cast<long long>( x.value( ) ) == ( want < 0 ? a : want ), key, "%s= leaves %lld", at( op ).c_str( ),
			          static_cast<long long>( x.value( ) ) );
		};
		if( a + b <= std::numeric_limits<L>::max( ) ) {
			compound(
			  "natural+=", "+",
			  [&]( NL &x ) -> NL & {
				  return x += r;
			  },
			  a + b );
		}
		if( a * b <= std::numeric_limits<L>::max( ) ) {
			compound(
			  "natural*=", "*",
			  [&]( NL &x ) -> NL & {
				  return x *= r;
			  },
			  a * b );
		}
		compound(
		  "natural-=", "-",
		  [&]( NL &x ) -> NL & {
			  return x -= r;
		  },
		  ok( a - b ) );
		compound(
		  "natural/=", "/",
		  [&]( NL &x ) -> NL & {
			  return x /= r;
		  },
		  ok( a / b ) );
		compound(
		  "natural%=", "%",
		  [&]( NL &x ) -> NL & {
			  return x %= r;
		  },
		  ok( a % b ) );
		compound(
		  "natural--", "--",
		  [&]( NL &x ) -> NL & {
			  return --x;
		  },
		  ok( a - 1 ) );
		compound(
		  "natural++", "++",
		  [&]( NL &x ) -> NL & {
			  return ++x;
		  },
		  a + 1 );
		{
			NL x = l;
			long long const was = static_cast<long long>( x++.value( ) );
			MC_CHECK( was == a and static_cast<long long>( x.value( ) ) == a + 1, "natural-post++", "%d", a );
			long long const was2 = static_cast<long long>( x--.value( ) );
			MC_CHECK( was2 == a + 1 and static_cast<long long>( x.value( ) ) == a, "natural-post--", "%d", a );
			if( a == 1 ) {
				long long const was3 = attempt( [&] {
					return x--.value( );
				} );
				MC_CHECK( was3 == -1 and x.value( ) == 1, "natural-post--invalid", "%lld", was3 );
			}
			x = static_cast<R>( b );
			MC_CHECK( static_cast<long long>( x.value( ) ) == b, "natural-assign", "%d", b );
			MC_CHECK( static_cast<L>( x ) == static_cast<L>( b ), "natural-convert", "%d", b );
		}
	}
	MC_TEST( natural_arithmetic ) {
		switch( mc::choose( 6 ) ) {
		case 0:
			natural_pair<int, int>( "int,int", 20 );
			break;
		case 1:
			natural_pair<unsigned, unsigned>( "unsigned,unsigned", 20 );
			break;
		case 2:
			natural_pair<std::uint8_t, std::uint8_t>( "uint8,uint8", 20 );
			break;
		case 3:
			natural_pair<short, int>( "short,int", 20 );
			break;
		case 4:
			natural_pair<unsigned long long, int>( "ullong,int", 20 );
			break;
		default:
			natural_pair<int, std::uint64_t>( "int,uint64", 20 );
			break;
		}
	}
	MC_TEST( natural_values ) {
		using N = daw::natural_t<int>;
		MC_CHECK( N{ }.value( ) == 1, "natural-default", "not one" );
		int const v = mc::choose_range( -300, 300 );
		bool threw = false;
		try {
			N const n{ v };
			MC_CHECK( n.value( ) == v and static_cast<int>( n ) == v, "natural-construct", "%d", v );
		} catch( daw::invalid_natural_number const & ) {
			threw = true;
		}
		MC_CHECK( threw == ( v < 1 ), "natural-construct-validates", "%d", v );
		N m{ 7 };
		threw = false;
		try {
			m = v;
		} catch( daw::invalid_natural_number const & ) {
			threw = true;
		}
		MC_CHECK( threw == ( v < 1 ) and m.value( ) == ( v < 1 ? 7 : v ), "natural-assign-validates", "%d -> %d", v, m.value( ) );
		if( v >= -128 and v < 128 ) {
			using N8 = daw::natural_t<std::int8_t>;
			threw = false;
			try {
				N8 const n{ static_cast<std::int8_t>( v ) };
				MC_CHECK( n.value( ) == v, "natural8-construct", "%d", v );
			} catch( daw::invalid_natural_number const & ) {
				threw = true;
			}
			MC_CHECK( threw == ( v < 1 ), "natural8-construct-validates", "%d", v );
		}
		using namespace daw::literals;
		MC_CHECK( 5_N == 5ULL and 1_N == 1ULL, "natural-literal", "wrong" );
	}
} // namespace
