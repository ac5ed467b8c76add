// The branches of the math functions that only constant expressions take: every
// exponent and sign with the boundary significands, evaluated by the compiler.
// MC-FLAGS: -fconstexpr-steps=20000000
#include "mc.h"
#include <array>
#include <bit>
#include <cmath>
#include <cstdint>
#include <daw/daw_cxmath.h>

namespace {
	template<typename F, typename U, int ExpBits>
	struct table {
		static constexpr int mant = int( sizeof( U ) ) * 8 - 1 - ExpBits;
		static constexpr std::array<U, 6> sig = { 0, 1, U( 1 ) << ( mant - 1 ), ( U( 1 ) << mant ) - 1, U( 0x5555555555555555ull ) & ( ( U( 1 ) << mant ) - 1 ), 2 };
		static constexpr std::size_t N = std::size_t( 2 ) << ExpBits;
		static constexpr U bits( std::size_t i ) {
			return ( U( i / sig.size( ) ) << mant ) | sig[i % sig.size( )];
		}
		static constexpr auto get( ) {
			std::array<F, N * 6> r{ };
			for( std::size_t i = 0; i < r.size( ); ++i ) {
				r[i] = daw::cxmath::abs( std::bit_cast<F>( bits( i ) ) );
			}
			return r;
		}
	};
	template<typename T, auto const &Got>
	void check( ) {
		int const block = mc::choose( 64 );
		for( std::size_t i = std::size_t( block ); i < Got.size( ); i += 64 ) {
			mc::count_case( );
			using F = std::remove_cvref_t<decltype( Got[0] )>;
			F const v = std::bit_cast<F>( T::bits( i ) );
			if( std::isnan( v ) ) {
				MC_CHECK( std::isnan( Got[i] ), "abs-nan", "abs of a NaN in a constant expression" );
			} else {
				MC_CHECK( Got[i] == std::fabs( v ) and not std::signbit( Got[i] ), "abs-constant", "abs(%a) = %a in a constant expression", double( v ), double( Got[i] ) );
			}
		}
	}
	using TF = table<float, std::uint32_t, 8>;
	using TD = table<double, std::uint64_t, 11>;
	constexpr auto got_f = TF::get( );
	constexpr auto got_d = TD::get( );
} // namespace
MC_TEST( constant_abs_float ) { check<TF, got_f>( ); }
MC_TEST( constant_abs_double ) { check<TD, got_d>( ); }
