// The operations of the atomic wrapper in constant expressions: every history
// of two operations is evaluated by the compiler and compared with the
// sequential meaning of the operations.
// MC-FLAGS: -fconstexpr-steps=20000000
#include "mc.h"
#include "T03.inc"
#include <array>

namespace {
	inline constexpr int NV = 3, NA = 3;
	template<typename T>
	constexpr T values[NV] = { T( 0 ), T( 1 ), T( 5 ) };
	template<typename T>
	struct Rec {
		Res<T> r1{ }, r2{ };
		T end{ };
	};
	inline constexpr int per_op = NA * 2;
	constexpr Op op_of( int i ) {
		int const k = i / per_op, a = i % per_op / 2, b = i % 2;
		return { OpK( k ), a == 2 ? 6 : a, b ? 1 : 4 };
	}
	inline constexpr int per_op2 = 2, N1 = int( NOps ) * per_op2;
	constexpr Op op2_of( int j ) {
		return { OpK( j / per_op2 ), j % 2 ? 6 : 1, 4 };
	}
	// the first operation is chosen by the template so that no single constant
	// evaluation gets too long
	template<typename T, int Op1>
	constexpr auto table = [] {
		std::array<Rec<T>, std::size_t( NV * per_op * N1 )> t{ };
		std::size_t n = 0;
		for( int v = 0; v < NV; ++v ) {
			for( int i = Op1 * per_op; i < ( Op1 + 1 ) * per_op; ++i ) {
				for( int j = 0; j < N1; ++j, ++n ) {
					if( not has<T>( op_of( i ).k ) or not has<T>( op2_of( j ).k ) ) continue;
					daw::atomic<T> m( values<T>[v] );
					t[n].r1 = real( m, op_of( i ) );
					t[n].r2 = real( m, op2_of( j ) );
					t[n].end = m.load( );
				}
			}
		}
		return t;
	}( );
	template<typename T, int Op1>
	void compare( ) {
		if constexpr( has<T>( OpK( Op1 ) ) ) {
			int const v = mc::choose( NV );
			int const i = Op1 * per_op + mc::choose( per_op );
			auto const &t = table<T, Op1>;
			for( int j = 0; j < N1; ++j ) {
				if( not has<T>( op2_of( j ).k ) ) continue;
				mc::count_case( );
				T m = values<T>[v];
				auto const w1 = seq( m, op_of( i ) ), w2 = seq( m, op2_of( j ) );
				auto const &g = t[std::size_t( ( v * per_op + i % per_op ) * N1 + j )];
				MC_CHECK( same( g.r1, w1 ) and same( g.r2, w2 ) and g.end == m, oname[op2_of( j ).k], "constant expression: %s(%ld,%ld) then %s(%ld,%ld) on %g", oname[op_of( i ).k], op_of( i ).a, op_of( i ).b, oname[op2_of( j ).k], op2_of( j ).a, op2_of( j ).b, double( values<T>[v] ) );
			}
		}
	}
	template<typename T, int... Is>
	void dispatch( int k, std::integer_sequence<int, Is...> ) {
		(void)( ( k == Is ? ( compare<T, Is>( ), true ) : false ) or ... );
	}
	template<typename T>
	void all( ) {
		dispatch<T>( mc::choose( NOps ), std::make_integer_sequence<int, NOps>{ } );
	}
} // namespace
MC_TEST( constant_int ) { all<int>( ); }
MC_TEST( constant_unsigned_char ) { all<unsigned char>( ); }
MC_TEST( constant_bool ) { all<bool>( ); }
MC_TEST( constant_float ) { all<float>( ); }
