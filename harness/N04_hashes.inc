// Reference hash functions, written from the published definitions.
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace ref {
	using bytes = std::vector<unsigned char>;

	template<typename U>
	U fnv1a_append( U h, unsigned char const *p, std::size_t n ) {
		U const prime = sizeof( U ) == 8 ? static_cast<U>( 0x0000'0100'0000'01B3ULL ) : static_cast<U>( 0x0100'0193U );
		for( std::size_t i = 0; i != n; ++i ) {
			h = static_cast<U>( ( h ^ p[i] ) * prime );
		}
		return h;
	}
	template<typename U>
	U fnv1a( unsigned char const *p, std::size_t n ) {
		return fnv1a_append<U>( sizeof( U ) == 8 ? static_cast<U>( 0xCBF2'9CE4'8422'2325ULL ) : static_cast<U>( 0x811C'9DC5U ), p, n );
	}

	inline std::uint64_t le( unsigned char const *p, std::size_t n ) {
		std::uint64_t r = 0;
		for( std::size_t i = n; i-- > 0; ) {
			r = ( r << 8U ) | p[i];
		}
		return r;
	}
	inline std::uint64_t rotl( std::uint64_t v, unsigned s ) {
		return ( v << s ) | ( v >> ( 64U - s ) );
	}
	inline std::uint64_t rotr( std::uint64_t v, unsigned s ) {
		return ( v >> s ) | ( v << ( 64U - s ) );
	}

	inline std::uint64_t siphash( int c, int d, unsigned char const *in, std::size_t n, unsigned char const *key ) {
		std::uint64_t const k0 = le( key, 8 );
		std::uint64_t const k1 = le( key + 8, 8 );
		std::uint64_t v0 = 0x736f6d6570736575ULL ^ k0;
		std::uint64_t v1 = 0x646f72616e646f6dULL ^ k1;
		std::uint64_t v2 = 0x6c7967656e657261ULL ^ k0;
		std::uint64_t v3 = 0x7465646279746573ULL ^ k1;
		auto round = [&] {
			v0 += v1;
			v1 = rotl( v1, 13 );
			v1 ^= v0;
			v0 = rotl( v0, 32 );
			v2 += v3;
			v3 = rotl( v3, 16 );
			v3 ^= v2;
			v0 += v3;
			v3 = rotl( v3, 21 );
			v3 ^= v0;
			v2 += v1;
			v1 = rotl( v1, 17 );
			v1 ^= v2;
			v2 = rotl( v2, 32 );
		};
		std::size_t i = 0;
		for( ; i + 8 <= n; i += 8 ) {
			std::uint64_t const m = le( in + i, 8 );
			v3 ^= m;
			for( int r = 0; r != c; ++r ) {
				round( );
			}
			v0 ^= m;
		}
		std::uint64_t const last = le( in + i, n - i ) | ( static_cast<std::uint64_t>( n & 0xFFU ) << 56U );
		v3 ^= last;
		for( int r = 0; r != c; ++r ) {
			round( );
		}
		v0 ^= last;
		v2 ^= 0xFF;
		for( int r = 0; r != d; ++r ) {
			round( );
		}
		return v0 ^ v1 ^ v2 ^ v3;
	}

	inline std::uint64_t metro64( unsigned char const *p, std::size_t n, std::uint64_t seed ) {
		std::uint64_t const k0 = 0xD6D018F5;
		std::uint64_t const k1 = 0xA2AA033B;
		std::uint64_t const k2 = 0x62992FC1;
		std::uint64_t const k3 = 0x30BC5B29;
		std::uint64_t h = ( seed + k2 ) * k0;
		std::size_t i = 0;
		if( n >= 32 ) {
			std::uint64_t v[4] = { h, h, h, h };
			for( ; n - i >= 32; i += 32 ) {
				v[0] += le( p + i, 8 ) * k0;
				v[0] = rotr( v[0], 29 ) + v[2];
				v[1] += le( p + i + 8, 8 ) * k1;
				v[1] = rotr( v[1], 29 ) + v[3];
				v[2] += le( p + i + 16, 8 ) * k2;
				v[2] = rotr( v[2], 29 ) + v[0];
				v[3] += le( p + i + 24, 8 ) * k3;
				v[3] = rotr( v[3], 29 ) + v[1];
			}
			v[2] ^= rotr( ( v[0] + v[3] ) * k0 + v[1], 37 ) * k1;
			v[3] ^= rotr( ( v[1] + v[2] ) * k1 + v[0], 37 ) * k0;
			v[0] ^= rotr( ( v[0] + v[2] ) * k0 + v[3], 37 ) * k1;
			v[1] ^= rotr( ( v[1] + v[3] ) * k1 + v[2], 37 ) * k0;
			h += v[0] ^ v[1];
		}
		if( n - i >= 16 ) {
			std::uint64_t a = h + le( p + i, 8 ) * k2;
			a = rotr( a, 29 ) * k3;
			std::uint64_t b = h + le( p + i + 8, 8 ) * k2;
			b = rotr( b, 29 ) * k3;
			a ^= rotr( a * k0, 21 ) + b;
			b ^= rotr( b * k3, 21 ) + a;
			h += b;
			i += 16;
		}
		struct step {
			std::size_t size;
			unsigned rot;
		};
		for( step s : { step{ 8, 55 }, step{ 4, 26 }, step{ 2, 48 }, step{ 1, 37 } } ) {
			if( n - i >= s.size ) {
				h += le( p + i, s.size ) * k3;
				h ^= rotr( h, s.rot ) * k1;
				i += s.size;
			}
		}
		h ^= rotr( h, 28 );
		h *= k0;
		h ^= rotr( h, 29 );
		return h;
	}
} // namespace ref
