// N04: FNV-1a in its 32 bit configuration (DAW_FORCE_FNV1A_TYPE).
// MC-FLAGS: -DDAW_FORCE_FNV1A_TYPE=std::uint32_t
#include <cstdint>

#include "mc.h"

#include "N04_hashes.inc"

#include "daw/daw_fnv1a_hash.h"

#include <memory>
#include <string_view>

namespace {
	MC_TEST( fnv32_every_length ) {
		mc::NoTrack nt;
		auto const n = static_cast<std::size_t>( mc::choose( 140 ) );
		for( unsigned p = 0; p != 5; ++p ) {
			mc::count_case( );
			std::unique_ptr<char[]> c( new char[n] );
			std::unique_ptr<char[]> z( new char[n + 1] );
			std::vector<unsigned char> b( n );
			bool nul = false;
			for( std::size_t i = 0; i != n; ++i ) {
				b[i] = static_cast<unsigned char>( p == 0 ? 0 : p == 1 ? 0xFF : p == 2 ? i : p == 3 ? 0x80 + i * 7 : 'a' + i % 26 );
				c[i] = z[i] = static_cast<char>( b[i] );
				nul = nul or b[i] == 0;
			}
			z[n] = 0;
			auto const want = ref::fnv1a<std::uint32_t>( b.data( ), n );
			auto check = [&]( char const *key, std::uint64_t got ) {
				MC_CHECK( got == want, key, "of %zu bytes, pattern %u, is %llx, expected %x", n, p, static_cast<unsigned long long>( got ), want );
			};
			check( "fnv1a_hash(ptr,len)", daw::fnv1a_hash( c.get( ), n ) );
			check( "fnv1a_hash_t(first,last)", daw::fnv1a_hash_t{ }( c.get( ), c.get( ) + n ) );
			check( "fnv1a_hash(string_view)", daw::fnv1a_hash( std::string_view( c.get( ), n ) ) );
			if( not nul ) {
				char const *s = z.get( );
				check( "fnv1a_hash(c string)", daw::fnv1a_hash( s ) );
				check( "fnv1a_hash_t(c string)", daw::fnv1a_hash_t{ }( s ) );
			}
			if( n >= 8 ) {
				std::uint64_t v;
				std::memcpy( &v, b.data( ), 8 );
				auto const w = ref::fnv1a<std::uint32_t>( b.data( ), 8 );
				MC_CHECK( daw::fnv1a_hash( v ) == w, "fnv1a_hash(int)", "%llx", static_cast<unsigned long long>( v ) );
			}
		}
	}
} // namespace
