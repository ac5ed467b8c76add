// N04: hash functions against reference implementations of the published
// algorithms (themselves checked against the published vectors).
#include "mc.h"

#include "N04_hashes.inc"

#include "daw/daw_fnv1a_hash.h"
#include "daw/daw_generic_hash.h"
#include "daw/daw_metro_hash.h"
#include "daw/daw_sip_hash.h"
#include "daw/daw_string_view.h"

#include <limits>
#include <list>
#include <memory>
#include <string_view>

namespace {
	using fnv_t = daw::fnv1a_uint_t;

	// content in exactly sized memory: reading outside it is detected
	template<typename CharT>
	struct exact {
		std::unique_ptr<CharT[]> p;
		std::size_t n;
		explicit exact( std::vector<unsigned char> const &b )
		  : p( new CharT[b.size( )] )
		  , n( b.size( ) ) {
			for( std::size_t i = 0; i != n; ++i ) {
				p[i] = static_cast<CharT>( b[i] );
			}
		}
	};

	unsigned char const key_tbl[5][16] = {
	  { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 },
	  { },
	  { 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF },
	  { 0x80, 0, 0x7F, 0x81, 0, 0xFE, 1, 0xC3, 0x80, 0x01, 0, 0, 0x99, 0, 0xFF, 0x7F },
	  { 0, 0, 0, 0, 0, 0, 0, 0x80, 0, 0, 0, 0, 0, 0, 0, 0x80 } };

	std::string show( std::vector<unsigned char> const &b ) {
		std::string r;
		for( auto c : b ) {
			r += mc::strf( "%02x", c );
		}
		return r;
	}

	// every entry point over the same bytes
	void all_hashes( std::vector<unsigned char> const &b, bool every_key ) {
		mc::count_case( );
		std::size_t const n = b.size( );
		exact<char> const c( b );
		exact<unsigned char> const u( b );
		fnv_t const want = ref::fnv1a<fnv_t>( b.data( ), n );
		auto check = [&]( char const *key, std::uint64_t got, std::uint64_t w ) {
			MC_CHECK( got == w, key, "of %zu bytes %s is %llx, expected %llx", n, show( b ).c_str( ), static_cast<unsigned long long>( got ),
			          static_cast<unsigned long long>( w ) );
		};
		// FNV-1a
		check( "fnv1a_hash(ptr,len)", daw::fnv1a_hash( c.p.get( ), n ), want );
		check( "fnv1a_hash(uchar ptr,len)", daw::fnv1a_hash( u.p.get( ), n ), want );
		check( "fnv1a_hash_t(first,last)", daw::fnv1a_hash_t{ }( c.p.get( ), c.p.get( ) + n ), want );
		std::string_view const sv( c.p.get( ), n );
		daw::string_view const dsv( c.p.get( ), n );
		check( "fnv1a_hash(std::string_view)", daw::fnv1a_hash( sv ), want );
		check( "fnv1a_hash(daw::string_view)", daw::fnv1a_hash( dsv ), want );
		check( "fnv1a_hash_t(daw::string_view)", daw::fnv1a_hash_t{ }( dsv ), want );
		check( "std::hash<daw::string_view>", std::hash<daw::string_view>{ }( dsv ), want );
		fnv_t inc = ref::fnv1a<fnv_t>( nullptr, 0 );
		bool nul = false;
		for( std::size_t i = 0; i != n; ++i ) {
			inc = daw::fnv1a_hash_t::append_hash( inc, c.p[i] );
			nul = nul or b[i] == 0;
		}
		check( "fnv1a append_hash", inc, want );
		if( not nul ) {
			auto z = b;
			z.push_back( 0 );
			exact<char> const zs( z );
			char const *p = zs.p.get( );
			check( "fnv1a_hash(c string)", daw::fnv1a_hash( p ), want );
			check( "fnv1a_hash_t(c string)", daw::fnv1a_hash_t{ }( p ), want );
		}
		// generic
		std::uint64_t const w8 = ref::fnv1a<std::uint64_t>( b.data( ), n );
		std::uint32_t const w4 = ref::fnv1a<std::uint32_t>( b.data( ), n );
		check( "generic_hash<8>(first,last)", daw::generic_hash<8>( c.p.get( ), c.p.get( ) + n ), w8 );
		check( "generic_hash<4>(first,last)", daw::generic_hash<4>( c.p.get( ), c.p.get( ) + n ), w4 );
		check( "generic_hash<8>(first,len)", daw::generic_hash<8>( c.p.get( ), n ), w8 );
		check( "generic_hash<4>(first,len)", daw::generic_hash<4>( c.p.get( ), n ), w4 );
		check( "generic_hash_t<8>(first,last)", daw::generic_hash_t<8>{ }( u.p.get( ), u.p.get( ) + n ), w8 );
		check( "generic_hash_t<4>(first,last)", daw::generic_hash_t<4>{ }( u.p.get( ), u.p.get( ) + n ), w4 );
		check( "generic_hash<8>(string_view)", daw::generic_hash<8>( sv ), w8 );
		check( "generic_hash<4>(daw::string_view)", daw::generic_hash<4>( dsv ), w4 );
		check( "generic_hash(string_view&&)", daw::generic_hash( std::string_view( sv ) ), ref::fnv1a<daw::genhash_uint_t>( b.data( ), n ) );
		// metro
		for( std::uint64_t seed : { std::uint64_t{ 0 }, std::uint64_t{ 1 }, ~std::uint64_t{ 0 }, std::uint64_t{ 0x8000'0000'0000'0000ULL } } ) {
			check( "metro::hash64", daw::metro::hash64( dsv, seed ), ref::metro64( b.data( ), n, seed ) );
			if( not every_key ) {
				break;
			}
		}
		// siphash
		for( auto const &k : key_tbl ) {
			exact<char> const ck( std::vector<unsigned char>( k, k + 16 ) );
			auto const w = ref::siphash( 2, 4, b.data( ), n, k );
			check( "siphash24", daw::siphash24( c.p.get( ), n, ck.p.get( ) ), w );
			exact<unsigned char> const uk( std::vector<unsigned char>( k, k + 16 ) );
			check( "siphash24(uchar)", daw::siphash24( u.p.get( ), n, uk.p.get( ) ), w );
			if( not every_key ) {
				break;
			}
		}
		mc::obs( want );
	}

	MC_TEST( published_vectors ) {
		// these pin the references themselves
		auto const a = []( char const *s ) {
			return reinterpret_cast<unsigned char const *>( s );
		};
		MC_CHECK( ref::fnv1a<std::uint64_t>( a( "" ), 0 ) == 0xcbf29ce484222325ULL and ref::fnv1a<std::uint64_t>( a( "a" ), 1 ) == 0xaf63dc4c8601ec8cULL and
		              ref::fnv1a<std::uint64_t>( a( "foobar" ), 6 ) == 0x85944171f73967e8ULL,
		            "reference", "implementation is wrong" );
		MC_CHECK( ref::fnv1a<std::uint32_t>( a( "a" ), 1 ) == 0xe40c292cU and ref::fnv1a<std::uint32_t>( a( "foobar" ), 6 ) == 0xbf9cf968U, "reference", "implementation is wrong" );
		unsigned char m[64];
		for( unsigned i = 0; i != 64; ++i ) {
			m[i] = static_cast<unsigned char>( i );
		}
		MC_CHECK( ref::siphash( 2, 4, m, 0, key_tbl[0] ) == 0x726fdb47dd0e0e31ULL and ref::siphash( 2, 4, m, 15, key_tbl[0] ) == 0xa129ca6149be45e5ULL and
		              ref::siphash( 2, 4, m, 63, key_tbl[0] ) == 0x958a324ceb064572ULL,
		            "reference", "implementation is wrong" );
		char const *t = "012345678901234567890123456789012345678901234567890123456789012";
		MC_CHECK( ref::metro64( a( t ), 63, 0 ) == 0xAD4B7006AE3D756BULL and ref::metro64( a( t ), 63, 1 ) == 0xDFB8B9F41C480D3BULL, "reference", "implementation is wrong" );
	}

	std::vector<unsigned char> pattern( int which, std::size_t n ) {
		std::vector<unsigned char> b( n );
		for( std::size_t i = 0; i != n; ++i ) {
			b[i] = static_cast<unsigned char>( which == 0 ? 0 : which == 1 ? 0xFF : which == 2 ? i : which == 3 ? 0x80 + i * 7 : 'a' + i % 26 );
		}
		return b;
	}

	MC_TEST( every_length ) {
		mc::NoTrack nt;
		auto const n = static_cast<std::size_t>( mc::choose( mc::by_tier( 271, 600 ) ) );
		for( int p = 0; p != 5; ++p ) {
			all_hashes( pattern( p, n ), true );
		}
	}

	MC_TEST( single_byte_variations ) {
		mc::NoTrack nt;
		auto const n = static_cast<std::size_t>( mc::choose( mc::by_tier( 135, 300 ) ) + 1 );
		auto const p = mc::choose( 2 ) * 2;
		for( std::size_t i = 0; i != n; ++i ) {
			for( unsigned v : { 0x01U, 0x7FU, 0x80U, 0xFFU } ) {
				auto b = pattern( p, n );
				b[i] = static_cast<unsigned char>( b[i] ^ v );
				all_hashes( b, false );
			}
		}
	}

	MC_TEST( short_strings ) {
		mc::NoTrack nt;
		unsigned char const al[] = { 0x00, 'a', 0x7F, 0x80, 0xFF };
		auto const n = static_cast<std::size_t>( mc::choose( mc::by_tier( 7, 9 ) ) );
		std::vector<unsigned char> b( n );
		for( auto &c : b ) {
			c = al[mc::choose( 5 )];
		}
		all_hashes( b, true );
	}

	MC_TEST( key_bits ) {
		mc::NoTrack nt;
		int const bit = mc::choose( 128 );
		std::vector<unsigned char> k( 16 );
		k[static_cast<std::size_t>( bit / 8 )] = static_cast<unsigned char>( 1U << ( bit % 8 ) );
		exact<char> const ck( k );
		for( std::size_t n = 0; n != 20; ++n ) {
			mc::count_case( );
			auto const b = pattern( 3, n );
			exact<char> const c( b );
			MC_CHECK( daw::siphash24( c.p.get( ), n, ck.p.get( ) ) == ref::siphash( 2, 4, b.data( ), n, k.data( ) ), "siphash24-key", "key bit %d, %zu bytes",
			          bit, n );
			auto const seed = bit < 64 ? std::uint64_t{ 1 } << static_cast<unsigned>( bit ) : ~( std::uint64_t{ 1 } << static_cast<unsigned>( bit - 64 ) );
			MC_CHECK( daw::metro::hash64( daw::string_view( c.p.get( ), n ), seed ) == ref::metro64( b.data( ), n, seed ), "metro-seed", "bit %d, %zu bytes",
			          bit, n );
		}
	}

	template<typename I>
	void integers( ) {
		using U = std::make_unsigned_t<I>;
		auto one = []( U raw ) {
			mc::count_case( );
			auto const v = static_cast<I>( raw );
			unsigned char b[sizeof( I )];
			std::memcpy( b, &v, sizeof v );
			auto const f = ref::fnv1a<fnv_t>( b, sizeof b );
			auto const w8 = ref::fnv1a<std::uint64_t>( b, sizeof b );
			auto const w4 = ref::fnv1a<std::uint32_t>( b, sizeof b );
			auto const shown = static_cast<unsigned long long>( raw );
			MC_CHECK( daw::fnv1a_hash( v ) == f, "fnv1a_hash(int)", "%llx", shown );
			MC_CHECK( daw::fnv1a_hash_t{ }( v ) == f, "fnv1a_hash_t(int)", "%llx", shown );
			MC_CHECK( daw::fnv1a_hash_t{ }( &v ) == f, "fnv1a_hash_t(pointer)", "%llx", shown );
			MC_CHECK( daw::generic_hash<8>( v ) == w8 and daw::generic_hash_t<8>{ }( v ) == w8, "generic_hash<8>(int)", "%llx", shown );
			MC_CHECK( daw::generic_hash<4>( v ) == w4 and daw::generic_hash_t<4>{ }( v ) == w4, "generic_hash<4>(int)", "%llx", shown );
			MC_CHECK( daw::generic_hash_t<8>{ }( &v ) == w8, "generic_hash_t<8>(pointer)", "%llx", shown );
			// ranges and arrays of integers hash all the bytes of all the elements
			I const arr[3] = { v, static_cast<I>( ~raw ), I( 1 ) };
			unsigned char ab[sizeof arr];
			std::memcpy( ab, arr, sizeof arr );
			auto const fa = ref::fnv1a<fnv_t>( ab, sizeof ab );
			auto const a8 = ref::fnv1a<std::uint64_t>( ab, sizeof ab );
			auto const a4 = ref::fnv1a<std::uint32_t>( ab, sizeof ab );
			if constexpr( requires { daw::fnv1a_hash_t{ }( arr ); } ) {
				MC_CHECK( daw::fnv1a_hash_t{ }( arr ) == fa, "fnv1a_hash_t(array)", "%llx", shown );
			}
			if constexpr( requires { daw::generic_hash_t<8>{ }( arr ); } ) {
				MC_CHECK( daw::generic_hash_t<8>{ }( arr ) == a8, "generic_hash_t<8>(array)", "%llx", shown );
			}
			MC_CHECK( daw::generic_hash_t<4>{ }( arr ) == a4, "generic_hash_t<4>(array)", "%llx", shown );
			std::list<I> const l( arr, arr + 3 );
			MC_CHECK( daw::fnv1a_hash_t{ }( l.begin( ), l.end( ) ) == fa, "fnv1a_hash_t(list)", "%llx", shown );
			MC_CHECK( daw::generic_hash<8>( l.begin( ), l.end( ) ) == a8, "generic_hash<8>(list)", "%llx", shown );
			MC_CHECK( daw::generic_hash<4>( l.begin( ), std::size_t{ 3 } ) == a4, "generic_hash<4>(list,len)", "%llx", shown );
			auto const step = daw::fnv1a_hash_t::append_hash( daw::fnv1a_hash( arr[0] ), arr[1] );
			MC_CHECK( daw::fnv1a_hash_t::append_hash( step, arr[2] ) == fa, "append_hash(int)", "%llx", shown );
			MC_CHECK( daw::generic_hash_t<8>::append_hash( daw::generic_hash_t<8>::append_hash( daw::generic_hash<8>( arr[0] ), arr[1] ), arr[2] ) == a8,
			          "generic append_hash", "%llx", shown );
		};
		if( sizeof( I ) == 1 ) {
			for( unsigned v = 0; v != 256; ++v ) {
				one( static_cast<U>( v ) );
			}
		} else {
			for( unsigned s = 0; s != sizeof( I ) * 8; ++s ) {
				for( int d = -1; d <= 1; ++d ) {
					one( static_cast<U>( ( U( 1 ) << s ) + static_cast<U>( d ) ) );
				}
				one( static_cast<U>( ~( U( 1 ) << s ) ) );
			}
		}
	}
	MC_TEST( integer_values ) {
		mc::NoTrack nt;
		switch( mc::choose( 8 ) ) {
		case 0:
			return integers<signed char>( );
		case 1:
			return integers<unsigned char>( );
		case 2:
			return integers<short>( );
		case 3:
			return integers<unsigned short>( );
		case 4:
			return integers<int>( );
		case 5:
			return integers<unsigned>( );
		case 6:
			return integers<long long>( );
		default:
			return integers<std::uint64_t>( );
		}
	}

	MC_TEST( literals_and_objects ) {
		auto const f5 = ref::fnv1a<fnv_t>( reinterpret_cast<unsigned char const *>( "Hello" ), 5 );
		MC_CHECK( daw::fnv1a_hash( "Hello" ) == f5 and daw::fnv1a_hash_t{ }( "Hello" ) == f5, "fnv1a literal", "differs from the string" );
		// a char array is hashed as the array it is
		auto const g6 = ref::fnv1a<daw::genhash_uint_t>( reinterpret_cast<unsigned char const *>( "Hello" ), 6 );
		MC_CHECK( daw::generic_hash( "Hello" ) == g6, "generic literal", "differs from its array" );
		struct pod {
			std::uint32_t a;
			std::uint32_t b;
		} const o{ 0x8081'8283U, 0xFF00'7F01U };
		unsigned char b[sizeof o];
		std::memcpy( b, &o, sizeof o );
		MC_CHECK( daw::fnv1a_hash_t{ }( &o ) == ref::fnv1a<fnv_t>( b, sizeof b ), "fnv1a object", "wrong" );
		MC_CHECK( daw::generic_hash_t<8>{ }( &o ) == ref::fnv1a<std::uint64_t>( b, sizeof b ), "generic object", "wrong" );
		constexpr auto ce = daw::fnv1a_hash( "caf\xC3\xA9" );
		MC_CHECK( ce == ref::fnv1a<fnv_t>( reinterpret_cast<unsigned char const *>( "caf\xC3\xA9" ), 5 ), "fnv1a constexpr", "wrong" );
	}
} // namespace
