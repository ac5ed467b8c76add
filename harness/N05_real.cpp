// N05: random helpers on the real standard distributions, with controlled or
// re-seeded engines: bounds for every engine answer pattern, and the same seed
// giving the same sequence.
#include "mc.h"

#define USE_CXSEED
#include "daw/daw_random.h"

#include <algorithm>
#include <array>
#include <cstdint>
#include <limits>
#include <random>
#include <string>
#include <vector>

namespace {
	template<typename U>
	struct corner_engine {
		using result_type = U;
		unsigned calls = 0;
		corner_engine( ) = default;
		explicit corner_engine( U ) {}
		static constexpr U min( ) {
			return 0;
		}
		static constexpr U max( ) {
			return std::numeric_limits<U>::max( );
		}
		U operator( )( ) {
			U const m = max( );
			U const t[] = { 0, m, static_cast<U>( m - 1 ), static_cast<U>( m / 2 ), static_cast<U>( m / 2 + 1 ), 1, static_cast<U>( m / 3 ) };
			if( calls++ >= 2 ) { // keep rejection loops finite
				return static_cast<U>( calls * 0x9E37'79B9'7F4A'7C15ULL >> ( 64 - 8 * sizeof( U ) ) );
			}
			return t[mc::choose( 7 )];
		}
	};

	template<typename F, typename U>
	void random_float( ) {
		F const vals[] = { F( 0 ), F( 1 ), F( -1 ), F( 0.5 ), F( 1e6 ), F( -1e6 ), F( 1.5 ), std::numeric_limits<F>::min( ), F( 16777216 ) };
		F const lo = vals[mc::choose( 9 )];
		F const hi = vals[mc::choose( 9 )];
		daw::RandomFloat<F, corner_engine<U>> g( 3 );
		bool threw = false;
		F r{ };
		try {
			r = g( hi, lo );
		} catch( std::exception const & ) {
			threw = true;
		}
		if( lo > hi ) {
			MC_CHECK( threw, "random_float_empty_range_accepted", "RandomFloat accepted max %g, min %g", static_cast<double>( hi ), static_cast<double>( lo ) );
		} else if( lo < hi ) {
			MC_CHECK( not threw, "random_float_valid_range_rejected", "RandomFloat rejected max %g, min %g", static_cast<double>( hi ), static_cast<double>( lo ) );
		}
		if( not threw ) {
			MC_CHECK( lo <= r and r <= hi, "random_float_out_of_bounds", "RandomFloat( %g, %g ) returned %g", static_cast<double>( hi ), static_cast<double>( lo ),
			          static_cast<double>( r ) );
		}
	}
	MC_TEST( random_float_bounds ) {
		switch( mc::choose( 4 ) ) {
		case 0:
			return random_float<double, std::uint64_t>( );
		case 1:
			return random_float<double, std::uint32_t>( );
		case 2:
			return random_float<float, std::uint32_t>( );
		default:
			return random_float<float, std::uint64_t>( );
		}
	}
	MC_TEST( random_float_default ) {
		daw::RandomFloat<double, corner_engine<std::uint64_t>> g( 1 );
		double const r = g( );
		MC_CHECK( 0.0 <= r and r <= 1.0, "random_float_out_of_bounds", "RandomFloat( ) returned %g", r );
	}

	template<typename I, typename U>
	void random_integer( ) {
		using L = std::numeric_limits<I>;
		I const vals[] = { L::min( ), static_cast<I>( L::min( ) + 1 ), 0, 1, 2, 6, 100, static_cast<I>( L::max( ) - 1 ), L::max( ) };
		I const lo = vals[mc::choose( 9 )];
		I const hi = vals[mc::choose( 9 )];
		daw::RandomInteger<I, corner_engine<U>> g( 3 );
		bool threw = false;
		I r{ };
		try {
			r = g( hi, lo );
		} catch( std::exception const & ) {
			threw = true;
		}
		if( lo > hi ) {
			MC_CHECK( threw, "random_integer_empty_range_accepted", "RandomInteger accepted max %s, min %s", std::to_string( hi ).c_str( ), std::to_string( lo ).c_str( ) );
		} else if( lo < hi ) {
			MC_CHECK( not threw, "random_integer_valid_range_rejected", "RandomInteger rejected max %s, min %s", std::to_string( hi ).c_str( ), std::to_string( lo ).c_str( ) );
		}
		if( not threw ) {
			MC_CHECK( lo <= r and r <= hi, "random_integer_out_of_bounds", "RandomInteger( %s, %s ) returned %s", std::to_string( hi ).c_str( ), std::to_string( lo ).c_str( ),
			          std::to_string( r ).c_str( ) );
		}
	}
	MC_TEST( random_integer_bounds ) {
		switch( mc::choose( 6 ) ) {
		case 0:
			return random_integer<int, std::uint32_t>( );
		case 1:
			return random_integer<unsigned, std::uint64_t>( );
		case 2:
			return random_integer<short, std::uint32_t>( );
		case 3:
			return random_integer<std::int64_t, std::uint64_t>( );
		case 4:
			return random_integer<std::uint64_t, std::uint32_t>( );
		default:
			return random_integer<int, std::uint64_t>( );
		}
	}

	// ---- repeatability --------------------------------------------------------
	struct lots {
		std::vector<long long> v;
		bool operator==( lots const & ) const = default;
	};
	lots draw( ) {
		lots r;
		for( int i = 0; i < 40; ++i ) {
			r.v.push_back( daw::randint<int>( -1000, 1000 ) );
			r.v.push_back( daw::randint<signed char>( ) );
			r.v.push_back( daw::randint<std::int64_t>( ) );
		}
		std::vector<int> s( 20 );
		for( int i = 0; i < 20; ++i ) {
			s[static_cast<std::size_t>( i )] = i;
		}
		daw::shuffle( s.begin( ), s.end( ) );
		r.v.insert( r.v.end( ), s.begin( ), s.end( ) );
		auto const d = daw::make_random_data<int>( 10, 0, 9 );
		r.v.insert( r.v.end( ), d.begin( ), d.end( ) );
		std::sort( s.begin( ), s.end( ) );
		for( int i = 0; i < 20; ++i ) {
			MC_CHECK( s[static_cast<std::size_t>( i )] == i, "shuffle_not_a_permutation", "shuffling 20 elements lost %d", i );
		}
		return r;
	}
	MC_TEST( reseed_repeats ) {
		mc::NoTrack nt;
		unsigned const seeds[] = { 0, 1, 2, 77, 0x7FFFFFFFU, 0x80000000U, 0xFFFFFFFFU };
		unsigned const s = seeds[mc::choose( 7 )];
		unsigned const warm = mc::choose( 3 );
		auto reseed = [&]( bool def ) {
			if( def ) {
				daw::reseed( );
			} else {
				daw::reseed( s );
			}
		};
		bool const def = mc::choose( 2 ) == 1;
		reseed( def );
		auto const one = draw( );
		for( unsigned i = 0; i < warm; ++i ) {
			(void)daw::randint<int>( 0, 1 << i );
		}
		reseed( def );
		auto const two = draw( );
		MC_CHECK( one == two, "reseed_does_not_repeat", "reseeding with %s%u gave a different sequence", def ? "the default, not " : "", s );
		if( not def ) {
			daw::reseed( s + 1 );
			MC_CHECK( not( draw( ) == one ), "reseed_ignored", "reseeding with %u and %u gave the same sequence", s, s + 1 );
		}
	}
	MC_TEST( seeded_generators_repeat ) {
		unsigned const s = mc::choose( 20 );
		daw::RandomInteger<int> a( s ), b( s ), c( s + 21 );
		daw::RandomFloat<double> f( s ), g( s );
		bool differs = false;
		for( int i = 0; i < 30; ++i ) {
			int const x = a( 1000000 );
			MC_CHECK( x == b( 1000000 ), "seeded_generator_does_not_repeat", "RandomInteger seeded twice with %u diverges at %d", s, i );
			differs = differs or x != c( 1000000 );
			MC_CHECK( f( 3.0, -3.0 ) == g( 3.0, -3.0 ), "seeded_generator_does_not_repeat", "RandomFloat seeded twice with %u diverges at %d", s, i );
			auto d = a;
			int const y = a( 50, 1 );
			MC_CHECK( y == d( 50, 1 ), "copied_generator_diverges", "a copied RandomInteger diverges at %d", i );
			(void)b( 50, 1 );
			(void)c( 50, 1 );
		}
		MC_CHECK( differs, "seed_ignored", "RandomInteger seeded with %u and %u gave the same sequence", s, s + 21 );
	}

	// ---- static_random --------------------------------------------------------
	constexpr std::array<std::size_t, 8> static_seq( std::size_t seed ) {
		daw::static_random r( seed );
		std::array<std::size_t, 8> a{ };
		for( auto &x : a ) {
			x = r( );
		}
		return a;
	}
	constexpr std::array<std::size_t, 8> ct[] = { static_seq( 0 ), static_seq( 1 ), static_seq( 2 ), static_seq( 0xFFFF'FFFF ), static_seq( ~0ULL ) };
	MC_TEST( static_random_repeats ) {
		std::size_t const seeds[] = { 0, 1, 2, 0xFFFF'FFFF, ~0ULL };
		unsigned const k = mc::choose( 5 );
		auto const rt = static_seq( seeds[k] );
		MC_CHECK( rt == ct[k], "static_random_differs_at_compile_time", "static_random( %zu ) differs between run and compile time", seeds[k] );
		daw::static_random r( seeds[k] );
		for( int i = 0; i < 8; ++i ) {
			auto c = r;
			auto const x = r( );
			MC_CHECK( x == rt[static_cast<std::size_t>( i )], "static_random_does_not_repeat", "static_random( %zu ) diverges at %d", seeds[k], i );
			MC_CHECK( c( ) == x, "static_random_copy_diverges", "a copied static_random diverges at %d", i );
			for( int j = 0; j < i; ++j ) {
				MC_CHECK( rt[static_cast<std::size_t>( j )] != x, "static_random_stuck", "static_random( %zu ) repeats its value %d at %d", seeds[k], j, i );
			}
		}
		for( unsigned j = 0; j < k; ++j ) {
			MC_CHECK( ct[j] != ct[k], "static_random_ignores_seed", "static_random( %zu ) equals static_random( %zu )", seeds[j], seeds[k] );
		}
		constexpr auto d1 = daw::static_random( )( );
		MC_CHECK( d1 == daw::static_random( )( ), "static_random_differs_at_compile_time", "the default seeded static_random differs between run and compile time" );
	}
} // namespace
