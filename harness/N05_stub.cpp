// N05: random helpers with every answer of the random source enumerated.  The
// standard distributions and engines are replaced by stand-ins whose answers
// are explorer choices (or, for whole-distribution facts, an odometer inside
// one execution).
#include "mc.h"

#include <cmath>
#include "mc_tracked.h"

#include <algorithm>
#include <array>
#include <cstdint>
#include <deque>
#include <forward_list>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <random>
#include <string>
#include <type_traits>
#include <vector>

namespace rndsrc {
	// odometer over all answers of one call sequence
	struct Odo {
		std::vector<unsigned> digit;
		std::vector<unsigned> base;
		std::size_t pos = 0;
		long double weight = 1;
		unsigned next( unsigned n ) {
			if( pos == digit.size( ) ) {
				digit.push_back( 0 );
				base.push_back( n );
			}
			base[pos] = n;
			weight /= static_cast<long double>( n );
			return digit[pos++];
		}
		bool advance( ) {
			digit.resize( pos );
			base.resize( pos );
			while( not digit.empty( ) and digit.back( ) + 1 >= base.back( ) ) {
				digit.pop_back( );
				base.pop_back( );
			}
			pos = 0;
			weight = 1;
			if( digit.empty( ) ) {
				return false;
			}
			++digit.back( );
			return true;
		}
	};
	inline Odo *odo = nullptr;
	inline unsigned long consulted = 0;
	inline unsigned long answered_full = 0;

	// a repeated word of lowest, highest and middle answers
	struct Script {
		std::vector<unsigned> word;
		std::size_t at = 0;
		long double log_weight = 0;
		unsigned next( unsigned n ) {
			log_weight -= std::log( static_cast<long double>( n ) );
			unsigned const kind = word[at++ % word.size( )];
			return kind == 0 ? 0 : kind == 1 ? n - 1 : n / 2;
		}
	};
	inline Script *script = nullptr;

	inline unsigned answer( unsigned n ) {
		++consulted;
		if( script ) {
			return script->next( n );
		}
		return odo ? odo->next( n ) : mc::choose( n );
	}
} // namespace rndsrc

namespace std {
	struct mc_engine {
		using result_type = std::uint64_t;
		static constexpr result_type default_seed = 1;
		mc_engine( ) = default;
		template<typename T>
			requires( std::is_integral_v<T> )
		explicit mc_engine( T ) {}
		template<typename T>
		void seed( T ) {}
		void seed( ) {}
		static constexpr result_type min( ) {
			return 0;
		}
		static constexpr result_type max( ) {
			return std::numeric_limits<result_type>::max( );
		}
		result_type operator( )( ) {
			return rndsrc::answer( 12 );
		}
		void discard( unsigned long long ) {}
	};
	struct mc_random_device {
		using result_type = unsigned;
		result_type operator( )( ) {
			return 1;
		}
		static constexpr result_type min( ) {
			return 0;
		}
		static constexpr result_type max( ) {
			return ~0U;
		}
	};
	template<typename I>
	struct mc_uniform_int {
		using result_type = I;
		struct param_type {
			using distribution_type = mc_uniform_int;
			I lo = 0, hi = std::numeric_limits<I>::max( );
			param_type( ) = default;
			explicit param_type( I a, I b = std::numeric_limits<I>::max( ) )
			  : lo( a )
			  , hi( b ) {}
			I a( ) const {
				return lo;
			}
			I b( ) const {
				return hi;
			}
		};
		param_type p;
		mc_uniform_int( ) = default;
		explicit mc_uniform_int( I a, I b = std::numeric_limits<I>::max( ) )
		  : p( a, b ) {}
		explicit mc_uniform_int( param_type q )
		  : p( q ) {}
		void reset( ) {}
		param_type param( ) const {
			return p;
		}
		void param( param_type q ) {
			p = q;
		}
		I a( ) const {
			return p.lo;
		}
		I b( ) const {
			return p.hi;
		}
		template<typename G>
		I operator( )( G & ) {
			return ask( p );
		}
		template<typename G>
		I operator( )( G &, param_type q ) {
			return ask( q );
		}

	private:
		static I ask( param_type q ) {
			MC_CHECK( q.lo <= q.hi, "random_source_asked_for_empty_range", "the random source was asked for a value in an empty range" );
			using U = std::make_unsigned_t<std::conditional_t<std::is_same_v<I, bool>, char, I>>;
			U const span = static_cast<U>( static_cast<U>( q.hi ) - static_cast<U>( q.lo ) );
			if( span < 64 ) {
				return static_cast<I>( static_cast<U>( q.lo ) + rndsrc::answer( static_cast<unsigned>( span ) + 1U ) );
			}
			U const off[] = { 0, 1, 2, static_cast<U>( span / 2 ), static_cast<U>( span / 2 + 1 ), static_cast<U>( span - 1 ), span };
			return static_cast<I>( static_cast<U>( q.lo ) + off[rndsrc::answer( 7 )] );
		}
	};
} // namespace std

#define mt19937_64 mc_engine
#define mt19937 mc_engine
#define default_random_engine mc_engine
#define minstd_rand mc_engine
#define random_device mc_random_device
#define uniform_int_distribution mc_uniform_int
#include "daw/daw_random.h"
#undef mt19937_64
#undef mt19937
#undef default_random_engine
#undef minstd_rand
#undef random_device
#undef uniform_int_distribution

namespace {
	template<typename I>
	std::vector<I> corner( ) {
		using L = std::numeric_limits<I>;
		std::vector<I> v;
		auto add = [&]( long long x ) {
			if constexpr( std::is_unsigned_v<I> ) {
				if( x < 0 ) {
					x = static_cast<long long>( static_cast<unsigned long long>( L::max( ) ) + 1ULL + static_cast<unsigned long long>( x ) );
				}
			}
			auto const i = static_cast<I>( x );
			if( std::find( v.begin( ), v.end( ), i ) == v.end( ) ) {
				v.push_back( i );
			}
		};
		for( int i = -3; i <= 5; ++i ) {
			add( i );
		}
		add( 100 );
		v.push_back( L::max( ) );
		v.push_back( static_cast<I>( L::max( ) - 1 ) );
		v.push_back( L::min( ) );
		v.push_back( static_cast<I>( L::min( ) + 1 ) );
		std::sort( v.begin( ), v.end( ) );
		v.erase( std::unique( v.begin( ), v.end( ) ), v.end( ) );
		return v;
	}

	template<typename I>
	void randint_of( char const *name ) {
		static std::vector<I> const &vals = *[] {
			mc::NoTrack nt;
			return new std::vector<I>( corner<I>( ) );
		}( );
		I const a = mc::pick( vals );
		I const b = mc::pick( vals );
		auto sh = [&]( I x ) { return std::to_string( x ); };
		mc::note( "randint<%s>( %s, %s )", name, sh( a ).c_str( ), sh( b ).c_str( ) );
		bool threw = false;
		I r{ };
		try {
			r = daw::randint<I>( a, b );
		} catch( std::exception const & ) {
			threw = true;
		}
		if( a > b ) {
			MC_CHECK( threw, "randint_empty_range_accepted", "randint<%s>( %s, %s ) returned %s for an empty range", name, sh( a ).c_str( ), sh( b ).c_str( ),
			          sh( r ).c_str( ) );
			return;
		}
		MC_CHECK( not threw, "randint_valid_range_rejected", "randint<%s>( %s, %s ) rejected a valid range", name, sh( a ).c_str( ), sh( b ).c_str( ) );
		MC_CHECK( a <= r and r <= b, "randint_out_of_bounds", "randint<%s>( %s, %s ) returned %s", name, sh( a ).c_str( ), sh( b ).c_str( ), sh( r ).c_str( ) );
		mc::obs( static_cast<std::uint64_t>( r ) );
	}

	MC_TEST( randint_bounds ) {
		switch( mc::choose( 8 ) ) {
		case 0:
			return randint_of<signed char>( "signed char" );
		case 1:
			return randint_of<unsigned char>( "unsigned char" );
		case 2:
			return randint_of<short>( "short" );
		case 3:
			return randint_of<unsigned short>( "unsigned short" );
		case 4:
			return randint_of<int>( "int" );
		case 5:
			return randint_of<unsigned>( "unsigned" );
		case 6:
			return randint_of<long long>( "long long" );
		default:
			return randint_of<unsigned long long>( "unsigned long long" );
		}
	}

	// every value of a small range is produced by some answer, equally often
	template<typename I>
	void randint_cover( I a, I b ) {
		mc::NoTrack nt;
		std::map<I, long double> hits;
		rndsrc::Odo o;
		rndsrc::odo = &o;
		auto const before = rndsrc::consulted;
		do {
			I const r = daw::randint<I>( a, b );
			hits[r] += o.weight;
			mc::step( );
		} while( o.advance( ) );
		rndsrc::odo = nullptr;
		if( rndsrc::consulted == before ) {
			return;
		}
		std::size_t const n = static_cast<std::size_t>( static_cast<long long>( b ) - static_cast<long long>( a ) + 1 );
		MC_CHECK( hits.size( ) == n, "randint_values_unreachable", "randint( %lld, %lld ) can produce %zu of %zu values", static_cast<long long>( a ),
		          static_cast<long long>( b ), hits.size( ), n );
		MC_CHECK( hits.begin( )->first == a and hits.rbegin( )->first == b, "randint_bounds_not_inclusive", "randint( %lld, %lld ) covers %lld to %lld",
		          static_cast<long long>( a ), static_cast<long long>( b ), static_cast<long long>( hits.begin( )->first ),
		          static_cast<long long>( hits.rbegin( )->first ) );
		for( auto const &[v, w] : hits ) {
			MC_CHECK( w * n > 0.999L and w * n < 1.001L, "randint_not_uniform", "randint( %lld, %lld ) produces %lld with weight %Lf", static_cast<long long>( a ),
			          static_cast<long long>( b ), static_cast<long long>( v ), w );
		}
	}
	MC_TEST( randint_coverage ) {
		int const a = mc::choose_range( -6, 6 );
		int const b = a + static_cast<int>( mc::choose( 9 ) );
		randint_cover<int>( a, b );
		randint_cover<std::int64_t>( a, b );
		randint_cover<signed char>( static_cast<signed char>( a ), static_cast<signed char>( b ) );
		if( a >= 0 ) {
			randint_cover<unsigned>( static_cast<unsigned>( a ), static_cast<unsigned>( b ) );
		}
	}
	MC_TEST( randint_full ) {
		auto const r = daw::randint<signed char>( );
		mc::obs( static_cast<std::uint64_t>( r ) );
		auto const w = daw::randint<std::uint64_t>( );
		mc::obs( w );
	}

	// ---- shuffle -------------------------------------------------------------
	template<typename It>
	bool is_perm( It b, It e, std::size_t n ) {
		std::vector<int> c( n );
		std::size_t k = 0;
		for( auto i = b; i != e; ++i, ++k ) {
			int const v = mc::val( *i );
			if( v < 0 or static_cast<std::size_t>( v ) >= n or c[static_cast<std::size_t>( v )]++ ) {
				return false;
			}
		}
		return k == n;
	}

	template<typename T, typename Make>
	void shuffle_tree( std::size_t n, Make make ) {
		// guard elements on both sides must stay put
		std::vector<T> v;
		v.reserve( n + 2 );
		v.push_back( make( 50 ) );
		for( std::size_t i = 0; i != n; ++i ) {
			v.push_back( make( static_cast<int>( i ) ) );
		}
		v.push_back( make( 51 ) );
		daw::shuffle( v.begin( ) + 1, v.end( ) - 1 );
		MC_CHECK( mc::val( v.front( ) ) == 50 and mc::val( v.back( ) ) == 51, "shuffle_touched_outside", "shuffling %zu elements changed an element outside the range", n );
		MC_CHECK( is_perm( v.begin( ) + 1, v.end( ) - 1, n ), "shuffle_not_a_permutation", "shuffling %zu elements lost or duplicated one", n );
		for( auto const &x : v ) {
			mc::obs( static_cast<std::uint64_t>( mc::val( x ) ) );
		}
	}
	MC_TEST( shuffle_values ) {
		std::size_t const n = mc::choose( static_cast<unsigned>( mc::by_tier( 7, 9 ) ) );
		shuffle_tree<int>( n, []( int i ) { return i; } );
	}
	MC_TEST( shuffle_tracked ) {
		std::size_t const n = mc::choose( 6 );
		if( mc::choose( 2 ) ) {
			shuffle_tree<mc::Tracked<mc::NoThrowMove>>( n, []( int i ) { return mc::Tracked<mc::NoThrowMove>( i ); } );
		} else {
			shuffle_tree<mc::Tracked<mc::NoCopy>>( n, []( int i ) { return mc::Tracked<mc::NoCopy>( i ); } );
		}
	}
	MC_TEST( shuffle_owning ) {
		std::size_t const n = mc::choose( 6 );
		std::deque<std::string> d;
		for( std::size_t i = 0; i != n; ++i ) {
			d.push_back( std::string( 20, 'a' ) + static_cast<char>( 'a' + i ) );
		}
		auto const orig = d;
		daw::shuffle( d.begin( ), d.end( ) );
		MC_CHECK( std::is_permutation( orig.begin( ), orig.end( ), d.begin( ), d.end( ) ), "shuffle_not_a_permutation", "shuffling a deque of %zu strings lost one", n );
		std::vector<std::unique_ptr<int>> u;
		for( std::size_t i = 0; i != n and i < 4; ++i ) {
			u.push_back( std::make_unique<int>( static_cast<int>( i ) ) );
		}
		auto const cnt = u.size( );
		daw::shuffle( u.begin( ), u.end( ) );
		std::vector<int> seen( cnt );
		for( auto const &p : u ) {
			MC_CHECK( p and not seen[static_cast<std::size_t>( *p )]++, "shuffle_not_a_permutation", "shuffling unique_ptrs lost one of %zu", cnt );
		}
	}
	// long ranges: still a permutation, and no answer sequence is likelier than
	// the permutation it leads to may be
	MC_TEST( shuffle_long ) {
		std::size_t const n = mc::pick( { std::size_t{ 15 }, std::size_t{ 16 }, std::size_t{ 17 }, std::size_t{ 33 }, std::size_t{ 64 } } );
		rndsrc::Script s;
		s.word.resize( 1 + mc::choose( 4 ) );
		for( auto &x : s.word ) {
			x = mc::choose( 3 );
		}
		rndsrc::script = &s;
		auto const before = rndsrc::consulted;
		std::vector<int> v( n + 2 );
		for( std::size_t i = 0; i != n + 2; ++i ) {
			v[i] = static_cast<int>( i ) - 1;
		}
		daw::shuffle( v.begin( ) + 1, v.end( ) - 1 );
		rndsrc::script = nullptr;
		MC_CHECK( v.front( ) == -1 and v.back( ) == static_cast<int>( n ), "shuffle_touched_outside", "shuffling %zu elements changed an element outside the range", n );
		MC_CHECK( is_perm( v.begin( ) + 1, v.end( ) - 1, n ), "shuffle_not_a_permutation", "shuffling %zu elements lost or duplicated one", n );
		if( rndsrc::consulted != before ) {
			long double lf = 0;
			for( std::size_t i = 2; i <= n; ++i ) {
				lf += std::log( static_cast<long double>( i ) );
			}
			MC_CHECK( s.log_weight <= -lf + 0.001L, "shuffle_not_uniform", "shuffling %zu elements: one sequence of answers has the weight exp(%Lf), a permutation exp(%Lf)", n, s.log_weight, -lf );
		}
	}
	// all answers: every permutation is reached, each with the same weight
	MC_TEST( shuffle_reaches_all ) {
		std::size_t const n = mc::choose( static_cast<unsigned>( mc::by_tier( 7, 8 ) ) );
		mc::NoTrack nt;
		std::map<std::vector<int>, long double> seen;
		rndsrc::Odo o;
		rndsrc::odo = &o;
		auto const before = rndsrc::consulted;
		do {
			std::vector<int> v( n );
			for( std::size_t i = 0; i != n; ++i ) {
				v[i] = static_cast<int>( i );
			}
			daw::shuffle( v.begin( ), v.end( ) );
			seen[v] += o.weight;
			mc::step( );
		} while( o.advance( ) );
		rndsrc::odo = nullptr;
		if( n > 1 and rndsrc::consulted == before ) {
			return; // some other source: nothing to say
		}
		std::size_t f = 1;
		for( std::size_t i = 2; i <= n; ++i ) {
			f *= i;
		}
		MC_CHECK( seen.size( ) == f, "shuffle_permutations_unreachable", "shuffling %zu elements can produce %zu of %zu permutations", n, seen.size( ), f );
		for( auto const &[p, w] : seen ) {
			MC_CHECK( w * f > 0.999L and w * f < 1.001L, "shuffle_not_uniform", "shuffling %zu elements: one permutation has weight %Lf of 1/%zu", n, w * f, f );
		}
	}

	// ---- fills ---------------------------------------------------------------
	MC_TEST( random_fill_exact ) {
		int const n = static_cast<int>( mc::choose( 5 ) );
		int const a = mc::choose_range( -2, 2 );
		int const b = mc::choose_range( -2, 2 );
		unsigned const kind = mc::choose( 3 );
		auto run = [&]( auto &c, auto first, auto last ) {
			bool threw = false;
			try {
				daw::random_fill( first, last, a, b );
			} catch( std::exception const & ) {
				threw = true;
			}
			MC_CHECK( threw == ( a > b ), a > b ? "random_fill_empty_range_accepted" : "random_fill_valid_range_rejected", "random_fill of %d values in [%d,%d]", n, a, b );
			int i = 0;
			for( int x : c ) {
				if( i == 0 or i == n + 1 or a > b ) {
					MC_CHECK( x == 77, "random_fill_touched_outside", "random_fill of %d values in [%d,%d] wrote element %d", n, a, b, i );
				} else {
					MC_CHECK( a <= x and x <= b, "random_fill_out_of_bounds", "random_fill of %d values in [%d,%d] left %d", n, a, b, x );
				}
				++i;
			}
		};
		std::size_t const m = static_cast<std::size_t>( n ) + 2;
		if( kind == 0 ) {
			std::vector<int> v( m, 77 );
			run( v, v.begin( ) + 1, v.begin( ) + 1 + n );
		} else if( kind == 1 ) {
			std::list<int> v( m, 77 );
			run( v, std::next( v.begin( ) ), std::next( v.begin( ), n + 1 ) );
		} else {
			std::forward_list<int> v( m, 77 );
			run( v, std::next( v.begin( ) ), std::next( v.begin( ), n + 1 ) );
		}
	}
	template<typename I, typename R>
	void make_data( ) {
		std::size_t const n = mc::choose( 5 );
		int const a = mc::choose_range( 0, 2 );
		int const b = a + static_cast<int>( mc::choose( 3 ) );
		auto const r = daw::make_random_data<I, R>( n, static_cast<I>( a ), static_cast<I>( b ) );
		MC_CHECK( r.size( ) == n, "make_random_data_count", "make_random_data of %zu produced %zu values", n, static_cast<std::size_t>( r.size( ) ) );
		for( auto x : r ) {
			MC_CHECK( a <= static_cast<int>( x ) and static_cast<int>( x ) <= b, "make_random_data_out_of_bounds", "make_random_data in [%d,%d] holds %d", a, b,
			          static_cast<int>( x ) );
		}
	}
	MC_TEST( make_random_data_exact ) {
		switch( mc::choose( 4 ) ) {
		case 0:
			return make_data<int, std::vector<int>>( );
		case 1:
			return make_data<short, std::deque<long>>( );
		case 2:
			return make_data<int, std::string>( );
		default:
			return make_data<unsigned, std::list<double>>( );
		}
	}
	MC_TEST( make_random_data_rejects ) {
		int const a = mc::choose_range( -2, 2 );
		int const b = mc::choose_range( -2, 2 );
		if( a <= b ) {
			return;
		}
		std::size_t const n = mc::choose( 3 );
		bool threw = false;
		bool const aborted = mc::aborts( [&] {
			try {
				(void)daw::make_random_data<int>( n, a, b );
			} catch( ... ) {
				threw = true;
				std::abort( );
			}
		} );
		MC_CHECK( aborted or threw, "make_random_data_empty_range_accepted", "make_random_data( %zu, %d, %d ) returned", n, a, b );
	}
	MC_TEST( make_random_data_default_range ) {
		auto const r = daw::make_random_data<signed char>( 3 );
		MC_CHECK( r.size( ) == 3, "make_random_data_count", "make_random_data of 3 produced %zu values", r.size( ) );
	}

	// ---- RandomInteger --------------------------------------------------------
	template<typename I>
	void random_integer( ) {
		static std::vector<I> const &vals = *[] {
			mc::NoTrack nt;
			return new std::vector<I>( corner<I>( ) );
		}( );
		I const lo = mc::pick( vals );
		I const hi = mc::pick( vals );
		daw::RandomInteger<I> g( 5 );
		bool threw = false;
		I r{ };
		try {
			r = g( hi, lo );
		} catch( std::exception const & ) {
			threw = true;
		}
		if( lo > hi ) {
			MC_CHECK( threw, "random_integer_empty_range_accepted", "RandomInteger accepted max %s, min %s", std::to_string( hi ).c_str( ), std::to_string( lo ).c_str( ) );
		} else if( lo < hi ) {
			MC_CHECK( not threw, "random_integer_valid_range_rejected", "RandomInteger rejected max %s, min %s", std::to_string( hi ).c_str( ), std::to_string( lo ).c_str( ) );
		}
		if( not threw ) {
			MC_CHECK( lo <= r and r <= hi, "random_integer_out_of_bounds", "RandomInteger( %s, %s ) returned %s", std::to_string( hi ).c_str( ), std::to_string( lo ).c_str( ),
			          std::to_string( r ).c_str( ) );
		}
	}
	MC_TEST( random_integer_bounds ) {
		switch( mc::choose( 5 ) ) {
		case 0:
			return random_integer<int>( );
		case 1:
			return random_integer<unsigned>( );
		case 2:
			return random_integer<short>( );
		case 3:
			return random_integer<std::int64_t>( );
		default:
			return random_integer<std::uint64_t>( );
		}
	}
} // namespace
