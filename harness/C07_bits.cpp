// Bit containers against an ideal sequence of bits: every reachable state of the
// narrow containers x every operation, and every history of boundary operations
// for the widths around the word size.
#include "mc.h"
#include <algorithm>
#include <bitset>
#include <cstdint>
#include <string>
#include <vector>

#include <daw/daw_bit_queues.h>
#include <daw/daw_bit_stream.h>
#include <daw/daw_bitset.h>
#include <daw/daw_bitset_helper.h>
#include <daw/daw_static_bitset.h>

namespace {
	using Bits = std::vector<bool>; // [0] is the most significant end

	std::uint64_t number( Bits const &b, std::size_t f, std::size_t n ) {
		std::uint64_t r = 0;
		for( std::size_t i = 0; i < n; ++i ) r = ( r << 1U ) | ( b[f + i] ? 1U : 0U );
		return r;
	}

	template<typename Q, typename V>
	struct Pair {
		daw::basic_bit_queue<Q, V> q{ };
		Bits m;
		static constexpr std::size_t cap = sizeof( Q ) * 8;

		void verify( ) const {
			MC_CHECK( q.size( ) == m.size( ), "queue-size", "size %zu, expected %zu", q.size( ), m.size( ) );
			MC_CHECK( q.empty( ) == m.empty( ), "queue-empty", "empty is %d with %zu bits", q.empty( ), m.size( ) );
			MC_CHECK( q.full( ) == ( m.size( ) == cap ), "queue-full", "full is %d with %zu bits", q.full( ), m.size( ) );
			MC_CHECK( q.value( ) == Q( number( m, 0, m.size( ) ) ), "queue-value", "value %llx, expected %llx", (unsigned long long)q.value( ), (unsigned long long)number( m, 0, m.size( ) ) );
			for( std::size_t n = 0; n <= cap + 1; ++n ) MC_CHECK( q.can_pop( n ) == ( n <= m.size( ) ), "queue-can-pop", "can_pop(%zu) with %zu bits", n, m.size( ) );
		}
		void push( V v, std::size_t n ) {
			q.push_back( v, n );
			for( std::size_t i = n; i > 0; --i ) m.push_back( ( v >> ( i - 1 ) ) & 1U );
		}
		void front( std::size_t n ) {
			auto r = q.pop_front( n );
			auto e = V( number( m, m.size( ) - n, n ) );
			MC_CHECK( r == e, "queue-pop-front", "pop_front(%zu) of %zu bits gave %llx, expected %llx", n, m.size( ), (unsigned long long)r, (unsigned long long)e );
			m.resize( m.size( ) - n );
		}
		void back( std::size_t n ) {
			auto r = q.pop_back( n );
			auto e = V( number( m, 0, n ) );
			MC_CHECK( r == e, "queue-pop-back", "pop_back(%zu) of %zu bits gave %llx, expected %llx", n, m.size( ), (unsigned long long)r, (unsigned long long)e );
			m.erase( m.begin( ), m.begin( ) + long( n ) );
		}
	};

	// a queue holding the low `size` bits of v
	template<typename Q, typename V>
	Pair<Q, V> make( std::uint64_t v, std::size_t size ) {
		Pair<Q, V> p;
		constexpr std::size_t vb = sizeof( V ) * 8;
		for( std::size_t left = size; left > 0; ) {
			std::size_t const n = std::min( left, vb );
			left -= n;
			p.push( V( v >> left ), n );
		}
		return p;
	}

	template<typename Q, typename V>
	void all_ops( std::uint64_t v, std::size_t size, bool all_values ) {
		constexpr std::size_t cap = sizeof( Q ) * 8, vb = sizeof( V ) * 8;
		auto const s = make<Q, V>( v, size );
		s.verify( );
		std::uint64_t n_cases = 0;
		for( std::size_t n = 0; n <= std::min( size, vb ); ++n ) {
			auto a = s, b = s;
			a.front( n );
			a.verify( );
			b.back( n );
			b.verify( );
			n_cases += 2;
		}
		for( std::size_t n = 0; n <= std::min( cap - size, vb ); ++n ) {
			auto one = [&]( V x ) {
				auto a = s;
				a.push( x, n );
				a.verify( );
				++n_cases;
			};
			if( all_values ) for( unsigned x = 0; x < 256; ++x ) one( V( x ) );
			else for( std::uint64_t x : { std::uint64_t( 0 ), std::uint64_t( 1 ), ~std::uint64_t( 0 ), std::uint64_t( 0xA5A5A5A5A5A5A5A5 ), std::uint64_t( 0x8000000080008081 ) } ) one( V( x ) );
		}
		for( std::size_t n = std::min( cap - size, vb ) + 1; n <= vb and size == cap; ++n ) {
			auto a = s;
			bool threw = false;
			try { a.q.push_back( V( 1 ), n ); } catch( std::exception const & ) { threw = true; }
			MC_CHECK( threw, "queue-overflow", "pushing %zu bits into a full queue is accepted", n );
			a.verify( );
		}
		{
			auto a = s;
			auto r = a.q.pop_all( );
			MC_CHECK( r == V( v & ( size >= 64 ? ~0ULL : ( 1ULL << size ) - 1 ) ), "queue-pop-all", "pop_all gave %llx", (unsigned long long)r );
			a.m.clear( );
			a.verify( );
		}
		mc::count_case( n_cases );
		mc::step( n_cases );
	}
} // namespace

MC_TEST( queue8_every_state ) {
	std::size_t const size = mc::choose( 9 );
	for( std::uint64_t v = 0; v < ( 1ULL << size ); ++v ) { mc::state( mc::mix( size, v ) ); all_ops<std::uint8_t, std::uint8_t>( v, size, true ); }
}
MC_TEST( queue16_every_state ) {
	std::size_t const size = mc::choose( 17 );
	if( size > 12 and not mc::tier( ) ) {
		for( std::uint64_t hi = 0; hi < 256; ++hi ) for( std::uint64_t lo : { 0x00U, 0x01U, 0x80U, 0xFFU, 0x5AU } ) all_ops<std::uint16_t, std::uint8_t>( ( hi << ( size - 8 ) ) | lo, size, false );
		return;
	}
	for( std::uint64_t v = 0; v < ( 1ULL << size ); ++v ) { mc::state( mc::mix( size + 100, v ) ); all_ops<std::uint16_t, std::uint8_t>( v, size, false ); }
}
namespace {
	template<typename Q, typename V>
	void wide( ) {
		std::size_t const size = mc::choose( sizeof( Q ) * 8 + 1 );
		std::uint64_t const M = size >= 64 ? ~0ULL : ( 1ULL << size ) - 1;
		for( std::size_t b = 0; b <= size; ++b ) { // walking one / zero / low mask
			std::uint64_t const w = b < 64 ? 1ULL << b : 0ULL;
			for( std::uint64_t v : { w & M, ~w & M, ( w - 1 ) & M, std::uint64_t(0xA5A55A5AC3C39696ULL ^ w ) & M } ) all_ops<Q, V>( v, size, false );
		}
	}
	template<typename Q, typename V>
	void history( int depth ) {
		constexpr std::size_t cap = sizeof( Q ) * 8, vb = sizeof( V ) * 8;
		Pair<Q, V> p;
		for( int d = 0; d <= depth; ++d ) {
			p.verify( );
			if( not mc::enter_state( mc::mix( p.q.size( ), p.q.value( ) ), unsigned( depth - d ) ) ) return;
			if( d == depth ) return;
			std::vector<std::size_t> ns{ 0, 1, 3, vb - 1, vb };
			auto n = mc::pick( ns );
			mc::step( );
			switch( mc::choose( 5 ) ) {
			case 0: if( p.m.size( ) + n > cap ) return; p.push( V( 0xA5A5A5A5A5A5A5A5ULL ), n ); break;
			case 1: if( p.m.size( ) + n > cap ) return; p.push( V( ~0ULL ), n ); break;
			case 2: if( n > p.m.size( ) ) return; p.front( n ); break;
			case 3: if( n > p.m.size( ) ) return; p.back( n ); break;
			case 4: if( n != 0 ) return; p.q.clear( ); p.m.clear( ); break;
			}
		}
	}
} // namespace
MC_TEST( queue16_16 ) { wide<std::uint16_t, std::uint16_t>( ); }
MC_TEST( queue32_8 ) { wide<std::uint32_t, std::uint8_t>( ); }
MC_TEST( queue32_32 ) { wide<std::uint32_t, std::uint32_t>( ); }
MC_TEST( queue64_8 ) { wide<std::uint64_t, std::uint8_t>( ); }
MC_TEST( queue64_64 ) { wide<std::uint64_t, std::uint64_t>( ); }
MC_TEST( queue_hist_16_8 ) { history<std::uint16_t, std::uint8_t>( mc::by_tier( 5, 8 ) ); }
MC_TEST( queue_hist_32_32 ) { history<std::uint32_t, std::uint32_t>( mc::by_tier( 5, 8 ) ); }
MC_TEST( queue_hist_64_16 ) { history<std::uint64_t, std::uint16_t>( mc::by_tier( 5, 8 ) ); }

MC_TEST( nibbles ) {
	// a nibble queue against a list of nibbles, all histories to a depth
	daw::basic_nibble_queue<std::uint32_t, std::uint8_t> q;
	std::vector<unsigned> m;
	int const depth = mc::by_tier( 6, 9 );
	for( int d = 0; d <= depth; ++d ) {
		MC_CHECK( q.size( ) == m.size( ), "nibble-size", "size %zu, expected %zu", q.size( ), m.size( ) );
		MC_CHECK( q.empty( ) == m.empty( ) and q.full( ) == ( m.size( ) == 8 ) and q.capacity( ) == 8, "nibble-state", "empty %d full %d with %zu", q.empty( ), q.full( ), m.size( ) );
		std::uint32_t v = 0;
		for( auto x : m ) v = ( v << 4U ) | x;
		MC_CHECK( q.value( ) == v, "nibble-value", "value %x, expected %x", q.value( ), v );
		for( std::size_t n = 0; n < 10; ++n ) MC_CHECK( q.can_pop( n ) == ( n <= m.size( ) ), "nibble-can-pop", "can_pop(%zu) with %zu", n, m.size( ) );
		if( d == depth or not mc::enter_state( mc::mix( q.size( ), q.value( ) ), unsigned( depth - d ) ) ) return;
		mc::step( );
		switch( mc::choose( 7 ) ) {
		case 0: if( m.size( ) == 8 ) return; q.push_back( 0xC5 ); m.push_back( 5 ); break;
		case 1: if( m.size( ) == 8 ) return; q.push_back( 0xFA, 1 ); m.push_back( 10 ); break;
		case 2: if( m.size( ) > 6 ) return; q.push_back( 0x9E, 2 ); m.push_back( 9 ); m.push_back( 14 ); break;
		case 3: {
			if( m.empty( ) ) return;
			auto r = q.pop_front( 1 );
			MC_CHECK( r == m.back( ), "nibble-pop", "popped %x, expected %x", r, m.back( ) );
			m.pop_back( );
			break;
		}
		case 4: {
			if( m.size( ) < 2 ) return;
			auto r = q.pop_front( );
			MC_CHECK( r == m[m.size( ) - 2] * 16 + m.back( ), "nibble-pop", "popped %x", r );
			m.resize( m.size( ) - 2 );
			break;
		}
		case 5: q.clear( ); m.clear( ); break;
		case 6: { auto r = q.pop_all( ); MC_CHECK( r == std::uint8_t( v ), "nibble-pop-all", "popped %x", r ); m.clear( ); break; }
		}
	}
}

MC_TEST( stream ) {
	// every way of cutting a byte string into reads of 1..8 bits
	static std::uint8_t const data[]{ 0xA5, 0x01, 0xFE, 0x3C }; // fixed address: the stream's bytes are its state
	Bits all;
	for( auto b : data ) for( int i = 7; i >= 0; --i ) all.push_back( ( b >> i ) & 1 );
	auto s = daw::make_bit_stream( data + 0, data + 4 );
	std::size_t pos = 0;
	auto const past = [&]( char const *what, std::size_t n, auto &&f ) { // more bits than there are
		bool thrown = false;
		try {
			f( );
		} catch( std::exception const & ) { thrown = true; }
		MC_CHECK( thrown, "stream-past", "%s(%zu) at %zu of %zu bits is not reported", what, n, pos, all.size( ) );
	};
	std::size_t const depth = std::size_t( mc::by_tier( 5, 7 ) );
	for( std::size_t d = 0; d < depth; ++d ) {
		if( not mc::enter_state( mc::hash_bytes( pos, &s, sizeof s ), unsigned( depth - d ) ) ) return;
		mc::step( );
		unsigned const op = mc::choose( 15 );
		if( op < 8 ) {
			std::size_t const n = op + 1;
			if( pos + n > all.size( ) ) return past( "pop_bits", n, [&] { (void)s.pop_bits( n ); } );
			auto r = s.pop_bits( n );
			MC_CHECK( r == number( all, pos, n ), "stream-pop", "pop_bits(%zu) at %zu gave %x, expected %llx", n, pos, r, (unsigned long long)number( all, pos, n ) );
			pos += n;
		} else if( op == 8 ) {
			std::size_t const n = mc::choose( 17 );
			if( pos + n > all.size( ) ) return past( "skip_bits", n, [&] { daw::skip_bits( s, n ); } );
			daw::skip_bits( s, n );
			pos += n;
		} else if( op == 9 ) {
			std::size_t const n = 1 + mc::choose( 16 );
			if( pos + n > all.size( ) ) return past( "pop_value", n, [&] { (void)daw::pop_value<std::uint16_t>( s, n ); } );
			auto r = daw::pop_value<std::uint16_t>( s, n );
			MC_CHECK( r == number( all, pos, n ), "stream-pop-value", "pop_value(%zu) at %zu gave %x, expected %llx", n, pos, r, (unsigned long long)number( all, pos, n ) );
			pos += n;
		} else if( op == 10 ) {
			if( pos + 16 > all.size( ) ) return;
			auto r = daw::pop_value<std::uint16_t>( s );
			MC_CHECK( r == number( all, pos, 16 ), "stream-pop-value", "pop_value at %zu gave %x", pos, r );
			pos += 16;
		} else if( op == 11 ) {
			constexpr std::size_t counts[] = { 0, 1, 2, 5, std::size_t( 1 ) << 61, ( std::size_t( 1 ) << 61 ) + 1, static_cast<std::size_t>( -1 ) };
			std::size_t const n = counts[mc::choose( 7 )];
			if( n > 4 or pos + 8 * n > all.size( ) ) return past( "skip_bytes", n, [&] { daw::skip_bytes( s, n ); } );
			daw::skip_bytes( s, n );
			pos += 8 * n;
		} else if( op == 12 or op == 13 ) {
			// values of n bits up to the one looked for are passed over; without one there, that is reported
			std::size_t const n = op == 13 ? 8 : 1 + mc::choose( 16 );
			unsigned const place = mc::choose( 5 ); // the value that is there after so many others
			bool const there = place != 4;
			unsigned long long wanted = number( all, 2, n ) ^ 1U;
			if( there ) {
				if( pos + n * ( place + 1 ) > all.size( ) ) return;
				wanted = number( all, pos + n * place, n );
			}
			std::size_t at = pos;
			bool found = false;
			while( not found and at + n <= all.size( ) ) {
				found = number( all, at, n ) == wanted;
				at += n;
			}
			bool thrown = false;
			try {
				if( op == 13 ) {
					daw::skip_until( s, std::uint8_t( wanted ) );
				} else {
					daw::skip_until( s, std::uint16_t( wanted ), n );
				}
			} catch( std::exception const & ) { thrown = true; }
			MC_CHECK( thrown != found, "stream-skip-until", "skip_until( %llx ) by %zu bits from bit %zu %s", wanted, n, pos, thrown ? "does not find it" : "finds what is not there" );
			if( thrown ) return;
			pos = at;
		} else {
			s.clear_left_overs( );
			pos = ( pos + 7 ) / 8 * 8;
		}
		if( pos % 8 == 0 ) MC_CHECK( s.valid( ) == ( pos < all.size( ) ) and bool( s ) == s.valid( ), "stream-valid", "valid is %d at bit %zu of %zu", s.valid( ), pos, all.size( ) );
	}
}

namespace {
	template<std::size_t N>
	void plain_bitset( int depth ) {
		static_assert( daw::bitset<N>::size( ) == N );
		daw::bitset<N> b;
		std::vector<bool> m( N );
		std::vector<std::size_t> idx;
		for( std::size_t i : { std::size_t( 0 ), std::size_t( 1 ), std::size_t( 31 ), std::size_t( 32 ), std::size_t( 33 ), std::size_t( 63 ), std::size_t( 64 ), N - 2, N - 1 } )
			if( i < N and std::find( idx.begin( ), idx.end( ), i ) == idx.end( ) ) idx.push_back( i );
		for( int d = 0; d <= depth; ++d ) {
			for( std::size_t i = 0; i < N; ++i ) MC_CHECK( std::as_const( b ).test( i ) == m[i], "bitset-test", "test(%zu) is %d", i, b.test( i ) );
			if( d == depth or not mc::enter_state( mc::hash_bytes( N, &b, sizeof b ), unsigned( depth - d ) ) ) return;
			auto i = mc::pick( idx );
			mc::step( );
			switch( mc::choose( 4 ) ) {
			case 0: b.set( i ); m[i] = true; break;
			case 1: b.unset( i ); m[i] = false; break;
			case 2: b.set( i, true ); m[i] = true; break;
			case 3: b.set( i, false ); m[i] = false; break;
			}
		}
	}
	template<std::size_t N>
	void bitset_every( ) { // every set/unset of every position on empty and on full sets
		for( std::size_t i = 0; i < N; ++i )
			for( int full = 0; full < 2; ++full ) for( int op = 0; op < 4; ++op ) {
				daw::bitset<N> b;
				if( full ) for( std::size_t j = 0; j < N; ++j ) b.set( j );
				bool want = false;
				switch( op ) {
				case 0: b.set( i ); want = true; break;
				case 1: b.unset( i ); break;
				case 2: b.set( i, true ); want = true; break;
				case 3: b.set( i, false ); break;
				}
				for( std::size_t j = 0; j < N; ++j ) MC_CHECK( b.test( j ) == ( j == i ? want : full == 1 ), "bitset-neighbour", "bit %zu is %d after changing bit %zu (op %d, full %d)", j, b.test( j ), i, op, full );
				mc::count_case( );
			}
	}
} // namespace
MC_TEST( bitset_history ) {
	int const d = mc::by_tier( 5, 9 );
	switch( mc::choose( 6 ) ) {
	case 0: plain_bitset<3>( d ); break;
	case 1: plain_bitset<31>( d ); break;
	case 2: plain_bitset<32>( d ); break;
	case 3: plain_bitset<33>( d ); break;
	case 4: plain_bitset<64>( d ); break;
	case 5: plain_bitset<65>( d ); break;
	}
}
MC_TEST( bitset_every_bit ) {
	bitset_every<3>( ), bitset_every<8>( ), bitset_every<31>( ), bitset_every<32>( ), bitset_every<33>( ), bitset_every<64>( ), bitset_every<65>( ), bitset_every<97>( );
}

MC_TEST( bitset_from_positions ) {
	unsigned const set = mc::choose( 256 );
	std::vector<int> v;
	std::vector<std::uint8_t> u;
	std::bitset<9> want;
	for( int i = 0; i < 8; ++i ) if( set & ( 1U << i ) ) { v.push_back( 8 - i ); u.push_back( std::uint8_t( 8 - i ) ); want.set( std::size_t( 8 - i ) ); }
	MC_REQUIRE( daw::create_bitset_from_set_positions<9>( v ) == want );
	MC_REQUIRE( daw::create_bitset_from_set_positions<9>( u ) == want );
	auto d = v;
	d.insert( d.end( ), v.begin( ), v.end( ) ); // positions may repeat
	MC_REQUIRE( daw::create_bitset_from_set_positions<9>( d ) == want );
	int const a = int( set ) % 9, b = int( set / 9 ) % 9;
	std::bitset<9> w2;
	w2.set( std::size_t( a ) ), w2.set( std::size_t( b ) );
	MC_REQUIRE( daw::create_bitset_from_set_positions<9>( a, b ) == w2 );
	MC_REQUIRE( daw::create_bitset_from_set_positions<9>( { a, b } ) == w2 );
	std::bitset<9> w1;
	w1.set( std::size_t( a ) );
	MC_REQUIRE( daw::create_bitset_from_set_positions<9>( a ) == w1 );
}

namespace {
	// ---- static_bitset: index 0 of the model is bit 0 --------------------------
	template<std::size_t W>
	void same( daw::static_bitset<W> const &b, std::vector<bool> const &m, char const *op ) {
		std::size_t ones = 0;
		for( std::size_t i = 0; i < W; ++i ) {
			ones += m[i];
			MC_CHECK( b.get_bit( i ) == m[i], op, "width %zu: bit %zu is %d", W, i, b.get_bit( i ) );
		}
		MC_CHECK( b.one_count( ) == ones, op, "width %zu: one_count %zu, expected %zu", W, b.one_count( ), ones );
		MC_CHECK( b.zero_count( ) == W - ones, op, "width %zu: zero_count %zu, expected %zu", W, b.zero_count( ), W - ones );
		std::string s( W, '0' );
		for( std::size_t i = 0; i < W; ++i ) if( m[i] ) s[W - 1 - i] = '1';
		MC_CHECK( b.to_string( ) == s and to_string( b ) == s, op, "width %zu: to_string %s, expected %s", W, b.to_string( ).c_str( ), s.c_str( ) );
		auto const t = daw::static_bitset<W>( daw::string_view( s.data( ), s.size( ) ) );
		MC_CHECK( t == b and not( t != b ), op, "width %zu: differs from the set with the same bits", W );
		mc::count_case( );
	}
	template<std::size_t W>
	daw::static_bitset<W> from( std::vector<bool> const &m ) {
		daw::static_bitset<W> r;
		for( std::size_t i = 0; i < W; ++i ) if( m[i] ) r.set_bit( i );
		return r;
	}
	template<std::size_t W>
	std::vector<std::vector<bool>> patterns( ) {
		std::vector<std::vector<bool>> r;
		std::vector<bool> z( W );
		r.push_back( z );
		r.push_back( std::vector<bool>( W, true ) );
		auto alt = z, third = z;
		for( std::size_t i = 0; i < W; ++i ) alt[i] = i % 2, third[i] = i % 3 == 0;
		r.push_back( alt );
		r.push_back( third );
		for( std::size_t i : { std::size_t( 0 ), std::size_t( 31 ), std::size_t( 63 ), std::size_t( 64 ), std::size_t( 127 ), std::size_t( 128 ), W - 1 } )
			if( i < W ) {
				auto o = z;
				o[i] = true;
				r.push_back( o );
				o.flip( );
				r.push_back( o );
			}
		return r;
	}
	template<std::size_t W>
	void unary( ) {
		auto const ps = patterns<W>( );
		auto const &m = ps[mc::choose( unsigned( ps.size( ) ) )];
		auto const b = from<W>( m );
		same( b, m, "set_bit" );
		for( std::size_t i = 0; i < W; ++i ) {
			auto c = b;
			auto n = m;
			c.set_bit( i ), n[i] = true;
			same( c, n, "set_bit" );
			c.clear_bit( i ), n[i] = false;
			same( c, n, "clear_bit" );
		}
		constexpr auto most = static_cast<std::size_t>( -1 );
		constexpr std::size_t far[] = { std::size_t( 1 ) << 32, most / 2, most / 2 + 1, most / 64 * 64, most - 63, most - W, most - 1, most };
		for( std::size_t at = 0; at <= W + 1 + std::size( far ); ++at ) {
			std::size_t const k = at <= W + 1 ? at : far[at - W - 2];
			auto l = b, r = b;
			std::vector<bool> ml( W ), mr( W );
			for( std::size_t i = 0; i < W; ++i ) {
				if( i >= k ) ml[i] = m[i - k];
				if( k < W - i ) mr[i] = m[i + k];
			}
			auto &rl = l <<= k;
			auto &rr = r >>= k;
			MC_CHECK( &rl == &l and &rr == &r, "shift-ref", "shift assignment returns another object" );
			same( l, ml, "shift-left" );
			same( r, mr, "shift-right" );
		}
		auto inv = m;
		inv.flip( );
		same( ~b, inv, "invert" );
		same( ~~b, m, "invert-twice" );
		auto c = b;
		c.clear( );
		same( c, std::vector<bool>( W ), "clear" );
		std::string hex;
		for( std::size_t i = 0; i < ( W + 63 ) / 64 * 64; i += 4 ) {
			unsigned v = 0;
			for( std::size_t j = 0; j < 4; ++j ) if( i + j < W and m[i + j] ) v |= 1U << j;
			hex.insert( hex.begin( ), "0123456789ABCDEF"[v] );
		}
		MC_CHECK( b.to_string( daw::fmt_hex ) == hex, "to-hex", "hex %s, expected %s", b.to_string( daw::fmt_hex ).c_str( ), hex.c_str( ) );
		// construction from words
		std::uint64_t w[3]{ };
		for( std::size_t i = 0; i < W and i < 192; ++i ) if( m[i] ) w[i / 64] |= 1ULL << ( i % 64 );
		constexpr std::size_t words = ( W + 63 ) / 64;
		std::uint64_t const junk = W % 64 ? ~0ULL << ( W % 64 ) : 0ULL; // beyond the width: must be dropped
		if constexpr( words == 1 ) same( daw::static_bitset<W>( w[0] | junk ), m, "words" );
		if constexpr( words == 2 ) same( daw::static_bitset<W>( w[0], w[1] | junk ), m, "words" );
		if constexpr( words == 3 ) same( daw::static_bitset<W>( w[0], w[1], w[2] | junk ), m, "words" );
	}
	template<std::size_t A, std::size_t B>
	void binary( ) {
		auto const pa = patterns<A>( );
		auto const pb = patterns<B>( );
		auto const &ma = pa[mc::choose( unsigned( pa.size( ) ) )];
		constexpr std::size_t M = std::max( A, B );
		auto const a = from<A>( ma );
		for( auto const &mb : pb ) {
			auto const b = from<B>( mb );
			std::vector<bool> o( M ), x( M ), n( A ), oa( A );
			bool eq = true;
			for( std::size_t i = 0; i < M; ++i ) {
				bool const va = i < A and ma[i], vb = i < B and mb[i];
				o[i] = va or vb;
				x[i] = va != vb;
				eq = eq and va == vb;
				if( i < A ) n[i] = va and vb, oa[i] = va or vb;
			}
			same( a | b, o, "or" );
			same( a ^ b, x, "xor" );
			same( a & b, n, "and" );
			auto c = a;
			MC_CHECK( &( c |= b ) == &c, "or-assign-ref", "|= returns another object" );
			same( c, oa, "or-assign" );
			c = a;
			MC_CHECK( &( c &= b ) == &c, "and-assign-ref", "&= returns another object" );
			same( c, n, "and-assign" );
			MC_CHECK( ( a == b ) == eq and ( a != b ) == not eq, "equal", "widths %zu and %zu: == is %d, expected %d", A, B, a == b, eq );
		}
		if constexpr( A < B ) {
			daw::static_bitset<B> w( a );
			auto mw = ma;
			mw.resize( B );
			same( w, mw, "widen" );
		}
	}
} // namespace
MC_TEST( static_bitset_unary ) {
	switch( mc::choose( 11 ) ) {
	case 0: unary<1>( ); break;
	case 1: unary<7>( ); break;
	case 2: unary<32>( ); break;
	case 3: unary<63>( ); break;
	case 4: unary<64>( ); break;
	case 5: unary<65>( ); break;
	case 6: unary<100>( ); break;
	case 7: unary<127>( ); break;
	case 8: unary<128>( ); break;
	case 9: unary<129>( ); break;
	case 10: unary<192>( ); break;
	}
}
MC_TEST( static_bitset_binary ) {
	switch( mc::choose( 10 ) ) {
	case 0: binary<1, 1>( ); break;
	case 1: binary<7, 64>( ); break;
	case 2: binary<64, 7>( ); break;
	case 3: binary<64, 64>( ); break;
	case 4: binary<64, 65>( ); break;
	case 5: binary<65, 64>( ); break;
	case 6: binary<65, 130>( ); break;
	case 7: binary<129, 65>( ); break;
	case 8: binary<128, 128>( ); break;
	case 9: binary<100, 70>( ); break;
	}
}
MC_TEST( static_bitset_strings ) {
	// every string of 0/1 up to a length, and a bad character at each place
	std::size_t const len = mc::choose( 11 );
	for( unsigned v = 0; v < ( 1U << len ); ++v ) {
		std::string s;
		for( std::size_t i = 0; i < len; ++i ) s.insert( s.begin( ), ( v >> i ) & 1U ? '1' : '0' );
		daw::static_bitset<10> b( daw::string_view( s.data( ), s.size( ) ) );
		std::vector<bool> m( 10 );
		for( std::size_t i = 0; i < len; ++i ) m[i] = ( v >> i ) & 1U;
		same( b, m, "from-string" );
	}
	for( std::size_t i = 0; i < len; ++i ) {
		std::string s( len, '1' );
		s[i] = '2';
		bool threw = false;
		try { daw::static_bitset<10> b( daw::string_view( s.data( ), s.size( ) ) ); } catch( std::invalid_argument const & ) { threw = true; }
		MC_CHECK( threw, "from-string-bad", "%s is accepted", s.c_str( ) );
	}
	bool threw = false;
	try { daw::static_bitset<10> b( daw::string_view( "00000000000" ) ); } catch( std::overflow_error const & ) { threw = true; }
	MC_CHECK( threw, "from-string-long", "11 digits fit in 10 bits" );
}
namespace {
	template<std::size_t W>
	void sb_history( int depth ) {
		daw::static_bitset<W> b;
		std::vector<bool> m( W );
		std::vector<std::size_t> ks{ 0, 1, 63, 64, 65, W - 1 };
		for( int d = 0; d <= depth; ++d ) {
			same( b, m, "history" );
			if( d == depth or not mc::enter_state( mc::hash_bytes( W, &b, sizeof b ), unsigned( depth - d ) ) ) return;
			auto const k = mc::pick( ks );
			if( k >= W ) return;
			mc::step( );
			switch( mc::choose( 5 ) ) {
			case 0: b.set_bit( k ); m[k] = true; break;
			case 1: b.clear_bit( k ); m[k] = false; break;
			case 2: {
				b <<= k;
				for( std::size_t i = W; i-- > 0; ) m[i] = i >= k ? bool( m[i - k] ) : false;
				break;
			}
			case 3: {
				b >>= k;
				for( std::size_t i = 0; i < W; ++i ) m[i] = i + k < W ? bool( m[i + k] ) : false;
				break;
			}
			case 4: b = ~b; m.flip( ); break;
			}
		}
	}
} // namespace
MC_TEST( static_bitset_history_65 ) { sb_history<65>( mc::by_tier( 4, 6 ) ); }
MC_TEST( static_bitset_history_130 ) { sb_history<130>( mc::by_tier( 4, 6 ) ); }
