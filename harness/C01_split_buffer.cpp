// Property C01: split_buffer of trivial values as a double ended sequence.
#include "mc.h"
#include <daw/vector.h>

#include <daw/split_buffer.h>
#include <deque>

namespace {
	using SB = daw::split_buffer<int>;

	void check( SB const &b, std::deque<int> const &m, char const *what ) {
		MC_CHECK( b.invariants( ), "invariants", "after %s: the pointers are out of order", what );
		MC_CHECK( b.size( ) == m.size( ) and b.empty( ) == m.empty( ), "size", "after %s: size %zu, expected %zu", what, b.size( ), m.size( ) );
		MC_CHECK( b.capacity( ) == b.front_spare( ) + b.size( ) + b.back_spare( ), "capacity", "after %s: capacity %zu is not %zu+%zu+%zu", what, b.capacity( ), b.front_spare( ), b.size( ), b.back_spare( ) );
		MC_CHECK( std::equal( b.begin( ), b.end( ), m.begin( ), m.end( ) ), "values", "after %s: other values", what );
		if( not m.empty( ) ) {
			MC_CHECK( b.front( ) == m.front( ) and b.back( ) == m.back( ), "ends", "after %s: front or back", what );
		}
	}
	void histories( int depth ) {
		std::allocator<int> al;
		// a deque allocates: its storage is not of interest
		auto const nt = [] { return mc::NoTrack( ); };
		std::deque<int> m, n;
		{
			SB b;
			SB o;
			switch( mc::choose( 3 ) ) {
			case 0: break;
			case 1: {
				SB t( 3, static_cast<std::size_t>( mc::choose_range( 0, 3 ) ), al );
				b.swap( t );
			} break;
			default: {
				SB t( 2, 1, al );
				o.swap( t );
			}
			}
			int next = 0;
			auto const one = [&]( ) -> bool {
				mc::step( );
				int const v = ++next;
				char const *what = "";
				bool const trk = true;
				(void)trk;
				switch( mc::choose( 14 ) ) {
				case 0: what = "push_back"; b.push_back( int( v ) ); { auto k = nt( ); m.push_back( v ); } break;
				case 1: what = "push_front"; b.push_front( int( v ) ); { auto k = nt( ); m.push_front( v ); } break;
				case 2: what = "emplace_back"; b.emplace_back( v ); { auto k = nt( ); m.push_back( v ); } break;
				case 3: { what = "push_back lvalue"; int const w = v; b.push_back( w ); auto k = nt( ); m.push_back( v ); } break;
				case 4: { what = "push_front lvalue"; int const w = v; b.push_front( w ); auto k = nt( ); m.push_front( v ); } break;
				case 5:
					if( m.empty( ) ) return false;
					what = "pop_back"; b.pop_back( ); m.pop_back( );
					break;
				case 6:
					if( m.empty( ) ) return false;
					what = "pop_front"; b.pop_front( ); m.pop_front( );
					break;
				case 7: {
					what = "reserve";
					auto const want = b.capacity( ) + static_cast<std::size_t>( mc::choose_range( 0, 2 ) );
					auto const before = b.capacity( );
					b.reserve( want );
					MC_CHECK( b.capacity( ) >= want and b.capacity( ) >= before, "reserve", "reserve( %zu ) leaves capacity %zu", want, b.capacity( ) );
				} break;
				case 8:
					what = "reserve less";
					b.reserve( mc::choose( 2 ) ? 0 : b.size( ) );
					break;
				case 9:
					what = "shrink_to_fit";
					b.shrink_to_fit( );
					MC_CHECK( b.capacity( ) == b.size( ), "shrink", "shrink_to_fit leaves capacity %zu for %zu values", b.capacity( ), b.size( ) );
					break;
				case 10: what = "clear"; b.clear( ); m.clear( ); break;
				case 11: what = "swap"; b.swap( o ); m.swap( n ); break;
				case 12: {
					what = "move assignment";
					b = std::move( o );
					{ auto k = nt( ); m = n; }
					n.clear( );
					check( o, n, "being moved from" );
				} break;
				default: {
					what = "move construction";
					SB t( std::move( b ) );
					check( t, m, what );
					check( b, { }, "being moved from" );
					if( mc::choose( 2 ) ) {
						SB u( std::move( t ), al );
						check( u, m, "move construction with an allocator" );
						b.swap( u );
					} else {
						b.swap( t );
					}
				}
				}
				mc::note( "%s -> size %zu of %zu, %zu in front", what, b.size( ), b.capacity( ), b.front_spare( ) );
				check( b, m, what );
				check( o, n, what );
				return true;
			};
			if( depth == 0 ) { // every word of three operations, repeated
				mc::lasso( 3, 40, one, [] {} );
				return;
			}
			for( int step = 0; step != depth; ++step ) {
				std::uint64_t h = mc::mix( b.size( ) * 64 + b.front_spare( ), b.back_spare( ) * 64 + o.size( ) );
				h = mc::mix( h, o.front_spare( ) * 64 + o.back_spare( ) );
				h = mc::mix( h, ( b.first_ != nullptr ) * 2 + ( o.first_ != nullptr ) );
				if( not mc::enter_state( h, static_cast<unsigned>( depth - step ) ) ) {
					break;
				}
				if( not one( ) ) return;
			}
		}
	}
} // namespace

MC_TEST( split_buffer ) { histories( mc::by_tier( 7, 14 ) ); }
MC_TEST( split_buffer_long ) { histories( 0 ); }
