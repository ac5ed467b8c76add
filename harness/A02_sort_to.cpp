// MC-FLAGS: -O0
// A02: the copying sorts.
#include "A02.inc"

namespace {
	template<typename T>
	void copying( std::vector<T> const &src, bool rev, char const *name ) {
		std::vector<T> out( src.size( ) );
		what = "sort_to";
		auto const cmp = [rev]( T a, T c ) { return rev ? c < a : a < c; };
		auto const end = daw::sort_to( cb<Fwd>( src ), ce<Fwd>( src ), b<Ra>( out ), cmp );
		MC_CHECK( end.pos == static_cast<std::ptrdiff_t>( src.size( ) ), "wrong_end", "sort_to of %s %s", name, show( std::vector<int>( src.begin( ), src.end( ) ) ).c_str( ) );
		auto want = src;
		std::sort( want.begin( ), want.end( ), cmp );
		MC_CHECK( out == want, "sort_to", "sort_to%s of %s %s gave %s", rev ? " (reversed)" : "", name, show( std::vector<int>( src.begin( ), src.end( ) ) ).c_str( ),
		          show( std::vector<int>( out.begin( ), out.end( ) ) ).c_str( ) );
		mc::count_case( );
	}
	MC_TEST( sort_to_items ) {
		auto const n = mc::choose( 7 );
		bool const rev = mc::choose( 2 ) != 0;
		words( n, 3, [&]( auto const &w ) {
			sorted<Item>( "sort_to", w, rev, []( auto &v, Cmp c ) {
				auto const src = v;
				auto const end = daw::sort_to( src.begin( ), src.end( ), b<Ra>( v ), c );
				MC_CHECK( end.pos == static_cast<std::ptrdiff_t>( src.size( ) ), "wrong_end", "sort_to" );
			} );
		} );
	}
	MC_TEST( sort_to_integers ) {
		auto const n = mc::choose( 6 );
		words( n, 4, []( auto const &w ) {
			static constexpr int small[] = { 0, 9, 10, 37 };
			std::vector<unsigned char> u;
			std::vector<int> s;
			for( auto x : w ) {
				u.push_back( static_cast<unsigned char>( small[x] ) );
				s.push_back( small[x] * 3 + 1 );
			}
			copying( u, false, "unsigned char" );
			copying( s, false, "int" );
		} );
	}
	MC_TEST( sort_to_descending ) {
		auto const n = mc::choose( 6 );
		words( n, 4, []( auto const &w ) {
			static constexpr int small[] = { 0, 9, 10, 37 };
			std::vector<int> s;
			for( auto x : w ) {
				s.push_back( small[x] );
			}
			copying( s, true, "int" );
		} );
	}
	MC_TEST( sort_to_negative ) {
		auto const n = mc::choose( 6 );
		bool const rev = mc::choose( 2 ) != 0;
		words( n, 4, [&]( auto const &w ) {
			static constexpr signed char small[] = { 3, -1, -10, -128 };
			std::vector<signed char> s;
			for( auto x : w ) {
				s.push_back( small[x] );
			}
			copying( s, rev, "signed char" );
		} );
	}
} // namespace
