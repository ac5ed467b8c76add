// A05: visiting variants calls the visitor with the held alternative, for every arity and index.
// MC-FLAGS: -O0
#include "mc.h"
#include "mc_tracked.h"

#include <daw/daw_variant_cast.h>
#include <daw/daw_visit.h>
#include <daw/daw_visit_as.h>

#include <cstdint>
#include <memory>
#include <string>
#include <variant>

namespace {
	using T = mc::Tracked<0>;
	template<std::size_t I>
	struct Alt {
		static constexpr std::size_t index = I;
		int v = 0;
	};
	template<typename>
	struct make_variant;
	template<std::size_t... Is>
	struct make_variant<std::index_sequence<Is...>> {
		using type = std::variant<Alt<Is>...>;
	};

	struct Which {
		void const *seen = nullptr;
		int calls = 0;
		int category = 0;
		template<std::size_t I>
		long operator( )( Alt<I> &a ) {
			return hit( a, 1 );
		}
		template<std::size_t I>
		long operator( )( Alt<I> const &a ) {
			return hit( a, 2 );
		}
		template<std::size_t I>
		long operator( )( Alt<I> &&a ) {
			return hit( a, 3 );
		}
		template<std::size_t I>
		long hit( Alt<I> const &a, int cat ) {
			seen = &a;
			++calls;
			category = cat;
			return static_cast<long>( I ) * 100 + a.v;
		}
	};

	template<std::size_t N>
	void arity( ) {
		using V = typename make_variant<std::make_index_sequence<N>>::type;
		for( std::size_t i = 0; i != N; ++i ) {
			V v{ };
			void const *at = nullptr;
			[&]<std::size_t... Is>( std::index_sequence<Is...> ) {
				(void)( ( Is == i ? ( at = &v.template emplace<Is>( 7 ), true ) : false ) or ... );
			}( std::make_index_sequence<N>{ } );
			auto const want = static_cast<long>( i ) * 100 + 7;
			auto const check = [&]( char const *what, long got, Which const &w, int category ) {
				MC_CHECK( got == want and w.calls == 1 and w.seen == at and w.category == category, what,
				          "variant of %zu holding alternative %zu: result %ld, %d calls, category %d", N, i, got, w.calls,
				          w.category );
			};
			// A callable given by reference is wrapped so the copy made of it does not matter
			{
				Which w;
				auto const f = [&w]( auto &&x ) -> long {
					return w( static_cast<decltype( x ) &&>( x ) );
				};
				check( "visit", daw::visit( v, f ), w, 1 );
				w = Which{ };
				check( "visit-const", daw::visit( std::as_const( v ), f ), w, 2 );
				w = Which{ };
				check( "visit-rvalue", daw::visit( std::move( v ), f ), w, 3 );
				w = Which{ };
				check( "visit_nt", daw::visit_nt( v, f ), w, 1 );
				w = Which{ };
				check( "visit-result", static_cast<long>( daw::visit<short>( v, f ) ), w, 1 );
				w = Which{ };
				check( "visit_nt-result", static_cast<long>( daw::visit_nt<double>( std::as_const( v ), f ) ), w, 2 );
			}
			mc::count_case( );
		}
	}
	template<std::size_t... Is>
	void arities( std::index_sequence<Is...> ) {
		( arity<Is + 1>( ), ... );
	}
	MC_TEST( every_alternative ) {
		arities( std::make_index_sequence<20>{ } );
		arity<31>( );
		arity<32>( );
		arity<33>( );
		arity<34>( );
		arity<49>( );
	}

	// overloads of different callables, and values and exceptions passed through
	MC_TEST( overloads ) {
		auto const i = mc::choose( 4 );
		auto const mode = mc::choose( 3 );
		mc::with_tracking( [&] {
			using V = std::variant<int, T, std::string, std::unique_ptr<int>>;
			auto const fresh = [&] {
				return i == 0   ? V( 3 )
				       : i == 1 ? V( T( 4 ) )
				       : i == 2 ? V( std::string( "x" ) )
				                : V( std::make_unique<int>( 5 ) );
			};
			V v = fresh( );
			int n[4] = { };
			auto const f0 = [&]( int const & ) {
				++n[0];
				return 0;
			};
			auto const f1 = [&]( T const & ) {
				++n[1];
				return 1;
			};
			auto const f2 = [&]( std::string const & ) {
				++n[2];
				return 2;
			};
			auto const f3 = [&]( std::unique_ptr<int> const & ) {
				++n[3];
				return 3;
			};
			int const r = mode == 0   ? daw::visit( v, f0, f1, f2, f3 )
			              : mode == 1 ? daw::visit_nt( std::as_const( v ), f3, f2, f1, f0 )
			                          : daw::visit<int>( v, f2, f0, f3, f1 );
			MC_CHECK( r == static_cast<int>( i ) and n[0] + n[1] + n[2] + n[3] == 1 and n[i] == 1, "overload",
			          "visiting alternative %u calls another callable (%d)", i, r );
			// references are returned as references
			int &ref = daw::visit( v, [&]( auto & ) -> int & {
				return n[0];
			} );
			MC_CHECK( &ref == &n[0], "reference", "a returned reference is not kept" );
			// rvalues are moved out of
			auto const copies = mc::tr::copies;
			auto const moved = daw::visit<std::shared_ptr<V>>( std::move( v ), []( auto &&x ) {
				return std::make_shared<V>( static_cast<decltype( x ) &&>( x ) );
			} );
			V &other = *moved;
			MC_CHECK( other.index( ) == i and mc::tr::copies == copies, "rvalue", "moving alternative %u out", i );
			// an exception of the callable is passed on
			bool caught = false;
			try {
				(void)daw::visit( other, []( auto & ) -> int {
					throw 17;
				} );
			} catch( int e ) {
				caught = e == 17;
			}
			MC_CHECK( caught and other.index( ) == i, "exception", "an exception of the visitor" );
		} );
		mc::count_case( );
	}

	struct Boom {
		int v = 0;
		Boom( ) = default;
		Boom( int x )
		  : v( x ) {}
		Boom( Boom const & ) {
			throw 1;
		}
		Boom &operator=( Boom const & ) {
			throw 1;
		}
	};

	// A variant that lost its value is never passed to a visitor
	MC_TEST( without_value ) {
		std::variant<int, Boom, std::string> v = 3;
		Boom b( 2 );
		try {
			v.emplace<1>( b );
		} catch( int ) {}
		MC_REQUIRE( v.valueless_by_exception( ) );
		auto const k = mc::choose( 6 );
		bool called = false, thrown = false;
		auto const f = [&]( auto && ) {
			called = true;
			return 1;
		};
		try {
			switch( k ) {
			case 0:
				(void)daw::visit( v, f );
				break;
			case 1:
				(void)daw::visit( std::as_const( v ), f );
				break;
			case 2:
				(void)daw::visit( std::move( v ), f );
				break;
			case 3:
				(void)daw::visit<long>( v, f );
				break;
			case 4:
				(void)daw::variant_cast<std::string>( v );
				break;
			default:
				called = daw::can_extract<std::string>( std::as_const( v ) );
				thrown = true;
			}
		} catch( daw::bad_variant_access const & ) {
			thrown = true;
		}
		MC_CHECK( thrown and not called, "valueless", "visiting a variant without a value (%u) calls the visitor", k );
		mc::count_case( );
	}

	// variant_cast converts the held value or throws
	MC_TEST( casts ) {
		auto const i = mc::choose( 3 );
		auto const to = mc::choose( 3 );
		using V = std::variant<short, std::string, long>;
		V v = i == 0 ? V( static_cast<short>( 5 ) ) : i == 1 ? V( std::string( "five" ) ) : V( 5'000'000'000L );
		auto const cast = [&]<typename R>( R const *, auto &&var, R &out ) {
			try {
				out = daw::variant_cast<R>( static_cast<decltype( var ) &&>( var ) );
				return true;
			} catch( daw::bad_variant_access const & ) {
				return false;
			}
		};
		auto const each = [&]<typename R>( R const *p, bool convertible, R const &want ) {
			R out{ };
			MC_CHECK( cast( p, v, out ) == convertible and ( not convertible or out == want ), "cast",
			          "alternative %u to type %u", i, to );
			out = R{ };
			MC_CHECK( cast( p, std::as_const( v ), out ) == convertible and ( not convertible or out == want ), "cast",
			          "const alternative %u to type %u", i, to );
			V c = v;
			out = R{ };
			MC_CHECK( cast( p, std::move( c ), out ) == convertible and ( not convertible or out == want ), "cast",
			          "rvalue alternative %u to type %u", i, to );
		};
		if( to == 0 ) {
			each( static_cast<std::string *>( nullptr ), i == 1, std::string( "five" ) );
		} else if( to == 1 ) {
			each( static_cast<long *>( nullptr ), i != 1, i == 0 ? 5L : 5'000'000'000L );
		} else {
			each( static_cast<double *>( nullptr ), i != 1, i == 0 ? 5.0 : 5e9 );
		}
		MC_CHECK( daw::can_extract<std::string>( v ) == ( i == 1 ) and daw::can_extract<long>( v ) == ( i == 2 ) and
		            daw::can_extract<short>( V( v ) ) == ( i == 0 ) and daw::can_extract<long>( V( v ) ) == ( i == 2 ),
		          "can_extract", "can_extract with alternative %u", i );
		mc::count_case( );
	}

	struct Pair {
		std::uint16_t lo, hi;
	};
	static_assert( sizeof( Pair ) == 4 );

	// visit_as presents the same bytes and stores the changed ones
	MC_TEST( as_bytes ) {
		static constexpr std::uint32_t some[] = { 0, 1, 0x80000000, 0xFFFFFFFF, 0x12345678, 0x00010000, 0x0000FFFF, 0x7F800000 };
		std::uint32_t value = some[mc::choose( 8 )];
		auto model = value;
		for( int d = 0; d != 2; ++d ) {
			switch( mc::choose( 5 ) ) {
			case 0: {
				auto const r = daw::visit_as<Pair>( value, []( Pair &p ) {
					std::swap( p.lo, p.hi );
					return p.lo + 1;
				} );
				model = model << 16 | model >> 16;
				MC_CHECK( r == static_cast<int>( model & 0xFFFF ) + 1, "as", "result %d", r );
				break;
			}
			case 1:
				daw::visit_as<std::array<unsigned char, 4>>( value, []( auto &a ) {
					a[1] = static_cast<unsigned char>( a[1] + 3 );
				} );
				model = ( model & ~0xFF00u ) | ( ( model + 0x300 ) & 0xFF00u );
				break;
			case 2: {
				auto const r = daw::visit_as<std::array<unsigned char, 4>>( std::as_const( value ), []( auto const &a ) {
					return static_cast<unsigned>( a[0] ) | static_cast<unsigned>( a[1] ) << 8 | static_cast<unsigned>( a[2] ) << 16 |
					       static_cast<unsigned>( a[3] ) << 24;
				} );
				MC_CHECK( r == value, "as", "const bytes give %08x, expected %08x", r, value );
				break;
			}
			case 3:
				daw::visit_as<float>( value, []( float &f ) {
					f = 1.5f;
				} );
				model = 0x3FC00000;
				break;
			default: {
				bool caught = false;
				try {
					daw::visit_as<Pair>( value, []( Pair &p ) {
						if( p.lo or not p.lo ) {
							throw 1;
						}
					} );
				} catch( int ) {
					caught = true;
				}
				MC_CHECK( caught, "as", "exception lost" );
			}
			}
			MC_CHECK( value == model, "as", "value %08x, expected %08x", value, model );
			MC_CHECK( daw::bit_cast<std::uint32_t>( daw::bit_cast<Pair>( value ) ) == value, "bit_cast", "%08x", value );
		}
		mc::count_case( );
	}
} // namespace
