// O08: piecewise factories: an object from exactly the last thing set per position.
#include "mc.h"
#include "mc_tracked.h"

#include <daw/daw_piecewise_factory.h>

#include <functional>
#include <memory>
#include <string>
#include <variant>
#include <vector>

namespace {
	using TM = mc::Tracked<mc::NoThrowMove>;

	struct Built {
		int a;
		std::string b;
		TM c;
	};
	// explicit constructors, and a different one for other categories
	struct Ctor {
		int a;
		std::string b;
		TM c;
		explicit Ctor( int x, std::string y, TM z )
		  : a( x )
		  , b( std::move( y ) )
		  , c( std::move( z ) ) {}
	};

	std::string text( int i ) {
		return i % 2 ? std::string( "s" ) + char( '0' + i ) : std::string( 24, char( 'a' + i ) );
	}

	struct Slot {
		enum Kind { empty, value, function } kind = empty;
		int v = 0;
		int *calls = nullptr;
	};

	template<bool late, typename T, typename Factory>
	void sequences( int depth ) {
		mc::with_tracking( [&] {
			Factory f{ };
			Slot m[3];
			int calls[16] = { };
			int seq = 0;
			bool moved = false;
			auto const check = [&]( auto &&fac, char const *how ) {
				int before[16];
				std::copy( calls, calls + 16, before );
				bool const missing = m[0].kind == Slot::empty or m[1].kind == Slot::empty or m[2].kind == Slot::empty;
				bool thrown = false;
				bool const died = mc::aborts( [&] {
					try {
						T const r = std::forward<decltype( fac )>( fac )( );
						MC_CHECK( not missing, "missing-used", "%s: built although an argument is missing", how );
						MC_CHECK( r.a == m[0].v, "value-0", "%s: argument 0 is %d, not %d", how, r.a, m[0].v );
						MC_CHECK( r.b == text( m[1].v ), "value-1", "%s: argument 1 is %s, not %s", how, r.b.c_str( ), text( m[1].v ).c_str( ) );
						MC_CHECK( mc::val( r.c ) == m[2].v, "value-2", "%s: argument 2 is %d, not %d", how, mc::val( r.c ), m[2].v );
					} catch( std::invalid_argument const & ) { thrown = true; }
				} );
				MC_CHECK( not died, "aborted", "%s: building aborted", how );
				MC_CHECK( thrown == missing, "missing", "%s: a missing argument is %sreported", how, thrown ? "wrongly " : "not " );
				if( not missing ) {
					for( auto const &s : m ) {
						if( late and s.kind == Slot::function ) {
							++before[s.calls - calls];
						}
					}
					for( int i = 0; i != 16; ++i ) {
						MC_CHECK( before[i] == calls[i], "calls", "%s: function %d was called %d times, not %d", how, i, calls[i], before[i] );
					}
				}
			};
			for( int step = 0; step != depth; ++step ) {
				int const pos = mc::choose( 4 );
				int const op = mc::choose( late ? 4 : 3 );
				int const v = ++seq;
				int *const counter = &calls[seq];
				bool thrown = false;
				try {
					if( op == 0 ) { // compile time position, rvalue or lvalue
						switch( pos ) {
						case 0: f.template set<0>( v ); break;
						case 1:
							if( mc::choose( 2 ) ) {
								std::string const s = text( v );
								f.template set<1>( s );
								MC_CHECK( s == text( v ), "argument", "set changed its argument" );
							} else {
								f.template set<1>( text( v ) );
							}
							break;
						case 2:
							if( mc::choose( 2 ) ) {
								TM const t( v );
								f.template set<2>( t );
								MC_CHECK( mc::val( t ) == v, "argument", "set changed its argument" );
							} else {
								f.template set<2>( TM( v ) );
							}
							break;
						default: return;
						}
						m[pos] = { Slot::value, v };
					} else if( op == 1 ) { // run time position
						switch( pos ) {
						case 0: f.set( 0, v ); break;
						case 1: {
							std::string const s = text( v );
							if( mc::choose( 2 ) ) {
								f.set( 1, s );
							} else {
								f.set( 1, s.c_str( ) );
							}
							break;
						}
						case 2:
							if( mc::choose( 2 ) ) {
								TM t( v );
								f.set( 2, t );
								MC_CHECK( mc::val( t ) == v, "argument", "set changed its argument" );
							} else {
								f.set( 2, TM( v ) );
							}
							break;
						default:
							f.set( mc::choose( 2 ) ? 3 : static_cast<std::size_t>( -1 ), v );
							break;
						}
						if( pos != 3 ) {
							m[pos] = { Slot::value, v };
						}
					} else if( op == 2 ) { // run time position, function
						// evaluated by set in an eager factory, by each build in a late one
						switch( pos ) {
						case 0: f.set( 0, std::function<int( )>( [counter, v] { ++*counter; return v; } ) ); break;
						case 1: f.set( 1, std::function<std::string( )>( [counter, v] { ++*counter; return text( v ); } ) ); break;
						case 2: f.set( 2, std::function<TM( )>( [counter, v] { ++*counter; return TM( v ); } ) ); break;
						default: return;
						}
						if constexpr( late ) {
							m[pos] = { Slot::function, v, counter };
							MC_CHECK( *counter == 0, "early", "a late function was called by set" );
						} else {
							m[pos] = { Slot::value, v };
							MC_CHECK( *counter == 1, "function-calls", "a function was called %d times by set", *counter );
						}
					} else if constexpr( late ) {
						switch( pos ) {
						case 0: f.template set<0>( [counter, v] { ++*counter; return v; } ); break;
						case 1: f.template set<1>( [counter, s = text( v )] { ++*counter; return s.c_str( ); } ); break;
						case 2: f.template set<2>( [counter, v] { ++*counter; return TM( v ); } ); break;
						default: return;
						}
						MC_CHECK( *counter == 0, "early", "a late function was called by set" );
						m[pos] = { Slot::function, v, counter };
					}
				} catch( std::out_of_range const & ) { thrown = true; }
				MC_CHECK( thrown == ( pos == 3 ), "out-of-range", "position %d is %sreported", pos, thrown ? "wrongly " : "not " );
			}
			int const how = mc::choose( 4 );
			if( how == 0 ) {
				check( std::as_const( f ), "const" );
				check( f, "again" );
			} else if( how == 1 ) {
				check( f, "lvalue" );
				check( std::move( f ), "then rvalue" );
				moved = true;
			} else if( how == 2 ) {
				Factory g( f );
				check( std::move( f ), "rvalue" );
				check( g, "copy" );
			} else {
				Factory g( std::move( f ) );
				check( g, "moved" );
			}
			(void)moved;
		} );
	}

	struct OwningArgs {
		std::unique_ptr<int> p;
		std::unique_ptr<int> q;
	};
	void move_only( ) {
		int const set = mc::choose( 4 );
		auto f = daw::piecewise_factory_t<OwningArgs, std::unique_ptr<int>, std::unique_ptr<int>>( );
		if( set & 1 ) {
			f.set<0>( std::make_unique<int>( 3 ) );
		}
		if( set & 2 ) {
			f.set<1>( std::make_unique<int>( 4 ) );
		}
		bool thrown = false;
		bool const died = mc::aborts( [&] {
			try {
				auto const r = std::move( f )( );
				MC_CHECK( set == 3 and *r.p == 3 and *r.q == 4, "move-only", "move only arguments" );
			} catch( std::invalid_argument const & ) { thrown = true; }
		} );
		MC_CHECK( not died and thrown == ( set != 3 ), "move-only-missing", "a missing move only argument" );
	}

	struct VariantArg {
		std::variant<int, double> v;
		std::variant<double, std::string> w;
	};
	void variant_argument( ) {
		int const k = mc::choose( 2 );
		int const l = mc::choose( 2 );
		using V = std::variant<int, double>;
		using W = std::variant<double, std::string>;
		V const v = k ? V( 2.5 ) : V( 3 );
		W const w = l ? W( std::string( "text" ) ) : W( 1.25 );
		auto f = daw::piecewise_factory_t<VariantArg, V, W>( );
		f.set<0>( v );
		f.set<1>( w );
		auto const r = f( );
		auto const s = std::move( f )( );
		MC_CHECK( r.v == v and s.v == v and r.w == w and s.w == w, "variant", "a variant argument arrives as another value" );
	}
	struct Thrower {
		int a;
		int b;
	};
	void throwing_function( ) {
		int const which = mc::choose( 3 );
		auto f = daw::piecewise_factory_late_t<Thrower, int, int>( );
		int n = 0;
		f.set<0>( [&] { if( which == 0 and n++ == 0 ) { throw 1; } return 5; } );
		f.set<1>( [&] { if( which == 1 and n++ == 0 ) { throw 2; } return 6; } );
		int caught = 0;
		bool const died = mc::aborts( [&] {
			try {
				auto const t = f( );
				MC_CHECK( which == 2 and t.a == 5 and t.b == 6, "no-throw", "late values" );
			} catch( int e ) { caught = e; }
			auto const t = f( ); // still usable
			MC_CHECK( t.a == 5 and t.b == 6, "after-throw", "late values after an exception" );
		} );
		MC_CHECK( not died and caught == ( which == 2 ? 0 : which + 1 ), "exception", "an exception of a late function is lost" );
	}
} // namespace

MC_TEST( eager_aggregate ) { sequences<false, Built, daw::piecewise_factory_t<Built, int, std::string, TM>>( 4 ); }
MC_TEST( late_aggregate ) { sequences<true, Built, daw::piecewise_factory_late_t<Built, int, std::string, TM>>( 4 ); }
MC_TEST( eager_class ) { sequences<false, Ctor, daw::piecewise_factory_t<Ctor, int, std::string, TM>>( mc::by_tier( 3, 5 ) ); }
MC_TEST( late_class ) { sequences<true, Ctor, daw::piecewise_factory_late_t<Ctor, int, std::string, TM>>( mc::by_tier( 3, 4 ) ); }
MC_TEST( move_only ) { move_only( ); }
MC_TEST( variant_argument ) { variant_argument( ); }
MC_TEST( throwing_function ) { throwing_function( ); }
