// A03: views are windows on a sequence. Every history of window operations, on
// every small sequence, against the pair of indices it has to be.
#include "A03.inc"

#include <span>
#include <stdexcept>
#include <string>

#include "daw/daw_contiguous_view.h"
#include "daw/daw_iter_view.h"
#include "daw/daw_span.h"
#include "daw/daw_span_writer.h"
#include "daw/daw_view.h"

namespace {
	std::string hist;

	template<typename It>
	int const *address( It const &it ) {
		return std::addressof( *it );
	}
	struct Window {
		int *base;
		int lo, hi;
		int size( ) const {
			return hi - lo;
		}
	};
#define VIEW( cond, key, ... ) MC_CHECK( ( cond ), key, __VA_ARGS__ )

	template<typename V>
	void observe( V &v, Window w, char const *who ) {
		auto const n = static_cast<std::size_t>( w.size( ) );
		auto const &cv = v;
		VIEW( v.size( ) == n and v.empty( ) == ( n == 0 ), "size", "%s: size %zu, want %zu after%s", who, static_cast<std::size_t>( v.size( ) ), n, hist.c_str( ) );
		auto const run = [&]( auto first, auto last, char const *range, bool back ) {
			std::size_t i = 0;
			for( ; first != last; ++first, ++i ) {
				VIEW( i < n, "sequence", "%s: %s passes its %zu elements after%s", who, range, n, hist.c_str( ) );
				auto const at = back ? w.hi - 1 - static_cast<int>( i ) : w.lo + static_cast<int>( i );
				VIEW( address( first ) == w.base + at, "sequence", "%s: %s element %zu after%s", who, range, i, hist.c_str( ) );
			}
			VIEW( i == n, "sequence", "%s: %s gives %zu of %zu after%s", who, range, i, n, hist.c_str( ) );
		};
		run( v.begin( ), v.end( ), "begin", false );
		run( cv.begin( ), cv.end( ), "begin const", false );
		run( v.cbegin( ), v.cend( ), "cbegin", false );
		if constexpr( std::is_base_of_v<std::bidirectional_iterator_tag, typename std::iterator_traits<decltype( v.begin( ) )>::iterator_category> ) {
			run( v.rbegin( ), v.rend( ), "rbegin", true );
			run( cv.rbegin( ), cv.rend( ), "rbegin const", true );
			run( v.crbegin( ), v.crend( ), "crbegin", true );
		}
		for( std::size_t i = 0; i != n; ++i ) {
			VIEW( &v[i] == w.base + w.lo + i and &cv[i] == w.base + w.lo + i, "index", "%s: [%zu] of %zu after%s", who, i, n, hist.c_str( ) );
		}
		if constexpr( requires { v.at( 0 ); } ) {
			for( std::size_t i = 0; i != n; ++i ) {
				VIEW( &v.at( i ) == w.base + w.lo + i and &cv.at( i ) == w.base + w.lo + i, "at", "%s: at(%zu) of %zu after%s", who, i, n, hist.c_str( ) );
			}
			for( std::size_t i : { n, n + 1, static_cast<std::size_t>( -1 ) } ) {
				int threw = 0;
				try {
					(void)v.at( i );
				} catch( std::out_of_range const & ) {
					++threw;
				}
				try {
					(void)cv.at( i );
				} catch( std::out_of_range const & ) {
					++threw;
				}
				VIEW( threw == 2, "at_unreported", "%s: at(%zu) of %zu after%s", who, i, n, hist.c_str( ) );
			}
		}
		if constexpr( requires { v.data( ); } ) {
			if constexpr( std::is_pointer_v<decltype( v.data( ) )> ) {
				VIEW( v.data( ) == w.base + w.lo and cv.data( ) == w.base + w.lo, "data", "%s after%s", who, hist.c_str( ) );
			}
		}
		if constexpr( requires { v.data_end( ); } ) {
			VIEW( v.data_end( ) == w.base + w.hi and cv.data_end( ) == w.base + w.hi, "data", "%s end after%s", who, hist.c_str( ) );
		}
		if constexpr( requires { v.size_bytes( ); } ) {
			VIEW( v.size_bytes( ) == n * sizeof( int ), "size_bytes", "%s after%s", who, hist.c_str( ) );
		}
		if constexpr( requires { v.ssize( ); } ) {
			VIEW( v.ssize( ) == static_cast<long>( n ), "ssize", "%s after%s", who, hist.c_str( ) );
		}
		if( n != 0 ) {
			if constexpr( requires { v.front( ); } ) {
				VIEW( &v.front( ) == w.base + w.lo and &cv.front( ) == w.base + w.lo, "front", "%s after%s", who, hist.c_str( ) );
			}
			if constexpr( requires { v.back( ); } ) {
				VIEW( &v.back( ) == w.base + w.hi - 1 and &cv.back( ) == w.base + w.hi - 1, "back", "%s after%s", who, hist.c_str( ) );
			}
		}
		mc::count_case( );
	}
	template<typename V>
	void expect( V part, Window w, char const *who ) {
		observe( part, w, who );
	}

	// an argument in [0, size + extra): every one when the window is small
	int argument( int size, int extra ) {
		if( size <= 6 ) {
			return static_cast<int>( mc::choose( static_cast<unsigned>( size + extra ) ) );
		}
		int const at[] = { 1, size / 2, size - 1, size, size + extra - 1 };
		return at[mc::choose( extra > 1 ? 5 : 4 )];
	}

	// one more than the next past the end stands for as far past it as there is
	std::size_t beyond( int k, int size ) {
		return k > size + 1 ? static_cast<std::size_t>( -1 ) : static_cast<std::size_t>( k );
	}

	// clips: arguments past the end are clipped by the view itself
	template<typename V, bool clips, bool pop_from_back>
	void histories( char const *who, int n, V &v, Window w, int depth ) {
		auto const first_of = [&]( int needle, bool equal ) {
			int p = w.lo;
			while( p < w.hi and ( w.base[p] == needle ) != equal ) {
				++p;
			}
			return p;
		};
		(void)n;
		for( int step = 0; step != depth; ++step ) {
			unsigned const op = mc::choose( 14 );
			switch( op ) {
			case 0:
			case 1: {
				bool const pre = op == 0;
				int const k = argument( w.size( ), ( clips ? 3 : 1 ) );
				hist += mc::strf( " remove_%s(%d)", pre ? "prefix" : "suffix", k );
				int const d = std::min( k, w.size( ) );
				bool unclipped = false;
				if constexpr( requires { v.remove_prefix( 1u, daw::dont_clip_to_bounds ); } ) {
					unclipped = k <= w.size( ) and mc::choose( 2 );
				}
				if( unclipped ) {
					hist += " unclipped";
					if constexpr( requires { v.remove_prefix( 1u, daw::dont_clip_to_bounds ); } ) {
						if( pre ) {
							v.remove_prefix( static_cast<std::size_t>( k ), daw::dont_clip_to_bounds );
							w.lo += d;
						}
					}
					if constexpr( requires { v.remove_suffix( 1u, daw::dont_clip_to_bounds ); } ) {
						if( not pre ) {
							v.remove_suffix( static_cast<std::size_t>( k ), daw::dont_clip_to_bounds );
							w.hi -= d;
						}
					}
				} else if( pre ) {
					v.remove_prefix( beyond( k, w.size( ) ) );
					w.lo += d;
				} else {
					if constexpr( requires { v.remove_suffix( 1u ); } ) {
						v.remove_suffix( beyond( k, w.size( ) ) );
						w.hi -= d;
					}
				}
				break;
			}
			case 2:
				if( w.size( ) == 0 ) {
					return;
				}
				hist += " remove_prefix()";
				v.remove_prefix( );
				++w.lo;
				break;
			case 3:
				if( w.size( ) == 0 ) {
					return;
				}
				if constexpr( requires { v.remove_suffix( ); } ) {
					hist += " remove_suffix()";
					v.remove_suffix( );
					--w.hi;
				}
				break;
			case 4:
			case 5:
				if( w.size( ) == 0 ) {
					return;
				}
				if( op == 4 ) {
					hist += " pop_front()";
					int const got = v.pop_front( );
					VIEW( got == w.base[w.lo], "pop", "%s gave %d after%s", who, got, hist.c_str( ) );
					++w.lo;
				} else {
					if constexpr( requires { v.pop_back( ); } ) {
						hist += " pop_back()";
						int const got = v.pop_back( );
						VIEW( got == w.base[w.hi - 1], "pop", "%s gave %d after%s", who, got, hist.c_str( ) );
						--w.hi;
					}
				}
				break;
			case 6:
				if constexpr( requires { v.pop_front( 1u ); } ) {
					int const k = argument( w.size( ), 3 );
					hist += mc::strf( " pop_front(%d)", k );
					int const d = std::min( k, w.size( ) );
					expect( v.pop_front( beyond( k, w.size( ) ) ), { w.base, w.lo, w.lo + d }, who );
					w.lo += d;
				}
				break;
			case 7:
				if constexpr( requires { v.pop_back( 1u ); } ) {
					int const k = argument( w.size( ), 3 );
					hist += mc::strf( " pop_back(%d)", k );
					int const d = std::min( k, w.size( ) );
					expect( v.pop_back( beyond( k, w.size( ) ) ), { w.base, w.hi - d, w.hi }, who );
					w.hi -= d;
				}
				break;
			case 8:
				if constexpr( requires( int x ) { v.pop( x ); } and not std::is_const_v<std::remove_reference_t<decltype( v[0] )>> ) {
					hist += " pop(x)";
					int got = -1;
					bool const r = v.pop( got );
					VIEW( r == ( w.size( ) != 0 ), "pop", "%s after%s", who, hist.c_str( ) );
					if( r ) {
						VIEW( got == w.base[pop_from_back ? w.hi - 1 : w.lo], "pop", "%s gave %d after%s", who, got, hist.c_str( ) );
						( pop_from_back ? w.hi : w.lo ) += pop_from_back ? -1 : 1;
					} else {
						VIEW( got == -1, "pop", "%s wrote on empty after%s", who, hist.c_str( ) );
					}
				}
				break;
			case 9:
				if constexpr( requires { v.subspan( 0u, 0u ); } ) {
					int const o = argument( w.size( ), ( clips ? 2 : 1 ) );
					int const c = argument( w.size( ), 3 );
					hist += mc::strf( " subspan(%d,%d)", o, c );
					int const lo = w.lo + std::min( o, w.size( ) );
					Window const sub{ w.base, lo, std::min( w.hi, lo + c ) };
					expect( v.subspan( static_cast<std::size_t>( o ), beyond( c, w.size( ) ) ), sub, who );
					expect( v.subspan( static_cast<std::size_t>( o ) ), { w.base, lo, w.hi }, who );
					if constexpr( requires { v = v.subspan( 0u, 0u ); } ) {
						v = v.subspan( static_cast<std::size_t>( o ), beyond( c, w.size( ) ) );
						w = sub;
					}
				}
				break;
			case 10:
			case 11:
				if constexpr( requires { v.find( 1 ); } ) {
					int const needle = static_cast<int>( mc::choose( 3 ) );
					bool const eq = op == 10;
					int const p = first_of( needle, eq );
					hist += mc::strf( " find%s(%d)", eq ? "" : "_first_not_of", needle );
					auto const &cv = v;
					auto a = eq ? v.find( needle ) : v.find_first_not_of( needle );
					auto b = eq ? cv.find( needle ) : cv.find_first_not_of( needle );
					if( p == w.hi ) {
						VIEW( a == v.end( ) and b == cv.end( ), "find", "%s found an element after%s", who, hist.c_str( ) );
					} else {
						VIEW( a != v.end( ) and address( a ) == w.base + p and address( b ) == w.base + p, "find", "%s after%s", who, hist.c_str( ) );
					}
				}
				break;
			default:
				if constexpr( requires { v.remove_prefix_until( 1 ); } ) {
					int const needle = static_cast<int>( mc::choose( 3 ) );
					bool const until = op == 12;
					bool const pop = mc::choose( 2 );
					bool const discard = mc::choose( 2 );
					int const p = first_of( needle, until );
					hist += mc::strf( " %s_%s(%d%s)", pop ? "pop_front" : "remove_prefix", until ? "until" : "while", needle, discard ? ",discard" : "" );
					Window const front{ w.base, w.lo, p };
					if( pop ) {
						if( until ) {
							expect( discard ? v.pop_front_until( needle, daw::discard ) : v.pop_front_until( needle ), front, who );
						} else {
							expect( discard ? v.pop_front_while( needle, daw::discard ) : v.pop_front_while( needle ), front, who );
						}
					} else {
						auto &r = until ? ( discard ? v.remove_prefix_until( needle, daw::discard ) : v.remove_prefix_until( needle ) )
						                : ( discard ? v.remove_prefix_while( needle, daw::discard ) : v.remove_prefix_while( needle ) );
						VIEW( &r == &v, "chaining", "%s after%s", who, hist.c_str( ) );
					}
					w.lo = std::min( w.hi, p + ( discard ? 1 : 0 ) );
				}
				break;
			}
			observe( v, w, who );
			mc::step( );
		}
	}
	std::vector<int> sequence( unsigned max ) {
		auto const n = mc::choose( max + 2 );
		std::vector<int> r( n );
		if( n > max ) { // a long one with at most one element out of line
			r.assign( 33, 0 );
			if( unsigned const odd = mc::choose( 5 ); odd != 0 ) {
				r[std::array<std::size_t, 4>{ 0, 7, 31, 32 }[odd - 1]] = 1;
			}
			return r;
		}
		for( auto &x : r ) {
			x = static_cast<int>( mc::choose( 2 ) );
		}
		return r;
	}
	std::vector<int> increasing( unsigned max ) {
		auto const n = mc::choose( max + 2 );
		std::vector<int> r( n > max ? 33 : n );
		for( std::size_t i = 0; i != r.size( ); ++i ) {
			r[i] = static_cast<int>( i ) % 3;
		}
		return r;
	}
	Window window( std::vector<int> &v ) {
		return { v.data( ), 0, static_cast<int>( v.size( ) ) };
	}
	int depth( ) {
		return mc::by_tier( 2, 3 );
	}

	MC_TEST( contiguous_view ) {
		hist.clear( );
		auto s = sequence( static_cast<unsigned>( mc::by_tier( 3, 4 ) ) );
		auto const n = s.size( );
		switch( mc::choose( 3 ) ) {
		case 0: {
			daw::contiguous_view<int> t( s ), v( s.data( ), s.data( ) );
			v = t; // from an lvalue
			histories<daw::contiguous_view<int>, true, false>( "contiguous_view", static_cast<int>( n ), v, window( s ), depth( ) );
			break;
		}
		case 1: {
			daw::contiguous_view<int> v( s.data( ), n );
			histories<daw::contiguous_view<int>, true, false>( "contiguous_view", static_cast<int>( n ), v, window( s ), depth( ) );
			break;
		}
		default: {
			daw::contiguous_view<int const> t( s.data( ), s.data( ) + n ), v;
			v = t; // from an lvalue
			auto const whole = static_cast<std::span<int const>>( v );
			VIEW( whole.data( ) == s.data( ) and whole.size( ) == n, "to_container", "conversion of a contiguous_view of %zu", n );
			histories<daw::contiguous_view<int const>, true, false>( "contiguous_view<const>", static_cast<int>( n ), v, window( s ), depth( ) );
			break;
		}
		}
	}
	MC_TEST( iter_view ) {
		hist.clear( );
		auto s = sequence( static_cast<unsigned>( mc::by_tier( 3, 4 ) ) );
		if( mc::choose( 2 ) ) {
			daw::iter_view<Fwd<int>> v( b<Fwd>( s ), e<Fwd>( s ) );
			histories<daw::iter_view<Fwd<int>>, true, false>( "iter_view<forward>", static_cast<int>( s.size( ) ), v, window( s ), depth( ) );
		} else {
			daw::iter_view<int *> v( s.data( ), s.size( ) );
			histories<daw::iter_view<int *>, true, false>( "iter_view<pointer>", static_cast<int>( s.size( ) ), v, window( s ), depth( ) );
		}
	}
	MC_TEST( span ) {
		hist.clear( );
		auto s = increasing( static_cast<unsigned>( mc::by_tier( 3, 5 ) ) );
		auto const n = s.size( );
		switch( mc::choose( 3 ) ) {
		case 0: {
			daw::span<int> v( s );
			histories<daw::span<int>, false, true>( "span", static_cast<int>( n ), v, window( s ), depth( ) );
			break;
		}
		case 1: {
			daw::span<int> v( s.data( ), s.data( ) + n );
			auto c = std::as_const( v ).copy( );
			histories<daw::span<int>, false, true>( "span copy", static_cast<int>( n ), c, window( s ), depth( ) );
			break;
		}
		default: {
			daw::span<int> m( s );
			daw::span<int const> v = m;
			histories<daw::span<int const>, false, true>( "span<const>", static_cast<int>( n ), v, window( s ), depth( ) );
			break;
		}
		}
	}
	MC_TEST( span_bounds ) {
		hist.clear( );
		auto s = increasing( 4 );
		daw::span<int> v( s );
		daw::span<int const> c( s.data( ), s.size( ) );
		for( std::size_t o : { s.size( ) + 1, s.size( ) + 2, static_cast<std::size_t>( -1 ) } ) {
			int threw = 0;
			try {
				(void)v.subspan( o, 0 );
			} catch( std::out_of_range const & ) {
				++threw;
			}
			try {
				(void)std::as_const( v ).copy( ).subspan( o );
			} catch( std::out_of_range const & ) {
				++threw;
			}
			try {
				(void)c.subspan( o, 1 );
			} catch( std::out_of_range const & ) {
				++threw;
			}
			VIEW( threw == 3, "subspan_unreported", "subspan from %zu of %zu", o, s.size( ) );
		}
		// reversed and null ranges are empty
		for( std::size_t i = 0; i <= s.size( ); ++i ) {
			for( std::size_t j = 0; j <= s.size( ); ++j ) {
				int *const f = s.data( ) + i;
				int const *const l = s.data( ) + j;
				VIEW( daw::span<int>( f, l ).size( ) == ( j > i ? j - i : 0 ) and daw::span<int const>( f, l ).size( ) == ( j > i ? j - i : 0 ), "span_range", "[%zu,%zu)", i, j );
			}
		}
		VIEW( daw::span<int>( static_cast<int *>( nullptr ), 4 ).empty( ) and daw::span<int const>( static_cast<int const *>( nullptr ), 4 ).size( ) == 0, "span_null", "null" );
		int arr[3] = { 5, 6, 7 };
		daw::span<int> a( arr );
		observe( a, { arr, 0, 3 }, "span of array" );
		daw::span<int const> ca( arr );
		observe( ca, { arr, 0, 3 }, "span of array" );
	}
	MC_TEST( view ) {
		hist.clear( );
		auto s = increasing( static_cast<unsigned>( mc::by_tier( 3, 5 ) ) );
		if( mc::choose( 2 ) ) {
			daw::view<int *> v( s.data( ), s.data( ) + s.size( ) );
			histories<daw::view<int *>, false, false>( "view<pointer>", static_cast<int>( s.size( ) ), v, window( s ), depth( ) );
		} else {
			daw::view<Bidi<int>> v( b<Bidi>( s ), e<Bidi>( s ) );
			histories<daw::view<Bidi<int>>, false, false>( "view<bidirectional>", static_cast<int>( s.size( ) ), v, window( s ), depth( ) );
		}
	}
	// the six comparisons of two windows
	MC_TEST( view_order ) {
		auto x = sequence( static_cast<unsigned>( mc::by_tier( 3, 4 ) ) );
		auto y = sequence( static_cast<unsigned>( mc::by_tier( 3, 4 ) ) );
		auto const order = [&]( auto const &l, auto const &r, char const *who ) {
			MC_CHECK( ( l == r ) == ( x == y ) and ( l != r ) == ( x != y ) and ( l < r ) == ( x < y ) and ( l > r ) == ( x > y ) and ( l <= r ) == ( x <= y ) and ( l >= r ) == ( x >= y ),
			          "view_order", "%s: %s and %s", who, show( x ).c_str( ), show( y ).c_str( ) );
		};
		daw::contiguous_view<int> cx( x ), cy( y );
		order( cx, cy, "contiguous_view" );
		daw::contiguous_view<int const> kx( x.data( ), x.size( ) ), ky( y.data( ), y.size( ) );
		order( kx, ky, "contiguous_view<const>" );
		order( daw::iter_view<Fwd<int>>( b<Fwd>( x ), e<Fwd>( x ) ), daw::iter_view<Fwd<int>>( b<Fwd>( y ), e<Fwd>( y ) ), "iter_view" );
	}
	// extending a window again
	MC_TEST( view_growth ) {
		hist.clear( );
		auto s = increasing( 5 );
		if( s.size( ) > 5 ) {
			s.resize( 12 );
		}
		int const n = static_cast<int>( s.size( ) );
		int const lo = static_cast<int>( mc::choose( static_cast<unsigned>( n ) + 1 ) );
		int const hi = lo + static_cast<int>( mc::choose( static_cast<unsigned>( n - lo ) + 1 ) );
		auto const go = [&]( auto v, char const *who ) {
			Window w{ s.data( ), lo, hi };
			for( int k = 0; k <= lo; ++k ) {
				auto a = v;
				a.add_prefix( static_cast<std::size_t>( k ) );
				observe( a, { w.base, w.lo - k, w.hi }, who );
			}
			if( lo > 0 ) {
				auto a = v;
				a.add_prefix( );
				observe( a, { w.base, w.lo - 1, w.hi }, who );
			}
			if constexpr( requires { v.add_suffix( ); } ) {
				for( int k = 0; k <= n - hi; ++k ) {
					auto a = v;
					a.add_suffix( static_cast<std::size_t>( k ) );
					observe( a, { w.base, w.lo, w.hi + k }, who );
				}
				if( hi < n ) {
					auto a = v;
					a.add_suffix( );
					observe( a, { w.base, w.lo, w.hi + 1 }, who );
				}
			}
		};
		go( daw::contiguous_view<int>( s.data( ) + lo, s.data( ) + hi ), "contiguous_view" );
		go( daw::contiguous_view<int const>( s.data( ) + lo, s.data( ) + hi ), "contiguous_view<const>" );
		go( daw::iter_view<Bidi<int>>( at<Bidi>( s, static_cast<std::size_t>( lo ) ), at<Bidi>( s, static_cast<std::size_t>( hi ) ) ), "iter_view" );
	}

	// writers: every history of writes fills the buffer in order and a write that
	// does not fit aborts before writing past the end
	MC_TEST( span_writer ) {
		unsigned const cap = mc::choose( 6 );
		std::vector<int> buf( cap, -1 );
		std::vector<int> want( cap, -1 );
		std::size_t pos = 0;
		std::string h;
		auto w = mc::choose( 2 ) ? daw::span_writer<int>( buf ) : daw::span_writer<int>( buf, cap );
		std::span<int> sp( buf );
		int next = 1;
		for( int k = 0; k != mc::by_tier( 3, 5 ); ++k ) {
			MC_CHECK( w.size( ) == cap - pos and w.data( ) == buf.data( ) + pos and w.begin( ) == w.data( ) and w.end( ) == buf.data( ) + cap, "writer_window", "%u:%s", cap, h.c_str( ) );
			MC_CHECK( buf == want, "writer_content", "%u:%s gives %s", cap, h.c_str( ), show( buf ).c_str( ) );
			unsigned const op = mc::choose( 5 );
			unsigned const count = op == 2 ? 2 : op == 4 ? mc::choose( 4 ) : 1 + mc::choose( 3 );
			bool const fits = pos + count <= cap;
			h += mc::strf( " op%u(%u)", op, count );
			bool const use_span = op != 4 and mc::choose( 2 );
			std::vector<short> src( count );
			for( unsigned i = 0; i != count; ++i ) {
				src[i] = static_cast<short>( next + static_cast<int>( i ) );
			}
			auto const act = [&] {
				std::span<int> rest = sp.subspan( pos );
				std::span<int> left;
				switch( op ) {
				case 0:
				case 1:
					if( use_span ) {
						left = count == 1 ? daw::write_to_span( rest, next ) : count == 2 ? daw::write_to_span( rest, next, next + 1L ) : daw::write_to_span( rest, next, next + 1, next + 2 );
					} else {
						auto &r = count == 1 ? w.write( next ) : count == 2 ? w.write( next, next + 1L ) : w.write( next, next + 1, next + 2 );
						if( &r != &w ) {
							std::abort( );
						}
					}
					break;
				case 2:
					if( use_span ) {
						left = daw::write_to_span_ntz( rest, "ab" );
					} else {
						w.write_ntz( "ab" );
					}
					break;
				case 3:
					if( use_span ) {
						left = daw::write_to_span( rest, src );
					} else {
						w.write( src );
					}
					break;
				default: w.remove_prefix( count ); break;
				}
				if( use_span ) {
					if( left.data( ) != buf.data( ) + pos + count or left.size( ) != cap - pos - count ) {
						std::abort( );
					}
					w.remove_prefix( count );
				}
			};
			if( not fits ) {
				MC_CHECK( mc::aborts( act ), "writer_overflow", "%u at %zu:%s was accepted", cap, pos, h.c_str( ) );
				for( auto const far : { static_cast<std::size_t>( -1 ), static_cast<std::size_t>( 0 ) - pos, static_cast<std::size_t>( -1 ) / sizeof( int ) + 1 } ) {
					if( far > cap ) {
						MC_CHECK( mc::aborts( [&] { (void)w.subspan( far ); } ) and mc::aborts( [&] { w.remove_prefix( far ); } ) and mc::aborts( [&] { (void)w[far]; } ), "writer_overflow", "%u at %zu: %zu was accepted", cap, pos, far );
					}
				}
				MC_CHECK( mc::aborts( [&] { (void)w.subspan( count ); } ), "writer_overflow", "%u at %zu: subspan(%u) was accepted", cap, pos, count );
				return;
			}
			auto const sub = std::as_const( w ).subspan( count );
			MC_CHECK( sub.size( ) == cap - pos - count and sub.data( ) == buf.data( ) + pos + count, "writer_subspan", "%u:%s", cap, h.c_str( ) );
			MC_CHECK( not mc::aborts( act ), "writer_rejects", "%u at %zu:%s was rejected", cap, pos, h.c_str( ) );
			for( unsigned i = 0; i != count; ++i ) {
				if( op != 4 ) {
					want[pos + i] = op == 2 ? "ab"[i] : next + static_cast<int>( i );
				}
			}
			pos += count;
			next += static_cast<int>( count );
			mc::step( );
		}
		MC_CHECK( buf == want, "writer_content", "%u:%s gives %s", cap, h.c_str( ), show( buf ).c_str( ) );
		for( std::size_t i = 0; i != w.size( ); ++i ) {
			MC_CHECK( &w[i] == buf.data( ) + pos + i and &std::as_const( w )[i] == &w[i], "writer_index", "%u:%s at %zu", cap, h.c_str( ), i );
		}
		MC_CHECK( mc::aborts( [&] { (void)( w[w.size( )] = 3 ); } ), "writer_overflow", "index past the end was accepted" );
	}
} // namespace
