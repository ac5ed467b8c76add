// A03: output adaptors, the type erased input iterator, searching iterators and
// take: every history of operations up to a depth.
#include "A03.inc"
#include "mc_tracked.h"

#include <deque>
#include <functional>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include "daw/daw_take.h"
#include "daw/iterator/InputIterator.h"
#include "daw/iterator/daw_back_inserter.h"
#include "daw/iterator/daw_end_inserter.h"
#include "daw/iterator/daw_find_iterator.h"
#include "daw/iterator/daw_find_one_iterator.h"
#include "daw/iterator/daw_function_iterator.h"
#include "daw/iterator/daw_inserter.h"
#include "daw/iterator/daw_output_stream_iterator.h"
#include "daw/iterator/daw_sorted_insert_iterator.h"

namespace {
	template<typename C>
	std::vector<int> contents( C const &c ) {
		std::vector<int> r;
		for( auto const &x : c ) {
			r.push_back( x );
		}
		return r;
	}
	// writes through it; want is updated by put
	template<typename C, typename It, typename Put>
	void write_history( char const *who, C &c, It it, Put put ) {
		std::vector<int> want = contents( c );
		std::string h;
		for( int k = 0; k != mc::by_tier( 4, 5 ); ++k ) {
			int const value = static_cast<int>( mc::choose( 3 ) );
			unsigned const op = mc::choose( 6 );
			h += mc::strf( " op%u(%d)", op, value );
			switch( op ) {
			case 0:
				*it = value;
				put( want, value );
				break;
			case 1:
				*it++ = static_cast<int &&>( int( value ) );
				put( want, value );
				break;
			case 2: {
				auto &r = ++it;
				MC_CHECK( &r == &it, "preincrement", "%s after%s", who, h.c_str( ) );
				*r = static_cast<short>( value );
				put( want, value );
				break;
			}
			case 3: { // a copy writes to the same place
				auto other = it;
				*other = value;
				put( want, value );
				break;
			}
			case 4: // an element of the container itself
				if( not want.empty( ) ) {
					int const x = *c.begin( );
					*it = *c.begin( );
					put( want, x );
				}
				break;
			default: { // assigning adaptors to each other writes nothing
				if constexpr( std::is_copy_assignable_v<It> ) {
					It other = it;
					it = other;
				}
				break;
			}
			}
			MC_CHECK( same( contents( c ), want ), "written", "%s after%s: %s, want %s", who, h.c_str( ), show( contents( c ) ).c_str( ), show( want ).c_str( ) );
			mc::step( );
		}
	}
	auto const append = []( std::vector<int> &v, int x ) { v.push_back( x ); };
	auto const insert_sorted = []( std::vector<int> &v, int x ) { v.insert( std::upper_bound( v.begin( ), v.end( ), x ), x ); };
	auto const insert_unique = []( std::vector<int> &v, int x ) {
		if( std::find( v.begin( ), v.end( ), x ) == v.end( ) ) {
			insert_sorted( v, x );
		}
	};
	template<typename C>
	C initial( ) {
		C c;
		for( unsigned n = mc::choose( 2 ); n != 0; --n ) {
			c.insert( c.end( ), 1 );
		}
		return c;
	}
	MC_TEST( back_inserter ) {
		if( mc::choose( 2 ) ) {
			auto c = initial<std::vector<int>>( );
			write_history( "back_inserter<vector>", c, daw::back_inserter( c ), append );
		} else {
			auto c = initial<std::list<int>>( );
			write_history( "back_inserter<list>", c, daw::back_inserter( c ), append );
		}
	}
	MC_TEST( end_inserter ) {
		switch( mc::choose( 3 ) ) {
		case 0: {
			auto c = initial<std::vector<int>>( );
			write_history( "end_inserter<vector>", c, daw::end_inserter( c ), append );
			break;
		}
		case 1: {
			auto c = initial<std::deque<int>>( );
			write_history( "end_inserter<deque>", c, daw::end_inserter_iterator( c ), append );
			break;
		}
		default: {
			auto c = initial<std::multiset<int>>( );
			write_history( "end_inserter<multiset>", c, daw::end_inserter( c ), insert_sorted );
			break;
		}
		}
	}
	MC_TEST( inserter ) {
		if( mc::choose( 2 ) ) {
			auto c = initial<std::set<int>>( );
			write_history( "inserter<set>", c, daw::inserter( c ), insert_unique );
		} else {
			auto c = initial<std::multiset<int>>( );
			write_history( "inserter<multiset>", c, daw::inserter( c ), insert_sorted );
		}
	}
	MC_TEST( function_and_stream ) {
		if( mc::choose( 2 ) ) {
			std::vector<int> seen;
			auto f = [&]( int x ) { seen.push_back( x ); };
			if( mc::choose( 2 ) ) {
				write_history( "make_function_iterator", seen, daw::make_function_iterator( f ), append );
			} else {
				write_history( "function_iterator", seen, daw::function_iterator( f ), append );
			}
		} else {
			struct Stream : std::vector<int> {
				Stream &operator<<( int x ) {
					push_back( x );
					return *this;
				}
			} s;
			write_history( "output_stream_iterator", s, daw::make_output_stream_iterator( s ), append );
		}
	}
	template<typename C, typename Compare>
	void sorted_history( char const *who, Compare cmp ) {
		C c;
		auto it = daw::make_sorted_insert_iterator( c, cmp );
		std::vector<Item> want;
		std::string h;
		for( int k = 0; k != mc::by_tier( 4, 6 ); ++k ) {
			unsigned const op = mc::choose( 4 );
			Item const x = op == 3 and not want.empty( ) ? Item{ want[want.size( ) / 2].key, k } : Item{ static_cast<int>( op ), k };
			h += mc::strf( " %d", x.key );
			if( mc::choose( 2 ) ) {
				*it = x;
				++it;
			} else {
				*it++ = Item( x );
			}
			want.push_back( x );
			std::vector<Item> got( c.begin( ), c.end( ) );
			MC_CHECK( std::is_sorted( got.begin( ), got.end( ), cmp ), "sorted_insert_order", "%s after%s: %s", who, h.c_str( ), show( got ).c_str( ) );
			auto ids = []( std::vector<Item> v ) {
				std::sort( v.begin( ), v.end( ), []( Item const &a, Item const &b ) { return a.id < b.id; } );
				return v;
			};
			auto const g = ids( got ), w = ids( want );
			bool eq = g.size( ) == w.size( );
			for( std::size_t i = 0; eq and i != g.size( ); ++i ) {
				eq = g[i].id == w[i].id and g[i].key == w[i].key;
			}
			MC_CHECK( eq, "sorted_insert_elements", "%s after%s: %s", who, h.c_str( ), show( got ).c_str( ) );
			mc::step( );
		}
	}
	template<typename Compare>
	void sorted_all( Compare cmp ) {
		switch( mc::choose( 3 ) ) {
		case 0: sorted_history<std::vector<Item>>( "sorted vector", cmp ); break;
		case 1: sorted_history<std::deque<Item>>( "sorted deque", cmp ); break;
		default: sorted_history<std::list<Item>>( "sorted list", cmp ); break;
		}
	}
	MC_TEST( sorted_insert ) {
		if( mc::choose( 2 ) ) {
			sorted_all( []( Item const &a, Item const &b ) { return a.key < b.key; } );
		} else {
			sorted_all( []( Item const &a, Item const &b ) { return a.key > b.key; } );
		}
	}
	MC_TEST( sorted_insert_default ) { // std::less and writing an element of the container
		std::vector<int> v;
		std::list<int> l;
		std::vector<int> want;
		auto iv = daw::make_sorted_insert_iterator( v );
		auto il = daw::make_sorted_insert_iterator( l );
		for( int k = 0; k != 5; ++k ) {
			unsigned const op = mc::choose( 5 );
			int x = static_cast<int>( op );
			if( op == 3 and not v.empty( ) ) {
				x = v.front( );
				*iv = v.front( );
				*il = l.front( );
			} else if( op == 4 and not v.empty( ) ) {
				x = v.back( );
				*iv = v.back( );
				*il = l.back( );
			} else {
				*iv = x;
				*il = x;
			}
			insert_sorted( want, x );
			MC_CHECK( v == want and contents( l ) == want, "sorted_insert_order", "%s, want %s", show( v ).c_str( ), show( want ).c_str( ) );
			mc::step( );
		}
	}

	// ---- the type erased input iterator ---------------------------------------
	int const data[4] = { 10, 11, 12, 13 };
	template<int Tag>
	struct Under { // an iterator whose lifetime is monitored and whose copies can fail
		using value_type = int;
		using reference = int const &;
		using pointer = int const *;
		using difference_type = std::ptrdiff_t;
		using iterator_category = std::input_iterator_tag;
		mc::Tracked<> pos;
		std::array<std::byte, Tag * 24 + 1> ballast{ };
		explicit Under( int p )
		  : pos( p ) {}
		int const &operator*( ) const {
			return data[mc::val( pos )];
		}
		int const *operator->( ) const {
			return &data[mc::val( pos )];
		}
		Under &operator++( ) {
			mc::NoTrack nt;
			pos.v = mc::val( pos ) + 1;
			return *this;
		}
		bool operator==( Under const &o ) const {
			return mc::val( pos ) == mc::val( o.pos );
		}
	};
	struct Slot {
		std::optional<daw::InputIterator<int>> it;
		int type = -1; // -1: moved from
		int pos = 0;
	};
	MC_TEST( erased_input ) {
		mc::set_fault_budget( 1 );
		mc::with_tracking( [&] {
			std::array<Slot, 3> s;
			char h[512] = "";
			auto const log = [&]( auto const &...args ) {
				mc::NoTrack nt;
				std::string const t = mc::strf( args... );
				std::snprintf( h + std::strlen( h ), sizeof h - std::strlen( h ), "%s", t.c_str( ) );
			};
			for( int k = 0; k != mc::by_tier( 6, 9 ); ++k ) {
				std::uint64_t hh = 7;
				for( auto const &x : s ) {
					hh = mc::mix( hh, static_cast<std::uint64_t>( ( x.it ? 1 : 0 ) * 1000 + ( x.type + 1 ) * 10 + x.pos ) );
				}
				if( not mc::enter_state( hh, static_cast<unsigned>( mc::by_tier( 6, 9 ) - k ) ) ) {
					break;
				}
				unsigned const i = mc::choose( 2 );
				auto &x = s[i];
				bool const live = x.it and x.type >= 0;
				unsigned const op = mc::choose( 9 );
				unsigned const j = op >= 1 and op <= 4 ? mc::choose( 2 ) : 0;
				auto &y = s[j];
				bool const ylive = y.it and y.type >= 0;
				if( op == 0 ) {
					if( x.it ) {
						continue;
					}
					int const type = static_cast<int>( mc::choose( 2 ) );
					int const pos = static_cast<int>( mc::choose( 2 ) );
					log( " s%u=make(%d,%d)", i, type, pos );
					bool failed = false;
					try {
						mc::FaultScope fs( true, true );
						if( type == 0 ) {
							x.it.emplace( Under<0>( pos ) );
						} else {
							x.it.emplace( Under<1>( pos ) );
						}
					} catch( mc::InjectedFault const & ) {
						failed = true;
					} catch( std::bad_alloc const & ) {
						failed = true;
					}
					if( not failed ) {
						x.type = type, x.pos = pos;
					} else {
						log( "!" );
					}
				} else if( op == 1 or op == 3 ) { // copy construct / assign from y
					if( not ylive or ( op == 1 and x.it ) or ( op == 3 and not x.it ) ) {
						continue;
					}
					log( op == 1 ? " s%u=copy(s%u)" : " s%u:=s%u", i, j );
					bool failed = false;
					try {
						mc::FaultScope fs( true, true );
						if( op == 1 ) {
							x.it.emplace( std::as_const( *y.it ) );
						} else {
							auto &r = ( *x.it = std::as_const( *y.it ) );
							if( &r != &*x.it ) {
								mc::fail_later( "assignment_result", "after%s", h );
							}
						}
					} catch( mc::InjectedFault const & ) {
						failed = true;
					} catch( std::bad_alloc const & ) {
						failed = true;
					}
					if( not failed ) {
						x.type = y.type, x.pos = y.pos;
					} else {
						log( "!" );
					}
				} else if( op == 2 or op == 4 ) { // move construct / assign from y
					if( not ylive or ( op == 2 and x.it ) or ( op == 4 and not x.it ) ) {
						continue;
					}
					log( op == 2 ? " s%u=move(s%u)" : " s%u:=move(s%u)", i, j );
					{
						mc::FaultScope fs( true, true );
						if( op == 2 ) {
							x.it.emplace( std::move( *y.it ) );
						} else {
							*x.it = std::move( *y.it );
						}
					}
					int const t = y.type;
					if( i != j ) {
						y.type = -1;
					}
					x.type = t, x.pos = y.pos;
				} else if( op == 5 ) {
					if( not live or x.pos > 2 ) {
						continue;
					}
					log( " ++s%u", i );
					auto &r = ++*x.it;
					MC_CHECK( &r == &*x.it, "preincrement", "after%s", h );
					++x.pos;
				} else if( op == 6 ) {
					if( not live or x.pos > 2 ) {
						continue;
					}
					log( " s%u++", i );
					bool failed = false;
					try {
						mc::FaultScope fs( true, true );
						auto const old = ( *x.it )++;
						if( &*old != &data[x.pos] ) {
							mc::fail_later( "postincrement", "the result does not read the old position after%s", h );
						}
					} catch( mc::InjectedFault const & ) {
						failed = true;
					} catch( std::bad_alloc const & ) {
						failed = true;
					}
					if( not failed ) {
						++x.pos;
					} else {
						log( "!" );
					}
				} else if( op == 7 ) {
					if( not x.it ) {
						continue;
					}
					log( " s%u.~", i );
					x.it.reset( );
					x.type = -1, x.pos = 0;
				} else {
					// a range over all the elements of one underlying type
					Under<1> const f( 0 ), l( 3 );
					daw::InputRange<int> r( f, l );
					int n = 0;
					for( int const &v : r ) {
						MC_CHECK( n < 3 and &v == &data[n], "range", "element %d after%s", n, h );
						++n;
					}
					MC_CHECK( n == 3, "range", "%d elements", n );
				}
				for( unsigned a = 0; a != 2; ++a ) {
					auto &p = s[a];
					if( not p.it or p.type < 0 ) {
						continue;
					}
					MC_CHECK( std::addressof( **p.it ) == &data[p.pos] and p.it->operator->( ) == &data[p.pos], "read", "s%u reads %d, want %d after%s", a, **p.it, data[p.pos], h );
					for( unsigned c = 0; c != 2; ++c ) {
						auto &q = s[c];
						if( not q.it or q.type < 0 ) {
							continue;
						}
						MC_CHECK( p.it->are_same_base_iterator_type( *q.it ) == ( p.type == q.type ), "base_type", "s%u s%u after%s", a, c, h );
						if( p.type == q.type ) {
							MC_CHECK( ( *p.it == *q.it ) == ( p.pos == q.pos ) and ( *p.it != *q.it ) == ( p.pos != q.pos ), "equality", "s%u s%u after%s", a, c, h );
						}
					}
				}
				unsigned alive = 0;
				for( auto const &p : s ) {
					alive += p.it and p.type >= 0;
				}
				MC_CHECK( mc::tr::reg.n == alive, "owned", "%u underlying iterators alive, want %u after%s", mc::tr::reg.n, alive, h );
				mc::step( );
			}
		} );
	}

	// ---- searching iterators -----------------------------------------------------
	bool is_one( int x ) {
		return x == 1;
	}
	template<typename It, typename Filter>
	void found( char const *who, std::vector<int> const &v, It first, It last, Filter filter ) {
		std::vector<std::size_t> want;
		for( std::size_t i = 0; i != v.size( ); ++i ) {
			if( v[i] == 1 ) {
				want.push_back( i );
			}
		}
		auto const pos_of = [&]( It it ) {
			std::size_t p = 0;
			for( auto f = first; f != it; ++f ) {
				++p;
			}
			return p;
		};
		daw::find_iterator it( first, last, filter );
		auto post = it;
		auto const end = it.end( );
		std::size_t k = 0;
		for( auto cur = it.begin( ); cur != end; ++cur, ++k ) {
			MC_CHECK( k < want.size( ), "find_extra", "%s in %s", who, show( v ).c_str( ) );
			MC_CHECK( *cur == 1 and pos_of( cur.raw_begin( ) ) == want[k] and *std::as_const( cur ) == 1, "find_position", "%s: match %zu at %zu in %s", who, k, pos_of( cur.raw_begin( ) ), show( v ).c_str( ) );
			MC_CHECK( post == cur and not( post != cur ) and ( cur == end ) == false and *cur.operator->( ) == 1, "find_equal", "%s: match %zu in %s", who, k, show( v ).c_str( ) );
			MC_CHECK( cur.raw_end( ) == last, "find_end", "%s in %s", who, show( v ).c_str( ) );
			auto const old = post++;
			MC_CHECK( old == cur, "postincrement", "%s: match %zu in %s", who, k, show( v ).c_str( ) );
		}
		MC_CHECK( k == want.size( ), "find_missing", "%s: %zu of %zu in %s", who, k, want.size( ), show( v ).c_str( ) );
		MC_CHECK( post == end and post.raw_begin( ) == last, "find_end", "%s in %s", who, show( v ).c_str( ) );
	}
	MC_TEST( find_iterators ) {
		std::vector<int> v( mc::choose( static_cast<unsigned>( mc::by_tier( 7, 11 ) ) ) );
		for( auto &x : v ) {
			x = static_cast<int>( mc::choose( 2 ) );
		}
		found( "pointer, lambda", v, v.data( ), v.data( ) + v.size( ), []( int x ) { return x == 1; } );
		found( "pointer, function", v, v.data( ), v.data( ) + v.size( ), is_one );
		found( "forward, lambda", v, b<Fwd>( v ), e<Fwd>( v ), []( int const &x ) { return x == 1; } );
		int wanted = 1;
		found( "forward, capturing", v, b<Fwd>( v ), e<Fwd>( v ), [wanted]( int x ) { return x == wanted; } );
	}
	MC_TEST( find_one_iterators ) {
		std::vector<int> v( mc::choose( static_cast<unsigned>( mc::by_tier( 6, 8 ) ) ) );
		for( auto &x : v ) {
			x = static_cast<int>( mc::choose( 4 ) );
		}
		auto const one = []( int x ) { return x == 1; };
		auto const low = []( int x ) { return x == 1 or x == 2; }; // overlaps the first
		std::vector<std::pair<std::size_t, std::size_t>> want;
		for( std::size_t i = 0; i != v.size( ); ++i ) {
			if( v[i] == 1 or v[i] == 2 ) {
				want.emplace_back( i, v[i] == 1 ? 0u : 1u );
			} else if( v[i] == 3 ) {
				want.emplace_back( i, 2u );
			}
		}
		auto const three = []( int x ) { return x == 3; };
		daw::find_one_iterator it( b<Fwd>( v ), e<Fwd>( v ), one, low, three );
		std::size_t k = 0;
		auto const end = it.end( );
		auto post = it;
		for( auto cur = it.begin( ); cur != end; ++cur, ++k ) {
			MC_CHECK( k < want.size( ), "find_extra", "find_one in %s", show( v ).c_str( ) );
			auto const r = *cur;
			MC_CHECK( cur.raw_begin( ) == at<Fwd>( v, want[k].first ) and r.value == v[want[k].first], "find_position", "find_one match %zu in %s", k, show( v ).c_str( ) );
			MC_CHECK( r.index == want[k].second and cur->index == want[k].second and cur->value == r.value, "find_index", "find_one match %zu in %s has index %zu", k, show( v ).c_str( ), r.index );
			auto const old = post++;
			MC_CHECK( old == cur and ( *old ).index == r.index, "postincrement", "find_one match %zu in %s", k, show( v ).c_str( ) );
		}
		MC_CHECK( k == want.size( ), "find_missing", "find_one: %zu of %zu in %s", k, want.size( ), show( v ).c_str( ) );
		auto const direct = daw::algorithm::find_one_of( b<Fwd>( v ), e<Fwd>( v ), one, low, three );
		MC_CHECK( want.empty( ) ? direct.position == e<Fwd>( v ) : direct.position == at<Fwd>( v, want[0].first ) and direct.index == want[0].second, "find_one_of", "in %s", show( v ).c_str( ) );
	}

	// ---- take ---------------------------------------------------------------------
	template<typename T, typename Make, typename Get>
	void take_history( Make make, Get get ) {
		std::array<int, 2> want{ 1, 2 }; // 0 is the value of a default constructed T
		std::array<daw::take_t<T>, 2> s{ daw::take_t<T>( make( 1 ) ), daw::take_t<T>( make( 2 ) ) };
		std::string h;
		int next = 3;
		for( int k = 0; k != mc::by_tier( 4, 6 ); ++k ) {
			unsigned const i = mc::choose( 2 ), j = 1 - i;
			unsigned const op = mc::choose( 8 );
			h += mc::strf( " op%u(%u)", op, i );
			switch( op ) {
			case 0: {
				T const got = *std::move( s[i] );
				MC_CHECK( get( got ) == want[i], "take_value", "after%s", h.c_str( ) );
				want[i] = 0;
				break;
			}
			case 1: {
				T const got = std::move( s[i] ).get( );
				MC_CHECK( get( got ) == want[i], "take_value", "after%s", h.c_str( ) );
				want[i] = 0;
				break;
			}
			case 2:
				s[i].reset( );
				want[i] = 0;
				break;
			case 3:
				s[i] = std::move( s[j] );
				want[i] = want[j];
				want[j] = 0;
				break;
			case 4: {
				auto &self = s[i];
				s[i] = std::move( self );
				break;
			}
			case 5: {
				daw::take_t<T> other( std::move( s[i] ) );
				MC_CHECK( get( *other ) == want[i], "take_value", "moved after%s", h.c_str( ) );
				want[i] = 0;
				break;
			}
			case 6: {
				T const got = daw::take( s[i].get( ) );
				MC_CHECK( get( got ) == want[i], "take_value", "after%s", h.c_str( ) );
				want[i] = 0;
				break;
			}
			default:
				*s[i] = make( next );
				want[i] = next++;
				break;
			}
			for( unsigned x = 0; x != 2; ++x ) {
				MC_CHECK( get( *s[x] ) == want[x] and get( std::as_const( s[x] ).get( ) ) == want[x] and s[x].operator->( ) == &*s[x], "take_rest", "slot %u has %d, want %d after%s", x, get( *s[x] ), want[x],
				          h.c_str( ) );
			}
			mc::step( );
		}
	}
	MC_TEST( take_scalar ) {
		take_history<int>( []( int x ) { return x; }, []( int const &x ) { return x; } );
	}
	MC_TEST( take_owner ) {
		take_history<std::unique_ptr<int>>( []( int x ) { return std::make_unique<int>( x ); }, []( std::unique_ptr<int> const &p ) { return p ? *p : 0; } );
	}
	MC_TEST( take_string ) {
		take_history<std::string>( []( int x ) { return std::string( static_cast<std::size_t>( x ) * 20, 'a' ); },
		                           []( std::string const &p ) { return static_cast<int>( p.size( ) / 20 ); } );
	}
} // namespace
