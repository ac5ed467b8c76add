// rc_ptr: every history of ownership operations over three owners and two kinds
// of managed thing, against a map from object to its number of owners.
#include "mc.h"
#include <functional>
#include <map>
#include <utility>
#include <vector>

#include <daw/daw_ref_counted_pointer.h>

namespace {
	struct Life {
		int v[256]; // 1 alive, 2 destroyed
		std::size_t n = 0;
		int add( ) { v[n] = 1; return int( n++ ); }
		void kill( int i ) {
			if( v[i] != 1 ) mc::fail_later( "double-destroy", "object %d is destroyed twice", i );
			v[i] = 2;
		}
	} life;
	struct Obj {
		int id;
		Obj( ) : id( life.add( ) ) {}
		explicit Obj( int ) : id( life.add( ) ) {}
		Obj( Obj const & ) = delete;
		~Obj( ) { life.kill( id ); }
	};
	struct TrackDelete { // own deleter
		void operator( )( Obj *p ) const noexcept { if( not p ) mc::fail_later( "delete-null", "deleter called on null" ); delete p; }
	};

	template<typename P, typename Make>
	void history( int depth, unsigned n_slots, Make make, std::size_t per_object ) {
		life.n = 0;
		{
			std::vector<P> s( n_slots );
			std::vector<int> m( n_slots, -1 ); // id of first managed element
			for( int d = 0; d <= depth; ++d ) {
				std::map<int, std::size_t> owners;
				for( int x : m ) if( x >= 0 ) ++owners[x];
				for( int i = 0; i < int( life.n ); ++i ) {
					bool want = false;
					for( auto &[k, c] : owners ) want = want or ( i >= k and i < k + int( per_object ) );
					MC_CHECK( ( life.v[i] == 1 ) == want, "alive", "object %d is %s", i, life.v[i] == 1 ? "alive without an owner" : "destroyed while owned" );
				}
				std::uint64_t h = 0;
				for( unsigned i = 0; i < n_slots; ++i ) {
					auto const &c = s[i];
					bool const set = m[i] >= 0;
					MC_CHECK( bool( c ) == set and ( c.get( ) != nullptr ) == set and ( c == nullptr ) == not set and ( c != nullptr ) == set, "null", "owner %u is %s, expected %s", i, c ? "set" : "null", set ? "set" : "null" );
					MC_CHECK( ( c < nullptr ) == false and ( c > nullptr ) == set and ( c <= nullptr ) == not set and ( c >= nullptr ) == true, "null-order", "ordering of owner %u against nullptr", i );
					if( set ) {
						MC_CHECK( c->id == m[i] and ( *c ).id == m[i], "object", "owner %u has object %d, expected %d", i, c->id, m[i] );
						MC_CHECK( c.ref_count( ) == owners[m[i]] and s[i].ref_count( ) == owners[m[i]], "count", "object %d has count %zu, %zu owners", m[i], c.ref_count( ), owners[m[i]] );
					}
					for( unsigned k = 0; k < n_slots; ++k ) {
						auto const &e = s[k];
						std::less<> lt;
						MC_CHECK( ( c == e ) == ( m[i] == m[k] ) and ( c != e ) == ( m[i] != m[k] ), "equal", "equality of owners %u and %u", i, k );
						MC_CHECK( ( c < e ) == lt( c.get( ), e.get( ) ) and ( c > e ) == lt( e.get( ), c.get( ) ) and ( c <= e ) == not lt( e.get( ), c.get( ) ) and ( c >= e ) == not lt( c.get( ), e.get( ) ), "order", "order of owners %u and %u", i, k );
					}
					// canonical: which owners share; a null owner that kept its counter differs from a fresh one
					unsigned first = i;
					for( unsigned k = 0; k < i; ++k ) if( set and m[k] == m[i] ) { first = k; break; }
					void *raw[2];
					static_assert( sizeof( P ) >= sizeof raw );
					std::memcpy( raw, reinterpret_cast<char const *>( &s[i] ) + ( sizeof( P ) - sizeof raw ), sizeof raw );
					h = mc::mix( h, ( set ? first + 1 : 0 ) * 4 + ( raw[0] != nullptr ) * 2 + ( raw[1] != nullptr ) );
				}
				if( d == depth or not mc::enter_state( h, unsigned( depth - d ) ) ) break;
				unsigned const op = mc::choose( 10 );
				unsigned const i = mc::choose( n_slots ), j = op < 4 ? mc::choose( n_slots ) : 0;
				mc::step( );
				char const *name = "";
				switch( op ) {
				case 0: name = "copy assign"; { auto &r = s[i] = std::as_const( s[j] ); MC_CHECK( &r == &s[i], "assign-ref", "assignment returns another object" ); m[i] = m[j]; } break;
				case 1: name = "move assign"; { auto &src = s[j]; s[i] = std::move( src ); int x = m[j]; if( i != j ) m[j] = -1; m[i] = x; } break;
				case 2: name = "swap"; s[i].swap( s[j] ); std::swap( m[i], m[j] ); break;
				case 3: name = "daw::swap"; { using daw::swap; swap( s[i], s[j] ); std::swap( m[i], m[j] ); } break;
				case 4: name = "= make"; { int id = int( life.n ); s[i] = make( ); m[i] = id; } break;
				case 5: name = "reset"; s[i].reset( ); m[i] = -1; break;
				case 6: name = "copy construct"; { P t( std::as_const( s[i] ) ); MC_CHECK( t.get( ) == s[i].get( ), "copy-ctor", "copy" ); if( m[i] >= 0 ) MC_CHECK( t.ref_count( ) == owners[m[i]] + 1, "copy-ctor", "count %zu after a copy of %zu owners", t.ref_count( ), owners[m[i]] ); } break;
				case 7: name = "move construct"; { P t( std::move( s[i] ) ); MC_CHECK( not s[i] and bool( t ) == ( m[i] >= 0 ), "move-ctor", "move construction" ); m[i] = -1; } break;
				case 8: name = "= null"; s[i] = P( ); m[i] = -1; break;
				case 9: name = "= P(nullptr pointer)"; { typename P::pointer np = nullptr; s[i] = P( np ); m[i] = -1; } break;
				}
				mc::note( "%s %u %u", name, i, j );
			}
		}
		for( int i = 0; i < int( life.n ); ++i ) MC_CHECK( life.v[i] == 2, "leak", "object %d is never destroyed", i );
	}

	// many owners of one thing: the count neither wraps nor saturates
	template<typename P, typename Make>
	void many_owners( Make make ) {
		unsigned const counts[] = { 100, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000 };
		unsigned const n = counts[mc::choose( 13 )];
		unsigned const how = mc::choose( 3 );
		life.n = 0;
		{
			P first = make( );
			std::vector<P> v;
			v.reserve( n );
			for( unsigned i = 1; i < n; ++i ) {
				v.push_back( how == 1 and i > 1 ? v.back( ) : first );
				MC_CHECK( first.ref_count( ) == i + 1, "many-count", "%zu after %u copies", first.ref_count( ), i );
			}
			MC_CHECK( life.n >= 1 and life.v[0] == 1, "many-alive", "destroyed while %u own it", n );
			if( how == 2 ) {
				P const null{ };
				for( auto &p : v ) p = null;
			}
			while( not v.empty( ) ) {
				v.pop_back( );
				if( how != 2 ) MC_CHECK( first.ref_count( ) == v.size( ) + 1, "many-count", "%zu with %zu owners left", first.ref_count( ), v.size( ) + 1 );
				MC_CHECK( life.v[0] == 1, "many-alive", "destroyed while %zu own it", v.size( ) + 1 );
			}
			MC_CHECK( first.ref_count( ) == 1, "many-count", "%zu at the end", first.ref_count( ) );
		}
		for( std::size_t i = 0; i < life.n; ++i ) MC_CHECK( life.v[i] == 2, "many-leak", "element %zu is never destroyed after %u owners", i, n );
	}

	// nodes that own one another: assignment from inside the released object
	template<bool Move>
	void chain( ) {
		struct Node {
			int id = life.add( );
			daw::rc_ptr<Node> next;
			~Node( ) noexcept { life.kill( id ); }
		};
		life.n = 0;
		unsigned const len = 1 + mc::choose( 4 );
		bool const shared = mc::choose( 2 );
		{
			daw::rc_ptr<Node> head;
			for( unsigned i = 0; i < len; ++i ) {
				daw::rc_ptr<Node> n( new Node );
				n->next = head;
				head = std::move( n );
			}
			daw::rc_ptr<Node> keep;
			if( shared ) keep = head;
			for( int left = int( len ) - 1; left >= 0; --left ) {
				if( Move ) head = std::move( head->next );
				else head = head->next;
				if( left ) MC_CHECK( head and head->id == left - 1, "chain", "walking to %d", left - 1 );
				else MC_CHECK( not head, "chain", "the end is not null" );
				if( not shared ) for( int i = 0; i < int( len ); ++i ) MC_CHECK( ( life.v[i] == 1 ) == ( i < left ), "chain-alive", "node %d", i );
				if( Move and shared ) break;
			}
		}
		for( unsigned i = 0; i < len; ++i ) MC_CHECK( life.v[i] == 2, "leak", "node %u is never destroyed", i );
	}
} // namespace

MC_TEST( single ) { history<daw::rc_ptr<Obj>>( mc::by_tier( 6, 9 ), 3, [] { return daw::make_rc_ptr<Obj>( 1 ); }, 1 ); }
MC_TEST( deleter ) { history<daw::rc_ptr<Obj, TrackDelete>>( mc::by_tier( 5, 8 ), 3, [] { return daw::rc_ptr<Obj, TrackDelete>( new Obj ); }, 1 ); }
MC_TEST( array ) { history<daw::rc_ptr<Obj[]>>( mc::by_tier( 6, 9 ), 3, [] { return daw::make_rc_ptr<Obj[]>( 2 ); }, 2 ); }
MC_TEST( array_overwrite ) { history<daw::rc_ptr<Obj[]>>( mc::by_tier( 4, 6 ), 2, [] { return daw::make_rc_ptr_for_overwrite<Obj[]>( 3 ); }, 3 ); }
MC_TEST( four_owners ) { history<daw::rc_ptr<Obj>>( mc::by_tier( 4, 7 ), 4, [] { return daw::make_rc_ptr<Obj>( 1 ); }, 1 ); }
MC_TEST( many ) { many_owners<daw::rc_ptr<Obj>>( [] { return daw::make_rc_ptr<Obj>( 1 ); } ); }
MC_TEST( many_array ) { many_owners<daw::rc_ptr<Obj[]>>( [] { return daw::make_rc_ptr<Obj[]>( 3 ); } ); }
MC_TEST( long_arrays ) {
	std::size_t const lengths[] = { 15, 16, 17, 33, 64, 65, 127, 128, 129, 255 };
	std::size_t const n = lengths[mc::choose( 10 )];
	bool const overwrite = mc::choose( 2 );
	life.n = 0;
	{
		auto a = overwrite ? daw::make_rc_ptr_for_overwrite<Obj[]>( n ) : daw::make_rc_ptr<Obj[]>( n );
		auto b = a;
		a.reset( );
		for( std::size_t i = 0; i < n; ++i ) MC_CHECK( b[i].id == int( i ) and life.v[i] == 1, "long-array", "element %zu of %zu", i, n );
		MC_CHECK( life.n == n, "long-array", "%zu elements for an array of %zu", life.n, n );
	}
	for( std::size_t i = 0; i < n; ++i ) MC_CHECK( life.v[i] == 2, "long-array", "element %zu of %zu is never destroyed", i, n );
	auto z = daw::make_rc_ptr<int[]>( n );
	for( std::size_t i = 0; i < n; ++i ) MC_CHECK( z[i] == 0, "long-array", "element %zu of %zu is not zero", i, n );
}
MC_TEST( chain_copy ) { chain<false>( ); }
MC_TEST( chain_move ) { chain<true>( ); }
MC_TEST( elements ) {
	for( std::size_t n = 0; n <= 4; ++n ) {
		life.n = 0;
		{
			auto a = daw::make_rc_ptr<Obj[]>( n );
			auto b = a;
			for( std::size_t i = 0; i < n; ++i ) MC_REQUIRE( a[i].id == int( i ) and &a[i] == &b[i] );
			MC_REQUIRE( a.ref_count( ) == 2 );
		}
		for( std::size_t i = 0; i < n; ++i ) MC_REQUIRE( life.v[i] == 2 );
		auto z = daw::make_rc_ptr<int[]>( n );
		for( std::size_t i = 0; i < n; ++i ) MC_REQUIRE( z[i] == 0 );
	}
	struct Agg { int a, b; };
	auto g = daw::make_rc_ptr<Agg>( 1, 2 );
	MC_REQUIRE( g->a == 1 and g->b == 2 );
}
