// Unique owners: every history of ownership operations over two slots (plus
// temporaries) up to a depth; each resource carries an identity whose disposals
// are counted, and must be disposed of exactly when its last owner gives it up.
#include "mc.h"
#include "mc_tracked.h"
#include <map>
#include <set>
#include <stdexcept>
#include <utility>
#include <vector>

#include <daw/daw_maybe_unique_ptr.h>
#include <daw/daw_unique_array.h>
#include <daw/daw_unique_ptr.h>
#include <daw/daw_unique_resource.h>

namespace {
	// ---- resources ---------------------------------------------------------------
	struct Life { // per id: 1 alive, 2 disposed (fixed storage: outlives an execution)
		int v[256];
		std::size_t n = 0;
		void clear( ) { n = 0; }
		std::size_t size( ) const { return n; }
		int &operator[]( std::size_t i ) { return v[i]; }
		void push_back( int x ) { v[n++] = x; }
	} life;
	int fresh( ) {
		life.push_back( 1 );
		return int( life.size( ) ) - 1;
	}
	void dispose( int id ) {
		if( id < 0 or id >= int( life.size( ) ) ) { mc::fail_later( "dispose-unknown", "something that is not a resource (%d) is disposed of", id ); return; }
		if( life[std::size_t( id )] != 1 ) mc::fail_later( "double-dispose", "resource %d is disposed of twice", id );
		life[std::size_t( id )] = 2;
	}
	struct Base {
		int id;
		explicit Base( int i ) : id( i ) {}
		Base( ) : id( fresh( ) ) {}
		Base( Base const & ) = delete;
		virtual ~Base( ) { dispose( id ); }
		virtual int kind( ) const { return 0; }
	};
	struct Derived : Base {
		using Base::Base;
		int kind( ) const override { return 1; }
	};
	struct Plain { // aggregate
		int id;
		int other;
	};

	struct Slot {
		int id = -1;
		bool owned = true;
	};
	struct World {
		std::vector<int> loose; // released or never owned: still alive, disposed of by nobody
		void check( std::initializer_list<int> owned_ids, char const *op ) const {
			std::set<int> alive( loose.begin( ), loose.end( ) );
			for( int i : owned_ids ) if( i >= 0 ) alive.insert( i );
			for( int i = 0; i < int( life.size( ) ); ++i )
				MC_CHECK( ( life[std::size_t( i )] == 1 ) == ( alive.count( i ) == 1 ), "disposal", "after %s: resource %d is %s, expected %s", op, i, life[std::size_t( i )] == 1 ? "alive" : "disposed of", alive.count( i ) ? "alive" : "disposed of" );
		}
	};

	template<typename P>
	void compare_all( P const &a, P const &b ) {
		std::less<void> lt;
		auto x = a.get( ), y = b.get( );
		MC_CHECK( ( a == b ) == ( x == y ) and ( a != b ) == ( x != y ), "owner-equal", "== or != disagrees with the pointers" );
		MC_CHECK( ( a < b ) == lt( x, y ) and ( a > b ) == lt( y, x ), "owner-less", "< or > disagrees with the pointers" );
		MC_CHECK( ( a <= b ) == not lt( y, x ) and ( a >= b ) == not lt( x, y ), "owner-less-equal", "<= or >= disagrees with the pointers" );
	}

	// ---- unique_ptr to one object ----------------------------------------------------
	void unique_single( int depth ) {
		life.clear( );
		World w;
		std::vector<Base *> to_free;
		{
			daw::unique_ptr<Base> s[2];
			int m[2] = { -1, -1 };
			for( int d = 0; d <= depth; ++d ) {
				for( int i = 0; i < 2; ++i ) {
					auto const &c = s[i];
					MC_CHECK( bool( c ) == ( m[i] >= 0 ), "owner-bool", "owner %d is %s, expected %s", i, c ? "set" : "null", m[i] >= 0 ? "set" : "null" );
					MC_CHECK( ( c.get( ) != nullptr ) == ( m[i] >= 0 ), "owner-get", "owner %d get", i );
					if( m[i] >= 0 ) MC_CHECK( c->id == m[i] and ( *c ).id == m[i] and c.get( )->id == m[i], "owner-object", "owner %d holds resource %d, expected %d", i, c->id, m[i] );
				}
				compare_all( s[0], s[1] );
				compare_all( s[1], s[0] );
				compare_all( s[0], s[0] );
				if( d == depth or not mc::enter_state( mc::mix( m[0] >= 0, mc::mix( m[1] >= 0, w.loose.size( ) ) ), unsigned( depth - d ) ) ) break;
				unsigned const op = mc::choose( 14 );
				int const i = int( mc::choose( 2 ) ), j = 1 - i;
				char const *name = "";
				mc::step( );
				switch( op ) {
				case 0: name = "reset(new)"; { auto *p = new Base( fresh( ) ); m[i] = p->id; s[i].reset( p ); } break;
				case 1: name = "= make_unique"; { int id = fresh( ); s[i] = daw::make_unique<Base>( id ); m[i] = id; } break;
				case 2: name = "= make_unique<Derived>"; { int id = fresh( ); s[i] = daw::make_unique<Derived>( id ); m[i] = id; MC_CHECK( s[i]->kind( ) == 1, "owner-kind", "wrong dynamic type" ); } break;
				case 3: name = "= move(other)"; s[i] = std::move( s[j] ); m[i] = m[j]; m[j] = -1; break;
				case 4: name = "self move"; { auto &r = s[i]; s[i] = std::move( r ); } break;
				case 5: name = "move construct"; { daw::unique_ptr<Base> t( std::move( s[i] ) ); MC_CHECK( not s[i] and bool( t ) == ( m[i] >= 0 ), "move-ctor", "move construction left the source set" ); m[i] = -1; } break;
				case 6: name = "round trip"; { daw::unique_ptr<Base> t( std::move( s[i] ) ); s[i] = std::move( t ); } break;
				case 7: name = "release"; { auto *p = s[i].release( ); MC_CHECK( ( p != nullptr ) == ( m[i] >= 0 ), "release", "release" ); if( p ) { MC_CHECK( p->id == m[i], "release", "released %d", p->id ); w.loose.push_back( p->id ); to_free.push_back( p ); } m[i] = -1; } break;
				case 8: name = "reset()"; s[i].reset( ); m[i] = -1; break;
				case 9: name = "swap"; s[i].swap( s[j] ); std::swap( m[0], m[1] ); break;
				case 10: name = "= nullptr"; s[i] = nullptr; m[i] = -1; break;
				case 11: name = "transform"; { int r = s[i].transform( []( auto &p ) { return p ? p->id : -7; } ); MC_CHECK( r == ( m[i] >= 0 ? m[i] : -7 ), "transform", "transform" );
					int r2 = std::as_const( s[i] ).transform( []( auto const &p ) { return p ? p->id : -7; } ); MC_CHECK( r2 == r, "transform", "const transform" ); } break;
				case 12: name = "and_then"; { int r = std::move( s[i] ).and_then( []( daw::unique_ptr<Base> p ) { return p->id + 1; } ); MC_CHECK( r == ( m[i] >= 0 ? m[i] + 1 : 0 ), "and-then", "and_then gave %d", r ); m[i] = -1; } break;
				case 13: name = "or_else"; { bool called = false; int id = -1; auto t = std::move( s[i] ).or_else( [&] { called = true; id = fresh( ); return daw::make_unique<Base>( id ); } ); MC_CHECK( called == ( m[i] < 0 ), "or-else", "or_else called %d", called ); int want = called ? id : m[i]; MC_CHECK( t and t->id == want, "or-else", "or_else result" ); s[j] = std::move( t ); m[j] = want; m[i] = -1; } break;
				}
				mc::note( "%s on %d", name, i );
				w.check( { m[0], m[1] }, name );
			}
		}
		w.check( { }, "destruction" );
		for( auto *p : to_free ) delete p;
		w.loose.clear( );
		w.check( { }, "end" );
	}

	// ---- unique_ptr with a stateful deleter ----------------------------------------
	struct Shape {
		int id;
		int other; // the deleter that may dispose of it
		Shape( int i, int o ) : id( i ), other( o ) {}
		virtual ~Shape( ) = default;
	};
	struct Round : Shape {
		using Shape::Shape;
	};
	struct TagDeleter {
		int tag = 0;
		void operator( )( Shape *p ) const {
			if( p->other != tag ) mc::fail_later( "wrong-deleter", "resource %d of deleter %d is disposed of by deleter %d", p->id, p->other, tag );
			dispose( p->id );
			delete p;
		}
	};
	template<template<typename, typename> class Owner>
	void unique_stateful( int depth ) {
		life.clear( );
		World w;
		{
			using P = Owner<Shape, TagDeleter>;
			using Q = Owner<Round, TagDeleter>; // an owner of a derived object, with a deleter of its own
			P s[2];
			int m[2] = { -1, -1 };
			s[0].get_deleter( ).tag = 0;
			s[1].get_deleter( ).tag = 1;
			for( int d = 0; d <= depth; ++d ) {
				for( int i = 0; i < 2; ++i ) {
					auto const &c = s[i];
					MC_CHECK( bool( c ) == ( m[i] >= 0 ) and ( m[i] < 0 or c->id == m[i] ), "owner-object", "owner %d", i );
					MC_CHECK( m[i] < 0 or c.get_deleter( ).tag == c->other, "owner-deleter", "resource %d arrived without its deleter", m[i] );
				}
				if( d == depth or not mc::enter_state( mc::mix( mc::mix( m[0] >= 0, m[1] >= 0 ), mc::mix( s[0].get_deleter( ).tag, s[1].get_deleter( ).tag ) ), unsigned( depth - d ) ) ) break;
				unsigned const op = mc::choose( 13 );
				int const i = int( mc::choose( 2 ) ), j = 1 - i;
				char const *name = "";
				mc::step( );
				switch( op ) {
				case 0: name = "reset(new)"; { int id = fresh( ); s[i].reset( new Shape{ id, s[i].get_deleter( ).tag } ); m[i] = id; } break;
				case 1: name = "= move(other)"; s[i] = std::move( s[j] ); m[i] = m[j]; m[j] = -1; break;
				case 2: name = "move construct"; { P t( std::move( s[i] ) ); MC_CHECK( not s[i] and bool( t ) == ( m[i] >= 0 ), "move-ctor", "move construction" ); m[i] = -1; } break;
				case 3: name = "swap"; s[i].swap( s[j] ); std::swap( m[0], m[1] ); break;
				case 4: name = "reset()"; s[i].reset( ); m[i] = -1; break;
				case 5: name = "self move"; { auto &r = s[i]; s[i] = std::move( r ); } break;
				case 6: name = "new tag"; if( m[i] < 0 ) s[i].get_deleter( ).tag = 2; MC_CHECK( std::as_const( s[i] ).get_deleter( ).tag == s[i].get_deleter( ).tag, "deleter-const", "the deleter differs" ); break;
				case 7: name = "= move(derived)"; { int id = fresh( ); Q q( new Round{ id, 3 } ); q.get_deleter( ).tag = 3; s[i] = std::move( q ); MC_CHECK( not q, "derived-left", "the source of a move still owns" ); m[i] = id; } break;
				case 8: name = "P(move(derived))"; { int id = fresh( ); Q q( new Round{ id, 4 } ); q.get_deleter( ).tag = 4; P t( std::move( q ) ); MC_CHECK( t and t->id == id and not q and t.get_deleter( ).tag == 4, "derived-ctor", "conversion" ); s[i] = std::move( t ); m[i] = id; } break;
				case 9: name = "or_else"; { int const o = s[i].get_deleter( ).tag;
					int id = -1;
					bool asked = false;
					P t = std::move( s[i] ).or_else( [&] { asked = true; id = fresh( ); P n( new Shape{ id, o } ); n.get_deleter( ).tag = o; return n; } );
					MC_CHECK( asked == ( m[i] < 0 ), "or-else-asked", "or_else asks for a replacement: %d", int( asked ) );
					MC_CHECK( t and t->id == ( asked ? id : m[i] ) and not s[i], "or-else", "or_else gives the resource it has, or the replacement" );
					s[i] = std::move( t );
					if( asked ) m[i] = id; } break;
				case 10: name = "= move(unique derived)"; { int id = fresh( ); daw::unique_ptr<Round, TagDeleter> q( new Round{ id, 5 } ); q.get_deleter( ).tag = 5; s[i] = std::move( q ); MC_CHECK( not q, "derived-left", "the source of a move still owns" ); m[i] = id; } break;
				case 11: name = "P(move(unique derived))"; { int id = fresh( ); daw::unique_ptr<Round, TagDeleter> q( new Round{ id, 5 } ); q.get_deleter( ).tag = 5; P t( std::move( q ) ); MC_CHECK( t and t->id == id and not q, "derived-ctor", "conversion" ); s[i] = std::move( t ); m[i] = id; } break;
				case 12: name = "through get_out"; if( m[i] < 0 ) { int id = fresh( ); *s[i].get_out( ) = new Shape{ id, s[i].get_deleter( ).tag }; m[i] = id; } break;
				}
				mc::note( "%s on %d", name, i );
				w.check( { m[0], m[1] }, name );
			}
		}
		w.check( { }, "destruction" );
	}

	// ---- unique_ptr over a handle that is not a pointer ---------------------------------
	struct Handle {
		int v = -1;
		Handle( ) = default;
		constexpr Handle( int x ) : v( x ) {}
		explicit operator bool( ) const { return v >= 0; }
		bool operator==( Handle const & ) const = default;
		auto operator<=>( Handle const & ) const = default;
	};
	struct HandleDeleter {
		using pointer = Handle;
		void operator( )( Handle h ) const { dispose( h.v ); }
	};
	struct CheckedDeleter { // a raw int: tells empty apart by itself
		using pointer = int;
		using does_validity_check = void;
		static constexpr int default_pointer_value = -1;
		void operator( )( int h ) const { if( h >= 0 ) dispose( h ); }
	};
	template<typename D, typename GetId>
	void unique_handle( int depth, GetId get_id ) {
		life.clear( );
		World w;
		{
			using P = daw::unique_ptr<int, D>;
			P s[2];
			int m[2] = { -1, -1 };
			for( int d = 0; d <= depth; ++d ) {
				for( int i = 0; i < 2; ++i ) MC_CHECK( get_id( s[i].get( ) ) == m[i], "handle-get", "owner %d holds %d, expected %d", i, get_id( s[i].get( ) ), m[i] );
				if( d == depth or not mc::enter_state( mc::mix( mc::mix( m[0] >= 0, m[1] >= 0 ), w.loose.size( ) * 4 + ( m[0] == 0 ) * 2 + ( m[1] == 0 ) ), unsigned( depth - d ) ) ) break;
				unsigned const op = mc::choose( 8 );
				int const i = int( mc::choose( 2 ) ), j = 1 - i;
				char const *name = "";
				mc::step( );
				switch( op ) {
				case 0: name = "reset(new)"; { int id = fresh( ); s[i].reset( id ); m[i] = id; } break;
				case 1: name = "= move(other)"; s[i] = std::move( s[j] ); m[i] = m[j]; m[j] = -1; break;
				case 2: name = "move construct"; { P t( std::move( s[i] ) ); MC_CHECK( get_id( s[i].get( ) ) == -1 and get_id( t.get( ) ) == m[i], "move-ctor", "move construction" ); m[i] = -1; } break;
				case 3: name = "swap"; s[i].swap( s[j] ); std::swap( m[0], m[1] ); break;
				case 4: name = "reset()"; s[i].reset( ); m[i] = -1; break;
				case 5: name = "self move"; { auto &r = s[i]; s[i] = std::move( r ); } break;
				case 6: name = "release"; { auto h = s[i].release( ); MC_CHECK( get_id( h ) == m[i], "release", "released %d", get_id( h ) ); if( m[i] >= 0 ) w.loose.push_back( m[i] ); m[i] = -1; } break;
				case 7: name = "get_out"; if( m[i] < 0 ) { int id = fresh( ); *s[i].get_out( ) = id; m[i] = id; } break;
				}
				mc::note( "%s on %d", name, i );
				w.check( { m[0], m[1] }, name );
			}
		}
		w.check( { }, "destruction" );
	}

	// ---- unique_ptr to an array --------------------------------------------------------
	struct Elem {
		int id;
		Elem( ) : id( fresh( ) ) {}
		~Elem( ) { dispose( id ); }
	};
	void unique_arrays( int depth ) {
		life.clear( );
		{
			using P = daw::unique_ptr<Elem[]>;
			P s[2];
			std::vector<int> m[2];
			std::vector<Elem *> to_free;
			std::vector<int> loose;
			for( int d = 0; d <= depth; ++d ) {
				for( int i = 0; i < 2; ++i ) {
					auto const &c = s[i];
					MC_CHECK( ( c.get( ) != nullptr ) == bool( c ), "owner-bool", "owner %d", i );
					for( std::size_t k = 0; k < m[i].size( ); ++k ) MC_CHECK( c[k].id == m[i][k], "array-element", "element %zu is %d, expected %d", k, c[k].id, m[i][k] );
					if( not m[i].empty( ) ) MC_CHECK( ( *c ).id == m[i][0] and c->id == m[i][0] and c, "array-front", "front" );
				}
				compare_all( s[0], s[1] );
				compare_all( s[1], s[0] );
				{
					std::set<int> alive( loose.begin( ), loose.end( ) );
					for( auto &v : m ) alive.insert( v.begin( ), v.end( ) );
					for( int k = 0; k < int( life.size( ) ); ++k ) MC_CHECK( ( life[std::size_t( k )] == 1 ) == ( alive.count( k ) == 1 ), "disposal", "element %d is %s", k, life[std::size_t( k )] == 1 ? "still alive" : "already disposed of" );
				}
				if( d == depth or not mc::enter_state( mc::mix( mc::mix( m[0].size( ), m[1].size( ) ), mc::mix( loose.size( ), std::uint64_t( bool( s[0] ) + 2 * bool( s[1] ) ) ) ), unsigned( depth - d ) ) ) break;
				unsigned const op = mc::choose( 8 );
				int const i = int( mc::choose( 2 ) ), j = 1 - i;
				mc::step( );
				auto expect = [&]( std::size_t n ) { m[i].clear( ); for( std::size_t k = 0; k < n; ++k ) m[i].push_back( int( life.size( ) - n + k ) ); };
				switch( op ) {
				case 0: s[i] = daw::make_unique<Elem[]>( 2 ); expect( 2 ); break;
				case 1: s[i] = daw::make_unique_array<Elem[]>( Elem{ } ); MC_CHECK( s[i], "make", "null" ); m[i] = { s[i][0].id }; life[std::size_t( m[i][0] )] = 1; break;
				case 2: s[i] = std::move( s[j] ); m[i] = m[j]; m[j].clear( ); break;
				case 3: { auto &r = s[i]; s[i] = std::move( r ); } break;
				case 4: { P t( std::move( s[i] ) ); MC_CHECK( not s[i], "move-ctor", "source still set" ); m[i].clear( ); } break;
				case 5: { auto *p = s[i].release( ); MC_CHECK( not s[i], "release", "source still set" ); if( p ) { to_free.push_back( p ); loose.insert( loose.end( ), m[i].begin( ), m[i].end( ) ); } m[i].clear( ); } break;
				case 6: s[i].reset( ); m[i].clear( ); break;
				case 7: s[i].swap( s[j] ); std::swap( m[0], m[1] ); break;
				}
				mc::note( "op %u on %d", op, i );
			}
			for( auto *p : to_free ) delete[] p;
		}
		for( int k = 0; k < int( life.size( ) ); ++k ) MC_CHECK( life[std::size_t( k )] == 2, "disposal", "element %d is never disposed of", k );
	}

	// ---- maybe_unique_ptr -----------------------------------------------------------------
	void maybe_unique( int depth ) {
		life.clear( );
		World w;
		std::vector<Base *> to_free;
		{
			using P = daw::maybe_unique_ptr<Base>;
			P s[2];
			Slot m[2];
			for( int d = 0; d <= depth; ++d ) {
				for( int i = 0; i < 2; ++i ) {
					auto const &c = s[i];
					MC_CHECK( bool( c ) == ( m[i].id >= 0 ) and ( c.get( ) != nullptr ) == ( m[i].id >= 0 ), "owner-bool", "owner %d is %s", i, c ? "set" : "null" );
					if( m[i].id >= 0 ) MC_CHECK( c->id == m[i].id and ( *c ).id == m[i].id, "owner-object", "owner %d holds resource %d, expected %d", i, c->id, m[i].id );
				}
				compare_all( s[0], s[1] );
				compare_all( s[1], s[0] );
				std::uint64_t h = w.loose.size( );
				for( int i = 0; i < 2; ++i ) {
					unsigned char raw[sizeof( P )];
					std::memcpy( raw, static_cast<void const *>( &s[i] ), sizeof raw );
					// the ownership flag is private: take it from the object's bytes
					h = mc::mix( h, std::uint64_t( ( m[i].id >= 0 ) + 2 * m[i].owned ) + 4ULL * raw[sizeof( void * )] );
				}
				if( d == depth or not mc::enter_state( h, unsigned( depth - d ) ) ) break;
				unsigned const op = mc::choose( 19 );
				int const i = int( mc::choose( 2 ) ), j = 1 - i;
				char const *name = "";
				auto borrowed = [&]( Base *p ) { w.loose.push_back( p->id ); to_free.push_back( p ); return p; };
				mc::step( );
				switch( op ) {
				case 0: name = "reset(new)"; { int id = fresh( ); s[i].reset( new Base( id ) ); m[i] = { id, true }; } break;
				case 1: name = "reset(p,false)"; { int id = fresh( ); s[i].reset( borrowed( new Base( id ) ), false ); m[i] = { id, false }; } break;
				case 2: name = "= P(p,false)"; { int id = fresh( ); s[i] = P( borrowed( new Base( id ) ), false ); m[i] = { id, false }; } break;
				case 3: name = "= P(p,true)"; { int id = fresh( ); s[i] = P( new Base( id ), true ); m[i] = { id, true }; } break;
				case 4: name = "= make_maybe_unique"; { int id = fresh( ); s[i] = daw::make_maybe_unique<Base>( id ); m[i] = { id, true }; } break;
				case 5: name = "= make_maybe_unique<Derived>"; { int id = fresh( ); s[i] = daw::make_maybe_unique<Derived>( id ); m[i] = { id, true }; } break;
				case 6: name = "= maybe<Derived>(p,false)"; { int id = fresh( ); auto *p = new Derived( id ); borrowed( p ); s[i] = daw::maybe_unique_ptr<Derived>( p, false ); m[i] = { id, false }; } break;
				case 7: name = "= unique_ptr<Derived>"; { int id = fresh( ); s[i] = daw::make_unique<Derived>( id ); m[i] = { id, true }; } break;
				case 8: name = "= move(other)"; s[i] = std::move( s[j] ); m[i] = m[j]; m[j] = { }; break;
				case 9: name = "self move"; { auto &r = s[i]; s[i] = std::move( r ); } break;
				case 10: name = "move construct"; { P t( std::move( s[i] ) ); MC_CHECK( not s[i] and bool( t ) == ( m[i].id >= 0 ), "move-ctor", "move construction" ); m[i] = { }; } break;
				case 11: name = "round trip"; { P t( std::move( s[i] ) ); s[i] = std::move( t ); } break;
				case 12: name = "release"; { auto *p = s[i].release( ); MC_CHECK( ( p != nullptr ) == ( m[i].id >= 0 ), "release", "release" ); if( p and m[i].owned ) borrowed( p ); m[i] = { }; } break;
				case 13: name = "reset()"; s[i].reset( ); m[i] = { }; break;
				case 14: name = "swap"; s[i].swap( s[j] ); std::swap( m[0], m[1] ); break;
				case 15: name = "P(maybe<Derived>)"; { int id = fresh( ); daw::maybe_unique_ptr<Derived> dptr = daw::make_maybe_unique<Derived>( id ); P t( std::move( dptr ) ); MC_CHECK( t and t->id == id and not dptr, "convert", "conversion" ); s[i] = std::move( t ); m[i] = { id, true }; } break;
				case 16: name = "P(Derived*,false)"; { int id = fresh( ); auto *p = new Derived( id ); borrowed( p ); P t( p, false ); s[i] = std::move( t ); m[i] = { id, false }; } break;
				case 17: name = "reset(p,true) over same kind"; { int id = fresh( ); s[i].reset( new Derived( id ), true ); m[i] = { id, true }; } break;
				case 18: name = "transform/and_then"; {
					int r = s[i].transform( []( auto &p ) { return p ? p->id : -7; } );
					MC_CHECK( r == ( m[i].id >= 0 ? m[i].id : -7 ), "transform", "transform" );
					r = std::move( s[i] ).and_then( []( P p ) { return p->id + 1; } );
					MC_CHECK( r == ( m[i].id >= 0 ? m[i].id + 1 : 0 ), "and-then", "and_then" );
					m[i] = { };
				} break;
				}
				mc::note( "%s on %d", name, i );
				w.check( { m[0].owned ? m[0].id : -1, m[1].owned ? m[1].id : -1 }, name );
			}
		}
		w.check( { }, "destruction" );
		for( auto *p : to_free ) delete p;
		w.loose.clear( );
		w.check( { }, "end" );
	}

	// ---- unique_array_t -------------------------------------------------------------------------
	void sized_array( int depth ) {
		using A = daw::unique_array_t<mc::Tracked<>>;
		{
			A s[2];
			std::vector<int> m[2];
			int next = 1;
			for( int d = 0; d <= depth; ++d ) {
				for( int i = 0; i < 2; ++i ) {
					auto &a = s[i];
					auto const &c = s[i];
					auto const n = m[i].size( );
					MC_CHECK( c.size( ) == n and c.capacity( ) == n and c.empty( ) == ( n == 0 ), "array-size", "size %zu, expected %zu", c.size( ), n );
					MC_CHECK( std::size_t( c.end( ) - c.begin( ) ) == n and std::size_t( c.cend( ) - c.cbegin( ) ) == n and std::size_t( a.end( ) - a.begin( ) ) == n, "array-range", "range length" );
					for( std::size_t k = 0; k < n + 2; ++k ) {
						bool threw = false, cthrew = false;
						try { MC_CHECK( mc::val( a.at( k ) ) == m[i].at( k ) and &a.at( k ) == &a[k], "array-at", "at(%zu)", k ); } catch( std::out_of_range const & ) { threw = true; }
						try { MC_CHECK( mc::val( c.at( k ) ) == m[i].at( k ) and &c.at( k ) == &c[k], "array-at", "at(%zu)", k ); } catch( std::out_of_range const & ) { cthrew = true; }
						MC_CHECK( threw == ( k >= n ) and cthrew == threw, "array-at-range", "at(%zu) of %zu %s", k, n, threw ? "throws" : "does not throw" );
						if( k < n ) MC_CHECK( mc::val( c[k] ) == m[i][k] and mc::val( a.begin( )[k] ) == m[i][k] and mc::val( c.cbegin( )[k] ) == m[i][k], "array-element", "element %zu", k );
					}
					if( n ) MC_CHECK( &a.front( ) == &a[0] and &c.front( ) == &c[0] and &a.back( ) == &a[n - 1] and &c.back( ) == &c[n - 1], "array-ends", "front/back" );
				}
				std::uint64_t h = mc::mix( m[0].size( ), m[1].size( ) );
				if( d == depth or not mc::enter_state( h, unsigned( depth - d ) ) ) break;
				unsigned const op = mc::choose( 7 );
				int const i = int( mc::choose( 2 ) ), j = 1 - i;
				mc::step( );
				switch( op ) {
				case 0: { std::size_t n = mc::choose( 4 ); s[i] = A( n, next ); m[i].assign( n, next ); ++next; } break;
				case 1: { std::size_t n = mc::choose( 3 ); s[i] = A( n ); m[i].clear( ); for( auto &e : s[i] ) { e = mc::Tracked<>( next ); m[i].push_back( next++ ); } if( m[i].size( ) != n ) mc::fail( "array-size", "A(%zu) has %zu", n, m[i].size( ) ); } break;
				case 2: s[i] = std::move( s[j] ); m[i] = m[j]; m[j].clear( ); break;
				case 3: { auto &r = s[i]; s[i] = std::move( r ); } break;
				case 4: { A t( std::move( s[i] ) ); MC_CHECK( t.size( ) == m[i].size( ) and s[i].empty( ), "array-move", "move construction" ); m[i].clear( ); } break;
				case 5: for( std::size_t k = 0; k < m[i].size( ); ++k ) { s[i][k] = mc::Tracked<>( next ); m[i][k] = next++; } break;
				case 6: { A t( std::move( s[i] ) ); s[i] = std::move( s[j] ); s[j] = std::move( t ); std::swap( m[0], m[1] ); } break;
				}
				mc::note( "op %u on %d", op, i );
			}
		}
	}
	void sized_array_long( ) {
		using A = daw::unique_array_t<mc::Tracked<>>;
		std::size_t const lengths[] = { 8, 16, 17, 33, 64, 65, 127, 128, 129, 255, 256, 257 };
		std::size_t const n = lengths[mc::choose( 12 )], k = lengths[mc::choose( 12 )];
		A a( n, 7 ), b( k );
		for( std::size_t i = 0; i < k; ++i ) b[i] = mc::Tracked<>( int( i ) );
		MC_CHECK( a.size( ) == n and b.size( ) == k, "array-size", "%zu and %zu for %zu and %zu", a.size( ), b.size( ), n, k );
		for( auto const &e : a ) MC_CHECK( mc::val( e ) == 7, "array-fill", "filled with %d", mc::val( e ) );
		bool const move = mc::choose( 2 );
		if( move ) a = std::move( b ); else { A t( std::move( b ) ); a = std::move( t ); }
		MC_CHECK( a.size( ) == k and b.empty( ), "array-move", "%zu elements after moving %zu", a.size( ), k );
		for( std::size_t i = 0; i < k; ++i ) MC_CHECK( mc::val( a.at( i ) ) == int( i ), "array-element", "element %zu of %zu", i, k );
		bool thrown = false;
		try { (void)a.at( k ); } catch( std::out_of_range const & ) { thrown = true; }
		MC_CHECK( thrown, "array-at-range", "at(%zu) of %zu does not throw", k, k );
		mc::step( );
	}
	void sized_array_throw( ) { // a value that throws while filling leaks nothing
		mc::set_fault_budget( 1 );
		static int alive;
		alive = 0;
		struct E {
			int v = 0;
			E( ) noexcept { ++alive; }
			E( int x ) noexcept( false ) : v( x ) { ++alive; }
			E( E const &o ) noexcept : v( o.v ) { ++alive; }
			E &operator=( E const &o ) {
				if( mc::fault( ) ) throw mc::InjectedFault{ };
				v = o.v;
				return *this;
			}
			~E( ) { --alive; }
		};
		std::size_t const n = mc::choose( 2 ) ? 1 + mc::choose( 4 ) : 17;
		bool threw = false;
		try {
			daw::unique_array_t<E> a( n, 5 );
			for( auto &e : a ) MC_CHECK( e.v == 5, "array-fill", "filled with %d", e.v );
		} catch( mc::InjectedFault const & ) { threw = true; }
		MC_CHECK( alive == 0, "array-fault-leak", "%d of %zu elements survive a construction that %s", alive, n, threw ? "threw" : "succeeded" );
	}

	// ---- unique_resource ------------------------------------------------------------------------
	struct ResDeleter {
		void operator( )( int id ) const { dispose( id ); }
	};
	void resource( int depth ) {
		life.clear( );
		World w;
		{
			using R = daw::unique_resource<int, ResDeleter>;
			R s[2];
			int m[2] = { -1, -1 };
			for( int d = 0; d <= depth; ++d ) {
				for( int i = 0; i < 2; ++i )
					if( m[i] >= 0 ) {
						auto const &c = s[i];
						MC_CHECK( c.get( ) == m[i] and *c == m[i] and *c.operator->( ) == m[i] and s[i].get( ) == m[i] and *s[i] == m[i] and *s[i].operator->( ) == m[i], "resource-value", "resource %d holds %d, expected %d", i, c.get( ), m[i] );
					}
				if( d == depth or not mc::enter_state( mc::mix( mc::mix( m[0] >= 0, m[1] >= 0 ), w.loose.size( ) ), unsigned( depth - d ) ) ) break;
				unsigned const op = mc::choose( 9 );
				int const i = int( mc::choose( 2 ) ), j = 1 - i;
				char const *name = "";
				mc::step( );
				switch( op ) {
				case 0: name = "= R(new)"; { int id = fresh( ); s[i] = R( id ); m[i] = id; } break;
				case 1: name = "reset(new)"; { int id = fresh( ); s[i].reset( id ); m[i] = id; } break;
				case 2: name = "emplace"; { int id = fresh( ); auto &r = s[i].emplace( id ); MC_CHECK( &r == &s[i].get( ) and r == id, "emplace", "emplace" ); m[i] = id; } break;
				case 3: name = "= move(other)"; s[i] = std::move( s[j] ); m[i] = m[j]; m[j] = -1; break;
				case 4: name = "self move"; { auto &r = s[i]; s[i] = std::move( r ); } break;
				case 5: name = "move construct"; { R t( std::move( s[i] ) ); if( m[i] >= 0 ) MC_CHECK( *t == m[i], "move-ctor", "move construction" ); m[i] = -1; } break;
				case 6: name = "release"; if( m[i] >= 0 ) { int id = s[i].release( ); MC_CHECK( id == m[i], "release", "released %d", id ); w.loose.push_back( id ); m[i] = -1; } break;
				case 7: name = "reset()"; s[i].reset( ); m[i] = -1; break;
				case 8: name = "= R()"; s[i] = R( ); m[i] = -1; break;
				}
				mc::note( "%s on %d", name, i );
				w.check( { m[0], m[1] }, name );
			}
		}
		w.check( { }, "destruction" );
	}

	// ---- owners inside of what they own ---------------------------------------------------
	struct Link {
		int id = fresh( );
		daw::unique_ptr<Link> next;
		virtual ~Link( ) { dispose( id ); }
	};
	struct SubLink : Link {
		daw::unique_ptr<SubLink> sub;
	};
	struct ArrayLink {
		int id = fresh( );
		daw::unique_ptr<ArrayLink[]> next;
		~ArrayLink( ) { dispose( id ); }
	};
	struct MaybeLink {
		int id = fresh( );
		daw::maybe_unique_ptr<MaybeLink> next;
		virtual ~MaybeLink( ) { dispose( id ); }
	};
	struct MaybeSubLink : MaybeLink {
		daw::maybe_unique_ptr<MaybeSubLink> sub;
		daw::unique_ptr<MaybeSubLink> whole;
	};
	struct TreeLink {
		int id = fresh( );
		struct Kids;
		Kids *kids = nullptr;
		~TreeLink( );
	};
	struct TreeLink::Kids {
		daw::unique_array_t<TreeLink> all;
	};
	TreeLink::~TreeLink( ) {
		dispose( id );
		delete kids;
	}

	struct ResourceLink;
	struct ResourceLinkDeleter {
		void operator( )( ResourceLink *p ) const;
	};
	struct ResourceLink {
		int id = fresh( );
		daw::unique_resource<ResourceLink *, ResourceLinkDeleter> next{ };
		~ResourceLink( ) { dispose( id ); }
	};
	void ResourceLinkDeleter::operator( )( ResourceLink *p ) const { delete p; }

	// walks down a list by assigning the rest of it to its head
	template<typename Head, typename Make, typename Next>
	void walk( char const *what, Make make, Next step_over ) {
		life.clear( );
		int const len = mc::choose_range( 1, 4 );
		{
			Head head = make( len ); // node 0 at the end, len - 1 in front
			for( int left = len - 1; left >= 0; --left ) {
				step_over( head, left );
				for( int i = 0; i != len; ++i ) MC_CHECK( ( life[std::size_t( i )] == 1 ) == ( i < left ), "inner-owner", "%s: %d of %d left, node %d is %s", what, left, len, i, life[std::size_t( i )] == 1 ? "alive" : "gone" );
				if( left ) MC_CHECK( head.get( ) and head.get( )->id == left - 1, "inner-owner", "%s: walked to another node", what );
				else MC_CHECK( not head.get( ), "inner-owner", "%s: something follows the last node", what );
				mc::step( );
			}
		}
		for( int i = 0; i != len; ++i ) MC_CHECK( life[std::size_t( i )] == 2, "inner-leak", "%s: node %d of %d is never disposed of", what, i, len );
	}
	void inner_owners( ) {
		switch( mc::choose( 9 ) ) {
		case 0: {
			using H = daw::unique_ptr<Link>;
			return walk<H>( "unique_ptr", []( int n ) { H h; for( int i = 0; i < n; ++i ) { H x( new Link ); x->next = std::move( h ); h = std::move( x ); } return h; }, []( H &h, int ) { h = std::move( h->next ); } );
		}
		case 1: {
			using H = daw::unique_ptr<Link>;
			using S = daw::unique_ptr<SubLink>;
			return walk<H>( "unique_ptr of a derived type", []( int n ) { H first; S s; for( int i = 0; i < n; ++i ) { S x( new SubLink ); x->sub = std::move( s ); s = std::move( x ); } first = std::move( s ); return first; }, []( H &h, int ) { h = std::move( static_cast<SubLink *>( h.get( ) )->sub ); } );
		}
		case 2: {
			using H = daw::unique_ptr<ArrayLink[]>;
			return walk<H>( "unique_ptr of an array", []( int n ) { H h; for( int i = 0; i < n; ++i ) { H x( new ArrayLink[1] ); x[0].next = std::move( h ); h = std::move( x ); } return h; }, []( H &h, int ) { h = std::move( h[0].next ); } );
		}
		case 3: {
			using H = daw::maybe_unique_ptr<MaybeLink>;
			return walk<H>( "maybe_unique_ptr", []( int n ) { H h; for( int i = 0; i < n; ++i ) { H x( new MaybeLink, true ); x->next = std::move( h ); h = std::move( x ); } return h; }, []( H &h, int ) { h = std::move( h->next ); } );
		}
		case 4: {
			using H = daw::maybe_unique_ptr<MaybeLink>;
			using S = daw::maybe_unique_ptr<MaybeSubLink>;
			return walk<H>( "maybe_unique_ptr of a derived type", []( int n ) { H first; S s; for( int i = 0; i < n; ++i ) { S x( new MaybeSubLink, true ); x->sub = std::move( s ); s = std::move( x ); } first = std::move( s ); return first; }, []( H &h, int ) { h = std::move( static_cast<MaybeSubLink *>( h.get( ) )->sub ); } );
		}
		case 5: {
			using H = daw::maybe_unique_ptr<MaybeLink>;
			using S = daw::unique_ptr<MaybeSubLink>;
			return walk<H>( "maybe_unique_ptr from a unique_ptr", []( int n ) { H first; S s; for( int i = 0; i < n; ++i ) { S x( new MaybeSubLink ); x->whole = std::move( s ); s = std::move( x ); } first = std::move( s ); return first; }, []( H &h, int ) { h = std::move( static_cast<MaybeSubLink *>( h.get( ) )->whole ); } );
		}
		case 6: {
			using H = daw::unique_ptr<Link>;
			return walk<H>( "unique_ptr reset", []( int n ) { H h; for( int i = 0; i < n; ++i ) { H x( new Link ); x->next = std::move( h ); h = std::move( x ); } return h; }, []( H &h, int ) { h.reset( h->next.release( ) ); } );
		}
		case 7: {
			using H = daw::unique_resource<ResourceLink *, ResourceLinkDeleter>;
			life.clear( );
			int const len = mc::choose_range( 1, 4 );
			{
				H head{ };
				for( int i = 0; i < len; ++i ) {
					H x( new ResourceLink );
					( *x )->next = std::move( head );
					head = std::move( x );
				}
				for( int left = len - 1; left >= 0; --left ) {
					H &rest = ( *head )->next;
					head = std::move( rest );
					for( int i = 0; i != len; ++i ) MC_CHECK( ( life[std::size_t( i )] == 1 ) == ( i < left ), "inner-owner", "unique_resource: %d of %d left, node %d is %s", left, len, i, life[std::size_t( i )] == 1 ? "alive" : "gone" );
					MC_CHECK( head.has_value( ) == ( left != 0 ) and ( not left or ( *head )->id == left - 1 ), "inner-owner", "unique_resource: walked to another node" );
				}
			}
			return;
		}
		default: {
			// all elements of the released array go, and no others
			life.clear( );
			int const n = mc::choose_range( 1, 3 ), at = mc::choose_range( 0, n - 1 ), m = mc::choose_range( 0, 3 );
			{
				daw::unique_array_t<TreeLink> top( static_cast<std::size_t>( n ) );
				int const first_kid = int( life.size( ) );
				top[static_cast<std::size_t>( at )].kids = new TreeLink::Kids{ };
				if( m or mc::choose( 2 ) ) top[static_cast<std::size_t>( at )].kids->all = daw::unique_array_t<TreeLink>( static_cast<std::size_t>( m ) );
				top = std::move( top[static_cast<std::size_t>( at )].kids->all );
				MC_CHECK( top.size( ) == static_cast<std::size_t>( m ), "inner-owner", "unique_array_t: %zu elements, not %d", top.size( ), m );
				for( int i = 0; i < m; ++i ) MC_CHECK( top[static_cast<std::size_t>( i )].id == first_kid + i and life[std::size_t( first_kid + i )] == 1, "inner-owner", "unique_array_t: element %d is gone", i );
				for( int i = 0; i < n; ++i ) MC_CHECK( life[std::size_t( i )] == 2, "inner-owner", "unique_array_t: old element %d stays", i );
			}
			for( std::size_t i = 0; i != life.size( ); ++i ) MC_CHECK( life[i] == 2, "inner-leak", "unique_array_t: element %zu is never disposed of", i );
			return;
		}
		}
	}
} // namespace

MC_TEST( unique_ptr_single ) { unique_single( mc::by_tier( 8, 12 ) ); }
MC_TEST( unique_ptr_deleter ) { unique_stateful<daw::unique_ptr>( mc::by_tier( 6, 9 ) ); }
MC_TEST( maybe_unique_deleter ) { unique_stateful<daw::maybe_unique_ptr>( mc::by_tier( 6, 9 ) ); }
MC_TEST( unique_ptr_handle ) { unique_handle<HandleDeleter>( mc::by_tier( 8, 12 ), []( Handle h ) { return h.v; } ); }
MC_TEST( unique_ptr_checked ) { unique_handle<CheckedDeleter>( mc::by_tier( 8, 12 ), []( int h ) { return h; } ); }
MC_TEST( unique_ptr_array ) { unique_arrays( mc::by_tier( 7, 10 ) ); }
MC_TEST( maybe_unique_ptr ) { maybe_unique( mc::by_tier( 5, 8 ) ); }
MC_TEST( unique_array ) { mc::with_tracking( [] { sized_array( mc::by_tier( 8, 12 ) ); } ); }
MC_TEST( unique_array_long ) { mc::with_tracking( [] { sized_array_long( ); } ); }
MC_TEST( unique_array_faults ) { sized_array_throw( ); }
MC_TEST( unique_resource ) { resource( mc::by_tier( 8, 12 ) ); }
MC_TEST( same_deleter_hierarchy ) {
	life.clear( );
	struct D { void operator( )( Base *p ) const { delete p; } };
	{
		daw::unique_ptr<Base, D> b( new Base( fresh( ) ) );
		daw::unique_ptr<Derived, D> d( new Derived( fresh( ) ) );
		b = std::move( d );
		MC_CHECK( life[0] == 2 and life[1] == 1 and b->id == 1 and not d, "derived-assign", "assignment from a derived pointer" );
	}
	MC_CHECK( life[1] == 2, "disposal", "derived object not disposed of" );
	auto p = daw::make_unique<Plain>( 1, 2 );
	MC_REQUIRE( p->id == 1 and p->other == 2 );
	auto q = daw::make_maybe_unique<Plain>( 3, 4 );
	MC_REQUIRE( q->id == 3 and q->other == 4 );
	auto o = daw::make_unique_for_overwrite<int>( );
	*o = 5;
	MC_REQUIRE( *o == 5 );
	auto z = daw::make_unique<int[]>( 3 );
	MC_REQUIRE( z[0] == 0 and z[1] == 0 and z[2] == 0 );
	auto e = daw::make_unique_array<int[]>( 1, 2, 3 );
	MC_REQUIRE( e[0] == 1 and e[1] == 2 and e[2] == 3 );
	auto mz = daw::make_maybe_unique<int[]>( 2 );
	MC_REQUIRE( mz[0] == 0 and mz[1] == 0 );
	auto me = daw::make_maybe_unique_array<int[]>( 4, 5 );
	MC_REQUIRE( me[0] == 4 and me[1] == 5 );
}
MC_TEST( inner_owners ) { inner_owners( ); }
