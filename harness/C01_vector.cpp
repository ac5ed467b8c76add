// Property C01: daw::vector against an ideal sequence, all histories in bounds.
#include "mc.h"
#include "mc_tracked.h"
#include <daw/vector.h>
#include <daw/vector_algorithm.h>
#include <iterator>
#include <map>

using TM = mc::Tracked<mc::NoThrowMove>;
using TC = mc::Tracked<0>; // throwing move: growth must copy

// ---- allocator whose instances are distinguishable ----------------------------
namespace ida {
	struct Rec {
		void *p;
		int id;
		std::size_t n;
	};
	inline Rec recs[64];
	inline int nrec = 0;
	inline void begin( ) { nrec = 0; }
} // namespace ida
template<typename T, bool P>
struct IdAlloc {
	using value_type = T;
	using propagate_on_container_copy_assignment = std::bool_constant<P>;
	using propagate_on_container_move_assignment = std::bool_constant<P>;
	using propagate_on_container_swap = std::bool_constant<P>;
	using is_always_equal = std::false_type;
	template<typename U>
	struct rebind {
		using other = IdAlloc<U, P>;
	};
	int id = 0;
	IdAlloc( ) = default;
	explicit IdAlloc( int i ) : id( i ) {}
	template<typename U>
	IdAlloc( IdAlloc<U, P> const &o ) : id( o.id ) {}
	T *allocate( std::size_t n ) {
		auto *p = static_cast<T *>( ::operator new( n * sizeof( T ) ) );
		if( ida::nrec < 64 ) ida::recs[ida::nrec++] = { p, id, n };
		return p;
	}
	void deallocate( T *p, std::size_t n ) {
		for( int i = 0; i < ida::nrec; ++i ) {
			if( ida::recs[i].p == p ) {
				if( ida::recs[i].id != id )
					mc::fail_later( "allocator-identity", "storage obtained from allocator %d returned to allocator %d", ida::recs[i].id, id );
				if( ida::recs[i].n != n )
					mc::fail_later( "allocator-size", "storage for %zu elements returned as %zu", ida::recs[i].n, n );
				ida::recs[i] = ida::recs[--ida::nrec];
				::operator delete( p );
				return;
			}
		}
		mc::fail_later( "allocator-unknown", "storage returned that was never obtained" );
	}
	friend bool operator==( IdAlloc const &a, IdAlloc const &b ) { return a.id == b.id; }
};

template<typename T>
struct InputIt { // single pass
	using iterator_category = std::input_iterator_tag;
	using value_type = T;
	using difference_type = std::ptrdiff_t;
	using pointer = T const *;
	using reference = T const &;
	T const *p = nullptr;
	InputIt( ) = default;
	explicit InputIt( T const *q ) : p( q ) {}
	reference operator*( ) const { return *p; }
	pointer operator->( ) const { return p; }
	InputIt &operator++( ) { ++p; return *this; }
	InputIt operator++( int ) { auto t = *this; ++p; return t; }
	friend bool operator==( InputIt a, InputIt b ) { return a.p == b.p; }
	friend bool operator!=( InputIt a, InputIt b ) { return a.p != b.p; }
};

template<typename V, typename Alloc = typename V::allocator_type>
struct Sys {
	using T = typename V::value_type;
	static constexpr bool tracked = not std::is_same_v<T, int>;
	static constexpr bool trivial = std::is_same_v<T, int>;
	using M = std::vector<int>;
	V a, b;
	M ma, mb;
	int next = 1;
	std::size_t maxn;
	explicit Sys( std::size_t mx ) : a( V( mk( 1 ) ) ), b( V( mk( 2 ) ) ), maxn( mx ) {}
	static Alloc mk( int i ) {
		if constexpr( requires { Alloc( i ); } ) return Alloc( i ); else return Alloc( );
	}

	static void cmp( char const *who, V &v, M const &m, char const *op ) {
		MC_CHECK( v.size( ) == m.size( ), "size", "%s: %s has size %zu, expected %zu", op, who, v.size( ), m.size( ) );
		MC_CHECK( std::size_t( v.ssize( ) ) == m.size( ), "ssize", "%s: ssize", op );
		MC_CHECK( v.empty( ) == m.empty( ), "empty", "%s: %s empty()", op, who );
		MC_CHECK( v.capacity( ) >= v.size( ), "capacity", "%s: %s capacity %zu below size %zu", op, who, v.capacity( ), v.size( ) );
		V const &cv = v;
		std::size_t i = 0;
		for( auto it = v.begin( ); it != v.end( ); ++it, ++i ) {
			MC_CHECK( i < m.size( ), "iteration", "%s: %s iterates past the end", op, who );
			MC_CHECK( mc::val( *it ) == m[i], "contents", "%s: %s[%zu] is %d, expected %d", op, who, i, mc::val( *it ), m[i] );
		}
		MC_CHECK( i == m.size( ), "iteration", "%s: %s iterated %zu of %zu", op, who, i, m.size( ) );
		i = m.size( );
		for( auto it = cv.rbegin( ); it != cv.rend( ); ++it ) {
			--i;
			MC_CHECK( i < m.size( ) and mc::val( *it ) == m[i], "reverse-iteration", "%s: %s reverse at %zu", op, who, i );
		}
		for( i = 0; i < m.size( ); ++i ) {
			MC_CHECK( mc::val( cv[i] ) == m[i] and mc::val( v.at( i ) ) == m[i] and mc::val( cv.at( i ) ) == m[i] and mc::val( cv.data( )[i] ) == m[i] and
			            mc::val( v.begin( )[std::ptrdiff_t( i )] ) == m[i],
			          "element-access", "%s: %s access at %zu", op, who, i );
		}
		if( not m.empty( ) ) {
			MC_CHECK( mc::val( v.front( ) ) == m.front( ) and mc::val( v.back( ) ) == m.back( ) and mc::val( cv.front( ) ) == m.front( ) and mc::val( cv.back( ) ) == m.back( ), "front-back", "%s: %s front/back", op, who );
		}
		MC_CHECK( v.data_end( ) - v.data( ) == std::ptrdiff_t( m.size( ) ), "data-end", "%s: data_end", op );
		bool threw = false;
		try { (void)v.at( m.size( ) ); } catch( std::out_of_range const & ) { threw = true; }
		MC_CHECK( threw, "at-range", "%s: at(size()) did not report", op );
	}
	void check( char const *op ) {
		cmp( "first", a, ma, op );
		cmp( "second", b, mb, op );
		if constexpr( tracked ) {
			MC_CHECK( mc::tr::reg.n == ma.size( ) + mb.size( ), "live-elements", "%s: %u elements alive, the vectors hold %zu", op, mc::tr::reg.n, ma.size( ) + mb.size( ) );
		}
	}
	std::uint64_t key( ) const {
		std::uint64_t h = 7;
		for( int x : ma ) h = mc::mix( h, std::uint64_t( x ) );
		h = mc::mix( h, 0x1000 + a.capacity( ) );
		for( int x : mb ) h = mc::mix( h, std::uint64_t( x ) );
		h = mc::mix( h, 0x2000 + b.capacity( ) );
		if constexpr( requires { a.get_allocator( ).id; } ) h = mc::mix( h, std::uint64_t( a.get_allocator( ).id * 4 + b.get_allocator( ).id ) );
		return mc::mix( h, std::uint64_t( next ) );
	}
	std::size_t pos( ) { return mc::choose( unsigned( ma.size( ) + 1 ) ); }
	static void sync( V &v, M &m ) {
		m.clear( );
		for( auto &x : v ) m.push_back( mc::val( x ) );
	}

	// one operation; false if it does not apply here
	bool op( ) {
		enum { PushC, PushM, EmplB, PushAlias, Pop, PopVal, InsC, InsM, InsAlias, Empl, InsN, InsNAlias, InsRange, InsInput, InsIl, Erase1, EraseR, Resize, ResizeX, ResizeAlias,
		       Reserve, Shrink, AssignN, AssignR, AssignIn, AssignIl, AppendX, Clear, CopyCtor, CopyAsg, CopyAsgBack, SelfCopy, MoveAsg, MoveCtor, MoveAsgBack, Swap, EraseVal, EraseIf, Overwrite, AppendOver, Ctors, BlockAppend, NOPS };
		unsigned const k = mc::choose( NOPS );
		std::size_t const n = ma.size( );
		int const x = next++;
		std::string d = "?";
		auto room = [&]( std::size_t extra ) { return n + extra <= maxn; };
		using D = std::ptrdiff_t;
		switch( k ) {
		case PushC: { if( not room( 1 ) ) return false; d = "push_back(const&)"; mc::note( "%s %d", d.c_str( ), x ); T t( x ); a.push_back( t ); ma.push_back( x ); break; }
		case PushM: { if( not room( 1 ) ) return false; d = "push_back(&&)"; mc::note( "%s %d", d.c_str( ), x ); a.push_back( T( x ) ); ma.push_back( x ); break; }
		case EmplB: { if( not room( 1 ) ) return false; d = "emplace_back"; mc::note( "%s %d", d.c_str( ), x ); auto &r = a.emplace_back( x ); ma.push_back( x ); MC_CHECK( &r == &a[n], "emplace_back-ref", "emplace_back returned a reference to another element" ); break; }
		case PushAlias: { if( n == 0 or not room( 1 ) ) return false; auto i = mc::choose( unsigned( n ) ); d = "push_back(own element)"; mc::note( "%s %u", d.c_str( ), i ); int e = ma[i];
			if( mc::choose( 2 ) ) a.push_back( a[i] ); else a.emplace_back( a[i] ); ma.push_back( e ); break; }
		case Pop: { if( n == 0 ) return false; d = "pop_back"; mc::note( "pop_back" ); a.pop_back( ); ma.pop_back( ); break; }
		case PopVal: { if( n == 0 ) return false; d = "pop_back_value"; mc::note( "pop_back_value" ); int got; { T t = a.pop_back_value( ); got = mc::val( t ); } MC_CHECK( got == ma.back( ), "pop_back_value", "returned %d expected %d", got, ma.back( ) ); ma.pop_back( ); break; }
		case InsC: case InsM: case Empl: {
			if( not room( 1 ) ) return false;
			auto p = pos( );
			d = k == InsC ? "insert(pos,const&)" : k == InsM ? "insert(pos,&&)" : "emplace(pos)";
			mc::note( "%s at %zu value %d", d.c_str( ), p, x );
			typename V::iterator it;
			{
				T t( x );
				auto where = a.cbegin( ) + D( p );
				it = k == InsC ? a.insert( where, t ) : k == InsM ? a.insert( where, std::move( t ) ) : a.emplace( where, x );
			}
			MC_CHECK( it - a.begin( ) == D( p ), "insert-iterator", "%s returned position %td, expected %zu", d.c_str( ), it - a.begin( ), p );
			ma.insert( ma.begin( ) + D( p ), x );
			break;
		}
		case InsAlias: {
			if( n == 0 or not room( 1 ) ) return false;
			auto p = pos( );
			auto i = mc::choose( unsigned( n ) );
			d = "insert(pos, own element)";
			mc::note( "%s at %zu elem %u", d.c_str( ), p, i );
			int e = ma[i];
			bool em = mc::choose( 2 );
			auto it = em ? a.emplace( a.cbegin( ) + D( p ), a[i] ) : a.insert( a.cbegin( ) + D( p ), std::as_const( a )[i] );
			MC_CHECK( it - a.begin( ) == D( p ), "insert-iterator", "%s returned position %td, expected %zu", d.c_str( ), it - a.begin( ), p );
			ma.insert( ma.begin( ) + D( p ), e );
			break;
		}
		case InsN: case InsNAlias: {
			if( k == InsNAlias and n == 0 ) return false;
			auto p = pos( );
			auto c = mc::choose( 4 );
			if( not room( c ) ) return false;
			unsigned i = k == InsNAlias ? mc::choose( unsigned( n ) ) : 0;
			d = k == InsN ? "insert(pos,n,x)" : "insert(pos,n,own element)";
			mc::note( "%s at %zu n=%u elem %u", d.c_str( ), p, c, i );
			int e = k == InsN ? x : ma[i];
			typename V::iterator it;
			if( k == InsN ) { T t( x ); it = a.insert( a.cbegin( ) + D( p ), std::size_t( c ), t ); }
			else it = a.insert( a.cbegin( ) + D( p ), std::size_t( c ), std::as_const( a )[i] );
			MC_CHECK( it - a.begin( ) == D( p ), "insert-iterator", "%s returned position %td, expected %zu", d.c_str( ), it - a.begin( ), p );
			ma.insert( ma.begin( ) + D( p ), std::size_t( c ), e );
			break;
		}
		case InsRange: case InsInput: case InsIl: {
			auto p = pos( );
			auto c = mc::choose( 4 );
			if( not room( c ) ) return false;
			d = k == InsRange ? "insert(pos,fwd range)" : k == InsInput ? "insert(pos,input range)" : "insert(pos,{...})";
			mc::note( "%s at %zu count %u", d.c_str( ), p, c );
			typename V::iterator it;
			{
				T src[4] = { T( x * 10 ), T( x * 10 + 1 ), T( x * 10 + 2 ), T( x * 10 + 3 ) };
				auto where = a.cbegin( ) + D( p );
				if( k == InsRange ) it = a.insert( where, src, src + c );
				else if( k == InsInput ) it = a.insert( where, InputIt<T>( src ), InputIt<T>( src + c ) );
				else if( c == 0 ) it = a.insert( where, std::initializer_list<T>{ } );
				else if( c == 1 ) it = a.insert( where, { src[0] } );
				else if( c == 2 ) it = a.insert( where, { src[0], src[1] } );
				else it = a.insert( where, { src[0], src[1], src[2] } );
			}
			MC_CHECK( it - a.begin( ) == D( p ), "insert-iterator", "%s returned position %td, expected %zu", d.c_str( ), it - a.begin( ), p );
			for( unsigned j = 0; j < c; ++j ) ma.insert( ma.begin( ) + D( p + j ), x * 10 + int( j ) );
			break;
		}
		case Erase1: { if( n == 0 ) return false; auto p = mc::choose( unsigned( n ) ); d = "erase(pos)"; mc::note( "erase %u", p ); auto it = a.erase( a.cbegin( ) + D( p ) ); MC_CHECK( it - a.begin( ) == D( p ), "erase-iterator", "erase returned %td expected %u", it - a.begin( ), p ); ma.erase( ma.begin( ) + D( p ) ); break; }
		case EraseR: { auto p = pos( ); auto q = p + mc::choose( unsigned( n - p + 1 ) ); d = "erase(first,last)"; mc::note( "erase [%zu,%zu)", p, q ); auto it = a.erase( a.cbegin( ) + D( p ), a.cbegin( ) + D( q ) ); MC_CHECK( it - a.begin( ) == D( p ), "erase-iterator", "erase range returned %td expected %zu", it - a.begin( ), p ); ma.erase( ma.begin( ) + D( p ), ma.begin( ) + D( q ) ); break; }
		case Resize: { auto s = mc::choose( unsigned( maxn + 1 ) ); d = "resize(n)"; mc::note( "resize %u", s ); a.resize( s ); ma.resize( s ); break; }
		case ResizeX: { auto s = mc::choose( unsigned( maxn + 1 ) ); d = "resize(n,x)"; mc::note( "resize %u value %d", s, x ); { T t( x ); a.resize( s, t ); } ma.resize( s, x ); break; }
		case ResizeAlias: { if( n == 0 ) return false; auto s = n + mc::choose( unsigned( maxn - n + 1 ) ); d = "resize(n,own element)"; mc::note( "resize %zu own front", s ); int e = ma[0]; a.resize( s, a[0] ); ma.resize( s, e ); break; }
		case Reserve: { auto s = mc::choose( unsigned( maxn + 2 ) ); d = "reserve"; mc::note( "reserve %u", s ); auto c = a.capacity( ); a.reserve( s ); MC_CHECK( a.capacity( ) >= s and a.capacity( ) >= c, "reserve-capacity", "reserve(%u): capacity %zu (was %zu)", s, a.capacity( ), c ); break; }
		case Shrink: { d = "shrink_to_fit"; mc::note( "shrink_to_fit" ); auto c = a.capacity( ); a.shrink_to_fit( ); MC_CHECK( a.capacity( ) <= c, "shrink-capacity", "shrink_to_fit grew" ); break; }
		case AssignN: { auto s = mc::choose( unsigned( maxn + 1 ) ); d = "assign(n,x)"; mc::note( "assign %u value %d", s, x ); { T t( x ); a.assign( std::size_t( s ), t ); } ma.assign( s, x ); break; }
		case AssignR: case AssignIn: case AssignIl: {
			auto c = mc::choose( 4 );
			d = k == AssignR ? "assign(fwd range)" : k == AssignIn ? "assign(input range)" : "assign({...})";
			mc::note( "%s count %u", d.c_str( ), c );
			{
				T src[4] = { T( x * 10 ), T( x * 10 + 1 ), T( x * 10 + 2 ), T( x * 10 + 3 ) };
				if( k == AssignR ) a.assign( src, src + c );
				else if( k == AssignIn ) a.assign( InputIt<T>( src ), InputIt<T>( src + c ) );
				else if( c == 0 ) a = std::initializer_list<T>{ };
				else if( c == 1 ) a.assign( { src[0] } );
				else if( c == 2 ) a = { src[0], src[1] };
				else a.assign( { src[0], src[1], src[2] } );
			}
			ma.clear( );
			for( unsigned j = 0; j < c; ++j ) ma.push_back( x * 10 + int( j ) );
			break;
		}
		case AppendX: { auto c = mc::choose( 4 ); if( not room( c ) ) return false; bool own = n > 0 and mc::choose( 2 ); d = own ? "append(n,own element)" : "append(n,x)"; mc::note( "%s n=%u", d.c_str( ), c ); int e = own ? ma[n - 1] : x;
			if( own ) a.append( c, a[n - 1] ); else { T t( x ); a.append( c, t ); } ma.insert( ma.end( ), c, e ); break; }
		case Clear: { d = "clear"; mc::note( "clear" ); a.clear( ); ma.clear( ); break; }
		case CopyCtor: { d = "copy construct"; mc::note( "second = copy constructed temporary (move assigned)" ); { V t( a ); cmp( "copy", t, ma, "copy construct" ); cmp( "source", a, ma, "copy construct" ); V u( a, mk( 2 ) ); cmp( "copy with allocator", u, ma, "copy construct" ); } break; }
		case CopyAsg: { d = "b = a"; mc::note( "b = a" ); b = std::as_const( a ); mb = ma; break; }
		case CopyAsgBack: { d = "a = b"; mc::note( "a = b" ); a = std::as_const( b ); ma = mb; break; }
		case SelfCopy: { d = "self copy assignment"; mc::note( "a = a" ); V const &r = a; a = r; break; }
		case MoveAsg: { d = "b = move(a)"; mc::note( "b = move(a)" ); b = std::move( a ); mb = ma; sync( a, ma ); break; }
		case MoveAsgBack: { d = "a = move(b)"; mc::note( "a = move(b)" ); a = std::move( b ); ma = mb; sync( b, mb ); break; }
		case MoveCtor: { d = "move construct"; mc::note( "t(move(a)); a = move(t) (also allocator-extended)" ); int const how = mc::choose( 3 ); auto const *const held = a.data( ); if( how != 0 ) { V t = how == 1 ? V( std::move( a ) ) : V( std::move( a ), a.get_allocator( ) ); cmp( "moved-to", t, ma, "move construct" ); MC_CHECK( a.empty( ), "moved-from", "moved-from vector not empty" ); MC_CHECK( t.data( ) == held, "move-keeps-items", "moving a whole vector moved its items elsewhere" ); a = std::move( t ); } else { V t( std::move( a ), mk( 3 ) ); cmp( "moved-to", t, ma, "allocator-extended move" ); a = std::move( t ); } break; }
		case Swap: {
			if constexpr( requires { a.get_allocator( ).id; } ) { if( not Alloc::propagate_on_container_swap::value and not( a.get_allocator( ) == b.get_allocator( ) ) ) return false; }
			d = "swap"; mc::note( "swap" ); if( mc::choose( 2 ) ) a.swap( b ); else { using daw::swap; swap( a, b ); } ma.swap( mb ); break; }
		case EraseVal: { if( n == 0 ) return false; auto i = mc::choose( unsigned( n ) ); d = "erase(value)"; int e = ma[i]; mc::note( "erase value %d", e ); std::size_t r; { T t( e ); r = daw::erase( a, t ); } auto r2 = std::erase( ma, e ); MC_CHECK( r == r2, "erase-count", "erase(value) returned %zu expected %zu", r, r2 ); break; }
		case EraseIf: { d = "erase_if(odd)"; mc::note( "erase_if odd" ); auto r = daw::erase_if( a, []( T const &t ) { return mc::val( t ) % 2 == 1; } ); auto r2 = std::erase_if( ma, []( int v ) { return v % 2 == 1; } ); MC_CHECK( r == r2, "erase-count", "erase_if returned %zu expected %zu", r, r2 ); break; }
		case Overwrite: {
			if constexpr( trivial ) {
				auto s = mc::choose( unsigned( maxn + 1 ) );
				auto r = mc::choose( s + 1 );
				d = "resize_and_overwrite";
				mc::note( "resize_and_overwrite n=%u result %u", s, r );
				bool const al = mc::choose( 2 );
				auto f = [&]( T *p, std::size_t m ) { MC_CHECK( m == s, "overwrite-n", "operation called with %zu", m ); std::size_t keep = std::min<std::size_t>( n, s ); for( std::size_t j = 0; j < keep; ++j ) MC_CHECK( p[j] == ma[j], "overwrite-prefix", "existing elements not visible to the operation" ); for( std::size_t j = 0; j < s; ++j ) p[j] = x + int( j ); return std::size_t( r ); };
				std::size_t got = al ? a.resize_and_overwrite( s, [&]( T *p, std::size_t m, Alloc & ) { return f( p, m ); } ) : a.resize_and_overwrite( s, f );
				MC_CHECK( got == r, "overwrite-result", "returned %zu", got );
				ma.clear( );
				for( unsigned j = 0; j < r; ++j ) ma.push_back( x + int( j ) );
			} else {
				// shrinking through overwrite must destroy the tail exactly once
				auto s = mc::choose( unsigned( n + 1 ) );
				auto r = mc::choose( s + 1 );
				d = "resize_and_overwrite(shrink)";
				mc::note( "%s n=%u result %u", d.c_str( ), s, r );
				a.resize_and_overwrite( s, [&]( T *, std::size_t ) { return std::size_t( r ); } );
				ma.resize( r );
			}
			break;
		}
		case AppendOver: {
			auto s = mc::choose( 4 );
			if( not room( s ) ) return false;
			auto r = mc::choose( s + 1 );
			d = "append_and_overwrite";
			mc::note( "append_and_overwrite n=%u result %u", s, r );
			bool const al = mc::choose( 2 );
			auto f = [&]( T *p, std::size_t m ) { MC_CHECK( m == s, "overwrite-n", "operation called with %zu", m ); for( unsigned j = 0; j < r; ++j ) std::construct_at( p + j, x + int( j ) ); return int( r ); };
			if( al ) (void)a.append_and_overwrite( s, [&]( T *p, std::size_t m, Alloc & ) { return f( p, m ); } ); else (void)a.append_and_overwrite( s, f );
			for( unsigned j = 0; j < r; ++j ) ma.push_back( x + int( j ) );
			break;
		}
		case Ctors: { // every constructor, independent of the state
			if( n != 0 ) return false;
			d = "constructors";
			auto c = mc::choose( 4 );
			auto w = mc::choose( 6 );
			mc::note( "constructor %u count %u", w, c );
			M m( c, w == 1 or w == 2 ? x : 0 );
			T src[3] = { T( 7 ), T( 8 ), T( 9 ) };
			if( w >= 3 and w <= 5 ) { m.clear( ); for( unsigned j = 0; j < c and j < 3; ++j ) m.push_back( 7 + int( j ) ); }
			auto e = src + std::min( c, 3u );
			auto tst = [&]( V &&v ) { cmp( "constructed", v, m, "constructor" ); };
			switch( w ) {
			case 0: tst( V( std::size_t( c ) ) ); tst( V( std::size_t( c ), mk( 1 ) ) ); break;
			case 1: { T t( x ); tst( V( std::size_t( c ), t ) ); break; }
			case 2: { T t( x ); tst( V( std::size_t( c ), t, mk( 1 ) ) ); break; }
			case 3: tst( V( src, e ) ); tst( V( src, e, mk( 1 ) ) ); break;
			case 4: tst( V( InputIt<T>( src ), InputIt<T>( e ) ) ); tst( V( InputIt<T>( src ), InputIt<T>( e ), mk( 1 ) ) ); break;
			case 5: m = { 7, 8 }; tst( V( { src[0], src[1] }, mk( 1 ) ) ); break;
			}
			break;
		}
		case BlockAppend: {
			if constexpr( trivial and std::is_same_v<Alloc, std::allocator<T>> ) {
				auto c = mc::choose( 5 );
				if( not room( c ) ) return false;
				auto bs = 1 + mc::choose( 3 );
				d = "block_append_from";
				mc::note( "block_append_from count %u block %u", c, bs );
				int src[4] = { x, x + 1, x + 2, x + 3 };
				if( n == 0 ) a = daw::block_create_from<int>( src, src + c, bs ); else daw::block_append_from( a, src, src + c, bs );
				for( unsigned j = 0; j < c; ++j ) ma.push_back( src[j] );
			} else return false;
			break;
		}
		}
		check( d.c_str( ) );
		// relational operators against the other vector
		MC_CHECK( ( a == b ) == ( ma == mb ) and ( a != b ) == ( ma != mb ) and ( a < b ) == ( ma < mb ) and ( a > b ) == ( ma > mb ) and ( a <= b ) == ( ma <= mb ) and ( a >= b ) == ( ma >= mb ), "comparison", "relational operators disagree after %s", d.c_str( ) );
		mc::step( );
		for( int v : ma ) mc::obs( std::uint64_t( v ) );
		mc::obs( 0x100 + k );
		return true;
	}
};

template<typename V>
static void history( int depth, std::size_t maxn, bool dedupe ) {
	ida::begin( );
	mc::with_tracking( [&] {
		Sys<V> s( maxn );
		// starting states: empty, or n elements with chosen spare capacity
		auto const st = mc::choose( unsigned( maxn ) );
		for( unsigned i = 0; i < st; ++i ) { s.a.push_back( typename V::value_type( s.next ) ); s.ma.push_back( s.next++ ); }
		if( st and mc::choose( 2 ) ) s.a.shrink_to_fit( );
		s.check( "start" );
		for( int i = 0; i < depth; ++i ) {
			if( dedupe ) s.next = 100 + i * 40;
			if( dedupe and not mc::enter_state( s.key( ), unsigned( depth - i ) ) ) return;
			if( not s.op( ) ) return;
			if( not dedupe ) mc::state( s.key( ) );
		}
	} );
	if( ida::nrec ) mc::fail( "allocator-leak", "%d allocation(s) never returned", ida::nrec );
}

// every word of a few operations, repeated until the vectors are large
template<typename V>
static void long_history( int word, std::size_t maxn, std::size_t large, int rounds ) {
	mc::with_tracking( [&] {
		Sys<V> s( maxn );
		auto const st = mc::choose( 2 );
		for( unsigned i = 0; i < st; ++i ) { s.a.push_back( typename V::value_type( s.next ) ); s.ma.push_back( s.next++ ); }
		mc::lasso( word, rounds, [&] { return s.op( ); }, [&] { s.maxn = large; } );
	} );
}
// every bulk operation at every position, count and spare capacity of mid-sized vectors
template<typename V>
static void bulk( int top, int most ) {
	using T = typename V::value_type;
	using D = std::ptrdiff_t;
	mc::with_tracking( [&] {
		int const n = mc::choose_range( 0, top ), c = mc::choose_range( 0, most ), k = mc::choose_range( 0, 8 );
		int const spare = mc::pick( { 0, 1, 2, 7, 40 } );
		V a, b;
		std::vector<int> m, mb;
		{ auto q = mc::NoTrack( ); m.reserve( 200 ); }
		a.reserve( std::size_t( n + spare ) );
		for( int i = 0; i < n; ++i ) { a.emplace_back( 1000 + i ); auto q = mc::NoTrack( ); m.push_back( 1000 + i ); }
		std::vector<T> src;
		for( int i = 0; i < c; ++i ) src.emplace_back( 5000 + i );
		auto ops = { "insert n", "insert n of own", "insert range", "insert input range", "erase range", "append", "assign range", "assign n", "resize" };
		char const *const what = ops.begin( )[k];
		auto const positions = k < 5 ? n + 1 : 1;
		int const p = int( mc::choose( unsigned( positions ) ) );
		mc::note( "%s: size %d, spare %d, position %d, count %d", what, n, spare, p, c );
		auto const at = [&] { return a.cbegin( ) + D( p ); };
		typename V::iterator r = a.begin( );
		auto q = mc::NoTrack( );
		switch( k ) {
		case 0: { T t( 77 ); r = a.insert( at( ), std::size_t( c ), t ); m.insert( m.begin( ) + p, std::size_t( c ), 77 ); break; }
		case 1: { if( n == 0 ) return; int const e = n * 2 / 3; int const v = m[std::size_t( e )]; r = a.insert( at( ), std::size_t( c ), std::as_const( a )[std::size_t( e )] ); m.insert( m.begin( ) + p, std::size_t( c ), v ); break; }
		case 2: case 3: { if( k == 2 ) r = a.insert( at( ), src.data( ), src.data( ) + c ); else r = a.insert( at( ), InputIt<T>( src.data( ) ), InputIt<T>( src.data( ) + c ) ); for( int i = 0; i < c; ++i ) m.insert( m.begin( ) + p + i, 5000 + i ); break; }
		case 4: { if( p + c > n ) return; r = a.erase( at( ), at( ) + c ); m.erase( m.begin( ) + p, m.begin( ) + p + c ); break; }
		case 5: { T t( 77 ); a.append( std::size_t( c ), t ); m.insert( m.end( ), std::size_t( c ), 77 ); break; }
		case 6: { a.assign( src.data( ), src.data( ) + c ); m.clear( ); for( int i = 0; i < c; ++i ) m.push_back( 5000 + i ); break; }
		case 7: { T t( 77 ); a.assign( std::size_t( c ), t ); m.assign( std::size_t( c ), 77 ); break; }
		case 8: { T t( 77 ); a.resize( std::size_t( c ), t ); m.resize( std::size_t( c ), 77 ); break; }
		}
		if( k < 5 ) MC_CHECK( r - a.begin( ) == D( p ), "bulk-iterator", "%s returned position %td, expected %d", what, r - a.begin( ), p );
		Sys<V>::cmp( "vector", a, m, what );
		a.emplace_back( 88 );
		m.push_back( 88 );
		Sys<V>::cmp( "vector", a, m, "emplace_back after" );
		mc::step( );
	} );
}
MC_TEST( int_bulk ) { bulk<daw::vector<int>>( mc::by_tier( 12, 20 ), mc::by_tier( 14, 22 ) ); }
MC_TEST( tracked_bulk ) { bulk<daw::vector<TM>>( mc::by_tier( 12, 20 ), mc::by_tier( 14, 22 ) ); }
MC_TEST( throwing_move_bulk ) { bulk<daw::vector<TC>>( mc::by_tier( 12, 20 ), mc::by_tier( 14, 22 ) ); }
MC_TEST( int_long ) { long_history<daw::vector<int>>( 2, 3, 40, 24 ); }
MC_TEST( tracked_long ) { long_history<daw::vector<TM>>( 2, 3, 40, 24 ); }
MC_TEST( throwing_move_long ) { long_history<daw::vector<TC>>( 2, 3, 40, 24 ); }
MC_TEST( int_very_long ) { long_history<daw::vector<int>>( 1, 3, 300, 220 ); }

MC_TEST( int_all_histories ) { history<daw::vector<int>>( 2, 5, false ); }
MC_TEST( tracked_all_histories ) { history<daw::vector<TM>>( 2, 5, false ); }
MC_TEST( throwing_move_all_histories ) { history<daw::vector<TC>>( 2, 4, false ); }
MC_TEST( unequal_allocators ) { history<daw::vector<TM, IdAlloc<TM, false>>>( mc::by_tier( 3, 4 ), 3, true ); }
MC_TEST( propagating_allocators ) { history<daw::vector<TM, IdAlloc<TM, true>>>( mc::by_tier( 3, 4 ), 3, true ); }
MC_TEST( tracked_deep ) { history<daw::vector<TM>>( mc::by_tier( 3, 5 ), 4, true ); }
MC_TEST( int_deep ) { history<daw::vector<int>>( mc::by_tier( 3, 5 ), 4, true ); }
