// Checked iterators of every category and items with identity, shared by the
// algorithm harnesses.  A step or access outside [lo, hi) is reported.
#pragma once
#include <compare>
#include <cstddef>
#include <iterator>
#include <string>
#include <type_traits>
#include <vector>

namespace chk {
	struct Item {
		int key = 0;
		int id = 0;
		friend bool operator==( Item const &a, Item const &b ) {
			return a.key == b.key;
		}
		friend bool operator!=( Item const &a, Item const &b ) {
			return a.key != b.key;
		}
		friend bool operator<( Item const &a, Item const &b ) {
			return a.key < b.key;
		}
		friend bool operator>( Item const &a, Item const &b ) {
			return a.key > b.key;
		}
		friend bool operator<=( Item const &a, Item const &b ) {
			return a.key <= b.key;
		}
		friend bool operator>=( Item const &a, Item const &b ) {
			return a.key >= b.key;
		}
	};
	inline bool same( Item const &a, Item const &b ) {
		return a.key == b.key and a.id == b.id;
	}
	inline bool same( int a, int b ) {
		return a == b;
	}

	inline char const *what = "algorithm";

	inline void out_of_range( char const *op ) {
		mc::fail_later( "iterator_out_of_range", "%s: %s outside the range", what, op );
	}

	template<typename T, typename Tag>
	struct It {
		using iterator_category = Tag;
		using value_type = std::remove_cv_t<T>;
		using difference_type = std::ptrdiff_t;
		using pointer = T *;
		using reference = T &;
		static constexpr bool bidi = std::is_base_of_v<std::bidirectional_iterator_tag, Tag>;
		static constexpr bool ra = std::is_base_of_v<std::random_access_iterator_tag, Tag>;
		T *lo = nullptr;
		std::ptrdiff_t n = 0, pos = 0;

		It( ) = default;
		It( T *l, std::ptrdiff_t size, std::ptrdiff_t p )
		  : lo( l )
		  , n( size )
		  , pos( p ) {}

		reference operator*( ) const {
			if( pos < 0 or pos >= n ) {
				out_of_range( "access" );
				static std::remove_cv_t<T> dummy{ };
				return dummy;
			}
			return lo[pos];
		}
		pointer operator->( ) const {
			return &**this;
		}
		It &operator++( ) {
			if( pos >= n ) {
				out_of_range( "increment" );
			} else {
				++pos;
			}
			return *this;
		}
		It operator++( int ) {
			auto r = *this;
			++*this;
			return r;
		}
		It &operator--( )
			requires( bidi )
		{
			if( pos <= 0 ) {
				out_of_range( "decrement" );
			} else {
				--pos;
			}
			return *this;
		}
		It operator--( int )
			requires( bidi )
		{
			auto r = *this;
			--*this;
			return r;
		}
		It &operator+=( difference_type d )
			requires( ra )
		{
			if( d > n - pos or d < -pos ) {
				out_of_range( "jump" );
			} else {
				pos += d;
			}
			return *this;
		}
		It &operator-=( difference_type d )
			requires( ra )
		{
			if( d > pos or d < pos - n ) {
				out_of_range( "jump" );
			} else {
				pos -= d;
			}
			return *this;
		}
		friend It operator+( It a, difference_type d )
			requires( ra )
		{
			a += d;
			return a;
		}
		friend It operator+( difference_type d, It a )
			requires( ra )
		{
			a += d;
			return a;
		}
		friend It operator-( It a, difference_type d )
			requires( ra )
		{
			a -= d;
			return a;
		}
		friend difference_type operator-( It const &a, It const &b )
			requires( ra )
		{
			return a.pos - b.pos;
		}
		reference operator[]( difference_type d ) const
			requires( ra )
		{
			return *( *this + d );
		}
		friend bool operator==( It const &a, It const &b ) {
			return a.pos == b.pos and a.lo == b.lo;
		}
		friend bool operator!=( It const &a, It const &b ) {
			return not( a == b );
		}
		friend auto operator<=>( It const &a, It const &b )
			requires( ra )
		{
			return a.pos <=> b.pos;
		}
	};

	template<typename T>
	using Fwd = It<T, std::forward_iterator_tag>;
	template<typename T>
	using Bidi = It<T, std::bidirectional_iterator_tag>;
	template<typename T>
	using Ra = It<T, std::random_access_iterator_tag>;
	template<typename T>
	using In = It<T, std::input_iterator_tag>;

	template<template<typename> class I, typename T>
	I<T> b( std::vector<T> &v ) {
		return I<T>( v.data( ), static_cast<std::ptrdiff_t>( v.size( ) ), 0 );
	}
	template<template<typename> class I, typename T>
	I<T> e( std::vector<T> &v ) {
		return I<T>( v.data( ), static_cast<std::ptrdiff_t>( v.size( ) ), static_cast<std::ptrdiff_t>( v.size( ) ) );
	}
	template<template<typename> class I, typename T>
	I<T> at( std::vector<T> &v, std::size_t p ) {
		return I<T>( v.data( ), static_cast<std::ptrdiff_t>( v.size( ) ), static_cast<std::ptrdiff_t>( p ) );
	}
	template<template<typename> class I, typename T>
	I<T const> cb( std::vector<T> const &v ) {
		return I<T const>( v.data( ), static_cast<std::ptrdiff_t>( v.size( ) ), 0 );
	}
	template<template<typename> class I, typename T>
	I<T const> ce( std::vector<T> const &v ) {
		return I<T const>( v.data( ), static_cast<std::ptrdiff_t>( v.size( ) ), static_cast<std::ptrdiff_t>( v.size( ) ) );
	}

	// a sentinel of another type
	struct Sent {
		std::ptrdiff_t end;
		template<typename T, typename Tag>
		friend bool operator==( It<T, Tag> const &i, Sent const &s ) {
			return i.pos == s.end;
		}
		template<typename T, typename Tag>
		friend bool operator!=( It<T, Tag> const &i, Sent const &s ) {
			return i.pos != s.end;
		}
	};

	using Items = std::vector<Item>;

	/// with long_items set, items() makes long sequences with a simple structure
	/// instead of every short one: a repeated word of at most three keys, with at
	/// most one element out of line
	inline bool long_items = false;

	inline Items repeated( std::size_t n, unsigned alphabet, unsigned max_period, int base_id ) {
		Items v( n );
		unsigned const period = 1 + mc::choose( max_period );
		for( std::size_t i = 0; i != n; ++i ) {
			v[i] = { i < period ? static_cast<int>( mc::choose( alphabet ) ) : v[i - period].key, base_id++ };
		}
		if( unsigned const odd = mc::choose( 6 ); odd != 0 ) {
			std::size_t const at[] = { 0, 1, n / 2, n - 2, n - 1 };
			v[at[odd - 1]].key = static_cast<int>( mc::choose( alphabet ) );
		}
		return v;
	}

	inline Items items( unsigned max_len, unsigned alphabet, int base_id = 0 ) {
		if( long_items ) {
			return repeated( mc::pick( { std::size_t{ 16 }, std::size_t{ 17 }, std::size_t{ 33 } } ), alphabet, alphabet < 3 ? 3 : 2, base_id );
		}
		Items v( mc::choose( max_len + 1 ) );
		for( auto &x : v ) {
			x.key = static_cast<int>( mc::choose( alphabet ) );
			x.id = base_id++;
		}
		return v;
	}
	inline std::string show( Items const &v ) {
		std::string r = "[";
		for( auto const &x : v ) {
			r += std::to_string( x.key ) + " ";
		}
		return r + "]";
	}
	inline std::string show( std::vector<int> const &v ) {
		std::string r = "[";
		for( auto const &x : v ) {
			r += std::to_string( x ) + " ";
		}
		return r + "]";
	}
	template<typename T>
	bool same( std::vector<T> const &a, std::vector<T> const &b ) {
		if( a.size( ) != b.size( ) ) {
			return false;
		}
		for( std::size_t i = 0; i != a.size( ); ++i ) {
			if( not same( a[i], b[i] ) ) {
				return false;
			}
		}
		return true;
	}
} // namespace chk
#define CHK_SHORT_AND_LONG( name ) \
	void name##_body( ); \
	MC_TEST( name ) { \
		chk::long_items = false; \
		name##_body( ); \
	} \
	MC_TEST( name##_long ) { \
		chk::long_items = true; \
		name##_body( ); \
	} \
	void name##_body( )
