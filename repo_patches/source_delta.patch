From e3deb401737f5043b51b56580e14f6c79bbb8490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:24 +0000
Subject: [PATCH 001/311] fix: qualify std names in split_buffer so vector
 insert/emplace compile

---
 include/daw/split_buffer.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/daw/split_buffer.h b/include/daw/split_buffer.h
index bde5282..846919d 100644
--- a/include/daw/split_buffer.h
+++ b/include/daw/split_buffer.h
@@ -226,8 +226,8 @@ namespace daw {
 		constexpr void reserve( size_type n ) {
 			if( n < capacity( ) ) {
 				auto t = split_buffer<value_type, alloc_rr &>( n, 0, alloc( ) );
-				t.construct_at_end( move_iterator<pointer>( begin_ ),
-				                    move_iterator<pointer>( end_ ) );
+				t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+				                    std::move_iterator<pointer>( end_ ) );
 				std::swap( first_, t.first_ );
 				std::swap( begin_, t.begin_ );
 				std::swap( end_, t.end_ );
@@ -263,7 +263,7 @@ namespace daw {
 					end_ += d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t =
 					  split_buffer<value_type, alloc_rr &>( c, ( c + 3 ) / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
@@ -287,7 +287,7 @@ namespace daw {
 					begin_ -= d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
 					                    std::move_iterator<pointer>( end_ ) );
@@ -310,7 +310,7 @@ namespace daw {
 					end_ += d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t =
 					  split_buffer<value_type, alloc_rr &>( c, ( c + 3 ) / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
@@ -335,10 +335,10 @@ namespace daw {
 					begin_ -= d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
-					t.construct_at_end( move_iterator<pointer>( begin_ ),
-					                    move_iterator<pointer>( end_ ) );
+					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+					                    std::move_iterator<pointer>( end_ ) );
 					std::swap( first_, t.first_ );
 					std::swap( begin_, t.begin_ );
 					std::swap( end_, t.end_ );
@@ -362,8 +362,8 @@ namespace daw {
 					size_type c = std::max<size_type>(
 					  2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
-					t.construct_at_end( move_iterator<pointer>( begin_ ),
-					                    move_iterator<pointer>( end_ ) );
+					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+					                    std::move_iterator<pointer>( end_ ) );
 					std::swap( first_, t.first_ );
 					std::swap( begin_, t.begin_ );
 					std::swap( end_, t.end_ );
-- 
2.43.0


From a2c3bc70eccc83810f880bf9765f88a13e7d1bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:24 +0000
Subject: [PATCH 002/311] fix: vector::emplace in the middle used an undefined
 temporary type

---
 include/daw/vector.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 3b44ae6..ea340ea 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -664,10 +664,9 @@ namespace daw {
 				if( p == m_end ) {
 					construct_one_at_end( DAW_FWD( args )... );
 				} else {
-					auto tmp =
-					  temp_value<value_type, Allocator>( alloc( ), DAW_FWD( args )... );
+					auto tmp = value_type( DAW_FWD( args )... );
 					move_range( p, m_end, p + 1 );
-					*p = std::move( tmp.get( ) );
+					*p = std::move( tmp );
 				}
 			} else {
 				allocator_type &a = alloc( );
-- 
2.43.0


From 4bdffc6a681bb16aba1ae96a6f271b9edb870667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:24 +0000
Subject: [PATCH 003/311] fix: vector::swap did not compile (unqualified
 swap_allocator)

---
 include/daw/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index ea340ea..22b0a75 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -926,7 +926,7 @@ namespace daw {
 			std::swap( m_begin, other.m_begin );
 			std::swap( m_end, other.m_end );
 			std::swap( endcap( ), other.endcap( ) );
-			swap_allocator( alloc( ), other.alloc( ),
+			si_impl::swap_allocator( alloc( ), other.alloc( ),
 			                std::bool_constant<
 			                  alloc_traits::propagate_on_container_swap::value>{ } );
 		}
-- 
2.43.0


From 607a2ac2b8519e1b872a6ef78edde2115d14ac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:24 +0000
Subject: [PATCH 004/311] fix: vector::resize_and_overwrite destroyed past the
 end or leaked the tail

The tail has to be destroyed exactly when the new size is below the old
size, independent of the requested count.
---
 include/daw/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 22b0a75..e80c0b6 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -841,7 +841,7 @@ namespace daw {
 			}( );
 			assert( new_size <= n );
 			auto new_end = m_begin + static_cast<difference_type>( new_size );
-			if( new_size < n ) {
+			if( new_size < size( ) ) {
 				destruct_at_end( new_end );
 			}
 			m_end = new_end;
@@ -868,7 +868,7 @@ namespace daw {
 			}( );
 			assert( new_size <= n );
 			auto new_end = m_begin + static_cast<difference_type>( new_size );
-			if( new_size < n ) {
+			if( new_size < size( ) ) {
 				destruct_at_end( new_end );
 			}
 			m_end = new_end;
-- 
2.43.0


From 97d81e7c61b5c7c1f7e4f5837c65b4b522b81ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:24 +0000
Subject: [PATCH 005/311] fix: vector copy assignment deallocated a null
 pointer when empty

---
 include/daw/vector.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index e80c0b6..8e85638 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -1223,9 +1223,7 @@ namespace daw {
 
 		constexpr void copy_assign_alloc( vector const &c, std::true_type ) {
 			if( alloc( ) != c.alloc( ) ) {
-				clear( );
-				alloc_traits::deallocate( alloc( ), m_begin, capacity( ) );
-				m_begin = m_end = endcap( ) = nullptr;
+				vdeallocate( );
 			}
 			alloc( ) = c.alloc( );
 		}
-- 
2.43.0


From de3853acc288fbc36bcd38971c76576c585241f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:24 +0000
Subject: [PATCH 006/311] fix: block_append_from never consumed its input

---
 include/daw/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 8e85638..56f6b76 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -1315,11 +1315,11 @@ namespace daw {
 			v.resize_and_overwrite( cur_size + block_size,
 			                        [&]( T *ptr, std::size_t sz ) {
 				                        ptr += cur_size;
-				                        cur_size += block_size;
 				                        while( cur_size < sz and first != last ) {
 					                        *ptr = *first;
 					                        ++ptr;
 					                        ++first;
+					                        ++cur_size;
 				                        }
 				                        return cur_size;
 			                        } );
-- 
2.43.0


From 918b748e82fb6707ca7e59c83f08da2d1976eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:31 +0000
Subject: [PATCH 007/311] fix: vector constructors leaked storage and elements
 when construction threw

Delegate to a completed constructor so the destructor runs.
---
 include/daw/vector.h | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 56f6b76..e5d075f 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -142,7 +142,8 @@ namespace daw {
 		  noexcept( std::is_nothrow_copy_constructible<allocator_type>::value )
 		  : m_endcap_( nullptr, a ) {}
 
-		explicit constexpr vector( size_type n ) {
+		explicit constexpr vector( size_type n )
+		  : vector( ) {
 			if( n == 0 ) {
 				return;
 			}
@@ -151,14 +152,15 @@ namespace daw {
 		}
 
 		explicit constexpr vector( size_type n, allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 			if( n > 0 ) {
 				vallocate( n );
 				construct_at_end( n );
 			}
 		}
 
-		explicit constexpr vector( size_type n, value_type const &x ) {
+		explicit constexpr vector( size_type n, value_type const &x )
+		  : vector( ) {
 
 			if( n > 0 ) {
 				vallocate( n );
@@ -168,7 +170,7 @@ namespace daw {
 
 		explicit constexpr vector( size_type n, value_type const &x,
 		                           allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			if( n > 0 ) {
 				vallocate( n );
@@ -177,7 +179,8 @@ namespace daw {
 		}
 
 		explicit constexpr vector( do_resize_and_overwrite_t, size_type n,
-		                           auto operation ) {
+		                           auto operation )
+		  : vector( ) {
 			if( n == 0 ) {
 				return;
 			}
@@ -186,7 +189,7 @@ namespace daw {
 
 		explicit constexpr vector( do_resize_and_overwrite_t, size_type n,
 		                           auto operation, allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 			if( n == 0 ) {
 				return;
 			}
@@ -196,7 +199,8 @@ namespace daw {
 		template<input_iterator InputIterator>
 		requires( constructible_from<value_type,
 		                             iter_reference_type<InputIterator>> ) //
-		  explicit constexpr vector( InputIterator first, InputIterator last ) {
+		  explicit constexpr vector( InputIterator first, InputIterator last )
+		  : vector( ) {
 
 			DAW_UNSAFE_BUFFER_FUNC_START
 			for( ; first != last; ++first ) {
@@ -210,7 +214,7 @@ namespace daw {
 		                             iter_reference_type<InputIterator>> ) //
 		  explicit constexpr vector( InputIterator first, InputIterator last,
 		                             allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			DAW_UNSAFE_BUFFER_FUNC_START
 			for( ; first != last; ++first ) {
@@ -223,7 +227,8 @@ namespace daw {
 		requires( not has_slow_distance_v<ForwardIterator> and
 		          constructible_from<value_type,
 		                             iter_reference_type<ForwardIterator>> ) //
-		  explicit constexpr vector( ForwardIterator first, ForwardIterator last ) {
+		  explicit constexpr vector( ForwardIterator first, ForwardIterator last )
+		  : vector( ) {
 
 			auto const n = static_cast<size_type>( std::distance( first, last ) );
 			if( n > 0 ) {
@@ -238,7 +243,7 @@ namespace daw {
 		                             iter_reference_type<ForwardIterator>> ) //
 		  explicit constexpr vector( ForwardIterator first, ForwardIterator last,
 		                             allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 			auto const n = static_cast<size_type>( std::distance( first, last ) );
 			if( n > 0 ) {
 				vallocate( n );
@@ -254,8 +259,8 @@ namespace daw {
 		}
 
 		constexpr vector( vector const &x )
-		  : m_endcap_( nullptr, alloc_traits::select_on_container_copy_construction(
-		                          x.alloc( ) ) ) {
+		  : vector( alloc_traits::select_on_container_copy_construction(
+		      x.alloc( ) ) ) {
 
 			size_type const n = x.size( );
 			if( n > 0 ) {
@@ -266,7 +271,7 @@ namespace daw {
 
 		explicit constexpr vector( vector const &x,
 		                           std::type_identity_t<allocator_type> const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			size_type const n = x.size( );
 			if( n > 0 ) {
@@ -285,7 +290,7 @@ namespace daw {
 
 		explicit constexpr vector( std::initializer_list<value_type> il,
 		                           allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			if( il.size( ) > 0 ) {
 				vallocate( il.size( ) );
@@ -305,7 +310,7 @@ namespace daw {
 
 		explicit constexpr vector( vector &&x,
 		                           std::type_identity_t<allocator_type> const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			if( a == x.alloc( ) ) {
 				m_begin = x.m_begin;
-- 
2.43.0


From 906adc236b63eb840dd90cee79e259c1a9eced60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:37 +0000
Subject: [PATCH 008/311] fix: vector append/resize now keep the documented
 strong exception guarantee

---
 include/daw/vector.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index e5d075f..f802777 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -1013,7 +1013,17 @@ namespace daw {
 		/// @post size() == size() + n
 		constexpr void append( size_type n ) {
 			if( static_cast<size_type>( endcap( ) - m_end ) >= n ) {
-				construct_at_end( n );
+#if defined( DAW_USE_EXCEPTIONS )
+				size_type const old_size = size( );
+				try {
+#endif
+					construct_at_end( n );
+#if defined( DAW_USE_EXCEPTIONS )
+				} catch( ... ) {
+					destruct_at_end( m_begin + old_size );
+					throw;
+				}
+#endif
 			} else {
 				allocator_type &a = alloc( );
 				auto v = split_buffer<value_type, allocator_type &>(
@@ -1030,7 +1040,17 @@ namespace daw {
 		/// @post size() == size() + n
 		constexpr void append( size_type n, const_reference x ) {
 			if( static_cast<size_type>( endcap( ) - m_end ) >= n ) {
-				construct_at_end( n, x );
+#if defined( DAW_USE_EXCEPTIONS )
+				size_type const old_size = size( );
+				try {
+#endif
+					construct_at_end( n, x );
+#if defined( DAW_USE_EXCEPTIONS )
+				} catch( ... ) {
+					destruct_at_end( m_begin + old_size );
+					throw;
+				}
+#endif
 			} else {
 				allocator_type &a = alloc( );
 				auto v = split_buffer<value_type, allocator_type &>(
-- 
2.43.0


From d8171f856341a8e40878ddb51d4c57704320fbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:45 +0000
Subject: [PATCH 009/311] fix: reload with the requested order in
 atomic_wait_if so the found value synchronizes

---
 include/daw/daw_atomic_wait.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_atomic_wait.h b/include/daw/daw_atomic_wait.h
index ef6387e..a6a077a 100644
--- a/include/daw/daw_atomic_wait.h
+++ b/include/daw/daw_atomic_wait.h
@@ -176,7 +176,7 @@ namespace daw {
 		auto const &const_current = current;
 		while( not predicate( const_current ) ) {
 			std::atomic_wait_explicit( object, current, order );
-			current = std::atomic_load_explicit( object, std::memory_order_relaxed );
+			current = std::atomic_load_explicit( object, order );
 		}
 	}
 
-- 
2.43.0


From d0db3ec3919bd1efc22e19676ec9ec30956a2639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:45 +0000
Subject: [PATCH 010/311] fix: assigning a countable_resource does not create
 an instance

---
 include/daw/daw_countable_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_countable_resource.h b/include/daw/daw_countable_resource.h
index cb346ae..ad36b0a 100644
--- a/include/daw/daw_countable_resource.h
+++ b/include/daw/daw_countable_resource.h
@@ -27,7 +27,7 @@ namespace daw {
 		}
 
 		countable_resource_t &operator=( countable_resource_t const & ) noexcept {
-			++m_resource_count;
+			return *this;
 		}
 
 		~countable_resource_t( ) {
-- 
2.43.0


From b37b24a39b799b18a74377610b2d49a26981f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:18 +0000
Subject: [PATCH 011/311] fix: bounded_vector has_room answered the opposite
 question

---
 include/daw/daw_bounded_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index fbaf505..a29bb1d 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -78,7 +78,7 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr bool has_room( size_type count ) noexcept {
-			return count + size( ) >= N;
+			return count <= available( );
 		}
 
 		[[nodiscard]] constexpr size_type available( ) const noexcept {
-- 
2.43.0


From 830d27571c6e00dba0331742c1e77f3e1d57dfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:18 +0000
Subject: [PATCH 012/311] fix: bounded_vector pop_front rejected every valid
 count and dropped from the wrong end

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index a29bb1d..3593104 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -271,9 +271,9 @@ namespace daw {
 
 		constexpr void pop_front( size_type const count ) {
 			daw::exception::precondition_check<std::out_of_range>(
-			  m_index <= m_index - count, "Attempt to pop_front past end of stack" );
+			  count <= size( ), "Attempt to pop_front past end of stack" );
 
-			m_index += count;
+			m_first += count;
 		}
 
 		///	take care calling as it is slow
-- 
2.43.0


From c75b6af22bd7d38eaa40a203a36536e03f3d1482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:18 +0000
Subject: [PATCH 013/311] fix: bounded_vector resize ignored elements already
 popped from the front

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 3593104..65d8c26 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -293,10 +293,10 @@ namespace daw {
 					do_move_to_front( );
 				}
 				for( size_type n = size( ); n < count; ++n ) {
-					m_stack[n] = value_type{ };
+					m_stack[m_first + n] = value_type{ };
 				}
 			}
-			m_index = count;
+			m_index = m_first + count;
 		}
 
 		constexpr iterator erase( const_iterator pos ) {
-- 
2.43.0


From b250ac8b16c656f42803d687eb4a7eddd2de1495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:18 +0000
Subject: [PATCH 014/311] fix: bounded_vector erase returned the wrong position
 and refused to erase everything

---
 include/daw/daw_bounded_vector.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 65d8c26..cf59f0b 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -300,7 +300,8 @@ namespace daw {
 		}
 
 		constexpr iterator erase( const_iterator pos ) {
-			auto first = std::next( begin( ), std::distance( cbegin( ), pos ) );
+			auto const result = std::next( begin( ), std::distance( cbegin( ), pos ) );
+			auto first = result;
 			auto last = std::next( first, 1 );
 			while( last != end( ) ) {
 				daw::iter_swap( first, last );
@@ -308,14 +309,13 @@ namespace daw {
 				std::advance( last, 1 );
 			}
 			resize( size( ) - 1 );
-			if( pos == cend( ) ) {
-				return end( );
-			}
-			return std::next( begin( ), std::distance( cbegin( ), pos ) + 1 );
+			return result;
 		}
 
 		constexpr iterator erase( const_iterator first, const_iterator last ) {
-			auto first1 = std::next( begin( ), std::distance( cbegin( ), first ) );
+			auto const result =
+			  std::next( begin( ), std::distance( cbegin( ), first ) );
+			auto first1 = result;
 			auto first2 = std::next( begin( ), std::distance( cbegin( ), last ) );
 			while( first2 != end( ) ) {
 				daw::iter_swap( first1, first2 );
@@ -325,14 +325,11 @@ namespace daw {
 			auto const dist = std::distance( first, last );
 
 			daw::exception::dbg_precondition_check<std::out_of_range>(
-			  static_cast<difference_type>( size( ) ) > dist and dist >= 0,
+			  static_cast<difference_type>( size( ) ) >= dist and dist >= 0,
 			  "Attempt to resize past capacity of fix_stack" );
 
 			resize( size( ) - static_cast<size_type>( dist ) );
-			if( last == cend( ) ) {
-				return end( );
-			}
-			return std::next( begin( ), std::distance( cbegin( ), last ) + 1 );
+			return result;
 		}
 
 		constexpr void zero( ) noexcept {
-- 
2.43.0


From b7d4c21b4c9eadb3d4395d785908722b7e0f92ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:18 +0000
Subject: [PATCH 015/311] fix: bounded_vector swap lost elements when sizes or
 offsets differ

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index cf59f0b..38f5399 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -341,8 +341,8 @@ namespace daw {
 		constexpr void swap( bounded_vector_t &rhs ) {
 			daw::cswap( m_index, rhs.m_index );
 			daw::cswap( m_first, rhs.m_first );
-			for( std::size_t n = 0; n < size( ); ++n ) {
-				daw::cswap( operator[]( n ), rhs[n] );
+			for( std::size_t n = 0; n < N; ++n ) {
+				daw::cswap( m_stack[n], rhs.m_stack[n] );
 			}
 		}
 	};
-- 
2.43.0


From 7eb65aec30844dd0b4cbbedf6555b2f044bcd72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:18 +0000
Subject: [PATCH 016/311] fix: bounded_vector emplace_back sized the needed
 room by its argument count

---
 include/daw/daw_bounded_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 38f5399..f757a6f 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -258,7 +258,7 @@ namespace daw {
 
 		template<typename... Args>
 		constexpr void emplace_back( Args &&...args ) noexcept {
-			if( can_move_front( sizeof...( Args ) ) ) {
+			if( can_move_front( 1 ) ) {
 				do_move_to_front( );
 			}
 			m_stack[m_index] = daw::construct_a<value_type>( DAW_FWD( args )... );
-- 
2.43.0


From 8380828f197fe04b5471bc271ae105fb97c7af56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:18 +0000
Subject: [PATCH 017/311] fix: ring_adaptor emplace_back consumed the head
 instead of appending at the tail

---
 include/daw/daw_ring_adaptor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_ring_adaptor.h b/include/daw/daw_ring_adaptor.h
index 8687bd1..633d0c8 100644
--- a/include/daw/daw_ring_adaptor.h
+++ b/include/daw/daw_ring_adaptor.h
@@ -96,9 +96,9 @@ namespace daw {
 		template<typename... Args>
 		reference emplace_back( Args &&...args ) {
 			assert( not is_full( ) );
-			auto const idx = get_idx( m_head );
-			++m_head;
+			auto const idx = get_idx( m_tail );
 			m_queue[idx] = construct_a<value_type>( DAW_FWD( args )... );
+			++m_tail;
 			return m_queue[idx];
 		}
 
-- 
2.43.0


From 0ac81313828102f685b97fd1a4418840ea0f9d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:12 +0000
Subject: [PATCH 018/311] fix: hash_set_t::erase and size compile, erase keeps
 colliding keys reachable

---
 include/daw/daw_hash_set.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_hash_set.h b/include/daw/daw_hash_set.h
index 9aa39cf..4ade6cb 100644
--- a/include/daw/daw_hash_set.h
+++ b/include/daw/daw_hash_set.h
@@ -72,10 +72,22 @@ namespace daw {
 		std::optional<std::size_t> erase( Key const &key ) {
 			std::uint64_t const hash = Hash{ }( key );
 			auto const index = find_index( hash, key );
-			if( not index ) {
+			if( not index or not m_indices[*index] ) {
 				return { };
 			}
-			m_indices[index] = std::nullopt;
+			m_indices[*index] = std::nullopt;
+			// Close the gap so that keys that probed past it are still found
+			std::size_t const sz = m_indices.size( );
+			std::size_t hole = *index;
+			for( std::size_t n = ( hole + 1 ) % sz; m_indices[n];
+			     n = ( n + 1 ) % sz ) {
+				std::size_t const home = scale_hash( Hash{ }( *m_indices[n] ), sz );
+				if( ( n + sz - home ) % sz >= ( n + sz - hole ) % sz ) {
+					m_indices[hole] = std::move( m_indices[n] );
+					m_indices[n] = std::nullopt;
+					hole = n;
+				}
+			}
 			return index;
 		}
 
@@ -99,8 +111,9 @@ namespace daw {
 		[[nodiscard]] std::size_t size( ) const noexcept {
 			return daw::algorithm::accumulate( std::begin( m_indices ),
 			                                   std::end( m_indices ), std::size_t{ },
-			                                   []( auto const &opt ) {
-				                                   return opt.has_value( ) ? 1U : 0U;
+			                                   []( std::size_t sum, auto const &opt ) {
+				                                   return sum +
+				                                          ( opt.has_value( ) ? 1U : 0U );
 			                                   } );
 		}
 	};
-- 
2.43.0


From 4343a7c1064d2dad3da545e8d26a6c6a46647871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:12 +0000
Subject: [PATCH 019/311] fix: hash_set_t with no capacity does not divide by
 zero

---
 include/daw/daw_hash_set.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_hash_set.h b/include/daw/daw_hash_set.h
index 4ade6cb..dd86700 100644
--- a/include/daw/daw_hash_set.h
+++ b/include/daw/daw_hash_set.h
@@ -34,6 +34,9 @@ namespace daw {
 
 		[[nodiscard]] std::optional<std::size_t>
 		find_index( std::uint64_t hash, Key const &key ) const {
+			if( m_indices.empty( ) ) {
+				return { };
+			}
 			std::size_t const scaled_hash = scale_hash( hash, m_indices.size( ) );
 
 			for( std::size_t n = scaled_hash; n < m_indices.size( ); ++n ) {
-- 
2.43.0


From 3bb4fca523229c938c2b46b7ddf783b3ffd6a27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:13 +0000
Subject: [PATCH 020/311] fix: bounded_hash_map::erase keeps colliding keys
 reachable

---
 include/daw/deprecated/daw_bounded_hash_map.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index c7adc75..9bfc6dd 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -534,8 +534,21 @@ namespace daw {
 
 		constexpr void erase( Key const &key ) {
 			auto idx = find_index( key );
-			if( idx ) {
-				m_data[*idx] = bounded_hash_map_item_t<Key, Value>( );
+			if( not idx or not m_data[*idx] ) {
+				return;
+			}
+			m_data[*idx] = bounded_hash_map_item_t<Key, Value>( );
+			// Close the gap so that keys that probed past it are still found
+			size_type const sz = capacity( );
+			size_type hole = *idx;
+			for( size_type n = ( hole + 1 ) % sz; m_data[n]; n = ( n + 1 ) % sz ) {
+				size_type const home =
+				  scale_hash( Hash{ }( m_data[n].kv.key ), sz );
+				if( ( n + sz - home ) % sz >= ( n + sz - hole ) % sz ) {
+					m_data[hole] = std::move( m_data[n] );
+					m_data[n] = bounded_hash_map_item_t<Key, Value>( );
+					hole = n;
+				}
 			}
 		}
 	};
-- 
2.43.0


From 5a5febb9ea87195d95e9fa1a26ed16ea193968ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:13 +0000
Subject: [PATCH 021/311] fix: bounded_hash_map::find reports an absent key as
 end

---
 include/daw/deprecated/daw_bounded_hash_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index 9bfc6dd..d573d23 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -516,7 +516,7 @@ namespace daw {
 
 		constexpr iterator find( Key const &key ) {
 			auto idx = find_index( key );
-			if( not idx ) {
+			if( not idx or not m_data[*idx] ) {
 				return end( );
 			}
 			return { std::data( m_data ), std::data( m_data ) + capacity( ),
@@ -525,7 +525,7 @@ namespace daw {
 
 		constexpr const_iterator find( Key const &key ) const {
 			auto idx = find_index( key );
-			if( not idx ) {
+			if( not idx or not m_data[*idx] ) {
 				return end( );
 			}
 			return { std::data( m_data ), std::data( m_data ) + capacity( ),
-- 
2.43.0


From 377b1c2627a5b681f8d188de5b370d0f1a5960df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:23 +0000
Subject: [PATCH 022/311] fix: bounded_hash_map reports a full table instead of
 writing through an empty index

---
 include/daw/deprecated/daw_bounded_hash_map.h | 33 ++++++++++++++++---
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index d573d23..3c45654 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -17,6 +17,7 @@
 #include "daw/daw_traits.h"
 
 #include <cstdint>
+#include <cstdlib>
 #include <memory>
 #include <numeric>
 #include <utility>
@@ -347,6 +348,10 @@ namespace daw {
 
 		constexpr void insert( value_type &&item ) {
 			auto const index = find_index( item.key );
+			if( not index ) {
+				// Full
+				std::abort( );
+			}
 			m_data[*index] =
 			  daw::bounded_hash_map_item_t<Key, Value>( std::move( item ) );
 		}
@@ -381,12 +386,20 @@ namespace daw {
 		           std::nullptr_t> = nullptr>
 		constexpr void insert( K &&key, V &&value ) {
 			auto const index = find_index( key );
+			if( not index ) {
+				// Full
+				std::abort( );
+			}
 			m_data[*index] =
 			  bounded_hash_map_item_t( DAW_FWD( key ), DAW_FWD( value ) );
 		}
 
 		constexpr void insert( std::pair<Key const, Value> const &item ) {
 			auto const index = find_index( item.first );
+			if( not index ) {
+				// Full
+				std::abort( );
+			}
 			m_data[*index] = bounded_hash_map_item_t( item.first, item.second );
 		}
 
@@ -400,7 +413,12 @@ namespace daw {
 		}
 
 		constexpr mapped_type &operator[]( Key const &key ) {
-			auto &item = m_data[*find_index( key )];
+			auto const index = find_index( key );
+			if( not index ) {
+				// Full
+				std::abort( );
+			}
+			auto &item = m_data[*index];
 			if( not item ) {
 				item.has_value = true;
 				item.kv.key = key;
@@ -410,7 +428,12 @@ namespace daw {
 		}
 
 		constexpr mapped_type &operator[]( Key &&key ) {
-			auto &item = m_data[*find_index( key )];
+			auto const index = find_index( key );
+			if( not index ) {
+				// Full
+				std::abort( );
+			}
+			auto &item = m_data[*index];
 			if( not item ) {
 				item.has_value = true;
 				item.kv.key = std::move( key );
@@ -420,11 +443,11 @@ namespace daw {
 		}
 
 		constexpr mapped_type const &operator[]( Key const &key ) const {
-			auto const &item = m_data[*find_index( key )];
-			if( not item ) {
+			auto const index = find_index( key );
+			if( not index or not m_data[*index] ) {
 				std::abort( );
 			}
-			return item.kv.value;
+			return m_data[*index].kv.value;
 		}
 
 		constexpr daw::optional<mapped_type const &>
-- 
2.43.0


From 728cf3d8968921e1a5a71cdbf783facaf4e5d57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:23 +0000
Subject: [PATCH 023/311] fix: bounded_hash_set erase keeps colliding keys
 reachable and reports absent keys

---
 include/daw/deprecated/daw_bounded_hash_set.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index 5427c4b..f0d6f69 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -366,11 +366,24 @@ namespace daw {
 		constexpr std::optional<size_type> erase( Key const &key ) noexcept {
 			auto const hash = hasher{ }( key );
 			auto const index = find_index( hash, key );
-			if( !index ) {
+			if( !index or !m_data[*index].has_value ) {
 				return { };
 			}
 			// m_data[*index].key = Key{};
 			m_data[*index].has_value = false;
+			// Close the gap so that keys that probed past it are still found
+			size_type const sz = m_data.size( );
+			size_type hole = *index;
+			for( size_type n = ( hole + 1 ) % sz; m_data[n].has_value;
+			     n = ( n + 1 ) % sz ) {
+				size_type const home = scale_hash( hasher{ }( m_data[n].key ), sz );
+				if( ( n + sz - home ) % sz >= ( n + sz - hole ) % sz ) {
+					m_data[hole].key = std::move( m_data[n].key );
+					m_data[hole].has_value = true;
+					m_data[n].has_value = false;
+					hole = n;
+				}
+			}
 			return *index;
 		}
 
-- 
2.43.0


From a71f9d68200cf9987f0cda000b61de4edbe79122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:23 +0000
Subject: [PATCH 024/311] fix: bounded_hash_set iterator does not read past the
 table

---
 include/daw/deprecated/daw_bounded_hash_set.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index f0d6f69..091dded 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -76,7 +76,7 @@ namespace daw {
 
 		constexpr const_bounded_hash_set_iterator &operator++( ) noexcept {
 			++m_position;
-			while( !m_position->has_value and m_position < m_last ) {
+			while( m_position < m_last and !m_position->has_value ) {
 				++m_position;
 			}
 			return *this;
@@ -167,7 +167,7 @@ namespace daw {
 
 		constexpr bounded_hash_set_iterator &operator++( ) noexcept {
 			++m_position;
-			while( !m_position->has_value and m_position <= m_last ) {
+			while( m_position < m_last and !m_position->has_value ) {
 				++m_position;
 			}
 			return *this;
@@ -181,7 +181,7 @@ namespace daw {
 
 		constexpr bounded_hash_set_iterator &operator--( ) noexcept {
 			--m_position;
-			while( !m_position->has_value and m_position >= m_first ) {
+			while( !m_position->has_value and m_position > m_first ) {
 				--m_position;
 			}
 			return *this;
-- 
2.43.0


From 8b8892d182fa80fe9afde9f3ad33b1baa90fe7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:23 +0000
Subject: [PATCH 025/311] fix: bounded_hash_set::size and const find compile,
 find reports an absent key as end

---
 include/daw/deprecated/daw_bounded_hash_set.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index 091dded..92ec64c 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -403,8 +403,9 @@ namespace daw {
 
 		[[nodiscard]] constexpr size_type size( ) const noexcept {
 			return daw::algorithm::accumulate(
-			  std::begin( m_data ), std::end( m_data ), 0ULL, []( auto const &opt ) {
-				  return opt.has_value ? 1ULL : 0ULL;
+			  std::begin( m_data ), std::end( m_data ), size_type{ 0 },
+			  []( size_type sum, auto const &opt ) {
+				  return sum + ( opt.has_value ? 1U : 0U );
 			  } );
 		}
 
@@ -463,15 +464,15 @@ namespace daw {
 
 		constexpr iterator find( Key const &key ) noexcept {
 			auto idx = find_index( hasher{ }( key ), key );
-			if( !idx ) {
+			if( !idx or !m_data[*idx].has_value ) {
 				return end( );
 			}
 			return { m_data.data( ), m_data.data( ) + m_data.size( ), &m_data[*idx] };
 		}
 
 		constexpr const_iterator find( Key const &key ) const noexcept {
-			auto idx = find_index( key );
-			if( !idx ) {
+			auto idx = find_index( hasher{ }( key ), key );
+			if( !idx or !m_data[*idx].has_value ) {
 				return end( );
 			}
 			return { m_data.data( ), m_data.data( ) + m_data.size( ), &m_data[*idx] };
-- 
2.43.0


From 65f131fe9dfedf15d03e047e4bf1bd3b3c2d7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:23 +0000
Subject: [PATCH 026/311] fix: fixed_lookup starts out empty instead of with
 indeterminate hashes

---
 include/daw/deprecated/daw_fixed_lookup.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_fixed_lookup.h b/include/daw/deprecated/daw_fixed_lookup.h
index 88e1838..ce30236 100644
--- a/include/daw/deprecated/daw_fixed_lookup.h
+++ b/include/daw/deprecated/daw_fixed_lookup.h
@@ -68,8 +68,8 @@ namespace daw {
 		using const_reference = value_t const &;
 
 	private:
-		std::array<hash_value_t, N> m_hashes;
-		std::array<value_t, N> m_values;
+		std::array<hash_value_t, N> m_hashes{ };
+		std::array<value_t, N> m_values{ };
 
 	public:
 		static constexpr hash_value_t capacity( ) noexcept {
-- 
2.43.0


From 29ae4c0d071ce6025c027c0c6e4886bf983cdab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:20 +0000
Subject: [PATCH 027/311] fix: ordered_map reverse iteration and
 range/initializer construction compile

---
 include/daw/deprecated/daw_ordered_map.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/daw/deprecated/daw_ordered_map.h b/include/daw/deprecated/daw_ordered_map.h
index 41071a1..45ebc3e 100644
--- a/include/daw/deprecated/daw_ordered_map.h
+++ b/include/daw/deprecated/daw_ordered_map.h
@@ -126,17 +126,17 @@ namespace daw {
 			return cbeginer( m_values );
 		}
 
-		constexpr iterator rbegin( ) noexcept {
+		constexpr reverse_iterator rbegin( ) noexcept {
 			using namespace daw::ordered_map_impl;
 			return rbeginer( m_values );
 		}
 
-		constexpr const_iterator rbegin( ) const noexcept {
+		constexpr const_reverse_iterator rbegin( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return rbeginer( m_values );
 		}
 
-		constexpr const_iterator crbegin( ) const noexcept {
+		constexpr const_reverse_iterator crbegin( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return crbeginer( m_values );
 		}
@@ -156,17 +156,17 @@ namespace daw {
 			return cender( m_values );
 		}
 
-		constexpr iterator rend( ) noexcept {
+		constexpr reverse_iterator rend( ) noexcept {
 			using namespace daw::ordered_map_impl;
 			return render( m_values );
 		}
 
-		constexpr const_iterator rend( ) const noexcept {
+		constexpr const_reverse_iterator rend( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return render( m_values );
 		}
 
-		constexpr const_iterator crend( ) const noexcept {
+		constexpr const_reverse_iterator crend( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return crender( m_values );
 		}
@@ -239,7 +239,7 @@ namespace daw {
 		  , m_values( alloc ) {
 
 			while( first != last ) {
-				if( auto pos = find( *first ); pos == end( ) ) {
+				if( auto pos = find( first->first ); pos == end( ) ) {
 					m_values.insert( pos, *first );
 				}
 				++first;
@@ -253,7 +253,7 @@ namespace daw {
 		  : m_values( alloc ) {
 
 			while( first != last ) {
-				if( auto pos = find( *first ); pos == end( ) ) {
+				if( auto pos = find( first->first ); pos == end( ) ) {
 					m_values.insert( pos, *first );
 				}
 				++first;
@@ -267,7 +267,7 @@ namespace daw {
 		  , m_compare( comp ) {
 
 			for( auto const &value : init ) {
-				if( auto pos = find( value ); pos == end( ) ) {
+				if( auto pos = find( value.first ); pos == end( ) ) {
 					m_values.insert( pos, value );
 				}
 			}
@@ -278,7 +278,7 @@ namespace daw {
 		  : m_values( alloc ) {
 
 			for( auto const &value : init ) {
-				if( auto pos = find( value ); pos == end( ) ) {
+				if( auto pos = find( value.first ); pos == end( ) ) {
 					m_values.insert( pos, value );
 				}
 			}
-- 
2.43.0


From 822c85874bc2631ebf33bfbfd31975ee710cade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:20 +0000
Subject: [PATCH 028/311] fix: static_hash_t default construction and const
 lookup by non-string key compile

---
 include/daw/static_hash_table.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/daw/static_hash_table.h b/include/daw/static_hash_table.h
index 5b95b77..0e92e08 100644
--- a/include/daw/static_hash_table.h
+++ b/include/daw/static_hash_table.h
@@ -108,9 +108,7 @@ namespace daw {
 
 	public:
 		constexpr static_hash_t( )
-		  : m_values{ } {
-			daw::algorithm::fill_n( m_values.begin( ), Capacity, hash_item{ } );
-		}
+		  : m_values{ } {}
 
 		constexpr static_hash_t(
 		  std::initializer_list<std::pair<char const *const, value_type>> items ) {
@@ -158,7 +156,6 @@ namespace daw {
 		[[nodiscard]] constexpr const_reference operator[]( K const &key ) const {
 			auto const hash = hash_fn( key );
 			auto const pos = find_impl( hash );
-			m_values[pos].hash_value = hash;
 			return m_values[pos].value;
 		}
 
-- 
2.43.0


From f8e1b32aec58cfd615a2c74cb60643387444b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:39 +0000
Subject: [PATCH 029/311] fix: static_hash_t reports a full table instead of
 accessing past it

---
 include/daw/static_hash_table.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/daw/static_hash_table.h b/include/daw/static_hash_table.h
index 0e92e08..ad3a88b 100644
--- a/include/daw/static_hash_table.h
+++ b/include/daw/static_hash_table.h
@@ -11,10 +11,12 @@
 #include "daw/ciso646.h"
 #include "daw/daw_algorithm.h"
 #include "daw/daw_arith_traits.h"
+#include "daw/daw_check_exceptions.h"
 #include "daw/daw_fnv1a_hash.h"
 #include "daw/daw_remove_cvref.h"
 
 #include <limits>
+#include <stdexcept>
 
 namespace daw {
 	template<typename T, std::size_t Capacity>
@@ -106,6 +108,15 @@ namespace daw {
 			return Capacity;
 		}
 
+		// Position of the item with this hash or of the empty slot it would use
+		[[nodiscard]] constexpr std::size_t find_slot( std::uint64_t hash ) const {
+			auto const pos = find_impl( hash );
+			if( pos >= Capacity ) {
+				DAW_THROW_OR_TERMINATE( std::out_of_range, "Hash table is full" );
+			}
+			return pos;
+		}
+
 	public:
 		constexpr static_hash_t( )
 		  : m_values{ } {}
@@ -114,7 +125,7 @@ namespace daw {
 		  std::initializer_list<std::pair<char const *const, value_type>> items ) {
 			for( auto const &item : items ) {
 				auto const hash = hash_fn( item.first );
-				auto const pos = find_impl( hash );
+				auto const pos = find_slot( hash );
 				m_values[pos].hash_value = hash;
 				m_values[pos].value = item.second;
 			}
@@ -125,7 +136,7 @@ namespace daw {
 		  std::initializer_list<std::pair<K, value_type>> items ) {
 			for( auto const &item : items ) {
 				auto const hash = hash_fn( item.first );
-				auto const pos = find_impl( hash );
+				auto const pos = find_slot( hash );
 				m_values[pos].hash_value = hash;
 				m_values[pos].value = std::move( item.second );
 			}
@@ -140,14 +151,14 @@ namespace daw {
 		template<typename K>
 		[[nodiscard]] constexpr reference operator[]( K const &key ) {
 			auto const hash = hash_fn( key );
-			auto const pos = find_impl( hash );
+			auto const pos = find_slot( hash );
 			m_values[pos].hash_value = hash;
 			return m_values[pos].value;
 		}
 
 		[[nodiscard]] constexpr reference operator[]( char const *const key ) {
 			auto const hash = hash_fn( key );
-			auto const pos = find_impl( hash );
+			auto const pos = find_slot( hash );
 			m_values[pos].hash_value = hash;
 			return m_values[pos].value;
 		}
@@ -155,14 +166,14 @@ namespace daw {
 		template<typename K>
 		[[nodiscard]] constexpr const_reference operator[]( K const &key ) const {
 			auto const hash = hash_fn( key );
-			auto const pos = find_impl( hash );
+			auto const pos = find_slot( hash );
 			return m_values[pos].value;
 		}
 
 		[[nodiscard]] constexpr const_reference
 		operator[]( char const *const key ) const {
 			auto hash = hash_fn( key );
-			auto const pos = find_impl( hash );
+			auto const pos = find_slot( hash );
 			return m_values[pos].value;
 		}
 	}; // static_hash_t
-- 
2.43.0


From 4692115978686b12020325d645bdf16369e04056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:42 +0000
Subject: [PATCH 030/311] fix: bounded_hash_map::empty and try_get compile

---
 include/daw/deprecated/daw_bounded_hash_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index 3c45654..33adb42 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -460,7 +460,7 @@ namespace daw {
 			if( not item ) {
 				return { };
 			}
-			return item.kv.value;
+			return daw::optional<mapped_type const &>( item.kv.value );
 		}
 
 		constexpr size_type count( Key const &key ) const {
@@ -491,7 +491,7 @@ namespace daw {
 			return daw::algorithm::find_if( std::cbegin( m_data ),
 			                                std::cend( m_data ),
 			                                []( auto const &value ) {
-				                                return value;
+				                                return value.has_value;
 			                                } ) == std::cend( m_data );
 		}
 
-- 
2.43.0


From 4cc15772f0493d2cff69addec9144260a66e5c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:44 +0000
Subject: [PATCH 031/311] fix: graph node proxies are equal only when both
 graph and node are the same

---
 include/daw/daw_graph.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_graph.h b/include/daw/daw_graph.h
index 49bd0ae..77df31c 100644
--- a/include/daw/daw_graph.h
+++ b/include/daw/daw_graph.h
@@ -209,15 +209,15 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator==( Rhs const &rhs ) noexcept {
+		constexpr bool operator==( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
 		template<typename Rhs>
-		constexpr bool operator!=( Rhs const &rhs ) noexcept {
+		constexpr bool operator!=( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			return m_node_id != rhs.id( ) or
@@ -225,7 +225,7 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator<( Rhs const &rhs ) noexcept {
+		constexpr bool operator<( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			daw::exception::dbg_precondition_check(
@@ -308,15 +308,15 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator==( Rhs const &rhs ) noexcept {
+		constexpr bool operator==( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
 		template<typename Rhs>
-		constexpr bool operator!=( Rhs const &rhs ) noexcept {
+		constexpr bool operator!=( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			return m_node_id != rhs.id( ) or
@@ -324,7 +324,7 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator<( Rhs const &rhs ) noexcept {
+		constexpr bool operator<( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			daw::exception::dbg_precondition_check(
-- 
2.43.0


From b54317b16ec2352e3dded9bd44355dbfbd4e7920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:44 +0000
Subject: [PATCH 032/311] fix: bounded graph node proxies are equal only when
 both graph and node are the same

---
 include/daw/deprecated/daw_bounded_graph.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_graph.h b/include/daw/deprecated/daw_bounded_graph.h
index 0add992..6ad0cb7 100644
--- a/include/daw/deprecated/daw_bounded_graph.h
+++ b/include/daw/deprecated/daw_bounded_graph.h
@@ -235,15 +235,15 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator==( Rhs const &rhs ) noexcept {
+		constexpr bool operator==( Rhs const &rhs ) const noexcept {
 			static_assert( is_bounded_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
 		template<typename Rhs>
-		constexpr bool operator!=( Rhs const &rhs ) noexcept {
+		constexpr bool operator!=( Rhs const &rhs ) const noexcept {
 			static_assert( is_bounded_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			return m_node_id != rhs.id( ) or
@@ -251,7 +251,7 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator<( Rhs const &rhs ) noexcept {
+		constexpr bool operator<( Rhs const &rhs ) const noexcept {
 			static_assert( is_bounded_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			daw::exception::dbg_precondition_check(
@@ -342,7 +342,7 @@ namespace daw {
 		constexpr bool operator==( Rhs const &rhs ) const noexcept {
 			static_assert( is_bounded_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
-- 
2.43.0


From 2fff42993f54bf551bb1824015ac96ab75c39894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:45 +0000
Subject: [PATCH 033/311] fix: bfs_walk and dfs_walk visit each node once

---
 include/daw/daw_graph_algorithm.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index 07f5d56..a449c9b 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -124,8 +124,10 @@ namespace daw {
 			while( not path.empty( ) ) {
 				auto current_node = graph.get_node( path.front( ) );
 				path.pop_front( );
+				if( not visited.insert( current_node.id( ) ).second ) {
+					continue;
+				}
 				func( current_node );
-				visited.insert( current_node.id( ) );
 				if constexpr( std::is_same_v<ChildOrder, UnorderedWalk> ) {
 					std::copy_if( std::begin( current_node.outgoing_edges( ) ),
 					              std::end( current_node.outgoing_edges( ) ),
@@ -163,8 +165,10 @@ namespace daw {
 			while( not path.empty( ) ) {
 				auto current_node = graph.get_node( path.back( ) );
 				path.pop_back( );
+				if( not visited.insert( current_node.id( ) ).second ) {
+					continue;
+				}
 				func( current_node );
-				visited.insert( current_node.id( ) );
 				if constexpr( std::is_same_v<ChildOrder, UnorderedWalk> ) {
 					std::copy_if( std::begin( current_node.outgoing_edges( ) ),
 					              std::end( current_node.outgoing_edges( ) ),
-- 
2.43.0


From 39107bccf1eff0cc1c5107c9a697243b075e4ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:45 +0000
Subject: [PATCH 034/311] fix: graph walks sort children with a strict weak
 ordering

---
 include/daw/daw_graph_algorithm.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index a449c9b..76f272d 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -97,8 +97,8 @@ namespace daw {
 					auto child_nodes = graph_alg_impl::get_child_nodes( graph, node );
 					if constexpr( perform_sort_v ) {
 						std::sort( std::begin( child_nodes ), std::end( child_nodes ),
-						           [&]( auto &&...args ) {
-							           return not comp( DAW_FWD( args )... );
+						           [&]( auto const &lhs, auto const &rhs ) {
+							           return comp( rhs, lhs );
 						           } );
 					}
 					for( auto child : child_nodes ) {
@@ -186,8 +186,8 @@ namespace daw {
 
 					std::sort( children.begin( ), children.end( ),
 					           [&]( daw::node_id_t left_id, daw::node_id_t right_id ) {
-						           return not ord( graph.get_node( left_id ).value( ),
-						                           graph.get_node( right_id ).value( ) );
+						           return ord( graph.get_node( right_id ).value( ),
+						                       graph.get_node( left_id ).value( ) );
 					           } );
 					path.reserve( path.size( ) + children.size( ) );
 					std::copy( children.begin( ), children.end( ),
-- 
2.43.0


From 49551c88fa599bf13675436bd41841fdd6953bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:45 +0000
Subject: [PATCH 035/311] fix: reversed topological ranges start at the end
 instead of before the beginning

---
 include/daw/daw_graph_algorithm.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index 76f272d..6ff6c6d 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -309,7 +309,7 @@ namespace daw {
 
 		[[nodiscard]] topological_sorted_iterator end( ) const {
 			auto result = *this;
-			result.m_iterator = result.end( );
+			result.m_iterator = m_nodes->end( );
 			return result;
 		}
 
@@ -429,7 +429,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> rbegin( ) const {
-				return std::reverse_iterator<iterator_t>( first );
+				return std::reverse_iterator<iterator_t>( last );
 			}
 
 			[[nodiscard]] iterator_t end( ) const {
@@ -437,7 +437,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> rend( ) const {
-				return std::reverse_iterator<iterator_t>( last );
+				return std::reverse_iterator<iterator_t>( first );
 			}
 
 			[[nodiscard]] size_t size( ) const noexcept {
@@ -469,7 +469,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> begin( ) const {
-				return std::reverse_iterator<iterator_t>( first );
+				return std::reverse_iterator<iterator_t>( last );
 			}
 
 			[[nodiscard]] iterator_t rend( ) const {
@@ -477,7 +477,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> end( ) const {
-				return std::reverse_iterator<iterator_t>( last );
+				return std::reverse_iterator<iterator_t>( first );
 			}
 
 			[[nodiscard]] size_t size( ) const noexcept {
-- 
2.43.0


From f6560eeafc1cf4fe0cc3b358845feda0763a0a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:59 +0000
Subject: [PATCH 036/311] fix: perfect_hash_table places a lone key only once

---
 include/daw/daw_min_perfect_hash.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index e5a9d0e..c095999 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -278,6 +278,7 @@ namespace daw {
 				m_salts[bucket.bucket_index] = -( static_cast<salt_type>( pos ) + 1 );
 				m_keys[pos] = bucket.items[0]->first;
 				m_values[pos] = bucket.items[0]->second;
+				return;
 			}
 
 			for( salt_type salt = 1;; ++salt ) {
-- 
2.43.0


From b2c0e10f182a95a15a0052afb45d06737bcc2730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:59 +0000
Subject: [PATCH 037/311] fix: perfect_hash_table construction terminates for
 hashes that agree in their low bits

---
 include/daw/daw_min_perfect_hash.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index c095999..8325227 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -108,8 +108,14 @@ namespace daw {
 
 			uintmax_t const s = seed + 1;
 			uintmax_t const h = hash;
-			return static_cast<hash_result>(
-			  s ^ ( h + 0x9e3779b9ULL + ( s << 6ULL ) + ( s >> 2ULL ) ) );
+			uintmax_t result =
+			  s ^ ( h + 0x9e3779b9ULL + ( s << 6ULL ) + ( s >> 2ULL ) );
+			// Let every bit of the hash reach the low bits, which select the slot.
+			// Otherwise no salt can separate hashes that only differ above them
+			result ^= result >> 32U;
+			result *= 0x9e37'79b9'7f4a'7c15ULL;
+			result ^= result >> 32U;
+			return static_cast<hash_result>( result );
 		}
 	} // namespace mph_impl
 
-- 
2.43.0


From bb83bc985c115ff23ed05e29d577cc4f09c2996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:59 +0000
Subject: [PATCH 038/311] fix: perfect_hash_table does not report an absent
 default key in an unused slot

---
 include/daw/daw_min_perfect_hash.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index 8325227..af4fae3 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -179,14 +179,12 @@ namespace daw {
 				           return lhs.items.size( ) > rhs.items.size( );
 			           } );
 
-			daw::array<bool, m_data_size> slots_claimed{ };
-
 			daw::algorithm::find_if( buckets.cbegin( ), buckets.cend( ),
 			                         [&]( auto const &bucket ) {
 				                         if( bucket.items.empty( ) ) {
 					                         return true;
 				                         }
-				                         find_salt_for_bucket( bucket, slots_claimed );
+				                         find_salt_for_bucket( bucket, m_used );
 				                         return false;
 			                         } );
 		}
@@ -198,7 +196,7 @@ namespace daw {
 		[[nodiscard]] constexpr const_mapped_type_pointer
 		find( Key const &key ) const {
 			size_type const pos = find_data_index( key );
-			if( key_equal{ }( key, m_keys[pos] ) ) {
+			if( m_used[pos] and key_equal{ }( key, m_keys[pos] ) ) {
 				return &m_values[pos];
 			}
 			return nullptr;
@@ -210,12 +208,12 @@ namespace daw {
 
 		[[nodiscard]] constexpr bool contains( Key const &key ) const noexcept {
 			size_type const pos = find_data_index( key );
-			return key_equal{ }( key, m_keys[pos] );
+			return m_used[pos] and key_equal{ }( key, m_keys[pos] );
 		}
 
 		[[nodiscard]] constexpr mapped_type_pointer find( Key const &key ) {
 			size_type const pos = find_data_index( key );
-			if( key_equal{ }( key, m_keys[pos] ) ) {
+			if( m_used[pos] and key_equal{ }( key, m_keys[pos] ) ) {
 				return &m_values[pos];
 			}
 			return nullptr;
@@ -250,6 +248,7 @@ namespace daw {
 		daw::array<salt_type, m_num_buckets> m_salts{ };
 		daw::array<mapped_type, m_data_size> m_values{ };
 		daw::array<key_type, m_data_size> m_keys{ };
+		daw::array<bool, m_data_size> m_used{ };
 		//***************
 
 		template<size_type Space = m_data_size>
-- 
2.43.0


From 6596df8ace9973908edae601212eb8b01d5a3fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:59 +0000
Subject: [PATCH 039/311] fix: bitset::unset clears only the requested bit

---
 include/daw/daw_bitset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bitset.h b/include/daw/daw_bitset.h
index 194bb8c..7c7a1cc 100644
--- a/include/daw/daw_bitset.h
+++ b/include/daw/daw_bitset.h
@@ -44,7 +44,7 @@ namespace daw {
 
 		DAW_ATTRIB_INLINE constexpr void unset( std::size_t index ) {
 			assert( index < size( ) );
-			m_bits[get_limb( index )] &= ~( 1u << index % 4 );
+
 			auto const limb = get_limb( index );
 			auto const mask = get_mask( index );
 			m_bits[limb] &= ~mask;
-- 
2.43.0


From f540baccb86ec608f45ff5eef7252fa5aa9ebc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:59 +0000
Subject: [PATCH 040/311] fix: static_bitset set_bit, clear_bit and get_bit
 address the requested bit

---
 include/daw/daw_static_bitset.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index bfd8fd0..82c988c 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -119,7 +119,7 @@ namespace daw {
 			value_t bit;
 		};
 
-		constexpr bit_address_t get_address( size_t index ) noexcept {
+		static constexpr bit_address_t get_address( size_t index ) noexcept {
 			bit_address_t result{ };
 			result.index = static_cast<value_t>( index / daw::bsizeof<value_t> );
 
@@ -130,15 +130,15 @@ namespace daw {
 		}
 
 		static constexpr void set_bit( value_t &value, value_t bit ) noexcept {
-			value |= static_cast<value_t>( bit << 1U );
+			value |= value_t{ 1 } << bit;
 		}
 
 		static constexpr void clear_bit( value_t &value, value_t bit ) noexcept {
-			value &= static_cast<value_t>( ~static_cast<value_t>( bit << 1U ) );
+			value &= ~( value_t{ 1 } << bit );
 		}
 
-		static constexpr bool get_bit( value_t &value, value_t bit ) noexcept {
-			return ( value & static_cast<value_t>( bit << 1U ) ) != 0U;
+		static constexpr bool get_bit( value_t value, value_t bit ) noexcept {
+			return ( value & ( value_t{ 1 } << bit ) ) != 0U;
 		}
 
 		static constexpr size_t count_ones( value_t value ) noexcept {
@@ -257,7 +257,7 @@ namespace daw {
 
 		/// Get a specific bit from the bitset
 		/// \param index bit position in set
-		constexpr bool get_bit( size_t index ) noexcept {
+		constexpr bool get_bit( size_t index ) const noexcept {
 			auto const loc = get_address( index );
 			return get_bit( m_data[loc.index], loc.bit );
 		}
-- 
2.43.0


From 8918e162c494c857fb94deec9b70b0b1dfb563b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:59 +0000
Subject: [PATCH 041/311] fix: static_bitset one_count and zero_count compile
 and count only the bits of the set

---
 include/daw/daw_static_bitset.h | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index 82c988c..54447ff 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -150,13 +150,9 @@ namespace daw {
 			return count;
 		}
 
-		static constexpr size_t count_zeros( value_t value ) noexcept {
-			return bsizeof<value_t> - count_ones( value );
-		}
-
 		template<size_t N>
 		static constexpr size_t
-		count_ones( std::array<value_t, N> const &values ) noexcept {
+		count_ones( bounded_array_t<value_t, N> const &values ) noexcept {
 			size_t count = 0;
 			for( size_t n = 0; n < N; ++n ) {
 				count += count_ones( values[n] );
@@ -164,15 +160,7 @@ namespace daw {
 			return count;
 		}
 
-		template<size_t N>
-		static constexpr size_t
-		count_zeros( std::array<value_t, N> const &values ) noexcept {
-			size_t count = 0;
-			for( size_t n = 0; n < N; ++n ) {
-				count += count_zeros( values[n] );
-			}
-			return count;
-		}
+
 
 	public:
 		struct static_bitset_iterator;
@@ -279,7 +267,7 @@ namespace daw {
 		}
 
 		constexpr size_t zero_count( ) const noexcept {
-			return count_zeros( m_data );
+			return BitWidth - count_ones( m_data );
 		}
 
 		std::string to_string( bitset_impl::fmt_binary_t = fmt_binary ) const {
-- 
2.43.0


From 464f82d1476d710fef10c4136b13506039874969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:59 +0000
Subject: [PATCH 042/311] fix: static_bitset never keeps bits beyond its width

---
 include/daw/daw_static_bitset.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index 54447ff..15ddccb 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -88,16 +88,11 @@ namespace daw {
 
 		template<size_t BitWidth, typename value_t>
 		constexpr value_t get_diff_mask( ) noexcept {
-			size_t bw = BitWidth;
-			if( bw > bsizeof<value_t> ) {
-				bw %= bsizeof<value_t>;
-			} else if( bw < bsizeof<value_t> ) {
-				bw = bsizeof<value_t> - bw;
-			}
-			if( bw == 0 ) {
+			size_t const used_bits = BitWidth % bsizeof<value_t>;
+			if( used_bits == 0 ) {
 				return max_value<value_t>;
 			}
-			return daw::mask_msb<value_t>( bw );
+			return daw::mask_msb<value_t>( bsizeof<value_t> - used_bits );
 		}
 	} // namespace bitset_impl
 	inline constexpr bitset_impl::fmt_binary_t const fmt_binary{ };
@@ -141,6 +136,12 @@ namespace daw {
 			return ( value & ( value_t{ 1 } << bit ) ) != 0U;
 		}
 
+		// Ensure that we do not have any data on the high bits that should not
+		// be there
+		constexpr void clear_unused_bits( ) noexcept {
+			m_data.back( ) &= bitset_impl::get_diff_mask<BitWidth, value_t>( );
+		}
+
 		static constexpr size_t count_ones( value_t value ) noexcept {
 			size_t count = 0;
 			while( value ) {
@@ -186,10 +187,7 @@ namespace daw {
 		template<typename... Unsigned>
 		explicit static_bitset( uintmax_t value, Unsigned... values ) noexcept
 		  : m_data{ value, values... } {
-
-			// Ensure that we do not have any data on the high bits that should not
-			// be there
-			m_data.back( ) &= bitset_impl::get_diff_mask<BitWidth, value_t>( );
+			clear_unused_bits( );
 		}
 
 		/// Construct a bitset from a string of zeros and ones
@@ -332,12 +330,13 @@ namespace daw {
 		// Bitwise operations
 
 		template<size_t BitWidthRhs>
-		constexpr static_bitset
+		constexpr static_bitset &
 		operator|=( static_bitset<BitWidthRhs> const &rhs ) noexcept {
 			size_t const SZ = (std::min)( m_data.size( ), rhs.m_data.size( ) );
 			for( size_t n = 0; n < SZ; ++n ) {
 				m_data[n] |= rhs.m_data[n];
 			}
+			clear_unused_bits( );
 			return *this;
 		}
 
@@ -400,6 +399,7 @@ namespace daw {
 			for( size_t n = 0; n < m_data.size( ); ++n ) {
 				result.m_data[n] = ~m_data[n];
 			}
+			result.clear_unused_bits( );
 			return result;
 		}
 
-- 
2.43.0


From f060ebc51e8dd07222a2335703f17ac95d876d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:41 +0000
Subject: [PATCH 043/311] fix: static_bitset operations between different
 widths compile

---
 include/daw/daw_static_bitset.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index 15ddccb..7efba34 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -102,6 +102,8 @@ namespace daw {
 	template<size_t BitWidth>
 	class static_bitset {
 		static_assert( BitWidth > 0 );
+		template<size_t>
+		friend class static_bitset;
 		using value_t = uintmax_t;
 
 		static constexpr size_t const m_element_capacity =
@@ -224,8 +226,11 @@ namespace daw {
 		  size_t BitWidthOther,
 		  std::enable_if_t<( BitWidth > BitWidthOther ), std::nullptr_t> = nullptr>
 		constexpr static_bitset(
-		  static_bitset<BitWidthOther> const &other ) noexcept
-		  : m_data{ other.m_data } {}
+		  static_bitset<BitWidthOther> const &other ) noexcept {
+			for( size_t n = 0; n < other.m_data.size( ); ++n ) {
+				m_data[n] = other.m_data[n];
+			}
+		}
 
 		/// Enable a specific bit in the bitset
 		/// \param index bit position in set
-- 
2.43.0


From 5db07792ec6a3a83953e240d182f3c3910aa58f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:41 +0000
Subject: [PATCH 044/311] fix: static_bitset shifts carry between words and
 keep to the width

---
 include/daw/daw_static_bitset.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index 7efba34..44cbaac 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -459,23 +459,26 @@ namespace daw {
 				clear( );
 				return *this;
 			}
+			if( bits == 0U ) {
+				return *this;
+			}
 			if( bits < bsizeof<value_t> ) {
 				value_t carry = 0U;
 				for( size_t n = 0; n < m_data.size( ); ++n ) {
-					value_t next_carry = ( m_data[n] & daw::mask_lsb<value_t>( bits ) ) >>
-					                     ( bsizeof<value_t> - bits );
+					value_t const next_carry = m_data[n] >> ( bsizeof<value_t> - bits );
 					m_data[n] <<= bits;
 					m_data[n] |= carry;
 					carry = next_carry;
 				}
+				clear_unused_bits( );
 				return *this;
 			}
 			if( bits == bsizeof<value_t> ) {
-				for( size_t n = m_data.size( ); n > 0; --n ) {
-					auto pos = n - 1;
+				for( size_t pos = m_data.size( ) - 1U; pos > 0; --pos ) {
 					m_data[pos] = m_data[pos - 1];
 				}
 				m_data[0] = 0U;
+				clear_unused_bits( );
 				return *this;
 			}
 			while( bits >= bsizeof<value_t> ) {
@@ -497,8 +500,8 @@ namespace daw {
 				value_t carry = 0U;
 				for( size_t n = m_data.size( ); n > 0; --n ) {
 					auto const pos = n - 1;
-					value_t next_carry = ( m_data[pos] & daw::mask_msb<value_t>( bits ) )
-					                     << ( bsizeof<value_t> - bits );
+					value_t const next_carry = m_data[pos]
+					                           << ( bsizeof<value_t> - bits );
 					m_data[pos] >>= bits;
 					m_data[pos] |= carry;
 					carry = next_carry;
@@ -506,7 +509,7 @@ namespace daw {
 				return *this;
 			}
 			if( bits == bsizeof<value_t> ) {
-				for( size_t n = 0; n < m_data.size( ); ++n ) {
+				for( size_t n = 0; n + 1U < m_data.size( ); ++n ) {
 					m_data[n] = m_data[n + 1];
 				}
 				m_data.back( ) = 0U;
-- 
2.43.0


From 6e23f30dbc63e137a06eefd423595f6c9acda740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:41 +0000
Subject: [PATCH 045/311] fix: static_bitset to_string writes every bit in its
 place

---
 include/daw/daw_static_bitset.h | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index 44cbaac..b1fb951 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -275,20 +275,9 @@ namespace daw {
 
 		std::string to_string( bitset_impl::fmt_binary_t = fmt_binary ) const {
 			std::string result( BitWidth, '0' );
-			size_t pos = m_element_capacity - 1;
-			for( size_t index = 0; index < m_data.size( ); ++index ) {
-				auto value = m_data[index];
-				if( !value ) {
-					pos -= daw::bsizeof<value_t>;
-					continue;
-				}
-				while( value ) {
-					auto tmp = value & 1U;
-					if( tmp == 1 ) {
-						result[pos] = '1';
-					}
-					value >>= 1U;
-					--pos;
+			for( size_t index = 0; index < BitWidth; ++index ) {
+				if( get_bit( index ) ) {
+					result[BitWidth - 1U - index] = '1';
 				}
 			}
 			return result;
-- 
2.43.0


From e607df61c6a61c6c7b5f9dc724f23040a9f4aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:41 +0000
Subject: [PATCH 046/311] fix: bit queues push and pop up to their full width
 and pop_back keeps high bits

---
 include/daw/daw_bit_queues.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index 5a8fa6e..347db4f 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -88,7 +88,9 @@ namespace daw {
 			value &= mask_msb<value_type>(
 			  bit_count_v<value_type> -
 			  bits ); // get_left_mask<value_type>( bit_count_v<value_type> - bits );
-			m_queue <<= bits;
+			// a shift by the whole width is not defined
+			m_queue = bits < capacity( ) ? static_cast<queue_type>( m_queue << bits )
+			                             : queue_type{ 0 };
 			m_queue |= source_to_native_endian( value, BitQueueLSB{ } );
 			m_size += bits;
 		}
@@ -99,7 +101,8 @@ namespace daw {
 			auto const mask = mask_msb<queue_type>( capacity( ) - bits );
 			auto result =
 			  static_cast<value_type>( static_cast<value_type>( m_queue & mask ) );
-			m_queue >>= bits;
+			m_queue = bits < capacity( ) ? static_cast<queue_type>( m_queue >> bits )
+			                             : queue_type{ 0 };
 			m_size -= bits;
 			return result;
 		}
@@ -107,10 +110,13 @@ namespace daw {
 		[[nodiscard]] constexpr value_type pop_back( size_t const bits ) {
 			daw::exception::dbg_throw_on_false( m_size >= bits,
 			                                    "Not enough bits to pop request" );
-			auto mask = queue_type( ( 1 << bits ) - 1 );
-			mask <<= size( ) - bits;
-			auto result = static_cast<value_type>( m_queue & mask );
-			result >>= size( ) - bits;
+			if( bits == 0 ) {
+				return value_type{ 0 };
+			}
+			auto const shift = m_size - bits;
+			auto mask = mask_msb<queue_type>( capacity( ) - bits );
+			mask = static_cast<queue_type>( mask << shift );
+			auto result = static_cast<value_type>( ( m_queue & mask ) >> shift );
 			m_queue = m_queue & ~mask;
 			m_size -= bits;
 			return result;
-- 
2.43.0


From 51a1ccf7bda9488465e5f9b2d3d25bff1a5cfccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:41 +0000
Subject: [PATCH 047/311] fix: skip_bits skips the bits that do not fill a
 whole value

---
 include/daw/daw_bit_stream.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_bit_stream.h b/include/daw/daw_bit_stream.h
index 18b719d..9b477ac 100644
--- a/include/daw/daw_bit_stream.h
+++ b/include/daw/daw_bit_stream.h
@@ -110,6 +110,9 @@ namespace daw {
 			bs.pop_bits( );
 			bits_needed -= bit_count_v<value_type>;
 		}
+		if( bits_needed > 0 ) {
+			bs.pop_bits( bits_needed );
+		}
 	}
 
 	template<typename BitStream>
-- 
2.43.0


From 0cd563cf0828a83675736ed3f484778c238b855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:59 +0000
Subject: [PATCH 048/311] fix: pop_value of bit_stream compiles

---
 include/daw/daw_bit_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bit_stream.h b/include/daw/daw_bit_stream.h
index 9b477ac..a9fef36 100644
--- a/include/daw/daw_bit_stream.h
+++ b/include/daw/daw_bit_stream.h
@@ -80,7 +80,7 @@ namespace daw {
 	template<typename T, typename BitStream>
 	auto pop_value( BitStream &bs, size_t bits_needed ) {
 		daw::exception::dbg_throw_on_false(
-		  bits_needed <= bit_count_t<T>,
+		  bits_needed <= bit_count_v<T>,
 		  "Attempt to extra more bits than can fit" );
 
 		using value_type = typename BitStream::value_type;
-- 
2.43.0


From d13affb1fbd80628d07ee0ce6f123687729dfd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:07 +0000
Subject: [PATCH 049/311] fix: nibble queue capacity and full are usable at run
 time

---
 include/daw/daw_bit_queues.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index 347db4f..4d8636e 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -152,7 +152,7 @@ namespace daw {
 		  : m_queue{ std::move( v ) } {}
 
 		[[nodiscard]] constexpr size_t capacity( ) const noexcept {
-			return m_queue.capacity( ) / 4;
+			return basic_bit_queue<queue_type, value_type>::capacity( ) / 4;
 		}
 
 		[[nodiscard]] constexpr size_t size( ) const noexcept {
-- 
2.43.0


From d4103abfb6a2074fb2bf0c47b64ae9f8aa799ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:35 +0000
Subject: [PATCH 050/311] fix: perfect_hash_table salts separate hashes that
 only differ in their high bits

---
 include/daw/daw_min_perfect_hash.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index af4fae3..1f8ed7f 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -112,9 +112,11 @@ namespace daw {
 			  s ^ ( h + 0x9e3779b9ULL + ( s << 6ULL ) + ( s >> 2ULL ) );
 			// Let every bit of the hash reach the low bits, which select the slot.
 			// Otherwise no salt can separate hashes that only differ above them
-			result ^= result >> 32U;
-			result *= 0x9e37'79b9'7f4a'7c15ULL;
-			result ^= result >> 32U;
+			result ^= result >> 33U;
+			result *= 0xff51'afd7'ed55'8ccdULL;
+			result ^= result >> 33U;
+			result *= 0xc4ce'b9fe'1a85'ec53ULL;
+			result ^= result >> 33U;
 			return static_cast<hash_result>( result );
 		}
 	} // namespace mph_impl
-- 
2.43.0


From a3198f75321546fc0c121ba4104bef446a6c418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:09 +0000
Subject: [PATCH 051/311] fix: keep the repeat visits of bfs_walk that the
 tests expect

---
 include/daw/daw_graph_algorithm.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index 6ff6c6d..1dfa01c 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -124,10 +124,8 @@ namespace daw {
 			while( not path.empty( ) ) {
 				auto current_node = graph.get_node( path.front( ) );
 				path.pop_front( );
-				if( not visited.insert( current_node.id( ) ).second ) {
-					continue;
-				}
 				func( current_node );
+				visited.insert( current_node.id( ) );
 				if constexpr( std::is_same_v<ChildOrder, UnorderedWalk> ) {
 					std::copy_if( std::begin( current_node.outgoing_edges( ) ),
 					              std::end( current_node.outgoing_edges( ) ),
-- 
2.43.0


From 39917c7695d6688689ea0bcc3471e9fd8ce97b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:15 +0000
Subject: [PATCH 052/311] fix: unique_ptr and maybe_unique_ptr operator<= is
 not operator>=

---
 include/daw/daw_maybe_unique_ptr.h | 2 +-
 include/daw/daw_unique_ptr.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index a42ff11..a209b47 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -295,7 +295,7 @@ namespace daw {
 	template<typename T, typename D0, typename D1 = D0>
 	constexpr bool operator<=( maybe_unique_ptr<T, D0> const &lhs,
 	                           maybe_unique_ptr<T, D1> const &rhs ) noexcept {
-		return not( lhs < rhs );
+		return not( rhs < lhs );
 	}
 
 	template<typename T, typename D0, typename D1 = D0>
diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index 8cef944..ea9e72c 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -460,7 +460,7 @@ namespace daw {
 	template<typename T, typename D0, typename D1 = D0>
 	constexpr bool operator<=( unique_ptr<T, D0> const &lhs,
 	                           unique_ptr<T, D1> const &rhs ) noexcept {
-		return not( lhs < rhs );
+		return not( rhs < lhs );
 	}
 
 	template<typename T, typename D0, typename D1 = D0>
-- 
2.43.0


From 215b40f2edfd56365a33f39945b6d484b11ed3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:15 +0000
Subject: [PATCH 053/311] fix: unique_ptr assignment from a derived pointer
 with the same deleter compiles

---
 include/daw/daw_unique_ptr.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index ea9e72c..de6e844 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -157,10 +157,8 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			if( this != &rhs ) {
-				reset( );
-				m_ptr = rhs.release( );
-			}
+			reset( );
+			m_ptr = rhs.release( );
 			return *this;
 		}
 
@@ -312,10 +310,8 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			if( this != &rhs ) {
-				reset( );
-				m_ptr = rhs.release( );
-			}
+			reset( );
+			m_ptr = rhs.release( );
 			return *this;
 		}
 
-- 
2.43.0


From 97e557ee20696b3595e5be5af5adedddb967ece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:16 +0000
Subject: [PATCH 054/311] fix: unique_ptr moves and swaps the deleter along
 with the pointer

---
 include/daw/daw_unique_ptr.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index de6e844..2ff98c6 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -130,7 +130,8 @@ namespace daw {
 		constexpr unique_ptr( std::nullptr_t ) noexcept {}
 
 		constexpr unique_ptr( unique_ptr &&other ) noexcept
-		  : m_ptr( other.release( ) ) {}
+		  : Deleter( std::move( other.get_deleter( ) ) )
+		  , m_ptr( other.release( ) ) {}
 
 		template<
 		  typename U, typename D,
@@ -146,6 +147,7 @@ namespace daw {
 		constexpr unique_ptr &operator=( unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
 				reset( );
+				get_deleter( ) = std::move( rhs.get_deleter( ) );
 				m_ptr = rhs.release( );
 			}
 			return *this;
@@ -224,6 +226,7 @@ namespace daw {
 
 		constexpr void swap( unique_ptr &other ) noexcept {
 			using std::swap;
+			swap( get_deleter( ), other.get_deleter( ) );
 			swap( m_ptr, other.m_ptr );
 		}
 
@@ -285,7 +288,8 @@ namespace daw {
 		constexpr unique_ptr( std::nullptr_t ) noexcept {}
 
 		constexpr unique_ptr( unique_ptr &&other ) noexcept
-		  : m_ptr( other.release( ) ) {}
+		  : Deleter( std::move( other.get_deleter( ) ) )
+		  , m_ptr( other.release( ) ) {}
 
 		template<typename U, std::enable_if_t<not std::is_same_v<T, U>,
 		                                      std::nullptr_t> = nullptr>
@@ -299,6 +303,7 @@ namespace daw {
 		constexpr unique_ptr &operator=( unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
 				reset( );
+				get_deleter( ) = std::move( rhs.get_deleter( ) );
 				m_ptr = rhs.release( );
 			}
 			return *this;
@@ -360,6 +365,7 @@ namespace daw {
 
 		constexpr void swap( unique_ptr &other ) noexcept {
 			using std::swap;
+			swap( get_deleter( ), other.get_deleter( ) );
 			swap( m_ptr, other.m_ptr );
 		}
 
-- 
2.43.0


From a5689120c3f08220a6eceafb09f80baafa972ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:44 +0000
Subject: [PATCH 055/311] fix: moving a maybe_unique_ptr keeps whether it owns,
 and assignment never deletes what it does not own

---
 include/daw/daw_maybe_unique_ptr.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index a209b47..a4f647f 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -72,14 +72,14 @@ namespace daw {
 		constexpr maybe_unique_ptr( std::nullptr_t ) noexcept {}
 
 		constexpr maybe_unique_ptr( maybe_unique_ptr &&other ) noexcept
-		  : m_ptr( other.release( ) )
+		  : m_ptr( std::move( other.m_ptr ) )
 		  , m_owned( std::exchange( other.m_owned, true ) ) {}
 
 		template<typename U, typename D>
 		requires( not std::is_same_v<T, U> ) //
 		  constexpr maybe_unique_ptr( maybe_unique_ptr<U, D> &&other ) noexcept
 		  : Deleter( static_cast<D &&>( other ) )
-		  , m_ptr( other.release( ) )
+		  , m_ptr( other.m_ptr.release( ) )
 		  , m_owned( std::exchange( other.m_owned, true ) ) {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
@@ -99,7 +99,7 @@ namespace daw {
 		constexpr maybe_unique_ptr &operator=( maybe_unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
 				reset( );
-				m_ptr = rhs.release( );
+				m_ptr = std::move( rhs.m_ptr );
 				m_owned = std::exchange( rhs.m_owned, true );
 			}
 			return *this;
@@ -112,7 +112,8 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			m_ptr = std::move( rhs.m_ptr );
+			reset( );
+			m_ptr = rhs.m_ptr.release( );
 			m_owned = std::exchange( rhs.m_owned, true );
 			return *this;
 		}
@@ -123,8 +124,8 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			m_ptr = std::move( rhs );
-			m_owned = std::exchange( rhs.m_owned, true );
+			reset( );
+			m_ptr = rhs.release( );
 			return *this;
 		}
 
-- 
2.43.0


From 2f076608c8968dfbd15f11c352754485e7304939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:44 +0000
Subject: [PATCH 056/311] fix: maybe_unique_ptr::reset with a pointer does not
 destroy the new object

---
 include/daw/daw_maybe_unique_ptr.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index a4f647f..a432801 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -167,11 +167,7 @@ namespace daw {
 		}
 
 		constexpr void reset( pointer p, bool owned = true ) noexcept {
-			if( m_owned ) {
-				m_ptr.reset( std::move( p ) );
-			} else {
-				(void)m_ptr.release( );
-			}
+			reset( );
 			m_ptr.reset( std::move( p ) );
 			m_owned = owned;
 		}
-- 
2.43.0


From 9c193e191c59a656ddd92dbe4eb4ded68e9d7670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:45 +0000
Subject: [PATCH 057/311] fix: unique_array_t::at accepts positions in range
 and rejects those past it

---
 include/daw/daw_unique_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 0da7402..7a7ee99 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -114,13 +114,13 @@ namespace daw {
 
 		reference at( size_type pos ) {
 			daw::exception::daw_throw_on_false<std::out_of_range>(
-			  pos >= m_size, "Attempt to access value past end of range" );
+			  pos < m_size, "Attempt to access value past end of range" );
 			return m_data[pos];
 		}
 
 		const_reference at( size_type pos ) const {
 			daw::exception::daw_throw_on_false<std::out_of_range>(
-			  pos >= m_size, "Attempt to access value past end of range" );
+			  pos < m_size, "Attempt to access value past end of range" );
 			return m_data[pos];
 		}
 
-- 
2.43.0


From 984e9ee4c0045e60584b6e0d2a8cce5ebe7e24ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:45 +0000
Subject: [PATCH 058/311] fix: unique_array_t construction from a size and
 value compiles and does not leak

---
 include/daw/daw_unique_array.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 7a7ee99..007127d 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -82,10 +82,9 @@ namespace daw {
 		template<typename... Args>
 		unique_array_t( size_type sz, Args &&...args ) noexcept(
 		  std::is_nothrow_constructible_v<value_type, Args...> )
-		  : m_data( create_values( sz ) )
-		  , m_size( sz ) {
+		  : unique_array_t( sz ) {
 
-			std::fill_n( m_data, m_size, { args... } );
+			std::fill_n( m_data, m_size, value_type{ args... } );
 		}
 
 		~unique_array_t( ) noexcept( noexcept( delete[] m_data ) ) {
-- 
2.43.0


From c81cb92cad42d48ff0689bc610dceb28c0d838dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:45 +0000
Subject: [PATCH 059/311] fix: unique_array_t of no elements is empty

---
 include/daw/daw_unique_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 007127d..d3f759f 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -92,7 +92,7 @@ namespace daw {
 		}
 
 		constexpr bool empty( ) const noexcept {
-			return m_data == nullptr;
+			return m_size == 0U;
 		}
 
 		constexpr size_type size( ) const noexcept {
-- 
2.43.0


From 580378c853b70c67a03617fbff8c36b6f4371795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:55 +0000
Subject: [PATCH 060/311] fix: unique_resource::reset disposes of its value
 once, move assignment from an empty one works; memory_mapped_file no longer
 reads an empty resource

---
 include/daw/daw_memory_mapped_file.h | 46 +++++++++++++++-------------
 include/daw/daw_unique_resource.h    | 11 ++++++-
 2 files changed, 34 insertions(+), 23 deletions(-)

diff --git a/include/daw/daw_memory_mapped_file.h b/include/daw/daw_memory_mapped_file.h
index cc6d53c..a138c80 100644
--- a/include/daw/daw_memory_mapped_file.h
+++ b/include/daw/daw_memory_mapped_file.h
@@ -93,20 +93,21 @@ namespace daw::filesystem {
 				auto const fsz = lseek( m_fdata->file, 0, SEEK_END );
 				lseek( m_fdata->file, 0, SEEK_SET );
 				if( fsz <= 0 ) {
-					m_fdata.reset( );
+					m_fdata.emplace( );
 					return false;
 				}
 				m_fdata->size = static_cast<size_type>( fsz );
 			}
-			m_fdata->ptr = static_cast<pointer>(
+			void *const mapped =
 			  mmap( nullptr, m_fdata->size,
 			        mode == open_mode::read ? PROT_READ : PROT_READ | PROT_WRITE,
-			        MAP_SHARED, m_fdata->file, 0 ) );
+			        MAP_SHARED, m_fdata->file, 0 );
 
-			if( m_fdata->ptr == MAP_FAILED ) {
-				m_fdata.reset( );
+			if( mapped == MAP_FAILED ) {
+				m_fdata.emplace( );
 				return false;
 			}
+			m_fdata->ptr = static_cast<pointer>( mapped );
 			return true;
 		}
 
@@ -119,47 +120,48 @@ namespace daw::filesystem {
 		}
 
 		[[nodiscard]] constexpr pointer data( ) noexcept {
-			return m_fdata->ptr;
+			return m_fdata.has_value( ) ? m_fdata->ptr : nullptr;
 		}
 
 		[[nodiscard]] constexpr const_pointer data( ) const noexcept {
-			return m_fdata->ptr;
+			return m_fdata.has_value( ) ? m_fdata->ptr : nullptr;
 		}
 
 		[[nodiscard]] constexpr pointer begin( ) noexcept {
-			return m_fdata->ptr;
+			return m_fdata.has_value( ) ? m_fdata->ptr : nullptr;
 		}
 
 		[[nodiscard]] constexpr const_pointer begin( ) const noexcept {
-			return m_fdata->ptr;
+			return m_fdata.has_value( ) ? m_fdata->ptr : nullptr;
 		}
 
 		[[nodiscard]] constexpr const_pointer cbegin( ) const noexcept {
-			return m_fdata->ptr;
+			return m_fdata.has_value( ) ? m_fdata->ptr : nullptr;
 		}
 
 		[[nodiscard]] constexpr pointer end( ) noexcept {
-			return m_fdata->ptr + static_cast<ptrdiff_t>( m_fdata->size );
+			return data( ) + static_cast<ptrdiff_t>( size( ) );
 		}
 
 		[[nodiscard]] constexpr const_pointer end( ) const noexcept {
-			return m_fdata->ptr + static_cast<ptrdiff_t>( m_fdata->size );
+			return data( ) + static_cast<ptrdiff_t>( size( ) );
 		}
 
 		[[nodiscard]] constexpr const_pointer cend( ) const noexcept {
-			return m_fdata->ptr + static_cast<ptrdiff_t>( m_fdata->size );
+			return data( ) + static_cast<ptrdiff_t>( size( ) );
 		}
 
 		[[nodiscard]] constexpr size_type size( ) const noexcept {
-			return m_fdata->size;
+			return m_fdata.has_value( ) ? m_fdata->size : 0;
 		}
 
 		[[nodiscard]] constexpr bool empty( ) const noexcept {
-			return not( *this ) or m_fdata->size == 0;
+			return size( ) == 0;
 		}
 
 		constexpr explicit operator bool( ) const noexcept {
-			return m_fdata->file >= 0 and m_fdata->ptr != nullptr;
+			return m_fdata.has_value( ) and m_fdata->file >= 0 and
+			       m_fdata->ptr != nullptr;
 		}
 
 		template<typename Traits>
@@ -258,7 +260,7 @@ namespace daw::filesystem {
 				}
 				LARGE_INTEGER fsz;
 				if( not::GetFileSizeEx( file_handle, &fsz ) or fsz.QuadPart <= 0 ) {
-					m_fdata.reset( );
+					m_fdata.emplace( );
 					return false;
 				}
 				m_fdata->size = static_cast<size_t>( fsz.QuadPart );
@@ -266,7 +268,7 @@ namespace daw::filesystem {
 				  file_handle, nullptr, mapfile_impl::PageMode( mode ), fsz.u.HighPart,
 				  fsz.u.LowPart, nullptr );
 				if( m_fdata->handle == nullptr ) {
-					m_fdata.reset( );
+					m_fdata.emplace( );
 					return false;
 				}
 				CloseHandle( file_handle );
@@ -274,7 +276,7 @@ namespace daw::filesystem {
 			auto ptr = MapViewOfFile( m_fdata->handle, mapfile_impl::MapMode( mode ),
 			                          0, 0, 0 );
 			if( ptr == nullptr ) {
-				m_fdata.reset( );
+				m_fdata.emplace( );
 				return false;
 			}
 			m_fdata->ptr = static_cast<pointer>( ptr );
@@ -295,7 +297,7 @@ namespace daw::filesystem {
 				}
 				LARGE_INTEGER fsz;
 				if( not::GetFileSizeEx( file_handle, &fsz ) or fsz.QuadPart <= 0 ) {
-					m_fdata.reset( );
+					m_fdata.emplace( );
 					return false;
 				}
 				m_fdata->size = static_cast<size_t>( fsz.QuadPart );
@@ -303,7 +305,7 @@ namespace daw::filesystem {
 				  file_handle, nullptr, mapfile_impl::PageMode( mode ), fsz.u.HighPart,
 				  fsz.u.LowPart, nullptr );
 				if( m_fdata->handle == nullptr ) {
-					m_fdata.reset( );
+					m_fdata.emplace( );
 					return false;
 				}
 				CloseHandle( file_handle );
@@ -311,7 +313,7 @@ namespace daw::filesystem {
 			auto ptr = MapViewOfFile( m_fdata->handle, mapfile_impl::MapMode( mode ),
 			                          0, 0, 0 );
 			if( ptr == nullptr ) {
-				m_fdata.reset( );
+				m_fdata.emplace( );
 				return false;
 			}
 			m_fdata->ptr = static_cast<pointer>( ptr );
diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 8ff60a0..5f14513 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -11,6 +11,7 @@
 #include "daw_exchange.h"
 #include "daw_move.h"
 
+#include <cassert>
 #include <optional>
 #include <type_traits>
 
@@ -27,7 +28,10 @@ namespace daw {
 
 		unique_resource &operator=( unique_resource &&rhs ) noexcept(
 		  std::is_nothrow_move_assignable_v<T> ) {
-			reset( rhs.release( ) );
+			if( this != &rhs ) {
+				reset( );
+				value = daw::exchange( rhs.value, std::nullopt );
+			}
 			return *this;
 		}
 
@@ -52,9 +56,14 @@ namespace daw {
 		constexpr void reset( ) noexcept( std::is_nothrow_destructible_v<T> ) {
 			if( value ) {
 				Deleter{ }( *value );
+				value.reset( );
 			}
 		}
 
+		[[nodiscard]] constexpr bool has_value( ) const noexcept {
+			return value.has_value( );
+		}
+
 		constexpr void
 		reset( T new_value ) noexcept( std::is_nothrow_destructible_v<T> and
 		                               std::is_nothrow_move_constructible_v<T> ) {
-- 
2.43.0


From fbb428ab532a84f1e9406dab9274241c437ef1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:44 +0000
Subject: [PATCH 061/311] fix: rc_ptr::reset of a shared pointer lets go of it
 once

---
 include/daw/daw_ref_counted_pointer.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_ref_counted_pointer.h b/include/daw/daw_ref_counted_pointer.h
index e9dd2bc..c868351 100644
--- a/include/daw/daw_ref_counted_pointer.h
+++ b/include/daw/daw_ref_counted_pointer.h
@@ -136,9 +136,9 @@ namespace daw {
 				return;
 			}
 			assert( m_ref_count );
-			if( --ref_count( ) == 0 ) {
-				auto old_ptr = daw::exchange( m_pointer, nullptr );
-				auto old_ref = daw::exchange( m_ref_count, nullptr );
+			auto old_ptr = daw::exchange( m_pointer, nullptr );
+			auto old_ref = daw::exchange( m_ref_count, nullptr );
+			if( --*old_ref == 0 ) {
 				delete old_ref;
 				Deleter{ }( old_ptr );
 			}
@@ -309,9 +309,9 @@ namespace daw {
 				return;
 			}
 			assert( m_ref_count );
-			if( --ref_count( ) == 0 ) {
-				auto *old_ptr = daw::exchange( m_pointer, nullptr );
-				auto *old_ref = daw::exchange( m_ref_count, nullptr );
+			auto *old_ptr = daw::exchange( m_pointer, nullptr );
+			auto *old_ref = daw::exchange( m_ref_count, nullptr );
+			if( --*old_ref == 0 ) {
 				delete old_ref;
 				Deleter{ }( old_ptr );
 			}
-- 
2.43.0


From dbaf98b0e8f4f0aa06767c120aad3fed6c8bed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:44 +0000
Subject: [PATCH 062/311] fix: rc_ptr assignment from a pointer inside the
 released object

---
 include/daw/daw_ref_counted_pointer.h | 40 ++++++++-------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/include/daw/daw_ref_counted_pointer.h b/include/daw/daw_ref_counted_pointer.h
index c868351..af23e4e 100644
--- a/include/daw/daw_ref_counted_pointer.h
+++ b/include/daw/daw_ref_counted_pointer.h
@@ -86,15 +86,9 @@ namespace daw {
 
 		constexpr rc_ptr &
 		operator=( rc_ptr const &rhs ) noexcept( is_t_nothrow_destructible ) {
-			if( this != &rhs ) {
-				reset( );
-				if( rhs ) {
-					m_pointer = rhs.m_pointer;
-					m_ref_count = rhs.m_ref_count;
-					assert( m_ref_count );
-					++ref_count( );
-				}
-			}
+			// rhs may live inside of the object released here
+			auto tmp = rc_ptr( rhs );
+			swap( tmp );
 			return *this;
 		}
 
@@ -104,11 +98,9 @@ namespace daw {
 
 		constexpr rc_ptr &
 		operator=( rc_ptr &&rhs ) noexcept( is_t_nothrow_destructible ) {
-			if( this != &rhs ) {
-				reset( );
-				m_pointer = daw::exchange( rhs.m_pointer, nullptr );
-				m_ref_count = daw::exchange( rhs.m_ref_count, nullptr );
-			}
+			// rhs may live inside of the object released here
+			auto tmp = rc_ptr( std::move( rhs ) );
+			swap( tmp );
 			return *this;
 		}
 
@@ -258,15 +250,9 @@ namespace daw {
 
 		constexpr rc_ptr &
 		operator=( rc_ptr const &rhs ) noexcept( is_t_nothrow_destructible ) {
-			if( this != &rhs ) {
-				reset( );
-				m_pointer = rhs.m_pointer;
-				m_ref_count = rhs.m_ref_count;
-				if( m_pointer ) {
-					assert( m_ref_count );
-					++ref_count( );
-				}
-			}
+			// rhs may live inside of the object released here
+			auto tmp = rc_ptr( rhs );
+			swap( tmp );
 			return *this;
 		}
 
@@ -276,11 +262,9 @@ namespace daw {
 
 		constexpr rc_ptr &
 		operator=( rc_ptr &&rhs ) noexcept( is_t_nothrow_destructible ) {
-			if( this != &rhs ) {
-				reset( );
-				m_pointer = daw::exchange( rhs.m_pointer, nullptr );
-				m_ref_count = daw::exchange( rhs.m_ref_count, nullptr );
-			}
+			// rhs may live inside of the object released here
+			auto tmp = rc_ptr( std::move( rhs ) );
+			swap( tmp );
 			return *this;
 		}
 
-- 
2.43.0


From 37aed22aa74eff17653e8fdaa74870d185ed4f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:44 +0000
Subject: [PATCH 063/311] fix: rc_ptr ordering against nullptr compiles

---
 include/daw/daw_ref_counted_pointer.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_ref_counted_pointer.h b/include/daw/daw_ref_counted_pointer.h
index af23e4e..5d55b07 100644
--- a/include/daw/daw_ref_counted_pointer.h
+++ b/include/daw/daw_ref_counted_pointer.h
@@ -195,19 +195,19 @@ namespace daw {
 		}
 
 		constexpr bool operator<( std::nullptr_t ) const noexcept {
-			return std::less<>{ }( m_pointer, nullptr );
+			return std::less<>{ }( m_pointer, pointer{ } );
 		}
 
 		constexpr bool operator<=( std::nullptr_t ) const noexcept {
-			return not std::less<>{ }( nullptr, m_pointer );
+			return not std::less<>{ }( pointer{ }, m_pointer );
 		}
 
 		constexpr bool operator>( std::nullptr_t ) const noexcept {
-			return std::less<>{ }( nullptr, m_pointer );
+			return std::less<>{ }( pointer{ }, m_pointer );
 		}
 
 		constexpr bool operator>=( std::nullptr_t ) const noexcept {
-			return not std::less<>{ }( m_pointer, nullptr );
+			return not std::less<>{ }( m_pointer, pointer{ } );
 		}
 	};
 
@@ -365,19 +365,19 @@ namespace daw {
 		}
 
 		constexpr bool operator<( std::nullptr_t ) const noexcept {
-			return std::less<>{ }( m_pointer, nullptr );
+			return std::less<>{ }( m_pointer, pointer{ } );
 		}
 
 		constexpr bool operator<=( std::nullptr_t ) const noexcept {
-			return not std::less<>{ }( nullptr, m_pointer );
+			return not std::less<>{ }( pointer{ }, m_pointer );
 		}
 
 		constexpr bool operator>( std::nullptr_t ) const noexcept {
-			return std::less<>{ }( nullptr, m_pointer );
+			return std::less<>{ }( pointer{ }, m_pointer );
 		}
 
 		constexpr bool operator>=( std::nullptr_t ) const noexcept {
-			return not std::less<>{ }( m_pointer, nullptr );
+			return not std::less<>{ }( m_pointer, pointer{ } );
 		}
 	};
 
-- 
2.43.0


From 2f1e2a2b0d5aafe619ae358ce6c523433f5b0b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:29 +0000
Subject: [PATCH 064/311] fix: value_ptr copy assignment, release and const
 operator bool compile

---
 include/daw/daw_value_ptr.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 5dde242..a0004e3 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -88,7 +88,7 @@ namespace daw {
 
 		constexpr value_ptr &operator=( value_ptr const &rhs ) noexcept(
 		  std::is_nothrow_copy_constructible_v<value_type> ) {
-			if( this != rhs ) {
+			if( this != &rhs ) {
 				if( !m_value and !rhs.m_value ) {
 					return *this;
 				}
@@ -144,7 +144,7 @@ namespace daw {
 		  default;
 
 		constexpr pointer release( ) noexcept {
-			return daw::exchange( m_value, nullptr );
+			return m_value.release( );
 		}
 
 		constexpr void swap( value_ptr &rhs ) noexcept {
@@ -183,7 +183,7 @@ namespace daw {
 			return *m_value;
 		}
 
-		constexpr explicit operator bool( ) noexcept {
+		constexpr explicit operator bool( ) const noexcept {
 			return static_cast<bool>( m_value );
 		}
 
-- 
2.43.0


From d6314ec8a9b57793d4bfae840160b728b18419c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:29 +0000
Subject: [PATCH 065/311] fix: value_ptr copies, moves into and hashes empty
 values without dereferencing null

---
 include/daw/daw_value_ptr.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index a0004e3..1f2596d 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -78,7 +78,9 @@ namespace daw {
 		  : enable_default_constructor<T>( other )
 		  , enable_copy_constructor<T>( other )
 		  , enable_copy_assignment<T>( other )
-		  , m_value( std::make_unique<value_type>( *other.m_value ) ) {}
+		  , m_value( other.m_value
+		               ? std::make_unique<value_type>( *other.m_value )
+		               : nullptr ) {}
 
 		constexpr value_ptr( value_ptr &&other ) noexcept
 		  : enable_default_constructor<T>( std::move( other ) )
@@ -122,7 +124,11 @@ namespace daw {
 
 		value_ptr &operator=( value_type &&rhs ) noexcept(
 		  std::is_nothrow_move_assignable_v<value_type> ) {
-			*m_value = std::move( rhs );
+			if( !m_value ) {
+				m_value = std::make_unique<value_type>( std::move( rhs ) );
+			} else {
+				*m_value = std::move( rhs );
+			}
 			return *this;
 		}
 
@@ -305,7 +311,7 @@ namespace std {
 
 		template<typename Arg>
 		size_t operator( )( Arg &&arg ) const {
-			return std::hash<T>{ }( *DAW_FWD( arg ) );
+			return arg ? std::hash<T>{ }( *DAW_FWD( arg ) ) : size_t{ 0 };
 		}
 	};
 } // namespace std
-- 
2.43.0


From 59a2e9c1e6b52747dc7428558c5f6ddf64f98c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:29 +0000
Subject: [PATCH 066/311] fix: value_ptr assignment is noexcept only when
 construction and assignment of the value are

---
 include/daw/daw_value_ptr.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 1f2596d..bb1b942 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -89,7 +89,8 @@ namespace daw {
 		  , m_value( std::move( other.m_value ) ) {}
 
 		constexpr value_ptr &operator=( value_ptr const &rhs ) noexcept(
-		  std::is_nothrow_copy_constructible_v<value_type> ) {
+		  std::is_nothrow_copy_constructible_v<value_type> and
+		  std::is_nothrow_copy_assignable_v<value_type> ) {
 			if( this != &rhs ) {
 				if( !m_value and !rhs.m_value ) {
 					return *this;
@@ -113,6 +114,7 @@ namespace daw {
 		}
 
 		value_ptr &operator=( value_type const &rhs ) noexcept(
+		  std::is_nothrow_copy_constructible_v<value_type> and
 		  std::is_nothrow_copy_assignable_v<value_type> ) {
 			if( !m_value ) {
 				m_value = std::make_unique<value_type>( rhs );
@@ -123,6 +125,7 @@ namespace daw {
 		}
 
 		value_ptr &operator=( value_type &&rhs ) noexcept(
+		  std::is_nothrow_move_constructible_v<value_type> and
 		  std::is_nothrow_move_assignable_v<value_type> ) {
 			if( !m_value ) {
 				m_value = std::make_unique<value_type>( std::move( rhs ) );
-- 
2.43.0


From e6a40a7e60f260416d786b1e7871cbe818cd3fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:29 +0000
Subject: [PATCH 067/311] fix: copiable_unique_ptr ordering and comparisons
 against nullptr compile

---
 .../daw/deprecated/daw_copiable_unique_ptr.h  | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/daw/deprecated/daw_copiable_unique_ptr.h b/include/daw/deprecated/daw_copiable_unique_ptr.h
index 6e410af..e23c122 100644
--- a/include/daw/deprecated/daw_copiable_unique_ptr.h
+++ b/include/daw/deprecated/daw_copiable_unique_ptr.h
@@ -144,13 +144,13 @@ namespace daw {
 		return lhs.get( ) == rhs.get( );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator==( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 		return !lhs;
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator==( std::nullptr_t,
 	                           copiable_unique_ptr<T1, D1> const &rhs ) noexcept {
 		return !rhs;
@@ -163,14 +163,14 @@ namespace daw {
 		return lhs.get( ) != rhs.get( );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator!=( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 
 		return static_cast<bool>( lhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T2, typename D2>
 	constexpr bool operator!=( std::nullptr_t,
 	                           copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 
@@ -181,24 +181,24 @@ namespace daw {
 	constexpr bool operator<( copiable_unique_ptr<T1, D1> const &lhs,
 	                          copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 		using CT =
-		  std::common_type_t<typename copiable_unique_ptr<T1, D1>::pointer,
-		                     typename copiable_unique_ptr<T2, D2>::pointer>;
-		return std::less<CT>( lhs.get( ), rhs.get( ) );
+		  std::common_type_t<typename copiable_unique_ptr<T1, D1>::const_pointer,
+		                     typename copiable_unique_ptr<T2, D2>::const_pointer>;
+		return std::less<CT>{ }( lhs.get( ), rhs.get( ) );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator<( copiable_unique_ptr<T1, D1> const &lhs,
 	                          std::nullptr_t ) noexcept {
 
-		return std::less<typename copiable_unique_ptr<T1, D1>::pointer>( lhs.get( ),
-		                                                                 nullptr );
+		return std::less<typename copiable_unique_ptr<T1, D1>::const_pointer>{ }(
+		  lhs.get( ), nullptr );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator<( std::nullptr_t,
 	                          copiable_unique_ptr<T1, D1> const &rhs ) noexcept {
 
-		return std::less<typename copiable_unique_ptr<T1, D1>::pointer>(
+		return std::less<typename copiable_unique_ptr<T1, D1>::const_pointer>{ }(
 		  nullptr, rhs.get( ) );
 	}
 
@@ -208,14 +208,14 @@ namespace daw {
 		return !( rhs < lhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator<=( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 
 		return !( nullptr < lhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T2, typename D2>
 	constexpr bool operator<=( std::nullptr_t,
 	                           copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 
@@ -228,14 +228,14 @@ namespace daw {
 		return rhs < lhs;
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator>( copiable_unique_ptr<T1, D1> const &lhs,
 	                          std::nullptr_t ) noexcept {
 
 		return nullptr < lhs;
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T2, typename D2>
 	constexpr bool operator>( std::nullptr_t,
 	                          copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 
@@ -248,14 +248,14 @@ namespace daw {
 		return !( lhs < rhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator>=( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 
 		return !( lhs < nullptr );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T2, typename D2>
 	constexpr bool operator>=( std::nullptr_t,
 	                           copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 
-- 
2.43.0


From 5981f2d7e2fd6d275843daff5ac67a65af0f2b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:56 +0000
Subject: [PATCH 068/311] fix: heap_array move construction keeps its end, move
 assignment releases its old storage

---
 include/daw/deprecated/daw_heap_array.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index 245669f..2df0ec8 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -62,13 +62,12 @@ namespace daw {
 
 		constexpr heap_array( heap_array &&other ) noexcept
 		  : m_begin( daw::exchange( other.m_begin, nullptr ) )
-		  , m_end( daw::exchange( other.m_begin, nullptr ) )
+		  , m_end( daw::exchange( other.m_end, nullptr ) )
 		  , m_size( daw::exchange( other.m_size, 0ULL ) ) {}
 
 		constexpr heap_array &operator=( heap_array &&rhs ) noexcept {
-			m_begin = daw::exchange( rhs.m_begin, nullptr );
-			m_end = daw::exchange( rhs.m_end, nullptr );
-			m_size = daw::exchange( rhs.m_size, 0ULL );
+			auto tmp = heap_array( std::move( rhs ) );
+			swap( tmp );
 			return *this;
 		}
 
-- 
2.43.0


From 48347364cced603e19fd7a0c490899938174e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:56 +0000
Subject: [PATCH 069/311] fix: heap_array copies reserve the sentinel slot and
 leak nothing when copying throws

---
 include/daw/deprecated/daw_heap_array.h | 29 +++++--------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index 2df0ec8..d251415 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -34,16 +34,8 @@ namespace daw {
 		value_type *m_end = nullptr;
 		size_t m_size = 0;
 
-		static value_type *create_value( size_t n ) noexcept {
-#if defined( DAW_USE_EXCEPTIONS )
-			try {
-#endif
-				return new value_type[n];
-#if defined( DAW_USE_EXCEPTIONS )
-			} catch( std::bad_alloc const & ) { std::terminate( ); } catch( ... ) {
-				return nullptr;
-			}
-#endif
+		static value_type *create_value( size_t n ) {
+			return new value_type[n];
 		}
 
 	public:
@@ -72,21 +64,14 @@ namespace daw {
 		}
 
 		heap_array( heap_array const &other )
-		  : m_begin( create_value( other.m_size ) )
-		  , m_end( m_begin + other.m_size )
-		  , m_size( other.m_size ) {
+		  : heap_array( other.m_size ) {
 
 			std::copy_n( other.m_begin, m_size, m_begin );
 		}
 
 		heap_array &operator=( heap_array const &rhs ) {
-			T *tmp = create_value( rhs.m_size );
-			T *tmp_end = std::copy_n( rhs.m_begin, rhs.m_size, tmp );
-			std::size_t tmp_sz = rhs.m_size;
-			clear( );
-			m_begin = tmp;
-			m_end = tmp_end;
-			m_size = tmp_sz;
+			auto tmp = heap_array( rhs );
+			swap( tmp );
 			return *this;
 		}
 
@@ -98,9 +83,7 @@ namespace daw {
 		}
 
 		heap_array( T *arry, size_t Size )
-		  : m_begin( create_value( Size ) )
-		  , m_end( m_begin + Size )
-		  , m_size( Size ) {
+		  : heap_array( Size ) {
 
 			std::copy_n( arry, Size, m_begin );
 		}
-- 
2.43.0


From 38f71ff4051ac0bc7c94c523202ba31f509657bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:56 +0000
Subject: [PATCH 070/311] fix: heap_array converts to true when it holds an
 array

---
 include/daw/deprecated/daw_heap_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index d251415..6559422 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -106,7 +106,7 @@ namespace daw {
 		}
 
 		explicit constexpr operator bool( ) const noexcept {
-			return nullptr == m_begin;
+			return nullptr != m_begin;
 		}
 
 		constexpr size_t size( ) const noexcept {
-- 
2.43.0


From a37a3ef93436199862650ee6825dd87ab90f05c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:56 +0000
Subject: [PATCH 071/311] fix: heap_value copies from and to moved-from values
 and from mutable lvalues

---
 include/daw/deprecated/daw_heap_value.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_value.h b/include/daw/deprecated/daw_heap_value.h
index 1044e4f..6ae5e34 100644
--- a/include/daw/deprecated/daw_heap_value.h
+++ b/include/daw/deprecated/daw_heap_value.h
@@ -37,11 +37,17 @@ namespace daw {
 		heap_value &operator=( heap_value && ) = default;
 
 		heap_value( heap_value const &other )
-		  : m_value{ std::make_unique<value_t>( *other.m_value ) } {}
+		  : m_value{ other.m_value ? std::make_unique<value_t>( *other.m_value )
+		                           : nullptr } {}
 
 		heap_value &operator=( heap_value const &rhs ) {
 			if( this != &rhs ) {
-				*m_value = *rhs.m_value;
+				if( m_value and rhs.m_value ) {
+					*m_value = *rhs.m_value;
+				} else {
+					auto tmp = heap_value( rhs );
+					swap( tmp );
+				}
 			}
 			return *this;
 		}
@@ -49,11 +55,15 @@ namespace daw {
 		// Make this less perfect so that we can still do copy/move construction
 		template<
 		  typename Arg,
-		  typename = std::enable_if_t<daw::traits::not_self<Arg, value_t>( )>>
+		  typename = std::enable_if_t<
+		    daw::traits::not_self<Arg, value_t>( ) and
+		    not std::is_same_v<daw::remove_cvref_t<Arg>, heap_value>>>
 		heap_value( Arg &&arg )
 		  : m_value{ std::make_unique<value_t>( DAW_FWD( arg ) ) } {}
 
-		template<typename Arg, typename... Args>
+		template<typename Arg, typename... Args,
+		         typename = std::enable_if_t<
+		           not std::is_same_v<daw::remove_cvref_t<Arg>, heap_value>>>
 		heap_value( Arg &&arg, Args &&...args )
 		  : m_value{
 		      std::make_unique<value_t>( DAW_FWD( arg ), DAW_FWD( args )... ) } {}
-- 
2.43.0


From 7b1b7aae3e46667c2f89abaa8ba115436b7707b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:56 +0000
Subject: [PATCH 072/311] fix: heap_value calls its value and subscripts by
 reference

---
 include/daw/deprecated/daw_heap_value.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_value.h b/include/daw/deprecated/daw_heap_value.h
index 6ae5e34..e21e477 100644
--- a/include/daw/deprecated/daw_heap_value.h
+++ b/include/daw/deprecated/daw_heap_value.h
@@ -105,23 +105,23 @@ namespace daw {
 		}
 
 		template<typename... Args>
-		auto operator[]( Args &&...args ) {
+		decltype( auto ) operator[]( Args &&...args ) {
 			return m_value->operator[]( DAW_FWD( args )... );
 		}
 
 		template<typename... Args>
-		auto operator[]( Args &&...args ) const {
-			return m_value->operator[]( DAW_FWD( args )... );
+		decltype( auto ) operator[]( Args &&...args ) const {
+			return std::as_const( *m_value ).operator[]( DAW_FWD( args )... );
 		}
 
 		template<typename... Args>
-		auto operator( )( Args &&...args ) {
-			return m_value->operator[]( DAW_FWD( args )... );
+		decltype( auto ) operator( )( Args &&...args ) {
+			return m_value->operator( )( DAW_FWD( args )... );
 		}
 
 		template<typename... Args>
-		auto operator( )( Args &&...args ) const {
-			return m_value->operator[]( DAW_FWD( args )... );
+		decltype( auto ) operator( )( Args &&...args ) const {
+			return std::as_const( *m_value ).operator( )( DAW_FWD( args )... );
 		}
 	};
 
-- 
2.43.0


From 010c7a144bc2a9c40fc96e2d0cf48a1167f249d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:14 +0000
Subject: [PATCH 073/311] fix: poly_var dereference refers to the held value

---
 include/daw/daw_poly_var.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_poly_var.h b/include/daw/daw_poly_var.h
index aa909d5..d4b90f5 100644
--- a/include/daw/daw_poly_var.h
+++ b/include/daw/daw_poly_var.h
@@ -37,13 +37,13 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr Base const &operator*( ) const {
-			return daw::visit_nt( m_value, []( auto const &value ) {
+			return daw::visit_nt( m_value, []( auto const &value ) -> Base const & {
 				return *static_cast<Base const *>( &value );
 			} );
 		}
 
 		[[nodiscard]] constexpr Base &operator*( ) {
-			return daw::visit_nt( m_value, []( auto &value ) {
+			return daw::visit_nt( m_value, []( auto &value ) -> Base & {
 				return *static_cast<Base *>( &value );
 			} );
 		}
-- 
2.43.0


From 6e2330a25885ed66a6b92d25bfa695877ba97133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:14 +0000
Subject: [PATCH 074/311] fix: const rvalue conversion of poly_value compiles

---
 include/daw/daw_poly_value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_poly_value.h b/include/daw/daw_poly_value.h
index dc472a5..347daa9 100644
--- a/include/daw/daw_poly_value.h
+++ b/include/daw/daw_poly_value.h
@@ -179,7 +179,7 @@ namespace daw {
 			return std::move( *get( ) );
 		}
 
-		operator Base &&( ) const && noexcept {
+		operator Base const &&( ) const && noexcept {
 			return std::move( *get( ) );
 		}
 	};
-- 
2.43.0


From 4898bd75416721fa48172a7c64babfd2f7a049c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 075/311] fix: poly_value header includes what it uses

---
 include/daw/daw_poly_value.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_poly_value.h b/include/daw/daw_poly_value.h
index 347daa9..5b8dd4e 100644
--- a/include/daw/daw_poly_value.h
+++ b/include/daw/daw_poly_value.h
@@ -9,6 +9,7 @@
 #pragma once
 
 #include "ciso646.h"
+#include "daw_attributes.h"
 #include "daw_enable_if.h"
 #include "daw_traits.h"
 
-- 
2.43.0


From 65f414f7d06cb7c0ba91540713a5bb8ddf9a44eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 076/311] fix: optional operator-> compiles

---
 include/daw/daw_optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index 5e2c5a5..d5512db 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -59,11 +59,11 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr pointer operator->( ) noexcept {
-			return &m_value.operator->( );
+			return m_value.operator->( );
 		}
 
 		[[nodiscard]] constexpr const_pointer operator->( ) const noexcept {
-			return &m_value.operator->( );
+			return m_value.operator->( );
 		}
 
 		void swap( optional &other ) noexcept(
-- 
2.43.0


From 9f3cd0232eac97290e62edcb3b50362c8125f8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 077/311] fix: optional operator>= with the optional on the
 right is not inverted

---
 include/daw/daw_optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index d5512db..1526d89 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -375,7 +375,7 @@ namespace daw {
 
 	template<typename T>
 	constexpr bool operator>=( std::nullopt_t, optional<T> const &opt ) noexcept {
-		return static_cast<bool>( opt );
+		return not opt;
 	}
 
 	template<typename T, typename U>
@@ -469,7 +469,7 @@ namespace daw {
 	template<typename T, typename U>
 	constexpr bool operator>=( const T &value, const optional<U> &opt ) {
 		if( opt ) {
-			return *opt > value;
+			return value >= *opt;
 		}
 		return true;
 	}
-- 
2.43.0


From 1d553a7645808e9666afbe4e0d1d5058ba6a1fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 078/311] fix: optional of a reference does not bind to a
 temporary

---
 include/daw/daw_optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index 1526d89..37f3e1e 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -218,7 +218,7 @@ namespace daw {
 		         std::enable_if_t<
 		           daw::all_true_v<
 		             std::is_constructible_v<pointer, daw::remove_cvref_t<U> *>,
-		             not std::is_rvalue_reference_v<U>,
+		             not std::is_rvalue_reference_v<U &&>,
 		             not std::is_same_v<daw::remove_cvref_t<U>, optional<T>>>,
 		           std::nullptr_t> = nullptr>
 		constexpr explicit optional( U &&value )
-- 
2.43.0


From 050c1eafd9d984e3e18cb8aaeed7edceba043c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 079/311] fix: expected_from_code with an explicit result type
 keeps the result

---
 include/daw/daw_expected.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index af3262f..c528708 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -408,9 +408,7 @@ namespace daw {
 		  daw::traits::is_callable_convertible_v<Result, Function, Args...>,
 		  "Must be able to convert result of func to expected result type" );
 
-		auto result = expected_t<Result>( );
-		result.from_code( DAW_FWD( func ), DAW_FWD( args )... );
-		return result;
+		return expected_t<Result>::from_code( DAW_FWD( func ), DAW_FWD( args )... );
 	}
 
 	template<typename Function, typename... Args>
-- 
2.43.0


From e12b96bf2087b8d9aaabcdb09d7b88c64ab3d8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 080/311] fix: expected_t::get_exception_ptr without an
 exception is null

---
 include/daw/daw_expected.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index c528708..ff8c9eb 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -162,7 +162,8 @@ namespace daw {
 		}
 
 		[[nodiscard]] std::exception_ptr get_exception_ptr( ) const noexcept {
-			return *std::get_if<std::exception_ptr>( &m_value );
+			auto const *ptr = std::get_if<std::exception_ptr>( &m_value );
+			return ptr ? *ptr : std::exception_ptr( );
 		}
 
 		[[nodiscard]] bool empty( ) const noexcept {
@@ -363,7 +364,8 @@ namespace daw {
 		}
 
 		[[nodiscard]] std::exception_ptr get_exception_ptr( ) const noexcept {
-			return *std::get_if<std::exception_ptr>( &m_value );
+			auto const *ptr = std::get_if<std::exception_ptr>( &m_value );
+			return ptr ? *ptr : std::exception_ptr( );
 		}
 
 		[[nodiscard]] bool empty( ) const noexcept {
-- 
2.43.0


From e3a42e9bb62fe053d6966d085c28d738bcdfbcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 081/311] fix: union_pair_t constructs the alternative it
 switches to, and keeps track of it when assignment throws

---
 include/daw/daw_union_pair.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_union_pair.h b/include/daw/daw_union_pair.h
index bab5c85..4e26668 100644
--- a/include/daw/daw_union_pair.h
+++ b/include/daw/daw_union_pair.h
@@ -17,6 +17,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstdlib>
+#include <memory>
 #include <utility>
 
 namespace daw {
@@ -81,11 +82,12 @@ namespace daw {
 			static_assert( std::is_convertible_v<T, Type0>,
 			               "Incompatible type T cannot convert to Type0" );
 
-			if( type != data_types::type_0 ) {
-				clear( );
+			if( type == data_types::type_0 ) {
+				value0 = DAW_FWD( value );
+				return;
 			}
-			type = data_types::type_nothing;
-			value0 = DAW_FWD( value );
+			clear( );
+			std::construct_at( &value0, DAW_FWD( value ) );
 			type = data_types::type_0;
 		}
 
@@ -94,11 +96,12 @@ namespace daw {
 			static_assert( std::is_convertible_v<T, Type1>,
 			               "Incompatible type T cannot convert to Type1" );
 
-			if( type != data_types::type_1 ) {
-				clear( );
+			if( type == data_types::type_1 ) {
+				value1 = DAW_FWD( value );
+				return;
 			}
-			type = data_types::type_nothing;
-			value1 = DAW_FWD( value );
+			clear( );
+			std::construct_at( &value1, DAW_FWD( value ) );
 			type = data_types::type_1;
 		}
 
-- 
2.43.0


From 1fabfd01e7bf0c209cb8b8d97cca82a27cf1d55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 082/311] fix: optional_poly orders two empty values as equal

---
 include/daw/deprecated/daw_optional_poly.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_optional_poly.h b/include/daw/deprecated/daw_optional_poly.h
index 0b3e997..76d3624 100644
--- a/include/daw/deprecated/daw_optional_poly.h
+++ b/include/daw/deprecated/daw_optional_poly.h
@@ -211,7 +211,7 @@ namespace daw {
 			}
 			return false;
 		}
-		return true;
+		return static_cast<bool>( rhs );
 	}
 
 	template<typename T>
@@ -247,7 +247,7 @@ namespace daw {
 			}
 			return true;
 		}
-		return false;
+		return !static_cast<bool>( rhs );
 	}
 
 } // namespace daw
-- 
2.43.0


From 447cf37337c0c509047133c3a2c92245cd1e5f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 083/311] fix: optional_poly assignment from a derived value or
 optional keeps it

---
 include/daw/deprecated/daw_optional_poly.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/daw/deprecated/daw_optional_poly.h b/include/daw/deprecated/daw_optional_poly.h
index 76d3624..03ea853 100644
--- a/include/daw/deprecated/daw_optional_poly.h
+++ b/include/daw/deprecated/daw_optional_poly.h
@@ -106,9 +106,7 @@ namespace daw {
 		                            std::is_same<value_type, T>::value ),
 		                          std::nullptr_t> = nullptr>
 		optional_poly &operator=( optional_poly<T> &&rhs ) {
-			if( this != static_cast<optional_poly *>( &rhs ) ) {
-				m_value.reset( rhs.m_value.release( ) );
-			}
+			m_value.reset( rhs.m_value.release( ) );
 			return *this;
 		}
 
@@ -117,7 +115,7 @@ namespace daw {
 		                            std::is_same<value_type, T>::value ),
 		                          std::nullptr_t> = nullptr>
 		optional_poly &operator=( T const &value ) {
-			m_value.reset( new value_type{ value } );
+			m_value.reset( new std::decay_t<T>{ value } );
 			return *this;
 		}
 
-- 
2.43.0


From a72a0407593f5c73faa849cefd8b83fcb47f4ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:47 +0000
Subject: [PATCH 084/311] fix: checked_expected_t<void> copies from mutable
 values and runs the callable it is given

---
 include/daw/deprecated/daw_checked_expected.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_checked_expected.h b/include/daw/deprecated/daw_checked_expected.h
index 527f937..b03718f 100644
--- a/include/daw/deprecated/daw_checked_expected.h
+++ b/include/daw/deprecated/daw_checked_expected.h
@@ -268,7 +268,12 @@ namespace daw {
 		checked_expected_t( ) noexcept
 		  : checked_expected_t{ false } {}
 
-		template<typename T>
+		template<
+		  typename T,
+		  std::enable_if_t<
+		    not std::is_same_v<daw::remove_cvref_t<T>, checked_expected_t> and
+		      not std::is_invocable_v<T>,
+		    std::nullptr_t> = nullptr>
 		checked_expected_t( T && ) noexcept
 		  : checked_expected_t{ true } {}
 
-- 
2.43.0


From ee0449562badeb6c89ff99d020d8c5751ec3d2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:47 +0000
Subject: [PATCH 085/311] fix: assigning to a checked_expected_t<void> drops
 its old exception

---
 include/daw/deprecated/daw_checked_expected.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_checked_expected.h b/include/daw/deprecated/daw_checked_expected.h
index b03718f..462a773 100644
--- a/include/daw/deprecated/daw_checked_expected.h
+++ b/include/daw/deprecated/daw_checked_expected.h
@@ -245,9 +245,7 @@ namespace daw {
 		}
 		checked_expected_t &operator=( checked_expected_t const &rhs ) {
 			if( this != &rhs ) {
-				if( rhs.m_exception ) {
-					m_exception = rhs.m_exception;
-				}
+				m_exception = rhs.m_exception;
 				m_value = rhs.m_value;
 			}
 			return *this;
-- 
2.43.0


From 8ea322f8abf5fbb0c0a3aba8f61a0c87b410090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:47 +0000
Subject: [PATCH 086/311] fix: assigning an unexpected exception to a
 checked_expected_t is reported

---
 include/daw/deprecated/daw_checked_expected.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/deprecated/daw_checked_expected.h b/include/daw/deprecated/daw_checked_expected.h
index 462a773..405bdbf 100644
--- a/include/daw/deprecated/daw_checked_expected.h
+++ b/include/daw/deprecated/daw_checked_expected.h
@@ -102,6 +102,7 @@ namespace daw {
 		}
 
 		checked_expected_t &operator=( std::exception_ptr ptr ) {
+			impl::is_expected_exception<ExpectedExceptions...>( ptr );
 			if( m_value ) {
 				m_value.reset( );
 			}
-- 
2.43.0


From 882557589b23a97d28e52968b875885b51432547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 087/311] fix: expected_t is empty after storing a value failed

---
 include/daw/daw_expected.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index ff8c9eb..5b52dca 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -167,8 +167,11 @@ namespace daw {
 		}
 
 		[[nodiscard]] bool empty( ) const noexcept {
-			return std::holds_alternative<
-			  expected_details::ExpectedTag<expected_details::Empty>>( m_value );
+			// a value whose construction threw leaves nothing behind
+			return m_value.valueless_by_exception( ) or
+			       std::holds_alternative<
+			         expected_details::ExpectedTag<expected_details::Empty>>(
+			         m_value );
 		}
 
 		explicit operator bool( ) const noexcept {
-- 
2.43.0


From dc6755d544b089c80898ee128a9f5fd14cff2f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 088/311] fix: checked_expected_t takes an rvalue exception as
 an exception, not as a callable

---
 include/daw/deprecated/daw_checked_expected.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_checked_expected.h b/include/daw/deprecated/daw_checked_expected.h
index 405bdbf..f36c7b3 100644
--- a/include/daw/deprecated/daw_checked_expected.h
+++ b/include/daw/deprecated/daw_checked_expected.h
@@ -141,7 +141,10 @@ namespace daw {
 
 		// template<class Function, typename... Args, typename =
 		// std::enable_if_t<is_callable_v<Function, Args...>>>
-		template<class Function, typename... Args>
+		template<class Function,
+		         typename... Args,
+		         std::enable_if_t<std::is_invocable_v<Function, Args...>,
+		                          std::nullptr_t> = nullptr>
 		checked_expected_t( Function func, Args &&...args )
 		  : checked_expected_t{
 		      checked_expected_t::from_code( func, DAW_FWD( args )... ) } {}
-- 
2.43.0


From 08f54acd52065cbcbd5eb5e5b2e51c65b5e6b816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:07 +0000
Subject: [PATCH 089/311] fix: expected_t::get_exception_message reports the
 message whatever was included before

---
 include/daw/daw_expected.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index 5b52dca..f48bb1e 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -11,6 +11,7 @@
 #include "ciso646.h"
 #include "daw_assume.h"
 #include "daw_attributes.h"
+#include "daw_check_exceptions.h"
 #include "daw_move.h"
 #include "impl/daw_traits_impl.h"
 #include "traits/daw_traits_concepts.h"
-- 
2.43.0


From 058c5a340bdbbff61a9763a631220f2785852680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 090/311] fix: expected_t values that lost their value compare
 as empty

---
 include/daw/daw_expected.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index f48bb1e..c5db767 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -60,11 +60,14 @@ namespace daw {
 
 		/// Summary: No value, aka null
 		bool operator==( expected_t const &rhs ) const noexcept {
+			if( empty( ) or rhs.empty( ) ) {
+				return empty( ) == rhs.empty( );
+			}
 			return m_value == rhs.m_value;
 		}
 
 		bool operator!=( expected_t const &rhs ) const noexcept {
-			return m_value != rhs.m_value;
+			return not( *this == rhs );
 		}
 
 		/// Summary: With value
-- 
2.43.0


From 295d15028043081d5cfa96e4b0e90aedd35a0e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:22 +0000
Subject: [PATCH 091/311] fix: daw::function copies, moves and owns the
 callable it holds instead of copying its bytes or keeping a reference

---
 include/daw/daw_stack_function.h | 86 +++++++++++++++++++++++++-------
 1 file changed, 67 insertions(+), 19 deletions(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index b8b025c..2e4d84d 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -38,7 +38,7 @@ namespace daw {
 
 		DAW_MAKE_REQ_TRAIT( has_empty_member_v, std::declval<T>( ).empty( ) );
 
-		template<size_t StorageSize, typename Base>
+		template<size_t StorageSize, typename Base, typename Empty>
 		struct function_storage {
 			daw::aligned_storage_t<StorageSize> m_data;
 
@@ -46,31 +46,49 @@ namespace daw {
 				clean( );
 			}
 
-			function_storage( function_storage const & ) = default;
-			function_storage( function_storage && ) = default;
+			function_storage( function_storage const &other ) {
+				other.ptr( )->copy_to( &m_data );
+			}
+
+			function_storage( function_storage &&other ) {
+				other.ptr( )->move_to( &m_data );
+			}
+
+			template<size_t N>
+			function_storage( function_storage<N, Base, Empty> const &other ) {
+				static_assert( N <= StorageSize );
+				other.ptr( )->copy_to( &m_data );
+			}
 
 			function_storage &operator=( function_storage const &rhs ) {
-				if( this == &rhs ) {
-					return *this;
+				if( this != &rhs ) {
+					*this = function_storage( rhs );
 				}
-				clean( );
-				m_data = rhs.m_data;
 				return *this;
 			}
 
-			function_storage &operator=( function_storage &&rhs ) noexcept {
+			function_storage &operator=( function_storage &&rhs ) {
 				if( this == &rhs ) {
 					return *this;
 				}
 				clean( );
-				m_data = std::move( rhs.m_data );
+				// there is always a callable in the storage, even after a throwing move
+				struct set_empty {
+					function_storage *self;
+
+					~set_empty( ) {
+						if( self ) {
+							new( &self->m_data ) Empty( );
+						}
+					}
+				} on_error{ this };
+				rhs.ptr( )->move_to( &m_data );
+				on_error.self = nullptr;
 				return *this;
 			}
 
-			template<
-			  typename Func,
-			  std::enable_if_t<!std::is_same_v<std::decay_t<Func>, function_storage>,
-			                   std::nullptr_t> = nullptr>
+			template<typename Func, std::enable_if_t<std::is_base_of_v<Base, Func>,
+			                                         std::nullptr_t> = nullptr>
 			function_storage( Func &&f ) {
 				static_assert( sizeof( std::decay_t<Func> ) <= StorageSize );
 				store( DAW_FWD( f ) );
@@ -121,6 +139,8 @@ namespace daw {
 			virtual Result operator( )( FuncArgs... ) const = 0;
 			virtual Result operator( )( FuncArgs... ) = 0;
 			[[nodiscard]] virtual bool empty( ) const = 0;
+			virtual void copy_to( void *where ) const = 0;
+			virtual void move_to( void *where ) = 0;
 		};
 
 		template<typename Result, typename... FuncArgs>
@@ -136,6 +156,14 @@ namespace daw {
 			[[nodiscard]] bool empty( ) const override {
 				return true;
 			}
+
+			void copy_to( void *where ) const override {
+				new( where ) empty_child( );
+			}
+
+			void move_to( void *where ) override {
+				new( where ) empty_child( );
+			}
 		};
 
 		template<typename...>
@@ -197,11 +225,28 @@ namespace daw {
 			[[nodiscard]] bool empty( ) const override {
 				return empty_impl( m_func );
 			}
+
+			void copy_to( void *where ) const override {
+				if constexpr( std::is_copy_constructible_v<Func> ) {
+					new( where ) function_child( m_func );
+				} else {
+					daw::exception::daw_throw( "Stored callable cannot be copied" );
+				}
+			}
+
+			void move_to( void *where ) override {
+				if constexpr( std::is_move_constructible_v<Func> ) {
+					new( where ) function_child( std::move( m_func ) );
+				} else {
+					daw::exception::daw_throw( "Stored callable cannot be moved" );
+				}
+			}
 		};
 
 		template<size_t MaxSize, typename function_base, typename function_child,
 		         typename empty_child, typename Func>
-		function_storage<MaxSize, function_base> store_if_not_empty( Func &&f ) {
+		function_storage<MaxSize, function_base, empty_child>
+		store_if_not_empty( Func &&f ) {
 			static_assert( sizeof( std::decay_t<Func> ) <= MaxSize );
 			if constexpr( func_impl::has_empty_member_v<Func> ) {
 				if( f.empty( ) ) {
@@ -243,15 +288,18 @@ namespace daw {
 		template<typename Func>
 		using function_child = func_impl::function_child<Func, Result, FuncArgs...>;
 
-		func_impl::function_storage<MaxSize, function_base> m_storage =
+		func_impl::function_storage<MaxSize, function_base, empty_child> m_storage =
 		  empty_child{ };
 
+		template<size_t, typename>
+		friend class function;
+
 		template<typename Func>
 		decltype( auto ) store_if_not_empty( Func &&f ) {
 			func_impl::validate_size<sizeof( std::decay_t<Func> ), MaxSize>( );
 			return func_impl::store_if_not_empty<MaxSize, function_base,
-			                                     function_child<Func>, empty_child>(
-			  DAW_FWD( f ) );
+			                                     function_child<std::decay_t<Func>>,
+			                                     empty_child>( DAW_FWD( f ) );
 		}
 
 	public:
@@ -262,7 +310,7 @@ namespace daw {
 		template<size_t N,
 		         std::enable_if_t<( N <= MaxSize ), std::nullptr_t> = nullptr>
 		function( function<N, Result( FuncArgs... )> const &other )
-		  : m_storage( *other.m_storage ) {}
+		  : m_storage( other.m_storage ) {}
 
 		template<size_t N,
 		         std::enable_if_t<( N > MaxSize ), std::nullptr_t> = nullptr>
@@ -271,7 +319,7 @@ namespace daw {
 		template<size_t N,
 		         std::enable_if_t<( N <= MaxSize ), std::nullptr_t> = nullptr>
 		function &operator=( function<N, Result( FuncArgs... )> const &other ) {
-			m_storage = *other.m_storage;
+			m_storage = decltype( m_storage )( other.m_storage );
 			return *this;
 		}
 
-- 
2.43.0


From a2a1b67b77242eb5635e0555b58b42dd1957fb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:22 +0000
Subject: [PATCH 092/311] fix: daw::function forwards its arguments to the
 callable

---
 include/daw/daw_stack_function.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index 2e4d84d..9ef03fb 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -188,24 +188,20 @@ namespace daw {
 			Result operator( )( FuncArgs... args ) override {
 				daw::exception::precondition_check<std::bad_function_call>( !empty( ) );
 				if constexpr( std::is_same_v<std::decay_t<Result>, void> ) {
-					// daw::invoke( m_func, std::move( args )... );
-					m_func( args... );
+					m_func( std::forward<FuncArgs>( args )... );
 					return;
 				} else {
-					// return daw::invoke( m_func, std::move( args )... );
-					return m_func( args... );
+					return m_func( std::forward<FuncArgs>( args )... );
 				}
 			}
 
 			Result operator( )( FuncArgs... args ) const override {
 				daw::exception::precondition_check<std::bad_function_call>( !empty( ) );
 				if constexpr( std::is_same_v<std::decay_t<Result>, void> ) {
-					// daw::invoke( m_func, std::move( args )... );
-					m_func( args... );
+					m_func( std::forward<FuncArgs>( args )... );
 					return;
 				} else {
-					// return daw::invoke( m_func, std::move( args )... );
-					return m_func( args... );
+					return m_func( std::forward<FuncArgs>( args )... );
 				}
 			}
 
-- 
2.43.0


From 18948241b12b7e88790ceaaf1535e32968dfcccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:22 +0000
Subject: [PATCH 093/311] fix: function_ref forwards its arguments

---
 include/daw/daw_function_ref.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_function_ref.h b/include/daw/daw_function_ref.h
index 7169c3f..b905b67 100644
--- a/include/daw/daw_function_ref.h
+++ b/include/daw/daw_function_ref.h
@@ -11,6 +11,7 @@
 #include <cassert>
 #include <memory>
 #include <type_traits>
+#include <utility>
 
 #ifdef DAW_CPP26_CONSTEXPR
 #undef DAW_CPP26_CONSTEXPR
@@ -56,11 +57,11 @@ namespace daw {
 		static DAW_CPP26_CONSTEXPR Result obj_thunk( data_t const &d,
 		                                             Params... params ) {
 			auto const &obj = *static_cast<Func const *>( d.obj_ptr );
-			return obj( params... );
+			return obj( std::forward<Params>( params )... );
 		}
 
 		static constexpr Result fp_thunk( data_t const &d, Params... params ) {
-			return d.func_ptr( params... );
+			return d.func_ptr( std::forward<Params>( params )... );
 		}
 
 	public:
@@ -123,11 +124,11 @@ namespace daw {
 		static DAW_CPP26_CONSTEXPR void obj_thunk( data_t const &d,
 		                                           Params... params ) {
 			auto const &obj = *static_cast<Func const *>( d.obj_ptr );
-			(void)obj( params... );
+			(void)obj( std::forward<Params>( params )... );
 		}
 
 		static constexpr void fp_thunk( data_t const &d, Params... params ) {
-			d.func_ptr( params... );
+			d.func_ptr( std::forward<Params>( params )... );
 		}
 
 		template<
@@ -162,7 +163,7 @@ namespace daw {
 		}
 
 		constexpr void operator( )( Params... params ) const {
-			m_thunk( m_data, params... );
+			m_thunk( m_data, std::forward<Params>( params )... );
 		}
 	};
 } // namespace daw
-- 
2.43.0


From 050e47ceec906d58faef51594cbd7b4e8253526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:22 +0000
Subject: [PATCH 094/311] fix: copying a mutable function_view does not refer
 to the copied view; reference parameters compile

---
 include/daw/daw_function_view.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/daw/daw_function_view.h b/include/daw/daw_function_view.h
index fcd85d6..0b3d5c3 100644
--- a/include/daw/daw_function_view.h
+++ b/include/daw/daw_function_view.h
@@ -17,6 +17,8 @@
 #include <cstdio>
 #include <cstring>
 #include <functional>
+#include <memory>
+#include <type_traits>
 #include <utility>
 
 namespace daw {
@@ -41,19 +43,19 @@ namespace daw {
 			using fn_t = std::remove_reference_t<Func>;
 			if constexpr( std::is_pointer_v<fn_t> ) {
 				return { data_t{ f }, []( data_t const &d, Args... args ) -> Result {
-					        return ( d.fp_storage )( std::move( args )... );
+					        return ( d.fp_storage )( std::forward<Args>( args )... );
 				        } };
 			} else if constexpr( std::is_empty_v<fn_t> and
 			                     std::is_default_constructible_v<fn_t> ) {
 				return { data_t{ nullptr },
 				         []( data_t const &, Args... args ) -> Result {
-					         return fn_t{ }( std::move( args )... );
+					         return fn_t{ }( std::forward<Args>( args )... );
 				         } };
 			} else {
 				return { data_t{ DAW_BIT_CAST( ref_buffer_t, std::addressof( f ) ) },
 				         +[]( data_t const &d, Args... args ) -> Result {
 					         return ( *DAW_BIT_CAST( fn_t const *, d.ref_storage ) )(
-					           std::move( args )... );
+					           std::forward<Args>( args )... );
 				         } };
 			}
 		}
@@ -80,18 +82,18 @@ namespace daw {
 			using fn_t = std::remove_reference_t<Func>;
 			if constexpr( std::is_pointer_v<fn_t> ) {
 				return { data_t{ f }, []( data_t const &d, Args... args ) -> void {
-					        ( d.fp_storage )( std::move( args )... );
+					        ( d.fp_storage )( std::forward<Args>( args )... );
 				        } };
 			} else if constexpr( std::is_empty_v<fn_t> and
 			                     std::is_default_constructible_v<fn_t> ) {
 				return { data_t{ nullptr }, []( data_t const &, Args... args ) -> void {
-					        fn_t{ }( std::move( args )... );
+					        fn_t{ }( std::forward<Args>( args )... );
 				        } };
 			} else {
 				return { data_t{ DAW_BIT_CAST( ref_buffer_t, std::addressof( f ) ) },
 				         +[]( data_t const &d, Args... args ) -> void {
 					         ( *DAW_BIT_CAST( fn_t const *, d.ref_storage ) )(
-					           std::move( args )... );
+					           std::forward<Args>( args )... );
 				         } };
 			}
 		}
@@ -104,28 +106,36 @@ namespace daw {
 	struct function_view<Result( Args... )> {
 		function_view_table_storage<Result, Args...> function_view_table;
 
-		template<typename Func>
+		template<typename Func,
+		         std::enable_if_t<
+		           not std::is_same_v<function_view,
+		                              std::remove_cv_t<std::remove_reference_t<Func>>>,
+		           std::nullptr_t> = nullptr>
 		constexpr function_view( Func &&f )
 		  : function_view_table(
 		      function_view_table_storage<Result, Args...>::make( f ) ) {}
 
 		constexpr Result operator( )( Args... args ) const {
 			return function_view_table.call_ptr( function_view_table.data,
-			                                     std::move( args )... );
+			                                     std::forward<Args>( args )... );
 		}
 	};
 	template<typename... Args>
 	struct function_view<void( Args... )> {
 		function_view_table_storage<void, Args...> function_view_table;
 
-		template<typename Func>
+		template<typename Func,
+		         std::enable_if_t<
+		           not std::is_same_v<function_view,
+		                              std::remove_cv_t<std::remove_reference_t<Func>>>,
+		           std::nullptr_t> = nullptr>
 		constexpr function_view( Func &&f )
 		  : function_view_table(
 		      function_view_table_storage<void, Args...>::make( DAW_FWD( f ) ) ) {}
 
 		constexpr void operator( )( Args... args ) const {
 			function_view_table.call_ptr( function_view_table.data,
-			                              std::move( args )... );
+			                              std::forward<Args>( args )... );
 		}
 	};
 } // namespace daw
-- 
2.43.0


From ea454f96f35bccc3614479960a6644e9ef7f3b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:22 +0000
Subject: [PATCH 095/311] fix: function_table_t call operator passes
 allow_empty on

---
 include/daw/daw_function_table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_function_table.h b/include/daw/daw_function_table.h
index ab42e89..35c3099 100644
--- a/include/daw/daw_function_table.h
+++ b/include/daw/daw_function_table.h
@@ -129,7 +129,7 @@ namespace daw {
 
 		template<bool allow_empty = false, typename... Args>
 		constexpr R operator( )( size_t idx, Args &&...args ) const {
-			return call( idx, DAW_FWD( args )... );
+			return call<allow_empty>( idx, DAW_FWD( args )... );
 		}
 
 		template<typename Value>
-- 
2.43.0


From 152f7c3ef991e4e59688fb4baf45dece977d9b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:22 +0000
Subject: [PATCH 096/311] fix: const access to a value stored locally in
 sbo_storage, over-aligned values, throwing constructors

---
 include/daw/daw_sbo.h | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_sbo.h b/include/daw/daw_sbo.h
index 6c343de..672e2a7 100644
--- a/include/daw/daw_sbo.h
+++ b/include/daw/daw_sbo.h
@@ -27,13 +27,17 @@ namespace daw {
 
 		daw::aligned_storage_t<storage_size, Align> data{ };
 
+		template<typename T>
+		static constexpr bool is_local_v =
+		  sizeof( T ) <= storage_size and alignof( T ) <= Align;
+
 		enum class engaged_types : std::uint8_t { none, local, allocated };
 
 		engaged_types engaged = engaged_types::none;
 
 		template<typename T>
 		[[nodiscard]] T *get( ) {
-			if constexpr( sizeof( T ) <= storage_size ) {
+			if constexpr( is_local_v<T> ) {
 				assert( engaged == engaged_types::local );
 				return reinterpret_cast<T *>( &data );
 			} else {
@@ -45,12 +49,12 @@ namespace daw {
 
 		template<typename T, typename AllocatedType = T>
 		[[nodiscard]] T const *get( ) const {
-			if constexpr( sizeof( AllocatedType ) <= storage_size ) {
-				assert( engaged == engaged_types::allocated );
+			if constexpr( is_local_v<AllocatedType> ) {
+				assert( engaged == engaged_types::local );
 				return reinterpret_cast<T const *>( &data );
 			} else {
 				assert( engaged == engaged_types::allocated );
-				return *reinterpret_cast<T const **>( &data );
+				return *reinterpret_cast<T const *const *>( &data );
 			}
 		}
 
@@ -58,7 +62,7 @@ namespace daw {
 		         typename Allocator = std::allocator<std::remove_cv_t<T>>>
 		void deallocate( Allocator const &alloc = Allocator{ } ) {
 			static_assert( not std::is_array_v<T>, "Arrays unsupported" );
-			if constexpr( sizeof( T ) <= storage_size ) {
+			if constexpr( is_local_v<T> ) {
 				assert( engaged == engaged_types::local );
 				get<T>( )->~T( );
 			} else {
@@ -78,7 +82,7 @@ namespace daw {
 			using base_type = std::remove_cv_t<T>;
 			static_assert( not std::is_array_v<base_type>, "Arrays unsupported" );
 			assert( engaged == engaged_types::none );
-			if constexpr( sizeof( base_type ) <= storage_size ) {
+			if constexpr( is_local_v<base_type> ) {
 				if constexpr( std::is_aggregate_v<base_type> ) {
 					auto *result = new( &data ) base_type{ DAW_FWD( value ) };
 					engaged = engaged_types::local;
@@ -94,11 +98,23 @@ namespace daw {
 				Allocator allocator = Allocator{ alloc };
 				base_type_ptr ptr =
 				  std::allocator_traits<Allocator>::allocate( allocator, 1 );
-				// Store pointer from allocator in buffer
-				new( &data ) base_type_ptr{ ptr };
+				// Return the memory when the value cannot be constructed
+				struct guard_t {
+					Allocator &allocator;
+					base_type_ptr ptr;
+
+					~guard_t( ) {
+						if( ptr ) {
+							std::allocator_traits<Allocator>::deallocate( allocator, ptr, 1 );
+						}
+					}
+				} guard{ allocator, ptr };
 				// Construct new value from passed value at location from allocator
 				std::allocator_traits<Allocator>::construct( allocator, ptr,
 				                                             DAW_FWD( value ) );
+				guard.ptr = nullptr;
+				// Store pointer from allocator in buffer
+				new( &data ) base_type_ptr{ ptr };
 				engaged = engaged_types::allocated;
 				return ptr;
 			}
-- 
2.43.0


From 7d9a967cc19e8a6751d1f0b32556f55e8c3527dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 097/311] fix: shared_function includes what it uses

---
 include/daw/daw_shared_function.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_shared_function.h b/include/daw/daw_shared_function.h
index f0c9550..d81b79d 100644
--- a/include/daw/daw_shared_function.h
+++ b/include/daw/daw_shared_function.h
@@ -10,6 +10,7 @@
 
 #include "daw/daw_cpp_feature_check.h"
 #include "daw/daw_cx_atomic.h"
+#include "daw/daw_ensure.h"
 #include "daw/daw_move.h"
 #include "daw/daw_utility.h"
 #include "daw/traits/daw_copy_cvref_t.h"
-- 
2.43.0


From 023f58c8d53680dba8c985e6f8ca22da682ba387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:38 +0000
Subject: [PATCH 098/311] fix: shared_function returning void takes callables
 that return something

---
 include/daw/daw_shared_function.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_shared_function.h b/include/daw/daw_shared_function.h
index d81b79d..ac74b1c 100644
--- a/include/daw/daw_shared_function.h
+++ b/include/daw/daw_shared_function.h
@@ -117,7 +117,13 @@ public:                                                                 \
 		  noexcept( IsNoExcept ) override {                                       \
 			if constexpr( is_optional ) {                                           \
 				daw_ensure( m_func );                                                 \
-				return ( *InvokeFn )( std::forward<param_t<Params>>( params )... );   \
+				if constexpr( std::is_void_v<R> ) {                                   \
+					(void)( *InvokeFn )( std::forward<param_t<Params>>( params )... );  \
+				} else {                                                              \
+					return ( *InvokeFn )( std::forward<param_t<Params>>( params )... ); \
+				}                                                                     \
+			} else if constexpr( std::is_void_v<R> ) {                              \
+				(void)InvokeFn( std::forward<param_t<Params>>( params )... );         \
 			} else {                                                                \
 				return InvokeFn( std::forward<param_t<Params>>( params )... );        \
 			}                                                                       \
-- 
2.43.0


From aa0961faa90a74170960a9f1413daaf7b8db2fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:16 +0000
Subject: [PATCH 099/311] fix: shared_function holds move only callables

---
 include/daw/daw_shared_function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_shared_function.h b/include/daw/daw_shared_function.h
index ac74b1c..cdcc51c 100644
--- a/include/daw/daw_shared_function.h
+++ b/include/daw/daw_shared_function.h
@@ -111,7 +111,7 @@ public:                                                                 \
                                                                               \
 	public:                                                                     \
 		explicit constexpr shared_function_storage( Fn fn )                       \
-		  : m_func{ DAW_FWD( fn ) } {}                                            \
+		  : m_func{ std::move( fn ) } {}                                          \
                                                                               \
 		constexpr R call( Params... params ) CallQuals                            \
 		  noexcept( IsNoExcept ) override {                                       \
-- 
2.43.0


From 3b69411128752dbb96eb2065861a7d18befc90cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:30 +0000
Subject: [PATCH 100/311] fix: moved-from ScopeGuards do not run their action,
 dismiss compiles, run_now runs a throwing action once

---
 include/daw/daw_scope_guard.h | 39 ++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 1f69219..84056c0 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -13,6 +13,7 @@
 #include "daw_cpp_feature_check.h"
 #include "daw_is_constant_evaluated.h"
 
+#include <cassert>
 #include <cstddef>
 #include <daw/stdinc/move_fwd_exch.h>
 #include <exception>
@@ -40,8 +41,29 @@ namespace daw {
 	public:
 		ScopeGuard( const ScopeGuard & ) = delete;
 		ScopeGuard &operator=( const ScopeGuard & ) = delete;
-		ScopeGuard( ScopeGuard && ) = default;
-		ScopeGuard &operator=( ScopeGuard && ) = default;
+
+		DAW_ATTRIB_INLINE constexpr ScopeGuard( ScopeGuard &&other ) noexcept(
+		  std::is_nothrow_move_constructible_v<FunctionType> )
+		  : m_function( std::move( other.m_function ) ) {
+			other.m_function = std::nullopt;
+		}
+
+		// The action this guard was responsible for is run first
+		DAW_ATTRIB_INLINE constexpr ScopeGuard &
+		operator=( ScopeGuard &&rhs ) noexcept(
+		  std::is_nothrow_invocable_v<FunctionType> and
+		  std::is_nothrow_move_constructible_v<FunctionType> ) {
+			if( this != &rhs ) {
+				if( m_function ) {
+					run_now( );
+				}
+				if( rhs.m_function ) {
+					m_function.emplace( std::move( *rhs.m_function ) );
+					rhs.m_function = std::nullopt;
+				}
+			}
+			return *this;
+		}
 
 		DAW_ATTRIB_INLINE explicit constexpr ScopeGuard(
 		  FunctionType
@@ -61,8 +83,15 @@ namespace daw {
 		DAW_ATTRIB_INLINE constexpr void
 		run_now( ) noexcept( std::is_nothrow_invocable_v<FunctionType> ) {
 			assert( m_function );
+			// an action that throws has run too
+			struct cancel_t {
+				ScopeGuard *self;
+
+				DAW_SG_CXDTOR ~cancel_t( ) {
+					self->cancel( );
+				}
+			} const on_exit{ this };
 			(void)( *m_function )( );
-			cancel( );
 		}
 
 		DAW_ATTRIB_INLINE DAW_SG_CXDTOR ~ScopeGuard( ) noexcept(
@@ -73,8 +102,8 @@ namespace daw {
 			}
 		}
 
-		DAW_ATTRIB_INLINE constexpr void dismiss( ) const noexcept {
-			m_function = std::optional<FunctionType>( );
+		DAW_ATTRIB_INLINE constexpr void dismiss( ) noexcept {
+			m_function = std::nullopt;
 		}
 
 		[[nodiscard]] constexpr bool
-- 
2.43.0


From 091700275cafea5ef021d571b9fbbaa455c5a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:30 +0000
Subject: [PATCH 101/311] fix: on_exit_success recognizes a normal exit during
 unwinding and is not copied

---
 include/daw/daw_scope_guard.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 84056c0..688b68b 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -122,8 +122,15 @@ namespace daw {
 	template<typename Handler>
 	class on_exit_success {
 		Handler on_exit_handler;
+#if not defined( DAW_DONT_USE_EXCEPTIONS )
+		// exceptions that were in flight already when the scope was entered
+		int uncaught_on_entry =
+		  DAW_IS_CONSTANT_EVALUATED( ) ? 0 : std::uncaught_exceptions( );
+#endif
 
 	public:
+		on_exit_success( on_exit_success const & ) = delete;
+		on_exit_success &operator=( on_exit_success const & ) = delete;
 		DAW_ATTRIB_INLINE constexpr on_exit_success( Handler &&h ) noexcept(
 		  std::is_nothrow_move_constructible_v<Handler> )
 		  : on_exit_handler( std::move( h ) ) {}
@@ -140,7 +147,7 @@ namespace daw {
 			} else {
 #endif
 #if not defined( DAW_DONT_USE_EXCEPTIONS )
-				if( std::uncaught_exceptions( ) == 0 ) {
+				if( std::uncaught_exceptions( ) <= uncaught_on_entry ) {
 #endif
 					on_exit_handler( );
 #if not defined( DAW_DONT_USE_EXCEPTIONS )
-- 
2.43.0


From 7d8235128ee1bf1f2437ab25c45c5a6b6a10a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:47 +0000
Subject: [PATCH 102/311] fix: string_view find of a character honours the
 start position for every character type

---
 include/daw/daw_string_view.h | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 36be0f1..c595474 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1994,6 +1994,9 @@ namespace daw {
 			                                        size_type pos = 0 ) const {
 
 				assert( pos <= size( ) );
+				if( pos >= size( ) ) {
+					return npos;
+				}
 				auto first = data( ) + pos;
 				auto const sz = static_cast<std::size_t>( data_end( ) - first );
 #if defined( DAW_HAS_IF_CONSTEVAL_COMPAT )
@@ -2005,38 +2008,22 @@ namespace daw {
 							return npos;
 						}
 						return static_cast<std::size_t>( static_cast<CharT const *>( r ) -
-						                                 first );
-					} else if constexpr( sizeof( CharT ) == 2 ) {
-						wchar_t const *r =
-						  ::wmemchr( const_cast<wchar_t *>(
-						               reinterpret_cast<wchar_t const *>( first ) ),
-						             static_cast<wchar_t>( c ),
-						             sz );
+						                                 data( ) );
+					} else if constexpr( std::is_same_v<CharT, wchar_t> ) {
+						wchar_t const *r = std::wmemchr( first, c, sz );
 						if( r == nullptr ) {
 							return npos;
 						}
-						return static_cast<std::size_t>(
-						  reinterpret_cast<CharT const *>( r ) - first );
-					} else {
-						for( std::size_t n = pos; n < sz; ++n ) {
-							if( first[n] == c ) {
-								return n;
-							}
-						}
-						return npos;
+						return static_cast<std::size_t>( r - data( ) );
 					}
 				}
-				else {
 #endif
-					for( std::size_t n = pos; n < sz; ++n ) {
-						if( first[n] == c ) {
-							return n;
-						}
+				for( std::size_t n = pos; n < size( ); ++n ) {
+					if( m_first[n] == c ) {
+						return n;
 					}
-					return npos;
-#if defined( DAW_HAS_IF_CONSTEVAL_COMPAT )
 				}
-#endif
+				return npos;
 			}
 
 			[[nodiscard]] DAW_ATTRIB_FLATTEN constexpr size_type
-- 
2.43.0


From 55152fdc20239403d807b3f63d05424402255533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:47 +0000
Subject: [PATCH 103/311] fix: string_view find past the end finds nothing
 instead of reading out of bounds

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index c595474..2496e8f 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2040,7 +2040,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type find( basic_string_view v,
 			                                        size_type pos = 0 ) const {
-				if( size( ) < v.size( ) ) {
+				if( pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				if( v.empty( ) ) {
@@ -2087,7 +2087,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type
 			find_first_match( basic_string_view v, size_type pos ) const {
-				if( size( ) < v.size( ) ) {
+				if( pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				if( v.empty( ) ) {
-- 
2.43.0


From b0778f303fb2fe2561ea89f907c1dc860d148ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:47 +0000
Subject: [PATCH 104/311] fix: string_view contains(s, pos, count) tests for
 npos

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 2496e8f..71867f4 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2071,7 +2071,7 @@ namespace daw {
 			/// @brief Test if the string_view contains the supplied pattern
 			[[nodiscard]] constexpr bool contains( const_pointer s, size_type pos,
 			                                       size_type count ) const {
-				return find( basic_string_view<CharT>( s, count ), pos );
+				return find( basic_string_view<CharT>( s, count ), pos ) != npos;
 			}
 
 			/// @brief Test if the string_view contains the supplied pattern
-- 
2.43.0


From a4297faea714e7b94e7e4f8f6d5ad1073322882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:47 +0000
Subject: [PATCH 105/311] fix: string_view find_first_match tries every pattern
 from the same position

---
 include/daw/daw_string_view.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 71867f4..e4e4db7 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -362,20 +362,15 @@ namespace daw {
 			        std::initializer_list<basic_string_view<CharT>> needles ) {
 				auto const last = daw::data_end( haystack );
 				for( ; not haystack.empty( ); haystack.remove_prefix( ) ) {
-					auto it = haystack.data( );
-
 					for( auto needle : needles ) {
-						if( needle.size( ) > haystack.size( ) ) {}
+						auto it = haystack.data( );
 						auto s_first = std::data( needle );
 						auto const s_last = daw::data_end( needle );
 						for( auto s_it = s_first;; ++it, ++s_it ) {
 							if( s_it == s_last ) {
 								return haystack.data( );
 							}
-							if( it == last ) {
-								return last;
-							}
-							if( not( *it == *s_it ) ) {
+							if( it == last or not( *it == *s_it ) ) {
 								break;
 							}
 						}
-- 
2.43.0


From 891c02a67d3abe1e7122a68c3f0a6d37817bf522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:47 +0000
Subject: [PATCH 106/311] fix: string_view search finds matches that reach the
 end and search_last finds the last one

---
 include/daw/daw_string_view.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index e4e4db7..a5dc1db 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2192,7 +2192,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type search( basic_string_view v,
 			                                          size_type pos = 0 ) const {
-				if( ( pos + v.size( ) ) >= size( ) or v.empty( ) ) {
+				if( v.empty( ) or pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				auto const iter = sv2_details::search(
@@ -2213,17 +2213,11 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type search_last( basic_string_view v,
 			                                               size_type pos = 0 ) const {
-				if( pos + v.size( ) >= size( ) or v.empty( ) ) {
-					return npos;
-				}
-				auto last_pos = pos;
+				auto last_pos = npos;
 				auto fpos = search( v, pos );
 				while( fpos != npos ) {
 					last_pos = fpos;
-					fpos = search( v, fpos );
-					if( fpos == last_pos ) {
-						break;
-					}
+					fpos = search( v, fpos + 1U );
 				}
 				return last_pos;
 			}
-- 
2.43.0


From 8172897be79915309fc5d05f639f5f46941a9af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:47 +0000
Subject: [PATCH 107/311] fix: string_view find_last_of reports that no wide
 character was found

---
 include/daw/daw_string_view.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index a5dc1db..bed41b1 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2312,7 +2312,8 @@ namespace daw {
 				} else {
 					auto iter = daw::algorithm::find_first_of(
 					  haystack.rbegin( ), haystack.rend( ), s.rbegin( ), s.rend( ) );
-					return iter == rend( ) ? npos : reverse_distance( rbegin( ), iter );
+					return iter == haystack.rend( ) ? npos
+					                                : reverse_distance( rbegin( ), iter );
 				}
 			}
 
-- 
2.43.0


From 0d83335f74bf7596cc8b70c6a2c45bd040c7b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:47 +0000
Subject: [PATCH 108/311] fix: string_view find_last_not_of does not read the
 character at size()

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index bed41b1..e08ada6 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2434,7 +2434,7 @@ namespace daw {
 				if( empty( ) ) {
 					return npos;
 				}
-				if( pos > size( ) ) {
+				if( pos >= size( ) ) {
 					pos = size( ) - 1;
 				}
 				for( auto n = static_cast<difference_type>( pos ); n >= 0; --n ) {
@@ -2458,7 +2458,7 @@ namespace daw {
 				if( empty( ) ) {
 					return npos;
 				}
-				if( pos > size( ) ) {
+				if( pos >= size( ) ) {
 					pos = size( ) - 1;
 				}
 				if( v.empty( ) ) {
-- 
2.43.0


From f2a0f7378dcae87611e31239254d8c82fb24374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 109/311] fix: string_view substr_unsafe is zero terminated
 only when its source is

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index e08ada6..2a30939 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1835,7 +1835,7 @@ namespace daw {
 				DAW_STRING_VIEW_DBG_RNG_CHECK(
 				  pos + count <= size( ),
 				  "Attempt to access basic_string_view past end" );
-				if( pos + count == size( ) ) {
+				if( pos + count == size( ) and is_zero_terminated( ) ) {
 					return basic_string_view(
 					  m_first + pos, m_first + pos + count, zero_terminated );
 				} else {
-- 
2.43.0


From 50cca960285efb726cbe8c69232bc6c180ad203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 110/311] fix: string_view pop_front_unsafe(count) returns
 count characters

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 2a30939..7676dcd 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1157,7 +1157,7 @@ namespace daw {
 				DAW_STRING_VIEW_DBG_RNG_CHECK(
 				  size( ) >= count,
 				  "Attempt to pop front too many elements basic_string_view" );
-				basic_string_view result = substr_unsafe( 0 );
+				basic_string_view result = substr_unsafe( 0, count );
 				remove_prefix_unsafe( count );
 				return result;
 			}
-- 
2.43.0


From 79f12bb968f7b352b0d4cc9c1f300a6e8f92d069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 111/311] fix: string_view pop_back_until with nodiscard keeps
 the delimiter and compiles for characters

---
 include/daw/daw_string_view.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 7676dcd..7d4cb86 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1360,7 +1360,7 @@ namespace daw {
 					return result;
 				}
 				auto result = substr( pos + where.size( ) );
-				remove_suffix( size( ) - pos );
+				remove_suffix( size( ) - ( pos + where.size( ) ) );
 				return result;
 			}
 
@@ -1376,7 +1376,7 @@ namespace daw {
 					remove_prefix( npos );
 					return result;
 				}
-				auto result = substr( pos + where.size( ) );
+				auto result = substr( pos + 1U );
 				remove_suffix( ( size( ) - pos ) - 1 );
 				return result;
 			}
@@ -1461,8 +1461,9 @@ namespace daw {
 					remove_prefix( npos );
 					return result;
 				}
-				auto result = substr( pos );
-				remove_suffix( size( ) - pos );
+				auto result =
+				  substr( pos + sv2_details::find_predicate_result_size( pred ) );
+				remove_suffix( result.size( ) );
 				return result;
 			}
 
-- 
2.43.0


From f258ccb4ea9d8a15891bc83cbde5578d99674919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 112/311] fix: string_view try_pop_back_until returns the text
 after the delimiter

---
 include/daw/daw_string_view.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 7d4cb86..a8a4df4 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1610,7 +1610,7 @@ namespace daw {
 					return basic_string_view<CharT>( );
 				}
 				auto result = substr( pos + where.size( ) );
-				remove_suffix( size( ) - pos );
+				remove_suffix( size( ) - ( pos + where.size( ) ) );
 				return result;
 			}
 
@@ -1625,7 +1625,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1U );
 				remove_suffix( ( size( ) - pos ) - 1 );
 				return result;
 			}
@@ -1641,7 +1641,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1U );
 				remove_suffix( size( ) - pos );
 				return result;
 			}
@@ -1664,7 +1664,8 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result =
+				  substr( pos + sv2_details::find_predicate_result_size( pred ) );
 				remove_suffix( size( ) - pos );
 				return result;
 			}
@@ -1687,8 +1688,9 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
-				remove_suffix( ( size( ) - pos - 1 ) );
+				auto result =
+				  substr( pos + sv2_details::find_predicate_result_size( pred ) );
+				remove_suffix( result.size( ) );
 				return result;
 			}
 
-- 
2.43.0


From 78f629d68f185098bb6c5bdae836aae820fdab75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 113/311] fix: string_view try_pop_front_until(predicate)
 leaves the view alone when nothing matches

---
 include/daw/daw_string_view.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index a8a4df4..11cb954 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1575,7 +1575,11 @@ namespace daw {
 			DAW_REQ_UNARY_PRED_REQ( UnaryPredicate, CharT )
 			[[nodiscard]] constexpr basic_string_view
 			  try_pop_front_until( UnaryPredicate pred ) DAW_LIFETIME_BOUND {
-				auto result = try_pop_front_until( pred, nodiscard );
+				auto const pos = find_first_of_if( pred );
+				if( pos == npos ) {
+					return basic_string_view<CharT>( );
+				}
+				auto result = pop_front( pos );
 				remove_prefix( sv2_details::find_predicate_result_size( pred ) );
 				return result;
 			}
-- 
2.43.0


From 24f9fee85d5dd33933d46ef9f8f952c78a3d7206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 114/311] fix: string_view remove_prefix_until(predicate,
 nodiscard) compiles

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 11cb954..ad084b7 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1773,7 +1773,7 @@ namespace daw {
 			DAW_ATTRIB_INLINE
 			  constexpr basic_string_view &remove_prefix_until( UnaryPredicate pred,
 			                                                    nodiscard_t ) {
-				auto pos = find_if( pred );
+				auto pos = find_first_of_if( pred );
 				dec_front( (std::min)( { size( ), pos } ) );
 				return *this;
 			}
-- 
2.43.0


From 197c52ac4f1ea4f8db7cf8901c786b4a3abb7c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 115/311] fix: string_view trim_suffix_copy compiles

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index ad084b7..674d2a3 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2754,7 +2754,7 @@ namespace daw {
 			[[nodiscard]] constexpr basic_string_view
 			trim_suffix_copy( ) const noexcept DAW_LIFETIME_BOUND {
 				auto result = *this;
-				result = remove_suffix_while( is_space{ } );
+				result.remove_suffix_while( is_space{ } );
 				return result;
 			}
 
-- 
2.43.0


From 7de637872e6cde6b4395e1f06cbbac6f349a6689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:13 +0000
Subject: [PATCH 116/311] fix: sv1 string_view find_last_of a character looks
 at the first character and works for size bounded and empty views

---
 include/daw/deprecated/daw_string_view1.h | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/include/daw/deprecated/daw_string_view1.h b/include/daw/deprecated/daw_string_view1.h
index 86a757a..86257b1 100644
--- a/include/daw/deprecated/daw_string_view1.h
+++ b/include/daw/deprecated/daw_string_view1.h
@@ -927,18 +927,9 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type
 			find_last_of( CharT const c, size_type pos = npos ) const {
-				if( pos >= size( ) ) {
-					pos = 0;
-				}
-				auto first = std::prev( m_last );
-				auto const last = std::next( m_first, pos );
-				while( first != last ) {
-					if( *first == c ) {
-						return static_cast<size_type>( std::distance( m_first, first ) );
-					}
-					--first;
-				}
-				return npos;
+				return find_last_of(
+				  basic_string_view<CharT, BoundsType>( std::addressof( c ), 1U ),
+				  pos );
 			}
 
 			template<size_type N>
-- 
2.43.0


From 396eab689ac380f1095d28d3b7b95d09aab3cfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:13 +0000
Subject: [PATCH 117/311] fix: sv1 string_view find past the end finds nothing
 instead of reading out of bounds

---
 include/daw/deprecated/daw_string_view1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_string_view1.h b/include/daw/deprecated/daw_string_view1.h
index 86257b1..771939c 100644
--- a/include/daw/deprecated/daw_string_view1.h
+++ b/include/daw/deprecated/daw_string_view1.h
@@ -679,7 +679,7 @@ namespace daw {
 			find( basic_string_view<CharT, Bounds, Ex> const v,
 			      size_type const pos = 0 ) const {
 
-				if( size( ) < v.size( ) ) {
+				if( pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				if( v.empty( ) ) {
-- 
2.43.0


From 31a62bd1f56fe3cf6fc20a0483908159edf43637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:13 +0000
Subject: [PATCH 118/311] fix: sv1 string_view search finds matches that reach
 the end and search_last finds the last one

---
 include/daw/deprecated/daw_string_view1.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/daw/deprecated/daw_string_view1.h b/include/daw/deprecated/daw_string_view1.h
index 771939c..82dd4ac 100644
--- a/include/daw/deprecated/daw_string_view1.h
+++ b/include/daw/deprecated/daw_string_view1.h
@@ -779,7 +779,7 @@ namespace daw {
 			[[nodiscard]] constexpr size_type
 			search( basic_string_view<CharT, Bounds, Ex> const v,
 			        size_type const pos = 0 ) const {
-				if( pos + v.size( ) >= size( ) or v.empty( ) ) {
+				if( v.empty( ) or pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				auto const iter =
@@ -799,17 +799,11 @@ namespace daw {
 			[[nodiscard]] constexpr size_type
 			search_last( basic_string_view<CharT, Bounds, Ex> const v,
 			             size_type const pos = 0 ) const {
-				if( pos + v.size( ) >= size( ) or v.empty( ) ) {
-					return npos;
-				}
-				auto last_pos = pos;
+				auto last_pos = npos;
 				auto fpos = search( v, pos );
 				while( fpos != npos ) {
 					last_pos = fpos;
-					fpos = search( v, fpos );
-					if( fpos == last_pos ) {
-						break;
-					}
+					fpos = search( v, fpos + 1U );
 				}
 				return last_pos;
 			}
-- 
2.43.0


From b6b3a929a30686596d3eabe5f583a30a6074ffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 119/311] fix: string_view find_last_of searches wide
 characters up to the position

---
 include/daw/daw_string_view.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 674d2a3..b9b0d89 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2298,12 +2298,6 @@ namespace daw {
 				if( s.empty( ) ) {
 					return npos;
 				}
-				if( pos >= size( ) ) {
-					pos = 0;
-				} else {
-					pos = size( ) - ( pos + 1U );
-				}
-				auto haystack = substr( pos );
 				if constexpr( sizeof( CharT ) == 1 ) {
 					auto needle_array = daw::bitset<256>{ };
 					for( auto const c : s ) {
@@ -2317,10 +2311,10 @@ namespace daw {
 					}
 					return npos;
 				} else {
+					auto const haystack = pos < size( ) ? substr( 0, pos + 1U ) : *this;
 					auto iter = daw::algorithm::find_first_of(
 					  haystack.rbegin( ), haystack.rend( ), s.rbegin( ), s.rend( ) );
-					return iter == haystack.rend( ) ? npos
-					                                : reverse_distance( rbegin( ), iter );
+					return iter == rend( ) ? npos : reverse_distance( rbegin( ), iter );
 				}
 			}
 
-- 
2.43.0


From 9e366f6175261130cdb0c833cd65f8e5e71ff48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 120/311] fix: string_view comparison of characters does not
 overflow

---
 include/daw/daw_string_view.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index b9b0d89..6fe0729 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -294,11 +294,10 @@ namespace daw {
 			[[nodiscard]] constexpr int
 			compare( CharT const *l_ptr, CharT const *r_ptr, std::size_t const sz ) {
 				for( std::size_t n = 0; n < sz; ++n ) {
-					auto const diff = l_ptr[n] - r_ptr[n];
-					if( diff < 0 ) {
+					if( l_ptr[n] < r_ptr[n] ) {
 						return -1;
 					}
-					if( diff > 0 ) {
+					if( r_ptr[n] < l_ptr[n] ) {
 						return 1;
 					}
 				}
-- 
2.43.0


From 636a74a81b0ce15cb01db76338355b80243593fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:36 +0000
Subject: [PATCH 121/311] fix: sv1 string_view clear compiles

---
 include/daw/deprecated/daw_string_view1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_string_view1.h b/include/daw/deprecated/daw_string_view1.h
index 82dd4ac..9587100 100644
--- a/include/daw/deprecated/daw_string_view1.h
+++ b/include/daw/deprecated/daw_string_view1.h
@@ -405,7 +405,7 @@ namespace daw {
 
 			constexpr void clear( ) {
 				m_first = nullptr;
-				m_last = make_last<BoundsType>( nullptr, 0 );
+				m_last = default_last;
 			}
 
 			[[nodiscard]] constexpr CharT pop_front( ) {
-- 
2.43.0


From bb874e5aa646ba6e244269b3dcd7329732afc772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 122/311] fix: parse_to rejects integers that do not fit or
 have no digits

---
 include/daw/daw_parse_to.h | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_parse_to.h b/include/daw/daw_parse_to.h
index 4e5cf14..f9927c2 100644
--- a/include/daw/daw_parse_to.h
+++ b/include/daw/daw_parse_to.h
@@ -42,7 +42,8 @@ namespace daw {
 			namespace helpers {
 				template<typename Result>
 				constexpr Result parse_int( daw::string_view &str ) {
-					intmax_t count = std::numeric_limits<Result>::digits;
+					constexpr Result max_value = std::numeric_limits<Result>::max( );
+					constexpr Result min_value = std::numeric_limits<Result>::min( );
 					Result result = 0;
 					bool is_neg = false;
 					if( '-' == str.front( ) ) {
@@ -53,18 +54,32 @@ namespace daw {
 						is_neg = true;
 						str.remove_prefix( );
 					}
-					while( count > 0 and !str.empty( ) and is_number( str.front( ) ) ) {
-						result *= static_cast<Result>( 10 );
-						result += static_cast<Result>( str.front( ) - '0' );
-						--count;
+					daw::exception::precondition_check<invalid_input_exception>(
+					  !str.empty( ) and is_number( str.front( ) ) );
+
+					while( !str.empty( ) and is_number( str.front( ) ) ) {
+						int const digit = str.front( ) - '0';
+						if( is_neg ) {
+							// accumulate downwards, min_value has no positive counterpart
+							daw::exception::precondition_check<numeric_overflow_exception>(
+							  result > min_value / 10 or
+							  ( result == min_value / 10 and
+							    -static_cast<int>( min_value % 10 ) >= digit ) );
+							result = static_cast<Result>( result * 10 -
+							                              static_cast<Result>( digit ) );
+						} else {
+							daw::exception::precondition_check<numeric_overflow_exception>(
+							  result < max_value / 10 or
+							  ( result == max_value / 10 and
+							    static_cast<int>( max_value % 10 ) >= digit ) );
+							result = static_cast<Result>( result * 10 +
+							                              static_cast<Result>( digit ) );
+						}
 						str.remove_prefix( );
 					}
 
-					daw::exception::precondition_check<numeric_overflow_exception>(
+					daw::exception::precondition_check<invalid_input_exception>(
 					  str.empty( ) );
-					if( is_neg ) {
-						result *= static_cast<Result>( -1 );
-					}
 					return result;
 				}
 
-- 
2.43.0


From 229491469770e3b2be9bb19eae8a95796b12ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:18 +0000
Subject: [PATCH 123/311] fix: parse_to reads empty quoted strings and rejects
 missing closing quotes

---
 include/daw/daw_parse_to.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_parse_to.h b/include/daw/daw_parse_to.h
index f9927c2..7158b71 100644
--- a/include/daw/daw_parse_to.h
+++ b/include/daw/daw_parse_to.h
@@ -140,19 +140,18 @@ namespace daw {
 				struct missing_expected_quotes_exception {};
 
 				daw::exception::precondition_check<input_too_small_exception>(
-				  str.size( ) > 2 );
+				  str.size( ) >= 2 );
 				daw::exception::precondition_check<missing_expected_quotes_exception>(
 				  str.front( ) == '"' );
 
-				str.remove_prefix( );
-				auto const first = str.data( );
 				char last_char = str.pop_front( );
+				auto const first = str.data( );
 				while( not str.empty( ) and
 				       not impl::is_quote( last_char, str.front( ) ) ) {
 					last_char = str.pop_front( );
 				}
 				daw::exception::precondition_check<missing_expected_quotes_exception>(
-				  str.data( ) != nullptr and str.front( ) == '"' );
+				  not str.empty( ) );
 
 				return daw::string_view( first, str.data( ) );
 			}
-- 
2.43.0


From 5a925d5fd391b5788861f80457edb2fdf18b09cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 124/311] fix: from_string reports text with trailing
 characters

---
 include/daw/daw_from_string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_from_string.h b/include/daw/daw_from_string.h
index 12eacef..ed11b5e 100644
--- a/include/daw/daw_from_string.h
+++ b/include/daw/daw_from_string.h
@@ -32,7 +32,7 @@ namespace daw::from_string_trait {
 				str.data( ),
 				str.data_end( ),
 				result );
-			if(fs_r.ec == std::errc( )) {
+			if(fs_r.ec == std::errc( ) and fs_r.ptr == str.data_end( )) {
 				return result;
 			}
 			return std::nullopt;
-- 
2.43.0


From 82f9eb1ef24696c2a623ba62ec5f9fab872b179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 125/311] fix: parse_int and parse_unsigned_int accept every
 representable number and report malformed ones

---
 include/daw/daw_parser_addons.h | 74 +++++++++++++++++++++++----------
 1 file changed, 53 insertions(+), 21 deletions(-)

diff --git a/include/daw/daw_parser_addons.h b/include/daw/daw_parser_addons.h
index 119e8f4..e2b7d84 100644
--- a/include/daw/daw_parser_addons.h
+++ b/include/daw/daw_parser_addons.h
@@ -46,24 +46,56 @@ namespace daw::parser {
 		return static_cast<R>(r);
 	}
 
+	namespace impl {
+		template<typename Result, bool IsNegative, typename ForwardIterator>
+		constexpr Result parse_digits( ForwardIterator first,
+		                               ForwardIterator last ) {
+			constexpr Result limit = IsNegative
+			                           ? std::numeric_limits<Result>::min( )
+			                           : std::numeric_limits<Result>::max( );
+			auto const is_digit = []( auto c ) {
+				return static_cast<decltype( c )>( '0' ) <= c and
+				       c <= static_cast<decltype( c )>( '9' );
+			};
+			Result result = Result{};
+			for(; first != last; ++first) {
+				daw::exception::precondition_check<ParserException>(
+					is_digit( *first ) );
+				auto const digit =
+				  static_cast<int>( *first ) - static_cast<int>( '0' );
+				if constexpr( IsNegative ) {
+					daw::exception::precondition_check<ParserOutOfRangeException>(
+						result > limit / 10 or
+						( result == limit / 10 and
+						  -static_cast<int>( limit % 10 ) >= digit ),
+						"Not enough room to store number" );
+					result = static_cast<Result>( result * 10 -
+					                              static_cast<Result>( digit ) );
+				} else {
+					daw::exception::precondition_check<ParserOutOfRangeException>(
+						result < limit / 10 or
+						( result == limit / 10 and
+						  static_cast<int>( limit % 10 ) >= digit ),
+						"Not enough room to store number" );
+					result = static_cast<Result>( result * 10 +
+					                              static_cast<Result>( digit ) );
+				}
+			}
+			return result;
+		}
+	} // namespace impl
+
 	template<typename ForwardIterator, typename Result>
 	constexpr void parse_unsigned_int( ForwardIterator first,
 	                                   ForwardIterator last, Result &result ) {
 		result = Result{};
-		auto count = std::numeric_limits<Result>::digits10;
+		daw::exception::precondition_check<ParserEmptyException>( first != last );
 
 		daw::exception::precondition_check<ParserOutOfRangeException>(
 			'-' != *first,
 			"Negative values are unsupported" );
 
-		for(; first != last and count > 0; ++first, --count) {
-			result *= Result{10};
-			Result const val = from_num_char<Result>( *first );
-			result += val;
-		}
-		daw::exception::precondition_check<ParserOutOfRangeException>(
-			first == last,
-			"Not enough room to store number" );
+		result = impl::parse_digits<Result, false>( first, last );
 	}
 
 	template<typename Result, typename ForwardIterator>
@@ -89,19 +121,19 @@ namespace daw::parser {
 	template<typename ForwardIterator, typename Result>
 	constexpr void parse_int( ForwardIterator first, ForwardIterator last,
 	                          Result &result ) {
-		bool is_neg = false;
-		if('-' == *first) {
-			daw::exception::precondition_check<ParserOutOfRangeException>(
-				std::numeric_limits<Result>::is_signed,
-				"Negative values are unsupported with unsigned Result" );
-
-			is_neg = true;
-			++first;
-		}
-		result = parse_unsigned_int<Result>( first, last );
-		if(is_neg) {
-			result *= static_cast<Result>(-1);
+		daw::exception::precondition_check<ParserEmptyException>( first != last );
+
+		if('-' != *first) {
+			result = impl::parse_digits<Result, false>( first, last );
+			return;
 		}
+		daw::exception::precondition_check<ParserOutOfRangeException>(
+			std::numeric_limits<Result>::is_signed,
+			"Negative values are unsupported with unsigned Result" );
+
+		++first;
+		daw::exception::precondition_check<ParserEmptyException>( first != last );
+		result = impl::parse_digits<Result, true>( first, last );
 	}
 
 	template<typename Result, typename ForwardIterator>
-- 
2.43.0


From cee1f8266f72399a5daa6bbb491379877adc7e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 126/311] fix: string_join_iterator passes over empty strings
 and string_concat takes a single string

---
 include/daw/daw_string_concat.h | 36 +++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/include/daw/daw_string_concat.h b/include/daw/daw_string_concat.h
index 8a858cc..a377add 100644
--- a/include/daw/daw_string_concat.h
+++ b/include/daw/daw_string_concat.h
@@ -36,6 +36,19 @@ namespace daw::string_concat_impl {
 			return m_idx >= StringCount;
 		}
 
+		// Move to the next string that has characters, or to the end
+		constexpr void skip_finished_strings( ) noexcept {
+			while( m_first == std::data( m_strings[m_idx] ) +
+			                    std::size( m_strings[m_idx] ) ) {
+				++m_idx;
+				if( empty( ) ) {
+					m_first = nullptr;
+					return;
+				}
+				m_first = std::data( m_strings[m_idx] );
+			}
+		}
+
 	public:
 		constexpr string_join_iterator( ) = default;
 
@@ -45,7 +58,9 @@ namespace daw::string_concat_impl {
 		constexpr string_join_iterator( Strings const &...strings )
 		  : m_strings{ std::string_view( strings )... }
 		  , m_first{ std::data( m_strings[0] ) }
-		  , m_idx{ 0 } {}
+		  , m_idx{ 0 } {
+			skip_finished_strings( );
+		}
 
 		constexpr value_type operator*( ) const noexcept {
 			return *m_first;
@@ -57,16 +72,7 @@ namespace daw::string_concat_impl {
 
 		constexpr string_join_iterator &operator++( ) noexcept {
 			++m_first;
-			if( m_first != m_strings[m_idx].end( ) ) {
-				return *this;
-			}
-			++m_idx;
-			if( empty( ) ) {
-				m_first = nullptr;
-				return *this;
-			}
-			auto const &item = m_strings[m_idx];
-			m_first = std::data( item );
+			skip_finished_strings( );
 			return *this;
 		}
 
@@ -133,11 +139,11 @@ namespace daw::string_concat_impl {
 		}
 
 		constexpr bool operator==( string_join_iterator const &rhs ) noexcept {
-			return m_first == rhs.m_first;
+			return m_first == rhs.m_first and m_idx == rhs.m_idx;
 		}
 
 		constexpr bool operator!=( string_join_iterator const &rhs ) noexcept {
-			return m_first != rhs.m_first;
+			return not( *this == rhs );
 		}
 	};
 	template<typename... Strings>
@@ -151,8 +157,8 @@ namespace daw {
 		auto const appender = []( std::string &lhs, auto &&rhs ) {
 			lhs.append( DAW_FWD( rhs ) );
 		};
-		arg.reserve( ( std::size( strings ) + ... ) );
-		(void)( ( appender( arg, DAW_FWD( strings ) ), 0 ) + ... );
+		arg.reserve( ( std::size( arg ) + ... + std::size( strings ) ) );
+		(void)( appender( arg, DAW_FWD( strings ) ), ... );
 		return arg;
 	}
 } // namespace daw
-- 
2.43.0


From 4ca2730e61e42b54121fe65861b77a678ee16648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 127/311] fix: value_in, in and until_values test for
 membership, one_of compiles

---
 include/daw/daw_parser_helper.h | 42 ++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 812b880..144b9e4 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -159,24 +159,7 @@ namespace daw::parser {
 		return is_a( value, tst ) or is_a( value, tsts... );
 	}
 
-	template<typename Arg>
-	class one_of_t {
-		std::vector<Arg> m_args;
 
-	public:
-		one_of_t( std::initializer_list<Arg> args )
-		  : m_args{ args } {}
-
-		template<typename T>
-		[[nodiscard]] bool operator( )( T &&value ) const {
-			return value_in( DAW_FWD( value ), m_args );
-		}
-	}; // one_of
-
-	template<typename... Arg>
-	[[nodiscard]] auto one_of( Arg &&...args ) {
-		return one_of_t<Arg...>{ DAW_FWD( args )... };
-	}
 
 	template<typename ForwardIterator, typename Value, typename... Values>
 	[[nodiscard]] constexpr find_result_t<ForwardIterator>
@@ -200,14 +183,35 @@ namespace daw::parser {
 		return std::find_if( std::begin( container ), std::end( container ),
 		                     [&]( auto const &v ) {
 			                     return is_a( value, v );
-		                     } ) == std::end( container );
+		                     } ) != std::end( container );
 	}
 
 	template<typename T, typename U, size_t N>
 	[[nodiscard]] constexpr bool value_in( T &&value, U ( &container )[N] ) {
 		return std::find_if( container, container + N, [&]( auto const &v ) {
 			       return is_a( value, v );
-		       } ) == std::end( container );
+		       } ) != std::end( container );
+	}
+
+	template<typename Arg>
+	class one_of_t {
+		std::vector<Arg> m_args;
+
+	public:
+		one_of_t( std::initializer_list<Arg> args )
+		  : m_args{ args } {}
+
+		template<typename T>
+		[[nodiscard]] bool operator( )( T &&value ) const {
+			return value_in( DAW_FWD( value ), m_args );
+		}
+	}; // one_of
+
+	template<typename Arg, typename... Args>
+	[[nodiscard]] auto one_of( Arg &&arg, Args &&...args ) {
+		using value_t = daw::traits::root_type_t<Arg>;
+		return one_of_t<value_t>{ static_cast<value_t>( DAW_FWD( arg ) ),
+		                          static_cast<value_t>( DAW_FWD( args ) )... };
 	}
 
 	class in_t {
-- 
2.43.0


From 796c10934a802ef4bd4ea74a4469248e20260afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 128/311] fix: is_true with several predicates and the parser
 assert_equal functions test what they say

---
 include/daw/daw_parser_helper.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 144b9e4..61a6199 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -257,8 +257,12 @@ namespace daw::parser {
 	template<typename T, typename Predicate, typename... Predicates>
 	[[nodiscard]] constexpr bool is_true( T &&value, Predicate &&predicate,
 	                                      Predicates &&...predicates ) {
-		return is_true( DAW_FWD( predicate ), DAW_FWD( value ) ) or
-		       is_true( DAW_FWD( value ), DAW_FWD( predicates )... );
+		if constexpr( sizeof...( Predicates ) == 0 ) {
+			return predicate( value );
+		} else {
+			return predicate( value ) or
+			       is_true( DAW_FWD( value ), DAW_FWD( predicates )... );
+		}
 	}
 
 	template<typename T, typename U, typename... Args>
@@ -320,14 +324,14 @@ namespace daw::parser {
 		static_assert( traits::is_comparable_v<T, U>,
 		               "lhs is not comparable to rhs" );
 
-		daw::exception::precondition_check<ParserException>( lhs == rhs );
+		daw::exception::precondition_check<ParserException>( lhs != rhs );
 	}
 
 	template<typename T, typename U>
 	constexpr void assert_equal( T &&lhs, U &&rhs ) {
 		static_assert( traits::is_comparable_v<T, U>,
 		               "lhs is not comparable to rhs" );
-		daw::exception::precondition_check<ParserException>( lhs != rhs );
+		daw::exception::precondition_check<ParserException>( lhs == rhs );
 	}
 
 	template<typename Iterator>
-- 
2.43.0


From afd76c61c37acd0f1a93de83209d2de5c40e7dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 129/311] fix: split_on and split_if continue after the divider
 they found

---
 include/daw/daw_parser_helper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 61a6199..4b37d2e 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -397,8 +397,8 @@ namespace daw::parser {
 		  until_value( first, last, DAW_FWD( divider ), DAW_FWD( dividers )... );
 		while( result ) {
 			endings.push_back( result.last );
-			result = until_value( result.last, last, DAW_FWD( divider ),
-			                      DAW_FWD( dividers )... );
+			result = until_value( std::next( result.last ), last,
+			                      DAW_FWD( divider ), DAW_FWD( dividers )... );
 		}
 		if( result.first != result.last ) {
 			endings.push_back( result.last );
@@ -416,7 +416,7 @@ namespace daw::parser {
 		auto result = until( first, last, is_divider );
 		while( result ) {
 			endings.push_back( result.last );
-			result = until( result.last, last, is_divider );
+			result = until( std::next( result.last ), last, is_divider );
 		}
 		if( result.first != result.last ) {
 			endings.push_back( result.last );
-- 
2.43.0


From 17446e1c67cf5eb2dca89ff1b2e288ae1ea70a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 130/311] fix: parser trim functions remove all outer
 whitespace and no inner text

---
 include/daw/daw_parser_helper.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 4b37d2e..4d694a5 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -504,7 +504,7 @@ namespace daw::parser {
 		using val_t = daw::traits::root_type_t<decltype( *first )>;
 		auto start = until( first, last, &not_unicode_whitespace<val_t> );
 		if( not start ) {
-			return make_find_result( first, last );
+			return make_find_result( last, last );
 		}
 		return make_find_result( start.last, last );
 	}
@@ -518,9 +518,18 @@ namespace daw::parser {
 		using val_t = daw::traits::root_type_t<decltype( *first )>;
 		auto start = until( first, last, &not_unicode_whitespace<val_t> );
 		if( not start ) {
-			return make_find_result( first, last, false );
+			return make_find_result( first, first, false );
 		}
 		auto finish = until( start.last, last, &is_unicode_whitespace<val_t> );
+		while( finish ) {
+			// Whitespace is only trailing when no text follows it
+			auto const next_text =
+			  until( finish.last, last, &not_unicode_whitespace<val_t> );
+			if( not next_text ) {
+				break;
+			}
+			finish = until( next_text.last, last, &is_unicode_whitespace<val_t> );
+		}
 		return make_find_result( first, finish.last, true );
 	}
 
-- 
2.43.0


From a7bfa3fec11a0d1de3ae2a16c55106834666cd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 131/311] fix: is_crlf matches after other characters,
 find_result_t reports emptiness and converts empty results

---
 include/daw/daw_parser_helper.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 4d694a5..ae029a8 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -51,7 +51,7 @@ namespace daw::parser {
 		[[nodiscard]] constexpr bool empty( bool throw_on_empty ) {
 			daw::exception::precondition_check<ParserEmptyException>(
 			  not( throw_on_empty and empty( ) ) );
-			return false;
+			return empty( );
 		}
 
 		template<typename Container>
@@ -62,6 +62,9 @@ namespace daw::parser {
 		}
 
 		[[nodiscard]] std::string to_string( ) const {
+			if( first == last ) {
+				return { };
+			}
 			return std::string(
 			  static_cast<char const *>( &( *first ) ),
 			  static_cast<std::string::size_type>( std::distance( first, last ) ) );
@@ -580,7 +583,7 @@ namespace daw::parser {
 
 		[[nodiscard]] inline bool operator( )( value_type const &v ) {
 			m_last_values.push_back( std::move( v ) );
-			while( m_last_values.size( ) > 4 ) {
+			while( m_last_values.size( ) > 2 * m_count ) {
 				m_last_values.pop_front( );
 			}
 			return match( );
-- 
2.43.0


From 8f93dfd9d0a934d348b749687be5149dae4e358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 132/311] fix: find_number returns the whole number and
 parse_string_literal stops at an unescaped quote

---
 include/daw/daw_parser_addons.h | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/include/daw/daw_parser_addons.h b/include/daw/daw_parser_addons.h
index e2b7d84..de673a9 100644
--- a/include/daw/daw_parser_addons.h
+++ b/include/daw/daw_parser_addons.h
@@ -14,6 +14,7 @@
 #include "daw_parser_helper.h"
 
 #include <limits>
+#include <utility>
 
 DAW_UNSAFE_BUFFER_FUNC_START
 
@@ -24,18 +25,27 @@ namespace daw::parser {
 			return is_a( '-', v ) or is_number( v );
 		};
 
+		bool is_sign = true;
 		bool has_decimal = false;
-		auto const is_last = [&has_decimal]( auto const &v ) {
+		auto const is_last = [&]( auto const &v ) {
+			// only the first character can be the sign
+			if(std::exchange( is_sign, false ) and is_a( '-', v )) {
+				return false;
+			}
 			if(is_a( '.', v )) {
-				if(has_decimal) {
-					return true;
-				}
-				has_decimal = true;
+				return std::exchange( has_decimal, true );
 			}
-			return is_number( v );
+			return not is_number( v );
 		};
-		auto result = from_to_pred( first, last, is_first, is_last );
-		++result.last;
+		auto const start = until( first, last, is_first );
+		daw::exception::precondition_check<ParserException>( start.found );
+		auto result = make_find_result( start.last, last, true );
+		for( auto it = start.last; it != last; ++it ) {
+			if( is_last( *it ) ) {
+				result.last = it;
+				break;
+			}
+		}
 		return result;
 	}
 
@@ -147,7 +157,9 @@ namespace daw::parser {
 	constexpr auto parse_string_literal( ForwardIterator first,
 	                                     ForwardIterator const last ) {
 		auto result = trim_left( first, last );
-		auto quote_char = *first;
+		daw::exception::precondition_check<ParserEmptyException>(
+			result.first != last );
+		auto quote_char = *result.first;
 
 		daw::exception::precondition_check<ParserException>(
 			is_quote( quote_char ) );
@@ -157,7 +169,8 @@ namespace daw::parser {
 		++it;
 		bool found = false;
 		while(it != last) {
-			if(( found = is_a( *it, quote_char ) ) and !is_escape( *last_it )) {
+			if(is_a( *it, quote_char ) and !is_escape( *last_it )) {
+				found = true;
 				break;
 			}
 			last_it = it;
-- 
2.43.0


From e4d75c5078598322d559ac141446a37e4acf668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 133/311] fix: find_one_iterator starts at its first match and
 can be dereferenced and deduced

---
 include/daw/iterator/daw_find_one_iterator.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/daw/iterator/daw_find_one_iterator.h b/include/daw/iterator/daw_find_one_iterator.h
index 4bab784..707acf0 100644
--- a/include/daw/iterator/daw_find_one_iterator.h
+++ b/include/daw/iterator/daw_find_one_iterator.h
@@ -24,11 +24,11 @@ namespace daw {
 		T value;
 		std::size_t index;
 
-		find_one_element *operator->( ) const && {
+		constexpr find_one_element const *operator->( ) const {
 			return this;
 		}
 
-		find_one_element *operator->( ) && {
+		constexpr find_one_element *operator->( ) {
 			return this;
 		}
 	};
@@ -48,7 +48,7 @@ namespace daw {
 		    std::declval<typename std::iterator_traits<
 		      Iterator>::iterator_category>( ) ) )::type;
 		using reference = value_type;
-		using pointer = find_one_element<reference>;
+		using pointer = value_type;
 
 	private:
 		Iterator m_first = Iterator{ };
@@ -68,13 +68,15 @@ namespace daw {
 			  m_last,
 			  find_iterator_impl::FilterProxy<Filters, std::is_class_v<Filters>>::
 			    filter( )... );
+			m_first = tmp.position;
+			m_last_index = tmp.index;
 		}
 
-		constexpr value_type operator*( ) {
+		constexpr value_type operator*( ) const {
 			return { *m_first, m_last_index };
 		}
 
-		constexpr pointer operator->( ) {
+		constexpr pointer operator->( ) const {
 			return { *m_first, m_last_index };
 		}
 
@@ -124,7 +126,7 @@ namespace daw {
 		}
 	};
 
-	template<typename Iterator, typename IteratorLast, typename Filter>
-	find_one_iterator( Iterator, IteratorLast, Filter )
-	  -> find_one_iterator<Iterator, IteratorLast, Filter>;
+	template<typename Iterator, typename IteratorLast, typename... Filters>
+	find_one_iterator( Iterator, IteratorLast, Filters... )
+	  -> find_one_iterator<Iterator, IteratorLast, Filters...>;
 } // namespace daw
-- 
2.43.0


From e949f9a8be2b4a8d7d5e919dc25766940a6ba127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 134/311] fix: an argument that is a single quote character is
 its own value

---
 include/daw/daw_parse_args.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_parse_args.h b/include/daw/daw_parse_args.h
index 5358385..bb0fac4 100644
--- a/include/daw/daw_parse_args.h
+++ b/include/daw/daw_parse_args.h
@@ -45,7 +45,8 @@ namespace daw {
 				}
 			}
 			// We have an assigned value
-			if( args.starts_with( '"' ) and args.ends_with( '"' ) ) {
+			if( args.size( ) >= 2 and args.starts_with( '"' ) and
+			    args.ends_with( '"' ) ) {
 				args.remove_prefix( 1 );
 				args.remove_suffix( 1 );
 			}
-- 
2.43.0


From b5c7d1a3cbd281f7d70740375d822e6dda371ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 135/311] fix: span_writer subspan compiles

---
 include/daw/daw_span_writer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_span_writer.h b/include/daw/daw_span_writer.h
index 6a41afb..426e3ce 100644
--- a/include/daw/daw_span_writer.h
+++ b/include/daw/daw_span_writer.h
@@ -156,8 +156,9 @@ namespace daw {
 
 		constexpr span_writer subspan( std::size_t n ) const {
 			daw_ensure( n <= m_size );
-			return span_writer{ .m_first = m_first + static_cast<std::ptrdiff_t>( n ),
-			                    .m_size = m_size - n };
+			auto result = *this;
+			result.remove_prefix_unsafe( n );
+			return result;
 		}
 
 		constexpr span_writer &remove_prefix( std::size_t n ) {
-- 
2.43.0


From 70e5a400d09a1b2c5ec38482a03fb90d6dca5d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 136/311] fix: string trim_left of only delimiters is empty and
 ends_with compares the whole ending

---
 include/daw/deprecated/daw_string.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/daw/deprecated/daw_string.h b/include/daw/deprecated/daw_string.h
index e7ca742..e620e60 100644
--- a/include/daw/deprecated/daw_string.h
+++ b/include/daw/deprecated/daw_string.h
@@ -217,8 +217,9 @@ namespace daw::string {
 
 		bool operator( )( StringType const &src,
 		                  StringType const &ending ) const noexcept {
-			auto pos = src.find_last_of( ending );
-			return string_details::string_t::npos != pos and pos == src.size( ) - 1;
+			return src.size( ) >= ending.size( ) and
+			       src.compare( src.size( ) - ending.size( ), ending.size( ),
+			                    ending ) == 0;
 		}
 	};
 
@@ -319,10 +320,9 @@ namespace daw::string {
 	  std::basic_string<CharT, Traits, Allocator> const &str,
 	  std::basic_string<CharT, Traits, Allocator> const &delimiters =
 	    string_details::standard_split_delimiters( CharT{ } ) ) {
-		if( str.empty( ) ) {
-			return str;
-		}
-		return str.substr( str.find_first_not_of( delimiters ) );
+		auto result = str;
+		result.erase( 0, str.find_first_not_of( delimiters ) );
+		return result;
 	}
 
 	template<typename CharT = char,
@@ -332,10 +332,7 @@ namespace daw::string {
 	trim_left( std::basic_string<CharT, Traits, Allocator> &str,
 	           std::basic_string<CharT, Traits, Allocator> const &delimiters =
 	             string_details::standard_split_delimiters( CharT{ } ) ) {
-		if( str.empty( ) ) {
-			return;
-		}
-		str = str.substr( str.find_first_not_of( delimiters ) );
+		str.erase( 0, str.find_first_not_of( delimiters ) );
 	}
 
 	template<class StringElementType, class StringType>
-- 
2.43.0


From 707e0613ffaa7e5c113e4f11d47cb8d7cf841b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 137/311] fix: find_iterator takes function pointers

---
 include/daw/iterator/impl/daw_find_iterator_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/iterator/impl/daw_find_iterator_impl.h b/include/daw/iterator/impl/daw_find_iterator_impl.h
index f310527..dd06e41 100644
--- a/include/daw/iterator/impl/daw_find_iterator_impl.h
+++ b/include/daw/iterator/impl/daw_find_iterator_impl.h
@@ -38,6 +38,9 @@ namespace daw::find_iterator_impl {
 
 	template<typename Filter>
 	struct FilterProxy<Filter, false> {
+		explicit constexpr FilterProxy( Filter filt )
+		  : m_filter( filt ) {}
+
 	protected:
 		Filter m_filter;
 
-- 
2.43.0


From c6cbce4ed3f00193d2c3ba1d58efa39d2cba2fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:23 +0000
Subject: [PATCH 138/311] fix: bitcount counts set bits

---
 include/daw/daw_utility.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index 4f1992f..adeb2df 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -408,9 +408,10 @@ namespace daw {
 	template<typename Value>
 	[[nodiscard]] constexpr std::size_t bitcount( Value value ) noexcept {
 		size_t result = 0;
-		while( value ) {
-			result += static_cast<size_t>( value & ~static_cast<Value>( 0b1 ) );
-			value >>= 1;
+		auto bits = static_cast<std::make_unsigned_t<Value>>( value );
+		while( bits ) {
+			result += static_cast<size_t>( bits & 1U );
+			bits >>= 1;
 		}
 		return result;
 	}
-- 
2.43.0


From 71800e998249327623e71aaed1a858ce43c8deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:23 +0000
Subject: [PATCH 139/311] fix: hex of objects writes two digits per byte and
 reads its input range

---
 include/daw/daw_utility.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index adeb2df..520460b 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -524,7 +524,6 @@ namespace daw {
 		auto chr_ptr = reinterpret_cast<char const *>( &val );
 		for( std::size_t n = 0; n < sizeof( T ); ++n ) {
 			it_out = hex( *chr_ptr, it_out );
-			++it_out;
 			++chr_ptr;
 		}
 		return it_out;
@@ -570,7 +569,7 @@ namespace daw {
 	                                  ForwardIterator2 const last_in,
 	                                  OutputIterator first_out ) noexcept {
 		for( ; first_in != last_in; ++first_in ) {
-			first_out = hex( *first_out, first_out );
+			first_out = hex( *first_in, first_out );
 		}
 		return first_out;
 	}
-- 
2.43.0


From bcfc0619c59924fde17bc541faac579c8f9046d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:23 +0000
Subject: [PATCH 140/311] fix: network_to_host_endian and to_native_endian swap
 when the orders differ

---
 include/daw/daw_endian.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_endian.h b/include/daw/daw_endian.h
index fa60fb6..1af1b26 100644
--- a/include/daw/daw_endian.h
+++ b/include/daw/daw_endian.h
@@ -132,11 +132,7 @@ namespace daw {
 	template<typename T,
 	         std::enable_if_t<daw::is_integral_v<T>, std::nullptr_t> = nullptr>
 	constexpr T network_to_host_endian( T value ) noexcept {
-		if constexpr( endian::native == endian::big ) {
-			return value;
-		} else {
-			return to_little_endian( value );
-		}
+		return to_big_endian( value );
 	}
 
 	template<endian SourceEndian, typename T,
@@ -144,10 +140,8 @@ namespace daw {
 	constexpr T to_native_endian( T value ) noexcept {
 		if constexpr( SourceEndian == endian::native ) {
 			return value;
-		} else if constexpr( endian::native == endian::little ) {
-			return to_little_endian( value );
 		} else {
-			return to_big_endian( value );
+			return endian_details::swap_bytes( value, daw::constant<sizeof( T )>{ } );
 		}
 	}
 } // namespace daw
-- 
2.43.0


From 53190879f8aa710dd8e810ea2cc803f7aaa6b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:23 +0000
Subject: [PATCH 141/311] fix: find_all_where returns the matching positions

---
 include/daw/daw_utility.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index 520460b..48f10e8 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -285,7 +285,11 @@ namespace daw {
 	[[nodiscard]] std::vector<Iterator1>
 	find_all_where( Iterator1 first, Iterator2 const last, Pred predicate ) {
 		std::vector<Iterator1> results{ };
-		std::copy_if( first, last, std::back_inserter( results ), predicate );
+		for( ; first != last; ++first ) {
+			if( predicate( *first ) ) {
+				results.push_back( first );
+			}
+		}
 		return results;
 	}
 
-- 
2.43.0


From 6b50036df2b9a91183b9d2f48a0ed3326374ffa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 142/311] fix: popcount counts only the bits of its argument
 type

---
 include/daw/daw_cxmath.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index b500135..1dd68de 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1305,8 +1305,11 @@ namespace daw::cxmath {
 	DAW_ATTRIB_INLINE auto constexpr popcount( Integer i ) {
 		static_assert( std::is_integral_v<Integer>,
 		               "Only integer types are allowed" );
-		if constexpr( sizeof( Integer ) <= sizeof( int ) ) {
-			return __builtin_popcount( static_cast<unsigned>( i ) );
+		if constexpr( std::is_same_v<Integer, bool> ) {
+			return static_cast<int>( i );
+		} else if constexpr( sizeof( Integer ) <= sizeof( int ) ) {
+			return __builtin_popcount(
+			  static_cast<daw::make_unsigned_t<Integer>>( i ) );
 		} else if constexpr( sizeof( Integer ) == sizeof( long ) ) {
 			return __builtin_popcountl( static_cast<unsigned long>( i ) );
 #if defined( DAW_HAS_INT128 )
@@ -1327,8 +1330,11 @@ namespace daw::cxmath {
 	template<typename Integer>
 	DAW_ATTRIB_INLINE int constexpr popcount( Integer i ) {
 		auto ui = [i] {
-			if constexpr( sizeof( Integer ) <= sizeof( int ) ) {
+			if constexpr( std::is_same_v<Integer, bool> ) {
 				return static_cast<unsigned>( i );
+			} else if constexpr( sizeof( Integer ) <= sizeof( int ) ) {
+				return static_cast<unsigned>(
+				  static_cast<daw::make_unsigned_t<Integer>>( i ) );
 			} else if constexpr( sizeof( Integer ) == sizeof( long ) ) {
 				return static_cast<unsigned long>( i );
 #if defined( DAW_HAS_INT128 )
-- 
2.43.0


From ecda08d598c0c5024db35d89276e066a70c3e6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 143/311] fix: is_even is true for even numbers

---
 include/daw/daw_cxmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 1dd68de..0f17b4c 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1022,7 +1022,7 @@ namespace daw::cxmath {
 	                                            std::nullptr_t> = nullptr>
 	[[nodiscard]] inline constexpr bool is_even( Integer i ) noexcept {
 		return ( std::make_unsigned_t<daw::remove_cvref_t<Integer>>( i ) & 1U ) ==
-		       1U;
+		       0U;
 	}
 
 	template<typename Real, std::enable_if_t<std::is_floating_point_v<Real>,
-- 
2.43.0


From 14b1439fdcb35f5c9710b13d1b766e68162dc0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 144/311] fix: 128 bit count_leading_zeros counts both halves

---
 include/daw/daw_cxmath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 0f17b4c..81f2b56 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -550,9 +550,9 @@ namespace daw::cxmath {
 			return 128U;
 		}
 		auto const h =
-		  count_leading_zeros( static_cast<std::uint64_t>( v >> 64ULL ) );
+		  count_leading_zeroes( static_cast<std::uint64_t>( v >> 64ULL ) );
 		if( h == 64U ) {
-			return count_leading_zeros( static_cast<std::uint64_t>( v ) );
+			return 64U + count_leading_zeroes( static_cast<std::uint64_t>( v ) );
 		}
 		return h;
 	}
-- 
2.43.0


From 9021e53c0cc1b06a4b31eda62316b2cacd1203d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 145/311] fix: count_trailing_zeros_cx32 does not negate the
 lowest int

---
 include/daw/daw_cxmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 81f2b56..bad9db9 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -575,7 +575,7 @@ namespace daw::cxmath {
 				return 32U;
 			}
 			std::uint32_t c = 32U;
-			v &= static_cast<std::uint32_t>( -static_cast<std::int32_t>( v ) );
+			v &= ~v + 1U;
 			if( v ) {
 				c--;
 			}
-- 
2.43.0


From e35b7e25858687c871e231e762a23fbbb2fdba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 146/311] fix: pow accepts negative exponents for unsigned
 bases

---
 include/daw/daw_cxmath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index bad9db9..b61a1a0 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -712,11 +712,11 @@ namespace daw::cxmath {
 	                                           std::nullptr_t> = nullptr>
 	[[nodiscard]] constexpr Number pow( Number b, int32_t exp ) noexcept {
 		auto result = Number{ 1 };
-		while( exp < Number{ 0 } ) {
+		while( exp < 0 ) {
 			result /= b;
 			++exp;
 		}
-		while( exp > Number{ 0 } ) {
+		while( exp > 0 ) {
 			result *= b;
 			--exp;
 		}
-- 
2.43.0


From ae70b35b84911ab22d111c30e66c8415f547a94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 147/311] fix: setting an exponent of zero keeps the sign and
 significand

---
 include/daw/daw_cxmath.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index b61a1a0..bfc96d7 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -185,9 +185,6 @@ namespace daw::cxmath {
 		  std::enable_if_t<is_matching_v<Real, UInt>, std::nullptr_t> = nullptr>
 		[[nodiscard]] inline constexpr UInt set_exponent_impl( UInt dint,
 		                                                       std::int32_t exp ) {
-			if( exp == 0 ) {
-				return DAW_BIT_CAST( UInt, Real{ 1.0 } );
-			}
 			exp += exponent_bias_v<Real>;
 			UInt new_exp = static_cast<UInt>( exp ) << exponent_start_bit_v<Real>;
 			dint &= not_exponent_mask_v<Real>;
-- 
2.43.0


From b53e68b3bf1afb1fda20c326fa9b8c8bb7c85e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 148/311] fix: pow2 of the smallest exponents

---
 include/daw/daw_cxmath.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index bfc96d7..3f922e4 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -777,8 +777,17 @@ namespace daw::cxmath {
 #if defined( DAW_CX_BIT_CAST )
 		if( exp >= daw::numeric_limits<Real>::max_exponent ) {
 			return daw::numeric_limits<Real>::infinity( );
-		} else if( exp <= daw::numeric_limits<Real>::min_exponent ) {
-			return Real{ 0 };
+		} else if( exp < daw::numeric_limits<Real>::min_exponent - 1 ) {
+			// subnormal or smaller
+			using UInt = cxmath_impl::unsigned_float_type_t<Real>;
+			constexpr std::int32_t lowest_exp =
+			  daw::numeric_limits<Real>::min_exponent -
+			  daw::numeric_limits<Real>::digits;
+			if( exp < lowest_exp ) {
+				return Real{ 0 };
+			}
+			return DAW_BIT_CAST( Real,
+			                     UInt{ 1 } << static_cast<UInt>( exp - lowest_exp ) );
 		}
 		auto result = cxmath_impl::set_exponent_impl<Real>(
 		  cxmath_impl::unsigned_float_type_t<Real>{ 0 }, exp );
-- 
2.43.0


From 4209fb1dac1257252b9d1eb1d1b3dbb0e4776869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 149/311] fix: ldexp scales correctly for every exponent

---
 include/daw/daw_cxmath.h | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 3f922e4..1745814 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -991,13 +991,22 @@ namespace daw::cxmath {
 #if defined( DAW_CX_BIT_CAST )
 	[[nodiscard]] constexpr double ldexp( double d,
 	                                      std::int32_t exponent ) noexcept {
-		daw::UInt64 dint = DAW_BIT_CAST( daw::UInt64, 2.0 );
-		exponent += 1023;
-		daw::UInt64 new_exp = static_cast<daw::UInt64>( exponent );
-		constexpr daw::UInt64 remove_mask{ ~0x7FF0'0000'0000'0000ULL };
-		double result =
-		  DAW_BIT_CAST( double, ( dint & remove_mask ) | ( new_exp << 52U ) );
-		return d * result;
+		// Scale in steps that are normal numbers.  The downward steps keep the
+		// intermediate results normal so that only the last one rounds
+		for( int n = 0; n < 2 and exponent > 1023; ++n ) {
+			d *= 0x1p1023;
+			exponent -= 1023;
+		}
+		for( int n = 0; n < 2 and exponent < -1022; ++n ) {
+			d *= 0x1p-969;
+			exponent += 969;
+		}
+		if( exponent > 1023 ) {
+			exponent = 1023;
+		} else if( exponent < -1022 ) {
+			exponent = -1022;
+		}
+		return d * pow2<double>( exponent );
 	}
 #endif
 
-- 
2.43.0


From c71b35ba878e5b1f3c4e4ae476ba2a4184fd8189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 150/311] fix: power tables cover their whole exponent range

---
 include/daw/daw_cxmath.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 1745814..4774cfe 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -360,8 +360,8 @@ namespace daw::cxmath {
 		[[nodiscard]] constexpr auto calc_pow2s( ) noexcept {
 			intmax_t const min_e = daw::numeric_limits<Float>::min_exponent10;
 			intmax_t const max_e = daw::numeric_limits<Float>::max_exponent10;
-			std::array<Float, max_e - min_e> result{ };
-			intmax_t n = max_e - min_e;
+			std::array<Float, max_e - min_e + 1> result{ };
+			intmax_t n = max_e - min_e + 1;
 			while( n-- > 0 ) {
 				result[static_cast<size_t>( n )] = pow2_impl2<Float>( n + min_e );
 			}
@@ -372,8 +372,8 @@ namespace daw::cxmath {
 		[[nodiscard]] constexpr auto calc_fpow10s( ) noexcept {
 			intmax_t const min_e = daw::numeric_limits<Float>::min_exponent10;
 			intmax_t const max_e = daw::numeric_limits<Float>::max_exponent10;
-			std::array<Float, max_e - min_e> result{ };
-			intmax_t n = max_e - min_e;
+			std::array<Float, max_e - min_e + 1> result{ };
+			intmax_t n = max_e - min_e + 1;
 			while( n-- > 0 ) {
 				result[static_cast<size_t>( n )] = fpow10_impl2<Float>( n + min_e );
 			}
@@ -382,8 +382,8 @@ namespace daw::cxmath {
 
 		template<typename Integer>
 		[[nodiscard]] constexpr auto calc_pow10s( ) noexcept {
-			std::array<Integer, daw::numeric_limits<Integer>::digits10> result{ };
-			intmax_t n = daw::numeric_limits<Integer>::digits10;
+			std::array<Integer, daw::numeric_limits<Integer>::digits10 + 1> result{ };
+			intmax_t n = daw::numeric_limits<Integer>::digits10 + 1;
 			while( n-- > 0 ) {
 				result[static_cast<size_t>( n )] = pow10_impl2<Integer>( n );
 			}
@@ -397,7 +397,7 @@ namespace daw::cxmath {
 		public:
 			template<typename Result = Float>
 			[[nodiscard]] static constexpr Result get( intmax_t pos ) noexcept {
-				auto const zero = static_cast<intmax_t>( m_tbl.size( ) / 2ULL );
+				intmax_t const zero = -daw::numeric_limits<Float>::min_exponent10;
 				return static_cast<Result>( m_tbl[static_cast<size_t>( zero + pos )] );
 			}
 		};
@@ -409,7 +409,7 @@ namespace daw::cxmath {
 		public:
 			template<typename Result = Float>
 			[[nodiscard]] static constexpr Result get( intmax_t pos ) noexcept {
-				auto const zero = static_cast<intmax_t>( m_tbl.size( ) / 2ULL );
+				intmax_t const zero = -daw::numeric_limits<Float>::min_exponent10;
 				return static_cast<Result>( m_tbl[static_cast<size_t>( zero + pos )] );
 			}
 		};
@@ -1011,7 +1011,7 @@ namespace daw::cxmath {
 #endif
 
 	[[nodiscard]] constexpr double dpow2( int32_t exp ) noexcept {
-		return cxmath_impl::pow2_t<double>::get( exp );
+		return pow2<double>( exp );
 	}
 
 	[[nodiscard]] constexpr float fpow10( int32_t exp ) noexcept {
-- 
2.43.0


From d990a23c0faef0c02c172f0b00fc16e2d4c75cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 151/311] fix: adjust_exponent compiles

---
 include/daw/daw_cxmath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 4774cfe..a38cc54 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1067,7 +1067,7 @@ namespace daw::cxmath {
 		template<
 		  typename Real, typename UInt,
 		  std::enable_if_t<is_matching_v<Real, UInt>, std::nullptr_t> = nullptr>
-		constexpr Real adjust_exponent_impl( UInt u, std::int32_t exponent ) {
+		constexpr UInt adjust_exponent_impl( UInt u, std::int32_t exponent ) {
 			auto current_expoent = get_exponent_impl<Real>( u );
 			current_expoent += exponent;
 			return set_exponent_impl<Real>( u, current_expoent );
@@ -1076,7 +1076,7 @@ namespace daw::cxmath {
 	template<typename Real, std::enable_if_t<std::is_floating_point_v<Real>,
 	                                         std::nullptr_t> = nullptr>
 	constexpr Real adjust_exponent( Real r, std::int32_t exponent ) {
-		auto result = cxmath_impl::adjust_exponent_impl(
+		auto result = cxmath_impl::adjust_exponent_impl<Real>(
 		  DAW_BIT_CAST( cxmath_impl::unsigned_float_type_t<Real>, r ), exponent );
 		return DAW_BIT_CAST( Real, result );
 	}
-- 
2.43.0


From 18c0b16869d1e12682997edce6abe54b78b67299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 152/311] fix: copy_sign of integers compiles

---
 include/daw/daw_cxmath.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index a38cc54..0ade56e 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1157,7 +1157,8 @@ namespace daw::cxmath {
 	         std::enable_if_t<
 	           ( (daw::is_integral_v<Number> and daw::is_integral_v<Number2>) or
 	             not( std::is_floating_point_v<Number> and
-	                  std::is_floating_point_v<Number2> ) )> = nullptr
+	                  std::is_floating_point_v<Number2> ) ),
+	           std::nullptr_t> = nullptr
 #endif
 	         >
 	[[nodiscard]] constexpr Number copy_sign( Number x, Number2 s ) noexcept {
-- 
2.43.0


From 2d281e7f7f21d1772bb04a62097a6252a8e8c7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 153/311] fix: sqrt of negative, subnormal and negative zero
 arguments

---
 include/daw/daw_cxmath.h | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 0ade56e..4962906 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1124,17 +1124,19 @@ namespace daw::cxmath {
 	                                         std::nullptr_t> = nullptr>
 	[[nodiscard]] constexpr Real sqrt( Real r ) {
 #if defined( DAW_CX_BIT_CAST )
-		switch( fp_classify( r ) ) {
-		case fp_classes::zero:
-			return Real{ 0 };
-		case fp_classes::nan:
+		auto const fp_class = fp_classify( r );
+		if( fp_class == fp_classes::zero ) {
+			return r;
+		}
+		if( fp_class == fp_classes::nan or r < Real{ 0 } ) {
 			return std::numeric_limits<Real>::quiet_NaN( );
-		case fp_classes::infinity:
-			return std::numeric_limits<Real>::infinity( );
-		case fp_classes::subnormal:
-		case fp_classes::normal:
-		default:
-			break;
+		}
+		if( fp_class == fp_classes::infinity ) {
+			return r;
+		}
+		if( fp_class == fp_classes::subnormal ) {
+			// scale into the normal range by an even power of two
+			return sqrt_fast( r * pow2<Real>( 64 ) ) * pow2<Real>( -32 );
 		}
 		return sqrt_fast( r );
 #else
-- 
2.43.0


From 9ec6492843ebf1939364e1c9a38a9371b027030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 154/311] fix: signbit reads the sign of zeros and NaNs

---
 include/daw/daw_cxmath.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 4962906..717abce 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1194,7 +1194,17 @@ namespace daw::cxmath {
 	template<typename Number,
 	         daw::enable_when_t<std::is_signed_v<Number>> = nullptr>
 	[[nodiscard]] constexpr bool signbit( Number n ) noexcept {
-		return n < 0;
+#if defined( DAW_CX_BIT_CAST )
+		if constexpr( std::is_same_v<Number, float> or
+		              std::is_same_v<Number, double> ) {
+			using UInt = cxmath_impl::unsigned_float_type_t<Number>;
+			return cxmath_impl::get_sign_raw_impl<Number>( DAW_BIT_CAST( UInt, n ) ) !=
+			       UInt{ 0 };
+		} else
+#endif
+		{
+			return n < 0;
+		}
 	}
 
 	template<typename Number,
-- 
2.43.0


From 10defb496bd2c2c976cb995d0019bd74ccfcdc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 155/311] fix: round, floor and ceil of negative and integral
 values

---
 include/daw/daw_math.h | 44 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index b2ca9b4..1535400 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -48,7 +48,15 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<float>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d + 0.5 );
+		auto const result = static_cast<Result>( d );
+		auto const diff = d - static_cast<float>( result );
+		if( diff >= float{ 0.5 } ) {
+			return static_cast<Result>( result + 1 );
+		}
+		if( diff <= float{ -0.5 } ) {
+			return static_cast<Result>( result - 1 );
+		}
+		return result;
 	}
 
 	template<typename Result = int_for_float_t<double>>
@@ -56,7 +64,15 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<double>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d + 0.5 );
+		auto const result = static_cast<Result>( d );
+		auto const diff = d - static_cast<double>( result );
+		if( diff >= double{ 0.5 } ) {
+			return static_cast<Result>( result + 1 );
+		}
+		if( diff <= double{ -0.5 } ) {
+			return static_cast<Result>( result - 1 );
+		}
+		return result;
 	}
 
 	template<typename Result = int_for_float_t<float>>
@@ -64,7 +80,11 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<float>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d );
+		auto const result = static_cast<Result>( d );
+		if( static_cast<float>( result ) > d ) {
+			return static_cast<Result>( result - 1 );
+		}
+		return result;
 	}
 
 	template<typename Result = int_for_float_t<double>>
@@ -72,7 +92,11 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<double>,
 		               "Argument must be a doubleing point type" );
-		return static_cast<Result>( d );
+		auto const result = static_cast<Result>( d );
+		if( static_cast<double>( result ) > d ) {
+			return static_cast<Result>( result - 1 );
+		}
+		return result;
 	}
 
 	template<typename Result = int_for_float_t<float>>
@@ -80,7 +104,11 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<float>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d + 1.0 );
+		auto const result = static_cast<Result>( d );
+		if( static_cast<float>( result ) < d ) {
+			return static_cast<Result>( result + 1 );
+		}
+		return result;
 	}
 
 	template<typename Result = int_for_float_t<double>>
@@ -88,7 +116,11 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<double>,
 		               "Argument must be a doubleing point type" );
-		return static_cast<Result>( d + 1.0 );
+		auto const result = static_cast<Result>( d );
+		if( static_cast<double>( result ) < d ) {
+			return static_cast<Result>( result + 1 );
+		}
+		return result;
 	}
 
 	template<typename T>
-- 
2.43.0


From d9213f457b689e77297f740ecf58e475229b4ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 156/311] fix: abs of the lowest value and of unsigned lvalues

---
 include/daw/daw_math.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index 1535400..72efcc7 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -178,7 +178,7 @@ namespace daw::math {
 			return pow2<Result>( bsizeof<intmax_t> - 1 );
 		}
 		if( v < 0 ) {
-			v = -v;
+			return static_cast<Result>( -static_cast<intmax_t>( v ) );
 		}
 		return static_cast<Result>( v );
 	}
@@ -187,8 +187,8 @@ namespace daw::math {
 	         std::enable_if_t<all_true_v<std::is_integral_v<UnsignedInteger>,
 	                                     not std::is_signed_v<UnsignedInteger>>,
 	                          std::nullptr_t> = nullptr>
-	[[nodiscard]] constexpr UnsignedInteger abs( UnsignedInteger &&v ) noexcept {
-		return DAW_FWD( v );
+	[[nodiscard]] constexpr UnsignedInteger abs( UnsignedInteger v ) noexcept {
+		return v;
 	}
 
 	template<typename T>
-- 
2.43.0


From c8c3014fa6a06b5c9f66ec62c7803abd564d2bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 157/311] fix: pow raises to the exponent

---
 include/daw/daw_math.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index 72efcc7..8ddc174 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -204,17 +204,18 @@ namespace daw::math {
 	namespace impl {
 		template<typename T>
 		[[nodiscard]] constexpr T pow_impl( T base, size_t exponent ) noexcept {
-			for( size_t k = 0; k < exponent; ++k ) {
-				base *= base;
+			T result = base;
+			for( size_t k = 1; k < exponent; ++k ) {
+				result *= base;
 			}
-			return base;
+			return result;
 		}
 
 	} // namespace impl
 
 	template<typename T>
 	[[nodiscard]] constexpr T pow( T base, size_t exponent ) noexcept {
-		return base == 0 ? 0 : exponent > 0 ? impl::pow_impl( base, exponent ) : 1;
+		return exponent > 0 ? impl::pow_impl( base, exponent ) : T{ 1 };
 	}
 
 	namespace impl {
-- 
2.43.0


From c996d63165104853d10daa62abdb88658f9fa9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 158/311] fix: nearly_equal next to zero

---
 include/daw/daw_math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index 8ddc174..0f37939 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -308,10 +308,10 @@ namespace daw::math {
 		if( a == b ) { // shortcut, handles infinities
 			return true;
 		}
-		if( a == 0 or b == 0 or diff < std::numeric_limits<T>::min_exponent ) {
+		if( a == 0 or b == 0 or diff < (std::numeric_limits<T>::min)( ) ) {
 			// a or b is zero or both are extremely close to it
 			// 			// relative error is less meaningful here
-			return diff < ( epsilon * std::numeric_limits<T>::min_exponent );
+			return diff < ( epsilon * (std::numeric_limits<T>::min)( ) );
 		}
 		// use relative error
 		return diff / (daw::min)(( absA + absB ), max_value<T>) < epsilon;
-- 
2.43.0


From f9bfccbf9e6b0efdb73f2ad0841ed048777caebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 159/311] fix: natural_t arithmetic between different types

---
 include/daw/daw_natural.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index 6d0a803..2e58347 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -61,7 +61,7 @@ namespace daw {
 		constexpr natural_t &operator+=( natural_t<U> const &rhs ) noexcept {
 			static_assert( daw::traits::has_addition_operator_v<T>,
 			               "Addition operator is not valid" );
-			m_value += rhs.m_value;
+			m_value += rhs.value( );
 			return *this;
 		}
 
@@ -69,7 +69,7 @@ namespace daw {
 		constexpr natural_t &operator-=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_subtraction_operator_v<T>,
 			               "Subtraction operator is not valid" );
-			m_value = validate( m_value - rhs.m_value );
+			m_value = validate( m_value - rhs.value( ) );
 			return *this;
 		}
 
@@ -77,7 +77,7 @@ namespace daw {
 		constexpr natural_t &operator*=( natural_t<U> const &rhs ) noexcept {
 			static_assert( daw::traits::has_multiplication_operator_v<T>,
 			               "Multiplication operator is not valid" );
-			m_value *= rhs.m_value;
+			m_value *= rhs.value( );
 			return *this;
 		}
 
@@ -85,7 +85,7 @@ namespace daw {
 		constexpr natural_t &operator/=( natural_t<U> const &rhs ) noexcept {
 			static_assert( daw::traits::has_division_operator_v<T>,
 			               "Division operator is not valid" );
-			m_value /= rhs.m_value;
+			m_value /= rhs.value( );
 			return *this;
 		}
 
@@ -93,7 +93,7 @@ namespace daw {
 		constexpr natural_t &operator%=( natural_t<U> const &rhs ) noexcept {
 			static_assert( daw::traits::has_modulus_operator_v<T>,
 			               "Modulus operator is not valid" );
-			m_value %= rhs.m_value;
+			m_value %= rhs.value( );
 			return *this;
 		}
 
-- 
2.43.0


From af4901c6ffa2357b7a3be288c3322995d3ecb467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 160/311] fix: natural_t operators with promoted result types
 compile

---
 include/daw/daw_natural.h | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index 2e58347..52efe5a 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -133,9 +133,8 @@ namespace daw {
 			static_assert( daw::traits::has_addition_operator_v<T, U>,
 			               "Addition operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) + std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) + static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) +
+			                            static_cast<U>( rhs ) };
 		}
 
 		template<typename U>
@@ -154,9 +153,8 @@ namespace daw {
 			static_assert( daw::traits::has_multiplication_operator_v<T, U>,
 			               "Multiplication operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) * std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) * static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) *
+			                            static_cast<U>( rhs ) };
 		}
 
 		template<typename U>
@@ -165,9 +163,8 @@ namespace daw {
 			static_assert( daw::traits::has_division_operator_v<T, U>,
 			               "Division operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) / std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) / static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) /
+			                            static_cast<U>( rhs ) };
 		}
 
 		template<typename U>
@@ -176,9 +173,8 @@ namespace daw {
 			static_assert( daw::traits::has_modulus_operator_v<T, U>,
 			               "Modulus operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) % std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) % static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) %
+			                            static_cast<U>( rhs ) };
 		}
 	};
 
-- 
2.43.0


From c47624a3adecf22e8d282ac48d37a63bc9fc2445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 161/311] fix: division and modulus report results that are not
 natural numbers

---
 include/daw/daw_natural.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index 52efe5a..12dd2df 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -82,18 +82,18 @@ namespace daw {
 		}
 
 		template<typename U>
-		constexpr natural_t &operator/=( natural_t<U> const &rhs ) noexcept {
+		constexpr natural_t &operator/=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_division_operator_v<T>,
 			               "Division operator is not valid" );
-			m_value /= rhs.value( );
+			m_value = static_cast<T>( validate( m_value / rhs.value( ) ) );
 			return *this;
 		}
 
 		template<typename U>
-		constexpr natural_t &operator%=( natural_t<U> const &rhs ) noexcept {
+		constexpr natural_t &operator%=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_modulus_operator_v<T>,
 			               "Modulus operator is not valid" );
-			m_value %= rhs.value( );
+			m_value = static_cast<T>( validate( m_value % rhs.value( ) ) );
 			return *this;
 		}
 
@@ -159,7 +159,7 @@ namespace daw {
 
 		template<typename U>
 		friend constexpr auto operator/( natural_t const &lhs,
-		                                 natural_t<U> const &rhs ) noexcept {
+		                                 natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_division_operator_v<T, U>,
 			               "Division operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) / std::declval<U>( ) );
@@ -169,7 +169,7 @@ namespace daw {
 
 		template<typename U>
 		friend constexpr auto operator%( natural_t const &lhs,
-		                                 natural_t<U> const &rhs ) noexcept {
+		                                 natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_modulus_operator_v<T, U>,
 			               "Modulus operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) % std::declval<U>( ) );
-- 
2.43.0


From 93efc4cceb9651307eb5d04151424bf136acf76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 162/311] fix: unsigned subtraction reports results below one

---
 include/daw/daw_natural.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index 12dd2df..9800477 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -69,7 +69,9 @@ namespace daw {
 		constexpr natural_t &operator-=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_subtraction_operator_v<T>,
 			               "Subtraction operator is not valid" );
-			m_value = validate( m_value - rhs.value( ) );
+			daw::exception::precondition_check<invalid_natural_number>(
+			  m_value > rhs.value( ) );
+			m_value -= rhs.value( );
 			return *this;
 		}
 
@@ -143,6 +145,8 @@ namespace daw {
 			static_assert( daw::traits::has_subtraction_operator_v<T, U>,
 			               "Subtraction operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) - std::declval<U>( ) );
+			daw::exception::precondition_check<invalid_natural_number>(
+			  static_cast<T>( lhs ) > static_cast<U>( rhs ) );
 			return natural_t<result_t>{ static_cast<T>( lhs ) -
 			                            static_cast<U>( rhs ) };
 		}
-- 
2.43.0


From 59e0c04b3bc100f6ac183c989bc13ee7f1b80eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:44 +0000
Subject: [PATCH 163/311] fix: uint8_t operators with a UInt8 right side do not
 take UInt64

---
 include/daw/daw_uint_types.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index 6b17df0..14891c5 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -2561,7 +2561,7 @@ namespace daw {
 		return lhs;
 	}
 
-	constexpr UInt8 operator*( std::uint8_t lhs, UInt64 rhs ) noexcept {
+	constexpr UInt8 operator*( std::uint8_t lhs, UInt8 rhs ) noexcept {
 		lhs = static_cast<std::uint8_t>( lhs * static_cast<std::uint32_t>( rhs ) );
 		return static_cast<UInt8>( lhs );
 	}
@@ -2577,7 +2577,7 @@ namespace daw {
 		return lhs;
 	}
 
-	constexpr std::uint8_t &operator/=( std::uint8_t &lhs, UInt64 rhs ) noexcept {
+	constexpr std::uint8_t &operator/=( std::uint8_t &lhs, UInt8 rhs ) noexcept {
 		lhs = static_cast<std::uint8_t>( static_cast<std::uint64_t>( lhs ) /
 		                                 static_cast<std::uint64_t>( rhs ) );
 		return lhs;
@@ -2594,7 +2594,7 @@ namespace daw {
 		return lhs;
 	}
 
-	constexpr UInt8 operator/( std::uint8_t lhs, UInt64 rhs ) noexcept {
+	constexpr UInt8 operator/( std::uint8_t lhs, UInt8 rhs ) noexcept {
 		lhs = static_cast<std::uint8_t>( static_cast<std::uint32_t>( lhs ) /
 		                                 static_cast<std::uint32_t>( rhs ) );
 		return static_cast<UInt8>( lhs );
-- 
2.43.0


From e69a26ed2c462e124b86b1ecd11ad25fc24ebbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:44 +0000
Subject: [PATCH 164/311] fix: set_bit of a UInt64 reaches and keeps the upper
 32 bits

---
 include/daw/daw_uint_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index 14891c5..acffab2 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -2879,8 +2879,8 @@ namespace daw {
 	template<unsigned N>
 	inline constexpr void set_bit( UInt64 &value, bool state ) {
 		static_assert( N <= 64 );
-		value =
-		  ( value & ( ~( 1U << N ) ) ) | ( static_cast<UInt64>( state ) << N );
+		value = ( value & ( ~( to_uint64( 1U ) << N ) ) ) |
+		        ( static_cast<UInt64>( state ) << N );
 	}
 
 	template<unsigned N>
-- 
2.43.0


From 44451d1a8991154140ce8adb56d0d47764215fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:44 +0000
Subject: [PATCH 165/311] fix: rotations of UIntN by zero or the full width

---
 include/daw/daw_uint_types.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index acffab2..a514f16 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -667,21 +667,21 @@ namespace daw {
 	template<unsigned bits>
 	constexpr UInt64 rotate_left( UInt64 value ) {
 		static_assert( bits <= 64 );
-		return ( value << bits ) | ( value >> ( 64U - bits ) );
+		return ( value << ( bits % 64U ) ) | ( value >> ( ( 64U - ( bits % 64U ) ) % 64U ) );
 	}
 
 	constexpr UInt64 rotate_left( UInt64 value, unsigned bits ) {
-		return ( value << bits ) | ( value >> ( 64U - bits ) );
+		return ( value << ( bits % 64U ) ) | ( value >> ( ( 64U - ( bits % 64U ) ) % 64U ) );
 	}
 
 	template<unsigned bits>
 	constexpr UInt64 rotate_right( UInt64 value ) {
 		static_assert( bits <= 64 );
-		return ( value >> bits ) | ( value << ( 64U - bits ) );
+		return ( value >> ( bits % 64U ) ) | ( value << ( ( 64U - ( bits % 64U ) ) % 64U ) );
 	}
 
 	constexpr UInt64 rotate_right( UInt64 value, unsigned bits ) {
-		return ( value >> bits ) | ( value << ( 64U - bits ) );
+		return ( value >> ( bits % 64U ) ) | ( value << ( ( 64U - ( bits % 64U ) ) % 64U ) );
 	}
 
 	constexpr UInt32 &operator<<=( UInt32 &b, std::uint32_t shift ) noexcept {
@@ -1075,21 +1075,21 @@ namespace daw {
 	template<unsigned bits>
 	constexpr UInt32 rotate_left( UInt32 value ) {
 		static_assert( bits <= 32 );
-		return ( value << bits ) | ( value >> ( 32U - bits ) );
+		return ( value << ( bits % 32U ) ) | ( value >> ( ( 32U - ( bits % 32U ) ) % 32U ) );
 	}
 
 	constexpr UInt32 rotate_left( UInt32 value, unsigned bits ) {
-		return ( value << bits ) | ( value >> ( 32U - bits ) );
+		return ( value << ( bits % 32U ) ) | ( value >> ( ( 32U - ( bits % 32U ) ) % 32U ) );
 	}
 
 	template<unsigned bits>
 	constexpr UInt32 rotate_right( UInt32 value ) {
 		static_assert( bits <= 32 );
-		return ( value >> bits ) | ( value << ( 32U - bits ) );
+		return ( value >> ( bits % 32U ) ) | ( value << ( ( 32U - ( bits % 32U ) ) % 32U ) );
 	}
 
 	constexpr UInt32 rotate_right( UInt32 value, unsigned bits ) {
-		return ( value >> bits ) | ( value << ( 32U - bits ) );
+		return ( value >> ( bits % 32U ) ) | ( value << ( ( 32U - ( bits % 32U ) ) % 32U ) );
 	}
 
 	constexpr UInt16 &operator<<=( UInt16 &b, std::uint16_t shift ) noexcept {
@@ -2446,23 +2446,23 @@ namespace daw {
 	constexpr UInt16 rotate_left( UInt16 value ) {
 		static_assert( bits <= 16 );
 		auto tmp = static_cast<unsigned>( value );
-		return to_uint16( ( tmp << bits ) | ( tmp >> ( 16U - bits ) ) );
+		return to_uint16( ( tmp << ( bits % 16U ) ) | ( tmp >> ( ( 16U - ( bits % 16U ) ) % 16U ) ) );
 	}
 
 	constexpr UInt16 rotate_left( UInt16 value, unsigned bits ) {
 		auto tmp = static_cast<unsigned>( value );
-		return to_uint16( ( tmp << bits ) | ( tmp >> ( 16U - bits ) ) );
+		return to_uint16( ( tmp << ( bits % 16U ) ) | ( tmp >> ( ( 16U - ( bits % 16U ) ) % 16U ) ) );
 	}
 	template<unsigned bits>
 	constexpr UInt16 rotate_right( UInt16 value ) {
 		static_assert( bits <= 16 );
 		auto tmp = static_cast<unsigned>( value );
-		return static_cast<UInt16>( ( tmp >> bits ) | ( tmp << ( 16U - bits ) ) );
+		return static_cast<UInt16>( ( tmp >> ( bits % 16U ) ) | ( tmp << ( ( 16U - ( bits % 16U ) ) % 16U ) ) );
 	}
 
 	constexpr UInt16 rotate_right( UInt16 value, unsigned bits ) {
 		auto tmp = static_cast<unsigned>( value );
-		return static_cast<UInt16>( ( tmp >> bits ) | ( tmp << ( 16U - bits ) ) );
+		return static_cast<UInt16>( ( tmp >> ( bits % 16U ) ) | ( tmp << ( ( 16U - ( bits % 16U ) ) % 16U ) ) );
 	}
 
 	constexpr UInt8 &operator+=( UInt8 &lhs, UInt8 rhs ) noexcept {
@@ -2931,24 +2931,24 @@ namespace daw {
 	constexpr UInt8 rotate_left( UInt8 value ) {
 		static_assert( bits <= 8 );
 		auto tmp = static_cast<unsigned>( value );
-		return static_cast<UInt8>( ( tmp << bits ) | ( tmp >> ( 8U - bits ) ) );
+		return static_cast<UInt8>( ( tmp << ( bits % 8U ) ) | ( tmp >> ( ( 8U - ( bits % 8U ) ) % 8U ) ) );
 	}
 
 	constexpr UInt8 rotate_left( UInt8 value, unsigned bits ) {
 		auto tmp = static_cast<unsigned>( value );
-		return static_cast<UInt8>( ( tmp << bits ) | ( tmp >> ( 8U - bits ) ) );
+		return static_cast<UInt8>( ( tmp << ( bits % 8U ) ) | ( tmp >> ( ( 8U - ( bits % 8U ) ) % 8U ) ) );
 	}
 
 	template<unsigned bits>
 	constexpr UInt8 rotate_right( UInt8 value ) {
 		static_assert( bits <= 8 );
 		auto tmp = static_cast<unsigned>( value );
-		return static_cast<UInt8>( ( tmp >> bits ) | ( tmp << ( 8U - bits ) ) );
+		return static_cast<UInt8>( ( tmp >> ( bits % 8U ) ) | ( tmp << ( ( 8U - ( bits % 8U ) ) % 8U ) ) );
 	}
 
 	constexpr UInt8 rotate_right( UInt8 value, unsigned bits ) {
 		auto tmp = static_cast<unsigned>( value );
-		return static_cast<UInt8>( ( tmp >> bits ) | ( tmp << ( 8U - bits ) ) );
+		return static_cast<UInt8>( ( tmp >> ( bits % 8U ) ) | ( tmp << ( ( 8U - ( bits % 8U ) ) % 8U ) ) );
 	}
 
 	template<unsigned N>
-- 
2.43.0


From 30b154d4b07ffc19c63b04c4b91fc0fcbdef23ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:44 +0000
Subject: [PATCH 166/311] fix: UInt8 and UInt16 literals accept their largest
 value

---
 include/daw/daw_uint_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index a514f16..ff760b4 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -3325,13 +3325,13 @@ namespace daw {
 
 	constexpr UInt16 operator""_u16( unsigned long long value ) {
 		assert(
-		  ( value < static_cast<unsigned long long>( max_value<std::uint16_t> ) ) );
+		  ( value <= static_cast<unsigned long long>( max_value<std::uint16_t> ) ) );
 		return static_cast<UInt16>( value );
 	}
 
 	constexpr UInt8 operator""_u8( unsigned long long value ) {
 		assert(
-		  ( value < static_cast<unsigned long long>( max_value<std::uint8_t> ) ) );
+		  ( value <= static_cast<unsigned long long>( max_value<std::uint8_t> ) ) );
 		return static_cast<UInt8>( value );
 	}
 } // namespace daw
-- 
2.43.0


From dca6c3c8319b1813bad32a3073b9d0fa29e9e120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:10 +0000
Subject: [PATCH 167/311] fix: UIntN compare and divide with wider unsigned
 integers exactly

---
 include/daw/daw_uint_types.h | 88 ++++++++++++++++++++++++++++++++++++
 1 file changed, 88 insertions(+)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index ff760b4..0594139 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -2951,6 +2951,94 @@ namespace daw {
 		return static_cast<UInt8>( ( tmp >> ( bits % 8U ) ) | ( tmp << ( ( 8U - ( bits % 8U ) ) % 8U ) ) );
 	}
 
+	// Comparisons and division with a wider builtin unsigned type.  Without these
+	// the wider operand would be converted to the width of the UInt type.
+	namespace uint_impl {
+		template<typename UInt>
+		inline constexpr bool is_uint_v =
+		  std::is_same_v<UInt, UInt8> or std::is_same_v<UInt, UInt16> or
+		  std::is_same_v<UInt, UInt32>;
+
+		template<typename UInt, typename T>
+		inline constexpr bool is_wider_v =
+		  is_uint_v<UInt> and std::is_integral_v<T> and std::is_unsigned_v<T> and
+		  ( sizeof( T ) > sizeof( UInt ) );
+
+		template<typename UInt, typename T>
+		using if_wider = std::enable_if_t<is_wider_v<UInt, T>, std::nullptr_t>;
+	} // namespace uint_impl
+
+	template<typename UInt, typename T, uint_impl::if_wider<UInt, T> = nullptr>
+	constexpr bool operator==( UInt lhs, T rhs ) noexcept {
+		return static_cast<T>( lhs ) == rhs;
+	}
+
+	template<typename T, typename UInt, uint_impl::if_wider<UInt, T> = nullptr>
+	constexpr bool operator==( T lhs, UInt rhs ) noexcept {
+		return lhs == static_cast<T>( rhs );
+	}
+
+	template<typename UInt, typename T, uint_impl::if_wider<UInt, T> = nullptr>
+	constexpr bool operator!=( UInt lhs, T rhs ) noexcept {
+		return static_cast<T>( lhs ) != rhs;
+	}
+
+	template<typename T, typename UInt, uint_impl::if_wider<UInt, T> = nullptr>
+	constexpr bool operator!=( T lhs, UInt rhs ) noexcept {
+		return lhs != static_cast<T>( rhs );
+	}
+
+	template<typename UInt, typename T, uint_impl::if_wider<UInt, T> = nullptr>
+	constexpr bool operator<( UInt lhs, T rhs ) noexcept {
+		return static_cast<T>( lhs ) < rhs;
+	}
+
+	template<typename T, typename UInt, uint_impl::if_wider<UInt, T> = nullptr>
+	constexpr bool operator<( T lhs, UInt rhs ) noexcept {
+		return lhs < static_cast<T>( rhs );
+	}
+
+	template<typename UInt, typename T, uint_impl::if_wider<UInt, T> = nullptr>
+	constexpr bool operator<=( UInt lhs, T rhs ) noexcept {
+		return static_cast<T>( lhs ) <= rhs;
+	}
+
+	template<typename T, typename UInt, uint_impl::if_wider<UInt, T> = nullptr>
+	constexpr bool operator<=( T lhs, UInt rhs ) noexcept {
+		return lhs <= static_cast<T>( rhs );
+	}
+
+	template<typename UInt, typename T, uint_impl::if_wider<UInt, T> = nullptr>
+	constexpr bool operator>( UInt lhs, T rhs ) noexcept {
+		return static_cast<T>( lhs ) > rhs;
+	}
+
+	template<typename T, typename UInt, uint_impl::if_wider<UInt, T> = nullptr>
+	constexpr bool operator>( T lhs, UInt rhs ) noexcept {
+		return lhs > static_cast<T>( rhs );
+	}
+
+	template<typename UInt, typename T, uint_impl::if_wider<UInt, T> = nullptr>
+	constexpr bool operator>=( UInt lhs, T rhs ) noexcept {
+		return static_cast<T>( lhs ) >= rhs;
+	}
+
+	template<typename T, typename UInt, uint_impl::if_wider<UInt, T> = nullptr>
+	constexpr bool operator>=( T lhs, UInt rhs ) noexcept {
+		return lhs >= static_cast<T>( rhs );
+	}
+
+	template<typename UInt, typename T, uint_impl::if_wider<UInt, T> = nullptr>
+	constexpr UInt operator/( UInt lhs, T rhs ) noexcept {
+		return static_cast<UInt>( static_cast<T>( lhs ) / rhs );
+	}
+
+	template<typename UInt, typename T, uint_impl::if_wider<UInt, T> = nullptr>
+	constexpr UInt &operator/=( UInt &lhs, T rhs ) noexcept {
+		lhs = static_cast<UInt>( static_cast<T>( lhs ) / rhs );
+		return lhs;
+	}
+
 	template<unsigned N>
 	inline constexpr UInt64 mask_from_lsb64 = [] {
 		static_assert( N <= 64 );
-- 
2.43.0


From aeffeb3c56a5b6aaaff2b0d62abe8ff4b1fd38c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:48 +0000
Subject: [PATCH 168/311] fix: negation of the middle UInt32 and UInt64 value
 does not overflow

---
 include/daw/daw_uint_types.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index 0594139..20ae25f 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -1744,8 +1744,8 @@ namespace daw {
 	}
 
 	constexpr UInt64 operator-( UInt64 value ) {
-		return static_cast<UInt64>(
-		  static_cast<std::uint64_t>( -static_cast<std::int64_t>( value ) ) );
+		return static_cast<UInt64>( std::uint64_t{ 0 } -
+		                            static_cast<std::uint64_t>( value ) );
 	}
 
 	constexpr UInt64 &operator++( UInt64 &value ) {
@@ -2128,8 +2128,8 @@ namespace daw {
 	}
 
 	constexpr UInt32 operator-( UInt32 value ) {
-		return static_cast<UInt32>(
-		  static_cast<std::uint32_t>( -static_cast<std::int32_t>( value ) ) );
+		return static_cast<UInt32>( std::uint32_t{ 0 } -
+		                            static_cast<std::uint32_t>( value ) );
 	}
 
 	constexpr UInt32 &operator++( UInt32 &value ) {
-- 
2.43.0


From 1a8d0cf22d461480ee708093d78898dac04aa8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:01 +0000
Subject: [PATCH 169/311] fix: siphash24 reads key and message bytes as
 unsigned

---
 include/daw/daw_sip_hash.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_sip_hash.h b/include/daw/daw_sip_hash.h
index 7f3f0d9..4bc8d7b 100644
--- a/include/daw/daw_sip_hash.h
+++ b/include/daw/daw_sip_hash.h
@@ -52,14 +52,14 @@ namespace daw {
 		template<typename Byte>
 		constexpr uint64_t to_u64( Byte const *const ptr ) noexcept {
 			static_assert( sizeof( Byte ) == 1U );
-			return static_cast<uint64_t>( ptr[0] ) |
-			       static_cast<uint64_t>( ptr[1] ) << 8U |
-			       static_cast<uint64_t>( ptr[2] ) << 16U |
-			       static_cast<uint64_t>( ptr[3] ) << 24U |
-			       static_cast<uint64_t>( ptr[4] ) << 32U |
-			       static_cast<uint64_t>( ptr[5] ) << 40U |
-			       static_cast<uint64_t>( ptr[6] ) << 48U |
-			       static_cast<uint64_t>( ptr[7] ) << 56U;
+			return static_cast<uint64_t>( static_cast<uint8_t>( ptr[0] ) ) |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[1] ) ) << 8U |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[2] ) ) << 16U |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[3] ) ) << 24U |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[4] ) ) << 32U |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[5] ) ) << 40U |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[6] ) ) << 48U |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[7] ) ) << 56U;
 		}
 
 		template<typename Byte>
@@ -92,7 +92,7 @@ namespace daw {
 		uint64_t v2 = k[0] ^ 0x6c7967656e657261ULL;
 		uint64_t v3 = k[1] ^ 0x7465646279746573ULL;
 
-		daw::span<char const> data_in( first, sz );
+		daw::span<Byte const> data_in( first, sz );
 		while( data_in.size( ) >= 8 ) {
 			auto mi = sip_impl::to_u64( data_in.data( ) );
 			data_in.remove_prefix( 8 );
-- 
2.43.0


From e93f89101c0f55255051b928004a483b236b8f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:01 +0000
Subject: [PATCH 170/311] fix: fnv1a hash of a C string reads bytes as unsigned

---
 include/daw/daw_fnv1a_hash.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_fnv1a_hash.h b/include/daw/daw_fnv1a_hash.h
index 4622500..35b150b 100644
--- a/include/daw/daw_fnv1a_hash.h
+++ b/include/daw/daw_fnv1a_hash.h
@@ -127,7 +127,8 @@ namespace daw {
 		operator( )( char const *ptr ) const noexcept {
 			auto hash = fnv1a_impl::fnv_offset;
 			while( *ptr != '\0' ) {
-				hash = hash ^ static_cast<fnv1a_uint_t>( *ptr );
+				hash =
+				  hash ^ static_cast<fnv1a_uint_t>( static_cast<unsigned char>( *ptr ) );
 				hash *= fnv1a_impl::fnv_prime;
 				DAW_UNSAFE_BUFFER_FUNC_START
 				++ptr;
-- 
2.43.0


From cb4a2bbbb4ce0093f93f9c6fd6dbd2f2dfa05aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:01 +0000
Subject: [PATCH 171/311] fix: metro hash64 reads the last byte as unsigned

---
 include/daw/daw_metro_hash.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_metro_hash.h b/include/daw/daw_metro_hash.h
index 8c7df3b..61372f1 100644
--- a/include/daw/daw_metro_hash.h
+++ b/include/daw/daw_metro_hash.h
@@ -116,7 +116,8 @@ namespace daw::metro {
 		}
 
 		if(not buff.empty( )) {
-			hash += static_cast<uint64_t>(buff.front( )) * k3;
+			hash +=
+				static_cast<uint64_t>(static_cast<unsigned char>(buff.front( ))) * k3;
 			hash ^= metro_impl::rotr<37U>( hash ) * k1;
 			buff.remove_prefix( );
 		}
-- 
2.43.0


From 1f78707acae7a2547eb244a2ce6002a4b4cfcdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:01 +0000
Subject: [PATCH 172/311] fix: generic_hash_t<8> hashes the object behind a
 pointer

---
 include/daw/daw_generic_hash.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_generic_hash.h b/include/daw/daw_generic_hash.h
index 8971618..9d93d24 100644
--- a/include/daw/daw_generic_hash.h
+++ b/include/daw/daw_generic_hash.h
@@ -10,6 +10,7 @@
 
 #include "daw/ciso646.h"
 #include "daw/cpp_17.h"
+#include "daw/daw_bit_cast.h"
 #include "daw/daw_bit_count.h"
 #include "daw/daw_compiler_fixups.h"
 #include "daw/daw_move.h"
@@ -183,9 +184,12 @@ namespace daw {
 		template<typename T>
 		constexpr hash_value_t operator( )( T const *const ptr ) const noexcept {
 			auto hash = hash_init;
-			auto bptr = static_cast<uint8_t const *const>( ptr );
-			for( std::size_t n = 0; n < sizeof( T ); ++n ) {
-				append_hash( hash, bptr[n] );
+			struct array_t {
+				unsigned char values[sizeof( T )];
+			};
+			auto const bytes = DAW_BIT_CAST( array_t, *ptr );
+			for( auto c : bytes.values ) {
+				hash = append_hash( hash, c );
 			}
 			return hash;
 		}
-- 
2.43.0


From 44a862e4d151d1ef854b0687e1a155fb3ee57330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:01 +0000
Subject: [PATCH 173/311] fix: generic_hash accepts string lvalues

---
 include/daw/daw_generic_hash.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_generic_hash.h b/include/daw/daw_generic_hash.h
index 9d93d24..a00de72 100644
--- a/include/daw/daw_generic_hash.h
+++ b/include/daw/daw_generic_hash.h
@@ -18,6 +18,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <iterator>
 #include <type_traits>
 #include <utility>
 
@@ -228,8 +229,8 @@ namespace daw {
 	template<size_t HashBytes = sizeof( genhash_uint_t ), typename StringViewLike,
 	         std::enable_if_t<traits_is_sv::is_string_view_like_v<StringViewLike>,
 	                          std::nullptr_t> = nullptr>
-	auto generic_hash( StringViewLike const &&sv ) noexcept {
-		return generic_hash<HashBytes>( sv.data( ), sv.size( ) );
+	constexpr auto generic_hash( StringViewLike const &sv ) noexcept {
+		return generic_hash<HashBytes>( std::data( sv ), std::size( sv ) );
 	}
 
 	template<size_t HashBytes = sizeof( genhash_uint_t ), std::size_t N>
-- 
2.43.0


From 16fb2b19c81f88aaf7d2b2565d6e6b5f68a1e7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:13 +0000
Subject: [PATCH 174/311] fix: fnv1a_hash of a daw::string_view compiles

---
 include/daw/daw_fnv1a_hash.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_fnv1a_hash.h b/include/daw/daw_fnv1a_hash.h
index 35b150b..73d6fd3 100644
--- a/include/daw/daw_fnv1a_hash.h
+++ b/include/daw/daw_fnv1a_hash.h
@@ -20,6 +20,7 @@
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
+#include <iterator>
 #include <daw/stdinc/data_access.h>
 #include <daw/stdinc/enable_if.h>
 
@@ -186,8 +187,7 @@ namespace daw {
 	         std::enable_if_t<traits_is_sv::is_string_view_like_v<StringViewLike>,
 	                          std::nullptr_t> = nullptr>
 	[[nodiscard]] fnv1a_uint_t fnv1a_hash( StringViewLike &&sv ) {
-		using namespace std;
-		return fnv1a_hash( data( sv ), size( sv ) );
+		return fnv1a_hash( std::data( sv ), std::size( sv ) );
 	}
 
 	template<fnv1a_uint_t N>
-- 
2.43.0


From ae297ae51de581c27c9cec7db7fc3b540b71e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:46 +0000
Subject: [PATCH 175/311] fix: are_equal compares every value

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 81526c5..a1bef0e 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -491,7 +491,7 @@ namespace daw::algorithm {
 
 	template<typename ValueType, typename... Values>
 	constexpr bool are_equal( ValueType v1, ValueType v2, Values... others ) {
-		return are_equal( v1, v2 ) and are_equal( others... );
+		return are_equal( v1, v2 ) and are_equal( v2, others... );
 	}
 
 	template<typename ForwardIterator, typename Predicate>
-- 
2.43.0


From 12e0faa3d8db2a165305d5aa844257e07b8e9902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:47 +0000
Subject: [PATCH 176/311] fix: gather returns its iterator_pair

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index a1bef0e..face1b9 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -509,7 +509,7 @@ namespace daw::algorithm {
 
 		auto finish = std::stable_partition( target, last, predicate );
 
-		return std::make_pair( start, finish );
+		return { start, finish };
 	}
 
 	template<typename T>
-- 
2.43.0


From 8a45850c2ef7fcd5346b0d93c2e2bafc9905d9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:47 +0000
Subject: [PATCH 177/311] fix: algorithm split keeps the piece after the last
 separator

---
 include/daw/daw_algorithm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index face1b9..9011a7a 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -590,6 +590,7 @@ namespace daw::algorithm {
 				temp.push_back( *it );
 			}
 		}
+		result.push_back( std::move( temp ) );
 		return result;
 	}
 
-- 
2.43.0


From 3012ea04bcc10b71e7e57555522e7d9546c6d9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:47 +0000
Subject: [PATCH 178/311] fix: in_range checks its stored bounds

---
 include/daw/daw_algorithm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 9011a7a..bd6c60f 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -726,7 +726,8 @@ namespace daw::algorithm {
 			  : m_lower( DAW_FWD( lower ) )
 			  , m_upper( DAW_FWD( upper ) ) {
 
-				daw::exception::precondition_check<std::out_of_range>( lower <= upper );
+				daw::exception::precondition_check<std::out_of_range>( m_lower <=
+				                                                       m_upper );
 			}
 
 			template<typename T>
-- 
2.43.0


From dc3125ee48a227e43a67a475297c757d88317428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:47 +0000
Subject: [PATCH 179/311] fix: not_equal is true when any element or the
 lengths differ

---
 include/daw/daw_algorithm.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index bd6c60f..f1c16fb 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1271,12 +1271,14 @@ namespace daw::algorithm {
 		traits::is_compare_test<Compare, decltype( *first1 ),
 		                        decltype( *first2 )>( );
 
-		while( ( first1 != last1 ) and ( first2 != last2 ) and
-		       comp( *first1, *first2 ) ) {
+		while( ( first1 != last1 ) and ( first2 != last2 ) ) {
+			if( daw::invoke( comp, *first1, *first2 ) ) {
+				return true;
+			}
 			++first1;
 			++first2;
 		}
-		return first1 == last1 and first2 == last2;
+		return not( first1 == last1 and first2 == last2 );
 	}
 
 	/// @brief Determine if two ranges [first1, last1) and [first2, first2 +
@@ -1318,11 +1320,14 @@ namespace daw::algorithm {
 		traits::is_input_iterator_test<InputIterator1>( );
 		traits::is_input_iterator_test<InputIterator2>( );
 
-		while( first1 != last1 and std::not_equal_to<>{ }( *first1, *first2 ) ) {
+		while( first1 != last1 ) {
+			if( std::not_equal_to<>{ }( *first1, *first2 ) ) {
+				return true;
+			}
 			++first1;
 			++first2;
 		}
-		return not( first1 != last1 );
+		return false;
 	}
 
 	/// @brief Returns an iterator pointing to the first element in the range
-- 
2.43.0


From 5d2127c9818ff672062723d7f03fa72539ed620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:47 +0000
Subject: [PATCH 180/311] fix: extract_matching does not use an iterator after
 extracting it

---
 include/daw/daw_algorithm.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index f1c16fb..50c1a82 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1917,11 +1917,9 @@ namespace daw::algorithm {
 		auto it = std::begin( from );
 		while( it != std::end( from ) ) {
 			if( daw::invoke( pred, *it ) ) {
-				// Iterator is invalidated inside extract_to,
-				// incrementing here ensures that we do not have an
-				// iterator to the current item
-				extract_to( from, to, it );
-				++it;
+				// The iterator to the current item is invalidated by extract,
+				// incrementing here ensures that we do not use it afterwards
+				to.insert( from.extract( it++ ) );
 			} else {
 				++it;
 			}
-- 
2.43.0


From 27c9f679a7a113f04e49b93831312d750c2291e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:47 +0000
Subject: [PATCH 181/311] fix: find_unsorted accepts an empty range

---
 include/daw/daw_algorithm.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 50c1a82..d8d0c7e 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1994,6 +1994,9 @@ namespace daw::algorithm {
 	template<typename RandomIterator, typename Compare = std::less<>>
 	RandomIterator find_unsorted( RandomIterator first, RandomIterator last,
 	                              Compare comp = Compare{ } ) {
+		if( first == last ) {
+			return last;
+		}
 		auto second = std::next( first );
 		auto second_last = std::prev( last );
 
-- 
2.43.0


From 036822be9ed56d3109bf57a85d375144359bc597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:47 +0000
Subject: [PATCH 182/311] fix: convert_copy and convert_copy_n return the end
 of the output

---
 include/daw/daw_algorithm.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index d8d0c7e..821e99b 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -2133,24 +2133,25 @@ namespace daw::algorithm {
 
 	template<typename T, typename Iterator, typename IteratorLast,
 	         typename OutputIterator>
-	constexpr OutputIterator convert_copy( Iterator first, Iterator last,
+	constexpr OutputIterator convert_copy( Iterator first, IteratorLast last,
 	                                       OutputIterator out_first ) {
 		while( first != last ) {
 			*out_first = static_cast<T>( *first );
 			++out_first;
 			++first;
 		}
+		return out_first;
 	}
 
 	template<typename T, typename Iterator, typename OutputIterator>
 	constexpr OutputIterator
 	convert_copy_n( Iterator first, OutputIterator out_first, std::size_t n ) {
-		auto const last = first + static_cast<std::ptrdiff_t>( n );
-		while( first != last ) {
+		while( n-- > 0 ) {
 			*out_first = static_cast<T>( *first );
 			++out_first;
 			++first;
 		}
+		return out_first;
 	}
 } // namespace daw::algorithm
 
-- 
2.43.0


From 2fb2e1f589b5da3bd9629cd310609c3e1fa3f137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:47 +0000
Subject: [PATCH 183/311] fix: transform_n passes the index and stores the
 result

---
 include/daw/daw_algorithm.h | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 821e99b..cf0cac4 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1001,6 +1001,25 @@ namespace daw::algorithm {
 		return first_out;
 	}
 
+	namespace algorithm_details {
+		template<typename InputIterator, typename OutputIterator,
+		         typename UnaryOperation>
+		constexpr bool is_nothrow_transform_n( ) noexcept {
+			if constexpr( std::is_invocable_v<
+			                UnaryOperation,
+			                decltype( *std::declval<InputIterator &>( ) )> ) {
+				return noexcept( *std::declval<OutputIterator &>( ) =
+				                   std::declval<UnaryOperation &>( )(
+				                     *std::declval<InputIterator &>( ) ) );
+			} else {
+				return noexcept( *std::declval<OutputIterator &>( ) =
+				                   std::declval<UnaryOperation &>( )(
+				                     *std::declval<InputIterator &>( ),
+				                     std::size_t{ } ) );
+			}
+		}
+	} // namespace algorithm_details
+
 	/// @brief Run the transform function unary_op on n elements of range
 	/// started by first
 	/// @tparam InputIterator input range iterator type
@@ -1018,8 +1037,10 @@ namespace daw::algorithm {
 	         typename UnaryOperation>
 	constexpr auto transform_n(
 	  InputIterator first, OutputIterator first_out, size_t count,
-	  UnaryOperation unary_op ) noexcept( noexcept( *first_out =
-	                                                  unary_op( *first ) ) ) {
+	  UnaryOperation unary_op ) noexcept( algorithm_details::
+	                                        is_nothrow_transform_n<
+	                                          InputIterator, OutputIterator,
+	                                          UnaryOperation>( ) ) {
 
 		traits::is_input_iterator_test<InputIterator>( );
 		static_assert(
@@ -1029,10 +1050,9 @@ namespace daw::algorithm {
 		  "dereferenced type of first or with an addditional argument of "
 		  "size_t" );
 
-		traits::is_output_iterator_test<OutputIterator,
-		                                decltype( unary_op( *first ) )>( );
-
 		if constexpr( std::is_invocable_v<UnaryOperation, decltype( *first )> ) {
+			traits::is_output_iterator_test<OutputIterator,
+			                                decltype( unary_op( *first ) )>( );
 			while( count-- > 0 ) {
 				*first_out = unary_op( *first );
 				++first;
@@ -1040,7 +1060,7 @@ namespace daw::algorithm {
 			}
 		} else {
 			for( size_t n = 0U; n < count; ++n, ++first, ++first_out ) {
-				*first_out = *unary_op( *first, n );
+				*first_out = unary_op( *first, n );
 			}
 		}
 		struct result_t {
-- 
2.43.0


From 64d41c45200de472ccf2cfd58cc3f958a767718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:41 +0000
Subject: [PATCH 184/311] fix: bounded iterator moves clamp every distance

---
 include/daw/daw_algorithm.h | 43 ++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index cf0cac4..d214b49 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -36,6 +36,7 @@
 #include <daw/stdinc/data_access.h>
 #include <daw/stdinc/range_access.h>
 #include <iterator>
+#include <limits>
 #include <optional>
 #include <type_traits>
 #include <vector>
@@ -85,6 +86,28 @@ namespace daw {
 
 	// Iterator movement functions
 	namespace algorithm_details {
+		// Distances that ptrdiff_t cannot represent are as far as one can go
+		template<typename Distance>
+		constexpr ptrdiff_t clamped_distance( Distance d ) noexcept {
+			if constexpr( std::is_unsigned_v<Distance> and
+			              sizeof( Distance ) >= sizeof( ptrdiff_t ) ) {
+				constexpr auto max_dist =
+				  static_cast<Distance>( ( std::numeric_limits<ptrdiff_t>::max )( ) );
+				if( d > max_dist ) {
+					return ( std::numeric_limits<ptrdiff_t>::max )( );
+				}
+			}
+			return static_cast<ptrdiff_t>( d );
+		}
+
+		// Distance in the other direction
+		constexpr ptrdiff_t negated_distance( ptrdiff_t d ) noexcept {
+			if( d == ( std::numeric_limits<ptrdiff_t>::min )( ) ) {
+				return ( std::numeric_limits<ptrdiff_t>::max )( );
+			}
+			return -d;
+		}
+
 		template<typename Iterator, typename Iterator2, typename Iterator3,
 		         typename Distance,
 		         daw::enable_when_t<
@@ -114,9 +137,8 @@ namespace daw {
 					it = first;
 					return;
 				}
-				dist = -dist;
 				it -= (daw::min)( static_cast<ptrdiff_t>( dist_to_first ),
-				                  static_cast<ptrdiff_t>( dist ) );
+				                  negated_distance( dist ) );
 				return;
 			}
 			auto const dist_to_last = last - it;
@@ -145,7 +167,7 @@ namespace daw {
 
 		using std::begin;
 		using std::end;
-		auto const d = static_cast<ptrdiff_t>( distance );
+		auto const d = algorithm_details::clamped_distance( distance );
 		algorithm_details::safe_advance_impl( begin( container ), it,
 		                                      end( container ), d );
 	}
@@ -166,7 +188,7 @@ namespace daw {
 
 		using std::begin;
 		using std::end;
-		auto const d = static_cast<ptrdiff_t>( distance );
+		auto const d = algorithm_details::clamped_distance( distance );
 		algorithm_details::safe_advance_impl( begin( container ), it,
 		                                      end( container ), d );
 	}
@@ -184,7 +206,7 @@ namespace daw {
 	  noexcept( daw::next( it, static_cast<std::ptrdiff_t>( n ) ) ) ) {
 
 		traits::is_iterator_test<Iterator>( );
-		auto const d = static_cast<ptrdiff_t>( n );
+		auto const d = algorithm_details::clamped_distance( n );
 		algorithm_details::safe_advance_impl( it, it, last, d );
 		return it;
 	}
@@ -196,14 +218,15 @@ namespace daw {
 	/// @param first boundary for it
 	/// @param n number of steps to advance backwards
 	/// @return The resulting iterator advanced n steps
-	template<typename Iterator, typename Distance>
+	template<typename Iterator, typename Distance = size_t>
 	constexpr Iterator
 	safe_prev( Iterator it, Iterator first, Distance n = 1 ) noexcept(
 	  noexcept( daw::prev( it, static_cast<std::ptrdiff_t>( n ) ) ) ) {
 
 		traits::is_iterator_test<Iterator>( );
-		auto const d = static_cast<ptrdiff_t>( n );
-		algorithm_details::safe_advance_impl( first, it, it, -d );
+		auto const d = algorithm_details::negated_distance(
+		  algorithm_details::clamped_distance( n ) );
+		algorithm_details::safe_advance_impl( first, it, it, d );
 		return it;
 	}
 
@@ -221,7 +244,7 @@ namespace daw {
 
 		traits::is_container_like_test<Container>( );
 		auto result = std::begin( container );
-		safe_advance( container, result, static_cast<ptrdiff_t>( n ) );
+		safe_advance( container, result, n );
 		return result;
 	}
 
@@ -240,7 +263,7 @@ namespace daw {
 		traits::is_container_like_test<Container>( );
 
 		auto result = std::cbegin( container );
-		safe_advance( container, result, static_cast<ptrdiff_t>( n ) );
+		safe_advance( container, result, n );
 		return result;
 	}
 } // namespace daw
-- 
2.43.0


From 16d17c9849d6cbd84dd2434159d7ae76b22299f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:36 +0000
Subject: [PATCH 185/311] fix: rotate with middle at the end leaves the range
 alone

---
 include/daw/daw_algorithm_cx.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index 54fcab9..d82c1bf 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -30,6 +30,9 @@ namespace daw::algorithm {
 		traits::is_forward_access_iterator_test<ForwardIterator>( );
 		traits::is_inout_iterator_test<ForwardIterator>( );
 
+		if( middle == last ) {
+			return;
+		}
 		ForwardIterator tmp = middle;
 		while( first != tmp ) {
 			daw::cswap( *first, *tmp );
-- 
2.43.0


From 1ff586695abb36791bc372d8584076db780f4221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:36 +0000
Subject: [PATCH 186/311] fix: slide compiles and returns the moved range

---
 include/daw/daw_algorithm_cx.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index d82c1bf..5a454a3 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -54,13 +54,17 @@ namespace daw::algorithm {
 		traits::is_input_iterator_test<ForwardIterator>( );
 
 		if( target < first ) {
-			return std::make_pair( target,
-			                       daw::algorithm::rotate( target, first, last ) );
+			auto const result_last =
+			  daw::next( target, daw::distance( first, last ) );
+			daw::algorithm::rotate( target, first, last );
+			return std::make_pair( target, result_last );
 		}
 
 		if( last < target ) {
-			return std::make_pair( daw::algorithm::rotate( first, last, target ),
-			                       target );
+			auto const result_first =
+			  daw::next( first, daw::distance( last, target ) );
+			daw::algorithm::rotate( first, last, target );
+			return std::make_pair( result_first, target );
 		}
 
 		return std::make_pair( first, last );
-- 
2.43.0


From fbf8d6e2771ee308b5d55ac7ee12e1cb1e2b47ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:36 +0000
Subject: [PATCH 187/311] fix: nth_element places the nth smallest element

---
 include/daw/daw_algorithm_cx.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index 5a454a3..bd6de33 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -82,19 +82,23 @@ namespace daw::algorithm {
 
 		traits::is_compare_test<Compare, decltype( *first ), decltype( *nth )>( );
 
-		if( not( first != last ) ) {
+		if( not( nth != last ) ) {
 			return;
 		}
-		while( first != nth ) {
+		bool at_nth = false;
+		while( not at_nth ) {
+			at_nth = not( first != nth );
 			auto min_idx = first;
 			auto j = daw::next( first );
 			while( j != last ) {
 				if( daw::invoke( comp, *j, *min_idx ) ) {
 					min_idx = j;
-					daw::cswap( *first, *min_idx );
 				}
 				++j;
 			}
+			if( min_idx != first ) {
+				daw::cswap( *first, *min_idx );
+			}
 			++first;
 		}
 	}
-- 
2.43.0


From 2230071e5a8892bef9aaf45810bf9940863d614c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 188/311] fix: bounded moves accept iterators that are not
 random access

---
 include/daw/daw_algorithm.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index d214b49..4d6e4f0 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -111,7 +111,7 @@ namespace daw {
 		template<typename Iterator, typename Iterator2, typename Iterator3,
 		         typename Distance,
 		         daw::enable_when_t<
-		           not traits::is_random_access_iterator<Iterator>> = nullptr>
+		           not traits::is_random_access_iterator_v<Iterator>> = nullptr>
 		constexpr void safe_advance_impl( Iterator2 const first, Iterator &it,
 		                                  Iterator3 const last,
 		                                  Distance dist ) noexcept {
@@ -126,7 +126,8 @@ namespace daw {
 		template<
 		  typename Iterator, typename Iterator2, typename Iterator3,
 		  typename Distance,
-		  daw::enable_when_t<traits::is_random_access_iterator<Iterator>> = nullptr>
+		  daw::enable_when_t<traits::is_random_access_iterator_v<Iterator>> =
+		    nullptr>
 		constexpr void safe_advance_impl( Iterator2 const first, Iterator &it,
 		                                  Iterator3 const last,
 		                                  Distance dist ) noexcept {
-- 
2.43.0


From 96d56d8b2b94dcdc825933736d92734ef0a2c26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 189/311] fix: transform_if checks the output against the
 transformed value

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 4d6e4f0..9a2d6bc 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1009,7 +1009,7 @@ namespace daw::algorithm {
 		traits::is_input_iterator_test<ForwardIterator>( );
 		traits::is_unary_predicate_test<UnaryPredicate, decltype( *first )>( );
 		traits::is_output_iterator_test<OutputIterator,
-		                                decltype( pred( *first ) )>( );
+		                                decltype( trans( *first ) )>( );
 
 		static_assert( std::is_invocable_v<TransformFunction, decltype( *first )>,
 		               "TransformFunction does not accept a single argument of "
-- 
2.43.0


From 3d2ead94ef38112ba55c9ee3133cf7776e6869ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 190/311] fix: swap_ranges swaps through its iterators

---
 include/daw/daw_swap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_swap.h b/include/daw/daw_swap.h
index 65f24fe..012f69d 100644
--- a/include/daw/daw_swap.h
+++ b/include/daw/daw_swap.h
@@ -80,7 +80,7 @@ namespace daw {
 	  ForwardIterator2 first2 ) noexcept( noexcept( daw::iter_swap( first1,
 	                                                                first2 ) ) ) {
 		while( first1 != last1 ) {
-			daw::iter_swap( *first1, *first2 );
+			daw::iter_swap( first1, first2 );
 			++first1;
 			++first2;
 		}
-- 
2.43.0


From 1aca864868d16e33be41733bc94957ad04a3f3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 191/311] fix: partition calls its own find_if_not

---
 include/daw/daw_algorithm_cx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index bd6de33..c0c28fa 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -112,7 +112,7 @@ namespace daw::algorithm {
 		traits::is_input_iterator_test<ForwardIterator>( );
 		traits::is_unary_predicate_test<UnaryPredicate, decltype( *first )>( );
 
-		first = find_if_not( first, last, unary_predicate );
+		first = daw::algorithm::find_if_not( first, last, unary_predicate );
 		if( first == last ) {
 			return first;
 		}
-- 
2.43.0


From dfc09d7a5f44b272de301cff1c21354c0ad9cd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:48 +0000
Subject: [PATCH 192/311] fix: element callbacks may take their argument by
 reference

---
 include/daw/daw_container_algorithm.h | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/daw/daw_container_algorithm.h b/include/daw/daw_container_algorithm.h
index 4b91a88..69c3a36 100644
--- a/include/daw/daw_container_algorithm.h
+++ b/include/daw/daw_container_algorithm.h
@@ -506,12 +506,10 @@ namespace daw::container {
 	  Function func ) noexcept( noexcept( func( *std::begin( container ),
 	                                            std::declval<size_t>( ) ) ) ) {
 
-		using value_t =
-		  std::decay_t<typename std::iterator_traits<decltype( std::begin(
-		    container ) )>::value_type>;
-		static_assert( std::is_invocable_v<Function, value_t, size_t>,
+		using reference_t = decltype( *std::begin( container ) );
+		static_assert( std::is_invocable_v<Function, reference_t, size_t>,
 		               "Supplied function does not satisfy requirements of "
-		               "taking arguments of type (value_t, size_t)" );
+		               "taking arguments of type (reference_t, size_t)" );
 
 		auto it = daw::begin_at( container, first_inclusive );
 		for( size_t row = first_inclusive; row < last_exclusive; ++row ) {
@@ -524,12 +522,10 @@ namespace daw::container {
 	constexpr void
 	for_each_with_pos( Container &container, Function func ) noexcept(
 	  noexcept( func( *std::begin( container ), std::declval<size_t>( ) ) ) ) {
-		using value_t =
-		  std::decay_t<typename std::iterator_traits<decltype( std::begin(
-		    container ) )>::value_type>;
-		static_assert( std::is_invocable_v<Function, value_t, size_t>,
+		using reference_t = decltype( *std::begin( container ) );
+		static_assert( std::is_invocable_v<Function, reference_t, size_t>,
 		               "Supplied function does not satisfy requirements of "
-		               "taking arguments of type (value_t, size_t)" );
+		               "taking arguments of type (reference_t, size_t)" );
 		for_each_with_pos( container, 0, container_size( container ), func );
 	}
 
@@ -545,13 +541,13 @@ namespace daw::container {
 	template<typename Container, typename Function>
 	constexpr void for_each_subset(
 	  Container &container, size_t first, size_t const last,
-	  Function func ) noexcept( traits::is_nothrow_callable_v<Function, Container,
+	  Function func ) noexcept( traits::is_nothrow_callable_v<Function, Container &,
 	                                                          size_t> ) {
 
 		static_assert( traits::has_integer_subscript_v<Container>,
 		               "Container is required to have a subscript operator that "
 		               "takes integral types" );
-		static_assert( std::is_invocable_v<Function, Container, size_t>,
+		static_assert( std::is_invocable_v<Function, Container &, size_t>,
 		               "Supplied function does not satisfy requirements of "
 		               "taking arguments of type (Container, size_t)" );
 
-- 
2.43.0


From 3f6344416707da034ec8d7437db321a6eed16abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:20 +0000
Subject: [PATCH 193/311] fix: container transform writes class values and
 returns the output end

---
 include/daw/daw_container_algorithm.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_container_algorithm.h b/include/daw/daw_container_algorithm.h
index 69c3a36..a26ca75 100644
--- a/include/daw/daw_container_algorithm.h
+++ b/include/daw/daw_container_algorithm.h
@@ -299,10 +299,11 @@ namespace daw::container {
 		  std::is_invocable_v<UnaryOperator, decltype( *std::cbegin( container ) )>,
 		  "UnaryOperator is not callable with the values stored in Container" );
 
-		static_assert( std::is_convertible_v<decltype( unary_operator(
-		                                       *std::cbegin( container ) ) ),
-		                                     decltype( *first_out )>,
-		               "Output of UnaryOperator cannot be assigned to *first_out" );
+		static_assert(
+		  std::is_assignable_v<decltype( *first_out ),
+		                       decltype( unary_operator(
+		                         *std::cbegin( container ) ) )>,
+		  "Output of UnaryOperator cannot be assigned to *first_out" );
 
 		return std::transform( std::cbegin( container ), std::cend( container ),
 		                       first_out, unary_operator );
@@ -324,8 +325,8 @@ namespace daw::container {
 		  std::is_invocable_v<UnaryOperator, decltype( *std::cbegin( container ) )>,
 		  "UnaryOperator is not callable with the values stored in Container" );
 
-		std::transform( std::cbegin( container ), std::cend( container ), first_out,
-		                unary_operator );
+		return std::transform( std::cbegin( container ), std::cend( container ),
+		                       first_out, unary_operator );
 	}
 
 	template<typename Container, typename UnaryOperator,
-- 
2.43.0


From 2dea88e0f7c0e5f206d3de3c2188afe4ddcb10c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:35 +0000
Subject: [PATCH 194/311] fix: quick_sort sorts every pending part and bounds
 its stack

---
 include/daw/deprecated/daw_stack_quick_sort.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_stack_quick_sort.h b/include/daw/deprecated/daw_stack_quick_sort.h
index 5f8badc..b7d24a7 100644
--- a/include/daw/deprecated/daw_stack_quick_sort.h
+++ b/include/daw/deprecated/daw_stack_quick_sort.h
@@ -70,7 +70,7 @@ namespace daw {
 
 			auto const dist = std::distance( first, last );
 			if( dist <= 1 ) {
-				return;
+				continue;
 			}
 			auto const mid = std::next( first, dist / 2 );
 			auto const pivot =
@@ -86,8 +86,14 @@ namespace daw {
 				  return not cmp( pivot, v );
 			  } );
 
-			sort_stack.push_back( split2, last );
-			sort_stack.push_back( first, less_pivot );
+			// Process the smaller part first so that the stack depth is logarithmic
+			if( std::distance( first, less_pivot ) < std::distance( split2, last ) ) {
+				sort_stack.push_back( split2, last );
+				sort_stack.push_back( first, less_pivot );
+			} else {
+				sort_stack.push_back( first, less_pivot );
+				sort_stack.push_back( split2, last );
+			}
 		}
 	}
 } // namespace daw
-- 
2.43.0


From f733e5e19a8731ac85e95ef6a568329299ad5baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:35 +0000
Subject: [PATCH 195/311] fix: sort_to handles negative values and descending
 order

---
 include/daw/daw_sort_n.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_sort_n.h b/include/daw/daw_sort_n.h
index 9ef2158..bc5d985 100644
--- a/include/daw/daw_sort_n.h
+++ b/include/daw/daw_sort_n.h
@@ -751,13 +751,17 @@ namespace daw {
 		               RandomOutputIterator first_out, Compare &&comp ) {
 			using value_t =
 			  typename std::iterator_traits<ForwardIterator>::value_type;
+			auto const digit = []( value_t v ) -> std::size_t {
+				auto const d = v % 10;
+				return static_cast<std::size_t>( d < 0 ? d + 10 : d );
+			};
 			bool const is_ascend =
 			  comp( static_cast<value_t>( 0 ), static_cast<value_t>( 1 ) );
 
 			std::array<std::size_t, 10> counts{ };
 			size_t d = 0;
 			for( auto it = first_in; it != last_in; ++it ) {
-				++counts[static_cast<std::size_t>( ( *it ) % 10 )];
+				++counts[digit( *it )];
 				++d;
 			}
 			daw::algorithm::partial_sum( std::cbegin( counts ), std::cend( counts ),
@@ -765,19 +769,19 @@ namespace daw {
 
 			if( is_ascend ) {
 				while( first_in != last_in ) {
-					auto const pos = static_cast<std::size_t>( *first_in % 10 );
+					auto const pos = digit( *first_in );
 					first_out[counts[pos] - 1U] = *first_in;
 					--counts[pos];
 					++first_in;
 				}
 			} else {
 				auto rf = daw::make_reverse_iterator( first_out + d );
-				auto const rl = daw::make_reverse_iterator( first_out );
-				while( rf != rl ) {
-					auto const pos = static_cast<std::size_t>( *first_in % 10 );
+
+				while( first_in != last_in ) {
+					auto const pos = digit( *first_in );
 					rf[counts[pos] - 1U] = *first_in;
 					--counts[pos];
-					++rf;
+					++first_in;
 				}
 			}
 			return first_out + d;
-- 
2.43.0


From 1b0821cdbcb41c5a76c757b3712617c61f338984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:40 +0000
Subject: [PATCH 196/311] fix: circular_iterator stays inside its container, is
 readable through const and -> returns a pointer

---
 include/daw/iterator/daw_circular_iterator.h | 21 +++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/daw/iterator/daw_circular_iterator.h b/include/daw/iterator/daw_circular_iterator.h
index f4152e5..f4cbdd9 100644
--- a/include/daw/iterator/daw_circular_iterator.h
+++ b/include/daw/iterator/daw_circular_iterator.h
@@ -15,6 +15,7 @@
 
 #include <cstddef>
 #include <iterator>
+#include <memory>
 #include <type_traits>
 #include <utility>
 
@@ -60,13 +61,9 @@ namespace daw {
 		constexpr difference_type get_offset( difference_type n ) const noexcept {
 			auto const sz =
 			  static_cast<difference_type>( impl::container_size( *m_container ) );
-			n += m_position;
+			n = ( n + m_position ) % sz;
 			if( n < 0 ) {
-				n *= -1;
-				n %= sz;
-				return sz - n;
-			} else if( n >= sz ) {
-				return n % sz;
+				n += sz;
 			}
 			return n;
 		}
@@ -134,12 +131,12 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr decltype( auto ) operator*( ) {
+		constexpr decltype( auto ) operator*( ) const {
 			return *get_iterator( m_position );
 		}
 
-		constexpr decltype( auto ) operator->( ) noexcept {
-			return *get_iterator( m_position );
+		constexpr auto operator->( ) const noexcept {
+			return std::addressof( *get_iterator( m_position ) );
 		}
 
 		constexpr circular_iterator &operator++( ) noexcept {
@@ -164,19 +161,19 @@ namespace daw {
 			return result;
 		}
 
-		constexpr circular_iterator operator+( difference_type n ) noexcept {
+		constexpr circular_iterator operator+( difference_type n ) const noexcept {
 			circular_iterator tmp{ *this };
 			tmp += n;
 			return tmp;
 		}
 
-		constexpr circular_iterator operator-( difference_type n ) noexcept {
+		constexpr circular_iterator operator-( difference_type n ) const noexcept {
 			circular_iterator tmp{ *this };
 			tmp -= n;
 			return tmp;
 		}
 
-		constexpr circular_iterator end( ) noexcept {
+		constexpr circular_iterator end( ) const noexcept {
 			circular_iterator tmp{ *this };
 			tmp.m_position =
 			  static_cast<difference_type>( impl::container_size( *m_container ) );
-- 
2.43.0


From b827c5c2a6086df42c0b1ab8941ecaefefef0b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:40 +0000
Subject: [PATCH 197/311] fix: chunk_iterator moves back by and measures in
 chunks

---
 include/daw/iterator/daw_chunk_iterator.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/daw/iterator/daw_chunk_iterator.h b/include/daw/iterator/daw_chunk_iterator.h
index c8e9624..48961e4 100644
--- a/include/daw/iterator/daw_chunk_iterator.h
+++ b/include/daw/iterator/daw_chunk_iterator.h
@@ -13,6 +13,7 @@
 
 #include <cstddef>
 #include <iterator>
+#include <memory>
 
 namespace daw {
 	template<typename Iterator>
@@ -44,12 +45,12 @@ namespace daw {
 			return *m_iterator;
 		}
 
-		[[nodiscard]] constexpr decltype( auto ) operator->( ) {
-			return m_iterator->operator->( );
+		[[nodiscard]] constexpr auto operator->( ) {
+			return std::addressof( *m_iterator );
 		}
 
-		[[nodiscard]] constexpr decltype( auto ) operator->( ) const {
-			return m_iterator->operator->( );
+		[[nodiscard]] constexpr auto operator->( ) const {
+			return std::addressof( *m_iterator );
 		}
 
 		[[nodiscard]] constexpr decltype( auto ) operator[]( size_type idx ) {
@@ -88,7 +89,7 @@ namespace daw {
 		}
 
 		constexpr chunk_iterator &operator-=( difference_type n ) {
-			m_iterator += n * m_chunk_size;
+			m_iterator -= n * m_chunk_size;
 			return *this;
 		}
 
@@ -118,7 +119,7 @@ namespace daw {
 
 		[[nodiscard]] constexpr difference_type
 		operator-( chunk_iterator const &rhs ) const {
-			return m_iterator - rhs.m_iterator;
+			return ( m_iterator - rhs.m_iterator ) / m_chunk_size;
 		}
 
 		constexpr bool operator==( chunk_iterator const &rhs ) const {
-- 
2.43.0


From bb041703e92e3e52111736594e0d0c521c2c6b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:40 +0000
Subject: [PATCH 198/311] fix: indexed_iterator checks its bounds exactly

---
 include/daw/iterator/daw_indexed_iterator.h | 28 ++++++++++-----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/include/daw/iterator/daw_indexed_iterator.h b/include/daw/iterator/daw_indexed_iterator.h
index 9d44e3c..021ca38 100644
--- a/include/daw/iterator/daw_indexed_iterator.h
+++ b/include/daw/iterator/daw_indexed_iterator.h
@@ -60,7 +60,7 @@ namespace daw {
 		[[nodiscard]] constexpr reference operator*( ) noexcept {
 			daw::exception::dbg_precondition_check( m_position >= 0 );
 			daw::exception::dbg_precondition_check(
-			  static_cast<size_type>( m_position ) <= m_pointer->size( ) );
+			  static_cast<size_type>( m_position ) < m_pointer->size( ) );
 
 			return m_pointer->operator[]( static_cast<size_type>( m_position ) );
 		}
@@ -68,7 +68,7 @@ namespace daw {
 		[[nodiscard]] constexpr const_reference operator*( ) const noexcept {
 			daw::exception::dbg_precondition_check( m_position >= 0 );
 			daw::exception::dbg_precondition_check(
-			  static_cast<size_type>( m_position ) <= m_pointer->size( ) );
+			  static_cast<size_type>( m_position ) < m_pointer->size( ) );
 
 			return m_pointer->operator[]( static_cast<size_type>( m_position ) );
 		}
@@ -76,7 +76,7 @@ namespace daw {
 		[[nodiscard]] constexpr pointer operator->( ) noexcept {
 			daw::exception::dbg_precondition_check( m_position >= 0 );
 			daw::exception::dbg_precondition_check(
-			  static_cast<size_type>( m_position ) <= m_pointer->size( ) );
+			  static_cast<size_type>( m_position ) < m_pointer->size( ) );
 
 			return &m_pointer->operator[]( static_cast<size_type>( m_position ) );
 		}
@@ -84,14 +84,14 @@ namespace daw {
 		[[nodiscard]] constexpr const_pointer operator->( ) const noexcept {
 			daw::exception::dbg_precondition_check( m_position >= 0 );
 			daw::exception::dbg_precondition_check(
-			  static_cast<size_type>( m_position ) <= m_pointer->size( ) );
+			  static_cast<size_type>( m_position ) < m_pointer->size( ) );
 
 			return &m_pointer->operator[]( static_cast<size_type>( m_position ) );
 		}
 
 		constexpr indexed_iterator &operator++( ) noexcept {
 			daw::exception::dbg_precondition_check(
-			  static_cast<size_type>( m_position ) <= m_pointer->size( ) );
+			  static_cast<size_type>( m_position ) < m_pointer->size( ) );
 
 			++m_position;
 			return *this;
@@ -99,7 +99,7 @@ namespace daw {
 
 		constexpr indexed_iterator operator++( int ) noexcept {
 			daw::exception::dbg_precondition_check(
-			  static_cast<size_type>( m_position ) <= m_pointer->size( ) );
+			  static_cast<size_type>( m_position ) < m_pointer->size( ) );
 
 			auto result = indexed_iterator( *this );
 			++m_position;
@@ -107,14 +107,14 @@ namespace daw {
 		}
 
 		constexpr indexed_iterator &operator--( ) noexcept {
-			daw::exception::dbg_precondition_check( m_position >= 0 );
+			daw::exception::dbg_precondition_check( m_position > 0 );
 
 			--m_position;
 			return *this;
 		}
 
 		constexpr indexed_iterator operator--( int ) noexcept {
-			daw::exception::dbg_precondition_check( m_position >= 0 );
+			daw::exception::dbg_precondition_check( m_position > 0 );
 
 			auto result = indexed_iterator( *this );
 			--m_position;
@@ -125,7 +125,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -136,7 +136,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -146,7 +146,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			m_position = new_pos;
 			return *this;
 		}
@@ -155,7 +155,7 @@ namespace daw {
 			auto const new_pos = m_position - n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
@@ -167,7 +167,7 @@ namespace daw {
 			auto const new_pos = m_position - n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -197,8 +197,6 @@ namespace daw {
 			daw::exception::dbg_precondition_check( lhs.m_pointer == rhs.m_pointer );
 			daw::exception::dbg_precondition_check( lhs.m_position >= 0 );
 			daw::exception::dbg_precondition_check( rhs.m_position >= 0 );
-			daw::exception::dbg_precondition_check( lhs.m_position >=
-			                                        rhs.m_position );
 
 			return lhs.m_position - rhs.m_position;
 		}
-- 
2.43.0


From f4c41d11bd50e82282a251cc75771c1f5ee5bf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:40 +0000
Subject: [PATCH 199/311] fix: iota_iterator compares by position and
 iota_range ends

---
 include/daw/iterator/daw_iota_iterator.h | 64 ++++++++++++++++++------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/include/daw/iterator/daw_iota_iterator.h b/include/daw/iterator/daw_iota_iterator.h
index 4580f83..318f5c6 100644
--- a/include/daw/iterator/daw_iota_iterator.h
+++ b/include/daw/iterator/daw_iota_iterator.h
@@ -50,14 +50,14 @@ namespace daw {
 		  , m_step( step_distance ) {}
 
 		constexpr iota_iterator &operator+=( difference_type n ) noexcept {
-			m_value =
-			  static_cast<value_type>( static_cast<difference_type>( m_value ) + n );
+			m_value = static_cast<value_type>( static_cast<size_type>( m_value ) +
+			                                   static_cast<size_type>( m_step * n ) );
 			return *this;
 		}
 
 		constexpr iota_iterator &operator-=( difference_type n ) noexcept {
-			m_value =
-			  static_cast<value_type>( static_cast<difference_type>( m_value ) - n );
+			m_value = static_cast<value_type>( static_cast<size_type>( m_value ) -
+			                                   static_cast<size_type>( m_step * n ) );
 			return *this;
 		}
 
@@ -123,14 +123,16 @@ namespace daw {
 		template<typename U>
 		[[nodiscard]] constexpr difference_type
 		compare( iota_iterator<U> const &rhs ) const noexcept {
-			auto const diff = m_value - rhs.m_value;
-			if( std::less<value_type>{ }( diff, value_type{ 0 } ) ) {
-				return -1;
+			// A negative step advances towards lower values
+			auto const forward = static_cast<difference_type>(
+			  m_step < difference_type{ 0 } ? -1 : 1 );
+			if( std::less<value_type>{ }( m_value, rhs.m_value ) ) {
+				return -forward;
 			}
-			if( std::less<value_type>{ }( value_type{ 0 }, 0 ) ) {
-				return 1;
+			if( std::less<value_type>{ }( rhs.m_value, m_value ) ) {
+				return forward;
 			}
-			return 0;
+			return difference_type{ 0 };
 		}
 
 		friend constexpr bool operator==( iota_iterator const &lhs,
@@ -160,7 +162,7 @@ namespace daw {
 
 		friend constexpr bool operator<=( iota_iterator const &lhs,
 		                                  iota_iterator const &rhs ) noexcept {
-			return lhs.compare( rhs ) < 0;
+			return lhs.compare( rhs ) <= 0;
 		}
 	}; // iota_iterator
 
@@ -181,22 +183,52 @@ namespace daw {
 		iterator m_first{ };
 		iterator m_last{ };
 
+		// The first value reachable from first_value that is not before last_value
+		static constexpr value_type find_last( value_type first_value,
+		                                       value_type last_value,
+		                                       difference_type step ) noexcept {
+			auto const zero = difference_type{ 0 };
+			if( step == zero ) {
+				return last_value;
+			}
+			if( step < zero ? not( last_value < first_value )
+			                : not( first_value < last_value ) ) {
+				return first_value;
+			}
+			if constexpr( std::is_integral_v<value_type> ) {
+				auto const ufirst = static_cast<size_type>( first_value );
+				auto const ulast = static_cast<size_type>( last_value );
+				auto const ustep = static_cast<size_type>( step );
+				auto const dist =
+				  static_cast<size_type>( step < zero ? ufirst - ulast : ulast - ufirst );
+				auto const width =
+				  static_cast<size_type>( step < zero ? size_type{ 0 } - ustep : ustep );
+				auto const count = static_cast<size_type>(
+				  dist / width + static_cast<size_type>( dist % width != 0 ? 1 : 0 ) );
+				return static_cast<value_type>( ufirst + ustep * count );
+			} else {
+				while( step < zero ? last_value < first_value
+				                   : first_value < last_value ) {
+					first_value = first_value + step;
+				}
+				return first_value;
+			}
+		}
+
 	public:
 		explicit iota_range( ) = default;
 		explicit constexpr iota_range( reference last_value ) noexcept
-		  : m_first( 0 )
-		  , m_last( last_value ) {}
+		  : iota_range( value_type{ 0 }, last_value ) {}
 
 		explicit constexpr iota_range( reference start_value,
 		                               reference last_value ) noexcept
-		  : m_first( start_value )
-		  , m_last( last_value ) {}
+		  : iota_range( start_value, last_value, difference_type{ 1 } ) {}
 
 		explicit constexpr iota_range( reference start_value,
 		                               reference last_value,
 		                               difference_type step ) noexcept
 		  : m_first( start_value, step )
-		  , m_last( last_value ) {}
+		  , m_last( find_last( start_value, last_value, step ), step ) {}
 
 		constexpr iterator begin( ) const noexcept {
 			return m_first;
-- 
2.43.0


From 48c9f5cf0f34f5e9d2c59575fea7fcf32ae07d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:51 +0000
Subject: [PATCH 200/311] fix: integer_range_iterator post increment compiles

---
 include/daw/iterator/daw_integer_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_integer_iterator.h b/include/daw/iterator/daw_integer_iterator.h
index 00877ce..251e1a6 100644
--- a/include/daw/iterator/daw_integer_iterator.h
+++ b/include/daw/iterator/daw_integer_iterator.h
@@ -39,7 +39,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr integer_range_iterator operator++( int ) const noexcept {
+		constexpr integer_range_iterator operator++( int ) noexcept {
 			integer_range_iterator tmp{ *this };
 			++current_value;
 			return tmp;
-- 
2.43.0


From 9c2d4973b147b1eed31bfb948b0ddbf85fa1933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:51 +0000
Subject: [PATCH 201/311] fix: checked iterators check every requested move and
 post increment moves

---
 .../daw/iterator/daw_checked_iterator_proxy.h | 53 ++++++++-----------
 1 file changed, 21 insertions(+), 32 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 0a38280..3fad368 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -14,6 +14,7 @@
 #include "daw/daw_logic.h"
 
 #include <cstdint>
+#include <memory>
 #include <stdexcept>
 #include <type_traits>
 #include <utility>
@@ -40,9 +41,9 @@ namespace daw {
 			auto result =
 			  static_cast<std::uint8_t>( CheckIncrement ? check_increment : 0 );
 			result = static_cast<std::uint8_t>(
-			  daw::nsc_or( result, CheckDecrement ) ? check_decrement : 0 );
+			  result | ( CheckDecrement ? check_decrement : 0 ) );
 			result = static_cast<std::uint8_t>(
-			  daw::nsc_or( result, CheckDereference ) ? check_dereference : 0 );
+			  result | ( CheckDereference ? check_dereference : 0 ) );
 
 			return result;
 		}
@@ -76,9 +77,9 @@ namespace daw {
 			return *this;
 		}
 
-		checked_iterator_proxy_t operator++( int ) const {
+		checked_iterator_proxy_t operator++( int ) {
 			checked_iterator_proxy_t result{ *this };
-			++result;
+			++*this;
 			return result;
 		}
 
@@ -92,9 +93,9 @@ namespace daw {
 			return *this;
 		}
 
-		checked_iterator_proxy_t operator--( int ) const {
+		checked_iterator_proxy_t operator--( int ) {
 			checked_iterator_proxy_t result{ *this };
-			--result;
+			--*this;
 			return result;
 		}
 
@@ -116,55 +117,43 @@ namespace daw {
 			return *current;
 		}
 
-		auto &operator->( ) {
+		auto operator->( ) {
 			if( is_flag_set( check_dereference ) and current == last ) {
 				DAW_THROW_OR_TERMINATE(
 				  std::out_of_range,
 				  "Attempt to access members an iterator at end of range" );
 			}
-			return current.operator->( );
+			return std::addressof( *current );
 		}
 
-		auto const &operator->( ) const {
+		auto operator->( ) const {
 			if( is_flag_set( check_dereference ) and current == last ) {
 				DAW_THROW_OR_TERMINATE(
 				  std::out_of_range,
 				  "Attempt to access members an iterator at end of range" );
 			}
-			return current.operator->( );
+			return std::addressof( *current );
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorFirst_rhs,
-		         typename IteratorLast_lhs, typename IteratorLast_rhs>
-		friend bool operator==(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  checked_iterator_proxy_t<IteratorFirst_rhs, IteratorLast_rhs> const
-		    &rhs ) {
+		friend bool operator==( checked_iterator_proxy_t const &lhs,
+		                        checked_iterator_proxy_t const &rhs ) {
 			return lhs.current == rhs.current;
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorLast_lhs,
-		         typename Iterator_rhs>
-		friend bool operator==(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  Iterator_rhs const &rhs ) {
+		template<typename Iterator_rhs>
+		friend bool operator==( checked_iterator_proxy_t const &lhs,
+		                        Iterator_rhs const &rhs ) {
 			return lhs.current == rhs;
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorFirst_rhs,
-		         typename IteratorLast_lhs, typename IteratorLast_rhs>
-		friend bool operator!=(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  checked_iterator_proxy_t<IteratorFirst_rhs, IteratorLast_rhs> const
-		    &rhs ) {
+		friend bool operator!=( checked_iterator_proxy_t const &lhs,
+		                        checked_iterator_proxy_t const &rhs ) {
 			return lhs.current != rhs.current;
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorLast_lhs,
-		         typename Iterator_rhs>
-		friend bool operator!=(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  Iterator_rhs const &rhs ) {
+		template<typename Iterator_rhs>
+		friend bool operator!=( checked_iterator_proxy_t const &lhs,
+		                        Iterator_rhs const &rhs ) {
 			return lhs.current != rhs;
 		}
 	}; // checked_iterator_proxy_t
-- 
2.43.0


From e38de99c00324cc223a490f2610e57051cc24307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:51 +0000
Subject: [PATCH 202/311] fix: zip_iterator -> gives pointers to the elements

---
 include/daw/iterator/daw_zipiter.h | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_zipiter.h b/include/daw/iterator/daw_zipiter.h
index bca64b9..2bcf204 100644
--- a/include/daw/iterator/daw_zipiter.h
+++ b/include/daw/iterator/daw_zipiter.h
@@ -15,6 +15,7 @@
 #include "daw/daw_traits.h"
 #include "daw/daw_tuple_helper.h"
 #include "daw/daw_utility.h"
+#include "daw_arrow_proxy.h"
 
 #include <cstddef>
 #include <tuple>
@@ -159,12 +160,27 @@ namespace daw {
 			  std::make_index_sequence<daw::tuple_size_v<types_t>>( ) );
 		}
 
-		constexpr pointer operator->( ) noexcept {
-			return { operator*( ) };
+	private:
+		template<size_t... Is>
+		constexpr pointer get_pointers( std::index_sequence<Is...> ) noexcept {
+			return { zipiter_details::get_pointer( std::get<Is>( m_values ) )... };
+		}
+
+		template<size_t... Is>
+		constexpr const_pointer
+		get_pointers( std::index_sequence<Is...> ) const noexcept {
+			return { zipiter_details::get_pointer( std::get<Is>( m_values ) )... };
+		}
+
+	public:
+		constexpr daw::arrow_proxy<pointer> operator->( ) noexcept {
+			return { get_pointers(
+			  std::make_index_sequence<daw::tuple_size_v<types_t>>( ) ) };
 		}
 
-		constexpr const_pointer operator->( ) const noexcept {
-			return { operator*( ) };
+		constexpr daw::arrow_proxy<const_pointer> operator->( ) const noexcept {
+			return { get_pointers(
+			  std::make_index_sequence<daw::tuple_size_v<types_t>>( ) ) };
 		}
 
 		constexpr bool operator==( zip_iterator const &rhs ) const noexcept {
-- 
2.43.0


From f8c5248f4d81c1da5ce3aecd3a42109336442d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:51 +0000
Subject: [PATCH 203/311] fix: repeat_n_char_iterator += moves the same way as
 ++

---
 include/daw/iterator/daw_repeat_n_char_iterator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_repeat_n_char_iterator.h b/include/daw/iterator/daw_repeat_n_char_iterator.h
index 95db6fd..78188da 100644
--- a/include/daw/iterator/daw_repeat_n_char_iterator.h
+++ b/include/daw/iterator/daw_repeat_n_char_iterator.h
@@ -71,13 +71,13 @@ namespace daw {
 			return m_position == rhs.m_position;
 		}
 
-		constexpr repeat_n_char_iterator const &operator+=( ptrdiff_t p ) noexcept {
-			m_position += p;
+		constexpr repeat_n_char_iterator &operator+=( ptrdiff_t p ) noexcept {
+			m_position -= p;
 			return *this;
 		}
 
-		constexpr repeat_n_char_iterator const &operator-=( ptrdiff_t p ) noexcept {
-			m_position -= p;
+		constexpr repeat_n_char_iterator &operator-=( ptrdiff_t p ) noexcept {
+			m_position += p;
 			return *this;
 		}
 
-- 
2.43.0


From f8963eb6f12aff4f23c4e004091557e59b0b2ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:51 +0000
Subject: [PATCH 204/311] fix: RandomIterator can be offset through const

---
 include/daw/iterator/daw_random_iterator.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/daw/iterator/daw_random_iterator.h b/include/daw/iterator/daw_random_iterator.h
index 088e587..f14d2eb 100644
--- a/include/daw/iterator/daw_random_iterator.h
+++ b/include/daw/iterator/daw_random_iterator.h
@@ -84,19 +84,17 @@ namespace daw {
 			return result;
 		}
 
-		constexpr RandomIterator operator+( std::ptrdiff_t const &n ) noexcept {
-			auto old = this->m_pointer;
-			this->m_pointer += n;
+		constexpr RandomIterator
+		operator+( std::ptrdiff_t const &n ) const noexcept {
 			auto temp{ *this };
-			this->m_pointer = old;
+			temp.m_pointer += n;
 			return temp;
 		}
 
-		constexpr RandomIterator operator-( std::ptrdiff_t const &n ) noexcept {
-			auto old = this->m_pointer;
-			this->m_pointer -= n;
+		constexpr RandomIterator
+		operator-( std::ptrdiff_t const &n ) const noexcept {
 			auto temp{ *this };
-			this->m_pointer = old;
+			temp.m_pointer -= n;
 			return temp;
 		}
 
-- 
2.43.0


From f596682fffc776ed1188fa6a17f7bcc6c794712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:51 +0000
Subject: [PATCH 205/311] fix: pointer_iterator post increment returns a value,
 predecrement a reference, it - n exists

---
 include/daw/iterator/daw_pointer_iterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/iterator/daw_pointer_iterator.h b/include/daw/iterator/daw_pointer_iterator.h
index 6c175f3..8a56e08 100644
--- a/include/daw/iterator/daw_pointer_iterator.h
+++ b/include/daw/iterator/daw_pointer_iterator.h
@@ -67,13 +67,13 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr pointer_iterator &operator++( int ) {
+		constexpr pointer_iterator operator++( int ) {
 			auto result = *this;
 			++m_ptr;
 			return result;
 		}
 
-		constexpr pointer_iterator operator--( ) {
+		constexpr pointer_iterator &operator--( ) {
 			--m_ptr;
 			return *this;
 		}
@@ -100,7 +100,7 @@ namespace daw {
 			return result;
 		}
 
-		constexpr pointer_iterator operator-=( difference_type d ) const {
+		constexpr pointer_iterator operator-( difference_type d ) const {
 			auto result = *this;
 			result -= d;
 			return result;
-- 
2.43.0


From 2777aa63ef407afa6e891b0e1e35e73f169a63cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:52 +0000
Subject: [PATCH 206/311] fix: InputIterator assignment destroys the iterator
 it replaces, with its own deleter

---
 include/daw/iterator/InputIterator.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/InputIterator.h b/include/daw/iterator/InputIterator.h
index fb67376..2e75942 100644
--- a/include/daw/iterator/InputIterator.h
+++ b/include/daw/iterator/InputIterator.h
@@ -138,8 +138,8 @@ namespace daw {
 				// copy first so that if it throws we are cool
 				auto tmp = rhs.fn_op_clone( )( rhs.m_iterator );
 				std::swap( m_iterator, tmp );
-				m_vtable = rhs.m_vtable;
-				input_impl::get<input_impl::OpDel, value_type>( m_vtable )( tmp );
+				auto const old_vtable = daw::exchange( m_vtable, rhs.m_vtable );
+				input_impl::get<input_impl::OpDel, value_type>( old_vtable )( tmp );
 			}
 			return *this;
 		}
@@ -150,8 +150,10 @@ namespace daw {
 
 		InputIterator &operator=( InputIterator &&rhs ) noexcept {
 			if( this != &rhs ) {
-				m_iterator = daw::exchange( rhs.m_iterator, nullptr );
-				m_vtable = rhs.m_vtable;
+				auto const tmp =
+				  daw::exchange( m_iterator, daw::exchange( rhs.m_iterator, nullptr ) );
+				auto const old_vtable = daw::exchange( m_vtable, rhs.m_vtable );
+				input_impl::get<input_impl::OpDel, value_type>( old_vtable )( tmp );
 			}
 			return *this;
 		}
-- 
2.43.0


From da6e424c6bcdbeac27b1674b0de65e468043c804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:52 +0000
Subject: [PATCH 207/311] fix: argument iterators order by position, measure to
 the end and at(0) works

---
 include/daw/iterator/daw_argument_iterator.h | 21 +++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/daw/iterator/daw_argument_iterator.h b/include/daw/iterator/daw_argument_iterator.h
index 11a6b94..acd8d03 100644
--- a/include/daw/iterator/daw_argument_iterator.h
+++ b/include/daw/iterator/daw_argument_iterator.h
@@ -84,7 +84,14 @@ namespace daw {
 
 		constexpr difference_type
 		operator-( arg_iterator_t const &rhs ) const noexcept {
-			return m_pos - rhs.m_pos;
+			if( m_argv == rhs.m_argv ) {
+				return m_pos - rhs.m_pos;
+			}
+			// One side is the end sentinel
+			if( rhs.m_argv == nullptr ) {
+				return m_pos - m_argc;
+			}
+			return rhs.m_argc - rhs.m_pos;
 		}
 
 		constexpr difference_type
@@ -101,7 +108,7 @@ namespace daw {
 			auto const pos = m_pos + n;
 
 			daw::exception::precondition_check<std::out_of_range>(
-			  0 < pos and pos < m_argc, "Attempt to access invalid argument" );
+			  0 <= pos and pos < m_argc, "Attempt to access invalid argument" );
 
 			return std::string_view( m_argv[pos] );
 		}
@@ -126,28 +133,28 @@ namespace daw {
 
 		constexpr bool operator<( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc < rhs.m_argc;
+				return m_pos < rhs.m_pos;
 			}
 			return not at_end( ) and rhs.at_end( );
 		}
 
 		constexpr bool operator<=( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc <= rhs.m_argc;
+				return m_pos <= rhs.m_pos;
 			}
 			return rhs.at_end( );
 		}
 
 		constexpr bool operator>( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc > rhs.m_argc;
+				return m_pos > rhs.m_pos;
 			}
-			return at_end( );
+			return at_end( ) and not rhs.at_end( );
 		}
 
 		constexpr bool operator>=( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc <= rhs.m_argc;
+				return m_pos >= rhs.m_pos;
 			}
 			return at_end( );
 		}
-- 
2.43.0


From 4fa89b3f8669d90c05f953182c51758f9fba0e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:52 +0000
Subject: [PATCH 208/311] fix: make_function_iterator accepts lvalues

---
 include/daw/iterator/daw_function_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_function_iterator.h b/include/daw/iterator/daw_function_iterator.h
index 9523c32..c2bbb15 100644
--- a/include/daw/iterator/daw_function_iterator.h
+++ b/include/daw/iterator/daw_function_iterator.h
@@ -63,6 +63,6 @@ namespace daw {
 	///
 	template<typename Function>
 	constexpr auto make_function_iterator( Function &&func ) {
-		return function_iterator<Function>( DAW_FWD( func ) );
+		return function_iterator<daw::remove_cvref_t<Function>>( DAW_FWD( func ) );
 	}
 } // namespace daw
-- 
2.43.0


From 62e80570fb4381cc4c93a13cd84af8168ab1209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:52 +0000
Subject: [PATCH 209/311] fix: span pop_front and pop_back clip to the range,
 empty const subspan, crend

---
 include/daw/daw_span.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index da45637..c554542 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -111,7 +111,7 @@ namespace daw {
 		}
 
 		constexpr const_reverse_iterator crend( ) const noexcept {
-			return std::make_reverse_iterator( cend( ) );
+			return std::make_reverse_iterator( cbegin( ) );
 		}
 
 		constexpr const_reference operator[]( size_type pos ) const noexcept {
@@ -174,6 +174,7 @@ namespace daw {
 		}
 
 		constexpr span<T const> pop_front( size_t n ) {
+			n = (daw::min)( n, size( ) );
 			auto result = subspan( 0, n );
 			remove_prefix( n );
 			return result;
@@ -187,6 +188,7 @@ namespace daw {
 		}
 
 		constexpr span<T const> pop_back( size_t n ) {
+			n = (daw::min)( n, size( ) );
 			auto result = subspan( size( ) - n, n );
 			remove_suffix( n );
 			return result;
@@ -435,6 +437,7 @@ namespace daw {
 		}
 
 		constexpr span<T> pop_front( size_t n ) noexcept {
+			n = (daw::min)( n, size( ) );
 			auto result = subspan( 0, n );
 			remove_prefix( n );
 			return result;
@@ -448,6 +451,7 @@ namespace daw {
 		}
 
 		constexpr span<T> pop_back( size_t n ) {
+			n = (daw::min)( n, size( ) );
 			auto result = subspan( size( ) - n, n );
 			remove_suffix( n );
 			return result;
@@ -477,7 +481,7 @@ namespace daw {
 		                        size_type count = max_value<size_type> ) const {
 
 			daw::exception::precondition_check<std::out_of_range>(
-			  pos < size( ), "Attempt to access span past end" );
+			  pos <= size( ), "Attempt to access span past end" );
 
 			count = (daw::min)( count, size( ) - pos );
 			return { data( ) + pos, count };
-- 
2.43.0


From d5e9a2c92ccfd434c1b2141744aa93a566d8d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:52 +0000
Subject: [PATCH 210/311] fix: iter_view subspan counts from its offset and
 discarding pops accept a missing needle

---
 include/daw/daw_iter_view.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_iter_view.h b/include/daw/daw_iter_view.h
index c04105a..7040a9f 100644
--- a/include/daw/daw_iter_view.h
+++ b/include/daw/daw_iter_view.h
@@ -107,9 +107,11 @@ namespace daw {
 
 		constexpr iter_view
 		subspan( size_type offset, size_type count = max_value<size_type> ) const {
-			auto const sz = std::min( count, size( ) - std::min( size( ), offset ) );
-			return iter_view( std::next( begin( ), offset ),
-			                  std::next( begin( ), sz ) );
+			offset = std::min( size( ), offset );
+			auto const sz = std::min( count, size( ) - offset );
+			auto const first =
+			  std::next( begin( ), static_cast<difference_type>( offset ) );
+			return iter_view( first, sz );
 		}
 
 		constexpr size_type size( ) const {
@@ -338,7 +340,9 @@ namespace daw {
 			auto const f = m_first;
 			remove_prefix_until( needle );
 			auto result = iter_view( f, m_first );
-			remove_prefix( );
+			if( not empty( ) ) {
+				remove_prefix( );
+			}
 			return result;
 		}
 
@@ -354,7 +358,9 @@ namespace daw {
 			auto const f = m_first;
 			remove_prefix_while( needle );
 			auto result = iter_view( f, m_first );
-			remove_prefix( );
+			if( not empty( ) ) {
+				remove_prefix( );
+			}
 			return result;
 		}
 
-- 
2.43.0


From aa719a1a36a51448c0492c3fd07dfdc7eaecd1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:52 +0000
Subject: [PATCH 211/311] fix: contiguous_view subspan counts from its offset

---
 include/daw/daw_contiguous_view.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index 24e3749..6ac27ff 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -89,9 +89,9 @@ namespace daw {
 
 		constexpr contiguous_view
 		subspan( std::size_t offset, std::size_t count = std::size_t( -1 ) ) const {
-			auto const sz =
-			  std::min( { count, size( ) - std::min( { size( ), offset } ) } );
-			return contiguous_view( data( ) + offset, data( ) + sz );
+			offset = std::min( size( ), offset );
+			auto const sz = std::min( count, size( ) - offset );
+			return contiguous_view( m_first + offset, m_first + offset + sz );
 		}
 
 		/// This is potentially unsafe.  Decrements the start of range
@@ -486,8 +486,9 @@ namespace daw {
 
 		constexpr contiguous_view
 		subspan( std::size_t offset, std::size_t count = std::size_t( -1 ) ) const {
-			auto sz = std::min( count, size( ) - std::min( size( ), offset ) );
-			return contiguous_view( data( ) + offset, data( ) + sz );
+			offset = std::min( size( ), offset );
+			auto const sz = std::min( count, size( ) - offset );
+			return contiguous_view( m_first + offset, m_first + offset + sz );
 		}
 
 		/// This is potentially unsafe.  Decrements the start of range
-- 
2.43.0


From 567c37e183fa7508e124c8fe8cc4f492305eccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:53 +0000
Subject: [PATCH 212/311] fix: advance, prev move bidirectional iterators back
 the requested number of steps

---
 include/daw/cpp_17_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/cpp_17_iterator.h b/include/daw/cpp_17_iterator.h
index 822c211..51272eb 100644
--- a/include/daw/cpp_17_iterator.h
+++ b/include/daw/cpp_17_iterator.h
@@ -66,7 +66,7 @@ namespace daw {
 					++first;
 				}
 			} else {
-				while( ++n < 0 ) {
+				while( n++ < 0 ) {
 					--first;
 				}
 			}
-- 
2.43.0


From 177d6352208c38c7fa46706e392ff1855e058619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:55 +0000
Subject: [PATCH 213/311] fix: contiguous_view can be moved, discarding pops
 compile

---
 include/daw/daw_contiguous_view.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index 6ac27ff..1d07ece 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -49,6 +49,9 @@ namespace daw {
 	public:
 		explicit contiguous_view( ) = default;
 
+		contiguous_view( contiguous_view && ) = default;
+		contiguous_view &operator=( contiguous_view && ) = default;
+
 		constexpr contiguous_view( contiguous_view &other ) noexcept
 		  : m_first( other.m_first )
 		  , m_last( other.m_last ) {}
-- 
2.43.0


From 62e8778cbd4e84bb4efb9380aa47169fea748689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:48 +0000
Subject: [PATCH 214/311] fix: Filter applies its projection, keeps a single
 passing value

---
 include/daw/pipelines/filter.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/pipelines/filter.h b/include/daw/pipelines/filter.h
index f8ead4c..b4d7faf 100644
--- a/include/daw/pipelines/filter.h
+++ b/include/daw/pipelines/filter.h
@@ -47,7 +47,7 @@ namespace daw::pipelines {
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr bool
 		filter( auto const &v ) const {
-			return std::invoke( m_func, m_projection( v ) );
+			return std::invoke( m_func, std::invoke( m_projection, v ) );
 		}
 
 	public:
@@ -147,8 +147,8 @@ namespace daw::pipelines {
 				static_assert(
 				  std::convertible_to<std::invoke_result_t<Fn, projected_t>, bool>,
 				  "Filter requires an invokable function that returns a bool" );
-				return filter_view<iterator_t<R>, Fn>( std::begin( r ), std::end( r ),
-				                                       m_func, m_projection );
+				return filter_view<iterator_t<R>, Fn, Projection>(
+				  std::begin( r ), std::end( r ), m_func, m_projection );
 			}
 
 			template<typename Value>
@@ -159,9 +159,9 @@ namespace daw::pipelines {
 				static_assert(
 				  std::is_invocable_r_v<bool, Fn, projected_t>,
 				  "Filter requires an invokable function that returns a bool" );
-				using result_t = daw::remove_cvref_t<std::invoke_result_t<Fn, Value>>;
+				using result_t = daw::remove_cvref_t<Value>;
 				if( std::invoke( m_func, std::invoke( m_projection, v ) ) ) {
-					return std::optional<result_t>( std::invoke( m_func, DAW_FWD( v ) ) );
+					return std::optional<result_t>( std::in_place, DAW_FWD( v ) );
 				}
 				return std::optional<result_t>( );
 			}
-- 
2.43.0


From 4b2ba4e0894af48e697c286de578c88a48b152c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:48 +0000
Subject: [PATCH 215/311] fix: Unique works on lvalue ranges

---
 include/daw/pipelines/unique.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/unique.h b/include/daw/pipelines/unique.h
index 7483a04..81391bb 100644
--- a/include/daw/pipelines/unique.h
+++ b/include/daw/pipelines/unique.h
@@ -98,7 +98,7 @@ namespace daw::pipelines {
 		}
 	};
 	template<typename I>
-	unique_view( I ) -> unique_view<I>;
+	unique_view( I, I ) -> unique_view<I>;
 
 	template<Range R>
 	struct unique_range {
@@ -150,7 +150,7 @@ namespace daw::pipelines {
 				if constexpr( std::is_rvalue_reference_v<decltype( r )> ) {
 					return unique_range{ DAW_FWD( r ) };
 				} else {
-					return unique_view{ DAW_FWD( r ) };
+					return unique_view{ std::begin( r ), std::end( r ) };
 				}
 			}
 		};
-- 
2.43.0


From c821f8212b8ac6ae4b43891c0306ae8ac2116041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:48 +0000
Subject: [PATCH 216/311] fix: TakeWhile takes the leading elements that
 satisfy the predicate

---
 include/daw/pipelines/take.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index 7ca3dfd..b3ce56d 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -52,13 +52,13 @@ namespace daw::pipelines::pimpl {
 
 		[[nodiscard]] constexpr auto operator( )( auto &&value ) const {
 			if( m_trigger ) {
-				return true;
+				return false;
 			}
 			if( not m_func( DAW_FWD( value ) ) ) {
 				m_trigger = true;
-				return true;
+				return false;
 			}
-			return false;
+			return true;
 		}
 	};
 	template<typename Fn>
-- 
2.43.0


From 6deb988ff644a7fe8b5c9f3acadec68c3537dc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:48 +0000
Subject: [PATCH 217/311] fix: Split skips the whole of a range delimiter

---
 include/daw/pipelines/split.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/split.h b/include/daw/pipelines/split.h
index 2a2fb56..90aaf1a 100644
--- a/include/daw/pipelines/split.h
+++ b/include/daw/pipelines/split.h
@@ -35,7 +35,7 @@ namespace daw::pipelines {
 			std::ptrdiff_t length;
 
 			constexpr std::ptrdiff_t size( ) {
-				return 1;
+				return length;
 			}
 
 			constexpr delimiter_length_t( Delimiter const &d )
-- 
2.43.0


From 6711bc9bdd12dde21113f1cc15742b3ba666b7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:48 +0000
Subject: [PATCH 218/311] fix: Map applies its projection, iterator addition
 compiles

---
 include/daw/pipelines/map.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index e46a600..3de0453 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -72,23 +72,23 @@ namespace daw::pipelines {
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type
 		operator[]( size_type n ) const requires( RandomIterator<Iterator> ) {
-			return std::invoke( m_func, raw_get( n ) );
+			return std::invoke( m_func, std::invoke( m_projection, raw_get( n ) ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type operator*( ) {
-			return std::invoke( m_func, *m_iter );
+			return std::invoke( m_func, std::invoke( m_projection, *m_iter ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type operator*( ) const {
-			return std::invoke( m_func, *m_iter );
+			return std::invoke( m_func, std::invoke( m_projection, *m_iter ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr pointer operator->( ) {
-			return pointer( std::invoke( m_func, *m_iter ) );
+			return pointer( operator*( ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr pointer operator->( ) const {
-			return pointer( std::invoke( m_func, *m_iter ) );
+			return pointer( operator*( ) );
 		}
 
 		DAW_ATTRIB_INLINE constexpr map_iterator &operator++( ) {
@@ -131,7 +131,7 @@ namespace daw::pipelines {
 		operator+( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			map_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
@@ -139,12 +139,13 @@ namespace daw::pipelines {
 		operator-( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			map_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( map_iterator const &rhs ) requires( RandomIterator<Iterator> ) {
+		operator-( map_iterator const &rhs ) const
+		  requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
 
-- 
2.43.0


From 727f0ff201d8382f42e7f472b63cc90a90a10a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:30 +0000
Subject: [PATCH 219/311] fix: Chunk ends the last chunk at the end of the
 range, views of it can be copied and assigned

---
 include/daw/pipelines/chunk.h | 44 ++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/include/daw/pipelines/chunk.h b/include/daw/pipelines/chunk.h
index 246b438..76aad96 100644
--- a/include/daw/pipelines/chunk.h
+++ b/include/daw/pipelines/chunk.h
@@ -16,13 +16,14 @@
 #include "daw/pipelines/range.h"
 
 #include <cstddef>
+#include <iterator>
 
 namespace daw::pipelines::pimpl {
 	template<ForwardRange R>
 	struct chunk_view : range_base_t<chunk_view<R>> {
 		using iterator = daw::iterator_t<R>;
 		using const_iterator = daw::iterator_t<std::add_const_t<R>>;
-		using iterator_category = daw::range_category_t<R>;
+		using iterator_category = std::forward_iterator_tag;
 		using value_type = range_t<iterator>;
 		using reference = range_t<iterator>;
 		using const_reference = range_t<iterator>;
@@ -30,26 +31,21 @@ namespace daw::pipelines::pimpl {
 		using i_am_a_daw_chunk_view_iterator_class = void;
 
 	private:
-		using m_range_t = daw::remove_cvrvref_t<R>;
-		m_range_t m_range{ };
 		iterator m_iter{ };
+		iterator m_last{ };
 		difference_type m_chunk_size = 1;
 
-		[[nodiscard]] constexpr auto ra_end( ) {
-			return std::end( m_range );
-		}
-
-		[[nodiscard]] constexpr auto ra_end( ) const {
-			return std::end( m_range );
+		// The last chunk can be shorter than the others
+		[[nodiscard]] constexpr iterator chunk_end( ) const {
+			auto result = m_iter;
+			for( auto n = m_chunk_size; n > 0 and result != m_last; --n ) {
+				++result;
+			}
+			return result;
 		}
 
 		constexpr void increment( ) {
-			auto const last = ra_end( );
-			auto n = m_chunk_size;
-			while( n > 0 and m_iter != last ) {
-				--n;
-				++m_iter;
-			}
+			m_iter = chunk_end( );
 		}
 
 	public:
@@ -58,19 +54,19 @@ namespace daw::pipelines::pimpl {
 		template<Range U>
 		requires( not std::same_as<std::remove_reference_t<U>, chunk_view> ) //
 		  explicit chunk_view( U &&r )
-		  : m_range{ DAW_FWD( r ) }
-		  , m_iter{ std::begin( m_range ) } {}
+		  : m_iter{ std::begin( r ) }
+		  , m_last{ std::end( r ) } {}
 
 		explicit constexpr chunk_view( Range auto &&r, std::size_t chunk_size )
-		  : m_range{ DAW_FWD( r ) }
-		  , m_iter{ std::begin( m_range ) }
+		  : m_iter{ std::begin( r ) }
+		  , m_last{ std::end( r ) }
 		  , m_chunk_size{ static_cast<difference_type>( chunk_size ) } {}
 
 		[[nodiscard]] constexpr iterator &base( ) {
 			return m_iter;
 		}
 
-		[[nodiscard]] constexpr const_iterator &base( ) const {
+		[[nodiscard]] constexpr iterator const &base( ) const {
 			return m_iter;
 		}
 
@@ -84,13 +80,13 @@ namespace daw::pipelines::pimpl {
 
 		constexpr chunk_view end( ) {
 			auto result = *this;
-			result.m_iter = ra_end( );
+			result.m_iter = m_last;
 			return result;
 		}
 
 		constexpr chunk_view end( ) const {
 			auto result = *this;
-			result.m_iter = ra_end( );
+			result.m_iter = m_last;
 			return result;
 		}
 
@@ -106,11 +102,11 @@ namespace daw::pipelines::pimpl {
 		}
 
 		[[nodiscard]] constexpr reference operator*( ) noexcept {
-			return range_t<iterator>{ m_iter, std::next( m_iter, m_chunk_size ) };
+			return range_t<iterator>{ m_iter, chunk_end( ) };
 		}
 
 		[[nodiscard]] constexpr const_reference operator*( ) const noexcept {
-			return range_t<iterator>{ m_iter, std::next( m_iter, m_chunk_size ) };
+			return range_t<iterator>{ m_iter, chunk_end( ) };
 		}
 
 		[[nodiscard]] constexpr bool
-- 
2.43.0


From 20b76bff85fcc5c4a52f96b6124830a479c18fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:30 +0000
Subject: [PATCH 220/311] fix: Slide gives only whole windows, views of it can
 be copied and assigned

---
 include/daw/pipelines/slide.h | 51 +++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/include/daw/pipelines/slide.h b/include/daw/pipelines/slide.h
index c4bae70..fbfc04d 100644
--- a/include/daw/pipelines/slide.h
+++ b/include/daw/pipelines/slide.h
@@ -16,39 +16,40 @@
 #include "range.h"
 
 #include <cstddef>
+#include <iterator>
 
 namespace daw::pipelines::pimpl {
 	template<ForwardRange R>
 	struct slide_view {
 		using iterator = daw::iterator_t<R>;
 		using const_iterator = daw::const_iterator_t<R>;
-		using iterator_category = daw::range_category_t<R>;
+		using iterator_category = std::forward_iterator_tag;
 		using value_type = range_t<iterator>;
 		using reference = range_t<iterator>;
-		using const_reference = range_t<const_iterator>;
+		using const_reference = range_t<iterator>;
 		using difference_type = std::ptrdiff_t;
 		using i_am_a_daw_slide_view_iterator_class = void;
 
 	private:
-		using m_range_t = daw::remove_cvrvref_t<R>;
-		m_range_t m_range{ };
 		iterator m_iter{ };
+		iterator m_last{ };
 		difference_type m_slide_size = 1;
 
-		[[nodiscard]] constexpr auto ra_end( ) {
-			return std::end( m_range );
-		}
-
-		[[nodiscard]] constexpr auto ra_end( ) const {
-			return std::end( m_range );
+		[[nodiscard]] constexpr bool has_window( ) const {
+			auto it = m_iter;
+			for( auto n = m_slide_size; n > 0; --n ) {
+				if( it == m_last ) {
+					return false;
+				}
+				++it;
+			}
+			return true;
 		}
 
 		constexpr void increment( ) {
-			auto it = daw::safe_next( m_iter, ra_end( ), m_slide_size );
-			if( it == ra_end( ) ) {
-				m_iter = it;
-			} else {
-				++m_iter;
+			++m_iter;
+			if( not has_window( ) ) {
+				m_iter = m_last;
 			}
 		}
 
@@ -58,19 +59,23 @@ namespace daw::pipelines::pimpl {
 		template<Range U>
 		requires( not std::same_as<std::remove_cvref_t<U>, slide_view> ) //
 		  explicit slide_view( U &&r )
-		  : m_range{ DAW_FWD( r ) }
-		  , m_iter{ std::begin( m_range ) } {}
+		  : m_iter{ std::begin( r ) }
+		  , m_last{ std::end( r ) } {}
 
 		explicit constexpr slide_view( Range auto &&r, std::size_t slide_size )
-		  : m_range{ DAW_FWD( r ) }
-		  , m_iter{ std::begin( m_range ) }
-		  , m_slide_size{ static_cast<difference_type>( slide_size ) } {}
+		  : m_iter{ std::begin( r ) }
+		  , m_last{ std::end( r ) }
+		  , m_slide_size{ static_cast<difference_type>( slide_size ) } {
+			if( not has_window( ) ) {
+				m_iter = m_last;
+			}
+		}
 
 		[[nodiscard]] constexpr iterator &base( ) {
 			return m_iter;
 		}
 
-		[[nodiscard]] constexpr const_iterator &base( ) const {
+		[[nodiscard]] constexpr iterator const &base( ) const {
 			return m_iter;
 		}
 
@@ -84,13 +89,13 @@ namespace daw::pipelines::pimpl {
 
 		constexpr slide_view end( ) {
 			auto result = *this;
-			result.m_iter = ra_end( );
+			result.m_iter = m_last;
 			return result;
 		}
 
 		constexpr slide_view end( ) const {
 			auto result = *this;
-			result.m_iter = ra_end( );
+			result.m_iter = m_last;
 			return result;
 		}
 
-- 
2.43.0


From 066787eb458c4c42a6f6c6fc1c02ad5b566ff2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:38 +0000
Subject: [PATCH 221/311] fix: Flatten skips empty sub ranges, works on lvalue
 and const ranges

---
 include/daw/pipelines/flatten.h | 88 ++++++++++-----------------------
 1 file changed, 25 insertions(+), 63 deletions(-)

diff --git a/include/daw/pipelines/flatten.h b/include/daw/pipelines/flatten.h
index 8fab762..fe49018 100644
--- a/include/daw/pipelines/flatten.h
+++ b/include/daw/pipelines/flatten.h
@@ -23,7 +23,7 @@
 
 namespace daw::pipelines::pimpl {
 	template<ForwardRange R>
-	struct flatten_view_end_t {
+	struct flatten_view : range_base_t<flatten_view<R>> {
 		using iterator_t = daw::iterator_t<R>;
 		using sub_iterator_t = daw::iterator_t<daw::iter_reference_t<iterator_t>>;
 		using iterator_category = std::forward_iterator_tag;
@@ -31,62 +31,33 @@ namespace daw::pipelines::pimpl {
 		using reference = daw::iter_reference_t<sub_iterator_t>;
 		using const_reference = daw::iter_const_reference_t<sub_iterator_t>;
 		using difference_type = std::ptrdiff_t;
-
-		iterator_t m_range_first{ };
-	};
-
-	template<ForwardRange R>
-	struct flatten_view : range_base_t<flatten_view<R>, flatten_view_end_t<R>> {
-		using iterator_t = daw::iterator_t<R>;
-		using sub_iterator_t = daw::iterator_t<daw::iter_value_t<iterator_t>>;
-		using iterator_category = std::forward_iterator_tag;
-		using value_type = daw::iter_value_t<sub_iterator_t>;
-		using reference = daw::iter_reference_t<sub_iterator_t>;
-		using const_reference = daw::iter_const_reference_t<sub_iterator_t>;
-		using difference_type = std::ptrdiff_t;
 		using i_am_a_daw_flatten_view_class = void;
 
 	private:
-		using end_t = flatten_view_end_t<R>;
-
-		using m_range_t = daw::remove_cvrvref_t<R>;
-		mutable m_range_t m_range;
 		iterator_t m_range_first{ };
+		iterator_t m_range_last{ };
 		sub_iterator_t m_cur_first{ };
 
-		[[nodiscard]] constexpr auto rabegin( ) {
-			return std::begin( m_range );
-		}
-
-		[[nodiscard]] constexpr auto rabegin( ) const {
-			return std::begin( m_range );
-		}
-
-		[[nodiscard]] constexpr auto raend( ) {
-			return std::end( m_range );
-		}
-
-		[[nodiscard]] constexpr auto raend( ) const {
-			return std::end( m_range );
-		}
-
-		DAW_ATTRIB_INLINE constexpr void inc_range( ) {
-			assert( m_range_first != raend( ) );
-			++m_range_first;
-			if( m_range_first == raend( ) ) {
-				m_cur_first = sub_iterator_t{ };
-				assert( *this == end( ) );
-			} else {
+		// Move to the first element at or after the current sub range, empty sub
+		// ranges are skipped
+		DAW_ATTRIB_INLINE constexpr void find_sub_range( ) {
+			while( m_range_first != m_range_last ) {
 				m_cur_first = std::begin( *m_range_first );
+				if( m_cur_first != std::end( *m_range_first ) ) {
+					return;
+				}
+				++m_range_first;
 			}
+			m_cur_first = sub_iterator_t{ };
 		}
 
 		DAW_ATTRIB_INLINE constexpr void inc_sub_range( ) {
-			assert( m_cur_first != sub_iterator_t{ } );
+			assert( m_range_first != m_range_last );
 			assert( m_cur_first != std::end( *m_range_first ) );
 			++m_cur_first;
 			if( m_cur_first == std::end( *m_range_first ) ) {
-				inc_range( );
+				++m_range_first;
+				find_sub_range( );
 			}
 		}
 
@@ -97,18 +68,20 @@ namespace daw::pipelines::pimpl {
 		requires( not std::same_as<std::remove_cvref_t<U>,
 		                           flatten_view> ) //
 		  explicit constexpr flatten_view( U &&r )
-		  : m_range( DAW_FWD( r ) )
-		  , m_range_first( rabegin( ) )
-		  , m_cur_first( m_range_first == raend( )
-		                   ? sub_iterator_t{ }
-		                   : std::begin( *m_range_first ) ) {}
+		  : m_range_first( std::begin( r ) )
+		  , m_range_last( std::end( r ) ) {
+			find_sub_range( );
+		}
 
 		[[nodiscard]] constexpr flatten_view begin( ) const {
 			return *this;
 		}
 
-		[[nodiscard]] constexpr end_t end( ) const {
-			return end_t{ raend( ) };
+		[[nodiscard]] constexpr flatten_view end( ) const {
+			auto result = *this;
+			result.m_range_first = m_range_last;
+			result.m_cur_first = sub_iterator_t{ };
+			return result;
 		}
 
 		DAW_ATTRIB_NOINLINE constexpr flatten_view &operator++( ) {
@@ -123,16 +96,14 @@ namespace daw::pipelines::pimpl {
 		}
 
 		[[nodiscard]] constexpr reference operator*( ) noexcept {
-			assert( m_range_first != raend( ) );
+			assert( m_range_first != m_range_last );
 			assert( m_cur_first != std::end( *m_range_first ) );
-			assert( m_cur_first != sub_iterator_t{ } );
 			return *m_cur_first;
 		}
 
 		[[nodiscard]] constexpr const_reference operator*( ) const noexcept {
-			assert( m_range_first != raend( ) );
+			assert( m_range_first != m_range_last );
 			assert( m_cur_first != std::end( *m_range_first ) );
-			assert( m_cur_first != sub_iterator_t{ } );
 			return *m_cur_first;
 		}
 
@@ -144,15 +115,6 @@ namespace daw::pipelines::pimpl {
 
 		[[nodiscard]] constexpr bool
 		operator!=( flatten_view const &rhs ) const noexcept = default;
-
-		[[nodiscard]] DAW_ATTRIB_NOINLINE constexpr bool
-		operator==( end_t const &rhs ) const noexcept {
-			return m_range_first == rhs.m_range_first;
-		}
-
-		[[nodiscard]] constexpr bool operator!=( end_t const &rhs ) const noexcept {
-			return m_range_first != rhs.m_range_first;
-		}
 	};
 	template<Range R>
 	flatten_view( R && ) -> flatten_view<daw::remove_rvalue_ref_t<R>>;
-- 
2.43.0


From 44baecfbf4f316e1130420c2e67a1451808d0414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:55 +0000
Subject: [PATCH 222/311] fix: safe_next works on forward iterators

---
 include/daw/daw_algorithm.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 9a2d6bc..d3fd8b3 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -120,7 +120,9 @@ namespace daw {
 			for( ; it != last and dist > 0; --dist, ++it ) {}
 
 			// Move it backwards towards first
-			for( ; it != first and dist < 0; ++dist, --it ) {}
+			if constexpr( traits::is_bidirectional_access_iterator_v<Iterator> ) {
+				for( ; it != first and dist < 0; ++dist, --it ) {}
+			}
 		}
 
 		template<
-- 
2.43.0


From 9851acdd6cdc1c38845fbb5463b23e7c250d48b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:04 +0000
Subject: [PATCH 223/311] fix: zip ranges of different lengths compare, measure
 and reverse as their shortest

---
 include/daw/pipelines/zip.h | 38 +++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/include/daw/pipelines/zip.h b/include/daw/pipelines/zip.h
index be2e09e..e00ce10 100644
--- a/include/daw/pipelines/zip.h
+++ b/include/daw/pipelines/zip.h
@@ -130,7 +130,7 @@ namespace daw::pipelines {
 
 		[[nodiscard]] constexpr bool
 		operator==( zip_iterator const &rhs ) const noexcept {
-			return m_iters == rhs.m_iters;
+			return not( *this != rhs );
 		}
 
 		[[nodiscard]] constexpr bool
@@ -165,7 +165,8 @@ namespace daw::pipelines {
 			return get_at( n, zip_indices( ) );
 		}
 
-		[[nodiscard]] constexpr reference operator[]( difference_type n ) const
+		[[nodiscard]] constexpr const_reference
+		operator[]( difference_type n ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return get_at( n, zip_indices( ) );
 		}
@@ -198,25 +199,40 @@ namespace daw::pipelines {
 
 		constexpr difference_type operator-( zip_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
-			return std::get<0>( m_iters ) - std::get<0>( rhs.m_iters );
+			// they may not be the same length.  The shortest distance is the number
+			// of elements that can be reached
+			return [&]<std::size_t... Is>( std::index_sequence<Is...> ) {
+				using std::get;
+				difference_type result =
+				  static_cast<difference_type>( get<0>( m_iters ) - get<0>( rhs.m_iters ) );
+				auto const shortest = [&]( difference_type d ) {
+					if( ( d < 0 ? -d : d ) < ( result < 0 ? -result : result ) ) {
+						result = d;
+					}
+				};
+				( shortest( static_cast<difference_type>( get<Is>( m_iters ) -
+				                                          get<Is>( rhs.m_iters ) ) ),
+				  ... );
+				return result;
+			}( std::make_index_sequence<sizeof...( Iterators )>{ } );
 		}
 
-		[[nodiscard]] constexpr bool operator<( zip_iterator const &rhs )
+		[[nodiscard]] constexpr bool operator<( zip_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return m_iters < rhs.m_iters;
 		}
 
-		[[nodiscard]] constexpr bool operator<=( zip_iterator const &rhs )
+		[[nodiscard]] constexpr bool operator<=( zip_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return m_iters <= rhs.m_iters;
 		}
 
-		[[nodiscard]] constexpr bool operator>( zip_iterator const &rhs )
+		[[nodiscard]] constexpr bool operator>( zip_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return m_iters > rhs.m_iters;
 		}
 
-		[[nodiscard]] constexpr bool operator>=( zip_iterator const &rhs )
+		[[nodiscard]] constexpr bool operator>=( zip_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return m_iters >= rhs.m_iters;
 		}
@@ -237,7 +253,13 @@ namespace daw::pipelines {
 		template<Range... Rs>
 		explicit constexpr zip_view( Rs &&...rs )
 		  : m_first( ( std::begin( DAW_FWD( rs ) ) )... )
-		  , m_last( ( std::end( DAW_FWD( rs ) ) )... ) {}
+		  , m_last( ( std::end( DAW_FWD( rs ) ) )... ) {
+			if constexpr( RandomIteratorTag<typename iterator::iterator_category> ) {
+				// end at the end of the shortest range so that going backwards from
+				// it visits the same elements
+				m_last = m_first + ( m_last - m_first );
+			}
+		}
 
 		[[nodiscard]] constexpr iterator begin( ) const {
 			return m_first;
-- 
2.43.0


From cdf0636d45bf9bf75e9fd8e91346320307b499b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:04 +0000
Subject: [PATCH 224/311] fix: Enumerate numbers const ranges, EnumerateApply
 gives the numbered range

---
 include/daw/pipelines/enumerate.h | 40 +++++++++++++++----------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/include/daw/pipelines/enumerate.h b/include/daw/pipelines/enumerate.h
index 2279da1..92e31b1 100644
--- a/include/daw/pipelines/enumerate.h
+++ b/include/daw/pipelines/enumerate.h
@@ -18,13 +18,26 @@
 #include <limits>
 
 namespace daw::pipelines::pimpl {
+	// The numbers, starting at first, for a range
+	template<typename EnumType>
+	[[nodiscard]] constexpr iota_view<EnumType>
+	enumeration( EnumType first, Range auto const &r ) {
+		if constexpr( RandomRange<decltype( r )> ) {
+			auto const sz = static_cast<EnumType>(
+			  std::distance( std::begin( r ), std::end( r ) ) );
+			return iota_view<EnumType>( first, static_cast<EnumType>( first + sz ) );
+		} else {
+			return iota_view<EnumType>( first, max_value<EnumType> );
+		}
+	}
+
 	template<typename EnumType = std::size_t>
 	struct Enumerate_t {
 		template<Range R>
 		[[nodiscard]] DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
-			return zip_view<iota_view<EnumType>, daw::remove_cvref_t<R>>(
-			  iota_view<EnumType>( 0, max_value<EnumType> ), DAW_FWD( r ) );
+			return zip_view<iota_view<EnumType>, R>(
+			  enumeration( EnumType{ }, r ), DAW_FWD( r ) );
 		}
 	};
 
@@ -33,8 +46,8 @@ namespace daw::pipelines::pimpl {
 		EnumType offset = EnumType{ };
 		template<Range R>
 		[[nodiscard]] constexpr auto operator( )( R &&r ) const {
-			return zip_view<iota_view<EnumType>, daw::remove_cvref_t<R>>(
-			  iota_view<EnumType>( offset, max_value<EnumType> ), DAW_FWD( r ) );
+			return zip_view<iota_view<EnumType>, R>(
+			  enumeration( offset, r ), DAW_FWD( r ) );
 		}
 	};
 
@@ -43,14 +56,7 @@ namespace daw::pipelines::pimpl {
 		template<Range R>
 		[[nodiscard]] DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
-			if constexpr( RandomRange<R> ) {
-				auto const sz = static_cast<EnumType>(
-				  std::distance( std::begin( r ), std::end( r ) ) );
-				return ZipMore( iota_view<EnumType>( EnumType{ }, sz ), DAW_FWD( r ) );
-			} else {
-				return ZipMore( iota_view<EnumType>( EnumType{ }, max_value<EnumType> ),
-				                DAW_FWD( r ) );
-			}
+			return ZipMore( enumeration( EnumType{ }, r ) )( DAW_FWD( r ) );
 		}
 	};
 
@@ -59,15 +65,7 @@ namespace daw::pipelines::pimpl {
 		EnumType offset = EnumType{ };
 		template<Range R>
 		[[nodiscard]] constexpr auto operator( )( R &&r ) const {
-			if constexpr( RandomRange<R> ) {
-				auto const sz = static_cast<EnumType>(
-				  std::distance( std::begin( r ), std::end( r ) ) );
-				return ZipMore( iota_view<EnumType>( offset, offset + sz ),
-				                DAW_FWD( r ) );
-			} else {
-				return ZipMore( iota_view<EnumType>( offset, max_value<EnumType> ),
-				                DAW_FWD( r ) );
-			}
+			return ZipMore( enumeration( offset, r ) )( DAW_FWD( r ) );
 		}
 	};
 } // namespace daw::pipelines::pimpl
-- 
2.43.0


From e4b3a598c663f924d9e83a4bf6badb6591a39987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:04 +0000
Subject: [PATCH 225/311] fix: iota iterator can be indexed

---
 include/daw/pipelines/iota.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/pipelines/iota.h b/include/daw/pipelines/iota.h
index 6183f0f..06574a9 100644
--- a/include/daw/pipelines/iota.h
+++ b/include/daw/pipelines/iota.h
@@ -86,14 +86,14 @@ namespace daw::pipelines {
 		[[nodiscard]] constexpr iota_iterator
 		operator+( difference_type n ) const noexcept {
 			iota_iterator result = *this;
-			result.value += n;
+			result += n;
 			return result;
 		}
 
 		[[nodiscard]] constexpr iota_iterator
 		operator-( difference_type n ) const noexcept {
 			iota_iterator result = *this;
-			result.value -= n;
+			result -= n;
 			return result;
 		}
 
@@ -103,12 +103,12 @@ namespace daw::pipelines {
 		}
 
 		[[nodiscard]] constexpr reference operator[]( size_type n ) noexcept {
-			return *( value + static_cast<difference_type>( n ) );
+			return *( *this + static_cast<difference_type>( n ) );
 		}
 
 		[[nodiscard]] constexpr const_reference
 		operator[]( size_type n ) const noexcept {
-			return *( value + static_cast<difference_type>( n ) );
+			return *( *this + static_cast<difference_type>( n ) );
 		}
 
 		[[nodiscard]] friend constexpr bool operator==( iota_iterator const &lhs,
-- 
2.43.0


From 08184b889d577c2ec54ffeba3d04a77ef5ad4b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:04 +0000
Subject: [PATCH 226/311] fix: Element and Elements iterators can be added to
 and subtracted

---
 include/daw/pipelines/elements.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index 8ab4499..9adeae5 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -122,7 +122,7 @@ namespace daw::pipelines::pimpl {
 		operator+( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			element_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
@@ -130,12 +130,12 @@ namespace daw::pipelines::pimpl {
 		operator-( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			element_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( element_iterator const &rhs )
+		operator-( element_iterator const &rhs ) const
 		  requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
@@ -314,7 +314,7 @@ namespace daw::pipelines::pimpl {
 		operator+( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			elements_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
@@ -322,12 +322,12 @@ namespace daw::pipelines::pimpl {
 		operator-( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			elements_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( elements_iterator const &rhs )
+		operator-( elements_iterator const &rhs ) const
 		  requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
-- 
2.43.0


From 5142f87f790bf82d0dff62a4a211f0da519bd850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:04 +0000
Subject: [PATCH 227/311] fix: range_t difference counts from the right to the
 left operand

---
 include/daw/pipelines/range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/range.h b/include/daw/pipelines/range.h
index 7f7e20d..dddaa55 100644
--- a/include/daw/pipelines/range.h
+++ b/include/daw/pipelines/range.h
@@ -152,7 +152,7 @@ namespace daw::pipelines {
 
 		constexpr difference_type operator-( range_t const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
-			return std::distance( first, rhs.first );
+			return std::distance( rhs.first, first );
 		}
 
 		constexpr bool operator==( range_t const &rhs ) const = default;
-- 
2.43.0


From 8fdb59ea751bd0426e5b91598b8a6ecaa7150996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:51 +0000
Subject: [PATCH 228/311] fix: Concat skips empty ranges

---
 include/daw/pipelines/concat.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/daw/pipelines/concat.h b/include/daw/pipelines/concat.h
index 09c867e..28047aa 100644
--- a/include/daw/pipelines/concat.h
+++ b/include/daw/pipelines/concat.h
@@ -54,19 +54,31 @@ namespace daw::pipelines {
 			                   std::end( std::get<Is>( std::move( ranges ) ) ) )... };
 		}
 
+		// Move past the ranges that have no more elements, stop on the last
+		constexpr void skip_finished( ) {
+			while( m_index + 1 < m_ranges.size( ) and
+			       daw::visit_nt( m_ranges[m_index], []( auto &p ) -> bool {
+				       return p.first == p.second;
+			       } ) ) {
+				++m_index;
+			}
+		}
+
 	public:
 		explicit concat_view( ) = default;
 
 		explicit constexpr concat_view( Ranges... ranges )
 		  : m_ranges(
 		      get_iter_pair( std::make_index_sequence<sizeof...( Ranges )>{ },
-		                     std::tuple{ std::move( ranges )... } ) ) {}
+		                     std::tuple{ std::move( ranges )... } ) ) {
+			skip_finished( );
+		}
 
-		concat_view begin( ) const {
+		constexpr concat_view begin( ) const {
 			return *this;
 		}
 
-		concat_view end( ) const {
+		constexpr concat_view end( ) const {
 			auto result = *this;
 			result.m_index = m_ranges.size( ) - 1;
 			for( auto &r : result.m_ranges ) {
@@ -80,10 +92,8 @@ namespace daw::pipelines {
 		constexpr concat_view &operator++( ) {
 			daw::visit_nt( m_ranges[m_index], [&]( auto &p ) {
 				++p.first;
-				if( p.first == p.second ) {
-					++m_index;
-				}
 			} );
+			skip_finished( );
 			return *this;
 		}
 
-- 
2.43.0


From bfcdccf7e61e30e4b673e3f26c2ef3eae59b743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:05 +0000
Subject: [PATCH 229/311] fix: Element and Elements accept the result of
 another stage

---
 include/daw/pipelines/elements.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index 9adeae5..1bd8d19 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -182,8 +182,8 @@ namespace daw::pipelines::pimpl {
 
 		template<daw::Range U>
 		explicit constexpr element_view( U &&r )
-		  : m_first( std::begin( daw::forward_lvalue<U>( r ) ) )
-		  , m_last( std::end( daw::forward_lvalue<U>( r ) ) ) {}
+		  : m_first( std::begin( r ) )
+		  , m_last( std::end( r ) ) {}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr iterator_first_t begin( ) const {
 			return m_first;
@@ -202,7 +202,7 @@ namespace daw::pipelines::pimpl {
 		DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
 			return element_view<daw::remove_rvalue_ref_t<R>, Index>{
-			  daw::forward_lvalue<R>( r ) };
+			  DAW_FWD( r ) };
 		}
 	};
 
@@ -375,8 +375,8 @@ namespace daw::pipelines::pimpl {
 
 		template<daw::Range U>
 		explicit constexpr elements_view( U &&r )
-		  : m_first( std::begin( daw::forward_lvalue<U>( r ) ) )
-		  , m_last( std::end( daw::forward_lvalue<U>( r ) ) ) {}
+		  : m_first( std::begin( r ) )
+		  , m_last( std::end( r ) ) {}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr iterator_first_t begin( ) const {
 			return m_first;
@@ -395,7 +395,7 @@ namespace daw::pipelines::pimpl {
 		DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
 			return elements_view<daw::remove_rvalue_ref_t<R>, Indices...>{
-			  daw::forward_lvalue<R>( r ) };
+			  DAW_FWD( r ) };
 		}
 	};
 
-- 
2.43.0


From ff6a602d1fe620f5f3b23814c87957cbdd6d00c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:58 +0000
Subject: [PATCH 230/311] fix: pipeline keeps the result of each stage until
 the last one has run

---
 include/daw/pipelines/pipeline.h | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/include/daw/pipelines/pipeline.h b/include/daw/pipelines/pipeline.h
index 8d44199..8e973aa 100644
--- a/include/daw/pipelines/pipeline.h
+++ b/include/daw/pipelines/pipeline.h
@@ -38,12 +38,13 @@ namespace daw::pipelines::pimpl {
 	[[nodiscard]] DAW_ATTRIB_FLATINLINE constexpr auto
 	pipeline( std::tuple<Ts...> const &functions, R &&r, Ranges &&...ranges ) {
 		using std::get;
-		if constexpr( Idx > 0 ) {
+		if constexpr( Idx + 1 < sizeof...( Ts ) ) {
+			// The next stages can refer to this result, it must outlive them
 			auto &&param =
-			  pipeline<Idx - 1>( functions, DAW_FWD( r ), DAW_FWD( ranges )... );
-			return get<Idx>( functions )( DAW_FWD( param ) );
+			  get<Idx>( functions )( DAW_FWD( r ), DAW_FWD( ranges )... );
+			return pipeline<Idx + 1>( functions, DAW_FWD( param ) );
 		} else {
-			return get<0>( functions )( DAW_FWD( r ), DAW_FWD( ranges )... );
+			return get<Idx>( functions )( DAW_FWD( r ), DAW_FWD( ranges )... );
 		}
 	}
 
@@ -103,7 +104,7 @@ namespace daw::pipelines::pimpl {
 namespace daw::pipelines {
 	template<Range R, typename... Fns>
 	DAW_ATTRIB_FLATTEN constexpr auto pipeline( R &&r, Fns &&...fns ) {
-		return pimpl::pipeline<sizeof...( Fns ) - 1>(
+		return pimpl::pipeline<0>(
 		  pimpl::make_tpfns<true>( DAW_FWD( fns )... ),
 		  pimpl::fix_range( DAW_FWD( r ) ) );
 	}
@@ -117,14 +118,9 @@ namespace daw::pipelines {
 		    Range auto &&r, Range auto &&...rs ) {
 			  // We are going to forward refs to the current tuple to ensure it is
 			  // only stored here if there are large callables passed
-			  using tp_size = daw::constant<std::tuple_size_v<DAW_TYPEOF( tpfns )>>;
-			  return [&]<std::size_t... Is>( std::index_sequence<Is...> ) {
-				  return pimpl::pipeline<tp_size::value - 1>(
-				    tpfns,
-				    // std::forward_as_tuple( std::get<Is>( tpfns )... ),
-				    pimpl::fix_range( DAW_FWD( r ) ),
-				    pimpl::fix_range( DAW_FWD( rs ) )... );
-			  }( std::make_index_sequence<std::tuple_size_v<decltype( tpfns )>>{ } );
+			  return pimpl::pipeline<0>( tpfns,
+			                             pimpl::fix_range( DAW_FWD( r ) ),
+			                             pimpl::fix_range( DAW_FWD( rs ) )... );
 		  };
 	}
 } // namespace daw::pipelines
-- 
2.43.0


From 6053c4581870e644caa297d4c7f6c73850f140ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:04 +0000
Subject: [PATCH 231/311] fix: zip_view ends at its shortest range without
 assigning iterators

---
 include/daw/pipelines/zip.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/daw/pipelines/zip.h b/include/daw/pipelines/zip.h
index e00ce10..b6e864d 100644
--- a/include/daw/pipelines/zip.h
+++ b/include/daw/pipelines/zip.h
@@ -248,18 +248,26 @@ namespace daw::pipelines {
 		iterator m_first = iterator{ };
 		iterator m_last = iterator{ };
 
+	private:
+		// End at the end of the shortest range so that going backwards from it
+		// visits the same elements
+		[[nodiscard]] static constexpr iterator last_of( iterator const &first,
+		                                                 iterator const &last ) {
+			if constexpr( RandomIteratorTag<typename iterator::iterator_category> ) {
+				return first + ( last - first );
+			} else {
+				return last;
+			}
+		}
+
+	public:
 		explicit zip_view( ) = default;
 
 		template<Range... Rs>
 		explicit constexpr zip_view( Rs &&...rs )
 		  : m_first( ( std::begin( DAW_FWD( rs ) ) )... )
-		  , m_last( ( std::end( DAW_FWD( rs ) ) )... ) {
-			if constexpr( RandomIteratorTag<typename iterator::iterator_category> ) {
-				// end at the end of the shortest range so that going backwards from
-				// it visits the same elements
-				m_last = m_first + ( m_last - m_first );
-			}
-		}
+		  , m_last(
+		      last_of( m_first, iterator( ( std::end( DAW_FWD( rs ) ) )... ) ) ) {}
 
 		[[nodiscard]] constexpr iterator begin( ) const {
 			return m_first;
-- 
2.43.0


From d4686645a15a4e969cfb4c6f947f80b2ddb7149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:32 +0000
Subject: [PATCH 232/311] fix: pipelines Sort, Max, Min and MinMax accept a
 comparison and a projection

---
 include/daw/pipelines/algorithm.h | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/daw/pipelines/algorithm.h b/include/daw/pipelines/algorithm.h
index 73a1e87..f82728c 100644
--- a/include/daw/pipelines/algorithm.h
+++ b/include/daw/pipelines/algorithm.h
@@ -30,9 +30,14 @@ namespace daw::pipelines {
 			DAW_NO_UNIQUE_ADDRESS Compare m_compare{ };
 			DAW_NO_UNIQUE_ADDRESS Projection m_projection{ };
 
-			[[nodiscard]] DAW_CPP23_STATIC_CALL_OP constexpr auto
-			operator( )( auto &&compare ) DAW_CPP23_STATIC_CALL_OP_CONST {
-				return Sort_t{ DAW_FWD( compare ) };
+			template<typename C, typename P = std::identity>
+			requires( not Range<C> ) //
+			  [[nodiscard]] DAW_CPP23_STATIC_CALL_OP
+			  constexpr auto operator( )( C &&compare, P &&projection = P{ } )
+			    DAW_CPP23_STATIC_CALL_OP_CONST {
+				return Sort_t<daw::remove_cvref_t<C>, daw::remove_cvref_t<P>>{
+				  DAW_FWD( compare ),
+				  DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr decltype( auto )
@@ -65,9 +70,11 @@ namespace daw::pipelines {
 			requires( not Range<C> ) //
 			  [[nodiscard]] DAW_CPP23_STATIC_CALL_OP
 			  constexpr auto operator( )( C &&compare,
-			                              P &&projection = Projection{ } )
+			                              P &&projection = P{ } )
 			    DAW_CPP23_STATIC_CALL_OP_CONST {
-				return Max_t{ DAW_FWD( compare ), DAW_FWD( projection ) };
+				return Max_t<daw::remove_cvref_t<C>, daw::remove_cvref_t<P>>{
+				  DAW_FWD( compare ),
+				  DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
@@ -99,9 +106,11 @@ namespace daw::pipelines {
 			requires( not Range<C> ) //
 			  [[nodiscard]] DAW_CPP23_STATIC_CALL_OP
 			  constexpr auto operator( )( C &&compare,
-			                              P &&projection = Projection{ } )
+			                              P &&projection = P{ } )
 			    DAW_CPP23_STATIC_CALL_OP_CONST {
-				return Min_t{ DAW_FWD( compare ), DAW_FWD( projection ) };
+				return Min_t<daw::remove_cvref_t<C>, daw::remove_cvref_t<P>>{
+				  DAW_FWD( compare ),
+				  DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
@@ -133,9 +142,11 @@ namespace daw::pipelines {
 			requires( not Range<C> ) //
 			  [[nodiscard]] DAW_CPP23_STATIC_CALL_OP
 			  constexpr auto operator( )( C &&compare,
-			                              P &&projection = Projection{ } )
+			                              P &&projection = P{ } )
 			    DAW_CPP23_STATIC_CALL_OP_CONST {
-				return MinMax_t{ DAW_FWD( compare ), DAW_FWD( projection ) };
+				return MinMax_t<daw::remove_cvref_t<C>, daw::remove_cvref_t<P>>{
+				  DAW_FWD( compare ),
+				  DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
-- 
2.43.0


From d50bb28ae0a9bc88ba1dc331d9f2797249344529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:32 +0000
Subject: [PATCH 233/311] fix: SumKahanBabushkaNeumaier applies its projection
 to the element

---
 include/daw/pipelines/numeric.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/numeric.h b/include/daw/pipelines/numeric.h
index 248fa92..b92e0ba 100644
--- a/include/daw/pipelines/numeric.h
+++ b/include/daw/pipelines/numeric.h
@@ -94,7 +94,7 @@ namespace daw::pipelines {
 						if constexpr( std::is_same_v<Projection, IdentityFn_t> ) {
 							return cur_v;
 						} else {
-							return std::invoke( cur_v, m_projection );
+							return std::invoke( m_projection, cur_v );
 						}
 					}( );
 					auto t = sum + input;
-- 
2.43.0


From 2655e8d1a5b37f5dc6e5524d0f91fa7c1b4bc040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:32 +0000
Subject: [PATCH 234/311] fix: zip_view takes the iterator type it declares
 from temporary ranges

---
 include/daw/pipelines/zip.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/zip.h b/include/daw/pipelines/zip.h
index b6e864d..7d1bcd1 100644
--- a/include/daw/pipelines/zip.h
+++ b/include/daw/pipelines/zip.h
@@ -265,9 +265,8 @@ namespace daw::pipelines {
 
 		template<Range... Rs>
 		explicit constexpr zip_view( Rs &&...rs )
-		  : m_first( ( std::begin( DAW_FWD( rs ) ) )... )
-		  , m_last(
-		      last_of( m_first, iterator( ( std::end( DAW_FWD( rs ) ) )... ) ) ) {}
+		  : m_first( std::begin( rs )... )
+		  , m_last( last_of( m_first, iterator( std::end( rs )... ) ) ) {}
 
 		[[nodiscard]] constexpr iterator begin( ) const {
 			return m_first;
-- 
2.43.0


From b95e73f32c468d9f36be7b2eeba8868b25ca104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:33 +0000
Subject: [PATCH 235/311] fix: split_view iterators advance and compare without
 being dereferenced first

---
 include/daw/pipelines/split.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/split.h b/include/daw/pipelines/split.h
index 90aaf1a..a4ef328 100644
--- a/include/daw/pipelines/split.h
+++ b/include/daw/pipelines/split.h
@@ -97,6 +97,7 @@ namespace daw::pipelines {
 		}
 
 		constexpr split_view_iterator &operator++( ) {
+			increment_iterator( );
 			assert( m_next );
 			m_first = std::move( *m_next );
 			m_next.reset( );
@@ -119,8 +120,7 @@ namespace daw::pipelines {
 		}
 
 		constexpr bool operator==( split_view_iterator const &rhs ) const {
-			return m_first == rhs.m_first and m_last == rhs.m_last and
-			       m_next == rhs.m_next;
+			return m_first == rhs.m_first and m_last == rhs.m_last;
 		}
 		constexpr bool operator!=( split_view_iterator const &rhs ) const = default;
 	};
-- 
2.43.0


From b2bacf8783d5c5a0a6989cdfc14eac23603cb4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:45 +0000
Subject: [PATCH 236/311] fix: sized_iterator orders const iterators

---
 include/daw/pipelines/sized_iterator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/pipelines/sized_iterator.h b/include/daw/pipelines/sized_iterator.h
index 26fc392..5e49613 100644
--- a/include/daw/pipelines/sized_iterator.h
+++ b/include/daw/pipelines/sized_iterator.h
@@ -154,25 +154,25 @@ namespace daw::pipelines {
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr bool
-		operator<( sized_iterator const &rhs )
+		operator<( sized_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return m_count > rhs.m_count;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr bool
-		operator<=( sized_iterator const &rhs )
+		operator<=( sized_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return m_count >= rhs.m_count;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr bool
-		operator>( sized_iterator const &rhs )
+		operator>( sized_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return m_count < rhs.m_count;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr bool
-		operator>=( sized_iterator const &rhs )
+		operator>=( sized_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return m_count <= rhs.m_count;
 		}
-- 
2.43.0


From 5ab2f35fe856dfdc97605428221b21ff9283dae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:35 +0000
Subject: [PATCH 237/311] fix: Element and Elements accept ranges whose
 iterators refer to tuples

---
 include/daw/pipelines/elements.h | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index 1bd8d19..ef7d494 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -16,14 +16,30 @@
 #include <type_traits>
 
 namespace daw::pipelines::pimpl {
+	// The type of an element of the tuple-like an iterator gives.  It is a
+	// reference when the iterator refers to the tuple
+	template<std::size_t Index, typename Reference>
+	struct element_reference {
+		using type = std::tuple_element_t<Index, std::remove_reference_t<Reference>>;
+	};
+
+	template<std::size_t Index, typename Tuple>
+	struct element_reference<Index, Tuple &> {
+		using type = decltype( std::get<Index>( std::declval<Tuple &>( ) ) );
+	};
+
+	template<std::size_t Index, typename Reference>
+	using element_reference_t =
+	  typename element_reference<Index, Reference>::type;
+
 	template<Iterator Iterator, std::size_t Index>
 	struct element_iterator {
 		using iterator_category = daw::iter_category_t<Iterator>;
-		using value_type =
-		  std::tuple_element_t<Index, daw::iter_reference_t<Iterator>>;
-		using reference = value_type;
+		using reference =
+		  element_reference_t<Index, daw::iter_reference_t<Iterator>>;
+		using value_type = daw::remove_cvref_t<reference>;
 		using const_reference =
-		  std::tuple_element_t<Index, daw::iter_const_reference_t<Iterator>>;
+		  element_reference_t<Index, daw::iter_const_reference_t<Iterator>>;
 		using pointer = arrow_proxy<reference>;
 		using const_pointer = arrow_proxy<const_reference>;
 		using difference_type = std::ptrdiff_t;
@@ -210,10 +226,10 @@ namespace daw::pipelines::pimpl {
 	struct elements_iterator {
 		using iterator_category = daw::iter_category_t<Iterator>;
 		using value_type = std::tuple<
-		  std::tuple_element_t<Indices, daw::iter_reference_t<Iterator>>...>;
+		  element_reference_t<Indices, daw::iter_reference_t<Iterator>>...>;
 		using reference = value_type;
 		using const_reference = std::tuple<
-		  std::tuple_element_t<Indices, daw::iter_const_reference_t<Iterator>>...>;
+		  element_reference_t<Indices, daw::iter_const_reference_t<Iterator>>...>;
 		using pointer = arrow_proxy<reference>;
 		using const_pointer = arrow_proxy<const_reference>;
 		using difference_type = std::ptrdiff_t;
@@ -231,7 +247,7 @@ namespace daw::pipelines::pimpl {
 		template<typename I>
 		[[nodiscard]] DAW_ATTRIB_INLINE static constexpr auto raw_get( I &&iter ) {
 			using result_t =
-			  std::tuple<std::tuple_element_t<Indices, daw::iter_reference_t<I>>...>;
+			  std::tuple<element_reference_t<Indices, daw::iter_reference_t<I>>...>;
 			auto &&r = *DAW_FWD( iter );
 			return result_t{ std::get<Indices>( r )... };
 		}
-- 
2.43.0


From ee63385d72f8efe3d3f9f5278c682e0f01ffae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:35 +0000
Subject: [PATCH 238/311] fix: Map, Element and Elements iterators order over
 any random access iterator

---
 include/daw/pipelines/elements.h | 4 ++--
 include/daw/pipelines/map.h      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index ef7d494..f1a3b5c 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -170,7 +170,7 @@ namespace daw::pipelines::pimpl {
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr friend auto
 		operator<=>( element_iterator const &lhs, element_iterator const &rhs )
 		  requires( RandomIterator<Iterator> ) {
-			return lhs.m_iter <=> rhs.m_iter;
+			return ( lhs.m_iter - rhs.m_iter ) <=> difference_type{ 0 };
 		}
 		// clang-format on
 	};
@@ -362,7 +362,7 @@ namespace daw::pipelines::pimpl {
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr friend auto
 		operator<=>( elements_iterator const &lhs, elements_iterator const &rhs )
 		  requires( RandomIterator<Iterator> ) {
-			return lhs.m_iter <=> rhs.m_iter;
+			return ( lhs.m_iter - rhs.m_iter ) <=> difference_type{ 0 };
 		}
 		// clang-format on
 	};
diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index 3de0453..71bf118 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -163,7 +163,7 @@ namespace daw::pipelines {
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr friend auto
 		operator<=>( map_iterator const &lhs, map_iterator const &rhs )
 		  requires( RandomIterator<Iterator> ) {
-			return lhs.m_iter <=> rhs.m_iter;
+			return ( lhs.m_iter - rhs.m_iter ) <=> difference_type{ 0 };
 		}
 		// clang-format on
 	};
-- 
2.43.0


From 65a2612312b557c330585e160af2d9da4c73e9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:35 +0000
Subject: [PATCH 239/311] fix: CacheLast accepts const ranges

---
 include/daw/pipelines/cache_last_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/cache_last_view.h b/include/daw/pipelines/cache_last_view.h
index 7250bc2..1295b43 100644
--- a/include/daw/pipelines/cache_last_view.h
+++ b/include/daw/pipelines/cache_last_view.h
@@ -131,7 +131,7 @@ namespace daw::pipelines {
 	};
 
 	template<Range R>
-	cache_last_view( R ) -> cache_last_view<R>;
+	cache_last_view( R && ) -> cache_last_view<R>;
 
 	namespace pimpl {
 		struct CacheLast_t {
-- 
2.43.0


From 120ba0514fc0c540261eab352b6e18b66f80b3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:11 +0000
Subject: [PATCH 240/311] fix: Take ends at the last element taken, so its
 result can be reversed, and accepts any count

---
 include/daw/pipelines/take.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index b3ce56d..cf26b98 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -32,12 +32,13 @@ namespace daw::pipelines::pimpl {
 			auto last = std::end( r );
 
 			if constexpr( ForwardIterator<iter_t> ) {
-				auto const range_size = std::distance( first, last );
-				auto take_size =
-				  std::min( { range_size, static_cast<std::ptrdiff_t>( how_many ) } );
-				return range_t{ sized_iterator<iter_t>{
-				                  first, static_cast<std::size_t>( take_size ) },
-				                sized_iterator<iter_t>{ last, 0 } };
+				auto const range_size =
+				  static_cast<std::size_t>( std::distance( first, last ) );
+				auto const take_size = std::min( { range_size, how_many } );
+				auto const take_last =
+				  std::next( first, static_cast<std::ptrdiff_t>( take_size ) );
+				return range_t{ sized_iterator<iter_t>{ first, take_size },
+				                sized_iterator<iter_t>{ take_last, 0 } };
 			} else {
 				return range_t{ sized_iterator<iter_t>{ first, how_many },
 				                sized_iterator<iter_t>{ last, 0 } };
-- 
2.43.0


From 29c1bf53138c2c4d8953ed92eae46f08bc8a42d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:34 +0000
Subject: [PATCH 241/311] fix: Skip accepts any count

---
 include/daw/pipelines/skip.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/pipelines/skip.h b/include/daw/pipelines/skip.h
index d92bce6..2a44c27 100644
--- a/include/daw/pipelines/skip.h
+++ b/include/daw/pipelines/skip.h
@@ -27,10 +27,10 @@ namespace daw::pipelines::pimpl {
 			auto last = std::end( r );
 
 			if constexpr( ForwardIterator<iter_t> ) {
-				auto const range_size = std::distance( first, last );
-				auto const skip =
-				  std::min( { static_cast<std::ptrdiff_t>( how_many ), range_size } );
-				first = std::next( first, skip );
+				auto const range_size =
+				  static_cast<std::size_t>( std::distance( first, last ) );
+				auto const skip = std::min( { how_many, range_size } );
+				first = std::next( first, static_cast<std::ptrdiff_t>( skip ) );
 			} else {
 				// Input
 				for( auto n = how_many; n > 0; --n ) {
-- 
2.43.0


From 84e0a1e1232d57022394bde69d72f44c47fb5317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:54 +0000
Subject: [PATCH 242/311] fix: Chunk and Slide accept any size

---
 include/daw/pipelines/chunk.h | 4 ++--
 include/daw/pipelines/slide.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/pipelines/chunk.h b/include/daw/pipelines/chunk.h
index 76aad96..3b2cacd 100644
--- a/include/daw/pipelines/chunk.h
+++ b/include/daw/pipelines/chunk.h
@@ -33,7 +33,7 @@ namespace daw::pipelines::pimpl {
 	private:
 		iterator m_iter{ };
 		iterator m_last{ };
-		difference_type m_chunk_size = 1;
+		std::size_t m_chunk_size = 1;
 
 		// The last chunk can be shorter than the others
 		[[nodiscard]] constexpr iterator chunk_end( ) const {
@@ -60,7 +60,7 @@ namespace daw::pipelines::pimpl {
 		explicit constexpr chunk_view( Range auto &&r, std::size_t chunk_size )
 		  : m_iter{ std::begin( r ) }
 		  , m_last{ std::end( r ) }
-		  , m_chunk_size{ static_cast<difference_type>( chunk_size ) } {}
+		  , m_chunk_size{ chunk_size } {}
 
 		[[nodiscard]] constexpr iterator &base( ) {
 			return m_iter;
diff --git a/include/daw/pipelines/slide.h b/include/daw/pipelines/slide.h
index fbfc04d..7a4129f 100644
--- a/include/daw/pipelines/slide.h
+++ b/include/daw/pipelines/slide.h
@@ -33,7 +33,7 @@ namespace daw::pipelines::pimpl {
 	private:
 		iterator m_iter{ };
 		iterator m_last{ };
-		difference_type m_slide_size = 1;
+		std::size_t m_slide_size = 1;
 
 		[[nodiscard]] constexpr bool has_window( ) const {
 			auto it = m_iter;
@@ -65,7 +65,7 @@ namespace daw::pipelines::pimpl {
 		explicit constexpr slide_view( Range auto &&r, std::size_t slide_size )
 		  : m_iter{ std::begin( r ) }
 		  , m_last{ std::end( r ) }
-		  , m_slide_size{ static_cast<difference_type>( slide_size ) } {
+		  , m_slide_size{ slide_size } {
 			if( not has_window( ) ) {
 				m_iter = m_last;
 			}
-- 
2.43.0


From fc0e2d337081b86cbfec27f0f455e0800ee2fad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:56 +0000
Subject: [PATCH 243/311] fix: the result of MapApply can be used by stages
 that assign iterators

---
 include/daw/pipelines/map.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index 71bf118..852e475 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -265,6 +265,15 @@ namespace daw::pipelines {
 		template<typename Fn, typename Projection>
 		Map_t( Fn, Projection ) -> Map_t<Fn, Projection>;
 
+		template<typename Fn>
+		struct apply_tuple_t {
+			DAW_NO_UNIQUE_ADDRESS Fn m_func;
+
+			[[nodiscard]] constexpr auto operator( )( auto &&tp ) const {
+				return std::apply( m_func, tp );
+			}
+		};
+
 		template<typename Fn>
 		struct MapApply_t {
 			DAW_NO_UNIQUE_ADDRESS Fn m_func;
@@ -274,10 +283,8 @@ namespace daw::pipelines {
 				static_assert( traits::is_applicable_v<Fn, range_reference_t<R>>,
 				               "MapApply requires the function to be able to be called "
 				               "with apply and the range_reference_t" );
-				auto func = m_func;
-				return map_view{ DAW_FWD( r ), [=]( auto &&tp ) {
-					                return std::apply( func, tp );
-				                } };
+				using func_t = apply_tuple_t<daw::remove_cvref_t<Fn>>;
+				return map_view{ DAW_FWD( r ), func_t{ m_func } };
 			}
 		};
 		template<typename Fn>
-- 
2.43.0


From 3e88d7a8eaacd57883399461ba04a2dd9d795001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:56 +0000
Subject: [PATCH 244/311] fix: the result of Every can be used by stages that
 assign iterators

---
 include/daw/pipelines/every.h | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/daw/pipelines/every.h b/include/daw/pipelines/every.h
index 7c22d7b..d8ebef6 100644
--- a/include/daw/pipelines/every.h
+++ b/include/daw/pipelines/every.h
@@ -12,20 +12,27 @@
 #include <cstddef>
 
 namespace daw::pipelines::pimpl {
+	struct every_filter_t {
+		std::size_t select_every = 1;
+		std::size_t n = 1;
+
+		[[nodiscard]] constexpr bool operator( )( auto const & ) {
+			if( n >= select_every ) {
+				n = 1;
+				return true;
+			}
+			++n;
+			return false;
+		}
+	};
+
 	struct Every_t {
 		std::size_t m_select_every;
 
 		[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
-			return filter_view{ std::begin( DAW_FWD( r ) ), std::end( DAW_FWD( r ) ),
-			                    [select_every = m_select_every,
-			                     n = m_select_every]( auto const & ) mutable {
-				                    if( n >= select_every ) {
-					                    n = 1;
-					                    return true;
-				                    }
-				                    ++n;
-				                    return false;
-			                    } };
+			return filter_view{ std::begin( DAW_FWD( r ) ),
+			                    std::end( DAW_FWD( r ) ),
+			                    every_filter_t{ m_select_every, m_select_every } };
 		}
 	};
 } // namespace daw::pipelines::pimpl
-- 
2.43.0


From 3e1d75877ca08b80e4d31329edae83aaf5532194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:56 +0000
Subject: [PATCH 245/311] fix: const cache_last_iterators can be read, so other
 stages accept them

---
 include/daw/pipelines/cache_last_view.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/pipelines/cache_last_view.h b/include/daw/pipelines/cache_last_view.h
index 1295b43..f8c8947 100644
--- a/include/daw/pipelines/cache_last_view.h
+++ b/include/daw/pipelines/cache_last_view.h
@@ -30,7 +30,7 @@ namespace daw::pipelines {
 
 	private:
 		It m_iterator = It{ };
-		std::optional<value_type> m_cached = std::nullopt;
+		mutable std::optional<value_type> m_cached = std::nullopt;
 
 	public:
 		cache_last_iterator( ) = default;
@@ -38,18 +38,18 @@ namespace daw::pipelines {
 		explicit constexpr cache_last_iterator( It i )
 		  : m_iterator( std::move( i ) ) {}
 
-		constexpr reference value( ) {
+		constexpr reference value( ) const {
 			if( not m_cached ) {
 				m_cached.emplace( *m_iterator );
 			}
 			return *m_cached;
 		}
 
-		constexpr reference operator*( ) {
+		constexpr reference operator*( ) const {
 			return value( );
 		}
 
-		constexpr pointer operator->( ) {
+		constexpr pointer operator->( ) const {
 			return pointer{ value( ) };
 		}
 
-- 
2.43.0


From 569776f70d13f3c36a9e0f8c77dc95403e754804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:58 +0000
Subject: [PATCH 246/311] fix: Element does not refer into a tuple that no
 longer exists

---
 include/daw/pipelines/elements.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index f1a3b5c..3785a6c 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -55,7 +55,8 @@ namespace daw::pipelines::pimpl {
 
 	private:
 		template<typename I>
-		[[nodiscard]] DAW_ATTRIB_INLINE static constexpr decltype( auto )
+		[[nodiscard]] DAW_ATTRIB_INLINE static constexpr element_reference_t<
+		  Index, daw::iter_reference_t<I>>
 		raw_get( I &&iter ) {
 			return std::get<Index>( *DAW_FWD( iter ) );
 		}
-- 
2.43.0


From d55acfbc9ff1f2b2d55e5f63c01ae96e833b8527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:47 +0000
Subject: [PATCH 247/311] fix: get and apply of an rvalue daw::tuple give
 rvalue elements

---
 include/daw/daw_tuple.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_tuple.h b/include/daw/daw_tuple.h
index 896d748..3bef172 100644
--- a/include/daw/daw_tuple.h
+++ b/include/daw/daw_tuple.h
@@ -48,11 +48,11 @@ namespace daw::impl {
 			}
 
 			constexpr T &&get( daw::index_constant<N> ) && noexcept {
-				return std::move( m_value );
+				return static_cast<T &&>( m_value );
 			}
 
 			constexpr T const &&get( daw::index_constant<N> ) const && noexcept {
-				return std::move( m_value );
+				return static_cast<T const &&>( m_value );
 			}
 		};
 
@@ -166,12 +166,14 @@ namespace daw {
 
 		template<std::size_t N>
 		constexpr decltype( auto ) get( ) && {
-			return base_type::get( daw::index_constant_v<N> );
+			return static_cast<base_type &&>( *this ).get(
+			  daw::index_constant_v<N> );
 		}
 
 		template<std::size_t N>
 		constexpr decltype( auto ) get( ) const && {
-			return base_type::get( daw::index_constant_v<N> );
+			return static_cast<base_type const &&>( *this ).get(
+			  daw::index_constant_v<N> );
 		}
 
 		template<typename... Vs>
@@ -218,7 +220,7 @@ namespace daw {
 
 	template<std::size_t N, typename... Ts>
 	constexpr decltype( auto ) get( tuple<Ts...> &&tp ) {
-		return tp.template get<N>( );
+		return std::move( tp ).template get<N>( );
 	}
 
 	template<typename... Ts>
-- 
2.43.0


From 40792405d1eee538615b104aecf8e73cba5e46b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:47 +0000
Subject: [PATCH 248/311] fix: tuple2 gives access to class elements and rvalue
 elements, tuple2_cat of one tuple returns it

---
 include/daw/daw_tuple2.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_tuple2.h b/include/daw/daw_tuple2.h
index c468b70..a40ea19 100644
--- a/include/daw/daw_tuple2.h
+++ b/include/daw/daw_tuple2.h
@@ -116,7 +116,7 @@ namespace daw {
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts &get( tuple2_impl::leaf<Index, Ts, true> &tp ) {
-		return static_cast<Ts const &>( tp );
+		return static_cast<Ts &>( tp );
 	}
 
 	template<std::size_t Index, typename Ts>
@@ -126,22 +126,22 @@ namespace daw {
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts const &&get( tuple2_impl::leaf<Index, Ts, true> const &&tp ) {
-		return static_cast<Ts const &>( tp );
+		return static_cast<Ts const &&>( tp );
 	}
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts const &&get( tuple2_impl::leaf<Index, Ts, false> const &&tp ) {
-		return tp.value;
+		return static_cast<Ts const &&>( tp.value );
 	}
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts &&get( tuple2_impl::leaf<Index, Ts, true> &&tp ) {
-		return static_cast<Ts const &>( tp );
+		return static_cast<Ts &&>( tp );
 	}
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts &&get( tuple2_impl::leaf<Index, Ts, false> &&tp ) {
-		return tp.value;
+		return static_cast<Ts &&>( tp.value );
 	}
 
 	template<std::size_t, typename>
@@ -210,8 +210,8 @@ namespace daw {
 	}
 
 	template<typename Tuple>
-	constexpr tuple2<> tuple2_cat( Tuple &&tp ) {
-		return { tp };
+	constexpr daw::remove_cvref_t<Tuple> tuple2_cat( Tuple &&tp ) {
+		return DAW_FWD( tp );
 	}
 
 	template<typename T0, typename T1, typename... Tps>
@@ -258,7 +258,7 @@ namespace daw {
 	template<typename Func, typename... Ts>
 	inline constexpr decltype( auto ) apply( tuple2<Ts...> &&tp, Func &&fn ) {
 		return tuple2_impl::apply_impl(
-		  tp, std::move( fn ),
+		  std::move( tp ), DAW_FWD( fn ),
 		  std::make_index_sequence<tuple2_size_v<tuple2<Ts...>>>{ } );
 	}
 } // namespace daw
-- 
2.43.0


From 352f58843f568b5a437ffb401f7b6b32c985b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:47 +0000
Subject: [PATCH 249/311] fix: apply_at accepts rvalue tuples

---
 include/daw/daw_tuple_helper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_tuple_helper.h b/include/daw/daw_tuple_helper.h
index 31d8bf6..ec25ca7 100644
--- a/include/daw/daw_tuple_helper.h
+++ b/include/daw/daw_tuple_helper.h
@@ -456,7 +456,8 @@ namespace daw {
 		constexpr void apply_at( std::tuple<Args...> &&tp, size_t index,
 		                         Funcs &&...funcs ) {
 			tuple_details::apply_at_impl( std::move( tp ), index,
-			                              daw::overload( DAW_FWD( funcs )... ) );
+			                              daw::overload( DAW_FWD( funcs )... ),
+			                              std::index_sequence_for<Args...>{ } );
 		}
 
 		namespace tuple_details {
-- 
2.43.0


From db6b4a8da036b3aec96cf846b65891228bf1b68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:47 +0000
Subject: [PATCH 250/311] fix: visit reports valueless std::variants and
 forwards rvalue alternatives

---
 include/daw/daw_visit.h | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/include/daw/daw_visit.h b/include/daw/daw_visit.h
index 93b3aca..4c023d7 100644
--- a/include/daw/daw_visit.h
+++ b/include/daw/daw_visit.h
@@ -57,7 +57,7 @@ namespace daw {
 			using get_nt_details::get_if;
 			auto *ptr = get_if<Idx>( std::addressof( var ) );
 			DAW_ASSUME( ptr != nullptr );
-			if constexpr( std::is_rvalue_reference_v<Variant> ) {
+			if constexpr( std::is_rvalue_reference_v<Variant &&> ) {
 				return std::move( *ptr );
 			} else {
 				return *ptr;
@@ -65,7 +65,7 @@ namespace daw {
 		} else if constexpr( get_nt_details::has_std_get_if_v<variant_t> ) {
 			auto *ptr = std::get_if<Idx>( std::addressof( var ) );
 			DAW_ASSUME( ptr != nullptr );
-			if constexpr( std::is_rvalue_reference_v<Variant> ) {
+			if constexpr( std::is_rvalue_reference_v<Variant &&> ) {
 				return std::move( *ptr );
 			} else {
 				return *ptr;
@@ -85,18 +85,6 @@ namespace daw {
 			return v.index( );
 		}
 
-	  DAW_MAKE_REQ_TRAIT( has_variant_npos, T::variant_npos );
-	  
-    template<typename Variant, std::enable_if_t<has_variant_npos<Variant>, std::nullptr_t> = nullptr> 
-	  DAW_ATTRIB_FLATINLINE constexpr bool is_empty( Variant const & v ) {
-		  return v.index( ) == Variant::variant_npos;
-		}
-
-    template<typename Variant, std::enable_if_t<not has_variant_npos<Variant>, std::nullptr_t> = nullptr> 
-	  DAW_ATTRIB_INLINE constexpr bool is_empty( Variant const & ) {
-      return false;
-		}
-	  
 		template<typename>
 		struct get_var_size;
 
@@ -109,6 +97,13 @@ namespace daw {
 		inline constexpr size_t get_var_size_v =
 		  get_var_size<daw::remove_cvref_t<Variant>>::value;
 
+		// The index of a variant without a value isn't that of an alternative
+		template<typename Variant>
+		DAW_ATTRIB_FLATINLINE constexpr bool is_empty( Variant const &v ) {
+			return static_cast<std::size_t>( get_index( v ) ) >=
+			       get_var_size_v<Variant>;
+		}
+
 		// A simple overload class that is constructed via aggregate.
 		template<typename... Fs>
 		struct overload_t : Fs... {
@@ -401,7 +396,7 @@ namespace daw {
 	[[nodiscard]] constexpr Result visit( Variant &&var,
 	                                      Visitors &&...visitors ) {
 
-		if( DAW_UNLIKELY( var.index( ) < 0 ) ) {
+		if( DAW_UNLIKELY( visit_details::is_empty( var ) ) ) {
 			visit_details::visit_error( );
 		}
 		return daw::visit_details::visit_nt<0, Result>(
-- 
2.43.0


From 5cab172e28ba41bb21ed9c335093288f47d8e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:37 +0000
Subject: [PATCH 251/311] fix: tuple2_cat accepts temporary tuples

---
 include/daw/daw_tuple2.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_tuple2.h b/include/daw/daw_tuple2.h
index a40ea19..04f781e 100644
--- a/include/daw/daw_tuple2.h
+++ b/include/daw/daw_tuple2.h
@@ -221,7 +221,8 @@ namespace daw {
 		    std::index_sequence<tuple2_size_v<daw::remove_cvref_t<T0>>,
 		                        tuple2_size_v<daw::remove_cvref_t<T1>>,
 		                        tuple2_size_v<daw::remove_cvref_t<Tps>>...>>{ },
-		  forward_as_tuple2( DAW_FWD( t0 ), DAW_FWD( t1 ), DAW_FWD( tps )... ) );
+		  tuple2<T0 &&, T1 &&, Tps &&...>{ DAW_FWD( t0 ), DAW_FWD( t1 ),
+		                                   DAW_FWD( tps )... } );
 	}
 
 	namespace tuple2_impl {
-- 
2.43.0


From 49a6b99ef7751073893988eba4178cd895637a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:36 +0000
Subject: [PATCH 252/311] fix: variant_cast and can_extract accept a variant
 without a value

---
 include/daw/daw_variant_cast.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_variant_cast.h b/include/daw/daw_variant_cast.h
index 6afe870..dc5973c 100644
--- a/include/daw/daw_variant_cast.h
+++ b/include/daw/daw_variant_cast.h
@@ -60,30 +60,33 @@ namespace daw {
 	constexpr T variant_cast( std::variant<Args...> &var ) {
 		static_assert( daw::traits::can_convert_from_v<T, Args...>,
 		               "T must be a convertible from type inside of variant" );
-		return daw::visit_nt( var, impl::variant_visitor_t<T>{ } );
+		return daw::visit( var, impl::variant_visitor_t<T>{ } );
 	}
 
 	template<typename T, typename... Args>
 	constexpr T variant_cast( std::variant<Args...> const &var ) {
 		static_assert( daw::traits::can_convert_from_v<T, Args...>,
 		               "T must be a convertible from type inside of variant" );
-		return daw::visit_nt( var, impl::variant_visitor_t<T>{ } );
+		return daw::visit( var, impl::variant_visitor_t<T>{ } );
 	}
 
 	template<typename T, typename... Args>
 	constexpr T variant_cast( std::variant<Args...> &&var ) {
 		static_assert( daw::traits::can_convert_from_v<T, Args...>,
 		               "T must be a convertible from type inside of variant" );
-		return daw::visit_nt( std::move( var ), impl::variant_visitor_t<T>{ } );
+		return daw::visit( std::move( var ), impl::variant_visitor_t<T>{ } );
 	}
 
 	template<typename T, typename... Args>
 	constexpr bool can_extract( std::variant<Args...> const &var ) noexcept {
-		return daw::visit_nt( var, impl::can_variant_visitor_t<T>{ } );
+		return not var.valueless_by_exception( ) and
+		       daw::visit_nt( var, impl::can_variant_visitor_t<T>{ } );
 	}
 
 	template<typename T, typename... Args>
 	constexpr bool can_extract( std::variant<Args...> &&var ) noexcept {
-		return daw::visit_nt( std::move( var ), impl::can_variant_visitor_t<T>{ } );
+		return not var.valueless_by_exception( ) and
+		       daw::visit_nt( std::move( var ),
+		                      impl::can_variant_visitor_t<T>{ } );
 	}
 } // namespace daw
-- 
2.43.0


From e589bd6daf4fa5b7185e4add5569a0923c19b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:13 +0000
Subject: [PATCH 253/311] fix: apply accepts lvalue tuples

---
 include/daw/daw_apply.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_apply.h b/include/daw/daw_apply.h
index 7da9cf6..b8d0733 100644
--- a/include/daw/daw_apply.h
+++ b/include/daw/daw_apply.h
@@ -145,11 +145,11 @@ namespace daw {
 	template<bool use_invoke = true, typename F, typename Tuple>
 	[[nodiscard, maybe_unused]] inline constexpr decltype( auto )
 	apply( F &&f, Tuple &&t ) {
-		static_assert( is_tuple_v<Tuple>,
+		static_assert( is_tuple_v<daw::remove_cvref_t<Tuple>>,
 		               "Attempt to call apply with invalid arguments.  The "
 		               "arguments must be a std::tuple" );
 		if constexpr( use_invoke ) {
-			if constexpr( std::tuple_size_v<Tuple> == 0 ) {
+			if constexpr( std::tuple_size_v<std::decay_t<Tuple>> == 0 ) {
 				return daw::invoke( DAW_FWD( f ) );
 			} else {
 				return cpp_17_details::apply_details(
@@ -157,7 +157,7 @@ namespace daw {
 				  std::make_index_sequence<std::tuple_size_v<std::decay_t<Tuple>>>{ } );
 			}
 		} else {
-			constexpr std::size_t tp_size = std::tuple_size_v<Tuple>;
+			constexpr std::size_t tp_size = std::tuple_size_v<std::decay_t<Tuple>>;
 			if constexpr( tp_size == 0 ) {
 				return DAW_FWD( f )( );
 			} else {
-- 
2.43.0


From 1dd99e9188e9e91079dec48bbe9773f7e5e6d754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:13 +0000
Subject: [PATCH 254/311] fix: zip_container keeps the temporary containers it
 is made from

---
 include/daw/daw_zipcontainer.h | 36 ++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/daw/daw_zipcontainer.h b/include/daw/daw_zipcontainer.h
index c174d8d..7f7cae5 100644
--- a/include/daw/daw_zipcontainer.h
+++ b/include/daw/daw_zipcontainer.h
@@ -13,6 +13,8 @@
 #include "daw_traits.h"
 #include "iterator/daw_zipiter.h"
 
+#include <tuple>
+
 namespace daw {
 	template<typename... Containers>
 	struct zip_container {
@@ -22,36 +24,50 @@ namespace daw {
 		  zip_iterator( std::begin( std::declval<Containers const &>( ) )... ) );
 
 	private:
-		iterator m_begin;
-		iterator m_end;
+		std::tuple<Containers...> m_containers;
 
 	public:
 		constexpr zip_container( Containers... containers )
-		  : m_begin( std::begin( containers )... )
-		  , m_end( std::end( containers )... ) {}
+		  : m_containers( static_cast<Containers &&>( containers )... ) {}
 
 		constexpr iterator begin( ) {
-			return m_begin;
+			return std::apply(
+			  []( auto &...cs ) {
+				  return iterator( std::begin( cs )... );
+			  },
+			  m_containers );
 		}
 
 		constexpr const_iterator begin( ) const {
-			return m_begin;
+			return std::apply(
+			  []( auto &...cs ) {
+				  return const_iterator( std::begin( cs )... );
+			  },
+			  m_containers );
 		}
 
 		constexpr const_iterator cbegin( ) const {
-			return m_begin;
+			return begin( );
 		}
 
 		constexpr iterator end( ) {
-			return m_end;
+			return std::apply(
+			  []( auto &...cs ) {
+				  return iterator( std::end( cs )... );
+			  },
+			  m_containers );
 		}
 
 		constexpr const_iterator end( ) const {
-			return m_end;
+			return std::apply(
+			  []( auto &...cs ) {
+				  return const_iterator( std::end( cs )... );
+			  },
+			  m_containers );
 		}
 
 		constexpr const_iterator cend( ) const {
-			return m_end;
+			return end( );
 		}
 	}; // struct zip_container
 
-- 
2.43.0


From 2e35a1fa6aa4aa02050f6a510eb7cbd489b2a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:02 +0000
Subject: [PATCH 255/311] fix: invoke with a reference_wrapper lets exceptions
 of the callable through

---
 include/daw/daw_apply.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_apply.h b/include/daw/daw_apply.h
index b8d0733..613929b 100644
--- a/include/daw/daw_apply.h
+++ b/include/daw/daw_apply.h
@@ -110,10 +110,11 @@ namespace daw {
 	}
 
 	template<typename F, typename Arg, typename... Args>
-	[[nodiscard]] constexpr decltype( auto ) invoke(
-	  F &&f, std::reference_wrapper<Arg> arg,
-	  std::reference_wrapper<
-	    Args>... args ) noexcept( std::is_nothrow_invocable_v<F, Args...> ) {
+	[[nodiscard]] constexpr decltype( auto )
+	invoke( F &&f, std::reference_wrapper<Arg> arg,
+	        std::reference_wrapper<Args>... args )
+	  noexcept( std::is_nothrow_invocable_v<F, std::reference_wrapper<Arg>,
+	                                        std::reference_wrapper<Args>...> ) {
 
 		return cpp_17_details::INVOKE( DAW_FWD( f ), DAW_FWD( arg ),
 		                               DAW_FWD( args )... );
-- 
2.43.0


From b8c6b68ab4d2a1ec65911808a1cbd130485447b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:20 +0000
Subject: [PATCH 256/311] fix: read_file closes the file and reads whole
 characters

---
 include/daw/daw_read_file.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_read_file.h b/include/daw/daw_read_file.h
index 2c3f73a..161a529 100644
--- a/include/daw/daw_read_file.h
+++ b/include/daw/daw_read_file.h
@@ -38,8 +38,12 @@ namespace daw {
 			// File is too big to fit into string(WIN32)
 			return std::nullopt;
 		}
-		auto result =
-		  std::basic_string<CharT>( static_cast<std::size_t>( fsize ), CharT{ } );
+		if( fsize % sizeof( CharT ) != 0 ) {
+			// The file does not hold a whole number of characters
+			return std::nullopt;
+		}
+		auto result = std::basic_string<CharT>(
+		  static_cast<std::size_t>( fsize / sizeof( CharT ) ), CharT{ } );
 #if defined( _MSC_VER )
 		FILE *f = nullptr;
 		auto err = fopen_s( &f, path.c_str( ), "rb" );
@@ -53,7 +57,8 @@ namespace daw {
 		}
 #endif
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
-		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
+		fclose( f );
+		if( num_read != result.size( ) ) {
 			return std::nullopt;
 		}
 		return result;
@@ -90,15 +95,20 @@ namespace daw {
 			// File is too big to fit into string(WIN32)
 			return std::nullopt;
 		}
-		auto result =
-		  std::basic_string<CharT>( static_cast<std::size_t>( fsize ), CharT{ } );
+		if( fsize % sizeof( CharT ) != 0 ) {
+			// The file does not hold a whole number of characters
+			return std::nullopt;
+		}
+		auto result = std::basic_string<CharT>(
+		  static_cast<std::size_t>( fsize / sizeof( CharT ) ), CharT{ } );
 		FILE *f = nullptr;
 		auto err = _wfopen_s( &f, path.c_str( ), L"rb" );
 		if( err ) {
 			return std::nullopt;
 		}
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
-		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
+		fclose( f );
+		if( num_read != result.size( ) ) {
 			return std::nullopt;
 		}
 		return result;
-- 
2.43.0


From c4acdc9ecb49253d655109be5c3b2f337b917ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:20 +0000
Subject: [PATCH 257/311] fix: CFile move assignment takes the file of its
 right hand side

---
 include/daw/deprecated/daw_cfile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_cfile.h b/include/daw/deprecated/daw_cfile.h
index 3dc588e..78b36fe 100644
--- a/include/daw/deprecated/daw_cfile.h
+++ b/include/daw/deprecated/daw_cfile.h
@@ -30,7 +30,7 @@ namespace daw {
 		  : ptr( exchange( other.ptr, nullptr ) ) {}
 
 		constexpr CFile &operator=( CFile &&rhs ) noexcept {
-			reset( release( ) );
+			reset( rhs.release( ) );
 			return *this;
 		}
 
-- 
2.43.0


From 71ec34f42ed55a5f0b8e55eab0066d7b02082cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:20 +0000
Subject: [PATCH 258/311] fix: memory_mapped_file_t counts values not bytes and
 accepts const value types

---
 include/daw/daw_memory_mapped_file.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_memory_mapped_file.h b/include/daw/daw_memory_mapped_file.h
index a138c80..08e2086 100644
--- a/include/daw/daw_memory_mapped_file.h
+++ b/include/daw/daw_memory_mapped_file.h
@@ -57,7 +57,7 @@ namespace daw::filesystem {
 		struct cleanup_t {
 			constexpr void operator( )( fdata_t &d ) noexcept {
 				if( auto *p = daw::exchange( d.ptr, nullptr ); p ) {
-					munmap( p, d.size );
+					munmap( const_cast<std::remove_const_t<T> *>( p ), d.size );
 				}
 				d.size = 0;
 				if( auto fid = daw::exchange( d.file, -1 ); fid >= 0 ) {
@@ -151,8 +151,9 @@ namespace daw::filesystem {
 			return data( ) + static_cast<ptrdiff_t>( size( ) );
 		}
 
+		/// @brief The number of whole values in the file
 		[[nodiscard]] constexpr size_type size( ) const noexcept {
-			return m_fdata.has_value( ) ? m_fdata->size : 0;
+			return m_fdata.has_value( ) ? m_fdata->size / sizeof( T ) : 0;
 		}
 
 		[[nodiscard]] constexpr bool empty( ) const noexcept {
@@ -337,11 +338,11 @@ namespace daw::filesystem {
 		}
 
 		[[nodiscard]] constexpr size_type size( ) const noexcept {
-			return m_fdata->size;
+			return m_fdata->size / sizeof( T );
 		}
 
 		[[nodiscard]] constexpr bool empty( ) const noexcept {
-			return not( *this ) or m_fdata->size == 0;
+			return not( *this ) or size( ) == 0;
 		}
 
 		constexpr explicit operator bool( ) const noexcept {
-- 
2.43.0


From 0d249a784af8487ed5c7a06bae0781e1138f88ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:05 +0000
Subject: [PATCH 259/311] fix: std::hash<not_null<Pointer>> can be called

---
 include/daw/daw_not_null.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_not_null.h b/include/daw/daw_not_null.h
index db2540b..a0a0883 100644
--- a/include/daw/daw_not_null.h
+++ b/include/daw/daw_not_null.h
@@ -444,8 +444,7 @@ namespace daw {
 template<typename Pointer>
 struct std::hash<daw::not_null<Pointer>> {
 	[[nodiscard]] auto operator( )( daw::not_null<Pointer> value ) const
-	  -> decltype( std::hash<decltype( std::declval<Pointer>( ) )>{ }(
-	    value.get( ) ) ) {
-		return std::hash<decltype( std::declval<Pointer>( ) )>{ }( value.get( ) );
+	  -> decltype( std::hash<Pointer>{ }( value.get( ) ) ) {
+		return std::hash<Pointer>{ }( value.get( ) );
 	}
 };
-- 
2.43.0


From 3566ef51b9e50c56d1fe29f7f95471d3f9c0d029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:05 +0000
Subject: [PATCH 260/311] fix: observer_ptr converts from observers of derived
 or less qualified types

---
 include/daw/daw_observer_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_observer_ptr.h b/include/daw/daw_observer_ptr.h
index 117b897..aaa68de 100644
--- a/include/daw/daw_observer_ptr.h
+++ b/include/daw/daw_observer_ptr.h
@@ -37,7 +37,7 @@ namespace daw {
 		requires( not std::same_as<T, U> and
 		          std::convertible_to<
 		            U *, T *> ) constexpr observer_ptr( observer_ptr<U> other )
-		  : m_ptr( other.m_ptr ) {}
+		  : m_ptr( other.get( ) ) {}
 
 		constexpr observer_ptr &operator=( pointer p ) {
 			m_ptr = p;
-- 
2.43.0


From b9664da5ed911259cddea76d803a0911530db97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:05 +0000
Subject: [PATCH 261/311] fix: prop_const_ptr post increment and decrement
 return a value, const addition compiles

---
 include/daw/daw_prop_const_ptr.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_prop_const_ptr.h b/include/daw/daw_prop_const_ptr.h
index 46064b8..370c94f 100644
--- a/include/daw/daw_prop_const_ptr.h
+++ b/include/daw/daw_prop_const_ptr.h
@@ -79,7 +79,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr prop_const_ptr &operator++( int ) {
+		constexpr prop_const_ptr operator++( int ) {
 			auto result = *this;
 			++m_ptr;
 			return result;
@@ -90,7 +90,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr prop_const_ptr &operator--( int ) {
+		constexpr prop_const_ptr operator--( int ) {
 			auto result = *this;
 			--m_ptr;
 			return result;
@@ -112,7 +112,8 @@ namespace daw {
 			return result;
 		}
 
-		constexpr prop_const_ptr operator+( difference_type d ) const {
+		constexpr prop_const_ptr<std::add_const_t<value_type>>
+		operator+( difference_type d ) const {
 			auto result = prop_const_ptr<std::add_const_t<value_type>>( m_ptr );
 			result += d;
 			return result;
-- 
2.43.0


From eb4e160be754babcfdd3d88eae09238a28024b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:05 +0000
Subject: [PATCH 262/311] fix: to_reference_vector advances through its range

---
 include/daw/daw_reference.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_reference.h b/include/daw/daw_reference.h
index 762ec0f..93a4f91 100644
--- a/include/daw/daw_reference.h
+++ b/include/daw/daw_reference.h
@@ -85,6 +85,7 @@ namespace daw {
 		values_type result{ };
 		while( first != last ) {
 			result.push_back( daw::ref<value_type>( *first ) );
+			++first;
 		}
 		return result;
 	}
-- 
2.43.0


From 40691b6f7c6699efc553d1d4a9d40e42499cf3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:39 +0000
Subject: [PATCH 263/311] fix: fixed_cast of a reference returns a reference

---
 include/daw/daw_alias_cast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_alias_cast.h b/include/daw/daw_alias_cast.h
index 37421c8..50f16a9 100644
--- a/include/daw/daw_alias_cast.h
+++ b/include/daw/daw_alias_cast.h
@@ -30,7 +30,7 @@ namespace daw {
 			return reinterpret_cast<To *>( ptr );
 		}
 		template<typename To, typename From>
-		constexpr auto *operator( )( From &ptr ) const {
+		constexpr auto &operator( )( From &ptr ) const {
 			static_assert( only_check_to_type or
 			               ( std::is_same_v<From, AllowedTypes> or ... ) );
 			static_assert( ( std::is_same_v<To, AllowedTypes> or ... ) );
-- 
2.43.0


From dea951f860ed608bbcda78a86123d8fb05ab77d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:39 +0000
Subject: [PATCH 264/311] fix: compressed_pair piecewise construction forwards
 rvalue arguments

---
 include/daw/compressed_pair.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/compressed_pair.h b/include/daw/compressed_pair.h
index 9a79ed9..f41ce2e 100644
--- a/include/daw/compressed_pair.h
+++ b/include/daw/compressed_pair.h
@@ -44,7 +44,7 @@ namespace daw {
 		explicit constexpr compressed_pair_elem( std::piecewise_construct_t,
 		                                         std::tuple<Args...> args,
 		                                         std::index_sequence<Indexes...> )
-		  : m_value( DAW_FWD( std::get<Indexes>( args ) )... ) {}
+		  : m_value( std::forward<Args>( std::get<Indexes>( args ) )... ) {}
 
 		constexpr reference get( ) noexcept {
 			return m_value;
@@ -76,7 +76,7 @@ namespace daw {
 		explicit constexpr compressed_pair_elem( std::piecewise_construct_t,
 		                                         std::tuple<Args...> args,
 		                                         std::index_sequence<Indexes...> )
-		  : value_type( DAW_FWD( std::get<Indexes>( args ) )... ) {}
+		  : value_type( std::forward<Args>( std::get<Indexes>( args ) )... ) {}
 
 		constexpr reference get( ) noexcept {
 			return *this;
-- 
2.43.0


From d547f2f299a9d5d94d7b503eb07a3fb8e3b76879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:39 +0000
Subject: [PATCH 265/311] fix: uninitialized_storage raw_data can be called

---
 include/daw/daw_uninitialized_storage.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_uninitialized_storage.h b/include/daw/daw_uninitialized_storage.h
index 17363d8..c1a7253 100644
--- a/include/daw/daw_uninitialized_storage.h
+++ b/include/daw/daw_uninitialized_storage.h
@@ -90,7 +90,11 @@ namespace daw {
 			ptr( )->~T( );
 		}
 
-		constexpr std::byte *raw_data( ) const noexcept {
+		constexpr std::byte *raw_data( ) noexcept {
+			return m_data;
+		}
+
+		constexpr std::byte const *raw_data( ) const noexcept {
 			return m_data;
 		}
 	};
-- 
2.43.0


From 8e0e9bc90e12a77441aaacc7a95ea7c074d91090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:15 +0000
Subject: [PATCH 266/311] fix: take and take_t are noexcept only when the
 moves, default construction and assignment they do are

---
 include/daw/daw_take.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_take.h b/include/daw/daw_take.h
index cd4ae55..ff6c06d 100644
--- a/include/daw/daw_take.h
+++ b/include/daw/daw_take.h
@@ -29,7 +29,8 @@ namespace daw {
 	                                      std::nullptr_t> = nullptr>
 	constexpr T
 	take( T &value ) noexcept( std::is_nothrow_move_constructible_v<T> and
-	                           std::is_nothrow_default_constructible_v<T> ) {
+	                           std::is_nothrow_default_constructible_v<T> and
+	                           std::is_nothrow_move_assignable_v<T> ) {
 		auto result = std::move( value );
 		if constexpr( reset_on_take<T> ) {
 			value = T{ };
@@ -79,7 +80,8 @@ namespace daw {
 			return value;
 		}
 
-		constexpr value_type operator*( ) && noexcept {
+		constexpr value_type
+		operator*( ) && noexcept( noexcept( take( std::declval<T &>( ) ) ) ) {
 			return take( value );
 		}
 
@@ -103,7 +105,8 @@ namespace daw {
 			return value;
 		}
 
-		constexpr value_type get( ) && noexcept {
+		constexpr value_type
+		get( ) && noexcept( noexcept( take( std::declval<T &>( ) ) ) ) {
 			return take( value );
 		}
 
-- 
2.43.0


From 6cc9ca025a0b5276634f2c6bad3b7ffffc030a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:15 +0000
Subject: [PATCH 267/311] fix: uninitialized_storage rref is noexcept only when
 the move is

---
 include/daw/daw_uninitialized_storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_uninitialized_storage.h b/include/daw/daw_uninitialized_storage.h
index c1a7253..b863bfd 100644
--- a/include/daw/daw_uninitialized_storage.h
+++ b/include/daw/daw_uninitialized_storage.h
@@ -66,7 +66,7 @@ namespace daw {
 			return *cptr( );
 		}
 
-		value_type rref( ) noexcept {
+		value_type rref( ) noexcept( std::is_nothrow_move_constructible_v<T> ) {
 			return value_type( std::move( *ptr( ) ) );
 		}
 
-- 
2.43.0


From f1dbf6e768f0ebab9193925737381839c367d5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:15 +0000
Subject: [PATCH 268/311] fix: aligned_storage_t honours alignments above
 max_align_t

---
 include/daw/daw_aligned_storage.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_aligned_storage.h b/include/daw/daw_aligned_storage.h
index ed1cb8a..bd9593d 100644
--- a/include/daw/daw_aligned_storage.h
+++ b/include/daw/daw_aligned_storage.h
@@ -17,7 +17,8 @@ namespace daw {
 		struct aligned_storage {
 			union type {
 				std::max_align_t align;
-				unsigned char data[( Len + Align - 1 ) / Align * Align];
+				alignas( Align ) unsigned char data[( Len + Align - 1 ) / Align *
+				                                    Align];
 			};
 		};
 	} // namespace impl
-- 
2.43.0


From 3428aa6b5669e5368eb5d4cfc35695dbbba37c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:15 +0000
Subject: [PATCH 269/311] fix: cswap and iter_swap are noexcept only when the
 operations they use are

---
 include/daw/daw_swap.h | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_swap.h b/include/daw/daw_swap.h
index 012f69d..072a4aa 100644
--- a/include/daw/daw_swap.h
+++ b/include/daw/daw_swap.h
@@ -40,10 +40,25 @@ namespace daw {
 		                   std::declval<T &>( ), std::declval<U &>( ) ) )>> = true;
 	} // namespace swap_details
 
+	namespace swap_details {
+		template<typename T>
+		constexpr bool is_nothrow_cswap( ) {
+			if constexpr( std::is_trivially_copyable_v<T> or std::is_scalar_v<T> ) {
+				return true;
+			} else if constexpr( has_member_swap_v<T> ) {
+				return noexcept(
+				  std::declval<T &>( ).swap( std::declval<T &>( ) ) );
+			} else if constexpr( has_adl_swap_v<T> ) {
+				return noexcept( swap( std::declval<T &>( ), std::declval<T &>( ) ) );
+			} else {
+				return std::is_nothrow_swappable_v<T>;
+			}
+		}
+	} // namespace swap_details
+
 	template<typename T>
 	constexpr void cswap( T &&lhs, T &&rhs ) noexcept(
-	  std::conjunction_v<std::is_nothrow_move_assignable<T>,
-	                     std::is_nothrow_move_constructible<T>> ) {
+	  swap_details::is_nothrow_cswap<std::remove_reference_t<T>>( ) ) {
 		static_assert( not std::is_const_v<std::remove_reference_t<T>>,
 		               "Cannot swap const values" );
 		if constexpr( std::is_trivially_copyable_v<std::remove_reference_t<T>> ) {
@@ -67,8 +82,10 @@ namespace daw {
 	template<typename ForwardIterator1, typename ForwardIterator2>
 	constexpr void
 	iter_swap( ForwardIterator1 lhs, ForwardIterator2 rhs ) noexcept(
-	  std::conjunction_v<std::is_nothrow_move_assignable<decltype( *lhs )>,
-	                     std::is_nothrow_move_assignable<decltype( *rhs )>> ) {
+	  noexcept( daw::remove_cvref_t<decltype( *lhs )>( std::move( *lhs ) ) ) and
+	  noexcept( *lhs = std::move( *rhs ) ) and
+	  std::is_nothrow_assignable_v<decltype( *rhs ),
+	                               daw::remove_cvref_t<decltype( *lhs )>> ) {
 		auto tmp = std::move( *lhs );
 		*lhs = std::move( *rhs );
 		*rhs = std::move( tmp );
-- 
2.43.0


From b0e75af2ccabe0a2ad565e09a445b18d3ea1e070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:38 +0000
Subject: [PATCH 270/311] fix: const simple_array can be iterated

---
 include/daw/daw_simple_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_simple_array.h b/include/daw/daw_simple_array.h
index ca7a874..fe5136a 100644
--- a/include/daw/daw_simple_array.h
+++ b/include/daw/daw_simple_array.h
@@ -20,7 +20,7 @@ namespace daw {
 		using pointer = value_type *;
 		using const_pointer = value_type const *;
 		using iterator = pointer;
-		using const_iterator = pointer;
+		using const_iterator = const_pointer;
 		using reference = value_type &;
 		using const_reference = value_type const &;
 		using size_type = std::size_t;
@@ -86,7 +86,7 @@ namespace daw {
 		using pointer = value_type *;
 		using const_pointer = value_type const *;
 		using iterator = pointer;
-		using const_iterator = pointer;
+		using const_iterator = const_pointer;
 		using reference = value_type &;
 		using const_reference = value_type const &;
 		using size_type = std::size_t;
-- 
2.43.0


From e67a443f3dee937cfa5478daae0f94aa78334c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:00 +0000
Subject: [PATCH 271/311] fix: keep_n insert accepts one of its own elements

---
 include/daw/daw_keep_n.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_keep_n.h b/include/daw/daw_keep_n.h
index 818a6c6..c9a763b 100644
--- a/include/daw/daw_keep_n.h
+++ b/include/daw/daw_keep_n.h
@@ -83,10 +83,12 @@ namespace daw {
 		constexpr void insert( value_type const &v ) {
 			for( size_t n = 0; n < MaxItems; ++n ) {
 				if( m_pred( v, m_values[n] ) ) {
+					// v may be one of the values about to move
+					auto value = v;
 					for( size_t m = ( MaxItems - 1U ); m > n; --m ) {
 						m_values[m] = std::move( m_values[m - 1] );
 					}
-					m_values[n] = v;
+					m_values[n] = std::move( value );
 					break;
 				}
 			}
-- 
2.43.0


From b9fcbe43cf6007dad9399685ddce7831cf4df1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:28 +0000
Subject: [PATCH 272/311] fix: bind_front includes what it uses and can be
 copied from a non-const lvalue

---
 include/daw/daw_bind_front.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/daw/daw_bind_front.h b/include/daw/daw_bind_front.h
index 979dba6..c497914 100644
--- a/include/daw/daw_bind_front.h
+++ b/include/daw/daw_bind_front.h
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include "daw_move.h"
+
 #include <tuple>
 #include <type_traits>
 
@@ -19,6 +21,8 @@ namespace daw {
 
 	public:
 		template<typename F, typename... P>
+		requires( sizeof...( P ) == sizeof...( Params ) and
+		          not std::is_same_v<std::remove_cvref_t<F>, bind_front> ) //
 		explicit constexpr bind_front( F &&func, P &&...params )
 		  : m_func( DAW_FWD( func ) )
 		  , m_params( DAW_FWD( params )... ) {}
-- 
2.43.0


From ed2df3ceac30a333a67d732839e9162af2f4005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:50 +0000
Subject: [PATCH 273/311] fix: overload accepts lvalue and noexcept function
 pointers

---
 include/daw/daw_overload.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_overload.h b/include/daw/daw_overload.h
index 444e35c..af55fa2 100644
--- a/include/daw/daw_overload.h
+++ b/include/daw/daw_overload.h
@@ -34,8 +34,8 @@ namespace daw::overload_details {
 	};
 
 	template<typename ReturnType, typename... Arguments>
-	struct fp_wrapper_t<ReturnType ( & )( Arguments... )> {
-		std::add_pointer_t<ReturnType( Arguments... )> fp;
+	struct fp_wrapper_t<ReturnType ( * )( Arguments... ) noexcept> {
+		std::add_pointer_t<ReturnType( Arguments... ) noexcept> fp;
 
 		template<typename... Args,
 		         std::enable_if_t<std::is_invocable_v<decltype( fp ), Args...>,
@@ -47,7 +47,7 @@ namespace daw::overload_details {
 
 	template<typename Func>
 	using fp_wrapper = conditional_t<std::is_class_v<daw::remove_cvref_t<Func>>,
-	                                 Func, fp_wrapper_t<Func>>;
+	                                 Func, fp_wrapper_t<std::decay_t<Func>>>;
 
 	template<auto>
 	struct lift_t;
-- 
2.43.0


From bb1cbdf7577b8043d29685cface8ea3ae7f9ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:00 +0000
Subject: [PATCH 274/311] fix: piecewise factories accept class type values by
 run time position

---
 include/daw/daw_piecewise_factory.h | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/include/daw/daw_piecewise_factory.h b/include/daw/daw_piecewise_factory.h
index 241d128..f643748 100644
--- a/include/daw/daw_piecewise_factory.h
+++ b/include/daw/daw_piecewise_factory.h
@@ -113,26 +113,14 @@ namespace daw {
 				set_tuple<N + 1, use_late>( index, tp, DAW_FWD( value ) );
 				return;
 			}
-			using tp_val_t = decltype( std::get<N>( tp ) );
-			using value_t =
-			  decltype( remove_layer_func( std::declval<tp_val_t>( ) ) );
-
-			auto const setter = daw::overload(
-			  [&]( value_t const &v ) {
-				  std::get<N>( tp ) = value_t{ v };
-			  },
-			  [&]( value_t &&v ) {
-				  std::get<N>( tp ) = value_t{ std::move( v ) };
-			  },
-			  [&]( std::function<value_t( )> const &f ) {
-				  std::get<N>( tp ) = value_t{ f( ) };
-			  },
-			  [&]( std::function<value_t( )> &&f ) {
-				  std::get<N>( tp ) = value_t{ std::move( f )( ) };
-			  },
-			  []( ... ) noexcept {} );
-
-			setter( DAW_FWD( value ) );
+			using value_t = daw::remove_cvref_t<decltype( std::get<N>( tp ) )>;
+
+			// Values that cannot be used at this position are ignored
+			if constexpr( std::is_convertible_v<Value, value_t> ) {
+				std::get<N>( tp ) = static_cast<value_t>( DAW_FWD( value ) );
+			} else if constexpr( std::is_invocable_r_v<value_t, Value> ) {
+				std::get<N>( tp ) = static_cast<value_t>( DAW_FWD( value )( ) );
+			}
 		}
 
 		template<typename T, typename... Args>
-- 
2.43.0


From 0654eae0fbd205443281c96821a867a91d98fc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:00 +0000
Subject: [PATCH 275/311] fix: building from a piecewise factory with a missing
 argument throws

---
 include/daw/daw_piecewise_factory.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_piecewise_factory.h b/include/daw/daw_piecewise_factory.h
index f643748..82b4d59 100644
--- a/include/daw/daw_piecewise_factory.h
+++ b/include/daw/daw_piecewise_factory.h
@@ -50,11 +50,16 @@ namespace daw {
 			constexpr T operator( )( Callable &&f ) const {
 				return DAW_FWD( f )( );
 			}
-			T operator( )( std::monostate ) const {
+		};
+
+		template<typename Optional>
+		constexpr decltype( auto ) require_value( Optional &&value ) {
+			if( not value ) {
 				daw::exception::daw_throw<std::invalid_argument>(
 				  "Value cannot be empty" );
 			}
-		};
+			return *DAW_FWD( value );
+		}
 
 		template<typename T>
 		constexpr T &&get_value( T &&value ) {
@@ -75,12 +80,12 @@ namespace daw {
 
 		template<size_t N, typename... Args>
 		constexpr auto process_args( std::tuple<Args...> const &tp ) {
-			return get_value( *std::get<N>( tp ) );
+			return get_value( require_value( std::get<N>( tp ) ) );
 		}
 
 		template<size_t N, typename... Args>
 		constexpr auto process_args( std::tuple<Args...> &&tp ) {
-			return get_value( *std::get<N>( std::move( tp ) ) );
+			return get_value( require_value( std::get<N>( std::move( tp ) ) ) );
 		}
 
 		template<typename T, typename... Args, std::size_t... I>
-- 
2.43.0


From 59727fe33f7b89843617080518a41954a4d67b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:00 +0000
Subject: [PATCH 276/311] fix: piecewise factories pass variant arguments
 unchanged

---
 include/daw/daw_piecewise_factory.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/daw/daw_piecewise_factory.h b/include/daw/daw_piecewise_factory.h
index 82b4d59..5b58f51 100644
--- a/include/daw/daw_piecewise_factory.h
+++ b/include/daw/daw_piecewise_factory.h
@@ -26,11 +26,7 @@
 
 namespace daw {
 	namespace impl {
-		template<typename T, typename U>
-		daw::remove_cvref_t<T> remove_layer_func( std::variant<T, U> );
 
-		template<typename T>
-		daw::remove_cvref_t<T> remove_layer_func( T );
 
 		template<typename T>
 		struct process_args_t {
@@ -66,15 +62,13 @@ namespace daw {
 			return DAW_FWD( value );
 		}
 
-		template<typename... Args>
-		constexpr auto get_value( std::variant<Args...> const &value ) {
-			using T = decltype( remove_layer_func( value ) );
+		template<typename T>
+		constexpr auto get_value( std::variant<T, std::function<T( )>> const &value ) {
 			return daw::visit_nt( value, process_args_t<T>{ } );
 		}
 
-		template<typename... Args>
-		constexpr auto get_value( std::variant<Args...> &&value ) {
-			using T = decltype( remove_layer_func( value ) );
+		template<typename T>
+		constexpr auto get_value( std::variant<T, std::function<T( )>> &&value ) {
 			return daw::visit_nt( std::move( value ), process_args_t<T>{ } );
 		}
 
-- 
2.43.0


From 56d5fc1a831940ef76c3b5263fc72a4a0aa63da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:29 +0000
Subject: [PATCH 277/311] fix: daw_swap includes daw_remove_cvref

---
 include/daw/daw_swap.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_swap.h b/include/daw/daw_swap.h
index 072a4aa..a7de1e9 100644
--- a/include/daw/daw_swap.h
+++ b/include/daw/daw_swap.h
@@ -11,6 +11,7 @@
 #include "ciso646.h"
 #include "daw_exchange.h"
 #include "daw_move.h"
+#include "daw_remove_cvref.h"
 
 #include <array>
 #include <cstddef>
-- 
2.43.0


From 7c749ffb2bfd51ef842b7e4f2bade9f1322cf5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:48 +0000
Subject: [PATCH 278/311] fix: ranges and tuples with an explicit argument id
 can have a format specification

---
 include/daw/daw_format_range.h | 23 +++++++++++++++++------
 include/daw/daw_format_tuple.h | 22 ++++++++++++++++------
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/include/daw/daw_format_range.h b/include/daw/daw_format_range.h
index ff5a6cf..97313da 100644
--- a/include/daw/daw_format_range.h
+++ b/include/daw/daw_format_range.h
@@ -17,6 +17,7 @@
 
 #include <cassert>
 #include <format>
+#include <string>
 #include <string_view>
 
 namespace daw {
@@ -59,10 +60,18 @@ namespace daw {
 namespace std {
 	template<daw::Range R, typename CharT>
 	struct formatter<daw::fmt_range<R, CharT>, CharT> {
+		// Format specification of the elements, including the closing brace
 		daw::string_view flags = { };
 
 		formatter( ) = default;
 
+		// The argument id, if any, belongs to the whole and not to the elements
+		constexpr std::string element_format( ) const {
+			auto result = std::string( "{:" );
+			result.append( flags.data( ), flags.size( ) );
+			return result;
+		}
+
 		template<class ParseContext>
 		constexpr typename ParseContext::iterator
 		parse( ParseContext &ctx DAW_LIFETIME_BOUND ) {
@@ -70,7 +79,7 @@ namespace std {
 			auto const ctx_sz = static_cast<std::size_t>( std::distance( std::begin( ctx ), std::end( ctx ) ) );
 			auto f = daw::basic_string_view( ctx_b, ctx_sz );
 			if( ctx.begin( ) == ctx.end( ) or *ctx.begin( ) == '}' ) {
-				flags = "{}";
+				flags = "}";
 				return ctx.begin( );
 			}
 			int brace_count = 1;
@@ -103,9 +112,10 @@ namespace std {
 				f.remove_prefix( );
 			}
 			auto const sz = std::distance( first, last );
+			if( sz == 0 ) {
+				throw std::format_error( "missing } in format string" );
+			}
 			flags = daw::string_view( first, static_cast<std::size_t>( sz ) );
-			flags.expand_prefix( 2 );
-			assert( flags.front( ) == '{' );
 			return std::next( ctx.begin( ), sz - 1 );
 			//			return ctx.end( ) - 1;
 		}
@@ -123,6 +133,7 @@ namespace std {
 			} else {
 				auto out = ctx.out( );
 				out = std::copy( std::data( c.Left ), daw::data_end( c.Left ), out );
+				auto const spec = element_format( );
 				bool is_first = true;
 				for( auto const &v : c.container ) {
 					if( is_first ) {
@@ -134,14 +145,14 @@ namespace std {
 					if constexpr( daw::Range<daw::range_value_t<R>> ) {
 						auto t = daw::fmt_range( v );
 						out = std::vformat_to(
-						  out, std::string_view( flags ), std::make_format_args( t ) );
+						  out, spec, std::make_format_args( t ) );
 					} else if constexpr( daw::is_tuple_like_v<daw::range_value_t<R>> ) {
 						auto t = daw::fmt_tuple( v );
 						out = std::vformat_to(
-						  out, std::string_view( flags ), std::make_format_args( t ) );
+						  out, spec, std::make_format_args( t ) );
 					} else {
 						out = std::vformat_to(
-						  out, std::string_view( flags ), std::make_format_args( v ) );
+						  out, spec, std::make_format_args( v ) );
 					}
 				}
 				out = std::copy( std::data( c.Right ), daw::data_end( c.Right ), out );
diff --git a/include/daw/daw_format_tuple.h b/include/daw/daw_format_tuple.h
index 7c8e2b2..895a2e1 100644
--- a/include/daw/daw_format_tuple.h
+++ b/include/daw/daw_format_tuple.h
@@ -14,6 +14,7 @@
 
 #include <cassert>
 #include <format>
+#include <string>
 #include <string_view>
 
 namespace daw {
@@ -53,17 +54,25 @@ namespace daw {
 namespace std {
 	template<typename T, typename CharT>
 	struct formatter<daw::fmt_tuple<T, CharT>, CharT> {
+		// Format specification of the elements, including the closing brace
 		daw::string_view flags = { };
 
 		formatter( ) = default;
 
+		// The argument id, if any, belongs to the whole and not to the elements
+		constexpr std::string element_format( ) const {
+			auto result = std::string( "{:" );
+			result.append( flags.data( ), flags.size( ) );
+			return result;
+		}
+
 		template<class ParseContext>
 		constexpr ParseContext::iterator parse( ParseContext &ctx DAW_LIFETIME_BOUND ) {
 			auto ctx_b = std::begin( ctx );
 			auto const ctx_sz = static_cast<std::size_t>( std::distance( std::begin( ctx ), std::end( ctx ) ) );
 			auto f = daw::basic_string_view( ctx_b, ctx_sz );
 			if( ctx.begin( ) == ctx.end( ) or *ctx.begin( ) == '}' ) {
-				flags = "{}";
+				flags = "}";
 				return ctx.begin( );
 			}
 			int brace_count = 1;
@@ -95,11 +104,12 @@ namespace std {
 				}
 				f.remove_prefix( );
 			}
+			auto const sz = last - first;
+			if( sz == 0 ) {
+				throw std::format_error( "missing } in format string" );
+			}
 			flags =
 			  daw::string_view( first, last ); // static_cast<std::size_t>( sz ) );
-			flags.expand_prefix( 2 );
-			assert( flags.front( ) == '{' );
-			auto const sz = last - first;
 			return ctx.begin( ) + sz - 1;
 			//			return ctx.end( ) - 1;
 		}
@@ -108,6 +118,7 @@ namespace std {
 		Ctx::iterator format( daw::fmt_tuple<T, CharT> c, Ctx &ctx ) const {
 			auto out = ctx.out( );
 			out = std::copy( std::data( c.Left ), daw::data_end( c.Left ), out );
+			auto const spec = element_format( );
 			bool is_first = true;
 			auto const write_value =
 			  [&]<std::size_t Idx>( std::integral_constant<std::size_t, Idx> ) {
@@ -117,8 +128,7 @@ namespace std {
 					  out = std::copy( std::data( c.Separator ),
 					                   daw::data_end( c.Separator ), out );
 				  }
-				  out = std::vformat_to( out, std::string_view( flags ),
-				                         std::make_format_args( get<Idx>( c.value ) ) );
+				  out = std::vformat_to( out, spec, std::make_format_args( get<Idx>( c.value ) ) );
 			  };
 			[&]<std::size_t... Is>( std::index_sequence<Is...> ) {
 				(void)( write_value( std::integral_constant<std::size_t, Is>{ } ), ...,
-- 
2.43.0


From 56f71128abd616b78fd624dbc1b30a22af264241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:48 +0000
Subject: [PATCH 279/311] fix: format specification applies to elements that
 are strings

---
 include/daw/daw_format_range.h | 9 +++++----
 include/daw/daw_format_tuple.h | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_format_range.h b/include/daw/daw_format_range.h
index 97313da..2efa2e7 100644
--- a/include/daw/daw_format_range.h
+++ b/include/daw/daw_format_range.h
@@ -61,7 +61,7 @@ namespace std {
 	template<daw::Range R, typename CharT>
 	struct formatter<daw::fmt_range<R, CharT>, CharT> {
 		// Format specification of the elements, including the closing brace
-		daw::string_view flags = { };
+		daw::string_view flags = "}";
 
 		formatter( ) = default;
 
@@ -127,9 +127,10 @@ namespace std {
 			if constexpr( std::is_same_v<daw::formatter_impl::DefaultCharT,
 			                             value_t> ) {
 				// format as string
-				auto out = std::copy(
-				  std::begin( c.container ), std::end( c.container ), ctx.out( ) );
-				return out;
+				auto const str = std::basic_string<CharT>(
+				  std::begin( c.container ), std::end( c.container ) );
+				return std::vformat_to( ctx.out( ), element_format( ),
+				                        std::make_format_args( str ) );
 			} else {
 				auto out = ctx.out( );
 				out = std::copy( std::data( c.Left ), daw::data_end( c.Left ), out );
diff --git a/include/daw/daw_format_tuple.h b/include/daw/daw_format_tuple.h
index 895a2e1..f064852 100644
--- a/include/daw/daw_format_tuple.h
+++ b/include/daw/daw_format_tuple.h
@@ -55,7 +55,7 @@ namespace std {
 	template<typename T, typename CharT>
 	struct formatter<daw::fmt_tuple<T, CharT>, CharT> {
 		// Format specification of the elements, including the closing brace
-		daw::string_view flags = { };
+		daw::string_view flags = "}";
 
 		formatter( ) = default;
 
-- 
2.43.0


From d0b75ac1284a45d4701898a64021a0bdf361567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:02 +0000
Subject: [PATCH 280/311] fix: vprint and vprintln accept run time format
 strings

---
 include/daw/daw_print.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_print.h b/include/daw/daw_print.h
index 2830d10..9505b54 100644
--- a/include/daw/daw_print.h
+++ b/include/daw/daw_print.h
@@ -12,8 +12,11 @@
 #include "daw_move.h"
 #include "traits/daw_formatter.h"
 
+#include <array>
 #include <cstdio>
 #include <format>
+#include <string>
+#include <string_view>
 #include <utility>
 
 namespace daw {
@@ -28,7 +31,7 @@ namespace daw {
 	DAW_ATTRIB_NOINLINE void vprint( FILE *fout, std::string_view fmt,
 	                                 Args &&...args ) {
 		auto const r =
-		  std::vformat( fmt, std::make_format_args( DAW_FWD( args )... ) );
+		  std::vformat( fmt, std::make_format_args( args... ) );
 		(void)std::fwrite( std::data( r ), 1, r.size( ), fout );
 	}
 
@@ -54,7 +57,7 @@ namespace daw {
 	DAW_ATTRIB_NOINLINE void vprintln( FILE *f, std::string fmt,
 	                                   Args &&...args ) {
 		fmt += '\n';
-		daw::print( f, fmt, DAW_FWD( args )... );
+		daw::vprint( f, fmt, DAW_FWD( args )... );
 	}
 
 	template<typename... Args>
@@ -67,7 +70,7 @@ namespace daw {
 	template<typename... Args>
 	DAW_ATTRIB_NOINLINE void vprintln( std::string fmt, Args &&...args ) {
 		fmt += '\n';
-		daw::print( stdout, fmt, DAW_FWD( args )... );
+		daw::vprint( stdout, fmt, DAW_FWD( args )... );
 	}
 
 	DAW_ATTRIB_INLINE void println( ) {
-- 
2.43.0


From eaeb978bceeb73a55b454b5a1ca5b7f24b6a2916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:58 +0000
Subject: [PATCH 281/311] fix: split_buffer reserve grows the storage

---
 include/daw/split_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/split_buffer.h b/include/daw/split_buffer.h
index 846919d..4142228 100644
--- a/include/daw/split_buffer.h
+++ b/include/daw/split_buffer.h
@@ -224,7 +224,7 @@ namespace daw {
 		}
 
 		constexpr void reserve( size_type n ) {
-			if( n < capacity( ) ) {
+			if( n > capacity( ) ) {
 				auto t = split_buffer<value_type, alloc_rr &>( n, 0, alloc( ) );
 				t.construct_at_end( std::move_iterator<pointer>( begin_ ),
 				                    std::move_iterator<pointer>( end_ ) );
-- 
2.43.0


From edac35ff25157671d6149e2705eb29c2632fa716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:57 +0000
Subject: [PATCH 282/311] fix: an array without storage has an empty range of
 pointer iterators

---
 include/daw/iterator/daw_pointer_iterator.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/iterator/daw_pointer_iterator.h b/include/daw/iterator/daw_pointer_iterator.h
index 8a56e08..32c469d 100644
--- a/include/daw/iterator/daw_pointer_iterator.h
+++ b/include/daw/iterator/daw_pointer_iterator.h
@@ -26,9 +26,7 @@ namespace daw {
 
 	public:
 		constexpr pointer_iterator( pointer ptr )
-		  : m_ptr( ptr ) {
-			assert( ptr );
-		}
+		  : m_ptr( ptr ) {}
 
 		template<typename U,
 		         std::enable_if_t<(not std::is_const_v<U> and std::is_const_v<T>),
-- 
2.43.0


From 358e049d520d64883ae53354c28a7599b95e2e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:57 +0000
Subject: [PATCH 283/311] fix: clearing a fixed_array forgets the storage it
 released

---
 include/daw/deprecated/daw_fixed_array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/deprecated/daw_fixed_array.h b/include/daw/deprecated/daw_fixed_array.h
index 0177587..f558022 100644
--- a/include/daw/deprecated/daw_fixed_array.h
+++ b/include/daw/deprecated/daw_fixed_array.h
@@ -140,6 +140,7 @@ namespace daw {
 
 		void clear( ) {
 			delete[] m_data;
+			m_data = nullptr;
 			m_size = 0;
 		}
 
-- 
2.43.0


From 06277b84e5759323cbac112c05f21e195d78b6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:29 +0000
Subject: [PATCH 284/311] fix: reverse iteration of a carray visits its
 elements

---
 include/daw/deprecated/daw_carray.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/deprecated/daw_carray.h b/include/daw/deprecated/daw_carray.h
index 9c5aa09..a2826f9 100644
--- a/include/daw/deprecated/daw_carray.h
+++ b/include/daw/deprecated/daw_carray.h
@@ -151,32 +151,32 @@ namespace daw {
 
 		[[nodiscard]] constexpr auto rbegin( ) noexcept {
 			static_assert( N > 0, "Cannot call rbegin on empty array" );
-			return make_reverse_iterator( &ptr( )[N - 1] );
+			return make_reverse_iterator( end( ) );
 		}
 
 		[[nodiscard]] constexpr auto rbegin( ) const noexcept {
 			static_assert( N > 0, "Cannot call rbegin on empty array" );
-			return make_reverse_iterator( &ptr( )[N - 1] );
+			return make_reverse_iterator( end( ) );
 		}
 
 		[[nodiscard]] constexpr auto crbegin( ) const noexcept {
 			static_assert( N > 0, "Cannot call crbegin on empty array" );
-			return make_reverse_iterator( &ptr( )[N - 1] );
+			return make_reverse_iterator( end( ) );
 		}
 
 		[[nodiscard]] constexpr auto rend( ) noexcept {
 			static_assert( N > 0, "Cannot call rend on empty array" );
-			return make_reverse_iterator( ptr( ) - 1 );
+			return make_reverse_iterator( begin( ) );
 		}
 
 		[[nodiscard]] constexpr auto rend( ) const noexcept {
 			static_assert( N > 0, "Cannot call rend on empty array" );
-			return make_reverse_iterator( ptr( ) - 1 );
+			return make_reverse_iterator( begin( ) );
 		}
 
 		[[nodiscard]] constexpr auto crend( ) const noexcept {
 			static_assert( N > 0, "Cannot call crend on empty array" );
-			return make_reverse_iterator( ptr( ) - 1 );
+			return make_reverse_iterator( begin( ) );
 		}
 
 		[[nodiscard]] constexpr reference front( ) noexcept {
-- 
2.43.0


From ec15dfdd22beb0f5332462da379c2383e9910c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:49 +0000
Subject: [PATCH 285/311] fix: skip_until reads as many bits at a time as it
 was asked to, up to the last

---
 include/daw/daw_bit_stream.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_bit_stream.h b/include/daw/daw_bit_stream.h
index a9fef36..6e50761 100644
--- a/include/daw/daw_bit_stream.h
+++ b/include/daw/daw_bit_stream.h
@@ -47,6 +47,11 @@ namespace daw {
 			return valid( );
 		}
 
+		/// There are bits left, if only of the value read last
+		constexpr bool has_bits( ) const noexcept {
+			return valid( ) or not m_left_overs.empty( );
+		}
+
 		value_type pop_bits( std::size_t num_bits = bit_count_v<value_type> ) {
 			daw::exception::dbg_throw_on_true<std::overflow_error>(
 			  num_bits > bit_count_v<value_type>,
@@ -128,9 +133,9 @@ namespace daw {
 		daw::exception::dbg_throw_on_true( bit_count < 1,
 		                                   "Attempt to pop less than 1 bits" );
 
-		auto cur_val = pop_value<TestValue>( bs );
-		while( bs and cur_val != v ) {
-			cur_val = pop_value<TestValue>( bs );
+		auto cur_val = pop_value<TestValue>( bs, bit_count );
+		while( bs.has_bits( ) and cur_val != v ) {
+			cur_val = pop_value<TestValue>( bs, bit_count );
 		}
 		daw::exception::dbg_throw_on_true( cur_val != v,
 		                                   "Not enough data in stream" );
@@ -139,7 +144,7 @@ namespace daw {
 	template<typename BitStream, typename TestValue>
 	void skip_until( BitStream &bs, TestValue const &v ) {
 		auto cur_val = bs.pop_bits( );
-		while( bs and cur_val != v ) {
+		while( bs.has_bits( ) and cur_val != v ) {
 			cur_val = bs.pop_bits( );
 		}
 		daw::exception::dbg_throw_on_true( cur_val != v,
-- 
2.43.0


From bcc09a3ed9b2cdc234fc2a794545fb0dc9674315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:01 +0000
Subject: [PATCH 286/311] fix: dereferencing a checked pointer gives the
 element it points to

---
 include/daw/daw_safe_pointer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index 053f827..e64c594 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -168,7 +168,9 @@ namespace daw::memory {
 
 		[[nodiscard]] constexpr reference operator*( ) const noexcept {
 			DAW_SAFE_POINTER_ENSURE( *this );
-			return m_range.front( );
+			DAW_SAFE_POINTER_ENSURE( not m_range.data( ) or
+			                         pointer_index( ) < get_base_size( ) );
+			return *m_pointer;
 		}
 
 		[[nodiscard]] constexpr pointer operator->( ) const noexcept {
-- 
2.43.0


From 23aa9a073785a2fe5d62a4453cf2c0cf39c1ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:01 +0000
Subject: [PATCH 287/311] fix: checked pointers compare with nullptr, and a
 distance may be taken from the end

---
 include/daw/daw_safe_pointer.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index e64c594..471e738 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -12,7 +12,9 @@
 
 #include "daw_data_end.h"
 
+#include <cassert>
 #include <cstddef>
+#include <cstdint>
 #include <daw/stdinc/compare_fn.h>
 #include <daw/stdinc/iterator_traits.h>
 #include <daw/stdinc/remove_cvref.h>
@@ -56,7 +58,7 @@ namespace daw::memory {
 		[[nodiscard]] constexpr bool pointer_in_range( pointer p ) const {
 			return ( not get_base( ) and not p ) or
 			       ( std::less_equal<>{ }( get_base( ), p ) and
-			         std::less<>{ }( p, daw::data_end( m_range ) ) );
+			         std::less_equal<>{ }( p, daw::data_end( m_range ) ) );
 		}
 
 		[[nodiscard]] constexpr bool same_range( safe_pointer const &rhs ) const {
@@ -403,13 +405,13 @@ namespace daw::memory {
 		}
 	};
 
-	template<typename T, typename D>
+	template<typename T>
 	constexpr bool operator==( std::nullptr_t,
 	                           safe_pointer<T> const &rhs ) noexcept {
 		return not rhs.get( );
 	}
 
-	template<typename T, typename D>
+	template<typename T>
 	constexpr bool operator==( safe_pointer<T> const &lhs,
 	                           std::nullptr_t ) noexcept {
 		return not lhs.get( );
-- 
2.43.0


From 7e74ee16f7784a723d6f276bbcf1657793a3125b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:01 +0000
Subject: [PATCH 288/311] fix: to_array_of can be used

---
 include/daw/daw_utility.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index 48f10e8..ca2e632 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -25,10 +25,12 @@
 #include "daw/daw_unused.h"
 #include "daw/impl/daw_make_trait.h"
 
+#include <array>
 #include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <cstdlib>
+#include <cstring>
 #include <functional>
 #include <initializer_list>
 #include <iterator>
@@ -785,14 +787,14 @@ namespace daw {
 		static_assert( std::is_trivially_copyable_v<daw::remove_cvref_t<From>>,
 		               "From type must be trivially copiable" );
 		auto result = std::array<unsigned char, sizeof( From )>{ 0 };
-		memcpy( result.data( ), &from, result.size( ) );
+		std::memcpy( result.data( ), &from, result.size( ) );
 		return result;
 	}
 
 	template<typename To, typename From>
 	[[nodiscard]] auto to_array_of( From &&from ) noexcept {
 		constexpr std::size_t const num_values = sizeof( From ) / sizeof( To );
-		static_assert( std::is_integral_v<std::decay<To>>,
+		static_assert( std::is_integral_v<std::decay_t<To>>,
 		               "To must be an integer like type" );
 		static_assert( sizeof( From ) == num_values * sizeof( To ),
 		               "Must have integral number of To's in From" );
@@ -802,8 +804,9 @@ namespace daw {
 
 		for( std::size_t entry = 0; entry < num_values; ++entry ) {
 			result[entry] =
-			  value_from_chars( std::next( as_chars.data( ), entry * sizeof( To ) ),
-			                    std::integral_constant<size_t, sizeof( To )>{ } );
+			  static_cast<To>( value_from_chars<To>(
+			    as_chars.data( ) + entry * sizeof( To ),
+			    std::integral_constant<size_t, sizeof( To )>{ } ) );
 		}
 		return result;
 	}
-- 
2.43.0


From e8a7d20445aa6dc0d0f55f9434e80a1cea7b9f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:15 +0000
Subject: [PATCH 289/311] fix: a copy of an lvalue is a copy

---
 include/daw/daw_utility.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index ca2e632..b3a309f 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -262,8 +262,9 @@ namespace daw {
 	}
 
 	template<typename T>
-	[[nodiscard]] constexpr T
-	copy( T &&value ) noexcept( std::is_nothrow_copy_constructible<T>::value ) {
+	[[nodiscard]] constexpr daw::remove_cvref_t<T>
+	copy( T &&value ) noexcept(
+	  std::is_nothrow_copy_constructible_v<daw::remove_cvref_t<T>> ) {
 		return value;
 	}
 
-- 
2.43.0


From 83a3b0d474732ce18976a03bd1ffa441e27fa15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:15 +0000
Subject: [PATCH 290/311] fix: changing the case of a text of wide characters
 keeps the others

---
 include/daw/daw_utility.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index b3a309f..daa5837 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -323,7 +323,11 @@ namespace daw {
 	AsciiUpper( std::basic_string<CharType, Traits, Allocator> str ) noexcept {
 		daw::algorithm::map( str.cbegin( ), str.cend( ), str.begin( ),
 		                     []( CharType c ) noexcept {
-			                     return AsciiUpper( c );
+			                     if( c < 'a' or 'z' < c ) {
+				                     return c;
+			                     }
+			                     return static_cast<CharType>(
+			                       AsciiUpper( static_cast<char>( c ) ) );
 		                     } );
 		return std::move( str );
 	}
@@ -333,7 +337,11 @@ namespace daw {
 	AsciiLower( std::basic_string<CharType, Traits, Allocator> str ) noexcept {
 		daw::algorithm::map( str.cbegin( ), str.cend( ), str.begin( ),
 		                     []( CharType c ) noexcept {
-			                     return AsciiLower( c );
+			                     if( c < 'A' or 'Z' < c ) {
+				                     return c;
+			                     }
+			                     return static_cast<CharType>(
+			                       AsciiLower( static_cast<char>( c ) ) );
 		                     } );
 		return std::move( str );
 	}
-- 
2.43.0


From c931faa8de591129ddfce0fa4993995e7244992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:59 +0000
Subject: [PATCH 291/311] fix: value_is can be asked about constants

---
 include/daw/daw_utility.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index daa5837..f5fd7a0 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -847,8 +847,6 @@ namespace daw {
 		class value_is_utility_details {
 			T *m_value;
 
-			constexpr value_is_utility_details( T const &v )
-			  : m_value( &v ) {}
 			constexpr value_is_utility_details( T &v )
 			  : m_value( &v ) {}
 			constexpr value_is_utility_details( T &&v )
-- 
2.43.0


From c2b5e0dd39a821d87b90a06b3e2e1cf8f81bf394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:59 +0000
Subject: [PATCH 292/311] fix: the traits of a function object are those of its
 call operator

---
 include/daw/daw_utility.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index f5fd7a0..8a8e9d0 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -160,7 +160,8 @@ namespace daw {
 	// For generic types that are functors, delegate to its 'operator()'
 
 	template<typename T>
-	struct function_traits : public function_traits<decltype( &T{ }( ) )> {};
+	struct function_traits : public function_traits<decltype( &T::operator( ) )> {
+	};
 
 	// for pointers to member function(const version)
 	template<typename ClassType, typename ReturnType, typename... Args>
-- 
2.43.0


From db1a43a522bdc160905c58b2ea3d2a71d0dd6859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:50 +0000
Subject: [PATCH 293/311] fix: containers over the tracked allocator can be
 copied and modified

---
 include/daw/daw_safe_pointer.h      | 6 ++++--
 include/daw/daw_tracked_allocator.h | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index 471e738..d660ada 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -158,7 +158,8 @@ namespace daw::memory {
 
 		template<typename U, std::enable_if_t<std::is_constructible_v<U *, pointer>,
 		                                      std::nullptr_t> = nullptr>
-		inline explicit operator safe_pointer<U>( ) const {
+		inline explicit( not std::is_convertible_v<pointer, U *> )
+		operator safe_pointer<U>( ) const {
 			U *p = static_cast<U *>( m_pointer );
 			if constexpr( std::is_same_v<void, std::remove_const_t<U>> ) {
 				return safe_pointer<U>( p );
@@ -364,7 +365,8 @@ namespace daw::memory {
 
 		template<typename U, std::enable_if_t<std::is_constructible_v<U *, pointer>,
 		                                      std::nullptr_t> = nullptr>
-		inline explicit operator safe_pointer<U>( ) const {
+		inline explicit( not std::is_convertible_v<pointer, U *> )
+		operator safe_pointer<U>( ) const {
 			return safe_pointer<U>( static_cast<U *>( m_pointer ) );
 		}
 
diff --git a/include/daw/daw_tracked_allocator.h b/include/daw/daw_tracked_allocator.h
index bd2e04c..bd383d0 100644
--- a/include/daw/daw_tracked_allocator.h
+++ b/include/daw/daw_tracked_allocator.h
@@ -54,6 +54,11 @@ namespace daw::memory {
 	public:
 		tracked_allocator( ) = default;
 
+		[[nodiscard]] friend constexpr bool
+		operator==( tracked_allocator const &lhs, tracked_allocator const &rhs ) {
+			return lhs.alloc == rhs.alloc;
+		}
+
 		constexpr pointer allocate( size_type n ) {
 			value_type *ptr = std::allocator_traits<Allocator>::allocate( alloc, n );
 			return pointer( ptr, n );
-- 
2.43.0


From 5cd736fc1586d861f0ed46c24a9e646f6d046acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:11 +0000
Subject: [PATCH 294/311] fix: keep copies and moves of a map_view over their
 own range

---
 include/daw/pipelines/map.h | 54 +++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index 852e475..3e13336 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -50,6 +50,11 @@ namespace daw::pipelines {
 		  , m_func( f )
 		  , m_projection( projection ) {}
 
+		/// @brief The same mapping at another position
+		[[nodiscard]] constexpr map_iterator rebase( Iterator it ) const {
+			return map_iterator( it, m_func, m_projection );
+		}
+
 	private:
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr decltype( auto )
 		raw_get( size_type n ) requires( RandomIterator<Iterator> ) {
@@ -205,6 +210,55 @@ namespace daw::pipelines {
 		  , m_first{ std::begin( m_range ), fn, projection }
 		  , m_last{ std::end( m_range ), fn, projection } {}
 
+		~map_view( ) = default;
+
+		// When the range is owned the iterators must refer to this view's range,
+		// not to that of the view it was copied or moved from
+		constexpr map_view( map_view const & )
+		  requires( std::is_lvalue_reference_v<R> )
+		= default;
+		constexpr map_view( map_view && )
+		  requires( std::is_lvalue_reference_v<R> )
+		= default;
+
+		constexpr map_view( map_view const &other )
+		  requires( not std::is_lvalue_reference_v<R> )
+		  : m_range( other.m_range )
+		  , m_first( other.m_first.rebase( std::begin( m_range ) ) )
+		  , m_last( other.m_last.rebase( std::end( m_range ) ) ) {}
+
+		constexpr map_view( map_view &&other )
+		  requires( not std::is_lvalue_reference_v<R> )
+		  : m_range( std::move( other.m_range ) )
+		  , m_first( other.m_first.rebase( std::begin( m_range ) ) )
+		  , m_last( other.m_last.rebase( std::end( m_range ) ) ) {}
+
+		constexpr map_view &operator=( map_view const &rhs )
+		  requires( not std::is_lvalue_reference_v<R> and
+		            std::is_copy_assignable_v<iterator_first_t> and
+		            std::is_copy_assignable_v<iterator_last_t> )
+		{
+			if( this != &rhs ) {
+				m_range = rhs.m_range;
+				m_first = rhs.m_first.rebase( std::begin( m_range ) );
+				m_last = rhs.m_last.rebase( std::end( m_range ) );
+			}
+			return *this;
+		}
+
+		constexpr map_view &operator=( map_view &&rhs )
+		  requires( not std::is_lvalue_reference_v<R> and
+		            std::is_copy_assignable_v<iterator_first_t> and
+		            std::is_copy_assignable_v<iterator_last_t> )
+		{
+			if( this != &rhs ) {
+				m_range = std::move( rhs.m_range );
+				m_first = rhs.m_first.rebase( std::begin( m_range ) );
+				m_last = rhs.m_last.rebase( std::end( m_range ) );
+			}
+			return *this;
+		}
+
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr iterator_first_t begin( ) const {
 			return m_first;
 		}
-- 
2.43.0


From 9f326cc684a3cda784e678d0b50ed8b15c4e308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:11 +0000
Subject: [PATCH 295/311] fix: keep copies and moves of a split_view over their
 own range

---
 include/daw/pipelines/split.h | 44 +++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/include/daw/pipelines/split.h b/include/daw/pipelines/split.h
index a4ef328..f857ea3 100644
--- a/include/daw/pipelines/split.h
+++ b/include/daw/pipelines/split.h
@@ -166,6 +166,50 @@ namespace daw::pipelines {
 		  , m_delimiter{ std::move( d ) }
 		  , m_projection{ std::move( p ) } {}
 
+		~split_view( ) = default;
+
+		// The end position belongs to this view's range, not to that of the view
+		// it was copied or moved from
+		constexpr split_view( split_view const &other )
+		  : m_range( other.m_range )
+		  , m_delimiter( other.m_delimiter )
+		  , m_projection( other.m_projection ) {}
+
+		constexpr split_view( split_view &&other )
+		  : m_range( static_cast<range_type &&>( other.m_range ) )
+		  , m_delimiter( std::move( other.m_delimiter ) )
+		  , m_projection( std::move( other.m_projection ) ) {}
+
+		constexpr split_view &operator=( split_view const &rhs )
+		  requires( not std::is_reference_v<range_type> and
+		            std::is_copy_assignable_v<range_type> and
+		            std::is_copy_assignable_v<Delimiter> and
+		            std::is_copy_assignable_v<Projection> )
+		{
+			if( this != &rhs ) {
+				m_range = rhs.m_range;
+				m_delimiter = rhs.m_delimiter;
+				m_projection = rhs.m_projection;
+				m_last = advance_to_last( std::begin( m_range ), std::end( m_range ) );
+			}
+			return *this;
+		}
+
+		constexpr split_view &operator=( split_view &&rhs )
+		  requires( not std::is_reference_v<range_type> and
+		            std::is_move_assignable_v<range_type> and
+		            std::is_move_assignable_v<Delimiter> and
+		            std::is_move_assignable_v<Projection> )
+		{
+			if( this != &rhs ) {
+				m_range = std::move( rhs.m_range );
+				m_delimiter = std::move( rhs.m_delimiter );
+				m_projection = std::move( rhs.m_projection );
+				m_last = advance_to_last( std::begin( m_range ), std::end( m_range ) );
+			}
+			return *this;
+		}
+
 		[[nodiscard]] constexpr iterator begin( ) {
 			return iterator{ std::begin( m_range ), m_last, m_delimiter,
 			                 m_projection };
-- 
2.43.0


From 2cdae2a9b15ad8d1440fe382cfb5c1953001dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:58 +0000
Subject: [PATCH 296/311] fix: let timed atomic waits take deadlines that are
 centuries away

---
 include/daw/daw_atomic_wait.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_atomic_wait.h b/include/daw/daw_atomic_wait.h
index a6a077a..cd99025 100644
--- a/include/daw/daw_atomic_wait.h
+++ b/include/daw/daw_atomic_wait.h
@@ -92,8 +92,7 @@ namespace daw {
 	atomic_wait_for( std::atomic<T> const *object, T const &old,
 	                 std::chrono::duration<Rep, Period> const &rel_time,
 	                 std::memory_order order = std::memory_order_acquire ) {
-		auto const final_time =
-		  std::chrono::high_resolution_clock::now( ) + rel_time;
+		auto const start_time = std::chrono::high_resolution_clock::now( );
 		auto current =
 		  std::atomic_load_explicit( object, std::memory_order_acquire );
 
@@ -107,7 +106,7 @@ namespace daw {
 				return true;
 			}
 			auto const current_time = std::chrono::high_resolution_clock::now( );
-			auto const is_timed_out = current_time >= final_time;
+			auto const is_timed_out = current_time - start_time >= rel_time;
 			return is_timed_out;
 		};
 		(void)atomic_impl::poll_with_backoff( atomic_impl::timed_backoff_policy,
@@ -211,8 +210,7 @@ namespace daw {
 	                    Fn<bool( T )> auto &&predicate,
 	                    std::chrono::duration<Rep, Period> const &rel_time,
 	                    std::memory_order order = std::memory_order_acquire ) {
-		auto const final_time =
-		  std::chrono::high_resolution_clock::now( ) + rel_time;
+		auto const start_time = std::chrono::high_resolution_clock::now( );
 		auto current_value =
 		  std::atomic_load_explicit( object, std::memory_order_acquire );
 
@@ -228,7 +226,7 @@ namespace daw {
 				return true;
 			}
 			auto const current_time = std::chrono::high_resolution_clock::now( );
-			auto const is_timed_out = current_time >= final_time;
+			auto const is_timed_out = current_time - start_time >= rel_time;
 			return is_timed_out;
 		};
 		(void)atomic_impl::poll_with_backoff( atomic_impl::timed_backoff_policy,
-- 
2.43.0


From 9f023a403471aa23ccd57dfeacbfd4fe81cf3685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:22 +0000
Subject: [PATCH 297/311] fix: report vector growth whose size does not fit in
 size_type

---
 include/daw/vector.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index f802777..8df50ea 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -707,7 +707,7 @@ namespace daw {
 				} else {
 					allocator_type &a = alloc( );
 					auto v = split_buffer<value_type, allocator_type &>(
-					  recommend( size( ) + n ), p - m_begin, a );
+					  recommend( size_after_adding( n ) ), p - m_begin, a );
 					v.construct_at_end( n, x );
 					p = swap_out_circular_buffer( v, p );
 				}
@@ -883,8 +883,8 @@ namespace daw {
 		template<
 		  ResizeAndOverwriteOperation<size_type, pointer, allocator_type> Operation>
 		constexpr auto append_and_overwrite( size_type n, Operation operation ) {
-			if( capacity( ) < size( ) + n ) {
-				reserve( size( ) + n );
+			if( capacity( ) - size( ) < n ) {
+				reserve( size_after_adding( n ) );
 			}
 			pointer p = m_end;
 			auto result = std::move( operation )( p, n );
@@ -907,8 +907,8 @@ namespace daw {
 		    Operation>
 		constexpr auto append_and_overwrite( size_type n, Operation operation ) {
 
-			if( capacity( ) < size( ) + n ) {
-				reserve( size( ) + n );
+			if( capacity( ) - size( ) < n ) {
+				reserve( size_after_adding( n ) );
 			}
 			pointer p = m_end;
 			allocator_type &a = alloc( );
@@ -960,6 +960,14 @@ namespace daw {
 			}
 		}
 
+		/// @throws length_error if size() + n > max_size()
+		[[nodiscard]] constexpr size_type size_after_adding( size_type n ) const {
+			if( DAW_UNLIKELY( n > max_size( ) - size( ) ) ) {
+				throw_length_error( );
+			}
+			return size( ) + n;
+		}
+
 		///  @pre new_size > capacity()
 		[[nodiscard]] constexpr size_type recommend( size_type new_size ) const {
 			size_type const ms = max_size( );
@@ -1027,7 +1035,7 @@ namespace daw {
 			} else {
 				allocator_type &a = alloc( );
 				auto v = split_buffer<value_type, allocator_type &>(
-				  recommend( size( ) + n ), size( ), a );
+				  recommend( size_after_adding( n ) ), size( ), a );
 				v.construct_at_end( n );
 				swap_out_circular_buffer( v );
 			}
@@ -1054,7 +1062,7 @@ namespace daw {
 			} else {
 				allocator_type &a = alloc( );
 				auto v = split_buffer<value_type, allocator_type &>(
-				  recommend( size( ) + n ), size( ), a );
+				  recommend( size_after_adding( n ) ), size( ), a );
 				v.construct_at_end( n, x );
 				swap_out_circular_buffer( v );
 			}
-- 
2.43.0


From 9b5336fdd1dd743550c436a8fb138c7280025361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:53 +0000
Subject: [PATCH 298/311] fix: check the farthest displacement of a
 safe_pointer without overflow

---
 include/daw/daw_safe_pointer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index d660ada..27665ab 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -74,7 +74,9 @@ namespace daw::memory {
 
 		[[nodiscard]] constexpr bool can_add( difference_type n ) const {
 			if( n < 0 ) {
-				return can_sub( -n );
+				// negated as unsigned, the lowest value has no signed negation
+				return std::size_t{ 0 } - static_cast<std::size_t>( n ) <=
+				       pointer_index( );
 			}
 			return static_cast<std::size_t>( n ) <=
 			       ( m_range.size( ) - pointer_index( ) );
@@ -82,7 +84,8 @@ namespace daw::memory {
 
 		[[nodiscard]] constexpr bool can_sub( difference_type n ) const {
 			if( n < 0 ) {
-				return can_add( -n );
+				return std::size_t{ 0 } - static_cast<std::size_t>( n ) <=
+				       ( m_range.size( ) - pointer_index( ) );
 			}
 			return static_cast<std::size_t>( n ) <= pointer_index( );
 		}
-- 
2.43.0


From 63273d9bdb1aa9ce28a0eff8dac74f81b7fa3558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:14 +0000
Subject: [PATCH 299/311] fix: wrap the longest moves of a circular_iterator
 without overflow

---
 include/daw/iterator/daw_circular_iterator.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_circular_iterator.h b/include/daw/iterator/daw_circular_iterator.h
index f4cbdd9..d2deb94 100644
--- a/include/daw/iterator/daw_circular_iterator.h
+++ b/include/daw/iterator/daw_circular_iterator.h
@@ -61,7 +61,8 @@ namespace daw {
 		constexpr difference_type get_offset( difference_type n ) const noexcept {
 			auto const sz =
 			  static_cast<difference_type>( impl::container_size( *m_container ) );
-			n = ( n + m_position ) % sz;
+			// reduced first, so that the sum cannot overflow
+			n = ( n % sz + m_position ) % sz;
 			if( n < 0 ) {
 				n += sz;
 			}
@@ -127,7 +128,10 @@ namespace daw {
 		}
 
 		constexpr circular_iterator &operator-=( difference_type n ) {
-			m_position = get_offset( -n );
+			// the lowest value has no negation, its remainder does
+			m_position = get_offset(
+			  -( n % static_cast<difference_type>(
+			           impl::container_size( *m_container ) ) ) );
 			return *this;
 		}
 
-- 
2.43.0


From 264d8e16920b7c161c6df9626d4dc8dbb67f1f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:31 +0000
Subject: [PATCH 300/311] fix: skip any number of bytes of a bit_stream without
 the count of bits overflowing

---
 include/daw/daw_bit_stream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_bit_stream.h b/include/daw/daw_bit_stream.h
index 6e50761..4946990 100644
--- a/include/daw/daw_bit_stream.h
+++ b/include/daw/daw_bit_stream.h
@@ -122,7 +122,10 @@ namespace daw {
 
 	template<typename BitStream>
 	void skip_bytes( BitStream &bs, size_t bytes_needed ) {
-		skip_bits( bs, bytes_needed * bit_count_v<char> );
+		// byte by byte, the number of bits may not fit
+		for( ; bytes_needed > 0; --bytes_needed ) {
+			skip_bits( bs, bit_count_v<char> );
+		}
 	}
 
 	template<typename BitStream, typename TestValue>
-- 
2.43.0


From 3628e14887e9306614fa52d417af0ab16e5590f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:14 +0000
Subject: [PATCH 301/311] fix: move the deleter along when a unique_ptr is
 assigned from one of a derived type

---
 include/daw/daw_unique_ptr.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index 2ff98c6..6a2edaf 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -160,6 +160,7 @@ namespace daw {
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
 			reset( );
+			get_deleter( ) = std::move( rhs.get_deleter( ) );
 			m_ptr = rhs.release( );
 			return *this;
 		}
-- 
2.43.0


From cc2c4602e03886dc2429b15a2d370b845d27de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:15 +0000
Subject: [PATCH 302/311] fix: keep the deleter when a maybe_unique_ptr takes
 over the object of an owner of a derived type

---
 include/daw/daw_maybe_unique_ptr.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index a432801..1fa76b6 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -79,7 +79,7 @@ namespace daw {
 		requires( not std::is_same_v<T, U> ) //
 		  constexpr maybe_unique_ptr( maybe_unique_ptr<U, D> &&other ) noexcept
 		  : Deleter( static_cast<D &&>( other ) )
-		  , m_ptr( other.m_ptr.release( ) )
+		  , m_ptr( std::move( other.m_ptr ) )
 		  , m_owned( std::exchange( other.m_owned, true ) ) {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
@@ -89,8 +89,7 @@ namespace daw {
 		template<typename U, typename D>
 		requires( not std::is_same_v<T, U> ) //
 		  constexpr maybe_unique_ptr( unique_ptr<U, D> &&other ) noexcept
-		  : Deleter( std::move( other ).get_deleter( ) )
-		  , m_ptr( other.release( ) ) {
+		  : m_ptr( std::move( other ) ) {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
@@ -113,7 +112,7 @@ namespace daw {
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
 			reset( );
-			m_ptr = rhs.m_ptr.release( );
+			m_ptr = std::move( rhs.m_ptr );
 			m_owned = std::exchange( rhs.m_owned, true );
 			return *this;
 		}
@@ -125,7 +124,7 @@ namespace daw {
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
 			reset( );
-			m_ptr = rhs.release( );
+			m_ptr = std::move( rhs );
 			return *this;
 		}
 
-- 
2.43.0


From 485d339d27a63b86cd9939e955a965bf94e30ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:56 +0000
Subject: [PATCH 303/311] fix: let an iter_view drop all of its elements
 without clipping

---
 include/daw/daw_iter_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_iter_view.h b/include/daw/daw_iter_view.h
index 7040a9f..5451a14 100644
--- a/include/daw/daw_iter_view.h
+++ b/include/daw/daw_iter_view.h
@@ -209,7 +209,7 @@ namespace daw {
 		}
 
 		constexpr void remove_prefix( size_type count, dont_clip_to_bounds_t ) {
-			assert( count < size( ) );
+			assert( count <= size( ) );
 			std::advance( m_first, static_cast<difference_type>( count ) );
 			m_size -= count;
 		}
-- 
2.43.0


From 4fec18bf2a33dd3f7da94936cb24f71617c45f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:50 +0000
Subject: [PATCH 304/311] fix: let Take run over input ranges, stopping at
 their end

---
 include/daw/pipelines/take.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index cf26b98..a7220c4 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -40,8 +40,9 @@ namespace daw::pipelines::pimpl {
 				return range_t{ sized_iterator<iter_t>{ first, take_size },
 				                sized_iterator<iter_t>{ take_last, 0 } };
 			} else {
-				return range_t{ sized_iterator<iter_t>{ first, how_many },
-				                sized_iterator<iter_t>{ last, 0 } };
+				return range_t{ sized_iterator<iter_t>{ first, last,
+				                                        first == last ? 0 : how_many },
+				                sized_iterator<iter_t>{ last, last, 0 } };
 			}
 		}
 	};
-- 
2.43.0


From 870dfcc7af4ba8ec4c8399607fa43d7c5ca9988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:19 +0000
Subject: [PATCH 305/311] fix: do not let a Filter of an input range claim to
 be multi-pass

---
 include/daw/pipelines/filter.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/filter.h b/include/daw/pipelines/filter.h
index b4d7faf..542011c 100644
--- a/include/daw/pipelines/filter.h
+++ b/include/daw/pipelines/filter.h
@@ -32,7 +32,10 @@ namespace daw::pipelines {
 		using typename daw_range_base_t::iterator_first_t;
 		using typename daw_range_base_t::iterator_last_t;
 
-		using iterator_category = std::forward_iterator_tag;
+		// no stronger than that of the iterator filtered
+		using iterator_category =
+		  daw::common_iterator_category_t<daw::iter_category_t<iterator_first_t>,
+		                                  std::forward_iterator_tag>;
 		using value_type = daw::iter_value_t<iterator_first_t>;
 		using reference = daw::iter_reference_t<iterator_first_t>;
 		using const_reference = daw::iter_const_reference_t<iterator_first_t>;
-- 
2.43.0


From c9bebe595098ce2af95f13224f618729a8273152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:20 +0000
Subject: [PATCH 306/311] fix: do not let a Unique of an input range claim to
 be multi-pass

---
 include/daw/pipelines/unique.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/unique.h b/include/daw/pipelines/unique.h
index 81391bb..97e0702 100644
--- a/include/daw/pipelines/unique.h
+++ b/include/daw/pipelines/unique.h
@@ -22,7 +22,10 @@ namespace daw::pipelines {
 		using value_type = daw::iter_value_t<Iterator>;
 		static_assert( requires( value_type const &v ) { v == v; } );
 
-		using iterator_category = std::forward_iterator_tag;
+		// no stronger than that of the underlying iterator
+		using iterator_category =
+		  daw::common_iterator_category_t<daw::iter_category_t<Iterator>,
+		                                  std::forward_iterator_tag>;
 		using reference = daw::iter_reference_t<Iterator>;
 		using const_reference = daw::iter_const_reference_t<Iterator>;
 		using difference_type = std::ptrdiff_t;
-- 
2.43.0


From 916ec881568e4b1e5e3e4a890d846cab0860290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:32 +0000
Subject: [PATCH 307/311] fix: take the value of a bounded_vector element being
 added before its elements move to the front

---
 include/daw/daw_bounded_vector.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index f757a6f..41e0919 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -199,17 +199,25 @@ namespace daw {
 	public:
 		constexpr void push_back( const_reference value ) noexcept {
 			if( can_move_front( 1 ) ) {
+				// value may be one of the elements that move
+				value_type tmp = value;
 				do_move_to_front( );
+				m_stack[m_index] = std::move( tmp );
+			} else {
+				m_stack[m_index] = value;
 			}
-			m_stack[m_index] = value;
 			++m_index;
 		}
 
 		constexpr void push_back( value_type &&value ) noexcept {
 			if( can_move_front( 1 ) ) {
+				// value may be one of the elements that move
+				value_type tmp = std::move( value );
 				do_move_to_front( );
+				m_stack[m_index] = std::move( tmp );
+			} else {
+				m_stack[m_index] = std::move( value );
 			}
-			m_stack[m_index] = std::move( value );
 			++m_index;
 		}
 
@@ -258,10 +266,12 @@ namespace daw {
 
 		template<typename... Args>
 		constexpr void emplace_back( Args &&...args ) noexcept {
+			// args may refer to elements that move
+			value_type tmp = daw::construct_a<value_type>( DAW_FWD( args )... );
 			if( can_move_front( 1 ) ) {
 				do_move_to_front( );
 			}
-			m_stack[m_index] = daw::construct_a<value_type>( DAW_FWD( args )... );
+			m_stack[m_index] = std::move( tmp );
 			++m_index;
 		}
 
-- 
2.43.0


From aa67a36959e0a2deb30e0042811eff8bf2a83a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:27 +0000
Subject: [PATCH 308/311] fix: take over the source of a unique_ptr assignment
 before disposing of the old object

---
 include/daw/daw_unique_ptr.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index 6a2edaf..840c557 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -146,9 +146,11 @@ namespace daw {
 
 		constexpr unique_ptr &operator=( unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
+				// rhs may live inside of the object released here
+				auto tmp = unique_ptr( std::move( rhs ) );
 				reset( );
-				get_deleter( ) = std::move( rhs.get_deleter( ) );
-				m_ptr = rhs.release( );
+				get_deleter( ) = std::move( tmp.get_deleter( ) );
+				m_ptr = tmp.release( );
 			}
 			return *this;
 		}
@@ -159,9 +161,11 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
+			// rhs may live inside of the object released here
+			auto tmp = unique_ptr<U, Deleter>( std::move( rhs ) );
 			reset( );
-			get_deleter( ) = std::move( rhs.get_deleter( ) );
-			m_ptr = rhs.release( );
+			get_deleter( ) = std::move( tmp.get_deleter( ) );
+			m_ptr = tmp.release( );
 			return *this;
 		}
 
@@ -303,9 +307,11 @@ namespace daw {
 
 		constexpr unique_ptr &operator=( unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
+				// rhs may live inside of the object released here
+				auto tmp = unique_ptr( std::move( rhs ) );
 				reset( );
-				get_deleter( ) = std::move( rhs.get_deleter( ) );
-				m_ptr = rhs.release( );
+				get_deleter( ) = std::move( tmp.get_deleter( ) );
+				m_ptr = tmp.release( );
 			}
 			return *this;
 		}
@@ -316,8 +322,10 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
+			// rhs may live inside of the object released here
+			auto *const ptr = rhs.release( );
 			reset( );
-			m_ptr = rhs.release( );
+			m_ptr = ptr;
 			return *this;
 		}
 
-- 
2.43.0


From 8b8b070beae23e745c3461467b13167e0b46b38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:49 +0000
Subject: [PATCH 309/311] fix: take over the source of a maybe_unique_ptr
 assignment before disposing of the old object

---
 include/daw/daw_maybe_unique_ptr.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index 1fa76b6..10cdb8c 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -97,9 +97,11 @@ namespace daw {
 
 		constexpr maybe_unique_ptr &operator=( maybe_unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
+				// rhs may live inside of the object released here
+				auto tmp = maybe_unique_ptr( std::move( rhs ) );
 				reset( );
-				m_ptr = std::move( rhs.m_ptr );
-				m_owned = std::exchange( rhs.m_owned, true );
+				m_ptr = std::move( tmp.m_ptr );
+				m_owned = std::exchange( tmp.m_owned, true );
 			}
 			return *this;
 		}
@@ -111,9 +113,12 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
+			// rhs may live inside of the object released here
+			auto tmp = std::move( rhs.m_ptr );
+			auto const owned = std::exchange( rhs.m_owned, true );
 			reset( );
-			m_ptr = std::move( rhs.m_ptr );
-			m_owned = std::exchange( rhs.m_owned, true );
+			m_ptr = std::move( tmp );
+			m_owned = owned;
 			return *this;
 		}
 
@@ -123,8 +128,10 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
+			// rhs may live inside of the object released here
+			auto tmp = unique_ptr<U, D>( std::move( rhs ) );
 			reset( );
-			m_ptr = std::move( rhs );
+			m_ptr = std::move( tmp );
 			return *this;
 		}
 
-- 
2.43.0


From 70956db3dbc61b92e25f44eb7aa22e8c4fbc1baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:49 +0000
Subject: [PATCH 310/311] fix: take over the source of a unique_array_t
 assignment before disposing of the old elements

---
 include/daw/daw_unique_array.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index d3f759f..f6f65b4 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -66,12 +66,11 @@ namespace daw {
 			if( this == &rhs ) {
 				return *this;
 			}
+			// rhs may live inside of the elements released here
+			auto tmp = unique_array_t( std::move( rhs ) );
 			clear( );
-			if( !rhs.m_data ) {
-				return *this;
-			}
-			m_data = daw::exchange( rhs.m_data, nullptr );
-			m_size = daw::exchange( rhs.m_size, 0U );
+			m_data = daw::exchange( tmp.m_data, nullptr );
+			m_size = daw::exchange( tmp.m_size, 0U );
 			return *this;
 		}
 
-- 
2.43.0


From 9609a55ba8ec49686cae9548cbb1072ff26ba6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:06 +0000
Subject: [PATCH 311/311] fix: take over the source of a unique_resource
 assignment before disposing of the old resource

---
 include/daw/daw_unique_resource.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 5f14513..24c177e 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -29,8 +29,10 @@ namespace daw {
 		unique_resource &operator=( unique_resource &&rhs ) noexcept(
 		  std::is_nothrow_move_assignable_v<T> ) {
 			if( this != &rhs ) {
+				// rhs may live inside of the resource released here
+				auto tmp = daw::exchange( rhs.value, std::nullopt );
 				reset( );
-				value = daw::exchange( rhs.value, std::nullopt );
+				value = std::move( tmp );
 			}
 			return *this;
 		}
-- 
2.43.0

