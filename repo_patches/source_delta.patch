From dd5adf71048affded321d0c1f93d5b01f719f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:28 +0000
Subject: [PATCH 001/121] fix: string_view::pop_front_unsafe( count ) returned
 the whole view

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 36be0f1..d9557cf 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1162,7 +1162,7 @@ namespace daw {
 				DAW_STRING_VIEW_DBG_RNG_CHECK(
 				  size( ) >= count,
 				  "Attempt to pop front too many elements basic_string_view" );
-				basic_string_view result = substr_unsafe( 0 );
+				basic_string_view result = substr_unsafe( 0, count );
 				remove_prefix_unsafe( count );
 				return result;
 			}
-- 
2.43.0


From f49416918a3375a880433f523133bb42a0033571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:28 +0000
Subject: [PATCH 002/121] fix: string_view::substr_unsafe marked views of
 unterminated ranges as zero terminated

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index d9557cf..79e5083 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1840,7 +1840,7 @@ namespace daw {
 				DAW_STRING_VIEW_DBG_RNG_CHECK(
 				  pos + count <= size( ),
 				  "Attempt to access basic_string_view past end" );
-				if( pos + count == size( ) ) {
+				if( is_zero_terminated( ) and pos + count == size( ) ) {
 					return basic_string_view(
 					  m_first + pos, m_first + pos + count, zero_terminated );
 				} else {
-- 
2.43.0


From fa027d13b3ec940a4e1128ca5a89158272ceb889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:28 +0000
Subject: [PATCH 003/121] fix: string_view::find( c, pos ) returned positions
 relative to pos and used wmemchr on 2 byte characters

---
 include/daw/daw_string_view.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 79e5083..4825e5e 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2005,8 +2005,8 @@ namespace daw {
 							return npos;
 						}
 						return static_cast<std::size_t>( static_cast<CharT const *>( r ) -
-						                                 first );
-					} else if constexpr( sizeof( CharT ) == 2 ) {
+						                                 data( ) );
+					} else if constexpr( std::is_same_v<CharT, wchar_t> ) {
 						wchar_t const *r =
 						  ::wmemchr( const_cast<wchar_t *>(
 						               reinterpret_cast<wchar_t const *>( first ) ),
@@ -2016,11 +2016,11 @@ namespace daw {
 							return npos;
 						}
 						return static_cast<std::size_t>(
-						  reinterpret_cast<CharT const *>( r ) - first );
+						  reinterpret_cast<CharT const *>( r ) - data( ) );
 					} else {
-						for( std::size_t n = pos; n < sz; ++n ) {
+						for( std::size_t n = 0; n < sz; ++n ) {
 							if( first[n] == c ) {
-								return n;
+								return pos + n;
 							}
 						}
 						return npos;
@@ -2028,9 +2028,9 @@ namespace daw {
 				}
 				else {
 #endif
-					for( std::size_t n = pos; n < sz; ++n ) {
+					for( std::size_t n = 0; n < sz; ++n ) {
 						if( first[n] == c ) {
-							return n;
+							return pos + n;
 						}
 					}
 					return npos;
-- 
2.43.0


From ea74138566b4b28ad8e8c7dbc48d9ca16c4ebb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:28 +0000
Subject: [PATCH 004/121] fix: string_view::contains( s, pos, count ) did not
 compare with npos

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 4825e5e..b8d2381 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2084,7 +2084,7 @@ namespace daw {
 			/// @brief Test if the string_view contains the supplied pattern
 			[[nodiscard]] constexpr bool contains( const_pointer s, size_type pos,
 			                                       size_type count ) const {
-				return find( basic_string_view<CharT>( s, count ), pos );
+				return find( basic_string_view<CharT>( s, count ), pos ) != npos;
 			}
 
 			/// @brief Test if the string_view contains the supplied pattern
-- 
2.43.0


From b3b47b633bd60ed44653060ab635c99f5c2084cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:28 +0000
Subject: [PATCH 005/121] fix: string_view::find and find_first_match read past
 the end when pos > size( )

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index b8d2381..6dc2fa3 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2053,7 +2053,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type find( basic_string_view v,
 			                                        size_type pos = 0 ) const {
-				if( size( ) < v.size( ) ) {
+				if( pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				if( v.empty( ) ) {
@@ -2100,7 +2100,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type
 			find_first_match( basic_string_view v, size_type pos ) const {
-				if( size( ) < v.size( ) ) {
+				if( pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				if( v.empty( ) ) {
-- 
2.43.0


From a1aac64ae9619b67a9546c43a6dc19fb18161343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:28 +0000
Subject: [PATCH 006/121] fix: string_view::find_last_not_of and
 find_last_not_of_if read past the end when pos == size( )

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 6dc2fa3..6969cd9 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2457,7 +2457,7 @@ namespace daw {
 				if( empty( ) ) {
 					return npos;
 				}
-				if( pos > size( ) ) {
+				if( pos >= size( ) ) {
 					pos = size( ) - 1;
 				}
 				for( auto n = static_cast<difference_type>( pos ); n >= 0; --n ) {
@@ -2481,7 +2481,7 @@ namespace daw {
 				if( empty( ) ) {
 					return npos;
 				}
-				if( pos > size( ) ) {
+				if( pos >= size( ) ) {
 					pos = size( ) - 1;
 				}
 				if( v.empty( ) ) {
-- 
2.43.0


From 878ab63b8b82648927cd95779616bbdc8866500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:28 +0000
Subject: [PATCH 007/121] fix: string_view::trim_suffix_copy called a mutating
 member on *this and did not compile

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 6969cd9..d196a6f 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2770,7 +2770,7 @@ namespace daw {
 			[[nodiscard]] constexpr basic_string_view
 			trim_suffix_copy( ) const noexcept DAW_LIFETIME_BOUND {
 				auto result = *this;
-				result = remove_suffix_while( is_space{ } );
+				result.remove_suffix_while( is_space{ } );
 				return result;
 			}
 
-- 
2.43.0


From 4cf88ce9d2fb2ace7e9743abf41dbd2d06aa2070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:28 +0000
Subject: [PATCH 008/121] fix: string_view::try_pop_front_until( pred ) removed
 a character when nothing was found

---
 include/daw/daw_string_view.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index d196a6f..d05e0c6 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1579,7 +1579,11 @@ namespace daw {
 			DAW_REQ_UNARY_PRED_REQ( UnaryPredicate, CharT )
 			[[nodiscard]] constexpr basic_string_view
 			  try_pop_front_until( UnaryPredicate pred ) DAW_LIFETIME_BOUND {
-				auto result = try_pop_front_until( pred, nodiscard );
+				auto pos = find_first_of_if( pred );
+				if( pos == npos ) {
+					return basic_string_view<CharT>( );
+				}
+				auto result = pop_front( pos );
 				remove_prefix( sv2_details::find_predicate_result_size( pred ) );
 				return result;
 			}
-- 
2.43.0


From 3ecfb3408397b01f47061a19e00ff9de4e34a758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:28 +0000
Subject: [PATCH 009/121] fix: string_view::pop_back_until( CharT, nodiscard_t
 ) called size( ) on a character and did not compile

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index d05e0c6..f917b77 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1381,7 +1381,7 @@ namespace daw {
 					remove_prefix( npos );
 					return result;
 				}
-				auto result = substr( pos + where.size( ) );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos ) - 1 );
 				return result;
 			}
-- 
2.43.0


From 0c356fe80480681d3e3451ed69603cb3b19b3184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:28 +0000
Subject: [PATCH 010/121] fix: string_view::search missed a match at the end,
 search_last returned the first match or pos when there was none

---
 include/daw/daw_string_view.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index f917b77..8ad8e74 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2214,7 +2214,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type search( basic_string_view v,
 			                                          size_type pos = 0 ) const {
-				if( ( pos + v.size( ) ) >= size( ) or v.empty( ) ) {
+				if( pos > size( ) or v.size( ) > size( ) - pos or v.empty( ) ) {
 					return npos;
 				}
 				auto const iter = sv2_details::search(
@@ -2235,17 +2235,11 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type search_last( basic_string_view v,
 			                                               size_type pos = 0 ) const {
-				if( pos + v.size( ) >= size( ) or v.empty( ) ) {
-					return npos;
-				}
-				auto last_pos = pos;
+				auto last_pos = npos;
 				auto fpos = search( v, pos );
 				while( fpos != npos ) {
 					last_pos = fpos;
-					fpos = search( v, fpos );
-					if( fpos == last_pos ) {
-						break;
-					}
+					fpos = search( v, fpos + 1 );
 				}
 				return last_pos;
 			}
-- 
2.43.0


From 128689425c0fcb4008f3200f7b1b50bb31ab18f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:29 +0000
Subject: [PATCH 011/121] fix: string_view::find_first_match( needles )
 compared later needles from the wrong position

---
 include/daw/daw_string_view.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 8ad8e74..ee4dfe6 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -362,20 +362,15 @@ namespace daw {
 			        std::initializer_list<basic_string_view<CharT>> needles ) {
 				auto const last = daw::data_end( haystack );
 				for( ; not haystack.empty( ); haystack.remove_prefix( ) ) {
-					auto it = haystack.data( );
-
 					for( auto needle : needles ) {
-						if( needle.size( ) > haystack.size( ) ) {}
+						auto it = haystack.data( );
 						auto s_first = std::data( needle );
 						auto const s_last = daw::data_end( needle );
 						for( auto s_it = s_first;; ++it, ++s_it ) {
 							if( s_it == s_last ) {
 								return haystack.data( );
 							}
-							if( it == last ) {
-								return last;
-							}
-							if( not( *it == *s_it ) ) {
+							if( it == last or not( *it == *s_it ) ) {
 								break;
 							}
 						}
-- 
2.43.0


From 8f0d79aebeee9ba721958de5372a95cfd4458fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:37 +0000
Subject: [PATCH 012/121] fix: string_view::try_pop_back_until returned the
 delimiter as part of the popped substring

---
 include/daw/daw_string_view.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index ee4dfe6..ecbb703 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1628,7 +1628,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos ) - 1 );
 				return result;
 			}
@@ -1644,7 +1644,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( size( ) - pos );
 				return result;
 			}
@@ -1667,7 +1667,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( size( ) - pos );
 				return result;
 			}
@@ -1690,7 +1690,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos - 1 ) );
 				return result;
 			}
-- 
2.43.0


From 39ae8094f371a377ed9819d90bd96df1b6f0a223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:37 +0000
Subject: [PATCH 013/121] fix: string_view::[try_]pop_back_until( sv,
 nodiscard_t ) discarded the delimiter

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index ecbb703..14ec650 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1360,7 +1360,7 @@ namespace daw {
 					return result;
 				}
 				auto result = substr( pos + where.size( ) );
-				remove_suffix( size( ) - pos );
+				remove_suffix( size( ) - ( pos + where.size( ) ) );
 				return result;
 			}
 
@@ -1613,7 +1613,7 @@ namespace daw {
 					return basic_string_view<CharT>( );
 				}
 				auto result = substr( pos + where.size( ) );
-				remove_suffix( size( ) - pos );
+				remove_suffix( size( ) - ( pos + where.size( ) ) );
 				return result;
 			}
 
-- 
2.43.0


From a859e325bdf8c6dfc8c17177a5612f2361df64f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:42 +0000
Subject: [PATCH 014/121] fix: string_view::remove_prefix_until( pred,
 nodiscard_t ) called a function that does not exist

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 14ec650..76ac43e 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1770,7 +1770,7 @@ namespace daw {
 			DAW_ATTRIB_INLINE
 			  constexpr basic_string_view &remove_prefix_until( UnaryPredicate pred,
 			                                                    nodiscard_t ) {
-				auto pos = find_if( pred );
+				auto pos = find_first_of_if( pred );
 				dec_front( (std::min)( { size( ), pos } ) );
 				return *this;
 			}
-- 
2.43.0


From e50417ae01140bdc572d0d03657b3f9a57d5440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:15 +0000
Subject: [PATCH 015/121] fix: maybe_unique_ptr took ownership of a pointer it
 did not own when moved

---
 include/daw/daw_maybe_unique_ptr.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index a42ff11..a2b93cb 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -72,14 +72,14 @@ namespace daw {
 		constexpr maybe_unique_ptr( std::nullptr_t ) noexcept {}
 
 		constexpr maybe_unique_ptr( maybe_unique_ptr &&other ) noexcept
-		  : m_ptr( other.release( ) )
+		  : m_ptr( other.m_ptr.release( ) )
 		  , m_owned( std::exchange( other.m_owned, true ) ) {}
 
 		template<typename U, typename D>
 		requires( not std::is_same_v<T, U> ) //
 		  constexpr maybe_unique_ptr( maybe_unique_ptr<U, D> &&other ) noexcept
 		  : Deleter( static_cast<D &&>( other ) )
-		  , m_ptr( other.release( ) )
+		  , m_ptr( other.m_ptr.release( ) )
 		  , m_owned( std::exchange( other.m_owned, true ) ) {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
@@ -99,7 +99,7 @@ namespace daw {
 		constexpr maybe_unique_ptr &operator=( maybe_unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
 				reset( );
-				m_ptr = rhs.release( );
+				m_ptr = rhs.m_ptr.release( );
 				m_owned = std::exchange( rhs.m_owned, true );
 			}
 			return *this;
-- 
2.43.0


From b87a2c9007b79624a849991f4e0c0e16a2a2971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:15 +0000
Subject: [PATCH 016/121] fix: maybe_unique_ptr::reset( p, owned ) deleted p
 and kept it

---
 include/daw/daw_maybe_unique_ptr.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index a2b93cb..047e0a3 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -166,11 +166,7 @@ namespace daw {
 		}
 
 		constexpr void reset( pointer p, bool owned = true ) noexcept {
-			if( m_owned ) {
-				m_ptr.reset( std::move( p ) );
-			} else {
-				(void)m_ptr.release( );
-			}
+			reset( );
 			m_ptr.reset( std::move( p ) );
 			m_owned = owned;
 		}
-- 
2.43.0


From 8d0165b3f4c0a541d001dd88fde3658624ed8dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:15 +0000
Subject: [PATCH 017/121] fix: maybe_unique_ptr converting assignment deleted
 an unowned pointer, and did not compile from unique_ptr

---
 include/daw/daw_maybe_unique_ptr.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index 047e0a3..0b01b04 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -112,6 +112,7 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
+			reset( );
 			m_ptr = std::move( rhs.m_ptr );
 			m_owned = std::exchange( rhs.m_owned, true );
 			return *this;
@@ -123,8 +124,9 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
+			reset( );
 			m_ptr = std::move( rhs );
-			m_owned = std::exchange( rhs.m_owned, true );
+			m_owned = true;
 			return *this;
 		}
 
-- 
2.43.0


From 284c5d403c6818e3322790c1a458279d369d1da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:15 +0000
Subject: [PATCH 018/121] fix: unique_ptr and maybe_unique_ptr operator<= was
 operator>=

---
 include/daw/daw_maybe_unique_ptr.h | 2 +-
 include/daw/daw_unique_ptr.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index 0b01b04..f7a80d0 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -293,7 +293,7 @@ namespace daw {
 	template<typename T, typename D0, typename D1 = D0>
 	constexpr bool operator<=( maybe_unique_ptr<T, D0> const &lhs,
 	                           maybe_unique_ptr<T, D1> const &rhs ) noexcept {
-		return not( lhs < rhs );
+		return not( rhs < lhs );
 	}
 
 	template<typename T, typename D0, typename D1 = D0>
diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index 8cef944..ea9e72c 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -460,7 +460,7 @@ namespace daw {
 	template<typename T, typename D0, typename D1 = D0>
 	constexpr bool operator<=( unique_ptr<T, D0> const &lhs,
 	                           unique_ptr<T, D1> const &rhs ) noexcept {
-		return not( lhs < rhs );
+		return not( rhs < lhs );
 	}
 
 	template<typename T, typename D0, typename D1 = D0>
-- 
2.43.0


From 7a77701f2e2dcfdb0d9f89e3974ce35edfb0e075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:15 +0000
Subject: [PATCH 019/121] fix: unique_ptr converting move assignment compared
 pointers to unrelated types and did not compile

---
 include/daw/daw_unique_ptr.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index ea9e72c..de6e844 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -157,10 +157,8 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			if( this != &rhs ) {
-				reset( );
-				m_ptr = rhs.release( );
-			}
+			reset( );
+			m_ptr = rhs.release( );
 			return *this;
 		}
 
@@ -312,10 +310,8 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			if( this != &rhs ) {
-				reset( );
-				m_ptr = rhs.release( );
-			}
+			reset( );
+			m_ptr = rhs.release( );
 			return *this;
 		}
 
-- 
2.43.0


From 50354a026fdf4b91ef809030b37f20f585181aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:07 +0000
Subject: [PATCH 020/121] fix: rc_ptr::reset kept the pointer it gave up while
 others shared it

---
 include/daw/daw_ref_counted_pointer.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_ref_counted_pointer.h b/include/daw/daw_ref_counted_pointer.h
index e9dd2bc..c868351 100644
--- a/include/daw/daw_ref_counted_pointer.h
+++ b/include/daw/daw_ref_counted_pointer.h
@@ -136,9 +136,9 @@ namespace daw {
 				return;
 			}
 			assert( m_ref_count );
-			if( --ref_count( ) == 0 ) {
-				auto old_ptr = daw::exchange( m_pointer, nullptr );
-				auto old_ref = daw::exchange( m_ref_count, nullptr );
+			auto old_ptr = daw::exchange( m_pointer, nullptr );
+			auto old_ref = daw::exchange( m_ref_count, nullptr );
+			if( --*old_ref == 0 ) {
 				delete old_ref;
 				Deleter{ }( old_ptr );
 			}
@@ -309,9 +309,9 @@ namespace daw {
 				return;
 			}
 			assert( m_ref_count );
-			if( --ref_count( ) == 0 ) {
-				auto *old_ptr = daw::exchange( m_pointer, nullptr );
-				auto *old_ref = daw::exchange( m_ref_count, nullptr );
+			auto *old_ptr = daw::exchange( m_pointer, nullptr );
+			auto *old_ref = daw::exchange( m_ref_count, nullptr );
+			if( --*old_ref == 0 ) {
 				delete old_ref;
 				Deleter{ }( old_ptr );
 			}
-- 
2.43.0


From a50982d7df6bdef3e9af26db3090f2bbc12f6a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:07 +0000
Subject: [PATCH 021/121] fix: rc_ptr relational operators with nullptr did not
 compile

---
 include/daw/daw_ref_counted_pointer.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_ref_counted_pointer.h b/include/daw/daw_ref_counted_pointer.h
index c868351..a2a8963 100644
--- a/include/daw/daw_ref_counted_pointer.h
+++ b/include/daw/daw_ref_counted_pointer.h
@@ -203,19 +203,19 @@ namespace daw {
 		}
 
 		constexpr bool operator<( std::nullptr_t ) const noexcept {
-			return std::less<>{ }( m_pointer, nullptr );
+			return std::less<>{ }( m_pointer, pointer( nullptr ) );
 		}
 
 		constexpr bool operator<=( std::nullptr_t ) const noexcept {
-			return not std::less<>{ }( nullptr, m_pointer );
+			return not std::less<>{ }( pointer( nullptr ), m_pointer );
 		}
 
 		constexpr bool operator>( std::nullptr_t ) const noexcept {
-			return std::less<>{ }( nullptr, m_pointer );
+			return std::less<>{ }( pointer( nullptr ), m_pointer );
 		}
 
 		constexpr bool operator>=( std::nullptr_t ) const noexcept {
-			return not std::less<>{ }( m_pointer, nullptr );
+			return not std::less<>{ }( m_pointer, pointer( nullptr ) );
 		}
 	};
 
@@ -381,19 +381,19 @@ namespace daw {
 		}
 
 		constexpr bool operator<( std::nullptr_t ) const noexcept {
-			return std::less<>{ }( m_pointer, nullptr );
+			return std::less<>{ }( m_pointer, pointer( nullptr ) );
 		}
 
 		constexpr bool operator<=( std::nullptr_t ) const noexcept {
-			return not std::less<>{ }( nullptr, m_pointer );
+			return not std::less<>{ }( pointer( nullptr ), m_pointer );
 		}
 
 		constexpr bool operator>( std::nullptr_t ) const noexcept {
-			return std::less<>{ }( nullptr, m_pointer );
+			return std::less<>{ }( pointer( nullptr ), m_pointer );
 		}
 
 		constexpr bool operator>=( std::nullptr_t ) const noexcept {
-			return not std::less<>{ }( m_pointer, nullptr );
+			return not std::less<>{ }( m_pointer, pointer( nullptr ) );
 		}
 	};
 
-- 
2.43.0


From 548200f8bc46649dc1abe7444aa25af0931bbb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 022/121] fix: value_ptr copy constructor dereferenced an empty
 source

---
 include/daw/daw_value_ptr.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 5dde242..83897b3 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -78,7 +78,9 @@ namespace daw {
 		  : enable_default_constructor<T>( other )
 		  , enable_copy_constructor<T>( other )
 		  , enable_copy_assignment<T>( other )
-		  , m_value( std::make_unique<value_type>( *other.m_value ) ) {}
+		  , m_value( other.m_value
+		               ? std::make_unique<value_type>( *other.m_value )
+		               : nullptr ) {}
 
 		constexpr value_ptr( value_ptr &&other ) noexcept
 		  : enable_default_constructor<T>( std::move( other ) )
-- 
2.43.0


From a3cad0abf14a7c225b3711ba96d8e6110beaae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 023/121] fix: value_ptr copy assignment compared a pointer
 with an object and did not compile

---
 include/daw/daw_value_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 83897b3..656e7b9 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -90,7 +90,7 @@ namespace daw {
 
 		constexpr value_ptr &operator=( value_ptr const &rhs ) noexcept(
 		  std::is_nothrow_copy_constructible_v<value_type> ) {
-			if( this != rhs ) {
+			if( this != &rhs ) {
 				if( !m_value and !rhs.m_value ) {
 					return *this;
 				}
-- 
2.43.0


From 61f6eb83c005cefb6c086e0f7fb0b6a87701dbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 024/121] fix: value_ptr move assignment from a value
 dereferenced an empty value_ptr

---
 include/daw/daw_value_ptr.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 656e7b9..342a95d 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -124,7 +124,11 @@ namespace daw {
 
 		value_ptr &operator=( value_type &&rhs ) noexcept(
 		  std::is_nothrow_move_assignable_v<value_type> ) {
-			*m_value = std::move( rhs );
+			if( !m_value ) {
+				m_value = std::make_unique<value_type>( std::move( rhs ) );
+			} else {
+				*m_value = std::move( rhs );
+			}
 			return *this;
 		}
 
-- 
2.43.0


From ca1ccb444515e0e5e4aa4c5b7f3eee0a3230d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 025/121] fix: value_ptr::release did not compile, operator
 bool was not const

---
 include/daw/daw_value_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 342a95d..8ae8bda 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -150,7 +150,7 @@ namespace daw {
 		  default;
 
 		constexpr pointer release( ) noexcept {
-			return daw::exchange( m_value, nullptr );
+			return m_value.release( );
 		}
 
 		constexpr void swap( value_ptr &rhs ) noexcept {
@@ -189,7 +189,7 @@ namespace daw {
 			return *m_value;
 		}
 
-		constexpr explicit operator bool( ) noexcept {
+		constexpr explicit operator bool( ) const noexcept {
 			return static_cast<bool>( m_value );
 		}
 
-- 
2.43.0


From 94ca732f7bb9c6c578eb838640e0a3a91b25b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:46 +0000
Subject: [PATCH 026/121] fix: value_ptr( nullopt ) did not compile for types
 without a default constructor

---
 include/daw/daw_value_ptr.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 8ae8bda..e2dcbee 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -44,7 +44,10 @@ namespace daw {
 		std::unique_ptr<value_type> m_value{ };
 
 	public:
-		constexpr explicit value_ptr( std::nullopt_t ) noexcept {}
+		constexpr explicit value_ptr( std::nullopt_t ) noexcept
+		  : enable_default_constructor<T>( traits_details::non_constructor{ } )
+		  , enable_copy_constructor<T>( traits_details::non_constructor{ } )
+		  , enable_copy_assignment<T>( traits_details::non_constructor{ } ) {}
 
 		template<
 		  typename... Args,
-- 
2.43.0


From 4bee8b5114ae76179959abf687f3fe4a411af80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:12 +0000
Subject: [PATCH 027/121] fix: unique_resource used assert without <cassert>

---
 include/daw/daw_unique_resource.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 8ff60a0..6819e95 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -11,6 +11,7 @@
 #include "daw_exchange.h"
 #include "daw_move.h"
 
+#include <cassert>
 #include <optional>
 #include <type_traits>
 
-- 
2.43.0


From 0f785353902dccc7cf602f876924df6f42895b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:12 +0000
Subject: [PATCH 028/121] fix: unique_resource::reset( ) kept the value and
 released it again

---
 include/daw/daw_unique_resource.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 6819e95..e2c24c1 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -52,7 +52,8 @@ namespace daw {
 
 		constexpr void reset( ) noexcept( std::is_nothrow_destructible_v<T> ) {
 			if( value ) {
-				Deleter{ }( *value );
+				auto old_value = daw::exchange( value, std::nullopt );
+				Deleter{ }( *old_value );
 			}
 		}
 
-- 
2.43.0


From 31e88012cc2900c77dba1e5b47d77541809b7f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:12 +0000
Subject: [PATCH 029/121] fix: unique_resource move assignment dereferenced an
 empty source and released on self assignment

---
 include/daw/daw_unique_resource.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index e2c24c1..0f014d3 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -28,7 +28,10 @@ namespace daw {
 
 		unique_resource &operator=( unique_resource &&rhs ) noexcept(
 		  std::is_nothrow_move_assignable_v<T> ) {
-			reset( rhs.release( ) );
+			if( this != &rhs ) {
+				reset( );
+				value = daw::exchange( rhs.value, std::nullopt );
+			}
 			return *this;
 		}
 
-- 
2.43.0


From bcd2ee4f58b49de20d5cdfb804fd66e548cacb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:12 +0000
Subject: [PATCH 030/121] fix: ScopeGuard::dismiss was const and did not
 compile, assert without <cassert>

---
 include/daw/daw_scope_guard.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 1f69219..1f2d4c0 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -13,6 +13,7 @@
 #include "daw_cpp_feature_check.h"
 #include "daw_is_constant_evaluated.h"
 
+#include <cassert>
 #include <cstddef>
 #include <daw/stdinc/move_fwd_exch.h>
 #include <exception>
@@ -73,8 +74,8 @@ namespace daw {
 			}
 		}
 
-		DAW_ATTRIB_INLINE constexpr void dismiss( ) const noexcept {
-			m_function = std::optional<FunctionType>( );
+		DAW_ATTRIB_INLINE constexpr void dismiss( ) noexcept {
+			m_function = std::nullopt;
 		}
 
 		[[nodiscard]] constexpr bool
-- 
2.43.0


From 87d85990bc7aa6e9d794f706f910541c351ae047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:12 +0000
Subject: [PATCH 031/121] fix: a moved from ScopeGuard ran its handler too

---
 include/daw/daw_scope_guard.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 1f2d4c0..ad712c8 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -41,8 +41,24 @@ namespace daw {
 	public:
 		ScopeGuard( const ScopeGuard & ) = delete;
 		ScopeGuard &operator=( const ScopeGuard & ) = delete;
-		ScopeGuard( ScopeGuard && ) = default;
-		ScopeGuard &operator=( ScopeGuard && ) = default;
+
+		constexpr ScopeGuard( ScopeGuard &&other ) noexcept(
+		  std::is_nothrow_move_constructible_v<FunctionType> )
+		  : m_function( std::move( other.m_function ) ) {
+			other.m_function.reset( );
+		}
+
+		constexpr ScopeGuard &operator=( ScopeGuard &&rhs ) noexcept(
+		  std::is_nothrow_move_constructible_v<FunctionType> ) {
+			if( this != &rhs ) {
+				m_function.reset( );
+				if( rhs.m_function ) {
+					m_function.emplace( std::move( *rhs.m_function ) );
+					rhs.m_function.reset( );
+				}
+			}
+			return *this;
+		}
 
 		DAW_ATTRIB_INLINE explicit constexpr ScopeGuard(
 		  FunctionType
-- 
2.43.0


From c9d42c7f16ba76ea2bd638dc1a76c17d77013f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:12 +0000
Subject: [PATCH 032/121] fix: ScopeGuard::run_now ran a throwing handler twice

---
 include/daw/daw_scope_guard.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index ad712c8..16ca5c8 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -78,8 +78,9 @@ namespace daw {
 		DAW_ATTRIB_INLINE constexpr void
 		run_now( ) noexcept( std::is_nothrow_invocable_v<FunctionType> ) {
 			assert( m_function );
-			(void)( *m_function )( );
+			auto function = std::move( m_function );
 			cancel( );
+			(void)( *function )( );
 		}
 
 		DAW_ATTRIB_INLINE DAW_SG_CXDTOR ~ScopeGuard( ) noexcept(
-- 
2.43.0


From 1a2085dc9d96e062b1adad0e247dc0600937f19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:49 +0000
Subject: [PATCH 033/121] fix: read_file never closed the file

---
 include/daw/daw_read_file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/daw_read_file.h b/include/daw/daw_read_file.h
index 2c3f73a..7d32d21 100644
--- a/include/daw/daw_read_file.h
+++ b/include/daw/daw_read_file.h
@@ -53,6 +53,7 @@ namespace daw {
 		}
 #endif
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
+		fclose( f );
 		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
 			return std::nullopt;
 		}
@@ -98,6 +99,7 @@ namespace daw {
 			return std::nullopt;
 		}
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
+		fclose( f );
 		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
 			return std::nullopt;
 		}
-- 
2.43.0


From fdb788b772c1abce4a28dddb90ab03adb4058714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:49 +0000
Subject: [PATCH 034/121] fix: read_file returned too many characters for wide
 character types

---
 include/daw/daw_read_file.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_read_file.h b/include/daw/daw_read_file.h
index 7d32d21..e62254b 100644
--- a/include/daw/daw_read_file.h
+++ b/include/daw/daw_read_file.h
@@ -39,7 +39,7 @@ namespace daw {
 			return std::nullopt;
 		}
 		auto result =
-		  std::basic_string<CharT>( static_cast<std::size_t>( fsize ), CharT{ } );
+		  std::basic_string<CharT>( static_cast<std::size_t>( fsize / sizeof( CharT ) ), CharT{ } );
 #if defined( _MSC_VER )
 		FILE *f = nullptr;
 		auto err = fopen_s( &f, path.c_str( ), "rb" );
@@ -54,7 +54,7 @@ namespace daw {
 #endif
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
 		fclose( f );
-		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
+		if( num_read != result.size( ) ) {
 			return std::nullopt;
 		}
 		return result;
@@ -92,7 +92,7 @@ namespace daw {
 			return std::nullopt;
 		}
 		auto result =
-		  std::basic_string<CharT>( static_cast<std::size_t>( fsize ), CharT{ } );
+		  std::basic_string<CharT>( static_cast<std::size_t>( fsize / sizeof( CharT ) ), CharT{ } );
 		FILE *f = nullptr;
 		auto err = _wfopen_s( &f, path.c_str( ), L"rb" );
 		if( err ) {
@@ -100,7 +100,7 @@ namespace daw {
 		}
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
 		fclose( f );
-		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
+		if( num_read != result.size( ) ) {
 			return std::nullopt;
 		}
 		return result;
-- 
2.43.0


From 8858d9d05dedd91a69e93230274fb81e82d95169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:49 +0000
Subject: [PATCH 035/121] fix: countable_resource_t assignment counted an
 object that does not exist and returned nothing

---
 include/daw/daw_countable_resource.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_countable_resource.h b/include/daw/daw_countable_resource.h
index cb346ae..c6512b2 100644
--- a/include/daw/daw_countable_resource.h
+++ b/include/daw/daw_countable_resource.h
@@ -26,9 +26,8 @@ namespace daw {
 			++m_resource_count;
 		}
 
-		countable_resource_t &operator=( countable_resource_t const & ) noexcept {
-			++m_resource_count;
-		}
+		countable_resource_t &
+		operator=( countable_resource_t const & ) noexcept = default;
 
 		~countable_resource_t( ) {
 			--m_resource_count;
-- 
2.43.0


From edcbf964052a788aae5f52f0f8e5380b6491a125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:49 +0000
Subject: [PATCH 036/121] fix: memory_mapped_file unmapped MAP_FAILED when mmap
 failed

---
 include/daw/daw_memory_mapped_file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_memory_mapped_file.h b/include/daw/daw_memory_mapped_file.h
index cc6d53c..93065fb 100644
--- a/include/daw/daw_memory_mapped_file.h
+++ b/include/daw/daw_memory_mapped_file.h
@@ -104,6 +104,7 @@ namespace daw::filesystem {
 			        MAP_SHARED, m_fdata->file, 0 ) );
 
 			if( m_fdata->ptr == MAP_FAILED ) {
+				m_fdata->ptr = nullptr;
 				m_fdata.reset( );
 				return false;
 			}
-- 
2.43.0


From bffa70020dd111643aa37349674a31374467f6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:40 +0000
Subject: [PATCH 037/121] fix: memory_mapped_file dereferenced an empty
 resource when default constructed, moved from or after a failed open

---
 include/daw/daw_memory_mapped_file.h | 31 ++++++++++++++--------------
 include/daw/daw_unique_resource.h    |  4 ++++
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/include/daw/daw_memory_mapped_file.h b/include/daw/daw_memory_mapped_file.h
index 93065fb..8ea0332 100644
--- a/include/daw/daw_memory_mapped_file.h
+++ b/include/daw/daw_memory_mapped_file.h
@@ -120,47 +120,48 @@ namespace daw::filesystem {
 		}
 
 		[[nodiscard]] constexpr pointer data( ) noexcept {
-			return m_fdata->ptr;
+			return m_fdata.has_value( ) ? m_fdata->ptr : nullptr;
 		}
 
 		[[nodiscard]] constexpr const_pointer data( ) const noexcept {
-			return m_fdata->ptr;
+			return m_fdata.has_value( ) ? m_fdata->ptr : nullptr;
 		}
 
 		[[nodiscard]] constexpr pointer begin( ) noexcept {
-			return m_fdata->ptr;
+			return data( );
 		}
 
 		[[nodiscard]] constexpr const_pointer begin( ) const noexcept {
-			return m_fdata->ptr;
+			return data( );
 		}
 
 		[[nodiscard]] constexpr const_pointer cbegin( ) const noexcept {
-			return m_fdata->ptr;
+			return data( );
 		}
 
 		[[nodiscard]] constexpr pointer end( ) noexcept {
-			return m_fdata->ptr + static_cast<ptrdiff_t>( m_fdata->size );
+			return data( ) + static_cast<ptrdiff_t>( size( ) );
 		}
 
 		[[nodiscard]] constexpr const_pointer end( ) const noexcept {
-			return m_fdata->ptr + static_cast<ptrdiff_t>( m_fdata->size );
+			return data( ) + static_cast<ptrdiff_t>( size( ) );
 		}
 
 		[[nodiscard]] constexpr const_pointer cend( ) const noexcept {
-			return m_fdata->ptr + static_cast<ptrdiff_t>( m_fdata->size );
+			return data( ) + static_cast<ptrdiff_t>( size( ) );
 		}
 
 		[[nodiscard]] constexpr size_type size( ) const noexcept {
-			return m_fdata->size;
+			return m_fdata.has_value( ) ? m_fdata->size : 0;
 		}
 
 		[[nodiscard]] constexpr bool empty( ) const noexcept {
-			return not( *this ) or m_fdata->size == 0;
+			return not( *this ) or size( ) == 0;
 		}
 
 		constexpr explicit operator bool( ) const noexcept {
-			return m_fdata->file >= 0 and m_fdata->ptr != nullptr;
+			return m_fdata.has_value( ) and m_fdata->file >= 0 and
+			       m_fdata->ptr != nullptr;
 		}
 
 		template<typename Traits>
@@ -328,19 +329,19 @@ namespace daw::filesystem {
 		}
 
 		[[nodiscard]] constexpr pointer data( ) noexcept {
-			return m_fdata->ptr;
+			return m_fdata.has_value( ) ? m_fdata->ptr : nullptr;
 		}
 
 		[[nodiscard]] constexpr const_pointer data( ) const noexcept {
-			return m_fdata->ptr;
+			return m_fdata.has_value( ) ? m_fdata->ptr : nullptr;
 		}
 
 		[[nodiscard]] constexpr size_type size( ) const noexcept {
-			return m_fdata->size;
+			return m_fdata.has_value( ) ? m_fdata->size : 0;
 		}
 
 		[[nodiscard]] constexpr bool empty( ) const noexcept {
-			return not( *this ) or m_fdata->size == 0;
+			return not( *this ) or size( ) == 0;
 		}
 
 		constexpr explicit operator bool( ) const noexcept {
diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 0f014d3..1401518 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -74,6 +74,10 @@ namespace daw {
 			return std::move( *result );
 		}
 
+		[[nodiscard]] constexpr bool has_value( ) const noexcept {
+			return value.has_value( );
+		}
+
 		constexpr T &get( ) noexcept {
 			assert( value );
 			return *value;
-- 
2.43.0


From c19ea2e75ea3b276885e60d1de0597ed34495c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:46 +0000
Subject: [PATCH 038/121] fix: memory_mapped_file_t of a const type did not
 compile

---
 include/daw/daw_memory_mapped_file.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_memory_mapped_file.h b/include/daw/daw_memory_mapped_file.h
index 8ea0332..3d1805b 100644
--- a/include/daw/daw_memory_mapped_file.h
+++ b/include/daw/daw_memory_mapped_file.h
@@ -57,7 +57,8 @@ namespace daw::filesystem {
 		struct cleanup_t {
 			constexpr void operator( )( fdata_t &d ) noexcept {
 				if( auto *p = daw::exchange( d.ptr, nullptr ); p ) {
-					munmap( p, d.size );
+					munmap(
+					  const_cast<void *>( static_cast<void const *>( p ) ), d.size );
 				}
 				d.size = 0;
 				if( auto fid = daw::exchange( d.file, -1 ); fid >= 0 ) {
-- 
2.43.0


From a4532e2f78bcddba05bdd45d87c6733e904b308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 039/121] fix: span<T const>::crend was crbegin

---
 include/daw/daw_span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index da45637..0a40c94 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -111,7 +111,7 @@ namespace daw {
 		}
 
 		constexpr const_reverse_iterator crend( ) const noexcept {
-			return std::make_reverse_iterator( cend( ) );
+			return std::make_reverse_iterator( cbegin( ) );
 		}
 
 		constexpr const_reference operator[]( size_type pos ) const noexcept {
-- 
2.43.0


From 7fe4cc9e0ba0efb3d18e375447bca5dc06f7818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 040/121] fix: span<T const>::pop( value ) assigned to a const
 and did not compile

---
 include/daw/daw_span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index 0a40c94..e0491bd 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -192,8 +192,8 @@ namespace daw {
 			return result;
 		}
 
-		constexpr bool
-		pop( T &value ) noexcept( std::is_nothrow_copy_assignable_v<T> ) {
+		constexpr bool pop( value_type &value ) noexcept(
+		  std::is_nothrow_copy_assignable_v<value_type> ) {
 			if( empty( ) ) {
 				return false;
 			}
-- 
2.43.0


From c684c36ef7c7273a77bf6d853f5e64c736a37f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 041/121] fix: span::pop_front( n ) removed more than there is

---
 include/daw/daw_span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index e0491bd..e483a50 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -175,7 +175,7 @@ namespace daw {
 
 		constexpr span<T const> pop_front( size_t n ) {
 			auto result = subspan( 0, n );
-			remove_prefix( n );
+			remove_prefix( result.size( ) );
 			return result;
 		}
 
@@ -436,7 +436,7 @@ namespace daw {
 
 		constexpr span<T> pop_front( size_t n ) noexcept {
 			auto result = subspan( 0, n );
-			remove_prefix( n );
+			remove_prefix( result.size( ) );
 			return result;
 		}
 
-- 
2.43.0


From cd52cf0b0114e2fbe21ecc047481d55d6ca6c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 042/121] fix: span::subspan of a const span did not compile,
 and disagreed about pos == size( )

---
 include/daw/daw_span.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index e483a50..d55515e 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -473,11 +473,12 @@ namespace daw {
 			return { data( ) + pos, count };
 		}
 
-		constexpr span subspan( size_type pos = 0,
-		                        size_type count = max_value<size_type> ) const {
+		constexpr span<T const>
+		subspan( size_type pos = 0,
+		         size_type count = max_value<size_type> ) const {
 
 			daw::exception::precondition_check<std::out_of_range>(
-			  pos < size( ), "Attempt to access span past end" );
+			  pos <= size( ), "Attempt to access span past end" );
 
 			count = (daw::min)( count, size( ) - pos );
 			return { data( ) + pos, count };
-- 
2.43.0


From d50c501bf74f0e48c5323208d810b20e5d21184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 043/121] fix: contiguous_view::subspan ended too early,
 started past the end and did not compile for non-const elements

---
 include/daw/daw_contiguous_view.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index 24e3749..9e08669 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -89,9 +89,9 @@ namespace daw {
 
 		constexpr contiguous_view
 		subspan( std::size_t offset, std::size_t count = std::size_t( -1 ) ) const {
-			auto const sz =
-			  std::min( { count, size( ) - std::min( { size( ), offset } ) } );
-			return contiguous_view( data( ) + offset, data( ) + sz );
+			offset = (std::min)( size( ), offset );
+			auto const sz = (std::min)( count, size( ) - offset );
+			return contiguous_view( m_first + offset, m_first + offset + sz );
 		}
 
 		/// This is potentially unsafe.  Decrements the start of range
@@ -486,8 +486,9 @@ namespace daw {
 
 		constexpr contiguous_view
 		subspan( std::size_t offset, std::size_t count = std::size_t( -1 ) ) const {
-			auto sz = std::min( count, size( ) - std::min( size( ), offset ) );
-			return contiguous_view( data( ) + offset, data( ) + sz );
+			offset = (std::min)( size( ), offset );
+			auto const sz = (std::min)( count, size( ) - offset );
+			return contiguous_view( m_first + offset, m_first + offset + sz );
 		}
 
 		/// This is potentially unsafe.  Decrements the start of range
-- 
2.43.0


From c58ca32c407c9f4e113cc52ba01861dd5a246a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 044/121] fix: contiguous_view::operator[] asserted one element
 too many

---
 include/daw/daw_contiguous_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index 9e08669..266f2ee 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -187,13 +187,13 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr reference operator[]( size_type index ) noexcept {
-			assert( static_cast<size_type>( m_last - m_first ) >= index );
+			assert( index < size( ) );
 			return *( m_first + index );
 		}
 
 		[[nodiscard]] constexpr const_reference
 		operator[]( size_type index ) const noexcept {
-			assert( static_cast<size_type>( m_last - m_first ) >= index );
+			assert( index < size( ) );
 			return *( m_first + index );
 		}
 
-- 
2.43.0


From 4d0b83f07599cb85022166ead79c6c46ac6aada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 045/121] fix: contiguous_view of non-const elements:
 pop_front_until/while( needle, discard ) did not compile

---
 include/daw/daw_contiguous_view.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index 266f2ee..35b0349 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -374,9 +374,9 @@ namespace daw {
 		pop_front_until( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_until( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] constexpr contiguous_view
@@ -390,9 +390,9 @@ namespace daw {
 		pop_front_while( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_while( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] friend constexpr bool operator==( contiguous_view const &x,
@@ -751,9 +751,9 @@ namespace daw {
 		pop_front_until( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_until( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] constexpr contiguous_view
@@ -767,9 +767,9 @@ namespace daw {
 		pop_front_while( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_while( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] friend constexpr bool operator==( contiguous_view const &x,
-- 
2.43.0


From ac286bb9869ddd28cf636f589a0eb451d2ac6cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 046/121] fix: span_writer::subspan did not compile

---
 include/daw/daw_span_writer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_span_writer.h b/include/daw/daw_span_writer.h
index 6a41afb..426e3ce 100644
--- a/include/daw/daw_span_writer.h
+++ b/include/daw/daw_span_writer.h
@@ -156,8 +156,9 @@ namespace daw {
 
 		constexpr span_writer subspan( std::size_t n ) const {
 			daw_ensure( n <= m_size );
-			return span_writer{ .m_first = m_first + static_cast<std::ptrdiff_t>( n ),
-			                    .m_size = m_size - n };
+			auto result = *this;
+			result.remove_prefix_unsafe( n );
+			return result;
 		}
 
 		constexpr span_writer &remove_prefix( std::size_t n ) {
-- 
2.43.0


From 6a1443e661a86b49bae2e038a56147548f01ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:46 +0000
Subject: [PATCH 047/121] fix: daw_uint_buffer_ios.h defined non-inline
 functions, two translation units including it did not link

---
 include/daw/daw_uint_buffer_ios.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_uint_buffer_ios.h b/include/daw/daw_uint_buffer_ios.h
index 5d13122..847c015 100644
--- a/include/daw/daw_uint_buffer_ios.h
+++ b/include/daw/daw_uint_buffer_ios.h
@@ -14,22 +14,22 @@
 #include <iostream>
 
 namespace daw {
-	std::ostream &operator<<( std::ostream &os, UInt8 rhs ) {
+	inline std::ostream &operator<<( std::ostream &os, UInt8 rhs ) {
 		os << static_cast<std::uint32_t>( rhs );
 		return os;
 	}
 
-	std::ostream &operator<<( std::ostream &os, UInt16 rhs ) {
+	inline std::ostream &operator<<( std::ostream &os, UInt16 rhs ) {
 		os << static_cast<std::uint32_t>( rhs );
 		return os;
 	}
 
-	std::ostream &operator<<( std::ostream &os, UInt32 rhs ) {
+	inline std::ostream &operator<<( std::ostream &os, UInt32 rhs ) {
 		os << static_cast<std::uint32_t>( rhs );
 		return os;
 	}
 
-	std::ostream &operator<<( std::ostream &os, UInt64 rhs ) {
+	inline std::ostream &operator<<( std::ostream &os, UInt64 rhs ) {
 		os << static_cast<std::uint64_t>( rhs );
 		return os;
 	}
-- 
2.43.0


From beea1716561f308ac82e55152166896caebfb580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:46 +0000
Subject: [PATCH 048/121] fix: daw_bit_stream.h named a bit_count_t that does
 not exist

---
 include/daw/daw_bit_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bit_stream.h b/include/daw/daw_bit_stream.h
index 18b719d..aadde35 100644
--- a/include/daw/daw_bit_stream.h
+++ b/include/daw/daw_bit_stream.h
@@ -80,7 +80,7 @@ namespace daw {
 	template<typename T, typename BitStream>
 	auto pop_value( BitStream &bs, size_t bits_needed ) {
 		daw::exception::dbg_throw_on_false(
-		  bits_needed <= bit_count_t<T>,
+		  bits_needed <= bit_count_v<T>,
 		  "Attempt to extra more bits than can fit" );
 
 		using value_type = typename BitStream::value_type;
-- 
2.43.0


From 05089dadd9da74cdf37cc9d38fb5e06661ee4541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:46 +0000
Subject: [PATCH 049/121] fix: daw_enumerate_tuple.h used std::forward_like
 where the standard library does not have it

---
 include/daw/algorithms/daw_enumerate_tuple.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/algorithms/daw_enumerate_tuple.h b/include/daw/algorithms/daw_enumerate_tuple.h
index 257e7b8..5fefd80 100644
--- a/include/daw/algorithms/daw_enumerate_tuple.h
+++ b/include/daw/algorithms/daw_enumerate_tuple.h
@@ -10,6 +10,7 @@
 
 #include "daw/daw_concepts.h"
 #include "daw/daw_constant.h"
+#include "daw/daw_forward_like.h"
 #include "daw_enumerate_tuple.h"
 #include "daw/cpp_17.h"
 #include "daw/daw_move.h"
@@ -34,7 +35,7 @@ namespace daw {
 			if constexpr(I == 0) {
 				return Self::index;
 			} else {
-				return std::forward_like<Self>( self.value );
+				return daw::forward_like<Self>( self.value );
 			}
 		}
 	};
@@ -73,9 +74,9 @@ namespace daw {
 		constexpr auto operator[]( this Self &&self, daw::constant<Idx> ) {
 			static constexpr auto i = static_cast<std::size_t>(Idx);
 			using element_t = decltype( std::get<i>(
-				std::forward_like<Self>( self.m_tuple ) ) );
+				daw::forward_like<Self>( self.m_tuple ) ) );
 			return enumerate_tuple_element_t<element_t, static_cast<index_t>(Idx)>{
-				std::get<i>( std::forward_like<Self>( self.m_tuple ) )};
+				std::get<i>( daw::forward_like<Self>( self.m_tuple ) )};
 		}
 	};
 
-- 
2.43.0


From 685ca43af3ce3f73a7ccc600494f703032c2589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:46 +0000
Subject: [PATCH 050/121] fix: pipeline headers that could not be included on
 their own

---
 include/daw/pipelines/elements.h   | 3 +++
 include/daw/pipelines/filter.h     | 1 +
 include/daw/pipelines/foreach.h    | 1 +
 include/daw/pipelines/map.h        | 1 +
 include/daw/pipelines/numeric.h    | 1 +
 include/daw/pipelines/predicates.h | 1 +
 include/daw/pipelines/split.h      | 1 +
 include/daw/pipelines/swizzle.h    | 1 +
 include/daw/pipelines/to.h         | 2 ++
 include/daw/pipelines/unique.h     | 1 +
 include/daw/pipelines/zip.h        | 1 +
 11 files changed, 14 insertions(+)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index 8ab4499..5fdb93b 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -9,9 +9,12 @@
 #pragma once
 
 #include "daw/cpp_17.h"
+#include "daw/daw_attributes.h"
+#include "daw/daw_forward_lvalue.h"
 #include "daw/daw_iterator_traits.h"
 #include "daw/daw_move.h"
 #include "daw/iterator/daw_arrow_proxy.h"
+#include "daw/pipelines/range_base.h"
 
 #include <type_traits>
 
diff --git a/include/daw/pipelines/filter.h b/include/daw/pipelines/filter.h
index f8ead4c..cd7adb8 100644
--- a/include/daw/pipelines/filter.h
+++ b/include/daw/pipelines/filter.h
@@ -20,6 +20,7 @@
 
 #include <concepts>
 #include <cstddef>
+#include <functional>
 #include <iterator>
 #include <optional>
 #include <utility>
diff --git a/include/daw/pipelines/foreach.h b/include/daw/pipelines/foreach.h
index f119982..2bd50be 100644
--- a/include/daw/pipelines/foreach.h
+++ b/include/daw/pipelines/foreach.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "daw/daw_attributes.h"
 #include "daw/daw_iterator_traits.h"
 #include "daw/daw_move.h"
 #include "daw/pipelines/pipeline_traits.h"
diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index e46a600..e4bc0e6 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "daw/daw_attributes.h"
 #include "daw/daw_iterator_traits.h"
 #include "daw/daw_move.h"
 #include "daw/daw_tuple_forward.h"
diff --git a/include/daw/pipelines/numeric.h b/include/daw/pipelines/numeric.h
index 248fa92..738405d 100644
--- a/include/daw/pipelines/numeric.h
+++ b/include/daw/pipelines/numeric.h
@@ -14,6 +14,7 @@
 #include "daw/daw_move.h"
 
 #include <cstddef>
+#include <functional>
 #include <iterator>
 
 namespace daw::pipelines {
diff --git a/include/daw/pipelines/predicates.h b/include/daw/pipelines/predicates.h
index bcb2f48..f72cb9a 100644
--- a/include/daw/pipelines/predicates.h
+++ b/include/daw/pipelines/predicates.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "daw/daw_attributes.h"
 #include "daw/daw_cpp_feature_check.h"
 #include "daw/daw_move.h"
 #include "daw/daw_remove_cvref.h"
diff --git a/include/daw/pipelines/split.h b/include/daw/pipelines/split.h
index 2a2fb56..0e3f0ee 100644
--- a/include/daw/pipelines/split.h
+++ b/include/daw/pipelines/split.h
@@ -9,6 +9,7 @@
 #pragma once
 
 #include "daw/daw_iterator_traits.h"
+#include "daw/daw_string_view.h"
 #include "daw/pipelines/find.h"
 #include "daw/pipelines/range.h"
 #include "daw/pipelines/range_base.h"
diff --git a/include/daw/pipelines/swizzle.h b/include/daw/pipelines/swizzle.h
index 986d334..81c8593 100644
--- a/include/daw/pipelines/swizzle.h
+++ b/include/daw/pipelines/swizzle.h
@@ -10,6 +10,7 @@
 
 #include "daw/daw_iterator_traits.h"
 #include "daw/daw_tuple_forward.h"
+#include "daw/pipelines/map.h"
 #include "zip.h"
 
 #include <algorithm>
diff --git a/include/daw/pipelines/to.h b/include/daw/pipelines/to.h
index b42a4b2..72b288b 100644
--- a/include/daw/pipelines/to.h
+++ b/include/daw/pipelines/to.h
@@ -8,7 +8,9 @@
 
 #pragma once
 
+#include "daw/daw_attributes.h"
 #include "daw/daw_move.h"
+#include "daw/pipelines/maybe.h"
 #include "range.h"
 
 #include <iterator>
diff --git a/include/daw/pipelines/unique.h b/include/daw/pipelines/unique.h
index 7483a04..dbfd0da 100644
--- a/include/daw/pipelines/unique.h
+++ b/include/daw/pipelines/unique.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "daw/cpp_17.h"
 #include "daw/daw_cpp_feature_check.h"
 #include "daw/daw_iterator_traits.h"
 #include "range.h"
diff --git a/include/daw/pipelines/zip.h b/include/daw/pipelines/zip.h
index be2e09e..7a3eaad 100644
--- a/include/daw/pipelines/zip.h
+++ b/include/daw/pipelines/zip.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "daw/daw_attributes.h"
 #include "daw/daw_iterator_traits.h"
 #include "daw/daw_traits.h"
 #include "range.h"
-- 
2.43.0


From c5cd6e226cc307ac4c1ec2f3aea2ffb8663b7130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:46 +0000
Subject: [PATCH 051/121] fix: deprecated headers that could not be included on
 their own

---
 include/daw/deprecated/daw_checked_expected.h | 1 +
 include/daw/deprecated/daw_range_common.h     | 1 +
 include/daw/deprecated/daw_stack_quick_sort.h | 3 +++
 include/daw/deprecated/not_null.h             | 1 +
 4 files changed, 6 insertions(+)

diff --git a/include/daw/deprecated/daw_checked_expected.h b/include/daw/deprecated/daw_checked_expected.h
index 527f937..42fb09a 100644
--- a/include/daw/deprecated/daw_checked_expected.h
+++ b/include/daw/deprecated/daw_checked_expected.h
@@ -18,6 +18,7 @@
 #include "daw/daw_move.h"
 #include "daw/daw_optional.h"
 #include "daw/daw_traits.h"
+#include "daw/traits/daw_traits_concepts.h"
 
 #include <cstddef>
 #include <exception>
diff --git a/include/daw/deprecated/daw_range_common.h b/include/daw/deprecated/daw_range_common.h
index 4a094e3..0d032f9 100644
--- a/include/daw/deprecated/daw_range_common.h
+++ b/include/daw/deprecated/daw_range_common.h
@@ -10,6 +10,7 @@
 
 #include "daw/ciso646.h"
 #include "daw/daw_traits.h"
+#include <vector>
 
 namespace daw {
 	namespace range {
diff --git a/include/daw/deprecated/daw_stack_quick_sort.h b/include/daw/deprecated/daw_stack_quick_sort.h
index 5f8badc..1963a32 100644
--- a/include/daw/deprecated/daw_stack_quick_sort.h
+++ b/include/daw/deprecated/daw_stack_quick_sort.h
@@ -13,6 +13,9 @@
 #include "daw/daw_move.h"
 
 #include <algorithm>
+#include <cstddef>
+#include <cstdint>
+#include <functional>
 #include <utility>
 
 namespace daw {
diff --git a/include/daw/deprecated/not_null.h b/include/daw/deprecated/not_null.h
index 2f1ca7d..93dc8c5 100644
--- a/include/daw/deprecated/not_null.h
+++ b/include/daw/deprecated/not_null.h
@@ -9,6 +9,7 @@
 #pragma once
 
 #include "daw/ciso646.h"
+#include "daw/cpp_17.h"
 #include "daw/daw_exception.h"
 
 #include <cstddef>
-- 
2.43.0


From 6d194ab5c16bf57a3f9ab8fbec64f541a48c96bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:46 +0000
Subject: [PATCH 052/121] fix: headers that could not be included on their own

---
 include/daw/daw_algorithm_cx.h                     | 3 +++
 include/daw/daw_forward_lvalue.h                   | 1 +
 include/daw/daw_poly_value.h                       | 1 +
 include/daw/daw_safe_pointer.h                     | 2 ++
 include/daw/format.h                               | 1 +
 include/daw/iterator/daw_bit_iterator.h            | 1 +
 include/daw/iterator/impl/daw_find_iterator_impl.h | 2 ++
 include/daw/split_buffer.h                         | 2 ++
 include/daw/traits/daw_formatter.h                 | 1 +
 include/daw/vector_algorithm.h                     | 2 ++
 10 files changed, 16 insertions(+)

diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index 54fcab9..add8711 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -9,8 +9,11 @@
 #pragma once
 
 #include "ciso646.h"
+#include "cpp_17_iterator.h"
 #include "daw_swap.h"
 #include "daw_traits.h"
+#include "traits/daw_traits_concepts.h"
+#include <functional>
 
 // These algorithms require cswap
 namespace daw::algorithm {
diff --git a/include/daw/daw_forward_lvalue.h b/include/daw/daw_forward_lvalue.h
index 7f118b8..2396f0a 100644
--- a/include/daw/daw_forward_lvalue.h
+++ b/include/daw/daw_forward_lvalue.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "daw/daw_attributes.h"
 #include <utility>
 
 namespace daw {
diff --git a/include/daw/daw_poly_value.h b/include/daw/daw_poly_value.h
index dc472a5..7559799 100644
--- a/include/daw/daw_poly_value.h
+++ b/include/daw/daw_poly_value.h
@@ -9,6 +9,7 @@
 #pragma once
 
 #include "ciso646.h"
+#include "daw_attributes.h"
 #include "daw_enable_if.h"
 #include "daw_traits.h"
 
diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index 053f827..efae26f 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -12,7 +12,9 @@
 
 #include "daw_data_end.h"
 
+#include <cassert>
 #include <cstddef>
+#include <cstdint>
 #include <daw/stdinc/compare_fn.h>
 #include <daw/stdinc/iterator_traits.h>
 #include <daw/stdinc/remove_cvref.h>
diff --git a/include/daw/format.h b/include/daw/format.h
index f9c0c76..25f2b1f 100644
--- a/include/daw/format.h
+++ b/include/daw/format.h
@@ -9,6 +9,7 @@
 #pragma once
 
 #include "ciso646.h"
+#include "daw_exception.h"
 #include "daw_string_view.h"
 #include "daw_traits.h"
 
diff --git a/include/daw/iterator/daw_bit_iterator.h b/include/daw/iterator/daw_bit_iterator.h
index 4d9fd5f..e171a30 100644
--- a/include/daw/iterator/daw_bit_iterator.h
+++ b/include/daw/iterator/daw_bit_iterator.h
@@ -9,6 +9,7 @@
 #pragma once
 
 #include "daw/ciso646.h"
+#include "daw/daw_bit_count.h"
 #include "daw/daw_exception.h"
 #include "daw/daw_move.h"
 
diff --git a/include/daw/iterator/impl/daw_find_iterator_impl.h b/include/daw/iterator/impl/daw_find_iterator_impl.h
index f310527..dfd95bd 100644
--- a/include/daw/iterator/impl/daw_find_iterator_impl.h
+++ b/include/daw/iterator/impl/daw_find_iterator_impl.h
@@ -9,6 +9,8 @@
 #pragma once
 
 #include "daw/daw_move.h"
+#include "daw/traits/daw_traits_identity.h"
+#include <iterator>
 
 namespace daw::find_iterator_impl {
 	constexpr daw::traits::identity<std::forward_iterator_tag>
diff --git a/include/daw/split_buffer.h b/include/daw/split_buffer.h
index bde5282..f5a4b71 100644
--- a/include/daw/split_buffer.h
+++ b/include/daw/split_buffer.h
@@ -7,7 +7,9 @@
 #pragma once
 
 #include "daw/compressed_pair.h"
+#include "daw/daw_attributes.h"
 #include "daw/daw_check_exceptions.h"
+#include "daw/daw_compiler_fixups.h"
 #include "daw/daw_concepts.h"
 #include "daw/daw_exception.h"
 #include "daw/daw_exchange.h"
diff --git a/include/daw/traits/daw_formatter.h b/include/daw/traits/daw_formatter.h
index 80b36f9..130ab52 100644
--- a/include/daw/traits/daw_formatter.h
+++ b/include/daw/traits/daw_formatter.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "daw/daw_remove_cvref.h"
 #include <format>
 
 namespace daw {
diff --git a/include/daw/vector_algorithm.h b/include/daw/vector_algorithm.h
index 95a715f..8943b34 100644
--- a/include/daw/vector_algorithm.h
+++ b/include/daw/vector_algorithm.h
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include "daw_attributes.h"
+#include "daw_compiler_fixups.h"
 #include "daw_move.h"
 #include "daw_visit.h"
 
-- 
2.43.0


From 0a085bb9e0793b0d75fb644fb49092968b8e40bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:11 +0000
Subject: [PATCH 053/121] fix: daw_algorithm_cx.h used daw::invoke without
 declaring it

---
 include/daw/daw_algorithm_cx.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index add8711..3ac8eda 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -10,6 +10,7 @@
 
 #include "ciso646.h"
 #include "cpp_17_iterator.h"
+#include "daw_apply.h"
 #include "daw_swap.h"
 #include "daw_traits.h"
 #include "traits/daw_traits_concepts.h"
-- 
2.43.0


From 918a12ec001a0958f415dc43adc1478b133b1641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:47 +0000
Subject: [PATCH 054/121] fix: pipelines/every.h had no include guard

---
 include/daw/pipelines/every.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/pipelines/every.h b/include/daw/pipelines/every.h
index 7c22d7b..853649c 100644
--- a/include/daw/pipelines/every.h
+++ b/include/daw/pipelines/every.h
@@ -6,6 +6,8 @@
 // Official repository: https://github.com/beached/header_libraries
 //
 
+#pragma once
+
 #include "daw/pipelines/filter.h"
 #include "daw/pipelines/range.h"
 
-- 
2.43.0


From 525dfe800527648506cf39cab5d2336193841ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:11 +0000
Subject: [PATCH 055/121] fix: natural_t division and modulus could produce
 zero

---
 include/daw/daw_natural.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index 6d0a803..d642c60 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -82,18 +82,18 @@ namespace daw {
 		}
 
 		template<typename U>
-		constexpr natural_t &operator/=( natural_t<U> const &rhs ) noexcept {
+		constexpr natural_t &operator/=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_division_operator_v<T>,
 			               "Division operator is not valid" );
-			m_value /= rhs.m_value;
+			m_value = validate( m_value / rhs.m_value );
 			return *this;
 		}
 
 		template<typename U>
-		constexpr natural_t &operator%=( natural_t<U> const &rhs ) noexcept {
+		constexpr natural_t &operator%=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_modulus_operator_v<T>,
 			               "Modulus operator is not valid" );
-			m_value %= rhs.m_value;
+			m_value = validate( m_value % rhs.m_value );
 			return *this;
 		}
 
@@ -161,24 +161,22 @@ namespace daw {
 
 		template<typename U>
 		friend constexpr auto operator/( natural_t const &lhs,
-		                                 natural_t<U> const &rhs ) noexcept {
+		                                 natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_division_operator_v<T, U>,
 			               "Division operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) / std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) / static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) /
+			                            static_cast<U>( rhs ) };
 		}
 
 		template<typename U>
 		friend constexpr auto operator%( natural_t const &lhs,
-		                                 natural_t<U> const &rhs ) noexcept {
+		                                 natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_modulus_operator_v<T, U>,
 			               "Modulus operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) % std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) % static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) %
+			                            static_cast<U>( rhs ) };
 		}
 	};
 
-- 
2.43.0


From 000ceab1c2f61ecf27b36d1bd7d1190c4a4f876f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:11 +0000
Subject: [PATCH 056/121] fix: natural_t of a narrower type could be zero or
 negative

---
 include/daw/daw_natural.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index d642c60..f8c2595 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -28,7 +28,9 @@ namespace daw {
 
 		template<typename Value>
 		static constexpr decltype( auto ) validate( Value &&val ) {
-			daw::exception::precondition_check<invalid_natural_number>( val >= 1 );
+			// the value that is stored has to be a natural number too
+			daw::exception::precondition_check<invalid_natural_number>(
+			  val >= 1 and static_cast<T>( val ) >= 1 );
 
 			return DAW_FWD( val );
 		}
-- 
2.43.0


From ad8e513259cfa094fcfd79c3a325993c7bd5c14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:22 +0000
Subject: [PATCH 057/121] fix: stack function kept a reference to an lvalue
 callable

---
 include/daw/daw_stack_function.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index b8b025c..c8c2927 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -250,7 +250,8 @@ namespace daw {
 		decltype( auto ) store_if_not_empty( Func &&f ) {
 			func_impl::validate_size<sizeof( std::decay_t<Func> ), MaxSize>( );
 			return func_impl::store_if_not_empty<MaxSize, function_base,
-			                                     function_child<Func>, empty_child>(
+			                                     function_child<std::decay_t<Func>>,
+			                                     empty_child>(
 			  DAW_FWD( f ) );
 		}
 
-- 
2.43.0


From b677e71ae836ca3140dacab1881a9671a444652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:22 +0000
Subject: [PATCH 058/121] fix: stack function copied and moved its callable
 bytewise

---
 include/daw/daw_stack_function.h | 42 +++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index c8c2927..25d04a8 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -46,16 +46,21 @@ namespace daw {
 				clean( );
 			}
 
-			function_storage( function_storage const & ) = default;
-			function_storage( function_storage && ) = default;
+			function_storage( function_storage const &rhs ) {
+				rhs.ptr( )->copy_to( &m_data );
+			}
+
+			function_storage( function_storage &&rhs ) {
+				rhs.ptr( )->move_to( &m_data );
+			}
 
 			function_storage &operator=( function_storage const &rhs ) {
 				if( this == &rhs ) {
 					return *this;
 				}
-				clean( );
-				m_data = rhs.m_data;
-				return *this;
+				// what can throw happens while the old value is still there
+				auto tmp = rhs;
+				return *this = std::move( tmp );
 			}
 
 			function_storage &operator=( function_storage &&rhs ) noexcept {
@@ -63,7 +68,7 @@ namespace daw {
 					return *this;
 				}
 				clean( );
-				m_data = std::move( rhs.m_data );
+				rhs.ptr( )->move_to( &m_data );
 				return *this;
 			}
 
@@ -121,6 +126,9 @@ namespace daw {
 			virtual Result operator( )( FuncArgs... ) const = 0;
 			virtual Result operator( )( FuncArgs... ) = 0;
 			[[nodiscard]] virtual bool empty( ) const = 0;
+			// Construct a copy of/move this to the storage at where
+			virtual void copy_to( void *where ) const = 0;
+			virtual void move_to( void *where ) = 0;
 		};
 
 		template<typename Result, typename... FuncArgs>
@@ -136,6 +144,14 @@ namespace daw {
 			[[nodiscard]] bool empty( ) const override {
 				return true;
 			}
+
+			void copy_to( void *where ) const override {
+				new( where ) empty_child( );
+			}
+
+			void move_to( void *where ) override {
+				new( where ) empty_child( );
+			}
 		};
 
 		template<typename...>
@@ -197,6 +213,20 @@ namespace daw {
 			[[nodiscard]] bool empty( ) const override {
 				return empty_impl( m_func );
 			}
+
+			void copy_to( void *where ) const override {
+				if constexpr( std::is_copy_constructible_v<Func> ) {
+					new( where ) function_child( m_func );
+				} else {
+					// a move only callable cannot be copied
+					(void)where;
+					daw::exception::daw_throw<std::bad_function_call>( );
+				}
+			}
+
+			void move_to( void *where ) override {
+				new( where ) function_child( std::move( m_func ) );
+			}
 		};
 
 		template<size_t MaxSize, typename function_base, typename function_child,
-- 
2.43.0


From 9ffc34837d77829ecf646c3156f2e90f058af826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:41 +0000
Subject: [PATCH 059/121] fix: bind_front.h, tracked_allocator.h and
 shared_function.h used macros of headers they did not include

---
 include/daw/daw_bind_front.h        | 2 ++
 include/daw/daw_shared_function.h   | 1 +
 include/daw/daw_tracked_allocator.h | 1 +
 3 files changed, 4 insertions(+)

diff --git a/include/daw/daw_bind_front.h b/include/daw/daw_bind_front.h
index 979dba6..facf2a8 100644
--- a/include/daw/daw_bind_front.h
+++ b/include/daw/daw_bind_front.h
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include "daw_move.h"
+
 #include <tuple>
 #include <type_traits>
 
diff --git a/include/daw/daw_shared_function.h b/include/daw/daw_shared_function.h
index f0c9550..d81b79d 100644
--- a/include/daw/daw_shared_function.h
+++ b/include/daw/daw_shared_function.h
@@ -10,6 +10,7 @@
 
 #include "daw/daw_cpp_feature_check.h"
 #include "daw/daw_cx_atomic.h"
+#include "daw/daw_ensure.h"
 #include "daw/daw_move.h"
 #include "daw/daw_utility.h"
 #include "daw/traits/daw_copy_cvref_t.h"
diff --git a/include/daw/daw_tracked_allocator.h b/include/daw/daw_tracked_allocator.h
index bd2e04c..2062521 100644
--- a/include/daw/daw_tracked_allocator.h
+++ b/include/daw/daw_tracked_allocator.h
@@ -11,6 +11,7 @@
 #pragma once
 
 #include "daw_attributes.h"
+#include "daw_move.h"
 #include "daw_safe_pointer.h"
 #include "traits/daw_traits_conditional.h"
 
-- 
2.43.0


From 7c57f2350c10f7364e02566cb9be454411829907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 060/121] fix: bounded_vector_t::has_room was true exactly when
 there was no room

---
 include/daw/daw_bounded_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index fbaf505..a29bb1d 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -78,7 +78,7 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr bool has_room( size_type count ) noexcept {
-			return count + size( ) >= N;
+			return count <= available( );
 		}
 
 		[[nodiscard]] constexpr size_type available( ) const noexcept {
-- 
2.43.0


From a4dbc7fecc16166cc9c9825d1c42da752650ab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 061/121] fix: bounded_vector_t::pop_front moved the end of the
 range instead of its start

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index a29bb1d..3593104 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -271,9 +271,9 @@ namespace daw {
 
 		constexpr void pop_front( size_type const count ) {
 			daw::exception::precondition_check<std::out_of_range>(
-			  m_index <= m_index - count, "Attempt to pop_front past end of stack" );
+			  count <= size( ), "Attempt to pop_front past end of stack" );
 
-			m_index += count;
+			m_first += count;
 		}
 
 		///	take care calling as it is slow
-- 
2.43.0


From ab77c0ee562b2fe36ef613f0909d294ac2589824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 062/121] fix: bounded_vector_t::resize ignored elements
 removed from the front

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 3593104..65d8c26 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -293,10 +293,10 @@ namespace daw {
 					do_move_to_front( );
 				}
 				for( size_type n = size( ); n < count; ++n ) {
-					m_stack[n] = value_type{ };
+					m_stack[m_first + n] = value_type{ };
 				}
 			}
-			m_index = count;
+			m_index = m_first + count;
 		}
 
 		constexpr iterator erase( const_iterator pos ) {
-- 
2.43.0


From de64a434944c6776241005eaf8c76ec75e6bf36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 063/121] fix: bounded_vector_t::can_move_front wrapped when
 asked for more than the capacity

---
 include/daw/daw_bounded_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 65d8c26..3c177d5 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -193,7 +193,7 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr bool can_move_front( size_type how_many ) noexcept {
-			return m_first > 0 and m_index >= N - how_many;
+			return m_first > 0 and how_many > N - m_index;
 		}
 
 	public:
-- 
2.43.0


From fd59e77bc12890f090d9736c7580a7768cd4e9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 064/121] fix: bounded_vector_t::erase returned an iterator
 past the element after the erased ones and refused to erase all

---
 include/daw/daw_bounded_vector.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 3c177d5..c0a6d35 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -308,10 +308,7 @@ namespace daw {
 				std::advance( last, 1 );
 			}
 			resize( size( ) - 1 );
-			if( pos == cend( ) ) {
-				return end( );
-			}
-			return std::next( begin( ), std::distance( cbegin( ), pos ) + 1 );
+			return std::next( begin( ), std::distance( cbegin( ), pos ) );
 		}
 
 		constexpr iterator erase( const_iterator first, const_iterator last ) {
@@ -325,14 +322,11 @@ namespace daw {
 			auto const dist = std::distance( first, last );
 
 			daw::exception::dbg_precondition_check<std::out_of_range>(
-			  static_cast<difference_type>( size( ) ) > dist and dist >= 0,
+			  static_cast<difference_type>( size( ) ) >= dist and dist >= 0,
 			  "Attempt to resize past capacity of fix_stack" );
 
 			resize( size( ) - static_cast<size_type>( dist ) );
-			if( last == cend( ) ) {
-				return end( );
-			}
-			return std::next( begin( ), std::distance( cbegin( ), last ) + 1 );
+			return std::next( begin( ), std::distance( cbegin( ), first ) );
 		}
 
 		constexpr void zero( ) noexcept {
-- 
2.43.0


From 8adacd2c42ef8e549a95ec0df3e52ebaa43212ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 065/121] fix: bounded_vector_t::swap lost the elements of the
 longer vector

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index c0a6d35..941e8cf 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -338,8 +338,8 @@ namespace daw {
 		constexpr void swap( bounded_vector_t &rhs ) {
 			daw::cswap( m_index, rhs.m_index );
 			daw::cswap( m_first, rhs.m_first );
-			for( std::size_t n = 0; n < size( ); ++n ) {
-				daw::cswap( operator[]( n ), rhs[n] );
+			for( std::size_t n = 0; n < N; ++n ) {
+				daw::cswap( m_stack[n], rhs.m_stack[n] );
 			}
 		}
 	};
-- 
2.43.0


From 80c5b68cb361327b37f916707b9ab5967ef5b49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 066/121] fix: bounded_vector_t::end of a full vector indexed
 past its array

---
 include/daw/daw_bounded_vector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 941e8cf..768c75d 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -160,15 +160,15 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr iterator end( ) noexcept {
-			return &m_stack[m_index];
+			return m_stack.begin( ) + m_index;
 		}
 
 		[[nodiscard]] constexpr const_iterator end( ) const noexcept {
-			return &m_stack[m_index];
+			return m_stack.begin( ) + m_index;
 		}
 
 		[[nodiscard]] constexpr const_iterator cend( ) const noexcept {
-			return &m_stack[m_index];
+			return m_stack.begin( ) + m_index;
 		}
 
 		[[nodiscard]] constexpr reverse_iterator rend( ) noexcept {
-- 
2.43.0


From ad9606c4b913d85a38a7b664156a65facf63d342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 067/121] fix: ring_adaptor::emplace_back wrote over the front
 of the queue

---
 include/daw/daw_ring_adaptor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_ring_adaptor.h b/include/daw/daw_ring_adaptor.h
index 8687bd1..113ab41 100644
--- a/include/daw/daw_ring_adaptor.h
+++ b/include/daw/daw_ring_adaptor.h
@@ -96,8 +96,8 @@ namespace daw {
 		template<typename... Args>
 		reference emplace_back( Args &&...args ) {
 			assert( not is_full( ) );
-			auto const idx = get_idx( m_head );
-			++m_head;
+			auto const idx = get_idx( m_tail );
+			++m_tail;
 			m_queue[idx] = construct_a<value_type>( DAW_FWD( args )... );
 			return m_queue[idx];
 		}
-- 
2.43.0


From 0d57ccb94d58ab8acacae2720287c9848a3189fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 068/121] fix: unique_array_t::at threw for valid positions and
 accepted invalid ones

---
 include/daw/daw_unique_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 0da7402..7a7ee99 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -114,13 +114,13 @@ namespace daw {
 
 		reference at( size_type pos ) {
 			daw::exception::daw_throw_on_false<std::out_of_range>(
-			  pos >= m_size, "Attempt to access value past end of range" );
+			  pos < m_size, "Attempt to access value past end of range" );
 			return m_data[pos];
 		}
 
 		const_reference at( size_type pos ) const {
 			daw::exception::daw_throw_on_false<std::out_of_range>(
-			  pos >= m_size, "Attempt to access value past end of range" );
+			  pos < m_size, "Attempt to access value past end of range" );
 			return m_data[pos];
 		}
 
-- 
2.43.0


From 1363d8a9b1716d129f87432a8516fbbe095267e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 069/121] fix: the filling constructor of unique_array_t did
 not compile

---
 include/daw/daw_unique_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 7a7ee99..3e8a9ee 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -85,7 +85,7 @@ namespace daw {
 		  : m_data( create_values( sz ) )
 		  , m_size( sz ) {
 
-			std::fill_n( m_data, m_size, { args... } );
+			std::fill_n( m_data, m_size, value_type{ args... } );
 		}
 
 		~unique_array_t( ) noexcept( noexcept( delete[] m_data ) ) {
-- 
2.43.0


From 2b37733f92b33dde0ab0a8a1691fa0a1687cccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:48 +0000
Subject: [PATCH 070/121] fix: unique_array_t::empty was false for an array of
 no elements

---
 include/daw/daw_unique_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 3e8a9ee..4be4752 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -93,7 +93,7 @@ namespace daw {
 		}
 
 		constexpr bool empty( ) const noexcept {
-			return m_data == nullptr;
+			return m_size == 0;
 		}
 
 		constexpr size_type size( ) const noexcept {
-- 
2.43.0


From 35bea727bde4ea23bd4f4d10fc23e543ed6a664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:42 +0000
Subject: [PATCH 071/121] fix: simple_array could not be iterated when const

---
 include/daw/daw_simple_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_simple_array.h b/include/daw/daw_simple_array.h
index ca7a874..fe5136a 100644
--- a/include/daw/daw_simple_array.h
+++ b/include/daw/daw_simple_array.h
@@ -20,7 +20,7 @@ namespace daw {
 		using pointer = value_type *;
 		using const_pointer = value_type const *;
 		using iterator = pointer;
-		using const_iterator = pointer;
+		using const_iterator = const_pointer;
 		using reference = value_type &;
 		using const_reference = value_type const &;
 		using size_type = std::size_t;
@@ -86,7 +86,7 @@ namespace daw {
 		using pointer = value_type *;
 		using const_pointer = value_type const *;
 		using iterator = pointer;
-		using const_iterator = pointer;
+		using const_iterator = const_pointer;
 		using reference = value_type &;
 		using const_reference = value_type const &;
 		using size_type = std::size_t;
-- 
2.43.0


From 20862b737bc2ccc6da84a8f289572c904f6b2861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:03 +0000
Subject: [PATCH 072/121] fix: bounded_vector_t::emplace_back without arguments
 wrote past the end after a pop_front

---
 include/daw/daw_bounded_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 768c75d..92993c5 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -258,7 +258,7 @@ namespace daw {
 
 		template<typename... Args>
 		constexpr void emplace_back( Args &&...args ) noexcept {
-			if( can_move_front( sizeof...( Args ) ) ) {
+			if( can_move_front( 1 ) ) {
 				do_move_to_front( );
 			}
 			m_stack[m_index] = daw::construct_a<value_type>( DAW_FWD( args )... );
-- 
2.43.0


From a7076a5bf4b01d0486beb22f7df5a9faa0e0ca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:06 +0000
Subject: [PATCH 073/121] fix: are_equal of three values ignored the last one

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 81526c5..a1bef0e 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -491,7 +491,7 @@ namespace daw::algorithm {
 
 	template<typename ValueType, typename... Values>
 	constexpr bool are_equal( ValueType v1, ValueType v2, Values... others ) {
-		return are_equal( v1, v2 ) and are_equal( others... );
+		return are_equal( v1, v2 ) and are_equal( v2, others... );
 	}
 
 	template<typename ForwardIterator, typename Predicate>
-- 
2.43.0


From 144d6b402035a9b2a041b1f2f9a24061f8bba742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:06 +0000
Subject: [PATCH 074/121] fix: begin_at, safe_advance, safe_next and safe_prev
 went the other way for distances past PTRDIFF_MAX

---
 include/daw/daw_algorithm.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index a1bef0e..90602ca 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -85,6 +85,20 @@ namespace daw {
 
 	// Iterator movement functions
 	namespace algorithm_details {
+		/// Distances past the largest ptrdiff_t saturate instead of going negative
+		template<typename Distance>
+		constexpr ptrdiff_t to_difference( Distance dist ) noexcept {
+			if constexpr( std::is_unsigned_v<Distance> and
+			              sizeof( Distance ) >= sizeof( ptrdiff_t ) ) {
+				constexpr auto max_dist =
+				  static_cast<Distance>( static_cast<std::size_t>( -1 ) / 2U );
+				if( dist > max_dist ) {
+					dist = max_dist;
+				}
+			}
+			return static_cast<ptrdiff_t>( dist );
+		}
+
 		template<typename Iterator, typename Iterator2, typename Iterator3,
 		         typename Distance,
 		         daw::enable_when_t<
@@ -145,7 +159,7 @@ namespace daw {
 
 		using std::begin;
 		using std::end;
-		auto const d = static_cast<ptrdiff_t>( distance );
+		auto const d = algorithm_details::to_difference( distance );
 		algorithm_details::safe_advance_impl( begin( container ), it,
 		                                      end( container ), d );
 	}
@@ -166,7 +180,7 @@ namespace daw {
 
 		using std::begin;
 		using std::end;
-		auto const d = static_cast<ptrdiff_t>( distance );
+		auto const d = algorithm_details::to_difference( distance );
 		algorithm_details::safe_advance_impl( begin( container ), it,
 		                                      end( container ), d );
 	}
@@ -184,7 +198,7 @@ namespace daw {
 	  noexcept( daw::next( it, static_cast<std::ptrdiff_t>( n ) ) ) ) {
 
 		traits::is_iterator_test<Iterator>( );
-		auto const d = static_cast<ptrdiff_t>( n );
+		auto const d = algorithm_details::to_difference( n );
 		algorithm_details::safe_advance_impl( it, it, last, d );
 		return it;
 	}
@@ -202,7 +216,7 @@ namespace daw {
 	  noexcept( daw::prev( it, static_cast<std::ptrdiff_t>( n ) ) ) ) {
 
 		traits::is_iterator_test<Iterator>( );
-		auto const d = static_cast<ptrdiff_t>( n );
+		auto const d = algorithm_details::to_difference( n );
 		algorithm_details::safe_advance_impl( first, it, it, -d );
 		return it;
 	}
@@ -221,7 +235,7 @@ namespace daw {
 
 		traits::is_container_like_test<Container>( );
 		auto result = std::begin( container );
-		safe_advance( container, result, static_cast<ptrdiff_t>( n ) );
+		safe_advance( container, result, n );
 		return result;
 	}
 
@@ -240,7 +254,7 @@ namespace daw {
 		traits::is_container_like_test<Container>( );
 
 		auto result = std::cbegin( container );
-		safe_advance( container, result, static_cast<ptrdiff_t>( n ) );
+		safe_advance( container, result, n );
 		return result;
 	}
 } // namespace daw
-- 
2.43.0


From 6d636c793ada5b17723136ae36cbdb167499aeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:06 +0000
Subject: [PATCH 075/121] fix: convert_copy could not be called and, like
 convert_copy_n, returned nothing

---
 include/daw/daw_algorithm.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 90602ca..f7cf344 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -2139,13 +2139,14 @@ namespace daw::algorithm {
 
 	template<typename T, typename Iterator, typename IteratorLast,
 	         typename OutputIterator>
-	constexpr OutputIterator convert_copy( Iterator first, Iterator last,
+	constexpr OutputIterator convert_copy( Iterator first, IteratorLast last,
 	                                       OutputIterator out_first ) {
 		while( first != last ) {
 			*out_first = static_cast<T>( *first );
 			++out_first;
 			++first;
 		}
+		return out_first;
 	}
 
 	template<typename T, typename Iterator, typename OutputIterator>
@@ -2157,6 +2158,7 @@ namespace daw::algorithm {
 			++out_first;
 			++first;
 		}
+		return out_first;
 	}
 } // namespace daw::algorithm
 
-- 
2.43.0


From 06c48116d336bb9e15908e8c7695009faf09efbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:06 +0000
Subject: [PATCH 076/121] fix: algorithm::gather did not compile

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index f7cf344..cd376d0 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -523,7 +523,7 @@ namespace daw::algorithm {
 
 		auto finish = std::stable_partition( target, last, predicate );
 
-		return std::make_pair( start, finish );
+		return { start, finish };
 	}
 
 	template<typename T>
-- 
2.43.0


From 13f0728c0858585442864d049453b8d6370ca729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:06 +0000
Subject: [PATCH 077/121] fix: find_first_range_of was ambiguous with the
 algorithms of std

---
 include/daw/daw_algorithm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index cd376d0..2538f7e 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -579,8 +579,8 @@ namespace daw::algorithm {
 
 		traits::is_unary_predicate_test<UnaryPredicate, decltype( *first )>( );
 
-		first = find_first_of( first, last, pred );
-		auto second = find_last_of( first, last, pred );
+		first = daw::algorithm::find_first_of( first, last, pred );
+		auto second = daw::algorithm::find_last_of( first, last, pred );
 		if( second != last ) {
 			second = daw::next( second );
 		}
-- 
2.43.0


From 44c9601191533032cedfd492436ab0b6bac5228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:06 +0000
Subject: [PATCH 078/121] fix: nth_element compared with elements it had
 swapped away and left out the nth element

---
 include/daw/daw_algorithm_cx.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index 3ac8eda..95a945b 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -82,16 +82,19 @@ namespace daw::algorithm {
 		if( not( first != last ) ) {
 			return;
 		}
-		while( first != nth ) {
+		auto const stop = nth != last ? daw::next( nth ) : nth;
+		while( first != stop ) {
 			auto min_idx = first;
 			auto j = daw::next( first );
 			while( j != last ) {
 				if( daw::invoke( comp, *j, *min_idx ) ) {
 					min_idx = j;
-					daw::cswap( *first, *min_idx );
 				}
 				++j;
 			}
+			if( min_idx != first ) {
+				daw::cswap( *first, *min_idx );
+			}
 			++first;
 		}
 	}
-- 
2.43.0


From 83297e7657b87eca0c2954eac8add02dfe7cff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:06 +0000
Subject: [PATCH 079/121] fix: rotate around the end of the range left the
 range

---
 include/daw/daw_algorithm_cx.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index 95a945b..a9445ad 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -34,6 +34,9 @@ namespace daw::algorithm {
 		traits::is_forward_access_iterator_test<ForwardIterator>( );
 		traits::is_inout_iterator_test<ForwardIterator>( );
 
+		if( middle == last ) {
+			return;
+		}
 		ForwardIterator tmp = middle;
 		while( first != tmp ) {
 			daw::cswap( *first, *tmp );
-- 
2.43.0


From 211ee60e314f56a384980c9c977573f8ec694a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:06 +0000
Subject: [PATCH 080/121] fix: algorithm::slide did not compile

---
 include/daw/daw_algorithm_cx.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index a9445ad..01c9a51 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -58,12 +58,14 @@ namespace daw::algorithm {
 		traits::is_input_iterator_test<ForwardIterator>( );
 
 		if( target < first ) {
+			daw::algorithm::rotate( target, first, last );
 			return std::make_pair( target,
-			                       daw::algorithm::rotate( target, first, last ) );
+			                       daw::next( target, daw::distance( first, last ) ) );
 		}
 
 		if( last < target ) {
-			return std::make_pair( daw::algorithm::rotate( first, last, target ),
+			daw::algorithm::rotate( first, last, target );
+			return std::make_pair( daw::next( first, daw::distance( last, target ) ),
 			                       target );
 		}
 
-- 
2.43.0


From eabb36454a8fc2261013e2c19b97afab9716659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:09 +0000
Subject: [PATCH 081/121] fix: consume_if called the function with the elements
 it keeps instead of those it consumes

---
 include/daw/daw_algorithm.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 2538f7e..b13c97b 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1799,13 +1799,12 @@ namespace daw::algorithm {
 	  ForwardIterator first, ForwardIterator last, UnaryPredicate &&pred,
 	  Function &&func ) noexcept( noexcept( daw::invoke( pred, *first ) ) ) {
 		first = daw::algorithm::find_if( first, last, pred );
-		if( first != last ) {
-			for( ForwardIterator i = first; ++i != last; ) {
-				if( not daw::invoke( pred, *i ) ) {
-					(void)daw::invoke( func, *i );
-					*first = std::move( *i );
-					++first;
-				}
+		for( ForwardIterator i = first; i != last; ++i ) {
+			if( daw::invoke( pred, *i ) ) {
+				(void)daw::invoke( func, *i );
+			} else {
+				*first = std::move( *i );
+				++first;
 			}
 		}
 		return first;
-- 
2.43.0


From c31763f9697a67894477a53867f2299cce84aae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:09 +0000
Subject: [PATCH 082/121] fix: algorithm::split dropped what follows the last
 separator

---
 include/daw/daw_algorithm.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index b13c97b..9ad0c78 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -604,6 +604,9 @@ namespace daw::algorithm {
 				temp.push_back( *it );
 			}
 		}
+		if( first != last ) {
+			result.push_back( std::move( temp ) );
+		}
 		return result;
 	}
 
-- 
2.43.0


From 2014b070089488000d7822dbaf50df2960d691ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 083/121] fix: values of the other byte order were not swapped
 by network_to_host_endian and to_native_endian

---
 include/daw/daw_endian.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_endian.h b/include/daw/daw_endian.h
index fa60fb6..1af1b26 100644
--- a/include/daw/daw_endian.h
+++ b/include/daw/daw_endian.h
@@ -132,11 +132,7 @@ namespace daw {
 	template<typename T,
 	         std::enable_if_t<daw::is_integral_v<T>, std::nullptr_t> = nullptr>
 	constexpr T network_to_host_endian( T value ) noexcept {
-		if constexpr( endian::native == endian::big ) {
-			return value;
-		} else {
-			return to_little_endian( value );
-		}
+		return to_big_endian( value );
 	}
 
 	template<endian SourceEndian, typename T,
@@ -144,10 +140,8 @@ namespace daw {
 	constexpr T to_native_endian( T value ) noexcept {
 		if constexpr( SourceEndian == endian::native ) {
 			return value;
-		} else if constexpr( endian::native == endian::little ) {
-			return to_little_endian( value );
 		} else {
-			return to_big_endian( value );
+			return endian_details::swap_bytes( value, daw::constant<sizeof( T )>{ } );
 		}
 	}
 } // namespace daw
-- 
2.43.0


From 5e42791d08e62e2143756b0bd50ef850a539e3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 084/121] fix: bitset::unset cleared another bit as well

---
 include/daw/daw_bitset.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/daw/daw_bitset.h b/include/daw/daw_bitset.h
index 194bb8c..f75fffd 100644
--- a/include/daw/daw_bitset.h
+++ b/include/daw/daw_bitset.h
@@ -44,7 +44,6 @@ namespace daw {
 
 		DAW_ATTRIB_INLINE constexpr void unset( std::size_t index ) {
 			assert( index < size( ) );
-			m_bits[get_limb( index )] &= ~( 1u << index % 4 );
 			auto const limb = get_limb( index );
 			auto const mask = get_mask( index );
 			m_bits[limb] &= ~mask;
-- 
2.43.0


From d209feefa61eb21d74075262de5ca4792363bfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:03 +0000
Subject: [PATCH 085/121] fix: bit queues lost bits beyond the value type and
 shifted by their full width

---
 include/daw/daw_bit_queues.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index 5a8fa6e..9bab817 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -88,7 +88,8 @@ namespace daw {
 			value &= mask_msb<value_type>(
 			  bit_count_v<value_type> -
 			  bits ); // get_left_mask<value_type>( bit_count_v<value_type> - bits );
-			m_queue <<= bits;
+			m_queue = bits < capacity( ) ? static_cast<queue_type>( m_queue << bits )
+			                             : queue_type{ };
 			m_queue |= source_to_native_endian( value, BitQueueLSB{ } );
 			m_size += bits;
 		}
@@ -99,7 +100,8 @@ namespace daw {
 			auto const mask = mask_msb<queue_type>( capacity( ) - bits );
 			auto result =
 			  static_cast<value_type>( static_cast<value_type>( m_queue & mask ) );
-			m_queue >>= bits;
+			m_queue = bits < capacity( ) ? static_cast<queue_type>( m_queue >> bits )
+			                             : queue_type{ };
 			m_size -= bits;
 			return result;
 		}
@@ -107,12 +109,15 @@ namespace daw {
 		[[nodiscard]] constexpr value_type pop_back( size_t const bits ) {
 			daw::exception::dbg_throw_on_false( m_size >= bits,
 			                                    "Not enough bits to pop request" );
-			auto mask = queue_type( ( 1 << bits ) - 1 );
-			mask <<= size( ) - bits;
-			auto result = static_cast<value_type>( m_queue & mask );
-			result >>= size( ) - bits;
-			m_queue = m_queue & ~mask;
-			m_size -= bits;
+			if( bits == 0 ) {
+				return value_type{ };
+			}
+			auto const rest = m_size - bits;
+			auto const mask = mask_msb<queue_type>( capacity( ) - bits );
+			auto const result =
+			  static_cast<value_type>( ( m_queue >> rest ) & mask );
+			m_queue &= mask_msb<queue_type>( capacity( ) - rest );
+			m_size = rest;
 			return result;
 		}
 
-- 
2.43.0


From be56821236930def7371a1bc2928fe9f9532e747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:03 +0000
Subject: [PATCH 086/121] fix: skip_bits kept what is less than a whole
 element, skip_until ignored the bit count

---
 include/daw/daw_bit_stream.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bit_stream.h b/include/daw/daw_bit_stream.h
index aadde35..b73f801 100644
--- a/include/daw/daw_bit_stream.h
+++ b/include/daw/daw_bit_stream.h
@@ -110,6 +110,9 @@ namespace daw {
 			bs.pop_bits( );
 			bits_needed -= bit_count_v<value_type>;
 		}
+		if( bits_needed > 0 ) {
+			bs.pop_bits( bits_needed );
+		}
 	}
 
 	template<typename BitStream>
@@ -125,9 +128,9 @@ namespace daw {
 		daw::exception::dbg_throw_on_true( bit_count < 1,
 		                                   "Attempt to pop less than 1 bits" );
 
-		auto cur_val = pop_value<TestValue>( bs );
+		auto cur_val = pop_value<TestValue>( bs, bit_count );
 		while( bs and cur_val != v ) {
-			cur_val = pop_value<TestValue>( bs );
+			cur_val = pop_value<TestValue>( bs, bit_count );
 		}
 		daw::exception::dbg_throw_on_true( cur_val != v,
 		                                   "Not enough data in stream" );
-- 
2.43.0


From 7b9ee267b4a55bd35530abd2bc58fe42c9c6c5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:15 +0000
Subject: [PATCH 087/121] fix: basic_nibble_queue::capacity and full could not
 be called

---
 include/daw/daw_bit_queues.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index 9bab817..3321845 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -151,7 +151,7 @@ namespace daw {
 		  : m_queue{ std::move( v ) } {}
 
 		[[nodiscard]] constexpr size_t capacity( ) const noexcept {
-			return m_queue.capacity( ) / 4;
+			return basic_bit_queue<queue_type, value_type>::capacity( ) / 4;
 		}
 
 		[[nodiscard]] constexpr size_t size( ) const noexcept {
-- 
2.43.0


From a30c4e9196e63216346c30d674625b1379e05b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:49 +0000
Subject: [PATCH 088/121] fix: set_bit cleared the upper half of a UInt64,
 rotating by nothing shifted by the full width

---
 include/daw/daw_uint_types.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index 6b17df0..79def2e 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -667,21 +667,21 @@ namespace daw {
 	template<unsigned bits>
 	constexpr UInt64 rotate_left( UInt64 value ) {
 		static_assert( bits <= 64 );
-		return ( value << bits ) | ( value >> ( 64U - bits ) );
+		return ( value << bits ) | ( value >> ( ( 64U - bits ) % 64U ) );
 	}
 
 	constexpr UInt64 rotate_left( UInt64 value, unsigned bits ) {
-		return ( value << bits ) | ( value >> ( 64U - bits ) );
+		return ( value << bits ) | ( value >> ( ( 64U - bits ) % 64U ) );
 	}
 
 	template<unsigned bits>
 	constexpr UInt64 rotate_right( UInt64 value ) {
 		static_assert( bits <= 64 );
-		return ( value >> bits ) | ( value << ( 64U - bits ) );
+		return ( value >> bits ) | ( value << ( ( 64U - bits ) % 64U ) );
 	}
 
 	constexpr UInt64 rotate_right( UInt64 value, unsigned bits ) {
-		return ( value >> bits ) | ( value << ( 64U - bits ) );
+		return ( value >> bits ) | ( value << ( ( 64U - bits ) % 64U ) );
 	}
 
 	constexpr UInt32 &operator<<=( UInt32 &b, std::uint32_t shift ) noexcept {
@@ -1075,21 +1075,21 @@ namespace daw {
 	template<unsigned bits>
 	constexpr UInt32 rotate_left( UInt32 value ) {
 		static_assert( bits <= 32 );
-		return ( value << bits ) | ( value >> ( 32U - bits ) );
+		return ( value << bits ) | ( value >> ( ( 32U - bits ) % 32U ) );
 	}
 
 	constexpr UInt32 rotate_left( UInt32 value, unsigned bits ) {
-		return ( value << bits ) | ( value >> ( 32U - bits ) );
+		return ( value << bits ) | ( value >> ( ( 32U - bits ) % 32U ) );
 	}
 
 	template<unsigned bits>
 	constexpr UInt32 rotate_right( UInt32 value ) {
 		static_assert( bits <= 32 );
-		return ( value >> bits ) | ( value << ( 32U - bits ) );
+		return ( value >> bits ) | ( value << ( ( 32U - bits ) % 32U ) );
 	}
 
 	constexpr UInt32 rotate_right( UInt32 value, unsigned bits ) {
-		return ( value >> bits ) | ( value << ( 32U - bits ) );
+		return ( value >> bits ) | ( value << ( ( 32U - bits ) % 32U ) );
 	}
 
 	constexpr UInt16 &operator<<=( UInt16 &b, std::uint16_t shift ) noexcept {
@@ -2880,7 +2880,7 @@ namespace daw {
 	inline constexpr void set_bit( UInt64 &value, bool state ) {
 		static_assert( N <= 64 );
 		value =
-		  ( value & ( ~( 1U << N ) ) ) | ( static_cast<UInt64>( state ) << N );
+		  ( value & ( ~( UInt64{ 1U } << N ) ) ) | ( static_cast<UInt64>( state ) << N );
 	}
 
 	template<unsigned N>
-- 
2.43.0


From 309a3487c153735914bc967d27fc2686b1b0df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:41 +0000
Subject: [PATCH 089/121] fix: math::pow squared repeatedly instead of
 multiplying by the base

---
 include/daw/daw_math.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index b2ca9b4..e9429a9 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -172,10 +172,11 @@ namespace daw::math {
 	namespace impl {
 		template<typename T>
 		[[nodiscard]] constexpr T pow_impl( T base, size_t exponent ) noexcept {
-			for( size_t k = 0; k < exponent; ++k ) {
-				base *= base;
+			T result = base;
+			for( size_t k = 1; k < exponent; ++k ) {
+				result *= base;
 			}
-			return base;
+			return result;
 		}
 
 	} // namespace impl
-- 
2.43.0


From 856c90b9130b976d617a315c34a83d3de9e2a24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:41 +0000
Subject: [PATCH 090/121] fix: math::abs overflowed for the lowest int

---
 include/daw/daw_math.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index e9429a9..ed18685 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -142,13 +142,8 @@ namespace daw::math {
 	                          std::nullptr_t> = nullptr>
 	[[nodiscard]] constexpr Result abs( SignedInteger v ) noexcept {
 		// This accounts for when negating the number is out of range
-		if( static_cast<intmax_t>( v ) == lowest_value<intmax_t> ) {
-			return pow2<Result>( bsizeof<intmax_t> - 1 );
-		}
-		if( v < 0 ) {
-			v = -v;
-		}
-		return static_cast<Result>( v );
+		auto const u = static_cast<uintmax_t>( v );
+		return static_cast<Result>( v < 0 ? uintmax_t{ 0 } - u : u );
 	}
 
 	template<typename UnsignedInteger,
-- 
2.43.0


From 13aa2e9edbfed68b7460eb580ccb9e231ef327c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:49 +0000
Subject: [PATCH 091/121] fix: math::abs and factorial did not compile for
 unsigned variables

---
 include/daw/daw_math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index ed18685..1a415c7 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -150,8 +150,8 @@ namespace daw::math {
 	         std::enable_if_t<all_true_v<std::is_integral_v<UnsignedInteger>,
 	                                     not std::is_signed_v<UnsignedInteger>>,
 	                          std::nullptr_t> = nullptr>
-	[[nodiscard]] constexpr UnsignedInteger abs( UnsignedInteger &&v ) noexcept {
-		return DAW_FWD( v );
+	[[nodiscard]] constexpr UnsignedInteger abs( UnsignedInteger v ) noexcept {
+		return v;
 	}
 
 	template<typename T>
-- 
2.43.0


From 84d93e18d3139c45a87f4531c2c9877c17780a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:41 +0000
Subject: [PATCH 092/121] fix: optional::operator-> did not compile

---
 include/daw/daw_optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index 5e2c5a5..d5512db 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -59,11 +59,11 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr pointer operator->( ) noexcept {
-			return &m_value.operator->( );
+			return m_value.operator->( );
 		}
 
 		[[nodiscard]] constexpr const_pointer operator->( ) const noexcept {
-			return &m_value.operator->( );
+			return m_value.operator->( );
 		}
 
 		void swap( optional &other ) noexcept(
-- 
2.43.0


From a5e34095e68ec086d3ccd56ac806b7721da1536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:41 +0000
Subject: [PATCH 093/121] fix: value >= optional compared the other way round

---
 include/daw/daw_optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index d5512db..3b3bdbe 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -469,7 +469,7 @@ namespace daw {
 	template<typename T, typename U>
 	constexpr bool operator>=( const T &value, const optional<U> &opt ) {
 		if( opt ) {
-			return *opt > value;
+			return value >= *opt;
 		}
 		return true;
 	}
-- 
2.43.0


From b989f8f5254d7f1fc2fd2e6ebf3c257820e20a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:41 +0000
Subject: [PATCH 094/121] fix: visit with a chosen result did not notice a
 valueless variant

---
 include/daw/daw_visit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_visit.h b/include/daw/daw_visit.h
index 93b3aca..379fb92 100644
--- a/include/daw/daw_visit.h
+++ b/include/daw/daw_visit.h
@@ -401,7 +401,7 @@ namespace daw {
 	[[nodiscard]] constexpr Result visit( Variant &&var,
 	                                      Visitors &&...visitors ) {
 
-		if( DAW_UNLIKELY( var.index( ) < 0 ) ) {
+		if( DAW_UNLIKELY( visit_details::is_empty( var ) ) ) {
 			visit_details::visit_error( );
 		}
 		return daw::visit_details::visit_nt<0, Result>(
-- 
2.43.0


From 6e968ed00897a5931109725a4390c374fe2c5a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:41 +0000
Subject: [PATCH 095/121] fix: expected_from_code with a chosen result dropped
 the result

---
 include/daw/daw_expected.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index af3262f..db82984 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -408,9 +408,8 @@ namespace daw {
 		  daw::traits::is_callable_convertible_v<Result, Function, Args...>,
 		  "Must be able to convert result of func to expected result type" );
 
-		auto result = expected_t<Result>( );
-		result.from_code( DAW_FWD( func ), DAW_FWD( args )... );
-		return result;
+		return expected_t<Result>::from_code( DAW_FWD( func ),
+		                                      DAW_FWD( args )... );
 	}
 
 	template<typename Function, typename... Args>
-- 
2.43.0


From 2fcb1624087b080d8a0fc9457683a6da9112c504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:41 +0000
Subject: [PATCH 096/121] fix: union_pair assigned to members that were not
 alive

---
 include/daw/daw_union_pair.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_union_pair.h b/include/daw/daw_union_pair.h
index bab5c85..81e3ca3 100644
--- a/include/daw/daw_union_pair.h
+++ b/include/daw/daw_union_pair.h
@@ -12,11 +12,13 @@
 #include "cpp_17.h"
 #include "daw_exception.h"
 #include "daw_move.h"
+#include "daw_construct_at.h"
 #include "daw_unreachable.h"
 
 #include <cstddef>
 #include <cstdint>
 #include <cstdlib>
+#include <memory>
 #include <utility>
 
 namespace daw {
@@ -81,11 +83,13 @@ namespace daw {
 			static_assert( std::is_convertible_v<T, Type0>,
 			               "Incompatible type T cannot convert to Type0" );
 
-			if( type != data_types::type_0 ) {
-				clear( );
+			if( type == data_types::type_0 ) {
+				value0 = DAW_FWD( value );
+				return;
 			}
-			type = data_types::type_nothing;
-			value0 = DAW_FWD( value );
+			clear( );
+			(void)daw::construct_at<Type0>( std::addressof( value0 ),
+			                                DAW_FWD( value ) );
 			type = data_types::type_0;
 		}
 
@@ -94,11 +98,13 @@ namespace daw {
 			static_assert( std::is_convertible_v<T, Type1>,
 			               "Incompatible type T cannot convert to Type1" );
 
-			if( type != data_types::type_1 ) {
-				clear( );
+			if( type == data_types::type_1 ) {
+				value1 = DAW_FWD( value );
+				return;
 			}
-			type = data_types::type_nothing;
-			value1 = DAW_FWD( value );
+			clear( );
+			(void)daw::construct_at<Type1>( std::addressof( value1 ),
+			                                DAW_FWD( value ) );
 			type = data_types::type_1;
 		}
 
-- 
2.43.0


From ffc44ed456f5c4e02e60a85043741166a6bc50fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:41 +0000
Subject: [PATCH 097/121] fix: poly_var::operator* referred to a sliced copy

---
 include/daw/daw_poly_var.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_poly_var.h b/include/daw/daw_poly_var.h
index aa909d5..d4b90f5 100644
--- a/include/daw/daw_poly_var.h
+++ b/include/daw/daw_poly_var.h
@@ -37,13 +37,13 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr Base const &operator*( ) const {
-			return daw::visit_nt( m_value, []( auto const &value ) {
+			return daw::visit_nt( m_value, []( auto const &value ) -> Base const & {
 				return *static_cast<Base const *>( &value );
 			} );
 		}
 
 		[[nodiscard]] constexpr Base &operator*( ) {
-			return daw::visit_nt( m_value, []( auto &value ) {
+			return daw::visit_nt( m_value, []( auto &value ) -> Base & {
 				return *static_cast<Base *>( &value );
 			} );
 		}
-- 
2.43.0


From 40cc3a14d0704fc6b50bdc420972e5911c900f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:41 +0000
Subject: [PATCH 098/121] fix: uninitialized_storage::raw_data did not compile

---
 include/daw/daw_uninitialized_storage.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_uninitialized_storage.h b/include/daw/daw_uninitialized_storage.h
index 17363d8..c1a7253 100644
--- a/include/daw/daw_uninitialized_storage.h
+++ b/include/daw/daw_uninitialized_storage.h
@@ -90,7 +90,11 @@ namespace daw {
 			ptr( )->~T( );
 		}
 
-		constexpr std::byte *raw_data( ) const noexcept {
+		constexpr std::byte *raw_data( ) noexcept {
+			return m_data;
+		}
+
+		constexpr std::byte const *raw_data( ) const noexcept {
 			return m_data;
 		}
 	};
-- 
2.43.0


From a356f5d00e708b461f55518395efd2ea63e1b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:08 +0000
Subject: [PATCH 099/121] fix: optional<T &> could be made from a temporary

---
 include/daw/daw_optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index 3b3bdbe..71f5321 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -218,7 +218,7 @@ namespace daw {
 		         std::enable_if_t<
 		           daw::all_true_v<
 		             std::is_constructible_v<pointer, daw::remove_cvref_t<U> *>,
-		             not std::is_rvalue_reference_v<U>,
+		             std::is_lvalue_reference_v<U>,
 		             not std::is_same_v<daw::remove_cvref_t<U>, optional<T>>>,
 		           std::nullptr_t> = nullptr>
 		constexpr explicit optional( U &&value )
-- 
2.43.0


From 6ddca562c77fadb489a7fdc3e02d8ba5e9773e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:07 +0000
Subject: [PATCH 100/121] fix: nullopt >= optional was true for an optional
 with a value

---
 include/daw/daw_optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index 71f5321..2a5dd25 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -375,7 +375,7 @@ namespace daw {
 
 	template<typename T>
 	constexpr bool operator>=( std::nullopt_t, optional<T> const &opt ) noexcept {
-		return static_cast<bool>( opt );
+		return not opt;
 	}
 
 	template<typename T, typename U>
-- 
2.43.0


From 72c04ae61de4ee12d024955e618bcf020278557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:40 +0000
Subject: [PATCH 101/121] fix: expected_t caught nothing unless another header
 had checked for exceptions first

---
 include/daw/daw_expected.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index db82984..bbd7131 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -11,6 +11,7 @@
 #include "ciso646.h"
 #include "daw_assume.h"
 #include "daw_attributes.h"
+#include "daw_check_exceptions.h"
 #include "daw_move.h"
 #include "impl/daw_traits_impl.h"
 #include "traits/daw_traits_concepts.h"
-- 
2.43.0


From 008b8eb576061bcbfd014a86469561d2d3751d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:22 +0000
Subject: [PATCH 102/121] fix: visit took every std::variant for one with a
 value

---
 include/daw/daw_visit.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_visit.h b/include/daw/daw_visit.h
index 379fb92..44e872c 100644
--- a/include/daw/daw_visit.h
+++ b/include/daw/daw_visit.h
@@ -85,14 +85,19 @@ namespace daw {
 			return v.index( );
 		}
 
-	  DAW_MAKE_REQ_TRAIT( has_variant_npos, T::variant_npos );
-	  
-    template<typename Variant, std::enable_if_t<has_variant_npos<Variant>, std::nullptr_t> = nullptr> 
-	  DAW_ATTRIB_FLATINLINE constexpr bool is_empty( Variant const & v ) {
-		  return v.index( ) == Variant::variant_npos;
+		DAW_MAKE_REQ_TRAIT( has_valueless_by_exception,
+		                    std::declval<T const &>( ).valueless_by_exception( ) );
+
+		template<typename Variant,
+		         std::enable_if_t<has_valueless_by_exception<Variant>,
+		                          std::nullptr_t> = nullptr>
+		DAW_ATTRIB_FLATINLINE constexpr bool is_empty( Variant const &v ) {
+			return v.valueless_by_exception( );
 		}
 
-    template<typename Variant, std::enable_if_t<not has_variant_npos<Variant>, std::nullptr_t> = nullptr> 
+		template<typename Variant,
+		         std::enable_if_t<not has_valueless_by_exception<Variant>,
+		                          std::nullptr_t> = nullptr>
 	  DAW_ATTRIB_INLINE constexpr bool is_empty( Variant const & ) {
       return false;
 		}
-- 
2.43.0


From 80d79c4aa6079555a491e77fc4e707fca5d499d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:07 +0000
Subject: [PATCH 103/121] fix: circular_iterator stepped back by a whole turn
 ended past the range

---
 include/daw/iterator/daw_circular_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_circular_iterator.h b/include/daw/iterator/daw_circular_iterator.h
index f4152e5..a3c0dfb 100644
--- a/include/daw/iterator/daw_circular_iterator.h
+++ b/include/daw/iterator/daw_circular_iterator.h
@@ -64,7 +64,7 @@ namespace daw {
 			if( n < 0 ) {
 				n *= -1;
 				n %= sz;
-				return sz - n;
+				return n == 0 ? 0 : sz - n;
 			} else if( n >= sz ) {
 				return n % sz;
 			}
-- 
2.43.0


From a54834e73d9f9bbfad70383e3661107eb63e4edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:07 +0000
Subject: [PATCH 104/121] fix: pointer_iterator: x++ returned a reference to a
 local, --x a copy, x - n was missing

---
 include/daw/iterator/daw_pointer_iterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/iterator/daw_pointer_iterator.h b/include/daw/iterator/daw_pointer_iterator.h
index 6c175f3..8a56e08 100644
--- a/include/daw/iterator/daw_pointer_iterator.h
+++ b/include/daw/iterator/daw_pointer_iterator.h
@@ -67,13 +67,13 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr pointer_iterator &operator++( int ) {
+		constexpr pointer_iterator operator++( int ) {
 			auto result = *this;
 			++m_ptr;
 			return result;
 		}
 
-		constexpr pointer_iterator operator--( ) {
+		constexpr pointer_iterator &operator--( ) {
 			--m_ptr;
 			return *this;
 		}
@@ -100,7 +100,7 @@ namespace daw {
 			return result;
 		}
 
-		constexpr pointer_iterator operator-=( difference_type d ) const {
+		constexpr pointer_iterator operator-( difference_type d ) const {
 			auto result = *this;
 			result -= d;
 			return result;
-- 
2.43.0


From 4d42965c20d516158d6b731af2086f7c3cc9eb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:07 +0000
Subject: [PATCH 105/121] fix: chunk_iterator: -= went forward, the difference
 counted elements and not chunks

---
 include/daw/iterator/daw_chunk_iterator.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/daw/iterator/daw_chunk_iterator.h b/include/daw/iterator/daw_chunk_iterator.h
index c8e9624..392cc9f 100644
--- a/include/daw/iterator/daw_chunk_iterator.h
+++ b/include/daw/iterator/daw_chunk_iterator.h
@@ -13,6 +13,7 @@
 
 #include <cstddef>
 #include <iterator>
+#include <memory>
 
 namespace daw {
 	template<typename Iterator>
@@ -45,11 +46,11 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr decltype( auto ) operator->( ) {
-			return m_iterator->operator->( );
+			return std::addressof( *m_iterator );
 		}
 
 		[[nodiscard]] constexpr decltype( auto ) operator->( ) const {
-			return m_iterator->operator->( );
+			return std::addressof( *m_iterator );
 		}
 
 		[[nodiscard]] constexpr decltype( auto ) operator[]( size_type idx ) {
@@ -88,7 +89,7 @@ namespace daw {
 		}
 
 		constexpr chunk_iterator &operator-=( difference_type n ) {
-			m_iterator += n * m_chunk_size;
+			m_iterator -= n * m_chunk_size;
 			return *this;
 		}
 
@@ -104,12 +105,6 @@ namespace daw {
 			return it;
 		}
 
-		[[nodiscard]] friend constexpr chunk_iterator
-		operator-( difference_type n, chunk_iterator &it ) {
-			it -= n;
-			return it;
-		}
-
 		[[nodiscard]] friend constexpr chunk_iterator
 		operator-( chunk_iterator it, difference_type n ) {
 			it -= n;
@@ -118,7 +113,7 @@ namespace daw {
 
 		[[nodiscard]] constexpr difference_type
 		operator-( chunk_iterator const &rhs ) const {
-			return m_iterator - rhs.m_iterator;
+			return ( m_iterator - rhs.m_iterator ) / m_chunk_size;
 		}
 
 		constexpr bool operator==( chunk_iterator const &rhs ) const {
-- 
2.43.0


From ad5279b63cef2db412745ab6150dd3df992f8b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:07 +0000
Subject: [PATCH 106/121] fix: indexed_iterator: reaching the end and a
 negative difference were reported as errors

---
 include/daw/iterator/daw_indexed_iterator.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/daw/iterator/daw_indexed_iterator.h b/include/daw/iterator/daw_indexed_iterator.h
index 9d44e3c..92a1286 100644
--- a/include/daw/iterator/daw_indexed_iterator.h
+++ b/include/daw/iterator/daw_indexed_iterator.h
@@ -125,7 +125,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -136,7 +136,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -146,7 +146,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			m_position = new_pos;
 			return *this;
 		}
@@ -155,7 +155,7 @@ namespace daw {
 			auto const new_pos = m_position - n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
@@ -167,7 +167,7 @@ namespace daw {
 			auto const new_pos = m_position - n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -197,8 +197,6 @@ namespace daw {
 			daw::exception::dbg_precondition_check( lhs.m_pointer == rhs.m_pointer );
 			daw::exception::dbg_precondition_check( lhs.m_position >= 0 );
 			daw::exception::dbg_precondition_check( rhs.m_position >= 0 );
-			daw::exception::dbg_precondition_check( lhs.m_position >=
-			                                        rhs.m_position );
 
 			return lhs.m_position - rhs.m_position;
 		}
-- 
2.43.0


From 5997e162c32185d7b6c71b2601714c5865bf1fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:07 +0000
Subject: [PATCH 107/121] fix: iota_iterator: unsigned ranges were empty, >
 never held, += forgot the step

---
 include/daw/iterator/daw_iota_iterator.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/daw/iterator/daw_iota_iterator.h b/include/daw/iterator/daw_iota_iterator.h
index 4580f83..613814e 100644
--- a/include/daw/iterator/daw_iota_iterator.h
+++ b/include/daw/iterator/daw_iota_iterator.h
@@ -16,6 +16,7 @@
 #include "daw_arrow_proxy.h"
 
 #include <cstddef>
+#include <functional>
 #include <iterator>
 #include <type_traits>
 
@@ -50,14 +51,12 @@ namespace daw {
 		  , m_step( step_distance ) {}
 
 		constexpr iota_iterator &operator+=( difference_type n ) noexcept {
-			m_value =
-			  static_cast<value_type>( static_cast<difference_type>( m_value ) + n );
+			*this = *this + n;
 			return *this;
 		}
 
 		constexpr iota_iterator &operator-=( difference_type n ) noexcept {
-			m_value =
-			  static_cast<value_type>( static_cast<difference_type>( m_value ) - n );
+			*this = *this - n;
 			return *this;
 		}
 
@@ -123,11 +122,10 @@ namespace daw {
 		template<typename U>
 		[[nodiscard]] constexpr difference_type
 		compare( iota_iterator<U> const &rhs ) const noexcept {
-			auto const diff = m_value - rhs.m_value;
-			if( std::less<value_type>{ }( diff, value_type{ 0 } ) ) {
+			if( std::less<>{ }( m_value, *rhs ) ) {
 				return -1;
 			}
-			if( std::less<value_type>{ }( value_type{ 0 }, 0 ) ) {
+			if( std::less<>{ }( *rhs, m_value ) ) {
 				return 1;
 			}
 			return 0;
@@ -135,12 +133,13 @@ namespace daw {
 
 		friend constexpr bool operator==( iota_iterator const &lhs,
 		                                  iota_iterator const &rhs ) noexcept {
-			return lhs.compare( rhs ) == 0;
+			// reaching or passing rhs, the last step may go over it
+			return lhs.compare( rhs ) >= 0;
 		}
 
 		friend constexpr bool operator!=( iota_iterator const &lhs,
 		                                  iota_iterator const &rhs ) noexcept {
-			return lhs.compare( rhs ) != 0;
+			return lhs.compare( rhs ) < 0;
 		}
 
 		friend constexpr bool operator>( iota_iterator const &lhs,
@@ -160,7 +159,7 @@ namespace daw {
 
 		friend constexpr bool operator<=( iota_iterator const &lhs,
 		                                  iota_iterator const &rhs ) noexcept {
-			return lhs.compare( rhs ) < 0;
+			return lhs.compare( rhs ) <= 0;
 		}
 	}; // iota_iterator
 
-- 
2.43.0


From 696fec3be218b687b628a85f620ceb216827f488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:07 +0000
Subject: [PATCH 108/121] fix: arg_iterator_t ordered by argument count and at
 refused the first argument

---
 include/daw/iterator/daw_argument_iterator.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/iterator/daw_argument_iterator.h b/include/daw/iterator/daw_argument_iterator.h
index 11a6b94..7efb523 100644
--- a/include/daw/iterator/daw_argument_iterator.h
+++ b/include/daw/iterator/daw_argument_iterator.h
@@ -101,7 +101,7 @@ namespace daw {
 			auto const pos = m_pos + n;
 
 			daw::exception::precondition_check<std::out_of_range>(
-			  0 < pos and pos < m_argc, "Attempt to access invalid argument" );
+			  0 <= pos and pos < m_argc, "Attempt to access invalid argument" );
 
 			return std::string_view( m_argv[pos] );
 		}
@@ -126,28 +126,28 @@ namespace daw {
 
 		constexpr bool operator<( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc < rhs.m_argc;
+				return m_pos < rhs.m_pos;
 			}
 			return not at_end( ) and rhs.at_end( );
 		}
 
 		constexpr bool operator<=( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc <= rhs.m_argc;
+				return m_pos <= rhs.m_pos;
 			}
 			return rhs.at_end( );
 		}
 
 		constexpr bool operator>( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc > rhs.m_argc;
+				return m_pos > rhs.m_pos;
 			}
-			return at_end( );
+			return at_end( ) and not rhs.at_end( );
 		}
 
 		constexpr bool operator>=( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc <= rhs.m_argc;
+				return m_pos >= rhs.m_pos;
 			}
 			return at_end( );
 		}
-- 
2.43.0


From 20433abd9cb283b5587c17a0507dee532e89b0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:07 +0000
Subject: [PATCH 109/121] fix: checked_iterator_proxy_t checked only the last
 requested operation, x++ did not advance

---
 .../daw/iterator/daw_checked_iterator_proxy.h | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 0a38280..92578a5 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -14,6 +14,7 @@
 #include "daw/daw_logic.h"
 
 #include <cstdint>
+#include <memory>
 #include <stdexcept>
 #include <type_traits>
 #include <utility>
@@ -40,9 +41,9 @@ namespace daw {
 			auto result =
 			  static_cast<std::uint8_t>( CheckIncrement ? check_increment : 0 );
 			result = static_cast<std::uint8_t>(
-			  daw::nsc_or( result, CheckDecrement ) ? check_decrement : 0 );
+			  result | ( CheckDecrement ? check_decrement : 0 ) );
 			result = static_cast<std::uint8_t>(
-			  daw::nsc_or( result, CheckDereference ) ? check_dereference : 0 );
+			  result | ( CheckDereference ? check_dereference : 0 ) );
 
 			return result;
 		}
@@ -76,9 +77,9 @@ namespace daw {
 			return *this;
 		}
 
-		checked_iterator_proxy_t operator++( int ) const {
+		checked_iterator_proxy_t operator++( int ) {
 			checked_iterator_proxy_t result{ *this };
-			++result;
+			++*this;
 			return result;
 		}
 
@@ -92,9 +93,9 @@ namespace daw {
 			return *this;
 		}
 
-		checked_iterator_proxy_t operator--( int ) const {
+		checked_iterator_proxy_t operator--( int ) {
 			checked_iterator_proxy_t result{ *this };
-			--result;
+			--*this;
 			return result;
 		}
 
@@ -116,22 +117,22 @@ namespace daw {
 			return *current;
 		}
 
-		auto &operator->( ) {
+		auto operator->( ) {
 			if( is_flag_set( check_dereference ) and current == last ) {
 				DAW_THROW_OR_TERMINATE(
 				  std::out_of_range,
 				  "Attempt to access members an iterator at end of range" );
 			}
-			return current.operator->( );
+			return std::addressof( *current );
 		}
 
-		auto const &operator->( ) const {
+		auto operator->( ) const {
 			if( is_flag_set( check_dereference ) and current == last ) {
 				DAW_THROW_OR_TERMINATE(
 				  std::out_of_range,
 				  "Attempt to access members an iterator at end of range" );
 			}
-			return current.operator->( );
+			return std::addressof( *current );
 		}
 
 		template<typename IteratorFirst_lhs, typename IteratorFirst_rhs,
-- 
2.43.0


From 446c3cc119cbb58ba1a87c9c665794d6f8fc8669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:07 +0000
Subject: [PATCH 110/121] fix: zip_iterator::operator-> did not compile

---
 include/daw/iterator/daw_zipiter.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_zipiter.h b/include/daw/iterator/daw_zipiter.h
index bca64b9..5d55f96 100644
--- a/include/daw/iterator/daw_zipiter.h
+++ b/include/daw/iterator/daw_zipiter.h
@@ -148,6 +148,17 @@ namespace daw {
 			return { *std::get<Is>( m_values )... };
 		}
 
+		template<size_t... Is>
+		constexpr pointer get_pointers( std::index_sequence<Is...> ) noexcept {
+			return { zipiter_details::get_pointer( std::get<Is>( m_values ) )... };
+		}
+
+		template<size_t... Is>
+		constexpr const_pointer
+		get_pointers( std::index_sequence<Is...> ) const noexcept {
+			return { zipiter_details::get_pointer( std::get<Is>( m_values ) )... };
+		}
+
 	public:
 		constexpr reference operator*( ) noexcept {
 			return get_items(
@@ -160,11 +171,13 @@ namespace daw {
 		}
 
 		constexpr pointer operator->( ) noexcept {
-			return { operator*( ) };
+			return get_pointers(
+			  std::make_index_sequence<daw::tuple_size_v<types_t>>( ) );
 		}
 
 		constexpr const_pointer operator->( ) const noexcept {
-			return { operator*( ) };
+			return get_pointers(
+			  std::make_index_sequence<daw::tuple_size_v<types_t>>( ) );
 		}
 
 		constexpr bool operator==( zip_iterator const &rhs ) const noexcept {
-- 
2.43.0


From ecef474be69f11472be386358be1020105f4a18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:07 +0000
Subject: [PATCH 111/121] fix: integer_range_iterator: x++ did not compile

---
 include/daw/iterator/daw_integer_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_integer_iterator.h b/include/daw/iterator/daw_integer_iterator.h
index 00877ce..251e1a6 100644
--- a/include/daw/iterator/daw_integer_iterator.h
+++ b/include/daw/iterator/daw_integer_iterator.h
@@ -39,7 +39,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr integer_range_iterator operator++( int ) const noexcept {
+		constexpr integer_range_iterator operator++( int ) noexcept {
 			integer_range_iterator tmp{ *this };
 			++current_value;
 			return tmp;
-- 
2.43.0


From 3b85af31fc1c0293db37a3ca347694e58965cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:07 +0000
Subject: [PATCH 112/121] fix: repeat_n_char_iterator: += went backward and -=
 forward

---
 include/daw/iterator/daw_repeat_n_char_iterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_repeat_n_char_iterator.h b/include/daw/iterator/daw_repeat_n_char_iterator.h
index 95db6fd..1e18cb8 100644
--- a/include/daw/iterator/daw_repeat_n_char_iterator.h
+++ b/include/daw/iterator/daw_repeat_n_char_iterator.h
@@ -72,12 +72,12 @@ namespace daw {
 		}
 
 		constexpr repeat_n_char_iterator const &operator+=( ptrdiff_t p ) noexcept {
-			m_position += p;
+			m_position -= p;
 			return *this;
 		}
 
 		constexpr repeat_n_char_iterator const &operator-=( ptrdiff_t p ) noexcept {
-			m_position -= p;
+			m_position += p;
 			return *this;
 		}
 
-- 
2.43.0


From b03420c63e965694b8636a98b331f37cb72c46c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:07 +0000
Subject: [PATCH 113/121] fix: find_one_iterator started at the first element
 whether it matched or not

---
 include/daw/iterator/daw_find_one_iterator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/daw/iterator/daw_find_one_iterator.h b/include/daw/iterator/daw_find_one_iterator.h
index 4bab784..433c4f8 100644
--- a/include/daw/iterator/daw_find_one_iterator.h
+++ b/include/daw/iterator/daw_find_one_iterator.h
@@ -68,6 +68,8 @@ namespace daw {
 			  m_last,
 			  find_iterator_impl::FilterProxy<Filters, std::is_class_v<Filters>>::
 			    filter( )... );
+			m_first = tmp.position;
+			m_last_index = tmp.index;
 		}
 
 		constexpr value_type operator*( ) {
@@ -124,7 +126,7 @@ namespace daw {
 		}
 	};
 
-	template<typename Iterator, typename IteratorLast, typename Filter>
-	find_one_iterator( Iterator, IteratorLast, Filter )
-	  -> find_one_iterator<Iterator, IteratorLast, Filter>;
+	template<typename Iterator, typename IteratorLast, typename... Filters>
+	find_one_iterator( Iterator, IteratorLast, Filters... )
+	  -> find_one_iterator<Iterator, IteratorLast, Filters...>;
 } // namespace daw
-- 
2.43.0


From e4dbe2622ffa179fb60a052368f893e31c5346bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:07 +0000
Subject: [PATCH 114/121] fix: pipelines iota_iterator::operator[] did not
 compile

---
 include/daw/pipelines/iota.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/iota.h b/include/daw/pipelines/iota.h
index 6183f0f..8ffcbc5 100644
--- a/include/daw/pipelines/iota.h
+++ b/include/daw/pipelines/iota.h
@@ -103,12 +103,14 @@ namespace daw::pipelines {
 		}
 
 		[[nodiscard]] constexpr reference operator[]( size_type n ) noexcept {
-			return *( value + static_cast<difference_type>( n ) );
+			return static_cast<value_type>(
+			  value + static_cast<difference_type>( n ) );
 		}
 
 		[[nodiscard]] constexpr const_reference
 		operator[]( size_type n ) const noexcept {
-			return *( value + static_cast<difference_type>( n ) );
+			return static_cast<value_type>(
+			  value + static_cast<difference_type>( n ) );
 		}
 
 		[[nodiscard]] friend constexpr bool operator==( iota_iterator const &lhs,
-- 
2.43.0


From a408be1bed4fa515f7043b3b83e097c63f2d8b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:40 +0000
Subject: [PATCH 115/121] fix: find_iterator did not compile with a function
 pointer

---
 include/daw/iterator/impl/daw_find_iterator_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/iterator/impl/daw_find_iterator_impl.h b/include/daw/iterator/impl/daw_find_iterator_impl.h
index dfd95bd..f92da21 100644
--- a/include/daw/iterator/impl/daw_find_iterator_impl.h
+++ b/include/daw/iterator/impl/daw_find_iterator_impl.h
@@ -40,6 +40,9 @@ namespace daw::find_iterator_impl {
 
 	template<typename Filter>
 	struct FilterProxy<Filter, false> {
+		explicit constexpr FilterProxy( Filter filt )
+		  : m_filter( filt ) {}
+
 	protected:
 		Filter m_filter;
 
-- 
2.43.0


From af85c597fe3e2d2419bda0844e86158ab23743a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:47 +0000
Subject: [PATCH 116/121] fix: make_function_iterator did not compile with an
 lvalue

---
 include/daw/iterator/daw_function_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_function_iterator.h b/include/daw/iterator/daw_function_iterator.h
index 9523c32..c2bbb15 100644
--- a/include/daw/iterator/daw_function_iterator.h
+++ b/include/daw/iterator/daw_function_iterator.h
@@ -63,6 +63,6 @@ namespace daw {
 	///
 	template<typename Function>
 	constexpr auto make_function_iterator( Function &&func ) {
-		return function_iterator<Function>( DAW_FWD( func ) );
+		return function_iterator<daw::remove_cvref_t<Function>>( DAW_FWD( func ) );
 	}
 } // namespace daw
-- 
2.43.0


From df1788d68d2d0ff2d2395c8619db7b57929a0e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:36 +0000
Subject: [PATCH 117/121] fix: fnv1a_hash_t of a character pointer sign
 extended the characters

---
 include/daw/daw_fnv1a_hash.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_fnv1a_hash.h b/include/daw/daw_fnv1a_hash.h
index 4622500..35b150b 100644
--- a/include/daw/daw_fnv1a_hash.h
+++ b/include/daw/daw_fnv1a_hash.h
@@ -127,7 +127,8 @@ namespace daw {
 		operator( )( char const *ptr ) const noexcept {
 			auto hash = fnv1a_impl::fnv_offset;
 			while( *ptr != '\0' ) {
-				hash = hash ^ static_cast<fnv1a_uint_t>( *ptr );
+				hash =
+				  hash ^ static_cast<fnv1a_uint_t>( static_cast<unsigned char>( *ptr ) );
 				hash *= fnv1a_impl::fnv_prime;
 				DAW_UNSAFE_BUFFER_FUNC_START
 				++ptr;
-- 
2.43.0


From 50b095380db220204db0fe607a711876140acb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:36 +0000
Subject: [PATCH 118/121] fix: metro::hash64 sign extended the last byte

---
 include/daw/daw_metro_hash.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_metro_hash.h b/include/daw/daw_metro_hash.h
index 8c7df3b..6b7a92e 100644
--- a/include/daw/daw_metro_hash.h
+++ b/include/daw/daw_metro_hash.h
@@ -116,7 +116,8 @@ namespace daw::metro {
 		}
 
 		if(not buff.empty( )) {
-			hash += static_cast<uint64_t>(buff.front( )) * k3;
+			hash += static_cast<uint64_t>(static_cast<unsigned char>(buff.front( ))) *
+				k3;
 			hash ^= metro_impl::rotr<37U>( hash ) * k1;
 			buff.remove_prefix( );
 		}
-- 
2.43.0


From 9804759c7bf12cba6e0227bf50f132bf80d1e039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:36 +0000
Subject: [PATCH 119/121] fix: siphash24 sign extended the bytes of char data
 and keys

---
 include/daw/daw_sip_hash.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_sip_hash.h b/include/daw/daw_sip_hash.h
index 7f3f0d9..6257328 100644
--- a/include/daw/daw_sip_hash.h
+++ b/include/daw/daw_sip_hash.h
@@ -52,14 +52,14 @@ namespace daw {
 		template<typename Byte>
 		constexpr uint64_t to_u64( Byte const *const ptr ) noexcept {
 			static_assert( sizeof( Byte ) == 1U );
-			return static_cast<uint64_t>( ptr[0] ) |
-			       static_cast<uint64_t>( ptr[1] ) << 8U |
-			       static_cast<uint64_t>( ptr[2] ) << 16U |
-			       static_cast<uint64_t>( ptr[3] ) << 24U |
-			       static_cast<uint64_t>( ptr[4] ) << 32U |
-			       static_cast<uint64_t>( ptr[5] ) << 40U |
-			       static_cast<uint64_t>( ptr[6] ) << 48U |
-			       static_cast<uint64_t>( ptr[7] ) << 56U;
+			return static_cast<uint64_t>( static_cast<uint8_t>( ptr[0] ) ) |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[1] ) ) << 8U |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[2] ) ) << 16U |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[3] ) ) << 24U |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[4] ) ) << 32U |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[5] ) ) << 40U |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[6] ) ) << 48U |
+			       static_cast<uint64_t>( static_cast<uint8_t>( ptr[7] ) ) << 56U;
 		}
 
 		template<typename Byte>
-- 
2.43.0


From 612326f74b18c95074b09cefdd8e0d140af87b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:36 +0000
Subject: [PATCH 120/121] fix: generic_hash of a pointer ignored what it points
 to

---
 include/daw/daw_generic_hash.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_generic_hash.h b/include/daw/daw_generic_hash.h
index 8971618..3184a6c 100644
--- a/include/daw/daw_generic_hash.h
+++ b/include/daw/daw_generic_hash.h
@@ -183,9 +183,9 @@ namespace daw {
 		template<typename T>
 		constexpr hash_value_t operator( )( T const *const ptr ) const noexcept {
 			auto hash = hash_init;
-			auto bptr = static_cast<uint8_t const *const>( ptr );
+			auto bptr = reinterpret_cast<uint8_t const *>( ptr );
 			for( std::size_t n = 0; n < sizeof( T ); ++n ) {
-				append_hash( hash, bptr[n] );
+				hash = append_hash( hash, bptr[n] );
 			}
 			return hash;
 		}
-- 
2.43.0


From c8046cc70965a6157feade43b62434a7ede91338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:59 +0000
Subject: [PATCH 121/121] fix: fnv1a_hash of a daw::string_view was ambiguous

---
 include/daw/daw_fnv1a_hash.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/daw_fnv1a_hash.h b/include/daw/daw_fnv1a_hash.h
index 35b150b..97e069c 100644
--- a/include/daw/daw_fnv1a_hash.h
+++ b/include/daw/daw_fnv1a_hash.h
@@ -186,8 +186,7 @@ namespace daw {
 	         std::enable_if_t<traits_is_sv::is_string_view_like_v<StringViewLike>,
 	                          std::nullptr_t> = nullptr>
 	[[nodiscard]] fnv1a_uint_t fnv1a_hash( StringViewLike &&sv ) {
-		using namespace std;
-		return fnv1a_hash( data( sv ), size( sv ) );
+		return fnv1a_hash( std::data( sv ), std::size( sv ) );
 	}
 
 	template<fnv1a_uint_t N>
-- 
2.43.0

