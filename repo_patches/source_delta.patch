From 23974877262258f9333a0effe4436ff4324e0d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 01/62] fix: make Vector::rbegin() and rend() compile and cover
 all components

---
 vmmlib/vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 4adc2de..b0e5bb7 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1574,7 +1574,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::reverse_iterator
 Vector< M, T >::rbegin()
 {
-    return array + M - 1;
+    return reverse_iterator( array + M );
 }
 
 
@@ -1582,7 +1582,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::reverse_iterator
 Vector< M, T >::rend()
 {
-    return array - 1;
+    return reverse_iterator( array );
 }
 
 
@@ -1590,7 +1590,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::const_reverse_iterator
 Vector< M, T >::rbegin() const
 {
-    return array + M - 1;
+    return const_reverse_iterator( array + M );
 }
 
 
@@ -1598,7 +1598,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::const_reverse_iterator
 Vector< M, T >::rend() const
 {
-    return array - 1;
+    return const_reverse_iterator( array );
 }
 
 
-- 
2.43.0


From b2620a1fe1674f67e8ae438996ab759375b2a733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 02/62] fix: let the free cross() deduce its template arguments

---
 vmmlib/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index b0e5bb7..97d0e98 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -462,7 +462,7 @@ inline T dot( const Vector< M, T >& first, const Vector< M, T >& second )
 
 
 template< size_t M, typename T >
-inline Vector< M, T > cross( const Vector< 3, T >& a, const Vector< 3, T >& b )
+inline Vector< M, T > cross( const Vector< M, T >& a, const Vector< M, T >& b )
 {
     return a.cross( b );
 }
-- 
2.43.0


From 2dda9347b8eb32c8206283a191dd7bb11dac1a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 03/62] fix: Vector::find_abs_max_index() returned the absolute
 minimum

---
 vmmlib/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 97d0e98..d7a64c7 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1497,7 +1497,7 @@ template< size_t M, typename T >
 size_t
 Vector< M, T >::find_abs_max_index() const
 {
-    return std::max_element( begin(), end(), vmml::math::abs_greater< T >() ) - begin();
+    return std::max_element( begin(), end(), vmml::math::abs_less< T >() ) - begin();
 }
 
 
-- 
2.43.0


From 289fa7cf63feb75381d6233c6066e1e5a8101a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 04/62] fix: compute_plane() must normalize the plane normal
 only

---
 vmmlib/vector.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index d7a64c7..6ce0158 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -484,8 +484,7 @@ inline Vector< 4, T > compute_plane( const Vector< 3, T >& a,
     const Vector< 3, T > cb = b - c;
     const Vector< 3, T > ba = a - b;
 
-    Vector< 4, T > plane = cb.cross( ba );
-    plane.normalize();
+    Vector< 4, T > plane = vmml::normalize( cb.cross( ba ));
     plane.w() = -plane.x() * a.x() - plane.y() * a.y() - plane.z() * a.z();
     return plane;
 }
-- 
2.43.0


From 6afa72c62f98d96673d6c200ca151ac9dae10ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 05/62] fix: Vector::operator== compared object bytes instead
 of components

---
 vmmlib/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 6ce0158..b44de49 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1307,7 +1307,7 @@ Vector< M, T >::project_point_onto_plane( const Vector< 3, TT >& point,
 template< size_t M, typename T >
 bool Vector< M, T >::operator==( const Vector< M, T >& other ) const
 {
-    return memcmp( array, other.array, sizeof( array )) == 0;
+    return std::equal( begin(), end(), other.begin( ));
 }
 
 
-- 
2.43.0


From 8062958ac2e318f56169c6d26210532448c02132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 06/62] fix: Vector::equals() was not reflexive for zero
 tolerance and wrapped for unsigned types

---
 vmmlib/vector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index b44de49..5f0355a 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1323,10 +1323,14 @@ bool
 Vector< M, T >::equals( const Vector< M, T >& other, T tolerance ) const
 {
     for( size_t index = 0; index < M; ++index )
-        if( fabs( at( index ) - other( index ) ) >= tolerance )
+    {
+        const T a_ = at( index );
+        const T b_ = other.at( index );
+        const T difference = a_ < b_ ? b_ - a_ : a_ - b_;
+        if( !( difference <= tolerance ))
             return false;
+    }
     return true;
-
 }
 
 
-- 
2.43.0


From 337c9cf93347117b3ad17f863002a81dc945621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 07/62] fix: Vector::scale_to() ignored the given minimum

---
 vmmlib/vector.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 5f0355a..9e6d80a 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1447,13 +1447,12 @@ Vector< M, T >::scale_to( Vector< M, TT >& result_,
     T min_value, T max_value ) const
 {
     T range       = max_value-min_value;
-    T half_range  = range * 0.5;
     T scale       = ( 1.0 / range ) * static_cast< T >( std::numeric_limits< TT >::max() );
 
     for( size_t index = 0; index < M; ++index )
     {
         result_.at( index )
-            = static_cast< TT >( ( at( index ) + half_range ) * scale );
+            = static_cast< TT >( ( at( index ) - min_value ) * scale );
     }
 
 }
-- 
2.43.0


From 7096f854dcf0783a6e54c3bd56258d4aff7a5ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 08/62] fix: restore the stream flags after printing a Vector

---
 vmmlib/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 9e6d80a..1db5de6 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -348,7 +348,7 @@ public:
             os << std::setw(10) << vector_.at( index ) << " ";
         os << "]";
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     }
 
-- 
2.43.0


From 15d624fe05d7d20cfa29e230c19e5b1fff0bdf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 09/62] fix: Matrix::negate() ignored the matrix it negates

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 99c3069..6accd7f 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1217,7 +1217,7 @@ template< size_t M, size_t N, typename T >
 Matrix< M, N, T >
 Matrix< M, N, T >::negate() const
 {
-    Matrix< M, N, T > result;
+    Matrix< M, N, T > result( *this );
     result *= -1.0;
     return result;
 }
-- 
2.43.0


From 46a8d656bec04bf616953e316dd8a986d21dab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 10/62] fix: Matrix::operator[] accepted the row index one past
 the end

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 6accd7f..789cf03 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -439,7 +439,7 @@ public:
     inline row_accessor operator[]( size_t row_index )
     {
         #ifdef VMMLIB_SAFE_ACCESSORS
-        if ( row_index > M )
+        if ( row_index >= M )
             VMMLIB_ERROR( "row index out of bounds", VMMLIB_HERE );
         #endif
         return row_accessor( array + row_index );
-- 
2.43.0


From 73306b666a82491782dd9ffb3cf3e683011c4561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 11/62] fix: Matrix::get_max() returned 0 for all-negative
 matrices

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 789cf03..1c525da 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2353,7 +2353,7 @@ template< size_t M, size_t N, typename T  >
 T
 Matrix< M, N, T >::get_max() const
 {
-    T max_value = static_cast<T>(0);
+    T max_value = std::numeric_limits<T>::lowest();
 
     const_iterator  it = begin(),
     it_end = end();
-- 
2.43.0


From 277125e6d7c2bf643ef5760c2a770b2f7dfdb2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 12/62] fix: make Matrix::rbegin() and rend() compile and cover
 all elements

---
 vmmlib/matrix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 1c525da..4761e3b 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2182,7 +2182,7 @@ typename Matrix< M, N, T >::reverse_iterator
 Matrix< M, N, T >::
 rbegin()
 {
-    return array + size() - 1;
+    return reverse_iterator( array + size( ));
 }
 
 
@@ -2192,7 +2192,7 @@ typename Matrix< M, N, T >::reverse_iterator
 Matrix< M, N, T >::
 rend()
 {
-    return array - 1;
+    return reverse_iterator( array );
 }
 
 
@@ -2202,7 +2202,7 @@ typename Matrix< M, N, T >::const_reverse_iterator
 Matrix< M, N, T >::
 rbegin() const
 {
-    return array + size() - 1;
+    return const_reverse_iterator( array + size( ));
 }
 
 
@@ -2212,7 +2212,7 @@ typename Matrix< M, N, T >::const_reverse_iterator
 Matrix< M, N, T >::
 rend() const
 {
-    return array - 1;
+    return const_reverse_iterator( array );
 }
 
 
-- 
2.43.0


From 267f331d70f2134dec81b8bd3d4a533f607a2ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 13/62] fix: restore the stream flags after printing a Matrix

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 4761e3b..e0fe18b 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -470,7 +470,7 @@ public:
             os << "|" << std::endl;
         }
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     };
 
-- 
2.43.0


From 31a81b9da5c44b0058796fa840e1966b441dd939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 14/62] fix: Matrix::read_from_raw() leaked its buffer and
 stored unread bytes

---
 vmmlib/matrix.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index e0fe18b..0352acc 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2663,19 +2663,20 @@ Matrix< M, N, T >::read_from_raw( const std::string& dir_, const std::string& fi
                                         len_data % max_file_len : len_data;
             len_data -= len_read;
             infile.read( data, len_read );
+            len_read = size_t( infile.gcount( ));
 
             T* T_ptr = (T*)&(data[0]);
-            for( ; (it != it_end) && (len_read > 0); ++it, len_read -= sizeof(T) )
+            for( ; (it != it_end) && (len_read >= sizeof(T)); ++it, len_read -= sizeof(T) )
             {
                 *it = *T_ptr; ++T_ptr;
             }
         }
 
-        delete[] data;
         infile.close();
     } else {
         std::cout << "no file open" << std::endl;
     }
+    delete[] data;
 
 }
 
-- 
2.43.0


From 75afbf400f1769e839e82688567b73332ea72369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 15/62] fix: the 2x2 inverse accepted a zero determinant for
 tolerance 0

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 0352acc..656c02f 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -667,7 +667,7 @@ bool compute_inverse( const Matrix< 2, 2, T >& m_, Matrix< 2, 2, T >& inverse_,
                       T tolerance_ = std::numeric_limits<T>::epsilon())
 {
     const T det_ = compute_determinant( m_ );
-    if( fabs( det_ ) < tolerance_ )
+    if( fabs( det_ ) <= tolerance_ )
         return false;
 
     const T detinv = static_cast< T >( 1.0 ) / det_;
-- 
2.43.0


From 87d4f5e23f00a79e93157819c3fac5665a1aa8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 16/62] fix: Matrix::tensor() indexed its operands with each
 other's dimension

---
 vmmlib/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 656c02f..d5327db 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1230,8 +1230,8 @@ Matrix< M, N, T >::tensor( const Vector< M, T >& u, const Vector< N, T >& v )
 {
     for ( size_t col_index = 0; col_index < N; ++col_index )
         for ( size_t row_index = 0; row_index < M; ++row_index )
-            at( row_index, col_index ) = u.array[ col_index ] *
-                                         v.array[ row_index ];
+            at( row_index, col_index ) = u.array[ row_index ] *
+                                         v.array[ col_index ];
 }
 
 
-- 
2.43.0


From 4dd61cccc1522868302f916a0af97df9df7ed394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 17/62] fix: Matrix::convolve() mixed up rows and columns of
 non-square operands

---
 vmmlib/matrix.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index d5327db..4ec5467 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -529,27 +529,27 @@ void Matrix< M, N, T>::convolve(const Matrix< U, V, T >& kernel)
 {
     Matrix< M, N, T> temp;  // do not override original values instantly as old values are needed for calculation
 
-    for(size_t y_ = 0; y_ < N; ++y_)
+    for(size_t y_ = 0; y_ < M; ++y_)
     {
-        for(size_t x_ = 0; x_ < M; ++x_)
+        for(size_t x_ = 0; x_ < N; ++x_)
         {
             double sum = 0.0;
 
-            for(size_t j = 0; j < V; ++j)
+            for(size_t j = 0; j < U; ++j)
             {
-                int srcy = y_ - V/2 + j;
+                int srcy = y_ - U/2 + j;
 
                 // Extending border values
                 if(srcy < 0)       srcy = 0;
-                if(srcy >= int(N)) srcy = N-1;
+                if(srcy >= int(M)) srcy = M-1;
 
-                for(size_t i = 0; i < U; ++i)
+                for(size_t i = 0; i < V; ++i)
                 {
-                    int srcx = x_ - U/2 + i;
+                    int srcx = x_ - V/2 + i;
 
                     // Extending border values
                     if(srcx < 0)       srcx = 0;
-                    if(srcx >= int(M)) srcx = M-1;
+                    if(srcx >= int(N)) srcx = N-1;
 
                     sum += kernel.at(j,i) * at(srcy,srcx);
                 }
-- 
2.43.0


From fbb03068310458d01c6fec8cae53f068c5b27161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 18/62] fix: column-major Matrix::set() read past the end of
 the given range

---
 vmmlib/matrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 4ec5467..557c714 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1504,7 +1504,8 @@ void Matrix< M, N, T >::set( input_iterator_t begin_,
     }
     else
     {
-        std::copy( it, it + ( M * N ), begin() );
+        for( iterator out = begin(); out != end() && it != end_; ++out, ++it )
+            *out = static_cast< T >( *it );
     }
 }
 
-- 
2.43.0


From d4ad6247be4d90940343dfde8c5c7bfb46f9b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 19/62] fix: Matrix::equals() was not reflexive for zero
 tolerance and wrapped for unsigned types

---
 vmmlib/matrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 557c714..3425815 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -935,7 +935,9 @@ equals( const Matrix< M, N, T >& other, T tolerance ) const
     {
         for( size_t col_index = 0; is_ok && col_index < N; col_index++)
         {
-            is_ok = fabs( at( row_index, col_index ) - other( row_index, col_index ) ) < tolerance;
+            const T a_ = at( row_index, col_index );
+            const T b_ = other( row_index, col_index );
+            is_ok = ( a_ < b_ ? b_ - a_ : a_ - b_ ) <= tolerance;
         }
     }
     return is_ok;
-- 
2.43.0


From c9014574b46d923cc44835aec5ab328f68410da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 20/62] fix: is_positive_definite() did not compile for
 matrices smaller than 3x3

---
 vmmlib/matrix.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 3425815..15da1ef 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -803,16 +803,14 @@ bool is_positive_definite( const Matrix< M, N, T >& matrix_,
     // sylvester criterion
     if ( M > 1 )
     {
-        Matrix< 2, 2, T > m;
-        matrix_.get_sub_matrix( m, 0, 0 );
+        const Matrix< 2, 2, T > m( matrix_ );
         if ( compute_determinant( m ) < limit )
             return false;
     }
 
     if ( M > 2 )
     {
-        Matrix< 3, 3, T > m;
-        matrix_.get_sub_matrix( m, 0, 0 );
+        const Matrix< 3, 3, T > m( matrix_ );
         if ( compute_determinant( m ) < limit )
             return false;
     }
-- 
2.43.0


From e6086ca9caeb52ce91eb4542cd1a56e60e83f39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 21/62] fix: Matrix * scalar and Matrix / scalar were not
 usable on const matrices

---
 vmmlib/matrix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 15da1ef..9e6b805 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -144,10 +144,10 @@ public:
     //
     // matrix-scalar operations / scaling
     //
-    Matrix operator*( T scalar );
+    Matrix operator*( T scalar ) const;
     void operator*=( T scalar );
 
-    Matrix operator/( T scalar );
+    Matrix operator/( T scalar ) const;
     void operator/=( T scalar );
 
     //
@@ -1089,7 +1089,7 @@ Matrix< M, N, T >::operator*=( const Matrix< O, P, TT >& right )
 
 template< size_t M, size_t N, typename T >
 Matrix< M, N, T >
-Matrix< M, N, T >::operator/( T scalar )
+Matrix< M, N, T >::operator/( T scalar ) const
 {
     Matrix< M, N, T > result;
 
@@ -1124,7 +1124,7 @@ Matrix< M, N, T >::operator/=( T scalar )
 
 template< size_t M, size_t N, typename T >
 Matrix< M, N, T >
-Matrix< M, N, T >::operator*( T scalar )
+Matrix< M, N, T >::operator*( T scalar ) const
 {
     Matrix< M, N, T > result;
 
-- 
2.43.0


From 8d76aaa6626e20937bb3b68729f9420cb6000591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 22/62] fix: the Matrix magnitude queries narrowed long double
 to double

---
 vmmlib/matrix.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 9e6b805..e33cf70 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -667,7 +667,7 @@ bool compute_inverse( const Matrix< 2, 2, T >& m_, Matrix< 2, 2, T >& inverse_,
                       T tolerance_ = std::numeric_limits<T>::epsilon())
 {
     const T det_ = compute_determinant( m_ );
-    if( fabs( det_ ) <= tolerance_ )
+    if( std::fabs( det_ ) <= tolerance_ )
         return false;
 
     const T detinv = static_cast< T >( 1.0 ) / det_;
@@ -700,7 +700,7 @@ bool compute_inverse( const Matrix< 3, 3, T >& m_, Matrix< 3, 3, T >& inverse_,
         + m_.at( 0, 1 ) * inverse_.at( 1, 0 )
         + m_.at( 0, 2 ) * inverse_.at( 2, 0 );
 
-    if ( fabs( determinant ) <= tolerance_ )
+    if ( std::fabs( determinant ) <= tolerance_ )
         return false; // matrix is not invertible
 
     const T detinv = static_cast< T >( 1.0 ) / determinant;
@@ -767,7 +767,7 @@ bool compute_inverse( const Matrix< 4, 4, T >& m_,
    const T determinant = array[0] * inv_.array[0] + array[4] * inv_.array[1] +
                          array[8] * inv_.array[2] + array[12] * inv_.array[3];
 
-   if( fabs( determinant ) <= tolerance_ )
+   if( std::fabs( determinant ) <= tolerance_ )
         return false; // matrix is not invertible
 
    /* division: 16 multiplications, 1 division */
@@ -2378,8 +2378,8 @@ Matrix< M, N, T >::get_abs_min() const
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( fabs(*it) < fabs(min_value) ) {
-            min_value = fabs(*it);
+        if ( std::fabs(*it) < std::fabs(min_value) ) {
+            min_value = std::fabs(*it);
         }
     }
     return min_value;
@@ -2395,8 +2395,8 @@ Matrix< M, N, T >::get_abs_max() const
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( fabs(*it) > fabs(max_value) ) {
-            max_value = fabs(*it);
+        if ( std::fabs(*it) > std::fabs(max_value) ) {
+            max_value = std::fabs(*it);
         }
     }
     return max_value;
@@ -2432,7 +2432,7 @@ Matrix< M, N, T >::nnz( const T& threshold_ ) const
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( fabs(*it) > threshold_ ) {
+        if ( std::fabs(*it) > threshold_ ) {
             ++counter;
         }
     }
@@ -2448,7 +2448,7 @@ Matrix< M, N, T >::threshold( const T& threshold_value_ )
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( fabs(*it) <= threshold_value_ ) {
+        if ( std::fabs(*it) <= threshold_value_ ) {
             *it = static_cast<T> (0);
         }
     }
-- 
2.43.0


From 291f30984378163415d7a81ae45f6652006962d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 23/62] fix: Matrix::convolve() accumulated long double in
 double

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index e33cf70..7d46ab2 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -533,7 +533,7 @@ void Matrix< M, N, T>::convolve(const Matrix< U, V, T >& kernel)
     {
         for(size_t x_ = 0; x_ < N; ++x_)
         {
-            double sum = 0.0;
+            decltype( T() * double( )) sum = 0.0;
 
             for(size_t j = 0; j < U; ++j)
             {
-- 
2.43.0


From bac5274228fde6635a76164a1338f2fd31f4a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 24/62] fix: the 3x3 and 4x4 inverse overwrote their target
 before reporting a singular matrix

---
 vmmlib/matrix.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 7d46ab2..8bd84d7 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -680,9 +680,11 @@ bool compute_inverse( const Matrix< 2, 2, T >& m_, Matrix< 2, 2, T >& inverse_,
 
 
 template< typename T >
-bool compute_inverse( const Matrix< 3, 3, T >& m_, Matrix< 3, 3, T >& inverse_,
+bool compute_inverse( const Matrix< 3, 3, T >& m_, Matrix< 3, 3, T >& result_,
                       T tolerance_ = std::numeric_limits<T>::epsilon() )
 {
+    Matrix< 3, 3, T > inverse_; // leave result_ alone if m_ is singular
+
     // Invert a 3x3 using cofactors.  This is about 8 times faster than
     // the Numerical Recipes code which uses Gaussian elimination.
     inverse_.at( 0, 0 ) = m_.at( 1, 1 ) * m_.at( 2, 2 ) - m_.at( 1, 2 ) * m_.at( 2, 1 );
@@ -715,15 +717,17 @@ bool compute_inverse( const Matrix< 3, 3, T >& m_, Matrix< 3, 3, T >& inverse_,
     inverse_.at( 2, 1 ) *= detinv;
     inverse_.at( 2, 2 ) *= detinv;
 
+    result_ = inverse_;
     return true;
 }
 
 
 template< typename T >
 bool compute_inverse( const Matrix< 4, 4, T >& m_,
-    Matrix< 4, 4, T >& inv_,
+    Matrix< 4, 4, T >& result_,
     T tolerance_ = std::numeric_limits<T>::epsilon() )
 {
+    Matrix< 4, 4, T > inv_; // leave result_ alone if m_ is singular
     const T* array = m_.array;
 
     // tuned version from Claude Knaus
@@ -776,6 +780,7 @@ bool compute_inverse( const Matrix< 4, 4, T >& m_,
    for( size_t i = 0; i != 16; ++i )
        inv_.array[i] *= detinv;
 
+    result_ = inv_;
     return true;
 }
 
-- 
2.43.0


From e5554656b65cb72633f4a4e429b946e92d7c28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 25/62] fix: Matrix::set_sub_matrix() wrote elements before
 detecting a bad offset

---
 vmmlib/matrix.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 8bd84d7..1c43cb4 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1674,6 +1674,11 @@ Matrix< M, N, T >::
 set_sub_matrix( const Matrix< O, P, T >& sub_matrix,
     size_t row_offset, size_t col_offset )
 {
+    #ifdef VMMLIB_SAFE_ACCESSORS
+    if ( row_offset > M - O || col_offset > N - P )
+        VMMLIB_ERROR( "index out of bounds.", VMMLIB_HERE );
+    #endif
+
     for( size_t row = 0; row < O; ++row )
     {
         for( size_t col = 0; col < P; ++col )
-- 
2.43.0


From d8d48fd044046e576c3bd53d92ffa0549f14dbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 26/62] fix: the free multiply() was ambiguous for square
 matrices

---
 vmmlib/matrix.hpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 1c43cb4..67b27a4 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -513,16 +513,6 @@ bool equals( const Matrix< M, N, T >& m0, const Matrix< M, N, T >& m1,
 }
 
 
-template< size_t M, size_t N, typename T >
-inline void multiply( const Matrix< M, N, T >& left,
-                      const Matrix< M, N, T >& right,
-                      Matrix< M, N, T >& result )
-{
-    result.multiply( left, right );
-}
-
-
-
 template< size_t M, size_t N, typename T >
 template< size_t U, size_t V >
 void Matrix< M, N, T>::convolve(const Matrix< U, V, T >& kernel)
-- 
2.43.0


From 1a9762888e487a8d4b4c28e6c49a139c12675587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 27/62] fix: Matrix::operator*= with itself multiplied by a
 half-written operand

---
 vmmlib/matrix.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 67b27a4..b001e8d 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1077,8 +1077,9 @@ template< size_t O, size_t P, typename TT >
 typename enable_if< M == N && O == P && M == O, TT >::type*
 Matrix< M, N, T >::operator*=( const Matrix< O, P, TT >& right )
 {
-    Matrix< M, N, T > copy( *this );
-    multiply( copy, right );
+    Matrix< M, N, T > result; // right may be *this
+    result.multiply( *this, right );
+    *this = result;
     return 0;
 }
 
-- 
2.43.0


From 05d839e5a7d0b28ace57caecd010bef494e5135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 28/62] fix: inverting a 2x2 matrix into itself mixed old and
 new elements

---
 vmmlib/matrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index b001e8d..76da700 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -662,7 +662,9 @@ bool compute_inverse( const Matrix< 2, 2, T >& m_, Matrix< 2, 2, T >& inverse_,
 
     const T detinv = static_cast< T >( 1.0 ) / det_;
 
-    m_.get_adjugate( inverse_ ); // set inverse_ to the adjugate of M
+    Matrix< 2, 2, T > adjugate; // inverse_ may be m_
+    m_.get_adjugate( adjugate );
+    inverse_ = adjugate;
     inverse_ *= detinv;
     return true;
 }
-- 
2.43.0


From aff4fa91a7126dd5e4e6198b0cb4ba759c554c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 29/62] fix: pythag() used the double sqrt for long double

---
 vmmlib/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/math.hpp b/vmmlib/math.hpp
index 30d9013..a76e9a8 100644
--- a/vmmlib/math.hpp
+++ b/vmmlib/math.hpp
@@ -65,7 +65,7 @@ inline T pythag( T a, T b )
     if ( a > b )
         return a * std::sqrt( 1.0 + squared( b / a ) );
     else
-        return ( b == 0.0 ) ? 0.0 : b * sqrt( 1.0 + squared( a / b ) );
+        return ( b == 0.0 ) ? 0.0 : b * std::sqrt( 1.0 + squared( a / b ) );
 }
 
 
-- 
2.43.0


From 14cf6472c55209ac59d97af94f8ca6f4ac15e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 30/62] fix: Quaternion - vector returned its components in the
 wrong order

---
 vmmlib/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 9f04892..181b8fd 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -719,7 +719,7 @@ template < typename T >
 Quaternion< T >
 Quaternion< T >::operator-( const Vector< 3, T >& a ) const
 {
-    return Quaternion( w(), x() - a.x(), y() - a.y(), z() - a.z() );
+    return Quaternion( x() - a.x(), y() - a.y(), z() - a.z(), w() );
 }
 
 
-- 
2.43.0


From 1938e0c5d3bb28bc077d4c1e5abe90b70abacc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 31/62] fix: Quaternion * vector returned its components in the
 wrong order

---
 vmmlib/quaternion.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 181b8fd..ecb462f 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -728,10 +728,10 @@ template < typename T >
 Quaternion< T >
 Quaternion< T >::operator*( const Vector< 3, T >& a ) const
 {
-    return Quaternion( -x() * a.x() - y() * a.y() - z() * a.z(),
-                        w() * a.x() + y() * a.z() - z() * a.y(),
+    return Quaternion(  w() * a.x() + y() * a.z() - z() * a.y(),
                         w() * a.y() + z() * a.x() - x() * a.z(),
-                        w() * a.z() + x() * a.y() - y() * a.x()  );
+                        w() * a.z() + x() * a.y() - y() * a.x(),
+                       -x() * a.x() - y() * a.y() - z() * a.z()  );
 }
 
 
-- 
2.43.0


From 852198f75026a4e66175466a770cf14becc5491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 32/62] fix: Quaternion += vector added z to y

---
 vmmlib/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index ecb462f..3f8d28f 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -741,7 +741,7 @@ void Quaternion< T >::operator+=( const Vector< 3, T >& xyz )
 {
     x() += xyz.x();
     y() += xyz.y();
-    y() += xyz.z();
+    z() += xyz.z();
 }
 
 
-- 
2.43.0


From 1c34f7871efa490b078ecb00113f953045f75155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 33/62] fix: the quaternion of a half-turn matrix about x or z
 had the wrong sign of w

---
 vmmlib/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 3f8d28f..808bb75 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -308,7 +308,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
             z() = M( 0,2 ) + M( 2,0 );
             z() *= s;
 
-            w() = M( 1,2 ) - M( 2,1 );
+            w() = M( 2,1 ) - M( 1,2 );
             w() *= s;
         }
         else if ( largest == 1 )
@@ -337,7 +337,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
 
             z() = 0.25 / s;
 
-            w() = M( 0,1 ) - M( 1,0 );
+            w() = M( 1,0 ) - M( 0,1 );
             w() *= s;
         }
         else
-- 
2.43.0


From 373a8851320b4fcc5ea0a6f4c7bea21b2c521107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 34/62] fix: Quaternion::set( begin, end ) did not compile

---
 vmmlib/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 808bb75..cef6486 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -392,7 +392,7 @@ template < typename T >
 template< typename input_iterator_t >
 void Quaternion< T >::set( input_iterator_t begin_, input_iterator_t end_ )
 {
-    super::template set< input_iterator_t >( begin_, end_ );
+    super::template iter_set< input_iterator_t >( begin_, end_ );
 }
 
 
-- 
2.43.0


From d7576c8cdd78cb35d9880f98cd299957731de827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 35/62] fix: Quaternion::is_akin() compared in float precision

---
 vmmlib/quaternion.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index cef6486..a0b223c 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -457,10 +457,10 @@ template < typename T >
 bool
 Quaternion< T >::is_akin( const Quaternion& a, const T& delta )
 {
-    if( fabsf( w() - a.w() ) > delta ||
-        fabsf( x() - a.x() ) > delta ||
-        fabsf( y() - a.y() ) > delta ||
-        fabsf( z() - a.z() ) > delta
+    if( std::fabs( w() - a.w() ) > delta ||
+        std::fabs( x() - a.x() ) > delta ||
+        std::fabs( y() - a.y() ) > delta ||
+        std::fabs( z() - a.z() ) > delta
         )
         return false;
     return true;
-- 
2.43.0


From e73cd31e2ee638b3bc04c9a7a398db90ed08989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 36/62] fix: Quaternion::is_akin() and inverse() were not
 callable on const quaternions

---
 vmmlib/quaternion.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index a0b223c..23f1d19 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -111,7 +111,7 @@ public:
     bool operator!=( const Vector< 4, T >& a ) const;
 
     bool is_akin( const Quaternion& a,
-                 const T& delta = std::numeric_limits< T >::epsilon() );
+                 const T& delta = std::numeric_limits< T >::epsilon() ) const;
 
     void conjugate();
     Quaternion get_conjugate() const;
@@ -167,7 +167,7 @@ public:
     static T dot( const Quaternion< T >& a, const Quaternion< T >& b );
 
     // returns multiplicative inverse
-    Quaternion inverse();
+    Quaternion inverse() const;
 
     void normal( const Quaternion& aa, const Quaternion& bb, const Quaternion& cc,  const Quaternion& dd );
     Quaternion normal( const Quaternion& aa, const Quaternion& bb, const Quaternion& cc );
@@ -455,7 +455,7 @@ Quaternion< T >::operator!=( const Quaternion& rhs ) const
 
 template < typename T >
 bool
-Quaternion< T >::is_akin( const Quaternion& a, const T& delta )
+Quaternion< T >::is_akin( const Quaternion& a, const T& delta ) const
 {
     if( std::fabs( w() - a.w() ) > delta ||
         std::fabs( x() - a.x() ) > delta ||
@@ -504,7 +504,7 @@ T Quaternion< T >::squared_abs() const
 
 
 template < typename T >
-Quaternion< T > Quaternion< T >::inverse()
+Quaternion< T > Quaternion< T >::inverse() const
 {
     Quaternion< T > q( *this );
     q.conjugate();
-- 
2.43.0


From 434e9c6b687c68b9db57d37d881f6532e8339646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 37/62] fix: Quaternion norms, set() and slerp() used the
 double functions for long double

---
 vmmlib/quaternion.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 23f1d19..563e9ea 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -279,7 +279,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
     // very small traces may introduce a big numerical error
     if( trace > QUATERNION_TRACE_EPSILON )
     {
-        T s = 0.5 / sqrt( trace );
+        T s = 0.5 / std::sqrt( trace );
         x() = M( 2, 1 ) - M( 1, 2 );
         x() *= s;
 
@@ -299,7 +299,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
         // 0, 0 is largest
         if ( largest == 0 )
         {
-            T s = 0.5 / sqrt( 1.0 + M( 0, 0 ) - M( 1, 1 ) - M( 2, 2 ) );
+            T s = 0.5 / std::sqrt( 1.0 + M( 0, 0 ) - M( 1, 1 ) - M( 2, 2 ) );
             x() = 0.25 / s;
 
             y() = M( 0,1 ) + M( 1,0 );
@@ -313,7 +313,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
         }
         else if ( largest == 1 )
         {
-            T s = 0.5 / sqrt( 1.0 + M( 1,1 ) - M( 0,0 ) - M( 2,2 ) );
+            T s = 0.5 / std::sqrt( 1.0 + M( 1,1 ) - M( 0,0 ) - M( 2,2 ) );
             x() = M( 0,1 ) + M( 1,0 );
             x() *= s;
 
@@ -328,7 +328,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
         // 2, 2 is largest
         else if ( largest == 2 )
         {
-            T s = 0.5 / sqrt( 1.0 + M( 2,2 ) - M( 0,0 ) - M( 1,1 ) );
+            T s = 0.5 / std::sqrt( 1.0 + M( 2,2 ) - M( 0,0 ) - M( 1,1 ) );
             x() = M( 0,2 ) + M( 2,0 );
             x() *= s;
 
@@ -490,7 +490,7 @@ template < typename T >
 T
 Quaternion< T >::abs() const
 {
-    return sqrt( squared_abs() );
+    return std::sqrt( squared_abs() );
 }
 
 
@@ -935,13 +935,13 @@ slerp( T a, const Quaternion< T >& p, const Quaternion< T >& q, const T epsilon
         qx = -qx;
     }
 
-    const T abs_cos = static_cast< T >( fabs(cosine) );
+    const T abs_cos = static_cast< T >( std::fabs(cosine) );
     const T one_x   = static_cast< T >( 1. - epsilon );
     if( abs_cos < one_x )
     {
         // standard slerp
-        T sine = sqrt( 1. - ( cosine * cosine ) );
-        T angle = atan2( sine, cosine );
+        T sine = std::sqrt( 1. - ( cosine * cosine ) );
+        T angle = std::atan2( sine, cosine );
         T coeff1 = std::sin( ( 1.0 - a ) * angle) / sine;
         T coeff2 = std::sin( a * angle ) / sine;
 
-- 
2.43.0


From 5fa9b34fd4691435a2f2fed0bb00d57117518212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 38/62] fix: Quaternion::negate() was declared but not defined

---
 vmmlib/quaternion.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 563e9ea..b6c2723 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -623,6 +623,15 @@ void Quaternion< T >::operator*=( const Quaternion< T >& q )
 
 
 
+template < typename T >
+Quaternion< T >
+Quaternion< T >::negate() const
+{
+    return -( *this );
+}
+
+
+
 template < typename T >
 Quaternion< T >
 Quaternion< T >::operator-() const
-- 
2.43.0


From d276d9d3246b908b2977be4ed90857d5f2d2115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 39/62] fix: the Quaternion vector rotations did not compile

---
 vmmlib/quaternion.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index b6c2723..df6ad6b 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -852,8 +852,9 @@ Quaternion< T > Quaternion< T >::rotate( T theta, Vector< 3, T >& axis,
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) * axis.normalize() );
-    return q * p * q.invert();
+    axis.normalize();
+    Quaternion< T > q( axis * std::sin( alpha ), std::cos( alpha ));
+    return q * p * q.inverse();
 }
 
 
@@ -863,8 +864,9 @@ Quaternion< T > Quaternion< T >::rotate_x( T theta, const Vector< 3, T >& a )
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) *  QUATERI );
-    return q * p * q.invert();
+    Quaternion< T > q = QUATERI * std::sin( alpha );
+    q.w() = std::cos( alpha );
+    return q * p * q.inverse();
 }
 
 
@@ -874,8 +876,9 @@ Quaternion< T > Quaternion< T >::rotate_y( T theta, const Vector< 3, T >& a )
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) *  QUATERJ );
-    return q * p * q.invert();
+    Quaternion< T > q = QUATERJ * std::sin( alpha );
+    q.w() = std::cos( alpha );
+    return q * p * q.inverse();
 }
 
 
@@ -885,8 +888,9 @@ Quaternion< T > Quaternion< T >::rotate_z( T theta, const Vector< 3, T >& a )
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) *  QUATERK );
-    return q * p * q.invert();
+    Quaternion< T > q = QUATERK * std::sin( alpha );
+    q.w() = std::cos( alpha );
+    return q * p * q.inverse();
 }
 
 
-- 
2.43.0


From ec4dca3a4f246e3b9becc12a71ca1ef329c18d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 40/62] fix: Quaternion::set() did not accept a const vector

---
 vmmlib/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index df6ad6b..9afeacb 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -96,7 +96,7 @@ public:
     template< size_t D > void set( const Matrix< D, D, T >& rotation_matrix_ );
 
     void set( T ww, T xx, T yy, T zz);
-    void set( Vector< 3, T >& xyz, T w );
+    void set( const Vector< 3, T >& xyz, T w );
 
     template< typename input_iterator_t >
     void set( input_iterator_t begin_, input_iterator_t end_ );
@@ -378,7 +378,7 @@ void Quaternion< T >::set( T xx, T yy, T zz, T ww )
 
 
 template< typename T >
-void Quaternion< T >::set( Vector< 3, T >& xyz, T _w )
+void Quaternion< T >::set( const Vector< 3, T >& xyz, T _w )
 {
     x() = xyz.x();
     y() = xyz.y();
-- 
2.43.0


From df7bf7fa2cd5f4e169c1390b3257096078ee6488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 41/62] fix: Frustum::set_perspective() ignored the near plane

---
 vmmlib/frustum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/frustum.hpp b/vmmlib/frustum.hpp
index 76088dc..0cf636f 100644
--- a/vmmlib/frustum.hpp
+++ b/vmmlib/frustum.hpp
@@ -251,7 +251,7 @@ Frustum<T>::set_perspective( T fov_y, T aspect_ratio, T near_plane_,
     near_plane() = near_plane_;
     far_plane()   = far_plane_;
 
-    top()       = tan( 0.5 * fov_y * M_PI / 180.0 ) * 0.5;
+    top()       = tan( 0.5 * fov_y * M_PI / 180.0 ) * near_plane();
     bottom()    = - top();
 
     left()      = bottom() * aspect_ratio;
-- 
2.43.0


From dd68e169e03ea6be710dd4faf3c6971600957428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 42/62] fix: restore the stream flags after printing a Frustum

---
 vmmlib/frustum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/frustum.hpp b/vmmlib/frustum.hpp
index 0cf636f..41025f1 100644
--- a/vmmlib/frustum.hpp
+++ b/vmmlib/frustum.hpp
@@ -116,7 +116,7 @@ public:
            << std::setw(10) << f.near_plane()   << " "
            << std::setw(10) << f.far_plane()    << "]";
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     };
 
-- 
2.43.0


From 27a924e6754f1ffac18f5a59a0be023d91018129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 43/62] fix: Frustum used the double functions for long double

---
 vmmlib/frustum.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmmlib/frustum.hpp b/vmmlib/frustum.hpp
index 41025f1..f76f5ce 100644
--- a/vmmlib/frustum.hpp
+++ b/vmmlib/frustum.hpp
@@ -251,7 +251,7 @@ Frustum<T>::set_perspective( T fov_y, T aspect_ratio, T near_plane_,
     near_plane() = near_plane_;
     far_plane()   = far_plane_;
 
-    top()       = tan( 0.5 * fov_y * M_PI / 180.0 ) * near_plane();
+    top()       = std::tan( 0.5 * fov_y * M_PI / 180.0 ) * near_plane();
     bottom()    = - top();
 
     left()      = bottom() * aspect_ratio;
@@ -418,12 +418,12 @@ inline const T& Frustum< T >::far_plane() const
 
 template< typename T > inline T Frustum< T >::get_width() const
 {
-    return fabs( right() - left( ));
+    return std::fabs( right() - left( ));
 }
 
 template< typename T > inline T Frustum< T >::get_height() const
 {
-    return fabs( top() - bottom( ));
+    return std::fabs( top() - bottom( ));
 }
 
 
-- 
2.43.0


From fd88bf61216791b3c451f8b583a20b322534f3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 44/62] fix: FrustumCuller::test_aabb() used the double fabs
 for long double

---
 vmmlib/frustum_culler.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vmmlib/frustum_culler.hpp b/vmmlib/frustum_culler.hpp
index 432fd02..b338703 100644
--- a/vmmlib/frustum_culler.hpp
+++ b/vmmlib/frustum_culler.hpp
@@ -257,9 +257,9 @@ Visibility FrustumCuller< T >::_test_aabb( const vec4& plane,
 {
     // http://www.cescg.org/CESCG-2002/DSykoraJJelinek/index.html
     const T d = plane.dot( middle );
-    const T n = extent.x() * fabs( plane.x( )) +
-                extent.y() * fabs( plane.y( )) +
-                extent.z() * fabs( plane.z( ));
+    const T n = extent.x() * std::fabs( plane.x( )) +
+                extent.y() * std::fabs( plane.y( )) +
+                extent.z() * std::fabs( plane.z( ));
 
     if( d - n >= 0 )
         return VISIBILITY_FULL;
@@ -274,8 +274,8 @@ Visibility FrustumCuller< T >::test_aabb( const vec2& x, const vec2& y,
 {
     Visibility result = VISIBILITY_FULL;
     const vec3& middle = vec3( x[0] + x[1], y[0] + y[1], z[0] + z[1] ) * .5;
-    const vec3& extent = vec3( fabs(x[1] - x[0]), fabs(y[1] - y[0]),
-                               fabs(z[1] - z[0]) ) * .5;
+    const vec3& extent = vec3( std::fabs(x[1] - x[0]), std::fabs(y[1] - y[0]),
+                               std::fabs(z[1] - z[0]) ) * .5;
     switch( _test_aabb( _left_plane, middle, extent ))
     {
         case VISIBILITY_FULL: break;
-- 
2.43.0


From f9e54f63aeb6df1c589bd1e2808b12e256163fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 45/62] fix: AABB::isEmpty() compared the minimum z with the
 maximum x

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index bfab1f5..a1f4787 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -371,7 +371,7 @@ void AABB< T >::setEmpty()
 template< typename T > inline bool AABB< T >::isEmpty() const
 {
     return ( _min.x() >=  _max.x() || _min.y() >=  _max.y() ||
-             _min.z() >=  _max.x( ));
+             _min.z() >=  _max.z( ));
 }
 
 template< typename T >
-- 
2.43.0


From d6fb93b83157ba8cc294da8b7178c2a3a348f80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 46/62] fix: empty bounding boxes of long double and integers
 did not grow on merge

---
 vmmlib/aabb.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index a1f4787..449360f 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -114,7 +114,7 @@ inline std::ostream& operator << ( std::ostream& os,
 
 template< typename T > AABB< T >::AABB()
     : _min( std::numeric_limits< T >::max( ))
-    , _max( std::numeric_limits< T >::min( ))
+    , _max( std::numeric_limits< T >::lowest( ))
 {}
 
 template<> inline AABB< float >::AABB()
@@ -364,7 +364,7 @@ template< typename T >inline
 void AABB< T >::setEmpty()
 {
     _min = std::numeric_limits< T >::max();
-    _max = -std::numeric_limits< T >::max();
+    _max = std::numeric_limits< T >::lowest();
 }
 
 
-- 
2.43.0


From 4852d75e202c3d04f34b68e86a191a16fd0baf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 47/62] fix: the sphere functions of AABB did not compile

---
 vmmlib/aabb.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index 449360f..562413b 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -137,9 +137,9 @@ AABB< T >::AABB( const Vector< 3, T >& pMin,
 template< typename T >
 AABB< T >::AABB( const Vector< 4, T >& sphere )
 {
-    _max = _min = sphere.getCenter();
-    _max += sphere.getRadius();
-    _min -= sphere.getRadius();
+    _max = _min = Vector< 3, T >( sphere.x(), sphere.y(), sphere.z( ));
+    _max += sphere.w();
+    _min -= sphere.w();
 }
 
 template< typename T >
@@ -153,11 +153,11 @@ AABB< T >::AABB( T cx, T cy, T cz, T size )
 template< typename T >
 inline bool AABB< T >::isIn( const Vector< 4, T >& sphere )
 {
-    Vector< 3, T > sv ( sphere.getCenter() );
-    sv += sphere.getRadius();
+    Vector< 3, T > sv ( sphere.x(), sphere.y(), sphere.z( ));
+    sv += sphere.w();
     if ( sv.x() > _max.x() || sv.y() > _max.y() || sv.z() > _max.z() )
         return false;
-    sv -= sphere.getRadius() * 2.0f;
+    sv -= sphere.w() * 2.0f;
     if ( sv.x() < _min.x() || sv.y() < _min.y() || sv.z() < _min.z() )
         return false;
     return true;
-- 
2.43.0


From 42e651ac4eeab085972bdaabc6cf4b247bc57ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 48/62] fix: comparing AABBs of different types did not compile

---
 vmmlib/aabb.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index 562413b..d30e8dd 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -299,14 +299,14 @@ template< typename T > template< class U > bool
 AABB< T >::operator==( const AABB< U >& other )
     const
 {
-    return _min == other._min && _max == other._max;
+    return _min == other.getMin() && _max == other.getMax();
 }
 
 template< typename T > template< class U > bool
 AABB< T >::operator!=( const AABB< U >& other )
     const
 {
-    return _min != other._min || _max != other._max;
+    return _min != other.getMin() || _max != other.getMax();
 }
 
 template< typename T >
-- 
2.43.0


From 305f0c5404891a98267b47f6cc0141c8b40516e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 49/62] fix: AABB membership tests were not callable on const
 boxes

---
 vmmlib/aabb.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index d30e8dd..0914122 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -55,9 +55,9 @@ public:
     AABB( const Vector< 4, T >& sphere );
     AABB( T cx, T cy, T cz, T size );
 
-    bool isIn( const Vector< 3, T >& pos );
-    bool isIn2d( const Vector< 3, T >& pos ); // only x and y components are checked
-    bool isIn( const Vector< 4, T >& sphere );
+    bool isIn( const Vector< 3, T >& pos ) const;
+    bool isIn2d( const Vector< 3, T >& pos ) const; // only x and y components are checked
+    bool isIn( const Vector< 4, T >& sphere ) const;
 
     void set( const Vector< 3, T >& pMin, const Vector< 3, T >& pMax );
     void set( T cx, T cy, T cz, T size );
@@ -151,7 +151,7 @@ AABB< T >::AABB( T cx, T cy, T cz, T size )
 }
 
 template< typename T >
-inline bool AABB< T >::isIn( const Vector< 4, T >& sphere )
+inline bool AABB< T >::isIn( const Vector< 4, T >& sphere ) const
 {
     Vector< 3, T > sv ( sphere.x(), sphere.y(), sphere.z( ));
     sv += sphere.w();
@@ -164,7 +164,7 @@ inline bool AABB< T >::isIn( const Vector< 4, T >& sphere )
 }
 
 template< typename T >
-inline bool AABB< T >::isIn( const Vector< 3, T >& pos )
+inline bool AABB< T >::isIn( const Vector< 3, T >& pos ) const
 {
     if ( pos.x() > _max.x() || pos.y() > _max.y() || pos.z() > _max.z() ||
          pos.x() < _min.x() || pos.y() < _min.y() || pos.z() < _min.z( ))
@@ -175,7 +175,7 @@ inline bool AABB< T >::isIn( const Vector< 3, T >& pos )
 }
 
 template< typename T >
-inline bool AABB< T >::isIn2d( const Vector< 3, T >& pos )
+inline bool AABB< T >::isIn2d( const Vector< 3, T >& pos ) const
 {
     if ( pos.x() > _max.x() || pos.y() > _max.y() || pos.x() < _min.x() ||
          pos.y() < _min.y( ))
-- 
2.43.0


From 8d9ae973343b89cc6019f13ae4d324a447b56917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 50/62] fix: the centre of an integer AABB was its minimum

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index 0914122..16e67e2 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -312,7 +312,7 @@ AABB< T >::operator!=( const AABB< U >& other )
 template< typename T >
 Vector< 3, T > AABB< T >::getCenter() const
 {
-    return _min + ( ( _max - _min ) * 0.5f );
+    return _min + ( ( _max - _min ) / static_cast< T >( 2 ));
 }
 
 template< typename T >
-- 
2.43.0


From 4c3846eda2de42f4190a12d41ab5a3c664349a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 51/62] fix: Intersection::test_sphere() used the double sqrt
 for long double

---
 vmmlib/intersection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/intersection.hpp b/vmmlib/intersection.hpp
index b191cff..de4b7b0 100644
--- a/vmmlib/intersection.hpp
+++ b/vmmlib/intersection.hpp
@@ -105,7 +105,7 @@ Intersection< T >::test_sphere( const vec4& sphere, T& t ) const
         return false;
 
     /** Distance from the sphere center to the surface along the ray direction*/
-    const T distSurface = sqrt( sqRadius - sqCenterToProj );
+    const T distSurface = std::sqrt( sqRadius - sqCenterToProj );
 
     if(sqDistance > sqRadius)
         t = vecProjection - distSurface;
-- 
2.43.0


From 56788b982e55e43c9dcf334e5f3dbe4a06ad7cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 52/62] fix: LowpassFilter::get() returned an indeterminate
 value before the first add()

---
 vmmlib/lowpass_filter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/lowpass_filter.hpp b/vmmlib/lowpass_filter.hpp
index 59b083b..99512b5 100644
--- a/vmmlib/lowpass_filter.hpp
+++ b/vmmlib/lowpass_filter.hpp
@@ -52,7 +52,7 @@ public:
       Constructor
       @param[in]    F   Smooth factor to use during the filter process
      */
-    LowpassFilter( const float F ) : _smooth_factor(F) {}
+    LowpassFilter( const float F ) : _smooth_factor(F), _value() {}
     ~LowpassFilter() {}
 
     /**
-- 
2.43.0


From ee26b46f0ad56819e835a312bf753ad230b855df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 53/62] fix: lowpass_filter.hpp used size_t without including
 its header

---
 vmmlib/lowpass_filter.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vmmlib/lowpass_filter.hpp b/vmmlib/lowpass_filter.hpp
index 99512b5..1925d3b 100644
--- a/vmmlib/lowpass_filter.hpp
+++ b/vmmlib/lowpass_filter.hpp
@@ -41,6 +41,7 @@
 
 #include <vmmlib/vmmlib_config.hpp>
 
+#include <cstddef>
 #include <deque>
 
 namespace vmml
-- 
2.43.0


From 3da276d71436d3c8caf859ffe48140cad3de9e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 54/62] fix: equals() used the double fabs for long double

---
 vmmlib/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/util.hpp b/vmmlib/util.hpp
index d289dbf..f3c63ef 100644
--- a/vmmlib/util.hpp
+++ b/vmmlib/util.hpp
@@ -53,7 +53,7 @@ template< typename T, typename U >
 bool
 equals( T arg0, U arg1)
 {
-    return fabs( arg0 - arg1 ) < std::numeric_limits< float >::epsilon();
+    return std::fabs( arg0 - arg1 ) < std::numeric_limits< float >::epsilon();
 }
 
 
-- 
2.43.0


From 583cd718a3747e7740e210af2aff41775ce21781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 55/62] fix: vector.hpp used uint8_t without including its
 header

---
 vmmlib/vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 1db5de6..45566c0 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -45,6 +45,7 @@
 #include <cstring>
 #include <limits>
 #include <algorithm>
+#include <stdint.h>
 
 namespace vmml
 {
-- 
2.43.0


From ebc7db909941c7cc857665f2116198a4fa1cf964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 56/62] fix: the homogeneous product of a matrix accepted
 vectors of any dimension

---
 vmmlib/matrix.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 76da700..1bfcb01 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -159,7 +159,8 @@ public:
     // transform column vector by matrix ( vec = matrix * vec )
     // assume homogenous coords, e.g. vec3 = mat4x4 * vec3, with w = 1.0
     template< size_t O >
-    Vector< O, T > operator*( const Vector< O, T >& vector_ ) const;
+    typename enable_if< M == N && O == N - 1, Vector< O, T > >::type
+    operator*( const Vector< O, T >& vector_ ) const;
 
     inline Matrix< M, N, T > operator-() const;
     Matrix< M, N, T > negate() const;
@@ -1174,7 +1175,8 @@ Vector< M, T > Matrix< M, N, T >::operator*( const Vector< N, T >& vec ) const
 // transform vector by matrix ( vec = matrix * vec )
 // assume homogenous coords( for vec3 = mat4 * vec3 ), e.g. vec[3] = 1.0
 template< size_t M, size_t N, typename T >
-template< size_t O > Vector< O, T >
+template< size_t O >
+typename enable_if< M == N && O == N - 1, Vector< O, T > >::type
 Matrix< M, N, T >::operator*( const Vector< O, T >& vector_ ) const
 {
     Vector< O, T > result;
-- 
2.43.0


From db9eb341fd064759d32e7ba7d0606606ba52851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 57/62] fix: quaternions accepted rotation matrices smaller
 than 3x3

---
 vmmlib/quaternion.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 9afeacb..cd41a96 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -93,7 +93,8 @@ public:
     void zero();
     void identity();
 
-    template< size_t D > void set( const Matrix< D, D, T >& rotation_matrix_ );
+    template< size_t D >
+    typename enable_if< D >= 3 >::type set( const Matrix< D, D, T >& rotation_matrix_ );
 
     void set( T ww, T xx, T yy, T zz);
     void set( const Vector< 3, T >& xyz, T w );
@@ -185,7 +186,8 @@ public:
 
     Matrix< 3, 3, T > get_rotation_matrix() const;
 
-    template< size_t D > void get_rotation_matrix( Matrix< D, D, T >& result ) const;
+    template< size_t D >
+    typename enable_if< D >= 3 >::type get_rotation_matrix( Matrix< D, D, T >& result ) const;
 
     friend std::ostream& operator<< ( std::ostream& os, const Quaternion& q )
     {
@@ -272,7 +274,7 @@ Quaternion< T >::Quaternion( const Matrix< M, M, T >& rotation_matrix_,
 
  // top-left 3x3 is interpreted as rot matrix.
 template < typename T > template< size_t D >
-void Quaternion< T >::set( const Matrix< D, D, T >& M )
+typename enable_if< D >= 3 >::type Quaternion< T >::set( const Matrix< D, D, T >& M )
 {
     T trace = M( 0, 0 ) + M( 1, 1 ) + M( 2,2 ) + 1.0;
 
@@ -907,7 +909,7 @@ Quaternion< T >::get_rotation_matrix() const
 
 
 template < typename T > template< size_t D >
-void Quaternion< T >::get_rotation_matrix( Matrix< D, D, T >& M ) const
+typename enable_if< D >= 3 >::type Quaternion< T >::get_rotation_matrix( Matrix< D, D, T >& M ) const
 {
     T w2 = w() * w();
     T x2 = x() * x();
-- 
2.43.0


From 15c26e5c4e889895f7ac8f1a695af1e035ff2b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 58/62] fix: convert integer vectors from homogeneous
 coordinates by dividing, the reciprocal is zero

---
 vmmlib/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 45566c0..5e1d55b 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1366,10 +1366,10 @@ template< size_t M, typename T > template< size_t N >
 typename enable_if< N == M + 1 >::type*
 Vector< M, T >::operator=( const Vector< N, T >& source_ )
 {
-    const T w_reci = static_cast< T >( 1.0 ) / source_( M );
+    const T w = source_( M );
     iterator it = begin(), it_end = end();
     for( size_t index = 0; it != it_end; ++it, ++index )
-        *it = source_( index ) * w_reci;
+        *it = source_( index ) / w;
     return 0;
 }
 
-- 
2.43.0


From ab83b7e1046e0f2763492d329d3f79f9717de150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 59/62] fix: cross product into one of its operands

---
 vmmlib/vector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 5e1d55b..8c87662 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1109,9 +1109,13 @@ void Vector< M, T >::cross( const Vector< M, TT >& aa,
                             const Vector< M, TT >& bb,
                             typename enable_if< M == 3, TT >::type* )
 {
-    array[ 0 ] = aa.y() * bb.z() - aa.z() * bb.y();
-    array[ 1 ] = aa.z() * bb.x() - aa.x() * bb.z();
-    array[ 2 ] = aa.x() * bb.y() - aa.y() * bb.x();
+    // aa or bb may be *this
+    const T x_ = aa.y() * bb.z() - aa.z() * bb.y();
+    const T y_ = aa.z() * bb.x() - aa.x() * bb.z();
+    const T z_ = aa.x() * bb.y() - aa.y() * bb.x();
+    array[ 0 ] = x_;
+    array[ 1 ] = y_;
+    array[ 2 ] = z_;
 }
 
 
-- 
2.43.0


From acf312ca361dfe5bb5096b87822cd216ca48a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:21 +0000
Subject: [PATCH 60/62] fix: Vector::equals() wrapped the difference of small
 integers before comparing it

---
 vmmlib/vector.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 8c87662..92b7352 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1331,8 +1331,7 @@ Vector< M, T >::equals( const Vector< M, T >& other, T tolerance ) const
     {
         const T a_ = at( index );
         const T b_ = other.at( index );
-        const T difference = a_ < b_ ? b_ - a_ : a_ - b_;
-        if( !( difference <= tolerance ))
+        if( !(( a_ < b_ ? b_ - a_ : a_ - b_ ) <= tolerance ))
             return false;
     }
     return true;
-- 
2.43.0


From 4b71272e3ac1dda7f7528918d8de1d85c25ac5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:40 +0000
Subject: [PATCH 61/62] fix: the Boost.LA traits name the classes by names that
 exist by default

---
 vmmlib/matrix_traits.hpp | 4 ++--
 vmmlib/vector_traits.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vmmlib/matrix_traits.hpp b/vmmlib/matrix_traits.hpp
index ab453e9..7624ad6 100644
--- a/vmmlib/matrix_traits.hpp
+++ b/vmmlib/matrix_traits.hpp
@@ -43,9 +43,9 @@ namespace la
 {
 
 template<size_t M, size_t N, typename T>
-struct matrix_traits<vmml::matrix<M, N, T> >
+struct matrix_traits<vmml::Matrix<M, N, T> >
 {
-	typedef vmml::matrix<M, N, T> matrix_type;
+	typedef vmml::Matrix<M, N, T> matrix_type;
 
 	static const int rows = M;
 	static const int cols = N;
diff --git a/vmmlib/vector_traits.hpp b/vmmlib/vector_traits.hpp
index c349f24..dbf9afa 100644
--- a/vmmlib/vector_traits.hpp
+++ b/vmmlib/vector_traits.hpp
@@ -41,9 +41,9 @@ namespace la
 {
 
 template<size_t M, typename T>
-struct vector_traits<vmml::vector<M, T> >
+struct vector_traits<vmml::Vector<M, T> >
 {
-	typedef vmml::vector<M, T> vector_type;
+	typedef vmml::Vector<M, T> vector_type;
 
 	static const int dim = M;
 
-- 
2.43.0


From 0deb79d0d1d05c68d8e285765c8e0ddd117e32fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:40 +0000
Subject: [PATCH 62/62] fix: the Boost.LA matrix traits accessed the transposed
 element

---
 vmmlib/matrix_traits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vmmlib/matrix_traits.hpp b/vmmlib/matrix_traits.hpp
index 7624ad6..8946bc1 100644
--- a/vmmlib/matrix_traits.hpp
+++ b/vmmlib/matrix_traits.hpp
@@ -59,7 +59,7 @@ struct matrix_traits<vmml::Matrix<M, N, T> >
 		BOOST_STATIC_ASSERT(Row < rows);
 		BOOST_STATIC_ASSERT(Col >= 0);
 		BOOST_STATIC_ASSERT(Col < cols);
-		return m.at(Col, Row);
+		return m.at(Row, Col);
 	}
 
 	template<int Row, int Col>
@@ -69,7 +69,7 @@ struct matrix_traits<vmml::Matrix<M, N, T> >
 		BOOST_STATIC_ASSERT(Row < rows);
 		BOOST_STATIC_ASSERT(Col >= 0);
 		BOOST_STATIC_ASSERT(Col < cols);
-		return m.at(Col, Row);
+		return m.at(Row, Col);
 	}
 
 	static scalar_type ir(int row, int col, const matrix_type& m)
@@ -78,7 +78,7 @@ struct matrix_traits<vmml::Matrix<M, N, T> >
 		BOOST_ASSERT(row < rows);
 		BOOST_ASSERT(col >= 0);
 		BOOST_ASSERT(col < cols);
-		return m.at(col, row);
+		return m.at(row, col);
 	}
 
 	static scalar_type& iw(int row, int col, matrix_type& m)
@@ -87,7 +87,7 @@ struct matrix_traits<vmml::Matrix<M, N, T> >
 		BOOST_ASSERT(row < rows);
 		BOOST_ASSERT(col >= 0);
 		BOOST_ASSERT(col < cols);
-		return m.at(col, row);
+		return m.at(row, col);
 	}
 };
 
-- 
2.43.0

