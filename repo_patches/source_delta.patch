From a9460b73ec4e2ae28785b1dd631ed3a83fc4d766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:29 +0000
Subject: [PATCH 001/105] fix: bitfield::readUINTn/writeUINTn with zero bits
 shifted by the word width

A zero-bit access computed a 32-bit shift of a 32-bit value (undefined) and
could return or store bits that were not asked for. Zero bits now reads 0 and
is rejected on writes.
---
 src/bitfield.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitfield.cpp b/src/bitfield.cpp
index ae846b5..dbaa998 100644
--- a/src/bitfield.cpp
+++ b/src/bitfield.cpp
@@ -115,7 +115,7 @@ uint32_t bitfield::readUINTn( const size_t index,
 {
     uint32_t retValue = 0U;
 
-    if ( ( nullptr != field ) && ( xBits <= 32U ) ) {
+    if ( ( nullptr != field ) && ( xBits > 0U ) && ( xBits <= 32U ) ) {
         if ( 1U == xBits ) {
             retValue = static_cast<uint32_t>( readBit( index ) );
         }
@@ -137,7 +137,7 @@ bool bitfield::writeUINTn( const size_t index,
 {
     bool retValue = false;
 
-    if ( ( nullptr != field ) && ( xBits <= 32U ) ) {
+    if ( ( nullptr != field ) && ( xBits > 0U ) && ( xBits <= 32U ) ) {
         uint32_t w, wMask;
 
         if ( 1U == xBits ) {
-- 
2.43.0


From 29a084076fe4f3c5967fcbf87be4cb025723a935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:34 +0000
Subject: [PATCH 002/105] fix: tdl index access on a one-element delay line
 read past the buffer

---
 src/tdl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdl.cpp b/src/tdl.cpp
index fda5ca5..9ea5128 100644
--- a/src/tdl.cpp
+++ b/src/tdl.cpp
@@ -54,7 +54,7 @@ real_t tdl::getRecent( void ) const noexcept
 real_t tdl::getAtIndex( const size_t i ) const noexcept
 {
     /*cstat -MISRAC++2008-5-0-3*/
-    return ( ( wr >= rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
+    return ( ( wr > rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
                                                       : *( rd - i );
     /*cstat +MISRAC++2008-5-0-3*/
 }
@@ -71,7 +71,7 @@ const real_t& tdl::operator[]( int index ) noexcept
     /*cstat -MISRAC++2008-6-6-5*/
     if ( ( index >= 0 ) && ( i < itemCount ) ) {
         /*cstat -MISRAC++2008-5-0-3*/
-        return ( ( wr >= rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
+        return ( ( wr > rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
                                                           : *( rd - i );
         /*cstat +MISRAC++2008-5-0-3*/
     }
-- 
2.43.0


From f67d2a4fef5b22890622ee147ef35b5ab83c75db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:38 +0000
Subject: [PATCH 003/105] fix: smootherMWM1::setup checked its own empty state
 and never succeeded

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 4a39430..fc2e21f 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -87,7 +87,7 @@ bool smootherMWM1::setup( real_t *window,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) ) {
+    if ( ( nullptr != window ) && ( w_size > 0U ) ) {
         w = window;
         wsize = w_size;
         retValue = reset();
-- 
2.43.0


From eb6df40caf640d148cb538ded2918d650b01b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:43 +0000
Subject: [PATCH 004/105] fix: smootherMOR2 returned the outlier it had just
 rejected

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index fc2e21f..7cf053f 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -210,7 +210,7 @@ real_t smootherMOR2::smooth( const real_t x )
     m = sum/wsize;
     insertSample( xx );
 
-    return x;
+    return xx;
 }
 /*============================================================================*/
 bool smootherGMWF::setup( const real_t sg,
-- 
2.43.0


From d8dd51f89696a968301908f7c9641359a1fde4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:07 +0000
Subject: [PATCH 005/105] fix: smootherALNF read the previous weights past the
 end of the weights array

---
 src/smoother.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 7cf053f..17be5dc 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -403,11 +403,9 @@ real_t smootherALNF::smooth( const real_t x )
     }
     xe = discreteSystem::updateFIR( xx, n, x, w );
     if ( nullptr != w_1 ) {
-        real_t * const ww_1 = &w[ n ];
-
         for ( size_t i = 0U ; i < n ; ++i ) {
             const real_t w0 = w[ i ];
-            const real_t w1 = ww_1[ i ];
+            const real_t w1 = w_1[ i ];
 
             w[ i ] += ( alpha*( x - xe )*xx[ i ] ) + ( mu*( w0 - w1 ) );
             w_1[ i ] = w0;
-- 
2.43.0


From d9fc0e174ccd06b52b9b4ac90cfae73ea31784f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:11 +0000
Subject: [PATCH 006/105] fix: smootherALNF setup without momentum was always
 rejected

The overload without momentum forwards a zero momentum, which the setup check refused.
---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 17be5dc..c303f05 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -373,7 +373,7 @@ bool smootherALNF::setup( const real_t a,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m > 0.0_re ) && ( m < 1.0_re ) ) {
+    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m >= 0.0_re ) && ( m < 1.0_re ) ) {
         alpha = a;
         mu = m;
         xx = window;
-- 
2.43.0


From ba73dcd198c72d9dc85e72a6675713ddb8eb8fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:43 +0000
Subject: [PATCH 007/105] fix: an LTI system without saturation could not
 output zero or negative values

The default lower limit was the smallest positive float instead of the most negative one.
---
 src/include/ltisys.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/ltisys.hpp b/src/include/ltisys.hpp
index ee63527..d4451e7 100644
--- a/src/include/ltisys.hpp
+++ b/src/include/ltisys.hpp
@@ -189,7 +189,7 @@ namespace qlibs {
             size_t na{ 0U };
             size_t nb{ 0U };
             real_t b0{ 0.0_re };
-            real_t min{ REAL_MIN };
+            real_t min{ -REAL_MAX };
             real_t max{ REAL_MAX };
             void normalizeTransferFunction( real_t *num,
                                             real_t *den,
-- 
2.43.0


From eac6957533904a71620252f02d67fa8e68564ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:47 +0000
Subject: [PATCH 008/105] fix: discreteSystem normalised the numerator and
 denominator with swapped lengths

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index bdfc3c1..3da15e3 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -141,7 +141,7 @@ bool discreteSystem::setup( real_t *num,
         xd = x;
         a = &den[ 1 ];
         type = LTISYS_TYPE_DISCRETE;
-        normalizeTransferFunction( num, den, n_a, n_b );
+        normalizeTransferFunction( num, den, n_b, n_a );
         (void)setInitStates();
         retValue = true;
     }
-- 
2.43.0


From 0c2aa9c36a56db82a3d333632d06ab566e3c3db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:03 +0000
Subject: [PATCH 009/105] fix: discreteSystem read past the numerator when the
 denominator is longer

---
 src/ltisys.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 3da15e3..5700854 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -157,7 +157,11 @@ real_t discreteSystem::update( const real_t u )
     for ( size_t i = 0 ; i < na ; ++i ) {
         v -= a[ i ]*xd[ i ];
     }
-    return updateFIR( xd, n, v, b );
+    /*shift the states that are beyond the numerator coefficients*/
+    for ( size_t i = ( n - 1U ) ; i >= nb ; --i ) {
+        xd[ i ] = xd[ i - 1U ];
+    }
+    return updateFIR( xd, nb, v, b );
 }
 /*============================================================================*/
 bool continuousSystem::setup( real_t *num,
-- 
2.43.0


From 16b98e315efd70e5ab6e2e85424242572d6e071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:06 +0000
Subject: [PATCH 010/105] fix: continuousSystem dropped the direct feedthrough
 of biproper systems

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 5700854..5771d18 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -235,7 +235,7 @@ real_t continuousSystem::update( const real_t u )
         /*compute the remaining part of the output*/
     }
     /*get the output of the system*/
-    y += ( b[ 0 ] - ( a[ 0 ]*b0 ) )*xc[ 0 ];
+    y += ( ( b[ 0 ] - ( a[ 0 ]*b0 ) )*xc[ 0 ] ) + ( b0*u );
 
     return y;
 }
-- 
2.43.0


From 2d37f646e19b3982656da2eea9cd3b16ae762c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:10 +0000
Subject: [PATCH 011/105] fix: continuousSystem::setInitStates used the first
 value for every state

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 5771d18..afd9b97 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -196,7 +196,7 @@ bool continuousSystem::setInitStates( const real_t *xi )
     if ( isInitialized() ) {
         if ( nullptr != xi ) {
             for ( size_t i = 0U; i < n ; ++i ) {
-                xc[ i ].init( xi[ 0 ], xi[ 0 ], xi[ 0 ] );
+                xc[ i ].init( xi[ i ], xi[ i ], xi[ i ] );
             }
         }
         else {
-- 
2.43.0


From 3c896ed1842734f8483423495428ccd71495b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:39 +0000
Subject: [PATCH 012/105] fix: pidController::setup checked the old time step
 and accepted a non-positive one

---
 src/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pid.cpp b/src/pid.cpp
index d38fdef..b25ec87 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -14,7 +14,7 @@ bool pidController::setup( const real_t kc,
 {
     bool retValue = false;
 
-    if ( dt > 0.0_re ) {
+    if ( dT > 0.0_re ) {
         dt = dT;
         isInitialized = true;
         (void)setDerivativeFilter( 0.98_re );
-- 
2.43.0


From df4cf35961e95b087461f2d298d000d4addfb87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:07 +0000
Subject: [PATCH 013/105] fix: PID derivative term differentiated against the
 integrator's sample

The derivative of the weighted error was taken against the last integrator
input (unweighted error plus anti-windup feedback) instead of the previous
weighted error, so a constant signal had a non-zero derivative.
---
 src/include/pid.hpp | 10 ++++++++++
 src/pid.cpp         |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/include/pid.hpp b/src/include/pid.hpp
index b661adc..fc76ffa 100644
--- a/src/include/pid.hpp
+++ b/src/include/pid.hpp
@@ -141,6 +141,7 @@ namespace qlibs {
             real_t m, mInput;
             const real_t *yr{ nullptr };
             real_t alpha, gamma; /*MRAC additive controller parameters*/
+            nState d_state; /*Derivative state*/
             nState m_state; /*MRAC additive controller state*/
             nState b_state; /*Bumpless-transfer state*/
             pidAutoTuning *adapt{ nullptr };
@@ -157,6 +158,15 @@ namespace qlibs {
             virtual ~pidController() {}
             pidController() = default;
 
+            /**
+            * @brief Set the derivation method used by the derivative term.
+            * @param[in] m The desired derivation method.
+            */
+            inline void setDerivationMethod( derivationMethod m ) noexcept
+            {
+                d_state.setDerivationMethod( m );
+            }
+
             /**
             * @brief Setup and initialize the PID controller instance.
             * @param[in] kc Proportional Gain.
diff --git a/src/pid.cpp b/src/pid.cpp
index b25ec87..dbb2abe 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -217,6 +217,7 @@ bool pidController::reset( void ) noexcept
 
     if ( isInitialized ) {
         init(); //internal controller state
+        d_state.init();
         m_state.init();
         b_state.init();
         D = 0.0_re;
@@ -285,7 +286,7 @@ real_t pidController::control( const real_t w,
             kd = ( kd > 0.0_re ) ? -kd : kd;
         }
         e = error( w, y );
-        de = derive( error( w, y, c ) , dt, false );
+        de = d_state.derive( error( w, y, c ) , dt );
         ie = integrate( e + u1 , dt );
         D = de + beta*( D - de ); /*derivative filtering*/
         v  = ( kc*error( w, y, b ) ) + ( ki*ie ) + ( kd*D ); /*compute PID action*/
-- 
2.43.0


From f121b72db9937036c3f6b45294f8638a7285910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:41 +0000
Subject: [PATCH 014/105] fix: algorithm::sort with a comparator compared
 against a moving element

---
 src/include/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 372bd5f..7cc450c 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -118,7 +118,7 @@ namespace qlibs {
 
                     for ( int i = start; i < end; ++i ) {
                         if ( nullptr != comp ) {
-                            if ( comp( array[ i ], array[ pivotIndex ] ) ) {
+                            if ( comp( array[ i ], pivotValue ) ) {
                                 algorithm::swap( array[ i ], array[ pivotIndex ] );
                                 ++pivotIndex;
                             }
-- 
2.43.0


From 0883d16a4b84d48849d10c03066e825afa0f5979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:45 +0000
Subject: [PATCH 015/105] fix: algorithm::replace and replace_if stopped after
 the first match

---
 src/include/algorithm.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 7cc450c..f37c842 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -327,7 +327,6 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( old_value == array[ i ] ) {
                     array[ i ] = new_value;
-                    break;
                 }
             }
         }
@@ -354,7 +353,6 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( pred( array[ i ] ) ) {
                     array[ i ] = new_value;
-                    break;
                 }
             }
         }
-- 
2.43.0


From 81d36c2c3b2416a2e2793a2170008e052d29c2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:49 +0000
Subject: [PATCH 016/105] fix: algorithm::find_if returned the last match
 instead of the first

---
 src/include/algorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index f37c842..cadeb68 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -411,6 +411,7 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( pred( array[ i ] ) ) {
                     found = &array[ i ];
+                    break;
                 }
             }
             return found;
-- 
2.43.0


From 236af3559477d6d61898a262e1e60e25b03b3ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:02 +0000
Subject: [PATCH 017/105] fix: algorithm::rotate to the left by a multiple of
 the size ran out of bounds

The number of positions of INT_MIN was also computed with a signed overflow.
---
 src/include/algorithm.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index cadeb68..a4ddd0c 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -185,12 +185,14 @@ namespace qlibs {
                 }
                 else {
                     /*cstat -MISRAC++2008-5-0-9*/
-                    r = static_cast<size_t>( -k );
+                    r = 0U - static_cast<size_t>( k );
                     /*cstat +MISRAC++2008-5-0-9*/
                     r %= n;
-                    algorithm::reverse( array, 0U, r - 1U );
-                    algorithm::reverse( array, r, n - 1U );
-                    algorithm::reverse( array, 0U, n - 1U );
+                    if ( r > 0U ) {
+                        algorithm::reverse( array, 0U, r - 1U );
+                        algorithm::reverse( array, r, n - 1U );
+                        algorithm::reverse( array, 0U, n - 1U );
+                    }
                 }
             }
         }
-- 
2.43.0


From a7aee876bc5a5f795fe2ac6a2cca0c1c613a5925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:18 +0000
Subject: [PATCH 018/105] fix: mat prefix operator-- incremented the elements

---
 src/include/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 680733f..f2c6255 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -257,7 +257,7 @@ namespace qlibs {
             {
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        ++m[i][j];
+                        --m[i][j];
                     }
                 }
                 return *this;
-- 
2.43.0


From d34c148d5ca79882ff6bbfa8d7d5fedf68197581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:35 +0000
Subject: [PATCH 019/105] fix: mat::normInf swapped rows and columns and read
 out of bounds

---
 src/include/mat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index f2c6255..117c308 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -470,9 +470,9 @@ namespace qlibs {
                 size_t i,j;
                 real_t maxM =0.0_re, sum = 0.0_re;
 
-                for ( i = 0U ; i < Cols; i++ ) {
+                for ( i = 0U ; i < Rows; i++ ) {
                     sum = 0.0_re;
-                    for ( j = 0U ; j < Rows ; ++j ) {
+                    for ( j = 0U ; j < Cols ; ++j ) {
                         sum += ( m[i][j] < 0.0_re ) ? -m[i][j] : m[i][j];
                     }
                     if ( 0U == i ) {
-- 
2.43.0


From 63f6bfc81dc449ac1ee080be99584dfc67f3da1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:40 +0000
Subject: [PATCH 020/105] fix: mat::inv failed on invertible matrices with a
 zero pivot

Without row exchanges the elimination divided by a zero (or tiny) diagonal
element although the matrix has an inverse.
---
 src/include/mat.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 117c308..c60b7ca 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -445,6 +445,21 @@ namespace qlibs {
                 mat<Rows,Rows> I( MAT_IDENTITY );
 
                 for ( size_t i = 0; i < Rows; ++i ) {
+                    // Bring the row with the largest pivot to the diagonal
+                    size_t p = i;
+                    for ( size_t j = i + 1U; j < Rows; ++j ) {
+                        if ( ffmath::absf( X(j, i) ) > ffmath::absf( X(p, i) ) ) {
+                            p = j;
+                        }
+                    }
+                    for ( size_t j = 0; ( p != i ) && ( j < Rows ); ++j ) {
+                        const real_t x = X(i, j);
+                        const real_t y = I(i, j);
+                        X(i, j) = X(p, j);
+                        I(i, j) = I(p, j);
+                        X(p, j) = x;
+                        I(p, j) = y;
+                    }
                     real_t pivot = X(i, i);
                     // Make the diagonal element 1
                     for ( size_t j = 0; j < Rows; ++j ) {
-- 
2.43.0


From caf3db9e8d2cec723c81bbff73fd876eeac149e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:30 +0000
Subject: [PATCH 021/105] fix: sine interpolation always used the last interval
 of the table

---
 src/interp1.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index a40ecf6..994b605 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -177,6 +177,7 @@ real_t interp1::sine( const real_t x,
                     const real_t y1 = ty[ i];
                     const real_t w = 0.5_re - 0.5_re*ffmath::cos( ffmath::FFP_PI*( x - x0 )/( x1 - x0 ) );
                     y = y0 + w*( y1 - y0 );
+                    break;
                 }
             }
         }
-- 
2.43.0


From 7e721e49edf13befed2ea044fd074a801b0fd42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:46 +0000
Subject: [PATCH 022/105] fix: cubic interpolation in the first interval read
 before the table

---
 src/interp1.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 994b605..078510e 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -233,8 +233,9 @@ real_t interp1::cubic( const real_t x,
                     const real_t t = ( x - x0 )/h;
                     const real_t t2 = t*t;
                     const real_t t3 = t2*t;
+                    const real_t dy = ( i > 1U ) ? ( y0 - ty[ i - 2U ] ) : ( y1 - y0 );
                     y = ( 2.0_re*t3 - 3.0_re*t2 + 1.0_re )*y0 +
-                        ( t3 - 2.0_re*t2 + t )*h*( y0 - ty[ i - 2U ] ) +
+                        ( t3 - 2.0_re*t2 + t )*h*dy +
                         ( -2.0_re*t3 + 3.0_re*t2 )*y1 +
                         ( t3 - t2 )*h*( y1 - y0 );
                     break;
-- 
2.43.0


From e0ed906c23dba38a2268df1fa5f1367df5e20702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:50 +0000
Subject: [PATCH 023/105] fix: constrained spline overshot or returned NaN in
 the end intervals

The slope at each end must be 3/2 of the secant minus half the slope at the
neighbouring knot; the code subtracted an unrelated quotient that can overshoot
or divide by zero.
---
 src/interp1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 078510e..36046c8 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -421,13 +421,13 @@ real_t interp1::firstDerivate( const real_t * const tx,
         const real_t dx = tx[ 1 ] - tx[ 0 ];
         const real_t dy = ty[ 1 ] - ty[ 0 ];
         fd1_x = 1.5_re*( dy/dx );
-        fd1_x -= 1.0_re/( ( tx[ 2 ] - tx[ 0 ] )/( ty[ 2 ] - ty[ 0 ] ) + dx/dy );
+        fd1_x -= 0.5_re*firstDerivate( tx, ty, n, 1U );
     }
     else if ( n == i ) {
         const real_t dx = tx[ n ] - tx[ n - 1U ];
         const real_t dy = ty[ n ] - ty[ n - 1U ];
         fd1_x = 1.5_re*( dy/dx );
-        fd1_x -= 1.0_re/( ( tx[ n ] - tx[ n - 2U ] )/( ty[ n ] - ty[ n - 2U ] ) + ( dx/dy ) );
+        fd1_x -= 0.5_re*firstDerivate( tx, ty, n, n - 1U );
     }
     else {
         const real_t tmp1 = ( tx[ i + 1U ] - tx[ i ] )/( ty[ i + 1U ] - ty[ i ] );
-- 
2.43.0


From 79859b55d2e59de69129251342c30d9bd97954e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:07 +0000
Subject: [PATCH 024/105] fix: ffmath::rem returned nan for a zero dividend
 instead of a zero divisor

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 7bfd6ba..52c5ac2 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -404,7 +404,7 @@ float ffmath::frac( float x )
 float ffmath::rem( float x,
                    float y )
 {
-    return ( classification::FFP_ZERO == classify( x ) ) ? limits::nan()
+    return ( classification::FFP_ZERO == classify( y ) ) ? limits::nan()
                                                          : ( x - ( y*ffmath::trunc( x/y ) ) );
 }
 /*============================================================================*/
-- 
2.43.0


From ee5ee3847b06ce3e8084638cef48354ec961d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:10 +0000
Subject: [PATCH 025/105] fix: ffmath::inPolygon intersected the edges at the
 wrong ordinate

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 52c5ac2..f171667 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -800,7 +800,7 @@ bool ffmath::inPolygon( const float x,
             if ( ( px[ i ] > x ) != ( px[ j ] > x ) ) {
                 const float dx = px[ j ] - px[ i ];
                 const float dy = py[ j ] - py[ i ];
-                if ( y < ( ( dy*( x - px[ i ] ) )/( dx + py[ i ] ) ) ) {
+                if ( y < ( ( ( dy*( x - px[ i ] ) )/dx ) + py[ i ] ) ) {
                     retVal = !retVal;
                 }
             }
-- 
2.43.0


From ebfcf8378ded7b4eb27d9b1daa364746cc8739de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:15 +0000
Subject: [PATCH 026/105] fix: ffmath::erf did not approximate the error
 function

The logistic approximation must be scaled by two outside the quotient and its
constant is given for a base-2 exponential.
---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index f171667..fb24c67 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -829,8 +829,8 @@ float ffmath::erf( float x )
         retVal = 1.0F;
     }
     else {
-        x = ffmath::exp( 3.472034176F*x );
-        retVal = ( x/( ( absolute( x ) + 1.0F )*2.0F ) ) - 1.0F;
+        x = ffmath::exp2( 3.472034176F*x );
+        retVal = ( ( x/( absolute( x ) + 1.0F ) )*2.0F ) - 1.0F;
     }
 
     return retVal;
-- 
2.43.0


From e99e5f416dc87777a27b6deb49b8fae5d343a732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:18 +0000
Subject: [PATCH 027/105] fix: ffmath::cbrt and rCbrt of negative values used
 the sign bit as exponent

---
 src/ffmath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index fb24c67..b409270 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -248,13 +248,14 @@ static float compute_cbrt( float x , bool r )
     float retVal, y = 0.0F, c, d;
     const float k[ 3 ] = { 1.752319676F, 1.2509524245F, 0.5093818292F };
     constexpr float c13 = 1.0F/3.0F;
-    uint32_t i = bit_cast<uint32_t>( x );
+    uint32_t i;
     bool neg = false;
 
     if ( x < 0.0F ) {
         x = -x;
         neg = true;
     }
+    i = bit_cast<uint32_t>( x );
     i = 0x548C2B4BU - ( i/3U );
     y = bit_cast<float>( i );
     c = x*y*y*y;
-- 
2.43.0


From 0075fb9835bcddc250908e17ed708f4e72b2d594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:22 +0000
Subject: [PATCH 028/105] fix: ffmath::ldexp of zero, on overflow and on
 underflow

The exponent field was patched without range checks, so zero became a power of
two and an out-of-range result wrapped around instead of giving inf or the
rounded result.
---
 src/ffmath.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index b409270..91dd670 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -862,17 +862,23 @@ float ffmath::rexp( float x,
 float ffmath::ldexp( float x,
                      int32_t pw2 )
 {
-    uint32_t lu = bit_cast<uint32_t>( x );
-    uint32_t eu;
-    int32_t e = 0;
-
-    eu = ( lu >> 23U ) & 0x000000FFU;
-    e = bit_cast<int32_t>( eu );
-    e += pw2;
-    eu = bit_cast<uint32_t>( e );
-    lu = ( ( eu & 0xFFU ) << 23U ) | ( lu & 0x807FFFFFU );
+    /*every step but the last one is exact or out of range anyway*/
+    for ( int i = 0 ; ( i < 2 ) && ( pw2 > 127 ) ; ++i ) {
+        x *= 1.7014118346046923e+38F; /*2^127*/
+        pw2 -= 127;
+    }
+    for ( int i = 0 ; ( i < 2 ) && ( pw2 < -126 ) ; ++i ) {
+        x *= 1.9721522630525295e-31F; /*2^-102*/
+        pw2 += 102;
+    }
+    if ( pw2 > 127 ) {
+        pw2 = 127;
+    }
+    if ( pw2 < -126 ) {
+        pw2 = -126;
+    }
 
-    return bit_cast<float>( lu );
+    return x*bit_cast<float>( static_cast<uint32_t>( pw2 + 127 ) << 23U );
 }
 /*============================================================================*/
 float ffmath::hypot( float x,
-- 
2.43.0


From abfe06e250f30c6da6797cbd765b4576d2fffd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:26 +0000
Subject: [PATCH 029/105] fix: ffmath::rexp of zero and subnormal values

---
 src/ffmath.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 91dd670..141e27c 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -845,18 +845,30 @@ float ffmath::erfc( float x )
 float ffmath::rexp( float x,
                     int32_t *pw2 )
 {
-    uint32_t lu = bit_cast<uint32_t>( x );
+    const auto xClass = ffmath::classify( x );
+    uint32_t lu;
     uint32_t iu;
     int32_t i = 0;
 
-    iu  = ( lu >> 23U ) & 0x000000FFU;  /* Find the exponent (power of 2) */
-    i = bit_cast<int32_t>( iu );
-    i -= 0x7E;
-    pw2[ 0 ] = static_cast<int>( i );
-    lu &= 0x807FFFFFU; /* strip all exponent bits */
-    lu |= 0x3F000000U; /* mantissa between 0.5 and 1 */
+    if ( classification::FFP_ZERO == xClass ) {
+        pw2[ 0 ] = 0;
+    }
+    else {
+        if ( classification::FFP_SUBNORMAL == xClass ) {
+            x *= 16777216.0F; /* 2^24 : make it normal */
+            i = -24;
+        }
+        lu = bit_cast<uint32_t>( x );
+        iu  = ( lu >> 23U ) & 0x000000FFU;  /* Find the exponent (power of 2) */
+        i += bit_cast<int32_t>( iu );
+        i -= 0x7E;
+        pw2[ 0 ] = static_cast<int>( i );
+        lu &= 0x807FFFFFU; /* strip all exponent bits */
+        lu |= 0x3F000000U; /* mantissa between 0.5 and 1 */
+        x = bit_cast<float>( lu );
+    }
 
-    return bit_cast<float>( lu );
+    return x;
 }
 /*============================================================================*/
 float ffmath::ldexp( float x,
-- 
2.43.0


From 5f7661b220c6f7b8fe0c8d29621d49a5aeb7947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:29 +0000
Subject: [PATCH 030/105] fix: ffmath::hypot scaled by the wrong operand when
 the larger one is negative

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 141e27c..75cac46 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -904,7 +904,7 @@ float ffmath::hypot( float x,
         float a, b, an, bn;
         int32_t e = 0;
 
-        if ( x >= y ) {
+        if ( absolute( x ) >= absolute( y ) ) {
             a = x;
             b = y;
         }
-- 
2.43.0


From 915a15d1e9128fee041bd8317610ea6d8a85b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:05 +0000
Subject: [PATCH 031/105] fix: ffmath::exp2 converted nan to an integer

The conversion is undefined and reached by pow() with a negative base.
---
 src/ffmath.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 75cac46..cb709e4 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -522,7 +522,10 @@ float ffmath::exp2( float x )
 {
     float retVal;
 
-    if ( x <= -126.0F ) {
+    if ( ffmath::isNan( x ) ) {
+        retVal = limits::nan();
+    }
+    else if ( x <= -126.0F ) {
         retVal = 0.0F;
     }
     else if ( x > 128.0F ) {
-- 
2.43.0


From 0f596812225c18292626d0eb32aa32ba8aaae22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:08 +0000
Subject: [PATCH 032/105] fix: ffmath::exp2 overflowed half a binade below the
 largest float

---
 src/ffmath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index cb709e4..ee509b7 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -528,7 +528,7 @@ float ffmath::exp2( float x )
     else if ( x <= -126.0F ) {
         retVal = 0.0F;
     }
-    else if ( x > 128.0F ) {
+    else if ( x >= 128.0F ) {
         retVal = limits::infinity();
     }
     else {
@@ -536,6 +536,7 @@ float ffmath::exp2( float x )
         int32_t ep_i;
 
         ip = ffmath::floor( x + 0.5F );
+        ip = ( ip > 127.0F ) ? 127.0F : ip; /*2^128 is not representable*/
         fp = x - ip;
         /*cstat -CERT-FLP34-C -MISRAC++2008-5-0-21*/
         ep_i = ( static_cast<int32_t>( ip ) + 127 ) << 23;
-- 
2.43.0


From bded520cb2c67d3743250d65f46f59f714023e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:46 +0000
Subject: [PATCH 033/105] fix: ffmath::expint asymptotic series of large
 arguments stopped at its first term

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index ee509b7..94325b8 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2013,7 +2013,7 @@ static float expint_Ei_asymp( float x )
     for ( size_t i = 1U; i < maxIter; ++i ) {
         const float prev = term;
         /*cstat -CERT-FLP36-C*/
-        term *= -static_cast<float>( i )/x;
+        term *= static_cast<float>( i )/x;
         /*cstat +CERT-FLP36-C*/
         if ( ( term < limits::epsilon() ) || ( term >= prev ) ) {
             break;
-- 
2.43.0


From b4592b7c66243340ee95a82b49f6db1ef2e601e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:51 +0000
Subject: [PATCH 034/105] fix: ffmath::expint had the wrong sign in (-1,0)

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 94325b8..f9c9731 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2082,7 +2082,7 @@ static float expint_Ei( float x )
     if ( x < 0.0F ) {
         x = -x;
         if ( x < 1.0F ) {
-            y = expint_E1_series( x );
+            y = -expint_E1_series( x );
         }
         else if ( x < 100.F ) {
             y = -expint_En_cont_frac( 1, x );
-- 
2.43.0


From 9b030c8840f6698cb5d3e6c936252248cc49b8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:56 +0000
Subject: [PATCH 035/105] fix: ffmath::tanh of large negative values was nan

---
 src/ffmath.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index f9c9731..a226223 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -655,8 +655,17 @@ float ffmath::cosh( float x )
 /*============================================================================*/
 float ffmath::tanh( float x )
 {
-    x = ffmath::exp( -2.0F*x );
-    return ( 1.0F - x )/( 1.0F + x );
+    float retVal;
+
+    if ( absolute( x ) > 20.0F ) { /*avoid inf/inf*/
+        retVal = ( x > 0.0F ) ? 1.0F : -1.0F;
+    }
+    else {
+        x = ffmath::exp( -2.0F*x );
+        retVal = ( 1.0F - x )/( 1.0F + x );
+    }
+
+    return retVal;
 }
 /*============================================================================*/
 float ffmath::asinh( float x )
-- 
2.43.0


From 222b3632b76b2bf427a97da2aa4441cab5961a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:01 +0000
Subject: [PATCH 036/105] fix: ffmath::asinh of large negative values was -inf
 or nan

---
 src/ffmath.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index a226223..b1a1ecf 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -670,7 +670,9 @@ float ffmath::tanh( float x )
 /*============================================================================*/
 float ffmath::asinh( float x )
 {
-    return ffmath::log( x + ffmath::sqrt( ( x*x ) + 1.0F ) );
+    const float abs_x = absolute( x ); /*avoid cancellation for negative values*/
+
+    return ffmath::copysign( ffmath::log( abs_x + ffmath::sqrt( ( x*x ) + 1.0F ) ), x );
 }
 /*============================================================================*/
 float ffmath::acosh( float x )
-- 
2.43.0


From 0327310e7b1f1c0f314d78f2675ee65909f31b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:39 +0000
Subject: [PATCH 037/105] fix: ffmath::assoc_laguerre used the large-degree
 approximation for every degree

For usual degrees that asymptotic expansion is wrong by orders of magnitude; the
recurrence must be used.
---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index b1a1ecf..9f8b90e 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1441,10 +1441,10 @@ float ffmath::assoc_laguerre( size_t n,
         }
         y = prod;
     }
-    else if ( ( alpha > -1.0F ) && ( x < ( ( 2.0F*( alpha + 1.0F ) ) + ( 4.0F*N ) ) ) ) {
+    else if ( ( n > 10000000U ) && ( alpha > -1.0F ) && ( x < ( ( 2.0F*( alpha + 1.0F ) ) + ( 4.0F*N ) ) ) ) {
         y = poly_laguerre_large_n( n, alpha, x );
     }
-    else if ( ( ( x > 0.0F ) && ( alpha < -( N + 1.0F ) ) ) ) {
+    else if ( ( alpha >= 0.0F ) || ( ( x > 0.0F ) && ( alpha < -( N + 1.0F ) ) ) ) {
         y = poly_laguerre_recursion( n, alpha, x );
     }
     else {
-- 
2.43.0


From fd39f3cf17e5634e31eaf7e2cee2c1935fee4cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:43 +0000
Subject: [PATCH 038/105] fix: ffmath::assoc_legendre recurrence divided only
 its second term

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 9f8b90e..d9183cf 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1541,7 +1541,7 @@ float ffmath::assoc_legendre( size_t n,
                 for ( size_t i = ( m + 2U ) ; i <= n ; ++i ) {
                     const float j = static_cast<float>( i );
                     /*cstat +CERT-FLP36-C*/
-                    p_lm = ( ( ( 2.0F*j ) - 1.0F )*x*p_lm1m ) - ( ( j + M - 1.0F )*p_lm2m/( j - M ) );
+                    p_lm = ( ( ( ( 2.0F*j ) - 1.0F )*x*p_lm1m ) - ( ( j + M - 1.0F )*p_lm2m ) )/( j - M );
                     p_lm2m = p_lm1m;
                     p_lm1m = p_lm;
                 }
-- 
2.43.0


From 8b27abf8f2135c9ba27510f6736dc06ad57854bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:59 +0000
Subject: [PATCH 039/105] fix: ffmath::assoc_laguerre at zero dropped the last
 factor

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index d9183cf..055b049 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1433,7 +1433,7 @@ float ffmath::assoc_laguerre( size_t n,
     }
     else if ( ffmath::isEqual( 0.0F, x ) ) {
         float prod = alpha + 1.0F;
-        for ( size_t i = 2U ; i < n ; ++i ) {
+        for ( size_t i = 2U ; i <= n ; ++i ) {
             /*cstat -CERT-FLP36-C*/
             const float k = static_cast<float>( i );
             /*cstat +CERT-FLP36-C*/
-- 
2.43.0


From 972cea150720afb83a105dafafd45dd1bf059b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:26 +0000
Subject: [PATCH 040/105] fix: modified Bessel functions started a continued
 fraction with a stale term

---
 src/ffmath.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 055b049..ed46812 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2700,6 +2700,10 @@ static void bessel_ik( float nu,
             k_nu1 = sum1*xi2;
         }
         else {
+            b = 2.0F*( 1.0F + x );
+            d = 1.0F/b;
+            h = d;
+
             float del_h = d;
             float q1 = 0.0F;
             float q2 = 1.0F;
@@ -2708,9 +2712,6 @@ static void bessel_ik( float nu,
             float a = -a1;
             float s = 1.0F + ( q*del_h );
 
-            b = 2.0F*( 1.0F + x );
-            d = 1.0F/b;
-            h = d;
             c = a1;
             for ( int i = 2 ; i <= max_iter; ++i) {
                 /*cstat -CERT-FLP36-C*/
-- 
2.43.0


From c4adbec5c95b4717db417006cbd0b79419aaf605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:12 +0000
Subject: [PATCH 041/105] fix: fp16 division negated the overflow value when
 the quotient is -32768

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 7a42099..c399a7c 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -233,7 +233,7 @@ fp16Raw_t fp16::div( const fp16Raw_t x,
 
             retValue = static_cast<fp16Raw_t>( quotient );
             if ( 0U != ( static_cast<uint32_t>( x ^ y ) & overflow_mask ) ) {
-                if ( quotient == static_cast<uint32_t>( Min ) ) {
+                if ( quotient == static_cast<uint32_t>( overflow ) ) {
                     retValue = overflow;
                 }
                 else {
-- 
2.43.0


From fdbcc1b3e465112cab9fb2be80468713b5255db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:16 +0000
Subject: [PATCH 042/105] fix: fp16::absolute of the minimum value reported an
 overflow

The magnitude of the minimum is the maximum; the value that has none is the overflow.
---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index c399a7c..ccb7358 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -250,7 +250,7 @@ fp16Raw_t fp16::absolute( fp16Raw_t x ) noexcept
 {
     fp16Raw_t retValue;
 
-    if ( x == Min ) {
+    if ( x == overflow ) {
         retValue = overflow;
     }
     else {
-- 
2.43.0


From 3ff2e4909d199f908a4e97eff0a7d5545a856b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:20 +0000
Subject: [PATCH 043/105] fix: fp16 unary minus overflowed on the overflow
 value

---
 src/include/fp16.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fp16.hpp b/src/include/fp16.hpp
index 04de4ee..cbf74e7 100644
--- a/src/include/fp16.hpp
+++ b/src/include/fp16.hpp
@@ -149,7 +149,7 @@ namespace qlibs {
             }
             inline fp16 operator-() const noexcept
             {
-                return fp16( { -value } );
+                return fp16( { ( overflow == value ) ? overflow : -value } );
             }
             inline fp16& operator-=( const fp16 &other ) noexcept
             {
-- 
2.43.0


From 030bc55306b6c8fd20c0e65da340c31db51ce1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:24 +0000
Subject: [PATCH 044/105] fix: fp16::ceil overflowed above the largest integer

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index ccb7358..1953df0 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -265,7 +265,7 @@ fp16Raw_t fp16::ceil( fp16Raw_t x ) noexcept
     const fp16Raw_t i = x & static_cast<fp16Raw_t>( integer_mask );
     const fp16Raw_t f = x & static_cast<fp16Raw_t>( fraction_mask );
 
-    return ( 0 != f ) ? i + one : i;
+    return ( 0 != f ) ? add( i, one ) : i;
 }
 /*============================================================================*/
 fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
-- 
2.43.0


From 0751a3fe2fed8525668f86862cd9d1f3d45a1232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:27 +0000
Subject: [PATCH 045/105] fix: fp16::cos overflowed for angles close to the
 maximum

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 1953df0..fd5e964 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -548,7 +548,7 @@ fp16Raw_t fp16::sin( fp16Raw_t x ) noexcept
 /*============================================================================*/
 fp16Raw_t fp16::cos( fp16Raw_t x ) noexcept
 {
-    return sin( x + f_pi_2 );
+    return sin( wrapToPi( x ) + f_pi_2 );
 }
 /*============================================================================*/
 fp16Raw_t fp16::tan( fp16Raw_t x ) noexcept
-- 
2.43.0


From f263301a4045feef6d015566602c9ecfa0fb5066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:11 +0000
Subject: [PATCH 046/105] fix: fp16 product of operands whose cross terms
 exceed 32 bits

---
 src/fp16.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index fd5e964..540b0c6 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -147,7 +147,7 @@ fp16Raw_t fp16::mul( const fp16Raw_t x,
                      const fp16Raw_t y ) noexcept
 {
     fp16Raw_t retValue = overflow;
-    fp16Raw_t a, c, ac, ad_cb, mulH;
+    fp16Raw_t a, c, ac, ad, cb, mulH;
     uint32_t b, d, bd, tmp, mulL;
 
     a = ( x >> 16 );
@@ -155,10 +155,13 @@ fp16Raw_t fp16::mul( const fp16Raw_t x,
     b = static_cast<uint32_t>( x & 0xFFFF );
     d = static_cast<uint32_t>( y & 0xFFFF );
     ac = a*c;
-    ad_cb = static_cast<fp16Raw_t>( ( static_cast<uint32_t>( a )*d ) + ( static_cast<uint32_t>( c )*b ) );
+    ad = a*static_cast<fp16Raw_t>( d );
+    cb = c*static_cast<fp16Raw_t>( b );
     bd = b*d;
-    mulH = ac + ( ad_cb >> 16 );
-    tmp = static_cast<uint32_t>( ad_cb ) << 16;
+    mulH = ac + ( ad >> 16 ) + ( cb >> 16 );
+    tmp = ( static_cast<uint32_t>( ad ) & 0xFFFFU ) + ( static_cast<uint32_t>( cb ) & 0xFFFFU );
+    mulH += static_cast<fp16Raw_t>( tmp >> 16 );
+    tmp <<= 16;
     mulL = bd + tmp;
     if ( mulL < bd ) {
         ++mulH;
-- 
2.43.0


From 0d2764f53ab7ce2ff0f795be11f93ffdde77ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:15 +0000
Subject: [PATCH 047/105] fix: fp16 product rounding up at the largest value
 overflowed a signed integer

---
 src/fp16.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 540b0c6..166499c 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -179,8 +179,7 @@ fp16Raw_t fp16::mul( const fp16Raw_t x,
             if ( mulL > tmp2 ) {
                 --mulH;
             }
-            retValue = static_cast<fp16Raw_t>( mulH << 16 ) | static_cast<fp16Raw_t>( mulL >> 16 );
-            retValue += 1;
+            retValue = static_cast<fp16Raw_t>( ( ( static_cast<uint32_t>( mulH ) << 16 ) | ( mulL >> 16 ) ) + 1U );
         }
         else {
             retValue = static_cast<fp16Raw_t>( mulH << 16 ) | static_cast<fp16Raw_t>( mulL >> 16 );
-- 
2.43.0


From 1860014f8b675f1781b35dbfe36b4ca885a87c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:19 +0000
Subject: [PATCH 048/105] fix: fp16::toInt overflowed near both ends of the
 range

---
 src/fp16.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 166499c..bf96250 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -42,10 +42,10 @@ int fp16::toInt( const fp16 &x ) noexcept
 
     if ( flag_rounding ) {
         if ( x.value >= 0 ) {
-            retValue = ( x.value + ( one >> 1 ) ) / one;
+            retValue = ( x.value / one ) + ( ( ( x.value % one ) >= one_half ) ? 1 : 0 );
         }
         else {
-            retValue = ( x.value - ( one >> 1 ) ) / one;
+            retValue = ( x.value / one ) - ( ( ( x.value % one ) <= -one_half ) ? 1 : 0 );
         }
     }
     else {
-- 
2.43.0


From 860eebc7e50a3a0b51e9d976c736bf6d0001e17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:23 +0000
Subject: [PATCH 049/105] fix: fp16::rounding returned x + 1 instead of the
 nearest integer

---
 src/include/fp16.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fp16.hpp b/src/include/fp16.hpp
index cbf74e7..f2911ba 100644
--- a/src/include/fp16.hpp
+++ b/src/include/fp16.hpp
@@ -322,7 +322,7 @@ namespace qlibs {
             */
             static inline fp16 rounding( const fp16 &x ) noexcept
             {
-                return fp16( { x.raw() + one } );
+                return floor( fp16( { add( x.raw(), one_half ) } ) );
             }
 
             /**
-- 
2.43.0


From 2fd69e5d31bf1de3e4fcc252268c2d4c68fbe2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:27 +0000
Subject: [PATCH 050/105] fix: fp16::sqrt of zero and of negative values

---
 src/fp16.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index bf96250..7fd4902 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -314,7 +314,13 @@ fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
             }
         }
     }
-    if ( ( flag_rounding ) && ( x > retValue ) ) {
+    else if ( 0 == x ) {
+        retValue = 0;
+    }
+    else {
+        /*nothing to do: not defined for negative values*/
+    }
+    if ( ( flag_rounding ) && ( overflow != retValue ) && ( x > retValue ) ) {
         ++retValue;
     }
 
-- 
2.43.0


From f39ca152ba9826ca9cfdf69b569beb2883c78eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:31 +0000
Subject: [PATCH 051/105] fix: fp16::sinh(0) returned one

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 7fd4902..2ff8772 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -650,7 +650,7 @@ fp16Raw_t fp16::sinh( fp16Raw_t x ) noexcept
     fp16Raw_t epx, enx;
 
     if ( 0 == x ) {
-        retValue = one;
+        retValue = 0;
     }
     else if ( x >= exp_max ) {
         retValue = Max;
-- 
2.43.0


From 78b0fd3de07c87b246b07634f743a7b8e17b5717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:08 +0000
Subject: [PATCH 052/105] fix: fp16::asin and acos at the ends of their domain

---
 src/fp16.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 2ff8772..7d9c59e 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -609,8 +609,7 @@ fp16Raw_t fp16::asin( fp16Raw_t x ) noexcept
 
     if ( ( x <= one ) && ( x >= -one ) ) {
         retValue = one - mul( x, x );
-        retValue = div( x, sqrt( retValue ) );
-        retValue = atan( retValue );
+        retValue = atan2( x, sqrt( retValue ) );
     }
 
     return retValue;
-- 
2.43.0


From 5086ee18a7032203ff7eecc3cd51a4e607bf26e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:12 +0000
Subject: [PATCH 053/105] fix: fp16::pow sign of a negative base raised to an
 even non-positive exponent

---
 src/fp16.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 7d9c59e..0c6a935 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -733,8 +733,9 @@ fp16Raw_t fp16::pow( fp16Raw_t x,
         fp16Raw_t tmp;
         tmp = mul( y, log( absolute( x ) ) );
         if ( overflow != tmp ) {
+            const bool isEven = ( 0U == ( static_cast<uint32_t>( y ) & ( fraction_mask | static_cast<uint32_t>( one ) ) ) );
             retValue = exp( tmp );
-            if ( x < 0 ) {
+            if ( ( x < 0 ) && ( !isEven ) ) {
                 retValue = -retValue;
             }
         }
-- 
2.43.0


From 9bedeb272750456b5d223a7efb4d410e5ffe6a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:16 +0000
Subject: [PATCH 054/105] fix: fp16::atan2 and atan of large arguments

---
 src/fp16.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 0c6a935..b31f382 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -577,7 +577,11 @@ fp16Raw_t fp16::atan2( fp16Raw_t y,
     const fp16Raw_t QFP16_0_196289 = 0x00003240;
     static const fp16Raw_t f_3pi_div_4 = 154415; /*3*pi/4*/
 
-    mask = ( y >> ( sizeof(fp16Raw_t)*7U ) );
+    if ( ( absolute( x ) >= 0x40000000 ) || ( absolute( y ) >= 0x40000000 ) ) {
+        x /= 4;
+        y /= 4;
+    }
+    mask = ( y >> 31 );
     absY = ( y + mask ) ^ mask;
     if ( x >= 0 ) {
         r = div( ( x - absY ), ( x + absY ) );
-- 
2.43.0


From ddad2e3cb472eac0de65d0d64d6907c6ddcc3669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:17 +0000
Subject: [PATCH 055/105] fix: fp16::sqrt of large values overflowed its signed
 intermediates

---
 src/fp16.cpp | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index b31f382..5cfe611 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -275,44 +275,49 @@ fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
     fp16Raw_t retValue = overflow;
 
     if ( x > 0 ) {
-        uint32_t bit;
+        uint32_t bit, num, res;
         uint8_t n;
 
-        retValue = 0;
+        num = static_cast<uint32_t>( x );
+        res = 0U;
         /*cstat -MISRAC++2008-5-0-3*/
-        bit = ( 0 != ( x & static_cast<fp16Raw_t>( 4293918720 ) ) ) ? 1073741824U : 262144U;
+        bit = ( 0U != ( num & 4293918720U ) ) ? 1073741824U : 262144U;
         /*cstat +MISRAC++2008-5-0-3*/
-        while ( bit > static_cast<uint32_t>( x ) ) {
+        while ( bit > num ) {
             bit >>= 2U;
         }
 
         for ( n = 0U ; n < 2U ; ++n ) {
             while ( 0U != bit ) {
-                if ( x >= static_cast<fp16Raw_t>( static_cast<uint32_t>( retValue ) + bit ) ) {
-                    x -= static_cast<fp16Raw_t>( static_cast<uint32_t>( retValue ) + bit );
-                    retValue = static_cast<fp16Raw_t>( ( static_cast<uint32_t>( retValue ) >> 1U ) + bit );
+                if ( num >= ( res + bit ) ) {
+                    num -= res + bit;
+                    res = ( res >> 1U ) + bit;
                 }
                 else {
-                    retValue = ( retValue >> 1 );
+                    res >>= 1U;
                 }
                 bit >>= 2U;
             }
 
             if ( 0U == n ) {
-                if ( x > 65535 ) {
-                    x -= retValue;
-                    x = ( x << 16 ) - one_half;
-                    retValue = ( retValue << 16 ) + one_half;
+                if ( num > 65535U ) {
+                    num -= res;
+                    num = ( num << 16U ) - static_cast<uint32_t>( one_half );
+                    res = ( res << 16U ) + static_cast<uint32_t>( one_half );
                 }
                 else {
-                    x <<= 16;
-                    retValue <<= 16;
+                    num <<= 16U;
+                    res <<= 16U;
                 }
                 /*cstat -ATH-shift-bounds -MISRAC++2008-5-8-1 -CERT-INT34-C_b*/
                 bit = 1U << 14U;
                 /*cstat +ATH-shift-bounds +MISRAC++2008-5-8-1 +CERT-INT34-C_b*/
             }
         }
+        if ( ( flag_rounding ) && ( num > res ) ) {
+            ++res;
+        }
+        retValue = static_cast<fp16Raw_t>( res );
     }
     else if ( 0 == x ) {
         retValue = 0;
@@ -320,11 +325,8 @@ fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
     else {
         /*nothing to do: not defined for negative values*/
     }
-    if ( ( flag_rounding ) && ( overflow != retValue ) && ( x > retValue ) ) {
-        ++retValue;
-    }
 
-    return static_cast<fp16Raw_t>( retValue );
+    return retValue;
 }
 /*============================================================================*/
 fp16Raw_t fp16::exp( fp16Raw_t x ) noexcept
-- 
2.43.0


From d83fe9c4a7f7e3ca63616cea163907a3f3f589d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:21 +0000
Subject: [PATCH 056/105] fix: fp16::log2 of two raw units, whose inverse
 overflows

---
 src/fp16.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 5cfe611..605f72c 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -469,6 +469,10 @@ fp16Raw_t fp16::log2( fp16Raw_t x ) noexcept
                 const fp16Raw_t f16 = 1048576;
                 retValue = -f16;
             }
+            else if ( 2 == x ) { /*its inverse is not representable*/
+                const fp16Raw_t f15 = 983040;
+                retValue = -f15;
+            }
             else {
                 fp16Raw_t inv;
                 inv = div( one, x );
-- 
2.43.0


From 65f5f5993e8333e814169ed141365b218e5d986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:00 +0000
Subject: [PATCH 057/105] fix: fis smallest-of-maximum returned the largest
 maximum

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index e2c5a5e..96aebc4 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -621,7 +621,7 @@ real_t fis::core::deFuzzSOM( fis::output * const o,
 
     switch ( stage ) {
         case FIS_DEFUZZ_COMPUTE:
-            if ( o->y >= o->v[ yMax ] ) {
+            if ( o->y > o->v[ yMax ] ) {
                 o->v[ yMax ] = o->y;
                 o->v[ xLargest ] = o->x;
             }
-- 
2.43.0


From d12a1e31158ba6594a92ba0972fa5cf4fe2cb70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:03 +0000
Subject: [PATCH 058/105] fix: fis gauss2mf right-hand side was evaluated on
 the wrong half

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 96aebc4..5c29327 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -81,7 +81,7 @@ real_t fis::core::Gauss2MF( const fis::ioBase * const in,
     c1 = p[ 1 ];
     c2 = p[ 3 ];
     f1 = ( x <= c1 ) ? GaussMF( in , p, n ) : 1.0_re;
-    f2 = ( x <= c2 ) ? GaussMF( in , &p[ 2 ], n ) : 1.0_re;
+    f2 = ( x >= c2 ) ? GaussMF( in , &p[ 2 ], n ) : 1.0_re;
 
     return f1*f2;
 }
-- 
2.43.0


From 983e3cc2a1d5d3d5a97342cf4ee165017e1c0b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:07 +0000
Subject: [PATCH 059/105] fix: fis tsmf and tzmf did not invert the s-shaped
 and z-shaped functions

---
 src/fisCore.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 5c29327..23a95b7 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -198,7 +198,7 @@ real_t fis::core::TSMF( const fis::ioBase * const in,
     ta = a + ffmath::sqrt( x*diff );
     tmp.value = ta;
     ma = SMF( &tmp, p, n );
-    tb = b + ffmath::sqrt( -( x - 1.0_re )*diff );
+    tb = b - ffmath::sqrt( -( x - 1.0_re )*diff );
     tmp.value = tb;
     mb = SMF( &tmp, p, n );
     return  ( ffmath::absf( x - ma ) < ffmath::absf( x - mb ) ) ? ta : tb;
@@ -314,10 +314,10 @@ real_t fis::core::TZMF( const fis::ioBase * const in,
     diff = 0.5_re*diff*diff;
     ta = a + ffmath::sqrt( -( x - 1.0_re )*diff );
     tmp.value = ta;
-    ma = SMF( &tmp, p, n );
-    tb = b + ffmath::sqrt( x*diff );
+    ma = ZMF( &tmp, p, n );
+    tb = b - ffmath::sqrt( x*diff );
     tmp.value = tb;
-    mb = SMF( &tmp, p, n );
+    mb = ZMF( &tmp, p, n );
     return  ( ffmath::absf( x - ma ) < ffmath::absf( x - mb ) ) ? ta : tb;
 }
 /*============================================================================*/
-- 
2.43.0


From 2006088a8e790b610d86685755652433c3fa61ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:26 +0000
Subject: [PATCH 060/105] fix: fis trimf and trapmf peak of a vertical right
 edge

---
 src/fisCore.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 23a95b7..29d38e8 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -18,7 +18,8 @@ real_t fis::core::TriMF( const fis::ioBase * const in,
     a = p[ 0 ];
     b = p[ 1 ];
     c = p[ 2 ];
-    tmp = Min( ( x - a )/( b - a ) , ( c - x )/( c - b ) );
+    tmp = Min( ( x - a )/( b - a ) , 1.0_re );
+    tmp = Min( ( c - x )/( c - b ), tmp );
 
     return Max( tmp , 0.0_re );
 }
@@ -36,7 +37,7 @@ real_t fis::core::TrapMF( const fis::ioBase * const in,
     c = p[ 2 ];
     d = p[ 3 ];
     tmp = Min( ( x - a )/( b - a ) , 1.0_re );
-    tmp = Min( tmp, ( d - x )/( d - c ) ) ;
+    tmp = Min( ( d - x )/( d - c ), tmp );
 
     return Max( tmp , 0.0_re );
 }
-- 
2.43.0


From d271d0bba5763174a1fc5a0df97d3f0989df6c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:29 +0000
Subject: [PATCH 061/105] fix: fis tconcavemf did not invert the concave
 function

---
 src/fisCore.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 29d38e8..eb33869 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -366,12 +366,14 @@ real_t fis::core::TConcaveMF( const fis::ioBase * const in,
                               const real_t *p,
                               const size_t n )
 {
+    const real_t x = in[ 0 ].value;
     real_t i, e;
+    (void)n;
 
     i = p[ 0 ];
     e = p[ 1 ];
 
-    return ( ( i - e )/ConcaveMF( in, p, n ) ) + ( 2.0_re*e ) - i;
+    return ( ( i - e )/x ) + ( 2.0_re*e ) - i;
 }
 /*============================================================================*/
 real_t fis::core::SpikeMF( const fis::ioBase * const in,
-- 
2.43.0


From 940036a9ed9d393aebb0fc61b7001feddbb7db36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:03 +0000
Subject: [PATCH 062/105] fix: fis Tsukamoto consequents ignored the firing
 strength of their rule

---
 src/fis.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index d2fdcc3..474cbca 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -382,7 +382,16 @@ size_t fis::instance::inferenceConsequent( size_t i ) noexcept
         }
         else { /* Sugeno and Tsukamoto*/
             real_t zi;
-            zi = m.membership( xInput, nInputs );
+            if ( Tsukamoto == xType ) { /*crisp value induced by the firing strength*/
+                fis::ioBase strength;
+                strength.min = o.min;
+                strength.max = o.max;
+                strength.value = wi[ ruleCount ];
+                zi = m.membership( &strength );
+            }
+            else {
+                zi = m.membership( xInput, nInputs );
+            }
             o.v[ sum_wz ] += zi*wi[ ruleCount ];
             o.v[ sum_w ] += wi[ ruleCount ];
         }
-- 
2.43.0


From 72d9d9354161a362de746bd65386ec6f331c7899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:07 +0000
Subject: [PATCH 063/105] fix: fis input and output tags were not checked
 against the array sizes

---
 src/fis.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 474cbca..a1a5012 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -122,7 +122,7 @@ bool fis::instance::setupInput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xInput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nInputs ) ) {
         /*cstat -CERT-STR34-C*/
         xInput[ t ].min = Min;
         xInput[ t ].max = Max;
@@ -139,7 +139,7 @@ bool fis::instance::setupOutput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xOutput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nOutputs ) ) {
         /*cstat -CERT-STR34-C*/
         xOutput[ t ].min = Min;
         xOutput[ t ].max = Max;
@@ -172,7 +172,7 @@ bool fis::instance::setInput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xInput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nInputs ) ) {
         /*cstat -CERT-STR34-C*/
         xInput[ t ].value = value;
         /*cstat +CERT-STR34-C*/
@@ -187,7 +187,7 @@ bool fis::instance::getOutput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xOutput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xOutput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nOutputs ) ) {
         /*cstat -CERT-STR34-C*/
         value = xOutput[ t ].value;
         /*cstat +CERT-STR34-C*/
-- 
2.43.0


From cd3637ba4f5f9963041790b39cc656ee08d04166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:11 +0000
Subject: [PATCH 064/105] fix: fis membership function tags were not checked
 against the array sizes

---
 src/fis.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index a1a5012..f8561a2 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -217,7 +217,12 @@ bool fis::instance::setMF( fis::mf *m,
         &TLinSMF, &TLinZMF, &TConcaveMF, &TSigMF, &TSMF, &TZMF, &TRampMF
     };
 
-    if ( ( io >= 0 ) && ( mf >= 0 ) && ( s < FIS_NUM_MFS ) ) {
+    const size_t nIO = ( m == inMF ) ? nInputs : nOutputs;
+    const size_t nMF = ( m == inMF ) ? nMFInputs : nMFOutputs;
+
+    if ( ( io >= 0 ) && ( static_cast<size_t>( io ) < nIO ) &&
+         ( mf >= 0 ) && ( static_cast<size_t>( mf ) < nMF ) &&
+         ( s < FIS_NUM_MFS ) ) {
         /*cstat -CERT-STR34-C*/
         m[ mf ].shape = ( nullptr != customMf ) ? customMf : fShape[ s ];
         m[ mf ].index = static_cast<size_t>( io );
-- 
2.43.0


From ea778601accf4353fdb714b88b0a4d7bc0029574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:15 +0000
Subject: [PATCH 065/105] fix: fis implication accepted operators that are
 documented as unsupported

---
 src/fis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index f8561a2..6c812b2 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -19,7 +19,7 @@ bool fis::instance::setParameter( const fis::parameter p,
             }
             break;
         case fis::parameter::FIS_Implication:
-            if ( x <= fis::paramValue::FIS_PROBOR ) {
+            if ( x <= fis::paramValue::FIS_PROD ) {
                 implicate = method[ x ];
                 retValue = true;
             }
-- 
2.43.0


From a9c753c5fb32c34fd70faa60705d2d49648b81b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:19 +0000
Subject: [PATCH 066/105] fix: fis inference without storage for the rule
 strengths

---
 src/fis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 6c812b2..433fcb8 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -493,7 +493,7 @@ bool fis::instance::inference( void ) noexcept
 {
     bool retValue = false;
 
-    if ( nullptr != xRules  ) {
+    if ( ( nullptr != xRules ) && ( nullptr != wi ) ) {
         size_t i = 0U;
 
         if ( Q_FIS_RULES_BEGIN == xRules[ 0 ] ) {
-- 
2.43.0


From 8e9812f880aa1080ab88d65c23514d70fd8cc887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:44 +0000
Subject: [PATCH 067/105] fix: fis rule antecedents were evaluated before their
 indices were checked

---
 src/fis.cpp         | 16 +++++++++++++---
 src/include/fis.hpp |  2 ++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 433fcb8..b23d305 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -292,6 +292,15 @@ fis::fuzzyOperator fis::instance::getFuzzOperator( void ) noexcept
     return oper;
 }
 /*============================================================================*/
+bool fis::instance::isSetIndex( const fis::rules index,
+                                const size_t n ) noexcept
+{
+    const int k = static_cast<int>( index );
+    const size_t absIndex = static_cast<size_t>( ( k < 0 ) ? -k : k );
+
+    return ( absIndex >= 1U ) && ( absIndex <= n );
+}
+/*============================================================================*/
 size_t fis::instance::inferenceAntecedent( size_t i ) noexcept
 {
     fis::rules inIndex, MFInIndex, connector;
@@ -302,13 +311,14 @@ size_t fis::instance::inferenceAntecedent( size_t i ) noexcept
     MFInIndex = xRules[ i + 1U ];
     connector = xRules[ i + 2U ];
     /*cstat +CERT-INT30-C_a*/
-    op = getFuzzOperator();
-    rStrength = op( rStrength, parseFuzzValue( inMF, MFInIndex ) );
 
-    if ( ( inIndex < 0 ) || ( static_cast<size_t>( inIndex ) > nInputs ) ) {
+    if ( ( inIndex < 0 ) || ( static_cast<size_t>( inIndex ) >= nInputs ) ||
+         ( !isSetIndex( MFInIndex, nMFInputs ) ) ) {
         i = INFERENCE_ERROR;
     }
     else {
+        op = getFuzzOperator();
+        rStrength = op( rStrength, parseFuzzValue( inMF, MFInIndex ) );
         if ( ( Q_FIS_AND == connector ) || ( Q_FIS_OR == connector ) ) {
             lastConnector = connector;
             inferenceState = &fis::instance::inferenceAntecedent;
diff --git a/src/include/fis.hpp b/src/include/fis.hpp
index 924e8c7..52c9399 100644
--- a/src/include/fis.hpp
+++ b/src/include/fis.hpp
@@ -539,6 +539,8 @@ namespace qlibs {
             static real_t parseFuzzValue( mf * const mfIO,
                                           rules index ) noexcept;
             fuzzyOperator getFuzzOperator( void ) noexcept;
+            static bool isSetIndex( const rules index,
+                                    const size_t n ) noexcept;
             size_t inferenceAntecedent( size_t i ) noexcept;
             size_t inferenceReachEnd( size_t i ) noexcept;
             size_t aggregationFindConsequent( size_t i ) noexcept;
-- 
2.43.0


From a519ae8d07f6d22c83c243c87cf7fa52abe47e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:48 +0000
Subject: [PATCH 068/105] fix: fis inference accepted rules whose consequent
 does not exist

---
 src/fis.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index b23d305..59a326a 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -340,10 +340,16 @@ size_t fis::instance::inferenceReachEnd( size_t i ) noexcept
 {
     fis::rules connector;
     /*cstat -CERT-INT30-C_a*/
+    const fis::rules outIndex = xRules[ i ];
+    const fis::rules MFOutIndex = xRules[ i + 1U ];
     connector = ( nOutputs > 1U )? xRules[ i + 2U ] : -1;
     /*cstat +CERT-INT30-C_a*/
     i += 2U;
-    if ( Q_FIS_AND != connector ) {
+    if ( ( outIndex < 0 ) || ( static_cast<size_t>( outIndex ) >= nOutputs ) ||
+         ( !isSetIndex( MFOutIndex, nMFOutputs ) ) ) {
+        i = INFERENCE_ERROR;
+    }
+    else if ( Q_FIS_AND != connector ) {
         inferenceState = &fis::instance::inferenceAntecedent;
         lastConnector = -1;
         wi[ ruleCount ] = rStrength;
@@ -354,6 +360,9 @@ size_t fis::instance::inferenceReachEnd( size_t i ) noexcept
         ++ruleCount;
         --i;
     }
+    else {
+        /*nothing to do: another output follows*/
+    }
 
     return i;
 }
-- 
2.43.0


From 63aa1bf22e9c9dcd9241adc5758fab80ed082f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:52 +0000
Subject: [PATCH 069/105] fix: fis operator[] read the inputs array for an
 unknown output tag

---
 src/include/fis.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fis.hpp b/src/include/fis.hpp
index 52c9399..be19b13 100644
--- a/src/include/fis.hpp
+++ b/src/include/fis.hpp
@@ -835,7 +835,7 @@ namespace qlibs {
             real_t operator[]( tag outTag ) const
             {
                 /*cstat -CERT-STR34-C*/
-                return ( static_cast<size_t>( outTag ) < nOutputs ) ? xOutput[ outTag ].value :  xInput[ nOutputs -1 ].value;
+                return ( static_cast<size_t>( outTag ) < nOutputs ) ? xOutput[ outTag ].value :  xOutput[ nOutputs -1 ].value;
                 /*cstat +CERT-STR34-C*/
             }
 
@@ -1170,7 +1170,7 @@ namespace qlibs {
             real_t operator[]( tag outTag ) const
             {
                 /*cstat -CERT-STR34-C*/
-                return ( static_cast<size_t>( outTag ) < sys.nOutputs ) ? sys.xOutput[ outTag ].value :  sys.xInput[ sys.nOutputs -1 ].value;
+                return ( static_cast<size_t>( outTag ) < sys.nOutputs ) ? sys.xOutput[ outTag ].value :  sys.xOutput[ sys.nOutputs -1 ].value;
                 /*cstat +CERT-STR34-C*/
             }
 
-- 
2.43.0


From 9c800e8ef6ca14f1ff7bc578195d0d8306de0219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:16 +0000
Subject: [PATCH 070/105] fix: fis deFuzzify without storage for the rule
 strengths dereferenced a null pointer

---
 src/fis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 59a326a..933c95c 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -452,7 +452,7 @@ bool fis::instance::deFuzzify( void ) noexcept
 {
     bool retValue = false;
 
-    if ( ( nullptr != xOutput ) && ( nullptr != outMF ) ) {
+    if ( ( nullptr != xOutput ) && ( nullptr != outMF ) && ( nullptr != wi ) ) {
         size_t i;
 
         for ( i = 0U ; i < nOutputs ; ++i ) {
-- 
2.43.0


From 2ffdb16e898589e10a384b6d752d5100c74221d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:56 +0000
Subject: [PATCH 071/105] fix: fis linzmf had a rising ramp between its limits
 instead of a falling one

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index eb33869..6821be9 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -287,7 +287,7 @@ real_t fis::core::LinZMF( const fis::ioBase * const in,
             y = 0.0_re;
         }
         else {
-            y = ( a - x )/( a - b );
+            y = ( b - x )/( b - a );
         }
     }
     else if ( ffmath::isEqual( a, b ) ) {
-- 
2.43.0


From 592e5d143c876c83cc569ef6c8bdcc37fce2077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:59 +0000
Subject: [PATCH 072/105] fix: fis tlinzmf was the inverse of a rising ramp,
 identical to tlinsmf

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 6821be9..152ea84 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -415,7 +415,7 @@ real_t fis::core::TLinZMF( const fis::ioBase * const in,
     a = p[ 0 ];
     b = p[ 1 ];
 
-    return a - ( ( a - b )*x );
+    return b - ( ( b - a )*x );
 }
 /*============================================================================*/
 real_t fis::core::TRampMF( const ioBase * const in,
-- 
2.43.0


From 73082f714e0774fcfdea7fe59f3202b7834c3ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:26 +0000
Subject: [PATCH 073/105] fix: fp16 division with an operand that already
 overflowed negated it

---
 src/fp16.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 605f72c..2075f37 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -197,8 +197,8 @@ fp16Raw_t fp16::div( const fp16Raw_t x,
     if ( 0 != y ) {
         uint32_t xRem, xDiv, bit = 0x10000U;
 
-        xRem = static_cast<uint32_t>( ( x >= 0 ) ? x : -x );
-        xDiv = static_cast<uint32_t>( ( y >= 0 ) ? y : -y );
+        xRem = ( x >= 0 ) ? static_cast<uint32_t>( x ) : ( 0U - static_cast<uint32_t>( x ) );
+        xDiv = ( y >= 0 ) ? static_cast<uint32_t>( y ) : ( 0U - static_cast<uint32_t>( y ) );
 
         while ( xDiv < xRem ) {
             xDiv <<= 1;
-- 
2.43.0


From 3fcb4fad6aa31469da919d73b01e413ff817f8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:49 +0000
Subject: [PATCH 074/105] fix: fp16::atan2 of a value that already overflowed
 overflowed a signed integer

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 2075f37..2cb150a 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -583,7 +583,7 @@ fp16Raw_t fp16::atan2( fp16Raw_t y,
     const fp16Raw_t QFP16_0_196289 = 0x00003240;
     static const fp16Raw_t f_3pi_div_4 = 154415; /*3*pi/4*/
 
-    if ( ( absolute( x ) >= 0x40000000 ) || ( absolute( y ) >= 0x40000000 ) ) {
+    if ( ( x >= 0x40000000 ) || ( x <= -0x40000000 ) || ( y >= 0x40000000 ) || ( y <= -0x40000000 ) ) {
         x /= 4;
         y /= 4;
     }
-- 
2.43.0


From af4e51d5a93e938ce7f3ef368cbb0329a5ab17d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:50 +0000
Subject: [PATCH 075/105] fix: interp1 next neighbour of a NaN read past the
 end of the table

---
 src/interp1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 36046c8..3bdac15 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -36,7 +36,7 @@ real_t interp1::next( const real_t x,
     real_t y = ffmath::getNan();
 
     if ( ( tableSize >= 2U ) && ( nullptr != tx ) && ( nullptr != ty ) ) {
-        size_t nearestIndex = tableSize - 1U;
+        size_t nearestIndex = tableSize - 2U;
 
         for ( size_t i = 0U ; i < tableSize - 1U ; ++i ) {
             if ( x < tx[ i + 1U ] ) {
-- 
2.43.0


From 9048f6456430f5ed25980191f8b0a61bb43843fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:41 +0000
Subject: [PATCH 076/105] fix: interp1 constrained spline swapped the second
 derivatives of each interval and overshot

---
 src/interp1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 3bdac15..5801d98 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -383,8 +383,8 @@ real_t interp1::cSpline( const real_t x,
             const real_t x0_2 = x0*x0;
             const real_t x0_3 = x0_2*x0;
             const real_t inv_x0_x1 = 1.0_re/x0_x1;
-            const real_t d = ( fd2i_x - fd2i_xl1 )*( 0.166666667_re*inv_x0_x1 );
-            const real_t c = ( ( x0*fd2i_xl1 ) - ( x1*fd2i_x ) )*( 0.5_re*inv_x0_x1 );
+            const real_t d = ( fd2i_xl1 - fd2i_x )*( 0.166666667_re*inv_x0_x1 );
+            const real_t c = ( ( x0*fd2i_x ) - ( x1*fd2i_xl1 ) )*( 0.5_re*inv_x0_x1 );
             const real_t b = ( y0 - y1 - c*( x0_2 - x1_2 ) - d*( x0_3 - x1_3 ) )*inv_x0_x1;
             const real_t a = y1 - ( b*x1 ) - ( c*x1_2 ) - ( d*x1_3 );
             y = a + x*( b + x*( c + ( x*d ) ) );
-- 
2.43.0


From b218668e608f0d83fb1cb7f2885cf934bd54602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:28 +0000
Subject: [PATCH 077/105] fix: ffmath::sqrt of subnormal and infinite arguments

The exponent-halving seed wraps below the normal range, so the square root
of a positive subnormal number came out negative, and sqrt(inf) was nan.
---
 src/ffmath.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index ed46812..01631da 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -208,6 +208,12 @@ float ffmath::sqrt( float x )
     else if ( ffmath::classification::FFP_ZERO == ffmath::classify( x ) ) {
         retVal = 0.0F;
     }
+    else if ( ffmath::classification::FFP_SUBNORMAL == ffmath::classify( x ) ) {
+        retVal = ffmath::sqrt( x*16777216.0F )*2.44140625e-4F;
+    }
+    else if ( ffmath::classification::FFP_INFINITE == ffmath::classify( x ) ) {
+        retVal = x;
+    }
     else {
         uint32_t y = bit_cast<uint32_t>( x );
         float z = 0.0F;
-- 
2.43.0


From 2635249aa8b02a9d6b866c2f30ce8234d01344b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:32 +0000
Subject: [PATCH 078/105] fix: ffmath::log2 of nan and inf is no longer a
 finite number

Their exponent field was decoded as an ordinary one, so log2(nan), and log,
log10, log1p and pow through it, returned values near 128.
---
 src/ffmath.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 01631da..f6a17ca 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -570,6 +570,9 @@ float ffmath::log2( float x )
     else if ( ffmath::classification::FFP_ZERO == ffmath::classify( x ) ) {
         retVal = -limits::infinity();
     }
+    else if ( !ffmath::isFinite( x ) ) {
+        retVal = x;
+    }
     else {
         float z, px;
         int32_t ip, fp;
-- 
2.43.0


From ad46932f78d96706d2ae9dda1d09f0bf46015d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:29 +0000
Subject: [PATCH 079/105] fix: smoother::isInitialized was declared but never
 defined

---
 src/smoother.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index c303f05..83b7aa5 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -15,6 +15,11 @@ void smoother::windowSet( real_t *w,
 }
 /*! @endcond  */
 /*============================================================================*/
+bool smoother::isInitialized( void ) const
+{
+    return !init;
+}
+/*============================================================================*/
 bool smootherLPF1::setup( const real_t a )
 {
     bool retValue = false;
-- 
2.43.0


From dc08b5a4b038f027fe0dc6755e4b7be33a639a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:15 +0000
Subject: [PATCH 080/105] fix: LTISYS_EVAL_MODEL_OBSERVABLE could never be
 selected

---
 src/include/ltisys.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/ltisys.hpp b/src/include/ltisys.hpp
index d4451e7..7f3d76b 100644
--- a/src/include/ltisys.hpp
+++ b/src/include/ltisys.hpp
@@ -26,7 +26,7 @@ namespace qlibs {
 
     /** @cond **/
     /*only for continuousSystem*/
-    #if !defined( LTISYS_EVAL_MODEL_CONTROLLABLE ) || !defined( LTISYS_EVAL_MODEL_OBSERVABLE )
+    #if !defined( LTISYS_EVAL_MODEL_CONTROLLABLE ) && !defined( LTISYS_EVAL_MODEL_OBSERVABLE )
         #define LTISYS_EVAL_MODEL_CONTROLLABLE
     #endif
     /** @endcond **/
-- 
2.43.0


From d81a140c93f3038dc393cef6df6d522bbc02eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:06 +0000
Subject: [PATCH 081/105] fix: fis::instance::setup kept the rule weights and
 the selected input of the previous system

---
 src/fis.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fis.cpp b/src/fis.cpp
index 933c95c..5bfa05f 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -101,6 +101,8 @@ bool fis::instance::setup( const fis::type t,
         nMFOutputs = nmo;
         xRules = r;
         wi = rWeights;
+        ruleWeight = nullptr;
+        lastTag = -1;
         nRules = n;
         deFuzz = ( Mamdani == xType )? &deFuzzCentroid : &deFuzzWtAverage;
         (void)setParameter( FIS_AND, FIS_MIN );
-- 
2.43.0


From 706aac7041072f672f8b3e3edaec3281f69d38e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:52 +0000
Subject: [PATCH 082/105] fix: ffmath::lgamma was infinite above 171.6, and
 beta zero with it

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index f6a17ca..6429665 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1116,7 +1116,7 @@ static float lgamma_positive( float x )
     constexpr float pnt68 = 0.6796875F;
     float result;
 
-    if ( x > 171.624F ) {
+    if ( x > 4.085003e36F ) { /* overflow */
         result = limits::infinity();
     }
     else {
-- 
2.43.0


From ef6261903984ab99e070c2a18ac2c1f4a4bca1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:28 +0000
Subject: [PATCH 083/105] fix: ffmath::riemann_zeta overflowed below -34
 although the value is representable

---
 src/ffmath.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 6429665..f912eaa 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2304,9 +2304,9 @@ float ffmath::riemann_zeta( float s )
     }
     else if ( s < -19.0F ) {
         z = riemann_zeta_product( 1.0F - s );
-        z *= ffmath::pow( 2.0F*ffmath::FFP_PI, s )*
-             ffmath::sin( ffmath::FFP_PI_2*s )*
-             ffmath::exp( ffmath::lgamma( 1.0F - s ) )/
+        z *= ffmath::sin( ffmath::FFP_PI_2*s )*
+             ffmath::exp( ffmath::lgamma( 1.0F - s ) +
+                          ( s*ffmath::log( 2.0F*ffmath::FFP_PI ) ) )/
              ffmath::FFP_PI;
     }
     else if ( s < 20.0F ) {
-- 
2.43.0


From c7edcba72ebe74f311f1bc4d14976f0337fef86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:56 +0000
Subject: [PATCH 084/105] fix: smootherKLMN::reset kept the error covariance of
 the previous signal

---
 src/include/smoother.hpp | 1 +
 src/smoother.cpp         | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/smoother.hpp b/src/include/smoother.hpp
index d683277..10d13aa 100644
--- a/src/include/smoother.hpp
+++ b/src/include/smoother.hpp
@@ -400,6 +400,7 @@ namespace qlibs {
             real_t q{ 100.0_re };  /* process(predict) noise covariance */
             real_t r{ 0.9_re };  /* measure noise covariance */
             real_t p{ 100.0_re };  /* estimated error covariance */
+            real_t p0{ 100.0_re };  /* initial estimated error covariance */
             real_t gain;
             /*! @endcond  */
         public:
diff --git a/src/smoother.cpp b/src/smoother.cpp
index 83b7aa5..708d9c0 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -304,7 +304,7 @@ bool smootherKLMN::setup( const real_t processNoiseCov,
     bool retValue = false;
 
     if ( ( processNoiseCov > 0.0_re ) && ( measureNoiseCov > 0.0_re ) && ( estErrorCov > 0.0_re ) ) {
-        p = estErrorCov;
+        p0 = estErrorCov;
         q = processNoiseCov;
         r = measureNoiseCov;
         A = 1.0_re;
@@ -321,6 +321,7 @@ real_t smootherKLMN::smooth( const real_t x )
 
     if ( init ) {
         xS = x;
+        p = p0;
         init = false;
     }
     /* Predict */
-- 
2.43.0


From 3201bf9ed0ee97341a633aeedf7cc6a6edc9ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:04 +0000
Subject: [PATCH 085/105] fix: mat( MAT_MAGIC ) left its elements uninitialised

---
 src/include/mat.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index c60b7ca..7876d74 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -68,8 +68,6 @@ namespace qlibs {
                         }
                         break;
                     case MAT_MAGIC:
-
-                        break;
                     default:
                         for (size_t i = 0; i < Rows; ++i) {
                             for (size_t j = 0; j < Cols; ++j) {
-- 
2.43.0


From 10ae69d39be35f8526d8f4b95dab49e0ae6557da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:09 +0000
Subject: [PATCH 086/105] fix: mat compound scalar operators changed the scalar
 while using it when it is an element of the matrix

---
 src/include/mat.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 7876d74..51cdec4 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -312,9 +312,10 @@ namespace qlibs {
 
             // Overload the compound multiplication operator (*=) with scalar
             mat<Rows, Cols>& operator*=(const real_t& scalar) {
+                const real_t s = scalar; // may refer to an element of this matrix
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        m[i][j] *= scalar;
+                        m[i][j] *= s;
                     }
                 }
                 return *this;
@@ -322,9 +323,10 @@ namespace qlibs {
 
             // Overload the compound multiplication operator (*=) with scalar
             mat<Rows, Cols>& operator/=(const real_t& scalar) {
+                const real_t s = scalar; // may refer to an element of this matrix
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        m[i][j] /= scalar;
+                        m[i][j] /= s;
                     }
                 }
                 return *this;
@@ -333,9 +335,10 @@ namespace qlibs {
             // Overload the compound addition operator (+=) with a scalar
             mat<Rows, Cols>& operator+=(const real_t& scalar)
             {
+                const real_t s = scalar; // may refer to an element of this matrix
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        m[i][j] += scalar;
+                        m[i][j] += s;
                     }
                 }
                 return *this;
@@ -344,9 +347,10 @@ namespace qlibs {
             // Overload the compound subtraction operator (-=) with a scalar
             mat<Rows, Cols>& operator-=(const real_t& scalar)
             {
+                const real_t s = scalar; // may refer to an element of this matrix
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        m[i][j] -= scalar;
+                        m[i][j] -= s;
                     }
                 }
                 return *this;
-- 
2.43.0


From 741e2554d4ec743c502b3736624d2661c5f0dd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:15 +0000
Subject: [PATCH 087/105] fix: algorithm::replace stopped replacing after the
 first match when the value to replace is an element of the array

---
 src/include/algorithm.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index a4ddd0c..1aa8216 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -326,8 +326,10 @@ namespace qlibs {
                              const size_t first = 0U,
                              const size_t last = n - 1U ) noexcept
         {
+            const T key = old_value; /*it may refer to an element of the array*/
+
             for ( size_t i = first; i <= last; ++i ) {
-                if ( old_value == array[ i ] ) {
+                if ( key == array[ i ] ) {
                     array[ i ] = new_value;
                 }
             }
-- 
2.43.0


From e5b2e4a63c98aa3c873c1b0f9b15256e5b71119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:06 +0000
Subject: [PATCH 088/105] fix: fis accepted a predefined membership function
 without parameters and read through the null pointer

---
 src/fis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 5bfa05f..afee8d8 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -224,7 +224,7 @@ bool fis::instance::setMF( fis::mf *m,
 
     if ( ( io >= 0 ) && ( static_cast<size_t>( io ) < nIO ) &&
          ( mf >= 0 ) && ( static_cast<size_t>( mf ) < nMF ) &&
-         ( s < FIS_NUM_MFS ) ) {
+         ( s < FIS_NUM_MFS ) && ( ( nullptr != cp ) || ( nullptr != customMf ) ) ) {
         /*cstat -CERT-STR34-C*/
         m[ mf ].shape = ( nullptr != customMf ) ? customMf : fShape[ s ];
         m[ mf ].index = static_cast<size_t>( io );
-- 
2.43.0


From 54cb26fbc775b3d8508735a11987043b4cfae478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:41 +0000
Subject: [PATCH 089/105] fix: ffmath::atan of an infinity is pi/2, not nan

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index f912eaa..be269b7 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -506,7 +506,7 @@ float ffmath::atan( float x )
 {
     float abs_x;
 
-    x /= absolute( x ) + 1.0F;
+    x = ( ffmath::isInf( x ) ) ? ffmath::copysign( 1.0F, x ) : ( x/( absolute( x ) + 1.0F ) );
     abs_x = absolute( x );
 
     return x*( ( abs_x*( ( -1.45667498914F*abs_x ) + 2.18501248371F ) ) + 0.842458832225F );
-- 
2.43.0


From 4768e14932ad1a7f4f9b3c6d9f0dca89cd04894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:47 +0000
Subject: [PATCH 090/105] fix: ffmath::atan2 took a small non-zero abscissa for
 zero

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index be269b7..5cb2128 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -518,7 +518,7 @@ float ffmath::atan2( float y,
     float t, f;
 
     t = ffmath::FFP_PI - ( ( y < 0.0F ) ? ffmath::FFP_2PI : 0.0F );
-    f = ( absolute( x ) <= limits::Min() ) ? 1.0F : 0.0F;
+    f = ( classification::FFP_ZERO == classify( x ) ) ? 1.0F : 0.0F;
     y = ffmath::atan( y/( x + f ) ) + ( ( x < 0.0F ) ? t : 0.0F );
 
     return y + ( f*( ( 0.5F*t ) - y ) );
-- 
2.43.0


From 05ddd53b31bf667332607f0f457a8bcd145d9833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:51 +0000
Subject: [PATCH 091/105] fix: ffmath::rSqrt of infinity and of subnormal
 numbers

---
 src/ffmath.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 5cb2128..fcc356e 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -237,6 +237,12 @@ float ffmath::rSqrt( float x )
     else if ( ffmath::classification::FFP_ZERO  == ffmath::classify( x ) ) {
         retVal = limits::infinity();
     }
+    else if ( ffmath::classification::FFP_SUBNORMAL == ffmath::classify( x ) ) {
+        retVal = ffmath::rSqrt( x*16777216.0F )*4096.0F;
+    }
+    else if ( ffmath::classification::FFP_INFINITE == ffmath::classify( x ) ) {
+        retVal = 0.0F;
+    }
     else {
         uint32_t y = bit_cast<uint32_t>( x );
         const float z = 0.5F*x;
-- 
2.43.0


From 2250b9f147172dc99ffb7af92aa4bac699e2e99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:28 +0000
Subject: [PATCH 092/105] fix: ffmath::cbrt and rCbrt of infinities and of
 subnormal numbers

---
 src/ffmath.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index fcc356e..1bc2b88 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -267,16 +267,24 @@ static float compute_cbrt( float x , bool r )
         x = -x;
         neg = true;
     }
-    i = bit_cast<uint32_t>( x );
-    i = 0x548C2B4BU - ( i/3U );
-    y = bit_cast<float>( i );
-    c = x*y*y*y;
-    y = y*( k[ 0 ] - ( c*( k[ 1 ] - ( k[ 2 ]*c ) ) ) );
-
-    d = x*y*y;
-    c = 1.0F - ( d*y );
-    retVal = 1.0F + ( c13*c );
-    retVal *= ( r ) ? y : d;
+    if ( ffmath::classification::FFP_INFINITE == ffmath::classify( x ) ) {
+        retVal = ( r ) ? 0.0F : x;
+    }
+    else if ( ffmath::classification::FFP_SUBNORMAL == ffmath::classify( x ) ) {
+        retVal = compute_cbrt( x*16777216.0F, r )*( ( r ) ? 256.0F : 3.90625e-3F );
+    }
+    else {
+        i = bit_cast<uint32_t>( x );
+        i = 0x548C2B4BU - ( i/3U );
+        y = bit_cast<float>( i );
+        c = x*y*y*y;
+        y = y*( k[ 0 ] - ( c*( k[ 1 ] - ( k[ 2 ]*c ) ) ) );
+
+        d = x*y*y;
+        c = 1.0F - ( d*y );
+        retVal = 1.0F + ( c13*c );
+        retVal *= ( r ) ? y : d;
+    }
     return ( neg )? -retVal : retVal;
 }
 /*============================================================================*/
-- 
2.43.0


From 7f01daedc49a8c793bb078cd682cd168ed484859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:33 +0000
Subject: [PATCH 093/105] fix: ffmath::log2 (and log, log10, pow) of subnormal
 numbers

---
 src/ffmath.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 1bc2b88..1b0310b 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -587,6 +587,9 @@ float ffmath::log2( float x )
     else if ( !ffmath::isFinite( x ) ) {
         retVal = x;
     }
+    else if ( ffmath::classification::FFP_SUBNORMAL == ffmath::classify( x ) ) {
+        retVal = ffmath::log2( x*16777216.0F ) - 24.0F;
+    }
     else {
         float z, px;
         int32_t ip, fp;
-- 
2.43.0


From f487ea1bc84e05a54362a366a82f2ff06c131fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:37 +0000
Subject: [PATCH 094/105] fix: ffmath::asinh and acosh of numbers whose square
 overflows

---
 src/ffmath.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 1b0310b..78782fe 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -698,13 +698,27 @@ float ffmath::asinh( float x )
 {
     const float abs_x = absolute( x ); /*avoid cancellation for negative values*/
 
-    return ffmath::copysign( ffmath::log( abs_x + ffmath::sqrt( ( x*x ) + 1.0F ) ), x );
+    const float y = ( abs_x > 1.0e+9F ) ? ( ffmath::log( abs_x ) + ffmath::FFP_LN2 ) /*avoid the overflow of x*x*/
+                                        : ffmath::log( abs_x + ffmath::sqrt( ( x*x ) + 1.0F ) );
+
+    return ffmath::copysign( y, x );
 }
 /*============================================================================*/
 float ffmath::acosh( float x )
 {
-    return ( x < 1.0F ) ? limits::nan()
-                        : ffmath::log( x + ffmath::sqrt( ( x*x ) - 1.0F ) );
+    float y = limits::nan();
+
+    if ( x > 1.0e+9F ) { /*avoid the overflow of x*x*/
+        y = ffmath::log( x ) + ffmath::FFP_LN2;
+    }
+    else if ( x >= 1.0F ) {
+        y = ffmath::log( x + ffmath::sqrt( ( x*x ) - 1.0F ) );
+    }
+    else {
+        /*nothing to do: not defined*/
+    }
+
+    return y;
 }
 /*============================================================================*/
 float ffmath::atanh( float x )
-- 
2.43.0


From c401278002631dab379560c45eeff2a8a3c5871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:29 +0000
Subject: [PATCH 095/105] fix: ffmath::recip of zero, infinities and numbers
 close to the limits of the range

---
 src/ffmath.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 78782fe..45a6afe 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -194,8 +194,12 @@ float ffmath::recip( float x )
 
     y = 0x7EF311C7U - y;
     z = bit_cast<float>( y );
+    z *= 2.0F - ( x*z );
+    if ( ( absolute( x ) < 2.0e-38F ) || ( absolute( x ) > 8.0e+37F ) ) {
+        z = 1.0F/x; /*the initial guess does not work close to the limits*/
+    }
 
-    return z*( 2.0F - ( x*z ) );
+    return z;
 }
 /*============================================================================*/
 float ffmath::sqrt( float x )
-- 
2.43.0


From fe444044d88d4d9852e0bbc28abab0c9284ef69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:53 +0000
Subject: [PATCH 096/105] fix: ffmath::sin and cos of large arguments left the
 range [-1,1]

---
 src/ffmath.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 45a6afe..02933f3 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -480,10 +480,15 @@ float ffmath::sin( float x )
     }
     else {
         x *= -ffmath::FFP_1_PI;
-        y = x + 25165824.0F;
-        x -= y - 25165824.0F;
-        x *= absolute( x ) - 1.0F;
-        y = x*( ( 3.5841304553896F*absolute( x ) ) + 3.1039673861526F );
+        if ( absolute( x ) >= 8388608.0F ) { /*a whole number of half turns*/
+            y = x - x;
+        }
+        else {
+            y = x + 25165824.0F;
+            x -= y - 25165824.0F;
+            x *= absolute( x ) - 1.0F;
+            y = x*( ( 3.5841304553896F*absolute( x ) ) + 3.1039673861526F );
+        }
     }
 
     return y;
-- 
2.43.0


From 9db2840fec2b4fbefbfe61f19188228a6ebfa0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:13 +0000
Subject: [PATCH 097/105] fix: ffmath::sinh and cosh of large negative values
 were infinite

---
 src/ffmath.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 02933f3..bb2f9d6 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -674,18 +674,19 @@ float ffmath::pow( float b,
 /*============================================================================*/
 float ffmath::sinh( float x )
 {
-    const float epx = ffmath::exp( x );
-    const float enx = 1.0F/epx;
+    const float abs_x = absolute( x );
+    const float epx = ffmath::exp( 0.5F*abs_x ); /*exp(x) overflows before sinh(x)*/
+    const float y = ( 0.5F*epx*epx ) - ( 0.5F/( epx*epx ) );
 
-    return 0.5F*( epx - enx );
+    return ffmath::copysign( y, x );
 }
 /*============================================================================*/
 float ffmath::cosh( float x )
 {
-    const float epx = ffmath::exp( x );
-    const float enx = 1.0F/epx;
+    const float abs_x = absolute( x );
+    const float epx = ffmath::exp( 0.5F*abs_x ); /*exp(x) overflows before cosh(x)*/
 
-    return 0.5F*( epx + enx );
+    return ( 0.5F*epx*epx ) + ( 0.5F/( epx*epx ) );
 }
 /*============================================================================*/
 float ffmath::tanh( float x )
-- 
2.43.0


From a200d71e94fe19d00d89bca5b8b917d900ad6f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:06 +0000
Subject: [PATCH 098/105] fix: Bessel functions of large order overflowed to
 NaN

---
 src/ffmath.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index bb2f9d6..ff87528 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2451,8 +2451,14 @@ static void bessel_jn( float nu,
         const float j_nul1 = j_nul;
         const float j_pnu1 = j_pnu_l;
         float fact = nu*xi;
+        float scale = 1.0F;
 
         for ( int l = nl; l >= 1; --l ) {
+            if ( absolute( j_nul ) > 1.0E+12F ) { /*avoid the overflow of the recurrence*/
+                j_nul *= 1.0E-12F;
+                j_pnu_l *= 1.0E-12F;
+                scale *= 1.0E-12F;
+            }
             const float j_nu_temp = ( fact*j_nul ) + j_pnu_l;
 
             fact -= xi;
@@ -2563,7 +2569,7 @@ static void bessel_jn( float nu,
             n_pmu = ( p + ( q/gam ) )*n_mu;
             n_nu1 = ( mu*xi*n_mu ) - n_pmu;
         }
-        fact = Jmu/j_nul;
+        fact = scale*( Jmu/j_nul );
         j_nu = fact*j_nul1;
         j_pnu = fact*j_pnu1;
         for ( int i = 1; i <= nl; ++i ) {
@@ -2571,6 +2577,9 @@ static void bessel_jn( float nu,
             const float n_nu_temp = ( mu + static_cast<float>( i ) )*xi2*n_nu1 - n_mu;
             /*cstat +CERT-FLP36-C*/
             n_mu = n_nu1;
+            if ( ffmath::isInf( n_mu ) ) {
+                break;
+            }
             n_nu1 = n_nu_temp;
         }
         n_nu = n_mu;
-- 
2.43.0


From 33e5ee766fdc01f88eb121b71a7e82894e85bba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:35 +0000
Subject: [PATCH 099/105] fix: modified Bessel functions of large order or
 argument overflowed to NaN or zero

---
 src/ffmath.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index ff87528..c1db5b1 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2710,8 +2710,15 @@ static void bessel_ik( float nu,
         const float i_nul1 = i_nul;
         const float i_pnu_1 = i_pnu_l;
         float fact_m = nu*xi;
+        float lnScale = 0.0F;
+        float lnK = 0.0F;
 
         for ( int l = nl ; l >= 1 ; --l ) {
+            if ( i_nul > 1.0E+12F ) { /*avoid the overflow of the recurrence*/
+                i_nul *= 1.0E-12F;
+                i_pnu_l *= 1.0E-12F;
+                lnScale -= 12.0F*ffmath::FFP_LN10;
+            }
             const float i_nu_temp = ( fact_m*i_nul )  + i_pnu_l;
 
             fact_m -= xi;
@@ -2792,23 +2799,31 @@ static void bessel_ik( float nu,
                 }
             }
             h = a1*h;
-            Kmu = ffmath::sqrt( ffmath::FFP_PI/( 2.0F*x ) )*ffmath::exp(-x)/s;
+            Kmu = ffmath::sqrt( ffmath::FFP_PI/( 2.0F*x ) )/s; /*scaled by exp(x)*/
+            lnK = -x;
             k_nu1 = Kmu*( mu + x + 0.5F - h )*xi;
         }
         const float k_pmu = ( mu*xi*Kmu ) - k_nu1;
         const float i_num_u = xi/( ( f*Kmu ) - k_pmu );
+        const float i_scale = ffmath::exp( 0.5F*( lnScale - lnK ) );
 
-        i_nu = i_num_u*i_nul1/i_nul;
-        i_pnu = i_num_u*i_pnu_1/i_nul;
+        i_nu = ( i_num_u*i_nul1/i_nul )*i_scale*i_scale;
+        i_pnu = ( i_num_u*i_pnu_1/i_nul )*i_scale*i_scale;
         for ( int i = 1 ; i <= nl ; ++i ) {
+            if ( k_nu1 > 1.0E+12F ) { /*avoid the overflow of the recurrence*/
+                Kmu *= 1.0E-12F;
+                k_nu1 *= 1.0E-12F;
+                lnK += 12.0F*ffmath::FFP_LN10;
+            }
             /*cstat -CERT-FLP36-C*/
             const float k_nu_temp = ( ( mu + static_cast<float>( i ) )*xi2*k_nu1 ) + Kmu;
             /*cstat +CERT-FLP36-C*/
             Kmu = k_nu1;
             k_nu1 = k_nu_temp;
         }
-        k_nu = Kmu;
-        k_pnu = ( nu*xi*Kmu ) - k_nu1;
+        const float k_scale = ffmath::exp( 0.5F*lnK );
+        k_nu = Kmu*k_scale*k_scale;
+        k_pnu = ( ( nu*xi*Kmu ) - k_nu1 )*k_scale*k_scale;
     }
 }
 /*============================================================================*/
-- 
2.43.0


From 7d0b05105fb4eb325dbe19e35c5e522e702a1963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:40 +0000
Subject: [PATCH 100/105] fix: cyl_bessel_j and cyl_neumann of large order and
 argument were NaN

---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index c1db5b1..e4dfdd9 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2937,7 +2937,7 @@ float ffmath::cyl_bessel_j( float nu,
     else if ( ( x*x ) < ( 10.0F*( nu + 1.0F ) ) ) {
         y = cyl_bessel_ij_series( nu, x, -1.0F, 200U );
     }
-    else if ( x > 1000.0F ) {
+    else if ( ( x > 1000.0F ) && ( ( nu*nu ) < ( 25.0F*x ) ) ) {
         float j_nu, n_nu;
 
         cyl_bessel_jn_asymp( nu, x, j_nu, n_nu );
@@ -2977,7 +2977,7 @@ float ffmath::cyl_neumann( float nu,
     if ( ( nu < 0.0F ) || ( x < 0.0F ) || ffmath::isNan( nu ) || ffmath::isNan( x ) ) {
         y = limits::nan();
     }
-    else if ( x > 1000.0F ) {
+    else if ( ( x > 1000.0F ) && ( ( nu*nu ) < ( 25.0F*x ) ) ) {
         float J_nu, N_nu;
         cyl_bessel_jn_asymp( nu, x, J_nu, N_nu );
         y = N_nu;
-- 
2.43.0


From 2e2dd369b372842c78668c462b80c6cade247aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:26 +0000
Subject: [PATCH 101/105] fix: smootherGMWF::setup wrote through a null kernel

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 708d9c0..8f63cee 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -227,7 +227,7 @@ bool smootherGMWF::setup( const real_t sg,
     bool retValue = false;
     const size_t ws = wk_size;
     /*cstat -CERT-FLP36-C*/
-    if ( ( nullptr != window ) && ( wk_size > 0U ) && ( c < static_cast<real_t>( ws ) ) && ( sg > 0.0_re ) ) {
+    if ( ( nullptr != window ) && ( nullptr != kernel ) && ( wk_size > 0U ) && ( c < static_cast<real_t>( ws ) ) && ( sg > 0.0_re ) ) {
         real_t r, sum = 0.0_re;
         size_t i;
         real_t l, center;
-- 
2.43.0


From 9b26d95ddb5156ff1ff033882d539c2f4c2abf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:31 +0000
Subject: [PATCH 102/105] fix: smootherALNF::setup accepted a null weights
 array

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 8f63cee..88729ae 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -379,7 +379,7 @@ bool smootherALNF::setup( const real_t a,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m >= 0.0_re ) && ( m < 1.0_re ) ) {
+    if ( ( nullptr != window ) && ( nullptr != weights ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m >= 0.0_re ) && ( m < 1.0_re ) ) {
         alpha = a;
         mu = m;
         xx = window;
-- 
2.43.0


From 37a35b8e800c096ea3bdeba6e94072b0dd7c966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:36 +0000
Subject: [PATCH 103/105] fix: discreteSystem::setup accepted an empty
 denominator

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index afd9b97..869b7b4 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -133,7 +133,7 @@ bool discreteSystem::setup( real_t *num,
 {
     bool retValue = false;
 
-    if ( ( nullptr != num ) && ( nullptr != den ) && ( nullptr != x ) && ( n_b > 0U ) ) {
+    if ( ( nullptr != num ) && ( nullptr != den ) && ( nullptr != x ) && ( n_b > 0U ) && ( n_a > 0U ) ) {
         b = num;
         na = n_a - 1U;
         nb = n_b;
-- 
2.43.0


From cb62d31162eaf24de1e7014a76aa04698b3290c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:42 +0000
Subject: [PATCH 104/105] fix: ltisys::setDelay accepted a null or empty delay
 window

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 869b7b4..7cd3c7f 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -40,7 +40,7 @@ bool ltisys::setDelay( real_t * const w,
 {
     bool retValue = false;
 
-    if ( isInitialized() ) {
+    if ( isInitialized() && ( nullptr != w ) && ( nD > 0U ) ) {
         tdl::setup( w, nD, initVal );
         retValue = true;
     }
-- 
2.43.0


From d6718fca71efff4b9641148cafcab7a0d1a73881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:44 +0000
Subject: [PATCH 105/105] fix: smootherGMWF::setup accepted a negative kernel
 offset

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 88729ae..c50db22 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -227,7 +227,7 @@ bool smootherGMWF::setup( const real_t sg,
     bool retValue = false;
     const size_t ws = wk_size;
     /*cstat -CERT-FLP36-C*/
-    if ( ( nullptr != window ) && ( nullptr != kernel ) && ( wk_size > 0U ) && ( c < static_cast<real_t>( ws ) ) && ( sg > 0.0_re ) ) {
+    if ( ( nullptr != window ) && ( nullptr != kernel ) && ( wk_size > 0U ) && ( c >= 0.0_re ) && ( c < static_cast<real_t>( ws ) ) && ( sg > 0.0_re ) ) {
         real_t r, sum = 0.0_re;
         size_t i;
         real_t l, center;
-- 
2.43.0

