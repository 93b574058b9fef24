From d2c33cfc8fe06d588c2f4ad90067b2d1884027ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 01/43] fix: Subtract flattens the region only if the second
 image allows it

---
 src/image_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index f0abeab..a9aa16a 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1915,7 +1915,7 @@ namespace Image_Function
         const uint8_t colorCount = CheckCommonColorCount( in1, in2, out );
         width = width * colorCount;
 
-        OptimiseRoi( width, height, in1, in1, out );
+        OptimiseRoi( width, height, in1, in2, out );
 
         const uint32_t rowSize1 = in1.rowSize();
         const uint32_t rowSize2 = in2.rowSize();
-- 
2.43.0


From c21c1b673cd4e26b09e95daa1a2e26337cef7816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 02/43] fix: 8/16 bit conversion starts at the requested pixel
 of a colour image

---
 src/image_function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index a9aa16a..c6d70f8 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -472,7 +472,7 @@ namespace Image_Function
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint16_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint16_t * outYEnd = outY + height * rowSizeOut;
@@ -528,7 +528,7 @@ namespace Image_Function
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint8_t * outYEnd = outY + height * rowSizeOut;
-- 
2.43.0


From 033ff623825cbe1b0ae931acba0606568f95b8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 03/43] fix: gray-scale and RGB conversions handle RGBA images

---
 src/image_function.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index c6d70f8..400980e 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -574,7 +574,7 @@ namespace Image_Function
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint8_t colorCount = RGB;
+        const uint8_t colorCount = in.colorCount();
 
         const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut;
@@ -617,6 +617,11 @@ namespace Image_Function
             return;
         }
 
+        if ( in.colorCount() == RGBA ) {
+            RgbaToRgb( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+            return;
+        }
+
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-- 
2.43.0


From c103b6f40a1c8750ee72322de65d88fa95c15c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 04/43] fix: Histogram visits the whole region of a colour
 image

---
 src/image_function.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 400980e..5e4a7a3 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -872,9 +872,11 @@ namespace Image_Function
     void Histogram( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, std::vector<uint32_t> & histogram )
     {
         ValidateImageParameters( image, x, y, width, height );
-        OptimiseRoi( width, height, image );
 
         const uint32_t colorCount = image.colorCount();
+        width = width * colorCount;
+
+        OptimiseRoi( width, height, image );
 
         histogram.resize( 256u * colorCount );
         std::fill( histogram.begin(), histogram.end(), 0u );
@@ -925,10 +927,12 @@ namespace Image_Function
                     std::vector<uint32_t> & histogram )
     {
         ValidateImageParameters( image, x, y, mask, maskX, maskY, width, height );
-        OptimiseRoi( width, height, image, mask );
 
         const uint32_t colorCount = image.colorCount();
 
+        if ( colorCount == 1 )
+            OptimiseRoi( width, height, image, mask );
+
         histogram.resize( 256u * colorCount );
         std::fill( histogram.begin(), histogram.end(), 0u );
 
@@ -955,7 +959,7 @@ namespace Image_Function
             for ( ; imageY != imageYEnd; imageY += rowSize, imageYMask += rowSizeMask ) {
                 const uint8_t * imageX = imageY;
                 const uint8_t * imageXMask = imageYMask;
-                const uint8_t * imageXEnd = imageX + width;
+                const uint8_t * imageXEnd = imageX + width * colorCount;
 
                 for ( ; imageX != imageXEnd; imageX += colorCount, ++imageXMask ) {
                     if ( ( *imageXMask ) > 0 ) {
-- 
2.43.0


From c154f0c28d4ee93b1d5413b7ab2d043eece53e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 05/43] fix: Resize refuses images of different colour count

---
 src/image_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 5e4a7a3..e93e1eb 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1454,7 +1454,7 @@ namespace Image_Function
         ValidateImageParameters( in, startXIn, startYIn, widthIn, heightIn );
         ValidateImageParameters( out, startXOut, startYOut, widthOut, heightOut );
 
-        const uint8_t colorCount = in.colorCount();
+        const uint8_t colorCount = CheckCommonColorCount( in, out );
 
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
-- 
2.43.0


From 8a8bd6274fcf8bfc22fb0c0542f7a2ed0fc3d9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 06/43] fix: Histogram refuses a mask that is not gray-scale

---
 src/image_function.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index e93e1eb..ad19e62 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -927,6 +927,7 @@ namespace Image_Function
                     std::vector<uint32_t> & histogram )
     {
         ValidateImageParameters( image, x, y, mask, maskX, maskY, width, height );
+        VerifyGrayScaleImage( mask );
 
         const uint32_t colorCount = image.colorCount();
 
-- 
2.43.0


From 0ff202267bde93190fb22578d815bc8fd3e116e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 07/43] fix: Shift neither reads past the image nor moves by an
 extra pixel

---
 src/image_function.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index ad19e62..dd36bb5 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1788,8 +1788,8 @@ namespace Image_Function
         if ( shiftY > 0.0 )
             --shiftYIntegral;
 
-        const double coeffX = ( shiftX < 0.0 ) ? ( 1.0 + shiftX ) : shiftX;
-        const double coeffY = ( shiftY < 0.0 ) ? ( 1.0 + shiftY ) : shiftY;
+        const double coeffX = ( shiftX <= 0.0 ) ? ( 1.0 + shiftX ) : shiftX;
+        const double coeffY = ( shiftY <= 0.0 ) ? ( 1.0 + shiftY ) : shiftY;
 
         // 2^23 = 8388608, 2^23 * 256 is a integer limit
         const uint32_t coeff0 = static_cast<uint32_t>( ( coeffX ) * (coeffY)*16384 + 0.5 );
@@ -1802,14 +1802,14 @@ namespace Image_Function
 
         const uint32_t emptyLeftArea
             = ( shiftXIntegral < 0 && startXIn < static_cast<uint32_t>( -shiftXIntegral ) ) ? ( static_cast<uint32_t>( -shiftXIntegral ) - startXIn ) : 0u;
-        const uint32_t emptyRightArea = ( shiftXIntegral > 0 && limitX < startXIn + width + static_cast<uint32_t>( shiftXIntegral ) )
+        const uint32_t emptyRightArea = ( shiftXIntegral >= 0 && limitX < startXIn + width + static_cast<uint32_t>( shiftXIntegral ) )
                                             ? ( startXIn + width + static_cast<uint32_t>( shiftXIntegral ) - limitX )
                                             : 0u;
         const uint32_t realWidth = width - emptyLeftArea - emptyRightArea;
 
         const uint32_t emptyTopArea
             = ( shiftYIntegral < 0 && startYIn < static_cast<uint32_t>( -shiftYIntegral ) ) ? ( static_cast<uint32_t>( -shiftYIntegral ) - startYIn ) : 0u;
-        const uint32_t emptyBottomArea = ( shiftYIntegral > 0 && limitY < startYIn + height + static_cast<uint32_t>( shiftYIntegral ) )
+        const uint32_t emptyBottomArea = ( shiftYIntegral >= 0 && limitY < startYIn + height + static_cast<uint32_t>( shiftYIntegral ) )
                                              ? ( startYIn + height + static_cast<uint32_t>( shiftYIntegral ) - limitY )
                                              : 0u;
         const uint32_t realHeight = height - emptyTopArea - emptyBottomArea;
-- 
2.43.0


From 4deaf502619fb42647bdd7459822601cc6ce788d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 08/43] fix: SIMD 8/16 bit conversion keeps the order of pixels

---
 src/image_function_simd.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index d4a8764..b600c33 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -237,16 +237,18 @@ namespace avx512
                          uint32_t totalSimdWidth, uint32_t nonSimdWidth )
     {
         const simd zero = _mm512_setzero_si512();
+        const simd order = _mm512_setr_epi64( 0, 4, 1, 5, 2, 6, 3, 7 );
         for ( ; outY != outYEnd; outY += rowSizeOut, inY += rowSizeIn ) {
             const simd * src = reinterpret_cast<const simd *>( inY );
             simd * dst = reinterpret_cast<simd *>( outY );
             const simd * srcEnd = src + simdWidth;
 
             for ( ; src != srcEnd; ++src ) {
-                const simd srcData = _mm512_loadu_si512( src );
+                // unpacking works within 128-bit lanes so 64-bit parts have to be reordered to keep the order of pixels
+                const simd srcData = _mm512_permutexvar_epi64( order, _mm512_loadu_si512( src ) );
 
                 _mm512_storeu_si512( dst++, _mm512_unpacklo_epi8( zero, srcData ) );
-                _mm512_storeu_si512( dst++, _mm512_unpacklo_epi8( zero, srcData ) );
+                _mm512_storeu_si512( dst++, _mm512_unpackhi_epi8( zero, srcData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -263,6 +265,8 @@ namespace avx512
     void ConvertTo8Bit( uint8_t * outY, const uint8_t * outYEnd, const uint16_t * inY, uint32_t rowSizeOut, uint32_t rowSizeIn, uint32_t simdWidth,
                         uint32_t totalSimdWidth, uint32_t nonSimdWidth )
     {
+        const simd order = _mm512_setr_epi64( 0, 2, 4, 6, 1, 3, 5, 7 );
+
         for ( ; outY != outYEnd; outY += rowSizeOut, inY += rowSizeIn ) {
             const simd * src = reinterpret_cast<const simd *>( inY );
             simd * dst = reinterpret_cast<simd *>( outY );
@@ -274,7 +278,10 @@ namespace avx512
                 const simd srcData2 = _mm512_loadu_si512( src );
                 ++src;
 
-                _mm512_storeu_si512( dst, _mm512_packus_epi16( _mm512_srli_epi16( srcData1, 8 ), _mm512_srli_epi16( srcData2, 8 ) ) );
+                // packing works within 128-bit lanes so 64-bit parts have to be reordered to keep the order of pixels
+                const simd packedData = _mm512_packus_epi16( _mm512_srli_epi16( srcData1, 8 ), _mm512_srli_epi16( srcData2, 8 ) );
+
+                _mm512_storeu_si512( dst, _mm512_permutexvar_epi64( order, packedData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -703,10 +710,11 @@ namespace avx
             const simd * srcEnd = src + simdWidth;
 
             for ( ; src != srcEnd; ++src ) {
-                const simd srcData = _mm256_loadu_si256( src );
+                // unpacking works within 128-bit lanes so 64-bit parts have to be reordered to keep the order of pixels
+                const simd srcData = _mm256_permute4x64_epi64( _mm256_loadu_si256( src ), 0xD8 );
 
                 _mm256_storeu_si256( dst++, _mm256_unpacklo_epi8( zero, srcData ) );
-                _mm256_storeu_si256( dst++, _mm256_unpacklo_epi8( zero, srcData ) );
+                _mm256_storeu_si256( dst++, _mm256_unpackhi_epi8( zero, srcData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -734,7 +742,10 @@ namespace avx
                 const simd srcData2 = _mm256_loadu_si256( src );
                 ++src;
 
-                _mm256_storeu_si256( dst, _mm256_packus_epi16( _mm256_srli_epi16( srcData1, 8 ), _mm256_srli_epi16( srcData2, 8 ) ) );
+                // packing works within 128-bit lanes so 64-bit parts have to be reordered to keep the order of pixels
+                const simd packedData = _mm256_packus_epi16( _mm256_srli_epi16( srcData1, 8 ), _mm256_srli_epi16( srcData2, 8 ) );
+
+                _mm256_storeu_si256( dst, _mm256_permute4x64_epi64( packedData, 0xD8 ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -1323,7 +1334,7 @@ namespace sse
                 const simd srcData = _mm_loadu_si128( src );
 
                 _mm_storeu_si128( dst++, _mm_unpacklo_epi8( zero, srcData ) );
-                _mm_storeu_si128( dst++, _mm_unpacklo_epi8( zero, srcData ) );
+                _mm_storeu_si128( dst++, _mm_unpackhi_epi8( zero, srcData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
-- 
2.43.0


From f6b139f6be4cf2219940acbe242241ca871bef9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 09/43] fix: SIMD Accumulate and ProjectionProfile add pixels
 to their own position

---
 src/image_function_simd.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index b600c33..b7898b7 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -115,6 +115,7 @@ namespace avx512
                      uint32_t nonSimdWidth )
     {
         simd zero = _mm512_setzero_si512();
+        const simd order = _mm512_setr_epi32( 0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15 );
 
         const uint32_t width = totalSimdWidth + nonSimdWidth;
 
@@ -124,7 +125,8 @@ namespace avx512
             simd * dst = reinterpret_cast<simd *>( outY );
 
             for ( ; src != srcEnd; ++src ) {
-                simd data = _mm512_loadu_si512( src );
+                // unpacking works within 128-bit lanes so 32-bit parts have to be reordered to keep the order of pixels
+                const simd data = _mm512_permutexvar_epi32( order, _mm512_loadu_si512( src ) );
 
                 const simd dataLo = _mm512_unpacklo_epi8( data, zero );
                 const simd dataHi = _mm512_unpackhi_epi8( data, zero );
@@ -386,6 +388,7 @@ namespace avx512
                             uint32_t nonSimdWidth )
     {
         const simd zero = _mm512_setzero_si512();
+        const simd order = _mm512_setr_epi32( 0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15 );
 
         if ( horizontal ) {
             const uint8_t * imageSimdXEnd = imageStart + totalSimdWidth;
@@ -403,7 +406,8 @@ namespace avx512
                 for ( ; imageSimdY != imageSimdYEnd; imageSimdY += rowSize ) {
                     const simd * src = reinterpret_cast<const simd *>( imageSimdY );
 
-                    const simd data = _mm512_loadu_si512( src );
+                    // unpacking works within 128-bit lanes so 32-bit parts have to be reordered to keep the order of pixels
+                    const simd data = _mm512_permutexvar_epi32( order, _mm512_loadu_si512( src ) );
 
                     const simd dataLo = _mm512_unpacklo_epi8( data, zero );
                     const simd dataHi = _mm512_unpackhi_epi8( data, zero );
@@ -582,6 +586,7 @@ namespace avx
                      uint32_t nonSimdWidth )
     {
         simd zero = _mm256_setzero_si256();
+        const simd order = _mm256_setr_epi32( 0, 2, 4, 6, 1, 3, 5, 7 );
 
         const uint32_t width = totalSimdWidth + nonSimdWidth;
 
@@ -591,7 +596,8 @@ namespace avx
             simd * dst = reinterpret_cast<simd *>( outY );
 
             for ( ; src != srcEnd; ++src ) {
-                simd data = _mm256_loadu_si256( src );
+                // unpacking works within 128-bit lanes so 32-bit parts have to be reordered to keep the order of pixels
+                const simd data = _mm256_permutevar8x32_epi32( _mm256_loadu_si256( src ), order );
 
                 const simd dataLo = _mm256_unpacklo_epi8( data, zero );
                 const simd dataHi = _mm256_unpackhi_epi8( data, zero );
@@ -852,6 +858,7 @@ namespace avx
                             uint32_t nonSimdWidth )
     {
         const simd zero = _mm256_setzero_si256();
+        const simd order = _mm256_setr_epi32( 0, 2, 4, 6, 1, 3, 5, 7 );
 
         if ( horizontal ) {
             const uint8_t * imageSimdXEnd = imageStart + totalSimdWidth;
@@ -869,7 +876,8 @@ namespace avx
                 for ( ; imageSimdY != imageSimdYEnd; imageSimdY += rowSize ) {
                     const simd * src = reinterpret_cast<const simd *>( imageSimdY );
 
-                    const simd data = _mm256_loadu_si256( src );
+                    // unpacking works within 128-bit lanes so 32-bit parts have to be reordered to keep the order of pixels
+                    const simd data = _mm256_permutevar8x32_epi32( _mm256_loadu_si256( src ), order );
 
                     const simd dataLo = _mm256_unpacklo_epi8( data, zero );
                     const simd dataHi = _mm256_unpackhi_epi8( data, zero );
-- 
2.43.0


From 03516448695cd1b231b58550176727b230fb0686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 10/43] fix: SIMD 8/16 bit conversion starts at the requested
 pixel of a colour image

---
 src/image_function_simd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index b7898b7..1da28cd 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2748,7 +2748,7 @@ namespace simd
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint16_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint16_t * outYEnd = outY + height * rowSizeOut;
@@ -2787,7 +2787,7 @@ namespace simd
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint8_t * outYEnd = outY + height * rowSizeOut;
-- 
2.43.0


From 25af579b627cf71336dc2e43012eea3dc95bc154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 11/43] fix: SIMD Accumulate accepts colour images as the
 scalar one does

---
 src/image_function_simd.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 1da28cd..c50571b 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2581,7 +2581,6 @@ namespace simd
         }
 
         Image_Function::ValidateImageParameters( image, x, y, width, height );
-        Image_Function::VerifyGrayScaleImage( image );
         width = width * colorCount;
 
         if ( result.size() != width * height )
-- 
2.43.0


From 0aaec06fa1e84aecd6597c953e4f60006fba3a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 12/43] fix: SIMD ConvertToRgb handles RGBA images

---
 src/image_function_simd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index c50571b..d432956 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2824,8 +2824,8 @@ namespace simd
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         Image_Function::VerifyRGBImage( out );
 
-        if ( in.colorCount() == RGB ) {
-            Image_Function::Copy( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        if ( in.colorCount() != GRAY_SCALE ) {
+            Image_Function::ConvertToRgb( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
             return;
         }
 
-- 
2.43.0


From 6d8a187675c777d4bbc64c74aadeee6e6eb91944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:44 +0000
Subject: [PATCH 13/43] fix: convenience forms give their output the colour
 count of the input

---
 src/image_function_helper.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index 62ef931..fa6aa82 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -352,7 +352,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( in.width(), in.height() );
+        Image out = in.generate( in.width(), in.height(), in.colorCount() );
 
         gammaCorrection( in, 0, 0, out, 0, 0, out.width(), out.height(), a, gamma );
 
@@ -371,7 +371,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, width, height );
 
-        Image out = in.generate( width, height );
+        Image out = in.generate( width, height, in.colorCount() );
 
         gammaCorrection( in, startXIn, startYIn, out, 0, 0, width, height, a, gamma );
 
@@ -536,7 +536,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( in.width(), in.height() );
+        Image out = in.generate( in.width(), in.height(), in.colorCount() );
 
         lookupTable( in, 0, 0, out, 0, 0, out.width(), out.height(), table );
 
@@ -555,7 +555,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, width, height );
 
-        Image out = in.generate( width, height );
+        Image out = in.generate( width, height, in.colorCount() );
 
         lookupTable( in, startXIn, startYIn, out, 0, 0, width, height, table );
 
@@ -657,7 +657,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( in.width(), in.height() );
+        Image out = in.generate( in.width(), in.height(), in.colorCount() );
 
         normalize( in, 0, 0, out, 0, 0, out.width(), out.height() );
 
@@ -675,7 +675,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, width, height );
 
-        Image out = in.generate( width, height );
+        Image out = in.generate( width, height, in.colorCount() );
 
         normalize( in, startXIn, startYIn, out, 0, 0, width, height );
 
@@ -710,7 +710,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( widthOut, heightOut );
+        Image out = in.generate( widthOut, heightOut, in.colorCount() );
 
         resize( in, 0, 0, in.width(), in.height(), out, 0, 0, widthOut, heightOut );
 
@@ -730,7 +730,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, widthIn, heightIn );
 
-        Image out = in.generate( widthOut, heightOut );
+        Image out = in.generate( widthOut, heightOut, in.colorCount() );
 
         resize( in, startXIn, startYIn, widthIn, heightIn, out, 0, 0, widthOut, heightOut );
 
-- 
2.43.0


From 2ca4bee6c1ef9ef6e7dc733957f3653c422a88c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 14/43] fix: a worker does not read the task count of a
 provider after completing its task

---
 src/thread_pool.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index af9a214..735623c 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -50,9 +50,10 @@ AbstractTaskProvider & AbstractTaskProvider::operator=( const AbstractTaskProvid
 
 void AbstractTaskProvider::_taskRun( bool skip )
 {
+    const size_t taskCount = _taskCount;
     const size_t taskId = _givenTaskCount++;
 
-    if ( taskId < _taskCount ) {
+    if ( taskId < taskCount ) {
         if ( !skip ) {
             try {
                 _task( taskId );
@@ -64,9 +65,8 @@ void AbstractTaskProvider::_taskRun( bool skip )
             }
         }
 
-        const size_t completedTasks = ( ++_completedTaskCount );
-
-        if ( completedTasks == _taskCount ) {
+        // as soon as this task is counted the object may be destroyed by its owner unless it is the last task
+        if ( ++_completedTaskCount == taskCount ) {
             _completion.lock();
 
             _running = false;
-- 
2.43.0


From 5f5bb5dd971605f1528b7663daa56e28a20c04dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 15/43] fix: task provider flags shared with workers are atomic

---
 src/thread_pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thread_pool.h b/src/thread_pool.h
index 3a05aa0..242b420 100644
--- a/src/thread_pool.h
+++ b/src/thread_pool.h
@@ -55,12 +55,12 @@ private:
     std::atomic<size_t> _givenTaskCount; // number of tasks which were given to thread pool
     std::atomic<size_t> _completedTaskCount; // number of completed tasks
 
-    bool _running; // boolean variable specifies the state of tasks processing
+    std::atomic<bool> _running; // boolean variable specifies the state of tasks processing
     std::mutex _completion; // mutex for synchronization reporting about completion of all tasks
                             // this mutex is waited in _wait() function
     std::condition_variable _waiting; // condition variable for verification that all tasks are really completed
 
-    bool _exceptionRaised; // notifies whether an exception raised during task execution
+    std::atomic<bool> _exceptionRaised; // notifies whether an exception raised during task execution
 
     void _taskRun( bool skip ); // function is called only by thread pool to call _task() function and increment counters
 };
-- 
2.43.0


From 198902a0bdd7783b1ca55bf557f728751b0bc250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 16/43] fix: tasks removed from thread pool are counted as
 completed

---
 src/thread_pool.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 735623c..bf74f91 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -238,11 +238,18 @@ bool ThreadPool::empty()
 
 void ThreadPool::remove( AbstractTaskProvider * provider )
 {
-    _taskInfo.lock();
-
-    _task.remove( provider );
+    std::lock_guard<std::mutex> _lock( _taskInfo );
 
-    _taskInfo.unlock();
+    for ( std::list<AbstractTaskProvider *>::iterator task = _task.begin(); task != _task.end(); ) {
+        if ( *task == provider ) {
+            task = _task.erase( task );
+            // a removed task is counted as completed. Otherwise the provider would wait for it forever
+            provider->_taskRun( true );
+        }
+        else {
+            ++task;
+        }
+    }
 }
 
 void ThreadPool::clear()
-- 
2.43.0


From 5e845c5a89eb33703130f91289b1cc62f214d136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 17/43] fix: clearing a thread pool completes its tasks instead
 of executing task number 1

---
 src/thread_pool.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index bf74f91..07b1247 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -254,12 +254,10 @@ void ThreadPool::remove( AbstractTaskProvider * provider )
 
 void ThreadPool::clear()
 {
-    _taskInfo.lock();
+    std::lock_guard<std::mutex> _lock( _taskInfo );
     // complete all tasks without real computations. It helps to avoid a deadlock in a case when thread pool is destroyed
-    std::for_each( _task.begin(), _task.end(), []( AbstractTaskProvider * task ) { task->_task( true ); } );
+    std::for_each( _task.begin(), _task.end(), []( AbstractTaskProvider * task ) { task->_taskRun( true ); } );
     _task.clear();
-
-    _taskInfo.unlock();
 }
 
 void ThreadPool::stop()
-- 
2.43.0


From 9915f07a69ca93631d8e0e28f776f51899d2ed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 18/43] fix: worker threads read their exit indicator only
 under the lock

---
 src/thread_pool.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 07b1247..cf094b3 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -289,29 +289,24 @@ void ThreadPool::_workerThread( ThreadPool * pool, size_t threadId )
         pool->_creation.unlock();
     }
 
-    while ( !pool->_exit[threadId] ) {
+    while ( true ) {
         std::unique_lock<std::mutex> _mutexLock( pool->_taskInfo );
         pool->_waiting.wait( _mutexLock, [&] { return pool->_run[threadId]; } );
-        _mutexLock.unlock();
 
         if ( pool->_exit[threadId] )
             break;
 
-        pool->_taskInfo.lock();
-
         if ( !pool->_task.empty() ) {
             AbstractTaskProvider * task = pool->_task.front();
 
             pool->_task.pop_front();
 
-            pool->_taskInfo.unlock();
+            _mutexLock.unlock();
 
             task->_taskRun( false );
         }
         else {
             pool->_run[threadId] = 0;
-
-            pool->_taskInfo.unlock();
         }
     }
 
-- 
2.43.0


From 6e4a0f252b4589387003a1f25f8b1beba150b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 19/43] fix: a failed allocation while adding tasks does not
 leave the thread pool locked

---
 src/thread_pool.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index cf094b3..053e1f2 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -211,18 +211,19 @@ void ThreadPool::add( AbstractTaskProvider * provider, size_t taskCount )
     if ( threadCount() == 0 )
         throw penguinVException( "No threads in thread pool" );
 
+    // memory is allocated before any change of the state so a failure of it leaves the pool and the provider untouched
+    std::list<AbstractTaskProvider *> tasks( taskCount, provider );
+
     provider->_completion.lock();
     provider->_running = true;
     provider->_completion.unlock();
 
-    _taskInfo.lock();
+    std::lock_guard<std::mutex> _lock( _taskInfo );
 
-    _task.insert( _task.end(), taskCount, provider );
+    _task.splice( _task.end(), tasks );
 
     std::fill( _run.begin(), _run.end(), 1 );
     _waiting.notify_all();
-
-    _taskInfo.unlock();
 }
 
 bool ThreadPool::empty()
-- 
2.43.0


From c7a296dcb1f92df9b822affcdab2e8c32d0d0286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 20/43] fix: a failed allocation or thread creation in
 ThreadPool::resize does not leave the pool locked or inconsistent

---
 src/thread_pool.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 053e1f2..0c43611 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -161,10 +161,13 @@ void ThreadPool::resize( size_t threads )
         throw penguinVException( "Try to set zero threads in thread pool" );
 
     if ( threads > threadCount() ) {
-        _taskInfo.lock();
-        _run.resize( threads, 1 );
-        _exit.resize( threads, 0 );
-        _taskInfo.unlock();
+        _worker.reserve( threads );
+
+        {
+            std::lock_guard<std::mutex> _lock( _taskInfo );
+            _run.resize( threads, 1 );
+            _exit.resize( threads, 0 );
+        }
 
         _threadCount = threads;
 
@@ -187,14 +190,12 @@ void ThreadPool::resize( size_t threads )
             _worker.back().join();
 
             _worker.pop_back();
+        }
 
-            _taskInfo.lock();
-
-            _exit.pop_back();
-            _run.pop_back();
+        std::lock_guard<std::mutex> _lock( _taskInfo );
 
-            _taskInfo.unlock();
-        }
+        _exit.resize( threads );
+        _run.resize( threads );
     }
 }
 
-- 
2.43.0


From 172d098436e8f3433d73ab421fec91041401d53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 21/43] fix: a stopped thread pool can be resized and used
 again

---
 src/thread_pool.cpp | 11 +++++++++++
 src/thread_pool.h   |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 0c43611..a09ae69 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -169,6 +169,11 @@ void ThreadPool::resize( size_t threads )
             _exit.resize( threads, 0 );
         }
 
+        {
+            std::lock_guard<std::mutex> _lock( _creation );
+            _threadsCreated = false;
+        }
+
         _threadCount = threads;
 
         while ( threads > threadCount() )
@@ -279,6 +284,12 @@ void ThreadPool::stop()
             thread->join();
 
         _worker.clear();
+
+        // the pool may be used again so indicators of finished threads must not be left
+        std::lock_guard<std::mutex> _lock( _taskInfo );
+
+        _exit.clear();
+        _run.clear();
     }
 }
 
diff --git a/src/thread_pool.h b/src/thread_pool.h
index 242b420..30399d8 100644
--- a/src/thread_pool.h
+++ b/src/thread_pool.h
@@ -113,7 +113,7 @@ private:
     std::mutex _creation; // mutex for thread creation verification
     std::atomic<size_t> _runningThreadCount; // variable used to calculate a number of running threads
     std::condition_variable _completeCreation; // condition variable for verification that all threads are created
-    std::size_t _threadCount; // current number of threads in pool
+    std::atomic<std::size_t> _threadCount; // current number of threads in pool
     bool _threadsCreated; // indicator for pool that all threads are created
 
     std::list<AbstractTaskProvider *> _task; // a list of tasks to perform
-- 
2.43.0


From b2f5892d5d1e8ce01a0633e115ef479f26abb048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 22/43] fix: copy construction of an image releases the buffer
 when copying of the pixels fails

---
 src/image_buffer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index 6ed23b0..ffadd00 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -44,9 +44,12 @@ namespace penguinV
             resize( width_, height_ );
         }
 
+        // Delegation makes the destructor release the buffer if copying of it fails.
         ImageTemplate( const ImageTemplate & image )
-            : _deviceType( image._deviceType )
+            : ImageTemplate()
         {
+            _deviceType = image._deviceType;
+
             copy( image );
         }
 
-- 
2.43.0


From b2c97f5adf97fc101f4d4b517c4fa42cf4faac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 23/43] fix: self-assignment of an image keeps its pixels

---
 src/image_buffer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index ffadd00..4c7b7fe 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -218,6 +218,10 @@ namespace penguinV
                 throw penguinVException( "Cannot copy image of one type to another type." );
             }
 
+            if ( this == &image ) {
+                return;
+            }
+
             clear();
 
             _width = image._width;
-- 
2.43.0


From 786383e945c8f99a894688a4be92afa3554d5aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 24/43] fix: an image whose allocation failed stays empty

---
 src/image_buffer.h | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index 4c7b7fe..4885812 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -86,17 +86,18 @@ namespace penguinV
         void resize( uint32_t width_, uint32_t height_ )
         {
             if ( width_ > 0 && height_ > 0 && ( width_ != _width || height_ != _height ) ) {
+                uint32_t rowSize_ = width_ * colorCount();
+                if ( rowSize_ % alignment() != 0 ) {
+                    rowSize_ = ( rowSize_ / alignment() + 1 ) * alignment();
+                }
+
                 clear();
 
+                _data = _allocate( static_cast<size_t>( height_ ) * static_cast<size_t>( rowSize_ ) );
+
                 _width = width_;
                 _height = height_;
-
-                _rowSize = width() * colorCount();
-                if ( _rowSize % alignment() != 0 ) {
-                    _rowSize = ( _rowSize / alignment() + 1 ) * alignment();
-                }
-
-                _data = _allocate( static_cast<size_t>( _height ) * static_cast<size_t>( _rowSize ) );
+                _rowSize = rowSize_;
             }
         }
 
@@ -224,15 +225,15 @@ namespace penguinV
 
             clear();
 
-            _width = image._width;
-            _height = image._height;
-
             _colorChannelCount = image._colorChannelCount;
-            _rowSize = image._rowSize;
             _alignment = image._alignment;
 
             if ( image._data != nullptr ) {
-                _data = _allocate( static_cast<size_t>( _height ) * static_cast<size_t>( _rowSize ) );
+                _data = _allocate( static_cast<size_t>( image._height ) * static_cast<size_t>( image._rowSize ) );
+
+                _width = image._width;
+                _height = image._height;
+                _rowSize = image._rowSize;
 
                 _copy( _data, image._data, sizeof( TColorDepth ) * _height * _rowSize );
             }
-- 
2.43.0


From cfb81f34af4115eedd95b8628fcf555a8e46477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 25/43] fix: image rows which do not fit into 32 bits are
 refused

---
 src/image_buffer.h | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index 4885812..9086392 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -86,10 +86,7 @@ namespace penguinV
         void resize( uint32_t width_, uint32_t height_ )
         {
             if ( width_ > 0 && height_ > 0 && ( width_ != _width || height_ != _height ) ) {
-                uint32_t rowSize_ = width_ * colorCount();
-                if ( rowSize_ % alignment() != 0 ) {
-                    rowSize_ = ( rowSize_ / alignment() + 1 ) * alignment();
-                }
+                const uint32_t rowSize_ = _validRowSize( width_, colorCount(), alignment() );
 
                 clear();
 
@@ -129,6 +126,8 @@ namespace penguinV
                 throw penguinVException( "Invalid image assignment parameters" );
             }
 
+            const uint32_t rowSize_ = _validRowSize( width_, colorCount_, alignment_ );
+
             clear();
 
             _width = width_;
@@ -139,10 +138,7 @@ namespace penguinV
 
             _data = data_;
 
-            _rowSize = width() * colorCount();
-            if ( _rowSize % alignment() != 0 ) {
-                _rowSize = ( _rowSize / alignment() + 1 ) * alignment();
-            }
+            _rowSize = rowSize_;
         }
 
         bool empty() const
@@ -241,13 +237,10 @@ namespace penguinV
 
         bool mutate( uint32_t width_, uint32_t height_, uint8_t colorCount_, uint8_t alignment_ )
         {
-            if ( colorCount_ > 0 && alignment_ > 0 ) {
-                uint32_t rowSize_ = width_ * colorCount_;
-                if ( rowSize_ % alignment_ != 0 ) {
-                    rowSize_ = ( rowSize_ / alignment_ + 1 ) * alignment_;
-                }
+            if ( width_ > 0 && height_ > 0 && colorCount_ > 0 && alignment_ > 0 ) {
+                const uint64_t rowSize_ = _alignedRowSize( width_, colorCount_, alignment_ );
 
-                if ( rowSize_ * height_ != _rowSize * _height ) {
+                if ( rowSize_ > UINT32_MAX || rowSize_ * height_ != static_cast<uint64_t>( _rowSize ) * _height ) {
                     return false;
                 }
 
@@ -255,7 +248,7 @@ namespace penguinV
                 _height = height_;
                 _colorChannelCount = colorCount_;
                 _alignment = alignment_;
-                _rowSize = rowSize_;
+                _rowSize = static_cast<uint32_t>( rowSize_ );
 
                 return true;
             }
@@ -294,6 +287,23 @@ namespace penguinV
         }
 
     private:
+        static uint64_t _alignedRowSize( uint32_t width_, uint8_t colorCount_, uint8_t alignment_ )
+        {
+            const uint64_t rowSize_ = static_cast<uint64_t>( width_ ) * colorCount_;
+
+            return ( rowSize_ + alignment_ - 1 ) / alignment_ * alignment_;
+        }
+
+        static uint32_t _validRowSize( uint32_t width_, uint8_t colorCount_, uint8_t alignment_ )
+        {
+            const uint64_t rowSize_ = _alignedRowSize( width_, colorCount_, alignment_ );
+            if ( rowSize_ > UINT32_MAX ) {
+                throw penguinVException( "Image row is too large" );
+            }
+
+            return static_cast<uint32_t>( rowSize_ );
+        }
+
         TColorDepth * _allocate( size_t size ) const
         {
             return FunctionFacade::instance().allocate( _deviceType )( size );
-- 
2.43.0


From 45408c5795a96834b7cec6a619df94625847c542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 26/43] fix: the CPU allocator reserves memory under its lock
 and releases the lock when an exception leaves a function

---
 src/memory/cpu_memory.h       | 24 +++++++++++++-----------
 src/memory/memory_allocator.h |  2 +-
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/memory/cpu_memory.h b/src/memory/cpu_memory.h
index 33eb783..99e34e0 100644
--- a/src/memory/cpu_memory.h
+++ b/src/memory/cpu_memory.h
@@ -43,9 +43,15 @@ namespace cpu_Memory
 
         virtual ~MemoryAllocator()
         {
-            _lock.lock();
+            const std::lock_guard<std::mutex> guard( _lock );
             _free();
-            _lock.unlock();
+        }
+
+        // Allocates a pool of memory, see the base class.
+        void reserve( size_t size ) override
+        {
+            const std::lock_guard<std::mutex> guard( _lock );
+            BaseMemoryAllocator::reserve( size );
         }
 
         // Returns a pointer to an allocated memory. If memory size of allocated memory chuck is enough for requested size
@@ -53,7 +59,7 @@ namespace cpu_Memory
         template <typename _DataType = uint8_t>
         _DataType * allocate( size_t size = 1 )
         {
-            _lock.lock();
+            std::unique_lock<std::mutex> guard( _lock );
             if ( _data != nullptr ) {
                 const size_t overallSize = size * sizeof( _DataType );
 
@@ -65,12 +71,11 @@ namespace cpu_Memory
                         _DataType * address = reinterpret_cast<_DataType *>( _alignedData + *chunk );
                         _allocatedChunk.insert( std::pair<size_t, uint8_t>( *chunk, level ) );
                         _freeChunk[level].erase( chunk );
-                        _lock.unlock();
                         return address;
                     }
                 }
             }
-            _lock.unlock();
+            guard.unlock();
 
             // if no space in preallocated memory, allocate as usual memory
             return new _DataType[size];
@@ -81,7 +86,7 @@ namespace cpu_Memory
         template <typename _DataType>
         void free( _DataType * address )
         {
-            _lock.lock();
+            std::unique_lock<std::mutex> guard( _lock );
             if ( _data != nullptr && reinterpret_cast<uint8_t *>( address ) >= _alignedData ) {
                 auto pos = _allocatedChunk.find( static_cast<size_t>( reinterpret_cast<uint8_t *>( address ) - _alignedData ) );
 
@@ -89,11 +94,10 @@ namespace cpu_Memory
                     _freeChunk[pos->second].insert( pos->first );
                     _merge( pos->first, pos->second );
                     _allocatedChunk.erase( pos );
-                    _lock.unlock();
                     return;
                 }
             }
-            _lock.unlock();
+            guard.unlock();
 
             delete[] address;
         }
@@ -107,10 +111,9 @@ namespace cpu_Memory
         // first parameter is an offset from preallocated memory, second parameter is a power of 2 (level)
         std::map<size_t, uint8_t> _allocatedChunk;
 
-        // true memory allocation on CPU
+        // true memory allocation on CPU, the caller holds the lock
         virtual void _allocate( size_t size )
         {
-            _lock.lock();
             if ( _size != size && size > 0 ) {
                 if ( !_allocatedChunk.empty() ) {
                     throw std::logic_error( "Cannot free a memory on CPU. Not all objects were previously deallocated from allocator." );
@@ -125,7 +128,6 @@ namespace cpu_Memory
 
                 _size = size;
             }
-            _lock.unlock();
         }
 
         // true memory deallocation on CPU
diff --git a/src/memory/memory_allocator.h b/src/memory/memory_allocator.h
index d59dba1..50e1dcf 100644
--- a/src/memory/memory_allocator.h
+++ b/src/memory/memory_allocator.h
@@ -35,7 +35,7 @@ public:
 
     // Allocates a chunk of memory. We recommend to call this function only one time at the startup of an application.
     // Do not reallocate memory if some objects in your source code are allocated through this allocator.
-    void reserve( size_t size )
+    virtual void reserve( size_t size )
     {
         if ( size == 0 ) {
             throw std::logic_error( "Memory size cannot be 0" );
-- 
2.43.0


From a182714212c44029a3d72c2e08c7f4b7770ba06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 27/43] fix: a failed split of a memory chunk does not leave it
 on two levels

---
 src/memory/memory_allocator.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/memory/memory_allocator.h b/src/memory/memory_allocator.h
index 50e1dcf..4ea118c 100644
--- a/src/memory/memory_allocator.h
+++ b/src/memory/memory_allocator.h
@@ -116,7 +116,14 @@ protected:
             for ( ; startLevel > from; --startLevel, memorySize >>= 1 ) {
                 const size_t previousLevelValue = *_freeChunk[startLevel].begin();
                 _freeChunk[startLevel - 1u].insert( previousLevelValue );
-                _freeChunk[startLevel - 1u].insert( previousLevelValue + memorySize );
+                try {
+                    _freeChunk[startLevel - 1u].insert( previousLevelValue + memorySize );
+                }
+                catch ( ... ) {
+                    // The chunk must not be present on both levels.
+                    _freeChunk[startLevel - 1u].erase( previousLevelValue );
+                    throw;
+                }
                 _freeChunk[startLevel].erase( _freeChunk[startLevel].begin() );
             }
         }
-- 
2.43.0


From a1c460192813538091586ea5ac6f460e5ef66d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 28/43] fix: a chunk whose merging failed is not left both free
 and allocated

---
 src/memory/cpu_memory.h    | 7 +++++--
 src/opencl/opencl_memory.h | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/memory/cpu_memory.h b/src/memory/cpu_memory.h
index 99e34e0..4942e18 100644
--- a/src/memory/cpu_memory.h
+++ b/src/memory/cpu_memory.h
@@ -91,9 +91,12 @@ namespace cpu_Memory
                 auto pos = _allocatedChunk.find( static_cast<size_t>( reinterpret_cast<uint8_t *>( address ) - _alignedData ) );
 
                 if ( pos != _allocatedChunk.end() ) {
-                    _freeChunk[pos->second].insert( pos->first );
-                    _merge( pos->first, pos->second );
+                    const size_t offset = pos->first;
+                    const uint8_t level = pos->second;
+
+                    _freeChunk[level].insert( offset );
                     _allocatedChunk.erase( pos );
+                    _merge( offset, level );
                     return;
                 }
             }
diff --git a/src/opencl/opencl_memory.h b/src/opencl/opencl_memory.h
index c34177e..bee5f2a 100644
--- a/src/opencl/opencl_memory.h
+++ b/src/opencl/opencl_memory.h
@@ -106,9 +106,11 @@ namespace multiCL
                 auto pos = _allocatedChunk.find( memory );
 
                 if ( pos != _allocatedChunk.end() ) {
-                    _freeChunk[pos->second.second].insert( pos->second.first );
-                    _merge( pos->second.first, pos->second.second );
+                    const std::pair<size_t, uint8_t> chunk = pos->second;
+
+                    _freeChunk[chunk.second].insert( chunk.first );
                     _allocatedChunk.erase( pos );
+                    _merge( chunk.first, chunk.second );
                 }
             }
 
-- 
2.43.0


From 9eb38f081d5601a66636cf91a70d83146492a7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 29/43] fix: the OpenCL allocator releases a sub-buffer which
 it cannot register

---
 src/opencl/opencl_memory.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/opencl/opencl_memory.h b/src/opencl/opencl_memory.h
index bee5f2a..40364fa 100644
--- a/src/opencl/opencl_memory.h
+++ b/src/opencl/opencl_memory.h
@@ -80,7 +80,13 @@ namespace multiCL
                         throw std::logic_error( "Cannot allocate a subbuffer memory for OpenCL device" );
                     }
 
-                    _allocatedChunk.emplace( memory, std::pair<size_t, uint8_t>( *( _freeChunk[level].begin() ), level ) );
+                    try {
+                        _allocatedChunk.emplace( memory, std::pair<size_t, uint8_t>( *( _freeChunk[level].begin() ), level ) );
+                    }
+                    catch ( ... ) {
+                        clReleaseMemObject( memory );
+                        throw;
+                    }
                     _freeChunk[level].erase( _freeChunk[level].begin() );
                     return memory;
                 }
-- 
2.43.0


From c42443ed1b9432bdc74aa2d69c1c23cc121498af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 30/43] fix: memory requests whose size in bytes overflows do
 not get a small chunk

---
 src/memory/cpu_memory.h    | 3 ++-
 src/opencl/opencl_memory.h | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/memory/cpu_memory.h b/src/memory/cpu_memory.h
index 4942e18..871ada2 100644
--- a/src/memory/cpu_memory.h
+++ b/src/memory/cpu_memory.h
@@ -61,9 +61,10 @@ namespace cpu_Memory
         {
             std::unique_lock<std::mutex> guard( _lock );
             if ( _data != nullptr ) {
+                // The first comparison excludes an overflow of the overall size.
                 const size_t overallSize = size * sizeof( _DataType );
 
-                if ( overallSize < _size ) {
+                if ( size < _size && overallSize < _size ) {
                     const uint8_t level = _getAllocationLevel( overallSize );
 
                     if ( _split( level ) ) {
diff --git a/src/opencl/opencl_memory.h b/src/opencl/opencl_memory.h
index 40364fa..da0f732 100644
--- a/src/opencl/opencl_memory.h
+++ b/src/opencl/opencl_memory.h
@@ -64,6 +64,10 @@ namespace multiCL
         template <typename _DataType>
         cl_mem allocate( size_t size = 1 )
         {
+            if ( size > SIZE_MAX / sizeof( _DataType ) ) {
+                throw std::logic_error( "Cannot allocate a memory for OpenCL device" );
+            }
+
             size = size * sizeof( _DataType );
 
             if ( _data != NULL && size < _size ) {
-- 
2.43.0


From ce06473fb135dd40bf51f03c7c43ce648e2bb0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 31/43] fix: horizontal projection profile of colour images in
 Function_Pool

---
 src/function_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index 8a43caf..529a5ee 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -310,7 +310,7 @@ namespace Function_Pool
             _dataIn.horizontalProjection = horizontal;
             _process( _ProjectionProfile );
 
-            projection.resize( horizontal ? width : height );
+            projection.resize( horizontal ? width * image.colorCount() : height );
             _dataOut.getProjection( projection );
         }
 
-- 
2.43.0


From 1a3969929ba1360c3fbfd2f4f8479ae940ecb30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 32/43] fix: merge the RgbToRgba, RgbaToRgb and Shift entries
 of function tables

---
 src/image_function_helper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index fa6aa82..53ee2d8 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -63,8 +63,11 @@ namespace
         SET_FUNCTION( ProjectionProfile )
         SET_FUNCTION( Resize )
         SET_FUNCTION( RgbToBgr )
+        SET_FUNCTION( RgbToRgba )
+        SET_FUNCTION( RgbaToRgb )
         SET_FUNCTION( SetPixel )
         SET_FUNCTION( SetPixel2 )
+        SET_FUNCTION( Shift )
         SET_FUNCTION( Split )
         SET_FUNCTION( Subtract )
         SET_FUNCTION( Sum )
-- 
2.43.0


From ad3e766291f984e2359591aa53b82829e6fc52f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 33/43] fix: ImageManager keeps its converted images in place
 and never throws from its destructor

---
 src/penguinv/image_manager.h | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/penguinv/image_manager.h b/src/penguinv/image_manager.h
index b5fbd0f..61d3233 100644
--- a/src/penguinv/image_manager.h
+++ b/src/penguinv/image_manager.h
@@ -21,6 +21,7 @@
 #pragma once
 
 #include "../image_buffer.h"
+#include <deque>
 #include <vector>
 
 template <typename _Type>
@@ -52,6 +53,7 @@ public:
         : _type( requiredType )
         , _generateImage( generateImage )
         , _convertImage( convertImage )
+        , _restored( 0u )
     {}
 
     ~ImageManager()
@@ -59,10 +61,23 @@ public:
         for ( typename std::vector<ConstReferenceOwner<_Type> *>::iterator data = _input.begin(); data != _input.end(); ++data )
             delete *data;
 
-        for ( size_t i = 0u; i < _output.size(); ++i ) {
-            _restore( _outputClone[i], _output[i]->data );
+        try {
+            restore();
+        }
+        catch ( ... ) {
+            // A destructor must not throw. Call restore() to be informed about failures.
+        }
+
+        for ( typename std::vector<ReferenceOwner<_Type> *>::iterator data = _output.begin(); data != _output.end(); ++data )
+            delete *data;
+    }
 
-            delete _output[i];
+    // Copies all converted output images back to the original ones.
+    void restore()
+    {
+        while ( _restored < _output.size() ) {
+            const size_t i = _restored++;
+            _restore( _outputClone[i], _output[i]->data );
         }
     }
 
@@ -80,8 +95,8 @@ public:
     penguinV::ImageTemplate<_Type> & operator()( penguinV::ImageTemplate<_Type> & image )
     {
         if ( image.type() != _type ) {
-            _output.push_back( new ReferenceOwner<_Type>( image ) );
             _outputClone.push_back( _clone( image ) );
+            _output.push_back( new ReferenceOwner<_Type>( image ) );
             return _outputClone.back();
         }
         else {
@@ -95,8 +110,10 @@ private:
     ConvertImage _convertImage;
     std::vector<ConstReferenceOwner<_Type> *> _input;
     std::vector<ReferenceOwner<_Type> *> _output;
-    std::vector<penguinV::ImageTemplate<_Type>> _inputClone;
-    std::vector<penguinV::ImageTemplate<_Type>> _outputClone;
+    // References to these images are given out so adding new images must not move the existing ones.
+    std::deque<penguinV::ImageTemplate<_Type>> _inputClone;
+    std::deque<penguinV::ImageTemplate<_Type>> _outputClone;
+    size_t _restored;
 
     penguinV::Image _clone( const penguinV::ImageTemplate<_Type> & in )
     {
-- 
2.43.0


From 53d422f3e3f028826ce46c641bd26b58c88781e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 34/43] fix: convert all images to the type of the function
 called by the device independent interface

---
 src/penguinv/penguinv.cpp | 84 ++++++++++++++++++++++++++-------------
 1 file changed, 56 insertions(+), 28 deletions(-)

diff --git a/src/penguinv/penguinv.cpp b/src/penguinv/penguinv.cpp
index c0adb93..9e8cf01 100644
--- a/src/penguinv/penguinv.cpp
+++ b/src/penguinv/penguinv.cpp
@@ -85,6 +85,7 @@ namespace penguinV
     {
         initialize( in1, AbsoluteDifference )
             func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     void Accumulate( const Image & image, std::vector<uint32_t> & result )
@@ -94,7 +95,7 @@ namespace penguinV
 
     void Accumulate( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, std::vector<uint32_t> & result )
     {
-        initialize( image, Accumulate ) func( image, x, y, width, height, result );
+        initialize( image, Accumulate ) func( manager( image ), x, y, width, height, result );
     }
 
     Image BitwiseAnd( const Image & in1, const Image & in2 )
@@ -115,7 +116,8 @@ namespace penguinV
     void BitwiseAnd( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                      uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, BitwiseAnd ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, BitwiseAnd ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     Image BitwiseOr( const Image & in1, const Image & in2 )
@@ -136,7 +138,8 @@ namespace penguinV
     void BitwiseOr( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                     uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, BitwiseOr ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, BitwiseOr ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     Image BitwiseXor( const Image & in1, const Image & in2 )
@@ -157,7 +160,8 @@ namespace penguinV
     void BitwiseXor( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                      uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, BitwiseXor ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, BitwiseXor ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     Image ConvertToGrayScale( const Image & in )
@@ -179,6 +183,7 @@ namespace penguinV
                              uint32_t height )
     {
         initialize( in, ConvertToGrayScale ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     Image ConvertToRgb( const Image & in )
@@ -198,7 +203,8 @@ namespace penguinV
 
     void ConvertToRgb( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, ConvertToRgb ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, ConvertToRgb ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     void Copy( const Image & in, Image & out )
@@ -213,7 +219,8 @@ namespace penguinV
 
     void Copy( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Copy ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Copy ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     Image ExtractChannel( const Image & in, uint8_t channelId )
@@ -234,7 +241,8 @@ namespace penguinV
     void ExtractChannel( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                          uint8_t channelId )
     {
-        initialize( in, ExtractChannel ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, channelId );
+        initialize( in, ExtractChannel ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, channelId );
+        manager.restore();
     }
 
     void Fill( Image & image, uint8_t value )
@@ -244,7 +252,8 @@ namespace penguinV
 
     void Fill( Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, uint8_t value )
     {
-        initialize( image, Fill ) func( image, x, y, width, height, value );
+        initialize( image, Fill ) func( manager( image ), x, y, width, height, value );
+        manager.restore();
     }
 
     Image Flip( const Image & in, bool horizontal, bool vertical )
@@ -265,7 +274,8 @@ namespace penguinV
     void Flip( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                bool horizontal, bool vertical )
     {
-        initialize( in, Flip ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, horizontal, vertical );
+        initialize( in, Flip ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, horizontal, vertical );
+        manager.restore();
     }
 
     Image GammaCorrection( const Image & in, double a, double gamma )
@@ -286,13 +296,14 @@ namespace penguinV
     void GammaCorrection( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                           double a, double gamma )
     {
-        initialize( in, GammaCorrection ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, a, gamma );
+        initialize( in, GammaCorrection ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, a, gamma );
+        manager.restore();
     }
 
     uint8_t GetPixel( const Image & image, uint32_t x, uint32_t y )
     {
         initialize( image, GetPixel );
-        return func( image, x, y );
+        return func( manager( image ), x, y );
     }
 
     uint8_t GetThreshold( const std::vector<uint32_t> & histogram )
@@ -337,7 +348,8 @@ namespace penguinV
 
     void Invert( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Invert ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Invert ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     bool IsEqual( const Image & in1, const Image & in2 )
@@ -348,7 +360,7 @@ namespace penguinV
     bool IsEqual( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, uint32_t width, uint32_t height )
     {
         initialize( in1, IsEqual );
-        return func( in1, startX1, startY1, in2, startX2, startY2, width, height );
+        return func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, width, height );
     }
 
     Image LookupTable( const Image & in, const std::vector<uint8_t> & table )
@@ -369,7 +381,8 @@ namespace penguinV
     void LookupTable( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                       const std::vector<uint8_t> & table )
     {
-        initialize( in, LookupTable ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, table );
+        initialize( in, LookupTable ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, table );
+        manager.restore();
     }
 
     Image Maximum( const Image & in1, const Image & in2 )
@@ -390,7 +403,8 @@ namespace penguinV
     void Maximum( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                   uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Maximum ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, Maximum ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     Image Merge( const Image & in1, const Image & in2, const Image & in3 )
@@ -412,7 +426,9 @@ namespace penguinV
     void Merge( const Image & in1, uint32_t startXIn1, uint32_t startYIn1, const Image & in2, uint32_t startXIn2, uint32_t startYIn2, const Image & in3,
                 uint32_t startXIn3, uint32_t startYIn3, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Merge ) func( in1, startXIn1, startYIn1, in2, startXIn2, startYIn2, in3, startXIn3, startYIn3, out, startXOut, startYOut, width, height );
+        initialize( in1, Merge ) func( manager( in1 ), startXIn1, startYIn1, manager( in2 ), startXIn2, startYIn2, manager( in3 ), startXIn3, startYIn3,
+                                       manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     Image Minimum( const Image & in1, const Image & in2 )
@@ -433,7 +449,8 @@ namespace penguinV
     void Minimum( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                   uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Minimum ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, Minimum ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     Image Normalize( const Image & in )
@@ -453,7 +470,8 @@ namespace penguinV
 
     void Normalize( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Normalize ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Normalize ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     std::vector<uint32_t> ProjectionProfile( const Image & image, bool horizontal )
@@ -473,7 +491,7 @@ namespace penguinV
 
     void ProjectionProfile( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, bool horizontal, std::vector<uint32_t> & projection )
     {
-        initialize( image, ProjectionProfile ) func( image, x, y, width, height, horizontal, projection );
+        initialize( image, ProjectionProfile ) func( manager( image ), x, y, width, height, horizontal, projection );
     }
 
     Image Resize( const Image & in, uint32_t widthOut, uint32_t heightOut )
@@ -494,7 +512,8 @@ namespace penguinV
     void Resize( const Image & in, uint32_t startXIn, uint32_t startYIn, uint32_t widthIn, uint32_t heightIn, Image & out, uint32_t startXOut, uint32_t startYOut,
                  uint32_t widthOut, uint32_t heightOut )
     {
-        initialize( in, Resize ) func( in, startXIn, startYIn, widthIn, heightIn, out, startXOut, startYOut, widthOut, heightOut );
+        initialize( in, Resize ) func( manager( in ), startXIn, startYIn, widthIn, heightIn, manager( out ), startXOut, startYOut, widthOut, heightOut );
+        manager.restore();
     }
 
     Image RgbToBgr( const Image & in )
@@ -514,17 +533,20 @@ namespace penguinV
 
     void RgbToBgr( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, RgbToBgr ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, RgbToBgr ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     void SetPixel( Image & image, uint32_t x, uint32_t y, uint8_t value )
     {
-        initialize( image, SetPixel ) func( image, x, y, value );
+        initialize( image, SetPixel ) func( manager( image ), x, y, value );
+        manager.restore();
     }
 
     void SetPixel( Image & image, const std::vector<uint32_t> & X, const std::vector<uint32_t> & Y, uint8_t value )
     {
-        initialize( image, SetPixel2 ) func( image, X, Y, value );
+        initialize( image, SetPixel2 ) func( manager( image ), X, Y, value );
+        manager.restore();
     }
 
     void Split( const Image & in, Image & out1, Image & out2, Image & out3 )
@@ -535,7 +557,9 @@ namespace penguinV
     void Split( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out1, uint32_t startXOut1, uint32_t startYOut1, Image & out2, uint32_t startXOut2,
                 uint32_t startYOut2, Image & out3, uint32_t startXOut3, uint32_t startYOut3, uint32_t width, uint32_t height )
     {
-        initialize( in, Split ) func( in, startXIn, startYIn, out1, startXOut1, startYOut1, out2, startXOut2, startYOut2, out3, startXOut3, startYOut3, width, height );
+        initialize( in, Split ) func( manager( in ), startXIn, startYIn, manager( out1 ), startXOut1, startYOut1, manager( out2 ), startXOut2, startYOut2,
+                                      manager( out3 ), startXOut3, startYOut3, width, height );
+        manager.restore();
     }
 
     Image Subtract( const Image & in1, const Image & in2 )
@@ -556,7 +580,8 @@ namespace penguinV
     void Subtract( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                    uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Subtract ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, Subtract ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     uint32_t Sum( const Image & image )
@@ -567,7 +592,7 @@ namespace penguinV
     uint32_t Sum( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height )
     {
         initialize( image, Sum );
-        return func( image, x, y, width, height );
+        return func( manager( image ), x, y, width, height );
     }
 
     Image Threshold( const Image & in, uint8_t threshold )
@@ -589,6 +614,7 @@ namespace penguinV
                     uint8_t threshold )
     {
         initialize( in, Threshold ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, threshold );
+        manager.restore();
     }
 
     Image Threshold( const Image & in, uint8_t minThreshold, uint8_t maxThreshold )
@@ -609,7 +635,8 @@ namespace penguinV
     void Threshold( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                     uint8_t minThreshold, uint8_t maxThreshold )
     {
-        initialize( in, Threshold2 ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, minThreshold, maxThreshold );
+        initialize( in, Threshold2 ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, minThreshold, maxThreshold );
+        manager.restore();
     }
 
     Image Transpose( const Image & in )
@@ -629,6 +656,7 @@ namespace penguinV
 
     void Transpose( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Transpose ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Transpose ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 }
-- 
2.43.0


From c950c16532ab24be2d973c5cf9a61c39df2afe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:04 +0000
Subject: [PATCH 35/43] fix: detect an instruction set only when all of its
 parts and the operating system support it

---
 src/penguinv/cpu_id_unix.h        | 38 +++++++++++++++++++++++++++++--
 src/penguinv/cpu_id_windows.h     | 33 +++++++++++++++++++++++++--
 src/penguinv/cpu_identification.h |  4 ++++
 3 files changed, 71 insertions(+), 4 deletions(-)

diff --git a/src/penguinv/cpu_id_unix.h b/src/penguinv/cpu_id_unix.h
index 54f6246..988801d 100644
--- a/src/penguinv/cpu_id_unix.h
+++ b/src/penguinv/cpu_id_unix.h
@@ -41,6 +41,21 @@ struct CpuInformation
         return false;
     }
 
+    static bool isSsse3Supported()
+    {
+#if !defined( __arm__ ) && !defined( __aarch64__ )
+        int info[4];
+        __cpuid_count( 0, 0, info[0], info[1], info[2], info[3] );
+        const int id = info[0];
+
+        if ( id >= 0x00000001 ) {
+            __cpuid_count( 0x00000001, 0, info[0], info[1], info[2], info[3] );
+            return ( info[2] & ( (int)1 << 9 ) ) != 0;
+        }
+#endif
+        return false;
+    }
+
     static bool isAvxSupported()
     {
 #if !defined( __arm__ ) && !defined( __aarch64__ )
@@ -50,7 +65,8 @@ struct CpuInformation
 
         if ( id >= 0x00000007 ) {
             __cpuid_count( 0x00000007, 0, info[0], info[1], info[2], info[3] );
-            return ( info[1] & ( (int)1 << 5 ) ) != 0;
+            // AVX registers must also be enabled by an operating system
+            return ( info[1] & ( (int)1 << 5 ) ) != 0 && isStateEnabled( 0x06u );
         }
 #endif
         return false;
@@ -65,7 +81,9 @@ struct CpuInformation
 
         if ( id >= 0x00000007 ) {
             __cpuid_count( 0x00000007, 0, info[0], info[1], info[2], info[3] );
-            return ( info[1] & ( ( (int)1 << 31 ) | ( (int)1 << 30 ) | ( (int)1 << 28 ) | ( (int)1 << 17 ) | ( (int)1 << 16 ) ) ) != 0;
+            // all of these sets are used and their registers must also be enabled by an operating system
+            const unsigned int mask = ( 1u << 31 ) | ( 1u << 30 ) | ( 1u << 28 ) | ( 1u << 17 ) | ( 1u << 16 );
+            return ( static_cast<unsigned int>( info[1] ) & mask ) == mask && isStateEnabled( 0xE6u );
         }
 #endif
         return false;
@@ -79,4 +97,20 @@ struct CpuInformation
         return true;
 #endif
     }
+
+private:
+#if !defined( __arm__ ) && !defined( __aarch64__ )
+    // Checks that an operating system saves and restores registers specified by the mask of state components
+    static bool isStateEnabled( unsigned int mask )
+    {
+        int info[4];
+        __cpuid_count( 0x00000001, 0, info[0], info[1], info[2], info[3] );
+        if ( ( info[2] & ( (int)1 << 27 ) ) == 0 )
+            return false;
+
+        unsigned int low = 0, high = 0;
+        __asm__ volatile( ".byte 0x0f, 0x01, 0xd0" : "=a"( low ), "=d"( high ) : "c"( 0 ) ); // xgetbv
+        return ( low & mask ) == mask;
+    }
+#endif
 };
diff --git a/src/penguinv/cpu_id_windows.h b/src/penguinv/cpu_id_windows.h
index e4abf36..ba42a30 100644
--- a/src/penguinv/cpu_id_windows.h
+++ b/src/penguinv/cpu_id_windows.h
@@ -38,6 +38,20 @@ struct CpuInformation
         return false;
     }
 
+    static bool isSsse3Supported()
+    {
+        int info[4];
+        __cpuidex( info, 0, 0 );
+        const int id = info[0];
+
+        if ( id >= 0x00000001 ) {
+            __cpuidex( info, 0x00000001, 0 );
+            return ( info[2] & ( (int)1 << 9 ) ) != 0;
+        }
+
+        return false;
+    }
+
     static bool isAvxSupported()
     {
         int info[4];
@@ -46,7 +60,8 @@ struct CpuInformation
 
         if ( id >= 0x00000007 ) {
             __cpuidex( info, 0x00000007, 0 );
-            return ( info[1] & ( (int)1 << 5 ) ) != 0;
+            // AVX registers must also be enabled by an operating system
+            return ( info[1] & ( (int)1 << 5 ) ) != 0 && isStateEnabled( 0x06u );
         }
 
         return false;
@@ -60,7 +75,9 @@ struct CpuInformation
 
         if ( id >= 0x00000007 ) {
             __cpuidex( info, 0x00000007, 0 );
-            return ( info[1] & ( ( (int)1 << 31 ) | ( (int)1 << 30 ) | ( (int)1 << 28 ) | ( (int)1 << 17 ) | ( (int)1 << 16 ) ) ) != 0;
+            // all of these sets are used and their registers must also be enabled by an operating system
+            const unsigned int mask = ( 1u << 31 ) | ( 1u << 30 ) | ( 1u << 28 ) | ( 1u << 17 ) | ( 1u << 16 );
+            return ( static_cast<unsigned int>( info[1] ) & mask ) == mask && isStateEnabled( 0xE6u );
         }
 
         return false;
@@ -74,4 +91,16 @@ struct CpuInformation
         return false;
 #endif
     }
+
+private:
+    // Checks that an operating system saves and restores registers specified by the mask of state components
+    static bool isStateEnabled( unsigned int mask )
+    {
+        int info[4];
+        __cpuidex( info, 0x00000001, 0 );
+        if ( ( info[2] & ( (int)1 << 27 ) ) == 0 )
+            return false;
+
+        return ( static_cast<unsigned int>( _xgetbv( 0 ) ) & mask ) == mask;
+    }
 };
diff --git a/src/penguinv/cpu_identification.h b/src/penguinv/cpu_identification.h
index 317fa24..8e0f86e 100644
--- a/src/penguinv/cpu_identification.h
+++ b/src/penguinv/cpu_identification.h
@@ -105,7 +105,11 @@ struct SimdInfo
     static bool isSseAvailable()
     {
 #ifdef PENGUINV_SSE_SET
+#ifdef PENGUINV_SSSE3_SET
+        static const bool isAvailable = CpuInformation::isSseSupported() && CpuInformation::isSsse3Supported();
+#else
         static const bool isAvailable = CpuInformation::isSseSupported();
+#endif
         return isAvailable;
 #else
         return false;
-- 
2.43.0


From 2b6b5f84243e2311e55f485f4bcd7f83250b71ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:02 +0000
Subject: [PATCH 36/43] fix: use scalar code for functions that need SSSE3 in
 builds without it

---
 src/image_function_simd.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index d432956..6409619 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2518,6 +2518,19 @@ namespace simd
 #define SSSE3_CODE( code )
 #endif
 
+#if defined( PENGUINV_SSE_SET ) && !defined( PENGUINV_SSSE3_SET )
+    // some functions for SSE set need SSSE3 instructions
+    bool isSsse3Missing( SIMDType simdType )
+    {
+        return simdType == sse_function;
+    }
+#else
+    bool isSsse3Missing( SIMDType )
+    {
+        return false;
+    }
+#endif
+
 #ifdef PENGUINV_NEON_SET
 #define NEON_CODE( code )                                                                                                                                                \
     if ( simdType == neon_function ) {                                                                                                                                   \
@@ -2814,7 +2827,7 @@ namespace simd
 
         const uint8_t colorCount = RGB;
 
-        if ( ( simdType == cpu_function ) || ( simdType == avx_function ) || ( simdType == avx512_function ) || ( width < simdSize ) ) {
+        if ( ( simdType == cpu_function ) || ( simdType == avx_function ) || ( simdType == avx512_function ) || ( width < simdSize ) || isSsse3Missing( simdType ) ) {
             AVX_CODE( ConvertToRgb( in, startXIn, startYIn, out, startXOut, startYOut, width, height, sse_function ); )
 
             Image_Function::ConvertToRgb( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
@@ -2855,7 +2868,8 @@ namespace simd
         if ( simdType == neon_function ) // for neon, because the algorithm used work with packet of 64 bit
             simdSize = 8u;
 
-        if ( ( simdType == cpu_function ) || ( simdType == avx_function ) || ( simdType == avx512_function ) || ( width < simdSize ) || ( !horizontal && vertical ) ) {
+        if ( ( simdType == cpu_function ) || ( simdType == avx_function ) || ( simdType == avx512_function ) || ( width < simdSize ) || ( !horizontal && vertical )
+             || isSsse3Missing( simdType ) ) {
             AVX_CODE( Flip( in, startXIn, startYIn, out, startXOut, startYOut, width, height, horizontal, vertical, sse_function ); )
 
             Image_Function::Flip( in, startXIn, startYIn, out, startXOut, startYOut, width, height, horizontal, vertical );
@@ -3051,7 +3065,7 @@ namespace simd
 
         const uint8_t colorCount = RGB;
 
-        if ( ( simdType == cpu_function ) || ( simdType == avx512_function ) || ( ( width * colorCount ) < simdSize ) ) {
+        if ( ( simdType == cpu_function ) || ( simdType == avx512_function ) || ( ( width * colorCount ) < simdSize ) || isSsse3Missing( simdType ) ) {
             AVX_CODE( RgbToBgr( in, startXIn, startYIn, out, startXOut, startYOut, width, height, sse_function ); )
 
             Image_Function::RgbToBgr( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
-- 
2.43.0


From b54d13adca7b7c020e08c0f30eb63831db7f0ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:33 +0000
Subject: [PATCH 37/43] fix: sum up both halves of a block in NEON projection
 profile

---
 src/image_function_simd.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 6409619..36fe7d1 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2239,11 +2239,12 @@ namespace neon
                     const uint8x16_t data = vld1q_u8( src );
 
                     const uint16x8_t dataLo = vaddl_u8( vget_low_u8( data ), zero );
+                    const uint16x8_t dataHi = vaddl_u8( vget_high_u8( data ), zero );
 
                     const uint32x4_t data_1 = vaddl_u16( vget_low_u16( dataLo ), zero_16 );
                     const uint32x4_t data_2 = vaddl_u16( vget_high_u16( dataLo ), zero_16 );
-                    const uint32x4_t data_3 = vaddl_u16( vget_low_u16( dataLo ), zero_16 );
-                    const uint32x4_t data_4 = vaddl_u16( vget_high_u16( dataLo ), zero_16 );
+                    const uint32x4_t data_3 = vaddl_u16( vget_low_u16( dataHi ), zero_16 );
+                    const uint32x4_t data_4 = vaddl_u16( vget_high_u16( dataHi ), zero_16 );
 
                     simdSum_1 = vaddq_u32( simdSum_1, data_1 );
                     simdSum_2 = vaddq_u32( simdSum_2, data_2 );
-- 
2.43.0


From 74efa23abbbee12654216c069b6502204fbd0562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:52 +0000
Subject: [PATCH 38/43] fix: use the offset of output image and unscaled row
 size in OpenCL kernels

---
 src/opencl/image_function_opencl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index cbe877d..a0ff644 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -171,7 +171,7 @@ namespace
             const size_t y = get_global_id(1);
 
             if ( x < width && y < height ) {
-                out[rowSizeOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x];
+                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x];
             }
         }
 
@@ -182,7 +182,7 @@ namespace
             const size_t y = get_global_id(1);
 
             if( x < width && y < height )
-                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + (y * rowSizeIn + x) * colorCount + channelId];
+                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x * colorCount + channelId];
         }
 
         __kernel void fillOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height, uchar value )
-- 
2.43.0


From b81f87240e768a39efe90cff6733f076dfd5109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:52 +0000
Subject: [PATCH 39/43] fix: multiply row size by row number in offsets of
 OpenCL functions

---
 src/opencl/image_function_opencl.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index a0ff644..21fafac 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -640,7 +640,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, width, height );
@@ -678,7 +678,7 @@ namespace Image_Function_OpenCL
             const uint32_t rowSizeIn = in.rowSize();
             const uint32_t rowSizeOut = out.rowSize();
 
-            const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+            const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
             kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, out.colorCount(), width, height );
@@ -712,7 +712,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * colorCount;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height );
@@ -750,7 +750,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, width, height, channelId );
@@ -990,7 +990,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * colorCount;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, tableOpenCL.data() );
@@ -1289,7 +1289,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, threshold );
@@ -1324,7 +1324,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, minThreshold, maxThreshold );
-- 
2.43.0


From b1cfdb46dfa99f40af658109d40cdfb433cca341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:52 +0000
Subject: [PATCH 40/43] fix: flip only the given region in OpenCL Flip

---
 src/opencl/image_function_opencl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 21fafac..9202bc4 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -813,9 +813,9 @@ namespace Image_Function_OpenCL
             const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
-            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, in.width(), in.height(), horizontal, vertical );
+            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, horizontal, vertical );
 
-            multiCL::launchKernel2D( kernel, in.width(), in.height() );
+            multiCL::launchKernel2D( kernel, width, height );
         }
     }
 
-- 
2.43.0


From a78e565738f4942fca6a369807fb0c9efd829d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:52 +0000
Subject: [PATCH 41/43] fix: pass only arguments of the kernel in OpenCL
 Normalize

---
 src/opencl/image_function_opencl.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 9202bc4..fb3252b 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -1102,16 +1102,13 @@ namespace Image_Function_OpenCL
         width = width * colorCount;
 
         const uint32_t rowSizeIn = in.rowSize();
-        const uint32_t rowSizeOut = out.rowSize();
-
         const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
-        const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         std::vector<uint32_t> range = { 255, 0 };
 
         multiCL::Array<uint32_t> rangeOpenCL( range );
 
-        kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, rangeOpenCL.data() );
+        kernel.setArgument( in.data(), offsetIn, rowSizeIn, width, height, rangeOpenCL.data() );
 
         multiCL::launchKernel2D( kernel, width, height );
 
-- 
2.43.0


From 8d0dcb8b4b30358e0e67b9ef098c44e9ffe5ce0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:14 +0000
Subject: [PATCH 42/43] fix: multiply row size by row number in OpenCL Fill and
 Histogram

---
 src/opencl/image_function_opencl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index fb3252b..0d795c4 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -772,7 +772,7 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "fillOpenCL" );
 
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
+        const uint32_t offset = y * rowSize + x;
 
         kernel.setArgument( image.data(), offset, rowSize, width, height, value );
 
@@ -879,7 +879,7 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "histogramOpenCL" );
 
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
+        const uint32_t offset = y * rowSize + x;
 
         kernel.setArgument( image.data(), offset, rowSize, width, height, histogramOpenCL.data() );
 
-- 
2.43.0


From 625dc6dc5e785b846535c3d369fb1222ee6fbe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:14 +0000
Subject: [PATCH 43/43] fix: give OpenCL SetPixel kernels different names and
 pass arguments they expect

---
 src/opencl/image_function_opencl.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 0d795c4..9f5f1a6 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -326,15 +326,15 @@ namespace
             }
         }
 
-        __kernel void __attribute__(( overloadable )) setPixelOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height, uint x, uint y, uchar value )
+        __kernel void setPixelOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height, uint x, uint y, uchar value )
         {
             if ( x < width && y < height ) {
                 data[offset + y * rowSize + x] = value;
             }
         }
 
-        __kernel void __attribute__(( overloadable )) setPixelOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height,
-                                                                      __global const uint * pointX, __global const uint * pointY, uint pointSize, uint value )
+        __kernel void setPixelListOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height,
+                                          __global const uint * pointX, __global const uint * pointY, uint pointSize, uchar value )
         {
             const size_t id = get_global_id(0);
 
@@ -1224,7 +1224,7 @@ namespace Image_Function_OpenCL
         const uint32_t width = image.width();
         const uint32_t height = image.height();
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
+        const uint32_t offset = 0;
 
         kernel.setArgument( image.data(), offset, rowSize, width, height, x, y, value );
 
@@ -1236,7 +1236,7 @@ namespace Image_Function_OpenCL
         Image_Function::ValidateImageParameters( image );
 
         const multiCL::OpenCLProgram & program = GetProgram();
-        multiCL::OpenCLKernel kernel( program, "setPixelOpenCL" );
+        multiCL::OpenCLKernel kernel( program, "setPixelListOpenCL" );
 
         if ( image.empty() || X.empty() || X.size() != Y.size() )
             throw penguinVException( "Bad input parameters in image function" );
@@ -1250,11 +1250,12 @@ namespace Image_Function_OpenCL
         }
 
         const uint32_t rowSize = image.rowSize();
+        const uint32_t offset = 0;
 
         multiCL::Array<uint32_t> pointX( X );
         multiCL::Array<uint32_t> pointY( Y );
 
-        kernel.setArgument( image.data(), rowSize, width, height, pointX.data(), pointY.data(), X.size(), value );
+        kernel.setArgument( image.data(), offset, rowSize, width, height, pointX.data(), pointY.data(), static_cast<uint32_t>( X.size() ), value );
 
         multiCL::launchKernel1D( kernel, static_cast<uint32_t>( X.size() ) );
     }
-- 
2.43.0

