From 843c1be7ef36a37e6b2a0d660e56ef81d1f330bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 001/124] fix: take the second input into account when Subtract
 merges rows into one

---
 src/image_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index f0abeab..a9aa16a 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1915,7 +1915,7 @@ namespace Image_Function
         const uint8_t colorCount = CheckCommonColorCount( in1, in2, out );
         width = width * colorCount;
 
-        OptimiseRoi( width, height, in1, in1, out );
+        OptimiseRoi( width, height, in1, in2, out );
 
         const uint32_t rowSize1 = in1.rowSize();
         const uint32_t rowSize2 = in2.rowSize();
-- 
2.43.0


From 565fcc6f7d03abd3d5e4b7857e5069de64318d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 002/124] fix: use the color count for the input offset in
 ConvertTo16Bit and ConvertTo8Bit

---
 src/image_function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index a9aa16a..c6d70f8 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -472,7 +472,7 @@ namespace Image_Function
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint16_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint16_t * outYEnd = outY + height * rowSizeOut;
@@ -528,7 +528,7 @@ namespace Image_Function
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint8_t * outYEnd = outY + height * rowSizeOut;
-- 
2.43.0


From 6ef2d68585cfda6340563d15a500a46549ab3ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 003/124] fix: convert RGBA images correctly in
 ConvertToGrayScale and ConvertToRgb

---
 src/image_function.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index c6d70f8..400980e 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -574,7 +574,7 @@ namespace Image_Function
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint8_t colorCount = RGB;
+        const uint8_t colorCount = in.colorCount();
 
         const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut;
@@ -617,6 +617,11 @@ namespace Image_Function
             return;
         }
 
+        if ( in.colorCount() == RGBA ) {
+            RgbaToRgb( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+            return;
+        }
+
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-- 
2.43.0


From a78426b5d8c6b0d226fd83666a25435112c47d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 004/124] fix: visit all pixels of a row of a color image in
 Histogram

---
 src/image_function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 400980e..9047519 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -896,7 +896,7 @@ namespace Image_Function
         else {
             for ( ; imageY != imageYEnd; imageY += rowSize ) {
                 const uint8_t * imageX = imageY;
-                const uint8_t * imageXEnd = imageX + width;
+                const uint8_t * imageXEnd = imageX + width * colorCount;
 
                 for ( ; imageX != imageXEnd; imageX += colorCount ) {
                     for ( uint32_t colorChannel = 0; colorChannel < colorCount; ++colorChannel )
@@ -955,7 +955,7 @@ namespace Image_Function
             for ( ; imageY != imageYEnd; imageY += rowSize, imageYMask += rowSizeMask ) {
                 const uint8_t * imageX = imageY;
                 const uint8_t * imageXMask = imageYMask;
-                const uint8_t * imageXEnd = imageX + width;
+                const uint8_t * imageXEnd = imageX + width * colorCount;
 
                 for ( ; imageX != imageXEnd; imageX += colorCount, ++imageXMask ) {
                     if ( ( *imageXMask ) > 0 ) {
-- 
2.43.0


From 911ac5e4fa183066b34e4bc9fc73506f892252db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 005/124] fix: refuse a color image as a mask in Histogram

---
 src/image_function.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 9047519..78646a8 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -925,6 +925,7 @@ namespace Image_Function
                     std::vector<uint32_t> & histogram )
     {
         ValidateImageParameters( image, x, y, mask, maskX, maskY, width, height );
+        VerifyGrayScaleImage( mask );
         OptimiseRoi( width, height, image, mask );
 
         const uint32_t colorCount = image.colorCount();
-- 
2.43.0


From 35d98fb3ad2f6db1b21f29ce44dbe2a6e77c5b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 006/124] fix: support color images in all forms of Resize and
 refuse images with different color counts

---
 src/image_function.cpp        | 2 +-
 src/image_function_helper.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 78646a8..85dca94 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1451,7 +1451,7 @@ namespace Image_Function
         ValidateImageParameters( in, startXIn, startYIn, widthIn, heightIn );
         ValidateImageParameters( out, startXOut, startYOut, widthOut, heightOut );
 
-        const uint8_t colorCount = in.colorCount();
+        const uint8_t colorCount = CheckCommonColorCount( in, out );
 
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index 62ef931..49a1f15 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -710,7 +710,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( widthOut, heightOut );
+        Image out = in.generate( widthOut, heightOut, in.colorCount() );
 
         resize( in, 0, 0, in.width(), in.height(), out, 0, 0, widthOut, heightOut );
 
@@ -730,7 +730,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, widthIn, heightIn );
 
-        Image out = in.generate( widthOut, heightOut );
+        Image out = in.generate( widthOut, heightOut, in.colorCount() );
 
         resize( in, startXIn, startYIn, widthIn, heightIn, out, 0, 0, widthOut, heightOut );
 
-- 
2.43.0


From b9bb0147a6f29a32bddfc5dfa7ded4421a8dec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 007/124] fix: avoid integer overflow of the position in Resize
 for large images

---
 src/image_function.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 85dca94..76deda1 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1465,7 +1465,7 @@ namespace Image_Function
         // Precalculation of X position
         std::vector<uint32_t> positionX( widthOut );
         for ( uint32_t x = 0; x < widthOut; ++x )
-            positionX[x] = ( x * widthIn / widthOut ) * colorCount;
+            positionX[x] = static_cast<uint32_t>( static_cast<uint64_t>( x ) * widthIn / widthOut ) * colorCount;
 
         widthOut *= colorCount;
 
@@ -1474,7 +1474,7 @@ namespace Image_Function
                 uint8_t * outX = outY;
                 const uint8_t * outXEnd = outX + widthOut;
 
-                const uint8_t * inX = inY + ( idY * heightIn / heightOut ) * rowSizeIn;
+                const uint8_t * inX = inY + static_cast<uint32_t>( static_cast<uint64_t>( idY ) * heightIn / heightOut ) * rowSizeIn;
                 const uint32_t * idX = positionX.data();
 
                 for ( ; outX != outXEnd; ++outX, ++idX )
@@ -1488,7 +1488,7 @@ namespace Image_Function
                 uint8_t * outX = outY;
                 const uint8_t * outXEnd = outX + widthOut;
 
-                const uint8_t * inX = inY + ( idY * heightIn / heightOut ) * rowSizeIn;
+                const uint8_t * inX = inY + static_cast<uint32_t>( static_cast<uint64_t>( idY ) * heightIn / heightOut ) * rowSizeIn;
                 const uint32_t * idX = positionX.data();
 
                 for ( ; outX != outXEnd; outX += colorCount, ++idX )
-- 
2.43.0


From 9315d81577e42748064957566d8e9a2032b36fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 008/124] fix: keep the color count of the input in the
 returning forms of GammaCorrection, LookupTable and Normalize

---
 src/image_function_helper.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index 49a1f15..fa6aa82 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -352,7 +352,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( in.width(), in.height() );
+        Image out = in.generate( in.width(), in.height(), in.colorCount() );
 
         gammaCorrection( in, 0, 0, out, 0, 0, out.width(), out.height(), a, gamma );
 
@@ -371,7 +371,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, width, height );
 
-        Image out = in.generate( width, height );
+        Image out = in.generate( width, height, in.colorCount() );
 
         gammaCorrection( in, startXIn, startYIn, out, 0, 0, width, height, a, gamma );
 
@@ -536,7 +536,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( in.width(), in.height() );
+        Image out = in.generate( in.width(), in.height(), in.colorCount() );
 
         lookupTable( in, 0, 0, out, 0, 0, out.width(), out.height(), table );
 
@@ -555,7 +555,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, width, height );
 
-        Image out = in.generate( width, height );
+        Image out = in.generate( width, height, in.colorCount() );
 
         lookupTable( in, startXIn, startYIn, out, 0, 0, width, height, table );
 
@@ -657,7 +657,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( in.width(), in.height() );
+        Image out = in.generate( in.width(), in.height(), in.colorCount() );
 
         normalize( in, 0, 0, out, 0, 0, out.width(), out.height() );
 
@@ -675,7 +675,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, width, height );
 
-        Image out = in.generate( width, height );
+        Image out = in.generate( width, height, in.colorCount() );
 
         normalize( in, startXIn, startYIn, out, 0, 0, width, height );
 
-- 
2.43.0


From 128af1d5901f16ff15888cf3642747fc644d5893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 009/124] fix: make RgbToBgr work when the output is the input
 image

---
 src/image_function.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 76deda1..b30279c 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1537,9 +1537,11 @@ namespace Image_Function
             const uint8_t * outXEnd = outX + width;
 
             for ( ; outX != outXEnd; outX += colorCount, inX += colorCount ) {
-                *( outX + 2 ) = *( inX );
-                *( outX + 1 ) = *( inX + 1 );
+                // input and output could be the same image
+                const uint8_t red = *( inX );
                 *( outX ) = *( inX + 2 );
+                *( outX + 1 ) = *( inX + 1 );
+                *( outX + 2 ) = red;
             }
         }
     }
-- 
2.43.0


From ce271059f8090252aac52e66170a4198fe3932de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 010/124] fix: do not modify an image in SetPixel if one of
 points is out of the image

---
 src/image_function.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index b30279c..348374e 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1744,9 +1744,13 @@ namespace Image_Function
         for ( ; x != end; ++x, ++y ) {
             if ( ( *x ) >= width || ( *y ) >= height )
                 throw penguinVException( "Position of point [x, y] is out of image" );
+        }
+
+        x = X.begin();
+        y = Y.begin();
 
+        for ( ; x != end; ++x, ++y )
             *( data + ( *y ) * rowSize + ( *x ) ) = value;
-        }
     }
 
     Image Shift( const Image & in, double shiftX, double shiftY )
-- 
2.43.0


From cab39ea3937ad19943c33b12cb1f8e688632c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 011/124] fix: shift an image by the exact value and never read
 outside of it in Shift

---
 src/image_function.cpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 348374e..4716814 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1790,8 +1790,12 @@ namespace Image_Function
         if ( shiftY > 0.0 )
             --shiftYIntegral;
 
-        const double coeffX = ( shiftX < 0.0 ) ? ( 1.0 + shiftX ) : shiftX;
-        const double coeffY = ( shiftY < 0.0 ) ? ( 1.0 + shiftY ) : shiftY;
+        const double coeffX = ( shiftX > 0.0 ) ? shiftX : ( 1.0 + shiftX );
+        const double coeffY = ( shiftY > 0.0 ) ? shiftY : ( 1.0 + shiftY );
+
+        // we need 2 subsequent pixels only if a shift is fractional
+        const uint32_t stepX = ( coeffX < 1.0 ) ? 1u : 0u;
+        const uint32_t stepY = ( coeffY < 1.0 ) ? 1u : 0u;
 
         // 2^23 = 8388608, 2^23 * 256 is a integer limit
         const uint32_t coeff0 = static_cast<uint32_t>( ( coeffX ) * (coeffY)*16384 + 0.5 );
@@ -1799,24 +1803,24 @@ namespace Image_Function
         const uint32_t coeff2 = static_cast<uint32_t>( ( 1.0 - coeffX ) * ( 1.0 - coeffY ) * 16384 + 0.5 );
         const uint32_t coeff3 = static_cast<uint32_t>( ( coeffX ) * ( 1.0 - coeffY ) * 16384 + 0.5 );
 
-        const uint32_t limitX = in.width() - 1u; // we need 2 subsequent pixels so we cannot use last pixel
-        const uint32_t limitY = in.height() - 1u;
+        const int64_t limitX = static_cast<int64_t>( in.width() ) - stepX; // if we need 2 subsequent pixels we cannot use last pixel
+        const int64_t limitY = static_cast<int64_t>( in.height() ) - stepY;
+
+        const int64_t endX = static_cast<int64_t>( startXIn ) + width + shiftXIntegral;
+        const int64_t endY = static_cast<int64_t>( startYIn ) + height + shiftYIntegral;
 
         const uint32_t emptyLeftArea
             = ( shiftXIntegral < 0 && startXIn < static_cast<uint32_t>( -shiftXIntegral ) ) ? ( static_cast<uint32_t>( -shiftXIntegral ) - startXIn ) : 0u;
-        const uint32_t emptyRightArea = ( shiftXIntegral > 0 && limitX < startXIn + width + static_cast<uint32_t>( shiftXIntegral ) )
-                                            ? ( startXIn + width + static_cast<uint32_t>( shiftXIntegral ) - limitX )
-                                            : 0u;
+        const uint32_t emptyRightArea = ( limitX < endX ) ? static_cast<uint32_t>( endX - limitX ) : 0u;
         const uint32_t realWidth = width - emptyLeftArea - emptyRightArea;
 
         const uint32_t emptyTopArea
             = ( shiftYIntegral < 0 && startYIn < static_cast<uint32_t>( -shiftYIntegral ) ) ? ( static_cast<uint32_t>( -shiftYIntegral ) - startYIn ) : 0u;
-        const uint32_t emptyBottomArea = ( shiftYIntegral > 0 && limitY < startYIn + height + static_cast<uint32_t>( shiftYIntegral ) )
-                                             ? ( startYIn + height + static_cast<uint32_t>( shiftYIntegral ) - limitY )
-                                             : 0u;
+        const uint32_t emptyBottomArea = ( limitY < endY ) ? static_cast<uint32_t>( endY - limitY ) : 0u;
         const uint32_t realHeight = height - emptyTopArea - emptyBottomArea;
 
         const uint32_t rowSizeIn = in.rowSize();
+        const uint32_t nextRowIn = stepY * rowSizeIn;
         const uint32_t rowSizeOut = out.rowSize();
 
         const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
@@ -1837,13 +1841,14 @@ namespace Image_Function
             const uint8_t * outXEnd = outX + emptyLeftArea + realWidth;
 
             memset( outX, 0, emptyLeftArea );
+            outX += emptyLeftArea;
             inX += emptyLeftArea;
 
-            for ( ; outX != outXEnd; ++outX ) {
+            for ( ; outX != outXEnd; ++outX, ++inX ) {
                 uint32_t data = ( *( inX ) ) * coeff0;
-                data += ( *( inX + rowSizeIn ) ) * coeff3;
-                data += ( *( ++inX ) ) * coeff1; // here we increment inX
-                data += ( *( inX + rowSizeIn ) ) * coeff2;
+                data += ( *( inX + nextRowIn ) ) * coeff3;
+                data += ( *( inX + stepX ) ) * coeff1;
+                data += ( *( inX + stepX + nextRowIn ) ) * coeff2;
 
                 *outX = static_cast<uint8_t>( ( data + 8192 ) >> 14 ); // 8192 is 0.5 after calculations
             }
-- 
2.43.0


From 60521ad93ebc4022814c3af85e47a8e18daf9452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 012/124] fix: keep references to converted images valid when
 ImageManager converts several images

---
 src/penguinv/image_manager.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/penguinv/image_manager.h b/src/penguinv/image_manager.h
index b5fbd0f..d6bc912 100644
--- a/src/penguinv/image_manager.h
+++ b/src/penguinv/image_manager.h
@@ -21,6 +21,7 @@
 #pragma once
 
 #include "../image_buffer.h"
+#include <deque>
 #include <vector>
 
 template <typename _Type>
@@ -95,8 +96,10 @@ private:
     ConvertImage _convertImage;
     std::vector<ConstReferenceOwner<_Type> *> _input;
     std::vector<ReferenceOwner<_Type> *> _output;
-    std::vector<penguinV::ImageTemplate<_Type>> _inputClone;
-    std::vector<penguinV::ImageTemplate<_Type>> _outputClone;
+
+    // references to these images are given outside so they must stay valid when a new image is added
+    std::deque<penguinV::ImageTemplate<_Type>> _inputClone;
+    std::deque<penguinV::ImageTemplate<_Type>> _outputClone;
 
     penguinV::Image _clone( const penguinV::ImageTemplate<_Type> & in )
     {
-- 
2.43.0


From 2091938a0d6205f311ad0b08d646ac6b60f55ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 013/124] fix: convert images of other types in all functions
 which choose an implementation by image type

---
 src/penguinv/penguinv.cpp | 56 +++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/penguinv/penguinv.cpp b/src/penguinv/penguinv.cpp
index c0adb93..6175e79 100644
--- a/src/penguinv/penguinv.cpp
+++ b/src/penguinv/penguinv.cpp
@@ -94,7 +94,7 @@ namespace penguinV
 
     void Accumulate( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, std::vector<uint32_t> & result )
     {
-        initialize( image, Accumulate ) func( image, x, y, width, height, result );
+        initialize( image, Accumulate ) func( manager( image ), x, y, width, height, result );
     }
 
     Image BitwiseAnd( const Image & in1, const Image & in2 )
@@ -115,7 +115,7 @@ namespace penguinV
     void BitwiseAnd( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                      uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, BitwiseAnd ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, BitwiseAnd ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image BitwiseOr( const Image & in1, const Image & in2 )
@@ -136,7 +136,7 @@ namespace penguinV
     void BitwiseOr( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                     uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, BitwiseOr ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, BitwiseOr ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image BitwiseXor( const Image & in1, const Image & in2 )
@@ -157,7 +157,7 @@ namespace penguinV
     void BitwiseXor( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                      uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, BitwiseXor ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, BitwiseXor ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image ConvertToGrayScale( const Image & in )
@@ -198,7 +198,7 @@ namespace penguinV
 
     void ConvertToRgb( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, ConvertToRgb ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, ConvertToRgb ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     void Copy( const Image & in, Image & out )
@@ -213,7 +213,7 @@ namespace penguinV
 
     void Copy( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Copy ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Copy ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image ExtractChannel( const Image & in, uint8_t channelId )
@@ -234,7 +234,7 @@ namespace penguinV
     void ExtractChannel( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                          uint8_t channelId )
     {
-        initialize( in, ExtractChannel ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, channelId );
+        initialize( in, ExtractChannel ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, channelId );
     }
 
     void Fill( Image & image, uint8_t value )
@@ -244,7 +244,7 @@ namespace penguinV
 
     void Fill( Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, uint8_t value )
     {
-        initialize( image, Fill ) func( image, x, y, width, height, value );
+        initialize( image, Fill ) func( manager( image ), x, y, width, height, value );
     }
 
     Image Flip( const Image & in, bool horizontal, bool vertical )
@@ -265,7 +265,7 @@ namespace penguinV
     void Flip( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                bool horizontal, bool vertical )
     {
-        initialize( in, Flip ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, horizontal, vertical );
+        initialize( in, Flip ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, horizontal, vertical );
     }
 
     Image GammaCorrection( const Image & in, double a, double gamma )
@@ -286,13 +286,13 @@ namespace penguinV
     void GammaCorrection( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                           double a, double gamma )
     {
-        initialize( in, GammaCorrection ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, a, gamma );
+        initialize( in, GammaCorrection ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, a, gamma );
     }
 
     uint8_t GetPixel( const Image & image, uint32_t x, uint32_t y )
     {
         initialize( image, GetPixel );
-        return func( image, x, y );
+        return func( manager( image ), x, y );
     }
 
     uint8_t GetThreshold( const std::vector<uint32_t> & histogram )
@@ -337,7 +337,7 @@ namespace penguinV
 
     void Invert( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Invert ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Invert ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     bool IsEqual( const Image & in1, const Image & in2 )
@@ -348,7 +348,7 @@ namespace penguinV
     bool IsEqual( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, uint32_t width, uint32_t height )
     {
         initialize( in1, IsEqual );
-        return func( in1, startX1, startY1, in2, startX2, startY2, width, height );
+        return func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, width, height );
     }
 
     Image LookupTable( const Image & in, const std::vector<uint8_t> & table )
@@ -369,7 +369,7 @@ namespace penguinV
     void LookupTable( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                       const std::vector<uint8_t> & table )
     {
-        initialize( in, LookupTable ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, table );
+        initialize( in, LookupTable ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, table );
     }
 
     Image Maximum( const Image & in1, const Image & in2 )
@@ -390,7 +390,7 @@ namespace penguinV
     void Maximum( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                   uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Maximum ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, Maximum ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image Merge( const Image & in1, const Image & in2, const Image & in3 )
@@ -412,7 +412,7 @@ namespace penguinV
     void Merge( const Image & in1, uint32_t startXIn1, uint32_t startYIn1, const Image & in2, uint32_t startXIn2, uint32_t startYIn2, const Image & in3,
                 uint32_t startXIn3, uint32_t startYIn3, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Merge ) func( in1, startXIn1, startYIn1, in2, startXIn2, startYIn2, in3, startXIn3, startYIn3, out, startXOut, startYOut, width, height );
+        initialize( in1, Merge ) func( manager( in1 ), startXIn1, startYIn1, manager( in2 ), startXIn2, startYIn2, manager( in3 ), startXIn3, startYIn3, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image Minimum( const Image & in1, const Image & in2 )
@@ -433,7 +433,7 @@ namespace penguinV
     void Minimum( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                   uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Minimum ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, Minimum ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image Normalize( const Image & in )
@@ -453,7 +453,7 @@ namespace penguinV
 
     void Normalize( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Normalize ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Normalize ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     std::vector<uint32_t> ProjectionProfile( const Image & image, bool horizontal )
@@ -473,7 +473,7 @@ namespace penguinV
 
     void ProjectionProfile( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, bool horizontal, std::vector<uint32_t> & projection )
     {
-        initialize( image, ProjectionProfile ) func( image, x, y, width, height, horizontal, projection );
+        initialize( image, ProjectionProfile ) func( manager( image ), x, y, width, height, horizontal, projection );
     }
 
     Image Resize( const Image & in, uint32_t widthOut, uint32_t heightOut )
@@ -494,7 +494,7 @@ namespace penguinV
     void Resize( const Image & in, uint32_t startXIn, uint32_t startYIn, uint32_t widthIn, uint32_t heightIn, Image & out, uint32_t startXOut, uint32_t startYOut,
                  uint32_t widthOut, uint32_t heightOut )
     {
-        initialize( in, Resize ) func( in, startXIn, startYIn, widthIn, heightIn, out, startXOut, startYOut, widthOut, heightOut );
+        initialize( in, Resize ) func( manager( in ), startXIn, startYIn, widthIn, heightIn, manager( out ), startXOut, startYOut, widthOut, heightOut );
     }
 
     Image RgbToBgr( const Image & in )
@@ -514,17 +514,17 @@ namespace penguinV
 
     void RgbToBgr( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, RgbToBgr ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, RgbToBgr ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     void SetPixel( Image & image, uint32_t x, uint32_t y, uint8_t value )
     {
-        initialize( image, SetPixel ) func( image, x, y, value );
+        initialize( image, SetPixel ) func( manager( image ), x, y, value );
     }
 
     void SetPixel( Image & image, const std::vector<uint32_t> & X, const std::vector<uint32_t> & Y, uint8_t value )
     {
-        initialize( image, SetPixel2 ) func( image, X, Y, value );
+        initialize( image, SetPixel2 ) func( manager( image ), X, Y, value );
     }
 
     void Split( const Image & in, Image & out1, Image & out2, Image & out3 )
@@ -535,7 +535,7 @@ namespace penguinV
     void Split( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out1, uint32_t startXOut1, uint32_t startYOut1, Image & out2, uint32_t startXOut2,
                 uint32_t startYOut2, Image & out3, uint32_t startXOut3, uint32_t startYOut3, uint32_t width, uint32_t height )
     {
-        initialize( in, Split ) func( in, startXIn, startYIn, out1, startXOut1, startYOut1, out2, startXOut2, startYOut2, out3, startXOut3, startYOut3, width, height );
+        initialize( in, Split ) func( manager( in ), startXIn, startYIn, manager( out1 ), startXOut1, startYOut1, manager( out2 ), startXOut2, startYOut2, manager( out3 ), startXOut3, startYOut3, width, height );
     }
 
     Image Subtract( const Image & in1, const Image & in2 )
@@ -556,7 +556,7 @@ namespace penguinV
     void Subtract( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                    uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Subtract ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, Subtract ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     uint32_t Sum( const Image & image )
@@ -567,7 +567,7 @@ namespace penguinV
     uint32_t Sum( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height )
     {
         initialize( image, Sum );
-        return func( image, x, y, width, height );
+        return func( manager( image ), x, y, width, height );
     }
 
     Image Threshold( const Image & in, uint8_t threshold )
@@ -609,7 +609,7 @@ namespace penguinV
     void Threshold( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                     uint8_t minThreshold, uint8_t maxThreshold )
     {
-        initialize( in, Threshold2 ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, minThreshold, maxThreshold );
+        initialize( in, Threshold2 ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, minThreshold, maxThreshold );
     }
 
     Image Transpose( const Image & in )
@@ -629,6 +629,6 @@ namespace penguinV
 
     void Transpose( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Transpose ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Transpose ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 }
-- 
2.43.0


From cae133a136cdebc46f19d2e00e3da2489b2ec161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 014/124] fix: refuse images of different types if conversion
 between image types is disabled

---
 src/penguinv/penguinv.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/penguinv/penguinv.cpp b/src/penguinv/penguinv.cpp
index 6175e79..abeaf4f 100644
--- a/src/penguinv/penguinv.cpp
+++ b/src/penguinv/penguinv.cpp
@@ -26,6 +26,9 @@ namespace
 {
     penguinV::Image generateImage( uint8_t imageType )
     {
+        if ( !ImageTypeManager::instance().isIntertypeConversionEnabled() )
+            throw penguinVException( "Conversion between image types is disabled" );
+
         return ImageTypeManager::instance().image( imageType );
     }
 
-- 
2.43.0


From d1e81a8ed9c86db113ec368c826951e04991d05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 015/124] fix: register RgbaToRgb, RgbToRgba and Shift
 functions when a function table is extended

---
 src/image_function_helper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index fa6aa82..ca95a27 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -62,9 +62,12 @@ namespace
         SET_FUNCTION( Normalize )
         SET_FUNCTION( ProjectionProfile )
         SET_FUNCTION( Resize )
+        SET_FUNCTION( RgbaToRgb )
         SET_FUNCTION( RgbToBgr )
+        SET_FUNCTION( RgbToRgba )
         SET_FUNCTION( SetPixel )
         SET_FUNCTION( SetPixel2 )
+        SET_FUNCTION( Shift )
         SET_FUNCTION( Split )
         SET_FUNCTION( Subtract )
         SET_FUNCTION( Sum )
-- 
2.43.0


From aa5fcf48c69688c7cb0e7934b9e382c93980eb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 016/124] fix: keep an image intact when it is copied to itself

---
 src/image_buffer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index 6ed23b0..aee4f9b 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -211,6 +211,10 @@ namespace penguinV
 
         void copy( const ImageTemplate & image )
         {
+            if ( this == &image ) {
+                return;
+            }
+
             if ( _deviceType != image._deviceType ) {
                 throw penguinVException( "Cannot copy image of one type to another type." );
             }
-- 
2.43.0


From 0ade8b5c24d5a15c4deef584515c77123504c730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 017/124] fix: keep parameters of an image consistent with its
 buffer if allocation fails or a size does not fit into 32 bits

---
 src/image_buffer.h | 47 +++++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index aee4f9b..9fabe48 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -27,6 +27,7 @@
 #include <cstdint>
 #include <cstring>
 #include <functional>
+#include <limits>
 #include <vector>
 
 namespace penguinV
@@ -83,17 +84,16 @@ namespace penguinV
         void resize( uint32_t width_, uint32_t height_ )
         {
             if ( width_ > 0 && height_ > 0 && ( width_ != _width || height_ != _height ) ) {
+                const uint32_t rowSize_ = _calculateRowSize( width_, colorCount(), alignment() );
+
                 clear();
 
+                // an exception can be thrown here so image parameters must be set only afterwards
+                _data = _allocate( static_cast<size_t>( height_ ) * static_cast<size_t>( rowSize_ ) );
+
                 _width = width_;
                 _height = height_;
-
-                _rowSize = width() * colorCount();
-                if ( _rowSize % alignment() != 0 ) {
-                    _rowSize = ( _rowSize / alignment() + 1 ) * alignment();
-                }
-
-                _data = _allocate( static_cast<size_t>( _height ) * static_cast<size_t>( _rowSize ) );
+                _rowSize = rowSize_;
             }
         }
 
@@ -125,6 +125,8 @@ namespace penguinV
                 throw penguinVException( "Invalid image assignment parameters" );
             }
 
+            const uint32_t rowSize_ = _calculateRowSize( width_, colorCount_, alignment_ );
+
             clear();
 
             _width = width_;
@@ -135,10 +137,7 @@ namespace penguinV
 
             _data = data_;
 
-            _rowSize = width() * colorCount();
-            if ( _rowSize % alignment() != 0 ) {
-                _rowSize = ( _rowSize / alignment() + 1 ) * alignment();
-            }
+            _rowSize = rowSize_;
         }
 
         bool empty() const
@@ -221,6 +220,11 @@ namespace penguinV
 
             clear();
 
+            // an exception can be thrown here so image parameters must be set only afterwards
+            if ( image._data != nullptr ) {
+                _data = _allocate( static_cast<size_t>( image._height ) * static_cast<size_t>( image._rowSize ) );
+            }
+
             _width = image._width;
             _height = image._height;
 
@@ -228,9 +232,7 @@ namespace penguinV
             _rowSize = image._rowSize;
             _alignment = image._alignment;
 
-            if ( image._data != nullptr ) {
-                _data = _allocate( static_cast<size_t>( _height ) * static_cast<size_t>( _rowSize ) );
-
+            if ( _data != nullptr ) {
                 _copy( _data, image._data, sizeof( TColorDepth ) * _height * _rowSize );
             }
         }
@@ -238,12 +240,9 @@ namespace penguinV
         bool mutate( uint32_t width_, uint32_t height_, uint8_t colorCount_, uint8_t alignment_ )
         {
             if ( colorCount_ > 0 && alignment_ > 0 ) {
-                uint32_t rowSize_ = width_ * colorCount_;
-                if ( rowSize_ % alignment_ != 0 ) {
-                    rowSize_ = ( rowSize_ / alignment_ + 1 ) * alignment_;
-                }
+                const uint32_t rowSize_ = _calculateRowSize( width_, colorCount_, alignment_ );
 
-                if ( rowSize_ * height_ != _rowSize * _height ) {
+                if ( static_cast<uint64_t>( rowSize_ ) * height_ != static_cast<uint64_t>( _rowSize ) * _height || ( width_ == 0 ) != ( height_ == 0 ) ) {
                     return false;
                 }
 
@@ -290,6 +289,16 @@ namespace penguinV
         }
 
     private:
+        static uint32_t _calculateRowSize( uint32_t width_, uint8_t colorCount_, uint8_t alignment_ )
+        {
+            const uint64_t rowSize_ = ( static_cast<uint64_t>( width_ ) * colorCount_ + alignment_ - 1u ) / alignment_ * alignment_;
+            if ( rowSize_ > std::numeric_limits<uint32_t>::max() ) {
+                throw penguinVException( "Width of an image is too big" );
+            }
+
+            return static_cast<uint32_t>( rowSize_ );
+        }
+
         TColorDepth * _allocate( size_t size ) const
         {
             return FunctionFacade::instance().allocate( _deviceType )( size );
-- 
2.43.0


From 345fdb717db48cc5f1d28eb8611c55d67fb48ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 018/124] fix: avoid a data race when first images are created
 in several threads

---
 src/image_buffer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index 9fabe48..f9d4fc8 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -402,7 +402,11 @@ namespace penguinV
             }
 
         private:
-            FunctionFacade() = default;
+            FunctionFacade()
+            {
+                // images of the default type can be created in several threads so these functions must be ready from the beginning
+                initialize( 0u, _allocateMemory, _deallocateMemory, _copyMemory, _setMemory );
+            }
 
             FunctionFacade & operator=( const FunctionFacade & )
             {
-- 
2.43.0


From c8a04c82a9d8af361bcbd7311acb1c743c49ce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 019/124] fix: avoid integer overflow in GetThreshold for
 histograms of large images

---
 src/image_function_helper.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index ca95a27..053299f 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -405,15 +405,15 @@ namespace Image_Function_Helper
             throw penguinVException( "Histogram size is not 256" );
 
         // It is well-known Otsu's method to find threshold
-        uint32_t pixelCount = histogram[0] + histogram[1];
-        uint32_t sum = histogram[1];
+        uint64_t pixelCount = static_cast<uint64_t>( histogram[0] ) + histogram[1];
+        uint64_t sum = histogram[1];
         for ( uint16_t i = 2; i < 256; ++i ) {
-            sum = sum + i * histogram[i];
+            sum = sum + static_cast<uint64_t>( i ) * histogram[i];
             pixelCount += histogram[i];
         }
 
-        uint32_t sumTemp = 0;
-        uint32_t pixelCountTemp = 0;
+        uint64_t sumTemp = 0;
+        uint64_t pixelCountTemp = 0;
 
         double maximumSigma = -1;
 
@@ -426,10 +426,11 @@ namespace Image_Function_Helper
                 break;
 
             if ( pixelCountTemp > 0 ) {
-                sumTemp += i * histogram[i];
+                sumTemp += static_cast<uint64_t>( i ) * histogram[i];
 
-                const double w1 = static_cast<double>( pixelCountTemp ) / pixelCount;
-                const double a = static_cast<double>( sumTemp ) / pixelCountTemp - static_cast<double>( sum - sumTemp ) / ( pixelCount - pixelCountTemp );
+                const double w1 = static_cast<double>( pixelCountTemp ) / static_cast<double>( pixelCount );
+                const double a = static_cast<double>( sumTemp ) / static_cast<double>( pixelCountTemp )
+                                 - static_cast<double>( sum - sumTemp ) / static_cast<double>( pixelCount - pixelCountTemp );
                 const double sigma = w1 * ( 1 - w1 ) * a * a;
 
                 if ( sigma > maximumSigma ) {
-- 
2.43.0


From f556bd50479e9201d1db414a62e11b1d63d33dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 020/124] fix: unlock the CPU memory allocator when an
 exception is thrown

---
 src/memory/cpu_memory.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/memory/cpu_memory.h b/src/memory/cpu_memory.h
index 33eb783..6c51ce1 100644
--- a/src/memory/cpu_memory.h
+++ b/src/memory/cpu_memory.h
@@ -53,8 +53,8 @@ namespace cpu_Memory
         template <typename _DataType = uint8_t>
         _DataType * allocate( size_t size = 1 )
         {
-            _lock.lock();
-            if ( _data != nullptr ) {
+            std::unique_lock<std::mutex> guard( _lock );
+            if ( _data != nullptr && size < _size ) {
                 const size_t overallSize = size * sizeof( _DataType );
 
                 if ( overallSize < _size ) {
@@ -65,12 +65,11 @@ namespace cpu_Memory
                         _DataType * address = reinterpret_cast<_DataType *>( _alignedData + *chunk );
                         _allocatedChunk.insert( std::pair<size_t, uint8_t>( *chunk, level ) );
                         _freeChunk[level].erase( chunk );
-                        _lock.unlock();
                         return address;
                     }
                 }
             }
-            _lock.unlock();
+            guard.unlock();
 
             // if no space in preallocated memory, allocate as usual memory
             return new _DataType[size];
@@ -81,7 +80,7 @@ namespace cpu_Memory
         template <typename _DataType>
         void free( _DataType * address )
         {
-            _lock.lock();
+            std::unique_lock<std::mutex> guard( _lock );
             if ( _data != nullptr && reinterpret_cast<uint8_t *>( address ) >= _alignedData ) {
                 auto pos = _allocatedChunk.find( static_cast<size_t>( reinterpret_cast<uint8_t *>( address ) - _alignedData ) );
 
@@ -89,11 +88,10 @@ namespace cpu_Memory
                     _freeChunk[pos->second].insert( pos->first );
                     _merge( pos->first, pos->second );
                     _allocatedChunk.erase( pos );
-                    _lock.unlock();
                     return;
                 }
             }
-            _lock.unlock();
+            guard.unlock();
 
             delete[] address;
         }
@@ -110,7 +108,7 @@ namespace cpu_Memory
         // true memory allocation on CPU
         virtual void _allocate( size_t size )
         {
-            _lock.lock();
+            std::lock_guard<std::mutex> guard( _lock );
             if ( _size != size && size > 0 ) {
                 if ( !_allocatedChunk.empty() ) {
                     throw std::logic_error( "Cannot free a memory on CPU. Not all objects were previously deallocated from allocator." );
@@ -125,7 +123,6 @@ namespace cpu_Memory
 
                 _size = size;
             }
-            _lock.unlock();
         }
 
         // true memory deallocation on CPU
-- 
2.43.0


From fcad58ba076ff5cb8bcf7f18a4ee0eaf567ea4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 021/124] fix: do not hang the CPU memory allocator by a
 reservation of an impossible size

---
 src/memory/cpu_memory.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/memory/cpu_memory.h b/src/memory/cpu_memory.h
index 6c51ce1..6f59643 100644
--- a/src/memory/cpu_memory.h
+++ b/src/memory/cpu_memory.h
@@ -21,8 +21,10 @@
 #pragma once
 
 #include "memory_allocator.h"
+#include <limits>
 #include <map>
 #include <mutex>
+#include <new>
 
 namespace cpu_Memory
 {
@@ -117,6 +119,10 @@ namespace cpu_Memory
                 _free();
 
                 const size_t alignment = 32u; // AVX alignment requirement
+                if ( size > std::numeric_limits<size_t>::max() - alignment ) {
+                    throw std::bad_alloc();
+                }
+
                 _data = new uint8_t[size + alignment];
                 const std::uintptr_t dataAddress = reinterpret_cast<std::uintptr_t>( _data );
                 _alignedData = ( ( dataAddress % alignment ) == 0 ) ? _data : _data + ( alignment - ( dataAddress % alignment ) );
-- 
2.43.0


From b0a686e177eab4e11aa305ffd4f64f862ea524f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 022/124] fix: merge only chunks of memory which were split
 from the same bigger chunk

---
 src/memory/memory_allocator.h | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/src/memory/memory_allocator.h b/src/memory/memory_allocator.h
index d59dba1..bc65a46 100644
--- a/src/memory/memory_allocator.h
+++ b/src/memory/memory_allocator.h
@@ -130,32 +130,18 @@ protected:
         size_t memorySize = static_cast<size_t>( 1 ) << from;
 
         for ( std::vector<std::set<size_t>>::iterator level = _freeChunk.begin() + from; level < _freeChunk.end(); ++level, memorySize <<= 1 ) {
-            std::set<size_t>::iterator pos = level->find( offset );
-            std::set<size_t>::iterator neighbour = pos;
-            ++neighbour;
-
-            if ( neighbour != level->end() ) {
-                if ( *( neighbour ) - *( pos ) == memorySize ) {
-                    offset = *pos;
-                    ( level + 1 )->insert( offset );
-                    level->erase( pos, ++neighbour );
-                    continue;
-                }
-            }
-
-            if ( pos != level->begin() ) {
-                neighbour = pos;
-                --neighbour;
+            // only 2 chunks which were created by splitting of the same bigger chunk can be merged
+            const std::set<size_t>::iterator neighbour = level->find( offset ^ memorySize );
 
-                if ( *( pos ) - *( neighbour ) == memorySize ) {
-                    offset = *neighbour;
-                    ( level + 1 )->insert( offset );
-                    level->erase( neighbour, ++pos );
-                    continue;
-                }
+            if ( neighbour == level->end() || level + 1 == _freeChunk.end() ) {
+                return;
             }
 
-            return;
+            level->erase( neighbour );
+            level->erase( offset );
+
+            offset &= ~memorySize;
+            ( level + 1 )->insert( offset );
         }
     }
 
-- 
2.43.0


From 6602c7a6306a7b5915071abe83ca6f8fc1a56c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 023/124] fix: accumulate color images in the SIMD version of
 Accumulate as the scalar one does

---
 src/image_function_simd.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index d4a8764..0770ea3 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2562,7 +2562,6 @@ namespace simd
         }
 
         Image_Function::ValidateImageParameters( image, x, y, width, height );
-        Image_Function::VerifyGrayScaleImage( image );
         width = width * colorCount;
 
         if ( result.size() != width * height )
-- 
2.43.0


From 36ad92ab6ac465b7fb1b95829a22877b7f65ade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 024/124] fix: refuse an invalid range in the SIMD version of
 Threshold as the scalar one does

---
 src/image_function_simd.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 0770ea3..9000072 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -3208,6 +3208,8 @@ namespace simd
 
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         Image_Function::VerifyGrayScaleImage( in, out );
+        if ( minThreshold > maxThreshold )
+            throw penguinVException( "Minimum threshold value is bigger than maximum threshold value" );
 
         Image_Function::OptimiseRoi( width, height, in, out );
 
-- 
2.43.0


From 88e0a719c3cee85dab59f67e240e0bad16bff26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 025/124] fix: normalize color images in the thread pool
 version of Normalize as the scalar one does

---
 src/function_pool.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index 8a43caf..92beadf 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -896,18 +896,21 @@ namespace Function_Pool
     void Normalize( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
         const std::vector<uint32_t> histogram = Function_Pool::Histogram( in, startXIn, startYIn, width, height );
-        if ( histogram.size() != 256u )
-            throw penguinVException( "Histogram size is not equal to 256" );
+        const size_t colorCount = in.colorCount();
+        if ( histogram.size() != 256u * colorCount )
+            throw penguinVException( "Histogram size is not equal to 256 for every color channel" );
 
         uint16_t minimum = 255u;
         uint16_t maximum = 0u;
 
         for ( uint16_t i = 0u; i < 256u; ++i ) {
-            if ( histogram[i] > 0u ) {
-                if ( maximum < i )
-                    maximum = i;
-                if ( minimum > i )
-                    minimum = i;
+            for ( size_t colorChannel = 0u; colorChannel < colorCount; ++colorChannel ) {
+                if ( histogram[i * colorCount + colorChannel] > 0u ) {
+                    if ( maximum < i )
+                        maximum = i;
+                    if ( minimum > i )
+                        minimum = i;
+                }
             }
         }
 
-- 
2.43.0


From 8aa6574cac9d351be55dcd31ab6a4aea67d93f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 026/124] fix: keep the order of pixels in AVX and AVX512
 versions of Accumulate

---
 src/image_function_simd.cpp | 70 ++++++++++---------------------------
 1 file changed, 19 insertions(+), 51 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 9000072..14f416e 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -114,34 +114,18 @@ namespace avx512
     void Accumulate( uint32_t rowSize, const uint8_t * imageY, const uint8_t * imageYEnd, uint32_t * outY, uint32_t simdWidth, uint32_t totalSimdWidth,
                      uint32_t nonSimdWidth )
     {
-        simd zero = _mm512_setzero_si512();
-
         const uint32_t width = totalSimdWidth + nonSimdWidth;
 
         for ( ; imageY != imageYEnd; imageY += rowSize, outY += width ) {
-            const simd * src = reinterpret_cast<const simd *>( imageY );
-            const simd * srcEnd = src + simdWidth;
+            const uint8_t * src = imageY;
+            const uint8_t * srcEnd = src + simdWidth * sizeof( simd );
             simd * dst = reinterpret_cast<simd *>( outY );
 
-            for ( ; src != srcEnd; ++src ) {
-                simd data = _mm512_loadu_si512( src );
-
-                const simd dataLo = _mm512_unpacklo_epi8( data, zero );
-                const simd dataHi = _mm512_unpackhi_epi8( data, zero );
+            // extension of 8-bit values to 32-bit values must keep the order of pixels
+            for ( ; src != srcEnd; src += sizeof( simd ) / 4u, ++dst ) {
+                const simd data = _mm512_cvtepu8_epi32( _mm_loadu_si128( reinterpret_cast<const __m128i *>( src ) ) );
 
-                const simd data_1 = _mm512_unpacklo_epi16( dataLo, zero );
-                const simd data_2 = _mm512_unpackhi_epi16( dataLo, zero );
-                const simd data_3 = _mm512_unpacklo_epi16( dataHi, zero );
-                const simd data_4 = _mm512_unpackhi_epi16( dataHi, zero );
-
-                _mm512_storeu_si512( dst, _mm512_add_epi32( data_1, _mm512_loadu_si512( dst ) ) );
-                ++dst;
-                _mm512_storeu_si512( dst, _mm512_add_epi32( data_2, _mm512_loadu_si512( dst ) ) );
-                ++dst;
-                _mm512_storeu_si512( dst, _mm512_add_epi32( data_3, _mm512_loadu_si512( dst ) ) );
-                ++dst;
-                _mm512_storeu_si512( dst, _mm512_add_epi32( data_4, _mm512_loadu_si512( dst ) ) );
-                ++dst;
+                _mm512_storeu_si512( dst, _mm512_add_epi32( data, _mm512_loadu_si512( dst ) ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -574,34 +558,18 @@ namespace avx
     void Accumulate( uint32_t rowSize, const uint8_t * imageY, const uint8_t * imageYEnd, uint32_t * outY, uint32_t simdWidth, uint32_t totalSimdWidth,
                      uint32_t nonSimdWidth )
     {
-        simd zero = _mm256_setzero_si256();
-
         const uint32_t width = totalSimdWidth + nonSimdWidth;
 
         for ( ; imageY != imageYEnd; imageY += rowSize, outY += width ) {
-            const simd * src = reinterpret_cast<const simd *>( imageY );
-            const simd * srcEnd = src + simdWidth;
+            const uint8_t * src = imageY;
+            const uint8_t * srcEnd = src + simdWidth * sizeof( simd );
             simd * dst = reinterpret_cast<simd *>( outY );
 
-            for ( ; src != srcEnd; ++src ) {
-                simd data = _mm256_loadu_si256( src );
-
-                const simd dataLo = _mm256_unpacklo_epi8( data, zero );
-                const simd dataHi = _mm256_unpackhi_epi8( data, zero );
-
-                const simd data_1 = _mm256_unpacklo_epi16( dataLo, zero );
-                const simd data_2 = _mm256_unpackhi_epi16( dataLo, zero );
-                const simd data_3 = _mm256_unpacklo_epi16( dataHi, zero );
-                const simd data_4 = _mm256_unpackhi_epi16( dataHi, zero );
+            // extension of 8-bit values to 32-bit values must keep the order of pixels
+            for ( ; src != srcEnd; src += sizeof( simd ) / 4u, ++dst ) {
+                const simd data = _mm256_cvtepu8_epi32( _mm_loadl_epi64( reinterpret_cast<const __m128i *>( src ) ) );
 
-                _mm256_storeu_si256( dst, _mm256_add_epi32( data_1, _mm256_loadu_si256( dst ) ) );
-                ++dst;
-                _mm256_storeu_si256( dst, _mm256_add_epi32( data_2, _mm256_loadu_si256( dst ) ) );
-                ++dst;
-                _mm256_storeu_si256( dst, _mm256_add_epi32( data_3, _mm256_loadu_si256( dst ) ) );
-                ++dst;
-                _mm256_storeu_si256( dst, _mm256_add_epi32( data_4, _mm256_loadu_si256( dst ) ) );
-                ++dst;
+                _mm256_storeu_si256( dst, _mm256_add_epi32( data, _mm256_loadu_si256( dst ) ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -1862,7 +1830,7 @@ namespace neon
 
         for ( ; imageY != imageYEnd; imageY += rowSize, outY += width ) {
             const uint8_t * src = imageY;
-            const uint8_t * srcEnd = src + totalSimdWidth;
+            const uint8_t * srcEnd = src + simdWidth * sizeof( simd );
             uint32_t * dst = outY;
 
             for ( ; src != srcEnd; src += simdSize ) {
@@ -1976,7 +1944,7 @@ namespace neon
         for ( ; outY != outYEnd; outY += rowSizeOut, inY += rowSizeIn ) {
             const uint8_t * src = inY;
             uint16_t * dst = outY;
-            const uint8_t * srcEnd = src + totalSimdWidth;
+            const uint8_t * srcEnd = src + simdWidth * sizeof( simd );
 
             for ( ; src != srcEnd; src += 8, dst += 8 ) {
                 vst1q_u16( dst, vshll_n_u8( vld1_u8( src ), 8 ) );
@@ -2033,7 +2001,7 @@ namespace neon
             const uint8_t * src = inY;
             uint8_t * dst = outY;
 
-            const uint8_t * srcEnd = src + totalSimdWidth;
+            const uint8_t * srcEnd = src + simdWidth * sizeof( simd );
 
             for ( ; src != srcEnd; src += simdSize ) {
                 const uint8x8_t src1 = vld1_u8( src );
@@ -2258,7 +2226,7 @@ namespace neon
 
             for ( ; imageStart != imageYEnd; imageStart += rowSize, ++out ) {
                 const uint8_t * src = imageStart;
-                const uint8_t * srcEnd = src + totalSimdWidth;
+                const uint8_t * srcEnd = src + simdWidth * sizeof( simd );
                 uint32x4_t simdSum = vdupq_n_u32( 0 );
 
                 for ( ; src != srcEnd; src += simdSize ) {
@@ -2352,7 +2320,7 @@ namespace neon
 
         for ( ; imageY != imageYEnd; imageY += rowSize ) {
             const uint8_t * src = imageY;
-            const uint8_t * srcEnd = src + totalSimdWidth;
+            const uint8_t * srcEnd = src + simdWidth * sizeof( simd );
 
             for ( ; src != srcEnd; src += simdSize ) {
                 const uint8x16_t data = vld1q_u8( src );
@@ -2386,7 +2354,7 @@ namespace neon
             const uint8_t * src = inY;
             uint8_t * dst = outY;
 
-            const uint8_t * srcEnd = src + totalSimdWidth;
+            const uint8_t * srcEnd = src + simdWidth * sizeof( simd );
 
             for ( ; src != srcEnd; src += simdSize, dst += simdSize )
                 vst1q_u8( dst, vcgeq_u8( vld1q_u8( src ), compare ) );
@@ -2418,7 +2386,7 @@ namespace neon
             const uint8_t * src = inY;
             uint8_t * dst = outY;
 
-            const uint8_t * srcEnd = src + totalSimdWidth;
+            const uint8_t * srcEnd = src + simdWidth * sizeof( simd );
 
             for ( ; src != srcEnd; src += simdSize, dst += simdSize ) {
                 const simd data = vld1q_u8( src );
-- 
2.43.0


From aef65e4b315bef2f992ed96c3dd65c618f060bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 027/124] fix: return projections of all channels in the thread
 pool version of ProjectionProfile

---
 src/function_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index 92beadf..07de89e 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -310,7 +310,7 @@ namespace Function_Pool
             _dataIn.horizontalProjection = horizontal;
             _process( _ProjectionProfile );
 
-            projection.resize( horizontal ? width : height );
+            projection.resize( horizontal ? static_cast<size_t>( width ) * image.colorCount() : height );
             _dataOut.getProjection( projection );
         }
 
-- 
2.43.0


From 8c805635f210d29e0e83205a6411a98e5708958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 028/124] fix: choose source rows by sizes of whole areas in
 the thread pool version of Resize

---
 src/function_pool.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index 07de89e..72ff1d9 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -38,6 +38,10 @@ namespace Function_Pool
         double coefficientA{ 1.0 }; // for GammaCorrection() function
         double coefficientGamma{ 1.0 }; // for GammaCorrection() function
         std::vector<uint8_t> lookupTable; // for LookupTable() function
+        uint32_t startYIn{ 0 }; // for Resize() function
+        uint32_t heightIn{ 0 }; // for Resize() function
+        uint32_t startYOut{ 0 }; // for Resize() function
+        uint32_t heightOut{ 0 }; // for Resize() function
     };
 
     // This structure holds output data for some specific functions
@@ -318,6 +322,17 @@ namespace Function_Pool
                      uint32_t widthOut, uint32_t heightOut )
         {
             _setup( in, startXIn, startYIn, widthIn, heightIn, out, startXOut, startYOut, widthOut, heightOut );
+
+            // Source positions depend on sizes of whole areas so the work is divided only by rows of the output image
+            const AreaInfo rows( 0, 0, 1, heightOut, static_cast<uint32_t>( ThreadPoolMonoid::instance().threadCount() ) );
+            _infoIn1->_copy( rows, startXIn, startYIn, widthIn, heightIn );
+            _infoOut1->_copy( rows, startXOut, startYOut, widthOut, heightOut );
+
+            _dataIn.startYIn = startYIn;
+            _dataIn.heightIn = heightIn;
+            _dataIn.startYOut = startYOut;
+            _dataIn.heightOut = heightOut;
+
             _process( _Resize );
         }
 
@@ -488,8 +503,14 @@ namespace Function_Pool
                                              _dataIn.horizontalProjection, _dataOut.projection[taskId] );
                 break;
             case _Resize:
-                penguinV::Resize( _infoIn1->image, _infoIn1->startX[taskId], _infoIn1->startY[taskId], _infoIn1->width[taskId], _infoIn1->height[taskId],
-                                  _infoOut1->image, _infoOut1->startX[taskId], _infoOut1->startY[taskId], _infoOut1->width[taskId], _infoOut1->height[taskId] );
+                for ( uint32_t row = 0; row < _infoOut1->height[taskId]; ++row ) {
+                    const uint32_t rowOut = _infoOut1->startY[taskId] + row;
+                    const uint32_t rowIn
+                        = static_cast<uint32_t>( static_cast<uint64_t>( rowOut - _dataIn.startYOut ) * _dataIn.heightIn / _dataIn.heightOut ) + _dataIn.startYIn;
+
+                    penguinV::Resize( _infoIn1->image, _infoIn1->startX[taskId], rowIn, _infoIn1->width[taskId], 1, _infoOut1->image, _infoOut1->startX[taskId], rowOut,
+                                      _infoOut1->width[taskId], 1 );
+                }
                 break;
             case _RgbToBgr:
                 penguinV::RgbToBgr( _infoIn1->image, _infoIn1->startX[taskId], _infoIn1->startY[taskId], _infoOut1->image, _infoOut1->startX[taskId],
-- 
2.43.0


From 401863cda34f9c80f8640e41fa7fa026a9f80248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 029/124] fix: use the color count for the input offset in SIMD
 versions of ConvertTo16Bit and ConvertTo8Bit

---
 src/image_function_simd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 14f416e..8dbf806 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2696,7 +2696,7 @@ namespace simd
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint16_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint16_t * outYEnd = outY + height * rowSizeOut;
@@ -2735,7 +2735,7 @@ namespace simd
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint8_t * outYEnd = outY + height * rowSizeOut;
-- 
2.43.0


From 40ea732797d3c2abafab65082069eb221d04cb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 030/124] fix: convert RGBA images correctly in the SIMD
 version of ConvertToRgb

---
 src/image_function_simd.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 8dbf806..861d13e 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2777,6 +2777,10 @@ namespace simd
             Image_Function::Copy( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
             return;
         }
+        if ( in.colorCount() == RGBA ) {
+            Image_Function::ConvertToRgb( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+            return;
+        }
 
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
-- 
2.43.0


From b3d346b6405c8e61bf02e63af53fb9681cdf0f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 031/124] fix: keep the order of columns in AVX and AVX512
 versions of ProjectionProfile

---
 src/image_function_simd.cpp | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 861d13e..d6d3576 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -378,17 +378,10 @@ namespace avx512
                 simd * dst = reinterpret_cast<simd *>( out );
 
                 for ( ; imageSimdY != imageSimdYEnd; imageSimdY += rowSize ) {
-                    const simd * src = reinterpret_cast<const simd *>( imageSimdY );
-
-                    const simd data = _mm512_loadu_si512( src );
-
-                    const simd dataLo = _mm512_unpacklo_epi8( data, zero );
-                    const simd dataHi = _mm512_unpackhi_epi8( data, zero );
-
-                    const simd data_1 = _mm512_unpacklo_epi16( dataLo, zero );
-                    const simd data_2 = _mm512_unpackhi_epi16( dataLo, zero );
-                    const simd data_3 = _mm512_unpacklo_epi16( dataHi, zero );
-                    const simd data_4 = _mm512_unpackhi_epi16( dataHi, zero );
+                    const simd data_1 = _mm512_cvtepu8_epi32( _mm_loadu_si128( reinterpret_cast<const __m128i *>( imageSimdY ) ) );
+                    const simd data_2 = _mm512_cvtepu8_epi32( _mm_loadu_si128( reinterpret_cast<const __m128i *>( imageSimdY + 16 ) ) );
+                    const simd data_3 = _mm512_cvtepu8_epi32( _mm_loadu_si128( reinterpret_cast<const __m128i *>( imageSimdY + 32 ) ) );
+                    const simd data_4 = _mm512_cvtepu8_epi32( _mm_loadu_si128( reinterpret_cast<const __m128i *>( imageSimdY + 48 ) ) );
                     simdSum_1 = _mm512_add_epi32( data_1, simdSum_1 );
                     simdSum_2 = _mm512_add_epi32( data_2, simdSum_2 );
                     simdSum_3 = _mm512_add_epi32( data_3, simdSum_3 );
@@ -824,17 +817,10 @@ namespace avx
                 simd * dst = reinterpret_cast<simd *>( out );
 
                 for ( ; imageSimdY != imageSimdYEnd; imageSimdY += rowSize ) {
-                    const simd * src = reinterpret_cast<const simd *>( imageSimdY );
-
-                    const simd data = _mm256_loadu_si256( src );
-
-                    const simd dataLo = _mm256_unpacklo_epi8( data, zero );
-                    const simd dataHi = _mm256_unpackhi_epi8( data, zero );
-
-                    const simd data_1 = _mm256_unpacklo_epi16( dataLo, zero );
-                    const simd data_2 = _mm256_unpackhi_epi16( dataLo, zero );
-                    const simd data_3 = _mm256_unpacklo_epi16( dataHi, zero );
-                    const simd data_4 = _mm256_unpackhi_epi16( dataHi, zero );
+                    const simd data_1 = _mm256_cvtepu8_epi32( _mm_loadl_epi64( reinterpret_cast<const __m128i *>( imageSimdY ) ) );
+                    const simd data_2 = _mm256_cvtepu8_epi32( _mm_loadl_epi64( reinterpret_cast<const __m128i *>( imageSimdY + 8 ) ) );
+                    const simd data_3 = _mm256_cvtepu8_epi32( _mm_loadl_epi64( reinterpret_cast<const __m128i *>( imageSimdY + 16 ) ) );
+                    const simd data_4 = _mm256_cvtepu8_epi32( _mm_loadl_epi64( reinterpret_cast<const __m128i *>( imageSimdY + 24 ) ) );
                     simdSum_1 = _mm256_add_epi32( data_1, simdSum_1 );
                     simdSum_2 = _mm256_add_epi32( data_2, simdSum_2 );
                     simdSum_3 = _mm256_add_epi32( data_3, simdSum_3 );
-- 
2.43.0


From 3955818fba916b23247e9e4529dcd9de729b084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 032/124] fix: keep the order of pixels in AVX and AVX512
 versions of ConvertTo16Bit and ConvertTo8Bit

---
 src/image_function_simd.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index d6d3576..821efd2 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -221,16 +221,18 @@ namespace avx512
                          uint32_t totalSimdWidth, uint32_t nonSimdWidth )
     {
         const simd zero = _mm512_setzero_si512();
+        const simd unpackOrder = _mm512_setr_epi64( 0, 4, 1, 5, 2, 6, 3, 7 );
         for ( ; outY != outYEnd; outY += rowSizeOut, inY += rowSizeIn ) {
             const simd * src = reinterpret_cast<const simd *>( inY );
             simd * dst = reinterpret_cast<simd *>( outY );
             const simd * srcEnd = src + simdWidth;
 
             for ( ; src != srcEnd; ++src ) {
-                const simd srcData = _mm512_loadu_si512( src );
+                // unpack functions work within 128-bit lanes so 64-bit parts must be placed into proper lanes
+                const simd srcData = _mm512_permutexvar_epi64( unpackOrder, _mm512_loadu_si512( src ) );
 
                 _mm512_storeu_si512( dst++, _mm512_unpacklo_epi8( zero, srcData ) );
-                _mm512_storeu_si512( dst++, _mm512_unpacklo_epi8( zero, srcData ) );
+                _mm512_storeu_si512( dst++, _mm512_unpackhi_epi8( zero, srcData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -247,6 +249,8 @@ namespace avx512
     void ConvertTo8Bit( uint8_t * outY, const uint8_t * outYEnd, const uint16_t * inY, uint32_t rowSizeOut, uint32_t rowSizeIn, uint32_t simdWidth,
                         uint32_t totalSimdWidth, uint32_t nonSimdWidth )
     {
+        const simd packOrder = _mm512_setr_epi64( 0, 2, 4, 6, 1, 3, 5, 7 );
+
         for ( ; outY != outYEnd; outY += rowSizeOut, inY += rowSizeIn ) {
             const simd * src = reinterpret_cast<const simd *>( inY );
             simd * dst = reinterpret_cast<simd *>( outY );
@@ -258,7 +262,8 @@ namespace avx512
                 const simd srcData2 = _mm512_loadu_si512( src );
                 ++src;
 
-                _mm512_storeu_si512( dst, _mm512_packus_epi16( _mm512_srli_epi16( srcData1, 8 ), _mm512_srli_epi16( srcData2, 8 ) ) );
+                const simd packedData = _mm512_packus_epi16( _mm512_srli_epi16( srcData1, 8 ), _mm512_srli_epi16( srcData2, 8 ) );
+                _mm512_storeu_si512( dst, _mm512_permutexvar_epi64( packOrder, packedData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -664,10 +669,11 @@ namespace avx
             const simd * srcEnd = src + simdWidth;
 
             for ( ; src != srcEnd; ++src ) {
-                const simd srcData = _mm256_loadu_si256( src );
+                // unpack functions work within 128-bit lanes so 64-bit parts must be placed into proper lanes
+                const simd srcData = _mm256_permute4x64_epi64( _mm256_loadu_si256( src ), 0xD8 );
 
                 _mm256_storeu_si256( dst++, _mm256_unpacklo_epi8( zero, srcData ) );
-                _mm256_storeu_si256( dst++, _mm256_unpacklo_epi8( zero, srcData ) );
+                _mm256_storeu_si256( dst++, _mm256_unpackhi_epi8( zero, srcData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -695,7 +701,8 @@ namespace avx
                 const simd srcData2 = _mm256_loadu_si256( src );
                 ++src;
 
-                _mm256_storeu_si256( dst, _mm256_packus_epi16( _mm256_srli_epi16( srcData1, 8 ), _mm256_srli_epi16( srcData2, 8 ) ) );
+                const simd packedData = _mm256_packus_epi16( _mm256_srli_epi16( srcData1, 8 ), _mm256_srli_epi16( srcData2, 8 ) );
+                _mm256_storeu_si256( dst, _mm256_permute4x64_epi64( packedData, 0xD8 ) );
             }
 
             if ( nonSimdWidth > 0 ) {
-- 
2.43.0


From cae2bff07f60f53de2b9b6d948a116d841ec2e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 033/124] fix: make SIMD versions of RgbToBgr work when the
 output is the input image

---
 src/image_function_simd.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 821efd2..191107e 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -902,19 +902,24 @@ namespace avx
             for ( ; outX != outXEnd; outX += simdWidth, inX += simdWidth ) {
                 const simd * src = reinterpret_cast<const simd *>( inX );
                 simd * dst = reinterpret_cast<simd *>( outX );
+                // the output could be the input
+                const uint8_t value15 = *( inX + 15 );
+                const uint8_t value17 = *( inX + 17 );
+
                 simd result = _mm256_loadu_si256( src );
                 result = _mm256_shuffle_epi8( result, ctrl );
                 _mm256_storeu_si256( dst, result );
-                *( outX + 15 ) = *( inX + 17 );
-                *( outX + 17 ) = *( inX + 15 );
+                *( outX + 15 ) = value17;
+                *( outX + 17 ) = value15;
             }
 
             if ( nonSimdWidth > 0 ) {
                 const uint8_t * outXEndNonSimd = outXEnd + nonSimdWidth;
                 for ( ; outX != outXEndNonSimd; outX += colorCount, inX += colorCount ) {
-                    *( outX + 2 ) = *( inX );
-                    *( outX + 1 ) = *( inX + 1 );
+                    const uint8_t red = *( inX );
                     *( outX ) = *( inX + 2 );
+                    *( outX + 1 ) = *( inX + 1 );
+                    *( outX + 2 ) = red;
                 }
             }
         }
@@ -1620,9 +1625,10 @@ namespace sse
             if ( nonSimdWidth > 0 ) {
                 const uint8_t * outXEndNonSimd = outXEnd + nonSimdWidth;
                 for ( ; outX != outXEndNonSimd; outX += colorCount, inX += colorCount ) {
-                    *( outX + 2 ) = *( inX );
-                    *( outX + 1 ) = *( inX + 1 );
+                    const uint8_t red = *( inX );
                     *( outX ) = *( inX + 2 );
+                    *( outX + 1 ) = *( inX + 1 );
+                    *( outX + 2 ) = red;
                 }
             }
         }
@@ -2270,9 +2276,10 @@ namespace neon
             if ( nonSimdWidth > 0 ) {
                 const uint8_t * outXEndNonSimd = outXEnd + nonSimdWidth;
                 for ( ; outX != outXEndNonSimd; outX += colorCount, inX += colorCount ) {
-                    *( outX + 2 ) = *( inX );
-                    *( outX + 1 ) = *( inX + 1 );
+                    const uint8_t red = *( inX );
                     *( outX ) = *( inX + 2 );
+                    *( outX + 1 ) = *( inX + 1 );
+                    *( outX + 2 ) = red;
                 }
             }
         }
-- 
2.43.0


From 1e7c7d90c14617bafe98ea11c7e4a24622a28ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 034/124] fix: convert the second half of pixels in the SSE
 version of ConvertTo16Bit

---
 src/image_function_simd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 191107e..b66653a 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -1289,7 +1289,7 @@ namespace sse
                 const simd srcData = _mm_loadu_si128( src );
 
                 _mm_storeu_si128( dst++, _mm_unpacklo_epi8( zero, srcData ) );
-                _mm_storeu_si128( dst++, _mm_unpacklo_epi8( zero, srcData ) );
+                _mm_storeu_si128( dst++, _mm_unpackhi_epi8( zero, srcData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
-- 
2.43.0


From 7939f09144562408627c96e671e7e07059a05983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 035/124] fix: complete tasks without running them when a
 thread pool is cleared

---
 src/thread_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index af9a214..36338d6 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -249,7 +249,7 @@ void ThreadPool::clear()
 {
     _taskInfo.lock();
     // complete all tasks without real computations. It helps to avoid a deadlock in a case when thread pool is destroyed
-    std::for_each( _task.begin(), _task.end(), []( AbstractTaskProvider * task ) { task->_task( true ); } );
+    std::for_each( _task.begin(), _task.end(), []( AbstractTaskProvider * task ) { task->_taskRun( true ); } );
     _task.clear();
 
     _taskInfo.unlock();
-- 
2.43.0


From 5896a47a2a7bafb701f66b3571042b26dfe8cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 036/124] fix: do not access a task provider when other threads
 could have completed all its tasks

---
 src/thread_pool.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 36338d6..4df7017 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -51,8 +51,9 @@ AbstractTaskProvider & AbstractTaskProvider::operator=( const AbstractTaskProvid
 void AbstractTaskProvider::_taskRun( bool skip )
 {
     const size_t taskId = _givenTaskCount++;
+    const size_t taskCount = _taskCount; // the object must not be accessed after completion of other tasks as it could be reused or destroyed
 
-    if ( taskId < _taskCount ) {
+    if ( taskId < taskCount ) {
         if ( !skip ) {
             try {
                 _task( taskId );
@@ -66,7 +67,7 @@ void AbstractTaskProvider::_taskRun( bool skip )
 
         const size_t completedTasks = ( ++_completedTaskCount );
 
-        if ( completedTasks == _taskCount ) {
+        if ( completedTasks == taskCount ) {
             _completion.lock();
 
             _running = false;
-- 
2.43.0


From a5af05d546c826015086e1f39c02949260f8d25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 037/124] fix: access the list of closing threads only under
 the lock as it is reallocated when a thread pool is resized

---
 src/thread_pool.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 4df7017..e528776 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -285,29 +285,24 @@ void ThreadPool::_workerThread( ThreadPool * pool, size_t threadId )
         pool->_creation.unlock();
     }
 
-    while ( !pool->_exit[threadId] ) {
+    while ( true ) {
         std::unique_lock<std::mutex> _mutexLock( pool->_taskInfo );
         pool->_waiting.wait( _mutexLock, [&] { return pool->_run[threadId]; } );
-        _mutexLock.unlock();
 
         if ( pool->_exit[threadId] )
             break;
 
-        pool->_taskInfo.lock();
-
         if ( !pool->_task.empty() ) {
             AbstractTaskProvider * task = pool->_task.front();
 
             pool->_task.pop_front();
 
-            pool->_taskInfo.unlock();
+            _mutexLock.unlock();
 
             task->_taskRun( false );
         }
         else {
             pool->_run[threadId] = 0;
-
-            pool->_taskInfo.unlock();
         }
     }
 
-- 
2.43.0


From b6dfad9651f71ac32213615ec005b4e29ccd01b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 038/124] fix: complete tasks which are removed from a thread
 pool so waiting for them does not last forever

---
 src/thread_pool.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index e528776..2070f84 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -241,8 +241,13 @@ void ThreadPool::remove( AbstractTaskProvider * provider )
 {
     _taskInfo.lock();
 
+    const size_t taskCount = _task.size();
     _task.remove( provider );
 
+    // complete removed tasks without real computations. Otherwise waiting for them would never end
+    for ( size_t i = _task.size(); i < taskCount; ++i )
+        provider->_taskRun( true );
+
     _taskInfo.unlock();
 }
 
-- 
2.43.0


From 32fb8f18d6f1a6b146eeb79e20d8cf33ca477ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 039/124] fix: make a thread pool usable again after it is
 stopped

---
 src/thread_pool.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 2070f84..cbb269a 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -278,6 +278,13 @@ void ThreadPool::stop()
             thread->join();
 
         _worker.clear();
+
+        _taskInfo.lock();
+
+        _exit.clear();
+        _run.clear();
+
+        _taskInfo.unlock();
     }
 }
 
-- 
2.43.0


From 48d4d3db6db00da4d856d34afe19cc9adfdc8478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 040/124] fix: avoid data races on flags of a task provider

---
 src/thread_pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thread_pool.h b/src/thread_pool.h
index 3a05aa0..242b420 100644
--- a/src/thread_pool.h
+++ b/src/thread_pool.h
@@ -55,12 +55,12 @@ private:
     std::atomic<size_t> _givenTaskCount; // number of tasks which were given to thread pool
     std::atomic<size_t> _completedTaskCount; // number of completed tasks
 
-    bool _running; // boolean variable specifies the state of tasks processing
+    std::atomic<bool> _running; // boolean variable specifies the state of tasks processing
     std::mutex _completion; // mutex for synchronization reporting about completion of all tasks
                             // this mutex is waited in _wait() function
     std::condition_variable _waiting; // condition variable for verification that all tasks are really completed
 
-    bool _exceptionRaised; // notifies whether an exception raised during task execution
+    std::atomic<bool> _exceptionRaised; // notifies whether an exception raised during task execution
 
     void _taskRun( bool skip ); // function is called only by thread pool to call _task() function and increment counters
 };
-- 
2.43.0


From b101dbd4655ef232cb868b8b88e3bec31c95725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 041/124] fix: refuse tasks when a thread pool is being stopped
 and avoid a data race on the number of threads

---
 src/thread_pool.cpp | 21 +++++++++++++--------
 src/thread_pool.h   |  2 +-
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index cbb269a..6abed2c 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -169,8 +169,8 @@ void ThreadPool::resize( size_t threads )
 
         _threadCount = threads;
 
-        while ( threads > threadCount() )
-            _worker.push_back( std::thread( ThreadPool::_workerThread, this, threadCount() ) );
+        while ( threads > _worker.size() )
+            _worker.push_back( std::thread( ThreadPool::_workerThread, this, _worker.size() ) );
 
         std::unique_lock<std::mutex> _mutexLock( _creation );
         _completeCreation.wait( _mutexLock, [&] { return _threadsCreated; } );
@@ -184,7 +184,9 @@ void ThreadPool::resize( size_t threads )
 
         _taskInfo.unlock();
 
-        while ( threads < threadCount() ) {
+        _threadCount = threads;
+
+        while ( threads < _worker.size() ) {
             _worker.back().join();
 
             _worker.pop_back();
@@ -201,7 +203,7 @@ void ThreadPool::resize( size_t threads )
 
 size_t ThreadPool::threadCount() const
 {
-    return _worker.size();
+    return _threadCount;
 }
 
 void ThreadPool::add( AbstractTaskProvider * provider, size_t taskCount )
@@ -209,6 +211,8 @@ void ThreadPool::add( AbstractTaskProvider * provider, size_t taskCount )
     if ( taskCount == 0 )
         throw penguinVException( "Try to add zero tasks to thread pool" );
 
+    std::unique_lock<std::mutex> _mutexLock( _taskInfo );
+
     if ( threadCount() == 0 )
         throw penguinVException( "No threads in thread pool" );
 
@@ -216,14 +220,10 @@ void ThreadPool::add( AbstractTaskProvider * provider, size_t taskCount )
     provider->_running = true;
     provider->_completion.unlock();
 
-    _taskInfo.lock();
-
     _task.insert( _task.end(), taskCount, provider );
 
     std::fill( _run.begin(), _run.end(), 1 );
     _waiting.notify_all();
-
-    _taskInfo.unlock();
 }
 
 bool ThreadPool::empty()
@@ -263,6 +263,11 @@ void ThreadPool::clear()
 
 void ThreadPool::stop()
 {
+    // no tasks are accepted from this moment so nobody is left waiting for tasks which will never run
+    _taskInfo.lock();
+    _threadCount = 0;
+    _taskInfo.unlock();
+
     clear();
 
     if ( !_worker.empty() ) {
diff --git a/src/thread_pool.h b/src/thread_pool.h
index 242b420..f4bbc71 100644
--- a/src/thread_pool.h
+++ b/src/thread_pool.h
@@ -113,7 +113,7 @@ private:
     std::mutex _creation; // mutex for thread creation verification
     std::atomic<size_t> _runningThreadCount; // variable used to calculate a number of running threads
     std::condition_variable _completeCreation; // condition variable for verification that all threads are created
-    std::size_t _threadCount; // current number of threads in pool
+    std::atomic<size_t> _threadCount; // current number of threads in pool
     bool _threadsCreated; // indicator for pool that all threads are created
 
     std::list<AbstractTaskProvider *> _task; // a list of tasks to perform
-- 
2.43.0


From e28769ebb3fe775c0ed618617efe2cac129e621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 042/124] fix: load small bitmap files which are shorter than
 structures of headers in memory

---
 src/file/bmp_image.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 1fb3550..5ed1afa 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -396,7 +396,8 @@ namespace Bitmap_Operation
         file.seekg( 0, file.end );
         std::streamoff length = file.tellg();
 
-        if ( length == std::char_traits<char>::pos_type( -1 ) || static_cast<size_t>( length ) < sizeof( BitmapFileHeader ) + sizeof( BitmapInfoHeader ) )
+        if ( length == std::char_traits<char>::pos_type( -1 )
+             || static_cast<size_t>( length ) < BitmapFileHeader().overallSize + BitmapCoreHeader().overallSize )
             return penguinV::Image();
 
         file.seekg( 0, file.beg );
-- 
2.43.0


From 8e0603904756ba185a743a8290b0aa6ae90c19a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 043/124] fix: apply the color pallete to all rows of a 256
 color bitmap

---
 src/file/bmp_image.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 5ed1afa..5838f28 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -497,10 +497,9 @@ namespace Bitmap_Operation
         // A special case for 256 color bitmap files
         if ( convertFrom256Color ) {
             const uint8_t * inY = image.data() + rowSize * ( info->height() - 1 );
-            const uint8_t * inYEnd = image.data();
             uint8_t * outY = image.data() + image.rowSize() * ( image.height() - 1 );
 
-            for ( ; inY != inYEnd; inY -= rowSize, outY -= image.rowSize() ) {
+            for ( uint32_t rowId = 0; rowId < info->height(); ++rowId, inY -= rowSize, outY -= image.rowSize() ) {
                 const uint8_t * inX = inY + ( info->width() - 1u );
                 const uint8_t * inXEnd = inY;
                 uint8_t * outX = outY + 3u * ( image.width() - 1u );
-- 
2.43.0


From 45a7f689369cae0ac8fc8baa0c299476a5626925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 044/124] fix: avoid integer overflow of sizes while loading
 incorrect bitmap files

---
 src/file/bmp_image.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 5838f28..d004a73 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -22,6 +22,7 @@
 #include "../parameter_validation.h"
 #include "../penguinv_exception.h"
 #include <fstream>
+#include <limits>
 #include <memory>
 #include <vector>
 
@@ -283,7 +284,7 @@ namespace Bitmap_Operation
             get_value( data, offset, biClrUsed );
             get_value( data, offset, biClrImportant );
 
-            if ( biHeight < 0 ) {
+            if ( biHeight < 0 && biHeight != std::numeric_limits<int32_t>::min() ) {
                 biHeight = -biHeight;
                 flipped = false;
             }
@@ -360,12 +361,12 @@ namespace Bitmap_Operation
 
         virtual bool validate( const BitmapFileHeader & header ) const
         {
-            uint32_t rowSize = width() * colorCount();
+            uint64_t rowSize = static_cast<uint64_t>( width() ) * colorCount();
             if ( rowSize % BITMAP_ALIGNMENT != 0 )
                 rowSize = ( rowSize / BITMAP_ALIGNMENT + 1 ) * BITMAP_ALIGNMENT;
 
             return !( biBitCount == 8u || biBitCount == 24u || biBitCount == 32u ) || biWidth <= 0 || biHeight <= 0 || biSize != BitmapInfoHeader().biSize
-                   || ( biSizeImage != rowSize * static_cast<uint32_t>( biHeight ) && biSizeImage != 0 ) || biPlanes != BitmapInfoHeader().biPlanes
+                   || ( biSizeImage != rowSize * height() && biSizeImage != 0 ) || biPlanes != BitmapInfoHeader().biPlanes
                    || header.bfOffBits < overallSize + header.overallSize;
         }
     };
@@ -441,13 +442,17 @@ namespace Bitmap_Operation
         if ( info->validate( header ) )
             return penguinV::Image();
 
-        uint32_t rowSize = info->width() * info->colorCount();
-        if ( rowSize % BITMAP_ALIGNMENT != 0 )
-            rowSize = ( rowSize / BITMAP_ALIGNMENT + 1 ) * BITMAP_ALIGNMENT;
+        // parameters from a file could be incorrect so a size of data might not fit into 32 bits
+        uint64_t fullRowSize = static_cast<uint64_t>( info->width() ) * info->colorCount();
+        if ( fullRowSize % BITMAP_ALIGNMENT != 0 )
+            fullRowSize = ( fullRowSize / BITMAP_ALIGNMENT + 1 ) * BITMAP_ALIGNMENT;
 
-        if ( length != header.bfOffBits + rowSize * info->height() )
+        if ( fullRowSize > std::numeric_limits<uint32_t>::max()
+             || static_cast<uint64_t>( length ) - header.bfOffBits != fullRowSize * info->height() )
             return penguinV::Image();
 
+        const uint32_t rowSize = static_cast<uint32_t>( fullRowSize );
+
         const uint32_t palleteSize = header.bfOffBits - info->size() - header.overallSize;
         std::vector<uint8_t> pallete( palleteSize );
 
-- 
2.43.0


From a8c7d119e9a909400f119f3e14dfc331915c3465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 045/124] fix: apply the color pallete of bitmap files with
 another number of colors, with old headers or with a gap after the pallete

---
 src/file/bmp_image.cpp | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index d004a73..97dd4e0 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -68,6 +68,19 @@ namespace Bitmap_Operation
         return pallete;
     }
 
+    // Returns a pallete of 256 colors from a pallete stored in a file. Colors which are not in the file are gray-scale ones
+    std::vector<uint8_t> getFullPallete( const std::vector<uint8_t> & filePallete, uint32_t colorCount, uint32_t colorSize )
+    {
+        std::vector<uint8_t> pallete = generateGrayScalePallete();
+
+        if ( filePallete.size() >= static_cast<size_t>( colorCount ) * colorSize ) {
+            for ( uint32_t i = 0; i < colorCount; ++i )
+                memcpy( pallete.data() + i * 4u, filePallete.data() + i * colorSize, 3u );
+        }
+
+        return pallete;
+    }
+
     // Seems like very complicated structure but we did this to avoid compiler specific code for bitmap structures :(
     template <typename valueType>
     void get_value( const std::vector<uint8_t> & data, size_t & offset, valueType & value )
@@ -136,6 +149,8 @@ namespace Bitmap_Operation
         virtual uint8_t colorCount() const = 0;
         virtual uint32_t size() const = 0;
         virtual bool isFlipped() const = 0;
+        virtual uint32_t palleteColorCount() const = 0;
+        virtual uint32_t palleteColorSize() const = 0;
 
         virtual void setWidth( uint32_t ) = 0;
         virtual void setHeight( uint32_t ) = 0;
@@ -227,6 +242,16 @@ namespace Bitmap_Operation
             return true;
         }
 
+        virtual uint32_t palleteColorCount() const
+        {
+            return 256u;
+        }
+
+        virtual uint32_t palleteColorSize() const
+        {
+            return 3u; // there is no a reserved byte in this format
+        }
+
         virtual void flip( bool ) {}
 
         virtual bool validate( const BitmapFileHeader & header ) const
@@ -354,6 +379,16 @@ namespace Bitmap_Operation
             return flipped;
         }
 
+        virtual uint32_t palleteColorCount() const
+        {
+            return ( biClrUsed == 0 || biClrUsed > 256u ) ? 256u : biClrUsed;
+        }
+
+        virtual uint32_t palleteColorSize() const
+        {
+            return 4u;
+        }
+
         virtual void flip( bool doFlip )
         {
             flipped = doFlip;
@@ -473,10 +508,10 @@ namespace Bitmap_Operation
                 dataToRead -= readSize;
             }
 
-            if ( ( palleteSize == 1024u ) && ( info->colorCount() == 1u ) ) {
-                std::vector<uint8_t> generatedPallete = generateGrayScalePallete();
+            if ( info->colorCount() == 1u ) {
+                pallete = getFullPallete( pallete, info->palleteColorCount(), info->palleteColorSize() );
 
-                if ( pallete != generatedPallete ) {
+                if ( pallete != generateGrayScalePallete() ) {
                     convertFrom256Color = true;
                     info->setColorCount( 3u );
                 }
-- 
2.43.0


From 4045d4f668ed505521b65ee7164df89a46d1b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:13 +0000
Subject: [PATCH 046/124] fix: avoid integer overflow of sizes while loading
 raw images

---
 src/file/raw_image.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/file/raw_image.h b/src/file/raw_image.h
index e7c7bda..bcc09fb 100644
--- a/src/file/raw_image.h
+++ b/src/file/raw_image.h
@@ -40,16 +40,16 @@ namespace Raw_Operation
         file.seekg( 0, file.end );
         std::streamoff length = file.tellg();
 
-        const uint32_t overallImageSize = width * height * colorCount * static_cast<uint32_t>( sizeof( _Type ) );
+        const uint64_t rowLength = static_cast<uint64_t>( width ) * colorCount * sizeof( _Type );
 
-        if ( length != overallImageSize )
+        if ( length <= 0 || static_cast<uint64_t>( length ) / height != rowLength || static_cast<uint64_t>( length ) % height != 0 )
             return penguinV::ImageTemplate<_Type>();
 
         file.seekg( 0, file.beg );
 
         penguinV::ImageTemplate<_Type> image( width, height, colorCount );
 
-        size_t dataToRead = overallImageSize;
+        size_t dataToRead = static_cast<size_t>( length );
         size_t dataReaded = 0;
 
         const size_t blockSize = 4 * 1024 * 1024; // read by 4 MB blocks
-- 
2.43.0


From 5cac7cbdc79e3ce6dc39e750cd3105b78ab150d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:13 +0000
Subject: [PATCH 047/124] fix: do not write alignment bytes of rows into raw
 image files

---
 src/file/raw_image.h | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/file/raw_image.h b/src/file/raw_image.h
index bcc09fb..4d35a2c 100644
--- a/src/file/raw_image.h
+++ b/src/file/raw_image.h
@@ -78,21 +78,14 @@ namespace Raw_Operation
         if ( !file )
             throw penguinVException( "Cannot create file for saving" );
 
-        size_t dataToWrite = sizeof( _Type ) * image.rowSize() * image.height();
-        size_t dataWritten = 0;
+        // only pixels are written, without bytes which exist at the end of rows for alignment
+        const size_t rowLength = sizeof( _Type ) * image.width() * image.colorCount();
 
-        const size_t blockSize = 4 * 1024 * 1024; // read by 4 MB blocks
-
-        const char * output = reinterpret_cast<const char *>( image.data() );
-        while ( dataToWrite > 0 ) {
-            size_t writeSize = dataToWrite > blockSize ? blockSize : dataToWrite;
+        const _Type * imageY = image.data();
+        for ( uint32_t rowId = 0; rowId < image.height(); ++rowId, imageY += image.rowSize() )
+            file.write( reinterpret_cast<const char *>( imageY ), static_cast<std::streamsize>( rowLength ) );
 
-            file.write( output + dataWritten, static_cast<std::streamsize>( writeSize ) );
-            file.flush();
-
-            dataWritten += writeSize;
-            dataToWrite -= writeSize;
-        }
+        file.flush();
 
         if ( !file )
             throw penguinVException( "failed to write data into file" );
-- 
2.43.0


From be999c001c04134fad73eee4a51ed36af408ec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 048/124] fix: report errors of libpng instead of termination
 of the program

---
 src/file/png_image.cpp | 224 +++++++++++++++++++++++++++--------------
 1 file changed, 151 insertions(+), 73 deletions(-)

diff --git a/src/file/png_image.cpp b/src/file/png_image.cpp
index adc71bb..3a9598e 100644
--- a/src/file/png_image.cpp
+++ b/src/file/png_image.cpp
@@ -51,72 +51,169 @@ namespace Png_Operation
 
 #else
 
+#include <memory>
 #include <png.h>
-#include <stdlib.h>
+#include <setjmp.h>
+#include <vector>
 
 #include "../parameter_validation.h"
 
-namespace Png_Operation
+namespace
 {
-    penguinV::Image Load( const std::string & path )
+    // Owner of everything what is needed to read or to write a file. libpng reports errors by a long jump
+    // so nothing what requires a call of a destructor should be created in functions which such a jump skips
+    struct PngFile
     {
-        if ( path.empty() )
-            throw penguinVException( "Incorrect file path for image file loading" );
+        explicit PngFile( FILE * file_ )
+            : file( file_ )
+            , png( NULL )
+            , info( NULL )
+            , isWriting( false )
+        {}
+
+        PngFile( const PngFile & ) = delete;
+        PngFile & operator=( const PngFile & ) = delete;
+
+        ~PngFile()
+        {
+            if ( isWriting )
+                png_destroy_write_struct( &png, &info );
+            else
+                png_destroy_read_struct( &png, &info, NULL );
+
+            if ( file )
+                fclose( file );
+        }
 
-        FILE * file = fopen( path.data(), "rb" );
-        if ( !file )
-            return penguinV::Image();
+        FILE * file;
+        png_structp png;
+        png_infop info;
+        bool isWriting;
 
-        png_structp png = png_create_read_struct( PNG_LIBPNG_VER_STRING, NULL, NULL, NULL );
-        if ( !png ) {
-            fclose( file );
-            return penguinV::Image();
-        }
+        std::unique_ptr<uint8_t[]> data;
+        std::vector<uint8_t *> row;
 
-        png_infop info = png_create_info_struct( png );
-        if ( !info ) {
-            fclose( file );
-            return penguinV::Image();
+        void allocateRows( uint32_t height, size_t rowByteCount )
+        {
+            if ( rowByteCount > std::numeric_limits<size_t>::max() / height )
+                throw penguinVException( "PNG image is too big" );
+
+            data.reset( new uint8_t[rowByteCount * height] );
+            row.resize( height );
+            for ( uint32_t y = 0; y < height; ++y )
+                row[y] = data.get() + rowByteCount * y;
         }
+    };
+
+    bool readHeader( const PngFile & file, uint8_t & colorType )
+    {
+        if ( setjmp( png_jmpbuf( file.png ) ) )
+            return false;
 
-        png_init_io( png, file );
-        png_read_info( png, info );
+        png_init_io( file.png, file.file );
+        png_read_info( file.png, file.info );
 
-        const uint32_t width = static_cast<uint32_t>( png_get_image_width( png, info ) );
-        const uint32_t height = static_cast<uint32_t>( png_get_image_height( png, info ) );
-        const uint8_t colorType = png_get_color_type( png, info );
-        const uint8_t bitDepth = png_get_bit_depth( png, info );
+        colorType = png_get_color_type( file.png, file.info );
+        const uint8_t bitDepth = png_get_bit_depth( file.png, file.info );
 
         if ( bitDepth == 16u )
-            png_set_strip_16( png );
+            png_set_strip_16( file.png );
 
         if ( colorType == PNG_COLOR_TYPE_PALETTE )
-            png_set_palette_to_rgb( png );
+            png_set_palette_to_rgb( file.png );
 
         // PNG_COLOR_TYPE_GRAY_ALPHA is always 8 or 16bit depth
         if ( colorType == PNG_COLOR_TYPE_GRAY && bitDepth < 8u )
-            png_set_expand_gray_1_2_4_to_8( png );
+            png_set_expand_gray_1_2_4_to_8( file.png );
 
-        if ( png_get_valid( png, info, PNG_INFO_tRNS ) )
-            png_set_tRNS_to_alpha( png );
+        if ( png_get_valid( file.png, file.info, PNG_INFO_tRNS ) )
+            png_set_tRNS_to_alpha( file.png );
 
         // These color types don't have an alpha channel then fill it with 0xff
         if ( colorType == PNG_COLOR_TYPE_RGB || colorType == PNG_COLOR_TYPE_GRAY || colorType == PNG_COLOR_TYPE_PALETTE )
-            png_set_filler( png, 0xFF, PNG_FILLER_AFTER );
+            png_set_filler( file.png, 0xFF, PNG_FILLER_AFTER );
 
         if ( colorType == PNG_COLOR_TYPE_GRAY || colorType == PNG_COLOR_TYPE_GRAY_ALPHA )
-            png_set_gray_to_rgb( png );
+            png_set_gray_to_rgb( file.png );
+
+        png_set_interlace_handling( file.png );
+        png_read_update_info( file.png, file.info );
+
+        return true;
+    }
+
+    bool readRows( PngFile & file )
+    {
+        if ( setjmp( png_jmpbuf( file.png ) ) )
+            return false;
+
+        png_read_image( file.png, file.row.data() );
+
+        return true;
+    }
+
+    bool writeHeader( const PngFile & file, uint32_t width, uint32_t height, bool grayScaleImage )
+    {
+        if ( setjmp( png_jmpbuf( file.png ) ) )
+            return false;
+
+        png_init_io( file.png, file.file );
+
+        // Output is 8 bit depth, Gray-Scale or RGB
+        png_set_IHDR( file.png, file.info, width, height, 8, ( grayScaleImage ? PNG_COLOR_TYPE_GRAY : PNG_COLOR_TYPE_RGB ), PNG_INTERLACE_NONE,
+                      PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT );
+
+        png_write_info( file.png, file.info );
+
+        return true;
+    }
+
+    bool writeRows( PngFile & file )
+    {
+        if ( setjmp( png_jmpbuf( file.png ) ) )
+            return false;
 
-        png_read_update_info( png, info );
+        png_write_image( file.png, file.row.data() );
+        png_write_end( file.png, NULL );
 
-        uint8_t ** row_pointers = reinterpret_cast<uint8_t **>( malloc( sizeof( uint8_t * ) * height ) );
+        return true;
+    }
+}
+
+namespace Png_Operation
+{
+    penguinV::Image Load( const std::string & path )
+    {
+        if ( path.empty() )
+            throw penguinVException( "Incorrect file path for image file loading" );
+
+        PngFile file( fopen( path.data(), "rb" ) );
+        if ( !file.file )
+            return penguinV::Image();
+
+        file.png = png_create_read_struct( PNG_LIBPNG_VER_STRING, NULL, NULL, NULL );
+        if ( !file.png )
+            return penguinV::Image();
+
+        file.info = png_create_info_struct( file.png );
+        if ( !file.info )
+            return penguinV::Image();
 
-        const size_t rowByteCount = png_get_rowbytes( png, info );
+        uint8_t colorType = PNG_COLOR_TYPE_RGB;
+        if ( !readHeader( file, colorType ) )
+            return penguinV::Image();
+
+        const uint32_t width = static_cast<uint32_t>( png_get_image_width( file.png, file.info ) );
+        const uint32_t height = static_cast<uint32_t>( png_get_image_height( file.png, file.info ) );
+
+        const size_t rowByteCount = png_get_rowbytes( file.png, file.info );
+        if ( rowByteCount != static_cast<size_t>( width ) * 4u )
+            return penguinV::Image();
 
-        for ( uint32_t y = 0; y < height; ++y )
-            row_pointers[y] = reinterpret_cast<uint8_t *>( malloc( rowByteCount ) );
+        file.allocateRows( height, rowByteCount );
 
-        png_read_image( png, row_pointers );
+        if ( !readRows( file ) )
+            return penguinV::Image();
 
         const bool isGrayScale = ( colorType == PNG_COLOR_TYPE_GRAY || colorType == PNG_COLOR_TYPE_GRAY_ALPHA );
 
@@ -124,7 +221,7 @@ namespace Png_Operation
 
         uint8_t * outY = image.data();
         for ( uint32_t y = 0; y < height; ++y, outY += image.rowSize() ) {
-            const uint8_t * column = row_pointers[y];
+            const uint8_t * column = file.row[y];
             uint8_t * outX = outY;
 
             if ( isGrayScale ) {
@@ -140,14 +237,6 @@ namespace Png_Operation
             }
         }
 
-        fclose( file );
-
-        for ( uint32_t y = 0; y < height; ++y )
-            free( row_pointers[y] );
-        free( row_pointers );
-
-        png_destroy_read_struct( &png, &info, NULL );
-
         return image;
     }
 
@@ -165,38 +254,30 @@ namespace Png_Operation
     {
         Image_Function::ValidateImageParameters( image, startX, startY, width, height );
 
-        FILE * file = fopen( path.data(), "wb" );
-        if ( !file )
+        PngFile file( fopen( path.data(), "wb" ) );
+        if ( !file.file )
             throw penguinVException( "Cannot create file for saving" );
 
-        png_structp png = png_create_write_struct( PNG_LIBPNG_VER_STRING, NULL, NULL, NULL );
-        if ( !png )
-            throw penguinVException( "Cannot create file for saving" );
+        file.isWriting = true;
 
-        png_infop info = png_create_info_struct( png );
-        if ( !info )
+        file.png = png_create_write_struct( PNG_LIBPNG_VER_STRING, NULL, NULL, NULL );
+        if ( !file.png )
             throw penguinVException( "Cannot create file for saving" );
 
-        png_init_io( png, file );
+        file.info = png_create_info_struct( file.png );
+        if ( !file.info )
+            throw penguinVException( "Cannot create file for saving" );
 
         const bool grayScaleImage = image.colorCount() == penguinV::GRAY_SCALE;
 
-        // Output is 8 bit depth, Gray-Scale or RGB
-        png_set_IHDR( png, info, width, height, 8, ( grayScaleImage ? PNG_COLOR_TYPE_GRAY : PNG_COLOR_TYPE_RGB ), PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT,
-                      PNG_FILTER_TYPE_DEFAULT );
-
-        png_write_info( png, info );
+        if ( !writeHeader( file, width, height, grayScaleImage ) )
+            throw penguinVException( "failed to write data into file" );
 
-        uint8_t ** row_pointers = reinterpret_cast<uint8_t **>( malloc( sizeof( uint8_t * ) * height ) );
-
-        const size_t rowByteCount = png_get_rowbytes( png, info );
-
-        for ( uint32_t y = 0; y < height; ++y )
-            row_pointers[y] = reinterpret_cast<uint8_t *>( malloc( rowByteCount ) );
+        file.allocateRows( height, png_get_rowbytes( file.png, file.info ) );
 
         const uint8_t * outY = image.data() + startY * image.rowSize() + startX * image.colorCount();
         for ( uint32_t y = 0; y < height; ++y, outY += image.rowSize() ) {
-            uint8_t * column = row_pointers[y];
+            uint8_t * column = file.row[y];
             const uint8_t * outX = outY;
 
             if ( grayScaleImage ) {
@@ -212,16 +293,13 @@ namespace Png_Operation
             }
         }
 
-        png_write_image( png, row_pointers );
-        png_write_end( png, NULL );
-
-        fclose( file );
+        const bool isWritten = writeRows( file );
 
-        for ( uint32_t y = 0; y < height; ++y )
-            free( row_pointers[y] );
-        free( row_pointers );
+        FILE * output = file.file;
+        file.file = NULL;
 
-        png_destroy_write_struct( &png, &info );
+        if ( fclose( output ) != 0 || !isWritten )
+            throw penguinVException( "failed to write data into file" );
     }
 }
 
-- 
2.43.0


From a2db5965cdcb503ee295f0bd2e4ddcb5345e9815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 049/124] fix: skip the alpha channel while saving RGBA images
 into png files

---
 src/file/png_image.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/file/png_image.cpp b/src/file/png_image.cpp
index 3a9598e..9dd1151 100644
--- a/src/file/png_image.cpp
+++ b/src/file/png_image.cpp
@@ -285,10 +285,11 @@ namespace Png_Operation
                     *column = *( outX++ );
             }
             else {
-                for ( uint32_t x = 0; x < width; ++x, column += 3 ) {
-                    column[2] = *( outX++ );
-                    column[1] = *( outX++ );
-                    column[0] = *( outX++ );
+                // there is no alpha channel in the output
+                for ( uint32_t x = 0; x < width; ++x, column += 3, outX += image.colorCount() ) {
+                    column[2] = outX[0];
+                    column[1] = outX[1];
+                    column[0] = outX[2];
                 }
             }
         }
-- 
2.43.0


From 7240b7ff1c36ebc58f74a9ddb66c85d16d999055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 050/124] fix: report errors of libjpeg instead of termination
 of the program

---
 src/file/jpeg_image.cpp | 196 ++++++++++++++++++++++++++++++----------
 1 file changed, 147 insertions(+), 49 deletions(-)

diff --git a/src/file/jpeg_image.cpp b/src/file/jpeg_image.cpp
index a7fb787..b246dd4 100644
--- a/src/file/jpeg_image.cpp
+++ b/src/file/jpeg_image.cpp
@@ -75,80 +75,178 @@ namespace Jpeg_Operation
 
 #include <jerror.h>
 #include <jpeglib.h>
+#include <setjmp.h>
 
-namespace Jpeg_Operation
+namespace
 {
-    void Load( const std::string & path, penguinV::Image & image )
+    struct JpegError
     {
-        if ( path.empty() )
-            throw penguinVException( "Incorrect parameters for Jpeg image loading" );
+        struct jpeg_error_mgr base; // must be the first member
+        jmp_buf jump;
+    };
 
-        FILE * file = fopen( path.data(), "rb" );
-        if ( file == nullptr )
-            throw penguinVException( "Cannot open Jpeg image" );
+    void jumpOnError( j_common_ptr info )
+    {
+        info->err->output_message( info );
+        longjmp( reinterpret_cast<JpegError *>( info->err )->jump, 1 );
+    }
 
-        struct jpeg_decompress_struct info;
-        struct jpeg_error_mgr error;
-        info.err = jpeg_std_error( &error );
-        jpeg_create_decompress( &info );
+    // Owners of everything what is needed to read or to write a file. libjpeg reports errors by a long jump
+    // so nothing what requires a call of a destructor should be created in functions which such a jump skips
+    struct JpegReader
+    {
+        explicit JpegReader( FILE * file_ )
+            : file( file_ )
+            , isCreated( false )
+        {
+            info.err = jpeg_std_error( &error.base );
+            error.base.error_exit = jumpOnError;
+        }
 
-        jpeg_stdio_src( &info, file );
-        jpeg_read_header( &info, TRUE );
+        JpegReader( const JpegReader & ) = delete;
+        JpegReader & operator=( const JpegReader & ) = delete;
 
-        jpeg_start_decompress( &info );
+        ~JpegReader()
+        {
+            if ( isCreated )
+                jpeg_destroy_decompress( &info );
+            if ( file )
+                fclose( file );
+        }
 
-        const uint8_t colorCount = ( info.num_components > 0 && info.num_components < 256 ) ? static_cast<uint8_t>( info.num_components ) : 1u;
-        image.setColorCount( colorCount );
-        image.resize( info.output_width, info.output_height );
+        bool readHeader()
+        {
+            if ( setjmp( error.jump ) )
+                return false;
 
-        uint8_t * line[1] = { nullptr };
-        while ( info.output_scanline < info.output_height ) {
-            line[0] = image.data() + image.rowSize() * info.output_scanline;
-            jpeg_read_scanlines( &info, line, 1 );
+            jpeg_create_decompress( &info );
+            isCreated = true;
+
+            jpeg_stdio_src( &info, file );
+            jpeg_read_header( &info, TRUE );
+            jpeg_start_decompress( &info );
+            return true;
         }
 
-        jpeg_finish_decompress( &info );
-        jpeg_destroy_decompress( &info );
-        fclose( file );
-    }
+        bool readRows( uint8_t * data, uint32_t rowSize )
+        {
+            if ( setjmp( error.jump ) )
+                return false;
 
-    void Save( const std::string & path, const penguinV::Image & image, uint32_t startX, uint32_t startY, uint32_t width, uint32_t height )
+            uint8_t * line[1] = { nullptr };
+            while ( info.output_scanline < info.output_height ) {
+                line[0] = data + static_cast<size_t>( rowSize ) * info.output_scanline;
+                jpeg_read_scanlines( &info, line, 1 );
+            }
+
+            jpeg_finish_decompress( &info );
+            return true;
+        }
+
+        FILE * file;
+        bool isCreated;
+        struct jpeg_decompress_struct info;
+        JpegError error;
+    };
+
+    struct JpegWriter
     {
-        Image_Function::ValidateImageParameters( image, startX, startY, width, height );
+        explicit JpegWriter( FILE * file_ )
+            : file( file_ )
+            , isCreated( false )
+        {
+            info.err = jpeg_std_error( &error.base );
+            error.base.error_exit = jumpOnError;
+        }
 
-        FILE * file = fopen( path.data(), "wb" );
-        if ( !file )
-            throw penguinVException( "Cannot create file for saving" );
+        JpegWriter( const JpegWriter & ) = delete;
+        JpegWriter & operator=( const JpegWriter & ) = delete;
 
-        struct jpeg_compress_struct info;
-        struct jpeg_error_mgr jerr;
-        JSAMPROW row_pointer[1];
+        ~JpegWriter()
+        {
+            if ( isCreated )
+                jpeg_destroy_compress( &info );
+            if ( file )
+                fclose( file );
+        }
 
-        info.err = jpeg_std_error( &jerr );
-        jpeg_create_compress( &info );
+        bool write( const uint8_t * data, uint32_t rowSize, uint32_t width, uint32_t height, uint8_t colorCount )
+        {
+            if ( setjmp( error.jump ) )
+                return false;
 
-        jpeg_stdio_dest( &info, file );
+            jpeg_create_compress( &info );
+            isCreated = true;
 
-        info.image_width = width;
-        info.image_height = height;
-        info.input_components = image.colorCount();
-        info.in_color_space = ( ( image.colorCount() == 1 ) ? JCS_GRAYSCALE : JCS_RGB );
+            jpeg_stdio_dest( &info, file );
 
-        jpeg_set_defaults( &info );
-        jpeg_set_quality( &info, jpegQuality, TRUE ); // limit to baseline-JPEG values
+            info.image_width = width;
+            info.image_height = height;
+            info.input_components = colorCount;
+            info.in_color_space = ( ( colorCount == 1 ) ? JCS_GRAYSCALE : JCS_RGB );
 
-        jpeg_start_compress( &info, TRUE );
+            jpeg_set_defaults( &info );
+            jpeg_set_quality( &info, jpegQuality, TRUE ); // limit to baseline-JPEG values
 
-        while ( info.next_scanline < info.image_height ) {
-            row_pointer[0] = const_cast<uint8_t *>( image.data() + image.rowSize() * info.next_scanline ); // libjpeg is C based library so no choice
-            jpeg_write_scanlines( &info, row_pointer, 1 );
+            jpeg_start_compress( &info, TRUE );
+
+            JSAMPROW row_pointer[1];
+            while ( info.next_scanline < info.image_height ) {
+                row_pointer[0] = const_cast<uint8_t *>( data + rowSize * info.next_scanline ); // libjpeg is C based library so no choice
+                jpeg_write_scanlines( &info, row_pointer, 1 );
+            }
+
+            jpeg_finish_compress( &info );
+            return true;
+        }
+
+        FILE * file;
+        bool isCreated;
+        struct jpeg_compress_struct info;
+        JpegError error;
+    };
+}
+
+namespace Jpeg_Operation
+{
+    void Load( const std::string & path, penguinV::Image & image )
+    {
+        if ( path.empty() )
+            throw penguinVException( "Incorrect parameters for Jpeg image loading" );
+
+        JpegReader reader( fopen( path.data(), "rb" ) );
+        if ( reader.file == nullptr )
+            throw penguinVException( "Cannot open Jpeg image" );
+
+        if ( !reader.readHeader() )
+            throw penguinVException( "Incorrect Jpeg image" );
+
+        const int components = reader.info.output_components;
+        const uint8_t colorCount = ( components > 0 && components < 256 ) ? static_cast<uint8_t>( components ) : 1u;
+        image.setColorCount( colorCount );
+        image.resize( reader.info.output_width, reader.info.output_height );
+
+        if ( !reader.readRows( image.data(), image.rowSize() ) ) {
+            image.clear();
+            throw penguinVException( "Incorrect Jpeg image" );
         }
+    }
+
+    void Save( const std::string & path, const penguinV::Image & image, uint32_t startX, uint32_t startY, uint32_t width, uint32_t height )
+    {
+        Image_Function::ValidateImageParameters( image, startX, startY, width, height );
+
+        JpegWriter writer( fopen( path.data(), "wb" ) );
+        if ( writer.file == nullptr )
+            throw penguinVException( "Cannot create file for saving" );
 
-        jpeg_finish_compress( &info );
+        const bool isWritten = writer.write( image.data(), image.rowSize(), width, height, image.colorCount() );
 
-        fclose( file );
+        FILE * output = writer.file;
+        writer.file = nullptr;
 
-        jpeg_destroy_compress( &info );
+        if ( fclose( output ) != 0 || !isWritten )
+            throw penguinVException( "failed to write data into file" );
     }
 }
 #endif
-- 
2.43.0


From 3f3748422d785dbcb19198cd1b24d061780e6c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 051/124] fix: save the given area of an image into a jpeg file

---
 src/file/jpeg_image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/jpeg_image.cpp b/src/file/jpeg_image.cpp
index b246dd4..860f2fd 100644
--- a/src/file/jpeg_image.cpp
+++ b/src/file/jpeg_image.cpp
@@ -240,7 +240,7 @@ namespace Jpeg_Operation
         if ( writer.file == nullptr )
             throw penguinVException( "Cannot create file for saving" );
 
-        const bool isWritten = writer.write( image.data(), image.rowSize(), width, height, image.colorCount() );
+        const bool isWritten = writer.write( image.data() + startY * image.rowSize() + startX * image.colorCount(), image.rowSize(), width, height, image.colorCount() );
 
         FILE * output = writer.file;
         writer.file = nullptr;
-- 
2.43.0


From 8cb0e73747c9af09b41db1ca04ea8f20e4274f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:24 +0000
Subject: [PATCH 052/124] fix: use the y coordinate of the farthest contour
 point for the elongation of a blob

---
 src/blob_detection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blob_detection.cpp b/src/blob_detection.cpp
index a9d6e3a..a2c5926 100644
--- a/src/blob_detection.cpp
+++ b/src/blob_detection.cpp
@@ -64,7 +64,7 @@ namespace
                     startPoint.y = *y;
 
                     endPoint.x = *xx;
-                    endPoint.y = *xx;
+                    endPoint.y = *yy;
                 }
             }
         }
-- 
2.43.0


From 0b798d2c60b958fa310cb9b7db6c8fcd3e6b1f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:24 +0000
Subject: [PATCH 053/124] fix: do not subtract unsigned coordinates in the
 elongation of a blob

---
 src/blob_detection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blob_detection.cpp b/src/blob_detection.cpp
index a2c5926..2a490a4 100644
--- a/src/blob_detection.cpp
+++ b/src/blob_detection.cpp
@@ -126,7 +126,7 @@ namespace Blob_Detection
                 PointBase2D<uint32_t> startPoint;
                 PointBase2D<uint32_t> endPoint;
                 const double length = getLengthFromCountour( _contourX, _contourY, startPoint, endPoint );
-                const double angle = -atan2( static_cast<double>( endPoint.y - startPoint.y ), static_cast<double>( endPoint.x - startPoint.x ) );
+                const double angle = -atan2( static_cast<double>( endPoint.y ) - static_cast<double>( startPoint.y ), static_cast<double>( endPoint.x ) - static_cast<double>( startPoint.x ) );
 
                 const double _cos = cos( angle );
                 const double _sin = sin( angle );
@@ -138,7 +138,7 @@ namespace Blob_Detection
                 auto endRotated = _contourX.end();
 
                 for ( ; xRotated != endRotated; ++xRotated, ++yRotated ) {
-                    ( *yRotated ) = ( *xRotated - startPoint.x ) * _sin + ( *yRotated - startPoint.y ) * _cos;
+                    ( *yRotated ) = ( static_cast<double>( *xRotated ) - static_cast<double>( startPoint.x ) ) * _sin + ( *yRotated - startPoint.y ) * _cos;
                 }
 
                 double height = *( std::max_element( contourYTemp.begin(), contourYTemp.end() ) ) - *( std::min_element( contourYTemp.begin(), contourYTemp.end() ) );
-- 
2.43.0


From d7635af6c91346ce5c109c89ed3eff277d6055b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:24 +0000
Subject: [PATCH 054/124] fix: avoid an integer overflow in the length of a
 blob

---
 src/blob_detection.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/blob_detection.cpp b/src/blob_detection.cpp
index 2a490a4..e375146 100644
--- a/src/blob_detection.cpp
+++ b/src/blob_detection.cpp
@@ -47,15 +47,16 @@ namespace
         auto y = contourY.cbegin();
         auto end = contourX.cend();
 
-        int32_t maximumDistance = 0;
+        int64_t maximumDistance = 0;
 
         for ( ; x != ( end - 1 ); ++x, ++y ) {
             auto xx = x + 1;
             auto yy = y + 1;
 
             for ( ; xx != end; ++xx, ++yy ) {
-                const int32_t distance
-                    = static_cast<int32_t>( *x - *xx ) * static_cast<int32_t>( *x - *xx ) + static_cast<int32_t>( *y - *yy ) * static_cast<int32_t>( *y - *yy );
+                const int64_t distanceX = static_cast<int64_t>( *x ) - static_cast<int64_t>( *xx );
+                const int64_t distanceY = static_cast<int64_t>( *y ) - static_cast<int64_t>( *yy );
+                const int64_t distance = distanceX * distanceX + distanceY * distanceY;
 
                 if ( maximumDistance < distance ) {
                     maximumDistance = distance;
-- 
2.43.0


From 1208c5412858faf5305ccbbc6686fbd8398bf30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:24 +0000
Subject: [PATCH 055/124] fix: avoid an integer overflow in the center of a
 blob

---
 src/blob_detection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blob_detection.cpp b/src/blob_detection.cpp
index e375146..f505aac 100644
--- a/src/blob_detection.cpp
+++ b/src/blob_detection.cpp
@@ -91,8 +91,8 @@ namespace Blob_Detection
     void BlobInfo::_getCenter()
     {
         if ( !_center.found && !_pointX.empty() && !_pointY.empty() ) {
-            _center.value.x = static_cast<double>( std::accumulate( _pointX.begin(), _pointX.end(), 0 ) ) / static_cast<double>( size() );
-            _center.value.y = static_cast<double>( std::accumulate( _pointY.begin(), _pointY.end(), 0 ) ) / static_cast<double>( size() );
+            _center.value.x = static_cast<double>( std::accumulate( _pointX.begin(), _pointX.end(), 0.0 ) ) / static_cast<double>( size() );
+            _center.value.y = static_cast<double>( std::accumulate( _pointY.begin(), _pointY.end(), 0.0 ) ) / static_cast<double>( size() );
 
             _center.found = true;
         }
-- 
2.43.0


From 9c23a8a916d095b733c261d1bf2694ca4d032c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:14 +0000
Subject: [PATCH 056/124] fix: do not read outside of an image when the edge
 detection group is bigger than the area

---
 src/edge_detection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edge_detection.cpp b/src/edge_detection.cpp
index 03c3ac4..a9247ec 100644
--- a/src/edge_detection.cpp
+++ b/src/edge_detection.cpp
@@ -268,6 +268,11 @@ namespace
             return;
         }
 
+        // there must be enough of rows (or columns) for at least one group
+        if ( edgeParameter.groupFactor > ( horizontalEdgeDetectionBase ? height : width ) ) {
+            return;
+        }
+
         const uint32_t rowSize = image.rowSize();
 
         if ( horizontalEdgeDetectionBase ) {
-- 
2.43.0


From 7f1c175f5b953dd0c2d7bf8a69dc7e1f087a54be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:14 +0000
Subject: [PATCH 057/124] fix: do not count a fall of intensity before an edge
 as the contrast of the edge

---
 src/edge_detection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/edge_detection.cpp b/src/edge_detection.cpp
index a9247ec..7d7cae4 100644
--- a/src/edge_detection.cpp
+++ b/src/edge_detection.cpp
@@ -80,8 +80,9 @@ namespace
     bool findPoint( const std::vector<int> & data, const std::vector<int> & second, std::vector<_Type> & edge, uint32_t leftSideOffset, uint32_t rightSideOffset,
                     int minimumContrast, bool checkContrast, uint32_t leftSideContrastCheck, uint32_t rightSideContrastCheck, uint32_t position, uint32_t size )
     {
-        const int maxIntensity = *( std::max_element( data.begin() + leftSideOffset, data.begin() + rightSideOffset + 1 ) );
-        const int minIntensity = *( std::min_element( data.begin() + leftSideOffset, data.begin() + rightSideOffset + 1 ) );
+        // intensity only rises between the pixel after the left side and the right side: a fall right after the left side is not a part of this edge
+        const int maxIntensity = data[rightSideOffset];
+        const int minIntensity = std::min( data[leftSideOffset], data[leftSideOffset + 1u] );
 
         if ( maxIntensity - minIntensity < minimumContrast ) {
             return false;
-- 
2.43.0


From d3f25c53a734a23ea8f1cde639337c0ebc04b20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:14 +0000
Subject: [PATCH 058/124] fix: use the last column and row of an image in Sobel
 and Prewitt filters

---
 src/filtering.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/filtering.cpp b/src/filtering.cpp
index 3d95200..a5cdc23 100644
--- a/src/filtering.cpp
+++ b/src/filtering.cpp
@@ -174,8 +174,8 @@ namespace Image_Function
 
         const uint32_t startXOffset = ( startXIn > 0u ) ? 1u : 0u;
         const uint32_t startYOffset = ( startYIn > 0u ) ? 1u : 0u;
-        const uint32_t endXOffset = ( ( startXIn + width + 1u ) < in.width() ) ? 1u : 0u;
-        const uint32_t endYOffset = ( ( startYIn + height + 1u ) < in.height() ) ? 1u : 0u;
+        const uint32_t endXOffset = ( ( startXIn + width ) < in.width() ) ? 1u : 0u;
+        const uint32_t endYOffset = ( ( startYIn + height ) < in.height() ) ? 1u : 0u;
 
         // Create the map of gradient values
         const uint32_t gradientWidth = width - ( ( ( startXOffset > 0u ) ? 0u : 1u ) + ( ( endXOffset > 0u ) ? 0u : 1u ) );
@@ -282,8 +282,8 @@ namespace Image_Function
 
         const uint32_t startXOffset = ( startXIn > 0u ) ? 1u : 0u;
         const uint32_t startYOffset = ( startYIn > 0u ) ? 1u : 0u;
-        const uint32_t endXOffset = ( ( startXIn + width + 1u ) < in.width() ) ? 1u : 0u;
-        const uint32_t endYOffset = ( ( startYIn + height + 1u ) < in.height() ) ? 1u : 0u;
+        const uint32_t endXOffset = ( ( startXIn + width ) < in.width() ) ? 1u : 0u;
+        const uint32_t endYOffset = ( ( startYIn + height ) < in.height() ) ? 1u : 0u;
 
         // Create the map of gradient values
         const uint32_t gradientWidth = width - ( ( ( startXOffset > 0u ) ? 0u : 1u ) + ( ( endXOffset > 0u ) ? 0u : 1u ) );
-- 
2.43.0


From 9a5ab8cac7373591efb9c016a01000223ca1894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 059/124] fix: avoid an integer overflow in the contrast check
 of edge detection

---
 src/edge_detection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edge_detection.cpp b/src/edge_detection.cpp
index 7d7cae4..e426ab3 100644
--- a/src/edge_detection.cpp
+++ b/src/edge_detection.cpp
@@ -88,7 +88,7 @@ namespace
             return false;
         }
 
-        if ( checkContrast && leftSideContrastCheck <= position && ( rightSideContrastCheck + position ) < size ) {
+        if ( checkContrast && leftSideContrastCheck <= position && rightSideContrastCheck < size - position ) {
             const uint32_t blackContrastEnd = position;
             const uint32_t whiteContrastStart = position + 1;
 
-- 
2.43.0


From 9c3f4c98a3b0c438e993be930ec0943c5e798472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 060/124] fix: refuse zero and not-a-number sigma for a
 Gaussian kernel

---
 src/filtering.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filtering.cpp b/src/filtering.cpp
index a5cdc23..424b611 100644
--- a/src/filtering.cpp
+++ b/src/filtering.cpp
@@ -352,7 +352,7 @@ namespace Image_Function
 
     void GetGaussianKernel( std::vector<float> & filter, uint32_t width, uint32_t height, uint32_t kernelSize, float sigma )
     {
-        if ( width < 3 || height < 3 || kernelSize == 0 || width < ( kernelSize * 2 + 1 ) || height < ( kernelSize * 2 + 1 ) || sigma < 0 )
+        if ( width < 3 || height < 3 || kernelSize == 0 || width < ( kernelSize * 2 + 1 ) || height < ( kernelSize * 2 + 1 ) || !( sigma > 0 ) )
             throw penguinVException( "Incorrect input parameters for Gaussian filter kernel" );
 
         filter.resize( width * height );
-- 
2.43.0


From 03056bca16106462d3456911a99c041f8d9b1258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 061/124] fix: keep a Gaussian kernel finite for very small and
 very big sigma values

---
 src/filtering.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/filtering.cpp b/src/filtering.cpp
index 424b611..1861f9c 100644
--- a/src/filtering.cpp
+++ b/src/filtering.cpp
@@ -359,9 +359,7 @@ namespace Image_Function
 
         std::fill( filter.begin(), filter.end(), 0.0f );
 
-        static const float pi = 3.1415926536f;
         const float doubleSigma = sigma * 2;
-        const float doubleSigmaPiInv = 1.0f / ( doubleSigma * pi );
         const uint32_t twiceKernelSizePlusOne = 2 * kernelSize + 1;
 
         float * y = filter.data() + ( height / 2 - kernelSize ) * width + width / 2 - kernelSize;
@@ -375,7 +373,7 @@ namespace Image_Function
             const int32_t posY2 = posY * posY;
 
             for ( int32_t posX = -static_cast<int32_t>( kernelSize ); x != endX; ++x, ++posX ) {
-                *x = doubleSigmaPiInv * expf( -static_cast<float>( posX * posX + posY2 ) / doubleSigma );
+                *x = expf( -static_cast<float>( posX * posX + posY2 ) / doubleSigma );
                 sum += *x;
             }
         }
-- 
2.43.0


From cf807206378e97273dd7a31dcb7c557df6b34812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 062/124] fix: avoid an integer overflow in the size check of a
 Gaussian kernel

---
 src/filtering.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filtering.cpp b/src/filtering.cpp
index 1861f9c..6dd27a1 100644
--- a/src/filtering.cpp
+++ b/src/filtering.cpp
@@ -352,7 +352,7 @@ namespace Image_Function
 
     void GetGaussianKernel( std::vector<float> & filter, uint32_t width, uint32_t height, uint32_t kernelSize, float sigma )
     {
-        if ( width < 3 || height < 3 || kernelSize == 0 || width < ( kernelSize * 2 + 1 ) || height < ( kernelSize * 2 + 1 ) || !( sigma > 0 ) )
+        if ( width < 3 || height < 3 || kernelSize == 0 || kernelSize > ( width - 1 ) / 2 || kernelSize > ( height - 1 ) / 2 || !( sigma > 0 ) )
             throw penguinVException( "Incorrect input parameters for Gaussian filter kernel" );
 
         filter.resize( width * height );
-- 
2.43.0


From 62d4c1c4fdfba9d2f9ecf4c30386c342164601f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 063/124] fix: pass dimensions of FFT in the order of data so
 non-square data is transformed correctly

---
 src/fft.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index 24cf13b..f1e7f63 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -202,7 +202,7 @@ namespace FFT
 
     void FFTExecutor::_makePlans()
     {
-        const int dims[2] = { static_cast<int>( _width ), static_cast<int>( _height ) };
+        const int dims[2] = { static_cast<int>( _height ), static_cast<int>( _width ) };
         _planDirect = kiss_fftnd_alloc( dims, 2, false, 0, 0 );
         _planInverse = kiss_fftnd_alloc( dims, 2, true, 0, 0 );
     }
-- 
2.43.0


From 15b67d238a3dcc8e4f7c82d7a8e44337f90b96b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 064/124] fix: make in-place complex multiplication of FFT data
 correct

---
 src/fft.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index f1e7f63..d9a26f4 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -195,8 +195,12 @@ namespace FFT
         const kiss_fft_cpx * outXEnd = outX + size;
 
         for ( ; outX != outXEnd; ++in1X, ++in2X, ++outX ) {
-            outX->r = in1X->r * in2X->r - in1X->i * in2X->i;
-            outX->i = in1X->r * in2X->i + in1X->i * in2X->r;
+            // output data can be the same as one of inputs
+            const float real = in1X->r * in2X->r - in1X->i * in2X->i;
+            const float imaginary = in1X->r * in2X->i + in1X->i * in2X->r;
+
+            outX->r = real;
+            outX->i = imaginary;
         }
     }
 
-- 
2.43.0


From 6a2803a74e18d758b68601ac51ed968d3723edfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 065/124] fix: keep all rows and columns of FFT data with odd
 sizes while swapping quadrants

---
 src/fft.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index d9a26f4..7f5724d 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -112,12 +112,12 @@ namespace FFT
         const uint32_t middleY = _height / 2;
 
         for ( uint32_t inY = 0; inY < _height; ++inY ) {
-            const uint32_t outY = ( inY < middleY ) ? middleY + inY : inY - middleY;
+            const uint32_t outY = ( inY < middleY ) ? _height - middleY + inY : inY - middleY;
 
             const uint32_t posYIn = inY * _width;
             const uint32_t posYOut = outY * _width;
             for ( uint32_t inX = 0; inX < _width; ++inX ) {
-                const uint32_t outX = ( inX < middleX ) ? middleX + inX : inX - middleX;
+                const uint32_t outX = ( inX < middleX ) ? _width - middleX + inX : inX - middleX;
                 out[posYOut + outX] = static_cast<uint8_t>( _data[posYIn + inX].r / static_cast<float>( size ) + 0.5 );
             }
         }
-- 
2.43.0


From 37e04ccae481d214797f1268d0ae3a83016f1a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 066/124] fix: release memory when creation of FFT data from a
 wrong array is refused

---
 src/fft.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fft.cpp b/src/fft.cpp
index 7f5724d..cbdb9c5 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -31,6 +31,7 @@ namespace FFT
     }
 
     ComplexData::ComplexData( const std::vector<float> & data, uint32_t width, uint32_t height )
+        : ComplexData()
     {
         resize( width, height );
         set( data );
-- 
2.43.0


From 96adb1bcaecc686578884c718dafed83f3e492a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 067/124] fix: avoid an integer overflow in the size of FFT
 data

---
 src/fft.cpp         | 6 +++---
 src/math/fft_base.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index cbdb9c5..629aaf2 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -59,7 +59,7 @@ namespace FFT
 
         _clean();
 
-        const uint32_t size = image.width() * image.height();
+        const size_t size = static_cast<size_t>( image.width() ) * image.height();
 
         _allocateData( size * sizeof( kiss_fft_cpx ) );
 
@@ -87,12 +87,12 @@ namespace FFT
 
     void ComplexData::set( const std::vector<float> & data )
     {
-        if ( data.empty() || _width == 0 || _height == 0 || data.size() != _width * _height )
+        if ( data.empty() || _width == 0 || _height == 0 || data.size() != static_cast<size_t>( _width ) * _height )
             throw penguinVException( "Failed to allocate complex data for empty or coloured image" );
 
         const float * in = data.data();
         kiss_fft_cpx * out = _data;
-        const kiss_fft_cpx * outEnd = out + _width * _height;
+        const kiss_fft_cpx * outEnd = out + data.size();
 
         for ( ; out != outEnd; ++in, ++out ) {
             out->r = *in;
diff --git a/src/math/fft_base.h b/src/math/fft_base.h
index 37f8608..780023d 100644
--- a/src/math/fft_base.h
+++ b/src/math/fft_base.h
@@ -76,7 +76,7 @@ namespace FFT
             if ( ( _width != width_ || _height != height_ ) && width_ != 0 && height_ != 0 ) {
                 _clean();
 
-                const uint32_t size = width_ * height_;
+                const size_t size = static_cast<size_t>( width_ ) * height_;
                 _allocateData( size * sizeof( DataType ) );
 
                 _width = width_;
-- 
2.43.0


From 852cd6d5f7757217165dcf36e22472530952df53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 068/124] fix: keep FFT data which is assigned to itself

---
 src/math/fft_base.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math/fft_base.h b/src/math/fft_base.h
index 780023d..6297af1 100644
--- a/src/math/fft_base.h
+++ b/src/math/fft_base.h
@@ -131,6 +131,9 @@ namespace FFT
 
         void _copy( const BaseComplexData & data )
         {
+            if ( this == &data )
+                return;
+
             _clean();
 
             resize( data._width, data._height );
-- 
2.43.0


From 00a1c73ec44e5cd076561f03778b04e3993fa0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 069/124] fix: use the precision of data for the coefficient of
 Haar transform

---
 src/math/haar_transform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/haar_transform.cpp b/src/math/haar_transform.cpp
index 7332d8a..5e66b63 100644
--- a/src/math/haar_transform.cpp
+++ b/src/math/haar_transform.cpp
@@ -39,7 +39,7 @@ namespace
         // a =  x * (1 / sqrt(2)) + y * (1 / sqrt(2)) = (y + x) * (1 / sqrt(2))
         // b = -x * (1 / sqrt(2)) + y * (1 / sqrt(2)) = (y - x) * (1 / sqrt(2))
 
-        const _Type coefficient = 1.0f / std::sqrt( 2.0f );
+        const _Type coefficient = 1 / std::sqrt( static_cast<_Type>( 2 ) );
         std::vector<_Type> temp( input.size() );
 
         // Transform by X
@@ -91,7 +91,7 @@ namespace
         // a = x * (1 / sqrt(2)) - y * (1 / sqrt(2)) = (x - y) * (1 / sqrt(2))
         // b = x * (1 / sqrt(2)) + y * (1 / sqrt(2)) = (x + y) * (1 / sqrt(2))
 
-        const _Type coefficient = 1.0f / std::sqrt( 2.0f );
+        const _Type coefficient = 1 / std::sqrt( static_cast<_Type>( 2 ) );
         std::vector<_Type> temp( input.size() );
 
         // Transform by X
-- 
2.43.0


From acfb8741f94286974baa44f15e2e1d9b3886f911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 070/124] fix: do not accumulate a rounding error of an angle
 in Hough transform

---
 src/math/hough_transform.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/math/hough_transform.cpp b/src/math/hough_transform.cpp
index e1ec68c..552d661 100644
--- a/src/math/hough_transform.cpp
+++ b/src/math/hough_transform.cpp
@@ -67,9 +67,8 @@ namespace
         size_t highestPointCount = 0u;
         _Type averageDistance = 0;
 
-        _Type angleVal = -( initialAngle - angleStep * static_cast<_Type>( angleStepPerSide ) ); // this should be an opposite angle
-
-        for ( int angleId = -angleStepPerSide; angleId <= angleStepPerSide; ++angleId, angleVal -= angleStep ) {
+        for ( int angleId = -angleStepPerSide; angleId <= angleStepPerSide; ++angleId ) {
+            const _Type angleVal = -( initialAngle + angleStep * static_cast<_Type>( angleId ) ); // this should be an opposite angle
             const _Type cosVal = std::cos( angleVal );
             const _Type sinVal = std::sin( angleVal );
 
@@ -116,7 +115,7 @@ namespace
         outOnLine.clear();
         outOffLine.clear();
 
-        angleVal = -( initialAngle + angleStep * static_cast<_Type>( bestAngleId ) );
+        const _Type angleVal = -( initialAngle + angleStep * static_cast<_Type>( bestAngleId ) );
 
         const _Type minDistance = averageDistance - lineTolerance;
         const _Type maxDistance = averageDistance + lineTolerance;
-- 
2.43.0


From ab7ac2792c3d8be15d600588a2f1fb307266a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 071/124] fix: make comparison of lines compilable

---
 src/math/math_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/math_base.h b/src/math/math_base.h
index cfbedc9..56d4ec0 100644
--- a/src/math/math_base.h
+++ b/src/math/math_base.h
@@ -194,7 +194,7 @@ public:
 
     bool operator==( const LineBase2D & line ) const
     {
-        return parallel( line ) && pvmath::isEqual<_Type>( distance( line._position ), 0 );
+        return isParallel( line ) && pvmath::isEqual<_Type>( distance( line._position ), 0 );
     }
 
     // This is translation (shift) function
-- 
2.43.0


From 89925ba223bcc828dde49dafebcaef3c5ddeb0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 072/124] fix: take Z coordinate into account in inequality of
 3D points

---
 src/math/math_base.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/math/math_base.h b/src/math/math_base.h
index 56d4ec0..84dbe29 100644
--- a/src/math/math_base.h
+++ b/src/math/math_base.h
@@ -137,6 +137,11 @@ struct PointBase3D : public PointBase2D<_Type>
         return PointBase2D<_Type>::operator==( point ) && pvmath::isEqual( z, point.z );
     }
 
+    bool operator!=( const PointBase3D & point ) const
+    {
+        return !( *this == point );
+    }
+
     PointBase3D & operator+=( const PointBase3D & point )
     {
         PointBase2D<_Type>::operator+=( point );
-- 
2.43.0


From 6f317c75e731c436afa95eb1acf0336a98c7758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 073/124] fix: resize the output of getMatrixRoots

---
 src/math/math_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/math_base.cpp b/src/math/math_base.cpp
index ac870f2..ec90899 100644
--- a/src/math/math_base.cpp
+++ b/src/math/math_base.cpp
@@ -137,6 +137,7 @@ namespace pvmath
         }
 
         // Results
+        roots.resize( size );
         for ( size_t i = 0; i < size; ++i )
             roots[matrixIndices[i + i * size]] = unsortedRoots[i];
     }
-- 
2.43.0


From b1544ddf869d02adf38ebef7b2fed98ae9886b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 074/124] fix: refuse light correction without an analysis
 instead of using uninitialized sizes

---
 src/tool/light_correction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool/light_correction.h b/src/tool/light_correction.h
index c5daff1..846eb4e 100644
--- a/src/tool/light_correction.h
+++ b/src/tool/light_correction.h
@@ -38,6 +38,6 @@ public:
 
 private:
     std::vector<uint32_t> _data;
-    uint32_t _width;
-    uint32_t _height;
+    uint32_t _width{ 0 };
+    uint32_t _height{ 0 };
 };
-- 
2.43.0


From ecc497c0504237722de45e9f60157826ba6433ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 075/124] fix: refuse color and empty images in light
 correction

---
 src/tool/light_correction.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tool/light_correction.cpp b/src/tool/light_correction.cpp
index 828ec22..2c8e77b 100644
--- a/src/tool/light_correction.cpp
+++ b/src/tool/light_correction.cpp
@@ -24,6 +24,7 @@
 void LightCorrection::analyze( const penguinV::Image & image )
 {
     Image_Function::ValidateImageParameters( image );
+    Image_Function::VerifyGrayScaleImage( image );
 
     _width = image.width();
     _height = image.height();
@@ -75,6 +76,7 @@ void LightCorrection::analyze( const penguinV::Image & image )
 void LightCorrection::correct( penguinV::Image & image ) const
 {
     Image_Function::ValidateImageParameters( image );
+    Image_Function::VerifyGrayScaleImage( image );
 
     correct( image, 0, 0, image.width(), image.height() );
 }
@@ -82,6 +84,7 @@ void LightCorrection::correct( penguinV::Image & image ) const
 void LightCorrection::correct( penguinV::Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height ) const
 {
     Image_Function::ValidateImageParameters( image, x, y, width, height );
+    Image_Function::VerifyGrayScaleImage( image );
     if ( _width == 0 || _height == 0 )
         throw penguinVException( "Image is not being analyzed before calling correction. Analyze first." );
 
@@ -109,6 +112,9 @@ void LightCorrection::correct( penguinV::Image & image, uint32_t x, uint32_t y,
 
 std::vector<PointBase2D<uint32_t>> LightCorrection::findIncorrectPixels( const penguinV::Image & image ) const
 {
+    Image_Function::ValidateImageParameters( image );
+    Image_Function::VerifyGrayScaleImage( image );
+
     std::vector<PointBase2D<uint32_t>> point;
 
     const uint32_t rowSize = image.rowSize();
-- 
2.43.0


From 67ffdcebfff0f2f89293f6069a10d4187235cbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 076/124] fix: search for incorrect pixels in the whole given
 image of light correction

---
 src/tool/light_correction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool/light_correction.cpp b/src/tool/light_correction.cpp
index 2c8e77b..c8c2a5c 100644
--- a/src/tool/light_correction.cpp
+++ b/src/tool/light_correction.cpp
@@ -119,11 +119,11 @@ std::vector<PointBase2D<uint32_t>> LightCorrection::findIncorrectPixels( const p
 
     const uint32_t rowSize = image.rowSize();
     const uint8_t * imageY = image.data();
-    const uint8_t * imageYEnd = imageY + _height * rowSize;
+    const uint8_t * imageYEnd = imageY + image.height() * rowSize;
 
     for ( uint32_t y = 0; imageY != imageYEnd; imageY += rowSize, ++y ) {
         const uint8_t * imageX = imageY;
-        const uint8_t * imageXEnd = imageX + _width;
+        const uint8_t * imageXEnd = imageX + image.width();
 
         for ( uint32_t x = 0; imageX != imageXEnd; ++imageX, ++x ) {
             if ( ( ( *imageX ) == 0u ) || ( ( *imageX ) == 255u ) )
-- 
2.43.0


From eef1bcfbfbe39ffd21e57cc2dbfaf6a12ceb305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 077/124] fix: refuse light correction of an image whose size
 differs from the analyzed one

---
 src/tool/light_correction.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool/light_correction.cpp b/src/tool/light_correction.cpp
index c8c2a5c..57eb2b3 100644
--- a/src/tool/light_correction.cpp
+++ b/src/tool/light_correction.cpp
@@ -87,6 +87,8 @@ void LightCorrection::correct( penguinV::Image & image, uint32_t x, uint32_t y,
     Image_Function::VerifyGrayScaleImage( image );
     if ( _width == 0 || _height == 0 )
         throw penguinVException( "Image is not being analyzed before calling correction. Analyze first." );
+    if ( image.width() != _width || image.height() != _height )
+        throw penguinVException( "Size of image is different from the size of analyzed image." );
 
     const uint32_t rowSize = image.rowSize();
 
-- 
2.43.0


From d584d47e153ed850b6120ef0e53ebe588974833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 078/124] fix: keep the previous analysis of light correction
 when a new one is refused

---
 src/tool/light_correction.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tool/light_correction.cpp b/src/tool/light_correction.cpp
index 57eb2b3..b1fb486 100644
--- a/src/tool/light_correction.cpp
+++ b/src/tool/light_correction.cpp
@@ -26,21 +26,16 @@ void LightCorrection::analyze( const penguinV::Image & image )
     Image_Function::ValidateImageParameters( image );
     Image_Function::VerifyGrayScaleImage( image );
 
-    _width = image.width();
-    _height = image.height();
-
-    _data.resize( _width * _height );
-
     uint8_t minValue = 255u;
     uint8_t maxValue = 0u;
 
     const uint32_t rowSize = image.rowSize();
     const uint8_t * imageY = image.data();
-    const uint8_t * imageYEnd = imageY + _height * rowSize;
+    const uint8_t * imageYEnd = imageY + image.height() * rowSize;
 
     for ( ; imageY != imageYEnd; imageY += rowSize ) {
         const uint8_t * imageX = imageY;
-        const uint8_t * imageXEnd = imageX + _width;
+        const uint8_t * imageXEnd = imageX + image.width();
 
         for ( ; imageX != imageXEnd; ++imageX ) {
             if ( ( *imageX ) < minValue && ( *imageX ) > 0 )
@@ -54,6 +49,11 @@ void LightCorrection::analyze( const penguinV::Image & image )
     if ( minValue >= maxValue )
         throw penguinVException( "Image in invalid. Minimum value cannot be greater or equal to maximum value." );
 
+    _width = image.width();
+    _height = image.height();
+
+    _data.resize( _width * _height );
+
     imageY = image.data();
     imageYEnd = imageY + _height * rowSize;
     uint32_t * data = _data.data();
-- 
2.43.0


From 592c7cccc6b5cbfd64ecdfd2d0c7614ba1696d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 079/124] fix: avoid an integer overflow in the number of
 elements of a Gaussian kernel

---
 src/filtering.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/filtering.cpp b/src/filtering.cpp
index 6dd27a1..ccfde5d 100644
--- a/src/filtering.cpp
+++ b/src/filtering.cpp
@@ -355,15 +355,15 @@ namespace Image_Function
         if ( width < 3 || height < 3 || kernelSize == 0 || kernelSize > ( width - 1 ) / 2 || kernelSize > ( height - 1 ) / 2 || !( sigma > 0 ) )
             throw penguinVException( "Incorrect input parameters for Gaussian filter kernel" );
 
-        filter.resize( width * height );
+        filter.resize( static_cast<size_t>( width ) * height );
 
         std::fill( filter.begin(), filter.end(), 0.0f );
 
         const float doubleSigma = sigma * 2;
         const uint32_t twiceKernelSizePlusOne = 2 * kernelSize + 1;
 
-        float * y = filter.data() + ( height / 2 - kernelSize ) * width + width / 2 - kernelSize;
-        const float * endY = y + twiceKernelSizePlusOne * width;
+        float * y = filter.data() + static_cast<size_t>( height / 2 - kernelSize ) * width + width / 2 - kernelSize;
+        const float * endY = y + static_cast<size_t>( twiceKernelSizePlusOne ) * width;
 
         float sum = 0;
 
@@ -380,7 +380,7 @@ namespace Image_Function
 
         const float normalization = 1.0f / sum;
 
-        y = filter.data() + ( height / 2 - kernelSize ) * width + width / 2 - kernelSize;
+        y = filter.data() + static_cast<size_t>( height / 2 - kernelSize ) * width + width / 2 - kernelSize;
 
         for ( int32_t posY = -static_cast<int32_t>( kernelSize ); y != endY; y += width, ++posY ) {
             float * x = y;
-- 
2.43.0


From fb64a27cad9a4c5ece0679bab50a3d95c188f47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 080/124] fix: use the output offset in OpenCL kernel of Copy

---
 src/opencl/image_function_opencl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index cbe877d..a96e866 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -171,7 +171,7 @@ namespace
             const size_t y = get_global_id(1);
 
             if ( x < width && y < height ) {
-                out[rowSizeOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x];
+                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x];
             }
         }
 
-- 
2.43.0


From 0ef0799d401bc912b0a37927b8c18b938b148c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 081/124] fix: calculate offsets of areas correctly in OpenCL
 functions

---
 src/opencl/image_function_opencl.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index a96e866..e3de4a9 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -640,7 +640,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, width, height );
@@ -678,7 +678,7 @@ namespace Image_Function_OpenCL
             const uint32_t rowSizeIn = in.rowSize();
             const uint32_t rowSizeOut = out.rowSize();
 
-            const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+            const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
             kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, out.colorCount(), width, height );
@@ -712,7 +712,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * colorCount;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height );
@@ -750,7 +750,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, width, height, channelId );
@@ -772,7 +772,7 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "fillOpenCL" );
 
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
+        const uint32_t offset = y * rowSize + x;
 
         kernel.setArgument( image.data(), offset, rowSize, width, height, value );
 
@@ -879,7 +879,7 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "histogramOpenCL" );
 
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
+        const uint32_t offset = y * rowSize + x;
 
         kernel.setArgument( image.data(), offset, rowSize, width, height, histogramOpenCL.data() );
 
@@ -990,7 +990,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * colorCount;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, tableOpenCL.data() );
@@ -1289,7 +1289,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, threshold );
@@ -1324,7 +1324,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, minThreshold, maxThreshold );
-- 
2.43.0


From 827caa2698b6c7b24203f1885cd87c43bb04c08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 082/124] fix: use size of a row in bytes in OpenCL kernel of
 ExtractChannel

---
 src/opencl/image_function_opencl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index e3de4a9..9e91028 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -182,7 +182,7 @@ namespace
             const size_t y = get_global_id(1);
 
             if( x < width && y < height )
-                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + (y * rowSizeIn + x) * colorCount + channelId];
+                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x * colorCount + channelId];
         }
 
         __kernel void fillOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height, uchar value )
-- 
2.43.0


From c678dd6a90a35cc7c170d7f51576ac1b8d9ed242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 083/124] fix: copy only the given area when OpenCL color
 conversion has nothing to convert

---
 src/opencl/image_function_opencl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 9e91028..a90a097 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -630,7 +630,7 @@ namespace Image_Function_OpenCL
         Image_Function::VerifyGrayScaleImage( out );
 
         if ( in.colorCount() == penguinV::GRAY_SCALE ) {
-            Copy( in, out );
+            Copy( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
             return;
         }
 
@@ -669,7 +669,7 @@ namespace Image_Function_OpenCL
         Image_Function::VerifyRGBImage( out );
 
         if ( in.colorCount() == penguinV::RGB ) {
-            Copy( in, out );
+            Copy( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         }
         else {
             const multiCL::OpenCLProgram & program = GetProgram();
-- 
2.43.0


From b9b6cc68c187eb40454d7c09e22a28c73c8b488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 084/124] fix: flip only the given area in OpenCL Flip

---
 src/opencl/image_function_opencl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index a90a097..07b1b42 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -813,9 +813,9 @@ namespace Image_Function_OpenCL
             const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
-            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, in.width(), in.height(), horizontal, vertical );
+            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, horizontal, vertical );
 
-            multiCL::launchKernel2D( kernel, in.width(), in.height() );
+            multiCL::launchKernel2D( kernel, width, height );
         }
     }
 
-- 
2.43.0


From 6212e90a6a5356b272382981ed44fe1b9f1a4eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 085/124] fix: pass correct arguments to OpenCL kernel in
 Normalize

---
 src/opencl/image_function_opencl.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 07b1b42..53064e9 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -1099,21 +1099,17 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "intensityRangeOpenCL" );
 
         const uint8_t colorCount = Image_Function::CheckCommonColorCount( in, out );
-        width = width * colorCount;
-
         const uint32_t rowSizeIn = in.rowSize();
-        const uint32_t rowSizeOut = out.rowSize();
 
         const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
-        const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         std::vector<uint32_t> range = { 255, 0 };
 
         multiCL::Array<uint32_t> rangeOpenCL( range );
 
-        kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, rangeOpenCL.data() );
+        kernel.setArgument( in.data(), offsetIn, rowSizeIn, width * colorCount, height, rangeOpenCL.data() );
 
-        multiCL::launchKernel2D( kernel, width, height );
+        multiCL::launchKernel2D( kernel, width * colorCount, height );
 
         range = rangeOpenCL.get();
 
-- 
2.43.0


From 39730096cf00ae1d0f98744e2caf956a2bcb79c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 086/124] fix: ignore alpha channel in OpenCL conversion to
 gray-scale image

---
 src/opencl/image_function_opencl.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 53064e9..928430a 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -136,14 +136,11 @@ namespace
             if( x < width && y < height ) {
                 __global const uchar * data = in + offsetIn + (rowSizeIn * y) + x * colorCount;
 
-                uint sum = 0;
-                for( uchar i = 0; i < colorCount; ++i, ++data )
-                {
-                    sum += (*data);
-                }
+                // alpha channel is not an intensity
+                const uint sum = (uint)data[0] + (uint)data[1] + (uint)data[2];
 
                 const size_t id = offsetOut + y * rowSizeOut + x;
-                out[id] = sum / colorCount;
+                out[id] = sum / 3;
             }
         }
 
-- 
2.43.0


From 729856fdcda23d5ce3ecd0a6a4a8b5598cb23e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 087/124] fix: convert RGBA images correctly in OpenCL
 ConvertToRgb

---
 src/opencl/image_function_opencl.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 928430a..f1626e2 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -144,20 +144,20 @@ namespace
             }
         }
 
-        __kernel void convertToRgbOpenCL( __global const uchar * in, uint offsetIn, uint rowSizeIn, __global uchar * out, uint offsetOut, uint rowSizeOut, uchar colorCount,
-                                          uint width, uint height )
+        __kernel void convertToRgbOpenCL( __global const uchar * in, uint offsetIn, uint rowSizeIn, uchar colorCountIn, __global uchar * out, uint offsetOut,
+                                          uint rowSizeOut, uchar colorCount, uint width, uint height )
         {
             const size_t x = get_global_id(0);
             const size_t y = get_global_id(1);
 
             if( x < width && y < height ) {
-                const size_t id = offsetIn + y * rowSizeIn + x;
+                const size_t id = offsetIn + y * rowSizeIn + x * colorCountIn;
 
                 __global uchar * data = out + offsetOut + (rowSizeOut * y) + x * colorCount;
 
                 for( uchar i = 0; i < colorCount; ++i, ++data )
                 {
-                    (*data) = in[id];
+                    (*data) = (colorCountIn == 1) ? in[id] : in[id + i];
                 }
             }
         }
@@ -678,7 +678,7 @@ namespace Image_Function_OpenCL
             const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
-            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, out.colorCount(), width, height );
+            kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, out.colorCount(), width, height );
 
             multiCL::launchKernel2D( kernel, width, height );
         }
-- 
2.43.0


From eda5c76756cdf0f4d33933b032b279632abeedfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 088/124] fix: make OpenCL SetPixel change the given pixels

---
 src/opencl/image_function_opencl.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index f1626e2..c1f9c67 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -323,15 +323,15 @@ namespace
             }
         }
 
-        __kernel void __attribute__(( overloadable )) setPixelOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height, uint x, uint y, uchar value )
+        __kernel void setPixelOpenCL( __global uchar * data, uint rowSize, uint width, uint height, uint x, uint y, uchar value )
         {
             if ( x < width && y < height ) {
-                data[offset + y * rowSize + x] = value;
+                data[y * rowSize + x] = value;
             }
         }
 
-        __kernel void __attribute__(( overloadable )) setPixelOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height,
-                                                                      __global const uint * pointX, __global const uint * pointY, uint pointSize, uint value )
+        __kernel void setPixelsOpenCL( __global uchar * data, uint rowSize, uint width, uint height, __global const uint * pointX, __global const uint * pointY,
+                                       uint pointSize, uchar value )
         {
             const size_t id = get_global_id(0);
 
@@ -339,7 +339,7 @@ namespace
                 const uint x = pointX[id];
                 const uint y = pointY[id];
                 if ( x < width && y < height ) {
-                    data[offset + y * rowSize + x] = value;
+                    data[y * rowSize + x] = value;
                 }
             }
         }
@@ -1220,9 +1220,8 @@ namespace Image_Function_OpenCL
         const uint32_t width = image.width();
         const uint32_t height = image.height();
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
 
-        kernel.setArgument( image.data(), offset, rowSize, width, height, x, y, value );
+        kernel.setArgument( image.data(), rowSize, width, height, x, y, value );
 
         multiCL::launchKernel1D( kernel, 1 );
     }
@@ -1232,7 +1231,7 @@ namespace Image_Function_OpenCL
         Image_Function::ValidateImageParameters( image );
 
         const multiCL::OpenCLProgram & program = GetProgram();
-        multiCL::OpenCLKernel kernel( program, "setPixelOpenCL" );
+        multiCL::OpenCLKernel kernel( program, "setPixelsOpenCL" );
 
         if ( image.empty() || X.empty() || X.size() != Y.size() )
             throw penguinVException( "Bad input parameters in image function" );
@@ -1250,7 +1249,7 @@ namespace Image_Function_OpenCL
         multiCL::Array<uint32_t> pointX( X );
         multiCL::Array<uint32_t> pointY( Y );
 
-        kernel.setArgument( image.data(), rowSize, width, height, pointX.data(), pointY.data(), X.size(), value );
+        kernel.setArgument( image.data(), rowSize, width, height, pointX.data(), pointY.data(), static_cast<uint32_t>( X.size() ), value );
 
         multiCL::launchKernel1D( kernel, static_cast<uint32_t>( X.size() ) );
     }
-- 
2.43.0


From f144f4f8d2e7dc391b42a892940e6456cb12e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 089/124] fix: refuse color images in OpenCL SetPixel

---
 src/opencl/image_function_opencl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index c1f9c67..905bd5e 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -1210,6 +1210,7 @@ namespace Image_Function_OpenCL
     void SetPixel( Image & image, uint32_t x, uint32_t y, uint8_t value )
     {
         Image_Function::ValidateImageParameters( image );
+        Image_Function::VerifyGrayScaleImage( image );
 
         const multiCL::OpenCLProgram & program = GetProgram();
         multiCL::OpenCLKernel kernel( program, "setPixelOpenCL" );
@@ -1229,6 +1230,7 @@ namespace Image_Function_OpenCL
     void SetPixel( Image & image, const std::vector<uint32_t> & X, const std::vector<uint32_t> & Y, uint8_t value )
     {
         Image_Function::ValidateImageParameters( image );
+        Image_Function::VerifyGrayScaleImage( image );
 
         const multiCL::OpenCLProgram & program = GetProgram();
         multiCL::OpenCLKernel kernel( program, "setPixelsOpenCL" );
-- 
2.43.0


From 14757de0e00640387ed817d5bdf467b646207fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 090/124] fix: refuse a minimum threshold which is bigger than
 the maximum one in OpenCL Threshold

---
 src/opencl/image_function_opencl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 905bd5e..b6517e8 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -1312,6 +1312,9 @@ namespace Image_Function_OpenCL
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         Image_Function::VerifyGrayScaleImage( in, out );
 
+        if ( minThreshold > maxThreshold )
+            throw penguinVException( "Minimum threshold value is bigger than maximum threshold value" );
+
         const multiCL::OpenCLProgram & program = GetProgram();
         multiCL::OpenCLKernel kernel( program, "thresholdDoubleOpenCL" );
 
-- 
2.43.0


From 8179d3d3ee893c39f4067ad1d14a48713a95c5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 091/124] fix: copy rows of images with alignment correctly
 between CPU and OpenCL device

---
 src/opencl/image_function_opencl.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index b6517e8..bc8e5ca 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -562,16 +562,18 @@ namespace Image_Function_OpenCL
         if ( in.width() != out.width() || in.height() != out.height() || in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( in.alignment() == 1u || ( in.rowSize() == in.width() * in.colorCount() ) ) {
-            const size_t size = static_cast<size_t>( in.rowSize() ) * in.height();
+        const size_t width = static_cast<size_t>( in.width() ) * in.colorCount();
+
+        if ( in.rowSize() == width && out.rowSize() == width ) {
+            const size_t size = width * in.height();
             multiCL::writeBuffer( reinterpret_cast<cl_mem>( out.data() ), size * sizeof( uint8_t ), in.data() );
         }
         else {
             const size_t origin[3] = { 0, 0, 0 };
-            const size_t region[3] = { in.width(), in.height(), 1 };
+            const size_t region[3] = { width, in.height(), 1 };
 
-            multiCL::openCLCheck( clEnqueueWriteImage( multiCL::OpenCLDeviceManager::instance().device().queue()(), reinterpret_cast<cl_mem>( out.data() ), CL_TRUE,
-                                                       origin, region, in.rowSize(), 0, in.data(), 0, NULL, NULL ) );
+            multiCL::openCLCheck( clEnqueueWriteBufferRect( multiCL::OpenCLDeviceManager::instance().device().queue()(), reinterpret_cast<cl_mem>( out.data() ), CL_TRUE,
+                                                            origin, origin, region, out.rowSize(), 0, in.rowSize(), 0, in.data(), 0, NULL, NULL ) );
         }
     }
 
@@ -591,17 +593,19 @@ namespace Image_Function_OpenCL
         if ( in.width() != out.width() || in.height() != out.height() || in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( out.alignment() == 1u || ( out.rowSize() == out.width() * out.colorCount() ) ) {
-            const size_t size = static_cast<size_t>( in.rowSize() ) * in.height();
+        const size_t width = static_cast<size_t>( in.width() ) * in.colorCount();
+
+        if ( in.rowSize() == width && out.rowSize() == width ) {
+            const size_t size = width * in.height();
             multiCL::readBuffer( reinterpret_cast<cl_mem>( const_cast<uint8_t *>( in.data() ) ), size * sizeof( uint8_t ), out.data() );
         }
         else {
             const size_t origin[3] = { 0, 0, 0 };
-            const size_t region[3] = { out.width(), out.height(), 1 };
+            const size_t region[3] = { width, out.height(), 1 };
 
-            multiCL::openCLCheck( clEnqueueReadImage( multiCL::OpenCLDeviceManager::instance().device().queue()(),
-                                                      reinterpret_cast<cl_mem>( const_cast<uint8_t *>( in.data() ) ), CL_TRUE, origin, region, out.rowSize(), 0,
-                                                      out.data(), 0, NULL, NULL ) );
+            multiCL::openCLCheck( clEnqueueReadBufferRect( multiCL::OpenCLDeviceManager::instance().device().queue()(),
+                                                           reinterpret_cast<cl_mem>( const_cast<uint8_t *>( in.data() ) ), CL_TRUE, origin, origin, region, in.rowSize(), 0,
+                                                           out.rowSize(), 0, out.data(), 0, NULL, NULL ) );
         }
     }
 
-- 
2.43.0


From 2c6036e4556b2ccd38cd5ab4e5ef5ceabeadb5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 092/124] fix: refuse an invalid ID of OpenCL device

---
 src/opencl/opencl_device.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index bbd5357..3236e7d 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -389,6 +389,10 @@ namespace multiCL
             throw penguinVException( "Device manager does not contain any devices" );
         }
 
+        if ( deviceId >= _supportedDeviceId.size() ) {
+            throw penguinVException( "System does not contain a device with such ID" );
+        }
+
         auto foundDevice
             = std::find_if( _device.begin(), _device.end(), [&]( const OpenCLDevice * device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
@@ -405,6 +409,10 @@ namespace multiCL
             throw penguinVException( "Device manager does not contain any devices" );
         }
 
+        if ( deviceId >= _supportedDeviceId.size() ) {
+            throw penguinVException( "System does not contain a device with such ID" );
+        }
+
         auto foundDevice
             = std::find_if( _device.begin(), _device.end(), [&]( const OpenCLDevice * device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
@@ -417,6 +425,10 @@ namespace multiCL
 
     void OpenCLDeviceManager::setActiveDevice( uint32_t deviceId )
     {
+        if ( deviceId >= _supportedDeviceId.size() ) {
+            throw penguinVException( "System does not contain a device with such ID" );
+        }
+
         auto foundDevice
             = std::find_if( _device.begin(), _device.end(), [&]( const OpenCLDevice * device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
-- 
2.43.0


From bde017cce9dfaaf00812e972bdbfe28a1a7b1066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 093/124] fix: do not use OpenCL programs of a closed device
 after its initialization

---
 src/opencl/image_function_opencl.cpp | 16 ++++++++++------
 src/opencl/opencl_device.cpp         |  5 ++++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index bc8e5ca..085e4a2 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -370,19 +370,23 @@ namespace
 
     const multiCL::OpenCLProgram & GetProgram()
     {
-        static std::map<cl_device_id, std::shared_ptr<multiCL::OpenCLProgram>> deviceProgram;
+        // A program belongs to a context which is created every time when a device is being initialized.
+        static std::map<cl_device_id, std::pair<cl_context, std::shared_ptr<multiCL::OpenCLProgram>>> deviceProgram;
         static std::mutex mapGuard;
 
         std::lock_guard<std::mutex> lock( mapGuard );
         multiCL::OpenCLDevice & device = multiCL::OpenCLDeviceManager::instance().device();
 
-        std::map<cl_device_id, std::shared_ptr<multiCL::OpenCLProgram>>::const_iterator program = deviceProgram.find( device.deviceId() );
-        if ( program != deviceProgram.cend() )
-            return *( program->second );
+        const cl_context context = device.context()();
 
-        deviceProgram[device.deviceId()] = std::shared_ptr<multiCL::OpenCLProgram>( new multiCL::OpenCLProgram( device.context(), programCode.data() ) );
+        auto program = deviceProgram.find( device.deviceId() );
+        if ( program != deviceProgram.cend() && program->second.first == context )
+            return *( program->second.second );
 
-        return *( deviceProgram[device.deviceId()] );
+        std::shared_ptr<multiCL::OpenCLProgram> newProgram( new multiCL::OpenCLProgram( device.context(), programCode.data() ) );
+        deviceProgram[device.deviceId()] = std::make_pair( context, newProgram );
+
+        return *newProgram;
     }
 }
 
diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index 3236e7d..6cb697f 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -67,6 +67,7 @@ namespace
             program.reset();
         }
 
+        cl_context context{ NULL };
         std::shared_ptr<multiCL::OpenCLProgram> program;
         std::shared_ptr<multiCL::OpenCLKernel> kernel;
     };
@@ -80,11 +81,13 @@ namespace
         multiCL::OpenCLDevice & device = multiCL::OpenCLDeviceManager::instance().device();
 
         auto program = deviceProgram.find( device.deviceId() );
-        if ( program != deviceProgram.cend() ) {
+        // A kernel belongs to a context which is created every time when a device is being initialized.
+        if ( program != deviceProgram.cend() && program->second.context == device.context()() ) {
             return *( program->second.kernel );
         }
 
         MemsetKernelHolder holder;
+        holder.context = device.context()();
         holder.program = std::shared_ptr<multiCL::OpenCLProgram>( new multiCL::OpenCLProgram( device.context(), memsetCode.data() ) );
         holder.kernel = std::shared_ptr<multiCL::OpenCLKernel>( new multiCL::OpenCLKernel( *( holder.program ), "memsetOpenCL" ) );
 
-- 
2.43.0


From 6d74531e66b32259af244082ba517150cb31cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 094/124] fix: terminate the source code of an OpenCL program
 which is read from a file

---
 src/opencl/opencl_helper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opencl/opencl_helper.cpp b/src/opencl/opencl_helper.cpp
index 4e2079e..3f2bf5a 100644
--- a/src/opencl/opencl_helper.cpp
+++ b/src/opencl/opencl_helper.cpp
@@ -171,7 +171,8 @@ namespace multiCL
 
         file.seekg( 0, file.beg );
 
-        std::vector<char> fileContent( static_cast<size_t>( fileLength ) );
+        // The source code must be a null-terminated string.
+        std::vector<char> fileContent( static_cast<size_t>( fileLength ) + 1u, '\0' );
 
         file.read( fileContent.data(), fileLength );
 
-- 
2.43.0


From 778589712cf8df152d248b38e9cc87bd70c907cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 095/124] fix: keep the size of an OpenCL array consistent when
 memory cannot be allocated

---
 src/opencl/opencl_types.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opencl/opencl_types.h b/src/opencl/opencl_types.h
index 886c37a..e8ca279 100644
--- a/src/opencl/opencl_types.h
+++ b/src/opencl/opencl_types.h
@@ -252,6 +252,7 @@ namespace multiCL
         {
             if ( _size != size ) {
                 _free();
+                _size = 0;
 
                 if ( size != 0 )
                     _data = MemoryManager::memory().allocate<TData>( size );
-- 
2.43.0


From 0090952d074805a45d8872bc0e296fbb85b2db0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 096/124] fix: raise exceptions of the library as Python
 exceptions

---
 src/python/penguinV.i | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/python/penguinV.i b/src/python/penguinV.i
index fca9749..e9a99f1 100644
--- a/src/python/penguinV.i
+++ b/src/python/penguinV.i
@@ -1,5 +1,6 @@
 %module penguinV
 
+%include "exception.i"
 %include "stdint.i"
 %include "std_string.i"
 %include "std_vector.i"
@@ -15,6 +16,16 @@
 
 %feature("autodoc", "1");
 
+// An exception which leaves a wrapper terminates an interpreter. Raise it as Python exception instead.
+%exception {
+    try {
+        $action
+    }
+    catch ( const std::exception & ex ) {
+        SWIG_exception( SWIG_RuntimeError, ex.what() );
+    }
+}
+
 namespace std {
     %template(vectorUInt32) vector<uint32_t>;
 };
-- 
2.43.0


From d2e9a3cc691f2db569737786f4d7bb2c343b434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 097/124] fix: do not copy images while their parameters are
 verified

Validation helpers took images by value, so that each call of an image function
made full copies of images. Besides the cost, tasks of a thread pool function
read whole output image while other tasks write their parts of it.
---
 src/parameter_validation.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/parameter_validation.h b/src/parameter_validation.h
index 154959d..6e1a2d0 100644
--- a/src/parameter_validation.h
+++ b/src/parameter_validation.h
@@ -64,7 +64,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void VerifyRGBImage( const TImage & image, Args... args )
+    void VerifyRGBImage( const TImage & image, const Args &... args )
     {
         VerifyRGBImage( image );
         VerifyRGBImage( args... );
@@ -78,7 +78,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void VerifyGrayScaleImage( const TImage & image, Args... args )
+    void VerifyGrayScaleImage( const TImage & image, const Args &... args )
     {
         VerifyGrayScaleImage( image );
         VerifyGrayScaleImage( args... );
@@ -100,7 +100,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void ValidateImageParameters( const TImage & image1, const TImage & image2, Args... args )
+    void ValidateImageParameters( const TImage & image1, const TImage & image2, const Args &... args )
     {
         ValidateImageParameters( image1, image2 );
         ValidateImageParameters( image2, args... );
@@ -113,7 +113,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    std::pair<uint32_t, uint32_t> ExtractRoiSize( const TImage &, uint32_t, uint32_t, Args... args )
+    std::pair<uint32_t, uint32_t> ExtractRoiSize( const TImage &, uint32_t, uint32_t, const Args &... args )
     {
         return ExtractRoiSize( args... );
     }
@@ -127,7 +127,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void ValidateImageParameters( const TImage & image1, uint32_t startX1, uint32_t startY1, Args... args )
+    void ValidateImageParameters( const TImage & image1, uint32_t startX1, uint32_t startY1, const Args &... args )
     {
         const std::pair<uint32_t, uint32_t> & dimensions = ExtractRoiSize( args... );
 
@@ -142,7 +142,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    bool IsFullImageRow( uint32_t width, const TImage & image, Args... args )
+    bool IsFullImageRow( uint32_t width, const TImage & image, const Args &... args )
     {
         if ( !IsFullImageRow( width, image ) )
             return false;
@@ -151,7 +151,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void OptimiseRoi( uint32_t & width, uint32_t & height, const TImage & image, Args... args )
+    void OptimiseRoi( uint32_t & width, uint32_t & height, const TImage & image, const Args &... args )
     {
         if ( IsFullImageRow( width, image, args... ) && ( width < ( std::numeric_limits<uint32_t>::max() / height ) ) ) {
             width = width * height;
-- 
2.43.0


From 002911bd3dfeb1c31abf556b890a464dc118da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 098/124] fix: avoid a data race when first images of any type
 are created in several threads

Memory functions of an image type are registered by the first image of that
type. Only the default type was safe.
---
 src/image_buffer.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index f9d4fc8..2a94707 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -24,10 +24,12 @@
 #include "penguinv_exception.h"
 #include <algorithm>
 #include <array>
+#include <atomic>
 #include <cstdint>
 #include <cstring>
 #include <functional>
 #include <limits>
+#include <mutex>
 #include <vector>
 
 namespace penguinV
@@ -373,11 +375,18 @@ namespace penguinV
 
             void initialize( uint8_t type, AllocateFunction allocateFunction, DeallocateFunction deallocateFunction, CopyFunction copyFunction, SetFunction setFunction )
             {
+                // first images of a type can be created in several threads
+                if ( _isReady[type].load( std::memory_order_acquire ) )
+                    return;
+
+                std::lock_guard<std::mutex> lock( _guard );
+
                 if ( _allocate[type] == nullptr ) {
                     _allocate[type] = allocateFunction;
                     _deallocate[type] = deallocateFunction;
                     _copy[type] = copyFunction;
                     _set[type] = setFunction;
+                    _isReady[type].store( true, std::memory_order_release );
                 }
             }
 
@@ -404,6 +413,9 @@ namespace penguinV
         private:
             FunctionFacade()
             {
+                for ( std::atomic<bool> & isReady : _isReady )
+                    isReady.store( false );
+
                 // images of the default type can be created in several threads so these functions must be ready from the beginning
                 initialize( 0u, _allocateMemory, _deallocateMemory, _copyMemory, _setMemory );
             }
@@ -429,6 +441,9 @@ namespace penguinV
             std::array<DeallocateFunction, 256> _deallocate{ nullptr };
             std::array<CopyFunction, 256> _copy{ nullptr };
             std::array<SetFunction, 256> _set{ nullptr };
+
+            std::array<std::atomic<bool>, 256> _isReady;
+            std::mutex _guard;
         };
     };
 
-- 
2.43.0


From f7cde5a1a0177c6ce71ad883921cce2e7a14fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:44 +0000
Subject: [PATCH 099/124] fix: do not convert positions beyond the range of
 integers in Rotate

---
 src/image_function.cpp | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 4716814..7f397b1 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1688,31 +1688,27 @@ namespace Image_Function
             double posY = inYPos;
 
             for ( ; outX != outXEnd; ++outX, posX += cosAngle, posY -= sinAngle ) {
-                if ( posX < minX || posY < minY ) {
+                // a position must be verified before conversion as it could be out of range of an integer
+                if ( posX < minX || posY < minY || posX >= maxX || posY >= maxY ) {
                     ( *outX ) = 0; // we actually do not know what is beyond an image so we set value 0
                 }
                 else {
                     const uint32_t x = static_cast<uint32_t>( posX );
                     const uint32_t y = static_cast<uint32_t>( posY );
 
-                    if ( x >= maxX || y >= maxY ) {
-                        ( *outX ) = 0; // we actually do not know what is beyond an image so we set value 0
-                    }
-                    else {
-                        const uint8_t * inX = inY + y * rowSizeIn + x;
+                    const uint8_t * inX = inY + y * rowSizeIn + x;
 
-                        // we use bilinear approximation to find pixel intensity value
-                        const double coeffX = posX - x;
-                        const double coeffY = posY - y;
+                    // we use bilinear approximation to find pixel intensity value
+                    const double coeffX = posX - x;
+                    const double coeffY = posY - y;
 
-                        // Take a weighted mean of four pixels. Use offset of 0.5
-                        // so that integer conversion leads to rounding instead of
-                        // simple truncation.
-                        const double sum = *( inX ) * ( 1 - coeffX ) * ( 1 - coeffY ) + *( inX + 1 ) * ( coeffX ) * ( 1 - coeffY )
-                                           + *( inX + rowSizeIn ) * ( 1 - coeffX ) * ( coeffY ) + *( inX + rowSizeIn + 1 ) * ( coeffX ) * ( coeffY ) + 0.5;
+                    // Take a weighted mean of four pixels. Use offset of 0.5
+                    // so that integer conversion leads to rounding instead of
+                    // simple truncation.
+                    const double sum = *( inX ) * ( 1 - coeffX ) * ( 1 - coeffY ) + *( inX + 1 ) * ( coeffX ) * ( 1 - coeffY )
+                                       + *( inX + rowSizeIn ) * ( 1 - coeffX ) * ( coeffY ) + *( inX + rowSizeIn + 1 ) * ( coeffX ) * ( coeffY ) + 0.5;
 
-                        ( *outX ) = static_cast<uint8_t>( sum );
-                    }
+                    ( *outX ) = static_cast<uint8_t>( sum );
                 }
             }
         }
-- 
2.43.0


From fbf4bf14916d435ccb1d1d38c73d6490f0c6246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 100/124] fix: find the best fitting line for points far from
 [0, 0]

---
 src/math/math_base.h | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/math/math_base.h b/src/math/math_base.h
index 84dbe29..bc47a24 100644
--- a/src/math/math_base.h
+++ b/src/math/math_base.h
@@ -281,41 +281,40 @@ public:
 
         _Type sumX = 0;
         _Type sumY = 0;
-        _Type sumXX = 0;
-        _Type sumYY = 0;
-        _Type sumXY = 0;
 
         for ( auto point = points.begin(); point != points.end(); ++point ) {
-            const _Type x = point->x;
-            const _Type y = point->y;
-            sumX += x;
-            sumXX += x * x;
-            sumY += y;
-            sumYY += y * y;
-            sumXY += x * y;
+            sumX += point->x;
+            sumY += point->y;
         }
 
         const _Type size = static_cast<_Type>( points.size() );
         sumX /= size;
         sumY /= size;
-        sumXX /= size;
-        sumYY /= size;
-        sumXY /= size;
 
         const PointBase2D<_Type> position( sumX, sumY );
 
-        const _Type sigmaX = sumXX - sumX * sumX;
-        const _Type sigmaY = sumYY - sumY * sumY;
+        // coordinates must be relative to the position as squares of big values have no digits left for a difference between points
+        _Type sigmaX = 0;
+        _Type sigmaY = 0;
+        _Type sigmaXY = 0;
+
+        for ( auto point = points.begin(); point != points.end(); ++point ) {
+            const _Type x = point->x - sumX;
+            const _Type y = point->y - sumY;
+            sigmaX += x * x;
+            sigmaY += y * y;
+            sigmaXY += x * y;
+        }
 
         PointBase2D<_Type> direction;
 
         if ( sigmaX > sigmaY ) {
-            direction.y = sumXY - sumX * sumY;
-            direction.x = sumXX - sumX * sumX;
+            direction.y = sigmaXY;
+            direction.x = sigmaX;
         }
         else {
-            direction.x = sumXY - sumX * sumY;
-            direction.y = sumYY - sumY * sumY;
+            direction.x = sigmaXY;
+            direction.y = sigmaY;
         }
 
         return LineBase2D( position, std::atan2( direction.y, direction.x ) );
-- 
2.43.0


From 952348bc05b3df60068001264235ded4873c2054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:10 +0000
Subject: [PATCH 101/124] fix: pass dimensions of a CUDA FFT plan in a correct
 order

---
 src/cuda/cuda_fft.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 0f8ac54..2345235 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -227,7 +227,7 @@ namespace FFT_Cuda
 
     void FFTExecutor::_makePlans()
     {
-        if ( cufftPlan2d( &_plan, _width, _height, CUFFT_C2C ) != CUFFT_SUCCESS )
+        if ( cufftPlan2d( &_plan, _height, _width, CUFFT_C2C ) != CUFFT_SUCCESS )
             throw penguinVException( "Cannot create FFT plan on CUDA device" );
     }
 }
-- 
2.43.0


From e5bd828a105dba80faa2492b69050bb8ce7afa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:10 +0000
Subject: [PATCH 102/124] fix: calculate a product of complex data on CUDA
 device correctly when an output is an input

---
 src/cuda/cuda_fft.cu | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 2345235..3762268 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -80,8 +80,13 @@ namespace
 
         if( x < width && y < height ) {
             const uint32_t id = y * width + x;
-            out[id].x = in1[id].x * in2[id].x - in1[id].y * in2[id].y;
-            out[id].y = in1[id].x * in2[id].y + in1[id].y * in2[id].x;
+
+            // an output might be one of inputs
+            const cufftComplex value1 = in1[id];
+            const cufftComplex value2 = in2[id];
+
+            out[id].x = value1.x * value2.x - value1.y * value2.y;
+            out[id].y = value1.x * value2.y + value1.y * value2.x;
         }
     }
 }
-- 
2.43.0


From 38f4a108a526138ac9d914e9204517b39f8a16d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:10 +0000
Subject: [PATCH 103/124] fix: multiply all complex data on CUDA device
 independently from a size of an executor

---
 src/cuda/cuda_fft.cu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 3762268..56cb9d5 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -217,8 +217,8 @@ namespace FFT_Cuda
         if ( !FFT::equalSize( in1, in2 ) || !FFT::equalSize( in1, out ) || in1.width() == 0 || in2.height() == 0 )
             throw penguinVException( "Invalid parameters for FFTExecutor" );
 
-        launchKernel2D( complexMultiplicationCuda, _width, _height,
-                        in1.data(), in2.data(), out.data(), _width, _height );
+        launchKernel2D( complexMultiplicationCuda, in1.width(), in1.height(),
+                        in1.data(), in2.data(), out.data(), in1.width(), in1.height() );
     }
 
     void FFTExecutor::_cleanPlans()
-- 
2.43.0


From 525bfe89badffb612ec3c97e75f2c52e794e861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:10 +0000
Subject: [PATCH 104/124] fix: swap quadrants of an image with an odd size
 correctly on CUDA device

---
 src/cuda/cuda_fft.cu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 56cb9d5..a0d50c9 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -62,8 +62,8 @@ namespace
             const uint32_t middleX = width / 2;
             const uint32_t middleY = height / 2;
 
-            const uint32_t outX = (inX < middleX) ? middleX + inX : inX - middleX;
-            const uint32_t outY = (inY < middleY) ? middleY + inY : inY - middleY;
+            const uint32_t outX = (inX < middleX) ? width - middleX + inX : inX - middleX;
+            const uint32_t outY = (inY < middleY) ? height - middleY + inY : inY - middleY;
 
             out[outY * width + outX] = static_cast<uint8_t>(in[id].x / size + 0.5f);
         }
-- 
2.43.0


From 58ba9202331ce4b41e26631b679067b6aba71f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:11 +0000
Subject: [PATCH 105/124] fix: consider alignment of an image in complex data
 on CUDA device

---
 src/cuda/cuda_fft.cu | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index a0d50c9..4e6b0e1 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -27,14 +27,14 @@
 
 namespace
 {
-    __global__ void copyFromImageCuda( const uint8_t * in, cufftComplex * out, uint32_t width, uint32_t height )
+    __global__ void copyFromImageCuda( const uint8_t * in, uint32_t rowSizeIn, cufftComplex * out, uint32_t width, uint32_t height )
     {
         const uint32_t x = blockDim.x * blockIdx.x + threadIdx.x;
         const uint32_t y = blockDim.y * blockIdx.y + threadIdx.y;
 
         if( x < width && y < height ) {
             const uint32_t id = y * width + x;
-            out[id].x = in[id];
+            out[id].x = in[y * rowSizeIn + x];
             out[id].y = 0;
         }
     }
@@ -51,7 +51,7 @@ namespace
         }
     }
 
-    __global__ void copyToImageCuda( const cufftComplex * in, uint8_t * out, float size, uint32_t width, uint32_t height )
+    __global__ void copyToImageCuda( const cufftComplex * in, uint8_t * out, uint32_t rowSizeOut, float size, uint32_t width, uint32_t height )
     {
         const uint32_t inX = blockDim.x * blockIdx.x + threadIdx.x;
         const uint32_t inY = blockDim.y * blockIdx.y + threadIdx.y;
@@ -65,7 +65,7 @@ namespace
             const uint32_t outX = (inX < middleX) ? width - middleX + inX : inX - middleX;
             const uint32_t outY = (inY < middleY) ? height - middleY + inY : inY - middleY;
 
-            out[outY * width + outX] = static_cast<uint8_t>(in[id].x / size + 0.5f);
+            out[outY * rowSizeOut + outX] = static_cast<uint8_t>(in[id].x / size + 0.5f);
         }
     }
 
@@ -130,7 +130,7 @@ namespace FFT_Cuda
         _height = image.height();
 
         launchKernel2D( copyFromImageCuda, _width, _height,
-                        image.data(), _data, _width, _height );
+                        image.data(), image.rowSize(), _data, _width, _height );
     }
 
     void ComplexData::set( const multiCuda::Array<float> & data )
@@ -152,7 +152,7 @@ namespace FFT_Cuda
         const float size = static_cast<float>(image.width() * image.height());
 
         launchKernel2D( copyToImageCuda, _width, _height,
-                        _data, image.data(), size, _width, _height );
+                        _data, image.data(), image.rowSize(), size, _width, _height );
 
         return image;
     }
-- 
2.43.0


From 9f352ae726bb5e0d958a28b43622ba762f653cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:11 +0000
Subject: [PATCH 106/124] fix: copy rows of images with alignment correctly
 between CPU and CUDA device

---
 src/cuda/image_function_cuda.cu | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index d038ec1..e5b4014 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -566,9 +566,11 @@ namespace Image_Function_Cuda
              in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( in.alignment() == 1u || (in.rowSize() == in.width() * in.colorCount()) )
+        const size_t width = static_cast<size_t>( in.width() ) * in.colorCount();
+
+        if ( in.rowSize() == width && out.rowSize() == width )
         {
-            const uint32_t size = in.rowSize() * in.height();
+            const size_t size = width * in.height();
 
             if ( !multiCuda::cudaSafeCheck( cudaMemcpy( out.data(), in.data(), size * sizeof( uint8_t ), cudaMemcpyHostToDevice ) ) )
                 throw penguinVException( "Cannot copy a memory to CUDA device" );
@@ -576,7 +578,7 @@ namespace Image_Function_Cuda
         else
         {
             if ( !multiCuda::cudaSafeCheck( cudaMemcpy2D( out.data(), out.rowSize(), in.data(), in.rowSize(),
-                                                          in.colorCount() * in.width(), in.height(), cudaMemcpyHostToDevice ) ) )
+                                                          width, in.height(), cudaMemcpyHostToDevice ) ) )
                 throw penguinVException( "Cannot copy a memory to CUDA device" );
         }
     }
@@ -599,9 +601,11 @@ namespace Image_Function_Cuda
              in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( out.alignment() == 1u || (out.rowSize() == out.width() * out.colorCount()) )
+        const size_t width = static_cast<size_t>( in.width() ) * in.colorCount();
+
+        if ( in.rowSize() == width && out.rowSize() == width )
         {
-            const uint32_t size = in.rowSize() * in.height();
+            const size_t size = width * in.height();
 
             if ( !multiCuda::cudaSafeCheck( cudaMemcpy( out.data(), in.data(), size, cudaMemcpyDeviceToHost ) ) )
                 throw penguinVException( "Cannot copy a memory from CUDA device" );
@@ -609,7 +613,7 @@ namespace Image_Function_Cuda
         else
         {
             if ( !multiCuda::cudaSafeCheck( cudaMemcpy2D( out.data(), out.rowSize(), in.data(), in.rowSize(),
-                                                          in.colorCount() * in.width(), in.height(), cudaMemcpyDeviceToHost ) ) )
+                                                          width, in.height(), cudaMemcpyDeviceToHost ) ) )
                 throw penguinVException( "Cannot copy a memory to CUDA device" );
         }
     }
-- 
2.43.0


From 1857db071e76bb03bb1164a4e982bc035a2c288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:11 +0000
Subject: [PATCH 107/124] fix: ignore alpha channel in CUDA conversion to
 gray-scale image

---
 src/cuda/image_function_cuda.cu | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index e5b4014..7410684 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -128,16 +128,12 @@ namespace
 
         if ( x < width && y < height ) {
             const uint8_t * data = in + y * rowSizeIn + x * colorCount;
-            const uint8_t * dataEnd = data + colorCount;
 
-            uint32_t sum = 0;
-            for ( ; data != dataEnd; ++data )
-            {
-                sum += (*data);
-            }
+            // alpha channel is not an intensity
+            const uint32_t sum = static_cast<uint32_t>(data[0]) + data[1] + data[2];
 
             const uint32_t id = y * rowSizeOut + x;
-            out[id] = static_cast<uint8_t>(sum / colorCount);
+            out[id] = static_cast<uint8_t>(sum / 3);
         }
     }
 
-- 
2.43.0


From 2b336343d2928cd86fea339f9449b3faabc22153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:11 +0000
Subject: [PATCH 108/124] fix: convert RGBA images correctly in CUDA
 ConvertToRgb

---
 src/cuda/image_function_cuda.cu | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index 7410684..748aa6d 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -137,14 +137,14 @@ namespace
         }
     }
 
-    __global__ void convertToRgbCuda( const uint8_t * in, uint32_t rowSizeIn, uint8_t * out, uint32_t rowSizeOut, uint8_t colorCount,
-                                      uint32_t width, uint32_t height )
+    __global__ void convertToRgbCuda( const uint8_t * in, uint32_t rowSizeIn, uint8_t colorCountIn, uint8_t * out, uint32_t rowSizeOut,
+                                      uint8_t colorCount, uint32_t width, uint32_t height )
     {
         const uint32_t x = blockDim.x * blockIdx.x + threadIdx.x;
         const uint32_t y = blockDim.y * blockIdx.y + threadIdx.y;
 
         if ( x < width && y < height ) {
-            const uint8_t * dataIn = in + y * rowSizeIn + x;
+            const uint8_t * dataIn = in + y * rowSizeIn + x * colorCountIn;
 
             uint8_t * dataOut = out + y * rowSizeOut + x * colorCount;
             const uint8_t * dataOutEnd = dataOut + colorCount;
@@ -152,6 +152,9 @@ namespace
             for ( ; dataOut != dataOutEnd; ++dataOut )
             {
                 (*dataOut) = (*dataIn);
+
+                if ( colorCountIn > 1 )
+                    ++dataIn;
             }
         }
     }
@@ -681,13 +684,14 @@ namespace Image_Function_Cuda
         const uint32_t rowSizeIn  = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint8_t colorCount = out.colorCount();
+        const uint8_t colorCountIn = in.colorCount();
+        const uint8_t colorCount   = out.colorCount();
 
-        const uint8_t * inY  = in.data()  + startYIn  * rowSizeIn  + startXIn;
+        const uint8_t * inY  = in.data()  + startYIn  * rowSizeIn  + startXIn  * colorCountIn;
         uint8_t       * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         launchKernel2D( convertToRgbCuda, width, height,
-                        inY, rowSizeIn, outY, rowSizeOut, colorCount, width, height );
+                        inY, rowSizeIn, colorCountIn, outY, rowSizeOut, colorCount, width, height );
     }
 
     void Copy( const Image & in, Image & out )
-- 
2.43.0


From 54086c31ea3f218175be82a58c55fe29e96fffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:11 +0000
Subject: [PATCH 109/124] fix: refuse a minimum threshold which is bigger than
 the maximum one in CUDA Threshold

---
 src/cuda/image_function_cuda.cu | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index 748aa6d..2928a3b 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -1245,6 +1245,9 @@ namespace Image_Function_Cuda
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         Image_Function::VerifyGrayScaleImage( in, out );
 
+        if ( minThreshold > maxThreshold )
+            throw penguinVException( "Minimum threshold value is bigger than maximum threshold value" );
+
         const uint32_t rowSizeIn  = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-- 
2.43.0


From fe5cccfd97d94e10de578ede79caaf0d6253c72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:11 +0000
Subject: [PATCH 110/124] fix: refuse color images in CUDA SetPixel

---
 src/cuda/image_function_cuda.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index 2928a3b..a0f5aa2 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -1124,6 +1124,7 @@ namespace Image_Function_Cuda
     void SetPixel( Image & image, uint32_t x, uint32_t y, uint8_t value )
     {
         Image_Function::ValidateImageParameters( image );
+        Image_Function::VerifyGrayScaleImage( image );
 
         if ( x >= image.width() || y >= image.height() )
             throw penguinVException( "Bad input parameters in image function" );
@@ -1135,6 +1136,7 @@ namespace Image_Function_Cuda
     void SetPixel( Image & image, const std::vector<uint32_t> & X, const std::vector<uint32_t> & Y, uint8_t value )
     {
         Image_Function::ValidateImageParameters( image );
+        Image_Function::VerifyGrayScaleImage( image );
 
         if ( X.size() != Y.size() )
             throw penguinVException( "Bad input parameters in image function" );
-- 
2.43.0


From 5d92b45c54940aa9df0acc2fd9e0a01de89f7876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:19 +0000
Subject: [PATCH 111/124] fix: copy empty arrays of CUDA device

---
 src/cuda/cuda_types.cuh | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/cuda/cuda_types.cuh b/src/cuda/cuda_types.cuh
index 2acb783..4ab2c7d 100644
--- a/src/cuda/cuda_types.cuh
+++ b/src/cuda/cuda_types.cuh
@@ -293,9 +293,6 @@ namespace multiCuda
                 if( error != cudaSuccess )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
-            else {
-                throw penguinVException( "Memory in CUDA device is not allocated" );
-            }
         }
 
         void _swap( Array & in )
-- 
2.43.0


From 6d759ac7a6a2ab752ae9c918e92c666c80f3604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:19 +0000
Subject: [PATCH 112/124] fix: keep the size of a CUDA array consistent when
 memory cannot be allocated

---
 src/cuda/cuda_types.cuh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cuda/cuda_types.cuh b/src/cuda/cuda_types.cuh
index 4ab2c7d..dd26c2c 100644
--- a/src/cuda/cuda_types.cuh
+++ b/src/cuda/cuda_types.cuh
@@ -276,6 +276,7 @@ namespace multiCuda
         {
             if( _size != size ) {
                 _free();
+                _size = 0;
 
                 if( size != 0 )
                     _data = MemoryManager::memory().allocate<TData>( size );
-- 
2.43.0


From c2bb2b7b578e7ef1486913f896cbfdd11e7d94b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:06 +0000
Subject: [PATCH 113/124] fix: verify a position before its conversion to
 integers in CUDA Rotate

---
 src/cuda/image_function_cuda.cu | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index a0f5aa2..066b68b 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -313,17 +313,17 @@ namespace
             const float exactInX = inXStart + cosAngle * outX + sinAngle * outY;
             const float exactInY = inYStart - sinAngle * outX + cosAngle * outY;
 
-            const int32_t inX = static_cast<int32_t>(exactInX);
-            const int32_t inY = static_cast<int32_t>(exactInY);
-
             // Shift to the output pixel
             out = out + outY * rowSizeOut + outX;
 
             // Note that we will be taking an average with next pixels, so next pixels need to be in the image too
-            if ( inX < 0 || inX >= width - 1 || inY < 0 || inY >= height - 1 ) {
+            if ( exactInX < 0 || exactInX >= width - 1 || exactInY < 0 || exactInY >= height - 1 ) {
                 *out = 0; // We do not actually know what is beyond the image, so set value to 0
             }
             else {
+                const uint32_t inX = static_cast<uint32_t>(exactInX);
+                const uint32_t inY = static_cast<uint32_t>(exactInY);
+
                 // Shift to the input pixel
                 in = in + inY * rowSizeIn + inX;
 
-- 
2.43.0


From a5b0183380270e16aa8b04a22ceec66dd324fd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:45 +0000
Subject: [PATCH 114/124] fix: fill CUDA images which have more than one byte
 per a value correctly

---
 src/cuda/image_buffer_cuda.cuh | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cuda/image_buffer_cuda.cuh b/src/cuda/image_buffer_cuda.cuh
index b3cc49c..004c716 100644
--- a/src/cuda/image_buffer_cuda.cuh
+++ b/src/cuda/image_buffer_cuda.cuh
@@ -20,6 +20,7 @@
 
 #pragma once
 
+#include <vector>
 #include "../image_buffer.h"
 #include "cuda_device.cuh"
 
@@ -80,7 +81,17 @@ namespace penguinV
 
         static void _setMemory( TColorDepth * data, TColorDepth value, size_t size )
         {
-            cudaError_t error = cudaMemset( data, value, size );
+            cudaError_t error = cudaSuccess;
+
+            if( sizeof( TColorDepth ) == 1u ) {
+                error = cudaMemset( data, value, size );
+            }
+            else {
+                // CUDA can only set bytes
+                const std::vector<TColorDepth> values( size / sizeof( TColorDepth ), value );
+                error = cudaMemcpy( data, values.data(), size, cudaMemcpyHostToDevice );
+            }
+
             if( error != cudaSuccess )
                 throw penguinVException( "Cannot fill a memory for CUDA device" );
         }
-- 
2.43.0


From 976ed6702211759a18c7c4713704398eddca10c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 115/124] fix: keep the active CUDA device when another device
 is closed

---
 src/cuda/cuda_device.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuda/cuda_device.cu b/src/cuda/cuda_device.cu
index 456a8c0..3f42812 100644
--- a/src/cuda/cuda_device.cu
+++ b/src/cuda/cuda_device.cu
@@ -122,7 +122,8 @@ namespace multiCuda
 
     CudaDevice::~CudaDevice()
     {
-        setActive();
+        DeviceAutoRestorer restorer( _deviceId );
+
         delete _allocator;
 
         for( std::vector< CudaStream * >::iterator streamId = _stream.begin(); streamId != _stream.end(); ++streamId )
-- 
2.43.0


From 570670e4909a37045d1e8f4b5dc323dbe6a7127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 116/124] fix: create CUDA streams and synchronize on their own
 device

---
 src/cuda/cuda_device.cu | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cuda/cuda_device.cu b/src/cuda/cuda_device.cu
index 3f42812..9f6403c 100644
--- a/src/cuda/cuda_device.cu
+++ b/src/cuda/cuda_device.cu
@@ -200,6 +200,8 @@ namespace multiCuda
 
     void CudaDevice::synchronize()
     {
+        DeviceAutoRestorer restorer( _deviceId );
+
         cudaCheck( cudaDeviceSynchronize() );
     }
 
@@ -242,6 +244,8 @@ namespace multiCuda
     void CudaDevice::setStreamCount( size_t streamCount )
     {
         if( streamCount != _stream.size() ) {
+            DeviceAutoRestorer restorer( _deviceId );
+
             if( streamCount > _stream.size() ) {
                 while( streamCount != _stream.size() )
                     _stream.push_back( new CudaStream() );
-- 
2.43.0


From caa0332dba892fecb9439c9febd1a50a17f723f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:27 +0000
Subject: [PATCH 117/124] fix: release the image of X11 window

---
 src/ui/x11/x11_ui.cpp | 13 +++++++++++++
 src/ui/x11/x11_ui.h   |  1 +
 2 files changed, 14 insertions(+)

diff --git a/src/ui/x11/x11_ui.cpp b/src/ui/x11/x11_ui.cpp
index aaf1fd5..aaaf985 100644
--- a/src/ui/x11/x11_ui.cpp
+++ b/src/ui/x11/x11_ui.cpp
@@ -23,6 +23,7 @@
 #ifndef _WIN32 // Not for Windows
 
 #include "../../penguinv_exception.h"
+#include <X11/Xutil.h>
 
 UiWindowX11::UiWindowX11( const penguinV::Image & image, const std::string & title )
     : UiWindow( image, title )
@@ -53,6 +54,8 @@ UiWindowX11::UiWindowX11( const penguinV::Image & image, const std::string & tit
 
 UiWindowX11::~UiWindowX11()
 {
+    _freeImage();
+
     XDestroyWindow( _uiDisplay, _window );
     XCloseDisplay( _uiDisplay );
 }
@@ -127,6 +130,16 @@ void UiWindowX11::_setupImage( const penguinV::Image & image )
                            _data.data(), _width, _height, 32, 0 );
 }
 
+void UiWindowX11::_freeImage()
+{
+    if ( _image == nullptr )
+        return;
+
+    _image->data = nullptr; // memory of pixels is not owned by X11 image
+    XDestroyImage( _image );
+    _image = nullptr;
+}
+
 void UiWindowX11::drawPoint( const Point2d & point, const PaintColor & color )
 {
     _point.push_back( std::make_pair( point, ( color.red << 16 ) + ( color.green << 8 ) + color.blue ) );
diff --git a/src/ui/x11/x11_ui.h b/src/ui/x11/x11_ui.h
index dfee3c1..4427739 100644
--- a/src/ui/x11/x11_ui.h
+++ b/src/ui/x11/x11_ui.h
@@ -51,6 +51,7 @@ private:
     std::vector<std::pair<Point2d, uint32_t>> _point;
 
     void _setupImage( const penguinV::Image & image );
+    void _freeImage();
 };
 
 #endif
-- 
2.43.0


From 192a95bc8472a4dfaa59d524e71f11dc71da4284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:04 +0000
Subject: [PATCH 118/124] fix: refuse images which cannot be shown before X11
 display is open

---
 src/ui/x11/x11_ui.cpp | 10 ++++++++--
 src/ui/x11/x11_ui.h   |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ui/x11/x11_ui.cpp b/src/ui/x11/x11_ui.cpp
index aaaf985..c7a1557 100644
--- a/src/ui/x11/x11_ui.cpp
+++ b/src/ui/x11/x11_ui.cpp
@@ -35,6 +35,8 @@ UiWindowX11::UiWindowX11( const penguinV::Image & image, const std::string & tit
     , _width( image.width() )
     , _height( image.height() )
 {
+    _verifyImage( image );
+
     _uiDisplay = XOpenDisplay( NULL );
     if ( _uiDisplay == nullptr )
         throw penguinVException( "Cannot create window for display" );
@@ -84,6 +86,12 @@ void UiWindowX11::_display()
     }
 }
 
+void UiWindowX11::_verifyImage( const penguinV::Image & image )
+{
+    if ( !image.empty() && image.colorCount() != penguinV::GRAY_SCALE && image.colorCount() != penguinV::RGB )
+        throw penguinVException( "Color image has different than 3 color channels." );
+}
+
 void UiWindowX11::_setupImage( const penguinV::Image & image )
 {
     if ( image.empty() )
@@ -110,8 +118,6 @@ void UiWindowX11::_setupImage( const penguinV::Image & image )
         }
     }
     else {
-        if ( image.colorCount() != penguinV::RGB )
-            throw penguinVException( "Color image has different than 3 color channels." );
         for ( ; imageY != imageYEnd; imageY += rowSize ) {
             const uint8_t * imageX = imageY;
             const uint8_t * imageXEnd = imageX + _width * 3u;
diff --git a/src/ui/x11/x11_ui.h b/src/ui/x11/x11_ui.h
index 4427739..23b3d41 100644
--- a/src/ui/x11/x11_ui.h
+++ b/src/ui/x11/x11_ui.h
@@ -50,6 +50,7 @@ private:
 
     std::vector<std::pair<Point2d, uint32_t>> _point;
 
+    static void _verifyImage( const penguinV::Image & image );
     void _setupImage( const penguinV::Image & image );
     void _freeImage();
 };
-- 
2.43.0


From d5851abc1b2148f62d7c11a93c409564d22b5336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:04 +0000
Subject: [PATCH 119/124] fix: create X11 window for an empty image

---
 src/ui/x11/x11_ui.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ui/x11/x11_ui.cpp b/src/ui/x11/x11_ui.cpp
index c7a1557..bd87853 100644
--- a/src/ui/x11/x11_ui.cpp
+++ b/src/ui/x11/x11_ui.cpp
@@ -25,6 +25,15 @@
 #include "../../penguinv_exception.h"
 #include <X11/Xutil.h>
 
+namespace
+{
+    // X11 does not allow windows without an area
+    uint32_t _windowSize( uint32_t imageSize )
+    {
+        return imageSize > 0u ? imageSize : 1u;
+    }
+}
+
 UiWindowX11::UiWindowX11( const penguinV::Image & image, const std::string & title )
     : UiWindow( image, title )
     , _uiDisplay( nullptr )
@@ -41,7 +50,7 @@ UiWindowX11::UiWindowX11( const penguinV::Image & image, const std::string & tit
     if ( _uiDisplay == nullptr )
         throw penguinVException( "Cannot create window for display" );
 
-    _window = XCreateSimpleWindow( _uiDisplay, RootWindow( _uiDisplay, _screen ), 10, 10, _width, _height, 1, BlackPixel( _uiDisplay, _screen ),
+    _window = XCreateSimpleWindow( _uiDisplay, RootWindow( _uiDisplay, _screen ), 10, 10, _windowSize( _width ), _windowSize( _height ), 1, BlackPixel( _uiDisplay, _screen ),
                                    WhitePixel( _uiDisplay, _screen ) );
     XSelectInput( _uiDisplay, _window, ExposureMask | KeyPressMask );
     XMapWindow( _uiDisplay, _window );
@@ -72,7 +81,8 @@ void UiWindowX11::_display()
         XNextEvent( _uiDisplay, &e );
         if ( e.type == Expose ) {
             GC defaultGC = DefaultGC( _uiDisplay, _screen );
-            XPutImage( _uiDisplay, _window, defaultGC, _image, 0, 0, 0, 0, _width, _height );
+            if ( _image != nullptr )
+                XPutImage( _uiDisplay, _window, defaultGC, _image, 0, 0, 0, 0, _width, _height );
 
             for ( size_t i = 0u; i < _point.size(); ++i ) {
                 const Point2d & point = _point[i].first;
-- 
2.43.0


From 929c8bca3ee4a23bfb6e1ed1f0fe7fcfe328528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:04 +0000
Subject: [PATCH 120/124] fix: show a new image in X11 window

---
 src/ui/x11/x11_ui.cpp | 16 ++++++++++++++++
 src/ui/x11/x11_ui.h   |  1 +
 2 files changed, 17 insertions(+)

diff --git a/src/ui/x11/x11_ui.cpp b/src/ui/x11/x11_ui.cpp
index bd87853..cbb9c4d 100644
--- a/src/ui/x11/x11_ui.cpp
+++ b/src/ui/x11/x11_ui.cpp
@@ -71,6 +71,22 @@ UiWindowX11::~UiWindowX11()
     XCloseDisplay( _uiDisplay );
 }
 
+void UiWindowX11::setImage( const penguinV::Image & image )
+{
+    _verifyImage( image );
+
+    _freeImage();
+
+    _width = image.width();
+    _height = image.height();
+
+    XResizeWindow( _uiDisplay, _window, _windowSize( _width ), _windowSize( _height ) );
+    _setupImage( image );
+    XClearArea( _uiDisplay, _window, 0, 0, 0u, 0u, True ); // force an expose event
+
+    UiWindow::setImage( image );
+}
+
 void UiWindowX11::_display()
 {
     if ( !_shown ) // we don't need to display anything
diff --git a/src/ui/x11/x11_ui.h b/src/ui/x11/x11_ui.h
index 23b3d41..4040cb4 100644
--- a/src/ui/x11/x11_ui.h
+++ b/src/ui/x11/x11_ui.h
@@ -33,6 +33,7 @@ public:
     explicit UiWindowX11( const penguinV::Image & image = penguinV::Image(), const std::string & title = std::string() );
     virtual ~UiWindowX11();
 
+    virtual void setImage( const penguinV::Image & image );
     virtual void drawPoint( const Point2d & point, const PaintColor & color );
 
 protected:
-- 
2.43.0


From 6984c91f9b1a92e077928a3ecbf10f332a5aadc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:34 +0000
Subject: [PATCH 121/124] fix: NEON code uses the parameters it has, so that it
 compiles

---
 src/image_function_simd.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index b66653a..3266dcf 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -1829,7 +1829,7 @@ namespace neon
 
         for ( ; imageY != imageYEnd; imageY += rowSize, outY += width ) {
             const uint8_t * src = imageY;
-            const uint8_t * srcEnd = src + simdWidth * sizeof( simd );
+            const uint8_t * srcEnd = src + totalSimdWidth;
             uint32_t * dst = outY;
 
             for ( ; src != srcEnd; src += simdSize ) {
@@ -1943,7 +1943,7 @@ namespace neon
         for ( ; outY != outYEnd; outY += rowSizeOut, inY += rowSizeIn ) {
             const uint8_t * src = inY;
             uint16_t * dst = outY;
-            const uint8_t * srcEnd = src + simdWidth * sizeof( simd );
+            const uint8_t * srcEnd = src + totalSimdWidth;
 
             for ( ; src != srcEnd; src += 8, dst += 8 ) {
                 vst1q_u16( dst, vshll_n_u8( vld1_u8( src ), 8 ) );
@@ -2225,7 +2225,7 @@ namespace neon
 
             for ( ; imageStart != imageYEnd; imageStart += rowSize, ++out ) {
                 const uint8_t * src = imageStart;
-                const uint8_t * srcEnd = src + simdWidth * sizeof( simd );
+                const uint8_t * srcEnd = src + totalSimdWidth;
                 uint32x4_t simdSum = vdupq_n_u32( 0 );
 
                 for ( ; src != srcEnd; src += simdSize ) {
@@ -2320,7 +2320,7 @@ namespace neon
 
         for ( ; imageY != imageYEnd; imageY += rowSize ) {
             const uint8_t * src = imageY;
-            const uint8_t * srcEnd = src + simdWidth * sizeof( simd );
+            const uint8_t * srcEnd = src + totalSimdWidth;
 
             for ( ; src != srcEnd; src += simdSize ) {
                 const uint8x16_t data = vld1q_u8( src );
@@ -2354,7 +2354,7 @@ namespace neon
             const uint8_t * src = inY;
             uint8_t * dst = outY;
 
-            const uint8_t * srcEnd = src + simdWidth * sizeof( simd );
+            const uint8_t * srcEnd = src + totalSimdWidth;
 
             for ( ; src != srcEnd; src += simdSize, dst += simdSize )
                 vst1q_u8( dst, vcgeq_u8( vld1q_u8( src ), compare ) );
@@ -2386,7 +2386,7 @@ namespace neon
             const uint8_t * src = inY;
             uint8_t * dst = outY;
 
-            const uint8_t * srcEnd = src + simdWidth * sizeof( simd );
+            const uint8_t * srcEnd = src + totalSimdWidth;
 
             for ( ; src != srcEnd; src += simdSize, dst += simdSize ) {
                 const simd data = vld1q_u8( src );
-- 
2.43.0


From 721f74315464c3c18ba7f0a31448faa68a784cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:31 +0000
Subject: [PATCH 122/124] fix: NEON ProjectionProfile adds up all 16 columns

---
 src/image_function_simd.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 3266dcf..9fdb16a 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2187,11 +2187,12 @@ namespace neon
                     const uint8x16_t data = vld1q_u8( src );
 
                     const uint16x8_t dataLo = vaddl_u8( vget_low_u8( data ), zero );
+                    const uint16x8_t dataHi = vaddl_u8( vget_high_u8( data ), zero );
 
                     const uint32x4_t data_1 = vaddl_u16( vget_low_u16( dataLo ), zero_16 );
                     const uint32x4_t data_2 = vaddl_u16( vget_high_u16( dataLo ), zero_16 );
-                    const uint32x4_t data_3 = vaddl_u16( vget_low_u16( dataLo ), zero_16 );
-                    const uint32x4_t data_4 = vaddl_u16( vget_high_u16( dataLo ), zero_16 );
+                    const uint32x4_t data_3 = vaddl_u16( vget_low_u16( dataHi ), zero_16 );
+                    const uint32x4_t data_4 = vaddl_u16( vget_high_u16( dataHi ), zero_16 );
 
                     simdSum_1 = vaddq_u32( simdSum_1, data_1 );
                     simdSum_2 = vaddq_u32( simdSum_2, data_2 );
-- 
2.43.0


From b33a5743bc7be5aa829d1f89ae7366d517ffcdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:10 +0000
Subject: [PATCH 123/124] fix: NEON ConvertToRgb stops at the end of a row

---
 src/image_function_simd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 9fdb16a..a388566 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2000,7 +2000,7 @@ namespace neon
             const uint8_t * src = inY;
             uint8_t * dst = outY;
 
-            const uint8_t * srcEnd = src + simdWidth * sizeof( simd );
+            const uint8_t * srcEnd = src + totalSimdWidth;
 
             for ( ; src != srcEnd; src += simdSize ) {
                 const uint8x8_t src1 = vld1_u8( src );
-- 
2.43.0


From c4d0b240218407849a014880eefc130dc0bf7543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:07 +0000
Subject: [PATCH 124/124] fix: use scalar versions of ConvertToRgb, Flip and
 RgbToBgr when SSSE3 is not there

---
 src/image_function_simd.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index a388566..7f7539b 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2758,6 +2758,11 @@ namespace simd
     void ConvertToRgb( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                        SIMDType simdType )
     {
+#ifndef PENGUINV_SSSE3_SET
+        if ( simdType == sse_function ) // SSE versions of this function need SSSE3 instructions
+            simdType = cpu_function;
+#endif
+
         uint32_t simdSize = getSimdSize( simdType );
         if ( simdType == neon_function ) // for neon, because the algorithm used work with packet of 64 bit
             simdSize = 8u;
@@ -2804,6 +2809,11 @@ namespace simd
     void Flip( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                bool horizontal, bool vertical, SIMDType simdType )
     {
+#ifndef PENGUINV_SSSE3_SET
+        if ( simdType == sse_function ) // SSE versions of this function need SSSE3 instructions
+            simdType = cpu_function;
+#endif
+
         uint32_t simdSize = getSimdSize( simdType );
 
         if ( simdType == neon_function ) // for neon, because the algorithm used work with packet of 64 bit
@@ -2998,6 +3008,11 @@ namespace simd
     void RgbToBgr( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                    SIMDType simdType )
     {
+#ifndef PENGUINV_SSSE3_SET
+        if ( simdType == sse_function ) // SSE versions of this function need SSSE3 instructions
+            simdType = cpu_function;
+#endif
+
         uint32_t simdSize = getSimdSize( simdType );
 
         if ( simdType == neon_function ) // for neon, because the algorithm used work with packet of 64 bit
-- 
2.43.0

