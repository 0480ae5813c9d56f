From 6a6c8e96f3617f71dd083cd5305b87bcb5940932 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 01/50] fix: reflect and wrap borders valid for coordinates
 further than one image away

ImageBorderReflect and ImageBorderWrap only adjusted coordinates within one
image width/height of the border (and reflect was wrong for one pixel wide
images), so a kernel larger than the image read outside of the image.
---
 boofcpp/src/boofcv/image_border.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/boofcpp/src/boofcv/image_border.h b/boofcpp/src/boofcv/image_border.h
index ffc2a20..46a438c 100644
--- a/boofcpp/src/boofcv/image_border.h
+++ b/boofcpp/src/boofcv/image_border.h
@@ -98,10 +98,18 @@ namespace boofcv {
     class ImageBorderReflect : public ImageBorderIndex<E> {
     public:
         void adjust( int32_t& x , const uint32_t& max_value ) const override {
+            const int32_t n = static_cast<int32_t>(max_value);
+            if( n == 1 ) {
+                x = 0;
+                return;
+            }
+            // the reflected image is periodic. Handles coordinates which are more than one image away from the border
+            const int32_t period = 2*(n-1);
+            x %= period;
             if( x < 0 )
-                x = -x;
-            else if( x >= max_value)
-                x = max_value-2-(x-max_value);
+                x += period;
+            if( x >= n )
+                x = period-x;
         }
     };
 
@@ -112,10 +120,10 @@ namespace boofcv {
     class ImageBorderWrap : public ImageBorderIndex<E> {
     public:
         void adjust( int32_t& x , const uint32_t& max_value ) const override {
+            const int32_t n = static_cast<int32_t>(max_value);
+            x %= n;
             if( x < 0 )
-                x = max_value+x;
-            else if( x >= max_value)
-                x = x-max_value;
+                x += n;
         }
     };
 
-- 
2.43.0


From d755ca276adb4935f2ff95a01df41e0e9de55dfe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:35 +0000
Subject: [PATCH 02/50] fix: naive vertical normalised convolution truncated
 kernel weights to the pixel type

Weights above 255 (U8) or negative weights were truncated, giving a wrong
average when the kernel is larger than the image.
---
 boofcpp/src/boofcv/convolve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/convolve.h b/boofcpp/src/boofcv/convolve.h
index 0fb81e3..a6e58ca 100644
--- a/boofcpp/src/boofcv/convolve.h
+++ b/boofcpp/src/boofcv/convolve.h
@@ -307,7 +307,7 @@ namespace boofcv {
                     signed_type weight = 0;
 
                     for( int32_t i = startY; i < endY; i++ ) {
-                        E v = kernel.at(i-y+kernel.offset);
+                        signed_type v = kernel.at(i-y+kernel.offset);
                         total += input.unsafe_at(x,i)*v;
                         weight += v;
                     }
-- 
2.43.0


From d6958c9e9b2250d107fe82d6a0a43d649534d6d6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 03/50] fix: vertical mean blur compared the kernel with the
 image's width

For an image wider than the kernel but shorter than it the optimised code was
run and accessed pixels outside of the image.
---
 boofcpp/src/boofcv/image_blur.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_blur.h b/boofcpp/src/boofcv/image_blur.h
index c16709c..3e53c57 100644
--- a/boofcpp/src/boofcv/image_blur.h
+++ b/boofcpp/src/boofcv/image_blur.h
@@ -194,7 +194,7 @@ namespace boofcv {
             typedef typename TypeInfo<E>::signed_type signed_type;
 
             Kernel1D<signed_type> kernel = FactoryKernel::mean1D<signed_type>(radius*2+1);
-            if( kernel.width > input.width ) {
+            if( kernel.width > input.height ) {
                 ConvolveNormalized::vertical(kernel,input,output);
             } else {
                 ConvolveNormalized_JustBorder::vertical(kernel, input ,output );
-- 
2.43.0


From 7a3f42ad5b6f7f164076eab344ff07f6be88ec2e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 04/50] fix: vertical mean blur kept a row of sums on the
 stack, overflowing it for very wide images

---
 boofcpp/src/boofcv/image_blur.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_blur.h b/boofcpp/src/boofcv/image_blur.h
index 3e53c57..760646e 100644
--- a/boofcpp/src/boofcv/image_blur.h
+++ b/boofcpp/src/boofcv/image_blur.h
@@ -4,6 +4,7 @@
 #include "convolve.h"
 #include "sanity_checks.h"
 #include <math.h>
+#include <vector>
 
 namespace boofcv {
     /**
@@ -94,7 +95,7 @@ namespace boofcv {
 
             sum_type divisor = kernelWidth;
             sum_type halfDivisor = divisor/2;
-            sum_type totals[ input.width ];
+            std::vector<sum_type> totals(input.width);
 
             for( uint32_t x = 0; x < input.width; x++ ) {
                 uint32_t indexIn = input.offset + x;
@@ -137,7 +138,7 @@ namespace boofcv {
             uint32_t backStep = kernelWidth*input.stride;
 
             sum_type divisor = kernelWidth;
-            sum_type totals[ input.width ];
+            std::vector<sum_type> totals(input.width);
 
             for( uint32_t x = 0; x < input.width; x++ ) {
                 uint32_t indexIn = input.offset + x;
-- 
2.43.0


From 9fb56ee18c14ce53930e1ff2b47078c59a8da56e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 05/50] fix: normalising a 2D kernel only scaled its first row

---
 boofcpp/src/boofcv/convolve_kernels.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 122045c..4c8f511 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -259,7 +259,7 @@ namespace boofcv {
 
             typename Kernel1D<E>::sum_type sum = kernel.sum();
 
-            for( uint32_t i = 0; i < kernel.width; i++ ) {
+            for( uint32_t i = 0; i < kernel.data.size; i++ ) {
                 kernel.data[i] /= sum;
             }
         }
-- 
2.43.0


From 8998d4a21096c3de561568bf5522c61555c8e055 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 06/50] fix: 2D Gaussian kernel when its width is derived from
 sigma

---
 boofcpp/src/boofcv/convolve_kernels.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 4c8f511..7bc75c6 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -333,7 +333,9 @@ namespace boofcv {
                                       typename std::enable_if<std::is_floating_point<E>::value>::type* = 0 )
         {
             Kernel1D<E> seed = gaussian1D<E>(sigma,width);
-            Kernel2D<E> output(width,width/2);
+            // width of the seed, since the requested width is <= 0 when it's derived from sigma
+            width = (int32_t)seed.width;
+            Kernel2D<E> output(seed.width,seed.offset);
 
             for( int i = 0; i < width; i++ ) {
                 for( int j = 0; j < width; j++ ) {
-- 
2.43.0


From 2d4e0c88d3b9ff15e12d1eae5df4117a5034b221 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:41 +0000
Subject: [PATCH 07/50] fix: Otsu threshold of an image ignored the minimum
 pixel value

---
 boofcpp/src/boofcv/binary_ops.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/binary_ops.h b/boofcpp/src/boofcv/binary_ops.h
index 5ecf40d..224f171 100644
--- a/boofcpp/src/boofcv/binary_ops.h
+++ b/boofcpp/src/boofcv/binary_ops.h
@@ -109,7 +109,7 @@ namespace boofcv
          * @return Selected threshold.
          */
         template<class T>
-        static uint32_t computeOtsu( const Gray<T>& input , T min_value , T max_value , bool otsu2=false ) {
+        static T computeOtsu( const Gray<T>& input , T min_value , T max_value , bool otsu2=false ) {
 
             auto range = static_cast<uint32_t>(1+max_value - min_value);
             GrowArray<uint32_t> histogram(range);
@@ -119,7 +119,8 @@ namespace boofcv
             // this should configure so that all the really fancy stuff has been turned off
             ComputeOtsu otsu(otsu2,0,true,1.0);
             otsu.compute(histogram, input.total_pixels());
-            return (uint32_t)otsu.threshold;
+            // the histogram's first bin is min_value
+            return static_cast<T>(min_value + otsu.threshold);
         }
 
         /**
-- 
2.43.0


From de0662a49e13d2f4520a10273a5ff8ff9fba49a2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:41 +0000
Subject: [PATCH 08/50] fix: Otsu adjustment overflowed an int when the
 variance is small

---
 boofcpp/src/boofcv/binary_ops.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/binary_ops.cpp b/boofcpp/src/boofcv/binary_ops.cpp
index 87929f8..364c7f8 100644
--- a/boofcpp/src/boofcv/binary_ops.cpp
+++ b/boofcpp/src/boofcv/binary_ops.cpp
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <cmath>
 
 #include "binary_ops.h"
 #include "sanity_checks.h"
@@ -104,9 +105,10 @@ void boofcv::ComputeOtsu::compute(const GrowArray<uint32_t>&histogram , uint32_t
     // apply optional penalty to low texture regions
     variance += 0.001; // avoid divide by zero
     // multiply by threshold twice in an effort to have the image's scaling not effect the tuning parameter
-    int adjustment =  (int)(tuning*threshold*tuning*threshold/variance+0.5);
+    // the adjustment can be too large for an int when there is little variance
+    double adjustment = std::floor(tuning*threshold*tuning*threshold/variance+0.5);
     threshold += down ? -adjustment : adjustment;
-    threshold = (int)(scale*std::max(threshold,0.0)+0.5);
+    threshold = std::floor(scale*std::max(threshold,0.0)+0.5);
 }
 
 void boofcv::ComputeOtsu::computeOtsu(const GrowArray<uint32_t>& histogram , uint32_t totalPixels ) {
-- 
2.43.0


From a0f0e3c7a230ef44a4e4fa0074c7f8ec562f6aa7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 09/50] fix: block mean threshold of blocks with a negative sum

---
 boofcpp/src/boofcv/threshold_block_filters.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index d3d7655..d3ff232 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -228,7 +228,8 @@ namespace boofcv
                     sum += this->stats.unsafe_at(x,y,0);
                 }
             }
-            E mean = sum/((blockY1-blockY0+1)*(blockX1-blockX0+1));
+            // the count is cast so that a negative sum isn't divided as if it was unsigned
+            E mean = sum/static_cast<typename TypeInfo<E>::sum_type>((blockY1-blockY0+1)*(blockX1-blockX0+1));
 
             // apply threshold
             for (uint32_t y = y0; y < y1; y++) {
-- 
2.43.0


From e1826d79eb502c2f9161e4344b5055622f2a365c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 10/50] fix: block min-max threshold of floating point images
 with only negative values

---
 boofcpp/src/boofcv/threshold_block_filters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index d3ff232..a3ba75e 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -445,7 +445,7 @@ namespace boofcv
 
             // find the min and max pixel values inside this block region
             E min = std::numeric_limits<E>::max();
-            E max = std::numeric_limits<E>::min();
+            E max = std::numeric_limits<E>::lowest();
 
             for (uint32_t y = blockY0; y <= blockY1; y++) {
                 for (uint32_t x = blockX0; x <= blockX1; x++) {
-- 
2.43.0


From 3786b79696b409b51b80e77dd470a6f20a32af36 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 11/50] fix: a negative minimum spread did not disable the
 texture test for unsigned images

---
 boofcpp/src/boofcv/threshold_block_filters.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index a3ba75e..cf0452e 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -460,13 +460,14 @@ namespace boofcv
             }
 
             // apply threshold
-            auto textureThreshold = static_cast<sum_type>(this->minimumSpread);
+            // compared as floating point since a minimum spread of -1, which disables it, can't be an unsigned sum_type
+            const bool textureless = static_cast<double>(max)-min <= this->minimumSpread;
             for (uint32_t y = y0; y < y1; y++) {
                 E* input_ptr = &input.data[input.offset + y*input.stride + x0];
                 U8* output_ptr = &output.data[output.offset + y*output.stride + x0];
 
                 for (uint32_t i = x1-x0; i ; i-- ) {
-                    if( max-min <= textureThreshold ) {
+                    if( textureless ) {
                         *output_ptr++ = 1;
                         input_ptr++;
                     } else {
-- 
2.43.0


From a52a19671bc3a8580d2b5aa3ea14b337145a1e4a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 12/50] fix: copy constructed arrays and kernels shared storage
 that both of them freed

---
 boofcpp/src/boofcv/base_types.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index 76c5965..a17421c 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -97,6 +97,15 @@ namespace boofcv {
 
         }
 
+        /**
+         * Copies the elements. The copy always owns its storage, even if 'other' is a wrapper around an array.
+         */
+        GrowArray( const GrowArray<T>& other ) : GrowArray(other.size) {
+            this->default_value = other.default_value;
+            if( other.size > 0 )
+                std::memcpy(this->data,other.data,sizeof(T)*other.size);
+        }
+
         GrowArray(std::initializer_list<T> l ){
             this->size = this->array_length = (uint32_t)l.size();
             this->can_resize = true;
-- 
2.43.0


From 5769659765624a83d9dc8ee7f3683af0b34abc33 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 13/50] fix: new and filled array elements did not have the
 requested value

memset() was used for element types larger than a byte, and growing within the
allocated length left old elements in place of the default value.
---
 boofcpp/src/boofcv/base_types.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index a17421c..ca39683 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -136,7 +136,9 @@ namespace boofcv {
                 delete []this->data;
                 this->data = new T[new_size];
                 this->array_length = new_size;
-                memset(data,default_value,new_size);
+                for( uint32_t i = 0; i < new_size; i++ ) {
+                    this->data[i] = default_value;
+                }
             }
             this->size = 0;
         }
@@ -152,16 +154,20 @@ namespace boofcv {
             if( new_size > array_length ) {
                 auto *tmp = new T[new_size];
                 memmove(tmp,this->data,sizeof(T)*this->size);
-                memset(&tmp[this->size],default_value,sizeof(T)*(new_size-this->size));
                 delete []this->data;
                 this->data = tmp;
                 this->array_length = new_size;
             }
+            for( uint32_t i = this->size; i < new_size; i++ ) {
+                this->data[i] = default_value;
+            }
             this->size = new_size;
         }
 
         void fill( T value ) {
-            std::memset(this->data,value,this->size*sizeof(T));
+            for( uint32_t i = 0; i < this->size; i++ ) {
+                this->data[i] = value;
+            }
         }
 
         T& at( uint32_t index ) const {
-- 
2.43.0


From 1536bf30f045ba231539c5d275e63fec5c466ded Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 14/50] fix: refused assignment to a wrapped array changed its
 default value

---
 boofcpp/src/boofcv/base_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index ca39683..089fc4d 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -183,8 +183,8 @@ namespace boofcv {
         GrowArray<T>& operator=(const GrowArray<T>& other) // copy assignment
         {
             if (this != &other) { // self-assignment check expected
-                this->default_value = other.default_value;
                 this->grow_array(other.size);
+                this->default_value = other.default_value;
                 this->size = other.size;
                 std::memcpy(this->data,other.data,sizeof(T)*other.size);
             }
-- 
2.43.0


From eceaa1fcef544db38b0987139b1268737f80e8c4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 15/50] fix: getHeight() of an image returned its width

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index ddf14b8..1ca6cd3 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -44,7 +44,7 @@ namespace boofcv {
         }
 
         uint32_t getHeight() const {
-            return width;
+            return height;
         }
 
         /**
-- 
2.43.0


From d6b0713afb4089b58d4290859c725603dcb947f8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 16/50] fix: memory leaked when the rows used to initialise an
 image have different lengths

---
 boofcpp/src/boofcv/image_types.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 1ca6cd3..ad5ffa8 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -115,6 +115,11 @@ namespace boofcv {
             } else {
                 this->width = static_cast<uint32_t >(l.begin()->size());
             }
+            for (auto& x : l ) {
+                if( x.size() != this->width ) {
+                    throw invalid_argument("width missmatch");
+                }
+            }
             this->data = new T[this->width*this->height]();
             this->data_length = this->width*this->height;
             this->offset = 0;
@@ -123,9 +128,6 @@ namespace boofcv {
             
             T* ptr = this->data;
             for (auto& x : l ) {
-                if( x.size() != this->width ) {
-                    throw invalid_argument("width missmatch");
-                }
                 for(auto& y : x ) {
                     *ptr++ = y;
                 }
-- 
2.43.0


From ef8c205dcc7e5f7117a4e3826c7da867638b6ae5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 17/50] fix: copy constructed gray images freed the same
 pixels, assigning a sub-image leaked the replaced pixels

---
 boofcpp/src/boofcv/image_types.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index ad5ffa8..c539a49 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -3,6 +3,7 @@
 
 #include <cstdint>
 #include <cstring>
+#include <utility>
 #include <exception>
 #include <stdexcept>
 #include <vector>
@@ -137,6 +138,14 @@ namespace boofcv {
         Gray() : Gray(0,0) {
         }
 
+        /**
+         * Same behavior as assignment. The copy of a sub-image is a sub-image of the same image. Otherwise the
+         * pixels are copied.
+         */
+        Gray( const Gray<T>& other ) : Gray(0,0) {
+            *this = other;
+        }
+
         ~Gray() {
             if( !this->subimage ) {
                 delete[]this->data;
@@ -202,7 +211,19 @@ namespace boofcv {
         Gray<T>& operator=(const Gray<T>& other) // copy assignment
         {
             if (this != &other) { // self-assignment check expected
-                if( other.subimage ) {
+                if( other.subimage && !this->subimage && this->data == other.data ) {
+                    // cropping itself. It needs to keep on owning its data
+                    Gray<T> crop(other.width,other.height);
+                    crop.copy(other);
+                    std::swap(this->data,crop.data);
+                    std::swap(this->data_length,crop.data_length);
+                    this->width = other.width;
+                    this->height = other.height;
+                    this->stride = other.width;
+                } else if( other.subimage ) {
+                    if( !this->subimage ) {
+                        delete []this->data;
+                    }
                     this->data = other.data;
                     this->data_length = other.data_length;
                     this->width = other.width;
-- 
2.43.0


From b67161d9f0091af9af34e8bea0cfcb448cca304a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 18/50] fix: setTo() of interleaved images with pixels larger
 than a byte only copied part of each row

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index c539a49..8a8fa70 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -479,7 +479,7 @@ namespace boofcv {
             }
             // This will handle the situation where all of some of the images are sub-images
             for( uint32_t y = 0; y < this->height; y++ ) {
-                memcpy(this->data+this->offset+y*this->stride,src.data+src.offset+y*src.stride,src.width*this->num_bands);
+                memcpy(this->data+this->offset+y*this->stride,src.data+src.offset+y*src.stride,sizeof(T)*src.width*this->num_bands);
             }
         }
 
-- 
2.43.0


From d181fe924318674dbec30164a4cb91be6cfba819 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 19/50] fix: copied and assigned interleaved images freed the
 same pixels

---
 boofcpp/src/boofcv/image_types.h | 40 ++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 8a8fa70..1ca0342 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -386,6 +386,14 @@ namespace boofcv {
         Interleaved() : Interleaved(0,0,0) {
         }
 
+        /**
+         * Same behavior as assignment. The copy of a sub-image is a sub-image of the same image. Otherwise the
+         * pixels are copied.
+         */
+        Interleaved( const Interleaved<T>& other ) : Interleaved(0,0,0) {
+            *this = other;
+        }
+
         ~Interleaved() {
             if( !this->subimage ) {
                 this->width = 0;
@@ -496,6 +504,38 @@ namespace boofcv {
         uint32_t index_of( uint32_t x , uint32_t y , uint32_t band) const {
             return this->offset + y*this->stride + x*this->num_bands + band;
         }
+
+        Interleaved<T>& operator=(const Interleaved<T>& other) // copy assignment
+        {
+            if (this != &other) { // self-assignment check expected
+                if( other.subimage && !this->subimage && this->data == other.data ) {
+                    // cropping itself. It needs to keep on owning its data
+                    Interleaved<T> crop(other.width,other.height,other.num_bands);
+                    crop.setTo(other);
+                    std::swap(this->data,crop.data);
+                    std::swap(this->data_length,crop.data_length);
+                    this->width = other.width;
+                    this->height = other.height;
+                    this->num_bands = other.num_bands;
+                    this->stride = other.width*other.num_bands;
+                } else if( other.subimage ) {
+                    if( !this->subimage ) {
+                        delete []this->data;
+                    }
+                    this->data = other.data;
+                    this->data_length = other.data_length;
+                    this->width = other.width;
+                    this->height = other.height;
+                    this->num_bands = other.num_bands;
+                    this->offset = other.offset;
+                    this->stride = other.stride;
+                    this->subimage = true;
+                } else {
+                    this->setTo(other);
+                }
+            }
+            return *this;
+        }
     };
 }
 
-- 
2.43.0


From 55f885973666f7f1308e65bf34e75761ccb824cb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 20/50] fix: at() of interleaved images accepted a band which
 is out of range

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 1ca0342..97fcce8 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -449,7 +449,7 @@ namespace boofcv {
         }
 
         T& at( uint32_t x , uint32_t y , uint32_t band ) const {
-            if( x >= this->width || y >= this->height )
+            if( x >= this->width || y >= this->height || band >= this->num_bands )
                 throw invalid_argument("out of range");
             return data[this->offset + y*this->stride + x*this->num_bands + band];
         }
-- 
2.43.0


From 1145dd58b0937ee98f9be2ebd9648a27d331cac4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 21/50] fix: destructor of planar images

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 97fcce8..50232f4 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -272,7 +272,7 @@ namespace boofcv {
             this->offset = 0;
             this->stride = 0;
             for( uint32_t i = 0; i < num_bands; i++ ) {
-                delete bands;
+                delete bands[i];
             }
             delete []bands;
             bands = NULL;
-- 
2.43.0


From 8664f16d475b21fed478442b3961aef26475c47f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 22/50] fix: setNumberOfBands() and setTo() of planar images
 did not compile when used

---
 boofcpp/src/boofcv/image_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 50232f4..02e27ad 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -291,7 +291,7 @@ namespace boofcv {
         }
 
         void setNumberOfBands( uint32_t desired ) {
-            T* new_bands;
+            T** new_bands;
             if( desired > this->num_bands ) {
                 new_bands = new T*[desired];
                 for( uint32_t i = 0; i < this->num_bands; i++ ) {
@@ -331,7 +331,7 @@ namespace boofcv {
             }
             setNumberOfBands(src.num_bands);
             for( uint32_t i = 0; i < this->num_bands; i++ ) {
-                this->bands[i]->setTo(src.bands[i]);
+                this->bands[i]->copy(*src.bands[i]);
             }
         }
 
-- 
2.43.0


From cf52ba1ddbe0c05e587cf275b9c743d150af016c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 23/50] fix: copied and assigned planar images freed the same
 bands

---
 boofcpp/src/boofcv/image_types.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 02e27ad..ef9e1ae 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -266,6 +266,10 @@ namespace boofcv {
         Planar() : Planar(0,0,0) {
         }
 
+        Planar( const Planar<T>& other ) : Planar(other.width,other.height,other.num_bands) {
+            setTo(other);
+        }
+
         ~Planar() {
             this->width = 0;
             this->height = 0;
@@ -340,6 +344,14 @@ namespace boofcv {
                 throw invalid_argument("Requested an out of bounds band");
             return *(this->bands[which]);
         }
+
+        Planar<T>& operator=(const Planar<T>& other) // copy assignment
+        {
+            if (this != &other) { // self-assignment check expected
+                setTo(other);
+            }
+            return *this;
+        }
     };
 
     /**
-- 
2.43.0


From 38f5a825ddddc5a31bf184a0e12c91665bb1da52 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 24/50] fix: 2D kernel initialised from a list accepted an
 origin outside of the kernel

---
 boofcpp/src/boofcv/convolve_kernels.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 7bc75c6..e79638b 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -168,6 +168,8 @@ namespace boofcv {
         Kernel2D(uint32_t offset, std::initializer_list<std::initializer_list<E>> l ) {
             this->width = static_cast<uint32_t >(l.size());
             this->offset = offset;
+            if( offset >= this->width )
+                throw std::invalid_argument("The offset must be inside the kernel's bounds");
 
             this->data.resize(this->width*this->width);
 
-- 
2.43.0


From f80896fe8298ada52c2457e37b7b98c3efae18c0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 25/50] fix: reshape() of kernels accepted an origin outside of
 the kernel

---
 boofcpp/src/boofcv/convolve_kernels.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index e79638b..66f7c64 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -124,6 +124,8 @@ namespace boofcv {
         }
 
         void reshape( uint32_t width , uint32_t offset ) override {
+            if( offset >= width )
+                throw std::invalid_argument("The offset must be inside the kernel's bounds");
             this->width = width;
             this->offset = offset;
             this->data.resize(width);
@@ -188,6 +190,8 @@ namespace boofcv {
         }
 
         void reshape( uint32_t width , uint32_t offset ) override {
+            if( offset >= width )
+                throw std::invalid_argument("The offset must be inside the kernel's bounds");
             this->width = width;
             this->offset = offset;
             this->data.resize(width*width);
-- 
2.43.0


From 552ab89958d8753b55ec639cffbc1af6456ab1e6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 26/50] fix: at() of planar images did not compile when used

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index ef9e1ae..dcec339 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -320,7 +320,7 @@ namespace boofcv {
             this->num_bands = desired;
         }
 
-        T& at( uint32_t x , uint32_t y , uint32_t band ) const {
+        typename T::pixel_type& at( uint32_t x , uint32_t y , uint32_t band ) const {
             if( band >= this->num_bands )
                 throw invalid_argument("Band out of range");
 
-- 
2.43.0


From 562f994ec1afecc4682e00bca4a6e39261354c0c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 27/50] fix: min and max of a sub-image did not visit its
 pixels

---
 boofcpp/src/boofcv/image_statistics.h | 28 +++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 81f08ba..9e7744d 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -12,12 +12,14 @@ namespace boofcv {
         static T min( const Gray<T>& input) {
             T min_value = std::numeric_limits<T>::max();
 
-            const T* ptr = input.data;
-            const T* end = &ptr[input.total_pixels()];
-            while( ptr != end ) {
-                const T& v = *ptr++;
-                if( v < min_value ) {
-                    min_value = v;
+            for( uint32_t y = 0; y < input.height; y++ ) {
+                const T* ptr = &input.data[input.offset + y*input.stride];
+                const T* end = &ptr[input.width];
+                while( ptr != end ) {
+                    const T& v = *ptr++;
+                    if( v < min_value ) {
+                        min_value = v;
+                    }
                 }
             }
 
@@ -28,12 +30,14 @@ namespace boofcv {
         static T max( const Gray<T>& input) {
             T max_value = std::numeric_limits<T>::min();
 
-            const T* ptr = input.data;
-            const T* end = &ptr[input.total_pixels()];
-            while( ptr != end ) {
-                const T& v = *ptr++;
-                if( v > max_value ) {
-                    max_value = v;
+            for( uint32_t y = 0; y < input.height; y++ ) {
+                const T* ptr = &input.data[input.offset + y*input.stride];
+                const T* end = &ptr[input.width];
+                while( ptr != end ) {
+                    const T& v = *ptr++;
+                    if( v > max_value ) {
+                        max_value = v;
+                    }
                 }
             }
 
-- 
2.43.0


From fc3134c0b48fb62e7f56f000ab4a493c9a4ee945 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 28/50] fix: max of a floating point or signed image with only
 negative values

---
 boofcpp/src/boofcv/image_statistics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 9e7744d..59686c3 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -28,7 +28,7 @@ namespace boofcv {
 
         template<class T>
         static T max( const Gray<T>& input) {
-            T max_value = std::numeric_limits<T>::min();
+            T max_value = std::numeric_limits<T>::lowest();
 
             for( uint32_t y = 0; y < input.height; y++ ) {
                 const T* ptr = &input.data[input.offset + y*input.stride];
-- 
2.43.0


From ec1852608608382c424e1586b31c7f472f5a6aa3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 29/50] fix: mean of an image with a negative sum

---
 boofcpp/src/boofcv/image_statistics.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 59686c3..7c55be4 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -59,8 +59,10 @@ namespace boofcv {
 
         template<class T>
         static T mean( const Gray<T>& input) {
-            typename TypeInfo<T>::sum_type a = sum(input);
-            return static_cast<T>(a / (input.width * input.height));
+            typedef typename TypeInfo<T>::sum_type sum_type;
+
+            sum_type a = sum(input);
+            return static_cast<T>(a / static_cast<sum_type>(input.width * input.height));
         }
 
         template<class T>
-- 
2.43.0


From 42e41910c960ba48b846b8c814403da6d3c00829 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 30/50] fix: random fill of a sub-image did not write to its
 pixels

---
 boofcpp/src/boofcv/image_misc_ops.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/boofcpp/src/boofcv/image_misc_ops.h b/boofcpp/src/boofcv/image_misc_ops.h
index 5927518..1f3f4f8 100644
--- a/boofcpp/src/boofcv/image_misc_ops.h
+++ b/boofcpp/src/boofcv/image_misc_ops.h
@@ -80,10 +80,12 @@ namespace boofcv {
 
             std::uniform_int_distribution<E> dis(min_value, max_value-1);
 
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()];
-            while( ptr != end ) {
-                *ptr++ = dis(rng);
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width];
+                while( ptr != end ) {
+                    *ptr++ = dis(rng);
+                }
             }
         }
 
@@ -91,10 +93,12 @@ namespace boofcv {
         static void fill_uniform( Gray<E>& image , E min_value , E max_value , RNG& rng, typename std::enable_if<std::is_floating_point<E>::value >::type* = 0) {
             std::uniform_real_distribution<E> dis(min_value, max_value);
 
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()];
-            while( ptr != end ) {
-                *ptr++ = dis(rng);
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width];
+                while( ptr != end ) {
+                    *ptr++ = dis(rng);
+                }
             }
         }
     };
-- 
2.43.0


From 17ea32f03b8532a17cbdbf6445367f4177e0868e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 31/50] fix: fill of an interleaved sub-image did not write to
 its pixels

---
 boofcpp/src/boofcv/image_misc_ops.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/image_misc_ops.h b/boofcpp/src/boofcv/image_misc_ops.h
index 1f3f4f8..e2cdf23 100644
--- a/boofcpp/src/boofcv/image_misc_ops.h
+++ b/boofcpp/src/boofcv/image_misc_ops.h
@@ -60,10 +60,12 @@ namespace boofcv {
 
         template<class E>
         static void fill( Interleaved<E>& image , E value ) {
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()*image.num_bands];
-            while( ptr != end ) {
-                *ptr++ = value;
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width*image.num_bands];
+                while( ptr != end ) {
+                    *ptr++ = value;
+                }
             }
         }
 
-- 
2.43.0


From 2f2d21a5e677e0c24a738858adc294d77735274f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 32/50] fix: average of bands with a negative sum

---
 boofcpp/src/boofcv/image_convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_convert.h b/boofcpp/src/boofcv/image_convert.h
index 8e7439e..47025e3 100644
--- a/boofcpp/src/boofcv/image_convert.h
+++ b/boofcpp/src/boofcv/image_convert.h
@@ -32,7 +32,7 @@ namespace boofcv {
                     sum += *input_ptr++;
                 }
 
-                *output_ptr++ = static_cast<E>(sum/input.num_bands);
+                *output_ptr++ = static_cast<E>(sum/static_cast<sum_type>(input.num_bands));
             }
         }
     }
-- 
2.43.0


From 44c035ac048cb716f2827c3d10cbd325ac7413df Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:41 +0000
Subject: [PATCH 33/50] fix: erosion and dilation of images without an inner
 region accessed pixels outside of the image

---
 boofcpp/src/boofcv/binary_ops.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/boofcpp/src/boofcv/binary_ops.cpp b/boofcpp/src/boofcv/binary_ops.cpp
index 364c7f8..473aaf7 100644
--- a/boofcpp/src/boofcv/binary_ops.cpp
+++ b/boofcpp/src/boofcv/binary_ops.cpp
@@ -43,6 +43,10 @@ void boofcv::BinaryImageOps::logicOr(const Gray<U8>& inputA , const Gray<U8>& in
 void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
     output.reshape(input.width,input.height);
 
+    // there is no inner region
+    if( input.width < 3 || input.height < 3 )
+        return;
+
     const int h = input.height - 1;
     const int w = input.width - 2;
 
@@ -65,6 +69,10 @@ void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
 void boofcv::BinaryImageOps::dilate4(const Gray<U8>& input, Gray<U8>& output) {
     output.reshape(input.width,input.height);
 
+    // there is no inner region
+    if( input.width < 3 || input.height < 3 )
+        return;
+
     const int h = input.height - 1;
     const int w = input.width - 2;
 
-- 
2.43.0


From 65cf686071593b0ba3c8c613e57805970e29d771 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:41 +0000
Subject: [PATCH 34/50] fix: erosion and dilation left pixels along the image
 border undefined

The output depended on what the output image contained before. Pixels outside
of the image are treated as zero.
---
 boofcpp/src/boofcv/binary_ops.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/boofcpp/src/boofcv/binary_ops.cpp b/boofcpp/src/boofcv/binary_ops.cpp
index 473aaf7..bebc560 100644
--- a/boofcpp/src/boofcv/binary_ops.cpp
+++ b/boofcpp/src/boofcv/binary_ops.cpp
@@ -40,8 +40,34 @@ void boofcv::BinaryImageOps::logicOr(const Gray<U8>& inputA , const Gray<U8>& in
     }
 }
 
+/**
+ * Sum of a pixel and its 4-neighborhood. Pixels outside the image are zero.
+ */
+static int sum_neighborhood4( const Gray<U8>& input, uint32_t x , uint32_t y ) {
+    int sum = input.unsafe_at(x,y);
+    if( x > 0 ) sum += input.unsafe_at(x-1,y);
+    if( y > 0 ) sum += input.unsafe_at(x,y-1);
+    if( x+1 < input.width ) sum += input.unsafe_at(x+1,y);
+    if( y+1 < input.height ) sum += input.unsafe_at(x,y+1);
+    return sum;
+}
+
+/**
+ * Sets pixels along the image's border to one if the sum across their 4-neighborhood is at least the minimum
+ */
+static void threshold_border4( const Gray<U8>& input, Gray<U8>& output, int minimum ) {
+    for (uint32_t y = 0; y < input.height; y++) {
+        bool full_row = y == 0 || y+1 == input.height || input.width < 3;
+        uint32_t step = full_row ? 1 : input.width-1;
+        for (uint32_t x = 0; x < input.width; x += step) {
+            output.unsafe_at(x,y) = static_cast<U8>(sum_neighborhood4(input,x,y) >= minimum);
+        }
+    }
+}
+
 void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
     output.reshape(input.width,input.height);
+    threshold_border4(input,output,5);
 
     // there is no inner region
     if( input.width < 3 || input.height < 3 )
@@ -68,6 +94,7 @@ void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
 
 void boofcv::BinaryImageOps::dilate4(const Gray<U8>& input, Gray<U8>& output) {
     output.reshape(input.width,input.height);
+    threshold_border4(input,output,1);
 
     // there is no inner region
     if( input.width < 3 || input.height < 3 )
-- 
2.43.0


From 291b476139620c381e70008f039cf4d752b35d91 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:25 +0000
Subject: [PATCH 35/50] fix: native methods released arrays and reported
 failures only on the success path

A C++ exception (image too small, bad kernel, out of memory, unsupported type)
left the native method through the Java frames and kept the critical arrays held.
Translate exceptions to Java exceptions, release arrays on every path, check the
results of JNI calls which can fail, and forget the native object once destroyed.
---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp       | 113 ++++++++++++++----
 boofcpp-jni/src/main/cpp/JNIBoofCPP.h         |  27 +++++
 boofcpp-jni/src/main/cpp/NativeBlockMean.cpp  |  22 ++--
 .../src/main/cpp/NativeBlockMinMax.cpp        |  22 ++--
 boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp  |  22 ++--
 boofcpp-jni/src/main/cpp/NativeChang2004.cpp  |  72 ++++++++---
 .../src/main/cpp/NativeGlobalFixed.cpp        |  24 ++--
 boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp |  22 ++--
 .../src/main/cpp/NativeImageBlurOps.cpp       |  37 +++---
 .../src/main/cpp/NativeImageConvolve.cpp      |  76 +++++-------
 .../cpp/NativeImageConvolveNormalized.cpp     |  41 +++----
 boofcpp-jni/src/main/cpp/NativeLocalMean.cpp  |  22 ++--
 12 files changed, 316 insertions(+), 184 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index b00988d..463cf5a 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -1,9 +1,57 @@
 #include "JNIBoofCPP.h"
+#include <new>
 #include <stdexcept>
 #include <packed_sets.h>
 
 using namespace boofcv;
 
+static void throw_new( JNIEnv *env, const char* type, const char* message ) {
+    jclass theclass = env->FindClass(type);
+    if( theclass != nullptr )
+        env->ThrowNew(theclass,message);
+}
+
+void throw_java_exception( JNIEnv *env ) {
+    // Java is already going to be told that something went wrong
+    if( env->ExceptionCheck() )
+        return;
+
+    try {
+        throw;
+    } catch( const std::bad_alloc& ) {
+        throw_new(env,"java/lang/OutOfMemoryError","Out of native memory");
+    } catch( const std::invalid_argument& e ) {
+        throw_new(env,"java/lang/IllegalArgumentException",e.what());
+    } catch( const std::exception& e ) {
+        throw_new(env,"java/lang/RuntimeException",e.what());
+    } catch( const char* message ) {
+        throw_new(env,"java/lang/RuntimeException",message);
+    } catch( ... ) {
+        throw_new(env,"java/lang/RuntimeException","Unknown native exception");
+    }
+}
+
+void check_java_exception( JNIEnv *env ) {
+    if( env->ExceptionCheck() )
+        throw std::runtime_error("Java exception");
+}
+
+void check_native_ptr( jlong ptr ) {
+    if( ptr == 0 )
+        throw std::runtime_error("The native object has been destroyed");
+}
+
+CriticalGuard::CriticalGuard( JNIEnv *env, jobject array, void *data, jint mode )
+: env(env), array(array), data(data), mode(mode)
+{
+    if( data == nullptr )
+        throw std::bad_alloc();
+}
+
+CriticalGuard::~CriticalGuard() {
+    env->ReleasePrimitiveArrayCritical((jarray)array, data, mode);
+}
+
 
 WrapJGrowQueue_I32::WrapJGrowQueue_I32(JNIEnv *env, jobject jobj)
 : env(env), jobj(jobj), data(nullptr), size(0)
@@ -33,6 +81,8 @@ WrapJGrowQueue_I32::~WrapJGrowQueue_I32() {
 
 void WrapJGrowQueue_I32::criticalGet() {
     this->data = (jint *)env->GetPrimitiveArrayCritical(array_object, 0);
+    if( this->data == nullptr )
+        throw std::bad_alloc();
 }
 
 void WrapJGrowQueue_I32::criticalRelease() {
@@ -79,6 +129,7 @@ void WrapJGrowQueue_I32::resize( uint32_t desired ) {
 //    printf("ENTER resize. desired = %d\n",desired);
 
     env->CallVoidMethod(jobj,methodResize,(jint)desired);
+    check_java_exception(env);
     this->size = desired;
 
     // See if the array has been resized
@@ -115,28 +166,36 @@ void copy_into_java( JNIEnv *env,
     jmethodID method_get =  safe_GetMethodID(env, class_fastqueue, "get", "(I)Ljava/lang/Object;");
 
     env->CallVoidMethod(object_blocks,method_resize,(jint)src._number_of_blocks);
+    check_java_exception(env);
     env->CallVoidMethod(object_sets,method_resize,(jint)src.set_info.size());
+    check_java_exception(env);
 
     for( uint32_t block_idx = 0; block_idx < src._number_of_blocks; block_idx++ ) {
         jobject the_array = env->CallObjectMethod(object_blocks,method_get,(jint)block_idx);
+        check_java_exception(env);
 
         auto array_src = (boofcv::Point2D<boofcv::S32>*)src.blocks[block_idx];
         auto array_dst = (jint *)env->GetPrimitiveArrayCritical((jarray)the_array, 0);
+        if( array_dst == nullptr )
+            throw std::bad_alloc();
         for( uint32_t j = 0; j < src._size_of_block; j++ ) {
             array_dst[j*2  ] = array_src[j].x;
             array_dst[j*2+1] = array_src[j].y;
         }
         env->ReleasePrimitiveArrayCritical((jarray)the_array, array_dst, 0);
+        env->DeleteLocalRef(the_array);
     }
 
-    jclass class_blockindexlength = env->FindClass("boofcv/struct/BlockIndexLength");
+    jclass class_blockindexlength = safe_FindClass(env,"boofcv/struct/BlockIndexLength");
     jmethodID method_bil_set =  safe_GetMethodID(env, class_blockindexlength, "set", "(III)V");
 
     for( uint32_t i = 0; i < src.set_info.size(); i++ ) {
         const PackedSetInfo& set_info = src.set_info[i];
 
         jobject jset = env->CallObjectMethod(object_sets,method_get,(jint)i);
+        check_java_exception(env);
         env->CallVoidMethod(jset,method_bil_set,set_info.offset*2,set_info.size,set_info.block);
+        check_java_exception(env);
         env->DeleteLocalRef(jset);
     }
 }
@@ -369,20 +428,23 @@ boofcv::Kernel1D<S32>* extractKernel1D_S32( JNIEnv *env, jobject& jkernel ) {
     jint width = safe_GetInt(env,objClass,jkernel, "width");
     jint offset = safe_GetInt(env,objClass,jkernel, "offset");
 
-    jfieldID fid = env->GetFieldID(objClass, "data", "[I");
+    jfieldID fid = safe_GetFieldID(env, objClass, "data", "[I");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jint* data = env->GetIntArrayElements((jintArray)jarray, 0);
     jint length = env->GetArrayLength((jintArray)jarray);
 
-    // copy the Java array into the kernel
-    auto kernel1D = new boofcv::Kernel1D<S32>((uint32_t)width,(uint32_t)offset);
+    // copy the Java array into the kernel. Memory is declared first so that nothing can fail while the array is held
+    std::unique_ptr<boofcv::Kernel1D<S32>> kernel1D(new boofcv::Kernel1D<S32>((uint32_t)width,(uint32_t)offset));
+    kernel1D->data.resize((uint32_t)length);
+    jint* data = env->GetIntArrayElements((jintArray)jarray, 0);
+    if( data == nullptr )
+        throw std::bad_alloc();
     kernel1D->data.set((S32*)data,(uint32_t)length);
 
     // release java objects
     env->ReleaseIntArrayElements((jintArray)jarray, data, 0);
 
     // return the results
-    return kernel1D;
+    return kernel1D.release();
 }
 
 boofcv::Kernel1D<F32>* extractKernel1D_F32( JNIEnv *env, jobject& jkernel ) {
@@ -390,20 +452,23 @@ boofcv::Kernel1D<F32>* extractKernel1D_F32( JNIEnv *env, jobject& jkernel ) {
     jint width = safe_GetInt(env,objClass,jkernel, "width");
     jint offset = safe_GetInt(env,objClass,jkernel, "offset");
 
-    jfieldID fid = env->GetFieldID(objClass, "data", "[F");
+    jfieldID fid = safe_GetFieldID(env, objClass, "data", "[F");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jfloat* data = env->GetFloatArrayElements((jfloatArray)jarray, 0);
     jint length = env->GetArrayLength((jfloatArray)jarray);
 
-    // copy the Java array into the kernel
-    auto kernel1D = new boofcv::Kernel1D<F32>((uint32_t)width,(uint32_t)offset);
+    // copy the Java array into the kernel. Memory is declared first so that nothing can fail while the array is held
+    std::unique_ptr<boofcv::Kernel1D<F32>> kernel1D(new boofcv::Kernel1D<F32>((uint32_t)width,(uint32_t)offset));
+    kernel1D->data.resize((uint32_t)length);
+    jfloat* data = env->GetFloatArrayElements((jfloatArray)jarray, 0);
+    if( data == nullptr )
+        throw std::bad_alloc();
     kernel1D->data.set((F32*)data,(uint32_t)length);
 
     // release java objects
     env->ReleaseFloatArrayElements((jfloatArray)jarray, data, 0);
 
     // return the results
-    return kernel1D;
+    return kernel1D.release();
 }
 
 boofcv::Kernel2D<boofcv::S32>* extractKernel2D_S32( JNIEnv *env, jobject& jkernel ) {
@@ -411,20 +476,23 @@ boofcv::Kernel2D<boofcv::S32>* extractKernel2D_S32( JNIEnv *env, jobject& jkerne
     jint width = safe_GetInt(env,objClass,jkernel, "width");
     jint offset = safe_GetInt(env,objClass,jkernel, "offset");
 
-    jfieldID fid = env->GetFieldID(objClass, "data", "[I");
+    jfieldID fid = safe_GetFieldID(env, objClass, "data", "[I");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jint* data = env->GetIntArrayElements((jintArray)jarray, 0);
     jint length = env->GetArrayLength((jintArray)jarray);
 
-    // copy the Java array into the kernel
-    auto kernel2D = new boofcv::Kernel2D<S32>((uint32_t)width,(uint32_t)offset);
+    // copy the Java array into the kernel. Memory is declared first so that nothing can fail while the array is held
+    std::unique_ptr<boofcv::Kernel2D<S32>> kernel2D(new boofcv::Kernel2D<S32>((uint32_t)width,(uint32_t)offset));
+    kernel2D->data.resize((uint32_t)length);
+    jint* data = env->GetIntArrayElements((jintArray)jarray, 0);
+    if( data == nullptr )
+        throw std::bad_alloc();
     kernel2D->data.set((S32*)data,(uint32_t)length);
 
     // release java objects
     env->ReleaseIntArrayElements((jintArray)jarray, data, 0);
 
     // return the results
-    return kernel2D;
+    return kernel2D.release();
 }
 
 boofcv::Kernel2D<boofcv::F32>* extractKernel2D_F32( JNIEnv *env, jobject& jkernel ) {
@@ -432,18 +500,21 @@ boofcv::Kernel2D<boofcv::F32>* extractKernel2D_F32( JNIEnv *env, jobject& jkerne
     jint width = safe_GetInt(env,objClass,jkernel, "width");
     jint offset = safe_GetInt(env,objClass,jkernel, "offset");
 
-    jfieldID fid = env->GetFieldID(objClass, "data", "[F");
+    jfieldID fid = safe_GetFieldID(env, objClass, "data", "[F");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jfloat* data = env->GetFloatArrayElements((jfloatArray)jarray, 0);
     jint length = env->GetArrayLength((jfloatArray)jarray);
 
-    // copy the Java array into the kernel
-    auto kernel2D = new boofcv::Kernel2D<F32>((uint32_t)width,(uint32_t)offset);
+    // copy the Java array into the kernel. Memory is declared first so that nothing can fail while the array is held
+    std::unique_ptr<boofcv::Kernel2D<F32>> kernel2D(new boofcv::Kernel2D<F32>((uint32_t)width,(uint32_t)offset));
+    kernel2D->data.resize((uint32_t)length);
+    jfloat* data = env->GetFloatArrayElements((jfloatArray)jarray, 0);
+    if( data == nullptr )
+        throw std::bad_alloc();
     kernel2D->data.set((F32*)data,(uint32_t)length);
 
     // release java objects
     env->ReleaseFloatArrayElements((jfloatArray)jarray, data, 0);
 
     // return the results
-    return kernel2D;
+    return kernel2D.release();
 }
diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
index c9a72a8..664cc94 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
@@ -8,6 +8,33 @@
 #include "convolve.h"
 #include <geometry_types.h>
 #include <packed_sets.h>
+#include <memory>
+
+// Converts the C++ exception which is being handled into a Java exception. Must be called inside of a catch block.
+void throw_java_exception( JNIEnv *env );
+
+// Throws a C++ exception if a Java exception is pending
+void check_java_exception( JNIEnv *env );
+
+// Throws a C++ exception if the native object has already been destroyed
+void check_native_ptr( jlong ptr );
+
+/**
+ * Releases a critical array when it goes out of scope. There can't be any JNI calls while it exists
+ */
+class CriticalGuard {
+    JNIEnv *env;
+    jobject array;
+    void *data;
+    jint mode;
+public:
+    CriticalGuard( JNIEnv *env, jobject array, void *data, jint mode );
+
+    ~CriticalGuard();
+
+    CriticalGuard( const CriticalGuard& ) = delete;
+    CriticalGuard& operator=( const CriticalGuard& ) = delete;
+};
 
 class WrapJGrowQueue_I32 {
 public:
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
index 18ede7d..1e1aec3 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
@@ -7,7 +7,7 @@ using namespace boofcv;
 
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(
-    JNIEnv *env, jobject obj, jobject jregionWidth, jdouble scale, jboolean down , jboolean thresholdFromLocalBlocks ) {
+    JNIEnv *env, jobject obj, jobject jregionWidth, jdouble scale, jboolean down , jboolean thresholdFromLocalBlocks ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -23,6 +23,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(
     }
     fid = env->GetFieldID(objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativedestroy(JNIEnv *env, jobject obj) {
@@ -38,6 +40,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativedestroy(
     } else {
         delete (ThresholdBlockMean<F32> *) nativePtr;
     }
+    env->SetLongField(obj, fid, 0);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
@@ -54,30 +57,29 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
     if( env->ExceptionCheck() )
             return;
 
-    ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-
     try {
+        check_native_ptr(nativePtr);
+        ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
+
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
             ((ThresholdBlockMean<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
             ((ThresholdBlockMean<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throw_java_exception(env);
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
index 35fe579..519fc29 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
@@ -8,7 +8,7 @@ using namespace boofcv;
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(
     JNIEnv *env, jobject obj, jobject jregionWidth,
-    jdouble scale, jboolean down , jdouble minimumSpread, jboolean thresholdFromLocalBlocks ) {
+    jdouble scale, jboolean down , jdouble minimumSpread, jboolean thresholdFromLocalBlocks ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -24,6 +24,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(
     }
     fid = env->GetFieldID(objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativedestroy(JNIEnv *env, jobject obj) {
@@ -39,6 +41,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativedestro
     } else {
         delete (ThresholdBlockMinMax<F32> *) nativePtr;
     }
+    env->SetLongField(obj, fid, 0);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeprocess
@@ -55,30 +58,29 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeproces
     if( env->ExceptionCheck() )
             return;
 
-    ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-
     try {
+        check_native_ptr(nativePtr);
+        ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
+
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
             ((ThresholdBlockMinMax<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
             ((ThresholdBlockMinMax<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throw_java_exception(env);
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
index 2652302..2e4ddf2 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
@@ -8,7 +8,7 @@ using namespace boofcv;
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(
     JNIEnv *env, jobject obj, jboolean otsu2, jobject jregionWidth, jdouble tuning,
-    jdouble scale, jboolean down , jboolean thresholdFromLocalBlocks ) {
+    jdouble scale, jboolean down , jboolean thresholdFromLocalBlocks ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -24,6 +24,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(
     }
     fid = env->GetFieldID(objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativedestroy(JNIEnv *env, jobject obj) {
@@ -39,6 +41,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativedestroy(
     } else {
         delete (ThresholdBlockOtsu<F32> *) nativePtr;
     }
+    env->SetLongField(obj, fid, 0);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
@@ -55,29 +58,28 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
     if( env->ExceptionCheck() )
             return;
 
-    ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-
     try {
+        check_native_ptr(nativePtr);
+        ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
+
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
             ((ThresholdBlockOtsu<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
             ((ThresholdBlockOtsu<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throw_java_exception(env);
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
index 315a8e6..9666d25 100644
--- a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
@@ -11,7 +11,7 @@ extern "C" {
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1init
         (JNIEnv *env, jobject obj)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
 
     LinearContourLabelChang2004* ptr = new LinearContourLabelChang2004(ConnectRule::FOUR);
@@ -19,11 +19,13 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1init
 
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, (jlong)ptr);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1destroy
         (JNIEnv *env, jobject obj)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
@@ -31,25 +33,29 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1destroy
     delete (LinearContourLabelChang2004*) nativePtr;
 
     env->SetLongField(obj, fid, 0);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1process
         (JNIEnv *env, jobject obj, jobject jbinary, jobject jlabel)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     LinearContourLabelChang2004* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    check_native_ptr((jlong)contour);
 
     ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jbinary);
     ImageAndInfo<Gray<S32>,JImageInfo> label = wrapCriticalGrayS32(env,jlabel);
 
-    input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-    label.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)label.info.jdata, 0);
+    {
+        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
+        label.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)label.info.jdata, 0);
+        CriticalGuard label_guard(env,label.info.jdata,label.image.data,0);
 
-    contour->process(input.image, label.image);
-
-    env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-    env->ReleasePrimitiveArrayCritical((jarray)label.info.jdata, label.image.data, 0);
+        contour->process(input.image, label.image);
+    }
 
     jfieldID fidPoints = safe_GetFieldID(env, objClass, "storagePoints", "Lorg/ddogleg/struct/GrowQueue_I32;");
     jobject jpoints = env->GetObjectField(obj,fidPoints);
@@ -63,6 +69,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1process
         // internal contour ids will be grabbed from storagePoints
         grow_queue.setTo(p.internalIndexes);
         env->CallVoidMethod(obj,midAdd,(jint)p.id,(jint)p.externalIndex);
+        check_java_exception(env);
     }
 
     jfieldID field_packed = safe_GetFieldID(env, objClass, "packedPoints", "Lboofcv/struct/PackedSetsPoint2D_I32;");
@@ -70,78 +77,103 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1process
     copy_into_java(env,contour->packedPoints,jpacked);
 
     // TODO storageContours
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setSaveInnerContour
         (JNIEnv *env, jobject obj, jboolean enabled)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     auto * contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    check_native_ptr((jlong)contour);
 
     contour->saveInternalContours = enabled;
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT jboolean JNICALL Java_org_boofcpp_contour_NativeChang2004_isSaveInternalContours
         (JNIEnv *env, jobject obj)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     auto * contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    check_native_ptr((jlong)contour);
 
     return (jboolean)contour->saveInternalContours;
+} catch( ... ) {
+    throw_java_exception(env);
+    return JNI_FALSE;
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setMinContour
         (JNIEnv *env, jobject obj, jint size)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    check_native_ptr((jlong)contour);
 
     contour->minContourSize = static_cast<uint32_t>(size);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT jint JNICALL Java_org_boofcpp_contour_NativeChang2004_getMinContour
         (JNIEnv *env, jobject obj)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    check_native_ptr((jlong)contour);
 
     return static_cast<jint>(contour->minContourSize);
+} catch( ... ) {
+    throw_java_exception(env);
+    return 0;
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setMaxContour
         (JNIEnv *env, jobject obj, jint size)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    check_native_ptr((jlong)contour);
 
     contour->maxContourSize = static_cast<uint32_t>(size);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT jint JNICALL Java_org_boofcpp_contour_NativeChang2004_getMaxContour
         (JNIEnv *env, jobject obj)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    check_native_ptr((jlong)contour);
 
     return static_cast<jint>(contour->maxContourSize);
+} catch( ... ) {
+    throw_java_exception(env);
+    return 0;
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setConnectRule
         (JNIEnv *env, jobject obj, jobject jrule )
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    check_native_ptr((jlong)contour);
 
     jclass enumClass = env->GetObjectClass(jrule);
     jmethodID mid =  safe_GetMethodID(env, enumClass, "ordinal", "()I");
     jint rule_oridinal = env->CallIntMethod(jrule,mid);
+    check_java_exception(env);
 
     switch( rule_oridinal ) {
         case 0:
@@ -156,14 +188,17 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setConnectRule
             throw "Unknown connect rule";
     }
 
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT jobject JNICALL Java_org_boofcpp_contour_NativeChang2004_getConnectRule
         (JNIEnv *env, jobject obj)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    check_native_ptr((jlong)contour);
 
     jclass enumClass = safe_FindClass(env,"boofcv/struct/ConnectRule");
 
@@ -185,5 +220,8 @@ JNIEXPORT jobject JNICALL Java_org_boofcpp_contour_NativeChang2004_getConnectRul
         throw "Could lookup static field";
     }
     return ret;
+} catch( ... ) {
+    throw_java_exception(env);
+    return nullptr;
 }
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
index 8baa758..7662be0 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
@@ -8,7 +8,7 @@ using namespace boofcv;
 // double threshold, boolean down
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(
-    JNIEnv *env, jobject obj, jdouble threshold, jboolean down ) {
+    JNIEnv *env, jobject obj, jdouble threshold, jboolean down ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -22,6 +22,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(
     }
     fid = env->GetFieldID(objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativedestroy(JNIEnv *env, jobject obj) {
@@ -37,6 +39,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativedestro
     } else {
         delete (GlobalFixedBinaryFilter<F32> *) nativePtr;
     }
+    env->SetLongField(obj, fid, 0);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeprocess
@@ -53,30 +56,29 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeproces
     if( env->ExceptionCheck() )
             return;
 
-    ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-
     try {
+        check_native_ptr(nativePtr);
+        ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
+
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
             ((GlobalFixedBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
+            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
             ((GlobalFixedBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throw_java_exception(env);
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
index 1d62507..15facca 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
@@ -6,7 +6,7 @@ using namespace boofcv;
 
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeinit(
-    JNIEnv *env, jobject obj, jdouble minValue, jdouble maxValue, jboolean down ) {
+    JNIEnv *env, jobject obj, jdouble minValue, jdouble maxValue, jboolean down ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -19,6 +19,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeinit(
     }
     fid = env->GetFieldID(objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativedestroy(JNIEnv *env, jobject obj) {
@@ -34,6 +36,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativedestroy
     } else {
         delete (GlobalOtsuBinaryFilter<F32> *) nativePtr;
     }
+    env->SetLongField(obj, fid, 0);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
@@ -50,30 +53,29 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
     if( env->ExceptionCheck() )
             return;
 
-    ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-
     try {
+        check_native_ptr(nativePtr);
+        ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
+
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
             ((GlobalOtsuBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
             ((GlobalOtsuBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throw_java_exception(env);
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
index 78bb88c..5d2cc7d 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
@@ -6,7 +6,7 @@ using namespace boofcv;
 
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(
-    JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jint radius, jobject jstorage) {
+    JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jint radius, jobject jstorage) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -18,33 +18,33 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(
         ImageAndInfo<Gray<U8>,JImageInfo> storage = wrapCriticalGrayU8(env,jstorage);
 
         input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
         output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
         storage.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalGuard storage_guard(env,storage.info.jdata,storage.image.data,JNI_ABORT);
 
         BlurImageOps::mean(input.image,output.image,(uint32_t)radius,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
         ImageAndInfo<Gray<F32>,JImageInfo> storage = wrapCriticalGrayF32(env,jstorage);
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
         storage.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalGuard storage_guard(env,storage.info.jdata,storage.image.data,JNI_ABORT);
 
         BlurImageOps::mean(input.image,output.image,(uint32_t)radius,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussian(
-        JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jdouble sigma, jint radius, jobject jstorage) {
+        JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jdouble sigma, jint radius, jobject jstorage) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -58,29 +58,28 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussi
         ImageAndInfo<Gray<U8>,JImageInfo> storage = wrapCriticalGrayU8(env,jstorage);
 
         input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
         output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
         storage.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalGuard storage_guard(env,storage.info.jdata,storage.image.data,JNI_ABORT);
 
         BlurImageOps::gaussian(input.image,output.image,(double)sigma,(int32_t)width,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
         ImageAndInfo<Gray<F32>,JImageInfo> storage = wrapCriticalGrayF32(env,jstorage);
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
         storage.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalGuard storage_guard(env,storage.info.jdata,storage.image.data,JNI_ABORT);
 
         BlurImageOps::gaussian(input.image,output.image,(double)sigma,(int32_t)width,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
-
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
index b74cfd7..c448c8d 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
@@ -28,7 +28,7 @@ BorderType borderJavaToCpp( int type ) {
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHorizontal(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -41,7 +41,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
     if( isInteger ) {
         if( inputBits != 8 )
             throw std::runtime_error("Can only handle 8-bit input integer images currently");
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
         std::shared_ptr<ImageBorder<U8>> border = FactoryImageBorder::create_SB<U8>(borderType);
 
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -50,7 +50,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
         if( outputBits == 16 ) {
             ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
             output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
 
             // Trying to figure out why this runs slower than a C++ application
             // JNI overhead appears to be negligible based on the printed times below
@@ -59,45 +61,40 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
             ConvolveImage::horizontal(*kernel, *border.get(),output.image);
 //            t = clock() - t;
 //            printf("horizontal time %f kernel %d\n",(float)1000*t/CLOCKS_PER_SEC,kernel->width);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else if( outputBits == 32 ) {
             ImageAndInfo<Gray<S32>,JImageInfo> output = wrapCriticalGrayS32(env,joutput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
             output.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
 
             ConvolveImage::horizontal(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output images currently");
         }
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
             throw std::runtime_error("Can only handle 32-bit floats currently");
         }
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
         std::shared_ptr<ImageBorder<F32>> border = FactoryImageBorder::create_SB<F32>(borderType);
         border.get()->setImage(input.image);
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
 
         ConvolveImage::horizontal(*kernel, *border.get(),output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVertical(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -110,7 +107,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVerti
     if( isInteger ) {
         if( inputBits != 8 )
             throw std::runtime_error("Can only handle 8-bit input integer images currently");
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
         std::shared_ptr<ImageBorder<U8>> border = FactoryImageBorder::create_SB<U8>(borderType);
 
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -119,48 +116,45 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVerti
         if( outputBits == 16 ) {
             ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
             output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
 
             ConvolveImage::vertical(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else if( outputBits == 32 ) {
             ImageAndInfo<Gray<S32>,JImageInfo> output = wrapCriticalGrayS32(env,joutput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
             output.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
 
             ConvolveImage::vertical(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output currently");
         }
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
             throw std::runtime_error("Can only handle 32-bit floats currently");
         }
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
         std::shared_ptr<ImageBorder<F32>> border = FactoryImageBorder::create_SB<F32>(borderType);
         border.get()->setImage(input.image);
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
 
         ConvolveImage::vertical(*kernel, *border.get(),output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvolve(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) try {
 
    jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -173,7 +167,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvo
     if( isInteger ) {
         if( inputBits != 8 )
             throw std::runtime_error("Can only handle 8-bit input integer images currently");
-        boofcv::Kernel2D<S32>* kernel = extractKernel2D_S32(env,jkernel);
+        std::unique_ptr<Kernel2D<S32>> kernel(extractKernel2D_S32(env,jkernel));
         std::shared_ptr<ImageBorder<U8>> border = FactoryImageBorder::create_SB<U8>(borderType);
 
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -182,45 +176,41 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvo
         if( outputBits == 16 ) {
             ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
             output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
 
             ConvolveImage::convolve(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else if( outputBits == 32 ) {
             ImageAndInfo<Gray<S32>,JImageInfo> output = wrapCriticalGrayS32(env,joutput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
             output.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
 
             ConvolveImage::convolve(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output images currently");
         }
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
             throw std::runtime_error("Can only handle 32-bit floats currently");
         }
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel2D<F32>* kernel = extractKernel2D_F32(env,jkernel);
+        std::unique_ptr<Kernel2D<F32>> kernel(extractKernel2D_F32(env,jkernel));
         std::shared_ptr<ImageBorder<F32>> border = FactoryImageBorder::create_SB<F32>(borderType);
         border.get()->setImage(input.image);
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
 
         ConvolveImage::convolve(*kernel, *border.get(),output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
-
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
index d5ddc2c..385fe72 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
@@ -8,7 +8,7 @@ using namespace boofcv;
 
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativehorizontal(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -17,34 +17,32 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
     if( isInteger ) {
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
         ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
 
         input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
         output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
 
         ConvolveNormalized::horizontal(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
 
         ConvolveNormalized::horizontal(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativevertical(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -53,30 +51,27 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
     if( isInteger ) {
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
         ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
 
         input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
         output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
 
         ConvolveNormalized::vertical(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
 
         ConvolveNormalized::vertical(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
-
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
index 3ba111b..9d5b01c 100644
--- a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
@@ -7,7 +7,7 @@ using namespace boofcv;
 
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(
-    JNIEnv *env, jobject obj, jobject jregionWidth, jdouble scale, jboolean down ) {
+    JNIEnv *env, jobject obj, jobject jregionWidth, jdouble scale, jboolean down ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -23,6 +23,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(
     }
     fid = env->GetFieldID(objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativedestroy(JNIEnv *env, jobject obj) {
@@ -38,6 +40,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativedestroy(
     } else {
         delete (LocalMeanBinaryFilter<F32> *) nativePtr;
     }
+    env->SetLongField(obj, fid, 0);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
@@ -54,30 +57,29 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
     if( env->ExceptionCheck() )
             return;
 
-    ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-
     try {
+        check_native_ptr(nativePtr);
+        ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
+
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
             ((InputToBinary<Gray<U8>>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard input_guard(env,input.info.jdata,input.image.data,JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard output_guard(env,output.info.jdata,output.image.data,0);
             ((InputToBinary<Gray<F32>> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throw_java_exception(env);
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 72ee8f2979d17b7b92d6a1bb6be43de7abed5d38 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:25 +0000
Subject: [PATCH 36/50] fix: block thresholds divided by zero when the block
 width came out as zero

---
 boofcpp/src/boofcv/threshold_block_filters.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index cf0452e..3fc17ba 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -70,6 +70,9 @@ namespace boofcv
             checkSameShape(input,output);
 
             auto requestedBlockWidth = (uint32_t)this->requestedBlockWidth.computeI( std::min(input.width,input.height));
+            if( requestedBlockWidth == 0 ) {
+                throw invalid_argument("Block size must be at least one pixel");
+            }
             if( input.width < requestedBlockWidth || input.height < requestedBlockWidth ) {
                 throw invalid_argument("Image is smaller than block size");
             }
-- 
2.43.0


From 6f399f1e96fa4713d476417a3897d970f3cedfc0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:43 +0000
Subject: [PATCH 37/50] fix: images and arrays freed their storage before
 allocating its replacement

If the allocation failed the object was left with a pointer to freed memory, which
was freed again by its destructor.
---
 boofcpp/src/boofcv/base_types.h  |  3 ++-
 boofcpp/src/boofcv/image_types.h | 12 ++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index 089fc4d..cd55fd2 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -133,8 +133,9 @@ namespace boofcv {
             if( !can_resize )
                 throw std::invalid_argument("Can't resize array");
             if( new_size > array_length ) {
+                T* grown = new T[new_size];
                 delete []this->data;
-                this->data = new T[new_size];
+                this->data = grown;
                 this->array_length = new_size;
                 for( uint32_t i = 0; i < new_size; i++ ) {
                     this->data[i] = default_value;
diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index dcec339..c053203 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -167,8 +167,9 @@ namespace boofcv {
 
             uint32_t desired_length = width*height;
             if( desired_length > this->data_length ) {
+                T* grown = new T[desired_length]();
                 delete []this->data;
-                this->data = new T[desired_length]();
+                this->data = grown;
                 this->data_length = desired_length;
             }
             this->width = width;
@@ -431,8 +432,9 @@ namespace boofcv {
                 if( this->subimage ) {
                     throw invalid_argument("Grow the data array in a subimage");
                 }
+                T* grown = new T[new_length]();
                 delete []data;
-                data = new T[new_length]();
+                data = grown;
                 this->data_length = new_length;
             }
 
@@ -451,8 +453,9 @@ namespace boofcv {
 
             uint32_t desired_length = width*height*this->num_bands;
             if( desired_length > this->data_length ) {
+                T* grown = new T[desired_length]();
                 delete []data;
-                this->data = new T[desired_length]();
+                this->data = grown;
                 this->data_length = desired_length;
             }
             this->width = width;
@@ -482,8 +485,9 @@ namespace boofcv {
                 if( this->subimage ) {
                     throw invalid_argument("Grow the data array in a subimage");
                 }
+                T* grown = new T[new_length]();
                 delete []data;
-                data = new T[new_length]();
+                data = grown;
                 this->data_length = new_length;
             }
             this->num_bands = desired;
-- 
2.43.0


From 0accc73ff0a944e2ce86e0d568720f8b003ccd7e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:43 +0000
Subject: [PATCH 38/50] fix: constructors leaked what they had allocated when a
 later allocation failed

---
 boofcpp/src/boofcv/contour.cpp   | 15 ++++++++++-----
 boofcpp/src/boofcv/image_types.h | 24 ++++++++++++++++++++----
 boofcpp/src/boofcv/packed_sets.h |  9 +++++----
 3 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/boofcpp/src/boofcv/contour.cpp b/boofcpp/src/boofcv/contour.cpp
index caa447d..5220f4a 100644
--- a/boofcpp/src/boofcv/contour.cpp
+++ b/boofcpp/src/boofcv/contour.cpp
@@ -1,4 +1,5 @@
 #include <cmath>
+#include <memory>
 #include <stdexcept>
 #include "contour.h"
 
@@ -13,24 +14,28 @@ ContourTracer::ContourTracer(ConnectRule rule) :
         storagePoints(nullptr), binary(nullptr), labeled(nullptr) {
     this->rule = rule;
 
+    std::unique_ptr<uint32_t[]> next;
+
     if (ConnectRule::EIGHT == rule) {
         // start the next search +2 away from the square it came from
         // the square it came from is the opposite from the previous 'dir'
-        nextDirection = new uint32_t[8];
+        next.reset(new uint32_t[8]);
         for (uint32_t i = 0; i < 8; i++)
-            nextDirection[i] = ((i + 4) % 8 + 2) % 8;
+            next[i] = ((i + 4) % 8 + 2) % 8;
         ruleN = 8;
     } else if (ConnectRule::FOUR == rule) {
-        nextDirection = new uint32_t[4];
+        next.reset(new uint32_t[4]);
         for (uint32_t i = 0; i < 4; i++)
-            nextDirection[i] = ((i + 2) % 4 + 1) % 4;
+            next[i] = ((i + 2) % 4 + 1) % 4;
         ruleN = 4;
     } else {
         throw std::invalid_argument("Connectivity rule must be 4 or 8");
     }
 
-    offsetsBinary = new int32_t[ruleN];
+    std::unique_ptr<int32_t[]> offsets(new int32_t[ruleN]);
     offsetsLabeled = new int32_t[ruleN];
+    offsetsBinary = offsets.release();
+    nextDirection = next.release();
 }
 
 ContourTracer::~ContourTracer() {
diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index c053203..f25ca20 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -259,8 +259,16 @@ namespace boofcv {
 
             this->num_bands = num_bands;
             bands = new T*[this->num_bands];
-            for( uint32_t i = 0; i < this->num_bands; i++ ) {
-                bands[i] = new T(width,height);
+            uint32_t declared = 0;
+            try {
+                for( ; declared < this->num_bands; declared++ ) {
+                    bands[declared] = new T(width,height);
+                }
+            } catch( ... ) {
+                while( declared > 0 )
+                    delete bands[--declared];
+                delete []bands;
+                throw;
             }
         }
 
@@ -302,8 +310,16 @@ namespace boofcv {
                 for( uint32_t i = 0; i < this->num_bands; i++ ) {
                     new_bands[i] = this->bands[i];
                 }
-                for( uint32_t i = num_bands; i < desired; i++ ) {
-                    new_bands[i] = new T(this->width,this->height);
+                uint32_t declared = this->num_bands;
+                try {
+                    for( ; declared < desired; declared++ ) {
+                        new_bands[declared] = new T(this->width,this->height);
+                    }
+                } catch( ... ) {
+                    while( declared > this->num_bands )
+                        delete new_bands[--declared];
+                    delete []new_bands;
+                    throw;
                 }
             } else if( desired < this->num_bands ) {
                 new_bands = new T*[desired];
diff --git a/boofcpp/src/boofcv/packed_sets.h b/boofcpp/src/boofcv/packed_sets.h
index 8832050..6b75266 100644
--- a/boofcpp/src/boofcv/packed_sets.h
+++ b/boofcpp/src/boofcv/packed_sets.h
@@ -2,6 +2,7 @@
 #define BOOFCPP_PACKED_SETS_H
 
 #include <cstdint>
+#include <memory>
 #include <stdexcept>
 #include <vector>
 
@@ -51,10 +52,9 @@ namespace boofcv {
         PackedSet( uint32_t size_of_block ) :
                 _size_of_block(size_of_block) ,_number_of_blocks(1), _total_element(0)
         {
+            std::unique_ptr<T[]> first(new T[_size_of_block]);
             blocks = new T*[_number_of_blocks];
-            for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
-                blocks[i] = new T[_size_of_block];
-            }
+            blocks[0] = first.release();
         }
 
         PackedSet() : PackedSet(2000) {}
@@ -118,11 +118,12 @@ namespace boofcv {
         void _add_element( const T& element ) {
             uint32_t block = _total_element/_size_of_block;
             if( block == _number_of_blocks ) {
+                std::unique_ptr<T[]> added(new T[_size_of_block]);
                 T** tmp = new T*[block+1];
                 for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
                     tmp[i] = blocks[i];
                 }
-                tmp[_number_of_blocks] = new T[_size_of_block];
+                tmp[_number_of_blocks] = added.release();
                 delete []blocks;
                 this->blocks = tmp;
                 this->_number_of_blocks++;
-- 
2.43.0


From 2e5c67a3798af7a70d9171274849ac17c7d5d3ba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:17 +0000
Subject: [PATCH 39/50] fix: assigning an interleaved image reallocates
 although its array is large enough

---
 boofcpp/src/boofcv/image_types.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index f25ca20..6b08f94 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -514,8 +514,7 @@ namespace boofcv {
             if (this->subimage && (this->width != src.width || this->height != src.height || this->num_bands != src.num_bands) ) {
                 throw invalid_argument("Shapes must match for sub images");
             } else {
-                setNumberOfBands(src.num_bands);
-                reshape(src.width, src.height);
+                reshape(src.width, src.height, src.num_bands);
             }
             // This will handle the situation where all of some of the images are sub-images
             for( uint32_t y = 0; y < this->height; y++ ) {
-- 
2.43.0


From dc1b770d199126f8e23ffa6fe2c4d790e2921505 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:21 +0000
Subject: [PATCH 40/50] fix: Gaussian blur reshaped its output before rejecting
 an invalid sigma

---
 boofcpp/src/boofcv/image_blur.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_blur.h b/boofcpp/src/boofcv/image_blur.h
index 760646e..a5b9603 100644
--- a/boofcpp/src/boofcv/image_blur.h
+++ b/boofcpp/src/boofcv/image_blur.h
@@ -242,11 +242,12 @@ namespace boofcv {
         static void gaussian(const Gray<E> &input, Gray<E> &output, double sigma, int32_t width, Gray<E> &storage) {
             typedef typename TypeInfo<E>::signed_type signed_type;
 
+            // reject an invalid sigma and width before the output is modified
+            Kernel1D<signed_type> kernel = FactoryKernel::gaussian1D<signed_type>(sigma,width);
+
             output.reshape(input.width, input.height);
             storage.reshape(input.width, input.height);
 
-            Kernel1D<signed_type> kernel = FactoryKernel::gaussian1D<signed_type>(sigma,width);
-
             ConvolveNormalized::horizontal(kernel, input, storage);
             ConvolveNormalized::vertical(kernel, storage, output);
         }
-- 
2.43.0


From 14104d22dfdd94e4840a0eb1a4636b9411a593e6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:21 +0000
Subject: [PATCH 41/50] fix: local mean threshold reshaped its output before
 rejecting an invalid width

---
 boofcpp/src/boofcv/binary_ops.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/binary_ops.h b/boofcpp/src/boofcv/binary_ops.h
index 224f171..8586240 100644
--- a/boofcpp/src/boofcv/binary_ops.h
+++ b/boofcpp/src/boofcv/binary_ops.h
@@ -178,12 +178,16 @@ namespace boofcv
                                const ConfigLength& width , float scale , bool down ,
                                Gray<T>& storage1 , Gray<T>&  storage2 ) {
 
+            uint32_t radius = (uint32_t)width.computeI(min(input.width,input.height))/2;
+
+            // reject an invalid width before the output is modified
+            if( radius <= 0 )
+                throw invalid_argument("Radius must be > 0");
+
             output.reshape(input.width, input.height);
             storage1.reshape(input.width, input.height);
             storage2.reshape(input.width, input.height);
 
-            uint32_t radius = (uint32_t)width.computeI(min(input.width,input.height))/2;
-
             Gray<T>& mean = storage1;
 
             BlurImageOps::mean(input,mean,radius,storage2);
-- 
2.43.0


From 4743fc7e167e9f1f602a0b7d4b6b4ab33ef885de Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:18 +0000
Subject: [PATCH 42/50] fix: vertical mean of floating-point images computed
 array indices in the pixel's sum type

With float the product of stride and kernel width loses its low bits beyond 2^24, so the sum of a column
read one row too many or too few in large images.
---
 boofcpp/src/boofcv/image_blur.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_blur.h b/boofcpp/src/boofcv/image_blur.h
index a5b9603..60c3244 100644
--- a/boofcpp/src/boofcv/image_blur.h
+++ b/boofcpp/src/boofcv/image_blur.h
@@ -133,7 +133,7 @@ namespace boofcv {
                                    typename std::enable_if<std::is_floating_point<E>::value >::type* = 0)
         {
             typedef typename TypeInfo<E>::sum_type sum_type;
-            sum_type kernelWidth = radius*2 + 1;
+            uint32_t kernelWidth = radius*2 + 1;
 
             uint32_t backStep = kernelWidth*input.stride;
 
-- 
2.43.0


From e3d01432ab8fcf8577a810679b08c11a9ffdf1ed Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:07 +0000
Subject: [PATCH 43/50] fix: Native convolution and blur objects can be shared
 by threads

BoofCPP.initialize() installs one object for the whole application, but each call stored the image types in it and
the native code read them back, so calls made at the same time with other types were dispatched wrongly.
---
 .../boofcpp/convolve/NativeConvolveImage.java  | 18 ++++++++++++------
 .../boofcpp/convolve/NativeImageBlurOps.java   | 12 ++++++++----
 .../NativeImageConvolveNormalized.java         | 12 ++++++++----
 3 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeConvolveImage.java b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeConvolveImage.java
index 5b7f753..60008d6 100644
--- a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeConvolveImage.java
+++ b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeConvolveImage.java
@@ -20,33 +20,39 @@ public class NativeConvolveImage extends NativeBase implements
     public void convolve(Kernel2D kernel, ImageBase input, ImageBase output, ImageBorder border) {
         if( input.getImageType().getFamily() != ImageType.Family.GRAY )
             throw new RuntimeException("Only supports gray images");
-        setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());
+        // native code reads the types from the object and this one could be shared by several threads
+        NativeConvolveImage op = new NativeConvolveImage();
+        op.setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());
 
         output.reshape(input.width,input.height);
 
-        nativeConvolve(kernel,input,output,borderToType(border).ordinal());
+        op.nativeConvolve(kernel,input,output,borderToType(border).ordinal());
     }
 
     @Override
     public void horizontal(Kernel1D kernel, ImageBase input, ImageBase output, ImageBorder border) {
         if( input.getImageType().getFamily() != ImageType.Family.GRAY )
             throw new RuntimeException("Only supports gray images");
-        setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());
+        // native code reads the types from the object and this one could be shared by several threads
+        NativeConvolveImage op = new NativeConvolveImage();
+        op.setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());
 
         output.reshape(input.width,input.height);
 
-        nativeHorizontal(kernel,input,output,borderToType(border).ordinal());
+        op.nativeHorizontal(kernel,input,output,borderToType(border).ordinal());
     }
 
     @Override
     public void vertical(Kernel1D kernel, ImageBase input, ImageBase output, ImageBorder border) {
         if( input.getImageType().getFamily() != ImageType.Family.GRAY )
             throw new RuntimeException("Only supports gray images");
-        setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());
+        // native code reads the types from the object and this one could be shared by several threads
+        NativeConvolveImage op = new NativeConvolveImage();
+        op.setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());
 
         output.reshape(input.width,input.height);
 
-        nativeVertical(kernel,input,output,borderToType(border).ordinal());
+        op.nativeVertical(kernel,input,output,borderToType(border).ordinal());
     }
 
     public native void nativeConvolve( Kernel2D kernel, ImageBase input, ImageBase output, int borderType );
diff --git a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageBlurOps.java b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageBlurOps.java
index ee9da83..42cd7fd 100644
--- a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageBlurOps.java
+++ b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageBlurOps.java
@@ -22,9 +22,11 @@ public class NativeImageBlurOps<T extends ImageGray<T>> extends NativeBase<T>
         output.reshape(input.width,input.height);
         storage = InputSanityCheck.checkDeclare(input,storage);
 
-        setImageType(input.imageType.getImageClass());
+        // native code reads the types from the object and this one could be shared by several threads
+        NativeImageBlurOps<T> op = new NativeImageBlurOps<>();
+        op.setImageType(input.imageType.getImageClass());
 
-        nativeMean(input,output,radius,storage);
+        op.nativeMean(input,output,radius,storage);
     }
 
     public native void nativeMean( T input, T output, int radius , T storage );
@@ -37,9 +39,11 @@ public class NativeImageBlurOps<T extends ImageGray<T>> extends NativeBase<T>
         output.reshape(input.width,input.height);
         storage = InputSanityCheck.checkDeclare(input,storage);
 
-        setImageType(input.imageType.getImageClass());
+        // native code reads the types from the object and this one could be shared by several threads
+        NativeImageBlurOps<T> op = new NativeImageBlurOps<>();
+        op.setImageType(input.imageType.getImageClass());
 
-        nativeGaussian(input,output,sigma,radius,storage);
+        op.nativeGaussian(input,output,sigma,radius,storage);
     }
 
     public native void nativeGaussian( T input, T output, double sigma, int radius , T storage );
diff --git a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageConvolveNormalized.java b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageConvolveNormalized.java
index f92f934..a816cb9 100644
--- a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageConvolveNormalized.java
+++ b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageConvolveNormalized.java
@@ -19,8 +19,10 @@ public class NativeImageConvolveNormalized extends NativeBase
     public void horizontal(Kernel1D kernel, ImageBase input, ImageBase output) {
         if( input.getImageType().getFamily() != ImageType.Family.GRAY )
             throw notSupported;
-        setImageType(input.imageType.getImageClass());
-        nativehorizontal(kernel, input, output);
+        // native code reads the types from the object and this one could be shared by several threads
+        NativeImageConvolveNormalized op = new NativeImageConvolveNormalized();
+        op.setImageType(input.imageType.getImageClass());
+        op.nativehorizontal(kernel, input, output);
     }
     public native void nativehorizontal( Kernel1D kernel, ImageBase input, ImageBase output );
 
@@ -28,8 +30,10 @@ public class NativeImageConvolveNormalized extends NativeBase
     public void vertical(Kernel1D kernel, ImageBase input, ImageBase output) {
         if( input.getImageType().getFamily() != ImageType.Family.GRAY )
             throw notSupported;
-        setImageType(input.imageType.getImageClass());
-        nativevertical(kernel, input, output);
+        // native code reads the types from the object and this one could be shared by several threads
+        NativeImageConvolveNormalized op = new NativeImageConvolveNormalized();
+        op.setImageType(input.imageType.getImageClass());
+        op.nativevertical(kernel, input, output);
     }
 
     public native void nativevertical( Kernel1D kernel, ImageBase input, ImageBase output );
-- 
2.43.0


From 2194a47872c291d23d9094bf1f7eb73b3779e77c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:07 +0000
Subject: [PATCH 44/50] fix: Refuse borders which treat rows and columns
 differently

The native code only supports the same border type along both axes and silently used the one of the rows.
---
 .../main/java/org/boofcpp/convolve/NativeConvolveImage.java   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeConvolveImage.java b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeConvolveImage.java
index 60008d6..157ca74 100644
--- a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeConvolveImage.java
+++ b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeConvolveImage.java
@@ -74,6 +74,10 @@ public class NativeConvolveImage extends NativeBase implements
             }
         } else if( border instanceof ImageBorder1D) {
             BorderIndex1D row = ((ImageBorder1D)border).getRowWrap();
+            BorderIndex1D col = ((ImageBorder1D)border).getColWrap();
+
+            if( row.getClass() != col.getClass() )
+                throw new RuntimeException("Rows and columns must have the same type of border");
 
             if( row instanceof BorderIndex1D_Extend ) {
                 return BorderType.EXTENDED;
-- 
2.43.0


From 11c77502976f475c7e090085481798829357ed95 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:16 +0000
Subject: [PATCH 45/50] fix: Refuse signed 8-bit images in native wrappers

They have the same array type as unsigned images and were silently processed as unsigned.
---
 boofcpp-jni/src/main/java/org/boofcpp/NativeBase.java | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/boofcpp-jni/src/main/java/org/boofcpp/NativeBase.java b/boofcpp-jni/src/main/java/org/boofcpp/NativeBase.java
index 8e012f8..811083e 100644
--- a/boofcpp-jni/src/main/java/org/boofcpp/NativeBase.java
+++ b/boofcpp-jni/src/main/java/org/boofcpp/NativeBase.java
@@ -1,6 +1,7 @@
 package org.boofcpp;
 
 import boofcv.abst.filter.binary.InputToBinary;
+import boofcv.struct.image.ImageDataType;
 import boofcv.struct.image.ImageGray;
 import boofcv.struct.image.ImageType;
 
@@ -22,6 +23,7 @@ public abstract class NativeBase<T extends ImageGray<T>>
 
     public void setImageType( Class<T> inputType ) {
         this.imageType = ImageType.single(inputType);
+        checkSupported(this.imageType);
         this.isInteger = this.imageType.getDataType().isInteger();
         this.inputBits = this.imageType.getDataType().getNumBits();
         this.outputBits = this.imageType.getDataType().getNumBits();
@@ -29,9 +31,18 @@ public abstract class NativeBase<T extends ImageGray<T>>
 
     public void setImageType( Class<T> inputType , Class<T> outputType ) {
         this.imageType = ImageType.single(inputType);
+        checkSupported(this.imageType);
         this.outputType = ImageType.single(outputType);
         this.isInteger = this.imageType.getDataType().isInteger();
         this.inputBits = this.imageType.getDataType().getNumBits();
         this.outputBits = this.outputType.getDataType().getNumBits();
     }
+
+    /**
+     * Native code can't tell the two 8-bit types apart and would process the pixels as unsigned
+     */
+    private static void checkSupported( ImageType imageType ) {
+        if( imageType.getDataType() == ImageDataType.S8 )
+            throw new IllegalArgumentException("Signed 8-bit images are not supported");
+    }
 }
-- 
2.43.0


From 823f35685c7f8b97589ab525adbd8d83c62481f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:29 +0000
Subject: [PATCH 46/50] fix: distanceSq overflowed for unsigned 16-bit points

The squares were computed with the signed type even though the result type is large enough.
---
 boofcpp/src/boofcv/geometry_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/geometry_types.h b/boofcpp/src/boofcv/geometry_types.h
index 1ab6e34..2b9ff02 100644
--- a/boofcpp/src/boofcv/geometry_types.h
+++ b/boofcpp/src/boofcv/geometry_types.h
@@ -31,7 +31,7 @@ namespace boofcv {
         sum_type distanceSq( E x , E y ) const {
             signed_type dx = x-this->x;
             signed_type dy = y-this->y;
-            return static_cast<sum_type>(dx*dx + dy*dy);
+            return static_cast<sum_type>(dx)*static_cast<sum_type>(dx) + static_cast<sum_type>(dy)*static_cast<sum_type>(dy);
         }
 
         sum_type distanceSq( const Point2D<E>& p ) const {
-- 
2.43.0


From 5d4f5d4d67d8098cba236183518665c8c064ef65 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:04 +0000
Subject: [PATCH 47/50] fix: print and print_kernel showed only the low 32 bits
 of 64 bit integers

---
 boofcpp/src/boofcv/print_structures.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/boofcpp/src/boofcv/print_structures.h b/boofcpp/src/boofcv/print_structures.h
index f7ab211..d66b74b 100644
--- a/boofcpp/src/boofcv/print_structures.h
+++ b/boofcpp/src/boofcv/print_structures.h
@@ -29,7 +29,10 @@ namespace boofcv {
         for( uint32_t y = 0; y < a.height; y++ ) {
             printf("[ ");
             for( uint32_t x = 0; x < a.width; x++ ) {
-                printf("%02x ",a.at(x,y));
+                if( sizeof(E) > sizeof(int) )
+                    printf("%02llx ",(unsigned long long)a.at(x,y));
+                else
+                    printf("%02x ",(unsigned int)a.at(x,y));
             }
             printf("]\n");
         }
@@ -55,7 +58,7 @@ namespace boofcv {
 
         printf("Kernel1D[");
         for( uint32_t y = 0; y < a.width; y++ ) {
-            printf(" %d",a[y]);
+            printf(" %lld",(long long)a[y]);
         }
         printf(" ]\n");
     }
@@ -77,7 +80,7 @@ namespace boofcv {
         for( uint32_t y = 0; y < a.width; y++ ) {
             printf(" ");
             for( uint32_t x = 0; x < a.width; x++ ) {
-                printf(" %d", a.data[y*a.width+x]);
+                printf(" %lld", (long long)a.data[y*a.width+x]);
             }
             printf("\n");
         }
-- 
2.43.0


From 58599a9e532eaf903f09649b4ddafec943a04e94 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:05 +0000
Subject: [PATCH 48/50] fix: a kernel that failed to get memory kept the new
 width with the old elements

---
 boofcpp/src/boofcv/convolve_kernels.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 66f7c64..a644b75 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -126,9 +126,9 @@ namespace boofcv {
         void reshape( uint32_t width , uint32_t offset ) override {
             if( offset >= width )
                 throw std::invalid_argument("The offset must be inside the kernel's bounds");
+            this->data.resize(width);
             this->width = width;
             this->offset = offset;
-            this->data.resize(width);
         }
 
         E& at( uint32_t index ) const {
@@ -146,9 +146,9 @@ namespace boofcv {
         Kernel1D<E>& operator=(const Kernel1D<E>& other) // copy assignment
         {
             if (this != &other) { // self-assignment check expected
+                this->data = other.data;
                 this->width = other.width;
                 this->offset = other.offset;
-                this->data = other.data;
             }
             return *this;
         }
@@ -192,9 +192,9 @@ namespace boofcv {
         void reshape( uint32_t width , uint32_t offset ) override {
             if( offset >= width )
                 throw std::invalid_argument("The offset must be inside the kernel's bounds");
+            this->data.resize(width*width);
             this->width = width;
             this->offset = offset;
-            this->data.resize(width*width);
         }
 
         uint32_t dimension() const override  {
@@ -210,9 +210,9 @@ namespace boofcv {
         Kernel2D<E>& operator=(const Kernel2D<E>& other) // copy assignment
         {
             if (this != &other) { // self-assignment check expected
+                this->data = other.data;
                 this->width = other.width;
                 this->offset = other.offset;
-                this->data = other.data;
             }
             return *this;
         }
-- 
2.43.0


From c04a728c3be0df8456879ee86b9dee0cfb141722 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:34 +0000
Subject: [PATCH 49/50] fix: copying a packed set or contour finder freed its
 memory twice

---
 boofcpp/src/boofcv/contour.cpp   | 18 ++++++++++++++++++
 boofcpp/src/boofcv/contour.h     |  7 +++++++
 boofcpp/src/boofcv/packed_sets.h | 20 ++++++++++++++++++++
 3 files changed, 45 insertions(+)

diff --git a/boofcpp/src/boofcv/contour.cpp b/boofcpp/src/boofcv/contour.cpp
index 5220f4a..d3412e2 100644
--- a/boofcpp/src/boofcv/contour.cpp
+++ b/boofcpp/src/boofcv/contour.cpp
@@ -1,6 +1,7 @@
 #include <cmath>
 #include <memory>
 #include <stdexcept>
+#include <utility>
 #include "contour.h"
 
 using namespace boofcv;
@@ -38,6 +39,23 @@ ContourTracer::ContourTracer(ConnectRule rule) :
     nextDirection = next.release();
 }
 
+ContourTracer::ContourTracer(const ContourTracer& other) : ContourTracer(other.rule) {
+    maxContourSize = other.maxContourSize;
+}
+
+ContourTracer& ContourTracer::operator=(const ContourTracer& other) {
+    if( this != &other ) {
+        ContourTracer copy(other);
+        maxContourSize = copy.maxContourSize;
+        std::swap(rule,copy.rule);
+        std::swap(ruleN,copy.ruleN);
+        std::swap(offsetsBinary,copy.offsetsBinary);
+        std::swap(offsetsLabeled,copy.offsetsLabeled);
+        std::swap(nextDirection,copy.nextDirection);
+    }
+    return *this;
+}
+
 ContourTracer::~ContourTracer() {
     delete[]offsetsBinary;
     delete[]offsetsLabeled;
diff --git a/boofcpp/src/boofcv/contour.h b/boofcpp/src/boofcv/contour.h
index ca57014..86d57f1 100644
--- a/boofcpp/src/boofcv/contour.h
+++ b/boofcpp/src/boofcv/contour.h
@@ -65,6 +65,13 @@ namespace boofcv {
          */
         ContourTracer( ConnectRule rule );
 
+        /**
+         * Copies the configuration. {@link set_inputs} needs to be called before the copy can trace.
+         */
+        ContourTracer( const ContourTracer& other );
+
+        ContourTracer& operator=( const ContourTracer& other );
+
         ~ContourTracer();
 
         /**
diff --git a/boofcpp/src/boofcv/packed_sets.h b/boofcpp/src/boofcv/packed_sets.h
index 6b75266..c6591bc 100644
--- a/boofcpp/src/boofcv/packed_sets.h
+++ b/boofcpp/src/boofcv/packed_sets.h
@@ -4,6 +4,7 @@
 #include <cstdint>
 #include <memory>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 namespace boofcv {
@@ -59,6 +60,25 @@ namespace boofcv {
 
         PackedSet() : PackedSet(2000) {}
 
+        PackedSet( const PackedSet<T>& other ) : PackedSet(other._size_of_block) {
+            for( uint32_t i = 0; i < other._total_element; i++ ) {
+                _add_element(other.blocks[i/_size_of_block][i%_size_of_block]);
+            }
+            set_info = other.set_info;
+        }
+
+        PackedSet<T>& operator=( const PackedSet<T>& other ) {
+            if( this != &other ) {
+                PackedSet<T> copy(other);
+                std::swap(blocks,copy.blocks);
+                std::swap(_number_of_blocks,copy._number_of_blocks);
+                std::swap(_size_of_block,copy._size_of_block);
+                std::swap(_total_element,copy._total_element);
+                set_info.swap(copy.set_info);
+            }
+            return *this;
+        }
+
         ~PackedSet() {
             for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
                 delete []blocks[i];
-- 
2.43.0


From 510cf712f9e1a43c9afa181aadc7dbd0a88017b1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:32 +0000
Subject: [PATCH 50/50] fix: kernels from Java used elements outside of the
 kernel

A Java kernel's array may be longer than the kernel. The extra elements were
added to the sum which normalizes, and an array which is too short was read
past its end.
---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index 463cf5a..e847fb1 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -430,7 +430,10 @@ boofcv::Kernel1D<S32>* extractKernel1D_S32( JNIEnv *env, jobject& jkernel ) {
 
     jfieldID fid = safe_GetFieldID(env, objClass, "data", "[I");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jint length = env->GetArrayLength((jintArray)jarray);
+    // only the elements which belong to the kernel are used. The Java array can be larger
+    const uint64_t length = (uint32_t)width;
+    if( length > (uint64_t)env->GetArrayLength((jintArray)jarray) )
+        throw std::invalid_argument("The kernel is larger than its array");
 
     // copy the Java array into the kernel. Memory is declared first so that nothing can fail while the array is held
     std::unique_ptr<boofcv::Kernel1D<S32>> kernel1D(new boofcv::Kernel1D<S32>((uint32_t)width,(uint32_t)offset));
@@ -454,7 +457,10 @@ boofcv::Kernel1D<F32>* extractKernel1D_F32( JNIEnv *env, jobject& jkernel ) {
 
     jfieldID fid = safe_GetFieldID(env, objClass, "data", "[F");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jint length = env->GetArrayLength((jfloatArray)jarray);
+    // only the elements which belong to the kernel are used. The Java array can be larger
+    const uint64_t length = (uint32_t)width;
+    if( length > (uint64_t)env->GetArrayLength((jfloatArray)jarray) )
+        throw std::invalid_argument("The kernel is larger than its array");
 
     // copy the Java array into the kernel. Memory is declared first so that nothing can fail while the array is held
     std::unique_ptr<boofcv::Kernel1D<F32>> kernel1D(new boofcv::Kernel1D<F32>((uint32_t)width,(uint32_t)offset));
@@ -478,7 +484,10 @@ boofcv::Kernel2D<boofcv::S32>* extractKernel2D_S32( JNIEnv *env, jobject& jkerne
 
     jfieldID fid = safe_GetFieldID(env, objClass, "data", "[I");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jint length = env->GetArrayLength((jintArray)jarray);
+    // only the elements which belong to the kernel are used. The Java array can be larger
+    const uint64_t length = (uint64_t)(uint32_t)width*(uint32_t)width;
+    if( length > (uint64_t)env->GetArrayLength((jintArray)jarray) )
+        throw std::invalid_argument("The kernel is larger than its array");
 
     // copy the Java array into the kernel. Memory is declared first so that nothing can fail while the array is held
     std::unique_ptr<boofcv::Kernel2D<S32>> kernel2D(new boofcv::Kernel2D<S32>((uint32_t)width,(uint32_t)offset));
@@ -502,7 +511,10 @@ boofcv::Kernel2D<boofcv::F32>* extractKernel2D_F32( JNIEnv *env, jobject& jkerne
 
     jfieldID fid = safe_GetFieldID(env, objClass, "data", "[F");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jint length = env->GetArrayLength((jfloatArray)jarray);
+    // only the elements which belong to the kernel are used. The Java array can be larger
+    const uint64_t length = (uint64_t)(uint32_t)width*(uint32_t)width;
+    if( length > (uint64_t)env->GetArrayLength((jfloatArray)jarray) )
+        throw std::invalid_argument("The kernel is larger than its array");
 
     // copy the Java array into the kernel. Memory is declared first so that nothing can fail while the array is held
     std::unique_ptr<boofcv::Kernel2D<F32>> kernel2D(new boofcv::Kernel2D<F32>((uint32_t)width,(uint32_t)offset));
-- 
2.43.0

