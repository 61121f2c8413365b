From 59494d56de5c9200aa9a3cef20f1efe5dde12d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 01/52] fix: keep the periodic flag when a NURBSCurve is
 move-constructed

---
 cmmcore/nurbs.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 341a108..c88644d 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -141,6 +141,7 @@ namespace cmmcore {
                 _degree = other._degree;
                 knots = other.knots;
                 _aabb = other._aabb;
+                _periodic = other._periodic;
                 _interval = other._interval;
                 _hull = other._hull;
             }
-- 
2.43.0


From 7cc6705d57b23fe5a8ece3262ed96e150e73f069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 02/52] fix: serialize the periodic flag the curve was built
 with

The reader passes the stored value to the constructor's periodic argument, but
the writer stored the geometric is_periodic() test, so a closed polyline came
back flagged periodic (and a periodic one that does not wrap exactly lost it).
---
 cmmcore/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/serialization.h b/cmmcore/serialization.h
index 32c087e..080ae5f 100644
--- a/cmmcore/serialization.h
+++ b/cmmcore/serialization.h
@@ -117,7 +117,7 @@ namespace cmmcore {
     std::vector<uint8_t> serializeNURBSCurve(NURBSCurve &curve) {
         std::vector<uint8_t> buffer;
         serializeInt(buffer, curve.get_degree());
-        serializeBool(buffer, curve.is_periodic());
+        serializeBool(buffer, curve._periodic);
         serializeVectorVec4(buffer, curve.control_points);
         serializeVectorDouble(buffer, curve.knots);
         return buffer;
-- 
2.43.0


From 55133cb1d3212a95d8986c0307bc3cbf825f8ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 03/52] fix: report curve file write errors that surface on
 flush or close

---
 cmmcore/serialization.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmcore/serialization.h b/cmmcore/serialization.h
index 080ae5f..fa7321c 100644
--- a/cmmcore/serialization.h
+++ b/cmmcore/serialization.h
@@ -162,6 +162,8 @@ namespace cmmcore {
             return false;
         }
         file.write(reinterpret_cast<const char *>(data.data()), data.size());
+        // The bytes reach the device only when the stream is flushed and closed.
+        file.close();
         return file.good();
     }
 
-- 
2.43.0


From 85aeef339f8e877e25864212a5de67f309ccaf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 04/52] fix: bounds-check curve data while decoding it

Truncated or damaged buffers were read past their end and negative or huge
element counts were trusted.
---
 cmmcore/serialization.h | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/cmmcore/serialization.h b/cmmcore/serialization.h
index fa7321c..a043d92 100644
--- a/cmmcore/serialization.h
+++ b/cmmcore/serialization.h
@@ -143,13 +143,49 @@ namespace cmmcore {
         return buffer;
     }
 
+    // Throws unless at least `size` bytes are left between `data` and `end`
+    inline void requireBytes(const uint8_t *data, const uint8_t *end, const size_t size) {
+        if (static_cast<size_t>(end - data) < size) {
+            throw std::runtime_error("Unexpected end of serialized data");
+        }
+    }
+
+    // Throws unless an element count follows at `data`, and that many elements
+    // of at least `element_size` bytes can follow it before `end`
+    inline void requireElements(const uint8_t *data, const uint8_t *end, const size_t element_size) {
+        requireBytes(data, end, sizeof(int));
+        const int count = deserializeInt(data);
+        if (count < 0 || static_cast<size_t>(end - data) / element_size < static_cast<size_t>(count)) {
+            throw std::runtime_error("Invalid element count in serialized data");
+        }
+    }
+
+    // Deserialize a NURBSCurve object without reading at or past `end`
+    inline NURBSCurve deserializeNURBSCurve(const uint8_t *&data, const uint8_t *end) {
+        requireBytes(data, end, sizeof(int) + sizeof(uint8_t));
+        int degree = deserializeInt(data);
+        bool periodic = deserializeBool(data);
+        requireElements(data, end, 4 * sizeof(double));
+        std::vector<vec4> control_points = deserializeVectorVec4(data);
+        requireElements(data, end, sizeof(double));
+        std::vector<double> knots = deserializeVectorDouble(data);
+        if (degree < 0 || control_points.size() <= static_cast<size_t>(degree) ||
+            knots.size() != control_points.size() + static_cast<size_t>(degree) + 1) {
+            throw std::runtime_error("Inconsistent curve in serialized data");
+        }
+        return NURBSCurve(control_points, degree, knots, periodic);
+    }
+
     // Deserialize a vector of NURBSCurve objects
     std::vector<NURBSCurve> deserializeNURBSCurves(const std::vector<uint8_t> &data) {
         const uint8_t *data_ptr = data.data();
+        const uint8_t *end = data_ptr + data.size();
+        // degree, periodic flag and two element counts are the least a curve takes
+        requireElements(data_ptr, end, 3 * sizeof(int) + sizeof(uint8_t));
         int size = deserializeInt(data_ptr);
         std::vector<NURBSCurve> curves(size);
         for (int i = 0; i < size; ++i) {
-            curves[i] = deserializeNURBSCurve(data_ptr);
+            curves[i] = deserializeNURBSCurve(data_ptr, end);
         }
         return curves;
     }
-- 
2.43.0


From e242b617b18b5ed1ce86648314626088964e55a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 05/52] fix: MemoryView::size() returns the number of elements

The loop multiplied its own counter, so the result was always 1 and a zero
extent made it run forever.
---
 cmmcore/memoryview.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 54dd5ed..476da85 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -96,7 +96,7 @@ namespace cmmcore
             size_t size=1;
             for (size_t i = 0 ; i<shape_.size();i++)
             {
-                i*=shape_[i];
+                size*=shape_[i];
             }
             return size;
         }
-- 
2.43.0


From eaa40925fa4903f5707b23399c1ff184c4c6961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 06/52] fix: MemoryView::copy() copies every element and owns
 the copy safely

The copy held a single element, ignored offset and strides, did not check its
allocation, and freed the data once per copied view object.
---
 cmmcore/memoryview.h | 45 ++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 476da85..c43d916 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -8,6 +8,7 @@
 #include <stdexcept>
 #include <vector>
 #include <numeric>
+#include <memory>
 #include <iostream>
 #include <cassert>
 #include <sstream>
@@ -103,14 +104,11 @@ namespace cmmcore
         MemoryView<T>* copy() const
         {
             size_t _size=size();
-            T* ptr = (T*)malloc(_size*sizeof(T));
-            memcpy(ptr,data_,_size*sizeof(T));
-            auto* mv=new MemoryView<T>(ptr,shape_, strides_, offset_);
-            mv->is_managed_=true;
-            return mv;
-
-
-
+            std::shared_ptr<T> ptr(new T[_size], std::default_delete<T[]>());
+            copy_elements(ptr.get());
+            std::unique_ptr<MemoryView<T>> mv(new MemoryView<T>(ptr.get(),shape_));
+            mv->owner_=ptr;
+            return mv.release();
         }
         // Slice method
         MemoryView<T> slice(const std::vector<Slice>& slices) const
@@ -473,26 +471,33 @@ namespace cmmcore
             // Deserialize
             return deserialize(buffer);
         }
-        ~MemoryView()
-        {
-            if (is_managed_)
-            {
-                if (data_!=nullptr)
-                {
-                    free(data_);
-                }
-
-            }
-        }
 
     private:
-        bool is_managed_=false;
+        std::shared_ptr<T> owner_; // Set when the view owns its data (see copy())
         T* data_;
         std::vector<size_t> shape_;
         std::vector<size_t> strides_;
         size_t offset_;
 
+        // Advance a multi-index in row-major order
+        void next_index(std::vector<size_t>& indices) const
+        {
+            for (size_t d = shape_.size(); d-- > 0;)
+            {
+                if (++indices[d] < shape_[d]) return;
+                indices[d] = 0;
+            }
+        }
 
+        // Copy all elements in row-major order to contiguous memory
+        void copy_elements(T* target) const
+        {
+            std::vector<size_t> indices(shape_.size(), 0);
+            for (size_t i = 0, n = size(); i < n; ++i, next_index(indices))
+            {
+                target[i] = (*this)(indices);
+            }
+        }
 
         // Compute strides based on the current shape
         void compute_strides()
-- 
2.43.0


From 3f9f3455892ac766f5ec9ff49ae3230df4a069e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 07/52] fix: MemoryView slices with negative or large steps
 address the right elements

A start at or past the end with a negative step pointed one element too far, a
stop before the beginning lost element 0, open ends ignored the direction, and
large steps overflowed int.
---
 cmmcore/memoryview.h | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index c43d916..e3b5a5c 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -145,17 +145,25 @@ namespace cmmcore
                 else
                 {
                     // Handle range slice
-                    int start = s.has_start ? s.start : 0;
-                    int stop = s.has_stop ? s.stop : static_cast<int>(shape_[i]);
-                    int step = s.step;
+                    const long long extent = static_cast<long long>(shape_[i]);
+                    const long long step = s.step;
+                    // First and one-past-last valid position when walking in step direction
+                    const long long lower = step < 0 ? -1 : 0;
+                    const long long upper = step < 0 ? extent - 1 : extent;
+                    long long start = s.has_start ? s.start : 0;
+                    long long stop = s.has_stop ? s.stop : 0;
 
                     // Handle negative indices
-                    if (start < 0) start += static_cast<int>(shape_[i]);
-                    if (stop < 0) stop += static_cast<int>(shape_[i]);
+                    if (start < 0) start += extent;
+                    if (stop < 0) stop += extent;
 
                     // Clamp start and stop
-                    start = std::max(0, std::min(start, static_cast<int>(shape_[i])));
-                    stop = std::max(0, std::min(stop, static_cast<int>(shape_[i])));
+                    start = std::max(lower, std::min(start, upper));
+                    stop = std::max(lower, std::min(stop, upper));
+
+                    // Handle open ends
+                    if (!s.has_start) start = step < 0 ? upper : lower;
+                    if (!s.has_stop) stop = step < 0 ? lower : upper;
 
                     if (step == 0)
                     {
@@ -163,7 +171,7 @@ namespace cmmcore
                     }
 
                     // Compute the number of elements in this slice
-                    int length = 0;
+                    long long length = 0;
                     if (step > 0)
                     {
                         if (start < stop)
@@ -178,10 +186,13 @@ namespace cmmcore
                             length = (start - stop - step - 1) / (-step);
                         }
                     }
-                    length = std::max(length, 0);
+                    length = std::max(length, 0ll);
                     new_shape.push_back(static_cast<size_t>(length));
                     new_strides.push_back(strides_[i] * step);
-                    new_offset += start * strides_[i];
+                    if (length > 0)
+                    {
+                        new_offset += start * strides_[i];
+                    }
                 }
             }
 
-- 
2.43.0


From 835f2e609a3f60308789f2b3e3a61a2d2607de9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:58 +0000
Subject: [PATCH 08/52] fix: MemoryView::reshape keeps addressing the elements
 of the view

Reshaping a sliced view replaced its strides by those of a contiguous array, so
it addressed other elements of the buffer; an empty view could be reshaped to a
0-dimensional one, and running out of memory left shape and strides mismatched.
---
 cmmcore/memoryview.h | 51 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 5 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index e3b5a5c..c79ea0e 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -209,14 +209,17 @@ namespace cmmcore
         // Reshape method
         void reshape(const std::vector<size_t>& new_shape)
         {
-            size_t new_total = compute_total_size(new_shape);
-            size_t current_total = compute_total_size(shape_);
-            if (new_total != current_total)
+            MemoryView<T> result(data_, new_shape);
+            if (result.size() != size())
             {
                 throw std::invalid_argument("Total size must remain unchanged in reshape");
             }
-            shape_ = new_shape;
-            compute_strides();
+            if (size() > 0)
+            {
+                scale_strides(result);
+            }
+            shape_ = std::move(result.shape_);
+            strides_ = std::move(result.strides_);
         }
 
         // Overload the [] operator to slice the first dimension
@@ -490,6 +493,44 @@ namespace cmmcore
         std::vector<size_t> strides_;
         size_t offset_;
 
+        // Turn the row-major strides of `target`, which has as many elements as this
+        // view, into strides that walk the elements of this view in the same order
+        void scale_strides(MemoryView<T>& target) const
+        {
+            size_t i = 0, j = 0;
+            const size_t ni = shape_.size(), nj = target.shape_.size();
+            while (i < ni && j < nj)
+            {
+                // Smallest groups of dimensions of both views with the same number of elements
+                size_t i_end = i, j_end = j, i_count = shape_[i_end++], j_count = target.shape_[j_end++];
+                while (i_count != j_count)
+                {
+                    if (i_count < j_count) i_count *= shape_[i_end++];
+                    else j_count *= target.shape_[j_end++];
+                }
+                // The group must be evenly spaced in memory
+                size_t step = 0, count = 1;
+                for (size_t d = i_end; d-- > i;)
+                {
+                    if (shape_[d] == 1) continue;
+                    if (count == 1) step = strides_[d];
+                    else if (strides_[d] != step * count)
+                    {
+                        throw std::invalid_argument("Cannot reshape a view of non-contiguous data");
+                    }
+                    count *= shape_[d];
+                }
+                count = 1;
+                for (size_t d = j_end; d-- > j;)
+                {
+                    target.strides_[d] = step * count;
+                    count *= target.shape_[d];
+                }
+                i = i_end;
+                j = j_end;
+            }
+        }
+
         // Advance a multi-index in row-major order
         void next_index(std::vector<size_t>& indices) const
         {
-- 
2.43.0


From c28ebab9cc49d5a0e9a31821534f954ff1e56f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:58 +0000
Subject: [PATCH 09/52] fix: MemoryView::to_string previews the elements of the
 view

The preview stepped through memory by the first stride only, past the end of
any multi-dimensional view.
---
 cmmcore/memoryview.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index c79ea0e..9760f98 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -290,9 +290,10 @@ namespace cmmcore
 
             size_t total_elements = compute_total_size(shape_);
             size_t display_count = std::min(preview_limit, total_elements);
-            for (size_t i = 0; i < display_count; ++i)
+            std::vector<size_t> indices(shape_.size(), 0);
+            for (size_t i = 0; i < display_count; ++i, next_index(indices))
             {
-                oss << data_[offset_ + i * strides_[0]];
+                oss << (*this)(indices);
                 if (i != display_count - 1) oss << ", ";
             }
             if (display_count < total_elements)
-- 
2.43.0


From 7fa062db0a397e1f40a4eb6861ea94a35311f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:27 +0000
Subject: [PATCH 10/52] fix: serialize the elements of strided MemoryViews

The writer dumped the bytes following the first element together with the
strides of the view, so a sliced view was read back with wrong elements or past
its allocation, and a 0-dimensional view lost its element.
---
 cmmcore/memoryview.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 9760f98..ecc52f0 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -339,21 +339,26 @@ namespace cmmcore
                           reinterpret_cast<const char*>(shape_.data()),
                           reinterpret_cast<const char*>(shape_.data()) + sizeof(size_t) * ndim);
 
+            // The elements are stored contiguously whatever the layout of this view
+            const std::unique_ptr<T[]> elements(new T[size()]);
+            copy_elements(elements.get());
+            const MemoryView<T> stored(elements.get(), shape_);
+
             // Serialize Strides
             buffer.insert(buffer.end(),
-                          reinterpret_cast<const char*>(strides_.data()),
-                          reinterpret_cast<const char*>(strides_.data()) + sizeof(size_t) * strides_.size());
+                          reinterpret_cast<const char*>(stored.strides_.data()),
+                          reinterpret_cast<const char*>(stored.strides_.data()) + sizeof(size_t) * ndim);
 
             // Serialize Offset
             buffer.insert(buffer.end(),
-                          reinterpret_cast<const char*>(&offset_),
-                          reinterpret_cast<const char*>(&offset_) + sizeof(size_t));
+                          reinterpret_cast<const char*>(&stored.offset_),
+                          reinterpret_cast<const char*>(&stored.offset_) + sizeof(size_t));
 
             // Serialize Data
-            size_t data_size = compute_total_size(shape_) * sizeof(T);
+            size_t data_size = stored.size() * sizeof(T);
             buffer.insert(buffer.end(),
-                          reinterpret_cast<const char*>(data_ + offset_),
-                          reinterpret_cast<const char*>(data_ + offset_) + data_size);
+                          reinterpret_cast<const char*>(stored.data_),
+                          reinterpret_cast<const char*>(stored.data_) + data_size);
 
             return buffer;
         }
-- 
2.43.0


From 9a05c82b0add81f504316972400300161587b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:27 +0000
Subject: [PATCH 11/52] fix: validate the header of serialized MemoryViews

Oversized counts and shapes overflowed the size checks and stored strides were
trusted, so damaged data was read and addressed outside the buffers.
---
 cmmcore/memoryview.h | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index ecc52f0..66b5d32 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -7,6 +7,7 @@
 #include <cstddef>
 #include <stdexcept>
 #include <vector>
+#include <algorithm>
 #include <numeric>
 #include <memory>
 #include <iostream>
@@ -379,7 +380,7 @@ namespace cmmcore
             std::memcpy(&type_name_length, buffer.data() + pos, sizeof(size_t));
             pos += sizeof(size_t);
 
-            if (pos + type_name_length > buffer.size())
+            if (type_name_length > buffer.size() - pos)
             {
                 throw std::invalid_argument("Buffer too small to contain type name");
             }
@@ -402,7 +403,7 @@ namespace cmmcore
             pos += sizeof(size_t);
 
             // Deserialize Shape
-            if (pos + sizeof(size_t) * ndim > buffer.size())
+            if (ndim > (buffer.size() - pos) / sizeof(size_t))
             {
                 throw std::invalid_argument("Buffer too small to contain shape");
             }
@@ -429,20 +430,35 @@ namespace cmmcore
             pos += sizeof(size_t);
 
             // Deserialize Data
-            size_t total_elements = compute_total_size(shape);
-            size_t data_size = total_elements * sizeof(T);
-            if (pos + data_size > buffer.size())
+            const size_t max_elements = (buffer.size() - pos) / sizeof(T);
+            size_t total_elements = 1;
+            if (std::find(shape.begin(), shape.end(), size_t(0)) != shape.end())
+            {
+                total_elements = 0;
+            }
+            for (size_t extent : shape)
+            {
+                if (total_elements != 0 && total_elements > max_elements / extent)
+                {
+                    throw std::invalid_argument("Buffer too small to contain data");
+                }
+                total_elements *= extent;
+            }
+            if (total_elements > max_elements)
             {
                 throw std::invalid_argument("Buffer too small to contain data");
             }
+            size_t data_size = total_elements * sizeof(T);
 
             // Allocate memory for data
-            T* data = new T[total_elements];
-            std::memcpy(data, buffer.data() + pos, data_size);
+            std::unique_ptr<T[]> data(new T[total_elements]);
+            std::memcpy(data.get(), buffer.data() + pos, data_size);
             pos += data_size;
 
-            // Create MemoryView
-            return MemoryView<T>(data, shape, strides, 0);
+            // Create MemoryView; the data is contiguous, so the stored strides carry no information
+            MemoryView<T> result(data.get(), shape);
+            data.release();
+            return result;
         }
 
         // 4a. Write Serialized Data to FILE*
-- 
2.43.0


From 07ab93a0396ac617645ec7ef5480f6cc73aa3e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 12/52] fix: NURBSCurve::insert_knot refuses impossible
 insertions and keeps the curve on failure

---
 cmmcore/nurbs.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index c88644d..0ce10ad 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -243,8 +243,13 @@ namespace cmmcore {
         // Insert knots into the curve
         void insert_knot(double t, int count) {
             int n = static_cast<int>(control_points.size());
-            int new_count = n + count;
-            const std::vector<vec4> cpts = control_points;
+            int s_u = find_multiplicity(t, knots);
+            if (!(t >= knots[_degree] && t <= knots[n])) {
+                throw std::invalid_argument("Cannot insert a knot outside the curve domain.");
+            }
+            if (count < 0 || s_u + count > _degree) {
+                throw std::invalid_argument("Knot multiplicity cannot exceed the curve degree.");
+            }
 
             // Find knot span
             int span = find_span(n - 1, _degree, t, knots, false);
@@ -252,15 +257,11 @@ namespace cmmcore {
 
             // Compute new knot vector
             std::vector<double> k_v = knot_insertion_kv(knots, t, span, count);
-            int s_u = find_multiplicity(t, knots);
             // Compute new control points
-            control_points.resize(new_count);
-
-            for (int i = 0; i <= count; ++i) {
-                control_points[i] = cpts.back() - i;
-            }
-            knot_insertion(_degree, knots, cpts, t, count, s_u, span, control_points);
+            std::vector<vec4> new_control_points(n + count);
+            knot_insertion(_degree, knots, control_points, t, count, s_u, span, new_control_points);
             // Update curve
+            control_points = std::move(new_control_points);
             knots = std::move(k_v);
             update_interval();
         }
-- 
2.43.0


From 7a137187337d24af027f63adf845c59504570a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 13/52] fix: knot insertion keeps the shape of rational curves

---
 cmmcore/nurbs.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 0ce10ad..0783344 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -257,9 +257,21 @@ namespace cmmcore {
 
             // Compute new knot vector
             std::vector<double> k_v = knot_insertion_kv(knots, t, span, count);
-            // Compute new control points
+            // Compute new control points. The insertion is an affine combination of
+            // homogeneous points, while the curve stores (x, y, z, weight).
+            std::vector<vec4> cpts = control_points;
+            for (auto &p: cpts) {
+                p.x *= p.w;
+                p.y *= p.w;
+                p.z *= p.w;
+            }
             std::vector<vec4> new_control_points(n + count);
-            knot_insertion(_degree, knots, control_points, t, count, s_u, span, new_control_points);
+            knot_insertion(_degree, knots, cpts, t, count, s_u, span, new_control_points);
+            for (auto &p: new_control_points) {
+                p.x /= p.w;
+                p.y /= p.w;
+                p.z /= p.w;
+            }
             // Update curve
             control_points = std::move(new_control_points);
             knots = std::move(k_v);
-- 
2.43.0


From 41b1d990fe96ca573fdc934eed6acd3af73ebf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 14/52] fix: decompose an unclamped curve inside its domain
 only

---
 cmmcore/nurbs.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 0783344..0bdc422 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -572,6 +572,11 @@ namespace cmmcore {
             for (size_t i = 1; i < unique_knots.size() - 1; ++i) {
                 double knot = unique_knots[i];
 
+                // The outer knots of an unclamped knot vector lie outside the domain
+                if (knot <= knots[_degree] || knot >= knots[control_points.size()]) {
+                    continue;
+                }
+
                 // Split the curve at the current knot
                 auto [first, second] = temp.split(knot);
 
-- 
2.43.0


From caf8cf7d054756b062072c41fa7babf258b51f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 15/52] fix: NURBSSurface knot insertion refuses impossible
 requests and keeps the surface on failure

---
 cmmcore/nurbs.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 0bdc422..1a51267 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -862,6 +862,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         void insert_knot(const double t, const int direction, const int count) {
             if (direction == 0) {
                 int s = find_multiplicity(t, _knots_u);
+                check_insertion(t, count, s, _degree[0], _knots_u, _size[0]);
                 int span = find_span(_control_points.size() - 1, _degree[0], t, _knots_u, false);
 
                 auto kv = knot_insertion_kv(_knots_u, t, span, count);
@@ -879,27 +880,40 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 }
 
 
-                nurbs_helpers::flipControlPointsU(cpts_tmp, _control_points);
+                std::vector<std::vector<vec4> > new_control_points;
+                nurbs_helpers::flipControlPointsU(cpts_tmp, new_control_points);
 
+                _control_points = std::move(new_control_points);
                 _size[0] += count;
-
-                _knots_u = kv;
+                _knots_u = std::move(kv);
+                update_interval();
             } else {
                 insert_knot_v(t, count);
             }
         }
 
+        static void check_insertion(const double t, const int count, const int multiplicity, const int degree,
+                                    const std::vector<double> &knots, const std::size_t size) {
+            if (!(t >= knots[degree] && t <= knots[size])) {
+                throw std::invalid_argument("Cannot insert a knot outside the surface domain.");
+            }
+            if (count < 0 || multiplicity + count > degree) {
+                throw std::invalid_argument("Knot multiplicity cannot exceed the surface degree.");
+            }
+        }
+
         void insert_knot_u(double t, int count) {
             insert_knot(t, 0, count);
         }
 
         void insert_knot_v(double t, int count) {
+            int s_v = find_multiplicity(t, _knots_v);
+            check_insertion(t, count, s_v, _degree[1], _knots_v, _size[1]);
             std::size_t new_count_u = _control_points.size();
             std::size_t new_count_v = _control_points[0].size() + count;
             auto cpts = _control_points;
             int span = find_span(static_cast<int>(_size[1] - 1), _degree[1], t, _knots_v, false);
             auto k_v = knot_insertion_kv(_knots_v, t, span, count);
-            int s_v = find_multiplicity(t, _knots_v);
             std::vector<std::vector<vec4> > new_control_points(new_count_u,
                                                                std::vector<vec4>(new_count_v, {0, 0, 0, 1}));
             for (std::size_t u = 0; u < new_count_u; ++u) {
-- 
2.43.0


From 4eac9b3504966981a760db87f1cd5c4701f6c2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 16/52] fix: decompose an unclamped surface inside its domain
 only

---
 cmmcore/nurbs.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 1a51267..751a53f 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1584,7 +1584,8 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 uniqueKnots(temp._knots_u, uknots);
 
                 for (auto &knot: uknots) {
-                    if (knot != uknots[0] && knot != (uknots[uknots.size() - 1])) {
+                    // the outer knots of an unclamped knot vector lie outside the domain
+                    if (knot > _knots_u[_degree[0]] && knot < _knots_u[_size[0]]) {
                         auto [first, second] = temp.split_surface_u(knot);
 
                         bezierSurfaces.push_back(first);
@@ -1596,7 +1597,8 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 uniqueKnots(temp._knots_v, uknots);
 
                 for (auto &knot: uknots) {
-                    if (knot != uknots[0] && knot != (uknots[uknots.size() - 1])) {
+                    // the outer knots of an unclamped knot vector lie outside the domain
+                    if (knot > _knots_v[_degree[1]] && knot < _knots_v[_size[1]]) {
                         auto [first, second] = temp.split_surface_v(knot);
 
                         bezierSurfaces.push_back(first);
-- 
2.43.0


From 645bb5455d943d04433ad0a915b37c33ccb48c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 17/52] fix: isocurves of rational surfaces lie on the surface

---
 cmmcore/boundary_intersection.h | 6 ++++--
 cmmcore/nurbs.h                 | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index c2ae11a..51d292b 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -60,7 +60,8 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
             for (int j = 0; j <= degree_u; ++j) {
                 point +=  surface._control_points[span - degree_u + j][i] * basis[j];
             }
-            crv.control_points[i].set(point);
+            // curves store Euclidean points with a weight
+            crv.control_points[i].set(point.x / point.w, point.y / point.w, point.z / point.w, point.w);
         }
         crv.update_interval();
 
@@ -93,7 +94,8 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
             for (int j = 0; j <= degree_v; ++j) {
                 point += surface._control_points[i][span - degree_v + j] * basis[j];
             }
-            crv.control_points[i] = point;
+            // curves store Euclidean points with a weight
+            crv.control_points[i].set(point.x / point.w, point.y / point.w, point.z / point.w, point.w);
         }
 
         return crv;
diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 751a53f..cc18ef1 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1248,7 +1248,8 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     for (int j = 0; j <= degree_u; ++j) {
                         point += _control_points[span - degree_u + j][i] * basis[j];
                     }
-                    crv.control_points[i] = point;
+                    // curves store Euclidean points with a weight
+                    crv.control_points[i].set(point.x / point.w, point.y / point.w, point.z / point.w, point.w);
                 }
                 crv.update_interval();
 
@@ -1282,7 +1283,8 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     for (int j = 0; j <= degree_v; ++j) {
                         point += _control_points[i][span - degree_v + j] * basis[j];
                     }
-                    crv.control_points[i] = point;
+                    // curves store Euclidean points with a weight
+                    crv.control_points[i].set(point.x / point.w, point.y / point.w, point.z / point.w, point.w);
                 }
 
                 return crv;
-- 
2.43.0


From b609394798fa260f22d0ed75ab5586f8f2c2b581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 18/52] fix: free extract_isocurve keeps the surface's knots in
 the u direction

---
 cmmcore/boundary_intersection.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index 51d292b..fdd7458 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -87,6 +87,8 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
         // The curve will have as many control points as the surface has in u direction
         int m = surface._size[0];
         NURBSCurve crv(m, surface._degree[0]);
+        crv.knots = surface._knots_u;
+        crv.update_interval();
 
         // Compute control points for the extracted curve
         for (int i = 0; i < m; ++i) {
-- 
2.43.0


From 372f6d1dc130532117d606ca538ba993f2faa2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:55 +0000
Subject: [PATCH 19/52] fix: writeSTEPFile reports write, flush and close
 failures

---
 cmmcore/nurbs.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index cc18ef1..4168da5 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1528,6 +1528,8 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             if (!file.is_open()) {
                 throw std::runtime_error("Cannot open file for writing");
             }
+            // Report every failed write, flush or close
+            file.exceptions(std::ios::failbit | std::ios::badbit);
 
             // Write the STEP file header
             file << "ISO-10303-21;\n";
-- 
2.43.0


From 3afe0e2078db0bcad4815981b251b0cca49652a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:55 +0000
Subject: [PATCH 20/52] fix: STEP text assembled in memory is never silently
 truncated

---
 cmmcore/nurbs.h | 3 +++
 cmmcore/utils.h | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 4168da5..4772eea 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -694,6 +694,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
 
             // Convert weights vector to string
             std::stringstream weights_stream;
+            weights_stream.exceptions(std::ios::badbit);
             weights_stream << "(";
             for (size_t i = 0; i < control_points.size(); ++i) {
                 weights_stream << control_points[i].w;
@@ -1332,6 +1333,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
 
     // Prepare control points grid string
     std::stringstream cp_grid_stream;
+    cp_grid_stream.exceptions(std::ios::badbit);
     cp_grid_stream << "(";
     for (std::size_t i = 0; i < _size[0]; ++i) {
         cp_grid_stream << "(";
@@ -1360,6 +1362,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
 
     // Prepare weights grid string
     std::stringstream weights_stream;
+    weights_stream.exceptions(std::ios::badbit);
     weights_stream << "(";
     for (std::size_t i = 0; i < _size[0]; ++i) {
         weights_stream << "(";
diff --git a/cmmcore/utils.h b/cmmcore/utils.h
index 1dfbe74..de37093 100644
--- a/cmmcore/utils.h
+++ b/cmmcore/utils.h
@@ -111,6 +111,7 @@ inline double calc_epsilon(const double x) noexcept {
     // Additional helper function to format real numbers with precision
     inline std::string formatReal(const double value) {
         std::ostringstream ss;
+        ss.exceptions(std::ios::badbit);
         ss << std::setprecision(15) << value;
         return ss.str();
     }
@@ -133,6 +134,7 @@ inline double calc_epsilon(const double x) noexcept {
     template<typename T>
     std::string vectorToString(const std::vector<T>& vec) {
         std::ostringstream ss;
+        ss.exceptions(std::ios::badbit);
         ss << "(";
         for (std::size_t i = 0; i < vec.size(); ++i) {
             ss << vec[i];
-- 
2.43.0


From b705a9ec37d11453771a3029c322c39f31c0356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:08 +0000
Subject: [PATCH 21/52] fix: balance the parentheses of
 PRODUCT_RELATED_PRODUCT_CATEGORY

---
 cmmcore/nurbs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 4772eea..7d7152f 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1497,7 +1497,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
 
     // Create PRODUCT_RELATED_PRODUCT_CATEGORY entity
     int product_related_category_id = entity_id++;
-    out << "#" << product_related_category_id << " = PRODUCT_RELATED_PRODUCT_CATEGORY('tool','tool', (#" << product_definition_formation_id << ");\n";
+    out << "#" << product_related_category_id << " = PRODUCT_RELATED_PRODUCT_CATEGORY('tool','tool', (#" << product_definition_formation_id << "));\n";
 
     // Create APPLICATION_PROTOCOL_DEFINITION entity
     int application_protocol_def_id = entity_id++;
-- 
2.43.0


From e086ea64fdef57a5fa846b438c3553db70bfdbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 22/52] fix: STEP export does not depend on the locale

---
 cmmcore/nurbs.h | 13 ++++++++++---
 cmmcore/utils.h | 16 ++++++++++++++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 7d7152f..9548b78 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -673,11 +673,12 @@ namespace cmmcore {
          * Writes the NURBS Curve as a STEP entity.
          * Includes weights and other necessary attributes for AP242 compliance.
          *
-         * @param out Output stream to write the STEP entities.
+         * @param target Output stream to write the STEP entities.
          * @param entity_id Reference to the current entity ID, incremented as entities are written.
          * @return The STEP entity ID of the created B-spline curve.
          */
-int toSTEP(std::ostream &out, int &entity_id) const {
+int toSTEP(std::ostream &target, int &entity_id) const {
+            StepText out(target);
             // Write CARTESIAN_POINT entities with homogeneous coordinates
             std::vector<int> cp_ids(control_points.size());
             for (size_t i = 0; i < control_points.size(); ++i) {
@@ -694,6 +695,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
 
             // Convert weights vector to string
             std::stringstream weights_stream;
+            weights_stream.imbue(std::locale::classic());
             weights_stream.exceptions(std::ios::badbit);
             weights_stream << "(";
             for (size_t i = 0; i < control_points.size(); ++i) {
@@ -720,6 +722,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     << weights_stream.str()
                     << ");\n";
 
+            target << out.str();
             return curve_id;
         }
     };
@@ -1315,7 +1318,8 @@ int toSTEP(std::ostream &out, int &entity_id) const {
          * Writes comprehensive STEP entities for the NURBS surface, including geometry and presentation.
          * Updated to comply with AP242 schema.
          */
-        int toSTEP(std::ostream &out, int &entity_id) const {
+        int toSTEP(std::ostream &target, int &entity_id) const {
+    StepText out(target);
     // Write CARTESIAN_POINT entities with normalized coordinates
     std::vector<std::vector<int>> cp_ids(_size[0], std::vector<int>(_size[1]));
     for (std::size_t i = 0; i < _size[0]; ++i) {
@@ -1333,6 +1337,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
 
     // Prepare control points grid string
     std::stringstream cp_grid_stream;
+    cp_grid_stream.imbue(std::locale::classic());
     cp_grid_stream.exceptions(std::ios::badbit);
     cp_grid_stream << "(";
     for (std::size_t i = 0; i < _size[0]; ++i) {
@@ -1362,6 +1367,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
 
     // Prepare weights grid string
     std::stringstream weights_stream;
+    weights_stream.imbue(std::locale::classic());
     weights_stream.exceptions(std::ios::badbit);
     weights_stream << "(";
     for (std::size_t i = 0; i < _size[0]; ++i) {
@@ -1519,6 +1525,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
     int shape_rep_relationship_id = entity_id++;
     out << "#" << shape_rep_relationship_id << " = SHAPE_REPRESENTATION_RELATIONSHIP('', '', #" << geom_representation_id << ", #" << product_id_final << ");\n";
 
+    target << out.str();
     return bspline_surface_id;
 }
 
diff --git a/cmmcore/utils.h b/cmmcore/utils.h
index de37093..efb3b47 100644
--- a/cmmcore/utils.h
+++ b/cmmcore/utils.h
@@ -26,6 +26,8 @@ SOFTWARE.
 #include <chrono>
 #include <random>
 #include <limits>
+#include <locale>
+#include <sstream>
 #include "cmmcore/vec.h"
 namespace cmmcore {
 #define EPS_DELTA 1e-12
@@ -111,11 +113,24 @@ inline double calc_epsilon(const double x) noexcept {
     // Additional helper function to format real numbers with precision
     inline std::string formatReal(const double value) {
         std::ostringstream ss;
+        ss.imbue(std::locale::classic());
         ss.exceptions(std::ios::badbit);
         ss << std::setprecision(15) << value;
         return ss.str();
     }
 
+    // Buffer for STEP text: keeps the number format of the target stream, but does not
+    // depend on any locale.
+    class StepText : public std::ostringstream {
+    public:
+        explicit StepText(const std::ostream &target) {
+            imbue(std::locale::classic());
+            flags(target.flags());
+            precision(target.precision());
+            exceptions(std::ios::badbit);
+        }
+    };
+
     // Helper function to get the current date and time in ISO format
     inline std::string getCurrentDateTime() {
         time_t now = time(0);
@@ -134,6 +149,7 @@ inline double calc_epsilon(const double x) noexcept {
     template<typename T>
     std::string vectorToString(const std::vector<T>& vec) {
         std::ostringstream ss;
+        ss.imbue(std::locale::classic());
         ss.exceptions(std::ios::badbit);
         ss << "(";
         for (std::size_t i = 0; i < vec.size(); ++i) {
-- 
2.43.0


From 8017ebc676ea5220e2bb715da75e98361aa64bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:14 +0000
Subject: [PATCH 23/52] fix: STEP time stamps of concurrent exports do not
 share a buffer

---
 cmmcore/nurbs.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 9548b78..bc695e2 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1581,7 +1581,12 @@ int toSTEP(std::ostream &target, int &entity_id) const {
          */
         static std::string getCurrentDateTime() {
             std::time_t t = std::time(nullptr);
-            std::tm tm = *std::gmtime(&t);
+            std::tm tm{};
+#if defined(_MSC_VER)
+            gmtime_s(&tm, &t);
+#else
+            gmtime_r(&t, &tm);
+#endif
             char buffer[30];
             std::strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%S%z", &tm);
             return std::string(buffer);
-- 
2.43.0


From dce1f2044c20e633e6b27b34980b90a8b46a9a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:14 +0000
Subject: [PATCH 24/52] fix: concurrent time stamps do not share a buffer

---
 cmmcore/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/utils.h b/cmmcore/utils.h
index efb3b47..962f185 100644
--- a/cmmcore/utils.h
+++ b/cmmcore/utils.h
@@ -138,7 +138,7 @@ inline double calc_epsilon(const double x) noexcept {
 #if defined(_MSC_VER)
         localtime_s(&tstruct, &now);
 #else
-        tstruct = *localtime(&now);
+        localtime_r(&now, &tstruct);
 #endif
         char buf[80];
         strftime(buf, sizeof(buf), "%Y-%m-%dT%H:%M:%S", &tstruct);
-- 
2.43.0


From ac3f8539f66bd1a69b9ba29bea656160d660b97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 25/52] fix: a failed KDTree insertion does not count the point

---
 cmmcore/kdtree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmcore/kdtree.h b/cmmcore/kdtree.h
index 7c43e17..04cf729 100644
--- a/cmmcore/kdtree.h
+++ b/cmmcore/kdtree.h
@@ -69,8 +69,9 @@ private:
     // Recursive function to insert a point into the KD-Tree
     node_type* insertRec(node_type* node, const PT& point, int depth) {
         if (node == nullptr) {
+            node_type* leaf = new node_type(point, depth % 3);
             size_++;
-            return new node_type(point, depth % 3);
+            return leaf;
         }
 
         int axis = node->axis;
-- 
2.43.0


From f151d9335a01ca1768fe74bb50d1dbad0aeff2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 26/52] fix: a failed KDTree build keeps the existing tree and
 leaks nothing

---
 cmmcore/kdtree.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmmcore/kdtree.h b/cmmcore/kdtree.h
index 04cf729..524a49f 100644
--- a/cmmcore/kdtree.h
+++ b/cmmcore/kdtree.h
@@ -61,8 +61,13 @@ private:
 
         // Create node and construct subtrees
         node_type* node = new KDNode(*mid, axis);
-        node->left = buildKDTree(begin, mid, depth + 1);
-        node->right = buildKDTree(mid + 1, end, depth + 1);
+        try {
+            node->left = buildKDTree(begin, mid, depth + 1);
+            node->right = buildKDTree(mid + 1, end, depth + 1);
+        } catch (...) {
+            deleteKDTree(node);
+            throw;
+        }
         return node;
     }
 
@@ -171,9 +176,10 @@ public:
 
     // Build the KD-Tree from a list of points
     void build(std::vector<PT>& points) {
+        node_type* new_root = buildKDTree(points.begin(), points.end(), 0);
         deleteKDTree(root); // Clean existing tree
+        root = new_root;
         size_ = points.size();
-        root = buildKDTree(points.begin(), points.end(), 0);
     }
 
     // Insert a new point into the KD-Tree
-- 
2.43.0


From c288546cf2d661f5eaa9936483fdddba3a030f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 27/52] fix: copies of a KDTree do not share nodes

---
 cmmcore/kdtree.h | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/cmmcore/kdtree.h b/cmmcore/kdtree.h
index 524a49f..c27f78b 100644
--- a/cmmcore/kdtree.h
+++ b/cmmcore/kdtree.h
@@ -156,6 +156,21 @@ private:
         }
     }
 
+    // Recursive function to copy the KD-Tree
+    node_type* copyKDTree(const node_type* node) {
+        if (node == nullptr)
+            return nullptr;
+        node_type* copy = new node_type(node->point, node->axis);
+        try {
+            copy->left = copyKDTree(node->left);
+            copy->right = copyKDTree(node->right);
+        } catch (...) {
+            deleteKDTree(copy);
+            throw;
+        }
+        return copy;
+    }
+
     // Recursive function to delete the KD-Tree
     void deleteKDTree(node_type* node) {
         if (node == nullptr)
@@ -169,6 +184,21 @@ public:
     // Constructor
     KDTree() : root(nullptr), size_(0) {}
 
+    // Copies own their nodes
+    KDTree(const KDTree& other) : root(nullptr), size_(0) {
+        root = copyKDTree(other.root);
+        size_ = other.size_;
+    }
+    KDTree(KDTree&& other) noexcept : root(other.root), size_(other.size_) {
+        other.root = nullptr;
+        other.size_ = 0;
+    }
+    KDTree& operator=(KDTree other) noexcept {
+        std::swap(root, other.root);
+        std::swap(size_, other.size_);
+        return *this;
+    }
+
     // Destructor
     ~KDTree() {
         deleteKDTree(root);
-- 
2.43.0


From e28062be274421a3051ba031d6da62cede70850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:51 +0000
Subject: [PATCH 28/52] fix: BVHNode::setRight sets the right child

---
 cmmcore/bvh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index 6380fe4..d455702 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -136,7 +136,7 @@ public:
   explicit BVHNode(const AABB &bb, Object3D *obj = nullptr)
       : bounding_box(bb), object(obj) {}
   void setLeft(std::unique_ptr<BVHNode> &node) { left.swap(node); }
-  void setRight(std::unique_ptr<BVHNode> &node) { left.swap(node); }
+  void setRight(std::unique_ptr<BVHNode> &node) { right.swap(node); }
   // Custom copy assignment operator for deep copy
   BVHNode& operator=(const BVHNode& other) {
     if (this == &other) return *this; // Handle self-assignment
-- 
2.43.0


From 6811abcd2ef3d89d99d19b5e17252eab39e27572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:51 +0000
Subject: [PATCH 29/52] fix: copies of a BVHNode keep their objects

---
 cmmcore/bvh.hpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index d455702..d7eac95 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -124,7 +124,7 @@ public:
   BVHNode() : left(nullptr), right(nullptr), object(nullptr) {
 
   }
-  BVHNode(const BVHNode& other) : bounding_box(other.bounding_box), object(nullptr) {
+  BVHNode(const BVHNode& other) : bounding_box(other.bounding_box), object(other.object) {
     if (other.left) {
       left = std::make_unique<BVHNode>(*other.left);  // Recursively copy left subtree
     }
@@ -141,20 +141,11 @@ public:
   BVHNode& operator=(const BVHNode& other) {
     if (this == &other) return *this; // Handle self-assignment
 
-    bounding_box = other.bounding_box;
-
-    object=other.object? object : nullptr;
-
-    if (other.left) {
-      left = std::make_unique<BVHNode>(*other.left);  // Recursively copy left subtree
-    } else {
-      left.reset();  // Ensure left is null if other.left is null
-    }
-    if (other.right) {
-      right = std::make_unique<BVHNode>(*other.right);  // Recursively copy right subtree
-    } else {
-      right.reset();  // Ensure right is null if other.right is null
-    }
+    BVHNode copy(other); // other may be part of this tree
+    bounding_box = copy.bounding_box;
+    object = copy.object;
+    left.swap(copy.left);
+    right.swap(copy.right);
 
     return *this;
   }
-- 
2.43.0


From 72be32ade7b264360ffccd28c8361c6b359258a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 30/52] fix: Newton line search ends when no step is acceptable

---
 cmmcore/newthon2.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmcore/newthon2.h b/cmmcore/newthon2.h
index c8a0032..9ee6967 100644
--- a/cmmcore/newthon2.h
+++ b/cmmcore/newthon2.h
@@ -227,7 +227,8 @@ constexpr double lineSearch(const std::function<double(const Vector<N>&)>& f,
     double grad_dot_dir = dotProduct(grad, direction);
     Vector<N> new_point;
 
-    while (true) {
+    // alpha reaches zero when no step is acceptable (e.g. non-finite values)
+    while (alpha > 0.0) {
         for (size_t i = 0; i < N; ++i)
             new_point[i] = point[i] + alpha * direction[i];
         double f_new = f(new_point);
-- 
2.43.0


From 2bec1d65a7752e899c50a16613ba516a1c7e1817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 31/52] fix: concurrent random draws do not share a generator

---
 cmmcore/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/utils.h b/cmmcore/utils.h
index 962f185..fe9424c 100644
--- a/cmmcore/utils.h
+++ b/cmmcore/utils.h
@@ -64,7 +64,7 @@ inline double calc_epsilon(const double x) noexcept {
     }
     return relative_epsilon;
 }
-    inline double random_double(double const min, double const max) {static std::random_device rd;static std::mt19937 gen(rd());std::uniform_real_distribution<> dis(min, max);return static_cast<double>(dis(gen));
+    inline double random_double(double const min, double const max) {static thread_local std::mt19937 gen(std::random_device{}());std::uniform_real_distribution<> dis(min, max);return static_cast<double>(dis(gen));
 }
 
     inline vec3 random_vec3(double const min, double const max) {
-- 
2.43.0


From 1ba58fdd01d8a5bb52906b5cb9053ecf9b98048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 32/52] fix: Timer uses a monotonic clock with every standard
 library

---
 cmmcore/utils.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmmcore/utils.h b/cmmcore/utils.h
index fe9424c..b223015 100644
--- a/cmmcore/utils.h
+++ b/cmmcore/utils.h
@@ -78,21 +78,21 @@ inline double calc_epsilon(const double x) noexcept {
     }
 }
     class Timer {
-    std::chrono::high_resolution_clock::time_point _start  ;
-    std::chrono::high_resolution_clock::time_point  _end;
+    std::chrono::steady_clock::time_point _start  ;
+    std::chrono::steady_clock::time_point  _end;
         public:
         int print_format=0;
 
         long long duration;
-        Timer(int fmt=0) :_start(std::chrono::high_resolution_clock::now()),
+        Timer(int fmt=0) :_start(std::chrono::steady_clock::now()),
         _end(_start),print_format(fmt),
         duration(0) {};
         void start() {
-            this->_start=std::chrono::high_resolution_clock::now();
+            this->_start=std::chrono::steady_clock::now();
 
         }
         void stop() {
-            this->_end=std::chrono::high_resolution_clock::now();
+            this->_end=std::chrono::steady_clock::now();
             this->duration=std::chrono::duration_cast<std::chrono::nanoseconds>(_end-_start).count();
 
         }
-- 
2.43.0


From 232e72ca4fa61e324af03f9ee738cd5a25d8f9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:48 +0000
Subject: [PATCH 33/52] fix: 3D hull does not read an uninitialised dimension
 flag

---
 cmmcore/_convexhull/quickhull.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/_convexhull/quickhull.hpp b/cmmcore/_convexhull/quickhull.hpp
index c412040..f928257 100644
--- a/cmmcore/_convexhull/quickhull.hpp
+++ b/cmmcore/_convexhull/quickhull.hpp
@@ -76,8 +76,8 @@ namespace cmmcore {
         matrix matrix_;
         matrix det_matrix_;
         matrix shadow_matrix_;
-        size_type affine_dim_; // New member variable to store the affine dimension
-        bool lower_dimensional_hull_; // Flag to indicate a lower-dimensional hull
+        size_type affine_dim_{}; // New member variable to store the affine dimension
+        bool lower_dimensional_hull_ = false; // Flag to indicate a lower-dimensional hull
 
     public :
         quick_hull(size_type, value_type const &&) = delete; // bind eps to lvalue only
-- 
2.43.0


From 1d03fc15d7a7806cbb2328575e048f15446f87c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:14 +0000
Subject: [PATCH 34/52] fix: evaluating a surface point does not allocate in a
 noexcept function

---
 cmmcore/nurbs_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index c2b9de0..e0c434a 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -483,7 +483,7 @@ namespace cmmcore {
         }
 
         // Compute the surface point
-        std::vector<double> Sw(dim, 0.0);
+        vec4 Sw(0.0, 0.0, 0.0, 0.0);
         for (int l = 0; l <= q; ++l) {
             for (int d = 0; d < dim; ++d) {
                 Sw[d] += Nv[l] * temp[l][d];
-- 
2.43.0


From e99fe3165ec6d3274fe4918d8b0775d939c0c0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:22 +0000
Subject: [PATCH 35/52] fix: 3D hull of points that are flat to working
 precision is not empty

---
 cmmcore/_convexhull/quickhull.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmmcore/_convexhull/quickhull.hpp b/cmmcore/_convexhull/quickhull.hpp
index f928257..3e9112a 100644
--- a/cmmcore/_convexhull/quickhull.hpp
+++ b/cmmcore/_convexhull/quickhull.hpp
@@ -1092,6 +1092,11 @@ namespace cmmcore {
             return;
         }
         qh.create_initial_simplex(std::cbegin(initial_simplex), std::prev(std::cend(initial_simplex)));
+        if (qh.facets_.empty()) {
+            // the points are flat to working precision: there is no solid hull to build
+            hull.assign(pts.begin(), pts.end());
+            return;
+        }
         qh.create_convex_hull();
 
         // Extract the convex hull points
-- 
2.43.0


From 768ad8cb4501a3f620091b8246036973fbbecc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:35 +0000
Subject: [PATCH 36/52] fix: surface intersections in different threads do not
 race on the call counter

---
 cmmcore/ssx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/ssx.h b/cmmcore/ssx.h
index f92bcfc..56d6f73 100644
--- a/cmmcore/ssx.h
+++ b/cmmcore/ssx.h
@@ -82,7 +82,7 @@ namespace cmmcore
         uv_new.set(point_inversion_surface(surf, xyz_new, uv_old.x, uv_old.y, tol, tol, max_iter));
     }
 
-    static int counter = 0;
+    static thread_local int counter = 0; // surface pairs examined by this thread
     using UnorderedSetPairDouble = std::unordered_set<
         std::pair<double, double>, _hashimpl::PairDoubleHash, _hashimpl::PairDoubleEqual>;
 
-- 
2.43.0


From 17e13a74bb4007ec163e686cd780a09d5abc3e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:45 +0000
Subject: [PATCH 37/52] fix: knot_removal drops the removed knot's control
 points and only removable knots

---
 cmmcore/nurbs_utils.h | 62 +++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index e0c434a..dbaeabe 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -752,7 +752,8 @@ namespace cmmcore {
      * @param tol Tolerance for point distance comparison.
      * @param num Number of times to remove the knot.
      * @param is_periodic Indicates if the curve is periodic.
-     * @return New control points after knot removal.
+     * @return New control points after knot removal, one fewer per removed knot. The knot is
+     * removed at most `num` times, and only as long as the curve stays within `tol`.
      */
     inline std::vector<vec4> knot_removal(int degree, const std::vector<double> &knots,
                                                           const std::vector<vec4> &ctrlpts,
@@ -767,23 +768,29 @@ namespace cmmcore {
         int dim = static_cast<int>(ctrlpts[0].size());
 
         std::vector<vec4> ctrlpts_new = ctrlpts;
+        // Only inner knots can be removed, each as often as it occurs
+        if (s <= 0 || r <= degree || u <= knots[degree] || u >= knots[n + 1]) {
+            return ctrlpts_new;
+        }
+        num = std::min(num, std::min(s, degree));
         std::vector<vec4> temp(2 * degree + 1,vec4(0.,0.,0.,0.));
 
+        int removed = 0;
         for (int t = 0; t < num; ++t) {
-            temp[0] = ctrlpts[first - 1];
-            temp[last - first + 2] = ctrlpts[last + 1];
+            temp[0] = ctrlpts_new[first - 1];
+            temp[last - first + 2] = ctrlpts_new[last + 1];
             int i = first;
             int j = last;
             int ii = 1;
             int jj = last - first + 1;
             bool remflag = false;
 
-            while (j - i >= t) {
+            while (j - i > t) {
                 double alpha_i = knot_removal_alpha_i(u, degree, knots, t, i);
                 double alpha_j = knot_removal_alpha_j(u, degree, knots, t, j);
                 for (int k = 0; k < dim; ++k) {
-                    temp[ii][k] = (ctrlpts[i][k] - (1.0 - alpha_i) * temp[ii - 1][k]) / alpha_i;
-                    temp[jj][k] = (ctrlpts[j][k] - alpha_j * temp[jj + 1][k]) / (1.0 - alpha_j);
+                    temp[ii][k] = (ctrlpts_new[i][k] - (1.0 - alpha_i) * temp[ii - 1][k]) / alpha_i;
+                    temp[jj][k] = (ctrlpts_new[j][k] - alpha_j * temp[jj + 1][k]) / (1.0 - alpha_j);
                 }
                 i += 1;
                 j -= 1;
@@ -801,30 +808,45 @@ namespace cmmcore {
                 for (int k = 0; k < dim; ++k) {
                     ptn[k] = alpha_i * temp[ii + t + 1][k] + (1.0 - alpha_i) * temp[ii - 1][k];
                 }
-                if (point_distance(&ctrlpts[i].x, &ptn.x, dim) <= tol) {
+                if (point_distance(&ctrlpts_new[i].x, &ptn.x, dim) <= tol) {
                     remflag = true;
                 }
             }
 
-            if (remflag) {
-                i = first;
-                j = last;
-                while (j - i > t) {
-                    ctrlpts_new[i] = temp[i - first + 1];
-                    ctrlpts_new[j] = temp[j - first + 1];
-                    i += 1;
-                    j -= 1;
-                }
+            if (!remflag) {
+                break;
             }
+            i = first;
+            j = last;
+            while (j - i > t) {
+                ctrlpts_new[i] = temp[i - first + 1];
+                ctrlpts_new[j] = temp[j - first + 1];
+                i += 1;
+                j -= 1;
+            }
+            removed += 1;
 
             first -= 1;
             last += 1;
         }
 
-        int t_total = num;
-        int new_size = static_cast<int>(ctrlpts_new.size()) - t_total;
-
-        ctrlpts_new.resize(new_size);
+        if (removed > 0) {
+            // Close the gap left by the removed control points
+            int j = (2 * r - s - degree) / 2;
+            int i = j;
+            for (int k = 1; k < removed; ++k) {
+                if (k % 2 == 1) {
+                    i += 1;
+                } else {
+                    j -= 1;
+                }
+            }
+            for (int k = i + 1; k <= n; ++k) {
+                ctrlpts_new[j] = ctrlpts_new[k];
+                j += 1;
+            }
+            ctrlpts_new.resize(ctrlpts_new.size() - removed);
+        }
 
         return ctrlpts_new;
     }
-- 
2.43.0


From cced616f0db35dbefeb6b141a545e76b00f7da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:56 +0000
Subject: [PATCH 38/52] fix: a deserialized MemoryView owns its elements and
 slices keep them alive

---
 cmmcore/memoryview.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 66b5d32..24dd5f9 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -204,7 +204,9 @@ namespace cmmcore
                 new_strides.push_back(strides_[i]);
             }
 
-            return MemoryView<T>(data_, new_shape, new_strides, new_offset);
+            MemoryView<T> result(data_, new_shape, new_strides, new_offset);
+            result.owner_ = owner_;
+            return result;
         }
 
         // Reshape method
@@ -237,7 +239,9 @@ namespace cmmcore
             size_t new_offset = offset_ + index * strides_[0];
             std::vector<size_t> new_shape(shape_.begin() + 1, shape_.end());
             std::vector<size_t> new_strides(strides_.begin() + 1, strides_.end());
-            return MemoryView<T>(data_, new_shape, new_strides, new_offset);
+            MemoryView<T> result(data_, new_shape, new_strides, new_offset);
+            result.owner_ = owner_;
+            return result;
         }
 
         // Element access
@@ -451,13 +455,13 @@ namespace cmmcore
             size_t data_size = total_elements * sizeof(T);
 
             // Allocate memory for data
-            std::unique_ptr<T[]> data(new T[total_elements]);
+            std::shared_ptr<T> data(new T[total_elements], std::default_delete<T[]>());
             std::memcpy(data.get(), buffer.data() + pos, data_size);
             pos += data_size;
 
             // Create MemoryView; the data is contiguous, so the stored strides carry no information
             MemoryView<T> result(data.get(), shape);
-            data.release();
+            result.owner_ = data;
             return result;
         }
 
@@ -509,7 +513,7 @@ namespace cmmcore
         }
 
     private:
-        std::shared_ptr<T> owner_; // Set when the view owns its data (see copy())
+        std::shared_ptr<T> owner_; // Set when the view owns its data (see copy() and deserialize()); slices share it
         T* data_;
         std::vector<size_t> shape_;
         std::vector<size_t> strides_;
-- 
2.43.0


From 0cb94e5323f79801137c2ae1f949edfebd7b1e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:19 +0000
Subject: [PATCH 39/52] fix: formatted text is independent of the global locale
 and never silently truncated

---
 cmmcore/bvh.hpp      | 1 +
 cmmcore/memoryview.h | 2 ++
 cmmcore/vec.h        | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index d7eac95..ffc61d2 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -505,6 +505,7 @@ inline std::string output_bvh_nodes(const BVHNode *node) {
     return "";
 
   std::ostringstream oss;
+  oss.exceptions(std::ios::badbit);
   oss << "[" << format_vec3(node->bounding_box.min) << ","
       << format_vec3(node->bounding_box.max) << "]";
 
diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 24dd5f9..4ad57af 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -278,6 +278,8 @@ namespace cmmcore
         std::string to_string(size_t preview_limit = 10) const
         {
             std::ostringstream oss;
+            oss.imbue(std::locale::classic());
+            oss.exceptions(std::ios::badbit);
             oss << "MemoryView<" << typeid(T).name() << "> "
                 << "shape: (";
             for (size_t i = 0; i < shape_.size(); ++i)
diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index f00c74c..161d48a 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -518,6 +518,8 @@ using Vec3UnorderedMap=std::unordered_map<vec3, int, Vec3Hash, Vec3Equal>;
 
 inline std::string format_vec3(const vec3 &v) {
   std::ostringstream oss;
+  oss.imbue(std::locale::classic());
+  oss.exceptions(std::ios::badbit);
   oss << std::fixed << std::setprecision(2);
   oss << "[" << v.x << "," << v.y << "," << v.z << "]";
   return oss.str();
-- 
2.43.0


From 22dc0724c3fc6e25c2c96301895f4a896d8a9c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:36 +0000
Subject: [PATCH 40/52] fix: assigning a curve leaves the target unchanged when
 memory runs out

---
 cmmcore/nurbs.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index bc695e2..f440255 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -148,13 +148,14 @@ namespace cmmcore {
         }
 
         NURBSCurve &operator=(const NURBSCurve &other) {
-            control_points = other.control_points;
-            _degree = other._degree;
-            knots = other.knots;
-            _aabb = other._aabb;
-            _periodic = other._periodic;
-            _interval = other._interval;
-            _hull = other._hull;
+            NURBSCurve copy(other);
+            control_points.swap(copy.control_points);
+            _degree = copy._degree;
+            knots.swap(copy.knots);
+            _aabb = copy._aabb;
+            _periodic = copy._periodic;
+            _interval = copy._interval;
+            std::swap(_hull, copy._hull);
             return *this;
         };
 
-- 
2.43.0


From ee4a43865313ccad265b23cebea5ed47f8c8ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:47 +0000
Subject: [PATCH 41/52] fix: assigning a surface leaves the target unchanged
 when memory runs out

---
 cmmcore/nurbs.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index f440255..d113261 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -737,6 +737,17 @@ int toSTEP(std::ostream &target, int &entity_id) const {
 
         NURBSSurface() = default;
 
+        NURBSSurface(const NURBSSurface &other) = default;
+
+        NURBSSurface(NURBSSurface &&other) = default;
+
+        // The copy is made before anything is changed: the target keeps its value if that fails
+        NURBSSurface &operator=(const NURBSSurface &other) {
+            return *this = NURBSSurface(other);
+        }
+
+        NURBSSurface &operator=(NURBSSurface &&other) = default;
+
         NURBSSurface(const std::vector<std::vector<vec4> > &control_points, const std::array<int, 2> &degree,
                      const std::vector<double> &knots_u = {}, const std::vector<double> &knots_v = {})
             : _degree(degree), _control_points(control_points) {
-- 
2.43.0


From 7bd0b4b8732202844e3477d96a421ec4aa414b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:47 +0000
Subject: [PATCH 42/52] fix: assigning an array view leaves the target
 unchanged when memory runs out

---
 cmmcore/memoryview.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 4ad57af..3143548 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -78,6 +78,15 @@ namespace cmmcore
             : data_(data), shape_(shape), strides_(strides), offset_(offset)
         {
         }
+        MemoryView(const MemoryView& other) = default;
+        MemoryView(MemoryView&& other) = default;
+        // The copy is made before anything is changed: the target keeps its value if that fails
+        MemoryView& operator=(const MemoryView& other)
+        {
+            return *this = MemoryView(other);
+        }
+        MemoryView& operator=(MemoryView&& other) = default;
+
         T* data()
         {
             return data_;
-- 
2.43.0


From c46225714d1ea6941241fe69746c1d51b7c0a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:06 +0000
Subject: [PATCH 43/52] fix: STEP entity numbers do not follow the integer
 format of the caller's stream

---
 cmmcore/utils.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmmcore/utils.h b/cmmcore/utils.h
index b223015..cdde745 100644
--- a/cmmcore/utils.h
+++ b/cmmcore/utils.h
@@ -119,13 +119,14 @@ inline double calc_epsilon(const double x) noexcept {
         return ss.str();
     }
 
-    // Buffer for STEP text: keeps the number format of the target stream, but does not
-    // depend on any locale.
+    // Buffer for STEP text: keeps the format of real numbers of the target stream, but does
+    // not depend on any locale, nor on the target's format of integers (entity numbers).
     class StepText : public std::ostringstream {
     public:
         explicit StepText(const std::ostream &target) {
             imbue(std::locale::classic());
-            flags(target.flags());
+            flags(std::ios::dec | (target.flags() & (std::ios::floatfield | std::ios::showpoint | std::ios::uppercase)));
+            if ((flags() & std::ios::floatfield) == std::ios::floatfield) unsetf(std::ios::floatfield); // no hexadecimal reals
             precision(target.precision());
             exceptions(std::ios::badbit);
         }
-- 
2.43.0


From 819e6c2f6259f5b373362f9d3070285a9938b8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:02 +0000
Subject: [PATCH 44/52] fix: the bounding box of a rational curve encloses it

---
 cmmcore/nurbs.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index d113261..ff3f54a 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -541,10 +541,11 @@ namespace cmmcore {
         AABB _aabb{};
         // Helper methods
         void rebuildAABB() {
-            _aabb.min.set(control_points[0].to_vec3());
-            _aabb.max.set(control_points[0].to_vec3());
-            for (auto p: control_points) {
-                _aabb.expand(p.to_vec3());
+            const auto &first = control_points[0];
+            _aabb.min.set(first.x, first.y, first.z);
+            _aabb.max.set(first.x, first.y, first.z);
+            for (const auto &p: control_points) {
+                _aabb.expand(vec3(p.x, p.y, p.z));
             }
         }
 
-- 
2.43.0


From 7dd7902b3cad9c6ae1c575d24273f31ea07c7098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:54 +0000
Subject: [PATCH 45/52] fix: closing a curve leaves it unchanged when memory
 runs out

---
 cmmcore/nurbs.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index ff3f54a..1450cb0 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -225,8 +225,13 @@ namespace cmmcore {
             for (int i = 0; i < _degree; ++i) {
                 new_control_points[n + i] = control_points[i];
             }
-            control_points = std::move(new_control_points);
-            generate_knots_periodic();
+            NURBSCurve closed{};
+            closed._degree = _degree;
+            closed.control_points = std::move(new_control_points);
+            closed.generate_knots_periodic();
+            control_points.swap(closed.control_points);
+            knots.swap(closed.knots);
+            _interval = closed._interval;
             _periodic = true;
         }
 
-- 
2.43.0


From 482b185e059adb70998104ab0549cdd70c9ccf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:54 +0000
Subject: [PATCH 46/52] fix: replacing the control points of a curve updates
 its bounding box, and leaves it unchanged when memory runs out

---
 cmmcore/nurbs.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 1450cb0..a48bf36 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -500,13 +500,21 @@ namespace cmmcore {
 
         void set_control_points(const std::vector<vec4> &cpts) {
             bool change_size = (cpts.size() != control_points.size());
-            control_points = std::move(cpts);
+            NURBSCurve changed{};
+            changed._degree = _degree;
+            changed.control_points = cpts;
             if (change_size) {
                 if (_periodic) {
-                    generate_knots_periodic();
+                    changed.generate_knots_periodic();
                 } else {
-                    generate_knots();
+                    changed.generate_knots();
                 }
+                knots.swap(changed.knots);
+                _interval = changed._interval;
+            }
+            control_points.swap(changed.control_points);
+            if (!control_points.empty()) {
+                rebuildAABB();
             }
         }
 
-- 
2.43.0


From 719eb2263dd13728aea6c1269b494a0303a6fee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:49 +0000
Subject: [PATCH 47/52] fix: curves taken from a surface have a bounding box

---
 cmmcore/boundary_intersection.h | 2 ++
 cmmcore/nurbs.h                 | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index fdd7458..5496419 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -65,6 +65,7 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
         }
         crv.update_interval();
 
+        crv.rebuildAABB();
         return crv;
     }
     else {  // direction == "v"
@@ -100,6 +101,7 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
             crv.control_points[i].set(point.x / point.w, point.y / point.w, point.z / point.w, point.w);
         }
 
+        crv.rebuildAABB();
         return crv;
     }
 }
diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index a48bf36..c3d657c 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1283,6 +1283,7 @@ int toSTEP(std::ostream &target, int &entity_id) const {
                 }
                 crv.update_interval();
 
+                crv.rebuildAABB();
                 return crv;
             } else {
                 // For v-direction: fix v and vary u
@@ -1317,6 +1318,7 @@ int toSTEP(std::ostream &target, int &entity_id) const {
                     crv.control_points[i].set(point.x / point.w, point.y / point.w, point.z / point.w, point.w);
                 }
 
+                crv.rebuildAABB();
                 return crv;
             }
         }
-- 
2.43.0


From bbc845bf6d7f50f34c0a1b282d060025fed060ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:29 +0000
Subject: [PATCH 48/52] fix: monomial results do not depend on what the result
 object held before

---
 cmmcore/monomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/monomial.h b/cmmcore/monomial.h
index 8f2fe7c..666806e 100644
--- a/cmmcore/monomial.h
+++ b/cmmcore/monomial.h
@@ -31,7 +31,7 @@ namespace cmmcore
     template <typename T>
     using Tensor2D = std::vector<std::vector<T>>;
 #define CMMCORE_CREATE_TENSOR2D(n,m,typ,...) std::vector(n, std::vector<typ>(m, {__VA_ARGS__}))
-#define CMMCORE_RESIZE_TENSOR2D(var,n,m,typ,...) var.resize(n, std::vector<typ>(m, {__VA_ARGS__}))
+#define CMMCORE_RESIZE_TENSOR2D(var,n,m,typ,...) var.assign(n, std::vector<typ>(m, {__VA_ARGS__}))
 
     template <typename T>
     inline void getVectorTensor2DComponent(Tensor2D<T>& arr, int component, MatrixD& result)
-- 
2.43.0


From 5e6627fd30ef3baaf23a2882013022a6aefb7e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:41 +0000
Subject: [PATCH 49/52] fix: get_derivative replaces everything in the curve it
 writes to

---
 cmmcore/nurbs.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index c3d657c..a110027 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -462,10 +462,7 @@ namespace cmmcore {
         }
 
         void get_derivative(NURBSCurve &derivative) const {
-            get_nurbs_derivative(_degree, knots, control_points, derivative._degree, derivative.knots,
-                                 derivative.control_points);
-
-            derivative.update_interval();
+            derivative = get_derivative();
         }
 
         NURBSCurve get_derivative() const {
@@ -473,6 +470,9 @@ namespace cmmcore {
             get_nurbs_derivative(_degree, knots, control_points, derivative._degree, derivative.knots,
                                  derivative.control_points);
             derivative.update_interval();
+            if (!derivative.control_points.empty()) {
+                derivative.rebuildAABB();
+            }
             return derivative;
         }
 
-- 
2.43.0


From 949112250233c05dfa190a56b6b77714cf27c8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:10 +0000
Subject: [PATCH 50/52] fix: the derivative of a surface knows its size and
 domain

---
 cmmcore/nurbs.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index a110027..e089da2 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1223,6 +1223,10 @@ int toSTEP(std::ostream &target, int &entity_id) const {
             result._degree = new_degrees;
             result._knots_u = direction == 0 ? new_knots : _knots_u;
             result._knots_v = direction == 1 ? new_knots : _knots_v;
+            result._size = {direction == 0 ? _size[0] - 1 : _size[0], direction == 1 ? _size[1] - 1 : _size[1]};
+            if (!result._knots_u.empty() && !result._knots_v.empty()) {
+                result.update_interval();
+            }
         }
 
         NURBSSurface get_derivative(int direction) const {
-- 
2.43.0


From 01a2c2a4841e7c85dd458f39125d5f90e373d483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:51 +0000
Subject: [PATCH 51/52] fix: the cross product of surfaces reads only control
 points that exist

---
 cmmcore/nurbs.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index e089da2..972c1d0 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1673,19 +1673,25 @@ int toSTEP(std::ostream &target, int &entity_id) const {
         //if (a._size != b._size || a._knots_u != b._knots_u || a._knots_v != b._knots_v) {
         //    throw std::invalid_argument("Surfaces must have the same size and knot vectors");
         //}
-        result._control_points.resize(a._size[0],
-                                      std::vector<vec4>(a._size[1],
-                                                        {0., 0., 0., 1.}
-                                      )
+        // control point [k][j] of `a` is paired with control point [j][k] of `b`
+        if (b._size[0] < a._size[1] || b._size[1] < a._size[0]) {
+            throw std::invalid_argument("The second surface has too few control points");
+        }
+        std::vector<std::vector<vec4> > control_points(a._size[0],
+                                                       std::vector<vec4>(a._size[1],
+                                                                         {0., 0., 0., 1.}
+                                                       )
         );
-        result._knots_u = a._knots_u;
-        result._knots_v = b._knots_v;
-        result._degree = {a._degree[0], b._degree[1]};
         for (int k = 0; k < a._size[0]; ++k) {
             for (int j = 0; j < a._size[1]; ++j) {
-                a._control_points[k][j].cross(b._control_points[j][k], result._control_points[k][j]);
+                a._control_points[k][j].cross(b._control_points[j][k], control_points[k][j]);
             }
         }
+        result._size = a._size;
+        result._knots_u = a._knots_u;
+        result._knots_v = b._knots_v;
+        result._degree = {a._degree[0], b._degree[1]};
+        result._control_points = std::move(control_points);
         result.update_interval();
     }
 
-- 
2.43.0


From 35c7f0da858a986bb1c68bfee95686210c1c7dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:16 +0000
Subject: [PATCH 52/52] fix: assigning a power-basis surface replaces all of it

---
 cmmcore/monomial.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmmcore/monomial.h b/cmmcore/monomial.h
index 666806e..2419950 100644
--- a/cmmcore/monomial.h
+++ b/cmmcore/monomial.h
@@ -250,8 +250,13 @@ namespace cmmcore
         Monomial2D& operator=(const Monomial2D& other)
         {
             if (this == &other) return *this; // Handle self-assignment
-            n = other.n, m = other.m;
-            coefficients = other.coefficients;
+            Monomial2D copy(other);
+            n = copy.n, m = copy.m;
+            coefficients.swap(copy.coefficients);
+            std::swap(Mu, copy.Mu);
+            std::swap(Mv, copy.Mv);
+            std::swap(Mu_inv, copy.Mu_inv);
+            std::swap(Mv_inv, copy.Mv_inv);
             return *this;
         }
     };
-- 
2.43.0

