From 5a070c9ea6eeea6ffb47f2d7ee5ecfe95ab9d84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:14 +0000
Subject: [PATCH 01/31] fix: element lookup on a view added the view offset
 twice

---
 src/tensor/tensor.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 80d0fb6..1abb295 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -62,9 +62,7 @@ impl<T: Type> Tensor<T> {
     pub fn get(&self, offset: usize) -> Option<&T> {
         unsafe {
             if offset < self.size {
-                let count = offset + self.offset;
-
-                self.as_ptr().add(count).as_ref()
+                self.as_ptr().add(offset).as_ref()
             } else {
                 None
             }
-- 
2.43.0


From fc5e8ab62359d94c88b105dda8261f5794954f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:15 +0000
Subject: [PATCH 02/31] fix: wrapped windows of a view added the view offset
 twice

---
 src/tensor/tensor.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 1abb295..7ba66c0 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -110,11 +110,10 @@ impl<T: Type> Tensor<T> {
             offset % self.size
         };
 
-        let count = self.offset + offset;
-        assert!(count + len <= self.size);
+        assert!(offset + len <= self.size);
 
         unsafe {
-            ptr::slice_from_raw_parts(self.as_ptr().add(count), len)
+            ptr::slice_from_raw_parts(self.as_ptr().add(offset), len)
                 .as_ref()
                 .unwrap()
         }
-- 
2.43.0


From b129f13afd664b752e5274dce9d9b0ab5ffc121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:15 +0000
Subject: [PATCH 03/31] fix: three- and four-dimensional indexing tested the
 size instead of the rank

---
 src/tensor/index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/index.rs b/src/tensor/index.rs
index 8999e1a..324f365 100644
--- a/src/tensor/index.rs
+++ b/src/tensor/index.rs
@@ -42,7 +42,7 @@ impl<T: Type> Index<(usize, usize, usize)> for Tensor<T> {
 
     fn index(&self, index: (usize, usize, usize)) -> &Self::Output {
         let shape = self.shape();
-        let len = shape.size();
+        let len = shape.rank();
 
         assert!(len > 2);
         assert!(index.0 < shape.rdim(2));
@@ -65,7 +65,7 @@ impl<T: Type> Index<(usize, usize, usize, usize)> for Tensor<T> {
 
     fn index(&self, index: (usize, usize, usize, usize)) -> &Self::Output {
         let shape = self.shape();
-        let len = shape.size();
+        let len = shape.rank();
 
         assert!(len > 3);
         assert!(index.0 < shape.rdim(3));
-- 
2.43.0


From e99e6d614779d7ebd90591dba68d08a517be27f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:16 +0000
Subject: [PATCH 04/31] fix: flat sub-range accepted one element for an empty
 shape

---
 src/tensor/tensor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 7ba66c0..10c681e 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -142,7 +142,7 @@ impl<T: Type> Tensor<T> {
         let shape = shape.into();
 
         let shape_len : usize = shape.size();
-        assert!(shape_len == len || shape.size() == 0 && len == 1);
+        assert!(shape_len == len);
 
         Self {
             shape,
-- 
2.43.0


From 4e43b49bc814003fdc60edb983657ed73054b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:16 +0000
Subject: [PATCH 05/31] fix: squeezing a named axis looked at the next axis

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 4a8552a..d404bfa 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -317,7 +317,7 @@ impl Shape {
             Some(axis) => {
                 let len = self.rank;
                 let axis = (axis + len as isize) % len as isize;
-                let axis = self.rank as usize - axis as usize;
+                let axis = self.rank as usize - 1 - axis as usize;
                 
                 let mut rank = 0;
                 let mut dims = [0; Self::MAX_RANK];
-- 
2.43.0


From 4c52b9b13520d39c6347bb09aa74e932c245a5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:16 +0000
Subject: [PATCH 06/31] fix: normalize wrote elements to the wrong position for
 inner axes

---
 src/tensor/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/map.rs b/src/tensor/map.rs
index a25a3ba..897d102 100644
--- a/src/tensor/map.rs
+++ b/src/tensor/map.rs
@@ -619,7 +619,7 @@ where
                     for k in 0..a_len {
                         let v = &a[(n * a_len + k) * inner + i];
 
-                        o.add((n * inner + i) * a_len + k)
+                        o.add((n * a_len + k) * inner + i)
                             .write((norm)(&state, v));
                     }
                 }
-- 
2.43.0


From c210442fd82bd40590c59d6dd06b97b7b462dd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:17 +0000
Subject: [PATCH 07/31] fix: row fold of a vector along its axis folded the row
 once per element

---
 src/tensor/axis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/axis.rs b/src/tensor/axis.rs
index 479fcc9..b8a132b 100644
--- a/src/tensor/axis.rs
+++ b/src/tensor/axis.rs
@@ -81,7 +81,7 @@ impl Axis {
                 assert!(axis < rank);
             
                 if rank == 1 {
-                    return (Shape::from([cols]), 1, shape.size(), 1)
+                    return (Shape::from([cols]), 1, 1, 1)
                 }
 
                 assert!(axis + 1 < rank);
-- 
2.43.0


From b669731e2dc6e8f525738256f3e5852d845d374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:17 +0000
Subject: [PATCH 08/31] fix: matmul result shape was transposed and batches
 were not checked

---
 src/linalg/matmul.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linalg/matmul.rs b/src/linalg/matmul.rs
index e9c13bb..3343999 100644
--- a/src/linalg/matmul.rs
+++ b/src/linalg/matmul.rs
@@ -44,8 +44,8 @@ pub fn matmul(a: &Tensor, b: &Tensor) -> Tensor {
 pub fn matmul_t<T: TransposeMatmul>(a: &Tensor, b: &Tensor, transpose: T) -> Tensor {
     //assert_eq!(M, N, "matrix multiplication requires matching dim >= 2");
     assert!(a.rank() > 1, "matrix multiplication requires rank >= 2");
-    // todo!() - re-enable this assertion
-    //assert_eq!(&a.shape().as_subslice(2..), &b.shape().as_subslice(2..), "matmul batch shape must match");
+    assert_eq!(a.rank(), b.rank(), "matmul batch shape must match");
+    assert_eq!(a.shape().as_vec()[..a.rank() - 2], b.shape().as_vec()[..b.rank() - 2], "matmul batch shape must match");
 
     let (m, _, n) = transpose.mkn(a, b);
 
@@ -54,7 +54,7 @@ pub fn matmul_t<T: TransposeMatmul>(a: &Tensor, b: &Tensor, transpose: T) -> Ten
     let b_size = b.rows() * b.cols();
     let o_size = m * n;
 
-    let shape = b.shape().clone().with_cols(m).with_rows(n);
+    let shape = b.shape().clone().with_cols(n).with_rows(m);
 
     unsafe {
         unsafe_init::<f32>(o_size * batch_len, shape, |o| {
-- 
2.43.0


From f6d1deecc795c5166b8829f5b6a5322dc9272c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:18 +0000
Subject: [PATCH 09/31] fix: rfft_norm took the number of rows from the outer
 dimension only

---
 src/signal/rfft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal/rfft.rs b/src/signal/rfft.rs
index 4c1b322..c18237c 100644
--- a/src/signal/rfft.rs
+++ b/src/signal/rfft.rs
@@ -9,7 +9,7 @@ pub fn rfft_norm(tensor: impl Into<Tensor>, opt: impl FftOpt) -> Tensor {
     let tensor = tensor.into();
     let opt = opt.into_arg();
     let len = tensor.cols();
-    let batch = tensor.len() / len;
+    let batch = tensor.size() / len;
 
     let mut planner = FftPlanner::<f32>::new();
     let fft_fwd = planner.plan_fft_forward(len);
-- 
2.43.0


From 630e814a93294ebbce72a295e935c18707d27bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:18 +0000
Subject: [PATCH 10/31] fix: histogram2d took the per-column extremes from a
 whole-tensor reduction

---
 src/stats/histogram2d.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stats/histogram2d.rs b/src/stats/histogram2d.rs
index d907428..dabb31f 100644
--- a/src/stats/histogram2d.rs
+++ b/src/stats/histogram2d.rs
@@ -8,8 +8,8 @@ pub fn histogram2d(data: impl Into<Tensor>, args: impl Into<Hist2Args>) -> (Tens
     let args = args.into();
     // let min = data.reduce_min_opt(0);
     // let max = data.reduce_max_opt(0);
-    let min = data.reduce_min();
-    let max = data.reduce_max();
+    let min = data.reduce_min_axis(0);
+    let max = data.reduce_max_axis(0);
     let (min_x, min_y) = (min[0], min[1]);
     let (max_x, max_y) = (max[0], max[1]);
 
-- 
2.43.0


From 855250ca4fb92f994698885627ab285de7247faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:19 +0000
Subject: [PATCH 11/31] fix: descending arange moved away from its end

---
 src/init/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init/vector.rs b/src/init/vector.rs
index c976b77..de1a4e9 100644
--- a/src/init/vector.rs
+++ b/src/init/vector.rs
@@ -25,7 +25,7 @@ pub fn arange(start: f32, end: f32, step: f32) -> Tensor {
 
         while end < start {
             vec.push(start);
-            start -= step;
+            start += step;
         }
 
         Tensor::from(vec)
-- 
2.43.0


From 207ae4ae106f18e692cc066c56b1f6873b663298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:19 +0000
Subject: [PATCH 12/31] fix: 64-bit uniform values were scaled by the 32-bit
 range

---
 src/random/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.rs b/src/random/random.rs
index 94c5be3..c92d42a 100644
--- a/src/random/random.rs
+++ b/src/random/random.rs
@@ -76,7 +76,7 @@ impl Rand64 {
 
     #[inline]
     pub fn next_uniform(&mut self) -> f64 {
-        self.next() as f64 / u32::MAX as f64
+        self.next() as f64 / u64::MAX as f64
     }
 
     #[inline]
-- 
2.43.0


From 546cc5ae8d46271dbd44b58ce009c20da17ba942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:19 +0000
Subject: [PATCH 13/31] fix: normal draws were infinite or NaN when the first
 uniform draw is zero

---
 src/random/random.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/random/random.rs b/src/random/random.rs
index c92d42a..659f68a 100644
--- a/src/random/random.rs
+++ b/src/random/random.rs
@@ -33,7 +33,7 @@ impl Rand32 {
 
     #[inline]
     pub fn next_normal(&mut self) -> f32 {
-        let rng_a = self.next_uniform();
+        let rng_a = self.next_uniform().max(f32::MIN_POSITIVE);
         let rng_b = self.next_uniform();
 
         // Box-Muller
@@ -81,7 +81,7 @@ impl Rand64 {
 
     #[inline]
     pub fn next_normal(&mut self) -> f64 {
-        let rng_a = self.next_uniform();
+        let rng_a = self.next_uniform().max(f64::MIN_POSITIVE);
         let rng_b = self.next_uniform();
 
         // Box-Muller
-- 
2.43.0


From 11fe6470c61cf68abdf2769c425b835f35c72521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:20 +0000
Subject: [PATCH 14/31] fix: unstack returned no pieces for the first axis and
 the whole tensor for others

---
 src/array/stack.rs | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/array/stack.rs b/src/array/stack.rs
index c565cb3..77cafa5 100644
--- a/src/array/stack.rs
+++ b/src/array/stack.rs
@@ -154,24 +154,13 @@ impl<T: Type + Clone> Tensor<T> {
     
         let axis = axis.axis_from_rank(self.rank());
     
-        let cuts = Vec::<usize>::new();
-    
-        if axis == 0 {
-            let mut slices = Vec::<Tensor<T>>::new();
-    
-            let mut prev = 0;
-            for i in cuts {
-                if i != prev {
-                    slices.push(self.subslice(prev, i - prev));
-                }
-                prev = i;
-            }
-        
-    
-            slices
-        } else {
-            self.split_axis(Axis::axis(axis as isize), cuts)
-        }
+        self.split_axis(Axis::axis(axis as isize), self.dim(axis))
+            .into_iter()
+            .map(|t| {
+                let shape = t.shape().clone().remove(axis);
+                t.reshape(shape)
+            })
+            .collect()
     }
 }
 
-- 
2.43.0


From b0c5edd8906476bebb9fa6d8bb11b47a3544f94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:20 +0000
Subject: [PATCH 15/31] fix: appending to a shape produced an impossible rank

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index d404bfa..d29a481 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -249,7 +249,7 @@ impl Shape {
 
         Self {
             dims,
-            rank: self.rank + dims.len(),
+            rank: self.rank + tail.len(),
         }
     }
 
-- 
2.43.0


From 95dc1066b8025db03d255d2891bf1c89b2c63bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:21 +0000
Subject: [PATCH 16/31] fix: inserting an outermost dimension was refused at
 rank five

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index d29a481..9d3f976 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -392,7 +392,7 @@ impl Shape {
     #[must_use]
     #[inline]
     pub fn rinsert(mut self, axis: usize, len: usize) -> Shape {
-        assert!(axis + 1 < Self::MAX_RANK);
+        assert!(axis <= self.rank && self.rank < Self::MAX_RANK);
 
         for i in (axis..self.rank).rev() {
             self.dims[i + 1] = self.dims[i];
-- 
2.43.0


From 4c94ea621c81875227404ce9aed07daf44291ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:21 +0000
Subject: [PATCH 17/31] fix: batch_len multiplied the inner instead of the
 outer dimensions

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 9d3f976..c41d679 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -149,7 +149,7 @@ impl Shape {
         let rank = self.rank();
 
         if base_rank < rank {
-            self.dims[0..rank - base_rank].iter().product::<u32>() as usize
+            self.dims[base_rank..rank].iter().product::<u32>() as usize
         } else {
             1
         }
-- 
2.43.0


From 823d03142fd549c069b6aa4e1a0461c102a4db72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:22 +0000
Subject: [PATCH 18/31] fix: zero-sized allocations were undefined and
 allocation failure unchecked

---
 src/tensor/data.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tensor/data.rs b/src/tensor/data.rs
index 1ad5c1a..e12c7e8 100644
--- a/src/tensor/data.rs
+++ b/src/tensor/data.rs
@@ -88,7 +88,12 @@ pub unsafe fn unsafe_init<T: Type>(
     let shape = shape.into();
 
     let layout = Layout::array::<T>(len).unwrap();
-    let data = NonNull::<T>::new_unchecked(alloc::alloc(layout).cast::<T>());
+    let data = if layout.size() == 0 {
+        NonNull::<T>::dangling()
+    } else {
+        NonNull::<T>::new(alloc::alloc(layout).cast::<T>())
+            .unwrap_or_else(|| alloc::handle_alloc_error(layout))
+    };
 
     (init)(data.cast::<T>().as_mut());
 
-- 
2.43.0


From 6b42d9b86bcedacbaeeed3aeb3ff18f6cb2f3883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:22 +0000
Subject: [PATCH 19/31] fix: read_file ignored short reads

---
 src/io/read_file.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/io/read_file.rs b/src/io/read_file.rs
index 93f739f..2e745a8 100644
--- a/src/io/read_file.rs
+++ b/src/io/read_file.rs
@@ -8,9 +8,8 @@ pub fn read_file(filename: impl Into<Tensor<String>>) -> Result<Tensor<u8>, std:
 
     let mut data: Vec<u8> = Vec::new();
     data.reserve_exact(len as usize);
-    data.resize(len as usize, 0);
 
-    file.read(data.as_mut_slice())?;
+    file.read_to_end(&mut data)?;
 
     Ok(Tensor::from(data))
 }
-- 
2.43.0


From 39b5e731956be753b5b0208eb8f3a7f31975b267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:23 +0000
Subject: [PATCH 20/31] fix: mapping over empty tensors divided by zero

---
 src/tensor/map.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tensor/map.rs b/src/tensor/map.rs
index 897d102..8bd911a 100644
--- a/src/tensor/map.rs
+++ b/src/tensor/map.rs
@@ -291,9 +291,9 @@ where
     let a_len = a.size();
     let b_len = b.size();
 
-    let size = a_len.max(b_len);
+    let size = shape.size();
     let inner = a_len.min(b_len);
-    let batch = size / inner;
+    let batch = size / inner.max(1);
 
     assert!(batch * inner == size, "broadcast mismatch a.len={} b.len={}", a_len, b_len);
     
@@ -376,9 +376,9 @@ where
     let b_len = b.size();
     let c_len = c.size();
 
-    let size = a_len.max(b_len).max(c_len);
+    let size = shape.size();
     let inner = a_len.min(b_len).min(c_len);
-    let batch = size / inner;
+    let batch = size / inner.max(1);
 
     assert!(batch * inner == size, "broadcast mismatch a.len={} b.len={} c.len={}", a_len, b_len, c_len);
     
-- 
2.43.0


From c8ad45148e62f104bc95a89f22e797c7df68bd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:23 +0000
Subject: [PATCH 21/31] fix: split accepted section counts and cuts that do not
 partition the axis

---
 src/array/split.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/array/split.rs b/src/array/split.rs
index 2b28f5a..86c7344 100644
--- a/src/array/split.rs
+++ b/src/array/split.rs
@@ -44,7 +44,7 @@ fn split_axis<T: Type + Clone>(
     match section {
         Sections::SplitEqual(n) => {
             let step = len / n;
-            assert!(step > 0);
+            assert!(step > 0 && step * n == len, "split sections={} must divide {}", n, len);
             let mut i = 0;
             while i < len {
                 i += step;
@@ -55,6 +55,7 @@ fn split_axis<T: Type + Clone>(
         Sections::SplitCuts(split_cuts) => {
             cuts.append(&mut split_cuts.clone());
             cuts.push(len);
+            assert!(cuts.windows(2).all(|w| w[0] <= w[1]), "split cuts must be ordered {:?}", cuts);
         }
     }
 
-- 
2.43.0


From a1c2d4390474169c858fb19592be5eb50ea69e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:38 +0000
Subject: [PATCH 22/31] fix: element counts above 32 bits wrapped around

---
 src/tensor/shape.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index c41d679..0a53cdd 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -35,7 +35,7 @@ impl Shape {
 
     #[inline]
     pub fn size(&self) -> usize {
-        self.dims[0..self.rank as usize].iter().product::<u32>() as usize
+        self.dims[0..self.rank as usize].iter().map(|d| *d as usize).product()
     }
 
     #[inline]
@@ -149,7 +149,7 @@ impl Shape {
         let rank = self.rank();
 
         if base_rank < rank {
-            self.dims[base_rank..rank].iter().product::<u32>() as usize
+            self.dims[base_rank..rank].iter().map(|d| *d as usize).product()
         } else {
             1
         }
-- 
2.43.0


From 8a2fb433873bc67116ad1df190fe30e365e5044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:53 +0000
Subject: [PATCH 23/31] fix: dimensions above 32 bits were silently truncated

---
 src/tensor/shape.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 0a53cdd..2dc4629 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -418,6 +418,10 @@ impl Shape {
     }
 }
 
+fn dim_u32(dim: usize) -> u32 {
+    u32::try_from(dim).expect("tensor dimension is too large")
+}
+
 impl fmt::Debug for Shape {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(f, "Shape{:?}", self.as_vec())
@@ -433,7 +437,7 @@ impl From<&Shape> for Shape {
 impl From<usize> for Shape {
     fn from(value: usize) -> Self {
         let mut dims = [0; Self::MAX_RANK];
-        dims[0] = value as u32;
+        dims[0] = dim_u32(value);
 
         Shape {
             dims,
@@ -447,7 +451,7 @@ impl From<&[usize]> for Shape {
         let mut dims = [0; Self::MAX_RANK];
 
         for (i, dim) in value.iter().rev().enumerate() {
-            dims[i] = *dim as u32;
+            dims[i] = dim_u32(*dim);
         }
 
         Shape {
@@ -462,7 +466,7 @@ impl<const N: usize> From<[usize; N]> for Shape {
         let mut dims = [0; Self::MAX_RANK];
 
         for (i, dim) in value.iter().rev().enumerate() {
-            dims[i] = *dim as u32;
+            dims[i] = dim_u32(*dim);
         }
 
         Shape {
@@ -478,7 +482,7 @@ impl From<Vec<usize>> for Shape {
 
         for (i, v) in value.iter().rev().enumerate() {
             assert!(*v > 0);
-            dims[i] = *v as u32;
+            dims[i] = dim_u32(*v);
         }
 
         Shape {
-- 
2.43.0


From 3a70be641f12a963913b89b2c82a3ef4dc6ab34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:54 +0000
Subject: [PATCH 24/31] fix: partial dimension products above 32 bits wrapped
 around

---
 src/tensor/shape.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 2dc4629..37ec918 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -261,10 +261,10 @@ impl Shape {
         let (start, end) = (self.rank - end, self.rank - start);
 
         for i in start..end {
-            size *= self.dims[i];
+            size *= self.dims[i] as usize;
         }
 
-        size as usize
+        size
     }
 
     #[inline]
@@ -273,10 +273,10 @@ impl Shape {
         let mut size = 1;
 
         for i in start..end {
-            size *= self.dims[i];
+            size *= self.dims[i] as usize;
         }
 
-        size as usize
+        size
     }
 
     #[inline]
-- 
2.43.0


From 47d6b1cac94ca0b61d990b0cf6d229286f54a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:12 +0000
Subject: [PATCH 25/31] fix: shape edits reject dimensions above 32 bits
 instead of truncating them

---
 src/tensor/shape.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 37ec918..21198a5 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -25,7 +25,7 @@ impl Shape {
         assert!(len > 0, "Shape requires a non-zero size");
 
         let mut dims = [0; Self::MAX_RANK];
-        dims[0] = len as u32;
+        dims[0] = dim_u32(len);
 
         Self {
             dims,
@@ -81,7 +81,7 @@ impl Shape {
     pub fn rreplace(mut self, i: usize, value: usize) -> Self {
         assert!(i < self.rank);
 
-        self.dims[i] = value as u32;
+        self.dims[i] = dim_u32(value);
 
         self
     }
@@ -116,7 +116,7 @@ impl Shape {
     pub fn with_cols(self, col: usize) -> Self {
         let mut own = self;
 
-        own.dims[0] = col as u32;
+        own.dims[0] = dim_u32(col);
 
         own
     }
@@ -139,7 +139,7 @@ impl Shape {
 
         let mut own = self;
 
-        own.dims[1] = row as u32;
+        own.dims[1] = dim_u32(row);
 
         own
     }
@@ -231,7 +231,7 @@ impl Shape {
 
     pub fn push(&self, dim: usize) -> Self {
         let mut dims = self.dims.clone();
-        dims[self.rank as usize] = dim as u32;
+        dims[self.rank as usize] = dim_u32(dim);
 
         Self {
             dims,
@@ -244,7 +244,7 @@ impl Shape {
         let mut dims = self.dims.clone();
 
         for (i, dim) in tail.iter().enumerate() {
-            dims[i + self.rank as usize] = *dim as u32;
+            dims[i + self.rank as usize] = dim_u32(*dim);
         }
 
         Self {
@@ -398,7 +398,7 @@ impl Shape {
             self.dims[i + 1] = self.dims[i];
         }
 
-        self.dims[axis] = len as u32;
+        self.dims[axis] = dim_u32(len);
         self.rank += 1;
 
         self
-- 
2.43.0


From 35f9ec5a29cf7050d9ea4d087636e4e72de78f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:18 +0000
Subject: [PATCH 26/31] fix: Shape::with_cols on a scalar shape is rejected and
 reduce of a scalar shape stays a scalar

---
 src/tensor/shape.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 21198a5..a09de1a 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -114,6 +114,8 @@ impl Shape {
     #[inline]
     #[must_use]
     pub fn with_cols(self, col: usize) -> Self {
+        assert!(self.rank > 0);
+
         let mut own = self;
 
         own.dims[0] = dim_u32(col);
@@ -376,8 +378,10 @@ impl Shape {
     pub fn reduce(self) -> Shape {
         if self.rank > 1 {
             self.rremove(0)
-        } else {
+        } else if self.rank == 1 {
             self.with_cols(1)
+        } else {
+            self
         }
     }
 
-- 
2.43.0


From a9f78bd2186e0e3454295fe379a94ab6709b5a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:07 +0000
Subject: [PATCH 27/31] fix: geomspace dropped the dimensions of single-entry
 endpoints

---
 src/init/vector.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/init/vector.rs b/src/init/vector.rs
index de1a4e9..8346c63 100644
--- a/src/init/vector.rs
+++ b/src/init/vector.rs
@@ -4,7 +4,7 @@
 
 use std::cmp;
 
-use crate::tensor::{Shape, Tensor, unsafe_init};
+use crate::tensor::{Tensor, unsafe_init};
 
 pub fn arange(start: f32, end: f32, step: f32) -> Tensor {
     assert!(step != 0.);
@@ -51,11 +51,7 @@ pub fn geomspace(
     let batch = cmp::max(1, start.size());
     let size = batch * len;
 
-    let o_shape = if start.size() == 1 {
-        Shape::from([len])
-    } else {
-        start.shape().clone().insert(0, len)
-    };
+    let o_shape = start.shape().clone().insert(0, len);
 
     unsafe {
         unsafe_init::<f32>(size, o_shape, |o| {
-- 
2.43.0


From 405a70f14b9a69bec980ab7c0be9ed519a85f796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:16 +0000
Subject: [PATCH 28/31] hook: name the matrix transposition modes under
 cfg(essay_verif)

---
 src/linalg/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 5fa3fe6..959eab1 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -5,3 +5,7 @@ mod matvec;
 
 pub use matmul::matmul;
 
+
+// verification hook: names the transposition modes outside the crate
+#[cfg(essay_verif)]
+pub use matmul::{matmul_t, Transpose};
-- 
2.43.0


From 8d4ac9a04153c6fb18b6078bcc8c465dfcd66035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:43 +0000
Subject: [PATCH 29/31] hook: gate points around the seed claim under
 cfg(essay_verif)

---
 src/random/mod.rs    |  3 +++
 src/random/random.rs | 18 ++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/random/mod.rs b/src/random/mod.rs
index 4471469..49902e0 100644
--- a/src/random/mod.rs
+++ b/src/random/mod.rs
@@ -1,3 +1,6 @@
 mod random;
 
 pub use random::{Rand32, Rand64, random_seed};
+
+#[cfg(essay_verif)]
+pub use random::verif;
diff --git a/src/random/random.rs b/src/random/random.rs
index 659f68a..8cb430a 100644
--- a/src/random/random.rs
+++ b/src/random/random.rs
@@ -114,6 +114,9 @@ thread_local! {
         let mut seed;
 
         loop {
+            #[cfg(essay_verif)]
+            verif::gate("load");
+
             let old = SEED.load(Ordering::Acquire);
 
             if old == 0 {
@@ -126,6 +129,9 @@ thread_local! {
                 seed = Rand64(old as u128).next()
             }
 
+            #[cfg(essay_verif)]
+            verif::gate("swap");
+
             if SEED.compare_exchange(old, seed, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
                 break;
             }
@@ -136,6 +142,18 @@ thread_local! {
 }
 static SEED : AtomicU64 = AtomicU64::new(0);
 
+/// Lets the verification harness order the threads' accesses to the seed.
+#[cfg(essay_verif)]
+pub mod verif {
+    pub static GATE: std::sync::OnceLock<fn(&'static str)> = std::sync::OnceLock::new();
+
+    pub(super) fn gate(point: &'static str) {
+        if let Some(gate) = GATE.get() {
+            gate(point)
+        }
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::Rand32;
-- 
2.43.0


From 5e4aeb5d8eeb710a522af92e405a9db82da30cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:07 +0000
Subject: [PATCH 30/31] hook: name the spectrum options under cfg(essay_verif)

---
 src/signal/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/signal/mod.rs b/src/signal/mod.rs
index e1a6c1f..f1000fa 100644
--- a/src/signal/mod.rs
+++ b/src/signal/mod.rs
@@ -4,3 +4,6 @@ mod rfft;
 pub use frame::frame;
 pub use rfft::rfft_norm;
 
+
+#[cfg(essay_verif)]
+pub use rfft::{FftArg, FftOpt};
-- 
2.43.0


From 21a14aa4edb45f04b3504298210f07160db1a726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:18 +0000
Subject: [PATCH 31/31] fix: a WAV data size beyond the image reserved up to 8
 GB before being rejected

---
 src/io/decode_wav.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/decode_wav.rs b/src/io/decode_wav.rs
index d35aa0e..4783ee2 100644
--- a/src/io/decode_wav.rs
+++ b/src/io/decode_wav.rs
@@ -31,6 +31,7 @@ pub fn decode_wav(
 
     assert_eq!(cursor.read_u32_big(), 0x6461_7461);
     let size = cursor.read_u32_little();
+    assert!(size as usize <= contents.as_slice().len() - cursor.index);
 
     let n_samples = size / 2;
     //let len = meta.n_channels * 
-- 
2.43.0

