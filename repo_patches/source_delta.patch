From c10403637c9a490f49f31cb48d5627cca871abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:05 +0000
Subject: [PATCH 01/81] fix: slicing a reversed axis computes the start offset
 with the stride's sign

---
 src/array/views.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index abc7479..eeb93ae 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 
 impl RumpyArray {
     /// Create a view with new offset, shape, and strides, sharing the buffer.
-    pub fn view_with(&self, offset_delta: usize, shape: Vec<usize>, strides: Vec<isize>) -> Self {
+    pub fn view_with(&self, offset_delta: isize, shape: Vec<usize>, strides: Vec<isize>) -> Self {
         let mut flags = ArrayFlags::WRITEABLE;
         if is_c_contiguous(&shape, &strides, self.dtype.itemsize()) {
             flags |= ArrayFlags::C_CONTIGUOUS;
@@ -17,7 +17,7 @@ impl RumpyArray {
 
         Self {
             buffer: Arc::clone(&self.buffer),
-            offset: self.offset + offset_delta,
+            offset: (self.offset as isize + offset_delta) as usize,
             shape,
             strides,
             dtype: self.dtype.clone(),
@@ -68,9 +68,10 @@ impl RumpyArray {
         };
         let new_len = new_len.max(0) as usize;
 
-        // Compute offset delta (bytes to skip to reach start element)
+        // Compute offset delta (bytes to reach start element; negative on reversed axes).
+        // An empty result keeps the base offset so it never points outside the buffer.
         let old_stride = self.strides[axis];
-        let offset_delta = (start as usize) * (old_stride.unsigned_abs());
+        let offset_delta = if new_len == 0 { 0 } else { start * old_stride };
 
         // New stride = old_stride * step
         let mut new_strides = self.strides.clone();
@@ -250,12 +251,12 @@ impl RumpyArray {
         // Handle case where we're extracting a scalar (empty core dims)
         if core_shape.is_empty() {
             return self.view_with(
-                offset_delta.max(0) as usize,
+                offset_delta,
                 vec![1],
                 vec![self.itemsize() as isize],
             );
         }
 
-        self.view_with(offset_delta.max(0) as usize, core_shape, core_strides)
+        self.view_with(offset_delta, core_shape, core_strides)
     }
 }
-- 
2.43.0


From 40a4a109eb375722afeb68c8b7e16267ee21d2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:35 +0000
Subject: [PATCH 02/81] fix: out-of-range indices and slice bounds are rejected
 or clamped instead of reading outside the buffer

---
 src/python/pyarray/dunder_item.rs | 25 ++++++++++++-------
 src/python/pyarray/mod.rs         | 40 +++++++++++++++++--------------
 2 files changed, 39 insertions(+), 26 deletions(-)

diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index d374e11..5f4aa73 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -9,6 +9,15 @@ use super::{
 };
 use crate::array::RumpyArray;
 
+impl PyRumpyArray {
+    /// Length of axis 0; a 0-d array has no axis to index.
+    fn first_axis_len(&self) -> PyResult<usize> {
+        self.inner.shape().first().copied().ok_or_else(|| {
+            pyo3::exceptions::PyIndexError::new_err("too many indices for array")
+        })
+    }
+}
+
 #[pymethods]
 impl PyRumpyArray {
     /// Indexing and slicing.
@@ -103,7 +112,7 @@ impl PyRumpyArray {
                             unreachable!()
                         }
                     })
-                    .collect();
+                    .collect::<PyResult<_>>()?;
                 let val = self.inner.get_element(&indices);
                 return Ok(val.into_pyobject(py)?.into_any().unbind());
             }
@@ -127,7 +136,7 @@ impl PyRumpyArray {
                                 "too many indices for array",
                             ));
                         }
-                        let idx = normalize_index(*idx, result.shape()[axis]);
+                        let idx = normalize_index(*idx, result.shape()[axis])?;
                         result = result.slice_axis(axis, idx as isize, idx as isize + 1, 1);
                         squeeze_axes.push(axis);
                         axis += 1;
@@ -156,7 +165,7 @@ impl PyRumpyArray {
 
         // Handle single integer index
         if let Ok(idx) = key.extract::<isize>() {
-            let idx = normalize_index(idx, self.inner.shape()[0]);
+            let idx = normalize_index(idx, self.first_axis_len()?)?;
             let result = self.inner.slice_axis(0, idx as isize, idx as isize + 1, 1);
             let result = result.squeeze_axis(0);
             return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
@@ -164,7 +173,7 @@ impl PyRumpyArray {
 
         // Handle single slice
         if let Ok(slice) = key.downcast::<PySlice>() {
-            let (start, stop, step) = extract_slice_indices(slice, self.inner.shape()[0])?;
+            let (start, stop, step) = extract_slice_indices(slice, self.first_axis_len()?)?;
             let result = self.inner.slice_axis(0, start, stop, step);
             return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
         }
@@ -194,7 +203,7 @@ impl PyRumpyArray {
                         let idx: isize = item.extract().unwrap();
                         normalize_index(idx, self.inner.shape()[axis])
                     })
-                    .collect();
+                    .collect::<PyResult<_>>()?;
 
                 if let Some(scalar) = value_scalar {
                     self.inner.set_element(&indices, scalar);
@@ -217,7 +226,7 @@ impl PyRumpyArray {
                     ));
                 }
                 if let Ok(idx) = item.extract::<isize>() {
-                    let idx = normalize_index(idx, view.shape()[axis]);
+                    let idx = normalize_index(idx, view.shape()[axis])?;
                     view = view.slice_axis(axis, idx as isize, idx as isize + 1, 1);
                     axis += 1;
                 } else if let Ok(slice) = item.downcast::<PySlice>() {
@@ -236,7 +245,7 @@ impl PyRumpyArray {
 
         // Handle single integer index (row assignment for 2D+, or single element for 1D)
         if let Ok(idx) = key.extract::<isize>() {
-            let idx = normalize_index(idx, self.inner.shape()[0]);
+            let idx = normalize_index(idx, self.first_axis_len()?)?;
 
             if self.inner.ndim() == 1 {
                 // Single element in 1D array
@@ -257,7 +266,7 @@ impl PyRumpyArray {
 
         // Handle single slice
         if let Ok(slice) = key.downcast::<PySlice>() {
-            let (start, stop, step) = extract_slice_indices(slice, self.inner.shape()[0])?;
+            let (start, stop, step) = extract_slice_indices(slice, self.first_axis_len()?)?;
             let mut view = self.inner.slice_axis(0, start, stop, step);
             return fill_view(&mut view, value_scalar, value_array.as_deref());
         }
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 1cbc113..17ff533 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -978,13 +978,16 @@ fn extract_slice_indices(
     Ok((indices.start, indices.stop, indices.step))
 }
 
-/// Normalize a negative index to positive.
-fn normalize_index(idx: isize, len: usize) -> usize {
-    if idx < 0 {
-        (len as isize + idx) as usize
-    } else {
-        idx as usize
-    }
+/// Normalize a negative index to positive, rejecting indices outside the axis.
+fn normalize_index(idx: isize, len: usize) -> PyResult<usize> {
+    let norm = if idx < 0 { idx.wrapping_add(len as isize) } else { idx };
+    if norm < 0 || norm >= len as isize {
+        return Err(pyo3::exceptions::PyIndexError::new_err(format!(
+            "index {} is out of bounds for axis with size {}",
+            idx, len
+        )));
+    }
+    Ok(norm as usize)
 }
 
 /// Resolve a potentially negative axis to a positive index.
@@ -1037,19 +1040,15 @@ fn extract_f64_vec(obj: &Bound<'_, PyAny>, name: &str) -> PyResult<Vec<f64>> {
 
 /// Normalize slice start/stop values with proper defaults and clamping.
 fn normalize_slice(start: isize, stop: isize, step: isize, len: isize) -> (isize, isize) {
-    let (default_start, default_stop) = if step > 0 {
-        (0, len)
-    } else {
-        (len - 1, -len - 1)
+    // Valid positions are 0..=len going forward, -1..=len-1 going backward.
+    let (low, high) = if step > 0 { (0, len) } else { (-1, len - 1) };
+    let clamp = |v: isize| {
+        if v < 0 { v.saturating_add(len).max(low) } else { v.min(high) }
     };
 
-    // Apply defaults for sentinel values
-    let start = if start == isize::MIN { default_start } else { start };
-    let stop = if stop == isize::MAX { default_stop } else { stop };
-
-    // Normalize negative indices
-    let start = if start < 0 { (start + len).max(0) } else { start.min(len) };
-    let stop = if stop < 0 { (stop + len).max(-1) } else { stop.min(len) };
+    // Sentinel values stand for an omitted bound
+    let start = if start != isize::MIN { clamp(start) } else if step > 0 { low } else { high };
+    let stop = if stop != isize::MAX { clamp(stop) } else if step > 0 { high } else { low };
 
     (start, stop)
 }
@@ -1118,6 +1117,11 @@ fn expand_ellipsis(tuple: &Bound<'_, PyTuple>, ndim: usize) -> PyResult<Vec<Inde
             let step = slice.getattr("step").ok()
                 .and_then(|v| if v.is_none() { None } else { v.extract::<isize>().ok() })
                 .unwrap_or(1);
+            if step == 0 {
+                return Err(pyo3::exceptions::PyValueError::new_err(
+                    "slice step cannot be zero",
+                ));
+            }
 
             // Use sentinel values that will be processed during application
             items.push(IndexItem::Slice(
-- 
2.43.0


From 91f6619a66cb8e32130f8d2cf5ce08e31eb8183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 03/81] fix: astype keeps complex components and casts integers
 exactly

---
 src/array/mod.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/array/mod.rs b/src/array/mod.rs
index 2ccb842..64d43f9 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -414,8 +414,22 @@ impl RumpyArray {
                         unsafe { *dst.add(i) = converted; }
                     }
                 }
+                (DTypeKind::Complex64 | DTypeKind::Complex128, _) => {
+                    // Complex source: keep both components (real targets take the real part)
+                    for (i, offset) in self.iter_offsets().enumerate() {
+                        let (re, im) = unsafe { src_ops.read_complex(src_ptr, offset) }.unwrap_or((0.0, 0.0));
+                        unsafe { dst_ops.write_complex(result_ptr, i, re, im); }
+                    }
+                }
+                _ if self.dtype.is_integer() && new_dtype.is_integer() => {
+                    // Integer to integer: exact, wrapping like a C cast
+                    for (i, offset) in self.iter_offsets().enumerate() {
+                        let val = unsafe { src_ops.read_i64(src_ptr, offset) }.unwrap_or(0);
+                        unsafe { dst_ops.write_i64(result_ptr, i, val); }
+                    }
+                }
                 _ => {
-                    // Cross-dtype conversion via f64 (lossy for complex)
+                    // Cross-dtype conversion via f64
                     for (i, offset) in self.iter_offsets().enumerate() {
                         let val = unsafe { src_ops.read_f64(src_ptr, offset) }.unwrap_or(0.0);
                         unsafe { dst_ops.write_f64(result_ptr, i, val); }
-- 
2.43.0


From 9f7a79fdfacdb3c347fc70b4999dc30059aa478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 04/81] fix: asarray with a dtype converts the source values
 instead of reinterpreting their bytes

---
 src/python/creation.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index f8e5794..16fb551 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -365,11 +365,8 @@ fn from_array_interface(
 
     // Extract typestr to determine dtype
     let typestr: String = interface.get_item("typestr")?.extract()?;
-    let dtype = if let Some(dt) = dtype_override {
-        parse_dtype_any(dt)?
-    } else {
-        dtype_from_typestr(&typestr)?
-    };
+    let dtype = dtype_from_typestr(&typestr)?;
+    let target_dtype = dtype_override.map(parse_dtype_any).transpose()?;
 
     // Extract data pointer
     let data_obj = interface.get_item("data")?;
@@ -395,7 +392,7 @@ fn from_array_interface(
     let mut arr = RumpyArray::zeros(shape.clone(), dtype);
 
     if size == 0 {
-        return Ok(PyRumpyArray::new(arr));
+        return Ok(PyRumpyArray::new(convert_dtype(arr, target_dtype)));
     }
 
     // Copy data respecting strides
@@ -425,7 +422,15 @@ fn from_array_interface(
         increment_indices(&mut indices, &shape);
     }
 
-    Ok(PyRumpyArray::new(arr))
+    Ok(PyRumpyArray::new(convert_dtype(arr, target_dtype)))
+}
+
+/// Convert to the requested dtype, if one was given and it differs.
+fn convert_dtype(arr: RumpyArray, target: Option<DType>) -> RumpyArray {
+    match target {
+        Some(dt) if arr.dtype() != dt => arr.astype(dt),
+        _ => arr,
+    }
 }
 
 /// Infer dtype from first element of a Python list.
-- 
2.43.0


From 81b8159cf74197dc385922e2309c5ad12a95d6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 05/81] fix: einsum takes the matmul path only for contractions
 a matmul computes

---
 src/ops/einsum.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ops/einsum.rs b/src/ops/einsum.rs
index 5f12e08..9e68fd3 100644
--- a/src/ops/einsum.rs
+++ b/src/ops/einsum.rs
@@ -576,7 +576,14 @@ fn try_blas_contraction(
 
     // Identify free indices for B (in B but not contracted)
     let b_free: Vec<char> = b_sub.iter().filter(|c| !contract_set.contains(c)).copied().collect();
-    let b_contract: Vec<char> = b_sub.iter().filter(|c| contract_set.contains(c)).copied().collect();
+    // A single matmul sums exactly the indices both operands contract, in one common
+    // order, and has no batch dimension.
+    if contraction_indices.iter().any(|c| !a_sub.contains(c) || !b_sub.contains(c))
+        || a_free.iter().any(|c| b_free.contains(c))
+    {
+        return None;
+    }
+    let b_contract: Vec<char> = a_contract.clone();
 
     // Compute dimensions
     let a_free_dims: Vec<usize> = a_free.iter().map(|c| dim_map[c]).collect();
@@ -648,7 +655,7 @@ fn try_blas_contraction(
         let out_perm: Vec<usize> = out_sub.iter()
             .map(|c| inter_indices.iter().position(|x| x == c))
             .collect::<Option<Vec<_>>>()?;
-        Some(reshaped.transpose_axes(&out_perm))
+        Some(reshaped.transpose_axes(&out_perm).copy())
     }
 }
 
-- 
2.43.0


From 8a118e380a66e0c2b0673642e2c5c2b6308bdc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 06/81] fix: reshape follows row-major order for every layout,
 copying only when no view exists

---
 src/array/views.rs | 71 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 13 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index eeb93ae..d833f52 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -1,7 +1,7 @@
 //! View operations: reshape, transpose, flip, slice_axis, broadcast_to, squeeze, expand_dims.
 
 use super::flags::ArrayFlags;
-use super::{compute_c_strides, compute_f_strides, is_c_contiguous, is_f_contiguous, RumpyArray};
+use super::{compute_c_strides, is_c_contiguous, is_f_contiguous, RumpyArray};
 use std::sync::Arc;
 
 impl RumpyArray {
@@ -83,25 +83,23 @@ impl RumpyArray {
         self.view_with(offset_delta, new_shape, new_strides)
     }
 
-    /// Reshape array. Returns a view if contiguous, otherwise would need copy.
-    /// For now, only works on contiguous arrays.
+    /// Reshape array in row-major order. Returns a view when the strides allow it,
+    /// otherwise a copy; None if the sizes differ.
     pub fn reshape(&self, new_shape: Vec<usize>) -> Option<Self> {
         let old_size: usize = self.shape.iter().product();
         let new_size: usize = new_shape.iter().product();
         if old_size != new_size {
             return None;
         }
-        if !self.is_c_contiguous() && !self.is_f_contiguous() {
-            return None; // Would need copy
+        let itemsize = self.dtype.itemsize();
+        if self.is_c_contiguous() {
+            let new_strides = compute_c_strides(&new_shape, itemsize);
+            return Some(self.view_with(0, new_shape, new_strides));
+        }
+        match regroup_strides(&self.shape, &self.strides, &new_shape, itemsize) {
+            Some(new_strides) => Some(self.view_with(0, new_shape, new_strides)),
+            None => self.copy().reshape(new_shape),
         }
-
-        let new_strides = if self.is_c_contiguous() {
-            compute_c_strides(&new_shape, self.dtype.itemsize())
-        } else {
-            compute_f_strides(&new_shape, self.dtype.itemsize())
-        };
-
-        Some(self.view_with(0, new_shape, new_strides))
     }
 
     /// Transpose the array (reverse axes). Returns a view.
@@ -260,3 +258,50 @@ impl RumpyArray {
         self.view_with(offset_delta, core_shape, core_strides)
     }
 }
+
+/// Strides for viewing a non-empty array under a new row-major shape of the same
+/// size, or None if some group of axes is not evenly strided.
+fn regroup_strides(
+    shape: &[usize],
+    strides: &[isize],
+    new_shape: &[usize],
+    itemsize: usize,
+) -> Option<Vec<isize>> {
+    // Axes of length one do not constrain the layout
+    let old: Vec<(usize, isize)> = shape
+        .iter()
+        .copied()
+        .zip(strides.iter().copied())
+        .filter(|&(d, _)| d != 1)
+        .collect();
+    let mut new_strides = vec![itemsize as isize; new_shape.len()];
+
+    let (mut oi, mut ni) = (0, 0);
+    while oi < old.len() && ni < new_shape.len() {
+        // Grow both groups until they cover the same number of elements
+        let (mut oj, mut nj) = (oi + 1, ni + 1);
+        let (mut old_len, mut new_len) = (old[oi].0, new_shape[ni]);
+        while old_len != new_len {
+            if new_len < old_len {
+                new_len *= new_shape[nj];
+                nj += 1;
+            } else {
+                old_len *= old[oj].0;
+                oj += 1;
+            }
+        }
+        for k in oi..oj - 1 {
+            if old[k].1 != old[k + 1].1 * old[k + 1].0 as isize {
+                return None;
+            }
+        }
+        let mut stride = old[oj - 1].1;
+        for k in (ni..nj).rev() {
+            new_strides[k] = stride;
+            stride *= new_shape[k] as isize;
+        }
+        oi = oj;
+        ni = nj;
+    }
+    Some(new_strides)
+}
-- 
2.43.0


From 80889a63e49d672d97e946ff2f82cd53be98ef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:18 +0000
Subject: [PATCH 07/81] fix: outer multiplies in and writes the promoted dtype

---
 src/ops/outer.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ops/outer.rs b/src/ops/outer.rs
index 0c31abe..6ef1c6a 100644
--- a/src/ops/outer.rs
+++ b/src/ops/outer.rs
@@ -2,6 +2,7 @@
 //!
 //! Implements outer product with signature "(m),(n)->(m,n)".
 
+use crate::array::dtype::BinaryOp;
 use crate::array::RumpyArray;
 use crate::ops::gufunc::{gufunc_call, GufuncKernel, GufuncSignature};
 
@@ -33,19 +34,28 @@ impl GufuncKernel for OuterKernel {
         let m = a.shape()[0];
         let n = b.shape()[0];
 
+        // Multiply in the output dtype
+        let dtype = c.dtype();
+        let a = a.astype(dtype.clone());
+        let b = b.astype(dtype.clone());
+
         let c_ptr = c.data_ptr() as *mut u8;
         let c_stride_0 = c.strides()[0];
         let c_stride_1 = c.strides()[1];
 
         // Outer product: c[i,j] = a[i] * b[j]
         for i in 0..m {
-            let ai = a.get_element(&[i]);
+            let a_offset = a.byte_offset_for(&[i]);
             for j in 0..n {
-                let bj = b.get_element(&[j]);
+                let b_offset = b.byte_offset_for(&[j]);
                 let byte_offset = (i as isize) * c_stride_0 + (j as isize) * c_stride_1;
                 unsafe {
-                    let dst = c_ptr.offset(byte_offset);
-                    *(dst as *mut f64) = ai * bj;
+                    dtype.ops().binary_op(
+                        BinaryOp::Mul,
+                        a.data_ptr(), a_offset,
+                        b.data_ptr(), b_offset,
+                        c_ptr.offset(byte_offset), 0,
+                    );
                 }
             }
         }
-- 
2.43.0


From d97203f35918e722bc246df32d3c209f501fa5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:18 +0000
Subject: [PATCH 08/81] fix: fancy indexing keeps the index shape and rejects
 indices below -n

---
 src/array/mod.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/array/mod.rs b/src/array/mod.rs
index 64d43f9..29ff8d7 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -288,12 +288,12 @@ impl RumpyArray {
     pub fn select_by_indices(&self, indices: &RumpyArray) -> Option<Self> {
         let num_indices = indices.size();
 
-        // Output shape: replace first dimension with number of indices
-        let mut out_shape = self.shape().to_vec();
-        if out_shape.is_empty() {
+        // Output shape: replace first dimension with the shape of the indices
+        if self.ndim() == 0 {
             return None; // Can't index a scalar
         }
-        out_shape[0] = num_indices;
+        let mut out_shape = indices.shape().to_vec();
+        out_shape.extend_from_slice(&self.shape()[1..]);
 
         let mut result = Self::zeros(out_shape, self.dtype());
         if num_indices == 0 {
@@ -301,7 +301,7 @@ impl RumpyArray {
         }
 
         let axis_len = self.shape()[0];
-        let slice_size: usize = self.shape()[1..].iter().product::<usize>().max(1);
+        let slice_size: usize = self.shape()[1..].iter().product();
 
         let buffer = Arc::get_mut(&mut result.buffer).expect("buffer must be unique");
         let result_ptr = buffer.as_mut_ptr();
@@ -311,15 +311,12 @@ impl RumpyArray {
         let mut idx_indices = vec![0usize; indices.ndim()];
         for i in 0..num_indices {
             let idx_val = indices.get_element(&idx_indices) as isize;
-            let idx = if idx_val < 0 {
-                (axis_len as isize + idx_val) as usize
-            } else {
-                idx_val as usize
-            };
+            let idx = if idx_val < 0 { idx_val + axis_len as isize } else { idx_val };
 
-            if idx >= axis_len {
+            if idx < 0 || idx >= axis_len as isize {
                 return None; // Index out of bounds
             }
+            let idx = idx as usize;
 
             // Copy the slice at this index
             let mut src_indices = vec![0usize; self.ndim()];
-- 
2.43.0


From 608ad9eae474cd89754c97c3a50cf3568e5e3edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:18 +0000
Subject: [PATCH 09/81] fix: item assignment broadcasts, drops integer axes,
 copes with overlap and keeps the dtype's precision

---
 src/python/pyarray/dunder_item.rs | 122 ++++++++++++++----------------
 src/python/pyarray/mod.rs         |  26 ++++---
 2 files changed, 70 insertions(+), 78 deletions(-)

diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index 5f4aa73..61ac46b 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -16,6 +16,54 @@ impl PyRumpyArray {
             pyo3::exceptions::PyIndexError::new_err("too many indices for array")
         })
     }
+
+    /// View selected by integers, slices and newaxis.
+    fn index_view(&self, items: &[IndexItem]) -> PyResult<RumpyArray> {
+        // Process indices, tracking which axes had integer indices (to squeeze)
+        let mut result = self.inner.clone();
+        let mut axis = 0usize;
+        let mut squeeze_axes: Vec<usize> = Vec::new();
+
+        for item in items.iter() {
+            match item {
+                IndexItem::NewAxis => {
+                    result = result.expand_dims(axis).ok_or_else(|| {
+                        pyo3::exceptions::PyIndexError::new_err("cannot expand dims")
+                    })?;
+                    axis += 1;
+                }
+                IndexItem::Int(idx) => {
+                    if axis >= result.ndim() {
+                        return Err(pyo3::exceptions::PyIndexError::new_err(
+                            "too many indices for array",
+                        ));
+                    }
+                    let idx = normalize_index(*idx, result.shape()[axis])?;
+                    result = result.slice_axis(axis, idx as isize, idx as isize + 1, 1);
+                    squeeze_axes.push(axis);
+                    axis += 1;
+                }
+                IndexItem::Slice(start, stop, step) => {
+                    if axis >= result.ndim() {
+                        return Err(pyo3::exceptions::PyIndexError::new_err(
+                            "too many indices for array",
+                        ));
+                    }
+                    let len = result.shape()[axis] as isize;
+                    let (norm_start, norm_stop) = normalize_slice(*start, *stop, *step, len);
+                    result = result.slice_axis(axis, norm_start, norm_stop, *step);
+                    axis += 1;
+                }
+            }
+        }
+
+        // Squeeze out axes that had integer indices (in reverse order to preserve indices)
+        for &ax in squeeze_axes.iter().rev() {
+            result = result.squeeze_axis(ax);
+        }
+
+        Ok(result)
+    }
 }
 
 #[pymethods]
@@ -117,49 +165,7 @@ impl PyRumpyArray {
                 return Ok(val.into_pyobject(py)?.into_any().unbind());
             }
 
-            // Process indices, tracking which axes had integer indices (to squeeze)
-            let mut result = self.inner.clone();
-            let mut axis = 0usize;
-            let mut squeeze_axes: Vec<usize> = Vec::new();
-
-            for item in items.iter() {
-                match item {
-                    IndexItem::NewAxis => {
-                        result = result.expand_dims(axis).ok_or_else(|| {
-                            pyo3::exceptions::PyIndexError::new_err("cannot expand dims")
-                        })?;
-                        axis += 1;
-                    }
-                    IndexItem::Int(idx) => {
-                        if axis >= result.ndim() {
-                            return Err(pyo3::exceptions::PyIndexError::new_err(
-                                "too many indices for array",
-                            ));
-                        }
-                        let idx = normalize_index(*idx, result.shape()[axis])?;
-                        result = result.slice_axis(axis, idx as isize, idx as isize + 1, 1);
-                        squeeze_axes.push(axis);
-                        axis += 1;
-                    }
-                    IndexItem::Slice(start, stop, step) => {
-                        if axis >= result.ndim() {
-                            return Err(pyo3::exceptions::PyIndexError::new_err(
-                                "too many indices for array",
-                            ));
-                        }
-                        let len = result.shape()[axis] as isize;
-                        let (norm_start, norm_stop) = normalize_slice(*start, *stop, *step, len);
-                        result = result.slice_axis(axis, norm_start, norm_stop, *step);
-                        axis += 1;
-                    }
-                }
-            }
-
-            // Squeeze out axes that had integer indices (in reverse order to preserve indices)
-            for &ax in squeeze_axes.iter().rev() {
-                result = result.squeeze_axis(ax);
-            }
-
+            let result = self.index_view(&items)?;
             return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
         }
 
@@ -216,29 +222,8 @@ impl PyRumpyArray {
             }
 
             // Slice assignment - get view and fill
-            let mut view = self.inner.clone();
-            let mut axis = 0usize;
-
-            for item in tuple.iter() {
-                if axis >= view.ndim() {
-                    return Err(pyo3::exceptions::PyIndexError::new_err(
-                        "too many indices for array",
-                    ));
-                }
-                if let Ok(idx) = item.extract::<isize>() {
-                    let idx = normalize_index(idx, view.shape()[axis])?;
-                    view = view.slice_axis(axis, idx as isize, idx as isize + 1, 1);
-                    axis += 1;
-                } else if let Ok(slice) = item.downcast::<PySlice>() {
-                    let (start, stop, step) = extract_slice_indices(slice, view.shape()[axis])?;
-                    view = view.slice_axis(axis, start, stop, step);
-                    axis += 1;
-                } else {
-                    return Err(pyo3::exceptions::PyTypeError::new_err(
-                        "indices must be integers or slices",
-                    ));
-                }
-            }
+            let items = expand_ellipsis(tuple, self.inner.ndim())?;
+            let mut view = self.index_view(&items)?;
 
             return fill_view(&mut view, value_scalar, value_array.as_deref());
         }
@@ -259,7 +244,10 @@ impl PyRumpyArray {
                 }
             } else {
                 // Row/slice assignment
-                let mut view = self.inner.slice_axis(0, idx as isize, idx as isize + 1, 1);
+                let mut view = self
+                    .inner
+                    .slice_axis(0, idx as isize, idx as isize + 1, 1)
+                    .squeeze_axis(0);
                 return fill_view(&mut view, value_scalar, value_array.as_deref());
             }
         }
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 17ff533..8faed88 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1157,18 +1157,22 @@ fn fill_view(
         }
         Ok(())
     } else if let Some(src) = array {
-        // Copy from array (shapes must match)
-        if view.shape() != src.inner.shape() {
-            return Err(pyo3::exceptions::PyValueError::new_err(
-                "could not broadcast input array to shape",
-            ));
+        // Broadcast the source, ignoring extra leading axes of length one
+        let mut src = src.inner.clone();
+        while src.ndim() > view.ndim() && src.shape()[0] == 1 {
+            src = src.squeeze_axis(0);
         }
-        let mut indices = vec![0usize; view.ndim()];
-        let shape = view.shape().to_vec();
-        for _ in 0..view.size() {
-            let val = src.inner.get_element(&indices);
-            view.set_element(&indices, val);
-            increment_indices(&mut indices, &shape);
+        let src = src.broadcast_to(view.shape()).ok_or_else(|| {
+            pyo3::exceptions::PyValueError::new_err("could not broadcast input array to shape")
+        })?;
+        // Private copy in the target dtype: the source may overlap the view
+        let src = src.astype(view.dtype());
+        let dtype = view.dtype();
+        let dst_ptr = view.data_ptr_mut();
+        for (src_offset, dst_offset) in src.iter_offsets().zip(view.iter_offsets()) {
+            unsafe {
+                dtype.ops().copy_element(src.data_ptr(), src_offset, dst_ptr.offset(dst_offset), 0);
+            }
         }
         Ok(())
     } else {
-- 
2.43.0


From c65fd323d052e8fac0dec0b2aec709d97cb36587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:17 +0000
Subject: [PATCH 10/81] fix: swapaxes of an axis with itself is a view like
 every other swapaxes

---
 src/ops/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 5976f7e..125cfa1 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -186,7 +186,7 @@ impl RumpyArray {
         assert!(axis2 < ndim, "axis2 out of bounds");
 
         if axis1 == axis2 {
-            return self.copy();
+            return self.clone();
         }
 
         // Build permutation: swap axis1 and axis2
-- 
2.43.0


From acbea364dc053b21e24239dcb78ec6f8298081bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:17 +0000
Subject: [PATCH 11/81] fix: item assignment accepts any array value, including
 complex scalars arrays and the target itself

---
 src/python/pyarray/dunder_item.rs | 48 ++++++++++++-------------------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index 61ac46b..5c39ea1 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -190,10 +190,14 @@ impl PyRumpyArray {
     }
 
     /// Item assignment (slice or element).
-    fn __setitem__(&mut self, key: &Bound<'_, PyAny>, value: &Bound<'_, PyAny>) -> PyResult<()> {
-        // Extract value as scalar or array
-        let value_scalar = value.extract::<f64>().ok();
+    fn __setitem__(&self, key: &Bound<'_, PyAny>, value: &Bound<'_, PyAny>) -> PyResult<()> {
+        // Extract value as scalar or array (an array is never read through __float__,
+        // and may be this very object)
         let value_array = value.extract::<PyRef<'_, PyRumpyArray>>().ok();
+        let value_scalar = match value_array {
+            Some(_) => None,
+            None => value.extract::<f64>().ok(),
+        };
 
         // Handle tuple for multi-dimensional indexing
         if let Ok(tuple) = key.downcast::<PyTuple>() {
@@ -211,14 +215,12 @@ impl PyRumpyArray {
                     })
                     .collect::<PyResult<_>>()?;
 
-                if let Some(scalar) = value_scalar {
-                    self.inner.set_element(&indices, scalar);
-                    return Ok(());
-                } else {
-                    return Err(pyo3::exceptions::PyTypeError::new_err(
-                        "can only assign scalar to single element",
-                    ));
-                }
+                let mut view = indices
+                    .iter()
+                    .fold(self.inner.clone(), |v, &idx| {
+                        v.slice_axis(0, idx as isize, idx as isize + 1, 1).squeeze_axis(0)
+                    });
+                return fill_view(&mut view, value_scalar, value_array.as_deref());
             }
 
             // Slice assignment - get view and fill
@@ -232,24 +234,12 @@ impl PyRumpyArray {
         if let Ok(idx) = key.extract::<isize>() {
             let idx = normalize_index(idx, self.first_axis_len()?)?;
 
-            if self.inner.ndim() == 1 {
-                // Single element in 1D array
-                if let Some(scalar) = value_scalar {
-                    self.inner.set_element(&[idx], scalar);
-                    return Ok(());
-                } else {
-                    return Err(pyo3::exceptions::PyTypeError::new_err(
-                        "can only assign scalar to single element",
-                    ));
-                }
-            } else {
-                // Row/slice assignment
-                let mut view = self
-                    .inner
-                    .slice_axis(0, idx as isize, idx as isize + 1, 1)
-                    .squeeze_axis(0);
-                return fill_view(&mut view, value_scalar, value_array.as_deref());
-            }
+            // Element (1D) or row/slice assignment
+            let mut view = self
+                .inner
+                .slice_axis(0, idx as isize, idx as isize + 1, 1)
+                .squeeze_axis(0);
+            return fill_view(&mut view, value_scalar, value_array.as_deref());
         }
 
         // Handle single slice
-- 
2.43.0


From 6c09c822762bbb57094751615c53610e8cf1d81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:17 +0000
Subject: [PATCH 12/81] fix: reshape and ravel of empty and strided arrays

---
 src/array/views.rs        | 2 +-
 src/python/pyarray/mod.rs | 6 +++---
 src/python/shape.rs       | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index d833f52..10a9c0b 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -92,7 +92,7 @@ impl RumpyArray {
             return None;
         }
         let itemsize = self.dtype.itemsize();
-        if self.is_c_contiguous() {
+        if self.is_c_contiguous() || old_size == 0 {
             let new_strides = compute_c_strides(&new_shape, itemsize);
             return Some(self.view_with(0, new_shape, new_strides));
         }
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 8faed88..a342afa 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -409,9 +409,9 @@ impl PyRumpyArray {
     /// Return a flattened array (view if possible, copy otherwise).
     fn ravel(&self) -> Self {
         let size = self.inner.size();
-        // Try to return a view, fall back to copy
-        if let Some(view) = self.inner.reshape(vec![size]) {
-            Self::new(view)
+        // A view if contiguous, otherwise a contiguous copy
+        if self.inner.is_c_contiguous() {
+            Self::new(self.inner.reshape(vec![size]).unwrap())
         } else {
             self.flatten()
         }
diff --git a/src/python/shape.rs b/src/python/shape.rs
index 944d76c..2890b4e 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -84,10 +84,10 @@ pub fn reshape(a: &PyRumpyArray, newshape: &Bound<'_, pyo3::PyAny>) -> PyResult<
 #[pyfunction]
 pub fn ravel(a: &PyRumpyArray) -> PyRumpyArray {
     // ravel returns a view if possible, otherwise a copy
-    if let Some(arr) = a.inner.reshape(vec![a.inner.size()]) {
-        PyRumpyArray::new(arr)
+    if a.inner.is_c_contiguous() {
+        PyRumpyArray::new(a.inner.reshape(vec![a.inner.size()]).unwrap())
     } else {
-        // If reshape fails, make a contiguous copy then reshape
+        // Not contiguous: make a contiguous copy then reshape
         PyRumpyArray::new(a.inner.copy().reshape(vec![a.inner.size()]).unwrap())
     }
 }
-- 
2.43.0


From 63dc6dc4411a05db6e79256b22ba3fd25b7abdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:31 +0000
Subject: [PATCH 13/81] fix: binary operators compute in NumPy's result dtype,
 with floored remainders and weakly typed Python scalars

---
 src/array/dtype/float16.rs    |  30 +-----
 src/array/dtype/macros.rs     |  70 ++++++-------
 src/ops/bitwise.rs            |  15 ++-
 src/ops/dispatch.rs           |   6 +-
 src/ops/kernels/arithmetic.rs | 103 ++++++++++++++----
 src/ops/mod.rs                |   2 +-
 src/ops/ufunc.rs              |  80 ++++++++++----
 src/python/pyarray/mod.rs     | 192 ++++++++++++++++++++++------------
 src/python/ufuncs.rs          | 104 ++++++++++--------
 9 files changed, 379 insertions(+), 223 deletions(-)

diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index e527191..3fe3d69 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -96,8 +96,8 @@ impl DTypeOps for Float16Ops {
             BinaryOp::Mul => av * bv,
             BinaryOp::Div => av / bv,
             BinaryOp::Pow => av.powf(bv),
-            BinaryOp::Mod => av % bv,
-            BinaryOp::FloorDiv => (av / bv).floor(),
+            BinaryOp::Mod => <crate::ops::kernels::arithmetic::Mod as crate::ops::kernels::BinaryKernel<f32>>::apply(av, bv),
+            BinaryOp::FloorDiv => <crate::ops::kernels::arithmetic::FloorDiv as crate::ops::kernels::BinaryKernel<f32>>::apply(av, bv),
             BinaryOp::Maximum => if av.is_nan() || bv.is_nan() { f32::NAN } else { av.max(bv) },
             BinaryOp::Minimum => if av.is_nan() || bv.is_nan() { f32::NAN } else { av.min(bv) },
             // Stream 2: Binary Math Operations
@@ -106,29 +106,9 @@ impl DTypeOps for Float16Ops {
             BinaryOp::FMax => if bv.is_nan() { av } else if av.is_nan() { bv } else { av.max(bv) },
             BinaryOp::FMin => if bv.is_nan() { av } else if av.is_nan() { bv } else { av.min(bv) },
             BinaryOp::Copysign => av.copysign(bv),
-            BinaryOp::Logaddexp => {
-                let m = av.max(bv);
-                if m.is_infinite() { m } else { m + (1.0_f32 + (-(av - bv).abs()).exp()).ln() }
-            },
-            BinaryOp::Logaddexp2 => {
-                let m = av.max(bv);
-                let ln2 = std::f32::consts::LN_2;
-                if m.is_infinite() { m } else { m + ((1.0_f32 + (-(av - bv).abs() * ln2).exp()).ln() / ln2) }
-            },
-            BinaryOp::Nextafter => {
-                // Use bit manipulation for nextafter
-                if av.is_nan() || bv.is_nan() {
-                    f32::NAN
-                } else if av == bv {
-                    bv
-                } else if av < bv {
-                    let bits = av.to_bits();
-                    f32::from_bits(if av >= 0.0 { bits + 1 } else { bits - 1 })
-                } else {
-                    let bits = av.to_bits();
-                    f32::from_bits(if av > 0.0 { bits - 1 } else { bits + 1 })
-                }
-            },
+            BinaryOp::Logaddexp => <crate::ops::kernels::arithmetic::Logaddexp as crate::ops::kernels::BinaryKernel<f32>>::apply(av, bv),
+            BinaryOp::Logaddexp2 => <crate::ops::kernels::arithmetic::Logaddexp2 as crate::ops::kernels::BinaryKernel<f32>>::apply(av, bv),
+            BinaryOp::Nextafter => <crate::ops::kernels::arithmetic::Nextafter as crate::ops::kernels::BinaryKernel<f16>>::apply(f16::from_f32(av), f16::from_f32(bv)).to_f32(),
         };
         Self::write(out, idx, f16::from_f32(result));
     }
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index c9c715d..5292e7d 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -98,8 +98,8 @@ macro_rules! impl_float_dtype {
                     BinaryOp::Mul => av * bv,
                     BinaryOp::Div => av / bv,
                     BinaryOp::Pow => av.powf(bv),
-                    BinaryOp::Mod => av % bv,
-                    BinaryOp::FloorDiv => (av / bv).floor(),
+                    BinaryOp::Mod => <crate::ops::kernels::arithmetic::Mod as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
+                    BinaryOp::FloorDiv => <crate::ops::kernels::arithmetic::FloorDiv as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
                     BinaryOp::Maximum => if av.is_nan() || bv.is_nan() { <$T>::NAN } else { av.max(bv) },
                     BinaryOp::Minimum => if av.is_nan() || bv.is_nan() { <$T>::NAN } else { av.min(bv) },
                     // Stream 2: Binary Math Operations
@@ -108,35 +108,9 @@ macro_rules! impl_float_dtype {
                     BinaryOp::FMax => if bv.is_nan() { av } else if av.is_nan() { bv } else { av.max(bv) },
                     BinaryOp::FMin => if bv.is_nan() { av } else if av.is_nan() { bv } else { av.min(bv) },
                     BinaryOp::Copysign => av.copysign(bv),
-                    BinaryOp::Logaddexp => {
-                        // log(exp(a) + exp(b)) = max(a,b) + log(1 + exp(-|a-b|))
-                        let m = av.max(bv);
-                        if m.is_infinite() { m } else { m + (1.0 as $T + (-(av - bv).abs()).exp()).ln() }
-                    },
-                    BinaryOp::Logaddexp2 => {
-                        // log2(2^a + 2^b) = max(a,b) + log2(1 + 2^(-|a-b|))
-                        let m = av.max(bv);
-                        let ln2 = std::f64::consts::LN_2 as $T;
-                        if m.is_infinite() { m } else { m + ((1.0 as $T + (-(av - bv).abs() * ln2).exp()).ln() / ln2) }
-                    },
-                    BinaryOp::Nextafter => {
-                        // Use f64 nextafter for both f32 and f64
-                        let av64 = av as f64;
-                        let bv64 = bv as f64;
-                        if av64.is_nan() || bv64.is_nan() {
-                            <$T>::NAN
-                        } else if av64 == bv64 {
-                            bv
-                        } else if av64 < bv64 {
-                            // Move toward positive
-                            let bits = av.to_bits();
-                            <$T>::from_bits(if av >= 0.0 as $T { bits + 1 } else { bits - 1 })
-                        } else {
-                            // Move toward negative
-                            let bits = av.to_bits();
-                            <$T>::from_bits(if av > 0.0 as $T { bits - 1 } else { bits + 1 })
-                        }
-                    },
+                    BinaryOp::Logaddexp => <crate::ops::kernels::arithmetic::Logaddexp as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
+                    BinaryOp::Logaddexp2 => <crate::ops::kernels::arithmetic::Logaddexp2 as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
+                    BinaryOp::Nextafter => <crate::ops::kernels::arithmetic::Nextafter as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
                 };
                 Self::write(out, idx, result);
             }
@@ -310,10 +284,19 @@ macro_rules! impl_signed_int_dtype {
                     BinaryOp::Add => av.wrapping_add(bv),
                     BinaryOp::Sub => av.wrapping_sub(bv),
                     BinaryOp::Mul => av.wrapping_mul(bv),
-                    BinaryOp::Div => if bv != 0 { av / bv } else { 0 },
-                    BinaryOp::Pow => if bv >= 0 { av.wrapping_pow(bv as u32) } else { 0 },
-                    BinaryOp::Mod => if bv != 0 { av % bv } else { 0 },
-                    BinaryOp::FloorDiv => if bv != 0 { av.div_euclid(bv) } else { 0 },
+                    BinaryOp::Div => if bv != 0 { av.wrapping_div(bv) } else { 0 },
+                    BinaryOp::Pow => {
+                        // wrapping square-and-multiply over the full exponent range
+                        let (mut base, mut exp, mut acc) = (av, bv, 1 as $T);
+                        while exp > 0 {
+                            if exp & 1 == 1 { acc = acc.wrapping_mul(base); }
+                            base = base.wrapping_mul(base);
+                            exp >>= 1;
+                        }
+                        acc
+                    },
+                    BinaryOp::Mod => <crate::ops::kernels::arithmetic::Mod as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
+                    BinaryOp::FloorDiv => <crate::ops::kernels::arithmetic::FloorDiv as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
                     BinaryOp::Maximum | BinaryOp::FMax => av.max(bv),
                     BinaryOp::Minimum | BinaryOp::FMin => av.min(bv),
                     // Float-only ops: convert to float, compute, convert back
@@ -512,10 +495,19 @@ macro_rules! impl_unsigned_int_dtype {
                     BinaryOp::Add => av.wrapping_add(bv),
                     BinaryOp::Sub => av.wrapping_sub(bv),
                     BinaryOp::Mul => av.wrapping_mul(bv),
-                    BinaryOp::Div => if bv != 0 { av / bv } else { 0 },
-                    BinaryOp::Pow => av.wrapping_pow(bv as u32),
-                    BinaryOp::Mod => if bv != 0 { av % bv } else { 0 },
-                    BinaryOp::FloorDiv => if bv != 0 { av / bv } else { 0 },
+                    BinaryOp::Div => if bv != 0 { av.wrapping_div(bv) } else { 0 },
+                    BinaryOp::Pow => {
+                        // wrapping square-and-multiply over the full exponent range
+                        let (mut base, mut exp, mut acc) = (av, bv, 1 as $T);
+                        while exp > 0 {
+                            if exp & 1 == 1 { acc = acc.wrapping_mul(base); }
+                            base = base.wrapping_mul(base);
+                            exp >>= 1;
+                        }
+                        acc
+                    },
+                    BinaryOp::Mod => <crate::ops::kernels::arithmetic::Mod as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
+                    BinaryOp::FloorDiv => <crate::ops::kernels::arithmetic::FloorDiv as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
                     BinaryOp::Maximum | BinaryOp::FMax => av.max(bv),
                     BinaryOp::Minimum | BinaryOp::FMin => av.min(bv),
                     // Float-only ops: convert to float, compute, convert back
diff --git a/src/ops/bitwise.rs b/src/ops/bitwise.rs
index bba3c9f..1e6dbe8 100644
--- a/src/ops/bitwise.rs
+++ b/src/ops/bitwise.rs
@@ -5,15 +5,24 @@
 //! Uses kernel/dispatch system for integer types and bool.
 //! Falls back to trait dispatch for other types.
 
-use crate::array::{increment_indices, promote_dtype, RumpyArray};
-use crate::array::dtype::BitwiseOp;
+use crate::array::{increment_indices, promote_dtype, DType, RumpyArray};
+use crate::array::dtype::{BitwiseOp, DTypeKind};
 use crate::ops::comparison::broadcast_binary_setup;
 use crate::ops::dispatch;
 
 /// Apply a binary bitwise operation element-wise, preserving dtype.
 fn map_binary_bitwise(a: &RumpyArray, b: &RumpyArray, op: BitwiseOp) -> Option<RumpyArray> {
     let out_dtype = promote_dtype(&a.dtype(), &b.dtype());
-    let (a_bc, b_bc, result, out_shape) = broadcast_binary_setup(a, b, out_dtype.clone())?;
+    if !(out_dtype.is_integer() || out_dtype.kind() == DTypeKind::Bool) {
+        return None;
+    }
+    // NumPy shifts booleans as int8
+    let out_dtype = if out_dtype.kind() == DTypeKind::Bool
+        && matches!(op, BitwiseOp::LeftShift | BitwiseOp::RightShift) { DType::int8() } else { out_dtype };
+    // The loops read both operands in the result dtype
+    let a = if a.dtype() == out_dtype { a.clone() } else { a.astype(out_dtype.clone()) };
+    let b = if b.dtype() == out_dtype { b.clone() } else { b.astype(out_dtype.clone()) };
+    let (a_bc, b_bc, result, out_shape) = broadcast_binary_setup(&a, &b, out_dtype.clone())?;
 
     if result.size() == 0 {
         return Some(result);
diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 4ed0ef0..9666ee1 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -15,7 +15,7 @@ use crate::ops::kernels::bitwise::{And, Or, Xor, LeftShift, RightShift, Not};
 use crate::ops::kernels::comparison::{Gt, Lt, Ge, Le, Eq, Ne};
 use crate::ops::kernels::arithmetic::{
     Add, Sub, Mul, Div, Sum, Prod, Max, Min,
-    Pow, Mod, FloorDiv, Maximum, Minimum,
+    Pow, Mod, Fmod, FloorDiv, Maximum, Minimum,
     Arctan2, Hypot, FMax, FMin, Copysign, Logaddexp, Logaddexp2, Nextafter,
     NanSum, NanProd, NanMax, NanMin, SumOfSquares,
 };
@@ -72,6 +72,10 @@ pub fn dispatch_binary_mod(a: &RumpyArray, b: &RumpyArray, out_shape: &[usize])
     dispatch_binary_kernel(a, b, out_shape, Mod)
 }
 
+pub fn dispatch_binary_fmod(a: &RumpyArray, b: &RumpyArray, out_shape: &[usize]) -> Option<RumpyArray> {
+    dispatch_binary_kernel(a, b, out_shape, Fmod)
+}
+
 pub fn dispatch_binary_floor_div(a: &RumpyArray, b: &RumpyArray, out_shape: &[usize]) -> Option<RumpyArray> {
     dispatch_binary_kernel(a, b, out_shape, FloorDiv)
 }
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index c7d3a61..85701e9 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -36,6 +36,10 @@ pub struct Pow;
 #[derive(Clone, Copy)]
 pub struct Mod;
 
+/// C-style remainder (sign of the dividend).
+#[derive(Clone, Copy)]
+pub struct Fmod;
+
 #[derive(Clone, Copy)]
 pub struct FloorDiv;
 
@@ -89,6 +93,46 @@ pub struct SumOfSquares;
 // Float implementations
 // ============================================================================
 
+/// Floor division and the remainder with the divisor's sign (Python semantics).
+macro_rules! floored_divmod {
+    ($T:ty, $a:expr, $b:expr) => {{
+        let (a, b): ($T, $T) = ($a, $b);
+        let mut rem = a % b;
+        if b == 0.0 {
+            (a / b, rem)
+        } else {
+            let mut div = (a - rem) / b;
+            if rem != 0.0 {
+                if (b < 0.0) != (rem < 0.0) {
+                    rem += b;
+                    div -= 1.0;
+                }
+            } else {
+                rem = (0.0 as $T).copysign(b);
+            }
+            let quot = if div != 0.0 {
+                let f = div.floor();
+                if div - f > 0.5 { f + 1.0 } else { f }
+            } else {
+                (0.0 as $T).copysign(a / b)
+            };
+            (quot, rem)
+        }
+    }};
+}
+
+/// Next representable value after `a` towards `b`.
+macro_rules! next_after {
+    ($T:ty, $a:expr, $b:expr) => {{
+        let (a, b): ($T, $T) = ($a, $b);
+        if a.is_nan() || b.is_nan() { <$T>::NAN }
+        else if a == b { b }
+        else if a.to_bits() << 1 == 0 { <$T>::from_bits(1).copysign(b) }
+        else if (a < b) == a.is_sign_positive() { <$T>::from_bits(a.to_bits() + 1) }
+        else { <$T>::from_bits(a.to_bits() - 1) }
+    }};
+}
+
 macro_rules! impl_float_arithmetic {
     ($T:ty) => {
         impl BinaryKernel<$T> for Add {
@@ -142,12 +186,16 @@ macro_rules! impl_float_arithmetic {
             fn apply(a: $T, b: $T) -> $T { a.powf(b) }
         }
         impl BinaryKernel<$T> for Mod {
+            #[inline(always)]
+            fn apply(a: $T, b: $T) -> $T { floored_divmod!($T, a, b).1 }
+        }
+        impl BinaryKernel<$T> for Fmod {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T { a % b }
         }
         impl BinaryKernel<$T> for FloorDiv {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T { (a / b).floor() }
+            fn apply(a: $T, b: $T) -> $T { floored_divmod!($T, a, b).0 }
         }
         impl BinaryKernel<$T> for Maximum {
             #[inline(always)]
@@ -191,24 +239,19 @@ macro_rules! impl_float_arithmetic {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T {
                 let max = a.max(b);
-                if max.is_infinite() { max } else { max + ((-((a - b).abs())).exp()).ln_1p() }
+                if a.is_nan() || b.is_nan() { <$T>::NAN } else if max.is_infinite() { max } else { max + ((-((a - b).abs())).exp()).ln_1p() }
             }
         }
         impl BinaryKernel<$T> for Logaddexp2 {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T {
                 let max = a.max(b);
-                if max.is_infinite() { max } else { max + (2.0 as $T).powf(-(a - b).abs()).ln_1p() / (2.0 as $T).ln() }
+                if a.is_nan() || b.is_nan() { <$T>::NAN } else if max.is_infinite() { max } else { max + (2.0 as $T).powf(-(a - b).abs()).ln_1p() / (2.0 as $T).ln() }
             }
         }
         impl BinaryKernel<$T> for Nextafter {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T {
-                if a == b { b }
-                else if a.is_nan() || b.is_nan() { <$T>::NAN }
-                else if a < b { <$T>::from_bits(a.to_bits().wrapping_add(1)) }
-                else { <$T>::from_bits(a.to_bits().wrapping_sub(1)) }
-            }
+            fn apply(a: $T, b: $T) -> $T { next_after!($T, a, b) }
         }
     };
 }
@@ -317,12 +360,16 @@ impl BinaryKernel<f16> for Pow {
     fn apply(a: f16, b: f16) -> f16 { f16::from_f32(a.to_f32().powf(b.to_f32())) }
 }
 impl BinaryKernel<f16> for Mod {
+    #[inline(always)]
+    fn apply(a: f16, b: f16) -> f16 { f16::from_f32(floored_divmod!(f32, a.to_f32(), b.to_f32()).1) }
+}
+impl BinaryKernel<f16> for Fmod {
     #[inline(always)]
     fn apply(a: f16, b: f16) -> f16 { f16::from_f32(a.to_f32() % b.to_f32()) }
 }
 impl BinaryKernel<f16> for FloorDiv {
     #[inline(always)]
-    fn apply(a: f16, b: f16) -> f16 { f16::from_f32((a.to_f32() / b.to_f32()).floor()) }
+    fn apply(a: f16, b: f16) -> f16 { f16::from_f32(floored_divmod!(f32, a.to_f32(), b.to_f32()).0) }
 }
 impl BinaryKernel<f16> for Maximum {
     #[inline(always)]
@@ -374,7 +421,7 @@ impl BinaryKernel<f16> for Logaddexp {
         let af = a.to_f32();
         let bf = b.to_f32();
         let max = af.max(bf);
-        if max.is_infinite() { f16::from_f32(max) } else { f16::from_f32(max + ((-((af - bf).abs())).exp()).ln_1p()) }
+        if af.is_nan() || bf.is_nan() { f16::NAN } else if max.is_infinite() { f16::from_f32(max) } else { f16::from_f32(max + ((-((af - bf).abs())).exp()).ln_1p()) }
     }
 }
 impl BinaryKernel<f16> for Logaddexp2 {
@@ -383,17 +430,12 @@ impl BinaryKernel<f16> for Logaddexp2 {
         let af = a.to_f32();
         let bf = b.to_f32();
         let max = af.max(bf);
-        if max.is_infinite() { f16::from_f32(max) } else { f16::from_f32(max + 2.0f32.powf(-(af - bf).abs()).ln_1p() / 2.0f32.ln()) }
+        if af.is_nan() || bf.is_nan() { f16::NAN } else if max.is_infinite() { f16::from_f32(max) } else { f16::from_f32(max + 2.0f32.powf(-(af - bf).abs()).ln_1p() / 2.0f32.ln()) }
     }
 }
 impl BinaryKernel<f16> for Nextafter {
     #[inline(always)]
-    fn apply(a: f16, b: f16) -> f16 {
-        if a == b { b }
-        else if a.is_nan() || b.is_nan() { f16::NAN }
-        else if a < b { f16::from_bits(a.to_bits().wrapping_add(1)) }
-        else { f16::from_bits(a.to_bits().wrapping_sub(1)) }
-    }
+    fn apply(a: f16, b: f16) -> f16 { next_after!(f16, a, b) }
 }
 
 // ============================================================================
@@ -452,11 +494,26 @@ macro_rules! impl_int_arithmetic {
         }
         impl BinaryKernel<$T> for Mod {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T { if b == $zero { $zero } else { a % b } }
+            fn apply(a: $T, b: $T) -> $T {
+                if b == $zero { return $zero; }
+                let rem = a.wrapping_rem(b);
+                // floored: the remainder takes the divisor's sign
+                #[allow(unused_comparisons)]
+                if rem != $zero && (rem < $zero) != (b < $zero) { rem + b } else { rem }
+            }
+        }
+        impl BinaryKernel<$T> for Fmod {
+            #[inline(always)]
+            fn apply(a: $T, b: $T) -> $T { if b == $zero { $zero } else { a.wrapping_rem(b) } }
         }
         impl BinaryKernel<$T> for FloorDiv {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T { if b == $zero { $zero } else { a / b } }
+            fn apply(a: $T, b: $T) -> $T {
+                if b == $zero { return $zero; }
+                let (quot, rem) = (a.wrapping_div(b), a.wrapping_rem(b));
+                #[allow(unused_comparisons)]
+                if rem != $zero && (rem < $zero) != (b < $zero) { quot - 1 } else { quot }
+            }
         }
         impl BinaryKernel<$T> for Maximum {
             #[inline(always)]
@@ -531,6 +588,12 @@ macro_rules! impl_complex_arithmetic {
                 Complex::new(<$F>::NAN, <$F>::NAN)
             }
         }
+        impl BinaryKernel<Complex<$F>> for Fmod {
+            #[inline(always)]
+            fn apply(_a: Complex<$F>, _b: Complex<$F>) -> Complex<$F> {
+                Complex::new(<$F>::NAN, <$F>::NAN)
+            }
+        }
         impl BinaryKernel<Complex<$F>> for FloorDiv {
             #[inline(always)]
             fn apply(_a: Complex<$F>, _b: Complex<$F>) -> Complex<$F> {
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 125cfa1..728b8b7 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -30,7 +30,7 @@ pub mod ufunc;
 
 // Re-export from new modules
 pub use ufunc::{
-    map_unary_op, map_binary_op, map_binary_op_inplace, map_compare_op,
+    map_unary_op, map_binary_op, map_binary_op_inplace, map_fmod, map_compare_op,
     reduce_all_op, reduce_all_f64, reduce_axis_op,
 };
 pub use comparison::{
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index d11dcdb..98ed6c9 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -161,12 +161,60 @@ pub fn map_unary_op(arr: &RumpyArray, op: UnaryOp) -> Result<RumpyArray, UnaryOp
 // Binary operations
 // ============================================================================
 
+/// The dtype both operands of `op` are converted to, as NumPy resolves it.
+/// None for datetime, timedelta and string operands, which have their own rules.
+fn binary_op_dtype(a: &DType, b: &DType, op: BinaryOp) -> Result<Option<DType>, BinaryOpError> {
+    let numeric = |k: &DTypeKind| is_integer_kind(k) || matches!(k, DTypeKind::Bool | DTypeKind::Float16 |
+        DTypeKind::Float32 | DTypeKind::Float64 | DTypeKind::Complex64 | DTypeKind::Complex128);
+    if !numeric(&a.kind()) || !numeric(&b.kind()) {
+        return Ok(None);
+    }
+    let common = promote_dtype(a, b);
+    let kind = common.kind();
+    let is_bool = kind == DTypeKind::Bool;
+    let is_complex = matches!(kind, DTypeKind::Complex64 | DTypeKind::Complex128);
+    match op {
+        BinaryOp::Div if is_bool || is_integer_kind(&kind) => Ok(Some(DType::float64())),
+        BinaryOp::Sub if is_bool => Err(BinaryOpError::UnsupportedDtype),
+        BinaryOp::Pow | BinaryOp::Mod | BinaryOp::FloorDiv if is_bool => Ok(Some(DType::int8())),
+        BinaryOp::Mod | BinaryOp::FloorDiv | BinaryOp::Arctan2 | BinaryOp::Hypot | BinaryOp::Copysign
+        | BinaryOp::Logaddexp | BinaryOp::Logaddexp2 | BinaryOp::Nextafter if is_complex => {
+            Err(BinaryOpError::UnsupportedDtype)
+        }
+        BinaryOp::Arctan2 | BinaryOp::Hypot | BinaryOp::Copysign | BinaryOp::Logaddexp
+        | BinaryOp::Logaddexp2 | BinaryOp::Nextafter if is_bool || is_integer_kind(&kind) => {
+            Ok(Some(match common.itemsize() {
+                1 => DType::float16(),
+                2 => DType::float32(),
+                _ => DType::float64(),
+            }))
+        }
+        _ => Ok(Some(common)),
+    }
+}
+
+/// True if an integer array holds a negative element.
+fn has_negative(arr: &RumpyArray) -> bool {
+    let dtype = arr.dtype();
+    matches!(dtype.kind(), DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32 | DTypeKind::Int64)
+        && arr.iter_offsets().any(|o| unsafe { dtype.ops().read_i64(arr.data_ptr(), o) }.is_some_and(|v| v < 0))
+}
+
 /// Apply a binary operation element-wise with broadcasting.
 pub fn map_binary_op(a: &RumpyArray, b: &RumpyArray, op: BinaryOp) -> Result<RumpyArray, BinaryOpError> {
     // Delegate to inplace version with no output buffer
     map_binary_op_inplace(a, b, op, None)
 }
 
+/// C-style remainder (sign of the dividend) with broadcasting.
+pub fn map_fmod(a: &RumpyArray, b: &RumpyArray) -> Result<RumpyArray, BinaryOpError> {
+    let dtype = binary_op_dtype(&a.dtype(), &b.dtype(), BinaryOp::Mod)?.ok_or(BinaryOpError::UnsupportedDtype)?;
+    let out_shape = broadcast_shapes(a.shape(), b.shape()).ok_or(BinaryOpError::ShapeMismatch)?;
+    let a = a.astype(dtype.clone()).broadcast_to(&out_shape).ok_or(BinaryOpError::ShapeMismatch)?;
+    let b = b.astype(dtype).broadcast_to(&out_shape).ok_or(BinaryOpError::ShapeMismatch)?;
+    crate::ops::dispatch::dispatch_binary_fmod(&a, &b, &out_shape).ok_or(BinaryOpError::UnsupportedDtype)
+}
+
 /// Apply a binary operation with optional in-place output buffer reuse.
 ///
 /// If `out` is Some and its buffer can be reused (via Arc::get_mut), writes
@@ -180,29 +228,15 @@ pub fn map_binary_op_inplace(
     op: BinaryOp,
     out: Option<RumpyArray>,
 ) -> Result<RumpyArray, BinaryOpError> {
-    // Handle division type promotion
-    if op == BinaryOp::Div {
-        let a_int = is_integer_kind(&a.dtype().kind());
-        let b_int = is_integer_kind(&b.dtype().kind());
-        if a_int && b_int {
-            let a_f64 = a.astype(DType::float64());
-            let b_f64 = b.astype(DType::float64());
-            return map_binary_op_inplace(&a_f64, &b_f64, op, None);
-        } else if a_int || b_int {
-            let int_to_float = |arr: &RumpyArray| -> RumpyArray {
-                let itemsize = arr.dtype().itemsize();
-                let target = if itemsize <= 1 {
-                    DType::float16()
-                } else if itemsize <= 2 {
-                    DType::float32()
-                } else {
-                    DType::float64()
-                };
-                arr.astype(target)
-            };
-            let a_float = if a_int { int_to_float(a) } else { a.clone() };
-            let b_float = if b_int { int_to_float(b) } else { b.clone() };
-            return map_binary_op_inplace(&a_float, &b_float, op, None);
+    // Bring both operands to the dtype the operation computes in
+    if let Some(dtype) = binary_op_dtype(&a.dtype(), &b.dtype(), op)? {
+        if op == BinaryOp::Pow && is_integer_kind(&dtype.kind()) && has_negative(b) {
+            return Err(BinaryOpError::UnsupportedDtype);
+        }
+        if a.dtype() != dtype || b.dtype() != dtype {
+            let a_cast = if a.dtype() == dtype { a.clone() } else { a.astype(dtype.clone()) };
+            let b_cast = if b.dtype() == dtype { b.clone() } else { b.astype(dtype) };
+            return map_binary_op_inplace(&a_cast, &b_cast, op, None);
         }
     }
 
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index a342afa..51fed52 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1213,6 +1213,87 @@ fn try_elision_candidate(
     Some(arr.clone())
 }
 
+pub(crate) fn binary_op_error(e: crate::ops::BinaryOpError) -> PyErr {
+    use crate::ops::BinaryOpError;
+    match e {
+        BinaryOpError::ShapeMismatch => {
+            pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
+        }
+        BinaryOpError::UnsupportedDtype => {
+            pyo3::exceptions::PyTypeError::new_err("operation not supported for these operands")
+        }
+    }
+}
+
+/// 0-d operand for a Python scalar next to an array of dtype `other`.
+///
+/// Python scalars are weakly typed (NEP 50): they take the array's dtype unless
+/// their kind (bool < int < float < complex) is above the array's.
+/// Returns None for objects that are not scalars, and an OverflowError for an
+/// integer the array's dtype cannot hold.
+pub(crate) fn weak_scalar(obj: &Bound<'_, PyAny>, other: &DType) -> PyResult<Option<RumpyArray>> {
+    use crate::array::dtype::DTypeKind;
+    use pyo3::types::{PyBool, PyComplex, PyFloat};
+
+    let kind = other.kind();
+    let is_bool = kind == DTypeKind::Bool;
+    let is_float = matches!(kind, DTypeKind::Float16 | DTypeKind::Float32 | DTypeKind::Float64);
+    let is_complex = matches!(kind, DTypeKind::Complex64 | DTypeKind::Complex128);
+
+    if is_bool || other.is_integer() || is_float || is_complex {
+        if let Ok(b) = obj.downcast::<PyBool>() {
+            return Ok(Some(RumpyArray::full(vec![], b.is_true() as u8 as f64, DType::bool())));
+        }
+        if obj.downcast::<PyFloat>().is_err() && obj.hasattr("__index__")? {
+            let mut int = RumpyArray::zeros(vec![], DType::int64());
+            if let Ok(v) = obj.extract::<i64>() {
+                unsafe { *(int.data_ptr_mut() as *mut i64) = v; }
+            } else if let Ok(v) = obj.extract::<u64>() {
+                int = RumpyArray::zeros(vec![], DType::uint64());
+                unsafe { *(int.data_ptr_mut() as *mut u64) = v; }
+            } else if is_float || is_complex {
+                return Ok(Some(RumpyArray::full(vec![], obj.extract::<f64>()?, other.clone())));
+            } else {
+                return Err(pyo3::exceptions::PyOverflowError::new_err("Python integer out of bounds"));
+            }
+            if is_bool {
+                return Ok(Some(int));
+            }
+            let cast = int.astype(other.clone());
+            if other.is_integer() {
+                let back = cast.astype(int.dtype());
+                let negative = obj.lt(0)?;
+                let same = unsafe { *(back.data_ptr() as *const i64) == *(int.data_ptr() as *const i64) };
+                let unsigned = matches!(kind, DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64);
+                let wraps = int.dtype() == DType::uint64() && !unsigned;
+                if !same || (negative && unsigned) || wraps {
+                    return Err(pyo3::exceptions::PyOverflowError::new_err(format!(
+                        "Python integer {} out of bounds for {}", obj, other.ops().name()
+                    )));
+                }
+            }
+            return Ok(Some(cast));
+        }
+        if let Ok(c) = obj.downcast::<PyComplex>() {
+            let dtype = match kind {
+                DTypeKind::Complex64 | DTypeKind::Complex128 => other.clone(),
+                DTypeKind::Float16 | DTypeKind::Float32 => DType::complex64(),
+                _ => DType::complex128(),
+            };
+            let mut arr = RumpyArray::zeros(vec![], dtype.clone());
+            unsafe { dtype.ops().write_complex(arr.data_ptr_mut(), 0, c.real(), c.imag()); }
+            return Ok(Some(arr));
+        }
+        if let Ok(v) = obj.extract::<f64>() {
+            let dtype = if is_float || is_complex { other.clone() } else { DType::float64() };
+            return Ok(Some(RumpyArray::full(vec![], v, dtype)));
+        }
+        return Ok(None);
+    }
+    // datetime64, timedelta64, strings: the scalar is read in the array's dtype
+    Ok(obj.extract::<f64>().ok().map(|v| RumpyArray::full(vec![], v, other.clone())))
+}
+
 /// Dispatch binary operation: array op (array or scalar).
 /// Takes raw PyObject pointer for refcount checking to enable temporary elision.
 fn binary_op_dispatch_with_elision(
@@ -1222,7 +1303,6 @@ fn binary_op_dispatch_with_elision(
     op: BinaryOp,
 ) -> PyResult<PyRumpyArray> {
     use crate::array::broadcast_shapes;
-    use crate::ops::BinaryOpError;
 
     // Try array first
     if let Ok(other_arr) = other.extract::<PyRef<'_, PyRumpyArray>>() {
@@ -1238,22 +1318,10 @@ fn binary_op_dispatch_with_elision(
 
         map_binary_op_inplace(arr, other_inner, op, out)
             .map(PyRumpyArray::new)
-            .map_err(|e| match e {
-                BinaryOpError::ShapeMismatch => {
-                    pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
-                }
-                BinaryOpError::UnsupportedDtype => {
-                    pyo3::exceptions::PyTypeError::new_err("operation not supported for these dtypes")
-                }
-            })
-    } else if let Ok(scalar) = other.extract::<f64>() {
-        // For scalar ops, result shape == arr shape, result dtype == arr dtype (usually)
-        // TODO: Consider elision for scalar ops too
-        Ok(PyRumpyArray::new(arr.scalar_op(scalar, op)))
+            .map_err(binary_op_error)
     } else {
-        Err(pyo3::exceptions::PyTypeError::new_err(
-            "operand must be ndarray or number",
-        ))
+        // TODO: Consider elision for scalar ops too
+        binary_op_dispatch(arr, other, op)
     }
 }
 
@@ -1264,25 +1332,16 @@ fn binary_op_dispatch(
     op: BinaryOp,
 ) -> PyResult<PyRumpyArray> {
     // Try array first
-    if let Ok(other_arr) = other.extract::<PyRef<'_, PyRumpyArray>>() {
-        use crate::ops::BinaryOpError;
+    let result = if let Ok(other_arr) = other.extract::<PyRef<'_, PyRumpyArray>>() {
         arr.binary_op(&other_arr.inner, op)
-            .map(PyRumpyArray::new)
-            .map_err(|e| match e {
-                BinaryOpError::ShapeMismatch => {
-                    pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
-                }
-                BinaryOpError::UnsupportedDtype => {
-                    pyo3::exceptions::PyTypeError::new_err("operation not supported for these dtypes")
-                }
-            })
-    } else if let Ok(scalar) = other.extract::<f64>() {
-        Ok(PyRumpyArray::new(arr.scalar_op(scalar, op)))
+    } else if let Some(scalar) = weak_scalar(other, &arr.dtype())? {
+        arr.binary_op(&scalar, op)
     } else {
-        Err(pyo3::exceptions::PyTypeError::new_err(
+        return Err(pyo3::exceptions::PyTypeError::new_err(
             "operand must be ndarray or number",
-        ))
-    }
+        ));
+    };
+    result.map(PyRumpyArray::new).map_err(binary_op_error)
 }
 
 /// Dispatch reverse binary operation: scalar op array.
@@ -1291,8 +1350,8 @@ fn rbinary_op_dispatch(
     other: &Bound<'_, PyAny>,
     op: BinaryOp,
 ) -> PyResult<PyRumpyArray> {
-    if let Ok(scalar) = other.extract::<f64>() {
-        Ok(PyRumpyArray::new(arr.rscalar_op(scalar, op)))
+    if let Some(scalar) = weak_scalar(other, &arr.dtype())? {
+        scalar.binary_op(arr, op).map(PyRumpyArray::new).map_err(binary_op_error)
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err(
             "operand must be a number",
@@ -1300,25 +1359,35 @@ fn rbinary_op_dispatch(
     }
 }
 
+/// 0-d operand for comparing an array of dtype `other` with a Python scalar.
+/// Integers outside the array's range compare by value.
+pub(crate) fn weak_compare_scalar(obj: &Bound<'_, PyAny>, other: &DType) -> PyResult<Option<RumpyArray>> {
+    match weak_scalar(obj, other) {
+        Err(e) if e.is_instance_of::<pyo3::exceptions::PyOverflowError>(obj.py()) => {
+            Ok(obj.extract::<f64>().ok().map(|v| RumpyArray::full(vec![], v, DType::float64())))
+        }
+        r => r,
+    }
+}
+
 /// Dispatch comparison operation: array cmp (array or scalar).
 fn comparison_op_dispatch(
     arr: &RumpyArray,
     other: &Bound<'_, PyAny>,
     op: ComparisonOp,
 ) -> PyResult<PyRumpyArray> {
-    if let Ok(other_arr) = other.extract::<PyRef<'_, PyRumpyArray>>() {
+    let result = if let Ok(other_arr) = other.extract::<PyRef<'_, PyRumpyArray>>() {
         arr.compare(&other_arr.inner, op)
-            .map(PyRumpyArray::new)
-            .ok_or_else(|| {
-                pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
-            })
-    } else if let Ok(scalar) = other.extract::<f64>() {
-        Ok(PyRumpyArray::new(arr.compare_scalar(scalar, op)))
+    } else if let Some(scalar) = weak_compare_scalar(other, &arr.dtype())? {
+        arr.compare(&scalar, op)
     } else {
-        Err(pyo3::exceptions::PyTypeError::new_err(
+        return Err(pyo3::exceptions::PyTypeError::new_err(
             "operand must be ndarray or number",
-        ))
-    }
+        ));
+    };
+    result.map(PyRumpyArray::new).ok_or_else(|| {
+        pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
+    })
 }
 
 /// Dispatch bitwise binary operation: array op (array or scalar).
@@ -1330,24 +1399,18 @@ fn bitwise_binary_op_dispatch<F>(
 where
     F: Fn(&RumpyArray, &RumpyArray) -> Option<RumpyArray>,
 {
-    if let Ok(other_arr) = other.extract::<PyRef<'_, PyRumpyArray>>() {
+    let result = if let Ok(other_arr) = other.extract::<PyRef<'_, PyRumpyArray>>() {
         op(arr, &other_arr.inner)
-            .map(PyRumpyArray::new)
-            .ok_or_else(|| {
-                pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
-            })
-    } else if let Ok(scalar) = other.extract::<i64>() {
-        let scalar_arr = RumpyArray::full(vec![1], scalar as f64, DType::int64());
-        op(arr, &scalar_arr)
-            .map(PyRumpyArray::new)
-            .ok_or_else(|| {
-                pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
-            })
+    } else if let Some(scalar) = weak_scalar(other, &arr.dtype())? {
+        op(arr, &scalar)
     } else {
-        Err(pyo3::exceptions::PyTypeError::new_err(
+        return Err(pyo3::exceptions::PyTypeError::new_err(
             "operand must be ndarray or integer",
-        ))
-    }
+        ));
+    };
+    result.map(PyRumpyArray::new).ok_or_else(|| {
+        pyo3::exceptions::PyTypeError::new_err("bitwise operands must be integers or bools of compatible shapes")
+    })
 }
 
 /// Dispatch reverse bitwise binary operation: scalar op array.
@@ -1359,13 +1422,10 @@ fn rbitwise_binary_op_dispatch<F>(
 where
     F: Fn(&RumpyArray, &RumpyArray) -> Option<RumpyArray>,
 {
-    if let Ok(scalar) = other.extract::<i64>() {
-        let scalar_arr = RumpyArray::full(vec![1], scalar as f64, DType::int64());
-        op(&scalar_arr, arr)
-            .map(PyRumpyArray::new)
-            .ok_or_else(|| {
-                pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
-            })
+    if let Some(scalar) = weak_scalar(other, &arr.dtype())? {
+        op(&scalar, arr).map(PyRumpyArray::new).ok_or_else(|| {
+            pyo3::exceptions::PyTypeError::new_err("bitwise operands must be integers or bools of compatible shapes")
+        })
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err(
             "operand must be an integer",
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index 5d4b323..1b5104c 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -373,39 +373,35 @@ fn apply_binary_ufunc(
     x2: &Bound<'_, PyAny>,
     op: crate::array::dtype::BinaryOp,
 ) -> PyResult<PyRumpyArray> {
-    use crate::ops::BinaryOpError;
-
-    // Try array-array first
-    let arr1 = if let Ok(arr) = x1.extract::<PyRef<'_, PyRumpyArray>>() {
-        arr.inner.clone()
-    } else if let Ok(scalar) = x1.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, DType::float64())
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "operand must be ndarray or number",
-        ));
-    };
-
-    let arr2 = if let Ok(arr) = x2.extract::<PyRef<'_, PyRumpyArray>>() {
-        arr.inner.clone()
-    } else if let Ok(scalar) = x2.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, DType::float64())
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "operand must be ndarray or number",
-        ));
-    };
-
+    let (arr1, arr2) = binary_operands(x1, x2)?;
     arr1.binary_op(&arr2, op)
         .map(PyRumpyArray::new)
-        .map_err(|e| match e {
-            BinaryOpError::ShapeMismatch => {
-                pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
-            }
-            BinaryOpError::UnsupportedDtype => {
-                pyo3::exceptions::PyTypeError::new_err("operation not supported for these dtypes")
-            }
-        })
+        .map_err(super::pyarray::binary_op_error)
+}
+
+/// Operands of a binary ufunc; a Python scalar is weakly typed next to an array.
+fn binary_operands(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<(RumpyArray, RumpyArray)> {
+    use super::pyarray::weak_scalar;
+    let not_a_number = || pyo3::exceptions::PyTypeError::new_err("operand must be ndarray or number");
+
+    let arr1 = x1.extract::<PyRef<'_, PyRumpyArray>>().ok().map(|a| a.inner.clone());
+    let arr2 = x2.extract::<PyRef<'_, PyRumpyArray>>().ok().map(|a| a.inner.clone());
+    match (arr1, arr2) {
+        (Some(a), Some(b)) => Ok((a, b)),
+        (Some(a), None) => {
+            let b = weak_scalar(x2, &a.dtype())?.ok_or_else(not_a_number)?;
+            Ok((a, b))
+        }
+        (None, Some(b)) => {
+            let a = weak_scalar(x1, &b.dtype())?.ok_or_else(not_a_number)?;
+            Ok((a, b))
+        }
+        (None, None) => {
+            let scalar = |x: &Bound<'_, PyAny>| x.extract::<f64>().map_err(|_| not_a_number())
+                .map(|v| RumpyArray::full(vec![1], v, DType::float64()));
+            Ok((scalar(x1)?, scalar(x2)?))
+        }
+    }
 }
 
 #[pyfunction]
@@ -586,10 +582,31 @@ pub fn logical_not(x: &PyRumpyArray) -> PyRumpyArray {
     PyRumpyArray::new(crate::ops::logical_not(&x.inner))
 }
 
+/// Operands of a comparison; a Python scalar is weakly typed next to an array.
+fn compare_operands(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<(RumpyArray, RumpyArray)> {
+    use super::pyarray::weak_compare_scalar;
+    use super::shape::to_rumpy_array;
+    let arr1 = x1.extract::<PyRef<'_, PyRumpyArray>>().ok();
+    let arr2 = x2.extract::<PyRef<'_, PyRumpyArray>>().ok();
+    match (&arr1, &arr2) {
+        (Some(a), None) => {
+            if let Some(b) = weak_compare_scalar(x2, &a.inner.dtype())? {
+                return Ok((a.inner.clone(), b));
+            }
+        }
+        (None, Some(b)) => {
+            if let Some(a) = weak_compare_scalar(x1, &b.inner.dtype())? {
+                return Ok((a, b.inner.clone()));
+            }
+        }
+        _ => {}
+    }
+    Ok((to_rumpy_array(x1)?, to_rumpy_array(x2)?))
+}
+
 #[pyfunction]
 pub fn equal(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> PyResult<PyRumpyArray> {
-    let a = super::shape::to_rumpy_array(x1)?;
-    let b = super::shape::to_rumpy_array(x2)?;
+    let (a, b) = compare_operands(x1, x2)?;
     crate::ops::equal(&a, &b)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
@@ -597,8 +614,7 @@ pub fn equal(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> PyResu
 
 #[pyfunction]
 pub fn not_equal(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> PyResult<PyRumpyArray> {
-    let a = super::shape::to_rumpy_array(x1)?;
-    let b = super::shape::to_rumpy_array(x2)?;
+    let (a, b) = compare_operands(x1, x2)?;
     crate::ops::not_equal(&a, &b)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
@@ -606,8 +622,7 @@ pub fn not_equal(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> Py
 
 #[pyfunction]
 pub fn less(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> PyResult<PyRumpyArray> {
-    let a = super::shape::to_rumpy_array(x1)?;
-    let b = super::shape::to_rumpy_array(x2)?;
+    let (a, b) = compare_operands(x1, x2)?;
     crate::ops::less(&a, &b)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
@@ -615,8 +630,7 @@ pub fn less(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> PyResul
 
 #[pyfunction]
 pub fn less_equal(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> PyResult<PyRumpyArray> {
-    let a = super::shape::to_rumpy_array(x1)?;
-    let b = super::shape::to_rumpy_array(x2)?;
+    let (a, b) = compare_operands(x1, x2)?;
     crate::ops::less_equal(&a, &b)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
@@ -624,8 +638,7 @@ pub fn less_equal(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> P
 
 #[pyfunction]
 pub fn greater(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> PyResult<PyRumpyArray> {
-    let a = super::shape::to_rumpy_array(x1)?;
-    let b = super::shape::to_rumpy_array(x2)?;
+    let (a, b) = compare_operands(x1, x2)?;
     crate::ops::greater(&a, &b)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
@@ -633,8 +646,7 @@ pub fn greater(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> PyRe
 
 #[pyfunction]
 pub fn greater_equal(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> PyResult<PyRumpyArray> {
-    let a = super::shape::to_rumpy_array(x1)?;
-    let b = super::shape::to_rumpy_array(x2)?;
+    let (a, b) = compare_operands(x1, x2)?;
     crate::ops::greater_equal(&a, &b)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
@@ -871,10 +883,12 @@ pub fn mod_fn(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<PyRumpyA
 }
 
 /// Compute the element-wise remainder (C-style fmod, sign of dividend preserved).
-/// Note: In NumPy, fmod differs from mod/remainder. Our implementation uses C-style %.
 #[pyfunction]
 pub fn fmod(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<PyRumpyArray> {
-    remainder(x1, x2)
+    let (arr1, arr2) = binary_operands(x1, x2)?;
+    crate::ops::map_fmod(&arr1, &arr2)
+        .map(PyRumpyArray::new)
+        .map_err(super::pyarray::binary_op_error)
 }
 
 /// Alias for divide - true division element-wise.
-- 
2.43.0


From bee3e874bf6fe7221872d158cc2b3f8da7e5e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:35 +0000
Subject: [PATCH 14/81] fix: unary and special functions honour strides,
 broadcasting and NumPy's result dtypes; comparisons of complex and wide
 integers are exact

---
 src/array/dtype/complex128.rs    |   2 +-
 src/array/dtype/complex64.rs     |   2 +-
 src/array/dtype/float16.rs       |   2 +-
 src/array/dtype/macros.rs        |   4 +-
 src/ops/dispatch.rs              |  13 +-
 src/ops/kernels/bitwise.rs       |   6 +-
 src/ops/kernels/comparison.rs    |  20 +-
 src/ops/kernels/math.rs          |  16 +-
 src/ops/mod.rs                   |   5 +-
 src/ops/special.rs               | 323 +++++++++++++++----------------
 src/ops/ufunc.rs                 | 112 +++++++++--
 src/python/misc.rs               |   9 +-
 src/python/pyarray/dunder_ops.rs |   6 +-
 src/python/ufuncs.rs             |  39 ++--
 14 files changed, 318 insertions(+), 241 deletions(-)

diff --git a/src/array/dtype/complex128.rs b/src/array/dtype/complex128.rs
index 8901a46..d861939 100644
--- a/src/array/dtype/complex128.rs
+++ b/src/array/dtype/complex128.rs
@@ -235,7 +235,7 @@ impl DTypeOps for Complex128Ops {
                 (mag * arg.cos(), mag * arg.sin())
             }
             UnaryOp::Trunc => (r.trunc(), i.trunc()),
-            UnaryOp::Rint => (r.round(), i.round()),
+            UnaryOp::Rint => (r.round_ties_even(), i.round_ties_even()),
             UnaryOp::Arcsinh => {
                 // arcsinh(z) = log(z + sqrt(z^2 + 1))
                 let z2_plus_1 = (r * r - i * i + 1.0, 2.0 * r * i);
diff --git a/src/array/dtype/complex64.rs b/src/array/dtype/complex64.rs
index 19e06f9..8fd71c2 100644
--- a/src/array/dtype/complex64.rs
+++ b/src/array/dtype/complex64.rs
@@ -232,7 +232,7 @@ impl DTypeOps for Complex64Ops {
                 (mag * arg.cos(), mag * arg.sin())
             }
             UnaryOp::Trunc => (r.trunc(), i.trunc()),
-            UnaryOp::Rint => (r.round(), i.round()),
+            UnaryOp::Rint => (r.round_ties_even(), i.round_ties_even()),
             UnaryOp::Arcsinh => {
                 // arcsinh(z) = log(z + sqrt(z^2 + 1))
                 let z2_plus_1 = (r * r - i * i + 1.0, 2.0 * r * i);
diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index 3fe3d69..6be30c7 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -74,7 +74,7 @@ impl DTypeOps for Float16Ops {
             UnaryOp::Log1p => v.ln_1p(),
             UnaryOp::Cbrt => v.cbrt(),
             UnaryOp::Trunc => v.trunc(),
-            UnaryOp::Rint => v.round(),
+            UnaryOp::Rint => v.round_ties_even(),
             UnaryOp::Arcsinh => v.asinh(),
             UnaryOp::Arccosh => v.acosh(),
             UnaryOp::Arctanh => v.atanh(),
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index 5292e7d..8c45713 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -76,7 +76,7 @@ macro_rules! impl_float_dtype {
                     UnaryOp::Log1p => v.ln_1p(),
                     UnaryOp::Cbrt => v.cbrt(),
                     UnaryOp::Trunc => v.trunc(),
-                    UnaryOp::Rint => v.round(),
+                    UnaryOp::Rint => v.round_ties_even(),
                     UnaryOp::Arcsinh => v.asinh(),
                     UnaryOp::Arccosh => v.acosh(),
                     UnaryOp::Arctanh => v.atanh(),
@@ -234,7 +234,7 @@ macro_rules! impl_signed_int_dtype {
                 let v = Self::read(src, byte_offset);
                 let result = match op {
                     UnaryOp::Neg => -v,
-                    UnaryOp::Abs => v.abs(),
+                    UnaryOp::Abs => v.wrapping_abs(),
                     UnaryOp::Sqrt => (v as f64).sqrt() as $T,
                     UnaryOp::Exp => (v as f64).exp() as $T,
                     UnaryOp::Log => (v as f64).ln() as $T,
diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 9666ee1..7b59f6f 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -1650,6 +1650,7 @@ pub fn dispatch_where(
         DTypeKind::Float16 => dispatch_where_typed::<f16>(cond, x, y, out_shape, DType::float16()),
         DTypeKind::Int64 => dispatch_where_typed::<i64>(cond, x, y, out_shape, DType::int64()),
         DTypeKind::Int32 => dispatch_where_typed::<i32>(cond, x, y, out_shape, DType::int32()),
+        DTypeKind::Int8 => dispatch_where_typed::<i8>(cond, x, y, out_shape, DType::int8()),
         DTypeKind::Int16 => dispatch_where_typed::<i16>(cond, x, y, out_shape, DType::int16()),
         DTypeKind::Uint64 => dispatch_where_typed::<u64>(cond, x, y, out_shape, DType::uint64()),
         DTypeKind::Uint32 => dispatch_where_typed::<u32>(cond, x, y, out_shape, DType::uint32()),
@@ -1693,17 +1694,14 @@ fn dispatch_where_typed<T: Copy>(
         let cond_ptr = cond_bc.data_ptr();
         let x_ptr = x_bc.data_ptr() as *const T;
         let y_ptr = y_bc.data_ptr() as *const T;
-        let cond_itemsize = cond_bc.dtype().itemsize();
+        let cond_dtype = cond_bc.dtype();
+        let cond_itemsize = cond_dtype.itemsize();
 
         for i in 0..size {
             let cond_val = unsafe {
                 match cond_itemsize {
                     1 => *cond_ptr.add(i) != 0,
-                    _ => {
-                        // For other dtypes, check if any byte is non-zero
-                        let ptr = cond_ptr.add(i * cond_itemsize);
-                        (0..cond_itemsize).any(|j| *ptr.add(j) != 0)
-                    }
+                    _ => cond_dtype.ops().is_truthy(cond_ptr, (i * cond_itemsize) as isize),
                 }
             };
             let val = if cond_val {
@@ -1715,12 +1713,13 @@ fn dispatch_where_typed<T: Copy>(
         }
     } else {
         // Strided path using offset iterators
+        let cond_dtype = cond_bc.dtype();
         for (i, ((cond_off, x_off), y_off)) in cond_bc.iter_offsets()
             .zip(x_bc.iter_offsets())
             .zip(y_bc.iter_offsets())
             .enumerate()
         {
-            let cond_val = unsafe { *cond_bc.data_ptr().byte_offset(cond_off) != 0 };
+            let cond_val = unsafe { cond_dtype.ops().is_truthy(cond_bc.data_ptr(), cond_off) };
             let val = if cond_val {
                 unsafe { *(x_bc.data_ptr() as *const T).byte_offset(x_off) }
             } else {
diff --git a/src/ops/kernels/bitwise.rs b/src/ops/kernels/bitwise.rs
index f954ad8..d4349a4 100644
--- a/src/ops/kernels/bitwise.rs
+++ b/src/ops/kernels/bitwise.rs
@@ -62,14 +62,16 @@ macro_rules! impl_bitwise_int {
         impl BinaryKernel<$T> for LeftShift {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T {
-                a.wrapping_shl(b as u32)
+                // Shifting by the width or more shifts everything out
+                if (b as u64) < <$T>::BITS as u64 { a << b } else { 0 }
             }
         }
 
         impl BinaryKernel<$T> for RightShift {
             #[inline(always)]
+            #[allow(unused_comparisons)]
             fn apply(a: $T, b: $T) -> $T {
-                a.wrapping_shr(b as u32)
+                if (b as u64) < <$T>::BITS as u64 { a >> b } else if a < 0 { !0 } else { 0 }
             }
         }
 
diff --git a/src/ops/kernels/comparison.rs b/src/ops/kernels/comparison.rs
index 1f91165..1731e5c 100644
--- a/src/ops/kernels/comparison.rs
+++ b/src/ops/kernels/comparison.rs
@@ -76,27 +76,35 @@ impl_ord_comparison!(u8);
 
 // ============================================================================
 // Complex implementations
-// For complex numbers, Eq/Ne compare exactly, Gt/Lt/Ge/Le compare by magnitude
-// (matching NumPy behavior where ordering is not well-defined for complex)
+// For complex numbers, Eq/Ne compare exactly, Gt/Lt/Ge/Le compare lexicographically:
+// by the real part, ties by the imaginary part, and false when a NaN is involved (like NumPy)
 // ============================================================================
 
 macro_rules! impl_complex_comparison {
     ($F:ty) => {
         impl CompareKernel<Complex<$F>> for Gt {
             #[inline(always)]
-            fn apply(a: Complex<$F>, b: Complex<$F>) -> bool { a.norm_sqr() > b.norm_sqr() }
+            fn apply(a: Complex<$F>, b: Complex<$F>) -> bool {
+                (a.re > b.re && !a.im.is_nan() && !b.im.is_nan()) || (a.re == b.re && a.im > b.im)
+            }
         }
         impl CompareKernel<Complex<$F>> for Lt {
             #[inline(always)]
-            fn apply(a: Complex<$F>, b: Complex<$F>) -> bool { a.norm_sqr() < b.norm_sqr() }
+            fn apply(a: Complex<$F>, b: Complex<$F>) -> bool {
+                (a.re < b.re && !a.im.is_nan() && !b.im.is_nan()) || (a.re == b.re && a.im < b.im)
+            }
         }
         impl CompareKernel<Complex<$F>> for Ge {
             #[inline(always)]
-            fn apply(a: Complex<$F>, b: Complex<$F>) -> bool { a.norm_sqr() >= b.norm_sqr() }
+            fn apply(a: Complex<$F>, b: Complex<$F>) -> bool {
+                (a.re > b.re && !a.im.is_nan() && !b.im.is_nan()) || (a.re == b.re && a.im >= b.im)
+            }
         }
         impl CompareKernel<Complex<$F>> for Le {
             #[inline(always)]
-            fn apply(a: Complex<$F>, b: Complex<$F>) -> bool { a.norm_sqr() <= b.norm_sqr() }
+            fn apply(a: Complex<$F>, b: Complex<$F>) -> bool {
+                (a.re < b.re && !a.im.is_nan() && !b.im.is_nan()) || (a.re == b.re && a.im <= b.im)
+            }
         }
         impl CompareKernel<Complex<$F>> for Eq {
             #[inline(always)]
diff --git a/src/ops/kernels/math.rs b/src/ops/kernels/math.rs
index 210c71c..77b7d83 100644
--- a/src/ops/kernels/math.rs
+++ b/src/ops/kernels/math.rs
@@ -230,7 +230,7 @@ macro_rules! impl_float_math {
         }
         impl UnaryKernel<$T> for Rint {
             #[inline(always)]
-            fn apply(v: $T) -> $T { v.round() }
+            fn apply(v: $T) -> $T { v.round_ties_even() }
         }
         impl UnaryKernel<$T> for Arcsinh {
             #[inline(always)]
@@ -369,7 +369,7 @@ impl UnaryKernel<f16> for Trunc {
 }
 impl UnaryKernel<f16> for Rint {
     #[inline(always)]
-    fn apply(v: f16) -> f16 { f16::from_f32(v.to_f32().round()) }
+    fn apply(v: f16) -> f16 { f16::from_f32(v.to_f32().round_ties_even()) }
 }
 impl UnaryKernel<f16> for Arcsinh {
     #[inline(always)]
@@ -396,7 +396,7 @@ macro_rules! impl_signed_int_math {
         }
         impl UnaryKernel<$T> for Abs {
             #[inline(always)]
-            fn apply(v: $T) -> $T { v.abs() }
+            fn apply(v: $T) -> $T { v.wrapping_abs() }
         }
         impl UnaryKernel<$T> for Square {
             #[inline(always)]
@@ -649,7 +649,7 @@ macro_rules! impl_complex_math {
         impl UnaryKernel<Complex<$F>> for Rint {
             #[inline(always)]
             fn apply(v: Complex<$F>) -> Complex<$F> {
-                Complex::new(v.re.round(), v.im.round())
+                Complex::new(v.re.round_ties_even(), v.im.round_ties_even())
             }
         }
         impl UnaryKernel<Complex<$F>> for Arcsinh {
@@ -664,11 +664,9 @@ macro_rules! impl_complex_math {
         impl UnaryKernel<Complex<$F>> for Arccosh {
             #[inline(always)]
             fn apply(v: Complex<$F>) -> Complex<$F> {
-                // arccosh(z) = log(z + sqrt(z^2 - 1))
-                // For real x in [0, 1], result should be purely imaginary
-                let z2_minus_1 = v * v - Complex::new(1.0 as $F, 0.0 as $F);
-                let sqrt_val = numpy_sqrt(z2_minus_1);
-                (v + sqrt_val).ln()
+                // arccosh(z) = log(z + sqrt(z + 1) * sqrt(z - 1)), the principal branch
+                let one = Complex::new(1.0 as $F, 0.0 as $F);
+                (v + numpy_sqrt(v + one) * numpy_sqrt(v - one)).ln()
             }
         }
         impl UnaryKernel<Complex<$F>> for Arctanh {
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 728b8b7..0edbed4 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -325,8 +325,11 @@ pub fn where_select(condition: &RumpyArray, x: &RumpyArray, y: &RumpyArray) -> O
     let shape_cx = broadcast_shapes(condition.shape(), x.shape())?;
     let out_shape = broadcast_shapes(&shape_cx, y.shape())?;
 
-    // Result dtype is promoted from x and y
+    // Result dtype is promoted from x and y; the selection itself is a plain copy
     let result_dtype = promote_dtype(&x.dtype(), &y.dtype());
+    if x.dtype() != result_dtype || y.dtype() != result_dtype {
+        return where_select(condition, &x.astype(result_dtype.clone()), &y.astype(result_dtype));
+    }
 
     // Try typed dispatch first (same-dtype x, y, result)
     if let Some(result) = crate::ops::dispatch::dispatch_where(condition, x, y, &result_dtype, &out_shape) {
diff --git a/src/ops/special.rs b/src/ops/special.rs
index 2075ff9..6844b2a 100644
--- a/src/ops/special.rs
+++ b/src/ops/special.rs
@@ -5,17 +5,29 @@
 //! All functions operate natively in their input dtype (no f64 conversion).
 
 use crate::array::dtype::DTypeKind;
-use crate::array::{DType, RumpyArray};
+use crate::array::{broadcast_shapes, promote_dtype, DType, RumpyArray};
+use crate::ops::ufunc::{float_dtype_of, is_integer_kind};
+use crate::ops::BinaryOpError;
+use half::f16;
 use std::sync::Arc;
 
+/// Both operands cast to `dtype` and broadcast against each other, C-contiguous.
+fn broadcast_pair(a: &RumpyArray, b: &RumpyArray, a_dtype: DType, b_dtype: DType) -> Result<(RumpyArray, RumpyArray), BinaryOpError> {
+    let shape = broadcast_shapes(a.shape(), b.shape()).ok_or(BinaryOpError::ShapeMismatch)?;
+    let a = a.broadcast_to(&shape).ok_or(BinaryOpError::ShapeMismatch)?.astype(a_dtype);
+    let b = b.broadcast_to(&shape).ok_or(BinaryOpError::ShapeMismatch)?.astype(b_dtype);
+    Ok((a, b))
+}
+
 // ============================================================================
 // Sinc: sin(pi*x) / (pi*x)
 // ============================================================================
 
 pub fn sinc(arr: &RumpyArray) -> RumpyArray {
     match arr.dtype().kind() {
-        DTypeKind::Float32 => sinc_typed::<f32>(arr, DType::float32()),
-        DTypeKind::Float64 => sinc_typed::<f64>(arr, DType::float64()),
+        DTypeKind::Float16 => sinc(&arr.astype(DType::float32())).astype(DType::float16()),
+        DTypeKind::Float32 => sinc_typed::<f32>(&arr.copy(), DType::float32()),
+        DTypeKind::Float64 => sinc_typed::<f64>(&arr.copy(), DType::float64()),
         _ => {
             // Convert to f64 for other types
             let arr_f64 = arr.astype(DType::float64());
@@ -55,8 +67,9 @@ fn sinc_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> RumpyArray {
 
 pub fn i0(arr: &RumpyArray) -> RumpyArray {
     match arr.dtype().kind() {
-        DTypeKind::Float32 => i0_typed::<f32>(arr, DType::float32()),
-        DTypeKind::Float64 => i0_typed::<f64>(arr, DType::float64()),
+        DTypeKind::Float16 => i0(&arr.astype(DType::float32())).astype(DType::float16()),
+        DTypeKind::Float32 => i0_typed::<f32>(&arr.copy(), DType::float32()),
+        DTypeKind::Float64 => i0_typed::<f64>(&arr.copy(), DType::float64()),
         _ => {
             let arr_f64 = arr.astype(DType::float64());
             i0_typed::<f64>(&arr_f64, DType::float64())
@@ -107,80 +120,55 @@ fn i0_scalar<T: Float>(x: T) -> T {
 // ============================================================================
 
 pub fn spacing(arr: &RumpyArray) -> RumpyArray {
+    let arr = arr.astype(float_dtype_of(&arr.dtype()));
     match arr.dtype().kind() {
-        DTypeKind::Float32 => spacing_f32(arr),
-        DTypeKind::Float64 => spacing_f64(arr),
-        _ => {
-            let arr_f64 = arr.astype(DType::float64());
-            spacing_f64(&arr_f64)
+        DTypeKind::Float16 => spacing_f16(&arr),
+        DTypeKind::Float32 => spacing_f32(&arr),
+        _ => spacing_f64(&arr),
+    }
+}
+
+/// Distance to the next number away from zero, with the sign of x; NaN for non-finite x.
+macro_rules! spacing_typed {
+    ($name:ident, $T:ty, $dtype:expr) => {
+        fn $name(arr: &RumpyArray) -> RumpyArray {
+            let mut result = RumpyArray::zeros(arr.shape().to_vec(), $dtype);
+            let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
+            let result_ptr = result_buffer.as_mut_ptr() as *mut $T;
+            let src_ptr = arr.data_ptr() as *const $T;
+            for i in 0..arr.size() {
+                let x = unsafe { *src_ptr.add(i) };
+                let y = if !x.is_finite() {
+                    <$T>::NAN
+                } else if x == <$T>::from_bits(0) {
+                    <$T>::from_bits(1)
+                } else {
+                    <$T>::from_bits(x.to_bits() + 1) - x
+                };
+                unsafe { *result_ptr.add(i) = y };
+            }
+            result
         }
-    }
-}
-
-fn spacing_f64(arr: &RumpyArray) -> RumpyArray {
-    let size = arr.size();
-    if size == 0 {
-        return RumpyArray::zeros(arr.shape().to_vec(), DType::float64());
-    }
-
-    let mut result = RumpyArray::zeros(arr.shape().to_vec(), DType::float64());
-    let buffer = result.buffer_mut();
-    let result_buffer = Arc::get_mut(buffer).expect("unique");
-    let result_ptr = result_buffer.as_mut_ptr() as *mut f64;
-
-    let src_ptr = arr.data_ptr() as *const f64;
-    for i in 0..size {
-        let x = unsafe { *src_ptr.add(i) };
-        let next = if x >= 0.0 {
-            f64::from_bits(x.to_bits().wrapping_add(1))
-        } else if x.to_bits() == 0x8000_0000_0000_0000 {
-            f64::from_bits(1)
-        } else {
-            f64::from_bits(x.to_bits().wrapping_sub(1))
-        };
-        unsafe { *result_ptr.add(i) = (next - x).abs() };
-    }
-    result
+    };
 }
 
-fn spacing_f32(arr: &RumpyArray) -> RumpyArray {
-    let size = arr.size();
-    if size == 0 {
-        return RumpyArray::zeros(arr.shape().to_vec(), DType::float32());
-    }
-
-    let mut result = RumpyArray::zeros(arr.shape().to_vec(), DType::float32());
-    let buffer = result.buffer_mut();
-    let result_buffer = Arc::get_mut(buffer).expect("unique");
-    let result_ptr = result_buffer.as_mut_ptr() as *mut f32;
-
-    let src_ptr = arr.data_ptr() as *const f32;
-    for i in 0..size {
-        let x = unsafe { *src_ptr.add(i) };
-        let next = if x >= 0.0 {
-            f32::from_bits(x.to_bits().wrapping_add(1))
-        } else if x.to_bits() == 0x8000_0000 {
-            f32::from_bits(1)
-        } else {
-            f32::from_bits(x.to_bits().wrapping_sub(1))
-        };
-        unsafe { *result_ptr.add(i) = (next - x).abs() };
-    }
-    result
-}
+spacing_typed!(spacing_f16, f16, DType::float16());
+spacing_typed!(spacing_f32, f32, DType::float32());
+spacing_typed!(spacing_f64, f64, DType::float64());
 
 // ============================================================================
 // Modf: fractional and integer parts
 // ============================================================================
 
 pub fn modf(arr: &RumpyArray) -> (RumpyArray, RumpyArray) {
-    match arr.dtype().kind() {
-        DTypeKind::Float32 => modf_typed::<f32>(arr, DType::float32()),
-        DTypeKind::Float64 => modf_typed::<f64>(arr, DType::float64()),
-        _ => {
-            let arr_f64 = arr.astype(DType::float64());
-            modf_typed::<f64>(&arr_f64, DType::float64())
+    let dtype = float_dtype_of(&arr.dtype());
+    match dtype.kind() {
+        DTypeKind::Float16 => {
+            let (frac, int) = modf_typed::<f32>(&arr.astype(DType::float32()), DType::float32());
+            (frac.astype(dtype.clone()), int.astype(dtype))
         }
+        DTypeKind::Float32 => modf_typed::<f32>(&arr.astype(dtype), DType::float32()),
+        _ => modf_typed::<f64>(&arr.astype(DType::float64()), DType::float64()),
     }
 }
 
@@ -207,7 +195,7 @@ fn modf_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> (RumpyArray, RumpyArr
     for i in 0..size {
         let x = unsafe { *src_ptr.add(i) };
         let int_val = x.trunc();
-        let frac_val = x - int_val;
+        let frac_val = if int_val == x { T::ZERO.copysign(x) } else { x - int_val };
         unsafe {
             *frac_ptr.add(i) = frac_val;
             *int_ptr.add(i) = int_val;
@@ -221,13 +209,14 @@ fn modf_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> (RumpyArray, RumpyArr
 // ============================================================================
 
 pub fn frexp(arr: &RumpyArray) -> (RumpyArray, RumpyArray) {
-    match arr.dtype().kind() {
-        DTypeKind::Float32 => frexp_f32(arr),
-        DTypeKind::Float64 => frexp_f64(arr),
-        _ => {
-            let arr_f64 = arr.astype(DType::float64());
-            frexp_f64(&arr_f64)
+    let dtype = float_dtype_of(&arr.dtype());
+    match dtype.kind() {
+        DTypeKind::Float16 => {
+            let (mant, exp) = frexp_f32(&arr.astype(DType::float32()));
+            (mant.astype(dtype), exp)
         }
+        DTypeKind::Float32 => frexp_f32(&arr.astype(dtype)),
+        _ => frexp_f64(&arr.astype(DType::float64())),
     }
 }
 
@@ -337,15 +326,18 @@ fn frexp_scalar_f32(x: f32) -> (f32, i32) {
 // Ldexp: x * 2^i
 // ============================================================================
 
-pub fn ldexp(x: &RumpyArray, i: &RumpyArray) -> RumpyArray {
-    match x.dtype().kind() {
-        DTypeKind::Float32 => ldexp_typed::<f32>(x, i, DType::float32()),
-        DTypeKind::Float64 => ldexp_typed::<f64>(x, i, DType::float64()),
-        _ => {
-            let x_f64 = x.astype(DType::float64());
-            ldexp_typed::<f64>(&x_f64, i, DType::float64())
-        }
+pub fn ldexp(x: &RumpyArray, i: &RumpyArray) -> Result<RumpyArray, BinaryOpError> {
+    if !is_integer_kind(&i.dtype().kind()) && i.dtype().kind() != DTypeKind::Bool {
+        return Err(BinaryOpError::UnsupportedDtype);
     }
+    let dtype = float_dtype_of(&x.dtype());
+    let compute = if dtype.kind() == DTypeKind::Float32 { DType::float32() } else { DType::float64() };
+    let (x, i) = broadcast_pair(x, i, compute.clone(), DType::int64())?;
+    let result = match compute.kind() {
+        DTypeKind::Float32 => ldexp_typed::<f32>(&x, &i, compute),
+        _ => ldexp_typed::<f64>(&x, &i, compute),
+    };
+    Ok(if result.dtype() == dtype { result } else { result.astype(dtype) })
 }
 
 fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -361,25 +353,14 @@ fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyA
 
     let x_ptr = x.data_ptr() as *const T;
 
-    // Read exponents - they could be any integer type
-    let i_vals: Vec<i32> = match i.dtype().kind() {
-        DTypeKind::Int32 => {
-            let ptr = i.data_ptr() as *const i32;
-            (0..size).map(|idx| unsafe { *ptr.add(idx) }).collect()
-        }
-        DTypeKind::Int64 => {
-            let ptr = i.data_ptr() as *const i64;
-            (0..size).map(|idx| unsafe { *ptr.add(idx) as i32 }).collect()
-        }
-        _ => {
-            // Fallback: use to_vec
-            i.to_vec().iter().map(|&v| v as i32).collect()
-        }
-    };
+    let i_ptr = i.data_ptr() as *const i64;
 
-    for (idx, &iv) in i_vals.iter().enumerate() {
+    for idx in 0..size {
         let xv = unsafe { *x_ptr.add(idx) };
-        let y = xv * T::TWO.powi(iv);
+        let iv = unsafe { *i_ptr.add(idx) }.clamp(-4400, 4400) as i32;
+        // Three steps, so that neither factor overflows or underflows before the product does
+        let step = iv / 3;
+        let y = xv * T::TWO.powi(step) * T::TWO.powi(step) * T::TWO.powi(iv - 2 * step);
         unsafe { *result_ptr.add(idx) = y };
     }
     result
@@ -389,15 +370,22 @@ fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyA
 // Heaviside step function
 // ============================================================================
 
-pub fn heaviside(x: &RumpyArray, h0: &RumpyArray) -> RumpyArray {
-    match x.dtype().kind() {
-        DTypeKind::Float32 => heaviside_typed::<f32>(x, h0, DType::float32()),
-        DTypeKind::Float64 => heaviside_typed::<f64>(x, h0, DType::float64()),
-        _ => {
-            let x_f64 = x.astype(DType::float64());
-            let h0_f64 = h0.astype(DType::float64());
-            heaviside_typed::<f64>(&x_f64, &h0_f64, DType::float64())
+pub fn heaviside(x: &RumpyArray, h0: &RumpyArray) -> Result<RumpyArray, BinaryOpError> {
+    let dtype = promote_dtype(&float_dtype_of(&x.dtype()), &float_dtype_of(&h0.dtype()));
+    match dtype.kind() {
+        DTypeKind::Float16 => {
+            let (x, h0) = broadcast_pair(x, h0, DType::float32(), DType::float32())?;
+            Ok(heaviside_typed::<f32>(&x, &h0, DType::float32()).astype(dtype))
         }
+        DTypeKind::Float32 => {
+            let (x, h0) = broadcast_pair(x, h0, DType::float32(), DType::float32())?;
+            Ok(heaviside_typed::<f32>(&x, &h0, DType::float32()))
+        }
+        DTypeKind::Float64 => {
+            let (x, h0) = broadcast_pair(x, h0, DType::float64(), DType::float64())?;
+            Ok(heaviside_typed::<f64>(&x, &h0, DType::float64()))
+        }
+        _ => Err(BinaryOpError::UnsupportedDtype),
     }
 }
 
@@ -422,8 +410,10 @@ fn heaviside_typed<T: Float>(x: &RumpyArray, h0: &RumpyArray, dtype: DType) -> R
             T::ZERO
         } else if xv == T::ZERO {
             h0v
-        } else {
+        } else if xv > T::ZERO {
             T::ONE
+        } else {
+            xv // NaN
         };
         unsafe { *result_ptr.add(i) = y };
     }
@@ -434,24 +424,20 @@ fn heaviside_typed<T: Float>(x: &RumpyArray, h0: &RumpyArray, dtype: DType) -> R
 // GCD: Greatest common divisor
 // ============================================================================
 
-pub fn gcd(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
-    let kind = a.dtype().kind();
-    match kind {
-        DTypeKind::Int64 => gcd_typed::<i64>(a, b, DType::int64()),
-        DTypeKind::Int32 => gcd_typed::<i32>(a, b, DType::int32()),
-        DTypeKind::Int16 => gcd_typed::<i16>(a, b, DType::int16()),
-        DTypeKind::Int8 => gcd_typed::<i8>(a, b, DType::int8()),
-        DTypeKind::Uint64 => gcd_typed_unsigned::<u64>(a, b, DType::uint64()),
-        DTypeKind::Uint32 => gcd_typed_unsigned::<u32>(a, b, DType::uint32()),
-        DTypeKind::Uint16 => gcd_typed_unsigned::<u16>(a, b, DType::uint16()),
-        DTypeKind::Uint8 => gcd_typed_unsigned::<u8>(a, b, DType::uint8()),
-        _ => {
-            // Fallback for float: convert to i64
-            let a_i64 = a.astype(DType::int64());
-            let b_i64 = b.astype(DType::int64());
-            gcd_typed::<i64>(&a_i64, &b_i64, DType::int64())
-        }
-    }
+pub fn gcd(a: &RumpyArray, b: &RumpyArray) -> Result<RumpyArray, BinaryOpError> {
+    let dtype = promote_dtype(&a.dtype(), &b.dtype());
+    let (a, b) = broadcast_pair(a, b, dtype.clone(), dtype.clone())?;
+    Ok(match dtype.kind() {
+        DTypeKind::Int64 => gcd_typed::<i64>(&a, &b, dtype),
+        DTypeKind::Int32 => gcd_typed::<i32>(&a, &b, dtype),
+        DTypeKind::Int16 => gcd_typed::<i16>(&a, &b, dtype),
+        DTypeKind::Int8 => gcd_typed::<i8>(&a, &b, dtype),
+        DTypeKind::Uint64 => gcd_typed_unsigned::<u64>(&a, &b, dtype),
+        DTypeKind::Uint32 => gcd_typed_unsigned::<u32>(&a, &b, dtype),
+        DTypeKind::Uint16 => gcd_typed_unsigned::<u16>(&a, &b, dtype),
+        DTypeKind::Uint8 => gcd_typed_unsigned::<u8>(&a, &b, dtype),
+        _ => return Err(BinaryOpError::UnsupportedDtype),
+    })
 }
 
 fn gcd_typed<T: SignedInt>(a: &RumpyArray, b: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -500,15 +486,9 @@ fn gcd_typed_unsigned<T: UnsignedInt>(a: &RumpyArray, b: &RumpyArray, dtype: DTy
     result
 }
 
-fn gcd_scalar_signed<T: SignedInt>(mut a: T, mut b: T) -> T {
-    a = a.abs_val();
-    b = b.abs_val();
-    while b != T::ZERO {
-        let t = b;
-        b = a % b;
-        a = t;
-    }
-    a
+fn gcd_scalar_signed<T: SignedInt>(a: T, b: T) -> T {
+    // Magnitudes, because |MIN| has no signed representation
+    T::from_magnitude(gcd_scalar_unsigned(a.magnitude(), b.magnitude()))
 }
 
 fn gcd_scalar_unsigned<T: UnsignedInt>(mut a: T, mut b: T) -> T {
@@ -524,23 +504,20 @@ fn gcd_scalar_unsigned<T: UnsignedInt>(mut a: T, mut b: T) -> T {
 // LCM: Least common multiple
 // ============================================================================
 
-pub fn lcm(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
-    let kind = a.dtype().kind();
-    match kind {
-        DTypeKind::Int64 => lcm_typed::<i64>(a, b, DType::int64()),
-        DTypeKind::Int32 => lcm_typed::<i32>(a, b, DType::int32()),
-        DTypeKind::Int16 => lcm_typed::<i16>(a, b, DType::int16()),
-        DTypeKind::Int8 => lcm_typed::<i8>(a, b, DType::int8()),
-        DTypeKind::Uint64 => lcm_typed_unsigned::<u64>(a, b, DType::uint64()),
-        DTypeKind::Uint32 => lcm_typed_unsigned::<u32>(a, b, DType::uint32()),
-        DTypeKind::Uint16 => lcm_typed_unsigned::<u16>(a, b, DType::uint16()),
-        DTypeKind::Uint8 => lcm_typed_unsigned::<u8>(a, b, DType::uint8()),
-        _ => {
-            let a_i64 = a.astype(DType::int64());
-            let b_i64 = b.astype(DType::int64());
-            lcm_typed::<i64>(&a_i64, &b_i64, DType::int64())
-        }
-    }
+pub fn lcm(a: &RumpyArray, b: &RumpyArray) -> Result<RumpyArray, BinaryOpError> {
+    let dtype = promote_dtype(&a.dtype(), &b.dtype());
+    let (a, b) = broadcast_pair(a, b, dtype.clone(), dtype.clone())?;
+    Ok(match dtype.kind() {
+        DTypeKind::Int64 => lcm_typed::<i64>(&a, &b, dtype),
+        DTypeKind::Int32 => lcm_typed::<i32>(&a, &b, dtype),
+        DTypeKind::Int16 => lcm_typed::<i16>(&a, &b, dtype),
+        DTypeKind::Int8 => lcm_typed::<i8>(&a, &b, dtype),
+        DTypeKind::Uint64 => lcm_typed_unsigned::<u64>(&a, &b, dtype),
+        DTypeKind::Uint32 => lcm_typed_unsigned::<u32>(&a, &b, dtype),
+        DTypeKind::Uint16 => lcm_typed_unsigned::<u16>(&a, &b, dtype),
+        DTypeKind::Uint8 => lcm_typed_unsigned::<u8>(&a, &b, dtype),
+        _ => return Err(BinaryOpError::UnsupportedDtype),
+    })
 }
 
 fn lcm_typed<T: SignedInt>(a: &RumpyArray, b: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -590,12 +567,11 @@ fn lcm_typed_unsigned<T: UnsignedInt>(a: &RumpyArray, b: &RumpyArray, dtype: DTy
 }
 
 fn lcm_scalar_signed<T: SignedInt>(a: T, b: T) -> T {
-    let a_abs = a.abs_val();
-    let b_abs = b.abs_val();
-    if a_abs == T::ZERO || b_abs == T::ZERO {
+    if a == T::ZERO || b == T::ZERO {
         T::ZERO
     } else {
-        a_abs / gcd_scalar_signed(a_abs, b_abs) * b_abs
+        let (a, b) = (a.magnitude(), b.magnitude());
+        T::from_magnitude((a / gcd_scalar_unsigned(a, b)).wrapping_mul(b))
     }
 }
 
@@ -603,7 +579,7 @@ fn lcm_scalar_unsigned<T: UnsignedInt>(a: T, b: T) -> T {
     if a == T::ZERO || b == T::ZERO {
         T::ZERO
     } else {
-        a / gcd_scalar_unsigned(a, b) * b
+        (a / gcd_scalar_unsigned(a, b)).mul_val(b)
     }
 }
 
@@ -624,6 +600,7 @@ trait Float: Copy + PartialOrd + std::ops::Add<Output = Self> + std::ops::Mul<Ou
     fn abs(self) -> Self;
     fn trunc(self) -> Self;
     fn powi(self, n: i32) -> Self;
+    fn copysign(self, sign: Self) -> Self;
 }
 
 impl Float for f32 {
@@ -639,6 +616,7 @@ impl Float for f32 {
     #[inline] fn abs(self) -> Self { f32::abs(self) }
     #[inline] fn trunc(self) -> Self { f32::trunc(self) }
     #[inline] fn powi(self, n: i32) -> Self { f32::powi(self, n) }
+    #[inline] fn copysign(self, sign: Self) -> Self { f32::copysign(self, sign) }
 }
 
 impl Float for f64 {
@@ -654,42 +632,49 @@ impl Float for f64 {
     #[inline] fn abs(self) -> Self { f64::abs(self) }
     #[inline] fn trunc(self) -> Self { f64::trunc(self) }
     #[inline] fn powi(self, n: i32) -> Self { f64::powi(self, n) }
+    #[inline] fn copysign(self, sign: Self) -> Self { f64::copysign(self, sign) }
 }
 
 // ============================================================================
 // Integer traits for generic integer operations
 // ============================================================================
 
-trait SignedInt: Copy + PartialEq + std::ops::Rem<Output = Self> + std::ops::Div<Output = Self> + std::ops::Mul<Output = Self> {
+trait SignedInt: Copy + PartialEq {
     const ZERO: Self;
-    fn abs_val(self) -> Self;
+    fn magnitude(self) -> u64;
+    fn from_magnitude(v: u64) -> Self;
 }
 
 impl SignedInt for i64 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn magnitude(self) -> u64 { self.unsigned_abs() as u64 }
+    #[inline] fn from_magnitude(v: u64) -> Self { v as Self }
 }
 
 impl SignedInt for i32 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn magnitude(self) -> u64 { self.unsigned_abs() as u64 }
+    #[inline] fn from_magnitude(v: u64) -> Self { v as Self }
 }
 
 impl SignedInt for i16 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn magnitude(self) -> u64 { self.unsigned_abs() as u64 }
+    #[inline] fn from_magnitude(v: u64) -> Self { v as Self }
 }
 
 impl SignedInt for i8 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn magnitude(self) -> u64 { self.unsigned_abs() as u64 }
+    #[inline] fn from_magnitude(v: u64) -> Self { v as Self }
 }
 
-trait UnsignedInt: Copy + PartialEq + std::ops::Rem<Output = Self> + std::ops::Div<Output = Self> + std::ops::Mul<Output = Self> {
+trait UnsignedInt: Copy + PartialEq + std::ops::Rem<Output = Self> + std::ops::Div<Output = Self> {
     const ZERO: Self;
+    fn mul_val(self, other: Self) -> Self;
 }
 
-impl UnsignedInt for u64 { const ZERO: Self = 0; }
-impl UnsignedInt for u32 { const ZERO: Self = 0; }
-impl UnsignedInt for u16 { const ZERO: Self = 0; }
-impl UnsignedInt for u8 { const ZERO: Self = 0; }
+impl UnsignedInt for u64 { const ZERO: Self = 0; #[inline] fn mul_val(self, other: Self) -> Self { self.wrapping_mul(other) } }
+impl UnsignedInt for u32 { const ZERO: Self = 0; #[inline] fn mul_val(self, other: Self) -> Self { self.wrapping_mul(other) } }
+impl UnsignedInt for u16 { const ZERO: Self = 0; #[inline] fn mul_val(self, other: Self) -> Self { self.wrapping_mul(other) } }
+impl UnsignedInt for u8 { const ZERO: Self = 0; #[inline] fn mul_val(self, other: Self) -> Self { self.wrapping_mul(other) } }
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index 98ed6c9..009bc29 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -46,7 +46,23 @@ fn is_transcendental(op: UnaryOp) -> bool {
     matches!(op, UnaryOp::Exp | UnaryOp::Log | UnaryOp::Log10 | UnaryOp::Log2 | UnaryOp::Sqrt |
                  UnaryOp::Sin | UnaryOp::Cos | UnaryOp::Tan |
                  UnaryOp::Sinh | UnaryOp::Cosh | UnaryOp::Tanh |
-                 UnaryOp::Arcsin | UnaryOp::Arccos | UnaryOp::Arctan)
+                 UnaryOp::Arcsin | UnaryOp::Arccos | UnaryOp::Arctan |
+                 UnaryOp::Arcsinh | UnaryOp::Arccosh | UnaryOp::Arctanh |
+                 UnaryOp::Exp2 | UnaryOp::Expm1 | UnaryOp::Log1p | UnaryOp::Cbrt | UnaryOp::Rint)
+}
+
+/// The floating point dtype a float-valued function computes in: floats and complex
+/// stay, bool and integers go by width (1 byte -> float16, 2 -> float32, else float64).
+pub(crate) fn float_dtype_of(dtype: &DType) -> DType {
+    match dtype.kind() {
+        DTypeKind::Float16 | DTypeKind::Float32 | DTypeKind::Float64
+        | DTypeKind::Complex64 | DTypeKind::Complex128 => dtype.clone(),
+        _ => match dtype.itemsize() {
+            0 | 1 => DType::float16(),
+            2 => DType::float32(),
+            _ => DType::float64(),
+        },
+    }
 }
 
 /// Check if dtype is an integer type.
@@ -59,6 +75,30 @@ pub(crate) fn is_integer_kind(kind: &DTypeKind) -> bool {
 // Unary operations
 // ============================================================================
 
+/// Modulus of each complex element, in the matching float dtype.
+fn complex_abs(arr: &RumpyArray) -> RumpyArray {
+    let single = arr.dtype().kind() == DTypeKind::Complex64;
+    let mut result = RumpyArray::zeros(arr.shape().to_vec(), if single { DType::float32() } else { DType::float64() });
+    if arr.size() == 0 {
+        return result;
+    }
+    let src_ptr = arr.data_ptr();
+    let dst_ptr = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique").as_mut_ptr();
+    for (i, offset) in arr.iter_offsets().enumerate() {
+        unsafe {
+            let src = src_ptr.offset(offset);
+            if single {
+                let z = src as *const f32;
+                *(dst_ptr as *mut f32).add(i) = (*z).hypot(*z.add(1));
+            } else {
+                let z = src as *const f64;
+                *(dst_ptr as *mut f64).add(i) = (*z).hypot(*z.add(1));
+            }
+        }
+    }
+    result
+}
+
 /// Apply a unary operation element-wise, returning a new array.
 pub fn map_unary_op(arr: &RumpyArray, op: UnaryOp) -> Result<RumpyArray, UnaryOpError> {
     let kind = arr.dtype().kind();
@@ -66,14 +106,7 @@ pub fn map_unary_op(arr: &RumpyArray, op: UnaryOp) -> Result<RumpyArray, UnaryOp
     // Transcendentals on non-float types: promote based on itemsize (like NumPy)
     // 1 byte -> float16, 2 bytes -> float32, 4+ bytes -> float64
     if is_transcendental(op) && !matches!(kind, DTypeKind::Float16 | DTypeKind::Float64 | DTypeKind::Float32 | DTypeKind::Complex64 | DTypeKind::Complex128) {
-        let itemsize = arr.dtype().itemsize();
-        let target_dtype = if itemsize <= 1 {
-            DType::float16()
-        } else if itemsize <= 2 {
-            DType::float32()
-        } else {
-            DType::float64()
-        };
+        let target_dtype = float_dtype_of(&arr.dtype());
         let arr_float = arr.astype(target_dtype);
         return map_unary_op(&arr_float, op);
     }
@@ -84,10 +117,32 @@ pub fn map_unary_op(arr: &RumpyArray, op: UnaryOp) -> Result<RumpyArray, UnaryOp
     if matches!(kind, DTypeKind::Complex64 | DTypeKind::Complex128) {
         match op {
             UnaryOp::Floor | UnaryOp::Ceil => return Err(UnaryOpError::UnsupportedDtype),
+            // |z| is real
+            UnaryOp::Abs => return Ok(complex_abs(arr)),
             _ => {}
         }
     }
 
+    if kind == DTypeKind::Bool {
+        match op {
+            UnaryOp::Neg | UnaryOp::Positive | UnaryOp::Sign => return Err(UnaryOpError::UnsupportedDtype),
+            UnaryOp::Square | UnaryOp::Reciprocal => return map_unary_op(&arr.astype(DType::int8()), op),
+            UnaryOp::Isnan | UnaryOp::Isinf | UnaryOp::Isfinite | UnaryOp::Signbit
+            | UnaryOp::Isneginf | UnaryOp::Isposinf => return map_unary_op(&arr.astype(DType::uint8()), op),
+            _ => {}
+        }
+    }
+
+    if matches!(op, UnaryOp::Isreal | UnaryOp::Iscomplex) {
+        let zero = RumpyArray::zeros(vec![1; arr.ndim()], DType::bool());
+        let imag = match kind {
+            DTypeKind::Complex64 | DTypeKind::Complex128 => arr.imag(),
+            _ => RumpyArray::zeros(arr.shape().to_vec(), DType::bool()),
+        };
+        let cmp = if op == UnaryOp::Isreal { ComparisonOp::Eq } else { ComparisonOp::Ne };
+        return map_compare_op(&imag, &zero, cmp).ok_or(UnaryOpError::UnsupportedDtype);
+    }
+
     // Try new kernel/loop dispatch for all ops
     {
         use crate::ops::dispatch;
@@ -182,12 +237,8 @@ fn binary_op_dtype(a: &DType, b: &DType, op: BinaryOp) -> Result<Option<DType>,
             Err(BinaryOpError::UnsupportedDtype)
         }
         BinaryOp::Arctan2 | BinaryOp::Hypot | BinaryOp::Copysign | BinaryOp::Logaddexp
-        | BinaryOp::Logaddexp2 | BinaryOp::Nextafter if is_bool || is_integer_kind(&kind) => {
-            Ok(Some(match common.itemsize() {
-                1 => DType::float16(),
-                2 => DType::float32(),
-                _ => DType::float64(),
-            }))
+        | BinaryOp::Logaddexp2 | BinaryOp::Nextafter => {
+            Ok(Some(promote_dtype(&float_dtype_of(a), &float_dtype_of(b))))
         }
         _ => Ok(Some(common)),
     }
@@ -498,12 +549,43 @@ pub fn map_binary_op_inplace(
 // Comparison operations
 // ============================================================================
 
+/// Compare signed with uint64 elements by value; no common integer dtype holds both.
+fn compare_wide_integers(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp, out_shape: &[usize]) -> Option<RumpyArray> {
+    let widen = |arr: &RumpyArray| -> Option<Vec<i128>> {
+        let arr = arr.broadcast_to(out_shape)?;
+        Some(if arr.dtype().kind() == DTypeKind::Uint64 {
+            arr.iter_offsets().map(|o| unsafe { *(arr.data_ptr().offset(o) as *const u64) as i128 }).collect()
+        } else {
+            let arr = arr.astype(DType::int64());
+            arr.iter_offsets().map(|o| unsafe { *(arr.data_ptr().offset(o) as *const i64) as i128 }).collect()
+        })
+    };
+    let (av, bv) = (widen(a)?, widen(b)?);
+    let mut result = RumpyArray::zeros(out_shape.to_vec(), DType::bool());
+    let out = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique").as_mut_ptr();
+    for (i, (x, y)) in av.iter().zip(&bv).enumerate() {
+        let v = match op {
+            ComparisonOp::Gt => x > y,
+            ComparisonOp::Lt => x < y,
+            ComparisonOp::Ge => x >= y,
+            ComparisonOp::Le => x <= y,
+            ComparisonOp::Eq => x == y,
+            ComparisonOp::Ne => x != y,
+        };
+        unsafe { *out.add(i) = v as u8; }
+    }
+    Some(result)
+}
+
 /// Apply a comparison function element-wise, returning bool array.
 pub fn map_compare_op(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> Option<RumpyArray> {
     let out_shape = broadcast_shapes(a.shape(), b.shape())?;
 
     // Promote to common dtype for comparison (like binary ops)
     let common_dtype = promote_dtype(&a.dtype(), &b.dtype());
+    if is_integer_kind(&a.dtype().kind()) && is_integer_kind(&b.dtype().kind()) && !is_integer_kind(&common_dtype.kind()) {
+        return compare_wide_integers(a, b, op, &out_shape);
+    }
     let a_promoted = if a.dtype() != common_dtype { a.astype(common_dtype.clone()) } else { a.clone() };
     let b_promoted = if b.dtype() != common_dtype { b.astype(common_dtype.clone()) } else { b.clone() };
 
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 18ec667..14b110a 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -1215,7 +1215,7 @@ pub fn angle(z: &PyRumpyArray, deg: bool) -> PyResult<PyRumpyArray> {
 
         for (i, &offset) in offsets.iter().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            let mut ang = if val < 0.0 { std::f64::consts::PI } else { 0.0 };
+            let mut ang = 0.0_f64.atan2(val);
             if deg {
                 ang = ang.to_degrees();
             }
@@ -1223,7 +1223,12 @@ pub fn angle(z: &PyRumpyArray, deg: bool) -> PyResult<PyRumpyArray> {
         }
     }
 
-    Ok(PyRumpyArray::new(result))
+    let dtype = match kind {
+        DTypeKind::Complex64 => DType::float32(),
+        DTypeKind::Complex128 => DType::float64(),
+        _ => crate::ops::ufunc::float_dtype_of(&inner.dtype()),
+    };
+    Ok(PyRumpyArray::new(if result.dtype() == dtype { result } else { result.astype(dtype) }))
 }
 
 // ============================================================================
diff --git a/src/python/pyarray/dunder_ops.rs b/src/python/pyarray/dunder_ops.rs
index ba67c60..5977d58 100644
--- a/src/python/pyarray/dunder_ops.rs
+++ b/src/python/pyarray/dunder_ops.rs
@@ -106,8 +106,10 @@ impl PyRumpyArray {
 
     // Unary operations
 
-    fn __neg__(&self) -> Self {
-        Self::new(self.inner.neg().expect("neg always succeeds"))
+    fn __neg__(&self) -> PyResult<Self> {
+        self.inner.neg().map(Self::new).map_err(|_| pyo3::exceptions::PyTypeError::new_err(
+            "the negative operator is not supported for this dtype",
+        ))
     }
 
     fn __abs__(&self) -> Self {
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index 1b5104c..fb782f4 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -328,7 +328,7 @@ pub fn fix(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
 
 #[pyfunction]
 pub fn rint(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
-    apply_unary(x, |v| v.round(), |a| a.rint())
+    apply_unary(x, |v| v.round_ties_even(), |a| a.rint())
 }
 
 #[pyfunction]
@@ -497,12 +497,8 @@ pub fn nextafter(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<PyRum
 pub fn deg2rad(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
     let deg_to_rad = std::f64::consts::PI / 180.0;
     apply_unary(x, |v| v * deg_to_rad, |a| {
-        // Promote to float64 if integer (numpy behavior)
-        let arr = if a.dtype() != DType::float64() && a.dtype() != DType::float32() {
-            a.astype(DType::float64())
-        } else {
-            a.clone()
-        };
+        // Integers promote to the float of their width (numpy behavior)
+        let arr = a.astype(crate::ops::ufunc::float_dtype_of(&a.dtype()));
         Ok(arr.scalar_op(deg_to_rad, crate::array::dtype::BinaryOp::Mul))
     })
 }
@@ -511,12 +507,8 @@ pub fn deg2rad(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
 pub fn rad2deg(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
     let rad_to_deg = 180.0 / std::f64::consts::PI;
     apply_unary(x, |v| v * rad_to_deg, |a| {
-        // Promote to float64 if integer (numpy behavior)
-        let arr = if a.dtype() != DType::float64() && a.dtype() != DType::float32() {
-            a.astype(DType::float64())
-        } else {
-            a.clone()
-        };
+        // Integers promote to the float of their width (numpy behavior)
+        let arr = a.astype(crate::ops::ufunc::float_dtype_of(&a.dtype()));
         Ok(arr.scalar_op(rad_to_deg, crate::array::dtype::BinaryOp::Mul))
     })
 }
@@ -794,26 +786,26 @@ pub fn frexp(x: &PyRumpyArray) -> (PyRumpyArray, PyRumpyArray) {
 
 /// Compute ldexp: x * 2^i.
 #[pyfunction]
-pub fn ldexp(x: &PyRumpyArray, i: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::ldexp(&x.inner, &i.inner))
+pub fn ldexp(x: &PyRumpyArray, i: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::ldexp(&x.inner, &i.inner).map(PyRumpyArray::new).map_err(super::pyarray::binary_op_error)
 }
 
 /// Compute the Heaviside step function.
 #[pyfunction]
-pub fn heaviside(x: &PyRumpyArray, h0: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::heaviside(&x.inner, &h0.inner))
+pub fn heaviside(x: &PyRumpyArray, h0: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::heaviside(&x.inner, &h0.inner).map(PyRumpyArray::new).map_err(super::pyarray::binary_op_error)
 }
 
 /// Compute the greatest common divisor element-wise.
 #[pyfunction]
-pub fn gcd(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::gcd(&x1.inner, &x2.inner))
+pub fn gcd(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::gcd(&x1.inner, &x2.inner).map(PyRumpyArray::new).map_err(super::pyarray::binary_op_error)
 }
 
 /// Compute the least common multiple element-wise.
 #[pyfunction]
-pub fn lcm(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::lcm(&x1.inner, &x2.inner))
+pub fn lcm(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::lcm(&x1.inner, &x2.inner).map(PyRumpyArray::new).map_err(super::pyarray::binary_op_error)
 }
 
 // ============================================================================
@@ -954,8 +946,9 @@ pub fn float_power(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<PyR
     let out_shape = crate::array::broadcast_shapes(arr1.shape(), arr2.shape())
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes"))?;
 
-    // Promote dtypes to common type for same-type dispatch
-    let promoted_dtype = crate::array::dtype::promote_dtype(&arr1.dtype(), &arr2.dtype());
+    // Promote dtypes to common type for same-type dispatch (at least float64)
+    let promoted_dtype = crate::array::dtype::promote_dtype(
+        &crate::array::dtype::promote_dtype(&arr1.dtype(), &arr2.dtype()), &DType::float64());
     let arr1 = if arr1.dtype() != promoted_dtype { arr1.astype(promoted_dtype.clone()) } else { arr1 };
     let arr2 = if arr2.dtype() != promoted_dtype { arr2.astype(promoted_dtype) } else { arr2 };
 
-- 
2.43.0


From d49ea4318a059f4b2e80c19c4797a1203100c79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:54 +0000
Subject: [PATCH 15/81] fix: complex square root no longer cancels the small
 component, so inverse functions keep full precision

---
 src/array/dtype/complex128.rs |  8 ++++++--
 src/array/dtype/complex64.rs  |  8 ++++++--
 src/ops/kernels/math.rs       | 10 ++++++++--
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/array/dtype/complex128.rs b/src/array/dtype/complex128.rs
index d861939..71d0fdc 100644
--- a/src/array/dtype/complex128.rs
+++ b/src/array/dtype/complex128.rs
@@ -50,8 +50,12 @@ impl Complex128Ops {
             return (0.0, im);
         }
         let mag = (re * re + im * im).sqrt();
-        let sqrt_r = ((mag + re) / 2.0).sqrt();
-        let sqrt_i = ((mag - re) / 2.0).sqrt();
+        let t = ((mag + re.abs()) / 2.0).sqrt();
+        let (sqrt_r, sqrt_i) = if re >= 0.0 {
+            (t, im.abs() / (2.0 * t))
+        } else {
+            (im.abs() / (2.0 * t), t)
+        };
         // For principal square root: imaginary part has same sign as input imaginary part.
         // Use is_sign_negative to correctly detect -0.0 vs +0.0.
         if im.is_sign_negative() {
diff --git a/src/array/dtype/complex64.rs b/src/array/dtype/complex64.rs
index 8fd71c2..27d3d4b 100644
--- a/src/array/dtype/complex64.rs
+++ b/src/array/dtype/complex64.rs
@@ -48,8 +48,12 @@ impl Complex64Ops {
             return (0.0, im);
         }
         let mag = (re * re + im * im).sqrt();
-        let sqrt_r = ((mag + re) / 2.0).sqrt();
-        let sqrt_i = ((mag - re) / 2.0).sqrt();
+        let t = ((mag + re.abs()) / 2.0).sqrt();
+        let (sqrt_r, sqrt_i) = if re >= 0.0 {
+            (t, im.abs() / (2.0 * t))
+        } else {
+            (im.abs() / (2.0 * t), t)
+        };
         // For principal square root: imaginary part has same sign as input imaginary part.
         // Use is_sign_negative to correctly detect -0.0 vs +0.0.
         if im.is_sign_negative() {
diff --git a/src/ops/kernels/math.rs b/src/ops/kernels/math.rs
index 77b7d83..22c43b0 100644
--- a/src/ops/kernels/math.rs
+++ b/src/ops/kernels/math.rs
@@ -466,8 +466,14 @@ fn numpy_sqrt<F: Float + FloatConst>(z: Complex<F>) -> Complex<F> {
     }
     let two = F::from(2.0).unwrap();
     let mag = (re * re + im * im).sqrt();
-    let sqrt_r = ((mag + re) / two).sqrt();
-    let sqrt_i = ((mag - re) / two).sqrt();
+    // Only the sum of like-signed terms is computed directly; the other part follows
+    // from 2 * sqrt_r * sqrt_i = |im|, which does not cancel.
+    let t = ((mag + re.abs()) / two).sqrt();
+    let (sqrt_r, sqrt_i) = if re >= F::zero() {
+        (t, im.abs() / (two * t))
+    } else {
+        (im.abs() / (two * t), t)
+    };
     // Sign of imaginary result matches sign of input imaginary (using is_sign_negative for -0.0)
     if im.is_sign_negative() {
         Complex::new(sqrt_r, -sqrt_i)
-- 
2.43.0


From 633156f5ccd4c49cd5a7295eeda0a8a36d35e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:14 +0000
Subject: [PATCH 16/81] fix: an empty integer array may be raised to negative
 powers

---
 src/ops/ufunc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index 009bc29..132c07c 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -281,7 +281,7 @@ pub fn map_binary_op_inplace(
 ) -> Result<RumpyArray, BinaryOpError> {
     // Bring both operands to the dtype the operation computes in
     if let Some(dtype) = binary_op_dtype(&a.dtype(), &b.dtype(), op)? {
-        if op == BinaryOp::Pow && is_integer_kind(&dtype.kind()) && has_negative(b) {
+        if op == BinaryOp::Pow && is_integer_kind(&dtype.kind()) && a.size() > 0 && has_negative(b) {
             return Err(BinaryOpError::UnsupportedDtype);
         }
         if a.dtype() != dtype || b.dtype() != dtype {
-- 
2.43.0


From 80fa02630f8c442478061bf0744b891c8b8fedf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:21 +0000
Subject: [PATCH 17/81] fix: reducing the only axis of an array gives a 0-d
 result

---
 src/ops/array_methods/logical.rs    |  6 ------
 src/ops/array_methods/reductions.rs | 20 ++++----------------
 src/ops/dispatch.rs                 |  9 ---------
 src/ops/numerical.rs                |  2 --
 src/ops/statistics.rs               |  6 ------
 src/ops/ufunc.rs                    |  3 ---
 6 files changed, 4 insertions(+), 42 deletions(-)

diff --git a/src/ops/array_methods/logical.rs b/src/ops/array_methods/logical.rs
index 561ba08..c8c6e89 100644
--- a/src/ops/array_methods/logical.rs
+++ b/src/ops/array_methods/logical.rs
@@ -49,9 +49,6 @@ impl RumpyArray {
         // Fallback for DateTime64
         let mut out_shape: Vec<usize> = self.shape().to_vec();
         let axis_len = out_shape.remove(axis);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
 
         let mut result = RumpyArray::zeros(out_shape.clone(), DType::bool());
         let out_size = result.size();
@@ -116,9 +113,6 @@ impl RumpyArray {
         // Fallback for DateTime64
         let mut out_shape: Vec<usize> = self.shape().to_vec();
         let axis_len = out_shape.remove(axis);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
 
         let mut result = RumpyArray::zeros(out_shape.clone(), DType::bool());
         let out_size = result.size();
diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 3efff6c..fbf34e6 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -70,7 +70,7 @@ impl RumpyArray {
     pub fn mean_axis(&self, axis: usize) -> RumpyArray {
         let sum = self.sum_axis(axis);
         let count = self.shape()[axis] as f64;
-        let count_arr = RumpyArray::full(vec![1], count, sum.dtype());
+        let count_arr = RumpyArray::full(vec![], count, sum.dtype());
         sum.binary_op(&count_arr, BinaryOp::Div).expect("broadcast works")
     }
 
@@ -137,9 +137,6 @@ impl RumpyArray {
         if axis_len == 0 {
             let mut out_shape: Vec<usize> = self.shape().to_vec();
             out_shape.remove(axis);
-            if out_shape.is_empty() {
-                out_shape = vec![1];
-            }
             return RumpyArray::zeros(out_shape, DType::float64());
         }
 
@@ -156,13 +153,13 @@ impl RumpyArray {
             diff.binary_op(&diff, BinaryOp::Mul).expect("same shape")
         } else {
             // General case: use pow
-            let k_arr = RumpyArray::full(vec![1], k as f64, diff.dtype());
+            let k_arr = RumpyArray::full(vec![], k as f64, diff.dtype());
             diff.binary_op(&k_arr, BinaryOp::Pow).expect("broadcast works")
         };
 
         // Sum along axis and divide by count (uses efficient reduce_axis_op)
         let sum = powered.sum_axis(axis);
-        let count_arr = RumpyArray::full(vec![1], axis_len as f64, sum.dtype());
+        let count_arr = RumpyArray::full(vec![], axis_len as f64, sum.dtype());
         sum.binary_op(&count_arr, BinaryOp::Div).expect("broadcast works")
     }
 
@@ -203,7 +200,7 @@ impl RumpyArray {
         // m4 / m2^2 - 3
         let m2_sq = m2.binary_op(&m2, BinaryOp::Mul).expect("broadcast works");
         let ratio = m4.binary_op(&m2_sq, BinaryOp::Div).expect("broadcast works");
-        let three = RumpyArray::full(vec![1], 3.0, ratio.dtype());
+        let three = RumpyArray::full(vec![], 3.0, ratio.dtype());
         ratio.binary_op(&three, BinaryOp::Sub).expect("broadcast works")
     }
 
@@ -341,9 +338,6 @@ impl RumpyArray {
 
         let mut out_shape: Vec<usize> = shape[..axis].to_vec();
         out_shape.extend_from_slice(&shape[axis + 1..]);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
 
         let out_size: usize = out_shape.iter().product();
         let mut result = RumpyArray::zeros(out_shape.clone(), DType::int64());
@@ -521,9 +515,6 @@ macro_rules! impl_arg_axis {
 
             let mut out_shape: Vec<usize> = shape[..axis].to_vec();
             out_shape.extend_from_slice(&shape[axis + 1..]);
-            if out_shape.is_empty() {
-                out_shape = vec![1];
-            }
 
             let out_size: usize = out_shape.iter().product();
             let mut result = RumpyArray::zeros(out_shape.clone(), DType::int64());
@@ -659,9 +650,6 @@ impl RumpyArray {
     {
         let mut out_shape: Vec<usize> = self.shape().to_vec();
         let axis_len = out_shape.remove(axis);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
 
         let mut result = RumpyArray::zeros(out_shape.clone(), result_dtype.clone());
         let out_size = result.size();
diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 7b59f6f..8aa860c 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -629,9 +629,6 @@ fn dispatch_reduce_axis_typed<T: Copy, K: ReduceKernel<T>>(
     let mut out_shape: Vec<usize> = arr.shape().to_vec();
     let axis_len = out_shape.remove(axis);
 
-    if out_shape.is_empty() {
-        out_shape = vec![1]; // Scalar result wrapped in 1D array
-    }
 
     let axis_stride = arr.strides()[axis];
 
@@ -1797,9 +1794,6 @@ fn dispatch_logical_axis_typed<T: Copy + Default + PartialEq>(
 ) -> Option<RumpyArray> {
     let mut out_shape: Vec<usize> = arr.shape().to_vec();
     let axis_len = out_shape.remove(axis);
-    if out_shape.is_empty() {
-        out_shape = vec![1];
-    }
 
     let mut result = RumpyArray::zeros(out_shape.clone(), DType::bool());
     let out_size = result.size();
@@ -1860,9 +1854,6 @@ fn dispatch_logical_axis_complex<T: Copy + Default + PartialEq>(
 ) -> Option<RumpyArray> {
     let mut out_shape: Vec<usize> = arr.shape().to_vec();
     let axis_len = out_shape.remove(axis);
-    if out_shape.is_empty() {
-        out_shape = vec![1];
-    }
 
     let mut result = RumpyArray::zeros(out_shape.clone(), DType::bool());
     let out_size = result.size();
diff --git a/src/ops/numerical.rs b/src/ops/numerical.rs
index 146c9e4..eebe67a 100644
--- a/src/ops/numerical.rs
+++ b/src/ops/numerical.rs
@@ -249,7 +249,6 @@ pub fn trapezoid(y: &RumpyArray, x: Option<&RumpyArray>, dx: f64, axis: isize) -
     let n = shape[axis];
     let out_shape: Vec<usize> = shape.iter().enumerate()
         .filter(|&(i, _)| i != axis).map(|(_, &d)| d).collect();
-    let out_shape = if out_shape.is_empty() { vec![1] } else { out_shape };
 
     if n <= 1 {
         return Some(RumpyArray::zeros(out_shape, DType::float64()));
@@ -295,7 +294,6 @@ fn trapezoid_fallback(y: &RumpyArray, x_vals: Option<&[f64]>, dx: f64, axis: usi
     let n = shape[axis];
     let out_shape: Vec<usize> = shape.iter().enumerate()
         .filter(|&(i, _)| i != axis).map(|(_, &d)| d).collect();
-    let out_shape = if out_shape.is_empty() { vec![1] } else { out_shape };
 
     let mut result = RumpyArray::zeros(out_shape, DType::float64());
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index 5f17775..0cb90c0 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -430,9 +430,6 @@ impl RumpyArray {
         // Output shape: remove the axis dimension
         let mut out_shape: Vec<usize> = shape[..axis].to_vec();
         out_shape.extend_from_slice(&shape[axis + 1..]);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
 
         let out_size: usize = out_shape.iter().product();
         let mut result = RumpyArray::zeros(out_shape.clone(), DType::float64());
@@ -559,9 +556,6 @@ impl RumpyArray {
         // Output shape: remove the axis dimension
         let mut out_shape: Vec<usize> = shape[..axis].to_vec();
         out_shape.extend_from_slice(&shape[axis + 1..]);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
 
         let out_size: usize = out_shape.iter().product();
         let mut result = RumpyArray::zeros(out_shape, DType::float64());
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index 132c07c..f877a35 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -739,9 +739,6 @@ pub fn reduce_axis_op(arr: &RumpyArray, axis: usize, op: ReduceOp) -> RumpyArray
     let mut out_shape: Vec<usize> = arr.shape().to_vec();
     let axis_len = out_shape.remove(axis);
 
-    if out_shape.is_empty() {
-        out_shape = vec![1]; // Scalar result wrapped in 1D array
-    }
 
     let dtype = arr.dtype();
     let kind = dtype.kind();
-- 
2.43.0


From 6becddd924eaabcf6371085497452283f9167861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:27 +0000
Subject: [PATCH 18/81] fix: a scalar read out of an array keeps its value and
 kind

---
 src/ops/mod.rs                    | 50 +++++++++++++++++++++----------
 src/python/pyarray/dunder_item.rs |  3 +-
 src/python/pyarray/dunder_ops.rs  |  5 ++--
 src/python/pyarray/mod.rs         | 20 ++++++-------
 4 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 0edbed4..ecbd430 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -279,22 +279,11 @@ impl RumpyArray {
             py: pyo3::Python<'_>,
             depth: usize,
             indices: &mut Vec<usize>,
-            use_int: bool,
         ) -> pyo3::PyResult<pyo3::PyObject> {
             use pyo3::IntoPyObject;
             if depth == arr.ndim() {
                 // Base case: return scalar of appropriate type
-                let offset = arr.byte_offset_for(indices);
-                let ptr = arr.data_ptr();
-                let dtype = arr.dtype();
-                let ops = dtype.ops();
-                if use_int {
-                    let val = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0);
-                    return Ok(val.into_pyobject(py)?.into_any().unbind());
-                } else {
-                    let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-                    return Ok(val.into_pyobject(py)?.into_any().unbind());
-                }
+                return arr.element_to_py(py, indices);
             }
 
             // Build list for this dimension
@@ -302,15 +291,46 @@ impl RumpyArray {
             let mut items = Vec::with_capacity(dim_size);
             for i in 0..dim_size {
                 indices[depth] = i;
-                items.push(build_list(arr, py, depth + 1, indices, use_int)?);
+                items.push(build_list(arr, py, depth + 1, indices)?);
             }
             let list = PyList::new(py, items)?;
             Ok(list.into_pyobject(py)?.into_any().unbind())
         }
 
         let mut indices = vec![0usize; self.ndim()];
-        let use_int = self.dtype().is_integer();
-        build_list(self, py, 0, &mut indices, use_int)
+        build_list(self, py, 0, &mut indices)
+    }
+
+    /// One element as the Python scalar of its kind.
+    pub fn element_to_py(&self, py: pyo3::Python<'_>, indices: &[usize]) -> pyo3::PyResult<pyo3::PyObject> {
+        use crate::array::dtype::DTypeKind;
+        use pyo3::IntoPyObject;
+        let offset = self.byte_offset_for(indices);
+        let ptr = self.data_ptr();
+        let dtype = self.dtype();
+        let ops = dtype.ops();
+        Ok(match dtype.kind() {
+            DTypeKind::Bool => {
+                let val = unsafe { ops.is_truthy(ptr, offset) };
+                pyo3::types::PyBool::new(py, val).to_owned().into_any().unbind()
+            }
+            DTypeKind::Uint64 => {
+                let val = unsafe { ptr.offset(offset).cast::<u64>().read_unaligned() };
+                val.into_pyobject(py)?.into_any().unbind()
+            }
+            DTypeKind::Complex64 | DTypeKind::Complex128 => {
+                let (re, im) = unsafe { ops.read_complex(ptr, offset) }.unwrap_or((0.0, 0.0));
+                pyo3::types::PyComplex::from_doubles(py, re, im).into_any().unbind()
+            }
+            _ if dtype.is_integer() => {
+                let val = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0);
+                val.into_pyobject(py)?.into_any().unbind()
+            }
+            _ => {
+                let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
+                val.into_pyobject(py)?.into_any().unbind()
+            }
+        })
     }
 }
 
diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index 5c39ea1..27a76ec 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -161,8 +161,7 @@ impl PyRumpyArray {
                         }
                     })
                     .collect::<PyResult<_>>()?;
-                let val = self.inner.get_element(&indices);
-                return Ok(val.into_pyobject(py)?.into_any().unbind());
+                return self.inner.element_to_py(py, &indices);
             }
 
             let result = self.index_view(&items)?;
diff --git a/src/python/pyarray/dunder_ops.rs b/src/python/pyarray/dunder_ops.rs
index 5977d58..9e5a0b2 100644
--- a/src/python/pyarray/dunder_ops.rs
+++ b/src/python/pyarray/dunder_ops.rs
@@ -125,13 +125,14 @@ impl PyRumpyArray {
         Ok(self.inner.get_element(&vec![0; self.inner.ndim()]))
     }
 
-    fn __int__(&self) -> PyResult<i64> {
+    fn __int__(&self, py: Python<'_>) -> PyResult<PyObject> {
         if self.inner.size() != 1 {
             return Err(pyo3::exceptions::PyTypeError::new_err(
                 "only size-1 arrays can be converted to Python scalars",
             ));
         }
-        Ok(self.inner.get_element(&vec![0; self.inner.ndim()]) as i64)
+        let value = self.inner.element_to_py(py, &vec![0; self.inner.ndim()])?;
+        Ok(value.bind(py).call_method0("__int__")?.unbind())
     }
 
     // Comparison operations
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 51fed52..c5734cc 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -423,13 +423,13 @@ impl PyRumpyArray {
     }
 
     /// Extract a scalar from a size-1 array.
-    fn item(&self) -> PyResult<f64> {
+    fn item(&self, py: Python<'_>) -> PyResult<PyObject> {
         if self.inner.size() != 1 {
             return Err(pyo3::exceptions::PyValueError::new_err(
                 "can only convert an array of size 1 to a Python scalar",
             ));
         }
-        Ok(self.inner.get_element(&vec![0; self.inner.ndim()]))
+        self.inner.element_to_py(py, &vec![0; self.inner.ndim()])
     }
 
     /// Clip values to a range.
@@ -1551,34 +1551,34 @@ impl PyFlatIter {
         slf
     }
 
-    fn __next__(&mut self) -> Option<f64> {
+    fn __next__(&mut self, py: Python<'_>) -> PyResult<Option<PyObject>> {
         let size = self.inner.size();
         if self.index >= size {
-            return None;
+            return Ok(None);
         }
 
         // Get element at current flat index
-        let val = self.get_flat_element(self.index);
+        let val = self.get_flat_element(py, self.index)?;
         self.index += 1;
-        Some(val)
+        Ok(Some(val))
     }
 
     fn __len__(&self) -> usize {
         self.inner.size()
     }
 
-    fn __getitem__(&self, index: isize) -> PyResult<f64> {
+    fn __getitem__(&self, py: Python<'_>, index: isize) -> PyResult<PyObject> {
         let size = self.inner.size() as isize;
         let idx = if index < 0 { size + index } else { index };
         if idx < 0 || idx >= size {
             return Err(pyo3::exceptions::PyIndexError::new_err("index out of bounds"));
         }
-        Ok(self.get_flat_element(idx as usize))
+        self.get_flat_element(py, idx as usize)
     }
 }
 
 impl PyFlatIter {
-    fn get_flat_element(&self, flat_idx: usize) -> f64 {
+    fn get_flat_element(&self, py: Python<'_>, flat_idx: usize) -> PyResult<PyObject> {
         let shape = self.inner.shape();
         let ndim = shape.len();
 
@@ -1590,6 +1590,6 @@ impl PyFlatIter {
             remaining /= shape[i];
         }
 
-        self.inner.get_element(&indices)
+        self.inner.element_to_py(py, &indices)
     }
 }
-- 
2.43.0


From 98550b3fe3d8cd9392d262ed9ab7688a9ed3218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:57 +0000
Subject: [PATCH 19/81] fix: max and min propagate NaN

---
 src/array/dtype/float16.rs    | 4 ++--
 src/array/dtype/macros.rs     | 4 ++--
 src/ops/kernels/arithmetic.rs | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index 6be30c7..447bbd7 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -129,8 +129,8 @@ impl DTypeOps for Float16Ops {
         let result = match op {
             ReduceOp::Sum => a + v,
             ReduceOp::Prod => a * v,
-            ReduceOp::Max => a.max(v),
-            ReduceOp::Min => a.min(v),
+            ReduceOp::Max => if v > a || v.is_nan() { v } else { a },
+            ReduceOp::Min => if v < a || v.is_nan() { v } else { a },
         };
         Self::write(acc, idx, f16::from_f32(result));
     }
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index 8c45713..1df91a6 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -131,8 +131,8 @@ macro_rules! impl_float_dtype {
                 let result = match op {
                     ReduceOp::Sum => a + v,
                     ReduceOp::Prod => a * v,
-                    ReduceOp::Max => a.max(v),
-                    ReduceOp::Min => a.min(v),
+                    ReduceOp::Max => if v > a || v.is_nan() { v } else { a },
+                    ReduceOp::Min => if v < a || v.is_nan() { v } else { a },
                 };
                 Self::write(acc, idx, result);
             }
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index 85701e9..26708cf 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -167,13 +167,13 @@ macro_rules! impl_float_arithmetic {
             #[inline(always)]
             fn init() -> $T { <$T>::NEG_INFINITY }
             #[inline(always)]
-            fn combine(acc: $T, v: $T) -> $T { if v > acc { v } else { acc } }
+            fn combine(acc: $T, v: $T) -> $T { if v > acc || v.is_nan() { v } else { acc } }
         }
         impl ReduceKernel<$T> for Min {
             #[inline(always)]
             fn init() -> $T { <$T>::INFINITY }
             #[inline(always)]
-            fn combine(acc: $T, v: $T) -> $T { if v < acc { v } else { acc } }
+            fn combine(acc: $T, v: $T) -> $T { if v < acc || v.is_nan() { v } else { acc } }
         }
         impl ReduceKernel<$T> for SumOfSquares {
             #[inline(always)]
@@ -341,13 +341,13 @@ impl ReduceKernel<f16> for Max {
     #[inline(always)]
     fn init() -> f16 { f16::NEG_INFINITY }
     #[inline(always)]
-    fn combine(acc: f16, v: f16) -> f16 { if v > acc { v } else { acc } }
+    fn combine(acc: f16, v: f16) -> f16 { if v > acc || v.is_nan() { v } else { acc } }
 }
 impl ReduceKernel<f16> for Min {
     #[inline(always)]
     fn init() -> f16 { f16::INFINITY }
     #[inline(always)]
-    fn combine(acc: f16, v: f16) -> f16 { if v < acc { v } else { acc } }
+    fn combine(acc: f16, v: f16) -> f16 { if v < acc || v.is_nan() { v } else { acc } }
 }
 impl ReduceKernel<f16> for SumOfSquares {
     #[inline(always)]
-- 
2.43.0


From 4393f9cffbf2197dc49cbfe3cc9dc38b5ba2e110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:44 +0000
Subject: [PATCH 20/81] fix: argmax and argmin find NaN first and read strided
 axes correctly

---
 src/ops/array_methods/reductions.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index fbf34e6..8ebb401 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -293,7 +293,7 @@ impl RumpyArray {
         let mut max_idx = 0;
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if val > max_val {
+            if val > max_val || (val.is_nan() && !max_val.is_nan()) {
                 max_val = val;
                 max_idx = i;
             }
@@ -310,7 +310,7 @@ impl RumpyArray {
         let mut min_idx = 0;
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if val < min_val {
+            if val < min_val || (val.is_nan() && !min_val.is_nan()) {
                 min_val = val;
                 min_idx = i;
             }
@@ -363,7 +363,7 @@ impl RumpyArray {
             for j in 1..axis_len {
                 in_indices[axis] = j;
                 let val = self.get_element(&in_indices);
-                if is_better(val, best_val) {
+                if is_better(val, best_val) || (val.is_nan() && !best_val.is_nan()) {
                     best_val = val;
                     best_idx = j as i64;
                 }
@@ -384,6 +384,9 @@ impl RumpyArray {
 trait ArgReducible: Copy + PartialOrd {
     fn neg_infinity() -> Self;
     fn pos_infinity() -> Self;
+    /// NaN is both the maximum and the minimum of whatever contains it.
+    #[allow(clippy::eq_op)]
+    fn is_nan_value(self) -> bool { self != self }
 }
 
 impl ArgReducible for f64 {
@@ -449,7 +452,7 @@ fn argmax_contiguous<T: ArgReducible>(ptr: *const T, n: usize) -> usize {
     let mut best_idx = 0;
     for i in 1..n {
         let v = unsafe { *ptr.add(i) };
-        if v > best_val {
+        if v > best_val || (v.is_nan_value() && !best_val.is_nan_value()) {
             best_val = v;
             best_idx = i;
         }
@@ -465,7 +468,7 @@ fn argmin_contiguous<T: ArgReducible>(ptr: *const T, n: usize) -> usize {
     let mut best_idx = 0;
     for i in 1..n {
         let v = unsafe { *ptr.add(i) };
-        if v < best_val {
+        if v < best_val || (v.is_nan_value() && !best_val.is_nan_value()) {
             best_val = v;
             best_idx = i;
         }
@@ -480,7 +483,7 @@ fn argmax_strided<T: ArgReducible>(arr: &RumpyArray) -> usize {
     let mut best_idx = 0;
     for (i, offset) in arr.iter_offsets().enumerate() {
         let v = unsafe { *(ptr as *const u8).offset(offset).cast::<T>() };
-        if v > best_val {
+        if v > best_val || (v.is_nan_value() && !best_val.is_nan_value()) {
             best_val = v;
             best_idx = i;
         }
@@ -495,7 +498,7 @@ fn argmin_strided<T: ArgReducible>(arr: &RumpyArray) -> usize {
     let mut best_idx = 0;
     for (i, offset) in arr.iter_offsets().enumerate() {
         let v = unsafe { *(ptr as *const u8).offset(offset).cast::<T>() };
-        if v < best_val {
+        if v < best_val || (v.is_nan_value() && !best_val.is_nan_value()) {
             best_val = v;
             best_idx = i;
         }
@@ -540,7 +543,7 @@ macro_rules! impl_arg_axis {
                         let mut best_idx = 0usize;
                         for j in 1..n_cols {
                             let v = unsafe { *row_start.add(j) };
-                            if v $cmp best_val {
+                            if v $cmp best_val || (v.is_nan_value() && !best_val.is_nan_value()) {
                                 best_val = v;
                                 best_idx = j;
                             }
@@ -555,7 +558,7 @@ macro_rules! impl_arg_axis {
                         let mut best_idx = 0usize;
                         for j in 1..axis_len {
                             let v = unsafe { *slice_start.add(j) };
-                            if v $cmp best_val {
+                            if v $cmp best_val || (v.is_nan_value() && !best_val.is_nan_value()) {
                                 best_val = v;
                                 best_idx = j;
                             }
@@ -577,7 +580,7 @@ macro_rules! impl_arg_axis {
                         for inner_idx in 0..inner_size {
                             let v = unsafe { *src_ptr.add(src_idx) };
                             let out_idx = out_base + inner_idx;
-                            if v $cmp best_vals[out_idx] {
+                            if v $cmp best_vals[out_idx] || (v.is_nan_value() && !best_vals[out_idx].is_nan_value()) {
                                 best_vals[out_idx] = v;
                                 unsafe { *result_ptr.add(out_idx) = axis_idx as i64; }
                             }
@@ -592,9 +595,8 @@ macro_rules! impl_arg_axis {
                     let mut best_val = unsafe { *start };
                     let mut best_idx = 0i64;
                     for j in 1..axis_len {
-                        let v = unsafe { *(start as *const u8).offset(axis_stride * j as isize) as *const T };
-                        let v = unsafe { *v };
-                        if v $cmp best_val {
+                        let v = unsafe { *((start as *const u8).offset(axis_stride * j as isize) as *const T) };
+                        if v $cmp best_val || (v.is_nan_value() && !best_val.is_nan_value()) {
                             best_val = v;
                             best_idx = j as i64;
                         }
-- 
2.43.0


From e3198a54787951a6ada561db0bf2cc6f7403be24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:15 +0000
Subject: [PATCH 21/81] fix: sums and products of narrow integers accumulate in
 64 bits, means of integers in float64

---
 src/ops/array_methods/reductions.rs | 19 ++++++++++++---
 src/ops/dispatch.rs                 | 30 +++++++++++++++---------
 src/ops/ufunc.rs                    | 36 ++++++++++++++++++++++++++++-
 3 files changed, 70 insertions(+), 15 deletions(-)

diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 8ebb401..62bd555 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -63,12 +63,22 @@ impl RumpyArray {
         if self.size() == 0 {
             return f64::NAN;
         }
-        self.sum() / self.size() as f64
+        self.floating_operand().sum() / self.size() as f64
+    }
+
+    /// Integers and booleans are averaged in float64.
+    fn floating_operand(&self) -> RumpyArray {
+        use crate::array::dtype::DTypeKind;
+        if self.dtype().is_integer() || self.dtype().kind() == DTypeKind::Bool {
+            self.astype(DType::float64())
+        } else {
+            self.clone()
+        }
     }
 
     /// Mean along axis.
     pub fn mean_axis(&self, axis: usize) -> RumpyArray {
-        let sum = self.sum_axis(axis);
+        let sum = self.floating_operand().sum_axis(axis);
         let count = self.shape()[axis] as f64;
         let count_arr = RumpyArray::full(vec![], count, sum.dtype());
         sum.binary_op(&count_arr, BinaryOp::Div).expect("broadcast works")
@@ -137,7 +147,10 @@ impl RumpyArray {
         if axis_len == 0 {
             let mut out_shape: Vec<usize> = self.shape().to_vec();
             out_shape.remove(axis);
-            return RumpyArray::zeros(out_shape, DType::float64());
+            return RumpyArray::full(out_shape, f64::NAN, DType::float64());
+        }
+        if self.dtype().is_integer() || self.dtype().kind() == crate::array::dtype::DTypeKind::Bool {
+            return self.floating_operand().moment_axis(k, axis);
         }
 
         // Compute mean and broadcast back to original shape
diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 8aa860c..238b19b 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -474,6 +474,14 @@ pub fn dispatch_reduce_sum_of_squares(arr: &RumpyArray) -> Option<f64> {
     }
 }
 
+/// One-element array holding exactly `val`.
+fn one_element<T: Copy>(val: T, dtype: DType) -> RumpyArray {
+    let mut result = RumpyArray::zeros(vec![1], dtype);
+    let buffer = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique");
+    unsafe { (buffer.as_mut_ptr() as *mut T).write(val); }
+    result
+}
+
 /// Generic reduce dispatch returning a 0-d array.
 fn dispatch_reduce_to_array<K>(arr: &RumpyArray, kernel: K) -> Option<RumpyArray>
 where
@@ -487,47 +495,47 @@ where
     match kind {
         DTypeKind::Float64 => {
             let val = dispatch_reduce_typed::<f64, K>(arr, size, kernel)?;
-            Some(RumpyArray::full(vec![1], val, DType::float64()))
+            Some(one_element(val, DType::float64()))
         }
         DTypeKind::Float32 => {
             let val = dispatch_reduce_typed::<f32, K>(arr, size, kernel)?;
-            Some(RumpyArray::full(vec![1], val as f64, DType::float32()))
+            Some(one_element(val, DType::float32()))
         }
         DTypeKind::Float16 => {
             let val = dispatch_reduce_typed::<f16, K>(arr, size, kernel)?;
-            Some(RumpyArray::full(vec![1], val.to_f64(), DType::float16()))
+            Some(one_element(val, DType::float16()))
         }
         DTypeKind::Int64 => {
             let val = dispatch_reduce_typed::<i64, K>(arr, size, kernel)?;
-            Some(RumpyArray::full(vec![1], val as f64, DType::int64()))
+            Some(one_element(val, DType::int64()))
         }
         DTypeKind::Int32 => {
             let val = dispatch_reduce_typed::<i32, K>(arr, size, kernel)?;
-            Some(RumpyArray::full(vec![1], val as f64, DType::int32()))
+            Some(one_element(val, DType::int32()))
         }
         DTypeKind::Int16 => {
             let val = dispatch_reduce_typed::<i16, K>(arr, size, kernel)?;
-            Some(RumpyArray::full(vec![1], val as f64, DType::int16()))
+            Some(one_element(val, DType::int16()))
         }
         DTypeKind::Int8 => {
             let val = dispatch_reduce_typed::<i8, K>(arr, size, kernel)?;
-            Some(RumpyArray::full(vec![1], val as f64, DType::int8()))
+            Some(one_element(val, DType::int8()))
         }
         DTypeKind::Uint64 => {
             let val = dispatch_reduce_typed::<u64, K>(arr, size, kernel)?;
-            Some(RumpyArray::full(vec![1], val as f64, DType::uint64()))
+            Some(one_element(val, DType::uint64()))
         }
         DTypeKind::Uint32 => {
             let val = dispatch_reduce_typed::<u32, K>(arr, size, kernel)?;
-            Some(RumpyArray::full(vec![1], val as f64, DType::uint32()))
+            Some(one_element(val, DType::uint32()))
         }
         DTypeKind::Uint16 => {
             let val = dispatch_reduce_typed::<u16, K>(arr, size, kernel)?;
-            Some(RumpyArray::full(vec![1], val as f64, DType::uint16()))
+            Some(one_element(val, DType::uint16()))
         }
         DTypeKind::Uint8 => {
             let val = dispatch_reduce_typed::<u8, K>(arr, size, kernel)?;
-            Some(RumpyArray::full(vec![1], val as f64, DType::uint8()))
+            Some(one_element(val, DType::uint8()))
         }
         DTypeKind::Complex128 => {
             let val = dispatch_reduce_typed::<Complex<f64>, K>(arr, size, kernel)?;
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index f877a35..b37281d 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -643,6 +643,10 @@ pub fn map_compare_op(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> Optio
 
 /// Reduce array along all axes, returning a 0-d array.
 pub fn reduce_all_op(arr: &RumpyArray, op: ReduceOp) -> RumpyArray {
+    if let Some(wide) = accumulator_operand(arr, op) {
+        return reduce_all_op(&wide, op);
+    }
+
     // Try new kernel/loop dispatch first
     {
         use crate::ops::dispatch;
@@ -709,6 +713,23 @@ pub fn reduce_all_op(arr: &RumpyArray, op: ReduceOp) -> RumpyArray {
     result
 }
 
+/// Sums and products of booleans and narrow integers accumulate in 64 bits:
+/// the widened operand, or None when `arr` is accumulated in its own dtype.
+pub(crate) fn accumulator_operand(arr: &RumpyArray, op: ReduceOp) -> Option<RumpyArray> {
+    if !matches!(op, ReduceOp::Sum | ReduceOp::Prod) {
+        return None;
+    }
+    match arr.dtype().kind() {
+        DTypeKind::Bool | DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32 => {
+            Some(arr.astype(DType::int64()))
+        }
+        DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 => {
+            Some(arr.astype(DType::uint64()))
+        }
+        _ => None,
+    }
+}
+
 /// Get reduction result as f64 (for backwards compatibility).
 pub fn reduce_all_f64(arr: &RumpyArray, op: ReduceOp) -> f64 {
     let result = reduce_all_op(arr, op);
@@ -721,6 +742,10 @@ pub fn reduce_all_f64(arr: &RumpyArray, op: ReduceOp) -> f64 {
 /// u64, u32, u16, u8, complex128, complex64). Falls back to registry for Float16/Bool,
 /// and trait-based dispatch for other types like DateTime64.
 pub fn reduce_axis_op(arr: &RumpyArray, axis: usize, op: ReduceOp) -> RumpyArray {
+    if let Some(wide) = accumulator_operand(arr, op) {
+        return reduce_axis_op(&wide, axis, op);
+    }
+
     // Try new kernel/loop dispatch first
     {
         use crate::ops::dispatch;
@@ -749,7 +774,7 @@ pub fn reduce_axis_op(arr: &RumpyArray, axis: usize, op: ReduceOp) -> RumpyArray
     let mut result = RumpyArray::zeros(out_shape, arr.dtype());
     let out_size = result.size();
 
-    if out_size == 0 || axis_len == 0 {
+    if out_size == 0 {
         return result;
     }
 
@@ -757,6 +782,15 @@ pub fn reduce_axis_op(arr: &RumpyArray, axis: usize, op: ReduceOp) -> RumpyArray
     let result_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
     let result_ptr = result_buffer.as_mut_ptr();
 
+    if axis_len == 0 {
+        // Nothing to accumulate: the identity of the operation
+        let ops = dtype.ops();
+        for i in 0..out_size {
+            unsafe { ops.reduce_init(op, result_ptr, i); }
+        }
+        return result;
+    }
+
     // Try registry lookups - for Float16, Bool (dispatch handles all other types)
     let reg = registry().read().unwrap();
 
-- 
2.43.0


From 470cf68962e0812e22cfe79a59615b80532db523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:13 +0000
Subject: [PATCH 22/81] fix: reductions return scalars of their own kind,
 reject empty maxima and reduce several axes at once

---
 src/ops/array_methods/reductions.rs      |  7 ++
 src/ops/statistics.rs                    | 14 ++++
 src/python/pyarray/methods_reductions.rs | 97 ++++++++++++++----------
 src/python/pyarray/mod.rs                | 58 +++++++++++++-
 src/python/reductions.rs                 | 86 +++++++++++++--------
 5 files changed, 189 insertions(+), 73 deletions(-)

diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 62bd555..519d1ae 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -66,6 +66,13 @@ impl RumpyArray {
         self.floating_operand().sum() / self.size() as f64
     }
 
+    /// Mean of all elements as one element of the mean's dtype.
+    pub fn mean_element(&self) -> RumpyArray {
+        let sum = crate::ops::ufunc::reduce_all_op(&self.floating_operand(), ReduceOp::Sum);
+        let count = RumpyArray::full(vec![1], self.size() as f64, sum.dtype());
+        sum.binary_op(&count, BinaryOp::Div).expect("same shape")
+    }
+
     /// Integers and booleans are averaged in float64.
     fn floating_operand(&self) -> RumpyArray {
         use crate::array::dtype::DTypeKind;
diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index 0cb90c0..5f32dd3 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -4,6 +4,8 @@
 
 use crate::array::{increment_indices, DType, RumpyArray};
 use crate::ops::{BinaryOp, matmul};
+use crate::array::dtype::ReduceOp;
+use crate::ops::ufunc::reduce_all_op;
 use std::sync::Arc;
 
 // ============================================================================
@@ -477,6 +479,13 @@ impl RumpyArray {
         self.max() - self.min()
     }
 
+    /// Peak-to-peak of all elements in the array's own dtype (one element).
+    pub fn ptp_element(&self) -> RumpyArray {
+        let max = reduce_all_op(self, ReduceOp::Max);
+        let min = reduce_all_op(self, ReduceOp::Min);
+        max.binary_op(&min, BinaryOp::Sub).expect("shapes match")
+    }
+
     /// Peak-to-peak along axis.
     pub fn ptp_axis(&self, axis: usize) -> RumpyArray {
         let max_arr = self.max_axis(axis);
@@ -508,6 +517,11 @@ impl RumpyArray {
         match weights {
             None => self.mean_axis(axis),
             Some(w) => {
+                // One weight per position along the axis, or one per element
+                let mut along = vec![1; self.ndim()];
+                along[axis] = self.shape()[axis];
+                let reshaped = if w.ndim() == 1 && self.ndim() > 1 { w.reshape(along) } else { None };
+                let w = reshaped.as_ref().unwrap_or(w);
                 // Broadcast weights and compute weighted mean
                 let product = self.binary_op(w, BinaryOp::Mul).expect("broadcast works");
                 let weighted_sum = product.sum_axis(axis);
diff --git a/src/python/pyarray/methods_reductions.rs b/src/python/pyarray/methods_reductions.rs
index 4ff86b4..ebe76c3 100644
--- a/src/python/pyarray/methods_reductions.rs
+++ b/src/python/pyarray/methods_reductions.rs
@@ -3,22 +3,25 @@
 use pyo3::prelude::*;
 
 use super::{
-    axis_reduction_with_keepdims, check_axis, scalar_reduction_with_keepdims, PyRumpyArray,
-    ReductionResult,
+    axis_reduction_with_keepdims, check_axis, check_has_elements, element_reduction_with_keepdims,
+    floating_dtype, scalar_reduction_with_keepdims, PyRumpyArray, ReductionResult,
 };
+use crate::array::dtype::ReduceOp;
 use crate::array::DType;
+use crate::ops::ufunc::reduce_all_op;
 
 #[pymethods]
 impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn sum(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
-                &self.inner,
-                self.inner.sum(),
-                keepdims,
-                self.inner.dtype(),
-            )),
+            None => {
+                Ok(element_reduction_with_keepdims(
+                    &self.inner,
+                    reduce_all_op(&self.inner, ReduceOp::Sum),
+                    keepdims,
+                ))
+            }
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
@@ -34,12 +37,13 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn prod(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
-                &self.inner,
-                self.inner.prod(),
-                keepdims,
-                self.inner.dtype(),
-            )),
+            None => {
+                Ok(element_reduction_with_keepdims(
+                    &self.inner,
+                    reduce_all_op(&self.inner, ReduceOp::Prod),
+                    keepdims,
+                ))
+            }
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
@@ -55,15 +59,18 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn max(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
-                &self.inner,
-                self.inner.max(),
-                keepdims,
-                self.inner.dtype(),
-            )),
+            None => {
+                check_has_elements(&self.inner, None)?;
+                Ok(element_reduction_with_keepdims(
+                    &self.inner,
+                    reduce_all_op(&self.inner, ReduceOp::Max),
+                    keepdims,
+                ))
+            }
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
+                check_has_elements(&self.inner, Some(&[ax]))?;
                 Ok(axis_reduction_with_keepdims(
                     self.inner.max_axis(ax),
                     ax,
@@ -76,15 +83,18 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn min(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
-                &self.inner,
-                self.inner.min(),
-                keepdims,
-                self.inner.dtype(),
-            )),
+            None => {
+                check_has_elements(&self.inner, None)?;
+                Ok(element_reduction_with_keepdims(
+                    &self.inner,
+                    reduce_all_op(&self.inner, ReduceOp::Min),
+                    keepdims,
+                ))
+            }
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
+                check_has_elements(&self.inner, Some(&[ax]))?;
                 Ok(axis_reduction_with_keepdims(
                     self.inner.min_axis(ax),
                     ax,
@@ -97,11 +107,10 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn mean(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
+            None => Ok(element_reduction_with_keepdims(
                 &self.inner,
-                self.inner.mean(),
+                self.inner.mean_element(),
                 keepdims,
-                self.inner.dtype(),
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
@@ -122,7 +131,7 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.var(),
                 keepdims,
-                self.inner.dtype(),
+                floating_dtype(&self.inner),
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
@@ -143,7 +152,7 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.std(),
                 keepdims,
-                self.inner.dtype(),
+                floating_dtype(&self.inner),
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
@@ -165,7 +174,7 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.moment(k),
                 keepdims,
-                self.inner.dtype(),
+                floating_dtype(&self.inner),
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
@@ -187,7 +196,7 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.skew(),
                 keepdims,
-                self.inner.dtype(),
+                floating_dtype(&self.inner),
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
@@ -209,7 +218,7 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.kurtosis(),
                 keepdims,
-                self.inner.dtype(),
+                floating_dtype(&self.inner),
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
@@ -226,10 +235,14 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None))]
     fn argmax(&self, axis: Option<isize>) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(ReductionResult::Scalar(self.inner.argmax() as f64)),
+            None => {
+                check_has_elements(&self.inner, None)?;
+                Ok(ReductionResult::Index(self.inner.argmax()))
+            }
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
+                check_has_elements(&self.inner, Some(&[ax]))?;
                 Ok(ReductionResult::Array(Self::new(
                     self.inner.argmax_axis(ax),
                 )))
@@ -240,10 +253,14 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None))]
     fn argmin(&self, axis: Option<isize>) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(ReductionResult::Scalar(self.inner.argmin() as f64)),
+            None => {
+                check_has_elements(&self.inner, None)?;
+                Ok(ReductionResult::Index(self.inner.argmin()))
+            }
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
+                check_has_elements(&self.inner, Some(&[ax]))?;
                 Ok(ReductionResult::Array(Self::new(
                     self.inner.argmin_axis(ax),
                 )))
@@ -254,11 +271,11 @@ impl PyRumpyArray {
     /// Test if all elements evaluate to True.
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn all(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
-        let val = if self.inner.all() { 1.0 } else { 0.0 };
         match axis {
+            None if !keepdims => Ok(ReductionResult::Bool(self.inner.all())),
             None => Ok(scalar_reduction_with_keepdims(
                 &self.inner,
-                val,
+                if self.inner.all() { 1.0 } else { 0.0 },
                 keepdims,
                 DType::bool(),
             )),
@@ -277,11 +294,11 @@ impl PyRumpyArray {
     /// Test if any element evaluates to True.
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn any(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
-        let val = if self.inner.any() { 1.0 } else { 0.0 };
         match axis {
+            None if !keepdims => Ok(ReductionResult::Bool(self.inner.any())),
             None => Ok(scalar_reduction_with_keepdims(
                 &self.inner,
-                val,
+                if self.inner.any() { 1.0 } else { 0.0 },
                 keepdims,
                 DType::bool(),
             )),
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index c5734cc..855f189 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -116,6 +116,10 @@ pub fn resolve_reshape_shape(shape: Vec<isize>, size: usize) -> PyResult<Vec<usi
 /// Result type for reductions that can return scalar or array.
 pub enum ReductionResult {
     Scalar(f64),
+    Index(usize),
+    Bool(bool),
+    /// A one-element array, returned as the Python scalar of its dtype.
+    Element(RumpyArray),
     Array(PyRumpyArray),
 }
 
@@ -127,6 +131,11 @@ impl<'py> IntoPyObject<'py> for ReductionResult {
     fn into_pyobject(self, py: Python<'py>) -> Result<Self::Output, Self::Error> {
         match self {
             ReductionResult::Scalar(v) => Ok(v.into_pyobject(py)?.into_any()),
+            ReductionResult::Index(v) => Ok(v.into_pyobject(py)?.into_any()),
+            ReductionResult::Bool(v) => Ok(pyo3::types::PyBool::new(py, v).to_owned().into_any()),
+            ReductionResult::Element(arr) => {
+                Ok(arr.element_to_py(py, &vec![0; arr.ndim()])?.into_bound(py))
+            }
             ReductionResult::Array(arr) => Ok(arr.into_pyobject(py)?.into_any()),
         }
     }
@@ -150,6 +159,46 @@ fn apply_keepdims(arr: RumpyArray, axis: usize) -> RumpyArray {
     arr.expand_dims(axis).unwrap_or(arr)
 }
 
+/// Maxima and minima of nothing do not exist.
+pub(crate) fn check_has_elements(arr: &RumpyArray, axes: Option<&[usize]>) -> PyResult<()> {
+    let empty = match axes {
+        None => arr.size() == 0,
+        Some(axes) => {
+            axes.iter().any(|&ax| arr.shape()[ax] == 0)
+                && arr.shape().iter().enumerate().all(|(i, &n)| n > 0 || axes.contains(&i))
+        }
+    };
+    if empty {
+        return Err(pyo3::exceptions::PyValueError::new_err(
+            "zero-size array to reduction operation which has no identity",
+        ));
+    }
+    Ok(())
+}
+
+/// Dtype of means and variances of `arr`.
+fn floating_dtype(arr: &RumpyArray) -> DType {
+    if arr.dtype().is_integer() || arr.dtype() == DType::bool() {
+        DType::float64()
+    } else {
+        arr.dtype()
+    }
+}
+
+/// Helper for full reductions whose result has the array's own dtype.
+fn element_reduction_with_keepdims(
+    arr: &RumpyArray,
+    value: RumpyArray,
+    keepdims: bool,
+) -> ReductionResult {
+    if keepdims {
+        let value = value.reshape(vec![1; arr.ndim()]).expect("one element");
+        ReductionResult::Array(PyRumpyArray::new(value))
+    } else {
+        ReductionResult::Element(value)
+    }
+}
+
 /// Helper for scalar reductions with keepdims support.
 fn scalar_reduction_with_keepdims(
     arr: &RumpyArray,
@@ -748,11 +797,16 @@ impl PyRumpyArray {
 
     /// Peak-to-peak (maximum - minimum) value.
     #[pyo3(signature = (axis=None))]
-    fn ptp(&self, axis: Option<usize>) -> PyResult<ReductionResult> {
+    fn ptp(&self, axis: Option<isize>) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(ReductionResult::Scalar(self.inner.ptp())),
+            None => {
+                check_has_elements(&self.inner, None)?;
+                Ok(ReductionResult::Element(self.inner.ptp_element()))
+            }
             Some(ax) => {
+                let ax = resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
+                check_has_elements(&self.inner, Some(&[ax]))?;
                 Ok(ReductionResult::Array(Self::new(self.inner.ptp_axis(ax))))
             }
         }
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 3912a0b..769f119 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -4,7 +4,9 @@ use pyo3::prelude::*;
 use pyo3::types::PyTuple;
 
 use super::{pyarray, PyRumpyArray};
+use crate::array::dtype::ReduceOp;
 use crate::array::RumpyArray;
+use crate::ops::ufunc::reduce_all_op;
 
 /// Helper for axis bounds checking.
 fn check_axis(axis: usize, ndim: usize) -> PyResult<()> {
@@ -27,6 +29,16 @@ pub fn resolve_axis(axis: isize, ndim: usize) -> usize {
     }
 }
 
+/// No axis may be reduced twice.
+fn check_distinct(axes: &[usize]) -> PyResult<()> {
+    for (i, ax) in axes.iter().enumerate() {
+        if axes[..i].contains(ax) {
+            return Err(pyo3::exceptions::PyValueError::new_err("duplicate value in 'axis'"));
+        }
+    }
+    Ok(())
+}
+
 /// Parse axis parameter - can be None, a single int, or a tuple of ints.
 /// Returns None if axis is None, or Some(Vec<usize>) with normalized axes.
 fn parse_axis(axis: Option<&Bound<'_, pyo3::PyAny>>, ndim: usize) -> PyResult<Option<Vec<usize>>> {
@@ -51,6 +63,7 @@ fn parse_axis(axis: Option<&Bound<'_, pyo3::PyAny>>, ndim: usize) -> PyResult<Op
                 if axes.is_empty() {
                     return Err(pyo3::exceptions::PyValueError::new_err("axis tuple cannot be empty"));
                 }
+                check_distinct(&axes)?;
                 Ok(Some(axes))
             }
             // Try to extract as a list
@@ -64,6 +77,7 @@ fn parse_axis(axis: Option<&Bound<'_, pyo3::PyAny>>, ndim: usize) -> PyResult<Op
                 if axes.is_empty() {
                     return Err(pyo3::exceptions::PyValueError::new_err("axis list cannot be empty"));
                 }
+                check_distinct(&axes)?;
                 Ok(Some(axes))
             }
             else {
@@ -75,21 +89,22 @@ fn parse_axis(axis: Option<&Bound<'_, pyo3::PyAny>>, ndim: usize) -> PyResult<Op
     }
 }
 
-/// Perform sequential reductions over multiple axes.
-/// When reducing axis N, all subsequent axes with index > N shift down by 1.
-/// To match NumPy, we sort axes in descending order and reduce from highest to lowest.
-fn reduce_multi_axis<F>(arr: &RumpyArray, mut axes: Vec<usize>, reduce_fn: F) -> RumpyArray
+/// Reduce over several axes at once: they are moved to the end and merged into one.
+fn reduce_multi_axis<F>(arr: &RumpyArray, axes: Vec<usize>, reduce_fn: F) -> RumpyArray
 where
     F: Fn(&RumpyArray, usize) -> RumpyArray,
 {
-    // Sort axes in descending order to avoid index shifting issues
-    axes.sort_by(|a, b| b.cmp(a));
+    let kept: Vec<usize> = (0..arr.ndim()).filter(|ax| !axes.contains(ax)).collect();
+    let order: Vec<usize> = kept.iter().chain(axes.iter()).copied().collect();
+    let mut shape: Vec<usize> = kept.iter().map(|&ax| arr.shape()[ax]).collect();
+    shape.push(axes.iter().map(|&ax| arr.shape()[ax]).product());
 
-    let mut result = arr.clone();
-    for &axis in &axes {
-        result = reduce_fn(&result, axis);
-    }
-    result
+    let moved = arr.transpose_axes(&order);
+    let merged = moved
+        .reshape(shape.clone())
+        .or_else(|| moved.copy().reshape(shape))
+        .expect("same number of elements");
+    reduce_fn(&merged, kept.len())
 }
 
 // ============================================================================
@@ -102,7 +117,7 @@ where
 pub fn sum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.sum())),
+        None => Ok(pyarray::ReductionResult::Element(reduce_all_op(&x.inner, ReduceOp::Sum))),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.sum_axis(ax_vec[0]))))
         }
@@ -119,7 +134,7 @@ pub fn sum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 pub fn prod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.prod())),
+        None => Ok(pyarray::ReductionResult::Element(reduce_all_op(&x.inner, ReduceOp::Prod))),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.prod_axis(ax_vec[0]))))
         }
@@ -136,7 +151,7 @@ pub fn prod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult
 pub fn mean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.mean())),
+        None => Ok(pyarray::ReductionResult::Element(x.inner.mean_element())),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.mean_axis(ax_vec[0]))))
         }
@@ -186,8 +201,9 @@ pub fn std_fn(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyo3(signature = (x, axis=None))]
 pub fn max(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
+    pyarray::check_has_elements(&x.inner, axes.as_deref())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.max())),
+        None => Ok(pyarray::ReductionResult::Element(reduce_all_op(&x.inner, ReduceOp::Max))),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.max_axis(ax_vec[0]))))
         }
@@ -203,8 +219,9 @@ pub fn max(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 #[pyo3(signature = (x, axis=None))]
 pub fn min(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
+    pyarray::check_has_elements(&x.inner, axes.as_deref())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.min())),
+        None => Ok(pyarray::ReductionResult::Element(reduce_all_op(&x.inner, ReduceOp::Min))),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.min_axis(ax_vec[0]))))
         }
@@ -220,15 +237,13 @@ pub fn min(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 #[pyo3(signature = (x, axis=None))]
 pub fn argmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
+    pyarray::check_has_elements(&x.inner, axes.as_deref())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.argmax() as f64)),
+        None => Ok(pyarray::ReductionResult::Index(x.inner.argmax())),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.argmax_axis(ax_vec[0]))))
         }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.argmax_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
+        Some(_) => Err(pyo3::exceptions::PyTypeError::new_err("axis must be an integer or None")),
     }
 }
 
@@ -237,15 +252,13 @@ pub fn argmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyo3(signature = (x, axis=None))]
 pub fn argmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
+    pyarray::check_has_elements(&x.inner, axes.as_deref())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.argmin() as f64)),
+        None => Ok(pyarray::ReductionResult::Index(x.inner.argmin())),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.argmin_axis(ax_vec[0]))))
         }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.argmin_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
+        Some(_) => Err(pyo3::exceptions::PyTypeError::new_err("axis must be an integer or None")),
     }
 }
 
@@ -379,7 +392,7 @@ pub fn nanargmin(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::Red
     match axis {
         None => {
             match x.inner.nanargmin() {
-                Some(idx) => Ok(pyarray::ReductionResult::Scalar(idx as f64)),
+                Some(idx) => Ok(pyarray::ReductionResult::Index(idx)),
                 None => Err(pyo3::exceptions::PyValueError::new_err(
                     "All-NaN slice encountered"
                 )),
@@ -400,7 +413,7 @@ pub fn nanargmax(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::Red
     match axis {
         None => {
             match x.inner.nanargmax() {
-                Some(idx) => Ok(pyarray::ReductionResult::Scalar(idx as f64)),
+                Some(idx) => Ok(pyarray::ReductionResult::Index(idx)),
                 None => Err(pyo3::exceptions::PyValueError::new_err(
                     "All-NaN slice encountered"
                 )),
@@ -424,7 +437,7 @@ pub fn nanargmax(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::Red
 pub fn all(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(if x.inner.all() { 1.0 } else { 0.0 })),
+        None => Ok(pyarray::ReductionResult::Bool(x.inner.all())),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.all_axis(ax_vec[0]))))
         }
@@ -441,7 +454,7 @@ pub fn all(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 pub fn any(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(if x.inner.any() { 1.0 } else { 0.0 })),
+        None => Ok(pyarray::ReductionResult::Bool(x.inner.any())),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.any_axis(ax_vec[0]))))
         }
@@ -525,6 +538,16 @@ pub fn average(
     axis: Option<isize>,
     weights: Option<&PyRumpyArray>,
 ) -> PyResult<pyarray::ReductionResult> {
+    if let Some(w) = weights {
+        let along = axis.map(|ax| resolve_axis(ax, x.inner.ndim()));
+        let fits = w.inner.shape() == x.inner.shape()
+            || matches!(along, Some(ax) if ax < x.inner.ndim() && w.inner.shape() == [x.inner.shape()[ax]]);
+        if !fits {
+            return Err(pyo3::exceptions::PyValueError::new_err(
+                "shape of weights must be consistent with shape of a along specified axis",
+            ));
+        }
+    }
     match axis {
         None => {
             let weights_inner = weights.map(|w| &w.inner);
@@ -546,8 +569,9 @@ pub fn average(
 #[pyo3(signature = (x, axis=None))]
 pub fn ptp(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
+    pyarray::check_has_elements(&x.inner, axes.as_deref())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.ptp())),
+        None => Ok(pyarray::ReductionResult::Element(x.inner.ptp_element())),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.ptp_axis(ax_vec[0]))))
         }
-- 
2.43.0


From 552134fe493a0f0e8de5c95fc76456a658366658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:43 +0000
Subject: [PATCH 23/81] fix: an empty buffer has an aligned pointer

---
 src/array/buffer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/array/buffer.rs b/src/array/buffer.rs
index 1a3751c..d6a5ff0 100644
--- a/src/array/buffer.rs
+++ b/src/array/buffer.rs
@@ -1,13 +1,17 @@
 /// Shared, reference-counted raw data buffer.
 pub struct ArrayBuffer {
     data: Box<[u8]>,
+    len: usize,
 }
 
 impl ArrayBuffer {
     /// Create a new zeroed buffer of given size in bytes.
+    ///
+    /// Even an empty buffer is allocated, so that its pointer is aligned for every dtype.
     pub fn new(size: usize) -> Self {
         Self {
-            data: vec![0u8; size].into_boxed_slice(),
+            data: vec![0u8; size.max(1)].into_boxed_slice(),
+            len: size,
         }
     }
 
@@ -23,11 +27,11 @@ impl ArrayBuffer {
 
     /// Get buffer length in bytes.
     pub fn len(&self) -> usize {
-        self.data.len()
+        self.len
     }
 
     /// Check if buffer is empty.
     pub fn is_empty(&self) -> bool {
-        self.data.is_empty()
+        self.len == 0
     }
 }
-- 
2.43.0


From 6b895dc709e55e1b2d1f3fe87d3be7ee9883526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:43 +0000
Subject: [PATCH 24/81] fix: diff, cumsum, gradient and percentiles follow
 their axis, dtype and NaNs

---
 src/array/manipulation.rs           |  70 ++++++-----------
 src/ops/array_methods/cumulative.rs | 117 +++++-----------------------
 src/ops/numerical.rs                |  21 +++--
 src/python/pyarray/mod.rs           |  37 ++++-----
 4 files changed, 72 insertions(+), 173 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 1fce611..e55f5d8 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -263,7 +263,7 @@ fn percentile_flat(arr: &RumpyArray, q: &[f64]) -> Option<RumpyArray> {
     for offset in arr.iter_offsets() {
         values.push(unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0));
     }
-    values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    sort_nan_last(&mut values);
 
     // Compute percentiles using linear interpolation
     let mut result = RumpyArray::zeros(vec![q.len()], DType::float64());
@@ -289,20 +289,12 @@ fn percentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyArra
     let axis_len = shape[axis];
     let axis_stride = arr.strides()[axis];
 
-    // Output shape: remove axis, prepend q.len() if multiple percentiles
+    // Output shape: one entry per percentile, then the remaining axes
     let mut reduced_shape: Vec<usize> = shape[..axis].to_vec();
     reduced_shape.extend_from_slice(&shape[axis + 1..]);
-    if reduced_shape.is_empty() {
-        reduced_shape = vec![1];
-    }
 
-    let out_shape = if q.len() == 1 {
-        reduced_shape.clone()
-    } else {
-        let mut s = vec![q.len()];
-        s.extend(&reduced_shape);
-        s
-    };
+    let mut out_shape = vec![q.len()];
+    out_shape.extend(&reduced_shape);
 
     let reduced_size: usize = reduced_shape.iter().product();
     if axis_len == 0 || reduced_size == 0 {
@@ -327,25 +319,26 @@ fn percentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyArra
             values.push(unsafe { ops.read_f64(ptr, 0) }.unwrap_or(0.0));
             ptr = unsafe { ptr.offset(axis_stride) };
         }
-        values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+        sort_nan_last(&mut values);
 
         // Compute percentiles
-        if q.len() == 1 {
-            unsafe { *result_ptr.add(i) = interpolate_percentile(&values, q[0]); }
-        } else {
-            for (qi, &pct) in q.iter().enumerate() {
-                unsafe { *result_ptr.add(qi * reduced_size + i) = interpolate_percentile(&values, pct); }
-            }
+        for (qi, &pct) in q.iter().enumerate() {
+            unsafe { *result_ptr.add(qi * reduced_size + i) = interpolate_percentile(&values, pct); }
         }
     }
 
     Some(result)
 }
 
+/// Ascending order, NaN (of either sign) at the end.
+fn sort_nan_last(values: &mut [f64]) {
+    values.sort_by(|a, b| a.partial_cmp(b).unwrap_or_else(|| a.is_nan().cmp(&b.is_nan())));
+}
+
 /// Linear interpolation for percentile.
 fn interpolate_percentile(sorted: &[f64], pct: f64) -> f64 {
     let n = sorted.len();
-    if n == 0 {
+    if n == 0 || sorted[n - 1].is_nan() {
         return f64::NAN;
     }
     if n == 1 {
@@ -385,17 +378,13 @@ fn nanpercentile_flat(arr: &RumpyArray, q: &[f64]) -> Option<RumpyArray> {
 
     if values.is_empty() {
         // All NaN - return NaN for each percentile
-        // Single q -> scalar-like output; multiple q -> 1D array
-        let shape = if q.len() == 1 { vec![1] } else { vec![q.len()] };
-        return Some(RumpyArray::full(shape, f64::NAN, DType::float64()));
+        return Some(RumpyArray::full(vec![q.len()], f64::NAN, DType::float64()));
     }
 
-    values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    sort_nan_last(&mut values);
 
     // Compute percentiles using linear interpolation
-    // Match numpy behavior: single q returns scalar-like, multiple q returns 1D array
-    let out_shape = if q.len() == 1 { vec![1] } else { vec![q.len()] };
-    let mut result = RumpyArray::zeros(out_shape, DType::float64());
+    let mut result = RumpyArray::zeros(vec![q.len()], DType::float64());
     let buffer = result.buffer_mut();
     let result_buffer = std::sync::Arc::get_mut(buffer).expect("unique");
     let result_ptr = result_buffer.as_mut_ptr() as *mut f64;
@@ -418,20 +407,12 @@ fn nanpercentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyA
     let axis_len = shape[axis];
     let axis_stride = arr.strides()[axis];
 
-    // Output shape: remove axis, prepend q.len() if multiple percentiles
+    // Output shape: one entry per percentile, then the remaining axes
     let mut reduced_shape: Vec<usize> = shape[..axis].to_vec();
     reduced_shape.extend_from_slice(&shape[axis + 1..]);
-    if reduced_shape.is_empty() {
-        reduced_shape = vec![1];
-    }
 
-    let out_shape = if q.len() == 1 {
-        reduced_shape.clone()
-    } else {
-        let mut s = vec![q.len()];
-        s.extend(&reduced_shape);
-        s
-    };
+    let mut out_shape = vec![q.len()];
+    out_shape.extend(&reduced_shape);
 
     let reduced_size: usize = reduced_shape.iter().product();
     if axis_len == 0 || reduced_size == 0 {
@@ -459,17 +440,12 @@ fn nanpercentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyA
             }
             ptr = unsafe { ptr.offset(axis_stride) };
         }
-        values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+        sort_nan_last(&mut values);
 
         // Compute percentiles (NaN if all-NaN slice)
-        if q.len() == 1 {
-            let val = if values.is_empty() { f64::NAN } else { interpolate_percentile(&values, q[0]) };
-            unsafe { *result_ptr.add(i) = val; }
-        } else {
-            for (qi, &pct) in q.iter().enumerate() {
-                let val = if values.is_empty() { f64::NAN } else { interpolate_percentile(&values, pct) };
-                unsafe { *result_ptr.add(qi * reduced_size + i) = val; }
-            }
+        for (qi, &pct) in q.iter().enumerate() {
+            let val = if values.is_empty() { f64::NAN } else { interpolate_percentile(&values, pct) };
+            unsafe { *result_ptr.add(qi * reduced_size + i) = val; }
         }
     }
 
diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index d6c3c9a..867ff15 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -1,83 +1,12 @@
 //! Cumulative operations on RumpyArray (cumsum, cumprod, diff).
 
 use crate::array::dtype::DTypeKind;
-use crate::array::{increment_indices, DType, RumpyArray};
-use crate::ops::kernels::arithmetic::Sub;
-use crate::ops::loops;
-use num_complex::Complex;
+use crate::array::dtype::ReduceOp;
+use crate::array::{increment_indices, RumpyArray};
+use crate::ops::ufunc::accumulator_operand;
+use crate::ops::{BinaryOp, ComparisonOp};
 use std::sync::Arc;
 
-// ============================================================================
-// diff helper functions
-// ============================================================================
-
-/// Fast 1D contiguous diff using kernel/loop system.
-/// result[i] = src[i+1] - src[i]
-#[inline]
-fn diff_1d_contiguous(src_ptr: *const u8, result_ptr: *mut u8, n: usize, dtype: &DType) {
-    // Use kernel/loop system for subtraction
-    macro_rules! diff_typed {
-        ($T:ty) => {{
-            let a_slice = unsafe { std::slice::from_raw_parts((src_ptr as *const $T).add(1), n) };
-            let b_slice = unsafe { std::slice::from_raw_parts(src_ptr as *const $T, n) };
-            let out_slice = unsafe { std::slice::from_raw_parts_mut(result_ptr as *mut $T, n) };
-            loops::map_binary(a_slice, b_slice, out_slice, Sub);
-        }};
-    }
-
-    match dtype.kind() {
-        DTypeKind::Float64 => diff_typed!(f64),
-        DTypeKind::Float32 => diff_typed!(f32),
-        DTypeKind::Int64 => diff_typed!(i64),
-        DTypeKind::Int32 => diff_typed!(i32),
-        DTypeKind::Int16 => diff_typed!(i16),
-        DTypeKind::Uint64 => diff_typed!(u64),
-        DTypeKind::Uint32 => diff_typed!(u32),
-        DTypeKind::Uint16 => diff_typed!(u16),
-        DTypeKind::Uint8 => diff_typed!(u8),
-        DTypeKind::Complex128 => diff_typed!(Complex<f64>),
-        DTypeKind::Complex64 => diff_typed!(Complex<f32>),
-        _ => {
-            // Fallback for unsupported dtypes (Float16, Bool, DateTime64)
-            let itemsize = dtype.itemsize() as isize;
-            let ops = dtype.ops();
-            for i in 0..n {
-                unsafe {
-                    let v1 = ops.read_f64(src_ptr, (i as isize) * itemsize).unwrap_or(0.0);
-                    let v2 = ops.read_f64(src_ptr, (i as isize + 1) * itemsize).unwrap_or(0.0);
-                    ops.write_f64(result_ptr, i, v2 - v1);
-                }
-            }
-        }
-    }
-}
-
-/// Strided diff for N-D arrays along arbitrary axis.
-/// Element-by-element via DTypeOps (no vectorization benefit for strided access).
-fn diff_strided(
-    src: &RumpyArray,
-    result: &RumpyArray,
-    axis_stride: isize,
-    src_ptr: *const u8,
-    result_ptr: *mut u8,
-    dtype: &DType,
-) {
-    let out_shape = result.shape();
-    let out_size: usize = out_shape.iter().product();
-    let ops = dtype.ops();
-
-    let mut out_indices = vec![0usize; src.ndim()];
-    for i in 0..out_size {
-        let offset1 = src.byte_offset_for(&out_indices);
-        unsafe {
-            let v1 = ops.read_f64(src_ptr, offset1).unwrap_or(0.0);
-            let v2 = ops.read_f64(src_ptr, offset1 + axis_stride).unwrap_or(0.0);
-            ops.write_f64(result_ptr, i, v2 - v1);
-        }
-        increment_indices(&mut out_indices, out_shape);
-    }
-}
-
 impl RumpyArray {
     /// Calculate the n-th discrete difference along the given axis.
     pub fn diff(&self, n: usize, axis: usize) -> RumpyArray {
@@ -96,29 +25,13 @@ impl RumpyArray {
         }
 
         // Single diff: result[i] = input[i+1] - input[i]
-        let mut new_shape = self.shape().to_vec();
-        new_shape[axis] = axis_len - 1;
-
-        let dtype = self.dtype().clone();
-        let mut result = RumpyArray::zeros(new_shape.clone(), dtype.clone());
-
-        let out_size: usize = new_shape.iter().product();
-        if out_size == 0 {
-            return result;
-        }
-
-        let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
-        let result_ptr = result_buffer.as_mut_ptr();
-        let src_ptr = self.data_ptr();
-        let axis_stride = self.strides()[axis];
-
-        // Fast path for 1D contiguous case
-        if self.ndim() == 1 && self.is_c_contiguous() {
-            diff_1d_contiguous(src_ptr, result_ptr, out_size, &dtype);
+        let upper = self.slice_axis(axis, 1, axis_len as isize, 1);
+        let lower = self.slice_axis(axis, 0, axis_len as isize - 1, 1);
+        let result = if self.dtype().kind() == DTypeKind::Bool {
+            upper.compare(&lower, ComparisonOp::Ne).expect("same shape")
         } else {
-            // General strided case
-            diff_strided(self, &result, axis_stride, src_ptr, result_ptr, &dtype);
-        }
+            upper.binary_op(&lower, BinaryOp::Sub).expect("same shape and dtype")
+        };
 
         // Apply recursively for n > 1
         if n > 1 {
@@ -205,6 +118,9 @@ impl RumpyArray {
 
     /// Cumulative sum along axis (or flattened if axis is None).
     pub fn cumsum(&self, axis: Option<usize>) -> RumpyArray {
+        if let Some(wide) = accumulator_operand(self, ReduceOp::Sum) {
+            return wide.cumsum(axis);
+        }
         // Try typed dispatch first
         if let Some(result) = crate::ops::dispatch::dispatch_cumsum(self, axis) {
             return result;
@@ -215,6 +131,9 @@ impl RumpyArray {
 
     /// Cumulative product along axis (or flattened if axis is None).
     pub fn cumprod(&self, axis: Option<usize>) -> RumpyArray {
+        if let Some(wide) = accumulator_operand(self, ReduceOp::Prod) {
+            return wide.cumprod(axis);
+        }
         // Try typed dispatch first
         if let Some(result) = crate::ops::dispatch::dispatch_cumprod(self, axis) {
             return result;
@@ -317,7 +236,7 @@ impl RumpyArray {
             .map(|(_, &s)| s)
             .collect();
 
-        let outer_size: usize = outer_shape.iter().product::<usize>().max(1);
+        let outer_size: usize = outer_shape.iter().product();
         let mut outer_indices = vec![0usize; outer_shape.len()];
 
         for _ in 0..outer_size {
@@ -373,7 +292,7 @@ impl RumpyArray {
             .map(|(_, &s)| s)
             .collect();
 
-        let outer_size: usize = outer_shape.iter().product::<usize>().max(1);
+        let outer_size: usize = outer_shape.iter().product();
         let mut outer_indices = vec![0usize; outer_shape.len()];
 
         for _ in 0..outer_size {
diff --git a/src/ops/numerical.rs b/src/ops/numerical.rs
index eebe67a..6c3420a 100644
--- a/src/ops/numerical.rs
+++ b/src/ops/numerical.rs
@@ -97,7 +97,11 @@ impl_typed_loops!(gradient_loop_u8, gradient_coords_loop_u8, trapezoid_loop_u8,
 
 /// Compute numerical gradient of an array.
 pub fn gradient(f: &RumpyArray, spacing: Option<f64>, axis: Option<usize>) -> Option<Vec<RumpyArray>> {
-    if f.size() == 0 || f.shape().iter().any(|&d| d < 2) {
+    let too_short = match axis {
+        Some(ax) => ax >= f.ndim() || f.shape()[ax] < 2,
+        None => f.shape().iter().any(|&d| d < 2),
+    };
+    if too_short {
         return None;
     }
 
@@ -123,14 +127,15 @@ pub fn gradient_with_coords(f: &RumpyArray, coords: &RumpyArray, axis: usize) ->
     }
 
     let x = read_to_f64_vec(coords);
+    let out_offsets: Vec<isize> = result.axis_offsets(axis).collect();
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let result_ptr = buffer.as_mut_ptr() as *mut f64;
     let (src_stride, out_stride) = (f.strides()[axis], result.strides()[axis]);
 
     macro_rules! run {
         ($loop_fn:ident, $src_ptr:expr) => {
-            for base in f.axis_offsets(axis) {
-                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(base), &x, n, src_stride, out_stride); }
+            for (base, out) in f.axis_offsets(axis).zip(out_offsets.iter().copied()) {
+                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(out), &x, n, src_stride, out_stride); }
             }
         };
     }
@@ -159,6 +164,7 @@ fn gradient_axis(f: &RumpyArray, spacing: f64, axis: usize) -> RumpyArray {
         return result;
     }
 
+    let out_offsets: Vec<isize> = result.axis_offsets(axis).collect();
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let result_ptr = buffer.as_mut_ptr() as *mut f64;
     let (src_stride, out_stride) = (f.strides()[axis], result.strides()[axis]);
@@ -166,8 +172,8 @@ fn gradient_axis(f: &RumpyArray, spacing: f64, axis: usize) -> RumpyArray {
 
     macro_rules! run {
         ($loop_fn:ident, $src_ptr:expr) => {
-            for base in f.axis_offsets(axis) {
-                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(base), n, h, h2, src_stride, out_stride); }
+            for (base, out) in f.axis_offsets(axis).zip(out_offsets.iter().copied()) {
+                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(out), n, h, h2, src_stride, out_stride); }
             }
         };
     }
@@ -193,6 +199,7 @@ fn gradient_fallback(f: &RumpyArray, x: Option<&[f64]>, spacing: Option<f64>, ax
     let n = shape[axis];
     let mut result = RumpyArray::zeros(shape.to_vec(), DType::float64());
 
+    let out_offsets: Vec<isize> = result.axis_offsets(axis).collect();
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let result_ptr = buffer.as_mut_ptr() as *mut f64;
     let axis_stride = f.strides()[axis];
@@ -200,7 +207,7 @@ fn gradient_fallback(f: &RumpyArray, x: Option<&[f64]>, spacing: Option<f64>, ax
     let f_dtype = f.dtype();
     let f_ops = f_dtype.ops();
 
-    for base in f.axis_offsets(axis) {
+    for (base, out) in f.axis_offsets(axis).zip(out_offsets.iter().copied()) {
         let vals = read_axis_values(f.data_ptr(), base, axis_stride, n, &*f_ops);
         let mut grad = vec![0.0; n];
 
@@ -221,7 +228,7 @@ fn gradient_fallback(f: &RumpyArray, x: Option<&[f64]>, spacing: Option<f64>, ax
         }
 
         for (i, &val) in grad.iter().enumerate() {
-            let idx = (base + i as isize * out_stride) / 8;
+            let idx = (out + i as isize * out_stride) / 8;
             unsafe { *result_ptr.offset(idx) = val; }
         }
     }
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 855f189..6dbb049 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -163,10 +163,7 @@ fn apply_keepdims(arr: RumpyArray, axis: usize) -> RumpyArray {
 pub(crate) fn check_has_elements(arr: &RumpyArray, axes: Option<&[usize]>) -> PyResult<()> {
     let empty = match axes {
         None => arr.size() == 0,
-        Some(axes) => {
-            axes.iter().any(|&ax| arr.shape()[ax] == 0)
-                && arr.shape().iter().enumerate().all(|(i, &n)| n > 0 || axes.contains(&i))
-        }
+        Some(axes) => axes.iter().any(|&ax| arr.shape()[ax] == 0),
     };
     if empty {
         return Err(pyo3::exceptions::PyValueError::new_err(
@@ -495,29 +492,29 @@ impl PyRumpyArray {
 
     /// Cumulative sum along axis (or flattened if axis is None).
     #[pyo3(signature = (axis=None))]
-    fn cumsum(&self, axis: Option<usize>) -> PyResult<Self> {
-        if let Some(ax) = axis {
-            if ax >= self.inner.ndim() {
-                return Err(pyo3::exceptions::PyValueError::new_err(format!(
-                    "axis {} is out of bounds for array of dimension {}",
-                    ax, self.inner.ndim()
-                )));
+    fn cumsum(&self, axis: Option<isize>) -> PyResult<Self> {
+        let axis = match axis {
+            None => None,
+            Some(ax) => {
+                let ax = resolve_axis(ax, self.inner.ndim());
+                check_axis(ax, self.inner.ndim())?;
+                Some(ax)
             }
-        }
+        };
         Ok(Self::new(self.inner.cumsum(axis)))
     }
 
     /// Cumulative product along axis (or flattened if axis is None).
     #[pyo3(signature = (axis=None))]
-    fn cumprod(&self, axis: Option<usize>) -> PyResult<Self> {
-        if let Some(ax) = axis {
-            if ax >= self.inner.ndim() {
-                return Err(pyo3::exceptions::PyValueError::new_err(format!(
-                    "axis {} is out of bounds for array of dimension {}",
-                    ax, self.inner.ndim()
-                )));
+    fn cumprod(&self, axis: Option<isize>) -> PyResult<Self> {
+        let axis = match axis {
+            None => None,
+            Some(ax) => {
+                let ax = resolve_axis(ax, self.inner.ndim());
+                check_axis(ax, self.inner.ndim())?;
+                Some(ax)
             }
-        }
+        };
         Ok(Self::new(self.inner.cumprod(axis)))
     }
 
-- 
2.43.0


From 3ced143746a4614e91fa09b6710fe85e04c24b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:43 +0000
Subject: [PATCH 25/81] fix: NaN-aware reductions and medians handle all-NaN
 slices, infinities and narrow dtypes

---
 src/ops/array_methods/reductions.rs |  36 ++++++--
 src/ops/kernels/arithmetic.rs       |   8 +-
 src/ops/statistics.rs               |  28 ++++--
 src/python/reductions.rs            | 131 +++++++++++++++++-----------
 4 files changed, 133 insertions(+), 70 deletions(-)

diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 519d1ae..d025b16 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -2,7 +2,7 @@
 //! Includes both standard and NaN-aware variants.
 
 use crate::array::{increment_indices, DType, RumpyArray};
-use crate::array::dtype::{ReduceOp, UnaryOp};
+use crate::array::dtype::{DTypeKind, ReduceOp, UnaryOp};
 use crate::ops::{map_unary_op, reduce_all_f64, reduce_axis_op, BinaryOp};
 use crate::ops::ufunc::variance_f64_contiguous;
 use std::sync::Arc;
@@ -665,6 +665,20 @@ impl RumpyArray {
         (acc, found)
     }
 
+    /// Whether elements of this dtype can be NaN.
+    fn can_hold_nan(&self) -> bool {
+        matches!(self.dtype().kind(), DTypeKind::Float16 | DTypeKind::Float32 | DTypeKind::Float64
+            | DTypeKind::Complex64 | DTypeKind::Complex128)
+    }
+
+    /// Dtype of a floating-point statistic of this array.
+    pub(crate) fn float_result_dtype(&self) -> DType {
+        match self.dtype().kind() {
+            DTypeKind::Float16 | DTypeKind::Float32 => self.dtype(),
+            _ => DType::float64(),
+        }
+    }
+
     /// Helper: axis reduction ignoring NaN values.
     fn nan_reduce_axis<F>(&self, axis: usize, result_dtype: DType, mut reduce_fn: F) -> RumpyArray
     where
@@ -675,7 +689,7 @@ impl RumpyArray {
 
         let mut result = RumpyArray::zeros(out_shape.clone(), result_dtype.clone());
         let out_size = result.size();
-        if out_size == 0 || axis_len == 0 {
+        if out_size == 0 {
             return result;
         }
 
@@ -710,6 +724,9 @@ impl RumpyArray {
     /// Sum along axis, ignoring NaN values.
     pub fn nansum_axis(&self, axis: usize) -> RumpyArray {
         use crate::ops::dispatch;
+        if !self.can_hold_nan() {
+            return self.sum_axis(axis);
+        }
         dispatch::dispatch_nan_reduce_axis_sum(self, axis).unwrap_or_else(|| {
             self.nan_reduce_axis(axis, self.dtype(), |indices, ax, len| {
                 let mut sum = 0.0;
@@ -735,6 +752,9 @@ impl RumpyArray {
     /// Product along axis, ignoring NaN values.
     pub fn nanprod_axis(&self, axis: usize) -> RumpyArray {
         use crate::ops::dispatch;
+        if !self.can_hold_nan() {
+            return self.prod_axis(axis);
+        }
         dispatch::dispatch_nan_reduce_axis_prod(self, axis).unwrap_or_else(|| {
             self.nan_reduce_axis(axis, self.dtype(), |indices, ax, len| {
                 let mut prod = 1.0;
@@ -772,7 +792,7 @@ impl RumpyArray {
 
     /// Mean along axis, ignoring NaN values.
     pub fn nanmean_axis(&self, axis: usize) -> RumpyArray {
-        self.nan_reduce_axis(axis, DType::float64(), |indices, ax, len| {
+        self.nan_reduce_axis(axis, self.float_result_dtype(), |indices, ax, len| {
             let mut sum = 0.0;
             let mut count = 0usize;
             for j in 0..len {
@@ -811,7 +831,7 @@ impl RumpyArray {
 
     /// Variance along axis, ignoring NaN values.
     pub fn nanvar_axis(&self, axis: usize) -> RumpyArray {
-        self.nan_reduce_axis(axis, DType::float64(), |indices, ax, len| {
+        self.nan_reduce_axis(axis, self.float_result_dtype(), |indices, ax, len| {
             // Two-pass: mean then variance
             let mut sum = 0.0;
             let mut count = 0usize;
@@ -855,7 +875,6 @@ impl RumpyArray {
     pub fn nanmin(&self) -> f64 {
         use crate::ops::dispatch;
         match dispatch::dispatch_nan_reduce_min(self) {
-            Some(val) if val == f64::INFINITY => f64::NAN, // All NaN case
             Some(val) => val,
             None => {
                 let (val, found) = self.nan_reduce_full(f64::INFINITY, |acc, v| acc.min(v));
@@ -867,6 +886,9 @@ impl RumpyArray {
     /// Minimum along axis, ignoring NaN values.
     pub fn nanmin_axis(&self, axis: usize) -> RumpyArray {
         use crate::ops::dispatch;
+        if !self.can_hold_nan() {
+            return self.min_axis(axis);
+        }
         dispatch::dispatch_nan_reduce_axis_min(self, axis).unwrap_or_else(|| {
             self.nan_reduce_axis(axis, self.dtype(), |indices, ax, len| {
                 let mut min_val = f64::INFINITY;
@@ -888,7 +910,6 @@ impl RumpyArray {
     pub fn nanmax(&self) -> f64 {
         use crate::ops::dispatch;
         match dispatch::dispatch_nan_reduce_max(self) {
-            Some(val) if val == f64::NEG_INFINITY => f64::NAN, // All NaN case
             Some(val) => val,
             None => {
                 let (val, found) = self.nan_reduce_full(f64::NEG_INFINITY, |acc, v| acc.max(v));
@@ -900,6 +921,9 @@ impl RumpyArray {
     /// Maximum along axis, ignoring NaN values.
     pub fn nanmax_axis(&self, axis: usize) -> RumpyArray {
         use crate::ops::dispatch;
+        if !self.can_hold_nan() {
+            return self.max_axis(axis);
+        }
         dispatch::dispatch_nan_reduce_axis_max(self, axis).unwrap_or_else(|| {
             self.nan_reduce_axis(axis, self.dtype(), |indices, ax, len| {
                 let mut max_val = f64::NEG_INFINITY;
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index 26708cf..ae9f60c 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -283,18 +283,18 @@ macro_rules! impl_nan_reduce {
         }
         impl ReduceKernel<$T> for NanMax {
             #[inline(always)]
-            fn init() -> $T { <$T>::NEG_INFINITY }
+            fn init() -> $T { <$T>::NAN }
             #[inline(always)]
             fn combine(acc: $T, v: $T) -> $T {
-                if v.is_nan() { acc } else if v > acc { v } else { acc }
+                if v > acc || acc.is_nan() { v } else { acc }
             }
         }
         impl ReduceKernel<$T> for NanMin {
             #[inline(always)]
-            fn init() -> $T { <$T>::INFINITY }
+            fn init() -> $T { <$T>::NAN }
             #[inline(always)]
             fn combine(acc: $T, v: $T) -> $T {
-                if v.is_nan() { acc } else if v < acc { v } else { acc }
+                if v < acc || acc.is_nan() { v } else { acc }
             }
         }
     };
diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index 5f32dd3..afe41f8 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -409,6 +409,9 @@ impl RumpyArray {
             return f64::NAN;
         }
         let mut values = self.to_vec();
+        if values.iter().any(|v| v.is_nan()) {
+            return f64::NAN;
+        }
         let mid = size / 2;
 
         // select_nth_unstable partitions so values[mid] is the correct element
@@ -433,16 +436,17 @@ impl RumpyArray {
         let mut out_shape: Vec<usize> = shape[..axis].to_vec();
         out_shape.extend_from_slice(&shape[axis + 1..]);
 
+        let result_dtype = self.float_result_dtype();
         let out_size: usize = out_shape.iter().product();
-        let mut result = RumpyArray::zeros(out_shape.clone(), DType::float64());
+        let mut result = RumpyArray::zeros(out_shape.clone(), result_dtype.clone());
 
-        if out_size == 0 || axis_len == 0 {
+        if out_size == 0 {
             return result;
         }
 
         let buffer = result.buffer_mut();
         let result_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
-        let result_ptr = result_buffer.as_mut_ptr() as *mut f64;
+        let result_ptr = result_buffer.as_mut_ptr();
 
         let mut outer_indices = vec![0usize; out_shape.len()];
         for out_i in 0..out_size {
@@ -457,7 +461,12 @@ impl RumpyArray {
                 values.push(self.get_element(&in_indices));
             }
 
-            // Sort and compute median
+            // Sort and compute median; NaN when there is nothing to order or a NaN among the values
+            if axis_len == 0 || values.iter().any(|v| v.is_nan()) {
+                unsafe { result_dtype.ops().write_f64(result_ptr, out_i, f64::NAN); }
+                increment_indices(&mut outer_indices, &out_shape);
+                continue;
+            }
             values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
             let median = if axis_len.is_multiple_of(2) {
                 (values[axis_len / 2 - 1] + values[axis_len / 2]) / 2.0
@@ -465,7 +474,7 @@ impl RumpyArray {
                 values[axis_len / 2]
             };
 
-            unsafe { *result_ptr.add(out_i) = median; }
+            unsafe { result_dtype.ops().write_f64(result_ptr, out_i, median); }
             increment_indices(&mut outer_indices, &out_shape);
         }
         result
@@ -571,16 +580,17 @@ impl RumpyArray {
         let mut out_shape: Vec<usize> = shape[..axis].to_vec();
         out_shape.extend_from_slice(&shape[axis + 1..]);
 
+        let result_dtype = self.float_result_dtype();
         let out_size: usize = out_shape.iter().product();
-        let mut result = RumpyArray::zeros(out_shape, DType::float64());
+        let mut result = RumpyArray::zeros(out_shape, result_dtype.clone());
 
-        if out_size == 0 || axis_len == 0 {
+        if out_size == 0 {
             return result;
         }
 
         let buffer = result.buffer_mut();
         let result_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
-        let result_ptr = result_buffer.as_mut_ptr() as *mut f64;
+        let result_ptr = result_buffer.as_mut_ptr();
 
         let src_ptr = self.data_ptr();
         let dtype = self.dtype();
@@ -612,7 +622,7 @@ impl RumpyArray {
                 }
             };
 
-            unsafe { *result_ptr.add(i) = median; }
+            unsafe { result_dtype.ops().write_f64(result_ptr, i, median); }
         }
         result
     }
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 769f119..bf6b195 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -89,6 +89,14 @@ fn parse_axis(axis: Option<&Bound<'_, pyo3::PyAny>>, ndim: usize) -> PyResult<Op
     }
 }
 
+/// The elements as one axis, for reductions over the whole array.
+fn flattened(arr: &RumpyArray) -> RumpyArray {
+    let size = arr.size();
+    arr.reshape(vec![size])
+        .or_else(|| arr.copy().reshape(vec![size]))
+        .expect("same number of elements")
+}
+
 /// Reduce over several axes at once: they are moved to the end and merged into one.
 fn reduce_multi_axis<F>(arr: &RumpyArray, axes: Vec<usize>, reduce_fn: F) -> RumpyArray
 where
@@ -272,7 +280,7 @@ pub fn argmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 pub fn nansum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.nansum())),
+        None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nansum_axis(0))),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nansum_axis(ax_vec[0]))))
         }
@@ -289,7 +297,7 @@ pub fn nansum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 pub fn nanprod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanprod())),
+        None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanprod_axis(0))),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanprod_axis(ax_vec[0]))))
         }
@@ -306,7 +314,7 @@ pub fn nanprod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyRes
 pub fn nanmean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmean())),
+        None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanmean_axis(0))),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanmean_axis(ax_vec[0]))))
         }
@@ -323,7 +331,7 @@ pub fn nanmean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyRes
 pub fn nanvar(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanvar())),
+        None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanvar_axis(0))),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanvar_axis(ax_vec[0]))))
         }
@@ -340,7 +348,7 @@ pub fn nanvar(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 pub fn nanstd(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanstd())),
+        None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanstd_axis(0))),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanstd_axis(ax_vec[0]))))
         }
@@ -356,8 +364,9 @@ pub fn nanstd(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
+    pyarray::check_has_elements(&x.inner, axes.as_deref())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmin())),
+        None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanmin_axis(0))),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanmin_axis(ax_vec[0]))))
         }
@@ -373,8 +382,9 @@ pub fn nanmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
+    pyarray::check_has_elements(&x.inner, axes.as_deref())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmax())),
+        None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanmax_axis(0))),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanmax_axis(ax_vec[0]))))
         }
@@ -385,6 +395,22 @@ pub fn nanmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
     }
 }
 
+/// Every slice along `axis` needs an element that is not NaN.
+fn check_no_all_nan_slice(arr: &RumpyArray, axis: usize) -> PyResult<()> {
+    let dtype = arr.dtype();
+    let stride = arr.strides()[axis];
+    for base in arr.axis_offsets(axis) {
+        let found = (0..arr.shape()[axis] as isize).any(|j| {
+            let val = unsafe { dtype.ops().read_f64(arr.data_ptr(), base + j * stride) };
+            !val.unwrap_or(0.0).is_nan()
+        });
+        if !found {
+            return Err(pyo3::exceptions::PyValueError::new_err("All-NaN slice encountered"));
+        }
+    }
+    Ok(())
+}
+
 /// Index of minimum ignoring NaN values.
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
@@ -401,6 +427,7 @@ pub fn nanargmin(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::Red
         Some(ax) => {
             let ax = resolve_axis(ax, x.inner.ndim());
             check_axis(ax, x.inner.ndim())?;
+            check_no_all_nan_slice(&x.inner, ax)?;
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanargmin_axis(ax))))
         }
     }
@@ -422,6 +449,7 @@ pub fn nanargmax(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::Red
         Some(ax) => {
             let ax = resolve_axis(ax, x.inner.ndim());
             check_axis(ax, x.inner.ndim())?;
+            check_no_all_nan_slice(&x.inner, ax)?;
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanargmax_axis(ax))))
         }
     }
@@ -519,7 +547,7 @@ pub fn cumulative_prod(x: &PyRumpyArray, axis: isize, include_initial: bool) ->
 pub fn median(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.median())),
+        None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).median_axis(0))),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.median_axis(ax_vec[0]))))
         }
@@ -749,18 +777,26 @@ pub fn bincount(x: &PyRumpyArray, minlength: usize) -> PyResult<PyRumpyArray> {
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("bincount requires 1D non-negative integer array"))
 }
 
+/// Percentiles or quantiles to compute, and whether a single number was given.
+fn parse_q(q: &pyo3::Bound<'_, pyo3::PyAny>) -> PyResult<(Vec<f64>, bool)> {
+    if let Ok(val) = q.extract::<f64>() {
+        Ok((vec![val], true))
+    } else if let Ok(list) = q.extract::<Vec<f64>>() {
+        Ok((list, false))
+    } else {
+        Err(pyo3::exceptions::PyTypeError::new_err("q must be a number or list of numbers"))
+    }
+}
+
 /// Compute percentiles of a dataset.
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
-pub fn percentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<usize>) -> PyResult<PyRumpyArray> {
-    // Parse q - can be scalar or array-like
-    let q_values: Vec<f64> = if let Ok(val) = q.extract::<f64>() {
-        vec![val]
-    } else if let Ok(list) = q.extract::<Vec<f64>>() {
-        list
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err("q must be a number or list of numbers"));
-    };
+pub fn percentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let (q_values, scalar_q) = parse_q(q)?;
+    let axis = axis.map(|ax| {
+        let ax = resolve_axis(ax, a.inner.ndim());
+        check_axis(ax, a.inner.ndim()).map(|_| ax)
+    }).transpose()?;
 
     // Validate q values are in [0, 100]
     for &qv in &q_values {
@@ -770,22 +806,19 @@ pub fn percentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Opti
     }
 
     crate::array::percentile(&a.inner, &q_values, axis)
-        .map(PyRumpyArray::new)
+        .map(|r| PyRumpyArray::new(if scalar_q && r.ndim() > 1 { r.squeeze_axis(0) } else { r }))
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("percentile computation failed"))
 }
 
 /// Compute quantiles of a dataset.
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
-pub fn quantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<usize>) -> PyResult<PyRumpyArray> {
-    // Parse q - can be scalar or array-like
-    let q_values: Vec<f64> = if let Ok(val) = q.extract::<f64>() {
-        vec![val]
-    } else if let Ok(list) = q.extract::<Vec<f64>>() {
-        list
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err("q must be a number or list of numbers"));
-    };
+pub fn quantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let (q_values, scalar_q) = parse_q(q)?;
+    let axis = axis.map(|ax| {
+        let ax = resolve_axis(ax, a.inner.ndim());
+        check_axis(ax, a.inner.ndim()).map(|_| ax)
+    }).transpose()?;
 
     // Validate q values are in [0, 1]
     for &qv in &q_values {
@@ -798,7 +831,7 @@ pub fn quantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option
     let pct_values: Vec<f64> = q_values.iter().map(|&q| q * 100.0).collect();
 
     crate::array::percentile(&a.inner, &pct_values, axis)
-        .map(PyRumpyArray::new)
+        .map(|r| PyRumpyArray::new(if scalar_q && r.ndim() > 1 { r.squeeze_axis(0) } else { r }))
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("quantile computation failed"))
 }
 
@@ -809,8 +842,10 @@ pub fn count_nonzero(x: &PyRumpyArray) -> usize {
 
 #[pyfunction]
 #[pyo3(signature = (x, n=1, axis=-1))]
-pub fn diff(x: &PyRumpyArray, n: usize, axis: isize) -> PyRumpyArray {
-    PyRumpyArray::new(x.inner.diff(n, resolve_axis(axis, x.inner.ndim())))
+pub fn diff(x: &PyRumpyArray, n: usize, axis: isize) -> PyResult<PyRumpyArray> {
+    let axis = resolve_axis(axis, x.inner.ndim());
+    check_axis(axis, x.inner.ndim())?;
+    Ok(PyRumpyArray::new(x.inner.diff(n, axis)))
 }
 
 // ============================================================================
@@ -841,7 +876,7 @@ pub fn amin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult
 pub fn nanmedian(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmedian())),
+        None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanmedian_axis(0))),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanmedian_axis(ax_vec[0]))))
         }
@@ -855,15 +890,12 @@ pub fn nanmedian(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyR
 /// Compute percentiles of a dataset ignoring NaN values.
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
-pub fn nanpercentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<usize>) -> PyResult<PyRumpyArray> {
-    // Parse q - can be scalar or array-like
-    let q_values: Vec<f64> = if let Ok(val) = q.extract::<f64>() {
-        vec![val]
-    } else if let Ok(list) = q.extract::<Vec<f64>>() {
-        list
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err("q must be a number or list of numbers"));
-    };
+pub fn nanpercentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let (q_values, scalar_q) = parse_q(q)?;
+    let axis = axis.map(|ax| {
+        let ax = resolve_axis(ax, a.inner.ndim());
+        check_axis(ax, a.inner.ndim()).map(|_| ax)
+    }).transpose()?;
 
     // Validate q values are in [0, 100]
     for &qv in &q_values {
@@ -873,22 +905,19 @@ pub fn nanpercentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: O
     }
 
     crate::array::nanpercentile(&a.inner, &q_values, axis)
-        .map(PyRumpyArray::new)
+        .map(|r| PyRumpyArray::new(if scalar_q && r.ndim() > 1 { r.squeeze_axis(0) } else { r }))
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("nanpercentile computation failed"))
 }
 
 /// Compute quantiles of a dataset ignoring NaN values.
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
-pub fn nanquantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<usize>) -> PyResult<PyRumpyArray> {
-    // Parse q - can be scalar or array-like
-    let q_values: Vec<f64> = if let Ok(val) = q.extract::<f64>() {
-        vec![val]
-    } else if let Ok(list) = q.extract::<Vec<f64>>() {
-        list
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err("q must be a number or list of numbers"));
-    };
+pub fn nanquantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let (q_values, scalar_q) = parse_q(q)?;
+    let axis = axis.map(|ax| {
+        let ax = resolve_axis(ax, a.inner.ndim());
+        check_axis(ax, a.inner.ndim()).map(|_| ax)
+    }).transpose()?;
 
     // Validate q values are in [0, 1]
     for &qv in &q_values {
@@ -901,7 +930,7 @@ pub fn nanquantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Opt
     let pct_values: Vec<f64> = q_values.iter().map(|&q| q * 100.0).collect();
 
     crate::array::nanpercentile(&a.inner, &pct_values, axis)
-        .map(PyRumpyArray::new)
+        .map(|r| PyRumpyArray::new(if scalar_q && r.ndim() > 1 { r.squeeze_axis(0) } else { r }))
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("nanquantile computation failed"))
 }
 
-- 
2.43.0


From c3f4687bfb68be32ea32f35776d75c0dfc8565f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:53 +0000
Subject: [PATCH 26/81] fix: sorting, searching and partitioning keep exact
 values, order NaN last and sort views in place

---
 src/array/dtype/complex128.rs    |   9 +-
 src/array/dtype/complex64.rs     |   9 +-
 src/array/dtype/datetime64.rs    |   8 +-
 src/array/dtype/float16.rs       |   2 +-
 src/array/dtype/macros.rs        |   2 +-
 src/ops/array_methods/sorting.rs | 247 +++++++++++--------------------
 src/ops/indexing.rs              |   4 +-
 src/ops/mod.rs                   |   6 +-
 src/python/indexing.rs           |  45 ++++--
 src/python/misc.rs               | 139 ++---------------
 src/python/pyarray/mod.rs        | 181 +++-------------------
 src/python/reductions.rs         |   7 +
 12 files changed, 181 insertions(+), 478 deletions(-)

diff --git a/src/array/dtype/complex128.rs b/src/array/dtype/complex128.rs
index 71d0fdc..b5fb944 100644
--- a/src/array/dtype/complex128.rs
+++ b/src/array/dtype/complex128.rs
@@ -394,12 +394,13 @@ impl DTypeOps for Complex128Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        // Compare by magnitude (not ideal but allows sorting)
+        // Lexicographic; values with a NaN part come last, a NaN real part after a NaN imaginary one
         let (ar, ai) = Self::read(a, a_offset);
         let (br, bi) = Self::read(b, b_offset);
-        let mag_a = ar * ar + ai * ai;
-        let mag_b = br * br + bi * bi;
-        mag_a.partial_cmp(&mag_b).unwrap_or(Ordering::Equal)
+        (ar.is_nan(), ai.is_nan())
+            .cmp(&(br.is_nan(), bi.is_nan()))
+            .then(ar.partial_cmp(&br).unwrap_or(Ordering::Equal))
+            .then(ai.partial_cmp(&bi).unwrap_or(Ordering::Equal))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/complex64.rs b/src/array/dtype/complex64.rs
index 27d3d4b..b8cbfa5 100644
--- a/src/array/dtype/complex64.rs
+++ b/src/array/dtype/complex64.rs
@@ -391,12 +391,13 @@ impl DTypeOps for Complex64Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        // Compare by magnitude (not ideal but allows sorting)
+        // Lexicographic; values with a NaN part come last, a NaN real part after a NaN imaginary one
         let (ar, ai) = Self::read(a, a_offset);
         let (br, bi) = Self::read(b, b_offset);
-        let mag_a = ar * ar + ai * ai;
-        let mag_b = br * br + bi * bi;
-        mag_a.partial_cmp(&mag_b).unwrap_or(Ordering::Equal)
+        (ar.is_nan(), ai.is_nan())
+            .cmp(&(br.is_nan(), bi.is_nan()))
+            .then(ar.partial_cmp(&br).unwrap_or(Ordering::Equal))
+            .then(ai.partial_cmp(&bi).unwrap_or(Ordering::Equal))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/datetime64.rs b/src/array/dtype/datetime64.rs
index 186db18..e9f825d 100644
--- a/src/array/dtype/datetime64.rs
+++ b/src/array/dtype/datetime64.rs
@@ -232,7 +232,9 @@ impl DTypeOps for DateTime64Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        Self::read(a, a_offset).cmp(&Self::read(b, b_offset))
+        let (av, bv) = (Self::read(a, a_offset), Self::read(b, b_offset));
+        // NaT sorts last
+        (av == NAT).cmp(&(bv == NAT)).then(av.cmp(&bv))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
@@ -406,7 +408,9 @@ impl DTypeOps for TimeDelta64Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        Self::read(a, a_offset).cmp(&Self::read(b, b_offset))
+        let (av, bv) = (Self::read(a, a_offset), Self::read(b, b_offset));
+        // NaT sorts last
+        (av == NAT).cmp(&(bv == NAT)).then(av.cmp(&bv))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index 447bbd7..3e1dcb3 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -144,7 +144,7 @@ impl DTypeOps for Float16Ops {
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
         let av = Self::read(a, a_offset);
         let bv = Self::read(b, b_offset);
-        av.partial_cmp(&bv).unwrap_or(Ordering::Equal)
+        av.partial_cmp(&bv).unwrap_or_else(|| av.is_nan().cmp(&bv.is_nan()))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index 1df91a6..5445a30 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -146,7 +146,7 @@ macro_rules! impl_float_dtype {
             unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> std::cmp::Ordering {
                 let av = Self::read(a, a_offset);
                 let bv = Self::read(b, b_offset);
-                av.partial_cmp(&bv).unwrap_or(std::cmp::Ordering::Equal)
+                av.partial_cmp(&bv).unwrap_or_else(|| av.is_nan().cmp(&bv.is_nan()))
             }
 
             unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/ops/array_methods/sorting.rs b/src/ops/array_methods/sorting.rs
index 3239991..733117d 100644
--- a/src/ops/array_methods/sorting.rs
+++ b/src/ops/array_methods/sorting.rs
@@ -32,10 +32,7 @@ impl RumpyArray {
 
     /// Return unique sorted values.
     pub fn unique(&self) -> RumpyArray {
-        let mut values = self.to_vec();
-        values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
-        values.dedup_by(|a, b| (*a - *b).abs() < f64::EPSILON);
-        RumpyArray::from_vec(values, self.dtype())
+        self.unique_all().0
     }
 
     /// Return unique sorted values (same as unique, Array API compatible).
@@ -65,65 +62,38 @@ impl RumpyArray {
     /// - inverse_indices: index into values that reconstructs original (same shape as input)
     /// - counts: count of each unique value
     pub fn unique_all(&self) -> (RumpyArray, RumpyArray, RumpyArray, RumpyArray) {
-        let values = self.to_vec();
-        let n = values.len();
-        if n == 0 {
-            return (
-                RumpyArray::from_vec(Vec::<f64>::new(), self.dtype()),
-                RumpyArray::from_vec_i64(Vec::<i64>::new(), DType::int64()),
-                RumpyArray::from_vec_i64(Vec::<i64>::new(), DType::int64()),
-                RumpyArray::from_vec_i64(Vec::<i64>::new(), DType::int64()),
-            );
+        let flat = self.flat_axis();
+        let dtype = flat.dtype();
+        let ops = dtype.ops();
+        let ptr = flat.data_ptr();
+        let stride = flat.strides()[0];
+        let order = if flat.size() == 0 { Vec::new() } else { flat.lane_order(0, 0) };
+
+        // The order is stable, so each run of equal values starts with its first occurrence
+        let mut first_indices: Vec<i64> = Vec::new();
+        let mut counts: Vec<i64> = Vec::new();
+        let mut inverse = vec![0i64; order.len()];
+        for (k, &idx) in order.iter().enumerate() {
+            let is_new = k == 0 || unsafe {
+                ops.compare_elements(ptr, order[k - 1] as isize * stride, ptr, idx as isize * stride)
+            } != std::cmp::Ordering::Equal;
+            if is_new {
+                first_indices.push(idx as i64);
+                counts.push(0);
+            }
+            *counts.last_mut().expect("a run was started") += 1;
+            inverse[idx] = first_indices.len() as i64 - 1;
         }
 
-        // Create indices and sort by value
-        let mut indexed: Vec<(f64, usize)> = values.iter().copied().enumerate().map(|(i, v)| (v, i)).collect();
-        indexed.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
-
-        // Collect unique values with all metadata
-        let mut unique_vals = Vec::new();
-        let mut first_indices = Vec::new();
-        let mut counts = Vec::new();
-        let mut inverse = vec![0i64; n];
-
-        let mut prev = indexed[0].0;
-        let mut unique_idx = 0i64;
-        let mut first_idx = indexed[0].1;
-        let mut count = 1i64;
-        inverse[indexed[0].1] = unique_idx;
-
-        for &(val, orig_idx) in &indexed[1..] {
-            if (val - prev).abs() < f64::EPSILON {
-                count += 1;
-                // Update first_idx if this occurrence is earlier
-                if orig_idx < first_idx {
-                    first_idx = orig_idx;
-                }
-                inverse[orig_idx] = unique_idx;
-            } else {
-                unique_vals.push(prev);
-                first_indices.push(first_idx as i64);
-                counts.push(count);
-
-                prev = val;
-                first_idx = orig_idx;
-                count = 1;
-                unique_idx += 1;
-                inverse[orig_idx] = unique_idx;
-            }
+        let mut values = RumpyArray::zeros(vec![first_indices.len()], dtype.clone());
+        let dst = Arc::get_mut(values.buffer_mut()).expect("unique").as_mut_ptr();
+        for (k, &idx) in first_indices.iter().enumerate() {
+            unsafe { ops.copy_element(ptr, idx as isize * stride, dst, k); }
         }
-        unique_vals.push(prev);
-        first_indices.push(first_idx as i64);
-        counts.push(count);
-
-        // Reshape inverse to match original array shape
-        let inverse_arr = RumpyArray::from_vec_i64(inverse, DType::int64());
-        let inverse_shaped = inverse_arr.reshape(self.shape().to_vec()).unwrap_or(inverse_arr);
-
         (
-            RumpyArray::from_vec(unique_vals, self.dtype()),
+            values,
             RumpyArray::from_vec_i64(first_indices, DType::int64()),
-            inverse_shaped,
+            RumpyArray::from_vec_i64_with_shape(inverse, self.shape().to_vec(), DType::int64()),
             RumpyArray::from_vec_i64(counts, DType::int64()),
         )
     }
@@ -133,127 +103,80 @@ impl RumpyArray {
         // If axis is None, flatten and sort
         let axis = match axis {
             None => {
-                let flat = self.reshape(vec![self.size()]).expect("flatten should work");
+                let flat = self.flat_axis();
                 return flat.sort(Some(0));
             }
             Some(ax) => ax,
         };
         assert!(axis < self.ndim(), "axis out of bounds");
 
-        let shape = self.shape();
-        let axis_len = shape[axis];
-        let dtype = self.dtype().clone();
-
-        let mut result = self.copy();
-        if axis_len <= 1 {
-            return result;
-        }
-
-        // For each position along other axes, sort the elements along the target axis
-        let mut out_shape: Vec<usize> = shape[..axis].to_vec();
-        out_shape.extend_from_slice(&shape[axis + 1..]);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
-        let out_size: usize = out_shape.iter().product();
-
-        let ops = dtype.ops();
-        let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
-        let result_ptr = result_buffer.as_mut_ptr();
-
-        let mut out_indices = vec![0usize; out_shape.len()];
-        for _ in 0..out_size {
-            // Collect values along axis
-            let mut values: Vec<(f64, usize)> = Vec::with_capacity(axis_len);
-            for k in 0..axis_len {
-                let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
-                in_indices.push(k);
-                if axis < self.ndim() - 1 {
-                    in_indices.extend_from_slice(&out_indices[axis..]);
-                }
-                values.push((self.get_element(&in_indices), k));
-            }
-
-            // Sort by value
-            values.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
-
-            // Write sorted values back
-            for (k, (val, _)) in values.iter().enumerate() {
-                let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
-                in_indices.push(k);
-                if axis < self.ndim() - 1 {
-                    in_indices.extend_from_slice(&out_indices[axis..]);
+        let dtype = self.dtype();
+        let itemsize = dtype.itemsize();
+        let axis_stride = self.strides()[axis];
+        let src = self.data_ptr();
+
+        let mut result = RumpyArray::zeros(self.shape().to_vec(), dtype);
+        let out_offsets: Vec<isize> = result.axis_offsets(axis).collect();
+        let out_stride = result.strides()[axis];
+        let dst = Arc::get_mut(result.buffer_mut()).expect("unique").as_mut_ptr();
+
+        // Elements are moved as they are, so every dtype keeps its exact values
+        for (base, out) in self.axis_offsets(axis).zip(out_offsets) {
+            for (k, idx) in self.lane_order(base, axis).into_iter().enumerate() {
+                unsafe {
+                    std::ptr::copy_nonoverlapping(
+                        src.offset(base + idx as isize * axis_stride),
+                        dst.offset(out + k as isize * out_stride),
+                        itemsize,
+                    );
                 }
-                let byte_offset = result.byte_offset_for(&in_indices);
-                let linear_idx = byte_offset as usize / dtype.itemsize();
-                unsafe { ops.write_f64(result_ptr, linear_idx, *val); }
             }
-
-            increment_indices(&mut out_indices, &out_shape);
         }
         result
     }
 
+    /// Stable sort order of the elements along `axis` that start at byte offset `base`.
+    fn lane_order(&self, base: isize, axis: usize) -> Vec<usize> {
+        let dtype = self.dtype();
+        let ops = dtype.ops();
+        let ptr = self.data_ptr();
+        let stride = self.strides()[axis];
+        let mut order: Vec<usize> = (0..self.shape()[axis]).collect();
+        order.sort_by(|&a, &b| unsafe {
+            ops.compare_elements(ptr, base + a as isize * stride, ptr, base + b as isize * stride)
+        });
+        order
+    }
+
+    /// The elements as a single axis.
+    fn flat_axis(&self) -> RumpyArray {
+        let size = self.size();
+        self.reshape(vec![size])
+            .or_else(|| self.copy().reshape(vec![size]))
+            .expect("same number of elements")
+    }
+
     /// Return indices that would sort the array along an axis.
     pub fn argsort(&self, axis: Option<usize>) -> RumpyArray {
         // If axis is None, flatten and argsort
         let axis = match axis {
             None => {
-                let flat = self.reshape(vec![self.size()]).expect("flatten should work");
+                let flat = self.flat_axis();
                 return flat.argsort(Some(0));
             }
             Some(ax) => ax,
         };
         assert!(axis < self.ndim(), "axis out of bounds");
 
-        let shape = self.shape();
-        let axis_len = shape[axis];
-
-        let mut result = RumpyArray::zeros(shape.to_vec(), DType::int64());
-        if axis_len <= 1 {
-            // For single element, index is 0
-            return result;
-        }
+        let mut result = RumpyArray::zeros(self.shape().to_vec(), DType::int64());
+        let out_offsets: Vec<isize> = result.axis_offsets(axis).collect();
+        let out_stride = result.strides()[axis];
+        let dst = Arc::get_mut(result.buffer_mut()).expect("unique").as_mut_ptr();
 
-        let mut out_shape: Vec<usize> = shape[..axis].to_vec();
-        out_shape.extend_from_slice(&shape[axis + 1..]);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
-        let out_size: usize = out_shape.iter().product();
-
-        let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
-        let result_ptr = result_buffer.as_mut_ptr() as *mut i64;
-
-        let mut out_indices = vec![0usize; out_shape.len()];
-        for _ in 0..out_size {
-            // Collect values along axis with their indices
-            let mut values: Vec<(f64, usize)> = Vec::with_capacity(axis_len);
-            for k in 0..axis_len {
-                let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
-                in_indices.push(k);
-                if axis < self.ndim() - 1 {
-                    in_indices.extend_from_slice(&out_indices[axis..]);
-                }
-                values.push((self.get_element(&in_indices), k));
+        for (base, out) in self.axis_offsets(axis).zip(out_offsets) {
+            for (k, idx) in self.lane_order(base, axis).into_iter().enumerate() {
+                unsafe { *(dst.offset(out + k as isize * out_stride) as *mut i64) = idx as i64; }
             }
-
-            // Sort by value, keeping track of original indices
-            values.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
-
-            // Write sorted indices back
-            for (k, (_, orig_idx)) in values.iter().enumerate() {
-                let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
-                in_indices.push(k);
-                if axis < self.ndim() - 1 {
-                    in_indices.extend_from_slice(&out_indices[axis..]);
-                }
-                let byte_offset = result.byte_offset_for(&in_indices);
-                let linear_idx = byte_offset as usize / 8; // i64 is 8 bytes
-                unsafe { *result_ptr.add(linear_idx) = *orig_idx as i64; }
-            }
-
-            increment_indices(&mut out_indices, &out_shape);
         }
         result
     }
@@ -265,7 +188,7 @@ impl RumpyArray {
         // If axis is None, flatten and partition
         let axis = match axis {
             None => {
-                let flat = self.reshape(vec![self.size()]).expect("flatten should work");
+                let flat = self.flat_axis();
                 return flat.partition(kth, Some(0));
             }
             Some(ax) => ax,
@@ -292,7 +215,7 @@ impl RumpyArray {
         // If axis is None, flatten and argpartition
         let axis = match axis {
             None => {
-                let flat = self.reshape(vec![self.size()]).expect("flatten should work");
+                let flat = self.flat_axis();
                 return flat.argpartition(kth, Some(0));
             }
             Some(ax) => ax,
@@ -332,11 +255,11 @@ fn partition_inplace(arr: &mut RumpyArray, kth: usize, axis: usize) {
         match dtype.kind() {
             DTypeKind::Float64 => {
                 let slice = unsafe { std::slice::from_raw_parts_mut(ptr as *mut f64, axis_len) };
-                slice.select_nth_unstable_by(kth, |a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+                slice.select_nth_unstable_by(kth, |a, b| a.partial_cmp(b).unwrap_or_else(|| a.is_nan().cmp(&b.is_nan())));
             }
             DTypeKind::Float32 => {
                 let slice = unsafe { std::slice::from_raw_parts_mut(ptr as *mut f32, axis_len) };
-                slice.select_nth_unstable_by(kth, |a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+                slice.select_nth_unstable_by(kth, |a, b| a.partial_cmp(b).unwrap_or_else(|| a.is_nan().cmp(&b.is_nan())));
             }
             DTypeKind::Int64 => {
                 let slice = unsafe { std::slice::from_raw_parts_mut(ptr as *mut i64, axis_len) };
@@ -486,7 +409,7 @@ fn argpartition_impl(arr: &RumpyArray, kth: usize, axis: usize) -> RumpyArray {
                 indices.select_nth_unstable_by(kth, |&a, &b| {
                     let va = slice[a as usize];
                     let vb = slice[b as usize];
-                    va.partial_cmp(&vb).unwrap_or(std::cmp::Ordering::Equal)
+                    va.partial_cmp(&vb).unwrap_or_else(|| va.is_nan().cmp(&vb.is_nan()))
                 });
             }
             DTypeKind::Float32 => {
@@ -494,7 +417,7 @@ fn argpartition_impl(arr: &RumpyArray, kth: usize, axis: usize) -> RumpyArray {
                 indices.select_nth_unstable_by(kth, |&a, &b| {
                     let va = slice[a as usize];
                     let vb = slice[b as usize];
-                    va.partial_cmp(&vb).unwrap_or(std::cmp::Ordering::Equal)
+                    va.partial_cmp(&vb).unwrap_or_else(|| va.is_nan().cmp(&vb.is_nan()))
                 });
             }
             DTypeKind::Int64 => {
@@ -666,11 +589,11 @@ pub fn lexsort(keys: &[&RumpyArray]) -> Option<RumpyArray> {
                 match info.dtype.kind() {
                     DTypeKind::Float64 => {
                         let slice = unsafe { std::slice::from_raw_parts(info.ptr as *const f64, n) };
-                        slice[a].partial_cmp(&slice[b]).unwrap_or(std::cmp::Ordering::Equal)
+                        slice[a].partial_cmp(&slice[b]).unwrap_or_else(|| slice[a].is_nan().cmp(&slice[b].is_nan()))
                     }
                     DTypeKind::Float32 => {
                         let slice = unsafe { std::slice::from_raw_parts(info.ptr as *const f32, n) };
-                        slice[a].partial_cmp(&slice[b]).unwrap_or(std::cmp::Ordering::Equal)
+                        slice[a].partial_cmp(&slice[b]).unwrap_or_else(|| slice[a].is_nan().cmp(&slice[b].is_nan()))
                     }
                     DTypeKind::Int64 => {
                         let slice = unsafe { std::slice::from_raw_parts(info.ptr as *const i64, n) };
diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index dc9e81a..8de68b0 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -923,9 +923,9 @@ pub fn digitize(x: &RumpyArray, bins: &RumpyArray, right: bool) -> RumpyArray {
         let bin_idx = if is_decreasing {
             // For decreasing bins: len(bins) - searchsorted(reversed_bins, val, side)
             let search_idx = if right {
-                reversed_bins.partition_point(|&b| b <= val)
-            } else {
                 reversed_bins.partition_point(|&b| b < val)
+            } else {
+                reversed_bins.partition_point(|&b| b <= val)
             };
             bins_size - search_idx
         } else {
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index ecbd430..b4c6f2e 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -136,11 +136,13 @@ impl RumpyArray {
         let ndim = self.ndim();
         let mut indices_per_dim: Vec<Vec<i64>> = vec![Vec::new(); ndim];
 
+        let dtype = self.dtype();
+        let ops = dtype.ops();
         let mut indices = vec![0usize; ndim];
         let size = self.size();
         for _ in 0..size {
-            let val = self.get_element(&indices);
-            if val != 0.0 {
+            let offset = self.byte_offset_for(&indices);
+            if unsafe { ops.is_truthy(self.data_ptr(), offset) } {
                 for (dim, &idx) in indices.iter().enumerate() {
                     indices_per_dim[dim].push(idx as i64);
                 }
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index b00b67e..6a5c8c6 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -92,8 +92,10 @@ pub fn searchsorted(
 ) -> PyResult<PyRumpyArray> {
     let v_arr = if let Ok(arr) = v.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
         arr.inner.clone()
+    } else if let Ok(scalar) = v.extract::<i64>() {
+        RumpyArray::from_vec_i64_with_shape(vec![scalar], vec![], DType::int64())
     } else if let Ok(scalar) = v.extract::<f64>() {
-        RumpyArray::from_vec(vec![scalar], DType::float64())
+        RumpyArray::full(vec![], scalar, DType::float64())
     } else {
         return Err(pyo3::exceptions::PyTypeError::new_err(
             "v must be array or number",
@@ -311,45 +313,58 @@ pub fn setxor1d(ar1: &PyRumpyArray, ar2: &PyRumpyArray) -> PyRumpyArray {
 /// Return a sorted copy of an array.
 #[pyfunction]
 #[pyo3(signature = (x, axis=-1))]
-pub fn sort(x: &PyRumpyArray, axis: Option<isize>) -> PyRumpyArray {
-    let resolved_axis = axis.map(|a| super::reductions::resolve_axis(a, x.inner.ndim()));
-    PyRumpyArray::new(x.inner.sort(resolved_axis))
+pub fn sort(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let resolved_axis = axis.map(|a| super::reductions::normalize_axis(a, x.inner.ndim())).transpose()?;
+    Ok(PyRumpyArray::new(x.inner.sort(resolved_axis)))
 }
 
 /// Return indices that would sort an array.
 #[pyfunction]
 #[pyo3(signature = (x, axis=-1))]
-pub fn argsort(x: &PyRumpyArray, axis: Option<isize>) -> PyRumpyArray {
-    let resolved_axis = axis.map(|a| super::reductions::resolve_axis(a, x.inner.ndim()));
-    PyRumpyArray::new(x.inner.argsort(resolved_axis))
+pub fn argsort(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let resolved_axis = axis.map(|a| super::reductions::normalize_axis(a, x.inner.ndim())).transpose()?;
+    Ok(PyRumpyArray::new(x.inner.argsort(resolved_axis)))
+}
+
+/// The partition point must exist.
+pub(crate) fn check_kth(arr: &RumpyArray, kth: usize, axis: Option<usize>) -> PyResult<()> {
+    let len = axis.map_or(arr.size(), |ax| arr.shape()[ax]);
+    if kth >= len {
+        return Err(pyo3::exceptions::PyValueError::new_err(format!(
+            "kth(={}) out of bounds ({})", kth, len
+        )));
+    }
+    Ok(())
 }
 
 /// Return a partitioned copy of an array.
 #[pyfunction]
 #[pyo3(signature = (x, kth, axis=-1))]
-pub fn partition(x: &PyRumpyArray, kth: usize, axis: Option<isize>) -> PyRumpyArray {
-    let resolved_axis = axis.map(|a| super::reductions::resolve_axis(a, x.inner.ndim()));
-    PyRumpyArray::new(x.inner.partition(kth, resolved_axis))
+pub fn partition(x: &PyRumpyArray, kth: usize, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let resolved_axis = axis.map(|a| super::reductions::normalize_axis(a, x.inner.ndim())).transpose()?;
+    check_kth(&x.inner, kth, resolved_axis)?;
+    Ok(PyRumpyArray::new(x.inner.partition(kth, resolved_axis)))
 }
 
 /// Return indices that would partition an array.
 #[pyfunction]
 #[pyo3(signature = (x, kth, axis=-1))]
-pub fn argpartition(x: &PyRumpyArray, kth: usize, axis: Option<isize>) -> PyRumpyArray {
-    let resolved_axis = axis.map(|a| super::reductions::resolve_axis(a, x.inner.ndim()));
-    PyRumpyArray::new(x.inner.argpartition(kth, resolved_axis))
+pub fn argpartition(x: &PyRumpyArray, kth: usize, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let resolved_axis = axis.map(|a| super::reductions::normalize_axis(a, x.inner.ndim())).transpose()?;
+    check_kth(&x.inner, kth, resolved_axis)?;
+    Ok(PyRumpyArray::new(x.inner.argpartition(kth, resolved_axis)))
 }
 
 /// Perform an indirect stable sort using a sequence of keys.
 #[pyfunction]
-pub fn lexsort(py: Python<'_>, keys: &Bound<'_, pyo3::types::PyTuple>) -> PyResult<PyRumpyArray> {
+pub fn lexsort(py: Python<'_>, keys: Vec<Bound<'_, pyo3::PyAny>>) -> PyResult<PyRumpyArray> {
     let key_arrays: Vec<crate::array::RumpyArray> = keys
         .iter()
         .map(|item| {
             if let Ok(arr) = item.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
                 Ok(arr.inner.clone())
             } else {
-                let arr = creation::array_impl(py, &item, None)?;
+                let arr = creation::array_impl(py, item, None)?;
                 Ok(arr.inner.clone())
             }
         })
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 14b110a..94ff89c 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -358,133 +358,20 @@ pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpy
     }
 
     let dtype = inner.dtype();
-    let size = inner.size();
-
-    // Fast path: both contiguous boolean condition and typed source
-    if cond.is_c_contiguous() && inner.is_c_contiguous() {
-        let cond_ptr = cond.data_ptr() as *const u8;  // bool is stored as u8
-
-        // Count true values
-        let mut count = 0usize;
-        for i in 0..size {
-            if unsafe { *cond_ptr.add(i) } != 0 {
-                count += 1;
-            }
-        }
-
-        let mut result = RumpyArray::zeros(vec![count], dtype.clone());
-        if count == 0 {
-            return Ok(PyRumpyArray::new(result));
-        }
-
-        let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
-        let dst_ptr = buffer.as_mut_ptr();
-        let src_ptr = inner.data_ptr();
-
-        // Typed dispatch for extraction
-        macro_rules! extract_typed {
-            ($ty:ty) => {{
-                let src = src_ptr as *const $ty;
-                let dst = dst_ptr as *mut $ty;
-                let mut dst_idx = 0usize;
-                for i in 0..size {
-                    if unsafe { *cond_ptr.add(i) } != 0 {
-                        unsafe { *dst.add(dst_idx) = *src.add(i); }
-                        dst_idx += 1;
-                    }
-                }
-            }};
-        }
-
-        match dtype.kind() {
-            DTypeKind::Float32 => extract_typed!(f32),
-            DTypeKind::Float64 => extract_typed!(f64),
-            DTypeKind::Int32 => extract_typed!(i32),
-            DTypeKind::Int64 => extract_typed!(i64),
-            DTypeKind::Uint32 => extract_typed!(u32),
-            DTypeKind::Uint64 => extract_typed!(u64),
-            DTypeKind::Int8 => extract_typed!(i8),
-            DTypeKind::Int16 => extract_typed!(i16),
-            DTypeKind::Uint8 => extract_typed!(u8),
-            DTypeKind::Uint16 => extract_typed!(u16),
-            DTypeKind::Bool => extract_typed!(u8),
-            _ => {
-                // Fallback for complex types
-                let ops = dtype.ops();
-                let mut dst_idx = 0usize;
-                for i in 0..size {
-                    if unsafe { *cond_ptr.add(i) } != 0 {
-                        let val = unsafe { ops.read_f64(src_ptr, (i * inner.itemsize()) as isize) }.unwrap_or(0.0);
-                        unsafe { ops.write_f64(dst_ptr, dst_idx, val); }
-                        dst_idx += 1;
-                    }
-                }
-            }
-        }
-
-        return Ok(PyRumpyArray::new(result));
-    }
-
-    // Strided path with typed dispatch
-    let cond_ptr = cond.data_ptr();
-    let cond_offsets: Vec<isize> = cond.iter_offsets().collect();
-
-    // Count true values (condition is always bool = u8)
-    let mut count = 0usize;
-    for &offset in &cond_offsets {
-        if unsafe { *(cond_ptr.offset(offset) as *const u8) } != 0 {
-            count += 1;
-        }
-    }
-
-    let mut result = RumpyArray::zeros(vec![count], dtype.clone());
-    if count == 0 {
-        return Ok(PyRumpyArray::new(result));
-    }
-
-    let src_ptr = inner.data_ptr();
-    let src_offsets: Vec<isize> = inner.iter_offsets().collect();
-    let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
-    let dst_ptr = buffer.as_mut_ptr();
-
-    macro_rules! extract_strided_typed {
-        ($ty:ty) => {{
-            let dst = dst_ptr as *mut $ty;
-            let mut dst_idx = 0usize;
-            for i in 0..size {
-                if unsafe { *(cond_ptr.offset(cond_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { *(src_ptr.offset(src_offsets[i]) as *const $ty) };
-                    unsafe { *dst.add(dst_idx) = val; }
-                    dst_idx += 1;
-                }
-            }
-        }};
-    }
+    let ops = dtype.ops();
+    let cond_dtype = cond.dtype();
+    let cond_ops = cond_dtype.ops();
+    let chosen: Vec<isize> = cond
+        .iter_offsets()
+        .zip(inner.iter_offsets())
+        .filter(|&(c, _)| unsafe { cond_ops.is_truthy(cond.data_ptr(), c) })
+        .map(|(_, offset)| offset)
+        .collect();
 
-    match dtype.kind() {
-        DTypeKind::Float32 => extract_strided_typed!(f32),
-        DTypeKind::Float64 => extract_strided_typed!(f64),
-        DTypeKind::Int32 => extract_strided_typed!(i32),
-        DTypeKind::Int64 => extract_strided_typed!(i64),
-        DTypeKind::Uint32 => extract_strided_typed!(u32),
-        DTypeKind::Uint64 => extract_strided_typed!(u64),
-        DTypeKind::Int8 => extract_strided_typed!(i8),
-        DTypeKind::Int16 => extract_strided_typed!(i16),
-        DTypeKind::Uint8 => extract_strided_typed!(u8),
-        DTypeKind::Uint16 => extract_strided_typed!(u16),
-        DTypeKind::Bool => extract_strided_typed!(u8),
-        _ => {
-            // Complex types fallback
-            let ops = dtype.ops();
-            let mut dst_idx = 0usize;
-            for i in 0..size {
-                if unsafe { *(cond_ptr.offset(cond_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { ops.read_f64(src_ptr, src_offsets[i]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, dst_idx as usize, val); }
-                    dst_idx += 1;
-                }
-            }
-        }
+    let mut result = RumpyArray::zeros(vec![chosen.len()], dtype.clone());
+    let dst_ptr = Arc::get_mut(&mut result.buffer).expect("unique").as_mut_ptr();
+    for (i, offset) in chosen.into_iter().enumerate() {
+        unsafe { ops.copy_element(inner.data_ptr(), offset, dst_ptr, i); }
     }
 
     Ok(PyRumpyArray::new(result))
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 6dbb049..88e4660 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -524,38 +524,30 @@ impl PyRumpyArray {
     }
 
     /// Return indices that would sort the array.
-    #[pyo3(signature = (axis=None))]
-    fn argsort(&self, axis: Option<isize>) -> Self {
-        let ax = normalize_axis_option(axis, self.inner.ndim(), false);
-        Self::new(self.inner.argsort(ax))
+    #[pyo3(signature = (axis=-1))]
+    fn argsort(&self, axis: Option<isize>) -> PyResult<Self> {
+        let ndim = self.inner.ndim();
+        let ax = axis.map(|a| crate::python::reductions::normalize_axis(a, ndim)).transpose()?;
+        Ok(Self::new(self.inner.argsort(ax)))
     }
 
     /// Sort array in-place.
-    #[pyo3(signature = (axis=None))]
-    fn sort(&mut self, axis: Option<isize>) {
-        let ax = normalize_axis_option(axis, self.inner.ndim(), true);
-        self.inner = self.inner.sort(ax);
+    #[pyo3(signature = (axis=-1))]
+    fn sort(&mut self, axis: isize) -> PyResult<()> {
+        let ax = crate::python::reductions::normalize_axis(axis, self.inner.ndim())?;
+        let sorted = Self::new(self.inner.sort(Some(ax)));
+        fill_view(&mut self.inner.clone(), None, Some(&sorted))
     }
 
     /// Find indices where elements should be inserted to maintain order.
     #[pyo3(signature = (v, side="left"))]
     fn searchsorted<'py>(&self, py: Python<'py>, v: &Bound<'py, PyAny>, side: &str) -> PyResult<PyObject> {
-        // Handle scalar input - always use float64 for the search value to avoid truncation
-        if let Ok(scalar) = v.extract::<f64>() {
-            let v_arr = RumpyArray::from_vec(vec![scalar], DType::float64());
-            let result = crate::ops::indexing::searchsorted(&self.inner, &v_arr, side)
-                .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("searchsorted failed"))?;
-            // Return scalar for scalar input
-            let idx = result.get_element(&[0]) as i64;
-            return Ok(idx.into_pyobject(py)?.into_any().unbind());
+        let result = crate::python::indexing::searchsorted(self, v, side)?;
+        // Return scalar for scalar input
+        if v.extract::<PyRef<'_, PyRumpyArray>>().is_err() {
+            return Ok((result.inner.get_element(&[]) as i64).into_pyobject(py)?.into_any().unbind());
         }
-        // Handle array input
-        if let Ok(arr) = v.extract::<PyRef<'_, PyRumpyArray>>() {
-            let result = crate::ops::indexing::searchsorted(&self.inner, &arr.inner, side)
-                .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("searchsorted failed"))?;
-            return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
-        }
-        Err(pyo3::exceptions::PyTypeError::new_err("v must be a scalar or array"))
+        Ok(result.into_pyobject(py)?.into_any().unbind())
     }
 
     /// Repeat elements of an array.
@@ -920,63 +912,17 @@ impl PyRumpyArray {
 
     /// Partially sort array in-place so element at kth position is in sorted position.
     fn partition(&mut self, kth: usize) -> PyResult<()> {
-        let size = self.inner.size();
-        if kth >= size {
-            return Err(pyo3::exceptions::PyValueError::new_err(format!(
-                "kth(={}) out of bounds ({})", kth, size
-            )));
-        }
-
-        // Fast path: contiguous float64 array - work directly on buffer
-        if self.inner.is_c_contiguous() && self.inner.dtype().ops().name() == "float64" {
-            let ptr = self.inner.data_ptr_mut() as *mut f64;
-            let slice = unsafe { std::slice::from_raw_parts_mut(ptr, size) };
-            partition_select(slice, kth);
-            return Ok(());
-        }
-
-        // General path: copy, partition, write back
-        let mut values: Vec<f64> = Vec::with_capacity(size);
-        for offset in self.inner.iter_offsets() {
-            let val = unsafe { self.inner.dtype().ops().read_f64(self.inner.data_ptr(), offset) }.unwrap_or(0.0);
-            values.push(val);
-        }
-        partition_select(&mut values, kth);
-
-        let shape = self.inner.shape().to_vec();
-        let mut indices = vec![0usize; self.inner.ndim()];
-        for (i, &val) in values.iter().enumerate() {
-            self.inner.set_element(&indices, val);
-            if i + 1 < size {
-                crate::array::increment_indices(&mut indices, &shape);
-            }
-        }
-
-        Ok(())
+        let axis = crate::python::reductions::normalize_axis(-1, self.inner.ndim())?;
+        crate::python::indexing::check_kth(&self.inner, kth, Some(axis))?;
+        let partitioned = Self::new(self.inner.partition(kth, Some(axis)));
+        fill_view(&mut self.inner.clone(), None, Some(&partitioned))
     }
 
     /// Return indices that would partition the array.
     fn argpartition(&self, kth: usize) -> PyResult<Self> {
-        let size = self.inner.size();
-        if kth >= size {
-            return Err(pyo3::exceptions::PyValueError::new_err(format!(
-                "kth(={}) out of bounds ({})", kth, size
-            )));
-        }
-
-        // Collect values with original indices
-        let mut indexed: Vec<(f64, usize)> = Vec::with_capacity(size);
-        for (i, offset) in self.inner.iter_offsets().enumerate() {
-            let val = unsafe { self.inner.dtype().ops().read_f64(self.inner.data_ptr(), offset) }.unwrap_or(0.0);
-            indexed.push((val, i));
-        }
-
-        // Partition by value
-        partition_select_indexed(&mut indexed, kth);
-
-        // Extract indices
-        let indices: Vec<f64> = indexed.iter().map(|(_, idx)| *idx as f64).collect();
-        Ok(Self::new(RumpyArray::from_vec(indices, DType::int64())))
+        let axis = crate::python::reductions::normalize_axis(-1, self.inner.ndim())?;
+        crate::python::indexing::check_kth(&self.inner, kth, Some(axis))?;
+        Ok(Self::new(self.inner.argpartition(kth, Some(axis))))
     }
 
 }
@@ -1050,19 +996,6 @@ fn resolve_axis(axis: isize, ndim: usize) -> usize {
     }
 }
 
-/// Normalize axis for sort/argsort operations.
-/// - If axis is None and default_last is false, returns None (flatten behavior)
-/// - If axis is None and default_last is true, returns last axis
-/// - Handles negative axis values
-fn normalize_axis_option(axis: Option<isize>, ndim: usize, default_last: bool) -> Option<usize> {
-    match axis {
-        None if default_last => Some(ndim - 1),
-        None => None,
-        Some(a) if a >= 0 => Some(a as usize),
-        Some(a) => Some((ndim as isize + a) as usize),
-    }
-}
-
 /// Extract i64 values from a Python list or array.
 fn extract_i64_vec(obj: &Bound<'_, PyAny>, name: &str) -> PyResult<Vec<i64>> {
     if let Ok(list) = obj.downcast::<PyList>() {
@@ -1484,76 +1417,6 @@ where
     }
 }
 
-/// Quickselect-style partition: rearrange so that element at kth position is in sorted position.
-fn partition_select(arr: &mut [f64], kth: usize) {
-    if arr.len() <= 1 {
-        return;
-    }
-
-    // Simple quickselect
-    let mut left = 0;
-    let mut right = arr.len() - 1;
-
-    while left < right {
-        let pivot_idx = (left + right) / 2;
-        let pivot = arr[pivot_idx];
-
-        // Move pivot to end
-        arr.swap(pivot_idx, right);
-
-        let mut store = left;
-        for i in left..right {
-            if arr[i] < pivot {
-                arr.swap(i, store);
-                store += 1;
-            }
-        }
-        arr.swap(store, right);
-
-        if store == kth {
-            return;
-        } else if store < kth {
-            left = store + 1;
-        } else {
-            right = store.saturating_sub(1);
-        }
-    }
-}
-
-/// Quickselect for indexed values: partition so kth smallest is at position kth.
-fn partition_select_indexed(arr: &mut [(f64, usize)], kth: usize) {
-    if arr.len() <= 1 {
-        return;
-    }
-
-    let mut left = 0;
-    let mut right = arr.len() - 1;
-
-    while left < right {
-        let pivot_idx = (left + right) / 2;
-        let pivot = arr[pivot_idx].0;
-
-        arr.swap(pivot_idx, right);
-
-        let mut store = left;
-        for i in left..right {
-            if arr[i].0 < pivot {
-                arr.swap(i, store);
-                store += 1;
-            }
-        }
-        arr.swap(store, right);
-
-        if store == kth {
-            return;
-        } else if store < kth {
-            left = store + 1;
-        } else {
-            right = store.saturating_sub(1);
-        }
-    }
-}
-
 /// Python-visible flags object (like numpy.ndarray.flags).
 #[pyclass(name = "flagsobj", module = "rumpy")]
 pub struct PyArrayFlags {
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index bf6b195..124a065 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -29,6 +29,13 @@ pub fn resolve_axis(axis: isize, ndim: usize) -> usize {
     }
 }
 
+/// Resolve an axis, rejecting one the array does not have.
+pub fn normalize_axis(axis: isize, ndim: usize) -> PyResult<usize> {
+    let resolved = resolve_axis(axis, ndim);
+    check_axis(resolved, ndim)?;
+    Ok(resolved)
+}
+
 /// No axis may be reduced twice.
 fn check_distinct(axes: &[usize]) -> PyResult<()> {
     for (i, ax) in axes.iter().enumerate() {
-- 
2.43.0


From 96ce3093d0e028596d3da610e839efd5a2836bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:53 +0000
Subject: [PATCH 27/81] fix: set operations and unique keep exact values and
 treat NaN as one value

---
 src/ops/set_ops.rs | 223 +++++++++++++++------------------------------
 1 file changed, 76 insertions(+), 147 deletions(-)

diff --git a/src/ops/set_ops.rs b/src/ops/set_ops.rs
index 69a39f5..ffc8c62 100644
--- a/src/ops/set_ops.rs
+++ b/src/ops/set_ops.rs
@@ -5,62 +5,54 @@
 //! Uses sorting-based algorithms (like NumPy) rather than hash-based for better performance
 //! with sorted output requirements.
 
-use crate::array::dtype::DTypeKind;
 use crate::array::{DType, RumpyArray};
-use std::collections::HashSet;
+use std::cmp::Ordering;
 use std::sync::Arc;
 
-/// Collect array values as f64 Vec (for any contiguous array).
-fn collect_values(arr: &RumpyArray) -> Vec<f64> {
-    if arr.is_c_contiguous() {
-        let ptr = arr.data_ptr();
-        let size = arr.size();
-        match arr.dtype().kind() {
-            DTypeKind::Float64 => {
-                let p = ptr as *const f64;
-                (0..size).map(|i| unsafe { *p.add(i) }).collect()
-            }
-            DTypeKind::Int64 => {
-                let p = ptr as *const i64;
-                (0..size).map(|i| unsafe { *p.add(i) as f64 }).collect()
-            }
-            DTypeKind::Int32 => {
-                let p = ptr as *const i32;
-                (0..size).map(|i| unsafe { *p.add(i) as f64 }).collect()
-            }
-            DTypeKind::Float32 => {
-                let p = ptr as *const f32;
-                (0..size).map(|i| unsafe { *p.add(i) as f64 }).collect()
-            }
-            _ => {
-                let dtype = arr.dtype();
-                let ops = dtype.ops();
-                arr.iter_offsets()
-                    .map(|offset| unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0))
-                    .collect()
-            }
-        }
-    } else {
-        let dtype = arr.dtype();
-        let ops = dtype.ops();
-        let ptr = arr.data_ptr();
-        arr.iter_offsets()
-            .map(|offset| unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0))
-            .collect()
-    }
+/// Both arrays in their common dtype.
+fn common(ar1: &RumpyArray, ar2: &RumpyArray) -> (RumpyArray, RumpyArray) {
+    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
+    (ar1.astype(dtype.clone()), ar2.astype(dtype))
 }
 
-/// Extract values from array as sorted unique f64 Vec.
-fn collect_sorted_unique(arr: &RumpyArray) -> Vec<f64> {
-    let mut values = collect_values(arr);
-    values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
-    values.dedup();
-    values
-}
+/// Merge the sorted unique values of two arrays of one dtype, keeping the values that
+/// occur only in the first, in both, or only in the second, as asked.
+fn merge(v1: &RumpyArray, v2: &RumpyArray, keep: [bool; 3]) -> RumpyArray {
+    let dtype = v1.dtype();
+    let ops = dtype.ops();
+    let itemsize = dtype.itemsize() as isize;
+    let (p1, p2) = (v1.data_ptr(), v2.data_ptr());
+    let (n1, n2) = (v1.size(), v2.size());
 
-/// Build a HashSet from array values for O(1) lookup.
-fn collect_hashset(arr: &RumpyArray) -> HashSet<u64> {
-    collect_values(arr).into_iter().map(|v| v.to_bits()).collect()
+    let mut chosen: Vec<*const u8> = Vec::with_capacity(n1 + n2);
+    let (mut i, mut j) = (0, 0);
+    while i < n1 || j < n2 {
+        let (o1, o2) = (i as isize * itemsize, j as isize * itemsize);
+        let order = if j >= n2 {
+            Ordering::Less
+        } else if i >= n1 {
+            Ordering::Greater
+        } else {
+            unsafe { ops.compare_elements(p1, o1, p2, o2) }
+        };
+        let side = match order {
+            Ordering::Less => 0,
+            Ordering::Equal => 1,
+            Ordering::Greater => 2,
+        };
+        if keep[side] {
+            chosen.push(unsafe { if side == 2 { p2.offset(o2) } else { p1.offset(o1) } });
+        }
+        i += (side != 2) as usize;
+        j += (side != 0) as usize;
+    }
+
+    let mut result = RumpyArray::zeros(vec![chosen.len()], dtype.clone());
+    let dst = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique").as_mut_ptr();
+    for (k, &src) in chosen.iter().enumerate() {
+        unsafe { ops.copy_element(src, 0, dst, k); }
+    }
+    result
 }
 
 /// Test whether each element of `element` is also present in `test_elements`.
@@ -68,8 +60,8 @@ fn collect_hashset(arr: &RumpyArray) -> HashSet<u64> {
 ///
 /// If `invert` is true, returns the inverse (elements NOT in test_elements).
 pub fn isin(element: &RumpyArray, test_elements: &RumpyArray, invert: bool) -> RumpyArray {
-    let test_set = collect_hashset(test_elements);
-    let values = collect_values(element);
+    let (element, test_elements) = common(element, test_elements);
+    let test = test_elements.unique();
 
     // Create result array with same shape as element
     let mut result = RumpyArray::zeros(element.shape().to_vec(), DType::bool());
@@ -78,12 +70,27 @@ pub fn isin(element: &RumpyArray, test_elements: &RumpyArray, invert: bool) -> R
         return result;
     }
 
-    let buffer = result.buffer_mut();
-    let result_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
-    let result_ptr = result_buffer.as_mut_ptr();
-
-    for (i, val) in values.iter().enumerate() {
-        let found = test_set.contains(&val.to_bits());
+    let dtype = element.dtype();
+    let ops = dtype.ops();
+    let itemsize = dtype.itemsize() as isize;
+    let (ptr, test_ptr) = (element.data_ptr(), test.data_ptr());
+    let result_ptr = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique").as_mut_ptr();
+
+    for (i, offset) in element.iter_offsets().enumerate() {
+        let (mut lo, mut hi) = (0, test.size());
+        let mut found = false;
+        while lo < hi {
+            let mid = lo + (hi - lo) / 2;
+            match unsafe { ops.compare_elements(test_ptr, mid as isize * itemsize, ptr, offset) } {
+                Ordering::Less => lo = mid + 1,
+                Ordering::Greater => hi = mid,
+                Ordering::Equal => {
+                    // NaN is not equal to itself
+                    found = unsafe { ops.read_f64(ptr, offset) }.map_or(true, |v| !v.is_nan());
+                    break;
+                }
+            }
+        }
         unsafe { *result_ptr.add(i) = if found != invert { 1u8 } else { 0u8 }; }
     }
 
@@ -93,116 +100,38 @@ pub fn isin(element: &RumpyArray, test_elements: &RumpyArray, invert: bool) -> R
 /// Test whether each element of a 1D array is also present in a second array.
 /// Like isin but always flattens the first argument.
 pub fn in1d(ar1: &RumpyArray, ar2: &RumpyArray, invert: bool) -> RumpyArray {
-    let flat = ar1.reshape(vec![ar1.size()]).unwrap_or_else(|| ar1.copy());
+    let flat = ar1.reshape(vec![ar1.size()])
+        .or_else(|| ar1.copy().reshape(vec![ar1.size()]))
+        .expect("same number of elements");
     isin(&flat, ar2, invert)
 }
 
 /// Find the intersection of two arrays using sorted merge.
 /// Returns the sorted, unique values that are in both arrays.
 pub fn intersect1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
-
-    // Merge intersection on sorted arrays
-    let mut result = Vec::with_capacity(v1.len().min(v2.len()));
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() && j < v2.len() {
-        if v1[i] < v2[j] {
-            i += 1;
-        } else if v1[i] > v2[j] {
-            j += 1;
-        } else {
-            result.push(v1[i]);
-            i += 1;
-            j += 1;
-        }
-    }
-
-    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
-    RumpyArray::from_vec(result, dtype)
+    let (v1, v2) = common(ar1, ar2);
+    merge(&v1.unique(), &v2.unique(), [false, true, false])
 }
 
 /// Find the union of two arrays using sorted merge.
 /// Returns the sorted, unique values that are in either array.
 pub fn union1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
-
-    // Merge union on sorted arrays
-    let mut result = Vec::with_capacity(v1.len() + v2.len());
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() && j < v2.len() {
-        if v1[i] < v2[j] {
-            result.push(v1[i]);
-            i += 1;
-        } else if v1[i] > v2[j] {
-            result.push(v2[j]);
-            j += 1;
-        } else {
-            result.push(v1[i]);
-            i += 1;
-            j += 1;
-        }
-    }
-    result.extend_from_slice(&v1[i..]);
-    result.extend_from_slice(&v2[j..]);
-
-    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
-    RumpyArray::from_vec(result, dtype)
+    let (v1, v2) = common(ar1, ar2);
+    merge(&v1.unique(), &v2.unique(), [true, true, true])
 }
 
 /// Find the set difference of two arrays using sorted merge.
 /// Returns the sorted, unique values in ar1 that are not in ar2.
 pub fn setdiff1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
-
-    // Merge difference on sorted arrays (elements in v1 not in v2)
-    let mut result = Vec::with_capacity(v1.len());
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() {
-        if j >= v2.len() || v1[i] < v2[j] {
-            result.push(v1[i]);
-            i += 1;
-        } else if v1[i] > v2[j] {
-            j += 1;
-        } else {
-            // Equal - skip this element from v1
-            i += 1;
-            j += 1;
-        }
-    }
-
-    RumpyArray::from_vec(result, ar1.dtype())
+    let (v1, v2) = common(ar1, ar2);
+    merge(&v1.unique(), &v2.unique(), [true, false, false]).astype(ar1.dtype())
 }
 
 /// Find the symmetric difference of two arrays using sorted merge.
 /// Returns the sorted, unique values that are in exactly one of the arrays.
 pub fn setxor1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
-
-    // Merge symmetric difference on sorted arrays
-    let mut result = Vec::with_capacity(v1.len() + v2.len());
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() && j < v2.len() {
-        if v1[i] < v2[j] {
-            result.push(v1[i]);
-            i += 1;
-        } else if v1[i] > v2[j] {
-            result.push(v2[j]);
-            j += 1;
-        } else {
-            // Equal - skip both
-            i += 1;
-            j += 1;
-        }
-    }
-    result.extend_from_slice(&v1[i..]);
-    result.extend_from_slice(&v2[j..]);
-
-    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
-    RumpyArray::from_vec(result, dtype)
+    let (v1, v2) = common(ar1, ar2);
+    merge(&v1.unique(), &v2.unique(), [true, false, true])
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6e1d452fb09a6fc71ead5a697adfb16ef26f5d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:08 +0000
Subject: [PATCH 28/81] fix: indexing functions keep exact values, honour
 negative axes and stay inside their buffers

---
 src/ops/indexing.rs       |  58 ++++---
 src/ops/linalg.rs         |  30 +---
 src/python/creation.rs    |  29 +---
 src/python/indexing.rs    |  66 ++++----
 src/python/misc.rs        | 313 +++++++-------------------------------
 src/python/pyarray/mod.rs |  32 ++--
 6 files changed, 151 insertions(+), 377 deletions(-)

diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index 8de68b0..2f9f96b 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -16,7 +16,14 @@ fn normalize_index(idx: isize, len: usize) -> Option<usize> {
 
 /// Take elements from an array along an axis.
 pub fn take(arr: &RumpyArray, indices: &RumpyArray, axis: Option<usize>) -> Option<RumpyArray> {
-    let axis = axis.unwrap_or(0);
+    let flat;
+    let (arr, axis) = match axis {
+        Some(axis) => (arr, axis),
+        None => {
+            flat = arr.reshape(vec![arr.size()])?;
+            (&flat, 0)
+        }
+    };
     if axis >= arr.ndim() {
         return None;
     }
@@ -85,8 +92,8 @@ fn take_axis0_contiguous(arr: &RumpyArray, indices: &[usize], mut result: RumpyA
     let result_ptr = buffer.as_mut_ptr();
     let src_ptr = arr.data_ptr();
 
-    // Each "row" is stride[0] bytes (for contiguous, this is product of remaining dims * itemsize)
-    let row_bytes = arr.strides()[0] as usize;
+    // An axis of length 1 may have any stride, so a row's size comes from the shape
+    let row_bytes = arr.shape()[1..].iter().product::<usize>() * arr.dtype().itemsize();
 
     for (i, &idx) in indices.iter().enumerate() {
         unsafe {
@@ -492,9 +499,10 @@ pub fn flatnonzero(arr: &RumpyArray) -> RumpyArray {
 }
 
 /// Replace elements at given flat indices with given values.
-pub fn put(arr: &mut RumpyArray, indices: &[i64], values: &[f64]) -> Option<()> {
+pub fn put(arr: &mut RumpyArray, indices: &[i64], values: &RumpyArray) -> Option<()> {
     let size = arr.size();
-    if indices.is_empty() {
+    let values_len = values.size();
+    if indices.is_empty() || values_len == 0 {
         return Some(());
     }
 
@@ -505,20 +513,27 @@ pub fn put(arr: &mut RumpyArray, indices: &[i64], values: &[f64]) -> Option<()>
 
     let ndim = arr.ndim();
     let shape = arr.shape().to_vec();
-    let values_len = values.len();
+    let strides = arr.strides().to_vec();
+    // Private copy in the target dtype: the values may overlap the array
+    let values = values.astype(arr.dtype());
+    let val_offsets: Vec<isize> = values.iter_offsets().collect();
+    let dtype = arr.dtype();
+    let dst_ptr = arr.data_ptr_mut();
 
     for (i, &flat_idx) in normalized.iter().enumerate() {
-        let val = values[i % values_len];
-
-        // Convert flat index to nd indices
-        let mut indices_nd = vec![0usize; ndim];
+        // Convert flat index to a byte offset
+        let mut offset = 0isize;
         let mut remaining = flat_idx;
         for d in (0..ndim).rev() {
-            indices_nd[d] = remaining % shape[d];
+            offset += (remaining % shape[d]) as isize * strides[d];
             remaining /= shape[d];
         }
 
-        arr.set_element(&indices_nd, val);
+        unsafe {
+            dtype.ops().copy_element(
+                values.data_ptr(), val_offsets[i % values_len], dst_ptr.offset(offset), 0,
+            );
+        }
     }
 
     Some(())
@@ -540,9 +555,12 @@ pub fn put_along_axis(arr: &mut RumpyArray, indices: &RumpyArray, values: &Rumpy
     let idx_ptr = indices.data_ptr();
     let idx_dtype = indices.dtype();
     let idx_ops = idx_dtype.ops();
+    // Private copy in the target dtype: the values may overlap the array
+    let values = values.astype(arr.dtype());
     let val_ptr = values.data_ptr();
-    let val_dtype = values.dtype();
-    let val_ops = val_dtype.ops();
+    let dtype = arr.dtype();
+    let arr_strides = arr.strides().to_vec();
+    let dst_ptr = arr.data_ptr_mut();
 
     let idx_strides = indices.strides();
     let val_strides = values.strides();
@@ -567,12 +585,14 @@ pub fn put_along_axis(arr: &mut RumpyArray, indices: &RumpyArray, values: &Rumpy
         let idx_val = unsafe { idx_ops.read_i64(idx_ptr, idx_offset) }.unwrap_or(0) as isize;
         let normalized_idx = normalize_index(idx_val, axis_len)?;
 
-        let val = unsafe { val_ops.read_f64(val_ptr, val_offset) }.unwrap_or(0.0);
-
         target_indices.copy_from_slice(&idx_indices);
         target_indices[axis] = normalized_idx;
 
-        arr.set_element(&target_indices, val);
+        let dst_offset: isize = target_indices.iter()
+            .zip(arr_strides.iter())
+            .map(|(&i, &s)| i as isize * s)
+            .sum();
+        unsafe { dtype.ops().copy_element(val_ptr, val_offset, dst_ptr.offset(dst_offset), 0); }
 
         for d in (0..ndim).rev() {
             idx_indices[d] += 1;
@@ -594,13 +614,15 @@ pub fn choose(indices: &RumpyArray, choices: &[RumpyArray]) -> Option<RumpyArray
 
     let num_choices = choices.len();
     let out_shape = indices.shape().to_vec();
-    let out_dtype = choices[0].dtype();
+    let mut out_dtype = choices[0].dtype();
 
     for choice in choices {
         if choice.shape() != indices.shape() {
             return None;
         }
+        out_dtype = crate::array::promote_dtype(&out_dtype, &choice.dtype());
     }
+    let choices: Vec<RumpyArray> = choices.iter().map(|c| c.astype(out_dtype.clone())).collect();
 
     let mut result = RumpyArray::zeros(out_shape.clone(), out_dtype);
     let result_size: usize = out_shape.iter().product();
diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index 75342a4..68a70ed 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -389,32 +389,10 @@ pub fn cholesky(a: &RumpyArray) -> Option<RumpyArray> {
 /// - 2D input: returns 1D array of diagonal elements
 pub fn diag(a: &RumpyArray) -> Option<RumpyArray> {
     match a.ndim() {
-        1 => {
-            // Create diagonal matrix from 1D array
-            let n = a.shape()[0];
-            let result = RumpyArray::zeros(vec![n, n], a.dtype());
-            for i in 0..n {
-                let val = a.get_element(&[i]);
-                unsafe {
-                    let ptr = result.data_ptr().add((i * n + i) * 8) as *mut f64;
-                    *ptr = val;
-                }
-            }
-            Some(result)
-        }
-        2 => {
-            // Extract diagonal from 2D matrix
-            let n = a.shape()[0].min(a.shape()[1]);
-            let result = RumpyArray::zeros(vec![n], a.dtype());
-            for i in 0..n {
-                let val = a.get_element(&[i, i]);
-                unsafe {
-                    let ptr = result.data_ptr().add(i * 8) as *mut f64;
-                    *ptr = val;
-                }
-            }
-            Some(result)
-        }
+        // Create diagonal matrix from 1D array
+        1 => Some(crate::array::diagflat(a, 0)),
+        // Extract diagonal from 2D matrix
+        2 => Some(a.diagonal().copy()),
         _ => None,
     }
 }
diff --git a/src/python/creation.rs b/src/python/creation.rs
index 16fb551..fb40d24 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -1071,11 +1071,11 @@ pub fn copyto(
     }
 
     let dst_ptr = dst.inner.data_ptr() as *mut u8;
-    let src_ptr = src_broadcasted.data_ptr();
     let dst_dtype = dst.inner.dtype();
-    let src_dtype = src_broadcasted.dtype();
     let dst_ops = dst_dtype.ops();
-    let src_ops = src_dtype.ops();
+    // Private copy in the target dtype: the source may overlap the destination
+    let src = src_broadcasted.astype(dst_dtype.clone());
+    let src_ptr = src.data_ptr();
 
     match where_mask {
         Some(mask) => {
@@ -1096,30 +1096,17 @@ pub fn copyto(
             let mask_ops = mask_dtype.ops();
 
             for ((dst_off, src_off), mask_off) in dst.inner.iter_offsets()
-                .zip(src_broadcasted.iter_offsets())
+                .zip(src.iter_offsets())
                 .zip(mask_broadcasted.iter_offsets())
             {
-                let mask_val = unsafe { mask_ops.read_f64(mask_ptr, mask_off) }.unwrap_or(0.0);
-                if mask_val != 0.0 {
-                    let val = unsafe { src_ops.read_f64(src_ptr, src_off) }.unwrap_or(0.0);
-                    unsafe { dst_ops.write_f64_at_byte_offset(dst_ptr, dst_off, val); }
+                if unsafe { mask_ops.is_truthy(mask_ptr, mask_off) } {
+                    unsafe { dst_ops.copy_element(src_ptr, src_off, dst_ptr.offset(dst_off), 0); }
                 }
             }
         }
         None => {
-            // Fast path: both contiguous and same dtype - use memcpy
-            if dst_dtype == src_dtype && dst.inner.is_c_contiguous() && src_broadcasted.is_c_contiguous() {
-                let nbytes = size * dst.inner.itemsize();
-                unsafe { std::ptr::copy_nonoverlapping(src_ptr, dst_ptr, nbytes); }
-                return Ok(());
-            }
-
-            // General path: iterate with typed pointer access
-            for (dst_off, src_off) in dst.inner.iter_offsets()
-                .zip(src_broadcasted.iter_offsets())
-            {
-                let val = unsafe { src_ops.read_f64(src_ptr, src_off) }.unwrap_or(0.0);
-                unsafe { dst_ops.write_f64_at_byte_offset(dst_ptr, dst_off, val); }
+            for (dst_off, src_off) in dst.inner.iter_offsets().zip(src.iter_offsets()) {
+                unsafe { dst_ops.copy_element(src_ptr, src_off, dst_ptr.offset(dst_off), 0); }
             }
         }
     }
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index 6a5c8c6..261e4a0 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -16,8 +16,9 @@ use super::{PyRumpyArray, creation};
 pub fn take(
     a: &PyRumpyArray,
     indices: &Bound<'_, pyo3::PyAny>,
-    axis: Option<usize>,
+    axis: Option<isize>,
 ) -> PyResult<PyRumpyArray> {
+    let axis = axis.map(|ax| super::reductions::normalize_axis(ax, a.inner.ndim())).transpose()?;
     let indices_arr = if let Ok(arr) = indices.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
         arr.inner.clone()
     } else if let Ok(list) = indices.extract::<Vec<i64>>() {
@@ -39,8 +40,9 @@ pub fn take(
 pub fn take_along_axis(
     arr: &PyRumpyArray,
     indices: &PyRumpyArray,
-    axis: usize,
+    axis: isize,
 ) -> PyResult<PyRumpyArray> {
+    let axis = super::reductions::normalize_axis(axis, arr.inner.ndim())?;
     crate::ops::indexing::take_along_axis(&arr.inner, &indices.inner, axis)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
@@ -56,8 +58,9 @@ pub fn take_along_axis(
 pub fn compress(
     condition: &Bound<'_, pyo3::PyAny>,
     a: &PyRumpyArray,
-    axis: Option<usize>,
+    axis: Option<isize>,
 ) -> PyResult<PyRumpyArray> {
+    let axis = axis.map(|ax| super::reductions::normalize_axis(ax, a.inner.ndim())).transpose()?;
     let cond_vec: Vec<bool> = if let Ok(list) = condition.extract::<Vec<bool>>() {
         list
     } else if let Ok(arr) = condition.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
@@ -147,24 +150,7 @@ pub fn put(
         ));
     };
 
-    let values: Vec<f64> = if let Ok(scalar) = v.extract::<f64>() {
-        vec![scalar]
-    } else if let Ok(list) = v.extract::<Vec<f64>>() {
-        list
-    } else if let Ok(arr) = v.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        let size = arr.inner.size();
-        let mut result = Vec::with_capacity(size);
-        for offset in arr.inner.iter_offsets() {
-            let val = unsafe { arr.inner.dtype().ops().read_f64(arr.inner.data_ptr(), offset) }
-                .unwrap_or(0.0);
-            result.push(val);
-        }
-        result
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "v must be number, array, or list",
-        ));
-    };
+    let values = super::pyarray::extract_values(v, "v")?;
 
     crate::ops::indexing::put(&mut a.inner, &indices, &values)
         .ok_or_else(|| pyo3::exceptions::PyIndexError::new_err("index out of bounds"))
@@ -176,8 +162,9 @@ pub fn put_along_axis(
     arr: &mut PyRumpyArray,
     indices: &PyRumpyArray,
     values: &PyRumpyArray,
-    axis: usize,
+    axis: isize,
 ) -> PyResult<()> {
+    let axis = super::reductions::normalize_axis(axis, arr.inner.ndim())?;
     crate::ops::indexing::put_along_axis(&mut arr.inner, &indices.inner, &values.inner, axis)
         .ok_or_else(|| {
             pyo3::exceptions::PyValueError::new_err(
@@ -401,12 +388,11 @@ pub fn unravel_index(
     } else if let Ok(list) = indices.extract::<Vec<i64>>() {
         list
     } else if let Ok(arr) = indices.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        let size = arr.inner.size();
         let ptr = arr.inner.data_ptr();
         let dtype = arr.inner.dtype();
         let ops = dtype.ops();
-        (0..size)
-            .map(|i| unsafe { ops.read_i64(ptr, (i * dtype.itemsize()) as isize) }.unwrap_or(0))
+        arr.inner.iter_offsets()
+            .map(|offset| unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0))
             .collect()
     } else {
         return Err(pyo3::exceptions::PyTypeError::new_err(
@@ -480,6 +466,16 @@ pub fn ravel_multi_index(
                     .collect()
             })
             .collect()
+    } else if let Ok(arrs) = multi_index.extract::<Vec<pyo3::PyRef<'_, PyRumpyArray>>>() {
+        arrs.iter()
+            .map(|arr| {
+                let ptr = arr.inner.data_ptr();
+                let dtype = arr.inner.dtype();
+                arr.inner.iter_offsets()
+                    .map(|offset| unsafe { dtype.ops().read_i64(ptr, offset) }.unwrap_or(0))
+                    .collect()
+            })
+            .collect()
     } else {
         return Err(pyo3::exceptions::PyTypeError::new_err(
             "multi_index must be array or list of lists",
@@ -926,23 +922,13 @@ impl NdEnumerate {
         slf
     }
 
-    fn __next__<'py>(mut slf: PyRefMut<'py, Self>) -> Option<(pyo3::PyObject, f64)> {
+    fn __next__<'py>(mut slf: PyRefMut<'py, Self>) -> PyResult<Option<(pyo3::PyObject, pyo3::PyObject)>> {
         if slf.flat_idx >= slf.size {
-            return None;
+            return Ok(None);
         }
 
         let indices = slf.indices.clone();
-        let ptr = slf.arr.data_ptr();
-        let dtype = slf.arr.dtype();
-        let ops = dtype.ops();
-
-        // Calculate offset from indices
-        let strides = slf.arr.strides();
-        let offset: isize = slf.indices.iter().zip(strides.iter())
-            .map(|(&i, &s)| (i as isize) * s)
-            .sum();
-
-        let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
+        let val = slf.arr.element_to_py(slf.py(), &indices)?;
 
         // Increment indices (clone shape to avoid borrow conflict)
         slf.flat_idx += 1;
@@ -951,9 +937,9 @@ impl NdEnumerate {
 
         // Convert indices to Python tuple
         let py = slf.py();
-        let tuple = pyo3::types::PyTuple::new(py, indices).ok()?.into();
+        let tuple = pyo3::types::PyTuple::new(py, indices)?.into();
 
-        Some((tuple, val))
+        Ok(Some((tuple, val)))
     }
 }
 
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 94ff89c..5dfcf36 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -385,109 +385,45 @@ pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpy
 /// Values are cycled through.
 #[pyfunction]
 pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> PyResult<()> {
-    let inner = &arr.inner;
-    let mask_arr = &mask.inner;
-    let vals_arr = &vals.inner;
+    // Successive values go to successive selected elements
+    let mut used = 0usize;
+    masked_assign(&arr.inner, &mask.inner, &vals.inner, |_| {
+        used += 1;
+        used - 1
+    })
+}
 
-    if mask_arr.size() != inner.size() {
+/// Assign `vals[pick(i)]` (cycling) to every element `i` whose mask is true.
+fn masked_assign(
+    inner: &RumpyArray,
+    mask: &RumpyArray,
+    vals: &RumpyArray,
+    mut pick: impl FnMut(usize) -> usize,
+) -> PyResult<()> {
+    if mask.size() != inner.size() {
         return Err(pyo3::exceptions::PyValueError::new_err(
             "mask and array must have same size"
         ));
     }
 
-    if vals_arr.size() == 0 {
-        return Ok(());
-    }
-
-    let arr_dtype = inner.dtype();
-    let size = inner.size();
-    let vals_size = vals_arr.size();
-
-    // Fast path: all contiguous, same dtype, bool mask
-    if mask_arr.is_c_contiguous() && inner.is_c_contiguous() && vals_arr.is_c_contiguous()
-        && arr_dtype.kind() == vals_arr.dtype().kind()
-    {
-        let mask_ptr = mask_arr.data_ptr() as *const u8;
-        let arr_ptr = inner.data_ptr();
-        let vals_ptr = vals_arr.data_ptr();
-
-        macro_rules! place_typed {
-            ($ty:ty) => {{
-                let dst = arr_ptr as *mut $ty;
-                let src = vals_ptr as *const $ty;
-                let mut val_idx = 0usize;
-                for i in 0..size {
-                    if unsafe { *mask_ptr.add(i) } != 0 {
-                        unsafe { *dst.add(i) = *src.add(val_idx % vals_size); }
-                        val_idx += 1;
-                    }
-                }
-            }};
-        }
-
-        match arr_dtype.kind() {
-            DTypeKind::Float32 => place_typed!(f32),
-            DTypeKind::Float64 => place_typed!(f64),
-            DTypeKind::Int32 => place_typed!(i32),
-            DTypeKind::Int64 => place_typed!(i64),
-            DTypeKind::Uint32 => place_typed!(u32),
-            DTypeKind::Uint64 => place_typed!(u64),
-            DTypeKind::Int8 => place_typed!(i8),
-            DTypeKind::Int16 => place_typed!(i16),
-            DTypeKind::Uint8 => place_typed!(u8),
-            DTypeKind::Uint16 => place_typed!(u16),
-            DTypeKind::Bool => place_typed!(u8),
-            _ => {} // Fall through to generic path
-        }
+    if vals.size() == 0 {
         return Ok(());
     }
 
-    // Strided path with typed dispatch
-    let mask_ptr = mask_arr.data_ptr();
-    let mask_offsets: Vec<isize> = mask_arr.iter_offsets().collect();
-    let vals_ptr = vals_arr.data_ptr();
-    let vals_offsets: Vec<isize> = vals_arr.iter_offsets().collect();
-    let arr_ptr = inner.data_ptr();
-    let arr_offsets: Vec<isize> = inner.iter_offsets().collect();
-
-    macro_rules! place_strided_typed {
-        ($ty:ty) => {{
-            let mut val_idx = 0usize;
-            for i in 0..size {
-                if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { *(vals_ptr.offset(vals_offsets[val_idx % vals_size]) as *const $ty) };
-                    unsafe { *(arr_ptr.offset(arr_offsets[i]) as *mut $ty) = val; }
-                    val_idx += 1;
-                }
-            }
-        }};
-    }
-
-    match arr_dtype.kind() {
-        DTypeKind::Float32 => place_strided_typed!(f32),
-        DTypeKind::Float64 => place_strided_typed!(f64),
-        DTypeKind::Int32 => place_strided_typed!(i32),
-        DTypeKind::Int64 => place_strided_typed!(i64),
-        DTypeKind::Uint32 => place_strided_typed!(u32),
-        DTypeKind::Uint64 => place_strided_typed!(u64),
-        DTypeKind::Int8 => place_strided_typed!(i8),
-        DTypeKind::Int16 => place_strided_typed!(i16),
-        DTypeKind::Uint8 => place_strided_typed!(u8),
-        DTypeKind::Uint16 => place_strided_typed!(u16),
-        DTypeKind::Bool => place_strided_typed!(u8),
-        _ => {
-            // Complex types fallback
-            let arr_ops = arr_dtype.ops();
-            let vals_dtype = vals_arr.dtype();
-            let vals_ops = vals_dtype.ops();
-            let mut val_idx = 0usize;
-            for i in 0..size {
-                if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { vals_ops.read_f64(vals_ptr, vals_offsets[val_idx % vals_size]) }.unwrap_or(0.0);
-                    unsafe { arr_ops.write_f64_at_byte_offset(arr_ptr as *mut u8, arr_offsets[i], val); }
-                    val_idx += 1;
-                }
-            }
+    let dtype = inner.dtype();
+    let ops = dtype.ops();
+    let mask_dtype = mask.dtype();
+    let mask_ops = mask_dtype.ops();
+    // Private copy in the target dtype: the values may overlap the array
+    let vals = vals.astype(dtype.clone());
+    let itemsize = dtype.itemsize();
+    let vals_size = vals.size();
+
+    let arr_ptr = inner.data_ptr() as *mut u8;
+    for (i, (mask_offset, offset)) in mask.iter_offsets().zip(inner.iter_offsets()).enumerate() {
+        if unsafe { mask_ops.is_truthy(mask.data_ptr(), mask_offset) } {
+            let src_offset = (pick(i) % vals_size * itemsize) as isize;
+            unsafe { ops.copy_element(vals.data_ptr(), src_offset, arr_ptr.offset(offset), 0); }
         }
     }
 
@@ -502,107 +438,7 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
 /// Values are broadcast to match mask positions.
 #[pyfunction]
 pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) -> PyResult<()> {
-    let inner = &a.inner;
-    let mask_arr = &mask.inner;
-    let vals_arr = &values.inner;
-
-    if mask_arr.size() != inner.size() {
-        return Err(pyo3::exceptions::PyValueError::new_err(
-            "mask and array must have same size"
-        ));
-    }
-
-    if vals_arr.size() == 0 {
-        return Ok(());
-    }
-
-    let arr_dtype = inner.dtype();
-    let size = inner.size();
-    let vals_size = vals_arr.size();
-
-    // Fast path: all contiguous, same dtype, bool mask
-    if mask_arr.is_c_contiguous() && inner.is_c_contiguous() && vals_arr.is_c_contiguous()
-        && arr_dtype.kind() == vals_arr.dtype().kind()
-    {
-        let mask_ptr = mask_arr.data_ptr() as *const u8;
-        let arr_ptr = inner.data_ptr();
-        let vals_ptr = vals_arr.data_ptr();
-
-        macro_rules! putmask_typed {
-            ($ty:ty) => {{
-                let dst = arr_ptr as *mut $ty;
-                let src = vals_ptr as *const $ty;
-                for i in 0..size {
-                    if unsafe { *mask_ptr.add(i) } != 0 {
-                        unsafe { *dst.add(i) = *src.add(i % vals_size); }
-                    }
-                }
-            }};
-        }
-
-        match arr_dtype.kind() {
-            DTypeKind::Float32 => putmask_typed!(f32),
-            DTypeKind::Float64 => putmask_typed!(f64),
-            DTypeKind::Int32 => putmask_typed!(i32),
-            DTypeKind::Int64 => putmask_typed!(i64),
-            DTypeKind::Uint32 => putmask_typed!(u32),
-            DTypeKind::Uint64 => putmask_typed!(u64),
-            DTypeKind::Int8 => putmask_typed!(i8),
-            DTypeKind::Int16 => putmask_typed!(i16),
-            DTypeKind::Uint8 => putmask_typed!(u8),
-            DTypeKind::Uint16 => putmask_typed!(u16),
-            DTypeKind::Bool => putmask_typed!(u8),
-            _ => {} // Fall through to generic path
-        }
-        return Ok(());
-    }
-
-    // Strided path with typed dispatch
-    let mask_ptr = mask_arr.data_ptr();
-    let mask_offsets: Vec<isize> = mask_arr.iter_offsets().collect();
-    let vals_ptr = vals_arr.data_ptr();
-    let vals_offsets: Vec<isize> = vals_arr.iter_offsets().collect();
-    let arr_ptr = inner.data_ptr();
-    let arr_offsets: Vec<isize> = inner.iter_offsets().collect();
-
-    macro_rules! putmask_strided_typed {
-        ($ty:ty) => {{
-            for i in 0..size {
-                if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { *(vals_ptr.offset(vals_offsets[i % vals_size]) as *const $ty) };
-                    unsafe { *(arr_ptr.offset(arr_offsets[i]) as *mut $ty) = val; }
-                }
-            }
-        }};
-    }
-
-    match arr_dtype.kind() {
-        DTypeKind::Float32 => putmask_strided_typed!(f32),
-        DTypeKind::Float64 => putmask_strided_typed!(f64),
-        DTypeKind::Int32 => putmask_strided_typed!(i32),
-        DTypeKind::Int64 => putmask_strided_typed!(i64),
-        DTypeKind::Uint32 => putmask_strided_typed!(u32),
-        DTypeKind::Uint64 => putmask_strided_typed!(u64),
-        DTypeKind::Int8 => putmask_strided_typed!(i8),
-        DTypeKind::Int16 => putmask_strided_typed!(i16),
-        DTypeKind::Uint8 => putmask_strided_typed!(u8),
-        DTypeKind::Uint16 => putmask_strided_typed!(u16),
-        DTypeKind::Bool => putmask_strided_typed!(u8),
-        _ => {
-            // Complex types fallback
-            let arr_ops = arr_dtype.ops();
-            let vals_dtype = vals_arr.dtype();
-            let vals_ops = vals_dtype.ops();
-            for i in 0..size {
-                if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { vals_ops.read_f64(vals_ptr, vals_offsets[i % vals_size]) }.unwrap_or(0.0);
-                    unsafe { arr_ops.write_f64_at_byte_offset(arr_ptr as *mut u8, arr_offsets[i], val); }
-                }
-            }
-        }
-    }
-
-    Ok(())
+    masked_assign(&a.inner, &mask.inner, &values.inner, |i| i)
 }
 
 // ============================================================================
@@ -629,73 +465,32 @@ pub fn select(
         ));
     }
 
-    let shape = condlist[0].inner.shape().to_vec();
-    let size = condlist[0].inner.size();
-    let out_dtype = choicelist[0].inner.dtype();
+    let shapes: Vec<&[usize]> = condlist.iter().chain(&choicelist).map(|x| x.inner.shape()).collect();
+    let mut shape = shapes[0].to_vec();
+    for other in &shapes[1..] {
+        shape = crate::array::broadcast_shapes(&shape, other).ok_or_else(|| {
+            pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together")
+        })?;
+    }
+    let mut out_dtype = choicelist[0].inner.dtype();
+    for choice in &choicelist[1..] {
+        out_dtype = crate::array::promote_dtype(&out_dtype, &choice.inner.dtype());
+    }
 
-    let mut result = RumpyArray::full(shape, default, out_dtype.clone());
+    let mut result = RumpyArray::full(shape.clone(), default, out_dtype.clone());
     let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
-
-    // Collect offsets
-    let cond_offsets: Vec<Vec<isize>> = condlist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
-        .collect();
-    let choice_offsets: Vec<Vec<isize>> = choicelist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
-        .collect();
-
-    // Collect raw pointers
-    let cond_ptrs: Vec<*const u8> = condlist.iter()
-        .map(|c| c.inner.data_ptr())
-        .collect();
-    let choice_ptrs: Vec<*const u8> = choicelist.iter()
-        .map(|c| c.inner.data_ptr())
-        .collect();
-
-    macro_rules! select_typed {
-        ($ty:ty) => {{
-            let dst = dst_ptr as *mut $ty;
-            for i in 0..size {
-                for cond_idx in 0..condlist.len() {
-                    // Condition is bool = u8
-                    let cond_val = unsafe { *(cond_ptrs[cond_idx].offset(cond_offsets[cond_idx][i]) as *const u8) };
-                    if cond_val != 0 {
-                        let val = unsafe { *(choice_ptrs[cond_idx].offset(choice_offsets[cond_idx][i]) as *const $ty) };
-                        unsafe { *dst.add(i) = val; }
-                        break;
-                    }
-                }
-            }
-        }};
-    }
-
-    match out_dtype.kind() {
-        DTypeKind::Float32 => select_typed!(f32),
-        DTypeKind::Float64 => select_typed!(f64),
-        DTypeKind::Int32 => select_typed!(i32),
-        DTypeKind::Int64 => select_typed!(i64),
-        DTypeKind::Uint32 => select_typed!(u32),
-        DTypeKind::Uint64 => select_typed!(u64),
-        DTypeKind::Int8 => select_typed!(i8),
-        DTypeKind::Int16 => select_typed!(i16),
-        DTypeKind::Uint8 => select_typed!(u8),
-        DTypeKind::Uint16 => select_typed!(u16),
-        DTypeKind::Bool => select_typed!(u8),
-        _ => {
-            // Complex types fallback
-            let dst_ops = out_dtype.ops();
-            for i in 0..size {
-                for cond_idx in 0..condlist.len() {
-                    let cond_val = unsafe { *(cond_ptrs[cond_idx].offset(cond_offsets[cond_idx][i]) as *const u8) };
-                    if cond_val != 0 {
-                        let choice = &choicelist[cond_idx].inner;
-                        let choice_dtype = choice.dtype();
-                        let val = unsafe { choice_dtype.ops().read_f64(choice_ptrs[cond_idx], choice_offsets[cond_idx][i]) }.unwrap_or(0.0);
-                        unsafe { dst_ops.write_f64(dst_ptr, i, val); }
-                        break;
-                    }
-                }
+    let dst_ops = out_dtype.ops();
+
+    // The first true condition wins, so assign in reverse
+    for (cond, choice) in condlist.iter().zip(&choicelist).rev() {
+        let cond = cond.inner.broadcast_to(&shape).expect("shape is the common shape");
+        let choice = choice.inner.astype(out_dtype.clone()).broadcast_to(&shape)
+            .expect("shape is the common shape");
+        let cond_dtype = cond.dtype();
+        for (i, (c, x)) in cond.iter_offsets().zip(choice.iter_offsets()).enumerate() {
+            if unsafe { cond_dtype.ops().is_truthy(cond.data_ptr(), c) } {
+                unsafe { dst_ops.copy_element(choice.data_ptr(), x, dst_ptr, i); }
             }
         }
     }
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 88e4660..213b0f0 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -607,7 +607,8 @@ impl PyRumpyArray {
     /// Take elements from an array along an axis.
     /// If axis is None, the array is flattened before taking.
     #[pyo3(signature = (indices, axis=None))]
-    fn take(&self, indices: &PyRumpyArray, axis: Option<usize>) -> PyResult<Self> {
+    fn take(&self, indices: &PyRumpyArray, axis: Option<isize>) -> PyResult<Self> {
+        let axis = axis.map(|ax| super::reductions::normalize_axis(ax, self.inner.ndim())).transpose()?;
         let (arr, ax) = match axis {
             None => (self.inner.copy().reshape(vec![self.inner.size()]).unwrap(), 0),
             Some(ax) => (self.inner.clone(), ax),
@@ -620,8 +621,8 @@ impl PyRumpyArray {
     /// Set values at indices (in-place).
     fn put(&mut self, indices: &Bound<'_, PyAny>, values: &Bound<'_, PyAny>) -> PyResult<()> {
         let idx_vec = extract_i64_vec(indices, "indices")?;
-        let val_vec = extract_f64_vec(values, "values")?;
-        crate::ops::indexing::put(&mut self.inner, &idx_vec, &val_vec)
+        let values = extract_values(values, "values")?;
+        crate::ops::indexing::put(&mut self.inner, &idx_vec, &values)
             .ok_or_else(|| pyo3::exceptions::PyIndexError::new_err("index out of bounds"))
     }
 
@@ -803,7 +804,8 @@ impl PyRumpyArray {
 
     /// Select elements using a boolean condition array.
     #[pyo3(signature = (condition, axis=None))]
-    fn compress(&self, condition: &Bound<'_, PyAny>, axis: Option<usize>) -> PyResult<Self> {
+    fn compress(&self, condition: &Bound<'_, PyAny>, axis: Option<isize>) -> PyResult<Self> {
+        let axis = axis.map(|ax| super::reductions::normalize_axis(ax, self.inner.ndim())).transpose()?;
         // Extract condition as bool vec
         let cond_vec: Vec<bool> = if let Ok(list) = condition.downcast::<PyList>() {
             list.iter().map(|x| x.extract::<bool>()).collect::<PyResult<Vec<_>>>()?
@@ -1009,16 +1011,20 @@ fn extract_i64_vec(obj: &Bound<'_, PyAny>, name: &str) -> PyResult<Vec<i64>> {
     }
 }
 
-/// Extract f64 values from a Python list or array.
-fn extract_f64_vec(obj: &Bound<'_, PyAny>, name: &str) -> PyResult<Vec<f64>> {
-    if let Ok(list) = obj.downcast::<PyList>() {
-        list.iter().map(|x| x.extract::<f64>()).collect()
-    } else if let Ok(arr) = obj.extract::<PyRef<'_, PyRumpyArray>>() {
-        Ok(arr.inner.iter_offsets()
-            .map(|offset| unsafe { arr.inner.dtype().ops().read_f64(arr.inner.data_ptr(), offset) }.unwrap_or(0.0))
-            .collect())
+/// Extract values to be stored from a Python number, list or array.
+pub(crate) fn extract_values(obj: &Bound<'_, PyAny>, name: &str) -> PyResult<RumpyArray> {
+    if let Ok(arr) = obj.extract::<PyRef<'_, PyRumpyArray>>() {
+        Ok(arr.inner.clone())
+    } else if let Ok(list) = obj.extract::<Vec<i64>>() {
+        Ok(RumpyArray::from_slice_i64(&list))
+    } else if let Ok(list) = obj.extract::<Vec<f64>>() {
+        Ok(RumpyArray::from_vec(list, DType::float64()))
+    } else if let Ok(value) = obj.extract::<i64>() {
+        Ok(RumpyArray::from_slice_i64(&[value]))
+    } else if let Ok(value) = obj.extract::<f64>() {
+        Ok(RumpyArray::from_vec(vec![value], DType::float64()))
     } else {
-        Err(pyo3::exceptions::PyTypeError::new_err(format!("{} must be list or array", name)))
+        Err(pyo3::exceptions::PyTypeError::new_err(format!("{} must be number, list or array", name)))
     }
 }
 
-- 
2.43.0


From bfa194c8c81f2945fdc10389d4d48da821ef59a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:27 +0000
Subject: [PATCH 29/81] fix: scalars stored by item assignment, fill and full
 keep their exact value

---
 src/python/creation.rs            |   8 +--
 src/python/indexing.rs            |  12 ++--
 src/python/pyarray/dunder_item.rs |  20 +++---
 src/python/pyarray/mod.rs         | 110 +++++++++++-------------------
 4 files changed, 55 insertions(+), 95 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index fb40d24..e02e468 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -73,10 +73,10 @@ pub fn eye(n: usize, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray>
 /// Create array filled with given value.
 #[pyfunction]
 #[pyo3(signature = (shape, fill_value, dtype=None))]
-pub fn full(shape: &Bound<'_, PyAny>, fill_value: f64, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
+pub fn full(shape: &Bound<'_, PyAny>, fill_value: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let shape = parse_shape(shape)?;
     let dtype = resolve_dtype(dtype, "float64")?;
-    Ok(PyRumpyArray::new(RumpyArray::full(shape, fill_value, dtype)))
+    Ok(PyRumpyArray::new(super::pyarray::scalar_for(fill_value, &dtype)?.broadcast_to(&shape).expect("a scalar broadcasts").copy()))
 }
 
 /// Create uninitialized array.
@@ -129,13 +129,13 @@ pub fn empty_like(a: &PyRumpyArray, dtype: Option<&Bound<'_, PyAny>>) -> PyResul
 /// Create array filled with given value, with same shape and dtype as input.
 #[pyfunction]
 #[pyo3(signature = (a, fill_value, dtype=None))]
-pub fn full_like(a: &PyRumpyArray, fill_value: f64, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
+pub fn full_like(a: &PyRumpyArray, fill_value: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let shape = a.inner.shape().to_vec();
     let dtype = match dtype {
         Some(dt) => parse_dtype_any(&dt)?,
         None => a.inner.dtype(),
     };
-    Ok(PyRumpyArray::new(RumpyArray::full(shape, fill_value, dtype)))
+    Ok(PyRumpyArray::new(super::pyarray::scalar_for(fill_value, &dtype)?.broadcast_to(&shape).expect("a scalar broadcasts").copy()))
 }
 
 /// Create an n x n identity matrix.
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index 261e4a0..cc50962 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -800,14 +800,10 @@ pub fn fill_diagonal(
 
     // Convert val to a RumpyArray to handle all dtypes uniformly
     let val_arr: RumpyArray = if let Ok(arr) = val.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        // Cast to target dtype if needed
-        if arr.inner.dtype().ops().name() != a.inner.dtype().ops().name() {
-            arr.inner.astype(a.inner.dtype())
-        } else {
-            arr.inner.clone()
-        }
-    } else if let Ok(scalar) = val.extract::<f64>() {
-        RumpyArray::from_vec(vec![scalar], a.inner.dtype().clone())
+        // Contiguous copy in the target dtype
+        arr.inner.astype(a.inner.dtype())
+    } else if val.extract::<f64>().is_ok() {
+        super::pyarray::scalar_for(val, &a.inner.dtype())?
     } else if let Ok(list) = val.extract::<Vec<f64>>() {
         RumpyArray::from_vec(list, a.inner.dtype().clone())
     } else {
diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index 27a76ec..bb6a1af 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -4,7 +4,7 @@ use pyo3::prelude::*;
 use pyo3::types::{PyEllipsis, PyList, PySlice, PyTuple};
 
 use super::{
-    expand_ellipsis, extract_slice_indices, fill_view, normalize_index, normalize_slice,
+    expand_ellipsis, extract_slice_indices, fill_view, normalize_index, normalize_slice, scalar_for,
     IndexItem, PyRumpyArray,
 };
 use crate::array::RumpyArray;
@@ -190,12 +190,10 @@ impl PyRumpyArray {
 
     /// Item assignment (slice or element).
     fn __setitem__(&self, key: &Bound<'_, PyAny>, value: &Bound<'_, PyAny>) -> PyResult<()> {
-        // Extract value as scalar or array (an array is never read through __float__,
-        // and may be this very object)
-        let value_array = value.extract::<PyRef<'_, PyRumpyArray>>().ok();
-        let value_scalar = match value_array {
-            Some(_) => None,
-            None => value.extract::<f64>().ok(),
+        // An array is never read through __float__, and may be this very object
+        let value = match value.extract::<PyRef<'_, PyRumpyArray>>() {
+            Ok(array) => array.inner.clone(),
+            Err(_) => scalar_for(value, &self.inner.dtype())?,
         };
 
         // Handle tuple for multi-dimensional indexing
@@ -219,14 +217,14 @@ impl PyRumpyArray {
                     .fold(self.inner.clone(), |v, &idx| {
                         v.slice_axis(0, idx as isize, idx as isize + 1, 1).squeeze_axis(0)
                     });
-                return fill_view(&mut view, value_scalar, value_array.as_deref());
+                return fill_view(&mut view, &value);
             }
 
             // Slice assignment - get view and fill
             let items = expand_ellipsis(tuple, self.inner.ndim())?;
             let mut view = self.index_view(&items)?;
 
-            return fill_view(&mut view, value_scalar, value_array.as_deref());
+            return fill_view(&mut view, &value);
         }
 
         // Handle single integer index (row assignment for 2D+, or single element for 1D)
@@ -238,14 +236,14 @@ impl PyRumpyArray {
                 .inner
                 .slice_axis(0, idx as isize, idx as isize + 1, 1)
                 .squeeze_axis(0);
-            return fill_view(&mut view, value_scalar, value_array.as_deref());
+            return fill_view(&mut view, &value);
         }
 
         // Handle single slice
         if let Ok(slice) = key.downcast::<PySlice>() {
             let (start, stop, step) = extract_slice_indices(slice, self.first_axis_len()?)?;
             let mut view = self.inner.slice_axis(0, start, stop, step);
-            return fill_view(&mut view, value_scalar, value_array.as_deref());
+            return fill_view(&mut view, &value);
         }
 
         Err(pyo3::exceptions::PyTypeError::new_err(
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 213b0f0..22ff457 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -536,7 +536,7 @@ impl PyRumpyArray {
     fn sort(&mut self, axis: isize) -> PyResult<()> {
         let ax = crate::python::reductions::normalize_axis(axis, self.inner.ndim())?;
         let sorted = Self::new(self.inner.sort(Some(ax)));
-        fill_view(&mut self.inner.clone(), None, Some(&sorted))
+        fill_view(&mut self.inner.clone(), &sorted.inner)
     }
 
     /// Find indices where elements should be inserted to maintain order.
@@ -627,38 +627,12 @@ impl PyRumpyArray {
     }
 
     /// Fill the array with a scalar value (in-place).
-    fn fill(&mut self, value: f64) {
-        let size = self.inner.size();
-        if size == 0 {
-            return;
-        }
-
-        // Fast path: contiguous float64 - direct slice fill
-        if self.inner.is_c_contiguous() && self.inner.dtype().ops().name() == "float64" {
-            let ptr = self.inner.data_ptr_mut() as *mut f64;
-            let slice = unsafe { std::slice::from_raw_parts_mut(ptr, size) };
-            slice.fill(value);
-            return;
-        }
-
-        // Fast path: other contiguous types
-        if self.inner.is_c_contiguous() {
-            let dtype = self.inner.dtype();
-            let ptr = self.inner.data_ptr_mut();
-            let ops = dtype.ops();
-            for i in 0..size {
-                unsafe { ops.write_f64(ptr, i, value); }
-            }
-        } else {
-            // Slow path: strided iteration
-            let ndim = self.inner.ndim();
-            let shape = self.inner.shape().to_vec();
-            let mut indices = vec![0usize; ndim];
-            for _ in 0..size {
-                self.inner.set_element(&indices, value);
-                crate::array::increment_indices(&mut indices, &shape);
-            }
-        }
+    fn fill(&mut self, value: &Bound<'_, PyAny>) -> PyResult<()> {
+        let value = match value.extract::<PyRef<'_, PyRumpyArray>>() {
+            Ok(array) => array.inner.clone(),
+            Err(_) => scalar_for(value, &self.inner.dtype())?,
+        };
+        fill_view(&mut self.inner, &value)
     }
 
     /// Return the array data as a bytes object.
@@ -917,7 +891,7 @@ impl PyRumpyArray {
         let axis = crate::python::reductions::normalize_axis(-1, self.inner.ndim())?;
         crate::python::indexing::check_kth(&self.inner, kth, Some(axis))?;
         let partitioned = Self::new(self.inner.partition(kth, Some(axis)));
-        fill_view(&mut self.inner.clone(), None, Some(&partitioned))
+        fill_view(&mut self.inner.clone(), &partitioned.inner)
     }
 
     /// Return indices that would partition the array.
@@ -1129,47 +1103,39 @@ fn expand_ellipsis(tuple: &Bound<'_, PyTuple>, ndim: usize) -> PyResult<Vec<Inde
     Ok(items)
 }
 
-/// Fill a view with a scalar or array value.
-fn fill_view(
-    view: &mut RumpyArray,
-    scalar: Option<f64>,
-    array: Option<&PyRumpyArray>,
-) -> PyResult<()> {
-    use crate::array::increment_indices;
-
-    if let Some(val) = scalar {
-        // Fill with scalar
-        let mut indices = vec![0usize; view.ndim()];
-        let shape = view.shape().to_vec();
-        for _ in 0..view.size() {
-            view.set_element(&indices, val);
-            increment_indices(&mut indices, &shape);
-        }
-        Ok(())
-    } else if let Some(src) = array {
-        // Broadcast the source, ignoring extra leading axes of length one
-        let mut src = src.inner.clone();
-        while src.ndim() > view.ndim() && src.shape()[0] == 1 {
-            src = src.squeeze_axis(0);
+/// 0-d array holding a Python scalar to be stored in an array of dtype `dtype`.
+pub(crate) fn scalar_for(value: &Bound<'_, PyAny>, dtype: &DType) -> PyResult<RumpyArray> {
+    use crate::array::dtype::DTypeKind;
+    let is_complex = |d: &DType| matches!(d.kind(), DTypeKind::Complex64 | DTypeKind::Complex128);
+    match weak_scalar(value, dtype)? {
+        Some(scalar) if is_complex(&scalar.dtype()) && !is_complex(dtype) => {
+            Err(pyo3::exceptions::PyTypeError::new_err("cannot store a complex value in a real array"))
         }
-        let src = src.broadcast_to(view.shape()).ok_or_else(|| {
-            pyo3::exceptions::PyValueError::new_err("could not broadcast input array to shape")
-        })?;
-        // Private copy in the target dtype: the source may overlap the view
-        let src = src.astype(view.dtype());
-        let dtype = view.dtype();
-        let dst_ptr = view.data_ptr_mut();
-        for (src_offset, dst_offset) in src.iter_offsets().zip(view.iter_offsets()) {
-            unsafe {
-                dtype.ops().copy_element(src.data_ptr(), src_offset, dst_ptr.offset(dst_offset), 0);
-            }
+        Some(scalar) => Ok(scalar.astype(dtype.clone())),
+        None => Err(pyo3::exceptions::PyTypeError::new_err("value must be a number or array")),
+    }
+}
+
+/// Fill a view with the (broadcast) elements of an array.
+fn fill_view(view: &mut RumpyArray, src: &RumpyArray) -> PyResult<()> {
+    // Broadcast the source, ignoring extra leading axes of length one
+    let mut src = src.clone();
+    while src.ndim() > view.ndim() && src.shape()[0] == 1 {
+        src = src.squeeze_axis(0);
+    }
+    let src = src.broadcast_to(view.shape()).ok_or_else(|| {
+        pyo3::exceptions::PyValueError::new_err("could not broadcast input array to shape")
+    })?;
+    // Private copy in the target dtype: the source may overlap the view
+    let src = src.astype(view.dtype());
+    let dtype = view.dtype();
+    let dst_ptr = view.data_ptr_mut();
+    for (src_offset, dst_offset) in src.iter_offsets().zip(view.iter_offsets()) {
+        unsafe {
+            dtype.ops().copy_element(src.data_ptr(), src_offset, dst_ptr.offset(dst_offset), 0);
         }
-        Ok(())
-    } else {
-        Err(pyo3::exceptions::PyTypeError::new_err(
-            "value must be a number or array",
-        ))
     }
+    Ok(())
 }
 
 /// Check if an array qualifies for temporary elision (in-place buffer reuse).
-- 
2.43.0


From 8f31923ebef3613f916634ba218acd12fe186c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:38 +0000
Subject: [PATCH 30/81] fix: all() over an empty axis is true for every dtype

---
 src/ops/array_methods/logical.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/array_methods/logical.rs b/src/ops/array_methods/logical.rs
index c8c6e89..0af3e9c 100644
--- a/src/ops/array_methods/logical.rs
+++ b/src/ops/array_methods/logical.rs
@@ -52,7 +52,7 @@ impl RumpyArray {
 
         let mut result = RumpyArray::zeros(out_shape.clone(), DType::bool());
         let out_size = result.size();
-        if out_size == 0 || axis_len == 0 {
+        if out_size == 0 {
             return result;
         }
 
-- 
2.43.0


From 37c2acb26acb11af63e5a354be328427edcfa993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:16 +0000
Subject: [PATCH 31/81] fix: rearranging and joining keep every element type
 exact, normalise negative axes, and reject out-of-range ones

---
 src/array/manipulation.rs |  91 +++++++++++++---------------
 src/array/views.rs        |   5 --
 src/python/pyarray/mod.rs |  86 +++++---------------------
 src/python/shape.rs       | 123 +++++++++++++++++++++++---------------
 4 files changed, 132 insertions(+), 173 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index e55f5d8..25f17c3 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -35,9 +35,8 @@ pub fn concatenate(arrays: &[RumpyArray], axis: usize) -> Option<RumpyArray> {
     let mut out_shape = first.shape().to_vec();
     out_shape[axis] = arrays.iter().map(|a| a.shape()[axis]).sum();
 
-    // Use dtype of first array (TODO: dtype promotion)
-    let dtype = first.dtype();
-    let mut result = RumpyArray::zeros(out_shape, dtype);
+    let dtype = arrays.iter().skip(1).fold(first.dtype(), |d, a| super::promote_dtype(&d, &a.dtype()));
+    let mut result = RumpyArray::zeros(out_shape, dtype.clone());
 
     if result.size() == 0 {
         return Some(result);
@@ -50,6 +49,13 @@ pub fn concatenate(arrays: &[RumpyArray], axis: usize) -> Option<RumpyArray> {
     // Copy data from each array
     let mut axis_offset = 0usize;
     for arr in arrays {
+        let converted;
+        let arr = if arr.dtype() == dtype {
+            arr
+        } else {
+            converted = arr.astype(dtype.clone());
+            &converted
+        };
         let size = arr.size();
         let src_ptr = arr.data_ptr();
         let mut src_indices = vec![0usize; ndim];
@@ -885,10 +891,6 @@ fn linear_index(indices: &[usize], shape: &[usize]) -> usize {
 /// Repeat elements of an array.
 /// If axis is None, flatten and repeat. Otherwise repeat along axis.
 pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<RumpyArray> {
-    if repeats == 0 {
-        return Some(RumpyArray::zeros(vec![0], arr.dtype()));
-    }
-
     match axis {
         None => {
             // Flatten and repeat each element
@@ -898,7 +900,6 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
             let mut result = RumpyArray::zeros(vec![new_size], src_dtype.clone());
 
             let src_ptr = arr.data_ptr();
-            let src_ops = src_dtype.ops();
             let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
@@ -906,9 +907,8 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
 
             let mut dst_idx = 0;
             for offset in arr.iter_offsets() {
-                let val = unsafe { src_ops.read_f64(src_ptr, offset) }.unwrap_or(0.0);
                 for _ in 0..repeats {
-                    unsafe { dst_ops.write_f64(dst_ptr, dst_idx, val); }
+                    unsafe { dst_ops.copy_element(src_ptr, offset, dst_ptr, dst_idx); }
                     dst_idx += 1;
                 }
             }
@@ -928,7 +928,6 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
             let mut result = RumpyArray::zeros(new_shape.clone(), src_dtype.clone());
 
             let src_ptr = arr.data_ptr();
-            let src_ops = src_dtype.ops();
             let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
@@ -942,15 +941,13 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
             let size = arr.size();
             for _ in 0..size {
                 let src_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_offset) }.unwrap_or(0.0);
-
                 // Write this value `repeats` times along the axis
                 dst_indices.copy_from_slice(&src_indices);
                 let base_axis_idx = src_indices[axis] * repeats;
                 for r in 0..repeats {
                     dst_indices[axis] = base_axis_idx + r;
                     let dst_offset = linear_index(&dst_indices, &new_shape);
-                    unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+                    unsafe { dst_ops.copy_element(src_ptr, src_offset, dst_ptr, dst_offset); }
                 }
 
                 increment_indices(&mut src_indices, src_shape);
@@ -963,7 +960,7 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
 
 /// Construct array by repeating input array by given reps.
 pub fn tile(arr: &RumpyArray, reps: &[usize]) -> RumpyArray {
-    if reps.is_empty() || reps.iter().all(|&r| r == 1) {
+    if reps.is_empty() {
         return arr.copy();
     }
 
@@ -1012,7 +1009,6 @@ pub fn tile(arr: &RumpyArray, reps: &[usize]) -> RumpyArray {
     }
 
     let src_ptr = arr.data_ptr();
-    let src_ops = src_dtype.ops();
     let dst_dtype = result.dtype();
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
@@ -1037,11 +1033,9 @@ pub fn tile(arr: &RumpyArray, reps: &[usize]) -> RumpyArray {
             src_indices
         };
         let src_byte_offset = arr.byte_offset_for(&actual_src_indices);
-        let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
-
         // Destination offset (result is C-contiguous, so use linear index)
         let dst_offset = linear_index(&dst_indices, &new_shape);
-        unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+        unsafe { dst_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
         // Increment destination indices
         if i + 1 < dst_size {
@@ -1083,13 +1077,18 @@ pub fn append(arr: &RumpyArray, values: &RumpyArray, axis: Option<isize>) -> Opt
 /// Insert values into array at given index.
 /// If axis is None, flatten first.
 pub fn insert(arr: &RumpyArray, index: isize, values: &RumpyArray, axis: Option<isize>) -> Option<RumpyArray> {
+    // Inserted values take the array's dtype
+    let values = &values.astype(arr.dtype());
     match axis {
         None => {
             // Flatten
             let flat = ravel_arr(arr);
             let size = flat.size();
-            let idx = if index < 0 { (size as isize + index + 1).max(0) as usize } else { index as usize };
-            let idx = idx.min(size);
+            let idx = if index < 0 { size as isize + index } else { index };
+            if idx < 0 || idx as usize > size {
+                return None;
+            }
+            let idx = idx as usize;
 
             // Split at index, insert, concatenate
             let before = if idx > 0 { flat.slice_axis(0, 0, idx as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
@@ -1106,15 +1105,22 @@ pub fn insert(arr: &RumpyArray, index: isize, values: &RumpyArray, axis: Option<
             }
 
             let axis_len = arr.shape()[axis];
-            let idx = if index < 0 { (axis_len as isize + index + 1).max(0) as usize } else { index as usize };
-            let idx = idx.min(axis_len);
+            let idx = if index < 0 { axis_len as isize + index } else { index };
+            if idx < 0 || idx as usize > axis_len {
+                return None;
+            }
+            let idx = idx as usize;
 
             let before = arr.slice_axis(axis, 0, idx as isize, 1);
             let after = arr.slice_axis(axis, idx as isize, axis_len as isize, 1);
 
             // Values need to be reshaped to match
             let mut val_shape = arr.shape().to_vec();
-            val_shape[axis] = values.size() / (arr.size() / axis_len).max(1);
+            val_shape[axis] = 1;
+            let slice_size: usize = val_shape.iter().product();
+            if slice_size > 0 {
+                val_shape[axis] = values.size() / slice_size;
+            }
             let vals_reshaped = values.reshape(val_shape).unwrap_or_else(|| values.clone());
 
             concatenate(&[before, vals_reshaped, after], axis)
@@ -1129,13 +1135,11 @@ pub fn delete(arr: &RumpyArray, index: isize, axis: Option<isize>) -> Option<Rum
         None => {
             let flat = ravel_arr(arr);
             let size = flat.size();
-            if size == 0 {
-                return Some(flat);
-            }
-            let idx = if index < 0 { (size as isize + index).max(0) as usize } else { index as usize };
-            if idx >= size {
-                return Some(flat);
+            let idx = if index < 0 { size as isize + index } else { index };
+            if idx < 0 || idx as usize >= size {
+                return None;
             }
+            let idx = idx as usize;
 
             let before = if idx > 0 { flat.slice_axis(0, 0, idx as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
             let after = if idx + 1 < size { flat.slice_axis(0, (idx + 1) as isize, size as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
@@ -1150,13 +1154,11 @@ pub fn delete(arr: &RumpyArray, index: isize, axis: Option<isize>) -> Option<Rum
             }
 
             let axis_len = arr.shape()[axis];
-            if axis_len == 0 {
-                return Some(arr.clone());
-            }
-            let idx = if index < 0 { (axis_len as isize + index).max(0) as usize } else { index as usize };
-            if idx >= axis_len {
-                return Some(arr.clone());
+            let idx = if index < 0 { axis_len as isize + index } else { index };
+            if idx < 0 || idx as usize >= axis_len {
+                return None;
             }
+            let idx = idx as usize;
 
             let before = arr.slice_axis(axis, 0, idx as isize, 1);
             let after = arr.slice_axis(axis, (idx + 1) as isize, axis_len as isize, 1);
@@ -1189,7 +1191,6 @@ pub fn pad(arr: &RumpyArray, pad_width: &[(usize, usize)], mode: &str, constant_
         "edge" => {
             let src_dtype = arr.dtype();
             let mut result = RumpyArray::zeros(new_shape.clone(), src_dtype.clone());
-            let src_ops = src_dtype.ops();
             let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
@@ -1212,9 +1213,8 @@ pub fn pad(arr: &RumpyArray, pad_width: &[(usize, usize)], mode: &str, constant_
                     .collect();
 
                 let src_byte_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
                 let dst_offset = linear_index(&dst_indices, &new_shape);
-                unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+                unsafe { dst_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
                 increment_indices(&mut dst_indices, &new_shape);
             }
@@ -1231,8 +1231,6 @@ fn copy_region(src: &RumpyArray, dst: &mut RumpyArray, pad_width: &[(usize, usiz
     let src_shape = src.shape();
 
     let src_ptr = src.data_ptr();
-    let src_dtype = src.dtype();
-    let src_ops = src_dtype.ops();
     let dst_dtype = dst.dtype();
     let buffer = Arc::get_mut(dst.buffer_mut()).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
@@ -1249,10 +1247,8 @@ fn copy_region(src: &RumpyArray, dst: &mut RumpyArray, pad_width: &[(usize, usiz
             .collect();
 
         let src_byte_offset = src.byte_offset_for(&src_indices);
-        let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
-
         let dst_offset = linear_index(&dst_indices, dst_shape);
-        unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+        unsafe { dst_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
         increment_indices(&mut src_indices, src_shape);
     }
@@ -1265,7 +1261,7 @@ pub fn roll(arr: &RumpyArray, shift: isize, axis: Option<isize>) -> RumpyArray {
         None => {
             // Flatten, roll, reshape back to original shape
             let original_shape = arr.shape().to_vec();
-            let flat = ravel_arr(arr);
+            let flat = arr.copy();
             let size = flat.size();
             if size == 0 {
                 return arr.copy();
@@ -1329,7 +1325,6 @@ pub fn roll(arr: &RumpyArray, shift: isize, axis: Option<isize>) -> RumpyArray {
             let src_dtype = arr.dtype();
             let mut result = RumpyArray::zeros(result_shape.clone(), src_dtype.clone());
             let src_ptr = arr.data_ptr();
-            let src_ops = src_dtype.ops();
             let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
@@ -1344,10 +1339,8 @@ pub fn roll(arr: &RumpyArray, shift: isize, axis: Option<isize>) -> RumpyArray {
                 src_indices[axis] = (dst_indices[axis] + axis_len - shift) % axis_len;
 
                 let src_byte_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
-
                 let dst_offset = linear_index(&dst_indices, &result_shape);
-                unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+                unsafe { dst_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
                 increment_indices(&mut dst_indices, arr.shape());
             }
diff --git a/src/array/views.rs b/src/array/views.rs
index 10a9c0b..0a7d4d5 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -175,11 +175,6 @@ impl RumpyArray {
             .map(|(_, &s)| s)
             .collect();
 
-        // Handle scalar case (all dims were 1)
-        if new_shape.is_empty() && self.size() == 1 {
-            return self.view_with(0, vec![1], vec![self.itemsize() as isize]);
-        }
-
         self.view_with(0, new_shape, new_strides)
     }
 
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 22ff457..1878d1f 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -401,18 +401,18 @@ impl PyRumpyArray {
     }
 
     /// Extract diagonal from 2D array.
-    fn diagonal(&self) -> Self {
-        Self::new(self.inner.diagonal())
+    fn diagonal(&self) -> PyResult<Self> {
+        crate::python::shape::diagonal(self)
     }
 
     /// Sum of diagonal elements.
-    fn trace(&self) -> f64 {
-        self.inner.trace()
+    fn trace(&self) -> PyResult<f64> {
+        crate::python::linalg::trace(self)
     }
 
     /// Swap two axes.
-    fn swapaxes(&self, axis1: usize, axis2: usize) -> Self {
-        Self::new(self.inner.swapaxes(axis1, axis2))
+    fn swapaxes(&self, axis1: isize, axis2: isize) -> PyResult<Self> {
+        crate::python::shape::swapaxes(self, axis1, axis2)
     }
 
     /// Create a contiguous copy of the array.
@@ -552,56 +552,8 @@ impl PyRumpyArray {
 
     /// Repeat elements of an array.
     #[pyo3(signature = (repeats, axis=None))]
-    fn repeat(&self, repeats: usize, axis: Option<usize>) -> PyResult<Self> {
-        let arr = &self.inner;
-        let dtype = arr.dtype();
-
-        // For axis=None, flatten first; for axis=Some, validate bounds
-        let (src, ax) = match axis {
-            None => (arr.copy().reshape(vec![arr.size()]).unwrap(), 0usize),
-            Some(ax) => {
-                if ax >= arr.ndim() {
-                    return Err(pyo3::exceptions::PyValueError::new_err(format!(
-                        "axis {} is out of bounds for array of dimension {}",
-                        ax, arr.ndim()
-                    )));
-                }
-                (arr.clone(), ax)
-            }
-        };
-
-        let shape = src.shape();
-        let mut new_shape = shape.to_vec();
-        new_shape[ax] *= repeats;
-
-        let mut result = RumpyArray::zeros(new_shape.clone(), dtype.clone());
-        let result_buffer = std::sync::Arc::get_mut(result.buffer_mut()).expect("unique");
-        let result_ptr = result_buffer.as_mut_ptr();
-
-        // Fast path for 1D contiguous
-        if src.ndim() == 1 && src.is_c_contiguous() {
-            let src_ptr = src.data_ptr();
-            let itemsize = dtype.itemsize();
-            for i in 0..shape[0] {
-                let val = unsafe { dtype.ops().read_f64(src_ptr, (i * itemsize) as isize) }.unwrap_or(0.0);
-                let base = i * repeats;
-                for j in 0..repeats {
-                    unsafe { dtype.ops().write_f64(result_ptr, base + j, val); }
-                }
-            }
-        } else {
-            // General case
-            let mut out_indices = vec![0usize; src.ndim()];
-            for i in 0..result.size() {
-                let mut src_indices = out_indices.clone();
-                src_indices[ax] /= repeats;
-                let val = src.get_element(&src_indices);
-                unsafe { dtype.ops().write_f64(result_ptr, i, val); }
-                crate::array::increment_indices(&mut out_indices, &new_shape);
-            }
-        }
-
-        Ok(Self::new(result))
+    fn repeat(&self, repeats: usize, axis: Option<isize>) -> PyResult<Self> {
+        crate::python::shape::repeat(self, repeats, axis)
     }
 
     /// Take elements from an array along an axis.
@@ -817,22 +769,19 @@ impl PyRumpyArray {
     #[pyo3(signature = (*args))]
     fn resize(&mut self, args: &Bound<'_, PyTuple>) -> PyResult<()> {
         let new_shape = parse_reshape_args_isize(args)?;
+        if new_shape.iter().any(|&d| d < 0) {
+            return Err(pyo3::exceptions::PyValueError::new_err(
+                "all elements of new shape must be non-negative",
+            ));
+        }
         let new_shape: Vec<usize> = new_shape.iter().map(|&d| d as usize).collect();
         let new_size: usize = new_shape.iter().product();
-        let old_size = self.inner.size();
 
         if new_size == 0 {
             self.inner = RumpyArray::zeros(new_shape, self.inner.dtype());
             return Ok(());
         }
 
-        // Collect current data
-        let mut data: Vec<f64> = Vec::with_capacity(old_size);
-        for offset in self.inner.iter_offsets() {
-            let val = unsafe { self.inner.dtype().ops().read_f64(self.inner.data_ptr(), offset) }.unwrap_or(0.0);
-            data.push(val);
-        }
-
         // Create new array - starts as zeros
         let dtype = self.inner.dtype();
         let mut result = RumpyArray::zeros(new_shape, dtype.clone());
@@ -840,13 +789,10 @@ impl PyRumpyArray {
         let ptr = buffer.as_mut_ptr();
         let ops = dtype.ops();
 
-        // Copy old data (up to min(old_size, new_size))
-        let copy_count = old_size.min(new_size);
-        for i in 0..copy_count {
-            let val = data[i];
-            unsafe { ops.write_f64(ptr, i, val); }
+        // Copy old data (up to min(old_size, new_size)); the extra space stays zero
+        for (i, offset) in self.inner.iter_offsets().take(new_size).enumerate() {
+            unsafe { ops.copy_element(self.inner.data_ptr(), offset, ptr, i); }
         }
-        // Extra space is already zeros from RumpyArray::zeros
 
         self.inner = result;
         Ok(())
diff --git a/src/python/shape.rs b/src/python/shape.rs
index 2890b4e..9eb6aad 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -4,7 +4,7 @@ use pyo3::prelude::*;
 use pyo3::types::PyList;
 
 use crate::array::{DType, RumpyArray};
-use super::{PyRumpyArray, creation, reductions::resolve_axis};
+use super::{PyRumpyArray, creation, reductions::normalize_axis};
 
 /// Convert a Python object to RumpyArray (for concatenate, etc.)
 pub fn to_rumpy_array(obj: &Bound<'_, pyo3::PyAny>) -> PyResult<RumpyArray> {
@@ -51,6 +51,11 @@ pub fn reshape(a: &PyRumpyArray, newshape: &Bound<'_, pyo3::PyAny>) -> PyResult<
 
     // Handle -1 in shape (infer dimension)
     let total = a.inner.size();
+    if newshape.iter().any(|&x| x < -1) {
+        return Err(pyo3::exceptions::PyValueError::new_err(
+            "negative dimensions not allowed"
+        ));
+    }
     let neg_one_count = newshape.iter().filter(|&&x| x == -1).count();
     if neg_one_count > 1 {
         return Err(pyo3::exceptions::PyValueError::new_err(
@@ -102,17 +107,18 @@ pub fn flatten(a: &PyRumpyArray) -> PyRumpyArray {
 /// Permute the dimensions of an array.
 #[pyfunction]
 #[pyo3(signature = (a, axes=None))]
-pub fn transpose(a: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyRumpyArray {
+pub fn transpose(a: &PyRumpyArray, axes: Option<Vec<isize>>) -> PyResult<PyRumpyArray> {
     match axes {
-        Some(ax) => PyRumpyArray::new(a.inner.transpose_axes(&ax)),
-        None => PyRumpyArray::new(a.inner.transpose()),
+        Some(ax) => permute_dims(a, ax),
+        None => Ok(PyRumpyArray::new(a.inner.transpose())),
     }
 }
 
 /// Interchange two axes of an array.
 #[pyfunction]
-pub fn swapaxes(x: &PyRumpyArray, axis1: usize, axis2: usize) -> PyRumpyArray {
-    PyRumpyArray::new(x.inner.swapaxes(axis1, axis2))
+pub fn swapaxes(x: &PyRumpyArray, axis1: isize, axis2: isize) -> PyResult<PyRumpyArray> {
+    let ndim = x.inner.ndim();
+    Ok(PyRumpyArray::new(x.inner.swapaxes(normalize_axis(axis1, ndim)?, normalize_axis(axis2, ndim)?)))
 }
 
 /// Move axes to new positions.
@@ -135,12 +141,13 @@ pub fn moveaxis(a: &PyRumpyArray, source: &Bound<'_, pyo3::PyAny>, destination:
     let ndim = a.inner.ndim();
 
     // Normalize axes
-    let src: Vec<usize> = source.iter()
-        .map(|&x| if x < 0 { (ndim as isize + x) as usize } else { x as usize })
-        .collect();
-    let dst: Vec<usize> = destination.iter()
-        .map(|&x| if x < 0 { (ndim as isize + x) as usize } else { x as usize })
-        .collect();
+    let src: Vec<usize> = source.iter().map(|&x| normalize_axis(x, ndim)).collect::<PyResult<_>>()?;
+    let dst: Vec<usize> = destination.iter().map(|&x| normalize_axis(x, ndim)).collect::<PyResult<_>>()?;
+    for axes in [&src, &dst] {
+        if axes.iter().enumerate().any(|(i, ax)| axes[..i].contains(ax)) {
+            return Err(pyo3::exceptions::PyValueError::new_err("repeated axis"));
+        }
+    }
 
     if src.len() != dst.len() {
         return Err(pyo3::exceptions::PyValueError::new_err(
@@ -152,9 +159,11 @@ pub fn moveaxis(a: &PyRumpyArray, source: &Bound<'_, pyo3::PyAny>, destination:
     // Remove source axes and insert at destination positions
     let mut order: Vec<usize> = (0..ndim).filter(|x| !src.contains(x)).collect();
 
-    // Insert source axes at destination positions
-    for (&s, &d) in src.iter().zip(dst.iter()) {
-        order.insert(d.min(order.len()), s);
+    // Insert source axes at destination positions, lowest position first
+    let mut moves: Vec<(usize, usize)> = dst.into_iter().zip(src).collect();
+    moves.sort_unstable();
+    for (d, s) in moves {
+        order.insert(d, s);
     }
 
     Ok(PyRumpyArray::new(a.inner.transpose_axes(&order)))
@@ -165,16 +174,8 @@ pub fn moveaxis(a: &PyRumpyArray, source: &Bound<'_, pyo3::PyAny>, destination:
 #[pyo3(signature = (a, axis, start=0))]
 pub fn rollaxis(a: &PyRumpyArray, axis: isize, start: isize) -> PyResult<PyRumpyArray> {
     let ndim = a.inner.ndim();
-    let axis = resolve_axis(axis, ndim);
-    let start = if start < 0 {
-        (ndim as isize + start) as usize
-    } else {
-        (start as usize).min(ndim)
-    };
-
-    if axis >= ndim {
-        return Err(pyo3::exceptions::PyValueError::new_err("axis out of bounds"));
-    }
+    let axis = normalize_axis(axis, ndim)?;
+    let start = if start == ndim as isize { ndim } else { normalize_axis(start, ndim)? };
 
     // Build permutation: move axis to start position
     let mut order: Vec<usize> = (0..ndim).collect();
@@ -230,11 +231,7 @@ pub fn atleast_3d(a: &PyRumpyArray) -> PyRumpyArray {
 #[pyfunction]
 pub fn expand_dims(arr: &PyRumpyArray, axis: isize) -> PyResult<PyRumpyArray> {
     let ndim = arr.inner.ndim();
-    let axis = if axis < 0 {
-        (ndim as isize + axis + 1) as usize
-    } else {
-        axis as usize
-    };
+    let axis = normalize_axis(axis, ndim + 1)?;
 
     arr.inner.expand_dims(axis)
         .map(PyRumpyArray::new)
@@ -308,6 +305,9 @@ pub fn broadcast_arrays(arrays: &Bound<'_, PyList>) -> PyResult<Vec<PyRumpyArray
 #[pyfunction]
 #[pyo3(signature = (arr, axis=None))]
 pub fn flip(arr: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    if let Some(axis) = axis {
+        normalize_axis(axis, arr.inner.ndim())?;
+    }
     match axis {
         None => {
             // Flip all axes
@@ -365,12 +365,13 @@ pub fn fliplr(arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// Concatenate arrays along an axis.
 #[pyfunction]
 #[pyo3(signature = (arrays, axis=0))]
-pub fn concatenate(arrays: &Bound<'_, PyList>, axis: usize) -> PyResult<PyRumpyArray> {
+pub fn concatenate(arrays: &Bound<'_, PyList>, axis: isize) -> PyResult<PyRumpyArray> {
     let mut inner_arrays: Vec<RumpyArray> = Vec::with_capacity(arrays.len());
     for item in arrays.iter() {
         inner_arrays.push(to_rumpy_array(&item)?);
     }
 
+    let axis = normalize_axis(axis, inner_arrays.first().map_or(0, |a| a.ndim()))?;
     crate::array::concatenate(&inner_arrays, axis)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
@@ -383,11 +384,12 @@ pub fn concatenate(arrays: &Bound<'_, PyList>, axis: usize) -> PyResult<PyRumpyA
 /// Stack arrays along a new axis.
 #[pyfunction]
 #[pyo3(signature = (arrays, axis=0))]
-pub fn stack(arrays: &Bound<'_, PyList>, axis: usize) -> PyResult<PyRumpyArray> {
+pub fn stack(arrays: &Bound<'_, PyList>, axis: isize) -> PyResult<PyRumpyArray> {
     let mut inner_arrays: Vec<RumpyArray> = Vec::with_capacity(arrays.len());
     for item in arrays.iter() {
         inner_arrays.push(to_rumpy_array(&item)?);
     }
+    let axis = normalize_axis(axis, inner_arrays.first().map_or(0, |a| a.ndim()) + 1)?;
     crate::array::stack(&inner_arrays, axis)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
@@ -522,7 +524,8 @@ pub fn dstack(arrays: &Bound<'_, PyList>) -> PyResult<PyRumpyArray> {
 /// Split array into equal parts.
 #[pyfunction]
 #[pyo3(signature = (arr, num_sections, axis=0))]
-pub fn split(arr: &PyRumpyArray, num_sections: usize, axis: usize) -> PyResult<Vec<PyRumpyArray>> {
+pub fn split(arr: &PyRumpyArray, num_sections: usize, axis: isize) -> PyResult<Vec<PyRumpyArray>> {
+    let axis = normalize_axis(axis, arr.inner.ndim())?;
     crate::array::split(&arr.inner, num_sections, axis)
         .map(|sections| sections.into_iter().map(PyRumpyArray::new).collect())
         .ok_or_else(|| {
@@ -535,7 +538,8 @@ pub fn split(arr: &PyRumpyArray, num_sections: usize, axis: usize) -> PyResult<V
 /// Split array into sections, allowing unequal sizes.
 #[pyfunction]
 #[pyo3(signature = (arr, num_sections, axis=0))]
-pub fn array_split(arr: &PyRumpyArray, num_sections: usize, axis: usize) -> PyResult<Vec<PyRumpyArray>> {
+pub fn array_split(arr: &PyRumpyArray, num_sections: usize, axis: isize) -> PyResult<Vec<PyRumpyArray>> {
+    let axis = normalize_axis(axis, arr.inner.ndim())?;
     crate::array::array_split(&arr.inner, num_sections, axis)
         .map(|sections| sections.into_iter().map(PyRumpyArray::new).collect())
         .ok_or_else(|| {
@@ -592,6 +596,9 @@ pub fn dsplit(arr: &PyRumpyArray, num_sections: usize) -> PyResult<Vec<PyRumpyAr
 #[pyfunction]
 #[pyo3(signature = (arr, repeats, axis=None))]
 pub fn repeat(arr: &PyRumpyArray, repeats: usize, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    if let Some(axis) = axis {
+        normalize_axis(axis, arr.inner.ndim())?;
+    }
     crate::array::repeat(&arr.inner, repeats, axis)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
@@ -625,6 +632,9 @@ pub fn tile(arr: &PyRumpyArray, reps: &Bound<'_, pyo3::PyAny>) -> PyResult<PyRum
 #[pyfunction]
 #[pyo3(signature = (arr, values, axis=None))]
 pub fn append(arr: &PyRumpyArray, values: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    if let Some(axis) = axis {
+        normalize_axis(axis, arr.inner.ndim())?;
+    }
     crate::array::append(&arr.inner, &values.inner, axis)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
@@ -636,11 +646,14 @@ pub fn append(arr: &PyRumpyArray, values: &PyRumpyArray, axis: Option<isize>) ->
 #[pyfunction]
 #[pyo3(signature = (arr, index, values, axis=None))]
 pub fn insert(arr: &PyRumpyArray, index: isize, values: &Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    if let Some(axis) = axis {
+        normalize_axis(axis, arr.inner.ndim())?;
+    }
     // Parse values - can be scalar or array
-    let values_arr = if let Ok(scalar) = values.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, arr.inner.dtype())
-    } else if let Ok(arr_ref) = values.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
+    let values_arr = if let Ok(arr_ref) = values.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
         arr_ref.inner.clone()
+    } else if values.extract::<f64>().is_ok() {
+        super::pyarray::scalar_for(values, &arr.inner.dtype())?
     } else if let Ok(list) = values.downcast::<pyo3::types::PyList>() {
         let data: Vec<f64> = list.iter().map(|x| x.extract::<f64>()).collect::<PyResult<Vec<_>>>()?;
         RumpyArray::from_vec(data, arr.inner.dtype())
@@ -661,6 +674,9 @@ pub fn insert(arr: &PyRumpyArray, index: isize, values: &Bound<'_, pyo3::PyAny>,
 #[pyfunction]
 #[pyo3(signature = (arr, index, axis=None))]
 pub fn delete(arr: &PyRumpyArray, index: isize, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    if let Some(axis) = axis {
+        normalize_axis(axis, arr.inner.ndim())?;
+    }
     crate::array::delete(&arr.inner, index, axis)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
@@ -680,7 +696,7 @@ pub fn pad(
     let pad_spec: Vec<(usize, usize)> = if let Ok(n) = pad_width.extract::<usize>() {
         vec![(n, n); arr.inner.ndim()]
     } else if let Ok(tuple) = pad_width.downcast::<pyo3::types::PyTuple>() {
-        if tuple.len() == 2 {
+        if tuple.len() == 2 && tuple.get_item(0)?.extract::<usize>().is_ok() {
             let before = tuple.get_item(0)?.extract::<usize>()?;
             let after = tuple.get_item(1)?.extract::<usize>()?;
             vec![(before, after); arr.inner.ndim()]
@@ -714,6 +730,9 @@ pub fn pad(
 #[pyfunction]
 #[pyo3(signature = (arr, shift, axis=None))]
 pub fn roll(arr: &PyRumpyArray, shift: isize, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    if let Some(axis) = axis {
+        normalize_axis(axis, arr.inner.ndim())?;
+    }
     Ok(PyRumpyArray::new(crate::array::roll(&arr.inner, shift, axis)))
 }
 
@@ -728,12 +747,8 @@ pub fn rot90(arr: &PyRumpyArray, k: isize, axes: (isize, isize)) -> PyResult<PyR
         ));
     }
 
-    let ax0 = if axes.0 < 0 { (ndim as isize + axes.0) as usize } else { axes.0 as usize };
-    let ax1 = if axes.1 < 0 { (ndim as isize + axes.1) as usize } else { axes.1 as usize };
-
-    if ax0 >= ndim || ax1 >= ndim {
-        return Err(pyo3::exceptions::PyValueError::new_err("axes out of range"));
-    }
+    let ax0 = normalize_axis(axes.0, ndim)?;
+    let ax1 = normalize_axis(axes.1, ndim)?;
     if ax0 == ax1 {
         return Err(pyo3::exceptions::PyValueError::new_err("axes must be different"));
     }
@@ -824,8 +839,11 @@ pub fn nonzero(arr: &PyRumpyArray) -> Vec<PyRumpyArray> {
 
 /// Extract diagonal.
 #[pyfunction]
-pub fn diagonal(x: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(x.inner.diagonal())
+pub fn diagonal(x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    if x.inner.ndim() != 2 {
+        return Err(pyo3::exceptions::PyValueError::new_err("diagonal requires a 2-d array"));
+    }
+    Ok(PyRumpyArray::new(x.inner.diagonal()))
 }
 
 // ============================================================================
@@ -877,14 +895,21 @@ pub fn broadcast_shapes(py: Python<'_>, shapes: &Bound<'_, pyo3::types::PyTuple>
 /// Concatenate arrays along an axis (NumPy 2.0 alias for concatenate).
 #[pyfunction]
 #[pyo3(signature = (arrays, axis=0))]
-pub fn concat(arrays: &Bound<'_, PyList>, axis: usize) -> PyResult<PyRumpyArray> {
+pub fn concat(arrays: &Bound<'_, PyList>, axis: isize) -> PyResult<PyRumpyArray> {
     concatenate(arrays, axis)
 }
 
 /// Permute the dimensions of an array (NumPy 2.0 alias for transpose).
 #[pyfunction]
-pub fn permute_dims(a: &PyRumpyArray, axes: Vec<usize>) -> PyRumpyArray {
-    PyRumpyArray::new(a.inner.transpose_axes(&axes))
+pub fn permute_dims(a: &PyRumpyArray, axes: Vec<isize>) -> PyResult<PyRumpyArray> {
+    let ndim = a.inner.ndim();
+    let axes = axes.into_iter().map(|ax| normalize_axis(ax, ndim)).collect::<PyResult<Vec<_>>>()?;
+    let mut seen = axes.clone();
+    seen.sort_unstable();
+    if seen != (0..ndim).collect::<Vec<_>>() {
+        return Err(pyo3::exceptions::PyValueError::new_err("axes don't match array"));
+    }
+    Ok(PyRumpyArray::new(a.inner.transpose_axes(&axes)))
 }
 
 /// Transpose the last two axes of an array.
-- 
2.43.0


From bb46bddf2d1edda9273ddfae8810a4be24090f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:06 +0000
Subject: [PATCH 32/81] fix: arange and full take their dtype from the
 arguments, ranges end where asked, and a zero step is rejected

---
 src/array/constructors.rs | 30 ++++++++++++++++++---
 src/array/manipulation.rs |  9 ++++++-
 src/python/creation.rs    | 55 +++++++++++++++++++++++++++++++++------
 3 files changed, 82 insertions(+), 12 deletions(-)

diff --git a/src/array/constructors.rs b/src/array/constructors.rs
index 600a701..34937db 100644
--- a/src/array/constructors.rs
+++ b/src/array/constructors.rs
@@ -3,7 +3,7 @@
 use std::sync::Arc;
 
 use super::buffer::ArrayBuffer;
-use super::dtype::DType;
+use super::dtype::{DType, DTypeKind};
 use super::flags::ArrayFlags;
 use super::{compute_c_strides, RumpyArray};
 
@@ -111,7 +111,25 @@ impl RumpyArray {
         }
     }
 
-    /// Create array with evenly spaced values [start, start+step, start+2*step, ...).
+    /// Integer range [start, start+step, ...), computed without rounding.
+    pub fn arange_int(start: i64, stop: i64, step: i64) -> Self {
+        let (start, stop, step) = (start as i128, stop as i128, step as i128);
+        let n = if step > 0 {
+            (stop - start + step - 1).div_euclid(step)
+        } else {
+            (start - stop - step - 1).div_euclid(-step)
+        };
+        let n = n.max(0) as usize;
+        let mut arr = Self::zeros(vec![n], DType::int64());
+        let buffer = Arc::get_mut(&mut arr.buffer).expect("buffer must be unique");
+        let ptr = buffer.as_mut_ptr() as *mut i64;
+        for i in 0..n {
+            unsafe { *ptr.add(i) = (start + i as i128 * step) as i64; }
+        }
+        arr
+    }
+
+    /// Create array with evenly spaced values over [start, stop).
     pub fn arange(start: f64, stop: f64, step: f64, dtype: DType) -> Self {
         let n = ((stop - start) / step).ceil().max(0.0) as usize;
         let mut arr = Self::zeros(vec![n], dtype);
@@ -146,8 +164,14 @@ impl RumpyArray {
         // step = (stop - start) / (num - 1) for num > 1, else 0
         let step = if num > 1 { (stop - start) / (num - 1) as f64 } else { 0.0 };
 
+        // Integer results round towards negative infinity
+        let integer = matches!(arr.dtype.kind(),
+            DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32 | DTypeKind::Int64
+            | DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64);
         for i in 0..num {
-            let val = start + (i as f64) * step;
+            // The last point is the endpoint itself
+            let val = if i > 0 && i == num - 1 { stop } else { start + (i as f64) * step };
+            let val = if integer { val.floor() } else { val };
             unsafe { ops.write_f64(ptr, i, val); }
         }
         arr
diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 25f17c3..4943bf5 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -504,7 +504,14 @@ pub fn geomspace(start: f64, stop: f64, num: usize, dtype: DType) -> Option<Rump
     let step = if num > 1 { (log_stop - log_start) / (num - 1) as f64 } else { 0.0 };
 
     for i in 0..num {
-        let val = sign * (log_start + (i as f64) * step).exp();
+        // Both endpoints are exact
+        let val = if i == 0 {
+            start
+        } else if i == num - 1 {
+            stop
+        } else {
+            sign * (log_start + (i as f64) * step).exp()
+        };
         unsafe { ops.write_f64(ptr, i, val); }
     }
     Some(arr)
diff --git a/src/python/creation.rs b/src/python/creation.rs
index e02e468..ca41780 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -36,16 +36,45 @@ pub fn ones(shape: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyRes
 #[pyfunction]
 #[pyo3(signature = (start_or_stop, stop=None, step=None, dtype=None))]
 pub fn arange(
-    start_or_stop: f64,
-    stop: Option<f64>,
-    step: Option<f64>,
+    start_or_stop: &Bound<'_, PyAny>,
+    stop: Option<&Bound<'_, PyAny>>,
+    step: Option<&Bound<'_, PyAny>>,
     dtype: Option<&Bound<'_, PyAny>>,
 ) -> PyResult<PyRumpyArray> {
-    let (start, stop, step) = match stop {
-        Some(stop) => (start_or_stop, stop, step.unwrap_or(1.0)),
-        None => (0.0, start_or_stop, step.unwrap_or(1.0)),
+    let (start, stop) = match stop {
+        Some(stop) => (Some(start_or_stop), stop),
+        None => (None, start_or_stop),
     };
-    let dtype = resolve_dtype(dtype, "int64")?;
+
+    // Integer arguments give an int64 range, computed without rounding
+    let as_int = |x: Option<&Bound<'_, PyAny>>, default: i64| match x {
+        Some(x) => x.extract::<i64>().ok(),
+        None => Some(default),
+    };
+    if let (Some(start), Some(stop), Some(step)) = (as_int(start, 0), as_int(Some(stop), 0), as_int(step, 1)) {
+        if step == 0 {
+            return Err(pyo3::exceptions::PyZeroDivisionError::new_err("division by zero"));
+        }
+        let dtype = resolve_dtype(dtype, "int64")?;
+        let arr = RumpyArray::arange_int(start, stop, step);
+        let arr = if dtype == DType::int64() { arr } else { arr.astype(dtype) };
+        return Ok(PyRumpyArray::new(arr));
+    }
+
+    let start = start.map_or(Ok(0.0), |x| x.extract::<f64>())?;
+    let stop = stop.extract::<f64>()?;
+    let step = step.map_or(Ok(1.0), |x| x.extract::<f64>())?;
+    if step == 0.0 {
+        return Err(pyo3::exceptions::PyZeroDivisionError::new_err("float division by zero"));
+    }
+    let length = (stop - start) / step;
+    if length.is_nan() {
+        return Err(pyo3::exceptions::PyValueError::new_err("arange: cannot compute length"));
+    }
+    if length >= isize::MAX as f64 {
+        return Err(pyo3::exceptions::PyValueError::new_err("Maximum allowed size exceeded"));
+    }
+    let dtype = resolve_dtype(dtype, "float64")?;
     Ok(PyRumpyArray::new(RumpyArray::arange(start, stop, step, dtype)))
 }
 
@@ -75,7 +104,17 @@ pub fn eye(n: usize, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray>
 #[pyo3(signature = (shape, fill_value, dtype=None))]
 pub fn full(shape: &Bound<'_, PyAny>, fill_value: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let shape = parse_shape(shape)?;
-    let dtype = resolve_dtype(dtype, "float64")?;
+    // Without a dtype the fill value decides
+    let default = if fill_value.is_instance_of::<pyo3::types::PyBool>() {
+        "bool"
+    } else if fill_value.is_instance_of::<pyo3::types::PyInt>() {
+        "int64"
+    } else if fill_value.is_instance_of::<pyo3::types::PyComplex>() {
+        "complex128"
+    } else {
+        "float64"
+    };
+    let dtype = resolve_dtype(dtype, default)?;
     Ok(PyRumpyArray::new(super::pyarray::scalar_for(fill_value, &dtype)?.broadcast_to(&shape).expect("a scalar broadcasts").copy()))
 }
 
-- 
2.43.0


From d2c2393aea7580dc1d471dcaa7b21078bbaaed6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:51 +0000
Subject: [PATCH 33/81] fix: lists keep every element's type and shape, text
 arrays keep their width, arrays have a length and a truth value

---
 src/array/dtype/mod.rs           |  10 +-
 src/array/mod.rs                 |  10 +
 src/ops/io.rs                    |  16 +-
 src/ops/mod.rs                   |  14 ++
 src/python/creation.rs           | 394 +++++++++++++------------------
 src/python/dtype.rs              |   8 +-
 src/python/pyarray/dunder_ops.rs |  16 ++
 src/python/pyarray/mod.rs        |  13 +
 8 files changed, 244 insertions(+), 237 deletions(-)

diff --git a/src/array/dtype/mod.rs b/src/array/dtype/mod.rs
index 7c56589..fd7caaa 100644
--- a/src/array/dtype/mod.rs
+++ b/src/array/dtype/mod.rs
@@ -411,8 +411,14 @@ impl DType {
     #[inline]
     pub fn itemsize(&self) -> usize { self.0.itemsize() }
 
-    #[inline]
-    pub fn typestr(&self) -> &'static str { self.0.typestr() }
+    /// NumPy typestr; text types carry their width.
+    pub fn typestr(&self) -> String {
+        match self.kind() {
+            DTypeKind::Str(max_chars) => format!("<U{}", max_chars),
+            DTypeKind::Bytes(max_bytes) => format!("|S{}", max_bytes),
+            _ => self.0.typestr().to_string(),
+        }
+    }
 
     #[inline]
     pub fn format_char(&self) -> &'static str { self.0.format_char() }
diff --git a/src/array/mod.rs b/src/array/mod.rs
index 29ff8d7..540c25a 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -411,6 +411,16 @@ impl RumpyArray {
                         unsafe { *dst.add(i) = converted; }
                     }
                 }
+                (DTypeKind::Str(_), DTypeKind::Str(_)) | (DTypeKind::Bytes(_), DTypeKind::Bytes(_)) => {
+                    // Text of another width: truncate, or pad with the zeros already there
+                    let (from, to) = (self.itemsize(), new_dtype.itemsize());
+                    for (i, offset) in self.iter_offsets().enumerate() {
+                        unsafe {
+                            std::ptr::copy_nonoverlapping(
+                                src_ptr.offset(offset), result_ptr.add(i * to), from.min(to));
+                        }
+                    }
+                }
                 (DTypeKind::Complex64 | DTypeKind::Complex128, _) => {
                     // Complex source: keep both components (real targets take the real part)
                     for (i, offset) in self.iter_offsets().enumerate() {
diff --git a/src/ops/io.rs b/src/ops/io.rs
index 5e70630..776a3c7 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -379,7 +379,7 @@ pub fn save_npy(path: &Path, arr: &RumpyArray) -> Result<(), String> {
 /// Write array in NPY format to a writer.
 pub fn write_npy<W: Write>(writer: &mut W, arr: &RumpyArray) -> Result<(), String> {
     // Build header dictionary
-    let descr = arr.dtype().ops().typestr();
+    let descr = arr.dtype().typestr();
     let fortran_order = arr.is_f_contiguous() && !arr.is_c_contiguous();
     let shape_str = format!(
         "({}{})",
@@ -661,10 +661,19 @@ fn compute_f_strides(shape: &[usize], itemsize: usize) -> Vec<isize> {
 /// Create array from raw bytes buffer.
 pub fn frombuffer(data: &[u8], dtype: DType, count: isize, offset: usize) -> Result<RumpyArray, String> {
     let itemsize = dtype.itemsize();
-    let available_bytes = data.len().saturating_sub(offset);
+    if itemsize == 0 {
+        return Err("itemsize cannot be zero".to_string());
+    }
+    if offset > data.len() {
+        return Err(format!("offset must not be greater than the buffer length ({})", data.len()));
+    }
+    let available_bytes = data.len() - offset;
     let max_elements = available_bytes / itemsize;
 
     let n = if count < 0 {
+        if available_bytes % itemsize != 0 {
+            return Err("buffer size must be a multiple of element size".to_string());
+        }
         max_elements
     } else {
         let requested = count as usize;
@@ -722,6 +731,9 @@ pub fn fromfile(
     }
 
     let itemsize = dtype.itemsize();
+    if itemsize == 0 {
+        return Err("itemsize cannot be zero".to_string());
+    }
 
     // Determine count
     let file_size = file
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index b4c6f2e..b8db213 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -328,6 +328,20 @@ impl RumpyArray {
                 let val = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0);
                 val.into_pyobject(py)?.into_any().unbind()
             }
+            DTypeKind::Str(max_chars) => {
+                // Trailing NULs are padding
+                let chars: Vec<u32> = (0..max_chars)
+                    .map(|k| unsafe { ptr.offset(offset).cast::<u32>().add(k).read_unaligned() })
+                    .collect();
+                let len = chars.iter().rposition(|&c| c != 0).map_or(0, |k| k + 1);
+                let text: String = chars[..len].iter().map(|&c| char::from_u32(c).unwrap_or('\u{FFFD}')).collect();
+                text.into_pyobject(py)?.into_any().unbind()
+            }
+            DTypeKind::Bytes(max_bytes) => {
+                let bytes = unsafe { std::slice::from_raw_parts(ptr.offset(offset), max_bytes) };
+                let len = bytes.iter().rposition(|&b| b != 0).map_or(0, |k| k + 1);
+                pyo3::types::PyBytes::new(py, &bytes[..len]).into_any().unbind()
+            }
             _ => {
                 let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
                 val.into_pyobject(py)?.into_any().unbind()
diff --git a/src/python/creation.rs b/src/python/creation.rs
index ca41780..6831b60 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -356,6 +356,7 @@ pub fn array_impl(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'
         if let Some(dt) = &dtype {
             let target_dtype = parse_dtype_any(dt)?;
             if arr.inner.dtype() != target_dtype {
+                super::pyarray::check_castable(&arr.inner.dtype(), &target_dtype)?;
                 return Ok(PyRumpyArray::new(arr.inner.astype(target_dtype)));
             }
         }
@@ -367,18 +368,15 @@ pub fn array_impl(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'
         return from_array_interface(py, &interface, dtype);
     }
 
-    // Fall back to Python list
-    if let Ok(list) = obj.downcast::<PyList>() {
-        return from_list(list, dtype);
+    // Fall back to Python list or tuple
+    if obj.is_instance_of::<PyList>() || obj.is_instance_of::<pyo3::types::PyTuple>() {
+        return from_sequence(obj, dtype);
     }
 
     // Try to iterate as a sequence
     if let Ok(seq) = obj.try_iter() {
-        let items: Vec<f64> = seq
-            .map(|item| item.and_then(|i| i.extract::<f64>()))
-            .collect::<PyResult<Vec<f64>>>()?;
-        let dtype = resolve_dtype(dtype, "float64")?;
-        return Ok(PyRumpyArray::new(RumpyArray::from_vec(items, dtype)));
+        let items = PyList::new(py, seq.collect::<PyResult<Vec<_>>>()?)?;
+        return from_list(&items, dtype);
     }
 
     Err(pyo3::exceptions::PyTypeError::new_err(
@@ -406,6 +404,9 @@ fn from_array_interface(
     let typestr: String = interface.get_item("typestr")?.extract()?;
     let dtype = dtype_from_typestr(&typestr)?;
     let target_dtype = dtype_override.map(parse_dtype_any).transpose()?;
+    if let Some(target) = &target_dtype {
+        super::pyarray::check_castable(&dtype, target)?;
+    }
 
     // Extract data pointer
     let data_obj = interface.get_item("data")?;
@@ -440,8 +441,6 @@ fn from_array_interface(
         crate::array::compute_c_strides(&shape, itemsize)
     });
 
-    let dtype = arr.dtype();
-    // Use get_element pattern - iterate and copy
     let buffer = arr.buffer_mut();
     let result_buffer = std::sync::Arc::get_mut(buffer).expect("buffer must be unique");
     let dst_ptr = result_buffer.as_mut_ptr();
@@ -455,8 +454,10 @@ fn from_array_interface(
             .map(|(&idx, &stride)| idx as isize * stride)
             .sum();
 
-        // Copy element from source to destination
-        unsafe { dtype.ops().copy_element(src_ptr, src_offset, dst_ptr, i); }
+        // Copy element from source to destination (the source may be unaligned)
+        unsafe {
+            std::ptr::copy_nonoverlapping(src_ptr.offset(src_offset), dst_ptr.add(i * itemsize), itemsize);
+        }
 
         increment_indices(&mut indices, &shape);
     }
@@ -472,254 +473,189 @@ fn convert_dtype(arr: RumpyArray, target: Option<DType>) -> RumpyArray {
     }
 }
 
-/// Infer dtype from first element of a Python list.
-fn infer_dtype_from_list(list: &Bound<'_, PyList>) -> Option<DType> {
-    if list.is_empty() {
-        return Some(DType::float64());
-    }
-    let first = list.get_item(0).ok()?;
-    // Recurse into nested lists
-    if let Ok(sublist) = first.downcast::<PyList>() {
-        return infer_dtype_from_list(sublist);
-    }
-    // Check type of first element - order matters: bool before int!
-    if first.is_instance_of::<pyo3::types::PyBool>() {
-        return Some(DType::bool());
-    }
-    if first.is_instance_of::<pyo3::types::PyInt>() {
-        return Some(DType::int64());
-    }
-    if first.is_instance_of::<pyo3::types::PyFloat>() {
-        return Some(DType::float64());
-    }
-    // Check for strings - compute max length from all elements
-    if first.is_instance_of::<pyo3::types::PyString>() {
-        let max_len = compute_max_string_length(list).unwrap_or(0);
-        return Some(DType::str_(max_len));
-    }
-    // Check for bytes
-    if first.is_instance_of::<pyo3::types::PyBytes>() {
-        let max_len = compute_max_bytes_length(list).unwrap_or(0);
-        return Some(DType::bytes_(max_len));
-    }
-    Some(DType::float64())
-}
+/// Collect the scalars of a nested list or tuple in order; returns the shape.
+fn collect_leaves<'py>(obj: &Bound<'py, PyAny>, leaves: &mut Vec<Bound<'py, PyAny>>) -> PyResult<Vec<usize>> {
+    let children: Vec<Bound<'py, PyAny>> = if let Ok(list) = obj.downcast::<PyList>() {
+        list.iter().collect()
+    } else if let Ok(tuple) = obj.downcast::<pyo3::types::PyTuple>() {
+        tuple.iter().collect()
+    } else {
+        leaves.push(obj.clone());
+        return Ok(vec![]);
+    };
 
-/// Compute the maximum string length in a (possibly nested) list.
-fn compute_max_string_length(list: &Bound<'_, PyList>) -> Option<usize> {
-    let mut max_len = 0usize;
-    for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            if let Some(sub_max) = compute_max_string_length(sublist) {
-                max_len = max_len.max(sub_max);
+    let mut child_shape: Option<Vec<usize>> = None;
+    for child in &children {
+        let shape = collect_leaves(child, leaves)?;
+        match &child_shape {
+            Some(first) if *first != shape => {
+                return Err(pyo3::exceptions::PyValueError::new_err(
+                    "setting an array element with a sequence: the nested sequences have an inhomogeneous shape",
+                ));
             }
-        } else if let Ok(s) = item.extract::<String>() {
-            max_len = max_len.max(s.chars().count());
+            _ => child_shape = Some(shape),
         }
     }
-    Some(max_len)
+    let mut shape = vec![children.len()];
+    shape.extend(child_shape.unwrap_or_default());
+    Ok(shape)
 }
 
-/// Compute the maximum bytes length in a (possibly nested) list.
-fn compute_max_bytes_length(list: &Bound<'_, PyList>) -> Option<usize> {
-    let mut max_len = 0usize;
-    for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            if let Some(sub_max) = compute_max_bytes_length(sublist) {
-                max_len = max_len.max(sub_max);
-            }
-        } else if let Ok(b) = item.extract::<Vec<u8>>() {
-            max_len = max_len.max(b.len());
+/// The dtype that holds every one of the given Python scalars.
+fn infer_dtype(leaves: &[Bound<'_, PyAny>]) -> PyResult<DType> {
+    use pyo3::types::{PyBool, PyBytes, PyComplex, PyFloat, PyString};
+
+    let (mut bools, mut ints, mut big_ints, mut negative, mut floats, mut complexes) =
+        (false, false, false, false, false, false);
+    let (mut max_chars, mut max_bytes) = (None, None);
+    for leaf in leaves {
+        if leaf.is_instance_of::<PyString>() {
+            let n = leaf.extract::<String>()?.chars().count();
+            max_chars = Some(max_chars.map_or(n, |m: usize| m.max(n)));
+        } else if leaf.is_instance_of::<PyBytes>() {
+            let n = leaf.extract::<&[u8]>()?.len();
+            max_bytes = Some(max_bytes.map_or(n, |m: usize| m.max(n)));
+        } else if leaf.is_instance_of::<PyBool>() {
+            bools = true;
+        } else if leaf.is_instance_of::<PyFloat>() {
+            floats = true;
+        } else if leaf.is_instance_of::<PyComplex>() {
+            complexes = true;
+        } else if let Ok(v) = leaf.extract::<i64>() {
+            ints = true;
+            negative |= v < 0;
+        } else if leaf.extract::<u64>().is_ok() {
+            big_ints = true;
+        } else {
+            floats = true;
+        }
+    }
+
+    let numbers = bools || ints || big_ints || floats || complexes;
+    match (max_chars, max_bytes) {
+        (Some(n), None) if !numbers => return Ok(DType::str_(n)),
+        (None, Some(n)) if !numbers => return Ok(DType::bytes_(n)),
+        (None, None) => {}
+        _ => {
+            return Err(pyo3::exceptions::PyTypeError::new_err(
+                "cannot mix text and numbers in one array",
+            ));
         }
     }
-    Some(max_len)
+    Ok(if complexes {
+        DType::complex128()
+    } else if floats || (big_ints && negative) {
+        DType::float64()
+    } else if big_ints {
+        DType::uint64()
+    } else if ints {
+        DType::int64()
+    } else if bools {
+        DType::bool()
+    } else {
+        DType::float64()
+    })
 }
 
 /// Create array from Python list.
 pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
+    from_sequence(list.as_any(), dtype)
+}
+
+/// Create array from a (nested) Python list or tuple.
+fn from_sequence(seq: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     use crate::array::dtype::{DTypeKind, parse_datetime64};
 
+    let mut leaves = Vec::new();
+    let shape = collect_leaves(seq, &mut leaves)?;
     let dtype = match dtype {
         Some(dt) => parse_dtype_any(dt)?,
-        None => infer_dtype_from_list(list).unwrap_or(DType::float64()),
+        None => infer_dtype(&leaves)?,
     };
-
-    // Check if nested (2D+)
-    if list.is_empty() {
-        return Ok(PyRumpyArray::new(RumpyArray::zeros(vec![0], dtype)));
+    if leaves.is_empty() {
+        return Ok(PyRumpyArray::new(RumpyArray::zeros(shape, dtype)));
     }
 
-    let first = list.get_item(0)?;
-
-    // Handle datetime64 dtype - parse string inputs
-    if let DTypeKind::DateTime64(unit) = dtype.kind() {
-        if first.downcast::<PyList>().is_ok() {
-            let (shape, strings) = flatten_nested_list_str(list)?;
-            let data: Vec<i64> = strings.iter().map(|s| parse_datetime64(s, unit)).collect();
-            return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)));
-        }
-        // Try to extract strings and parse them
-        let strings: Result<Vec<String>, _> = list.iter().map(|item| item.extract::<String>()).collect();
-        if let Ok(strings) = strings {
-            let data: Vec<i64> = strings.iter().map(|s| parse_datetime64(s, unit)).collect();
-            return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64(data, dtype)));
+    let arr = match dtype.kind() {
+        DTypeKind::DateTime64(unit) => {
+            // Dates come as text or as counts of the unit
+            let data: Vec<i64> = leaves
+                .iter()
+                .map(|leaf| match leaf.extract::<String>() {
+                    Ok(text) => Ok(parse_datetime64(&text, unit)),
+                    Err(_) => leaf.extract::<i64>(),
+                })
+                .collect::<PyResult<_>>()?;
+            RumpyArray::from_vec_i64_with_shape(data, shape, dtype)
         }
-        // Fall back to integer extraction
-        let data: Vec<i64> = list.iter().map(|item| item.extract::<i64>()).collect::<PyResult<Vec<_>>>()?;
-        return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64(data, dtype)));
-    }
-
-    // Handle timedelta64 dtype
-    if let DTypeKind::TimeDelta64(_unit) = dtype.kind() {
-        if first.downcast::<PyList>().is_ok() {
-            let (shape, data) = flatten_nested_list_i64(list)?;
-            return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)));
+        DTypeKind::TimeDelta64(_) => {
+            let data: Vec<i64> = leaves.iter().map(|leaf| leaf.extract::<i64>()).collect::<PyResult<_>>()?;
+            RumpyArray::from_vec_i64_with_shape(data, shape, dtype)
         }
-        let data: Vec<i64> = list.iter().map(|item| item.extract::<i64>()).collect::<PyResult<Vec<_>>>()?;
-        return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64(data, dtype)));
-    }
-
-    // Handle string dtype
-    if let DTypeKind::Str(_) = dtype.kind() {
-        if first.downcast::<PyList>().is_ok() {
-            let (shape, data) = flatten_nested_list_str(list)?;
-            return Ok(PyRumpyArray::new(RumpyArray::from_vec_str_with_shape(data, shape, dtype)));
+        DTypeKind::Str(_) => {
+            let data: Vec<String> = leaves.iter().map(|leaf| leaf.extract::<String>()).collect::<PyResult<_>>()?;
+            RumpyArray::from_vec_str_with_shape(data, shape, dtype)
         }
-        let data: Vec<String> = list
-            .iter()
-            .map(|item| item.extract::<String>())
-            .collect::<PyResult<Vec<String>>>()?;
-        return Ok(PyRumpyArray::new(RumpyArray::from_vec_str(data, dtype)));
-    }
-
-    // Handle bytes dtype
-    if let DTypeKind::Bytes(_) = dtype.kind() {
-        if first.downcast::<PyList>().is_ok() {
-            let (shape, data) = flatten_nested_list_bytes(list)?;
-            return Ok(PyRumpyArray::new(RumpyArray::from_vec_bytes_with_shape(data, shape, dtype)));
-        }
-        let data: Vec<Vec<u8>> = list
-            .iter()
-            .map(|item| item.extract::<Vec<u8>>())
-            .collect::<PyResult<Vec<Vec<u8>>>>()?;
-        return Ok(PyRumpyArray::new(RumpyArray::from_vec_bytes(data, dtype)));
-    }
-
-    if first.downcast::<PyList>().is_ok() {
-        // Nested list - recursively get shape and flatten
-        // Try integer path for integer dtypes, fall back to f64
-        if dtype.is_integer() {
-            if let Ok((shape, data)) = flatten_nested_list_i64(list) {
-                return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)));
-            }
-        }
-        let (shape, data) = flatten_nested_list(list)?;
-        return Ok(PyRumpyArray::new(RumpyArray::from_vec_with_shape(data, shape, dtype)));
-    }
-
-    // 1D list - try integer extraction for integer dtypes, fall back to f64
-    if dtype.is_integer() {
-        // Try extracting as i64 first (preserves large int precision)
-        let data_i64: Result<Vec<i64>, _> = list
-            .iter()
-            .map(|item| item.extract::<i64>())
-            .collect();
-        if let Ok(data) = data_i64 {
-            return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64(data, dtype)));
+        DTypeKind::Bytes(_) => {
+            let data: Vec<Vec<u8>> = leaves.iter().map(|leaf| leaf.extract::<Vec<u8>>()).collect::<PyResult<_>>()?;
+            RumpyArray::from_vec_bytes_with_shape(data, shape, dtype)
         }
-        // Fall back to f64 (handles float inputs like [5.0, 2.0, ...])
-    }
-    let data: Vec<f64> = list
-        .iter()
-        .map(|item| item.extract::<f64>())
-        .collect::<PyResult<Vec<f64>>>()?;
-    Ok(PyRumpyArray::new(RumpyArray::from_vec(data, dtype)))
-}
-
-/// Flatten nested Python list, returning shape and data as f64.
-fn flatten_nested_list(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<f64>)> {
-    let mut shape = vec![list.len()];
-    let mut data = Vec::new();
-
-    for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            let (sub_shape, sub_data) = flatten_nested_list(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
-            }
-            data.extend(sub_data);
-        } else {
-            data.push(item.extract::<f64>()?);
-        }
-    }
-
-    Ok((shape, data))
-}
-
-/// Flatten nested Python list, returning shape and data as i64.
-fn flatten_nested_list_i64(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<i64>)> {
-    let mut shape = vec![list.len()];
-    let mut data = Vec::new();
-
-    for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            let (sub_shape, sub_data) = flatten_nested_list_i64(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
-            }
-            data.extend(sub_data);
-        } else {
-            data.push(item.extract::<i64>()?);
-        }
-    }
-
-    Ok((shape, data))
-}
-
-/// Flatten nested Python list, returning shape and data as String.
-fn flatten_nested_list_str(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<String>)> {
-    let mut shape = vec![list.len()];
-    let mut data = Vec::new();
-
-    for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            let (sub_shape, sub_data) = flatten_nested_list_str(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
+        kind => {
+            let mut arr = RumpyArray::zeros(shape, dtype.clone());
+            let ptr = std::sync::Arc::get_mut(arr.buffer_mut()).expect("unique").as_mut_ptr();
+            let ops = dtype.ops();
+            for (i, leaf) in leaves.iter().enumerate() {
+                if kind == DTypeKind::Bool {
+                    unsafe { ops.write_f64(ptr, i, leaf.is_truthy()? as u8 as f64); }
+                } else if let Ok(value) = leaf.downcast::<pyo3::types::PyComplex>() {
+                    if !matches!(kind, DTypeKind::Complex64 | DTypeKind::Complex128) {
+                        return Err(pyo3::exceptions::PyTypeError::new_err(
+                            "cannot store a complex value in a real array",
+                        ));
+                    }
+                    use pyo3::types::PyComplexMethods;
+                    unsafe { ops.write_complex(ptr, i, value.real(), value.imag()); }
+                } else if !dtype.is_integer() {
+                    unsafe { ops.write_f64(ptr, i, leaf.extract::<f64>()?); }
+                } else if let Ok(value) = leaf.extract::<i64>() {
+                    let stored = unsafe {
+                        ops.write_i64(ptr, i, value);
+                        ops.read_i64(ptr, (i * dtype.itemsize()) as isize)
+                    };
+                    if stored != Some(value) || (kind == DTypeKind::Uint64 && value < 0) {
+                        return Err(pyo3::exceptions::PyOverflowError::new_err(format!(
+                            "Python integer {} out of bounds for {}", value, dtype.typestr()
+                        )));
+                    }
+                } else if let (DTypeKind::Uint64, Ok(value)) = (&kind, leaf.extract::<u64>()) {
+                    unsafe { ops.write_i64(ptr, i, value as i64); }
+                } else {
+                    let value = leaf.extract::<f64>()?;
+                    if !value.is_finite() {
+                        return Err(pyo3::exceptions::PyValueError::new_err(
+                            format!("cannot convert float {} to integer", value),
+                        ));
+                    }
+                    unsafe { ops.write_f64(ptr, i, value); }
+                }
             }
-            data.extend(sub_data);
-        } else {
-            data.push(item.extract::<String>()?);
+            arr
         }
-    }
-
-    Ok((shape, data))
-}
-
-/// Flatten nested Python list, returning shape and data as Vec<u8> (bytes).
-fn flatten_nested_list_bytes(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<Vec<u8>>)> {
-    let mut shape = vec![list.len()];
-    let mut data = Vec::new();
-
-    for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            let (sub_shape, sub_data) = flatten_nested_list_bytes(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
-            }
-            data.extend(sub_data);
-        } else {
-            data.push(item.extract::<Vec<u8>>()?);
-        }
-    }
-
-    Ok((shape, data))
+    };
+    Ok(PyRumpyArray::new(arr))
 }
 
 /// Parse dtype from numpy typestr.
 fn dtype_from_typestr(typestr: &str) -> PyResult<DType> {
     use crate::array::dtype::TimeUnit;
 
+    if typestr.starts_with('>') {
+        return Err(pyo3::exceptions::PyValueError::new_err(format!(
+            "big-endian data is not supported: {}",
+            typestr
+        )));
+    }
+
     // Handle datetime64: "<M8[ns]", "<M8[us]", etc.
     if typestr.starts_with("<M8[") || typestr.starts_with(">M8[") {
         // Extract unit from M8[unit]
diff --git a/src/python/dtype.rs b/src/python/dtype.rs
index 20be57d..4f99ead 100644
--- a/src/python/dtype.rs
+++ b/src/python/dtype.rs
@@ -491,11 +491,11 @@ pub fn common_type(arrays: &Bound<'_, PyTuple>) -> PyResult<PyObject> {
         match dtype.kind() {
             DTypeKind::Complex128 => {
                 has_complex = true;
-                max_float_size = max_float_size.max(16);
+                max_float_size = max_float_size.max(8);
             }
             DTypeKind::Complex64 => {
                 has_complex = true;
-                max_float_size = max_float_size.max(8);
+                max_float_size = max_float_size.max(4);
             }
             DTypeKind::Float64 => {
                 max_float_size = max_float_size.max(8);
@@ -515,13 +515,13 @@ pub fn common_type(arrays: &Bound<'_, PyTuple>) -> PyResult<PyObject> {
 
     // Return the appropriate numpy dtype type
     let type_name = if has_complex {
-        if max_float_size >= 16 { "complex128" } else { "complex64" }
+        if max_float_size >= 8 { "complex128" } else { "complex64" }
     } else if max_float_size >= 8 {
         "float64"
     } else if max_float_size >= 4 {
         "float32"
     } else {
-        "float64"  // Default to float64
+        "float16"
     };
 
     // Return the type object (like numpy does)
diff --git a/src/python/pyarray/dunder_ops.rs b/src/python/pyarray/dunder_ops.rs
index 9e5a0b2..5946f4f 100644
--- a/src/python/pyarray/dunder_ops.rs
+++ b/src/python/pyarray/dunder_ops.rs
@@ -125,6 +125,22 @@ impl PyRumpyArray {
         Ok(self.inner.get_element(&vec![0; self.inner.ndim()]))
     }
 
+    fn __bool__(&self) -> PyResult<bool> {
+        if self.inner.size() != 1 {
+            return Err(pyo3::exceptions::PyValueError::new_err(
+                "the truth value of an array with other than one element is ambiguous",
+            ));
+        }
+        let offset = self.inner.byte_offset_for(&vec![0; self.inner.ndim()]);
+        Ok(unsafe { self.inner.dtype().ops().is_truthy(self.inner.data_ptr(), offset) })
+    }
+
+    fn __len__(&self) -> PyResult<usize> {
+        self.inner.shape().first().copied().ok_or_else(|| {
+            pyo3::exceptions::PyTypeError::new_err("len() of unsized object")
+        })
+    }
+
     fn __int__(&self, py: Python<'_>) -> PyResult<PyObject> {
         if self.inner.size() != 1 {
             return Err(pyo3::exceptions::PyTypeError::new_err(
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 1878d1f..c4310aa 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -428,6 +428,7 @@ impl PyRumpyArray {
     /// Convert array to new dtype.
     fn astype(&self, dtype: &str) -> PyResult<Self> {
         let dt = parse_dtype(dtype)?;
+        check_castable(&self.inner.dtype(), &dt)?;
         Ok(Self::new(self.inner.astype(dt)))
     }
 
@@ -856,6 +857,18 @@ pub fn parse_dtype(s: &str) -> PyResult<DType> {
     })
 }
 
+/// Text converts only to text of the same kind.
+pub(crate) fn check_castable(from: &DType, to: &DType) -> PyResult<()> {
+    use crate::array::dtype::DTypeKind::{Bytes, Str};
+    match (from.kind(), to.kind()) {
+        (Str(_), Str(_)) | (Bytes(_), Bytes(_)) => Ok(()),
+        (Str(_) | Bytes(_), _) | (_, Str(_) | Bytes(_)) => Err(pyo3::exceptions::PyTypeError::new_err(
+            format!("cannot cast from {} to {}", from.typestr(), to.typestr()),
+        )),
+        _ => Ok(()),
+    }
+}
+
 /// Parse dtype from any Python object (string, numpy dtype, or our dtype).
 pub fn parse_dtype_any(arg: &Bound<'_, PyAny>) -> PyResult<DType> {
     // Try string first
-- 
2.43.0


From 0a83abb77ec833a15f1f3abea01446a372b3fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:23 +0000
Subject: [PATCH 34/81] fix: dtype functions follow NumPy's casting and
 promotion rules for every pair

---
 src/python/dtype.rs | 101 ++++++++++++++++++++++++++++----------------
 1 file changed, 65 insertions(+), 36 deletions(-)

diff --git a/src/python/dtype.rs b/src/python/dtype.rs
index 4f99ead..aa3cc42 100644
--- a/src/python/dtype.rs
+++ b/src/python/dtype.rs
@@ -51,12 +51,12 @@ impl PyFinfo {
             "float16" => Ok(Self {
                 dtype: "float16".to_string(),
                 bits: 16,
-                eps: 0.000977,  // 2^-10
+                eps: 0.0009765625,  // 2^-10
                 max: 65504.0,
                 min: -65504.0,
-                tiny: 6.104e-5,  // smallest positive normal
-                smallest_normal: 6.104e-5,
-                smallest_subnormal: 5.96e-8,
+                tiny: 6.103515625e-5,  // smallest positive normal
+                smallest_normal: 6.103515625e-5,
+                smallest_subnormal: 5.960464477539063e-8,
                 machep: -10,
                 negep: -11,
                 minexp: -14,
@@ -72,7 +72,7 @@ impl PyFinfo {
                 min: f32::MIN as f64,
                 tiny: f32::MIN_POSITIVE as f64,
                 smallest_normal: f32::MIN_POSITIVE as f64,
-                smallest_subnormal: 1.4e-45,
+                smallest_subnormal: f32::from_bits(1) as f64,
                 machep: -23,
                 negep: -24,
                 minexp: -126,
@@ -279,8 +279,14 @@ pub fn result_type(args: &Bound<'_, PyTuple>) -> PyResult<String> {
 
     let mut result_dtype: Option<DType> = None;
 
-    for arg in args.iter() {
-        let dtype = extract_dtype_from_operand(&arg)?;
+    // Python scalars are weak: they only contribute their kind, after the
+    // arrays and dtypes are known.
+    let (weak, strong): (Vec<_>, Vec<_>) = args.iter().partition(is_python_number);
+    for arg in strong.iter().chain(weak.iter()) {
+        let mut dtype = extract_dtype_from_operand(arg)?;
+        if let (Some(current), true) = (&result_dtype, is_python_number(arg)) {
+            dtype = weak_dtype(dtype, current);
+        }
         result_dtype = Some(match result_dtype {
             None => dtype,
             Some(current) => crate::array::dtype::promote_dtype(&current, &dtype),
@@ -290,6 +296,27 @@ pub fn result_type(args: &Bound<'_, PyTuple>) -> PyResult<String> {
     Ok(result_dtype.unwrap().ops().name().to_string())
 }
 
+fn is_python_number(arg: &Bound<'_, PyAny>) -> bool {
+    use pyo3::types::{PyBool, PyComplex, PyFloat, PyInt};
+    !arg.is_exact_instance_of::<PyBool>()
+        && (arg.is_exact_instance_of::<PyInt>()
+            || arg.is_exact_instance_of::<PyFloat>()
+            || arg.is_exact_instance_of::<PyComplex>())
+}
+
+/// The dtype a Python scalar of default dtype `scalar` takes next to `other`.
+fn weak_dtype(scalar: DType, other: &DType) -> DType {
+    use DTypeKind::*;
+    let kind = other.kind();
+    match (scalar.kind(), &kind) {
+        (_, Complex64 | Complex128) => other.clone(),
+        (Int64 | Float64, Float16 | Float32 | Float64) => other.clone(),
+        (Complex128, Float16 | Float32) => DType::complex64(),
+        (Int64, Int8 | Int16 | Int32 | Int64 | Uint8 | Uint16 | Uint32 | Uint64) => other.clone(),
+        _ => scalar,
+    }
+}
+
 /// Extract dtype from an operand (array, scalar, or dtype).
 fn extract_dtype_from_operand(arg: &Bound<'_, PyAny>) -> PyResult<DType> {
     // Check if it has a dtype attribute (numpy array, our array, or dtype)
@@ -344,7 +371,7 @@ pub fn can_cast(from_dtype: &Bound<'_, PyAny>, to_dtype: &Bound<'_, PyAny>, cast
 
     match casting {
         "no" => Ok(from_dt == to_dt),
-        "equiv" => Ok(from_dt == to_dt || (from_dt.itemsize() == to_dt.itemsize())),
+        "equiv" => Ok(from_dt == to_dt),
         "safe" => Ok(can_cast_safe(&from_dt, &to_dt)),
         "same_kind" => Ok(can_cast_same_kind(&from_dt, &to_dt)),
         "unsafe" => Ok(true),  // Anything can cast unsafely
@@ -407,7 +434,7 @@ fn can_cast_safe(from: &DType, to: &DType) -> bool {
     if (is_signed(&fk) || is_unsigned(&fk)) && is_float(&tk) {
         let from_bits = int_bits(&fk);
         return match tk {
-            Float64 => from_bits <= 32,  // float64 can exactly represent int32
+            Float64 => true,  // as in NumPy, 64-bit integers included
             Float32 => from_bits <= 16,  // float32 can exactly represent int16
             Float16 => from_bits <= 8,   // float16 can exactly represent small ints
             _ => false,
@@ -416,7 +443,7 @@ fn can_cast_safe(from: &DType, to: &DType) -> bool {
 
     // Integer to complex
     if (is_signed(&fk) || is_unsigned(&fk)) && is_complex(&tk) {
-        return true;  // Complex can hold any integer
+        return matches!(tk, Complex128) || int_bits(&fk) <= 16;
     }
 
     // Signed int to larger signed int
@@ -437,7 +464,8 @@ fn can_cast_safe(from: &DType, to: &DType) -> bool {
     false
 }
 
-/// Check if cast is same_kind (numbers to numbers of same kind).
+/// Check if cast is same_kind: safe, or never down the kind order
+/// bool < unsigned < signed < floating < complex.
 fn can_cast_same_kind(from: &DType, to: &DType) -> bool {
     use DTypeKind::*;
 
@@ -445,29 +473,19 @@ fn can_cast_same_kind(from: &DType, to: &DType) -> bool {
         return true;
     }
 
-    let fk = from.kind();
-    let tk = to.kind();
-
-    let is_int = |k: &DTypeKind| matches!(k, Int8 | Int16 | Int32 | Int64 | Uint8 | Uint16 | Uint32 | Uint64);
-    let is_float = |k: &DTypeKind| matches!(k, Float16 | Float32 | Float64);
-    let is_complex = |k: &DTypeKind| matches!(k, Complex64 | Complex128);
-
-    // Int to int (any direction)
-    if is_int(&fk) && is_int(&tk) {
-        return true;
-    }
-
-    // Float to float (any direction)
-    if is_float(&fk) && is_float(&tk) {
-        return true;
-    }
+    let order = |k: &DTypeKind| match k {
+        Bool => Some(0),
+        Uint8 | Uint16 | Uint32 | Uint64 => Some(1),
+        Int8 | Int16 | Int32 | Int64 => Some(2),
+        Float16 | Float32 | Float64 => Some(3),
+        Complex64 | Complex128 => Some(4),
+        _ => None,
+    };
 
-    // Complex to complex (any direction)
-    if is_complex(&fk) && is_complex(&tk) {
-        return true;
+    match (order(&from.kind()), order(&to.kind())) {
+        (Some(f), Some(t)) => f <= t,
+        _ => false,
     }
-
-    false
 }
 
 /// Find common type for array operands (returns scalar type for computations).
@@ -506,10 +524,16 @@ pub fn common_type(arrays: &Bound<'_, PyTuple>) -> PyResult<PyObject> {
             DTypeKind::Float16 => {
                 max_float_size = max_float_size.max(2);
             }
-            _ => {
+            DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32 | DTypeKind::Int64
+            | DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64 => {
                 // Integers promote to float64
                 max_float_size = max_float_size.max(8);
             }
+            _ => {
+                return Err(PyErr::new::<pyo3::exceptions::PyTypeError, _>(
+                    "can't get common type for non-numeric array"
+                ));
+            }
         }
     }
 
@@ -547,6 +571,9 @@ pub fn issubdtype(dtype: &Bound<'_, PyAny>, dtype_or_category: &Bound<'_, PyAny>
 
     // Try as a string category
     if let Ok(s) = dtype_or_category.extract::<String>() {
+        if let Some(other_dt) = dtype_from_string(&s) {
+            return Ok(dt == other_dt);
+        }
         return Ok(check_dtype_category(&dt, &s));
     }
 
@@ -565,15 +592,17 @@ fn check_dtype_category(dt: &DType, category: &str) -> bool {
     let kind = dt.kind();
 
     match category {
-        "integer" | "signedinteger" | "int_" => matches!(kind, Int8 | Int16 | Int32 | Int64),
+        "integer" => matches!(kind, Int8 | Int16 | Int32 | Int64 | Uint8 | Uint16 | Uint32 | Uint64),
+        "signedinteger" | "int_" => matches!(kind, Int8 | Int16 | Int32 | Int64),
         "unsignedinteger" | "uint" => matches!(kind, Uint8 | Uint16 | Uint32 | Uint64),
         "floating" | "float_" => matches!(kind, Float16 | Float32 | Float64),
         "complexfloating" | "complex_" => matches!(kind, Complex64 | Complex128),
+        "inexact" => matches!(kind, Float16 | Float32 | Float64 | Complex64 | Complex128),
         "number" => matches!(kind, Int8 | Int16 | Int32 | Int64 | Uint8 | Uint16 | Uint32 | Uint64 |
                                    Float16 | Float32 | Float64 | Complex64 | Complex128),
         "bool_" | "bool8" => matches!(kind, Bool),
         "generic" => true,  // Everything is a subtype of generic
-        _ => false,
+        _ => dtype_from_string(category).is_some_and(|other| *dt == other),
     }
 }
 
@@ -609,7 +638,7 @@ fn check_isdtype_kind(dt: &DType, kind: &Bound<'_, PyAny>) -> PyResult<bool> {
             "bool" => matches!(dtype_kind, Bool),
             "signed integer" => matches!(dtype_kind, Int8 | Int16 | Int32 | Int64),
             "unsigned integer" => matches!(dtype_kind, Uint8 | Uint16 | Uint32 | Uint64),
-            "integral" => matches!(dtype_kind, Bool | Int8 | Int16 | Int32 | Int64 |
+            "integral" => matches!(dtype_kind, Int8 | Int16 | Int32 | Int64 |
                                               Uint8 | Uint16 | Uint32 | Uint64),
             "real floating" => matches!(dtype_kind, Float16 | Float32 | Float64),
             "complex floating" => matches!(dtype_kind, Complex64 | Complex128),
-- 
2.43.0


From 74bdf5303b1e051b9f30b0f526f7a986c31bde43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:54 +0000
Subject: [PATCH 35/81] fix: products and contractions compute in the result's
 dtype, broadcast from the right, and keep NumPy's shapes

---
 src/array/dtype/mod.rs    |   8 +
 src/array/views.rs        |  14 +-
 src/ops/dot.rs            |  30 +--
 src/ops/einsum.rs         | 459 +++++++-------------------------------
 src/ops/inner.rs          |  20 +-
 src/ops/linalg.rs         | 340 ++++------------------------
 src/ops/matmul.rs         | 168 +++++---------
 src/ops/mod.rs            |   6 +-
 src/ops/outer.rs          |   3 +
 src/python/linalg.rs      |  61 +++--
 src/python/pyarray/mod.rs |   2 +-
 11 files changed, 259 insertions(+), 852 deletions(-)

diff --git a/src/array/dtype/mod.rs b/src/array/dtype/mod.rs
index fd7caaa..0081ac5 100644
--- a/src/array/dtype/mod.rs
+++ b/src/array/dtype/mod.rs
@@ -355,6 +355,14 @@ impl DType {
         self.0.kind()
     }
 
+    /// Boolean, integer, floating or complex: a dtype with sums and products.
+    pub fn is_numeric(&self) -> bool {
+        !matches!(
+            self.kind(),
+            DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) | DTypeKind::Str(_) | DTypeKind::Bytes(_)
+        )
+    }
+
     /// Check if this is an integer type.
     #[inline]
     pub fn is_integer(&self) -> bool {
diff --git a/src/array/views.rs b/src/array/views.rs
index 0a7d4d5..c934ec4 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -228,13 +228,13 @@ impl RumpyArray {
 
         // Compute byte offset for this position in loop dims
         let mut offset_delta: isize = 0;
-        for (i, &idx) in loop_indices.iter().enumerate() {
-            if i < my_loop_ndim {
-                // Handle broadcasting: if loop dim is 1, use index 0
-                let dim_size = self.shape[i];
-                let actual_idx = if dim_size == 1 { 0 } else { idx };
-                offset_delta += (actual_idx as isize) * self.strides[i];
-            }
+        // Loop dimensions broadcast from the right
+        let skip = loop_indices.len().saturating_sub(my_loop_ndim);
+        for (i, &idx) in loop_indices.iter().skip(skip).enumerate() {
+            // Handle broadcasting: if loop dim is 1, use index 0
+            let dim_size = self.shape[i];
+            let actual_idx = if dim_size == 1 { 0 } else { idx };
+            offset_delta += (actual_idx as isize) * self.strides[i];
         }
 
         // Core shape and strides are the trailing dimensions
diff --git a/src/ops/dot.rs b/src/ops/dot.rs
index 47bf4db..656e4af 100644
--- a/src/ops/dot.rs
+++ b/src/ops/dot.rs
@@ -13,31 +13,15 @@ use crate::ops::matmul::matmul;
 /// Returns either a scalar (wrapped as 0D array) or an array depending on inputs.
 pub fn dot(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
     match (a.ndim(), b.ndim()) {
-        (1, 1) => {
-            // Inner product: sum of element-wise products
-            if a.shape()[0] != b.shape()[0] {
-                return None;
-            }
-            let mut sum = 0.0;
-            for i in 0..a.shape()[0] {
-                sum += a.get_element(&[i]) * b.get_element(&[i]);
-            }
-            // Return as 0D array (scalar)
-            Some(RumpyArray::full(vec![], sum, a.dtype()))
-        }
-        (0, _) => {
+        (0, _) | (_, 0) => {
             // Scalar × array: element-wise
-            let scalar = a.get_element(&[]);
-            Some(b.scalar_op(scalar, crate::ops::BinaryOp::Mul))
-        }
-        (_, 0) => {
-            // Array × scalar: element-wise
-            let scalar = b.get_element(&[]);
-            Some(a.scalar_op(scalar, crate::ops::BinaryOp::Mul))
+            a.binary_op(b, crate::ops::BinaryOp::Mul).ok()
         }
-        _ => {
-            // 2D cases (and higher): use matmul
-            matmul(a, b)
+        (1, 1) | (1, 2) | (2, 1) | (2, 2) => matmul(a, b),
+        (m, n) => {
+            // Sum over the last axis of a and the second-to-last of b
+            let b_axis = if n == 1 { 0 } else { n - 2 };
+            crate::ops::linalg::tensordot(a, b, (vec![m - 1], vec![b_axis]))
         }
     }
 }
diff --git a/src/ops/einsum.rs b/src/ops/einsum.rs
index 9e68fd3..8f7d3e5 100644
--- a/src/ops/einsum.rs
+++ b/src/ops/einsum.rs
@@ -8,7 +8,8 @@
 //! - Common patterns (transpose, trace, diagonal, sum, outer) use fast paths
 //! - Views returned where possible (diagonal, transpose)
 
-use crate::array::{promote_dtype, DType, RumpyArray};
+use crate::array::dtype::BinaryOp;
+use crate::array::{increment_indices, promote_dtype, DType, RumpyArray};
 use std::collections::{HashMap, HashSet};
 
 /// Compute output dtype for einsum based on input dtypes (NumPy-compatible promotion).
@@ -60,10 +61,10 @@ pub fn parse_subscript(subscript: &str) -> Result<ParsedSubscript, String> {
         .map(|s| s.chars().collect())
         .collect();
 
-    // Validate subscripts (only lowercase letters allowed for now)
+    // Validate subscripts
     for (i, sub) in inputs.iter().enumerate() {
         for c in sub {
-            if !c.is_ascii_lowercase() {
+            if !c.is_ascii_alphabetic() {
                 return Err(format!("Invalid subscript character '{}' in operand {}", c, i));
             }
         }
@@ -73,7 +74,7 @@ pub fn parse_subscript(subscript: &str) -> Result<ParsedSubscript, String> {
     let output = if let Some(out_str) = output_part {
         let out_chars: Vec<char> = out_str.chars().collect();
         for c in &out_chars {
-            if !c.is_ascii_lowercase() && *c != '.' {
+            if !c.is_ascii_alphabetic() {
                 return Err(format!("Invalid output subscript character '{}'", c));
             }
         }
@@ -154,8 +155,11 @@ pub fn validate_subscript(
         }
     }
 
-    // Validate output indices exist in inputs
-    for &c in &parsed.output {
+    // Validate output indices exist in inputs, once each
+    for (i, &c) in parsed.output.iter().enumerate() {
+        if parsed.output[..i].contains(&c) {
+            return Err(format!("Output index '{}' appears more than once", c));
+        }
         if !dim_map.contains_key(&c) {
             return Err(format!(
                 "Output index '{}' not found in any input subscript",
@@ -184,25 +188,20 @@ pub fn einsum(
     let dim_map = validate_subscript(&parsed, &shapes)?;
     let output_shape = compute_output_shape(&parsed, &dim_map);
 
-    // Try optimized paths for common patterns (these preserve dtype properly)
-    if let Some(result) = try_optimized_path(&parsed, operands, &dim_map) {
-        return Ok(result);
+    if operands.iter().any(|a| !a.dtype().is_numeric()) {
+        return Err("einsum requires numeric operands".to_string());
     }
 
-    // Compute output dtype using NumPy-compatible promotion rules
+    // Compute in the promoted dtype of all operands
     let out_dtype = compute_einsum_dtype(operands);
+    let converted: Vec<RumpyArray> = operands.iter()
+        .map(|a| if a.dtype() == out_dtype { (*a).clone() } else { a.astype(out_dtype.clone()) })
+        .collect();
+    let operands: Vec<&RumpyArray> = converted.iter().collect();
+    let operands = operands.as_slice();
 
-    // Create output array
-    let out_size: usize = output_shape.iter().product();
-    let result = if output_shape.is_empty() {
-        // Scalar result
-        RumpyArray::zeros(vec![1], out_dtype.clone())
-    } else {
-        RumpyArray::zeros(output_shape.clone(), out_dtype.clone())
-    };
-
-    // Handle empty result
-    if out_size == 0 {
+    // Try optimized paths for common patterns
+    if let Some(result) = try_optimized_path(&parsed, operands, &dim_map) {
         return Ok(result);
     }
 
@@ -215,43 +214,20 @@ pub fn einsum(
         .collect();
     contraction_indices.sort(); // For deterministic order
 
-    // Compute strides for each index in output
-    let output_strides = compute_strides(&output_shape);
-
-    // Execute based on number of operands and complexity
     match operands.len() {
-        1 => einsum_single(
-            &parsed,
-            operands[0],
-            &result,
-            &dim_map,
-            &contraction_indices,
-        ),
-        2 => einsum_binary(
-            &parsed,
-            operands[0],
-            operands[1],
-            &result,
-            &dim_map,
-            &contraction_indices,
-            &output_strides,
-        ),
-        _ => einsum_multi(
-            &parsed,
-            operands,
-            &result,
-            &dim_map,
-            &contraction_indices,
-            &output_strides,
-        ),
-    }?;
-
-    // Handle scalar output
-    if output_shape.is_empty() {
-        result.reshape(vec![]).ok_or_else(|| "Failed to reshape to scalar".to_string())
-    } else {
-        Ok(result)
+        2 if can_use_blas(&parsed.inputs[0], &parsed.inputs[1]) && !contraction_indices.is_empty() => {
+            if let Some(result) = try_blas_contraction(
+                operands[0], operands[1], &parsed.inputs[0], &parsed.inputs[1],
+                &parsed.output, &dim_map, &contraction_indices,
+            ) {
+                return Ok(result);
+            }
+        }
+        0..=2 => {}
+        _ => return einsum_multi(&parsed, operands),
     }
+
+    Ok(einsum_elementwise(&parsed, operands, output_shape, &out_dtype, &dim_map, &contraction_indices))
 }
 
 /// Try optimized paths for common einsum patterns.
@@ -284,28 +260,16 @@ fn try_single_operand_optimized(parsed: &ParsedSubscript, a: &RumpyArray) -> Opt
         return Some(a.transpose_axes(&perm));
     }
 
-    // Check for trace: ii-> (repeated index, scalar output)
-    if in_sub.len() == 2 && in_sub[0] == in_sub[1] && out_sub.is_empty() {
-        // trace() returns f64, create scalar with input dtype
-        let trace_val = a.trace();
-        return Some(RumpyArray::full(vec![], trace_val, a.dtype().clone()));
-    }
-
     // Check for diagonal: ii->i (repeated index, vector output) - returns view with same dtype
     if in_sub.len() == 2 && in_sub[0] == in_sub[1] && out_sub.len() == 1 && out_sub[0] == in_sub[0] {
         return Some(a.diagonal());
     }
 
-    // Check for sum over axis: ij->i or ij->j (sum_axis preserves dtype)
+    // Check for sum over axis: ij->i or ij->j
     if in_sub.len() == 2 && in_set.len() == 2 && out_sub.len() == 1 {
         let sum_axis = if out_sub[0] == in_sub[0] { 1 } else { 0 };
-        return Some(a.sum_axis(sum_axis));
-    }
-
-    // Check for total sum: ij-> (sum all elements) - sum() returns f64, use input dtype
-    if !in_sub.is_empty() && in_set.len() == in_sub.len() && out_sub.is_empty() {
-        let sum_val = a.sum();
-        return Some(RumpyArray::full(vec![], sum_val, a.dtype().clone()));
+        // sum_axis widens narrow integers; einsum keeps the operand's dtype
+        return Some(a.sum_axis(sum_axis).astype(a.dtype()));
     }
 
     None
@@ -342,153 +306,64 @@ fn try_binary_optimized(parsed: &ParsedSubscript, a: &RumpyArray, b: &RumpyArray
     None
 }
 
-/// Compute C-contiguous strides for a shape.
-fn compute_strides(shape: &[usize]) -> Vec<usize> {
-    let mut strides = vec![1; shape.len()];
-    for i in (0..shape.len().saturating_sub(1)).rev() {
-        strides[i] = strides[i + 1] * shape[i + 1];
-    }
-    strides
-}
-
-/// Single-operand einsum (trace, diagonal, transpose, sum, etc.)
-fn einsum_single(
+/// Element-wise einsum over any number of operands of the output dtype: every output
+/// element is the sum over the contraction indices of the product of the operands.
+fn einsum_elementwise(
     parsed: &ParsedSubscript,
-    a: &RumpyArray,
-    result: &RumpyArray,
+    operands: &[&RumpyArray],
+    output_shape: Vec<usize>,
+    dtype: &DType,
     dim_map: &HashMap<char, usize>,
     contraction_indices: &[char],
-) -> Result<(), String> {
-    let a_sub = &parsed.inputs[0];
-    let out_sub = &parsed.output;
-
-    // Find which output index corresponds to which a index
-    let out_to_a: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-
-    // Find contraction index positions in a (may have multiple for repeated indices)
-    let contract_in_a: Vec<(char, usize)> = contraction_indices.iter()
-        .flat_map(|&c| {
-            a_sub.iter().enumerate()
-                .filter(move |(_, ac)| **ac == c)
-                .map(move |(pos, _)| (c, pos))
-        })
-        .collect();
-
-    // Compute dimensions
-    let out_dims: Vec<usize> = out_sub.iter().map(|c| dim_map[c]).collect();
+) -> RumpyArray {
+    let mut result = RumpyArray::zeros(output_shape.clone(), dtype.clone());
     let contract_dims: Vec<usize> = contraction_indices.iter().map(|c| dim_map[c]).collect();
-    let out_shape = if out_dims.is_empty() { vec![1] } else { out_dims.clone() };
-    let out_strides = compute_strides(&out_shape);
     let contract_size: usize = contract_dims.iter().product();
-    let out_size: usize = out_shape.iter().product();
+    let out_size: usize = output_shape.iter().product();
 
-    // Check for repeated indices (diagonal/trace)
-    let has_repeated_in_a = {
-        let mut seen: HashSet<char> = HashSet::new();
-        a_sub.iter().any(|c| !seen.insert(*c))
+    // Byte stride of each operand along each output and contraction index
+    // (a repeated index walks the diagonal, so its strides add up)
+    let strides_for = |indices: &[char], k: usize| -> Vec<isize> {
+        indices.iter()
+            .map(|c| {
+                parsed.inputs[k].iter().zip(operands[k].strides())
+                    .filter(|(x, _)| *x == c)
+                    .map(|(_, &s)| s)
+                    .sum()
+            })
+            .collect()
     };
+    let out_strides: Vec<Vec<isize>> = (0..operands.len()).map(|k| strides_for(&parsed.output, k)).collect();
+    let contract_strides: Vec<Vec<isize>> = (0..operands.len()).map(|k| strides_for(contraction_indices, k)).collect();
 
-    let a_strides = a.strides();
-    let a_ptr = a.data_ptr();
-    let out_ptr = result.data_ptr();
-    let a_dtype = a.dtype();
+    let ops = dtype.ops();
+    let out_ptr = result.data_ptr_mut();
+    let mut term = RumpyArray::zeros(vec![1], dtype.clone());
+    let term_ptr = term.data_ptr_mut();
+    let itemsize = dtype.itemsize() as isize;
 
-    // Iterate over output positions
+    let mut out_idx = vec![0usize; output_shape.len()];
     for out_flat in 0..out_size {
-        // Decode output position to multi-index
-        let mut out_idx = vec![0usize; out_shape.len()];
-        let mut rem = out_flat;
-        for i in 0..out_shape.len() {
-            out_idx[i] = rem / out_strides[i];
-            rem %= out_strides[i];
-        }
-
-        // Sum over contraction indices
-        let mut sum = 0.0f64;
-
-        if contraction_indices.is_empty() {
-            // No contraction, just copy/transpose
-            // Build mapping from output index position to output value
-            let mut out_val_map: HashMap<char, usize> = HashMap::new();
-            for (i, &c) in out_sub.iter().enumerate() {
-                out_val_map.insert(c, out_idx[i]);
-            }
-
-            // Set all positions in a_idx that correspond to output indices
-            let mut a_idx = vec![0usize; a_sub.len()];
-            for (pos, &c) in a_sub.iter().enumerate() {
-                if let Some(&val) = out_val_map.get(&c) {
-                    a_idx[pos] = val;
-                }
-            }
-
-            let a_offset = compute_offset(&a_idx, a_strides);
-            let val = unsafe { a_dtype.ops().read_f64(a_ptr, a_offset).unwrap_or(0.0) };
-            sum = val;
-        } else {
-            // Iterate over contraction indices
-            for c_flat in 0..contract_size {
-                // Decode contraction position
-                let mut c_idx = vec![0usize; contract_dims.len()];
-                let mut c_rem = c_flat;
-                for i in (0..contract_dims.len()).rev() {
-                    c_idx[i] = c_rem % contract_dims[i];
-                    c_rem /= contract_dims[i];
-                }
-
-                // Build full a index
-                let mut a_idx = vec![0usize; a_sub.len()];
-                for (i, &maybe_a_pos) in out_to_a.iter().enumerate() {
-                    if let Some(a_pos) = maybe_a_pos {
-                        a_idx[a_pos] = out_idx[i];
-                    }
-                }
-                // Map contraction index to contraction dimension and then to position
-                let mut c_idx_map: HashMap<char, usize> = HashMap::new();
-                for (ci, &c) in contraction_indices.iter().enumerate() {
-                    c_idx_map.insert(c, c_idx[ci]);
-                }
-                for &(c, a_pos) in &contract_in_a {
-                    if let Some(&idx) = c_idx_map.get(&c) {
-                        a_idx[a_pos] = idx;
-                    }
-                }
-
-                // Handle repeated indices
-                if has_repeated_in_a {
-                    let mut idx_vals: HashMap<char, usize> = HashMap::new();
-                    let mut valid = true;
-                    for (pos, &c) in a_sub.iter().enumerate() {
-                        if let Some(&existing) = idx_vals.get(&c) {
-                            if a_idx[pos] != existing {
-                                valid = false;
-                                break;
-                            }
-                        } else {
-                            idx_vals.insert(c, a_idx[pos]);
-                        }
-                    }
-                    if !valid {
-                        continue;
+        let bases: Vec<isize> = out_strides.iter().map(|s| compute_offset(&out_idx, s)).collect();
+        let mut c_idx = vec![0usize; contract_dims.len()];
+        for _ in 0..contract_size {
+            unsafe {
+                for (k, operand) in operands.iter().enumerate() {
+                    let offset = bases[k] + compute_offset(&c_idx, &contract_strides[k]);
+                    if k == 0 {
+                        ops.copy_element(operand.data_ptr(), offset, term_ptr, 0);
+                    } else {
+                        ops.binary_op(BinaryOp::Mul, term_ptr, 0, operand.data_ptr(), offset, term_ptr, 0);
                     }
                 }
-
-                let a_offset = compute_offset(&a_idx, a_strides);
-                let val = unsafe { a_dtype.ops().read_f64(a_ptr, a_offset).unwrap_or(0.0) };
-                sum += val;
+                ops.binary_op(BinaryOp::Add, out_ptr, out_flat as isize * itemsize, term_ptr, 0, out_ptr, out_flat);
             }
+            increment_indices(&mut c_idx, &contract_dims);
         }
-
-        // Write result using dtype-aware method
-        let out_dtype = result.dtype();
-        unsafe {
-            out_dtype.ops().write_f64(out_ptr as *mut u8, out_flat, sum);
-        }
+        increment_indices(&mut out_idx, &output_shape);
     }
 
-    Ok(())
+    result
 }
 
 fn compute_offset(idx: &[usize], strides: &[isize]) -> isize {
@@ -517,7 +392,7 @@ fn can_use_blas(a_sub: &[char], b_sub: &[char]) -> bool {
     true
 }
 
-/// Binary einsum with BLAS optimization.
+/// Try to compute binary contraction using BLAS (matmul).
 ///
 /// For contractions without repeated indices, we can convert to matmul:
 /// 1. Permute A so free indices come first, contracted indices last
@@ -526,39 +401,6 @@ fn can_use_blas(a_sub: &[char], b_sub: &[char]) -> bool {
 /// 4. Reshape B to 2D: (product of contracted, product of free)
 /// 5. Matmul A @ B → (A_free_prod, B_free_prod)
 /// 6. Reshape to output shape and permute if needed
-fn einsum_binary(
-    parsed: &ParsedSubscript,
-    a: &RumpyArray,
-    b: &RumpyArray,
-    result: &RumpyArray,
-    dim_map: &HashMap<char, usize>,
-    contraction_indices: &[char],
-    _output_strides: &[usize],
-) -> Result<(), String> {
-    let a_sub = &parsed.inputs[0];
-    let b_sub = &parsed.inputs[1];
-    let out_sub = &parsed.output;
-
-    // Try BLAS path for simple contractions
-    if can_use_blas(a_sub, b_sub) && !contraction_indices.is_empty() {
-        if let Some(blas_result) = try_blas_contraction(a, b, a_sub, b_sub, out_sub, dim_map, contraction_indices) {
-            // Copy result (dtype-aware)
-            let out_ptr = result.data_ptr() as *mut u8;
-            let blas_ptr = blas_result.data_ptr();
-            let itemsize = result.dtype().itemsize();
-            let size = result.size() * itemsize;
-            unsafe {
-                std::ptr::copy_nonoverlapping(blas_ptr, out_ptr, size);
-            }
-            return Ok(());
-        }
-    }
-
-    // Fall back to element-wise implementation
-    einsum_binary_elementwise(parsed, a, b, result, dim_map, contraction_indices)
-}
-
-/// Try to compute binary contraction using BLAS (matmul).
 fn try_blas_contraction(
     a: &RumpyArray,
     b: &RumpyArray,
@@ -591,10 +433,10 @@ fn try_blas_contraction(
     let b_free_dims: Vec<usize> = b_free.iter().map(|c| dim_map[c]).collect();
     let b_contract_dims: Vec<usize> = b_contract.iter().map(|c| dim_map[c]).collect();
 
-    let a_free_prod: usize = a_free_dims.iter().product::<usize>().max(1);
-    let a_contract_prod: usize = a_contract_dims.iter().product::<usize>().max(1);
-    let b_free_prod: usize = b_free_dims.iter().product::<usize>().max(1);
-    let b_contract_prod: usize = b_contract_dims.iter().product::<usize>().max(1);
+    let a_free_prod: usize = a_free_dims.iter().product::<usize>();
+    let a_contract_prod: usize = a_contract_dims.iter().product::<usize>();
+    let b_free_prod: usize = b_free_dims.iter().product::<usize>();
+    let b_contract_prod: usize = b_contract_dims.iter().product::<usize>();
 
     // Contract dimensions must match
     if a_contract_prod != b_contract_prod {
@@ -637,11 +479,6 @@ fn try_blas_contraction(
     let mut inter_shape: Vec<usize> = a_free_dims.clone();
     inter_shape.extend(&b_free_dims);
 
-    // Handle scalar output
-    if inter_shape.is_empty() {
-        return Some(matmul_result);
-    }
-
     let reshaped = matmul_result.reshape(inter_shape.clone())?;
 
     // Check if output order matches (a_free, b_free)
@@ -659,121 +496,6 @@ fn try_blas_contraction(
     }
 }
 
-/// Element-wise binary einsum (fallback for complex cases).
-fn einsum_binary_elementwise(
-    parsed: &ParsedSubscript,
-    a: &RumpyArray,
-    b: &RumpyArray,
-    result: &RumpyArray,
-    dim_map: &HashMap<char, usize>,
-    contraction_indices: &[char],
-) -> Result<(), String> {
-    let a_sub = &parsed.inputs[0];
-    let b_sub = &parsed.inputs[1];
-    let out_sub = &parsed.output;
-
-    // Compute dimensions
-    let out_dims: Vec<usize> = out_sub.iter().map(|c| dim_map[c]).collect();
-    let contract_dims: Vec<usize> = contraction_indices.iter().map(|c| dim_map[c]).collect();
-    let out_shape = if out_dims.is_empty() { vec![1] } else { out_dims.clone() };
-    let out_strides_local = compute_strides(&out_shape);
-    let contract_size: usize = contract_dims.iter().product();
-    let out_size: usize = out_shape.iter().product();
-
-    // Build index mappings
-    let out_to_a: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-    let out_to_b: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| b_sub.iter().position(|bc| bc == c))
-        .collect();
-    let contract_in_a: Vec<usize> = contraction_indices.iter()
-        .filter_map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-    let contract_in_b: Vec<usize> = contraction_indices.iter()
-        .filter_map(|c| b_sub.iter().position(|bc| bc == c))
-        .collect();
-
-    let a_strides = a.strides();
-    let b_strides = b.strides();
-    let a_dtype = a.dtype();
-    let b_dtype = b.dtype();
-
-    let a_ptr = a.data_ptr();
-    let b_ptr = b.data_ptr();
-    let out_ptr = result.data_ptr();
-
-    // Iterate over output positions
-    for out_flat in 0..out_size {
-        // Decode output position
-        let mut out_idx = vec![0usize; out_shape.len()];
-        let mut rem = out_flat;
-        for i in 0..out_shape.len() {
-            out_idx[i] = rem / out_strides_local[i];
-            rem %= out_strides_local[i];
-        }
-
-        // Sum over contraction indices
-        let mut sum = 0.0f64;
-
-        let contract_iters = if contract_size == 0 { 1 } else { contract_size };
-
-        for c_flat in 0..contract_iters {
-            // Decode contraction position
-            let mut c_idx = vec![0usize; contract_dims.len()];
-            if !contract_dims.is_empty() {
-                let mut c_rem = c_flat;
-                for i in (0..contract_dims.len()).rev() {
-                    c_idx[i] = c_rem % contract_dims[i];
-                    c_rem /= contract_dims[i];
-                }
-            }
-
-            // Build a index
-            let mut a_idx = vec![0usize; a_sub.len()];
-            for (i, &maybe_a_pos) in out_to_a.iter().enumerate() {
-                if let Some(a_pos) = maybe_a_pos {
-                    a_idx[a_pos] = out_idx[i];
-                }
-            }
-            for (ci, &a_pos) in contract_in_a.iter().enumerate() {
-                a_idx[a_pos] = c_idx[ci];
-            }
-
-            // Build b index
-            let mut b_idx = vec![0usize; b_sub.len()];
-            for (i, &maybe_b_pos) in out_to_b.iter().enumerate() {
-                if let Some(b_pos) = maybe_b_pos {
-                    b_idx[b_pos] = out_idx[i];
-                }
-            }
-            for (ci, &b_pos) in contract_in_b.iter().enumerate() {
-                b_idx[b_pos] = c_idx[ci];
-            }
-
-            let a_offset = compute_offset(&a_idx, a_strides);
-            let b_offset = compute_offset(&b_idx, b_strides);
-
-            let a_val: f64 = unsafe {
-                a_dtype.ops().read_f64(a_ptr, a_offset).unwrap_or(0.0)
-            };
-            let b_val: f64 = unsafe {
-                b_dtype.ops().read_f64(b_ptr, b_offset).unwrap_or(0.0)
-            };
-
-            sum += a_val * b_val;
-        }
-
-        // Write result using dtype-aware method
-        let out_dtype = result.dtype();
-        unsafe {
-            out_dtype.ops().write_f64(out_ptr as *mut u8, out_flat, sum);
-        }
-    }
-
-    Ok(())
-}
-
 /// Multi-operand einsum (3+ operands).
 ///
 /// For now, uses left-to-right pairwise contraction.
@@ -781,11 +503,7 @@ fn einsum_binary_elementwise(
 fn einsum_multi(
     parsed: &ParsedSubscript,
     operands: &[&RumpyArray],
-    result: &RumpyArray,
-    _dim_map: &HashMap<char, usize>,
-    _contraction_indices: &[char],
-    _output_strides: &[usize],
-) -> Result<(), String> {
+) -> Result<RumpyArray, String> {
     if operands.len() < 2 {
         return Err("Multi-operand einsum requires at least 2 operands".to_string());
     }
@@ -868,16 +586,7 @@ fn einsum_multi(
         current_sub = out_indices;
     }
 
-    // Copy result to output array (dtype-aware)
-    let out_ptr = result.data_ptr() as *mut u8;
-    let cur_ptr = current.data_ptr();
-    let itemsize = result.dtype().itemsize();
-    let size = result.size() * itemsize;
-    unsafe {
-        std::ptr::copy_nonoverlapping(cur_ptr, out_ptr, size);
-    }
-
-    Ok(())
+    Ok(current)
 }
 
 /// Compute optimal contraction path.
diff --git a/src/ops/inner.rs b/src/ops/inner.rs
index 6950523..dfb127d 100644
--- a/src/ops/inner.rs
+++ b/src/ops/inner.rs
@@ -30,18 +30,11 @@ impl GufuncKernel for InnerKernel {
         let b = &inputs[1];
         let c = &outputs[0];
 
-        let n = a.shape()[0];
-
-        // Inner product: sum_i a[i] * b[i]
-        let mut sum = 0.0;
-        for i in 0..n {
-            sum += a.get_element(&[i]) * b.get_element(&[i]);
-        }
-
-        // Write scalar result
-        let c_ptr = c.data_ptr() as *mut f64;
-        unsafe {
-            *c_ptr = sum;
+        // Inner product: sum_i a[i] * b[i], in the output dtype
+        if let Some(sum) = crate::ops::matmul::matmul(a, b) {
+            unsafe {
+                c.dtype().ops().copy_element(sum.data_ptr(), 0, c.data_ptr() as *mut u8, 0);
+            }
         }
     }
 }
@@ -67,6 +60,9 @@ impl GufuncKernel for InnerKernel {
 /// let c = rp.inner(a, b);    // (3,) - 3 inner products
 /// ```
 pub fn inner(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    if !a.dtype().is_numeric() || !b.dtype().is_numeric() {
+        return None;
+    }
     let kernel = InnerKernel::new();
     let mut results = gufunc_call(&kernel, &[a, b])?;
     results.pop()
diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index 68a70ed..df29a51 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -61,19 +61,6 @@ fn faer_col_to_rumpy(col: ColRef<'_, f64>) -> RumpyArray {
     arr
 }
 
-/// Compute trace of a 2D matrix (sum of diagonal elements).
-pub fn trace(a: &RumpyArray) -> Option<f64> {
-    if a.ndim() != 2 {
-        return None;
-    }
-    let n = a.shape()[0].min(a.shape()[1]);
-    let mut sum = 0.0;
-    for i in 0..n {
-        sum += a.get_element(&[i, i]);
-    }
-    Some(sum)
-}
-
 /// Compute matrix inverse.
 pub fn inv(a: &RumpyArray) -> Option<RumpyArray> {
     if a.ndim() != 2 {
@@ -825,214 +812,50 @@ pub fn eig(a: &RumpyArray) -> Option<(RumpyArray, RumpyArray)> {
 
 /// Vector dot product (conjugate first argument for complex).
 /// For 1D arrays: sum(conj(a) * b)
-/// For nD arrays: dot product over last axes (flattened).
-pub fn vdot(a: &RumpyArray, b: &RumpyArray) -> Option<f64> {
-    if a.size() != b.size() {
+/// For nD arrays: the same over the flattened arrays. Returns a 0-d array.
+pub fn vdot(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    if a.size() != b.size() || !a.dtype().is_numeric() || !b.dtype().is_numeric() {
         return None;
     }
-
+    let conj = match a.dtype().kind() {
+        DTypeKind::Complex64 | DTypeKind::Complex128 => a.conj(),
+        _ => a.clone(),
+    };
     let n = a.size();
-    if n == 0 {
-        return Some(0.0);
-    }
-
-    // Fast path for contiguous float64 arrays using faer's optimized matmul
-    // Compute as row × column: [1,n] @ [n,1] -> [1,1]
-    if a.is_c_contiguous() && b.is_c_contiguous()
-        && a.dtype().kind() == DTypeKind::Float64
-        && b.dtype().kind() == DTypeKind::Float64
-    {
-        unsafe {
-            // Treat 'a' as row vector [1, n]
-            let fa = faer::mat::from_raw_parts::<f64, usize, usize>(
-                a.data_ptr() as *const f64,
-                1, n,  // 1 row, n cols
-                n as isize, 1,  // row_stride (not used), col_stride = 1
-            );
-            // Treat 'b' as column vector [n, 1]
-            let fb = faer::mat::from_raw_parts::<f64, usize, usize>(
-                b.data_ptr() as *const f64,
-                n, 1,  // n rows, 1 col
-                1, 1,  // row_stride = 1, col_stride (not used)
-            );
-            // Result is [1, 1]
-            let mut result = 0.0f64;
-            let mut fc = faer::mat::from_raw_parts_mut::<f64, usize, usize>(
-                &mut result as *mut f64,
-                1, 1,
-                1, 1,
-            );
-            faer::linalg::matmul::matmul(
-                fc.as_mut(),
-                fa.as_ref(),
-                fb.as_ref(),
-                None,
-                1.0,
-                faer::Parallelism::None,
-            );
-            return Some(result);
-        }
-    }
-
-    // General path for non-contiguous or other dtypes
-    let a_ptr = a.data_ptr();
-    let b_ptr = b.data_ptr();
-    let a_dtype = a.dtype();
-    let b_dtype = b.dtype();
-
-    let sum = a.iter_offsets().zip(b.iter_offsets()).fold(0.0, |acc, (a_off, b_off)| {
-        let a_val = unsafe { a_dtype.ops().read_f64(a_ptr, a_off).unwrap_or(0.0) };
-        let b_val = unsafe { b_dtype.ops().read_f64(b_ptr, b_off).unwrap_or(0.0) };
-        acc + a_val * b_val
-    });
-
-    Some(sum)
+    crate::ops::matmul::matmul(&conj.reshape(vec![n])?, &b.reshape(vec![n])?)
 }
 
 /// Kronecker product of two arrays.
 pub fn kron(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
-    if a.ndim() < 1 || b.ndim() < 1 {
-        return None;
-    }
-
-    // Broadcast to same ndim (prepend 1s to smaller)
-    let max_ndim = a.ndim().max(b.ndim());
-    let mut a_shape = vec![1usize; max_ndim];
-    let mut b_shape = vec![1usize; max_ndim];
-
-    for i in 0..a.ndim() {
-        a_shape[max_ndim - a.ndim() + i] = a.shape()[i];
-    }
-    for i in 0..b.ndim() {
-        b_shape[max_ndim - b.ndim() + i] = b.shape()[i];
-    }
-
-    // Result shape is element-wise product
-    let mut out_shape = Vec::with_capacity(max_ndim);
-    for i in 0..max_ndim {
-        out_shape.push(a_shape[i] * b_shape[i]);
-    }
-
-    let result = RumpyArray::zeros(out_shape.clone(), DType::float64());
-
-    // For 2D case (most common)
-    if max_ndim == 2 {
-        let (m, n) = (a_shape[0], a_shape[1]);
-        let (p, q) = (b_shape[0], b_shape[1]);
-        let out_cols = out_shape[1];
-
-        // Fast path for contiguous float64 arrays
-        if a.is_c_contiguous() && b.is_c_contiguous()
-            && a.dtype().kind() == DTypeKind::Float64
-            && b.dtype().kind() == DTypeKind::Float64
-        {
-            let a_ptr = a.data_ptr() as *const f64;
-            let b_ptr = b.data_ptr() as *const f64;
-            let out_ptr = result.data_ptr() as *mut f64;
-
-            for i in 0..m {
-                for j in 0..n {
-                    let a_val = unsafe { *a_ptr.add(i * n + j) };
-                    for k in 0..p {
-                        for l in 0..q {
-                            let b_val = unsafe { *b_ptr.add(k * q + l) };
-                            let out_i = i * p + k;
-                            let out_j = j * q + l;
-                            unsafe {
-                                *out_ptr.add(out_i * out_cols + out_j) = a_val * b_val;
-                            }
-                        }
-                    }
-                }
-            }
-        } else {
-            // General path
-            for i in 0..m {
-                for j in 0..n {
-                    let a_val = a.get_element(&[i, j]);
-                    for k in 0..p {
-                        for l in 0..q {
-                            let b_val = b.get_element(&[k, l]);
-                            let out_i = i * p + k;
-                            let out_j = j * q + l;
-                            unsafe {
-                                let ptr = result.data_ptr().add((out_i * out_cols + out_j) * 8) as *mut f64;
-                                *ptr = a_val * b_val;
-                            }
-                        }
-                    }
-                }
-            }
-        }
-    } else if max_ndim == 1 {
-        // 1D case
-        let m = a_shape[0];
-        let p = b_shape[0];
-
-        // Fast path for contiguous float64
-        if a.is_c_contiguous() && b.is_c_contiguous()
-            && a.dtype().kind() == DTypeKind::Float64
-            && b.dtype().kind() == DTypeKind::Float64
-        {
-            let a_ptr = a.data_ptr() as *const f64;
-            let b_ptr = b.data_ptr() as *const f64;
-            let out_ptr = result.data_ptr() as *mut f64;
-
-            for i in 0..m {
-                let a_val = unsafe { *a_ptr.add(i) };
-                for k in 0..p {
-                    let b_val = unsafe { *b_ptr.add(k) };
-                    unsafe {
-                        *out_ptr.add(i * p + k) = a_val * b_val;
-                    }
-                }
-            }
-        } else {
-            for i in 0..m {
-                let a_val = a.get_element(&[i]);
-                for k in 0..p {
-                    let b_val = b.get_element(&[k]);
-                    unsafe {
-                        let ptr = result.data_ptr().add((i * p + k) * 8) as *mut f64;
-                        *ptr = a_val * b_val;
-                    }
-                }
-            }
-        }
-    } else {
-        // General nD case - not yet implemented
-        return None;
-    }
-
-    Some(result)
+    // Interleave the axes: a at (a0, 1, a1, 1, ...) times b at (1, b0, 1, b1, ...)
+    let ndim = a.ndim().max(b.ndim());
+    let padded = |x: &RumpyArray| {
+        let mut shape = vec![1usize; ndim - x.ndim()];
+        shape.extend_from_slice(x.shape());
+        shape
+    };
+    let (a_shape, b_shape) = (padded(a), padded(b));
+    let a_inter: Vec<usize> = a_shape.iter().flat_map(|&d| [d, 1]).collect();
+    let b_inter: Vec<usize> = b_shape.iter().flat_map(|&d| [1, d]).collect();
+    let out_shape: Vec<usize> = a_shape.iter().zip(&b_shape).map(|(x, y)| x * y).collect();
+
+    a.reshape(a_inter)?
+        .binary_op(&b.reshape(b_inter)?, crate::ops::BinaryOp::Mul).ok()?
+        .reshape(out_shape)
 }
 
 /// Cross product of two 3D vectors.
 pub fn cross(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    use crate::array::manipulation::roll;
+    use crate::ops::BinaryOp::{Mul, Sub};
+
     // Simplified: only handle 1D arrays of length 3
-    if a.ndim() != 1 || b.ndim() != 1 {
-        return None;
-    }
-    if a.shape()[0] != 3 || b.shape()[0] != 3 {
+    if a.shape() != [3] || b.shape() != [3] {
         return None;
     }
-
-    let a0 = a.get_element(&[0]);
-    let a1 = a.get_element(&[1]);
-    let a2 = a.get_element(&[2]);
-    let b0 = b.get_element(&[0]);
-    let b1 = b.get_element(&[1]);
-    let b2 = b.get_element(&[2]);
-
-    let result = RumpyArray::zeros(vec![3], DType::float64());
-    unsafe {
-        let ptr = result.data_ptr() as *mut f64;
-        *ptr = a1 * b2 - a2 * b1;
-        *ptr.add(1) = a2 * b0 - a0 * b2;
-        *ptr.add(2) = a0 * b1 - a1 * b0;
-    }
-
-    Some(result)
+    let left = roll(a, -1, None).binary_op(&roll(b, -2, None), Mul).ok()?;
+    let right = roll(a, -2, None).binary_op(&roll(b, -1, None), Mul).ok()?;
+    left.binary_op(&right, Sub).ok()
 }
 
 /// Singular values only (no U or Vt).
@@ -1076,15 +899,6 @@ pub fn matrix_power(a: &RumpyArray, n: i64) -> Option<RumpyArray> {
     if a.shape()[1] != size {
         return None; // Must be square
     }
-    if size == 0 {
-        return Some(RumpyArray::zeros(vec![0, 0], DType::float64()));
-    }
-
-    // Handle n == 0: return identity
-    if n == 0 {
-        return Some(RumpyArray::eye(size, DType::float64()));
-    }
-
     // For negative powers, compute inverse first
     let base = if n < 0 {
         inv(a)?
@@ -1094,7 +908,7 @@ pub fn matrix_power(a: &RumpyArray, n: i64) -> Option<RumpyArray> {
     let exp = n.unsigned_abs();
 
     // Binary exponentiation for efficiency
-    let mut result = RumpyArray::eye(size, DType::float64());
+    let mut result = RumpyArray::eye(size, base.dtype());
     let mut current = base;
     let mut remaining = exp;
 
@@ -1246,85 +1060,25 @@ pub fn tensordot(a: &RumpyArray, b: &RumpyArray, axes: (Vec<usize>, Vec<usize>))
         }
     }
 
-    // Simple case: tensordot with axes=1 (matmul-like)
-    if a.ndim() == 2 && b.ndim() == 2 && a_axes == vec![1] && b_axes == vec![0] {
-        // This is just matrix multiplication
-        return crate::ops::matmul::matmul(a, b);
-    }
-
-    // General case: compute result shape and contract
-    // Result shape = [a_shape without a_axes] + [b_shape without b_axes]
-    let mut result_shape = Vec::new();
-    for i in 0..a.ndim() {
-        if !a_axes.contains(&i) {
-            result_shape.push(a.shape()[i]);
-        }
-    }
-    for i in 0..b.ndim() {
-        if !b_axes.contains(&i) {
-            result_shape.push(b.shape()[i]);
-        }
-    }
-
-    if result_shape.is_empty() {
-        result_shape.push(1); // Scalar result
-    }
-
-    let result = RumpyArray::zeros(result_shape.clone(), DType::float64());
-
-    // For now, only support up to 2D arrays
-    if a.ndim() > 2 || b.ndim() > 2 {
+    // A contracted axis may be named only once
+    let distinct = |axes: &[usize]| axes.iter().enumerate().all(|(i, ax)| !axes[..i].contains(ax));
+    if !distinct(&a_axes) || !distinct(&b_axes) {
         return None;
     }
 
-    // 1D cases
-    if a.ndim() == 1 && b.ndim() == 1 {
-        // Inner product
-        let mut sum = 0.0;
-        for i in 0..a.shape()[0] {
-            sum += a.get_element(&[i]) * b.get_element(&[i]);
-        }
-        unsafe {
-            let ptr = result.data_ptr() as *mut f64;
-            *ptr = sum;
-        }
-        return Some(result);
-    }
+    // One matrix product: (a's free axes, contracted) @ (contracted, b's free axes)
+    let a_free: Vec<usize> = (0..a.ndim()).filter(|i| !a_axes.contains(i)).collect();
+    let b_free: Vec<usize> = (0..b.ndim()).filter(|i| !b_axes.contains(i)).collect();
+    let len = |x: &RumpyArray, axes: &[usize]| axes.iter().map(|&ax| x.shape()[ax]).product::<usize>();
+    let (m, n, p) = (len(a, &a_free), len(a, &a_axes), len(b, &b_free));
 
-    // 2D x 1D or 1D x 2D
-    if a.ndim() == 2 && b.ndim() == 1 {
-        // axes=([1], [0]) means matrix-vector product
-        if a_axes == vec![1] && b_axes == vec![0] {
-            for i in 0..a.shape()[0] {
-                let mut sum = 0.0;
-                for j in 0..a.shape()[1] {
-                    sum += a.get_element(&[i, j]) * b.get_element(&[j]);
-                }
-                unsafe {
-                    let ptr = result.data_ptr().add(i * 8) as *mut f64;
-                    *ptr = sum;
-                }
-            }
-            return Some(result);
-        }
-    }
-
-    if a.ndim() == 1 && b.ndim() == 2 {
-        // axes=([0], [0]) means vector-matrix product
-        if a_axes == vec![0] && b_axes == vec![0] {
-            for j in 0..b.shape()[1] {
-                let mut sum = 0.0;
-                for i in 0..a.shape()[0] {
-                    sum += a.get_element(&[i]) * b.get_element(&[i, j]);
-                }
-                unsafe {
-                    let ptr = result.data_ptr().add(j * 8) as *mut f64;
-                    *ptr = sum;
-                }
-            }
-            return Some(result);
-        }
-    }
+    let result_shape: Vec<usize> = a_free.iter().map(|&ax| a.shape()[ax])
+        .chain(b_free.iter().map(|&ax| b.shape()[ax]))
+        .collect();
+    let a_perm: Vec<usize> = a_free.iter().chain(&a_axes).copied().collect();
+    let b_perm: Vec<usize> = b_axes.iter().chain(&b_free).copied().collect();
 
-    None // Unsupported case
+    let a_2d = a.transpose_axes(&a_perm).reshape(vec![m, n])?;
+    let b_2d = b.transpose_axes(&b_perm).reshape(vec![n, p])?;
+    crate::ops::matmul::matmul(&a_2d, &b_2d)?.reshape(result_shape)
 }
diff --git a/src/ops/matmul.rs b/src/ops/matmul.rs
index aa195ff..c660094 100644
--- a/src/ops/matmul.rs
+++ b/src/ops/matmul.rs
@@ -4,6 +4,7 @@
 //! Uses BLAS (Accelerate on macOS) when available, falls back to faer.
 
 use crate::array::{DType, RumpyArray};
+use crate::array::dtype::DTypeKind;
 use crate::ops::gufunc::{gufunc_call, GufuncKernel, GufuncSignature};
 
 // Link BLAS when accelerate feature is enabled
@@ -32,14 +33,17 @@ impl GufuncKernel for MatmulKernel {
     }
 
     fn call(&self, inputs: &[RumpyArray], outputs: &mut [RumpyArray]) {
-        let a = &inputs[0];
-        let b = &inputs[1];
         let c = &outputs[0];
+        let dtype = c.dtype();
+        // Multiply in the output dtype
+        let in_dtype = |x: &RumpyArray| {
+            if x.dtype() == dtype { x.clone() } else { x.astype(dtype.clone()) }
+        };
+        let (a, b) = (&in_dtype(&inputs[0]), &in_dtype(&inputs[1]));
 
         let m = a.shape()[0];
         let n = a.shape()[1];
         let p = b.shape()[1];
-        let dtype = c.dtype();
 
         #[cfg(feature = "accelerate")]
         {
@@ -133,80 +137,63 @@ impl GufuncKernel for MatmulKernel {
             matmul_faer_c32(a, b, c, m, n, p);
         } else if dtype == DType::complex128() {
             matmul_faer_c64(a, b, c, m, n, p);
-        } else if dtype == DType::int64() {
-            matmul_generic::<i64>(a, b, c, m, n, p);
-        } else if dtype == DType::int32() {
-            matmul_generic::<i32>(a, b, c, m, n, p);
-        } else if dtype == DType::bool() {
-            matmul_bool(a, b, c, m, n, p);
         } else {
-            // Unsupported dtype - zero output
-        }
-    }
-}
-
-/// Bool matmul: C[i,j] = any(A[i,k] AND B[k,j] for all k)
-fn matmul_bool(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize) {
-    let a_row_stride = a.strides()[0] as usize;
-    let a_col_stride = a.strides()[1] as usize;
-    let b_row_stride = b.strides()[0] as usize;
-    let b_col_stride = b.strides()[1] as usize;
-    let c_row_stride = c.strides()[0] as usize;
-    let c_col_stride = c.strides()[1] as usize;
-
-    let a_ptr = a.data_ptr();
-    let b_ptr = b.data_ptr();
-    let c_ptr = c.data_ptr() as *mut u8;
-
-    for i in 0..m {
-        for j in 0..p {
-            let mut result = false;
-            for k in 0..n {
-                unsafe {
-                    let a_val = *a_ptr.add(i * a_row_stride + k * a_col_stride) != 0;
-                    let b_val = *b_ptr.add(k * b_row_stride + j * b_col_stride) != 0;
-                    if a_val && b_val {
-                        result = true;
-                        break; // Short-circuit: any true is enough
+            match dtype.kind() {
+                DTypeKind::Int64 => matmul_generic(a, b, c, m, n, p, |s: i64, x: i64, y| s.wrapping_add(x.wrapping_mul(y))),
+                DTypeKind::Int32 => matmul_generic(a, b, c, m, n, p, |s: i32, x: i32, y| s.wrapping_add(x.wrapping_mul(y))),
+                DTypeKind::Int16 => matmul_generic(a, b, c, m, n, p, |s: i16, x: i16, y| s.wrapping_add(x.wrapping_mul(y))),
+                DTypeKind::Int8 => matmul_generic(a, b, c, m, n, p, |s: i8, x: i8, y| s.wrapping_add(x.wrapping_mul(y))),
+                DTypeKind::Uint64 => matmul_generic(a, b, c, m, n, p, |s: u64, x: u64, y| s.wrapping_add(x.wrapping_mul(y))),
+                DTypeKind::Uint32 => matmul_generic(a, b, c, m, n, p, |s: u32, x: u32, y| s.wrapping_add(x.wrapping_mul(y))),
+                DTypeKind::Uint16 => matmul_generic(a, b, c, m, n, p, |s: u16, x: u16, y| s.wrapping_add(x.wrapping_mul(y))),
+                DTypeKind::Uint8 => matmul_generic(a, b, c, m, n, p, |s: u8, x: u8, y| s.wrapping_add(x.wrapping_mul(y))),
+                // Bool: C[i,j] = any(A[i,k] AND B[k,j] for all k)
+                DTypeKind::Bool => matmul_generic(a, b, c, m, n, p, |s: u8, x: u8, y| (s != 0 || (x != 0 && y != 0)) as u8),
+                // float16 sums in float32 and rounds once
+                DTypeKind::Float16 => {
+                    let wide = RumpyArray::zeros(vec![m, p], DType::float32());
+                    matmul_faer_f32(&a.astype(DType::float32()), &b.astype(DType::float32()), &wide, m, n, p);
+                    let narrow = wide.astype(DType::float16());
+                    let c_ptr = c.data_ptr() as *mut u8;
+                    for (idx, off) in narrow.iter_offsets().zip(c.iter_offsets()) {
+                        unsafe {
+                            dtype.ops().copy_element(narrow.data_ptr(), idx, c_ptr.offset(off), 0);
+                        }
                     }
                 }
-            }
-            unsafe {
-                *c_ptr.add(i * c_row_stride + j * c_col_stride) = result as u8;
+                // matmul() rejects every other dtype
+                _ => unreachable!("matmul of a non-numeric dtype"),
             }
         }
     }
 }
 
-/// Generic matmul for integer types (no BLAS/faer support)
-fn matmul_generic<T>(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize)
+/// Generic matmul for integer and bool types (no BLAS/faer support)
+fn matmul_generic<T>(
+    a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize,
+    mul_add: impl Fn(T, T, T) -> T,
+)
 where
-    T: Copy + Default + std::ops::Add<Output = T> + std::ops::Mul<Output = T>,
+    T: Copy + Default,
 {
-    let elem_size = std::mem::size_of::<T>() as isize;
-    let a_row_stride = (a.strides()[0] / elem_size) as usize;
-    let a_col_stride = (a.strides()[1] / elem_size) as usize;
-    let b_row_stride = (b.strides()[0] / elem_size) as usize;
-    let b_col_stride = (b.strides()[1] / elem_size) as usize;
-    let c_row_stride = (c.strides()[0] / elem_size) as usize;
-    let c_col_stride = (c.strides()[1] / elem_size) as usize;
-
-    let a_ptr = a.data_ptr() as *const T;
-    let b_ptr = b.data_ptr() as *const T;
-    let c_ptr = c.data_ptr() as *mut T;
+    let (a_strides, b_strides, c_strides) = (a.strides(), b.strides(), c.strides());
+    let at = |strides: &[isize], i: usize, j: usize| i as isize * strides[0] + j as isize * strides[1];
+    let a_ptr = a.data_ptr();
+    let b_ptr = b.data_ptr();
+    let c_ptr = c.data_ptr() as *mut u8;
 
     for i in 0..m {
         for j in 0..p {
             let mut sum = T::default();
             for k in 0..n {
                 unsafe {
-                    let a_val = *a_ptr.add(i * a_row_stride + k * a_col_stride);
-                    let b_val = *b_ptr.add(k * b_row_stride + j * b_col_stride);
-                    sum = sum + a_val * b_val;
+                    let a_val = *(a_ptr.offset(at(a_strides, i, k)) as *const T);
+                    let b_val = *(b_ptr.offset(at(b_strides, k, j)) as *const T);
+                    sum = mul_add(sum, a_val, b_val);
                 }
             }
             unsafe {
-                *c_ptr.add(i * c_row_stride + j * c_col_stride) = sum;
+                *(c_ptr.offset(at(c_strides, i, j)) as *mut T) = sum;
             }
         }
     }
@@ -355,58 +342,25 @@ fn matmul_faer_c64(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n:
 /// let c = rp.matmul(a, b);      // (3, 2, 5)
 /// ```
 pub fn matmul(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
-    // Handle 1D inputs by expanding dims
-    let (a_expanded, b_expanded, squeeze_result) = expand_for_matmul(a, b)?;
+    // Only numeric dtypes have products
+    if !a.dtype().is_numeric() || !b.dtype().is_numeric() {
+        return None;
+    }
 
-    let kernel = MatmulKernel::new();
-    let mut results = gufunc_call(&kernel, &[&a_expanded, &b_expanded])?;
+    // 1D inputs gain an axis, which the result then loses:
+    // (n,) @ (..., n, p) -> (..., p) and (..., m, n) @ (n,) -> (..., m)
+    let a_2d = if a.ndim() == 1 { a.expand_dims(0)? } else { a.clone() };
+    let b_2d = if b.ndim() == 1 { b.expand_dims(1)? } else { b.clone() };
 
-    let result = results.pop()?;
+    let kernel = MatmulKernel::new();
+    let mut result = gufunc_call(&kernel, &[&a_2d, &b_2d])?.pop()?;
 
-    // Squeeze result if we expanded inputs
-    if squeeze_result {
-        Some(result.squeeze())
-    } else {
-        Some(result)
+    if b.ndim() == 1 {
+        result = result.squeeze_axis(result.ndim() - 1);
     }
-}
-
-/// Expand 1D arrays for matmul and return whether to squeeze result.
-///
-/// NumPy semantics:
-/// - 1D @ 1D -> scalar (inner product)
-/// - 1D @ 2D -> 1D (prepend 1 to first, squeeze first dim of result)
-/// - 2D @ 1D -> 1D (append 1 to second, squeeze last dim of result)
-fn expand_for_matmul(
-    a: &RumpyArray,
-    b: &RumpyArray,
-) -> Option<(RumpyArray, RumpyArray, bool)> {
-    let a_ndim = a.ndim();
-    let b_ndim = b.ndim();
-
-    match (a_ndim, b_ndim) {
-        (1, 1) => {
-            // Inner product: (n,) @ (n,) -> ()
-            // Expand to (1, n) @ (n, 1) -> (1, 1), then squeeze
-            let a_exp = a.expand_dims(0)?;
-            let b_exp = b.expand_dims(1)?;
-            Some((a_exp, b_exp, true))
-        }
-        (1, _) => {
-            // (n,) @ (..., n, p) -> (..., p)
-            // Expand to (1, n) @ (..., n, p) -> (..., 1, p), squeeze axis -2
-            let a_exp = a.expand_dims(0)?;
-            Some((a_exp, b.clone(), true))
-        }
-        (_, 1) => {
-            // (..., m, n) @ (n,) -> (..., m)
-            // Expand to (..., m, n) @ (n, 1) -> (..., m, 1), squeeze last
-            let b_exp = b.expand_dims(1)?;
-            Some((a.clone(), b_exp, true))
-        }
-        _ => {
-            // Standard 2D+ case
-            Some((a.clone(), b.clone(), false))
-        }
+    if a.ndim() == 1 {
+        let axis = if b.ndim() == 1 { result.ndim() - 1 } else { result.ndim() - 2 };
+        result = result.squeeze_axis(axis);
     }
+    Some(result)
 }
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index b8db213..2ae955e 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -96,13 +96,13 @@ impl RumpyArray {
     /// Element-wise operation with scalar (arr op scalar).
     pub fn scalar_op(&self, scalar: f64, op: BinaryOp) -> RumpyArray {
         // Create a scalar array and use binary_op with broadcasting
-        let scalar_arr = RumpyArray::full(vec![1], scalar, self.dtype());
+        let scalar_arr = RumpyArray::full(vec![], scalar, self.dtype());
         self.binary_op(&scalar_arr, op).expect("scalar broadcast always works")
     }
 
     /// Scalar on left side (scalar op arr).
     pub fn rscalar_op(&self, scalar: f64, op: BinaryOp) -> RumpyArray {
-        let scalar_arr = RumpyArray::full(vec![1], scalar, self.dtype());
+        let scalar_arr = RumpyArray::full(vec![], scalar, self.dtype());
         scalar_arr.binary_op(self, op).expect("scalar broadcast always works")
     }
 
@@ -114,7 +114,7 @@ impl RumpyArray {
     /// Scalar comparison (arr op scalar).
     pub fn compare_scalar(&self, scalar: f64, op: ComparisonOp) -> RumpyArray {
         // Create scalar array and use broadcasting
-        let scalar_arr = RumpyArray::full(vec![1], scalar, DType::float64());
+        let scalar_arr = RumpyArray::full(vec![], scalar, DType::float64());
         self.compare(&scalar_arr, op).expect("scalar broadcast always succeeds")
     }
 
diff --git a/src/ops/outer.rs b/src/ops/outer.rs
index 6ef1c6a..176eb9e 100644
--- a/src/ops/outer.rs
+++ b/src/ops/outer.rs
@@ -79,6 +79,9 @@ impl GufuncKernel for OuterKernel {
 /// //  [12, 15]]
 /// ```
 pub fn outer(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    if !a.dtype().is_numeric() || !b.dtype().is_numeric() {
+        return None;
+    }
     // NumPy flattens inputs; we follow that behavior
     let a_flat = a.reshape(vec![a.size()])?;
     let b_flat = b.reshape(vec![b.size()])?;
diff --git a/src/python/linalg.rs b/src/python/linalg.rs
index 70f6769..29f4df8 100644
--- a/src/python/linalg.rs
+++ b/src/python/linalg.rs
@@ -45,9 +45,11 @@ pub fn outer(a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 
 /// Compute trace of a matrix (sum of diagonal elements).
 #[pyfunction]
-pub fn trace(a: &PyRumpyArray) -> PyResult<f64> {
-    linalg_ops::trace(&a.inner)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("trace requires 2D array"))
+pub fn trace(a: &PyRumpyArray) -> PyResult<super::pyarray::ReductionResult> {
+    if a.inner.ndim() != 2 {
+        return Err(pyo3::exceptions::PyValueError::new_err("trace requires 2D array"));
+    }
+    super::reductions::sum(&PyRumpyArray::new(a.inner.diagonal()), None)
 }
 
 /// Extract diagonal or construct diagonal matrix.
@@ -60,8 +62,9 @@ pub fn diag(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 
 /// Vector dot product (flattens arrays then computes inner product).
 #[pyfunction]
-pub fn vdot(a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<f64> {
+pub fn vdot(a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<super::pyarray::ReductionResult> {
     linalg_ops::vdot(&a.inner, &b.inner)
+        .map(super::pyarray::ReductionResult::Element)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("vdot: arrays must have same total size"))
 }
 
@@ -85,35 +88,31 @@ pub fn cross(a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 #[pyo3(signature = (a, b, axes=None))]
 pub fn tensordot(a: &PyRumpyArray, b: &PyRumpyArray, axes: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<PyRumpyArray> {
-    // Parse axes - can be int or tuple of two lists (default is 2)
-    let (a_axes, b_axes) = if let Some(axes) = axes {
-        if let Ok(n) = axes.extract::<usize>() {
-            // axes=n means last n axes of a and first n axes of b
-            let a_axes: Vec<usize> = (a.inner.ndim().saturating_sub(n)..a.inner.ndim()).collect();
-            let b_axes: Vec<usize> = (0..n).collect();
-            (a_axes, b_axes)
-        } else if let Ok((ax_a, ax_b)) = axes.extract::<(Vec<usize>, Vec<usize>)>() {
-            (ax_a, ax_b)
-        } else if let Ok((ax_a, ax_b)) = axes.extract::<(Vec<i64>, Vec<i64>)>() {
-            // Handle negative indices
-            let a_axes: Vec<usize> = ax_a.into_iter()
-                .map(|x| if x < 0 { (a.inner.ndim() as i64 + x) as usize } else { x as usize })
-                .collect();
-            let b_axes: Vec<usize> = ax_b.into_iter()
-                .map(|x| if x < 0 { (b.inner.ndim() as i64 + x) as usize } else { x as usize })
-                .collect();
-            (a_axes, b_axes)
-        } else {
-            return Err(pyo3::exceptions::PyValueError::new_err(
-                "axes must be integer or tuple of two lists"
-            ));
+    // axes: an int (default 2), or a pair of an axis or list of axes per operand
+    let (a_ndim, b_ndim) = (a.inner.ndim(), b.inner.ndim());
+    let bad_axes = || pyo3::exceptions::PyValueError::new_err("axes must be integer or tuple of two lists");
+    let count = match axes {
+        None => Some(2),
+        Some(axes) => axes.extract::<isize>().ok(),
+    };
+    let (a_axes, b_axes) = if let Some(n) = count {
+        // axes=n means last n axes of a and first n axes of b
+        let n = usize::try_from(n).map_err(|_| bad_axes())?;
+        if n > a_ndim || n > b_ndim {
+            return Err(pyo3::exceptions::PyValueError::new_err("tensordot: incompatible dimensions"));
         }
+        ((a_ndim - n..a_ndim).collect(), (0..n).collect())
     } else {
-        // Default: axes=2
-        let n = 2;
-        let a_axes: Vec<usize> = (a.inner.ndim().saturating_sub(n)..a.inner.ndim()).collect();
-        let b_axes: Vec<usize> = (0..n).collect();
-        (a_axes, b_axes)
+        let (ax_a, ax_b) = axes.ok_or_else(bad_axes)?
+            .extract::<(Bound<'_, pyo3::PyAny>, Bound<'_, pyo3::PyAny>)>().map_err(|_| bad_axes())?;
+        let list = |ax: &Bound<'_, pyo3::PyAny>, ndim: usize| -> PyResult<Vec<usize>> {
+            let axes = match ax.extract::<isize>() {
+                Ok(one) => vec![one],
+                Err(_) => ax.extract::<Vec<isize>>().map_err(|_| bad_axes())?,
+            };
+            axes.into_iter().map(|x| super::reductions::normalize_axis(x, ndim)).collect()
+        };
+        (list(&ax_a, a_ndim)?, list(&ax_b, b_ndim)?)
     };
 
     linalg_ops::tensordot(&a.inner, &b.inner, (a_axes, b_axes))
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index c4310aa..a070d36 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -406,7 +406,7 @@ impl PyRumpyArray {
     }
 
     /// Sum of diagonal elements.
-    fn trace(&self) -> PyResult<f64> {
+    fn trace(&self) -> PyResult<ReductionResult> {
         crate::python::linalg::trace(self)
     }
 
-- 
2.43.0


From 2a285caf9ff773a95c446cf81b2f82e85dec2b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:22 +0000
Subject: [PATCH 36/81] fix: linear algebra: singular systems are rejected,
 norms merge partial sums, SVD factors multiply back, eigenvectors have unit
 length

---
 src/ops/array_methods/reductions.rs |   7 +-
 src/ops/kernels/arithmetic.rs       |  13 +-
 src/ops/kernels/mod.rs              |   3 +
 src/ops/linalg.rs                   | 185 +++++++++++++++++++++-------
 src/ops/loops/contiguous.rs         |   6 +-
 src/ops/loops/strided.rs            |   6 +-
 src/ops/solve.rs                    |  16 ++-
 src/python/linalg.rs                |  59 ++++++++-
 8 files changed, 233 insertions(+), 62 deletions(-)

diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index d025b16..b13b8a9 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -25,7 +25,10 @@ impl RumpyArray {
     /// Sum of squares: sum(x*x). Single pass, no intermediate allocation.
     /// Used for efficient 2-norm computation: sqrt(sum_of_squares(x)).
     pub fn sum_of_squares(&self) -> f64 {
-        crate::ops::dispatch::dispatch_reduce_sum_of_squares(self).unwrap_or(0.0)
+        let floating = self.floating_operand();
+        crate::ops::dispatch::dispatch_reduce_sum_of_squares(&floating)
+            .or_else(|| crate::ops::dispatch::dispatch_reduce_sum_of_squares(&floating.copy()))
+            .unwrap_or(0.0)
     }
 
     /// Product of all elements.
@@ -74,7 +77,7 @@ impl RumpyArray {
     }
 
     /// Integers and booleans are averaged in float64.
-    fn floating_operand(&self) -> RumpyArray {
+    pub fn floating_operand(&self) -> RumpyArray {
         use crate::array::dtype::DTypeKind;
         if self.dtype().is_integer() || self.dtype().kind() == DTypeKind::Bool {
             self.astype(DType::float64())
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index ae9f60c..1995387 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -180,6 +180,8 @@ macro_rules! impl_float_arithmetic {
             fn init() -> $T { 0.0 }
             #[inline(always)]
             fn combine(acc: $T, v: $T) -> $T { acc + v * v }
+            #[inline(always)]
+            fn merge(a: $T, b: $T) -> $T { a + b }
         }
         impl BinaryKernel<$T> for Pow {
             #[inline(always)]
@@ -354,6 +356,8 @@ impl ReduceKernel<f16> for SumOfSquares {
     fn init() -> f16 { f16::ZERO }
     #[inline(always)]
     fn combine(acc: f16, v: f16) -> f16 { f16::from_f32(acc.to_f32() + v.to_f32() * v.to_f32()) }
+    #[inline(always)]
+    fn merge(a: f16, b: f16) -> f16 { a + b }
 }
 impl BinaryKernel<f16> for Pow {
     #[inline(always)]
@@ -491,6 +495,8 @@ macro_rules! impl_int_arithmetic {
             fn init() -> $T { $zero }
             #[inline(always)]
             fn combine(acc: $T, v: $T) -> $T { acc.wrapping_add(v.wrapping_mul(v)) }
+            #[inline(always)]
+            fn merge(a: $T, b: $T) -> $T { a.wrapping_add(b) }
         }
         impl BinaryKernel<$T> for Mod {
             #[inline(always)]
@@ -575,7 +581,12 @@ macro_rules! impl_complex_arithmetic {
             #[inline(always)]
             fn init() -> Complex<$F> { Complex::new(0.0 as $F, 0.0 as $F) }
             #[inline(always)]
-            fn combine(acc: Complex<$F>, v: Complex<$F>) -> Complex<$F> { acc + v * v }
+            fn combine(acc: Complex<$F>, v: Complex<$F>) -> Complex<$F> {
+                // Squared magnitude, as re^2 and im^2
+                Complex::new(acc.re + v.re * v.re, acc.im + v.im * v.im)
+            }
+            #[inline(always)]
+            fn merge(a: Complex<$F>, b: Complex<$F>) -> Complex<$F> { a + b }
         }
         impl BinaryKernel<Complex<$F>> for Pow {
             #[inline(always)]
diff --git a/src/ops/kernels/mod.rs b/src/ops/kernels/mod.rs
index 6e3a830..6671942 100644
--- a/src/ops/kernels/mod.rs
+++ b/src/ops/kernels/mod.rs
@@ -30,6 +30,9 @@ pub trait ReduceKernel<T>: Copy {
     fn init() -> T;
     /// Combine accumulator with new value.
     fn combine(acc: T, v: T) -> T;
+    /// Merge two partial accumulators.
+    #[inline(always)]
+    fn merge(a: T, b: T) -> T { Self::combine(a, b) }
 }
 
 /// Kernel for comparison operations (returns bool).
diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index df29a51..2c8cd47 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -74,15 +74,22 @@ pub fn inv(a: &RumpyArray) -> Option<RumpyArray> {
         return Some(RumpyArray::zeros(vec![0, 0], DType::float64()));
     }
 
-    // Try zero-copy path first
-    if let Some(fa) = try_as_faer_mat(a) {
-        let inv = fa.partial_piv_lu().inverse();
-        return Some(faer_to_rumpy(inv.as_ref()));
-    }
-    // Fallback: copy data
-    let fa = copy_to_faer_mat(a);
-    let inv = fa.partial_piv_lu().inverse();
-    Some(faer_to_rumpy(inv.as_ref()))
+    // Try zero-copy path first, fallback: copy data
+    let plu = if let Some(fa) = try_as_faer_mat(a) {
+        fa.partial_piv_lu()
+    } else {
+        copy_to_faer_mat(a).partial_piv_lu()
+    };
+    if is_singular(&plu) {
+        return None;
+    }
+    Some(faer_to_rumpy(plu.inverse().as_ref()))
+}
+
+/// A matrix is exactly singular when its LU factorisation has a zero pivot.
+pub fn is_singular(plu: &faer::linalg::solvers::PartialPivLu<f64>) -> bool {
+    let u = plu.compute_u();
+    (0..u.nrows()).any(|i| u[(i, i)] == 0.0)
 }
 
 /// Compute determinant of a square matrix using LU decomposition.
@@ -112,6 +119,10 @@ pub fn det(a: &RumpyArray) -> Option<f64> {
     let u = plu.compute_u();
     let mut det_val = 1.0;
     for i in 0..n {
+        // Pivots after a zero one are meaningless
+        if u[(i, i)] == 0.0 {
+            return Some(0.0);
+        }
         det_val *= u[(i, i)];
     }
 
@@ -144,7 +155,10 @@ pub fn norm(a: &RumpyArray, ord: Option<&str>) -> Option<f64> {
         2 => matrix_norm(a, ord),
         _ => {
             // For nD, default to Frobenius-like (sqrt of sum of squares)
-            Some(a.sum_of_squares().sqrt())
+            match ord {
+                None => Some(a.sum_of_squares().sqrt()),
+                Some(_) => None,
+            }
         }
     }
 }
@@ -157,6 +171,7 @@ pub fn vector_norm(a: &RumpyArray, ord: Option<f64>) -> Option<f64> {
     if n == 0 {
         return Some(0.0);
     }
+    let a = &a.floating_operand();
 
     match ord {
         None | Some(2.0) => {
@@ -187,7 +202,7 @@ pub fn vector_norm(a: &RumpyArray, ord: Option<f64>) -> Option<f64> {
             // General p-norm: (sum(|x|^p))^(1/p)
             // Compute element by element
             let abs_a = a.abs().ok()?;
-            let mut sum = 0.0;
+            let mut sum = 0.0f64;
             for offset in abs_a.iter_offsets() {
                 let val = unsafe { abs_a.dtype().ops().read_f64(abs_a.data_ptr(), offset).unwrap_or(0.0) };
                 sum += val.powf(p);
@@ -213,6 +228,7 @@ pub fn matrix_norm(a: &RumpyArray, ord: Option<&str>) -> Option<f64> {
     }
 
     let ord = ord.unwrap_or("fro");
+    let a = &a.floating_operand();
 
     match ord {
         "fro" => {
@@ -296,6 +312,101 @@ pub fn qr(a: &RumpyArray) -> Option<(RumpyArray, RumpyArray)> {
     Some((q, r))
 }
 
+/// Thin SVD of a 2-D array: (U, singular values in descending order, V).
+///
+/// faer loses singular vectors of some rank-deficient matrices, so its factors are
+/// only used when they multiply back to the matrix.
+fn thin_svd(a: &RumpyArray) -> (faer::Mat<f64>, faer::Col<f64>, faer::Mat<f64>) {
+    let mat = copy_to_faer_mat(a);
+    let decomp = mat.thin_svd();
+    let (u, s, v) = (decomp.u(), decomp.s_diagonal(), decomp.v());
+    let largest = if s.nrows() > 0 { s[0].abs() } else { 0.0 };
+    let tolerance = largest * 1e-12 * (mat.nrows().max(mat.ncols()) as f64);
+    let scaled = faer::Mat::<f64>::from_fn(u.nrows(), s.nrows(), |i, l| u[(i, l)] * s[l]);
+    let product = scaled * v.transpose();
+    let factors_match = (0..mat.nrows()).all(|i| {
+        (0..mat.ncols()).all(|j| (product[(i, j)] - mat[(i, j)]).abs() <= tolerance)
+    });
+    if factors_match || !largest.is_finite() {
+        return (u.to_owned(), s.to_owned(), v.to_owned());
+    }
+    if mat.nrows() >= mat.ncols() {
+        jacobi_svd(mat)
+    } else {
+        let (u, s, v) = jacobi_svd(mat.transpose().to_owned());
+        (v, s, u)
+    }
+}
+
+/// Thin SVD of a tall matrix by one-sided Jacobi rotations.
+fn jacobi_svd(mut w: faer::Mat<f64>) -> (faer::Mat<f64>, faer::Col<f64>, faer::Mat<f64>) {
+    let (m, n) = (w.nrows(), w.ncols());
+    let mut v = faer::Mat::<f64>::identity(n, n);
+    let dot = |w: &faer::Mat<f64>, p: usize, q: usize| (0..m).map(|i| w[(i, p)] * w[(i, q)]).sum::<f64>();
+
+    for _ in 0..60 {
+        let mut rotated = false;
+        for p in 0..n {
+            for q in p + 1..n {
+                let (alpha, beta, gamma) = (dot(&w, p, p), dot(&w, q, q), dot(&w, p, q));
+                if gamma.abs() <= f64::EPSILON * (alpha * beta).sqrt() || gamma == 0.0 {
+                    continue;
+                }
+                rotated = true;
+                let zeta = (beta - alpha) / (2.0 * gamma);
+                let t = zeta.signum() / (zeta.abs() + (1.0 + zeta * zeta).sqrt());
+                let c = 1.0 / (1.0 + t * t).sqrt();
+                let s = c * t;
+                for (mat, rows) in [(&mut w, m), (&mut v, n)] {
+                    for i in 0..rows {
+                        let (x, y) = (mat[(i, p)], mat[(i, q)]);
+                        mat[(i, p)] = c * x - s * y;
+                        mat[(i, q)] = s * x + c * y;
+                    }
+                }
+            }
+        }
+        if !rotated {
+            break;
+        }
+    }
+
+    let lengths: Vec<f64> = (0..n).map(|j| dot(&w, j, j).sqrt()).collect();
+    let mut order: Vec<usize> = (0..n).collect();
+    order.sort_by(|&x, &y| lengths[y].total_cmp(&lengths[x]));
+    let s = faer::Col::<f64>::from_fn(n, |l| lengths[order[l]]);
+    let v = faer::Mat::<f64>::from_fn(n, n, |i, l| v[(i, order[l])]);
+
+    // Left vectors are the scaled columns; a column lost to rounding is replaced by
+    // a unit vector orthogonal to the ones already there.
+    let mut u = faer::Mat::<f64>::zeros(m, n);
+    let negligible = f64::EPSILON * (m as f64) * if n > 0 { s[0] } else { 0.0 };
+    let mut axis = 0;
+    for l in 0..n {
+        let mut column: Vec<f64> = (0..m).map(|i| w[(i, order[l])] / s[l]).collect();
+        let mut accepted = s[l] > negligible;
+        while !accepted {
+            column = (0..m).map(|i| if i == axis { 1.0 } else { 0.0 }).collect();
+            axis += 1;
+            for _ in 0..2 {
+                for k in 0..l {
+                    let overlap: f64 = (0..m).map(|i| u[(i, k)] * column[i]).sum();
+                    for i in 0..m {
+                        column[i] -= overlap * u[(i, k)];
+                    }
+                }
+            }
+            let length = column.iter().map(|x| x * x).sum::<f64>().sqrt();
+            accepted = length > 1e-6 || axis >= m;
+            column.iter_mut().for_each(|x| *x /= length);
+        }
+        for i in 0..m {
+            u[(i, l)] = column[i];
+        }
+    }
+    (u, s, v)
+}
+
 /// SVD decomposition: A = U @ diag(S) @ V^T.
 ///
 /// Returns thin (U, S, Vt) where U is m×k, S is 1D length k, Vt is k×n.
@@ -304,15 +415,10 @@ pub fn svd(a: &RumpyArray) -> Option<(RumpyArray, RumpyArray, RumpyArray)> {
         return None;
     }
 
-    let decomp = if let Some(fa) = try_as_faer_mat(a) {
-        fa.thin_svd()
-    } else {
-        copy_to_faer_mat(a).thin_svd()
-    };
-
-    let u = faer_to_rumpy(decomp.u());
-    let s = faer_col_to_rumpy(decomp.s_diagonal());
-    let vt = faer_to_rumpy(decomp.v().transpose());
+    let (u, s, v) = thin_svd(a);
+    let u = faer_to_rumpy(u.as_ref());
+    let s = faer_col_to_rumpy(s.as_ref());
+    let vt = faer_to_rumpy(v.transpose());
 
     Some((u, s, vt))
 }
@@ -395,7 +501,7 @@ pub fn slogdet(a: &RumpyArray) -> Option<(f64, f64)> {
         return None; // Must be square
     }
     if n == 0 {
-        return Some((1.0, f64::NEG_INFINITY)); // Empty matrix: det = 1, log(1) = 0, but we return -inf for log(0) product convention
+        return Some((1.0, 0.0)); // Empty matrix: det = 1, log(1) = 0
     }
 
     let plu = if let Some(fa) = try_as_faer_mat(a) {
@@ -511,15 +617,8 @@ pub fn pinv(a: &RumpyArray, rcond: Option<f64>) -> Option<RumpyArray> {
         return Some(RumpyArray::zeros(vec![n, m], DType::float64()));
     }
 
-    let decomp = if let Some(fa) = try_as_faer_mat(a) {
-        fa.thin_svd()
-    } else {
-        copy_to_faer_mat(a).thin_svd()
-    };
-
-    let u = decomp.u();
-    let s = decomp.s_diagonal();
-    let vt = decomp.v().transpose();
+    let (u, s, v) = thin_svd(a);
+    let vt = v.transpose();
 
     // Cutoff for small singular values
     let rcond = rcond.unwrap_or(f64::EPSILON * (m.max(n) as f64));
@@ -588,15 +687,7 @@ pub fn lstsq(a: &RumpyArray, b: &RumpyArray, rcond: Option<f64>) -> Option<(Rump
         return Some((x, residuals, 0, s));
     }
 
-    let decomp = if let Some(fa) = try_as_faer_mat(a) {
-        fa.thin_svd()
-    } else {
-        copy_to_faer_mat(a).thin_svd()
-    };
-
-    let u = decomp.u();
-    let s_vals = decomp.s_diagonal();
-    let v = decomp.v();
+    let (u, s_vals, v) = thin_svd(a);
 
     // Determine rank based on rcond
     let rcond = rcond.unwrap_or(-1.0); // -1 means use machine precision
@@ -794,15 +885,21 @@ pub fn eig(a: &RumpyArray) -> Option<(RumpyArray, RumpyArray)> {
         }
     }
 
-    // Create complex128 eigenvectors (columns are eigenvectors)
+    // Create complex128 eigenvectors (columns are eigenvectors
     let v = RumpyArray::zeros(vec![n, n], DType::complex128());
-    for i in 0..n {
-        for j in 0..n {
+    // of unit length)
+    for j in 0..n {
+        let length = (0..n)
+            .map(|i| eigenvectors[(i, j)].re.powi(2) + eigenvectors[(i, j)].im.powi(2))
+            .sum::<f64>()
+            .sqrt();
+        let scale = if length > 0.0 { 1.0 / length } else { 1.0 };
+        for i in 0..n {
             let val = eigenvectors[(i, j)];
             unsafe {
                 let ptr = v.data_ptr().add((i * n + j) * 16) as *mut f64;
-                *ptr = val.re;
-                *ptr.add(1) = val.im;
+                *ptr = val.re * scale;
+                *ptr.add(1) = val.im * scale;
             }
         }
     }
diff --git a/src/ops/loops/contiguous.rs b/src/ops/loops/contiguous.rs
index a410e04..a779d9d 100644
--- a/src/ops/loops/contiguous.rs
+++ b/src/ops/loops/contiguous.rs
@@ -118,9 +118,9 @@ pub fn reduce<T: Copy, K: ReduceKernel<T>>(data: &[T], _kernel: K) -> T {
     }
 
     // Combine 8 accumulators in tree pattern (matches NumPy)
-    let mut acc = K::combine(
-        K::combine(K::combine(r[0], r[1]), K::combine(r[2], r[3])),
-        K::combine(K::combine(r[4], r[5]), K::combine(r[6], r[7])),
+    let mut acc = K::merge(
+        K::merge(K::merge(r[0], r[1]), K::merge(r[2], r[3])),
+        K::merge(K::merge(r[4], r[5]), K::merge(r[6], r[7])),
     );
 
     // Handle remainder
diff --git a/src/ops/loops/strided.rs b/src/ops/loops/strided.rs
index 736234c..049ffdb 100644
--- a/src/ops/loops/strided.rs
+++ b/src/ops/loops/strided.rs
@@ -104,9 +104,9 @@ pub unsafe fn reduce_strided<T: Copy, K: ReduceKernel<T>>(
     }
 
     // Combine 8 accumulators in tree pattern (matches NumPy)
-    let mut acc = K::combine(
-        K::combine(K::combine(r[0], r[1]), K::combine(r[2], r[3])),
-        K::combine(K::combine(r[4], r[5]), K::combine(r[6], r[7])),
+    let mut acc = K::merge(
+        K::merge(K::merge(r[0], r[1]), K::merge(r[2], r[3])),
+        K::merge(K::merge(r[4], r[5]), K::merge(r[6], r[7])),
     );
 
     // Handle remainder
diff --git a/src/ops/solve.rs b/src/ops/solve.rs
index f128578..e654323 100644
--- a/src/ops/solve.rs
+++ b/src/ops/solve.rs
@@ -2,7 +2,7 @@
 //!
 //! Solves Ax = b for x using LU decomposition with partial pivoting.
 
-use crate::array::RumpyArray;
+use crate::array::{DType, RumpyArray};
 use faer::prelude::SpSolver;
 
 /// Solve linear system Ax = b.
@@ -49,10 +49,13 @@ pub fn solve(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
 
     // Solve using LU with partial pivoting
     let plu = fa.partial_piv_lu();
+    if crate::ops::linalg::is_singular(&plu) {
+        return None;
+    }
     let fx = plu.solve(&fb);
 
     // Copy result to output
-    let result = RumpyArray::zeros(vec![n, m], a.dtype());
+    let result = RumpyArray::zeros(vec![n, m], DType::float64());
     let result_ptr = result.data_ptr() as *mut u8;
     let r_stride_0 = result.strides()[0];
     let r_stride_1 = result.strides()[1];
@@ -67,9 +70,16 @@ pub fn solve(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
         }
     }
 
+    // float32 systems have float32 solutions
+    let result = if a.dtype() == DType::float32() && b.dtype() == DType::float32() {
+        result.astype(DType::float32())
+    } else {
+        result
+    };
+
     // Squeeze back to 1D if input was 1D
     if squeeze {
-        Some(result.squeeze())
+        Some(result.squeeze_axis(1))
     } else {
         Some(result)
     }
diff --git a/src/python/linalg.rs b/src/python/linalg.rs
index 29f4df8..3064fbe 100644
--- a/src/python/linalg.rs
+++ b/src/python/linalg.rs
@@ -127,6 +127,8 @@ pub fn tensordot(a: &PyRumpyArray, b: &PyRumpyArray, axes: Option<&Bound<'_, pyo
 /// Solve linear system Ax = b.
 #[pyfunction]
 pub fn solve(a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    real_matrix(a)?;
+    real_matrix(b)?;
     solve_ops::solve(&a.inner, &b.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("solve: invalid dimensions or singular matrix"))
@@ -135,6 +137,7 @@ pub fn solve(a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// QR decomposition: A = QR.
 #[pyfunction]
 pub fn qr(a: &PyRumpyArray) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
+    real_matrix(a)?;
     linalg_ops::qr(&a.inner)
         .map(|(q, r)| (PyRumpyArray::new(q), PyRumpyArray::new(r)))
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("qr requires 2D array"))
@@ -144,6 +147,7 @@ pub fn qr(a: &PyRumpyArray) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
 #[pyfunction]
 #[pyo3(signature = (a, full_matrices=true))]
 pub fn svd(a: &PyRumpyArray, full_matrices: bool) -> PyResult<(PyRumpyArray, PyRumpyArray, PyRumpyArray)> {
+    real_matrix(a)?;
     // Note: we only have thin SVD, but numpy defaults to full_matrices=True
     // For now, we always return thin SVD regardless of the flag
     let _ = full_matrices; // TODO: implement full matrices support
@@ -155,6 +159,7 @@ pub fn svd(a: &PyRumpyArray, full_matrices: bool) -> PyResult<(PyRumpyArray, PyR
 /// Matrix inverse.
 #[pyfunction]
 pub fn inv(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    real_matrix(a)?;
     linalg_ops::inv(&a.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("inv requires square 2D array"))
@@ -163,6 +168,7 @@ pub fn inv(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// Eigendecomposition of symmetric matrix.
 #[pyfunction]
 pub fn eigh(a: &PyRumpyArray) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
+    real_matrix(a)?;
     linalg_ops::eigh(&a.inner)
         .map(|(w, v)| (PyRumpyArray::new(w), PyRumpyArray::new(v)))
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("eigh requires square 2D array"))
@@ -171,21 +177,46 @@ pub fn eigh(a: &PyRumpyArray) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
 /// Compute determinant of a square matrix.
 #[pyfunction]
 pub fn det(a: &PyRumpyArray) -> PyResult<f64> {
+    real_matrix(a)?;
     linalg_ops::det(&a.inner)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("det requires square 2D array"))
 }
 
+/// The order of a norm: a number or a name.
+fn norm_order(ord: Option<&Bound<'_, PyAny>>) -> PyResult<Option<String>> {
+    let Some(ord) = ord else { return Ok(None) };
+    if let Ok(name) = ord.extract::<String>() {
+        return Ok(Some(name));
+    }
+    Ok(Some(ord.extract::<f64>()?.to_string()))
+}
+
+/// The decompositions work on real matrices only.
+fn real_matrix(a: &PyRumpyArray) -> PyResult<()> {
+    use crate::array::dtype::DTypeKind;
+    match a.inner.dtype().kind() {
+        DTypeKind::Complex64 | DTypeKind::Complex128 => {
+            Err(pyo3::exceptions::PyTypeError::new_err("complex matrices are not supported"))
+        }
+        _ if !a.inner.dtype().is_numeric() => {
+            Err(pyo3::exceptions::PyTypeError::new_err("matrix must be numeric"))
+        }
+        _ => Ok(()),
+    }
+}
+
 /// Compute matrix/vector norm.
 #[pyfunction]
 #[pyo3(signature = (a, ord=None))]
-pub fn norm(a: &PyRumpyArray, ord: Option<&str>) -> PyResult<f64> {
-    linalg_ops::norm(&a.inner, ord)
+pub fn norm(a: &PyRumpyArray, ord: Option<&Bound<'_, PyAny>>) -> PyResult<f64> {
+    linalg_ops::norm(&a.inner, norm_order(ord)?.as_deref())
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("unsupported norm type"))
 }
 
 /// Cholesky decomposition: A = L @ L.T for symmetric positive-definite matrix.
 #[pyfunction]
 pub fn cholesky(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    real_matrix(a)?;
     linalg_ops::cholesky(&a.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("cholesky requires SPD matrix"))
@@ -194,6 +225,7 @@ pub fn cholesky(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// Sign and log of determinant.
 #[pyfunction]
 pub fn slogdet(a: &PyRumpyArray) -> PyResult<(f64, f64)> {
+    real_matrix(a)?;
     linalg_ops::slogdet(&a.inner)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("slogdet requires square 2D array"))
 }
@@ -201,8 +233,9 @@ pub fn slogdet(a: &PyRumpyArray) -> PyResult<(f64, f64)> {
 /// Condition number.
 #[pyfunction]
 #[pyo3(signature = (a, p=None))]
-pub fn cond(a: &PyRumpyArray, p: Option<&str>) -> PyResult<f64> {
-    linalg_ops::cond(&a.inner, p)
+pub fn cond(a: &PyRumpyArray, p: Option<&Bound<'_, PyAny>>) -> PyResult<f64> {
+    real_matrix(a)?;
+    linalg_ops::cond(&a.inner, norm_order(p)?.as_deref())
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("unsupported norm type or non-2D array"))
 }
 
@@ -210,6 +243,7 @@ pub fn cond(a: &PyRumpyArray, p: Option<&str>) -> PyResult<f64> {
 #[pyfunction]
 #[pyo3(signature = (a, tol=None))]
 pub fn matrix_rank(a: &PyRumpyArray, tol: Option<f64>) -> PyResult<usize> {
+    real_matrix(a)?;
     linalg_ops::matrix_rank(&a.inner, tol)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("matrix_rank requires 2D array"))
 }
@@ -218,6 +252,7 @@ pub fn matrix_rank(a: &PyRumpyArray, tol: Option<f64>) -> PyResult<usize> {
 #[pyfunction]
 #[pyo3(signature = (a, rcond=None))]
 pub fn pinv(a: &PyRumpyArray, rcond: Option<f64>) -> PyResult<PyRumpyArray> {
+    real_matrix(a)?;
     linalg_ops::pinv(&a.inner, rcond)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("pinv requires 2D array"))
@@ -227,6 +262,8 @@ pub fn pinv(a: &PyRumpyArray, rcond: Option<f64>) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 #[pyo3(signature = (a, b, rcond=None))]
 pub fn lstsq(a: &PyRumpyArray, b: &PyRumpyArray, rcond: Option<f64>) -> PyResult<(PyRumpyArray, PyRumpyArray, usize, PyRumpyArray)> {
+    real_matrix(a)?;
+    real_matrix(b)?;
     linalg_ops::lstsq(&a.inner, &b.inner, rcond)
         .map(|(x, residuals, rank, s)| (PyRumpyArray::new(x), PyRumpyArray::new(residuals), rank, PyRumpyArray::new(s)))
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("lstsq: invalid dimensions"))
@@ -235,6 +272,7 @@ pub fn lstsq(a: &PyRumpyArray, b: &PyRumpyArray, rcond: Option<f64>) -> PyResult
 /// Eigenvalues of a general matrix.
 #[pyfunction]
 pub fn eigvals(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    real_matrix(a)?;
     linalg_ops::eigvals(&a.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("eigvals requires square 2D array"))
@@ -243,6 +281,7 @@ pub fn eigvals(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// Eigendecomposition of a general matrix.
 #[pyfunction]
 pub fn eig(a: &PyRumpyArray) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
+    real_matrix(a)?;
     linalg_ops::eig(&a.inner)
         .map(|(w, v)| (PyRumpyArray::new(w), PyRumpyArray::new(v)))
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("eig requires square 2D array"))
@@ -251,6 +290,7 @@ pub fn eig(a: &PyRumpyArray) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
 /// Eigenvalues only for symmetric/Hermitian matrix.
 #[pyfunction]
 pub fn eigvalsh(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    real_matrix(a)?;
     linalg_ops::eigvalsh(&a.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("eigvalsh requires square 2D array"))
@@ -259,6 +299,7 @@ pub fn eigvalsh(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// Singular values only (no U or Vt).
 #[pyfunction]
 pub fn svdvals(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    real_matrix(a)?;
     linalg_ops::svdvals(&a.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("svdvals requires 2D array"))
@@ -267,6 +308,9 @@ pub fn svdvals(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// Raise a square matrix to an integer power.
 #[pyfunction]
 pub fn matrix_power(a: &PyRumpyArray, n: i64) -> PyResult<PyRumpyArray> {
+    if n < 0 {
+        real_matrix(a)?;
+    }
     linalg_ops::matrix_power(&a.inner, n)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("matrix_power requires square 2D array"))
@@ -285,6 +329,7 @@ pub fn multi_dot(arrays: Vec<PyRef<'_, PyRumpyArray>>) -> PyResult<PyRumpyArray>
 #[pyfunction]
 #[pyo3(signature = (a, ind=None))]
 pub fn tensorinv(a: &PyRumpyArray, ind: Option<usize>) -> PyResult<PyRumpyArray> {
+    real_matrix(a)?;
     linalg_ops::tensorinv(&a.inner, ind)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("tensorinv: invalid dimensions"))
@@ -294,6 +339,8 @@ pub fn tensorinv(a: &PyRumpyArray, ind: Option<usize>) -> PyResult<PyRumpyArray>
 #[pyfunction]
 #[pyo3(signature = (a, b, axes=None))]
 pub fn tensorsolve(a: &PyRumpyArray, b: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyResult<PyRumpyArray> {
+    real_matrix(a)?;
+    real_matrix(b)?;
     linalg_ops::tensorsolve(&a.inner, &b.inner, axes.as_deref())
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("tensorsolve: invalid dimensions"))
@@ -310,8 +357,8 @@ pub fn vector_norm(a: &PyRumpyArray, ord: Option<f64>) -> PyResult<f64> {
 /// Matrix norm with flexible ord parameter.
 #[pyfunction]
 #[pyo3(signature = (a, ord=None))]
-pub fn matrix_norm(a: &PyRumpyArray, ord: Option<&str>) -> PyResult<f64> {
-    linalg_ops::matrix_norm(&a.inner, ord)
+pub fn matrix_norm(a: &PyRumpyArray, ord: Option<&Bound<'_, PyAny>>) -> PyResult<f64> {
+    linalg_ops::matrix_norm(&a.inner, norm_order(ord)?.as_deref())
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("matrix_norm: unsupported norm type or invalid array"))
 }
 
-- 
2.43.0


From 48cd5a43c74c3eac31aeee5ec5a554fe12f4486b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:37 +0000
Subject: [PATCH 37/81] fix: elements read out, array() and block() own their
 memory instead of aliasing their source

---
 src/ops/dispatch.rs               | 14 +++++++-------
 src/python/creation.rs            |  8 ++++++--
 src/python/misc.rs                |  8 ++++++--
 src/python/pyarray/dunder_item.rs |  6 +++++-
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 238b19b..f3b3d97 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -1537,13 +1537,13 @@ pub fn dispatch_round(arr: &RumpyArray, decimals: i32) -> Option<RumpyArray> {
         DTypeKind::Float64 => dispatch_round_f64(arr, decimals),
         DTypeKind::Float32 => dispatch_round_f32(arr, decimals),
         // For integers, round is a no-op if decimals >= 0
-        DTypeKind::Int64 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Int32 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Int16 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint64 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint32 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint16 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint8 if decimals >= 0 => Some(arr.clone()),
+        DTypeKind::Int64 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Int32 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Int16 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint64 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint32 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint16 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint8 if decimals >= 0 => Some(arr.copy()),
         // Negative decimals on integers: round to tens, hundreds, etc.
         DTypeKind::Int64 => dispatch_round_i64(arr, decimals),
         DTypeKind::Int32 => dispatch_round_i32(arr, decimals),
diff --git a/src/python/creation.rs b/src/python/creation.rs
index 6831b60..3634735 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -341,11 +341,15 @@ pub fn asarray(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'_,
     array_impl(py, obj, dtype)
 }
 
-/// Create an array (alias for asarray).
+/// Create an array. Unlike asarray, the result never shares memory with a rumpy array.
 #[pyfunction]
 #[pyo3(signature = (obj, dtype=None))]
 pub fn array(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
-    array_impl(py, obj, dtype)
+    let result = array_impl(py, obj, dtype)?;
+    if obj.is_instance_of::<PyRumpyArray>() {
+        return Ok(PyRumpyArray::new(result.inner.copy()));
+    }
+    Ok(result)
 }
 
 /// Implementation for array/asarray.
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 5dfcf36..06127f4 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -148,7 +148,11 @@ pub fn unstack(py: Python<'_>, x: &PyRumpyArray, axis: isize) -> PyResult<Py<PyT
     for i in 0..axis_len {
         // Take slice along axis at index i, then squeeze that axis
         let slice = inner.slice_axis(axis, i as isize, (i + 1) as isize, 1);
-        let squeezed = slice.squeeze_axis(axis);
+        let mut squeezed = slice.squeeze_axis(axis);
+        // A single element is a value of its own, not a view
+        if squeezed.ndim() == 0 {
+            squeezed = squeezed.copy();
+        }
         result.push(Py::new(py, PyRumpyArray::new(squeezed))?);
     }
 
@@ -164,7 +168,7 @@ pub fn unstack(py: Python<'_>, x: &PyRumpyArray, axis: isize) -> PyResult<Py<PyT
 pub fn block(arrays: &Bound<'_, PyAny>) -> PyResult<PyRumpyArray> {
     // Recursively process the nested list structure
     let result = process_block(arrays, 0)?;
-    Ok(PyRumpyArray::new(result))
+    Ok(PyRumpyArray::new(result.copy()))
 }
 
 fn process_block(obj: &Bound<'_, PyAny>, depth: usize) -> PyResult<RumpyArray> {
diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index bb6a1af..11c547c 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -172,7 +172,11 @@ impl PyRumpyArray {
         if let Ok(idx) = key.extract::<isize>() {
             let idx = normalize_index(idx, self.first_axis_len()?)?;
             let result = self.inner.slice_axis(0, idx as isize, idx as isize + 1, 1);
-            let result = result.squeeze_axis(0);
+            let mut result = result.squeeze_axis(0);
+            // A single element is a value of its own, not a view
+            if result.ndim() == 0 {
+                result = result.copy();
+            }
             return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
         }
 
-- 
2.43.0


From ccc89d4bc9bdb1ab0be258e8d94e888f6f2b4ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:35 +0000
Subject: [PATCH 38/81] fix: refuse what cannot be served with an exception,
 keep exported data alive, and check dtypes before reading; histograms put
 values in the bins their edges say

---
 src/array/buffer.rs                      |  13 +-
 src/array/constructors.rs                |  13 +-
 src/array/dtype/datetime64.rs            |   8 +-
 src/array/manipulation.rs                |   4 +-
 src/array/mod.rs                         |   1 +
 src/ops/fft.rs                           | 245 +++++++-----------
 src/ops/indexing.rs                      |  10 +-
 src/ops/statistics.rs                    | 316 +++++++----------------
 src/python/creation.rs                   |   8 +-
 src/python/datetime.rs                   |   3 +
 src/python/indexing.rs                   |   4 +
 src/python/misc.rs                       | 159 ++----------
 src/python/pyarray/methods_reductions.rs |   6 +
 src/python/pyarray/mod.rs                |  50 +++-
 src/python/reductions.rs                 |  66 ++++-
 15 files changed, 363 insertions(+), 543 deletions(-)

diff --git a/src/array/buffer.rs b/src/array/buffer.rs
index d6a5ff0..801049f 100644
--- a/src/array/buffer.rs
+++ b/src/array/buffer.rs
@@ -10,11 +10,22 @@ impl ArrayBuffer {
     /// Even an empty buffer is allocated, so that its pointer is aligned for every dtype.
     pub fn new(size: usize) -> Self {
         Self {
-            data: vec![0u8; size.max(1)].into_boxed_slice(),
+            data: Self::zeroed(size.max(1)),
             len: size,
         }
     }
 
+    /// Zeroed memory; asking for more than there is panics, it does not end the process.
+    fn zeroed(size: usize) -> Box<[u8]> {
+        let layout = std::alloc::Layout::array::<u8>(size).expect("array is too big");
+        // SAFETY: the layout is not empty, and the box takes over exactly this allocation.
+        unsafe {
+            let ptr = std::alloc::alloc_zeroed(layout);
+            assert!(!ptr.is_null(), "unable to allocate {size} bytes");
+            Box::from_raw(std::ptr::slice_from_raw_parts_mut(ptr, size))
+        }
+    }
+
     /// Get raw pointer to buffer data.
     pub fn as_ptr(&self) -> *const u8 {
         self.data.as_ptr()
diff --git a/src/array/constructors.rs b/src/array/constructors.rs
index 34937db..2d3da65 100644
--- a/src/array/constructors.rs
+++ b/src/array/constructors.rs
@@ -7,11 +7,20 @@ use super::dtype::{DType, DTypeKind};
 use super::flags::ArrayFlags;
 use super::{compute_c_strides, RumpyArray};
 
+/// Bytes taken by an array of this shape, if that many can be addressed.
+///
+/// Empty dimensions do not count, so that strides cannot overflow either.
+pub fn byte_size(shape: &[usize], itemsize: usize) -> Option<usize> {
+    let extent = shape.iter().filter(|&&d| d != 0)
+        .try_fold(itemsize, |n, &d| n.checked_mul(d))
+        .filter(|&n| n <= isize::MAX as usize)?;
+    Some(if shape.contains(&0) { 0 } else { extent })
+}
+
 impl RumpyArray {
     /// Create a new array filled with zeros.
     pub fn zeros(shape: Vec<usize>, dtype: DType) -> Self {
-        let size: usize = shape.iter().product();
-        let nbytes = size * dtype.itemsize();
+        let nbytes = byte_size(&shape, dtype.itemsize()).expect("array is too big");
         let buffer = Arc::new(ArrayBuffer::new(nbytes));
         let strides = compute_c_strides(&shape, dtype.itemsize());
 
diff --git a/src/array/dtype/datetime64.rs b/src/array/dtype/datetime64.rs
index e9f825d..c16a7e6 100644
--- a/src/array/dtype/datetime64.rs
+++ b/src/array/dtype/datetime64.rs
@@ -167,8 +167,8 @@ impl DTypeOps for DateTime64Ops {
         let v = Self::read(src, byte_offset);
         // Most unary ops don't make sense for datetime, just copy
         let result = match op {
-            UnaryOp::Neg => -v,
-            UnaryOp::Abs => v.abs(),
+            UnaryOp::Neg => v.wrapping_neg(),
+            UnaryOp::Abs => v.wrapping_abs(),
             _ => v,
         };
         Self::write(out, idx, result);
@@ -345,8 +345,8 @@ impl DTypeOps for TimeDelta64Ops {
     unsafe fn unary_op(&self, op: UnaryOp, src: *const u8, byte_offset: isize, out: *mut u8, idx: usize) {
         let v = Self::read(src, byte_offset);
         let result = match op {
-            UnaryOp::Neg => -v,
-            UnaryOp::Abs => v.abs(),
+            UnaryOp::Neg => v.wrapping_neg(),
+            UnaryOp::Abs => v.wrapping_abs(),
             _ => v,
         };
         Self::write(out, idx, result);
diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 4943bf5..d87abe7 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -213,8 +213,8 @@ pub fn bincount(x: &RumpyArray, minlength: usize) -> Option<RumpyArray> {
     for offset in x.iter_offsets() {
         let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
         let ival = val as i64;
-        if ival < 0 {
-            return None; // Negative values not allowed
+        if !(0..1 << 47).contains(&ival) {
+            return None; // Negative values not allowed, and no table can be that long
         }
         if ival > max_val {
             max_val = ival;
diff --git a/src/array/mod.rs b/src/array/mod.rs
index 540c25a..d1eba52 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -10,6 +10,7 @@ pub mod views;
 use std::sync::Arc;
 
 pub use buffer::ArrayBuffer;
+pub use constructors::byte_size;
 pub use dtype::{promote_dtype, DType, DTypeKind, DTypeOps};
 pub use flags::ArrayFlags;
 pub use iter::{AxisOffsetIter, StridedIter};
diff --git a/src/ops/fft.rs b/src/ops/fft.rs
index 3714109..cbd91c0 100644
--- a/src/ops/fft.rs
+++ b/src/ops/fft.rs
@@ -161,33 +161,26 @@ pub fn irfft(arr: &RumpyArray) -> Option<RumpyArray> {
     }
 
     let n = 2 * (n_freq - 1);
-    let input = to_complex_buffer(arr);
-
-    // Reconstruct full spectrum using Hermitian symmetry
-    let mut buffer = vec![Complex64::new(0.0, 0.0); n];
-    for (i, &c) in input.iter().enumerate() {
-        buffer[i] = c;
-    }
-    for i in 1..n_freq - 1 {
-        buffer[n - i] = input[i].conj();
+    if n == 0 {
+        return None;
     }
-
-    let mut planner = FftPlanner::new();
-    let ifft = planner.plan_fft_inverse(n);
-    ifft.process(&mut buffer);
-
-    // Normalize and extract real part
     let scale = 1.0 / n as f64;
-    let mut result = RumpyArray::zeros(vec![n], DType::float64());
-    let data = result.buffer_mut();
-    let data = std::sync::Arc::get_mut(data).expect("buffer must be unique");
-    let ptr = data.as_mut_ptr() as *mut f64;
+    let values = hermitian_to_real(&to_complex_buffer(arr), n, &mut FftPlanner::new());
+    Some(RumpyArray::from_vec(values.iter().map(|v| v * scale).collect(), DType::float64()))
+}
 
-    for (i, c) in buffer.iter().enumerate() {
-        unsafe { *ptr.add(i) = c.re * scale; }
+/// Unnormalized inverse transform of length `n` of a Hermitian spectrum given by its
+/// non-negative frequencies, of which missing ones are zero and surplus ones ignored.
+fn hermitian_to_real(freq: &[Complex64], n: usize, planner: &mut FftPlanner<f64>) -> Vec<f64> {
+    let mut buffer = vec![Complex64::new(0.0, 0.0); n];
+    for (k, &c) in freq.iter().take(n / 2 + 1).enumerate() {
+        buffer[k] = c;
+        if k > 0 && 2 * k != n {
+            buffer[n - k] = c.conj();
+        }
     }
-
-    Some(result)
+    planner.plan_fft_inverse(n).process(&mut buffer);
+    buffer.iter().map(|c| c.re).collect()
 }
 
 /// Shift array by given amounts along each axis.
@@ -411,6 +404,9 @@ pub fn rfftn(arr: &RumpyArray, axes: Option<&[usize]>) -> Option<RumpyArray> {
     let axes_to_use = validate_axes(axes, ndim)?;
     let last_axis = *axes_to_use.last().unwrap();
     let last_axis_len = shape[last_axis];
+    if last_axis_len == 0 {
+        return None;
+    }
     let rfft_out_len = last_axis_len / 2 + 1;
 
     // Step 1: Do rfft (truncated FFT) on the last axis
@@ -487,7 +483,7 @@ fn rfft_along_axis(
     let fft_plan = planner.plan_fft_forward(axis_in_len);
     let mut work_buffer = vec![Complex64::new(0.0, 0.0); axis_in_len];
 
-    for other_idx in 0..n_other.max(1) {
+    for other_idx in 0..n_other {
         let in_base = index_from_transform_idx(other_idx, &other_shape, &other_in_strides);
         let out_base = index_from_transform_idx(other_idx, &other_shape, &other_out_strides);
 
@@ -509,116 +505,94 @@ fn rfft_along_axis(
 /// Strategy:
 /// 1. First do inverse FFT on all axes except the last (real) axis
 /// 2. Then for each slice along non-last axes, do irfft (Hermitian reconstruction + ifft)
-pub fn irfftn(arr: &RumpyArray, shape_hint: Option<&[usize]>, axes: Option<&[usize]>) -> Option<RumpyArray> {
-    let in_shape = arr.shape();
+///
+/// `s` gives the output length along each transformed axis: the spectrum is cropped or
+/// padded with zeros to fit.
+pub fn irfftn(arr: &RumpyArray, s: Option<&[usize]>, axes: Option<&[usize]>) -> Option<RumpyArray> {
     let ndim = arr.ndim();
-
     if ndim == 0 {
         return None;
     }
 
-    let axes_to_use = validate_axes(axes, ndim)?;
+    let axes_to_use = match (s, axes) {
+        // Without axes, `s` is for the last ones
+        (Some(s), None) if s.len() <= ndim => {
+            let last: Vec<usize> = (ndim - s.len()..ndim).collect();
+            validate_axes(Some(&last), ndim)?
+        }
+        _ => validate_axes(axes, ndim)?,
+    };
     let last_axis = *axes_to_use.last().unwrap();
-    let n_freq = in_shape[last_axis];
-
-    // Determine output size on last axis
-    let out_last_len = match shape_hint {
-        Some(s) if last_axis < s.len() => s[last_axis],
-        _ => 2 * (n_freq - 1),  // Default: even length
+    let lengths: Vec<usize> = match s {
+        Some(s) if s.len() == axes_to_use.len() => s.to_vec(),
+        Some(_) => return None,
+        None => axes_to_use.iter()
+            .map(|&ax| if ax == last_axis { 2 * arr.shape()[ax].saturating_sub(1) } else { arr.shape()[ax] })
+            .collect(),
     };
+    if lengths.contains(&0) {
+        return None;
+    }
+    let out_last_len = *lengths.last().unwrap();
 
-    // Convert to complex buffer
-    let mut buffer = to_complex_buffer(arr);
+    // Crop or pad the spectrum
+    let mut in_shape = arr.shape().to_vec();
+    for (&axis, &len) in axes_to_use.iter().zip(&lengths) {
+        in_shape[axis] = if axis == last_axis { out_last_len / 2 + 1 } else { len };
+    }
+    let mut buffer = fit_to_shape(&to_complex_buffer(arr), arr.shape(), &in_shape);
     let mut planner = FftPlanner::new();
 
     // Step 1: Apply inverse FFT along all axes except the last one
     for &axis in &axes_to_use[..axes_to_use.len() - 1] {
-        let axis_len = in_shape[axis];
-        if axis_len > 0 {
-            let fft_plan = planner.plan_fft_inverse(axis_len);
-            fft_along_axis(&mut buffer, in_shape, axis, &fft_plan);
-        }
+        let fft_plan = planner.plan_fft_inverse(in_shape[axis]);
+        fft_along_axis(&mut buffer, &in_shape, axis, &fft_plan);
     }
 
     // Step 2: For the last axis, expand using Hermitian symmetry and apply ifft
-    let mut out_shape = in_shape.to_vec();
+    let mut out_shape = in_shape.clone();
     out_shape[last_axis] = out_last_len;
-
-    let in_strides = compute_strides(in_shape);
+    let in_strides = compute_strides(&in_shape);
     let out_strides = compute_strides(&out_shape);
-
-    let n_other: usize = in_shape.iter().enumerate()
-        .filter(|&(i, _)| i != last_axis)
-        .map(|(_, &s)| s)
-        .product();
-
-    let other_shape: Vec<usize> = in_shape.iter().enumerate()
-        .filter(|&(i, _)| i != last_axis)
-        .map(|(_, &s)| s)
-        .collect();
-    let other_in_strides: Vec<usize> = in_strides.iter().enumerate()
-        .filter(|&(i, _)| i != last_axis)
-        .map(|(_, &s)| s)
-        .collect();
-    let other_out_strides: Vec<usize> = out_strides.iter().enumerate()
-        .filter(|&(i, _)| i != last_axis)
-        .map(|(_, &s)| s)
-        .collect();
-
-    let last_in_stride = in_strides[last_axis];
-    let last_out_stride = out_strides[last_axis];
-
-    let out_size: usize = out_shape.iter().product();
-    let mut out_buffer = vec![Complex64::new(0.0, 0.0); out_size];
-
-    let ifft_plan = planner.plan_fft_inverse(out_last_len);
-    let mut work_buffer = vec![Complex64::new(0.0, 0.0); out_last_len];
-
-    for other_idx in 0..n_other.max(1) {
+    let without_last = |v: &[usize]| -> Vec<usize> {
+        v.iter().enumerate().filter(|&(i, _)| i != last_axis).map(|(_, &x)| x).collect()
+    };
+    let other_shape = without_last(&in_shape);
+    let other_in_strides = without_last(&in_strides);
+    let other_out_strides = without_last(&out_strides);
+    let n_other: usize = other_shape.iter().product();
+
+    let scale = 1.0 / lengths.iter().product::<usize>() as f64;
+    let mut out = vec![0.0; out_shape.iter().product()];
+    for other_idx in 0..n_other {
         let in_base = index_from_transform_idx(other_idx, &other_shape, &other_in_strides);
         let out_base = index_from_transform_idx(other_idx, &other_shape, &other_out_strides);
-
-        // Fill work buffer: positive frequencies from input
-        for i in 0..n_freq {
-            work_buffer[i] = buffer[in_base + i * last_in_stride];
-        }
-        // Clear rest first
-        for i in n_freq..out_last_len {
-            work_buffer[i] = Complex64::new(0.0, 0.0);
-        }
-        // Fill negative frequencies using Hermitian symmetry
-        for k in 1..(n_freq - 1) {
-            if out_last_len > k {
-                work_buffer[out_last_len - k] = buffer[in_base + k * last_in_stride].conj();
-            }
-        }
-
-        // Apply inverse FFT
-        ifft_plan.process(&mut work_buffer);
-
-        // Copy to output
-        for i in 0..out_last_len {
-            out_buffer[out_base + i * last_out_stride] = work_buffer[i];
+        let freq: Vec<Complex64> = (0..in_shape[last_axis])
+            .map(|k| buffer[in_base + k * in_strides[last_axis]])
+            .collect();
+        for (i, v) in hermitian_to_real(&freq, out_last_len, &mut planner).into_iter().enumerate() {
+            out[out_base + i * out_strides[last_axis]] = v * scale;
         }
     }
 
-    // Normalize
-    let total_size: usize = axes_to_use.iter()
-        .map(|&ax| if ax == last_axis { out_last_len } else { in_shape[ax] })
-        .product();
-    let scale = 1.0 / total_size as f64;
-
-    // Extract real part
-    let mut result = RumpyArray::zeros(out_shape.clone(), DType::float64());
-    let data = result.buffer_mut();
-    let data = std::sync::Arc::get_mut(data).expect("buffer must be unique");
-    let ptr = data.as_mut_ptr() as *mut f64;
+    RumpyArray::from_vec(out, DType::float64()).reshape(out_shape)
+}
 
-    for (i, c) in out_buffer.iter().enumerate() {
-        unsafe { *ptr.add(i) = c.re * scale; }
+/// Crop a C-ordered buffer to a new shape, or pad it with zeros.
+fn fit_to_shape(buffer: &[Complex64], shape: &[usize], new_shape: &[usize]) -> Vec<Complex64> {
+    if shape == new_shape {
+        return buffer.to_vec();
+    }
+    let strides = compute_strides(new_shape);
+    let mut out = vec![Complex64::new(0.0, 0.0); new_shape.iter().product()];
+    let mut indices = vec![0usize; shape.len()];
+    for &value in buffer {
+        if indices.iter().zip(new_shape).all(|(i, n)| i < n) {
+            out[indices.iter().zip(&strides).map(|(i, s)| i * s).sum::<usize>()] = value;
+        }
+        increment_indices(&mut indices, shape);
     }
-
-    Some(result)
+    out
 }
 
 /// 2D real FFT.
@@ -654,55 +628,12 @@ pub fn hfft(arr: &RumpyArray, n: Option<usize>) -> Option<RumpyArray> {
     // Output length
     let out_len = n.unwrap_or(2 * (n_freq - 1));
     if out_len == 0 {
-        return Some(RumpyArray::zeros(vec![0], DType::float64()));
-    }
-
-    let input = to_complex_buffer(arr);
-
-    // hfft(x, n) = irfft(conj(padded_x), n) where padded_x has n//2+1 elements
-    // The n//2+1 elements represent the positive frequencies for output length n
-    let padded_len = out_len / 2 + 1;
-
-    // Create padded input (zero-padded or truncated)
-    let mut padded = vec![Complex64::new(0.0, 0.0); padded_len];
-    for (i, &c) in input.iter().enumerate().take(padded_len) {
-        padded[i] = c.conj();
-    }
-
-    // Reconstruct full spectrum
-    let mut buffer = vec![Complex64::new(0.0, 0.0); out_len];
-
-    // Copy positive frequencies
-    for (i, &c) in padded.iter().enumerate() {
-        buffer[i] = c;
-    }
-
-    // Fill negative frequencies using Hermitian symmetry
-    // buffer[out_len - k] = conj(padded[k]) = input[k] for k = 1 to padded_len-2
-    for k in 1..(padded_len.min(out_len) - 1) {
-        if out_len > k && k < input.len() {
-            buffer[out_len - k] = input[k];
-        } else if out_len > k {
-            // Zero padding case
-            buffer[out_len - k] = Complex64::new(0.0, 0.0);
-        }
-    }
-
-    let mut planner = FftPlanner::new();
-    let ifft = planner.plan_fft_inverse(out_len);
-    ifft.process(&mut buffer);
-
-    // Extract real part
-    let mut result = RumpyArray::zeros(vec![out_len], DType::float64());
-    let data = result.buffer_mut();
-    let data = std::sync::Arc::get_mut(data).expect("buffer must be unique");
-    let ptr = data.as_mut_ptr() as *mut f64;
-
-    for (i, c) in buffer.iter().enumerate() {
-        unsafe { *ptr.add(i) = c.re; }
+        return None;
     }
 
-    Some(result)
+    let conjugate: Vec<Complex64> = to_complex_buffer(arr).iter().map(|c| c.conj()).collect();
+    let values = hermitian_to_real(&conjugate, out_len, &mut FftPlanner::new());
+    Some(RumpyArray::from_vec(values, DType::float64()))
 }
 
 /// Inverse Hermitian FFT.
diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index 2f9f96b..ad198e1 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -716,7 +716,7 @@ pub fn unravel_index(indices: &[i64], shape: &[usize], order: char) -> Option<Ve
     } else {
         // C order: last dim varies fastest
         let mut s = vec![1usize; ndim];
-        for i in (0..ndim - 1).rev() {
+        for i in (0..ndim.saturating_sub(1)).rev() {
             s[i] = s[i + 1] * shape[i + 1];
         }
         s
@@ -760,7 +760,11 @@ pub fn ravel_multi_index(
     order: char,
 ) -> Option<RumpyArray> {
     let ndim = shape.len();
-    if multi_index.len() != ndim {
+    if ndim == 0 || multi_index.len() != ndim {
+        return None;
+    }
+    // No position exists in an empty dimension
+    if shape.contains(&0) && !multi_index[0].is_empty() {
         return None;
     }
 
@@ -781,7 +785,7 @@ pub fn ravel_multi_index(
         s
     } else {
         let mut s = vec![1usize; ndim];
-        for i in (0..ndim - 1).rev() {
+        for i in (0..ndim.saturating_sub(1)).rev() {
             s[i] = s[i + 1] * shape[i + 1];
         }
         s
diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index afe41f8..a046915 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -12,71 +12,61 @@ use std::sync::Arc;
 // Module-level functions
 // ============================================================================
 
-/// Compute histogram of 1D array.
-/// Returns (counts, bin_edges) tuple.
-pub fn histogram(arr: &RumpyArray, bins: usize, range: Option<(f64, f64)>) -> (RumpyArray, RumpyArray) {
-    let values = arr.to_vec();
+/// First and last edge of a histogram of `values`.
+fn outer_edges(values: &[f64], range: Option<(f64, f64)>) -> Result<(f64, f64), &'static str> {
+    let (lo, hi) = match range {
+        Some((lo, hi)) if lo > hi => return Err("max must be larger than min in range parameter"),
+        Some(range) => range,
+        None if values.is_empty() => (0.0, 1.0),
+        None if values.iter().any(|v| v.is_nan()) => (f64::NAN, f64::NAN),
+        None => (
+            values.iter().cloned().fold(f64::INFINITY, f64::min),
+            values.iter().cloned().fold(f64::NEG_INFINITY, f64::max),
+        ),
+    };
+    if !lo.is_finite() || !hi.is_finite() {
+        return Err("range of the data is not finite");
+    }
+    // A single value still gets a bin of width one around it
+    Ok(if lo == hi { (lo - 0.5, hi + 0.5) } else { (lo, hi) })
+}
 
-    let (min_val, max_val) = range.unwrap_or_else(|| {
-        if values.is_empty() {
-            (0.0, 1.0)
-        } else {
-            let min_v = values.iter().cloned().fold(f64::INFINITY, f64::min);
-            let max_v = values.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
-            (min_v, max_v)
-        }
-    });
+/// Edges of `bins` equal bins between two outer edges.
+fn uniform_edges((lo, hi): (f64, f64), bins: usize) -> Vec<f64> {
+    let width = (hi - lo) / bins as f64;
+    let mut edges: Vec<f64> = (0..=bins).map(|i| i as f64 * width + lo).collect();
+    edges[bins] = hi;
+    edges
+}
 
-    // Create bin edges
-    let mut bin_edges = Vec::with_capacity(bins + 1);
-    let bin_width = (max_val - min_val) / bins as f64;
-    for i in 0..=bins {
-        bin_edges.push(min_val + i as f64 * bin_width);
+/// The bin that holds a value: each includes its left edge, the last one also its right edge.
+fn find_bin(edges: &[f64], value: f64) -> Option<usize> {
+    let bins = edges.len() - 1;
+    if !(edges[0] <= value && value <= edges[bins]) {
+        return None;
     }
+    Some((edges.partition_point(|&e| e <= value) - 1).min(bins - 1))
+}
+
+/// Compute histogram of 1D array.
+/// Returns (counts, bin_edges) tuple.
+pub fn histogram(arr: &RumpyArray, bins: usize, range: Option<(f64, f64)>) -> Result<(RumpyArray, RumpyArray), &'static str> {
+    let values = arr.to_vec();
+    let edges = uniform_edges(outer_edges(&values, range)?, bins);
 
-    // Count values in each bin
     let mut counts = vec![0i64; bins];
-    for &val in &values {
-        if val >= min_val && val <= max_val {
-            let mut bin_idx = ((val - min_val) / bin_width) as usize;
-            // Handle edge case: value == max_val goes in last bin
-            if bin_idx >= bins {
-                bin_idx = bins - 1;
-            }
-            counts[bin_idx] += 1;
-        }
+    for bin in values.iter().filter_map(|&v| find_bin(&edges, v)) {
+        counts[bin] += 1;
     }
 
-    let counts_data: Vec<f64> = counts.iter().map(|&c| c as f64).collect();
-    let counts_arr = RumpyArray::from_vec(counts_data, DType::int64());
-    let edges_arr = RumpyArray::from_vec(bin_edges, DType::float64());
-
-    (counts_arr, edges_arr)
+    Ok((RumpyArray::from_vec_i64(counts, DType::int64()), RumpyArray::from_vec(edges, DType::float64())))
 }
 
 /// Compute bin edges for histogram without computing the histogram itself.
 /// This is useful when you want to use consistent bins across multiple histograms.
-pub fn histogram_bin_edges(arr: &RumpyArray, bins: usize, range: Option<(f64, f64)>) -> RumpyArray {
+pub fn histogram_bin_edges(arr: &RumpyArray, bins: usize, range: Option<(f64, f64)>) -> Result<RumpyArray, &'static str> {
     let values = arr.to_vec();
-
-    let (min_val, max_val) = range.unwrap_or_else(|| {
-        if values.is_empty() {
-            (0.0, 1.0)
-        } else {
-            let min_v = values.iter().cloned().fold(f64::INFINITY, f64::min);
-            let max_v = values.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
-            (min_v, max_v)
-        }
-    });
-
-    // Create bin edges
-    let mut bin_edges = Vec::with_capacity(bins + 1);
-    let bin_width = (max_val - min_val) / bins as f64;
-    for i in 0..=bins {
-        bin_edges.push(min_val + i as f64 * bin_width);
-    }
-
-    RumpyArray::from_vec(bin_edges, DType::float64())
+    Ok(RumpyArray::from_vec(uniform_edges(outer_edges(&values, range)?, bins), DType::float64()))
 }
 
 /// Compute 2D histogram of two data samples.
@@ -89,85 +79,13 @@ pub fn histogram2d(
     range: Option<[[f64; 2]; 2]>,
     density: bool,
 ) -> Result<(RumpyArray, RumpyArray, RumpyArray), &'static str> {
-    let x_values = x.to_vec();
-    let y_values = y.to_vec();
-
-    if x_values.len() != y_values.len() {
+    let columns = vec![x.to_vec(), y.to_vec()];
+    if columns[0].len() != columns[1].len() {
         return Err("x and y must have the same length");
     }
-
-    // Determine ranges
-    let (x_min, x_max, y_min, y_max) = match range {
-        Some(r) => (r[0][0], r[0][1], r[1][0], r[1][1]),
-        None => {
-            if x_values.is_empty() {
-                (0.0, 1.0, 0.0, 1.0)
-            } else {
-                let x_min = x_values.iter().cloned().fold(f64::INFINITY, f64::min);
-                let x_max = x_values.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
-                let y_min = y_values.iter().cloned().fold(f64::INFINITY, f64::min);
-                let y_max = y_values.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
-                (x_min, x_max, y_min, y_max)
-            }
-        }
-    };
-
-    // Create bin edges
-    let x_bin_width = (x_max - x_min) / bins_x as f64;
-    let y_bin_width = (y_max - y_min) / bins_y as f64;
-
-    let mut x_edges = Vec::with_capacity(bins_x + 1);
-    for i in 0..=bins_x {
-        x_edges.push(x_min + i as f64 * x_bin_width);
-    }
-
-    let mut y_edges = Vec::with_capacity(bins_y + 1);
-    for i in 0..=bins_y {
-        y_edges.push(y_min + i as f64 * y_bin_width);
-    }
-
-    // Count values in each 2D bin
-    let mut counts = vec![0.0f64; bins_x * bins_y];
-
-    for i in 0..x_values.len() {
-        let xv = x_values[i];
-        let yv = y_values[i];
-
-        if xv >= x_min && xv <= x_max && yv >= y_min && yv <= y_max {
-            let mut x_bin = ((xv - x_min) / x_bin_width) as usize;
-            let mut y_bin = ((yv - y_min) / y_bin_width) as usize;
-
-            // Handle edge case: value == max goes in last bin
-            if x_bin >= bins_x {
-                x_bin = bins_x - 1;
-            }
-            if y_bin >= bins_y {
-                y_bin = bins_y - 1;
-            }
-
-            counts[x_bin * bins_y + y_bin] += 1.0;
-        }
-    }
-
-    // Apply density normalization if requested
-    if density && !x_values.is_empty() {
-        let bin_area = x_bin_width * y_bin_width;
-        let total: f64 = counts.iter().sum();
-        if total > 0.0 && bin_area > 0.0 {
-            let norm = total * bin_area;
-            for c in &mut counts {
-                *c /= norm;
-            }
-        }
-    }
-
-    let h_arr = RumpyArray::from_vec(counts, DType::float64())
-        .reshape(vec![bins_x, bins_y])
-        .unwrap();
-    let x_edges_arr = RumpyArray::from_vec(x_edges, DType::float64());
-    let y_edges_arr = RumpyArray::from_vec(y_edges, DType::float64());
-
-    Ok((h_arr, x_edges_arr, y_edges_arr))
+    let (counts, edges) = count_samples(&columns, vec![bins_x, bins_y], range.as_ref().map(|r| &r[..]), density)?;
+    let [x_edges, y_edges]: [RumpyArray; 2] = edges.try_into().unwrap_or_else(|_| unreachable!("two columns"));
+    Ok((counts, x_edges, y_edges))
 }
 
 /// Compute N-dimensional histogram.
@@ -181,33 +99,6 @@ pub fn histogramdd(
 ) -> Result<(RumpyArray, Vec<RumpyArray>), &'static str> {
     let shape = sample.shape();
 
-    // Handle empty sample
-    if shape[0] == 0 {
-        // For empty sample, still create properly shaped output
-        let ndim = if shape.len() == 2 { shape[1] } else { 1 };
-        let bins: Vec<usize> = if bins_per_dim.len() == 1 {
-            vec![bins_per_dim[0]; ndim]
-        } else if bins_per_dim.len() == ndim {
-            bins_per_dim.to_vec()
-        } else {
-            return Err("bins must have one element or match sample dimensions");
-        };
-
-        let h_arr = RumpyArray::zeros(bins.clone(), DType::float64());
-        let edges: Vec<RumpyArray> = bins.iter().enumerate().map(|(d, &b)| {
-            let (lo, hi) = if let Some(r) = range {
-                (r[d][0], r[d][1])
-            } else {
-                (0.0, 1.0)
-            };
-            let width = (hi - lo) / b as f64;
-            let edge_vals: Vec<f64> = (0..=b).map(|i| lo + i as f64 * width).collect();
-            RumpyArray::from_vec(edge_vals, DType::float64())
-        }).collect();
-
-        return Ok((h_arr, edges));
-    }
-
     // Determine number of dimensions from sample
     let ndim = if shape.len() == 2 { shape[1] } else { 1 };
     let nsamples = shape[0];
@@ -221,97 +112,64 @@ pub fn histogramdd(
         return Err("bins must have one element or match sample dimensions");
     };
 
-    // Get data for each dimension
-    let dim_data: Vec<Vec<f64>> = if ndim == 1 && shape.len() == 1 {
-        // 1D case: single column
-        vec![sample.to_vec()]
-    } else {
-        // Multi-D case: each column is a dimension
-        (0..ndim)
-            .map(|d| {
-                (0..nsamples)
-                    .map(|i| sample.get_element(&[i, d]))
-                    .collect()
-            })
-            .collect()
-    };
-
-    // Compute ranges for each dimension
-    let ranges: Vec<(f64, f64)> = (0..ndim)
-        .map(|d| {
-            if let Some(r) = range {
-                (r[d][0], r[d][1])
-            } else {
-                let min_v = dim_data[d].iter().cloned().fold(f64::INFINITY, f64::min);
-                let max_v = dim_data[d].iter().cloned().fold(f64::NEG_INFINITY, f64::max);
-                (min_v, max_v)
-            }
-        })
+    // Each column is a dimension
+    let values = sample.to_vec();
+    let columns: Vec<Vec<f64>> = (0..ndim)
+        .map(|d| (0..nsamples).map(|i| values[i * ndim + d]).collect())
         .collect();
 
-    // Compute bin widths
-    let bin_widths: Vec<f64> = (0..ndim)
-        .map(|d| (ranges[d].1 - ranges[d].0) / bins[d] as f64)
-        .collect();
+    count_samples(&columns, bins, range, density)
+}
 
-    // Create edges for each dimension
-    let edges: Vec<RumpyArray> = (0..ndim)
-        .map(|d| {
-            let edge_vals: Vec<f64> = (0..=bins[d])
-                .map(|i| ranges[d].0 + i as f64 * bin_widths[d])
-                .collect();
-            RumpyArray::from_vec(edge_vals, DType::float64())
+/// Histogram of samples whose coordinates are given column by column.
+fn count_samples(
+    columns: &[Vec<f64>],
+    bins: Vec<usize>,
+    range: Option<&[[f64; 2]]>,
+    density: bool,
+) -> Result<(RumpyArray, Vec<RumpyArray>), &'static str> {
+    let total_bins = crate::array::byte_size(&bins, 1)
+        .filter(|&n| n < 1 << 32)
+        .ok_or("histogram has too many bins")?;
+    let nsamples = columns.first().map_or(0, |c| c.len());
+    let edges = columns.iter().zip(&bins).enumerate()
+        .map(|(d, (column, &n))| {
+            let range = range.map(|r| (r[d][0], r[d][1]));
+            Ok(uniform_edges(outer_edges(column, range)?, n))
         })
-        .collect();
+        .collect::<Result<Vec<_>, &'static str>>()?;
 
-    // Compute total number of bins and create histogram array
-    let total_bins: usize = bins.iter().product();
     let mut counts = vec![0.0f64; total_bins];
-
-    // Count samples in bins
     'sample: for i in 0..nsamples {
-        // Find bin indices for this sample
-        let mut bin_indices = Vec::with_capacity(ndim);
-        for d in 0..ndim {
-            let val = dim_data[d][i];
-            let (lo, hi) = ranges[d];
-            if val < lo || val > hi {
-                continue 'sample;
-            }
-            let mut bin = ((val - lo) / bin_widths[d]) as usize;
-            if bin >= bins[d] {
-                bin = bins[d] - 1;
-            }
-            bin_indices.push(bin);
-        }
-
-        // Convert N-D bin indices to flat index (row-major order)
+        // Flat index of the sample's bin (row-major order)
         let mut flat_idx = 0;
-        let mut stride = 1;
-        for d in (0..ndim).rev() {
-            flat_idx += bin_indices[d] * stride;
-            stride *= bins[d];
+        for (d, column) in columns.iter().enumerate() {
+            match find_bin(&edges[d], column[i]) {
+                Some(bin) => flat_idx = flat_idx * bins[d] + bin,
+                None => continue 'sample,
+            }
         }
-
         counts[flat_idx] += 1.0;
     }
 
     // Apply density normalization if requested
-    if density && nsamples > 0 {
-        let bin_volume: f64 = bin_widths.iter().product();
+    if density {
         let total: f64 = counts.iter().sum();
-        if total > 0.0 && bin_volume > 0.0 {
-            let norm = total * bin_volume;
-            for c in &mut counts {
-                *c /= norm;
-            }
+        let mut volume = vec![1.0f64; 1];
+        for e in &edges {
+            volume = volume.iter()
+                .flat_map(|v| e.windows(2).map(move |w| v * (w[1] - w[0])))
+                .collect();
+        }
+        for (c, v) in counts.iter_mut().zip(volume) {
+            *c /= v * total;
         }
     }
 
     let h_arr = RumpyArray::from_vec(counts, DType::float64())
         .reshape(bins)
         .unwrap();
-
+    let edges = edges.into_iter().map(|e| RumpyArray::from_vec(e, DType::float64())).collect();
     Ok((h_arr, edges))
 }
 
@@ -338,7 +196,7 @@ pub fn cov(arr: &RumpyArray, ddof: usize) -> RumpyArray {
     let nvars = shape[0];  // number of variables (rows)
     let nobs = shape[1];   // number of observations (columns)
 
-    if nobs <= ddof {
+    if nvars == 0 || nobs <= ddof {
         // Return NaN matrix
         return RumpyArray::full(vec![nvars, nvars], f64::NAN, DType::float64());
     }
diff --git a/src/python/creation.rs b/src/python/creation.rs
index 3634735..7990fa0 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -246,8 +246,10 @@ pub fn triu(m: &PyRumpyArray, k: isize) -> PyResult<PyRumpyArray> {
 /// Create a 2D array with flattened input as diagonal.
 #[pyfunction]
 #[pyo3(signature = (v, k=0))]
-pub fn diagflat(v: &PyRumpyArray, k: isize) -> PyRumpyArray {
-    PyRumpyArray::new(crate::array::diagflat(&v.inner, k))
+pub fn diagflat(v: &PyRumpyArray, k: isize) -> PyResult<PyRumpyArray> {
+    let side = v.inner.size().saturating_add(k.unsigned_abs());
+    super::pyarray::check_size(&[side, side])?;
+    Ok(PyRumpyArray::new(crate::array::diagflat(&v.inner, k)))
 }
 
 /// Return coordinate matrices from coordinate vectors.
@@ -274,6 +276,7 @@ pub fn meshgrid(xi: &Bound<'_, pyo3::types::PyTuple>, indexing: &str) -> PyResul
 #[pyo3(signature = (dimensions, dtype=None))]
 pub fn indices(dimensions: Vec<usize>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let dtype = resolve_dtype(dtype, "int64")?;
+    super::pyarray::check_size(&dimensions)?;
     Ok(PyRumpyArray::new(crate::array::indices(&dimensions, dtype)))
 }
 
@@ -287,6 +290,7 @@ pub fn fromfunction(
     dtype: Option<&Bound<'_, PyAny>>,
 ) -> PyResult<PyRumpyArray> {
     let dtype = resolve_dtype(dtype, "float64")?;
+    super::pyarray::check_size(&shape)?;
     let ndim = shape.len();
     let size: usize = shape.iter().product();
 
diff --git a/src/python/datetime.rs b/src/python/datetime.rs
index c9bab52..6e7a80a 100644
--- a/src/python/datetime.rs
+++ b/src/python/datetime.rs
@@ -226,6 +226,9 @@ pub fn is_busday(py: Python<'_>, dates: &Bound<'_, PyAny>, busdaycal: Option<&Bu
     // Handle rumpy array
     if let Ok(arr) = dates.extract::<PyRef<'_, PyRumpyArray>>() {
         let inner = &arr.inner;
+        if inner.dtype() != DType::datetime64(TimeUnit::Days) {
+            return Err(pyo3::exceptions::PyTypeError::new_err("dates must have dtype datetime64[D]"));
+        }
         let mut result = RumpyArray::zeros(inner.shape().to_vec(), DType::bool());
         let src_ptr = inner.data_ptr() as *const i64;
         let dst_ptr = std::sync::Arc::get_mut(result.buffer_mut()).unwrap().as_mut_ptr() as *mut u8;
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index cc50962..db0c3e1 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -832,6 +832,10 @@ pub fn fill_diagonal(
     };
 
     let val_size = val_arr.size();
+    if val_size == 0 {
+        // Nothing to put on the diagonal
+        return Ok(());
+    }
     let val_ptr = val_arr.data_ptr();
     let val_itemsize = val_arr.dtype().itemsize();
 
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 06127f4..2e4b123 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -51,17 +51,7 @@ fn resolve_axis(axis: isize, ndim: usize) -> PyResult<usize> {
 #[pyfunction]
 pub fn resize(a: &PyRumpyArray, new_shape: &Bound<'_, pyo3::PyAny>) -> PyResult<PyRumpyArray> {
     // Parse new_shape
-    let shape: Vec<usize> = if let Ok(n) = new_shape.extract::<usize>() {
-        vec![n]
-    } else if let Ok(tuple) = new_shape.downcast::<PyTuple>() {
-        tuple.iter().map(|x| x.extract::<usize>()).collect::<PyResult<Vec<_>>>()?
-    } else if let Ok(list) = new_shape.downcast::<PyList>() {
-        list.iter().map(|x| x.extract::<usize>()).collect::<PyResult<Vec<_>>>()?
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "new_shape must be int, tuple, or list"
-        ));
-    };
+    let shape = super::pyarray::parse_shape(new_shape)?;
 
     let inner = &a.inner;
     let src_size = inner.size();
@@ -642,134 +632,33 @@ pub fn ediff1d(
     let size = inner.size();
     let dtype = inner.dtype();
 
-    // Get begin/end array references or scalars
-    let begin_arr: Option<pyo3::PyRef<'_, PyRumpyArray>> = to_begin.and_then(|v| v.extract().ok());
-    let end_arr: Option<pyo3::PyRef<'_, PyRumpyArray>> = to_end.and_then(|v| v.extract().ok());
-    let begin_scalar: Option<f64> = if begin_arr.is_none() { to_begin.and_then(|v| v.extract().ok()) } else { None };
-    let end_scalar: Option<f64> = if end_arr.is_none() { to_end.and_then(|v| v.extract().ok()) } else { None };
-
-    let begin_len = begin_arr.as_ref().map(|a| a.inner.size()).unwrap_or(if begin_scalar.is_some() { 1 } else { 0 });
-    let end_len = end_arr.as_ref().map(|a| a.inner.size()).unwrap_or(if end_scalar.is_some() { 1 } else { 0 });
-
-    let diff_len = if size > 0 { size - 1 } else { 0 };
-    let out_len = begin_len + diff_len + end_len;
-
-    let mut result = RumpyArray::zeros(vec![out_len], dtype.clone());
-    if out_len == 0 {
-        return Ok(PyRumpyArray::new(result));
-    }
-
-    let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
-    let dst_ptr = buffer.as_mut_ptr();
-
-    macro_rules! ediff1d_typed {
-        ($ty:ty) => {{
-            let dst = dst_ptr as *mut $ty;
-            let mut idx = 0usize;
-
-            // Write begin values
-            if let Some(ref arr) = begin_arr {
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..begin_len {
-                    unsafe { *dst.add(idx) = *(arr.inner.data_ptr().offset(offsets[j]) as *const $ty); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = begin_scalar {
-                unsafe { *dst.add(idx) = scalar as $ty; }
-                idx += 1;
-            }
-
-            // Write differences
-            if size > 1 {
-                let src = inner.data_ptr() as *const $ty;
-                if inner.is_c_contiguous() {
-                    for i in 1..size {
-                        unsafe { *dst.add(idx) = *src.add(i) - *src.add(i - 1); }
-                        idx += 1;
-                    }
-                } else {
-                    let offsets: Vec<isize> = inner.iter_offsets().collect();
-                    for i in 1..size {
-                        let curr = unsafe { *(inner.data_ptr().offset(offsets[i]) as *const $ty) };
-                        let prev = unsafe { *(inner.data_ptr().offset(offsets[i - 1]) as *const $ty) };
-                        unsafe { *dst.add(idx) = curr - prev; }
-                        idx += 1;
-                    }
-                }
-            }
-
-            // Write end values
-            if let Some(ref arr) = end_arr {
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..end_len {
-                    unsafe { *dst.add(idx) = *(arr.inner.data_ptr().offset(offsets[j]) as *const $ty); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = end_scalar {
-                unsafe { *dst.add(idx) = scalar as $ty; }
-            }
-        }};
+    if !dtype.is_numeric() || dtype == DType::bool() {
+        return Err(pyo3::exceptions::PyTypeError::new_err("ediff1d needs an array of numbers"));
     }
 
-    match dtype.kind() {
-        DTypeKind::Float32 => ediff1d_typed!(f32),
-        DTypeKind::Float64 => ediff1d_typed!(f64),
-        DTypeKind::Int32 => ediff1d_typed!(i32),
-        DTypeKind::Int64 => ediff1d_typed!(i64),
-        DTypeKind::Uint32 => ediff1d_typed!(u32),
-        DTypeKind::Uint64 => ediff1d_typed!(u64),
-        DTypeKind::Int8 => ediff1d_typed!(i8),
-        DTypeKind::Int16 => ediff1d_typed!(i16),
-        DTypeKind::Uint8 => ediff1d_typed!(u8),
-        DTypeKind::Uint16 => ediff1d_typed!(u16),
-        _ => {
-            // Complex types fallback
-            let ops = dtype.ops();
-            let mut idx = 0usize;
-
-            // Write begin values
-            if let Some(ref arr) = begin_arr {
-                let arr_dtype = arr.inner.dtype();
-                let arr_ops = arr_dtype.ops();
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..begin_len {
-                    let val = unsafe { arr_ops.read_f64(arr.inner.data_ptr(), offsets[j]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, idx, val); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = begin_scalar {
-                unsafe { ops.write_f64(dst_ptr, idx, scalar); }
-                idx += 1;
-            }
-
-            // Write differences
-            if size > 1 {
-                let offsets: Vec<isize> = inner.iter_offsets().collect();
-                for i in 1..size {
-                    let curr = unsafe { ops.read_f64(inner.data_ptr(), offsets[i]) }.unwrap_or(0.0);
-                    let prev = unsafe { ops.read_f64(inner.data_ptr(), offsets[i - 1]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, idx, curr - prev); }
-                    idx += 1;
-                }
-            }
-
-            // Write end values
-            if let Some(ref arr) = end_arr {
-                let arr_dtype = arr.inner.dtype();
-                let arr_ops = arr_dtype.ops();
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..end_len {
-                    let val = unsafe { arr_ops.read_f64(arr.inner.data_ptr(), offsets[j]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, idx, val); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = end_scalar {
-                unsafe { ops.write_f64(dst_ptr, idx, scalar); }
-            }
+    // Values put before and after the differences, in the dtype of the differences
+    let edge = |v: Option<&Bound<'_, pyo3::PyAny>>| -> PyResult<RumpyArray> {
+        let Some(v) = v else { return Ok(RumpyArray::zeros(vec![0], dtype.clone())) };
+        let values = super::pyarray::extract_values(v, "to_begin and to_end")?;
+        if !values.dtype().is_numeric() {
+            return Err(pyo3::exceptions::PyTypeError::new_err("to_begin and to_end must be numbers"));
         }
-    }
+        let values = values.astype(dtype.clone());
+        let n = values.size();
+        Ok(values.reshape(vec![n]).expect("contiguous"))
+    };
+    let begin = edge(to_begin)?;
+    let end = edge(to_end)?;
 
-    Ok(PyRumpyArray::new(result))
+    let flat = inner.copy().reshape(vec![size]).expect("contiguous");
+    let differences = if size > 1 {
+        flat.diff(1, 0)
+    } else {
+        RumpyArray::zeros(vec![0], dtype.clone())
+    };
+    crate::array::concatenate(&[begin, differences, end], 0)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("ediff1d failed"))
 }
 
 // ============================================================================
diff --git a/src/python/pyarray/methods_reductions.rs b/src/python/pyarray/methods_reductions.rs
index ebe76c3..dfb7739 100644
--- a/src/python/pyarray/methods_reductions.rs
+++ b/src/python/pyarray/methods_reductions.rs
@@ -106,6 +106,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn mean(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        super::check_numeric(&self.inner)?;
         match axis {
             None => Ok(element_reduction_with_keepdims(
                 &self.inner,
@@ -126,6 +127,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn var(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        super::check_numeric(&self.inner)?;
         match axis {
             None => Ok(scalar_reduction_with_keepdims(
                 &self.inner,
@@ -147,6 +149,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn std(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        super::check_numeric(&self.inner)?;
         match axis {
             None => Ok(scalar_reduction_with_keepdims(
                 &self.inner,
@@ -169,6 +172,7 @@ impl PyRumpyArray {
     /// Central moment of order k.
     #[pyo3(signature = (k, axis=None, keepdims=false))]
     fn moment(&self, k: usize, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        super::check_numeric(&self.inner)?;
         match axis {
             None => Ok(scalar_reduction_with_keepdims(
                 &self.inner,
@@ -191,6 +195,7 @@ impl PyRumpyArray {
     /// Skewness (Fisher's definition).
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn skew(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        super::check_numeric(&self.inner)?;
         match axis {
             None => Ok(scalar_reduction_with_keepdims(
                 &self.inner,
@@ -213,6 +218,7 @@ impl PyRumpyArray {
     /// Kurtosis (Fisher's definition: excess kurtosis, normal = 0).
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn kurtosis(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        super::check_numeric(&self.inner)?;
         match axis {
             None => Ok(scalar_reduction_with_keepdims(
                 &self.inner,
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index a070d36..624116b 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -30,6 +30,20 @@ fn py_refcount_ptr(ptr: *mut pyo3::ffi::PyObject) -> isize {
 
 /// Parse shape from int, tuple, or list.
 pub fn parse_shape(obj: &Bound<'_, PyAny>) -> PyResult<Vec<usize>> {
+    let shape = parse_shape_dims(obj)?;
+    check_size(&shape)?;
+    Ok(shape)
+}
+
+/// Refuse a shape that no machine has the memory for (an item takes up to 16 bytes).
+pub(crate) fn check_size(shape: &[usize]) -> PyResult<()> {
+    match crate::array::byte_size(shape, 16) {
+        Some(nbytes) if nbytes < 1 << 47 => Ok(()),
+        _ => Err(pyo3::exceptions::PyValueError::new_err("array is too big")),
+    }
+}
+
+fn parse_shape_dims(obj: &Bound<'_, PyAny>) -> PyResult<Vec<usize>> {
     if let Ok(n) = obj.extract::<usize>() {
         return Ok(vec![n]);
     }
@@ -173,6 +187,28 @@ pub(crate) fn check_has_elements(arr: &RumpyArray, axes: Option<&[usize]>) -> Py
     Ok(())
 }
 
+/// Booleans, text and dates have no difference of their own dtype.
+pub(crate) fn check_difference(arr: &RumpyArray) -> PyResult<()> {
+    if arr.dtype().is_numeric() && arr.dtype() != DType::bool() {
+        Ok(())
+    } else {
+        Err(pyo3::exceptions::PyTypeError::new_err(format!(
+            "subtraction is not supported for dtype {}", arr.dtype().ops().name()
+        )))
+    }
+}
+
+/// Means and moments are of numbers.
+pub(crate) fn check_numeric(arr: &RumpyArray) -> PyResult<()> {
+    if arr.dtype().is_numeric() {
+        Ok(())
+    } else {
+        Err(pyo3::exceptions::PyTypeError::new_err(format!(
+            "the operation is not supported for dtype {}", arr.dtype().ops().name()
+        )))
+    }
+}
+
 /// Dtype of means and variances of `arr`.
 fn floating_dtype(arr: &RumpyArray) -> DType {
     if arr.dtype().is_integer() || arr.dtype() == DType::bool() {
@@ -233,11 +269,15 @@ fn axis_reduction_with_keepdims(
 #[pyclass(name = "ndarray", module = "rumpy")]
 pub struct PyRumpyArray {
     pub(crate) inner: RumpyArray,
+    /// Whether the address of the data was ever handed out.
+    exported: std::sync::atomic::AtomicBool,
+    /// Earlier data of a resized array, kept for those who know its address.
+    retired: Vec<RumpyArray>,
 }
 
 impl PyRumpyArray {
     pub fn new(inner: RumpyArray) -> Self {
-        Self { inner }
+        Self { inner, exported: std::sync::atomic::AtomicBool::new(false), retired: Vec::new() }
     }
 }
 
@@ -288,6 +328,7 @@ impl PyRumpyArray {
     /// NumPy array interface for zero-copy interop.
     #[getter]
     fn __array_interface__<'py>(&self, py: Python<'py>) -> PyResult<Bound<'py, PyDict>> {
+        self.exported.store(true, std::sync::atomic::Ordering::Relaxed);
         let dict = PyDict::new(py);
         // Shape and strides must be tuples for numpy
         let shape_tuple = PyTuple::new(py, self.inner.shape())?;
@@ -715,6 +756,7 @@ impl PyRumpyArray {
     /// Peak-to-peak (maximum - minimum) value.
     #[pyo3(signature = (axis=None))]
     fn ptp(&self, axis: Option<isize>) -> PyResult<ReductionResult> {
+        check_difference(&self.inner)?;
         match axis {
             None => {
                 check_has_elements(&self.inner, None)?;
@@ -776,8 +818,14 @@ impl PyRumpyArray {
             ));
         }
         let new_shape: Vec<usize> = new_shape.iter().map(|&d| d as usize).collect();
+        check_size(&new_shape)?;
         let new_size: usize = new_shape.iter().product();
 
+        // NumPy arrays made from this one still point into the old buffer
+        if self.exported.load(std::sync::atomic::Ordering::Relaxed) {
+            self.retired.push(self.inner.clone());
+        }
+
         if new_size == 0 {
             self.inner = RumpyArray::zeros(new_shape, self.inner.dtype());
             return Ok(());
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 124a065..34f87ec 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -164,6 +164,7 @@ pub fn prod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn mean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    pyarray::check_numeric(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Element(x.inner.mean_element())),
@@ -181,6 +182,7 @@ pub fn mean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn var(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    pyarray::check_numeric(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.var())),
@@ -198,6 +200,7 @@ pub fn var(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 #[pyfunction]
 #[pyo3(name = "std", signature = (x, axis=None))]
 pub fn std_fn(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    pyarray::check_numeric(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.std())),
@@ -319,6 +322,7 @@ pub fn nanprod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyRes
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    pyarray::check_numeric(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanmean_axis(0))),
@@ -336,6 +340,7 @@ pub fn nanmean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyRes
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanvar(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    pyarray::check_numeric(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanvar_axis(0))),
@@ -353,6 +358,7 @@ pub fn nanvar(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanstd(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    pyarray::check_numeric(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanstd_axis(0))),
@@ -552,6 +558,7 @@ pub fn cumulative_prod(x: &PyRumpyArray, axis: isize, include_initial: bool) ->
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn median(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    pyarray::check_numeric(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).median_axis(0))),
@@ -573,6 +580,7 @@ pub fn average(
     axis: Option<isize>,
     weights: Option<&PyRumpyArray>,
 ) -> PyResult<pyarray::ReductionResult> {
+    pyarray::check_numeric(&x.inner)?;
     if let Some(w) = weights {
         let along = axis.map(|ax| resolve_axis(ax, x.inner.ndim()));
         let fits = w.inner.shape() == x.inner.shape()
@@ -605,6 +613,7 @@ pub fn average(
 pub fn ptp(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     pyarray::check_has_elements(&x.inner, axes.as_deref())?;
+    pyarray::check_difference(&x.inner)?;
     match axes {
         None => Ok(pyarray::ReductionResult::Element(x.inner.ptp_element())),
         Some(ax_vec) if ax_vec.len() == 1 => {
@@ -625,7 +634,12 @@ pub fn histogram(
     bins: usize,
     range: Option<(f64, f64)>,
 ) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
-    let (counts, edges) = crate::ops::histogram(&x.inner, bins, range);
+    pyarray::check_numeric(&x.inner)?;
+    if bins == 0 {
+        return Err(pyo3::exceptions::PyValueError::new_err("`bins` must be positive"));
+    }
+    let (counts, edges) = crate::ops::histogram(&x.inner, bins, range)
+        .map_err(pyo3::exceptions::PyValueError::new_err)?;
     Ok((PyRumpyArray::new(counts), PyRumpyArray::new(edges)))
 }
 
@@ -638,7 +652,9 @@ pub fn histogram_bin_edges(
     range: Option<(f64, f64)>,
 ) -> PyResult<PyRumpyArray> {
     let Some(bins) = bins else {
-        return Ok(PyRumpyArray::new(crate::ops::histogram_bin_edges(&a.inner, 10, range)));
+        return crate::ops::histogram_bin_edges(&a.inner, 10, range)
+            .map(PyRumpyArray::new)
+            .map_err(pyo3::exceptions::PyValueError::new_err);
     };
 
     // If bins is an array/list, return it directly as edges
@@ -654,7 +670,13 @@ pub fn histogram_bin_edges(
         pyo3::exceptions::PyTypeError::new_err("bins must be an integer or array-like")
     })?;
 
-    Ok(PyRumpyArray::new(crate::ops::histogram_bin_edges(&a.inner, nbins, range)))
+    if nbins == 0 {
+        return Err(pyo3::exceptions::PyValueError::new_err("`bins` must be positive"));
+    }
+
+    crate::ops::histogram_bin_edges(&a.inner, nbins, range)
+        .map(PyRumpyArray::new)
+        .map_err(pyo3::exceptions::PyValueError::new_err)
 }
 
 /// Compute 2D histogram.
@@ -700,6 +722,12 @@ pub fn histogram2d(
 
     let density_bool = density.unwrap_or(false);
 
+    pyarray::check_numeric(&x.inner)?;
+    pyarray::check_numeric(&y.inner)?;
+    if bins_x == 0 || bins_y == 0 {
+        return Err(pyo3::exceptions::PyValueError::new_err("`bins` must be positive"));
+    }
+
     match crate::ops::histogram2d(&x.inner, &y.inner, bins_x, bins_y, range_opt, density_bool) {
         Ok((h, xe, ye)) => Ok((PyRumpyArray::new(h), PyRumpyArray::new(xe), PyRumpyArray::new(ye))),
         Err(e) => Err(pyo3::exceptions::PyValueError::new_err(e)),
@@ -748,6 +776,19 @@ pub fn histogramdd(
 
     let density_bool = density.unwrap_or(false);
 
+    pyarray::check_numeric(&sample.inner)?;
+    let columns = match sample.inner.shape() {
+        [_] => 1,
+        [_, n] => *n,
+        _ => return Err(pyo3::exceptions::PyValueError::new_err("sample must be one- or two-dimensional")),
+    };
+    if bins_vec.contains(&0) {
+        return Err(pyo3::exceptions::PyValueError::new_err("`bins` must be positive"));
+    }
+    if range_vec.as_ref().is_some_and(|r| r.len() != columns) {
+        return Err(pyo3::exceptions::PyValueError::new_err("range argument must have one entry per dimension"));
+    }
+
     match crate::ops::histogramdd(
         &sample.inner,
         &bins_vec,
@@ -765,14 +806,25 @@ pub fn histogramdd(
 /// Compute covariance matrix.
 #[pyfunction]
 #[pyo3(name = "cov", signature = (x, ddof=1))]
-pub fn cov_fn(x: &PyRumpyArray, ddof: usize) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::cov(&x.inner, ddof))
+pub fn cov_fn(x: &PyRumpyArray, ddof: usize) -> PyResult<PyRumpyArray> {
+    check_observations(&x.inner)?;
+    Ok(PyRumpyArray::new(crate::ops::cov(&x.inner, ddof)))
+}
+
+/// Variables are the rows of a table, or one vector.
+fn check_observations(x: &crate::array::RumpyArray) -> PyResult<()> {
+    pyarray::check_numeric(x)?;
+    if x.ndim() == 0 || x.ndim() > 2 {
+        return Err(pyo3::exceptions::PyValueError::new_err("observations must be one- or two-dimensional"));
+    }
+    Ok(())
 }
 
 /// Compute correlation coefficient matrix.
 #[pyfunction]
-pub fn corrcoef(x: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::corrcoef(&x.inner))
+pub fn corrcoef(x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    check_observations(&x.inner)?;
+    Ok(PyRumpyArray::new(crate::ops::corrcoef(&x.inner)))
 }
 
 /// Count occurrences of each non-negative integer value.
-- 
2.43.0


From a6eff084de1f26b8268668d633d70363a65fe487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:38 +0000
Subject: [PATCH 39/81] fix: dates before the epoch convert towards the past,
 integers round to tens, absurd arguments are refused

---
 src/array/dtype/datetime64.rs | 45 ++++++++++++++++++-----------------
 src/array/manipulation.rs     |  2 +-
 src/ops/dispatch.rs           | 11 ++++++---
 src/ops/indexing.rs           |  4 ++--
 src/ops/linalg.rs             |  3 +++
 src/python/pyarray/mod.rs     |  4 +++-
 src/python/shape.rs           | 29 +---------------------
 7 files changed, 41 insertions(+), 57 deletions(-)

diff --git a/src/array/dtype/datetime64.rs b/src/array/dtype/datetime64.rs
index c16a7e6..c488d8e 100644
--- a/src/array/dtype/datetime64.rs
+++ b/src/array/dtype/datetime64.rs
@@ -688,19 +688,19 @@ pub fn convert_datetime64(value: i64, from_unit: TimeUnit, to_unit: TimeUnit) ->
     // For variable-length units (Y, M), we need special handling
     match (from_unit, to_unit) {
         // Variable to variable
-        (TimeUnit::Years, TimeUnit::Months) => value * 12,
-        (TimeUnit::Months, TimeUnit::Years) => value / 12,
+        (TimeUnit::Years, TimeUnit::Months) => value.wrapping_mul(12),
+        (TimeUnit::Months, TimeUnit::Years) => value.div_euclid(12),
 
         // Variable to fixed - convert via date calculation
         (TimeUnit::Years, to) => {
-            let year = 1970 + value;
+            let year = value.wrapping_add(1970);
             let days = ymd_to_days(year, 1, 1);
             days_to_unit(days, to)
         }
         (TimeUnit::Months, to) => {
-            let total_months = 1970 * 12 + value;
-            let year = total_months / 12;
-            let month = (total_months % 12) + 1;
+            let total_months = value.wrapping_add(1970 * 12);
+            let year = total_months.div_euclid(12);
+            let month = total_months.rem_euclid(12) + 1;
             let days = ymd_to_days(year, month, 1);
             days_to_unit(days, to)
         }
@@ -722,9 +722,10 @@ pub fn convert_datetime64(value: i64, from_unit: TimeUnit, to_unit: TimeUnit) ->
             let from_factor = from.to_ns_factor().unwrap();
             let to_factor = to.to_ns_factor().unwrap();
             if from_factor >= to_factor {
-                value * (from_factor / to_factor)
+                value.wrapping_mul(from_factor / to_factor)
             } else {
-                value / (to_factor / from_factor)
+                // An earlier unit holds the moment: towards the past, not towards the epoch
+                value.div_euclid(to_factor / from_factor)
             }
         }
     }
@@ -740,14 +741,14 @@ fn days_to_unit(days: i64, unit: TimeUnit) -> i64 {
                 (year - 1970) * 12 + (month - 1)
             }
         }
-        TimeUnit::Weeks => days / 7,
+        TimeUnit::Weeks => days.div_euclid(7),
         TimeUnit::Days => days,
-        TimeUnit::Hours => days * 24,
-        TimeUnit::Minutes => days * 24 * 60,
-        TimeUnit::Seconds => days * 86400,
-        TimeUnit::Milliseconds => days * 86400 * 1000,
-        TimeUnit::Microseconds => days * 86400 * 1_000_000,
-        TimeUnit::Nanoseconds => days * 86400 * 1_000_000_000,
+        TimeUnit::Hours => days.wrapping_mul(24),
+        TimeUnit::Minutes => days.wrapping_mul(24 * 60),
+        TimeUnit::Seconds => days.wrapping_mul(86400),
+        TimeUnit::Milliseconds => days.wrapping_mul(86400 * 1000),
+        TimeUnit::Microseconds => days.wrapping_mul(86400 * 1_000_000),
+        TimeUnit::Nanoseconds => days.wrapping_mul(86400 * 1_000_000_000),
     }
 }
 
@@ -757,13 +758,13 @@ fn unit_to_days(value: i64, unit: TimeUnit) -> i64 {
             // These should be handled separately
             0
         }
-        TimeUnit::Weeks => value * 7,
+        TimeUnit::Weeks => value.wrapping_mul(7),
         TimeUnit::Days => value,
-        TimeUnit::Hours => value / 24,
-        TimeUnit::Minutes => value / (24 * 60),
-        TimeUnit::Seconds => value / 86400,
-        TimeUnit::Milliseconds => value / (86400 * 1000),
-        TimeUnit::Microseconds => value / (86400 * 1_000_000),
-        TimeUnit::Nanoseconds => value / (86400 * 1_000_000_000),
+        TimeUnit::Hours => value.div_euclid(24),
+        TimeUnit::Minutes => value.div_euclid(24 * 60),
+        TimeUnit::Seconds => value.div_euclid(86400),
+        TimeUnit::Milliseconds => value.div_euclid(86400 * 1000),
+        TimeUnit::Microseconds => value.div_euclid(86400 * 1_000_000),
+        TimeUnit::Nanoseconds => value.div_euclid(86400 * 1_000_000_000),
     }
 }
diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index d87abe7..3693a31 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -532,7 +532,7 @@ pub fn tri(n: usize, m: usize, k: isize, dtype: DType) -> RumpyArray {
     for i in 0..n {
         for j in 0..m {
             // Element is 1 if j <= i + k
-            if (j as isize) <= (i as isize) + k {
+            if (j as isize) <= (i as isize).saturating_add(k) {
                 let idx = i * m + j;
                 unsafe { ops.write_one(ptr, idx); }
             }
diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index f3b3d97..6963656 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -1602,7 +1602,12 @@ macro_rules! impl_round_int {
                 return Some(RumpyArray::zeros(arr.shape().to_vec(), $dtype));
             }
 
-            let scale = 10i64.pow((-decimals) as u32) as $T;
+            // Beyond 10**20 every integer rounds to zero
+            let scale = 10i128.pow(decimals.unsigned_abs().min(20));
+            let round = |v: $T| {
+                let half = if (v as i128) < 0 { -scale / 2 } else { scale / 2 };
+                ((v as i128 + half) / scale * scale) as $T
+            };
             let mut result = RumpyArray::zeros(arr.shape().to_vec(), $dtype);
             let buffer = result.buffer_mut();
             let result_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
@@ -1612,13 +1617,13 @@ macro_rules! impl_round_int {
                 let src_slice = unsafe { std::slice::from_raw_parts(arr.data_ptr() as *const $T, size) };
                 let out_slice = unsafe { std::slice::from_raw_parts_mut(result_ptr, size) };
                 for i in 0..size {
-                    out_slice[i] = (src_slice[i] / scale) * scale;
+                    out_slice[i] = round(src_slice[i]);
                 }
             } else {
                 let itemsize = std::mem::size_of::<$T>() as isize;
                 for (i, offset) in arr.iter_offsets().enumerate() {
                     let v = unsafe { *(arr.data_ptr() as *const $T).byte_offset(offset) };
-                    unsafe { *result_ptr.byte_offset(i as isize * itemsize) = (v / scale) * scale; }
+                    unsafe { *result_ptr.byte_offset(i as isize * itemsize) = round(v); }
                 }
             }
 
diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index ad198e1..0aba23c 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -851,7 +851,7 @@ pub fn tril_indices(n: usize, k: i64, m: usize) -> (RumpyArray, RumpyArray) {
     let mut cols = Vec::new();
 
     for i in 0..n {
-        let max_col = ((i as i64) + k + 1).min(m as i64).max(0) as usize;
+        let max_col = (i as i64).saturating_add(k).saturating_add(1).min(m as i64).max(0) as usize;
         for j in 0..max_col {
             rows.push(i as i64);
             cols.push(j as i64);
@@ -876,7 +876,7 @@ pub fn triu_indices(n: usize, k: i64, m: usize) -> (RumpyArray, RumpyArray) {
     let mut cols = Vec::new();
 
     for i in 0..n {
-        let start_col = ((i as i64) + k).max(0) as usize;
+        let start_col = (i as i64).saturating_add(k).max(0) as usize;
         for j in start_col..m {
             rows.push(i as i64);
             cols.push(j as i64);
diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index 2c8cd47..5cfeeb4 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -1083,6 +1083,9 @@ pub fn tensorsolve(a: &RumpyArray, b: &RumpyArray, axes: Option<&[usize]>) -> Op
     // Optionally move axes of A to the end
     let a = if let Some(ax) = axes {
         // Move specified axes to the end
+        if ax.iter().enumerate().any(|(i, x)| *x >= a.ndim() || ax[..i].contains(x)) {
+            return None;
+        }
         let mut perm: Vec<usize> = (0..a.ndim()).filter(|i| !ax.contains(i)).collect();
         perm.extend(ax.iter().copied());
         a.transpose_axes(&perm)
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 624116b..c3a2285 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -104,7 +104,9 @@ pub fn resolve_reshape_shape(shape: Vec<isize>, size: usize) -> PyResult<Vec<usi
             }
             neg_idx = Some(i);
         } else {
-            known_product *= dim as usize;
+            known_product = known_product.checked_mul(dim as usize).ok_or_else(|| {
+                pyo3::exceptions::PyValueError::new_err("cannot reshape array: shape is too big")
+            })?;
         }
     }
 
diff --git a/src/python/shape.rs b/src/python/shape.rs
index 9eb6aad..457446a 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -49,34 +49,7 @@ pub fn reshape(a: &PyRumpyArray, newshape: &Bound<'_, pyo3::PyAny>) -> PyResult<
         ));
     };
 
-    // Handle -1 in shape (infer dimension)
-    let total = a.inner.size();
-    if newshape.iter().any(|&x| x < -1) {
-        return Err(pyo3::exceptions::PyValueError::new_err(
-            "negative dimensions not allowed"
-        ));
-    }
-    let neg_one_count = newshape.iter().filter(|&&x| x == -1).count();
-    if neg_one_count > 1 {
-        return Err(pyo3::exceptions::PyValueError::new_err(
-            "can only specify one unknown dimension"
-        ));
-    }
-
-    let shape: Vec<usize> = if neg_one_count == 1 {
-        let known_product: isize = newshape.iter().filter(|&&x| x != -1).product();
-        if known_product <= 0 || total % (known_product as usize) != 0 {
-            return Err(pyo3::exceptions::PyValueError::new_err(
-                "cannot reshape array of size into shape"
-            ));
-        }
-        let inferred = (total as isize) / known_product;
-        newshape.into_iter()
-            .map(|x| if x == -1 { inferred as usize } else { x as usize })
-            .collect()
-    } else {
-        newshape.into_iter().map(|x| x as usize).collect()
-    };
+    let shape = super::pyarray::resolve_reshape_shape(newshape, a.inner.size())?;
 
     a.inner.reshape(shape.clone())
         .map(PyRumpyArray::new)
-- 
2.43.0


From 9011fe4a956c62ce073c0b5f28717c727b0e03c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:31 +0000
Subject: [PATCH 40/81] fix: unravel_index and ravel_multi_index refuse
 dimensions that overflow

---
 src/python/indexing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index db0c3e1..e963e3e 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -379,6 +379,8 @@ pub fn unravel_index(
     shape: Vec<usize>,
     order: &str,
 ) -> PyResult<pyo3::PyObject> {
+    super::pyarray::check_size(&shape)?;
+
     // Check if input is scalar
     let is_scalar = indices.extract::<i64>().is_ok();
 
@@ -438,6 +440,8 @@ pub fn ravel_multi_index(
     mode: &str,
     order: &str,
 ) -> PyResult<PyRumpyArray> {
+    super::pyarray::check_size(&dims)?;
+
     // Extract multi_index as Vec<Vec<i64>>
     let multi_idx: Vec<Vec<i64>> = if let Ok(list) = multi_index.extract::<Vec<Vec<i64>>>() {
         list
-- 
2.43.0


From 92ecbdaa9804c30a8a567d174b3f5dcb33d99f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:26 +0000
Subject: [PATCH 41/81] fix: block joins each nesting level along its own axis;
 eigenvalues of a non-finite matrix are refused

---
 src/python/linalg.rs | 13 +++++++
 src/python/misc.rs   | 85 ++++++++++++++++++++++++--------------------
 2 files changed, 59 insertions(+), 39 deletions(-)

diff --git a/src/python/linalg.rs b/src/python/linalg.rs
index 3064fbe..70731f7 100644
--- a/src/python/linalg.rs
+++ b/src/python/linalg.rs
@@ -169,6 +169,7 @@ pub fn inv(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 pub fn eigh(a: &PyRumpyArray) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
     real_matrix(a)?;
+    finite_matrix(a)?;
     linalg_ops::eigh(&a.inner)
         .map(|(w, v)| (PyRumpyArray::new(w), PyRumpyArray::new(v)))
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("eigh requires square 2D array"))
@@ -273,15 +274,26 @@ pub fn lstsq(a: &PyRumpyArray, b: &PyRumpyArray, rcond: Option<f64>) -> PyResult
 #[pyfunction]
 pub fn eigvals(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
     real_matrix(a)?;
+    finite_matrix(a)?;
     linalg_ops::eigvals(&a.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("eigvals requires square 2D array"))
 }
 
+/// Eigenvalues exist only for finite matrices.
+fn finite_matrix(a: &PyRumpyArray) -> PyResult<()> {
+    if a.inner.to_vec().iter().all(|v| v.is_finite()) {
+        Ok(())
+    } else {
+        Err(LinAlgError::new_err("Array must not contain infs or NaNs"))
+    }
+}
+
 /// Eigendecomposition of a general matrix.
 #[pyfunction]
 pub fn eig(a: &PyRumpyArray) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
     real_matrix(a)?;
+    finite_matrix(a)?;
     linalg_ops::eig(&a.inner)
         .map(|(w, v)| (PyRumpyArray::new(w), PyRumpyArray::new(v)))
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("eig requires square 2D array"))
@@ -291,6 +303,7 @@ pub fn eig(a: &PyRumpyArray) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
 #[pyfunction]
 pub fn eigvalsh(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
     real_matrix(a)?;
+    finite_matrix(a)?;
     linalg_ops::eigvalsh(&a.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("eigvalsh requires square 2D array"))
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 2e4b123..0fc6f78 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -157,55 +157,62 @@ pub fn unstack(py: Python<'_>, x: &PyRumpyArray, axis: isize) -> PyResult<Py<PyT
 #[pyfunction]
 pub fn block(arrays: &Bound<'_, PyAny>) -> PyResult<PyRumpyArray> {
     // Recursively process the nested list structure
-    let result = process_block(arrays, 0)?;
+    let levels = block_levels(arrays)?;
+    let mut leaves = Vec::new();
+    collect_blocks(arrays, levels, &mut leaves)?;
+    let ndim = leaves.iter().map(|b| b.ndim()).max().unwrap_or(0).max(levels);
+    let result = process_block(arrays, levels, ndim, &mut leaves.into_iter())?;
     Ok(PyRumpyArray::new(result.copy()))
 }
 
-fn process_block(obj: &Bound<'_, PyAny>, depth: usize) -> PyResult<RumpyArray> {
-    // If it's a RumpyArray, return it
-    if let Ok(arr) = obj.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        return Ok(arr.inner.clone());
+/// How deeply lists are nested.
+fn block_levels(obj: &Bound<'_, PyAny>) -> PyResult<usize> {
+    match obj.downcast::<PyList>() {
+        Ok(list) if list.is_empty() => Err(pyo3::exceptions::PyValueError::new_err("empty block list")),
+        Ok(list) => Ok(1 + block_levels(&list.get_item(0)?)?),
+        Err(_) => Ok(0),
     }
+}
 
-    // If it's a list, process recursively
-    if let Ok(list) = obj.downcast::<PyList>() {
-        if list.is_empty() {
-            return Err(pyo3::exceptions::PyValueError::new_err(
-                "empty block list"
-            ));
+/// All blocks in order; each must be nested `levels` deep.
+fn collect_blocks(obj: &Bound<'_, PyAny>, levels: usize, out: &mut Vec<RumpyArray>) -> PyResult<()> {
+    match obj.downcast::<PyList>() {
+        Ok(list) if levels > 0 && !list.is_empty() => {
+            list.iter().try_for_each(|item| collect_blocks(&item, levels - 1, out))
         }
-
-        // Process each element
-        let blocks: Vec<RumpyArray> = list.iter()
-            .map(|item| process_block(&item, depth + 1))
-            .collect::<PyResult<Vec<_>>>()?;
-
-        // Concatenate along the appropriate axis
-        // depth 0 = concatenate along last axis (horizontal)
-        // depth 1 = concatenate along first axis (vertical)
-        // etc.
-
-        // For a simple 2D block, we have depth=0 for rows, depth=1 for cols
-        // numpy's block concatenates at depth according to nesting level
-
-        if blocks.len() == 1 {
-            return Ok(blocks.into_iter().next().unwrap());
+        Err(_) if levels == 0 => {
+            out.push(match obj.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
+                Ok(arr) => arr.inner.clone(),
+                Err(_) => to_rumpy_array(obj)?,
+            });
+            Ok(())
         }
-
-        // Determine axis: for the outermost list it's axis 0, inner is axis 1, etc.
-        let max_ndim = blocks.iter().map(|b| b.ndim()).max().unwrap_or(1);
-        let axis = if depth < max_ndim { depth } else { max_ndim - 1 };
-
-        crate::array::manipulation::concatenate(&blocks, axis)
-            .ok_or_else(|| pyo3::exceptions::PyValueError::new_err(
-                "block arrays have incompatible shapes"
-            ))
-    } else {
-        // Try to convert to array
-        to_rumpy_array(obj)
+        _ => Err(pyo3::exceptions::PyValueError::new_err("list depths of blocks are mismatched")),
     }
 }
 
+/// Join blocks: the innermost lists along the last axis, the next ones along the last but one ...
+fn process_block(
+    obj: &Bound<'_, PyAny>,
+    levels: usize,
+    ndim: usize,
+    leaves: &mut std::vec::IntoIter<RumpyArray>,
+) -> PyResult<RumpyArray> {
+    if levels == 0 {
+        let leaf = leaves.next().expect("counted before");
+        let mut shape = vec![1; ndim - leaf.ndim()];
+        shape.extend_from_slice(leaf.shape());
+        return leaf.reshape(shape.clone())
+            .or_else(|| leaf.copy().reshape(shape))
+            .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("block cannot be reshaped"));
+    }
+    let blocks = obj.downcast::<PyList>()?.iter()
+        .map(|item| process_block(&item, levels - 1, ndim, leaves))
+        .collect::<PyResult<Vec<_>>>()?;
+    crate::array::manipulation::concatenate(&blocks, ndim - levels)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("block arrays have incompatible shapes"))
+}
+
 // ============================================================================
 // trim_zeros - trim leading/trailing zeros
 // ============================================================================
-- 
2.43.0


From 075e18c8a5516d7b9ff20e25996ddd03605a8c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:40 +0000
Subject: [PATCH 42/81] fix: arange refuses a range no machine can hold

---
 src/python/creation.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index 7990fa0..db42b00 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -56,6 +56,8 @@ pub fn arange(
             return Err(pyo3::exceptions::PyZeroDivisionError::new_err("division by zero"));
         }
         let dtype = resolve_dtype(dtype, "int64")?;
+        let length = ((stop as i128 - start as i128) / step as i128).max(0) as u64;
+        super::pyarray::check_size(&[length as usize])?;
         let arr = RumpyArray::arange_int(start, stop, step);
         let arr = if dtype == DType::int64() { arr } else { arr.astype(dtype) };
         return Ok(PyRumpyArray::new(arr));
@@ -74,6 +76,7 @@ pub fn arange(
     if length >= isize::MAX as f64 {
         return Err(pyo3::exceptions::PyValueError::new_err("Maximum allowed size exceeded"));
     }
+    super::pyarray::check_size(&[length.max(0.0) as usize])?;
     let dtype = resolve_dtype(dtype, "float64")?;
     Ok(PyRumpyArray::new(RumpyArray::arange(start, stop, step, dtype)))
 }
-- 
2.43.0


From 7b4df25e72e5a29481e5199c773fd992c1adf69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:47 +0000
Subject: [PATCH 43/81] fix: convolve/correlate of a longer kernel, interp at
 the end points, polyint constants, polyfit weights and roots follow NumPy;
 real-only functions refuse complex input

---
 src/array/manipulation.rs |  16 ++--
 src/ops/numerical.rs      |  24 +++---
 src/ops/poly.rs           | 156 ++++++++++++--------------------------
 src/python/misc.rs        |   5 +-
 src/python/numerical.rs   |   7 ++
 src/python/poly.rs        |  37 +++++++--
 src/python/pyarray/mod.rs |   9 +++
 src/python/reductions.rs  |  11 +--
 8 files changed, 123 insertions(+), 142 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 3693a31..923ada0 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -790,13 +790,7 @@ pub fn convolve(a: &RumpyArray, v: &RumpyArray, mode: &str) -> Option<RumpyArray
     let m = v.size();
 
     if n == 0 || m == 0 {
-        let out_len = match mode {
-            "full" => n + m - 1,
-            "same" => n,
-            "valid" => n.saturating_sub(m - 1),
-            _ => return None,
-        };
-        return Some(RumpyArray::zeros(vec![out_len.max(0)], DType::float64()));
+        return None;
     }
 
     // Collect values (needed for both methods)
@@ -821,7 +815,8 @@ pub fn convolve(a: &RumpyArray, v: &RumpyArray, mode: &str) -> Option<RumpyArray
     // FFT wins when n*m is large enough to offset FFT overhead
     // Empirically, crossover vs numpy is around n*m = 2M
     // We use FFT when it's faster than our own direct method (~500k)
-    let use_fft = n * m > 500_000;
+    // (a non-finite value would spread over a whole transform)
+    let use_fft = n * m > 500_000 && a_vals.iter().chain(&v_vals).all(|x| x.is_finite());
 
     let full_result = if use_fft {
         convolve_fft(&a_vals, &v_vals)
@@ -831,10 +826,11 @@ pub fn convolve(a: &RumpyArray, v: &RumpyArray, mode: &str) -> Option<RumpyArray
 
     // Extract the portion based on mode
     let full_len = n + m - 1;
+    let (long, short) = (n.max(m), n.min(m));
     let (out_len, start) = match mode {
         "full" => (full_len, 0),
-        "same" => (n, (m - 1) / 2),
-        "valid" => (n.saturating_sub(m - 1).max(1), m - 1),
+        "same" => (long, (short - 1) / 2),
+        "valid" => (long - short + 1, short - 1),
         _ => return None,
     };
 
diff --git a/src/ops/numerical.rs b/src/ops/numerical.rs
index 6c3420a..4df0531 100644
--- a/src/ops/numerical.rs
+++ b/src/ops/numerical.rs
@@ -337,7 +337,7 @@ pub fn interp(
 
     let n = xp.size();
     if n == 0 {
-        return Some(RumpyArray::zeros(x.shape().to_vec(), DType::float64()));
+        return None;
     }
 
     let xp_vals = read_to_f64_vec(xp);
@@ -384,8 +384,9 @@ pub fn interp(
 #[inline]
 fn interp_single(xi: f64, xp: &[f64], fp: &[f64], left: f64, right: f64) -> f64 {
     let n = xp.len();
-    if xi <= xp[0] { return left; }
-    if xi >= xp[n - 1] { return right; }
+    if xi < xp[0] { return left; }
+    if xi > xp[n - 1] { return right; }
+    if n == 1 || xi == xp[n - 1] { return fp[n - 1]; }
 
     let (mut lo, mut hi) = (0, n - 1);
     while hi - lo > 1 {
@@ -393,6 +394,7 @@ fn interp_single(xi: f64, xp: &[f64], fp: &[f64], left: f64, right: f64) -> f64
         if xp[mid] <= xi { lo = mid; } else { hi = mid; }
     }
 
+    if xi == xp[lo] { return fp[lo]; }
     let t = (xi - xp[lo]) / (xp[hi] - xp[lo]);
     fp[lo] + t * (fp[hi] - fp[lo])
 }
@@ -409,20 +411,16 @@ pub fn correlate(a: &RumpyArray, v: &RumpyArray, mode: &str) -> Option<RumpyArra
 
     let (n, m) = (a.size(), v.size());
     if n == 0 || m == 0 {
-        let out_len = match mode {
-            "full" => (n + m).saturating_sub(1),
-            "same" => n,
-            "valid" => n.saturating_sub(m.saturating_sub(1)),
-            _ => return None,
-        };
-        return Some(RumpyArray::zeros(vec![out_len.max(0)], DType::float64()));
+        return None;
     }
 
     let a_vals = read_to_f64_vec(a);
     let mut v_vals = read_to_f64_vec(v);
     v_vals.reverse();  // correlate(a, v) = convolve(a, reverse(v))
 
-    let full_result = if n * m > 500_000 {
+    // A non-finite value would spread over a whole transform
+    let finite = a_vals.iter().chain(&v_vals).all(|x| x.is_finite());
+    let full_result = if n * m > 500_000 && finite {
         convolve_fft(&a_vals, &v_vals)
     } else {
         convolve_direct(&a_vals, &v_vals)
@@ -430,8 +428,8 @@ pub fn correlate(a: &RumpyArray, v: &RumpyArray, mode: &str) -> Option<RumpyArra
 
     let (out_len, start) = match mode {
         "full" => (n + m - 1, 0),
-        "same" => (n, (m - 1) / 2),
-        "valid" => (n.saturating_sub(m - 1).max(1), m - 1),
+        "same" => (n.max(m), if n >= m { (m - 1) / 2 } else { n / 2 }),
+        "valid" => (n.abs_diff(m) + 1, n.min(m) - 1),
         _ => return None,
     };
 
diff --git a/src/ops/poly.rs b/src/ops/poly.rs
index 143f849..77f7563 100644
--- a/src/ops/poly.rs
+++ b/src/ops/poly.rs
@@ -97,7 +97,11 @@ pub fn polyint(p: &RumpyArray, m: usize, k: Option<&RumpyArray>) -> RumpyArray {
     }
 
     let mut coeffs = array_to_vec(p);
-    let k_values = k.map(array_to_vec).unwrap_or_default();
+    let mut k_values = k.map(array_to_vec).unwrap_or_default();
+    if let [constant] = k_values[..] {
+        // One constant serves every integration
+        k_values = vec![constant; m];
+    }
 
     for i in 0..m {
         let n = coeffs.len();
@@ -108,7 +112,7 @@ pub fn polyint(p: &RumpyArray, m: usize, k: Option<&RumpyArray>) -> RumpyArray {
             new_coeffs.push(c / power);
         }
         // Append integration constant
-        let constant = k_values.get(m - 1 - i).copied().unwrap_or(0.0);
+        let constant = k_values.get(i).copied().unwrap_or(0.0);
         new_coeffs.push(constant);
         coeffs = new_coeffs;
     }
@@ -162,12 +166,12 @@ pub fn polyfit(x: &RumpyArray, y: &RumpyArray, deg: usize, w: Option<&RumpyArray
             return None;
         }
 
-        // Weight by sqrt(w): W*V and W*y where W = diag(sqrt(w))
+        // Weights apply to the residuals: W*V and W*y where W = diag(w)
         let mut v_data = Vec::with_capacity(n * cols);
         let mut y_data = Vec::with_capacity(n);
 
         for i in 0..n {
-            let sw = w_vals[i].sqrt();
+            let sw = w_vals[i];
             for j in 0..cols {
                 v_data.push(vander.get_element(&[i, j]) * sw);
             }
@@ -209,120 +213,60 @@ pub fn polyfit(x: &RumpyArray, y: &RumpyArray, deg: usize, w: Option<&RumpyArray
 
 /// Find roots of polynomial.
 ///
-/// Uses direct formulas for low-degree polynomials and companion matrix
-/// eigenvalue computation for higher degrees.
+/// They are the eigenvalues of the companion matrix: real if every root is,
+/// complex otherwise.
 pub fn roots(p: &RumpyArray) -> Option<RumpyArray> {
-    let mut coeffs = array_to_vec(p);
-
-    // Remove leading zeros
-    while !coeffs.is_empty() && coeffs[0].abs() < 1e-15 {
-        coeffs.remove(0);
-    }
+    let coeffs = array_to_vec(p);
 
-    let n = coeffs.len();
-    if n <= 1 {
-        // Constant or empty - no roots
+    // Leading zeros do not count, and each trailing zero is a root at zero
+    let Some(first) = coeffs.iter().position(|&c| c != 0.0) else {
         return Some(RumpyArray::from_vec(Vec::new(), DType::float64()));
-    }
-
-    let degree = n - 1;
+    };
+    let last = coeffs.iter().rposition(|&c| c != 0.0).unwrap_or(first);
+    let mut found = companion_eigenvalues(&coeffs[first..=last])?;
+    found.resize(found.len() + coeffs.len() - 1 - last, (0.0, 0.0));
 
-    // Normalize by leading coefficient
-    let lead = coeffs[0];
-    for c in coeffs.iter_mut() {
-        *c /= lead;
+    if found.iter().all(|&(_, im)| im == 0.0) {
+        let real = found.into_iter().map(|(re, _)| re).collect();
+        return Some(RumpyArray::from_vec(real, DType::float64()));
     }
-
-    // For low-degree polynomials, use direct formulas
-    // coeffs is now [1, a_{n-1}, ..., a_0] (monic)
-    match degree {
-        1 => {
-            // Linear: x + a_0 = 0 => x = -a_0
-            Some(RumpyArray::from_vec(vec![-coeffs[1]], DType::float64()))
-        }
-        2 => {
-            // Quadratic: x^2 + bx + c = 0
-            // x = (-b ± sqrt(b² - 4c)) / 2
-            let b = coeffs[1];
-            let c = coeffs[2];
-            let disc = b * b - 4.0 * c;
-            if disc >= 0.0 {
-                let sqrt_disc = disc.sqrt();
-                let r1 = (-b + sqrt_disc) / 2.0;
-                let r2 = (-b - sqrt_disc) / 2.0;
-                // Sort by magnitude descending (NumPy convention)
-                let mut roots = vec![r1, r2];
-                roots.sort_by(|a, b| b.abs().partial_cmp(&a.abs()).unwrap_or(std::cmp::Ordering::Equal));
-                Some(RumpyArray::from_vec(roots, DType::float64()))
-            } else {
-                // Complex roots - return empty for now (we don't support complex output)
-                // A more complete implementation would return complex128
-                Some(RumpyArray::from_vec(Vec::new(), DType::float64()))
-            }
-        }
-        _ => {
-            // For higher degrees, use companion matrix eigenvalue approach
-            roots_via_companion(&coeffs, degree)
+    let result = RumpyArray::zeros(vec![found.len()], DType::complex128());
+    let ptr = result.data_ptr() as *mut f64;
+    for (i, (re, im)) in found.into_iter().enumerate() {
+        unsafe {
+            *ptr.add(2 * i) = re;
+            *ptr.add(2 * i + 1) = im;
         }
     }
+    Some(result)
 }
 
-/// Compute roots via companion matrix eigenvalues for degree >= 3.
-fn roots_via_companion(coeffs: &[f64], degree: usize) -> Option<RumpyArray> {
-    // Build companion matrix
-    // For monic polynomial x^n + a_{n-1}*x^{n-1} + ... + a_0:
-    // C = [[0, 0, ..., 0, -a_0],
-    //      [1, 0, ..., 0, -a_1],
-    //      [0, 1, ..., 0, -a_2],
-    //      ...
-    //      [0, 0, ..., 1, -a_{n-1}]]
-    let mut companion_data = vec![0.0; degree * degree];
-
-    // Sub-diagonal ones
-    for i in 1..degree {
-        companion_data[i * degree + (i - 1)] = 1.0;
-    }
-
-    // Last column: negative of normalized coefficients (except leading)
-    for i in 0..degree {
-        companion_data[i * degree + (degree - 1)] = -coeffs[degree - i];
-    }
-
-    let companion = RumpyArray::from_vec(companion_data, DType::float64())
-        .reshape(vec![degree, degree])?;
-
-    // Use QR iteration for eigenvalues
-    // 50 iterations is typically sufficient for convergence
-    let eigenvalues = qr_eigenvalues(&companion, 50)?;
-
-    Some(eigenvalues)
-}
-
-/// QR algorithm for eigenvalues of a general matrix.
-/// Returns real eigenvalues (may miss complex conjugate pairs).
-fn qr_eigenvalues(a: &RumpyArray, max_iter: usize) -> Option<RumpyArray> {
-    let n = a.shape()[0];
-    if n == 0 {
-        return Some(RumpyArray::from_vec(Vec::new(), DType::float64()));
+/// Eigenvalues (re, im) of the companion matrix of a polynomial, largest first.
+fn companion_eigenvalues(coeffs: &[f64]) -> Option<Vec<(f64, f64)>> {
+    let degree = coeffs.len() - 1;
+    if coeffs.iter().any(|c| !c.is_finite()) {
+        return None;
     }
 
-    let mut matrix = a.copy();
-
-    // Plain QR iteration (no shifts)
-    for _ in 0..max_iter {
-        let (q, r) = linalg::qr(&matrix)?;
-        // A_new = R * Q
-        matrix = crate::ops::matmul::matmul(&r, &q)?;
+    // [[-a_{n-1}, ..., -a_0],
+    //  [1, 0, ..., 0],
+    //  ...
+    //  [0, ..., 1, 0]]
+    let mut companion = vec![0.0; degree * degree];
+    for (entry, c) in companion.iter_mut().zip(&coeffs[1..]) {
+        *entry = -c / coeffs[0];
     }
-
-    // Extract diagonal (eigenvalues for converged matrix)
-    let mut eigenvalues = Vec::with_capacity(n);
-    for i in 0..n {
-        eigenvalues.push(matrix.get_element(&[i, i]));
+    for i in 1..degree {
+        companion[i * degree + (i - 1)] = 1.0;
     }
+    let companion = RumpyArray::from_vec(companion, DType::float64())
+        .reshape(vec![degree, degree])?;
 
-    // Sort by magnitude (largest first, matching NumPy convention)
-    eigenvalues.sort_by(|a, b| b.abs().partial_cmp(&a.abs()).unwrap_or(std::cmp::Ordering::Equal));
-
-    Some(RumpyArray::from_vec(eigenvalues, DType::float64()))
+    let eigenvalues = linalg::eigvals(&companion)?;
+    let ptr = eigenvalues.data_ptr() as *const f64;
+    let mut found: Vec<(f64, f64)> = (0..degree)
+        .map(|i| unsafe { (*ptr.add(2 * i), *ptr.add(2 * i + 1)) })
+        .collect();
+    found.sort_by(|a, b| b.0.hypot(b.1).total_cmp(&a.0.hypot(a.1)));
+    Some(found)
 }
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 0fc6f78..03fc9ac 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -837,7 +837,8 @@ pub fn real_if_close(a: &PyRumpyArray, tol: f64) -> PyResult<PyRumpyArray> {
     // Check if all imaginary parts are small
     // tol is multiplied by machine epsilon for the type
     let eps = if itemsize == 8 { f32::EPSILON as f64 } else { f64::EPSILON };
-    let threshold = tol * eps;
+    // (a tolerance up to one is taken as it is)
+    let threshold = if tol > 1.0 { tol * eps } else { tol };
 
     let mut all_close = true;
     for &offset in &offsets {
@@ -848,7 +849,7 @@ pub fn real_if_close(a: &PyRumpyArray, tol: f64) -> PyResult<PyRumpyArray> {
             (unsafe { *(elem_ptr.add(8) as *const f64) }).abs()
         };
 
-        if im > threshold {
+        if im.is_nan() || im >= threshold {
             all_close = false;
             break;
         }
diff --git a/src/python/numerical.rs b/src/python/numerical.rs
index a953bbb..793f8aa 100644
--- a/src/python/numerical.rs
+++ b/src/python/numerical.rs
@@ -11,6 +11,8 @@ use super::PyRumpyArray;
 #[pyfunction]
 #[pyo3(signature = (a, v, mode="full"))]
 pub fn convolve(a: &PyRumpyArray, v: &PyRumpyArray, mode: &str) -> PyResult<PyRumpyArray> {
+    super::pyarray::check_real(&a.inner)?;
+    super::pyarray::check_real(&v.inner)?;
     crate::array::convolve(&a.inner, &v.inner, mode)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
@@ -22,6 +24,8 @@ pub fn convolve(a: &PyRumpyArray, v: &PyRumpyArray, mode: &str) -> PyResult<PyRu
 #[pyfunction]
 #[pyo3(signature = (a, v, mode="full"))]
 pub fn correlate(a: &PyRumpyArray, v: &PyRumpyArray, mode: &str) -> PyResult<PyRumpyArray> {
+    super::pyarray::check_real(&a.inner)?;
+    super::pyarray::check_real(&v.inner)?;
     crate::ops::numerical::correlate(&a.inner, &v.inner, mode)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
@@ -126,6 +130,9 @@ pub fn interp(
     left: Option<f64>,
     right: Option<f64>,
 ) -> PyResult<PyRumpyArray> {
+    for arr in [x, xp, fp] {
+        super::pyarray::check_real(&arr.inner)?;
+    }
     crate::ops::numerical::interp(&x.inner, &xp.inner, &fp.inner, left, right)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
diff --git a/src/python/poly.rs b/src/python/poly.rs
index 15d977b..fcf9ac7 100644
--- a/src/python/poly.rs
+++ b/src/python/poly.rs
@@ -2,30 +2,51 @@
 
 use pyo3::prelude::*;
 
+use super::pyarray::check_real;
 use super::PyRumpyArray;
 
+/// Coefficients are a vector of real numbers.
+fn check_coefficients(p: &PyRumpyArray) -> PyResult<()> {
+    check_real(&p.inner)?;
+    if p.inner.ndim() != 1 {
+        return Err(pyo3::exceptions::PyValueError::new_err("coefficients must be one-dimensional"));
+    }
+    Ok(())
+}
+
 /// Evaluate polynomial at given points.
 /// Coefficients are in descending order (highest degree first).
 #[pyfunction]
-pub fn polyval(p: &PyRumpyArray, x: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::polyval(&p.inner, &x.inner))
+pub fn polyval(p: &PyRumpyArray, x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    check_coefficients(p)?;
+    check_real(&x.inner)?;
+    Ok(PyRumpyArray::new(crate::ops::polyval(&p.inner, &x.inner)))
 }
 
 /// Compute polynomial derivative.
 /// Returns coefficients of d^m/dx^m polynomial.
 #[pyfunction]
 #[pyo3(signature = (p, m=1))]
-pub fn polyder(p: &PyRumpyArray, m: usize) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::polyder(&p.inner, m))
+pub fn polyder(p: &PyRumpyArray, m: usize) -> PyResult<PyRumpyArray> {
+    check_coefficients(p)?;
+    Ok(PyRumpyArray::new(crate::ops::polyder(&p.inner, m)))
 }
 
 /// Compute polynomial integral.
 /// Returns coefficients of m-th order antiderivative with integration constant(s) k.
 #[pyfunction]
 #[pyo3(signature = (p, m=1, k=None))]
-pub fn polyint(p: &PyRumpyArray, m: usize, k: Option<&PyRumpyArray>) -> PyRumpyArray {
+pub fn polyint(p: &PyRumpyArray, m: usize, k: Option<&PyRumpyArray>) -> PyResult<PyRumpyArray> {
+    check_coefficients(p)?;
+    if let Some(k) = k {
+        check_real(&k.inner)?;
+        let n = k.inner.size();
+        if n != 1 && n < m {
+            return Err(pyo3::exceptions::PyValueError::new_err("k must be a scalar or an array of length 1 or >m"));
+        }
+    }
     let k_inner = k.map(|arr| &arr.inner);
-    PyRumpyArray::new(crate::ops::polyint(&p.inner, m, k_inner))
+    Ok(PyRumpyArray::new(crate::ops::polyint(&p.inner, m, k_inner)))
 }
 
 /// Fit polynomial of degree deg to data points (x, y).
@@ -33,6 +54,9 @@ pub fn polyint(p: &PyRumpyArray, m: usize, k: Option<&PyRumpyArray>) -> PyRumpyA
 #[pyfunction]
 #[pyo3(signature = (x, y, deg, w=None))]
 pub fn polyfit(x: &PyRumpyArray, y: &PyRumpyArray, deg: usize, w: Option<&PyRumpyArray>) -> PyResult<PyRumpyArray> {
+    for arr in [Some(x), Some(y), w].into_iter().flatten() {
+        check_coefficients(arr)?;
+    }
     let w_inner = w.map(|arr| &arr.inner);
     crate::ops::polyfit(&x.inner, &y.inner, deg, w_inner)
         .map(PyRumpyArray::new)
@@ -44,6 +68,7 @@ pub fn polyfit(x: &PyRumpyArray, y: &PyRumpyArray, deg: usize, w: Option<&PyRump
 #[pyfunction]
 #[pyo3(name = "roots")]
 pub fn roots_fn(p: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    check_coefficients(p)?;
     crate::ops::roots(&p.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("roots computation failed"))
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index c3a2285..e078760 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -211,6 +211,15 @@ pub(crate) fn check_numeric(arr: &RumpyArray) -> PyResult<()> {
     }
 }
 
+/// Operations that compute in real numbers refuse anything else.
+pub(crate) fn check_real(arr: &RumpyArray) -> PyResult<()> {
+    check_numeric(arr)?;
+    if matches!(arr.dtype().kind(), crate::array::dtype::DTypeKind::Complex64 | crate::array::dtype::DTypeKind::Complex128) {
+        return Err(pyo3::exceptions::PyTypeError::new_err("the operation is not supported for complex numbers"));
+    }
+    Ok(())
+}
+
 /// Dtype of means and variances of `arr`.
 fn floating_dtype(arr: &RumpyArray) -> DType {
     if arr.dtype().is_integer() || arr.dtype() == DType::bool() {
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 34f87ec..2028587 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -634,7 +634,7 @@ pub fn histogram(
     bins: usize,
     range: Option<(f64, f64)>,
 ) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
-    pyarray::check_numeric(&x.inner)?;
+    pyarray::check_real(&x.inner)?;
     if bins == 0 {
         return Err(pyo3::exceptions::PyValueError::new_err("`bins` must be positive"));
     }
@@ -651,6 +651,7 @@ pub fn histogram_bin_edges(
     bins: Option<&pyo3::Bound<'_, pyo3::PyAny>>,
     range: Option<(f64, f64)>,
 ) -> PyResult<PyRumpyArray> {
+    pyarray::check_real(&a.inner)?;
     let Some(bins) = bins else {
         return crate::ops::histogram_bin_edges(&a.inner, 10, range)
             .map(PyRumpyArray::new)
@@ -722,8 +723,8 @@ pub fn histogram2d(
 
     let density_bool = density.unwrap_or(false);
 
-    pyarray::check_numeric(&x.inner)?;
-    pyarray::check_numeric(&y.inner)?;
+    pyarray::check_real(&x.inner)?;
+    pyarray::check_real(&y.inner)?;
     if bins_x == 0 || bins_y == 0 {
         return Err(pyo3::exceptions::PyValueError::new_err("`bins` must be positive"));
     }
@@ -776,7 +777,7 @@ pub fn histogramdd(
 
     let density_bool = density.unwrap_or(false);
 
-    pyarray::check_numeric(&sample.inner)?;
+    pyarray::check_real(&sample.inner)?;
     let columns = match sample.inner.shape() {
         [_] => 1,
         [_, n] => *n,
@@ -813,7 +814,7 @@ pub fn cov_fn(x: &PyRumpyArray, ddof: usize) -> PyResult<PyRumpyArray> {
 
 /// Variables are the rows of a table, or one vector.
 fn check_observations(x: &crate::array::RumpyArray) -> PyResult<()> {
-    pyarray::check_numeric(x)?;
+    pyarray::check_real(x)?;
     if x.ndim() == 0 || x.ndim() > 2 {
         return Err(pyo3::exceptions::PyValueError::new_err("observations must be one- or two-dimensional"));
     }
-- 
2.43.0


From 2c8fccfd8b3668bf512746cb2ff5e4bf3a261412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:08 +0000
Subject: [PATCH 44/81] fix: apply_along_axis keeps the dtype and place of its
 results; the last matching piecewise condition decides

---
 src/python/functional.rs | 134 ++++++++++++---------------------------
 src/python/misc.rs       |  20 ++++--
 2 files changed, 54 insertions(+), 100 deletions(-)

diff --git a/src/python/functional.rs b/src/python/functional.rs
index 5941cc5..537912c 100644
--- a/src/python/functional.rs
+++ b/src/python/functional.rs
@@ -35,22 +35,8 @@ pub fn apply_along_axis(
     let arr = &arr.inner;
     let ndim = arr.ndim();
 
-    // Handle negative axis
-    let axis = if axis < 0 {
-        (ndim as isize + axis) as usize
-    } else {
-        axis as usize
-    };
-
-    if axis >= ndim {
-        return Err(pyo3::exceptions::PyValueError::new_err(format!(
-            "axis {} is out of bounds for array of dimension {}",
-            axis, ndim
-        )));
-    }
-
+    let axis = super::reductions::normalize_axis(axis, ndim)?;
     let shape = arr.shape();
-    let axis_len = shape[axis];
 
     // Build output shape (all dims except axis)
     let out_shape: Vec<usize> = shape.iter().enumerate()
@@ -65,97 +51,57 @@ pub fn apply_along_axis(
         return Ok(PyRumpyArray::new(RumpyArray::zeros(out_shape, arr.dtype())));
     }
 
-    // Extract 1D slices and apply function
-    let mut results: Vec<PyObject> = Vec::with_capacity(out_size);
+    // Apply the function to each 1D slice
+    let mut results: Vec<RumpyArray> = Vec::with_capacity(out_size);
     let mut out_indices = vec![0usize; out_shape.len()];
 
     for _ in 0..out_size {
-        // Extract 1D slice along axis using efficient stride-based access
-        let slice_data = arr.get_slice_along_axis(axis, &out_indices);
-
-        // Create rumpy array from slice
-        let slice_arr = RumpyArray::from_vec(slice_data, arr.dtype());
-        let py_slice = PyRumpyArray::new(slice_arr);
+        let mut start = out_indices.clone();
+        start.insert(axis, 0);
+        let offset = start.iter().zip(arr.strides()).map(|(&i, &s)| i as isize * s).sum();
+        let lane = arr.view_with(offset, vec![shape[axis]], vec![arr.strides()[axis]]).copy();
 
         // Build args tuple: (slice, *args)
-        let call_args = if args.is_empty() {
-            PyTuple::new(py, [py_slice.into_pyobject(py)?.into_any()])?
-        } else {
-            let mut all_args: Vec<Bound<'_, PyAny>> = vec![py_slice.into_pyobject(py)?.into_any()];
-            for arg in args.iter() {
-                all_args.push(arg.clone());
-            }
-            PyTuple::new(py, all_args)?
-        };
+        let mut call_args: Vec<Bound<'_, PyAny>> = vec![PyRumpyArray::new(lane).into_pyobject(py)?.into_any()];
+        call_args.extend(args.iter());
 
-        // Call function
-        let result = func1d.call(&call_args, kwargs)?;
-        results.push(result.unbind());
+        let result = func1d.call(PyTuple::new(py, call_args)?, kwargs)?;
+        results.push(result_array(py, &result)?);
 
         increment_indices(&mut out_indices, &out_shape);
     }
 
-    // Check first result to determine output shape
-    let first = results[0].bind(py);
-
-    // If result is scalar, output shape is out_shape
-    // If result is array, output shape is out_shape + result_shape
-    if let Ok(scalar) = first.extract::<f64>() {
-        // Scalar output - build array from scalars
-        let mut out_data: Vec<f64> = Vec::with_capacity(out_size);
-        out_data.push(scalar);
-        for r in results.iter().skip(1) {
-            out_data.push(r.bind(py).extract::<f64>()?);
-        }
-        let out = RumpyArray::from_vec(out_data, arr.dtype());
-        let out = out.reshape(out_shape).ok_or_else(||
-            pyo3::exceptions::PyValueError::new_err("reshape failed")
-        )?;
-        Ok(PyRumpyArray::new(out))
-    } else if let Ok(arr_result) = first.extract::<PyRef<'_, PyRumpyArray>>() {
-        // Rumpy array output
-        let result_shape = arr_result.inner.shape().to_vec();
-        let result_size: usize = result_shape.iter().product();
-
-        // Final shape is out_shape + result_shape
-        let mut final_shape = out_shape.clone();
-        final_shape.extend(&result_shape);
-
-        let mut out_data: Vec<f64> = Vec::with_capacity(out_size * result_size);
-        for r in results.iter() {
-            let arr_r: PyRef<'_, PyRumpyArray> = r.bind(py).extract()?;
-            out_data.extend(arr_r.inner.to_vec());
-        }
-
-        let out = RumpyArray::from_vec(out_data, arr.dtype());
-        let out = out.reshape(final_shape).ok_or_else(||
-            pyo3::exceptions::PyValueError::new_err("reshape failed")
-        )?;
-        Ok(PyRumpyArray::new(out))
-    } else {
-        // Try to convert through asarray (handles numpy arrays, lists, etc.)
-        let first_arr = creation::asarray(py, &first, None)?;
-        let result_shape = first_arr.inner.shape().to_vec();
-        let result_size: usize = result_shape.iter().product();
-
-        // Final shape is out_shape + result_shape
-        let mut final_shape = out_shape.clone();
-        final_shape.extend(&result_shape);
-
-        let mut out_data: Vec<f64> = Vec::with_capacity(out_size * result_size);
-        out_data.extend(first_arr.inner.to_vec());
-
-        for r in results.iter().skip(1) {
-            let arr_r = creation::asarray(py, r.bind(py), None)?;
-            out_data.extend(arr_r.inner.to_vec());
-        }
+    // The dimensions of the results take the place of the axis
+    let result_shape = results[0].shape().to_vec();
+    if results.iter().any(|r| r.shape() != result_shape) {
+        return Err(pyo3::exceptions::PyValueError::new_err("results of different shapes cannot be joined"));
+    }
+    let dtype = results[0].dtype();
+    let rows: Vec<RumpyArray> = results.into_iter()
+        .map(|r| {
+            let n = r.size();
+            r.astype(dtype.clone()).copy().reshape(vec![n]).expect("contiguous")
+        })
+        .collect();
+    let joined = crate::array::concatenate(&rows, 0)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("results cannot be joined"))?;
+    let mut final_shape = out_shape.clone();
+    final_shape.extend(&result_shape);
+    let joined = joined.reshape(final_shape).ok_or_else(||
+        pyo3::exceptions::PyValueError::new_err("reshape failed")
+    )?;
+    let (outer, inner) = (out_shape.len(), result_shape.len());
+    let order: Vec<usize> = (0..axis).chain(outer..outer + inner).chain(axis..outer).collect();
+    Ok(PyRumpyArray::new(joined.transpose_axes(&order)))
+}
 
-        let out = RumpyArray::from_vec(out_data, arr.dtype());
-        let out = out.reshape(final_shape).ok_or_else(||
-            pyo3::exceptions::PyValueError::new_err("reshape failed")
-        )?;
-        Ok(PyRumpyArray::new(out))
+/// What a user's function returned, as an array (0-d for a number).
+fn result_array(py: Python<'_>, result: &Bound<'_, PyAny>) -> PyResult<RumpyArray> {
+    if let Ok(arr) = result.extract::<PyRef<'_, PyRumpyArray>>() {
+        return Ok(arr.inner.clone());
     }
+    let numpy = py.import("numpy")?.call_method1("asarray", (result,))?;
+    Ok(creation::asarray(py, &numpy, None)?.inner)
 }
 
 /// Apply a function repeatedly over multiple axes.
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 03fc9ac..391ad2b 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -531,6 +531,15 @@ pub fn piecewise(
         ));
     }
 
+    // Conditions are read as truth values, one for each element
+    let conditions: Vec<RumpyArray> = condlist.iter()
+        .map(|c| if c.inner.shape() == shape {
+            Ok(c.inner.astype(DType::bool()))
+        } else {
+            Err(pyo3::exceptions::PyValueError::new_err("conditions must have the shape of x"))
+        })
+        .collect::<PyResult<_>>()?;
+
     let mut result = RumpyArray::zeros(shape, dtype.clone());
     let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
@@ -539,11 +548,11 @@ pub fn piecewise(
     let src_offsets: Vec<isize> = inner.iter_offsets().collect();
 
     // Collect condition pointers and offsets
-    let cond_ptrs: Vec<*const u8> = condlist.iter()
-        .map(|c| c.inner.data_ptr())
+    let cond_ptrs: Vec<*const u8> = conditions.iter()
+        .map(|c| c.data_ptr())
         .collect();
-    let cond_offsets: Vec<Vec<isize>> = condlist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
+    let cond_offsets: Vec<Vec<isize>> = conditions.iter()
+        .map(|c| c.iter_offsets().collect())
         .collect();
 
     let mut assigned = vec![false; size];
@@ -592,8 +601,7 @@ pub fn piecewise(
         };
 
         for i in 0..size {
-            if assigned[i] { continue; }
-
+            // Where several conditions hold, the last one decides
             let cond_val = unsafe { *(cond_ptrs[cond_idx].offset(cond_offsets[cond_idx][i]) as *const u8) };
             if cond_val != 0 {
                 let val = constant_val.map_or_else(|| call_func(&func_item, i), Ok)?;
-- 
2.43.0


From 60225cbfbd6ad6f6b7bba8b5a79668412a0f5bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:40 +0000
Subject: [PATCH 45/81] fix: average refuses weights that are not numbers

---
 src/python/reductions.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 2028587..554ac40 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -582,6 +582,7 @@ pub fn average(
 ) -> PyResult<pyarray::ReductionResult> {
     pyarray::check_numeric(&x.inner)?;
     if let Some(w) = weights {
+        pyarray::check_numeric(&w.inner)?;
         let along = axis.map(|ax| resolve_axis(ax, x.inner.ndim()));
         let fits = w.inner.shape() == x.inner.shape()
             || matches!(along, Some(ax) if ax < x.inner.ndim() && w.inner.shape() == [x.inner.shape()[ax]]);
-- 
2.43.0


From c0aca6244a6772cf961ec63204509c1edc6864b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:03 +0000
Subject: [PATCH 46/81] fix: datetime and timedelta arithmetic, comparisons and
 reductions honour units and NaT; business-day counts and masks follow NumPy

---
 src/array/dtype/datetime64.rs       |  33 +++---
 src/ops/array_methods/cumulative.rs |  29 ++++++
 src/ops/array_methods/reductions.rs |  22 +++-
 src/ops/mod.rs                      |   4 +
 src/ops/ufunc.rs                    | 149 +++++++++++++++++++++++++++-
 src/python/datetime.rs              |  82 +++++++++------
 src/python/pyarray/mod.rs           |   8 +-
 7 files changed, 277 insertions(+), 50 deletions(-)

diff --git a/src/array/dtype/datetime64.rs b/src/array/dtype/datetime64.rs
index c488d8e..bd5b7c6 100644
--- a/src/array/dtype/datetime64.rs
+++ b/src/array/dtype/datetime64.rs
@@ -5,7 +5,7 @@ use std::cmp::Ordering;
 
 /// Time units for datetime64 and timedelta64.
 /// All units store values as i64 relative to the Unix epoch (1970-01-01).
-#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
+#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub enum TimeUnit {
     Years,        // Y - years since epoch
     Months,       // M - months since epoch
@@ -205,7 +205,7 @@ impl DTypeOps for DateTime64Ops {
         let v = match op {
             ReduceOp::Sum => 0,
             ReduceOp::Prod => 1,
-            ReduceOp::Max => i64::MIN,
+            ReduceOp::Max => NAT + 1,
             ReduceOp::Min => i64::MAX,
         };
         Self::write(out, idx, v);
@@ -215,6 +215,7 @@ impl DTypeOps for DateTime64Ops {
         let a = Self::read(acc as *const u8, (idx * 8) as isize);
         let v = Self::read(val, byte_offset);
         let result = match op {
+            _ if a == NAT || v == NAT => NAT,
             ReduceOp::Sum => a.wrapping_add(v),
             ReduceOp::Prod => a.wrapping_mul(v),
             ReduceOp::Max => a.max(v),
@@ -381,7 +382,7 @@ impl DTypeOps for TimeDelta64Ops {
         let v = match op {
             ReduceOp::Sum => 0,
             ReduceOp::Prod => 1,
-            ReduceOp::Max => i64::MIN,
+            ReduceOp::Max => NAT + 1,
             ReduceOp::Min => i64::MAX,
         };
         Self::write(out, idx, v);
@@ -391,6 +392,7 @@ impl DTypeOps for TimeDelta64Ops {
         let a = Self::read(acc as *const u8, (idx * 8) as isize);
         let v = Self::read(val, byte_offset);
         let result = match op {
+            _ if a == NAT || v == NAT => NAT,
             ReduceOp::Sum => a.wrapping_add(v),
             ReduceOp::Prod => a.wrapping_mul(v),
             ReduceOp::Max => a.max(v),
@@ -622,38 +624,38 @@ pub fn parse_datetime64(s: &str, unit: TimeUnit) -> i64 {
     let days = ymd_to_days(year, month, day);
 
     // Parse time if present
-    let (hours, minutes, seconds, subseconds) = if let Some(time_str) = time_part {
+    let (hours, minutes, seconds, nanos) = if let Some(time_str) = time_part {
         parse_time_part(time_str)
     } else {
-        (0, 0, 0, 0.0)
+        (0, 0, 0, 0)
     };
 
     // Convert to target unit
     match unit {
         TimeUnit::Years => year - 1970,
         TimeUnit::Months => (year - 1970) * 12 + (month - 1),
-        TimeUnit::Weeks => days / 7,
+        TimeUnit::Weeks => days.div_euclid(7),
         TimeUnit::Days => days,
         TimeUnit::Hours => days * 24 + hours,
         TimeUnit::Minutes => days * 24 * 60 + hours * 60 + minutes,
         TimeUnit::Seconds => days * 86400 + hours * 3600 + minutes * 60 + seconds,
         TimeUnit::Milliseconds => {
             let secs = days * 86400 + hours * 3600 + minutes * 60 + seconds;
-            secs * 1000 + (subseconds * 1000.0) as i64
+            secs * 1000 + nanos / 1_000_000
         }
         TimeUnit::Microseconds => {
             let secs = days * 86400 + hours * 3600 + minutes * 60 + seconds;
-            secs * 1_000_000 + (subseconds * 1_000_000.0) as i64
+            secs * 1_000_000 + nanos / 1_000
         }
         TimeUnit::Nanoseconds => {
             let secs = days * 86400 + hours * 3600 + minutes * 60 + seconds;
-            secs * 1_000_000_000 + (subseconds * 1_000_000_000.0) as i64
+            secs * 1_000_000_000 + nanos
         }
     }
 }
 
-/// Parse time part HH:MM:SS.sss returning (hours, minutes, seconds, subseconds as fraction).
-fn parse_time_part(s: &str) -> (i64, i64, i64, f64) {
+/// Parse time part HH:MM:SS.sss returning (hours, minutes, seconds, nanoseconds).
+fn parse_time_part(s: &str) -> (i64, i64, i64, i64) {
     let parts: Vec<&str> = s.split(':').collect();
     let hours: i64 = parts.first().and_then(|s| s.parse().ok()).unwrap_or(0);
     let minutes: i64 = parts.get(1).and_then(|s| s.parse().ok()).unwrap_or(0);
@@ -662,13 +664,14 @@ fn parse_time_part(s: &str) -> (i64, i64, i64, f64) {
     let (seconds, subseconds) = if let Some(sec_str) = parts.get(2) {
         if let Some(dot_pos) = sec_str.find('.') {
             let secs: i64 = sec_str[..dot_pos].parse().unwrap_or(0);
-            let frac: f64 = format!("0.{}", &sec_str[dot_pos+1..]).parse().unwrap_or(0.0);
-            (secs, frac)
+            // Nine digits, padded on the right
+            let digits: String = sec_str[dot_pos + 1..].chars().chain("000000000".chars()).take(9).collect();
+            (secs, digits.parse().unwrap_or(0))
         } else {
-            (sec_str.parse().unwrap_or(0), 0.0)
+            (sec_str.parse().unwrap_or(0), 0)
         }
     } else {
-        (0, 0.0)
+        (0, 0)
     };
 
     (hours, minutes, seconds, subseconds)
diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index 867ff15..da1ae44 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -116,6 +116,32 @@ impl RumpyArray {
         }
     }
 
+    /// Cumulative sum of durations, exact and with NaT propagated.
+    fn cumsum_times(&self, axis: Option<usize>) -> RumpyArray {
+        let flat;
+        let (src, axis) = match axis {
+            Some(axis) => (self, axis),
+            None => {
+                flat = self.copy().reshape(vec![self.size()]).expect("contiguous");
+                (&flat, 0)
+            }
+        };
+        let mut result = src.copy();
+        let step: usize = src.shape()[axis + 1..].iter().product();
+        let axis_len = src.shape()[axis];
+        let dtype = src.dtype();
+        let ops = dtype.ops();
+        let size = result.size();
+        let ptr = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique").as_mut_ptr();
+        for i in 0..size {
+            if (i / step) % axis_len > 0 {
+                let (prev, here) = (((i - step) * 8) as isize, (i * 8) as isize);
+                unsafe { ops.binary_op(BinaryOp::Add, ptr, prev, ptr, here, ptr, i); }
+            }
+        }
+        result
+    }
+
     /// Cumulative sum along axis (or flattened if axis is None).
     pub fn cumsum(&self, axis: Option<usize>) -> RumpyArray {
         if let Some(wide) = accumulator_operand(self, ReduceOp::Sum) {
@@ -125,6 +151,9 @@ impl RumpyArray {
         if let Some(result) = crate::ops::dispatch::dispatch_cumsum(self, axis) {
             return result;
         }
+        if matches!(self.dtype().kind(), DTypeKind::TimeDelta64(_)) {
+            return self.cumsum_times(axis);
+        }
         // Fallback for Bool, DateTime, Float16
         self.cumulative_op(axis, 0.0, |acc, x| acc + x)
     }
diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index b13b8a9..4a58246 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -2,7 +2,7 @@
 //! Includes both standard and NaN-aware variants.
 
 use crate::array::{increment_indices, DType, RumpyArray};
-use crate::array::dtype::{DTypeKind, ReduceOp, UnaryOp};
+use crate::array::dtype::{DTypeKind, ReduceOp, UnaryOp, NAT};
 use crate::ops::{map_unary_op, reduce_all_f64, reduce_axis_op, BinaryOp};
 use crate::ops::ufunc::variance_f64_contiguous;
 use std::sync::Arc;
@@ -251,6 +251,7 @@ impl RumpyArray {
             DTypeKind::Uint32 => dispatch_argmax_full::<u32>(self),
             DTypeKind::Uint16 => dispatch_argmax_full::<u16>(self),
             DTypeKind::Uint8 => dispatch_argmax_full::<u8>(self),
+            DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => dispatch_argmax_full::<Time>(self),
             _ => self.argmax_slow(),
         }
     }
@@ -269,6 +270,7 @@ impl RumpyArray {
             DTypeKind::Uint32 => dispatch_argmin_full::<u32>(self),
             DTypeKind::Uint16 => dispatch_argmin_full::<u16>(self),
             DTypeKind::Uint8 => dispatch_argmin_full::<u8>(self),
+            DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => dispatch_argmin_full::<Time>(self),
             _ => self.argmin_slow(),
         }
     }
@@ -286,6 +288,7 @@ impl RumpyArray {
             DTypeKind::Uint32 => argmax_axis_typed::<u32>(self, axis),
             DTypeKind::Uint16 => argmax_axis_typed::<u16>(self, axis),
             DTypeKind::Uint8 => argmax_axis_typed::<u8>(self, axis),
+            DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => argmax_axis_typed::<Time>(self, axis),
             _ => self.argmax_axis_slow(axis),
         }
     }
@@ -303,6 +306,7 @@ impl RumpyArray {
             DTypeKind::Uint32 => argmin_axis_typed::<u32>(self, axis),
             DTypeKind::Uint16 => argmin_axis_typed::<u16>(self, axis),
             DTypeKind::Uint8 => argmin_axis_typed::<u8>(self, axis),
+            DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => argmin_axis_typed::<Time>(self, axis),
             _ => self.argmin_axis_slow(axis),
         }
     }
@@ -424,6 +428,22 @@ impl ArgReducible for i64 {
     fn neg_infinity() -> Self { i64::MIN }
     fn pos_infinity() -> Self { i64::MAX }
 }
+/// An element of a datetime64 or timedelta64 array, where NaT behaves like NaN.
+#[derive(Clone, Copy, PartialEq)]
+#[repr(transparent)]
+struct Time(i64);
+
+impl PartialOrd for Time {
+    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
+        if self.0 == NAT || other.0 == NAT { None } else { Some(self.0.cmp(&other.0)) }
+    }
+}
+
+impl ArgReducible for Time {
+    fn neg_infinity() -> Self { Time(NAT + 1) }
+    fn pos_infinity() -> Self { Time(i64::MAX) }
+    fn is_nan_value(self) -> bool { self.0 == NAT }
+}
 impl ArgReducible for i32 {
     fn neg_infinity() -> Self { i32::MIN }
     fn pos_infinity() -> Self { i32::MAX }
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 2ae955e..e398881 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -324,6 +324,10 @@ impl RumpyArray {
                 let (re, im) = unsafe { ops.read_complex(ptr, offset) }.unwrap_or((0.0, 0.0));
                 pyo3::types::PyComplex::from_doubles(py, re, im).into_any().unbind()
             }
+            DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => {
+                let val = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0);
+                val.into_pyobject(py)?.into_any().unbind()
+            }
             _ if dtype.is_integer() => {
                 let val = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0);
                 val.into_pyobject(py)?.into_any().unbind()
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index b37281d..2d9569d 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -11,7 +11,7 @@
 //! with trait-based fallback for unsupported types.
 
 use crate::array::{broadcast_shapes, increment_indices, promote_dtype, DType, RumpyArray};
-use crate::array::dtype::{DTypeKind, UnaryOp, ReduceOp};
+use crate::array::dtype::{DTypeKind, ReduceOp, TimeUnit, UnaryOp, NAT};
 use crate::ops::registry::registry;
 use crate::ops::{BinaryOp, BinaryOpError, UnaryOpError, ComparisonOp};
 use std::sync::Arc;
@@ -244,6 +244,135 @@ fn binary_op_dtype(a: &DType, b: &DType, op: BinaryOp) -> Result<Option<DType>,
     }
 }
 
+/// The unit of a datetime64 or timedelta64 dtype.
+fn time_unit(dtype: &DType) -> Option<TimeUnit> {
+    match dtype.kind() {
+        DTypeKind::DateTime64(u) | DTypeKind::TimeDelta64(u) => Some(u),
+        _ => None,
+    }
+}
+
+/// Bring two datetime64/timedelta64 operands to their common (finer) unit.
+/// None if they already share it or one of them is not a time.
+fn common_time_unit(a: &RumpyArray, b: &RumpyArray) -> Result<Option<(RumpyArray, RumpyArray)>, BinaryOpError> {
+    let (Some(ua), Some(ub)) = (time_unit(&a.dtype()), time_unit(&b.dtype())) else { return Ok(None) };
+    if ua == ub {
+        return Ok(None);
+    }
+    let calendar = |u: TimeUnit| u <= TimeUnit::Months;
+    let unit = match ua.max(ub) {
+        TimeUnit::Weeks if calendar(ua.min(ub)) => TimeUnit::Days,
+        finer => finer,
+    };
+    let convert = |x: &RumpyArray, u: TimeUnit| match x.dtype().kind() {
+        // A number of years or months is no fixed number of days
+        DTypeKind::TimeDelta64(_) if calendar(u) && !calendar(unit) => Err(BinaryOpError::UnsupportedDtype),
+        DTypeKind::TimeDelta64(_) => Ok(x.astype(DType::timedelta64(unit))),
+        _ => Ok(x.astype(DType::datetime64(unit))),
+    };
+    Ok(Some((convert(a, ua)?, convert(b, ub)?)))
+}
+
+/// Arithmetic on operands of which at least one is a datetime64 or timedelta64
+/// (in a common unit), with NumPy's result types; NaT gives NaT.
+fn map_time_op(a: &RumpyArray, b: &RumpyArray, op: BinaryOp, out_shape: &[usize]) -> Result<RumpyArray, BinaryOpError> {
+    #[derive(PartialEq)]
+    enum Operand { Date, Delta, Int, Float, Other }
+    let classify = |dtype: &DType| match dtype.kind() {
+        DTypeKind::DateTime64(_) => Operand::Date,
+        DTypeKind::TimeDelta64(_) => Operand::Delta,
+        DTypeKind::Float16 | DTypeKind::Float32 | DTypeKind::Float64 => Operand::Float,
+        k if is_integer_kind(&k) || k == DTypeKind::Bool => Operand::Int,
+        _ => Operand::Other,
+    };
+    let unit = time_unit(&a.dtype()).or_else(|| time_unit(&b.dtype())).ok_or(BinaryOpError::UnsupportedDtype)?;
+    let dtype = match (classify(&a.dtype()), op, classify(&b.dtype())) {
+        (Operand::Date, BinaryOp::Add | BinaryOp::Sub, Operand::Delta | Operand::Int)
+        | (Operand::Delta | Operand::Int, BinaryOp::Add, Operand::Date)
+        | (Operand::Date, BinaryOp::Maximum | BinaryOp::Minimum | BinaryOp::FMax | BinaryOp::FMin, Operand::Date) => DType::datetime64(unit),
+        (Operand::Date, BinaryOp::Sub, Operand::Date)
+        | (Operand::Delta, BinaryOp::Add | BinaryOp::Sub | BinaryOp::Mod, Operand::Delta | Operand::Int)
+        | (Operand::Int, BinaryOp::Add | BinaryOp::Sub, Operand::Delta)
+        | (Operand::Delta, BinaryOp::Maximum | BinaryOp::Minimum | BinaryOp::FMax | BinaryOp::FMin, Operand::Delta)
+        | (Operand::Delta, BinaryOp::Mul | BinaryOp::Div | BinaryOp::FloorDiv, Operand::Int | Operand::Float)
+        | (Operand::Int | Operand::Float, BinaryOp::Mul, Operand::Delta) => DType::timedelta64(unit),
+        (Operand::Delta, BinaryOp::Div, Operand::Delta) => DType::float64(),
+        (Operand::Delta, BinaryOp::FloorDiv, Operand::Delta) => DType::int64(),
+        _ => return Err(BinaryOpError::UnsupportedDtype),
+    };
+    let by_float = classify(&a.dtype()) == Operand::Float || classify(&b.dtype()) == Operand::Float;
+
+    let mut result = RumpyArray::zeros(out_shape.to_vec(), dtype.clone());
+    let out = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique").as_mut_ptr();
+    let (a_dtype, b_dtype) = (a.dtype(), b.dtype());
+    let (a_ops, b_ops) = (a_dtype.ops(), b_dtype.ops());
+    let is_time = |d: &DType| time_unit(d).is_some();
+    for (i, (ao, bo)) in a.iter_offsets().zip(b.iter_offsets()).enumerate() {
+        let (x, y) = unsafe { (a_ops.read_i64(a.data_ptr(), ao), b_ops.read_i64(b.data_ptr(), bo)) };
+        let (x_nat, y_nat) = (is_time(&a_dtype) && x == Some(NAT), is_time(&b_dtype) && y == Some(NAT));
+        if dtype == DType::float64() {
+            let v = if x_nat || y_nat { f64::NAN } else { x.unwrap_or(0) as f64 / y.unwrap_or(0) as f64 };
+            unsafe { *(out as *mut f64).add(i) = v; }
+            continue;
+        }
+        let v = if by_float {
+            let (x, y) = unsafe { (a_ops.read_f64(a.data_ptr(), ao), b_ops.read_f64(b.data_ptr(), bo)) };
+            let (x, y) = (x.unwrap_or(f64::NAN), y.unwrap_or(f64::NAN));
+            let v = match op {
+                BinaryOp::Mul => x * y,
+                BinaryOp::Div => x / y,
+                _ => (x / y).floor(),
+            };
+            if x_nat || y_nat || !v.is_finite() { NAT } else { v as i64 }
+        } else {
+            let (x, y) = (x.unwrap_or(0), y.unwrap_or(0));
+            let floor_div = |x: i64, y: i64| { let q = x.wrapping_div(y); if x.wrapping_rem(y) != 0 && (x < 0) != (y < 0) { q - 1 } else { q } };
+            match op {
+                BinaryOp::FMax if x_nat || y_nat => if x_nat { y } else { x },
+                BinaryOp::FMin if x_nat || y_nat => if x_nat { y } else { x },
+                BinaryOp::FloorDiv if dtype == DType::int64() && (x_nat || y_nat || y == 0) => 0,
+                _ if x_nat || y_nat => NAT,
+                BinaryOp::Div | BinaryOp::FloorDiv | BinaryOp::Mod if y == 0 => NAT,
+                BinaryOp::Add => x.wrapping_add(y),
+                BinaryOp::Sub => x.wrapping_sub(y),
+                BinaryOp::Mul => x.wrapping_mul(y),
+                BinaryOp::Div => x.wrapping_div(y),
+                BinaryOp::FloorDiv => floor_div(x, y),
+                BinaryOp::Mod => x.wrapping_sub(floor_div(x, y).wrapping_mul(y)),
+                BinaryOp::Maximum | BinaryOp::FMax => x.max(y),
+                _ => x.min(y),
+            }
+        };
+        unsafe { *(out as *mut i64).add(i) = v; }
+    }
+    Ok(result)
+}
+
+/// Whether a datetime64 or timedelta64 array holds NaT.
+fn has_nat(arr: &RumpyArray) -> bool {
+    time_unit(&arr.dtype()).is_some() && arr.iter_offsets().any(|o| unsafe { *(arr.data_ptr().offset(o) as *const i64) } == NAT)
+}
+
+/// Compare datetime64 or timedelta64 arrays of one dtype; NaT is unequal to everything.
+fn compare_times(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp, out_shape: &[usize]) -> RumpyArray {
+    let mut result = RumpyArray::zeros(out_shape.to_vec(), DType::bool());
+    let out = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique").as_mut_ptr();
+    for (i, (ao, bo)) in a.iter_offsets().zip(b.iter_offsets()).enumerate() {
+        let (x, y) = unsafe { (*(a.data_ptr().offset(ao) as *const i64), *(b.data_ptr().offset(bo) as *const i64)) };
+        let v = match op {
+            ComparisonOp::Ne => x == NAT || y == NAT || x != y,
+            _ if x == NAT || y == NAT => false,
+            ComparisonOp::Gt => x > y,
+            ComparisonOp::Lt => x < y,
+            ComparisonOp::Ge => x >= y,
+            ComparisonOp::Le => x <= y,
+            ComparisonOp::Eq => x == y,
+        };
+        unsafe { *out.add(i) = v as u8; }
+    }
+    result
+}
+
 /// True if an integer array holds a negative element.
 fn has_negative(arr: &RumpyArray) -> bool {
     let dtype = arr.dtype();
@@ -291,6 +420,10 @@ pub fn map_binary_op_inplace(
         }
     }
 
+    if let Some((a, b)) = common_time_unit(a, b)? {
+        return map_binary_op_inplace(&a, &b, op, None);
+    }
+
     let out_shape = broadcast_shapes(a.shape(), b.shape()).ok_or(BinaryOpError::ShapeMismatch)?;
     let a_bc = a.broadcast_to(&out_shape).ok_or(BinaryOpError::ShapeMismatch)?;
     let b_bc = b.broadcast_to(&out_shape).ok_or(BinaryOpError::ShapeMismatch)?;
@@ -304,6 +437,9 @@ pub fn map_binary_op_inplace(
     if a_is_datetime || b_is_datetime || a_is_timedelta || b_is_timedelta {
         use crate::ops::dispatch;
 
+        if has_nat(a) || has_nat(b) {
+            return map_time_op(&a_bc, &b_bc, op, &out_shape);
+        }
         match op {
             // datetime + datetime is invalid
             BinaryOp::Add if a_is_datetime && b_is_datetime => {
@@ -343,7 +479,7 @@ pub fn map_binary_op_inplace(
                 if a_is_datetime || b_is_datetime => {
                 return Err(BinaryOpError::UnsupportedDtype);
             }
-            _ => {}
+            _ => return map_time_op(&a_bc, &b_bc, op, &out_shape),
         }
     }
 
@@ -581,6 +717,15 @@ fn compare_wide_integers(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp, out_s
 pub fn map_compare_op(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> Option<RumpyArray> {
     let out_shape = broadcast_shapes(a.shape(), b.shape())?;
 
+    if time_unit(&a.dtype()).is_some() && time_unit(&b.dtype()).is_some() {
+        let dates = |x: &RumpyArray| matches!(x.dtype().kind(), DTypeKind::DateTime64(_));
+        if dates(a) != dates(b) {
+            return None;
+        }
+        let (a, b) = common_time_unit(a, b).ok()?.unwrap_or_else(|| (a.clone(), b.clone()));
+        return Some(compare_times(&a.broadcast_to(&out_shape)?, &b.broadcast_to(&out_shape)?, op, &out_shape));
+    }
+
     // Promote to common dtype for comparison (like binary ops)
     let common_dtype = promote_dtype(&a.dtype(), &b.dtype());
     if is_integer_kind(&a.dtype().kind()) && is_integer_kind(&b.dtype().kind()) && !is_integer_kind(&common_dtype.kind()) {
diff --git a/src/python/datetime.rs b/src/python/datetime.rs
index 6e7a80a..dddd665 100644
--- a/src/python/datetime.rs
+++ b/src/python/datetime.rs
@@ -14,6 +14,22 @@ use super::{parse_dtype, PyRumpyArray};
 /// Default business day calendar (Mon-Fri, no holidays).
 const DEFAULT_WEEKMASK: [bool; 7] = [true, true, true, true, true, false, false];
 
+/// Day names accepted in a weekmask.
+const DAY_NAMES: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
+
+/// Pair up two inputs, repeating the one that has a single value.
+fn broadcast_pairs(a: Vec<i64>, b: Vec<i64>) -> PyResult<Vec<(i64, i64)>> {
+    let n = match (a.len(), b.len()) {
+        (x, y) if x == y => x,
+        (1, y) => y,
+        (x, 1) => x,
+        (x, y) => return Err(pyo3::exceptions::PyValueError::new_err(format!(
+            "operands could not be broadcast together with shapes ({},) ({},)", x, y
+        ))),
+    };
+    Ok((0..n).map(|i| (a[i.min(a.len() - 1)], b[i.min(b.len() - 1)])).collect())
+}
+
 /// Parse dates from Python input (string or list of strings).
 fn parse_dates_input(dates: &Bound<'_, PyAny>) -> PyResult<Vec<i64>> {
     if let Ok(s) = dates.extract::<String>() {
@@ -167,21 +183,6 @@ impl BusDayCalendar {
 
 /// Parse weekmask string like "Mon Tue Wed Thu Fri" or "1111100".
 fn parse_weekmask(mask: &str) -> PyResult<[bool; 7]> {
-    let mask_lower = mask.to_lowercase();
-
-    // Check for day name format
-    if mask_lower.contains("mon") || mask_lower.contains("tue") {
-        let mut result = [false; 7];
-        if mask_lower.contains("mon") { result[0] = true; }
-        if mask_lower.contains("tue") { result[1] = true; }
-        if mask_lower.contains("wed") { result[2] = true; }
-        if mask_lower.contains("thu") { result[3] = true; }
-        if mask_lower.contains("fri") { result[4] = true; }
-        if mask_lower.contains("sat") { result[5] = true; }
-        if mask_lower.contains("sun") { result[6] = true; }
-        return Ok(result);
-    }
-
     // Check for binary format "1111100"
     let clean = mask.replace(" ", "");
     if clean.len() == 7 && clean.chars().all(|c| c == '0' || c == '1') {
@@ -189,13 +190,32 @@ fn parse_weekmask(mask: &str) -> PyResult<[bool; 7]> {
         for (i, c) in clean.chars().enumerate() {
             result[i] = c == '1';
         }
-        return Ok(result);
+        return require_business_day(result);
     }
 
-    Err(pyo3::exceptions::PyValueError::new_err(format!(
-        "Invalid weekmask: {}. Use day names (Mon Tue...) or binary (1111100)",
-        mask
-    )))
+    // Day names, separated by whitespace or run together
+    let mut result = [false; 7];
+    let mut rest = mask.trim();
+    while !rest.is_empty() {
+        let day = DAY_NAMES.iter().position(|name| rest.starts_with(name)).ok_or_else(|| {
+            pyo3::exceptions::PyValueError::new_err(format!(
+                "Invalid weekmask: {}. Use day names (Mon Tue...) or binary (1111100)",
+                mask
+            ))
+        })?;
+        result[day] = true;
+        rest = rest[3..].trim_start();
+    }
+    require_business_day(result)
+}
+
+/// A calendar without any business day is no calendar.
+fn require_business_day(mask: [bool; 7]) -> PyResult<[bool; 7]> {
+    if mask.contains(&true) {
+        return Ok(mask);
+    }
+
+    Err(pyo3::exceptions::PyValueError::new_err("a weekmask must have at least one business day"))
 }
 
 /// Check if dates are business days.
@@ -275,15 +295,15 @@ pub fn busday_offset(py: Python<'_>, dates: &Bound<'_, PyAny>, offsets: &Bound<'
     // Parse offsets
     let is_scalar_offset = offsets.extract::<i64>().is_ok();
     let offsets_vec: Vec<i64> = if let Ok(n) = offsets.extract::<i64>() {
-        vec![n; dates_vec.len()]
+        vec![n]
     } else if let Ok(list) = offsets.downcast::<PyList>() {
         list.iter().map(|item| item.extract::<i64>()).collect::<PyResult<_>>()?
     } else {
         return Err(pyo3::exceptions::PyTypeError::new_err("offsets must be int or list"));
     };
 
-    let result: Vec<i64> = dates_vec.iter().zip(offsets_vec.iter())
-        .map(|(&date, &offset)| busday_offset_single(date, offset, cal))
+    let result: Vec<i64> = broadcast_pairs(dates_vec, offsets_vec)?.into_iter()
+        .map(|(date, offset)| busday_offset_single(date, offset, cal))
         .collect();
 
     // Return 0-d array for scalar inputs
@@ -330,8 +350,11 @@ pub fn busday_count(py: Python<'_>, begindates: &Bound<'_, PyAny>, enddates: &Bo
     let begin_vec = parse_dates_input(begindates)?;
     let end_vec = parse_dates_input(enddates)?;
 
-    let result: Vec<i64> = begin_vec.iter().zip(end_vec.iter())
-        .map(|(&begin, &end)| busday_count_single(begin, end, cal))
+    if begin_vec.contains(&NAT) || end_vec.contains(&NAT) {
+        return Err(pyo3::exceptions::PyValueError::new_err("Cannot compute a business day count with a NaT (not-a-time) date"));
+    }
+    let result: Vec<i64> = broadcast_pairs(begin_vec, end_vec)?.into_iter()
+        .map(|(begin, end)| busday_count_single(begin, end, cal))
         .collect();
 
     // Return scalar for scalar inputs
@@ -345,12 +368,9 @@ pub fn busday_count(py: Python<'_>, begindates: &Bound<'_, PyAny>, enddates: &Bo
 
 /// Count business days between two dates (exclusive of end date).
 fn busday_count_single(begin: i64, end: i64, cal: &BusDayCalendar) -> i64 {
-    if begin == NAT || end == NAT {
-        return 0;
-    }
-
-    if begin >= end {
-        return 0;
+    // A range that runs backwards counts down, and leaves out its (earlier) end too
+    if begin > end {
+        return -busday_count_single(end + 1, begin + 1, cal);
     }
 
     let mut count = 0i64;
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index e078760..5438dc3 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1264,7 +1264,13 @@ pub(crate) fn weak_scalar(obj: &Bound<'_, PyAny>, other: &DType) -> PyResult<Opt
         }
         return Ok(None);
     }
-    // datetime64, timedelta64, strings: the scalar is read in the array's dtype
+    if matches!(kind, DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_)) {
+        if let Ok(v) = obj.extract::<i64>() {
+            return Ok(Some(RumpyArray::from_vec_i64(vec![v], DType::int64()).reshape(vec![]).expect("one element")));
+        }
+        return Ok(obj.extract::<f64>().ok().map(|v| RumpyArray::full(vec![], v, DType::float64())));
+    }
+    // strings: the scalar is read in the array's dtype
     Ok(obj.extract::<f64>().ok().map(|v| RumpyArray::full(vec![], v, other.clone())))
 }
 
-- 
2.43.0


From dc34e50b101c47d2442448fe4189a26298f7612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:32 +0000
Subject: [PATCH 47/81] fix: char functions read strided arrays in order,
 broadcast, and honour chars, start, end, padding and comparison rules

---
 src/ops/char.rs    | 141 ++++++++++++++++++++++++++++++++++++---------
 src/ops/ufunc.rs   |   4 ++
 src/python/char.rs |  61 +++++++++++---------
 3 files changed, 151 insertions(+), 55 deletions(-)

diff --git a/src/ops/char.rs b/src/ops/char.rs
index 3701b90..12e4b88 100644
--- a/src/ops/char.rs
+++ b/src/ops/char.rs
@@ -3,7 +3,8 @@
 //! These operations work element-wise on string arrays.
 
 use crate::array::dtype::{DType, DTypeKind};
-use crate::array::RumpyArray;
+use crate::array::{broadcast_shapes, RumpyArray};
+use crate::ops::ComparisonOp;
 use std::sync::Arc;
 
 // ============================================================================
@@ -332,6 +333,11 @@ unsafe fn write_string(arr: &mut RumpyArray, flat_idx: usize, s: &str) {
     }
 }
 
+/// The array itself if its strings lie one after the other, a packed copy otherwise.
+fn packed(arr: &RumpyArray) -> RumpyArray {
+    if arr.is_c_contiguous() { arr.clone() } else { arr.copy() }
+}
+
 /// Apply a unary string operation element-wise.
 fn apply_unary_string_op<F>(arr: &RumpyArray, op: F) -> Option<RumpyArray>
 where
@@ -342,6 +348,7 @@ where
         _ => return None,
     };
 
+    let arr = &packed(arr);
     let size = arr.size();
 
     // Compute max output length
@@ -380,10 +387,9 @@ where
         _ => return None,
     };
 
-    // For now, require same shape (no broadcasting)
-    if a.shape() != b.shape() {
-        return None;
-    }
+    let shape = broadcast_shapes(a.shape(), b.shape())?;
+    let a = &packed(&a.broadcast_to(&shape)?);
+    let b = &packed(&b.broadcast_to(&shape)?);
 
     let size = a.size();
     let mut max_out_len = 0usize;
@@ -434,7 +440,13 @@ pub fn lower(arr: &RumpyArray) -> Option<RumpyArray> {
 
 /// Strip helper - processes directly without intermediate allocations.
 /// mode: 0 = strip both, 1 = lstrip, 2 = rstrip
-fn strip_fast(arr: &RumpyArray, mode: u8) -> Option<RumpyArray> {
+fn strip_fast(arr: &RumpyArray, mode: u8, chars: Option<&str>) -> Option<RumpyArray> {
+    let chars: Option<Vec<u32>> = chars.map(|s| s.chars().map(|c| c as u32).collect());
+    let strips = |cp: u32| match &chars {
+        Some(set) => set.contains(&cp),
+        None => cp_is_space(cp),
+    };
+
     let max_chars = match arr.dtype().kind() {
         DTypeKind::Str(mc) => mc,
         _ => return None,
@@ -462,14 +474,14 @@ fn strip_fast(arr: &RumpyArray, mode: u8) -> Option<RumpyArray> {
             // Find start (skip leading whitespace)
             let start = if mode == 2 { 0 } else {
                 let mut s = 0;
-                while s < len && cp_is_space(unsafe { *src_str.add(s) }) { s += 1; }
+                while s < len && strips(unsafe { *src_str.add(s) }) { s += 1; }
                 s
             };
 
             // Find end (skip trailing whitespace)
             let end = if mode == 1 { len } else {
                 let mut e = len;
-                while e > start && cp_is_space(unsafe { *src_str.add(e - 1) }) { e -= 1; }
+                while e > start && strips(unsafe { *src_str.add(e - 1) }) { e -= 1; }
                 e
             };
 
@@ -488,13 +500,13 @@ fn strip_fast(arr: &RumpyArray, mode: u8) -> Option<RumpyArray> {
 
             let start = if mode == 2 { 0 } else {
                 let mut s = 0;
-                while s < len && cp_is_space(unsafe { *src_str.add(s) }) { s += 1; }
+                while s < len && strips(unsafe { *src_str.add(s) }) { s += 1; }
                 s
             };
 
             let end = if mode == 1 { len } else {
                 let mut e = len;
-                while e > start && cp_is_space(unsafe { *src_str.add(e - 1) }) { e -= 1; }
+                while e > start && strips(unsafe { *src_str.add(e - 1) }) { e -= 1; }
                 e
             };
 
@@ -509,18 +521,18 @@ fn strip_fast(arr: &RumpyArray, mode: u8) -> Option<RumpyArray> {
 }
 
 /// Strip leading and trailing whitespace.
-pub fn strip(arr: &RumpyArray) -> Option<RumpyArray> {
-    strip_fast(arr, 0)
+pub fn strip(arr: &RumpyArray, chars: Option<&str>) -> Option<RumpyArray> {
+    strip_fast(arr, 0, chars)
 }
 
 /// Strip leading whitespace.
-pub fn lstrip(arr: &RumpyArray) -> Option<RumpyArray> {
-    strip_fast(arr, 1)
+pub fn lstrip(arr: &RumpyArray, chars: Option<&str>) -> Option<RumpyArray> {
+    strip_fast(arr, 1, chars)
 }
 
 /// Strip trailing whitespace.
-pub fn rstrip(arr: &RumpyArray) -> Option<RumpyArray> {
-    strip_fast(arr, 2)
+pub fn rstrip(arr: &RumpyArray, chars: Option<&str>) -> Option<RumpyArray> {
+    strip_fast(arr, 2, chars)
 }
 
 // ============================================================================
@@ -708,6 +720,58 @@ pub fn rfind(arr: &RumpyArray, sub: &str) -> Option<RumpyArray> {
     Some(out)
 }
 
+/// What `search_within` looks for.
+#[derive(Clone, Copy, PartialEq)]
+pub enum Search { Find, RFind, Count, StartsWith, EndsWith }
+
+/// Search the part of each string between `start` and `end` (as in Python, negative
+/// values count from the end). Positions are those in the whole string.
+pub fn search_within(arr: &RumpyArray, sub: &str, start: isize, end: isize, what: Search) -> Option<RumpyArray> {
+    let max_chars = match arr.dtype().kind() {
+        DTypeKind::Str(mc) => mc,
+        _ => return None,
+    };
+    let sub: Vec<u32> = sub.chars().map(|c| c as u32).collect();
+    let boolean = matches!(what, Search::StartsWith | Search::EndsWith);
+    let mut out = RumpyArray::zeros(arr.shape().to_vec(), if boolean { DType::bool() } else { DType::int64() });
+    let dst = Arc::get_mut(out.buffer_mut()).expect("buffer must be unique").as_mut_ptr();
+
+    for (i, offset) in arr.iter_offsets().enumerate() {
+        let text = unsafe {
+            let ptr = arr.data_ptr().offset(offset) as *const u32;
+            std::slice::from_raw_parts(ptr, utf32_strlen(ptr, max_chars))
+        };
+        let len = text.len() as isize;
+        let from = if start < 0 { (start + len).max(0) } else { start };
+        let to = if end < 0 { (end + len).max(0) } else { end.min(len) };
+        let found = if from > to {
+            if what == Search::Count || boolean { 0 } else { -1 }
+        } else {
+            let part = &text[from as usize..to as usize];
+            let at = |k: usize| part[k..].starts_with(&sub);
+            let places = (part.len() + 1).saturating_sub(sub.len());
+            match what {
+                Search::Find => (0..places).find(|&k| at(k)).map_or(-1, |k| from as i64 + k as i64),
+                Search::RFind => (0..places).rev().find(|&k| at(k)).map_or(-1, |k| from as i64 + k as i64),
+                Search::Count if sub.is_empty() => part.len() as i64 + 1,
+                Search::Count => {
+                    let (mut k, mut n) = (0, 0);
+                    while k < places {
+                        if at(k) { n += 1; k += sub.len(); } else { k += 1; }
+                    }
+                    n
+                }
+                Search::StartsWith => part.starts_with(&sub) as i64,
+                Search::EndsWith => part.ends_with(&sub) as i64,
+            }
+        };
+        unsafe {
+            if boolean { *dst.add(i) = found as u8; } else { *(dst as *mut i64).add(i) = found; }
+        }
+    }
+    Some(out)
+}
+
 /// Like find, but returns -1 sentinel for "not found" (Python wrapper raises ValueError).
 pub fn index(arr: &RumpyArray, sub: &str) -> Option<RumpyArray> {
     // Same as find - Python wrapper checks for -1 and raises ValueError
@@ -1077,9 +1141,9 @@ pub fn replace(arr: &RumpyArray, old: &str, new: &str, count: Option<usize>) ->
         return Some(RumpyArray::zeros(arr.shape().to_vec(), arr.dtype().clone()));
     }
 
-    // Empty old string: no replacements
+    // Empty old string: new goes before every character and at the end
     if old_len == 0 {
-        return Some(arr.copy());
+        return apply_unary_string_op(arr, |s| s.replacen("", new, max_count));
     }
 
     // First pass: compute max output length
@@ -1421,7 +1485,8 @@ pub fn startswith(arr: &RumpyArray, prefix: &str) -> Option<RumpyArray> {
     let size = arr.size();
     let mut out = RumpyArray::zeros(arr.shape().to_vec(), DType::bool());
 
-    if size == 0 {
+    // A prefix longer than the strings can be starts none of them
+    if size == 0 || prefix_len > max_chars {
         return Some(out);
     }
 
@@ -1584,7 +1649,8 @@ pub fn center(arr: &RumpyArray, width: usize, fillchar: char) -> Option<RumpyArr
             s.to_string()
         } else {
             let total_pad = width - len;
-            let left_pad = total_pad / 2;
+            // An odd space goes left where the width is odd, as in Python
+            let left_pad = total_pad / 2 + (total_pad & width & 1);
             let right_pad = total_pad - left_pad;
             format!(
                 "{}{}{}",
@@ -1786,10 +1852,14 @@ pub fn swapcase(arr: &RumpyArray) -> Option<RumpyArray> {
 enum StrCmp { Eq, Ne, Lt, Le, Gt, Ge }
 
 /// Compare two string arrays element-wise with given comparison.
-fn compare_strings(a: &RumpyArray, b: &RumpyArray, cmp: StrCmp) -> Option<RumpyArray> {
-    if a.shape() != b.shape() {
+/// The char functions ignore whitespace at the end, the comparison operators do not.
+fn compare_strings(a: &RumpyArray, b: &RumpyArray, cmp: StrCmp, ignore_trailing: bool) -> Option<RumpyArray> {
+    if !matches!((a.dtype().kind(), b.dtype().kind()), (DTypeKind::Str(_), DTypeKind::Str(_))) {
         return None;
     }
+    let shape = broadcast_shapes(a.shape(), b.shape())?;
+    let a = &packed(&a.broadcast_to(&shape)?);
+    let b = &packed(&b.broadcast_to(&shape)?);
 
     let size = a.size();
     let mut out = RumpyArray::zeros(a.shape().to_vec(), DType::bool());
@@ -1799,6 +1869,7 @@ fn compare_strings(a: &RumpyArray, b: &RumpyArray, cmp: StrCmp) -> Option<RumpyA
     for i in 0..size {
         let sa = unsafe { read_string(a, i) };
         let sb = unsafe { read_string(b, i) };
+        let (sa, sb) = if ignore_trailing { (sa.trim_end(), sb.trim_end()) } else { (&sa[..], &sb[..]) };
         let result = match cmp {
             StrCmp::Eq => sa == sb,
             StrCmp::Ne => sa != sb,
@@ -1813,34 +1884,47 @@ fn compare_strings(a: &RumpyArray, b: &RumpyArray, cmp: StrCmp) -> Option<RumpyA
     Some(out)
 }
 
+/// Compare two string arrays element-wise with a comparison operator.
+pub fn compare(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> Option<RumpyArray> {
+    let cmp = match op {
+        ComparisonOp::Eq => StrCmp::Eq,
+        ComparisonOp::Ne => StrCmp::Ne,
+        ComparisonOp::Lt => StrCmp::Lt,
+        ComparisonOp::Le => StrCmp::Le,
+        ComparisonOp::Gt => StrCmp::Gt,
+        ComparisonOp::Ge => StrCmp::Ge,
+    };
+    compare_strings(a, b, cmp, false)
+}
+
 /// Compare two string arrays element-wise for equality.
 pub fn equal(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
-    compare_strings(a, b, StrCmp::Eq)
+    compare_strings(a, b, StrCmp::Eq, true)
 }
 
 /// Compare two string arrays element-wise for inequality.
 pub fn not_equal(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
-    compare_strings(a, b, StrCmp::Ne)
+    compare_strings(a, b, StrCmp::Ne, true)
 }
 
 /// Compare two string arrays element-wise (less than).
 pub fn less(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
-    compare_strings(a, b, StrCmp::Lt)
+    compare_strings(a, b, StrCmp::Lt, true)
 }
 
 /// Compare two string arrays element-wise (less than or equal).
 pub fn less_equal(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
-    compare_strings(a, b, StrCmp::Le)
+    compare_strings(a, b, StrCmp::Le, true)
 }
 
 /// Compare two string arrays element-wise (greater than).
 pub fn greater(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
-    compare_strings(a, b, StrCmp::Gt)
+    compare_strings(a, b, StrCmp::Gt, true)
 }
 
 /// Compare two string arrays element-wise (greater than or equal).
 pub fn greater_equal(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
-    compare_strings(a, b, StrCmp::Ge)
+    compare_strings(a, b, StrCmp::Ge, true)
 }
 
 /// Expand tabs to spaces.
@@ -1868,6 +1952,7 @@ pub fn expandtabs(arr: &RumpyArray, tabsize: usize) -> Option<RumpyArray> {
 
 /// Join array elements with separator.
 pub fn join_with(arr: &RumpyArray, sep: &str) -> Option<String> {
+    let arr = &packed(arr);
     let size = arr.size();
     let mut strings = Vec::with_capacity(size);
     for i in 0..size {
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index 2d9569d..92e119f 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -726,6 +726,10 @@ pub fn map_compare_op(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> Optio
         return Some(compare_times(&a.broadcast_to(&out_shape)?, &b.broadcast_to(&out_shape)?, op, &out_shape));
     }
 
+    if matches!((a.dtype().kind(), b.dtype().kind()), (DTypeKind::Str(_), DTypeKind::Str(_))) {
+        return crate::ops::char::compare(a, b, op);
+    }
+
     // Promote to common dtype for comparison (like binary ops)
     let common_dtype = promote_dtype(&a.dtype(), &b.dtype());
     if is_integer_kind(&a.dtype().kind()) && is_integer_kind(&b.dtype().kind()) && !is_integer_kind(&common_dtype.kind()) {
diff --git a/src/python/char.rs b/src/python/char.rs
index 3b492fb..a197d5e 100644
--- a/src/python/char.rs
+++ b/src/python/char.rs
@@ -2,9 +2,26 @@
 
 use pyo3::prelude::*;
 
+use crate::array::RumpyArray;
 use crate::ops::char as char_ops;
 use super::pyarray::PyRumpyArray;
 
+/// Search whole strings with `whole`, or the part between start and end where either is given.
+fn search(
+    arr: &RumpyArray,
+    sub: &str,
+    start: Option<isize>,
+    end: Option<isize>,
+    what: char_ops::Search,
+    whole: fn(&RumpyArray, &str) -> Option<RumpyArray>,
+) -> Option<RumpyArray> {
+    if start.is_none() && end.is_none() {
+        whole(arr, sub)
+    } else {
+        char_ops::search_within(arr, sub, start.unwrap_or(0), end.unwrap_or(isize::MAX), what)
+    }
+}
+
 /// Concatenate two string arrays element-wise.
 #[pyfunction]
 #[pyo3(name = "add")]
@@ -43,8 +60,7 @@ pub fn lower(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 #[pyo3(signature = (a, chars=None))]
 pub fn strip(a: &PyRumpyArray, chars: Option<&str>) -> PyResult<PyRumpyArray> {
-    let _ = chars; // TODO: Support custom chars
-    char_ops::strip(&a.inner)
+    char_ops::strip(&a.inner, chars)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("strip requires a string array"))
 }
@@ -53,8 +69,7 @@ pub fn strip(a: &PyRumpyArray, chars: Option<&str>) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 #[pyo3(signature = (a, chars=None))]
 pub fn lstrip(a: &PyRumpyArray, chars: Option<&str>) -> PyResult<PyRumpyArray> {
-    let _ = chars;
-    char_ops::lstrip(&a.inner)
+    char_ops::lstrip(&a.inner, chars)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("lstrip requires a string array"))
 }
@@ -63,8 +78,7 @@ pub fn lstrip(a: &PyRumpyArray, chars: Option<&str>) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 #[pyo3(signature = (a, chars=None))]
 pub fn rstrip(a: &PyRumpyArray, chars: Option<&str>) -> PyResult<PyRumpyArray> {
-    let _ = chars;
-    char_ops::rstrip(&a.inner)
+    char_ops::rstrip(&a.inner, chars)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("rstrip requires a string array"))
 }
@@ -72,9 +86,8 @@ pub fn rstrip(a: &PyRumpyArray, chars: Option<&str>) -> PyResult<PyRumpyArray> {
 /// Find the lowest index of substring in each string.
 #[pyfunction]
 #[pyo3(signature = (a, sub, start=None, end=None))]
-pub fn find(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end); // TODO: Support start/end
-    char_ops::find(&a.inner, sub)
+pub fn find(a: &PyRumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    search(&a.inner, sub, start, end, char_ops::Search::Find, char_ops::find)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("find requires a string array"))
 }
@@ -82,9 +95,8 @@ pub fn find(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usize
 /// Find the highest index of substring in each string.
 #[pyfunction]
 #[pyo3(signature = (a, sub, start=None, end=None))]
-pub fn rfind(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end);
-    char_ops::rfind(&a.inner, sub)
+pub fn rfind(a: &PyRumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    search(&a.inner, sub, start, end, char_ops::Search::RFind, char_ops::rfind)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("rfind requires a string array"))
 }
@@ -92,9 +104,8 @@ pub fn rfind(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usiz
 /// Like find, but raises ValueError if substring is not found.
 #[pyfunction]
 #[pyo3(signature = (a, sub, start=None, end=None))]
-pub fn index(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end);
-    let result = char_ops::index(&a.inner, sub)
+pub fn index(a: &PyRumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    let result = search(&a.inner, sub, start, end, char_ops::Search::Find, char_ops::index)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("index requires a string array"))?;
 
     // Check for -1 values directly from buffer (fast path)
@@ -113,9 +124,8 @@ pub fn index(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usiz
 /// Like rfind, but raises ValueError if substring is not found.
 #[pyfunction]
 #[pyo3(signature = (a, sub, start=None, end=None))]
-pub fn rindex(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end);
-    let result = char_ops::rindex(&a.inner, sub)
+pub fn rindex(a: &PyRumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    let result = search(&a.inner, sub, start, end, char_ops::Search::RFind, char_ops::rindex)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("rindex requires a string array"))?;
 
     let size = result.size();
@@ -166,9 +176,8 @@ pub fn replace(a: &PyRumpyArray, old: &str, new: &str, count: Option<usize>) ->
 /// Count occurrences of substring in each string.
 #[pyfunction]
 #[pyo3(name = "count", signature = (a, sub, start=None, end=None))]
-pub fn char_count(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end);
-    char_ops::count(&a.inner, sub)
+pub fn char_count(a: &PyRumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    search(&a.inner, sub, start, end, char_ops::Search::Count, char_ops::count)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("count requires a string array"))
 }
@@ -232,9 +241,8 @@ pub fn isspace(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// Check if each string starts with the given prefix.
 #[pyfunction]
 #[pyo3(signature = (a, prefix, start=None, end=None))]
-pub fn startswith(a: &PyRumpyArray, prefix: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end);
-    char_ops::startswith(&a.inner, prefix)
+pub fn startswith(a: &PyRumpyArray, prefix: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    search(&a.inner, prefix, start, end, char_ops::Search::StartsWith, char_ops::startswith)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("startswith requires a string array"))
 }
@@ -242,9 +250,8 @@ pub fn startswith(a: &PyRumpyArray, prefix: &str, start: Option<usize>, end: Opt
 /// Check if each string ends with the given suffix.
 #[pyfunction]
 #[pyo3(signature = (a, suffix, start=None, end=None))]
-pub fn endswith(a: &PyRumpyArray, suffix: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end);
-    char_ops::endswith(&a.inner, suffix)
+pub fn endswith(a: &PyRumpyArray, suffix: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    search(&a.inner, suffix, start, end, char_ops::Search::EndsWith, char_ops::endswith)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("endswith requires a string array"))
 }
-- 
2.43.0


From c9aac02ac8178a3f4aa962bb166124b1aec49d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:46 +0000
Subject: [PATCH 48/81] fix: saved arrays keep their element order; text files
 keep integer digits, honour comments and columns; damaged files are refused

---
 src/ops/io.rs | 649 ++++++++++++++++++++++++++++----------------------
 1 file changed, 358 insertions(+), 291 deletions(-)

diff --git a/src/ops/io.rs b/src/ops/io.rs
index 776a3c7..c9a5b5f 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -1,6 +1,7 @@
 //! I/O operations for reading and writing arrays to files.
 
-use crate::array::{ArrayBuffer, ArrayFlags, DType, RumpyArray};
+use crate::array::dtype::DTypeKind;
+use crate::array::{byte_size, is_c_contiguous, is_f_contiguous, ArrayBuffer, ArrayFlags, DType, RumpyArray};
 use std::fs::File;
 use std::io::{BufRead, BufReader, BufWriter, Read, Write};
 use std::path::Path;
@@ -22,7 +23,7 @@ pub fn loadtxt(
     let file = File::open(path).map_err(|e| format!("Failed to open file: {}", e))?;
     let reader = BufReader::new(file);
 
-    let mut data: Vec<f64> = Vec::new();
+    let mut data: Vec<String> = Vec::new();
     let mut ncols: Option<usize> = None;
     let mut nrows = 0usize;
     let delimiter = delimiter.unwrap_or_default();
@@ -41,66 +42,152 @@ pub fn loadtxt(
         }
 
         let line = line_result.map_err(|e| format!("Failed to read line: {}", e))?;
-        let trimmed = line.trim();
-
-        // Skip empty lines and comments
-        if trimmed.is_empty() || (!comments.is_empty() && trimmed.starts_with(comments)) {
+        let Some(values) = split_fields(&line, comments, delimiter) else {
             continue;
-        }
-
-        // Parse values
-        let values: Vec<&str> = if delimiter.is_empty() {
-            trimmed.split_whitespace().collect()
-        } else {
-            trimmed.split(delimiter).map(|s| s.trim()).collect()
-        };
-
-        // Select columns
-        let selected: Vec<&str> = if let Some(cols) = usecols {
-            cols.iter()
-                .filter_map(|&i| values.get(i).copied())
-                .collect()
-        } else {
-            values
         };
+        let selected = select_columns(values, usecols, line_num)?;
+        check_columns(&mut ncols, selected.len(), line_num)?;
 
-        // Validate column count
-        match ncols {
-            Some(n) if n != selected.len() => {
-                return Err(format!(
-                    "Line {} has {} columns, expected {}",
-                    line_num + 1,
-                    selected.len(),
-                    n
-                ));
-            }
-            None => ncols = Some(selected.len()),
-            _ => {}
-        }
-
-        // Parse and collect values
         for s in selected {
-            let val: f64 = s
-                .parse()
-                .map_err(|_| format!("Cannot parse '{}' as number at line {}", s, line_num + 1))?;
-            data.push(val);
+            if !parses_as(s, &dtype) {
+                return Err(format!("Cannot parse '{}' as {} at line {}", s, dtype.ops().name(), line_num + 1));
+            }
+            data.push(s.to_string());
         }
 
         nrows += 1;
     }
 
-    if nrows == 0 {
-        return Ok(RumpyArray::zeros(vec![0, 0], dtype));
+    table(&data, nrows, ncols, dtype)
+}
+
+/// Fields of one line with its comment removed, or None if nothing is left.
+fn split_fields<'a>(line: &'a str, comments: &str, delimiter: &str) -> Option<Vec<&'a str>> {
+    let line = match line.find(comments) {
+        Some(at) if !comments.is_empty() => &line[..at],
+        _ => line,
+    };
+    let trimmed = line.trim();
+    if trimmed.is_empty() {
+        None
+    } else if delimiter.trim().is_empty() {
+        Some(trimmed.split_whitespace().collect())
+    } else {
+        Some(line.split(delimiter).map(|s| s.trim()).collect())
+    }
+}
+
+/// Pick the requested columns of a row.
+fn select_columns<'a>(
+    values: Vec<&'a str>,
+    usecols: Option<&[usize]>,
+    line_num: usize,
+) -> Result<Vec<&'a str>, String> {
+    match usecols {
+        None => Ok(values),
+        Some(cols) => cols
+            .iter()
+            .map(|&i| {
+                values.get(i).copied().ok_or_else(|| {
+                    format!("Line {} has {} columns, column {} was requested", line_num + 1, values.len(), i)
+                })
+            })
+            .collect(),
+    }
+}
+
+/// All rows must have as many columns as the first one.
+fn check_columns(ncols: &mut Option<usize>, found: usize, line_num: usize) -> Result<(), String> {
+    match *ncols {
+        Some(n) if n != found => Err(format!(
+            "Line {} has {} columns, expected {}",
+            line_num + 1,
+            found,
+            n
+        )),
+        _ => {
+            *ncols = Some(found);
+            Ok(())
+        }
     }
+}
 
-    let ncols = ncols.unwrap_or(0);
-    let shape = if ncols == 1 {
-        vec![nrows]
+/// Build the loaded array; axes of length one are squeezed away.
+fn table(data: &[String], nrows: usize, ncols: Option<usize>, dtype: DType) -> Result<RumpyArray, String> {
+    let mut arr = RumpyArray::zeros(vec![data.len()], dtype);
+    for (i, s) in data.iter().enumerate() {
+        write_text(&mut arr, i, s);
+    }
+    let shape: Vec<usize> = if nrows == 0 {
+        vec![0]
     } else {
-        vec![nrows, ncols]
+        [nrows, ncols.unwrap_or(0)].into_iter().filter(|&d| d != 1).collect()
     };
+    arr.reshape(shape).ok_or_else(|| "Cannot shape loaded data".to_string())
+}
 
-    Ok(RumpyArray::from_vec_with_shape(data, shape, dtype))
+/// Parse a complex number written as `a+bj`, `bj` or `a`, optionally in parentheses.
+fn parse_complex(s: &str) -> Option<(f64, f64)> {
+    let s = s.strip_prefix('(').and_then(|t| t.strip_suffix(')')).unwrap_or(s).trim();
+    let Some(body) = s.strip_suffix(['j', 'J']) else {
+        return s.parse().ok().map(|re| (re, 0.0));
+    };
+    // The sign that starts the imaginary part: the last one that is not an exponent's
+    let bytes = body.as_bytes();
+    let at = (1..bytes.len())
+        .rev()
+        .find(|&i| matches!(bytes[i], b'+' | b'-') && !matches!(bytes[i - 1], b'e' | b'E'));
+    match at {
+        Some(i) => Some((body[..i].parse().ok()?, body[i..].replace("+-", "-").parse().ok()?)),
+        None => body.parse().ok().map(|im| (0.0, im)),
+    }
+}
+
+/// Parse an integer exactly, accepting a real literal where it is not one.
+fn parse_integer(s: &str) -> Option<i64> {
+    s.parse::<i64>()
+        .or_else(|_| s.parse::<u64>().map(|v| v as i64))
+        .ok()
+        .or_else(|| s.parse::<f64>().ok().filter(|v| v.is_finite()).map(|v| v as i64))
+}
+
+/// Whether text can be stored in an array of the given dtype.
+fn parses_as(s: &str, dtype: &DType) -> bool {
+    match dtype.kind() {
+        DTypeKind::Complex64 | DTypeKind::Complex128 => parse_complex(s).is_some(),
+        _ if is_integral(dtype) => parse_integer(s).is_some(),
+        _ => s.parse::<f64>().is_ok(),
+    }
+}
+
+/// Integers keep every digit on their way to and from text.
+fn is_integral(dtype: &DType) -> bool {
+    matches!(
+        dtype.kind(),
+        DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32 | DTypeKind::Int64
+            | DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64
+    )
+}
+
+/// Store text that `parses_as` accepts in element `i` of a fresh array.
+fn write_text(arr: &mut RumpyArray, i: usize, s: &str) {
+    let dtype = arr.dtype();
+    let ops = dtype.ops();
+    let ptr = Arc::get_mut(&mut arr.buffer).expect("buffer must be unique").as_mut_ptr();
+    unsafe {
+        match dtype.kind() {
+            DTypeKind::Complex64 | DTypeKind::Complex128 => {
+                let (re, im) = parse_complex(s).unwrap_or((f64::NAN, f64::NAN));
+                ops.write_complex(ptr, i, re, im);
+            }
+            _ if is_integral(&dtype) => {
+                ops.write_i64(ptr, i, parse_integer(s).unwrap_or(0));
+            }
+            _ => {
+                ops.write_f64(ptr, i, s.parse().unwrap_or(f64::NAN));
+            }
+        }
+    }
 }
 
 /// Save array to a text file.
@@ -114,138 +201,179 @@ pub fn savetxt(
     fmt: &str,
     comments: &str,
 ) -> Result<(), String> {
+    let spec = FormatSpec::parse(fmt)?;
+    if arr.ndim() > 2 {
+        return Err(format!("Expected 1D or 2D array, got {}D array instead", arr.ndim()));
+    }
+    let ptr = arr.data_ptr();
+    let dtype = arr.dtype();
+    let fields = arr
+        .iter_offsets()
+        .map(|offset| unsafe { spec.format(ptr, offset, &dtype) })
+        .collect::<Result<Vec<String>, String>>()?;
+
     let file = File::create(path).map_err(|e| format!("Failed to create file: {}", e))?;
     let mut writer = BufWriter::new(file);
+    let mut put = |text: &str| writer.write_all(text.as_bytes()).map_err(|e| e.to_string());
 
     // Write header
     if !header.is_empty() {
-        for line in header.lines() {
-            writer
-                .write_all(comments.as_bytes())
-                .map_err(|e| e.to_string())?;
-            writer
-                .write_all(line.as_bytes())
-                .map_err(|e| e.to_string())?;
-            writer
-                .write_all(newline.as_bytes())
-                .map_err(|e| e.to_string())?;
-        }
+        put(comments)?;
+        put(&header.replace('\n', &format!("\n{}", comments)))?;
+        put(newline)?;
     }
 
-    let ptr = arr.data_ptr();
-    let dtype = arr.dtype();
-    let ops = dtype.ops();
-    let shape = arr.shape();
-    let ndim = arr.ndim();
-
-    if ndim == 0 {
-        // Scalar
-        let val = arr.get_element(&[]);
-        let formatted = format_value(val, fmt);
-        writer
-            .write_all(formatted.as_bytes())
-            .map_err(|e| e.to_string())?;
-        writer
-            .write_all(newline.as_bytes())
-            .map_err(|e| e.to_string())?;
-    } else if ndim == 1 {
-        // 1D array - write as column or row based on convention
-        // NumPy writes 1D as a single column
-        for offset in arr.iter_offsets() {
-            let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            let formatted = format_value(val, fmt);
-            writer
-                .write_all(formatted.as_bytes())
-                .map_err(|e| e.to_string())?;
-            writer
-                .write_all(newline.as_bytes())
-                .map_err(|e| e.to_string())?;
-        }
-    } else {
-        // 2D+ array - write rows
-        let nrows = shape[0];
-        let ncols: usize = shape[1..].iter().product();
-
-        // Collect all offsets once to avoid O(n²) iterator recreation
-        let offsets: Vec<_> = arr.iter_offsets().collect();
-
-        for row in 0..nrows {
-            for col in 0..ncols {
-                if col > 0 {
-                    writer
-                        .write_all(delimiter.as_bytes())
-                        .map_err(|e| e.to_string())?;
-                }
-
-                let flat_idx = row * ncols + col;
-                let offset = offsets[flat_idx];
-                let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-                let formatted = format_value(val, fmt);
-                writer
-                    .write_all(formatted.as_bytes())
-                    .map_err(|e| e.to_string())?;
-            }
-            writer
-                .write_all(newline.as_bytes())
-                .map_err(|e| e.to_string())?;
-        }
+    // A 1D array is written as a single column
+    let (nrows, ncols) = match *arr.shape() {
+        [r, c] => (r, c),
+        _ => (arr.size(), 1),
+    };
+    for row in 0..nrows {
+        put(&fields[row * ncols..(row + 1) * ncols].join(delimiter))?;
+        put(newline)?;
     }
 
     // Write footer
     if !footer.is_empty() {
-        for line in footer.lines() {
-            writer
-                .write_all(comments.as_bytes())
-                .map_err(|e| e.to_string())?;
-            writer
-                .write_all(line.as_bytes())
-                .map_err(|e| e.to_string())?;
-            writer
-                .write_all(newline.as_bytes())
-                .map_err(|e| e.to_string())?;
-        }
+        put(comments)?;
+        put(&footer.replace('\n', &format!("\n{}", comments)))?;
+        put(newline)?;
     }
 
     writer.flush().map_err(|e| e.to_string())?;
     Ok(())
 }
 
-/// Format a value using a format string.
-fn format_value(val: f64, fmt: &str) -> String {
-    if fmt.is_empty() || fmt == "%.18e" {
-        // Default scientific notation
-        format!("{:.18e}", val)
-    } else if fmt.starts_with("%.") && fmt.ends_with('e') {
-        // Scientific notation with precision
-        if let Ok(precision) = fmt[2..fmt.len() - 1].parse::<usize>() {
-            format!("{:.prec$e}", val, prec = precision)
-        } else {
-            format!("{:.18e}", val)
+/// A printf-style conversion with the text around it, such as `%8.3f`.
+struct FormatSpec {
+    before: String,
+    after: String,
+    left: bool,
+    sign: Option<char>,
+    zero: bool,
+    width: usize,
+    precision: Option<usize>,
+    conv: char,
+}
+
+impl FormatSpec {
+    fn parse(fmt: &str) -> Result<Self, String> {
+        let bad = || format!("invalid format '{}'", fmt);
+        let fmt = if fmt.is_empty() { "%s" } else { fmt };
+        let (before, rest) = fmt.split_once('%').ok_or_else(bad)?;
+        let body = rest.trim_start_matches(['-', '+', ' ', '0', '#']);
+        let flags = &rest[..rest.len() - body.len()];
+        let tail = body.trim_start_matches(|c: char| c.is_ascii_digit());
+        let width = &body[..body.len() - tail.len()];
+        let (precision, tail) = match tail.strip_prefix('.') {
+            Some(p) => {
+                let t = p.trim_start_matches(|c: char| c.is_ascii_digit());
+                (Some(&p[..p.len() - t.len()]), t)
+            }
+            None => (None, tail),
+        };
+        let number = |s: &str| if s.is_empty() { Ok(0) } else { s.parse::<u16>().map(usize::from) };
+        let conv = tail.chars().next().filter(|c| "diueEfFgGs".contains(*c)).ok_or_else(bad)?;
+        let after = &tail[1..];
+        if after.contains('%') {
+            return Err(bad());
         }
-    } else if fmt.starts_with("%.") && fmt.ends_with('f') {
-        // Fixed-point with precision
-        if let Ok(precision) = fmt[2..fmt.len() - 1].parse::<usize>() {
-            format!("{:.prec$}", val, prec = precision)
+        Ok(Self {
+            before: before.to_string(),
+            after: after.to_string(),
+            left: flags.contains('-'),
+            sign: if flags.contains('+') { Some('+') } else if flags.contains(' ') { Some(' ') } else { None },
+            zero: flags.contains('0'),
+            width: number(width).map_err(|_| bad())?,
+            precision: precision.map(number).transpose().map_err(|_| bad())?,
+            conv,
+        })
+    }
+
+    /// Format the element at a byte offset.
+    unsafe fn format(&self, ptr: *const u8, offset: isize, dtype: &DType) -> Result<String, String> {
+        let ops = dtype.ops();
+        let text = match dtype.kind() {
+            DTypeKind::Complex64 | DTypeKind::Complex128 => {
+                let (re, im) = ops.read_complex(ptr, offset).unwrap_or((0.0, 0.0));
+                let signed = Self { sign: Some('+'), before: String::new(), after: String::new(), ..*self };
+                format!("({}{}j)", self.real(re)?, signed.real(im)?)
+            }
+            DTypeKind::Uint64 if "dius".contains(self.conv) => {
+                let v = ops.read_i64(ptr, offset).unwrap_or(0) as u64;
+                self.pad(false, v.to_string())
+            }
+            _ if is_integral(dtype) && "dius".contains(self.conv) => {
+                let v = ops.read_i64(ptr, offset).unwrap_or(0);
+                self.pad(v < 0, v.unsigned_abs().to_string())
+            }
+            _ => match ops.read_f64(ptr, offset) {
+                Some(v) => self.real(v)?,
+                None => return Err(format!("cannot write {} as text", dtype.ops().name())),
+            },
+        };
+        Ok(format!("{}{}{}", self.before, text, self.after))
+    }
+
+    fn real(&self, v: f64) -> Result<String, String> {
+        let (neg, x) = (v.is_sign_negative() && !v.is_nan(), v.abs());
+        let prec = self.precision.unwrap_or(6);
+        let digits = if "diu".contains(self.conv) {
+            if !v.is_finite() {
+                return Err(format!("cannot convert {} to integer", v));
+            }
+            return Ok(self.pad(v <= -1.0, format!("{}", x.trunc())));
+        } else if x.is_nan() {
+            "nan".to_string()
+        } else if x.is_infinite() {
+            "inf".to_string()
         } else {
-            format!("{}", val)
-        }
-    } else if fmt.starts_with("%.") && fmt.ends_with('g') {
-        // General format
-        if let Ok(precision) = fmt[2..fmt.len() - 1].parse::<usize>() {
-            // Rust doesn't have %g, approximate it
-            if val.abs() < 1e-4 || val.abs() >= 10f64.powi(precision as i32) {
-                format!("{:.prec$e}", val, prec = precision)
-            } else {
-                format!("{:.prec$}", val, prec = precision)
+            match self.conv {
+                'e' | 'E' => exponential(x, prec),
+                'f' | 'F' => format!("{:.*}", prec, x),
+                's' => format!("{:?}", x),
+                _ => general(x, prec.max(1)),
             }
+        };
+        let digits = if self.conv.is_ascii_uppercase() { digits.to_uppercase() } else { digits };
+        Ok(self.pad(neg, digits))
+    }
+
+    fn pad(&self, neg: bool, digits: String) -> String {
+        let sign = if neg { Some('-') } else { self.sign };
+        let sign = sign.map(String::from).unwrap_or_default();
+        let fill = self.width.saturating_sub(sign.len() + digits.len());
+        if self.left {
+            format!("{}{}{}", sign, digits, " ".repeat(fill))
+        } else if self.zero {
+            format!("{}{}{}", sign, "0".repeat(fill), digits)
         } else {
-            format!("{}", val)
+            format!("{}{}{}", " ".repeat(fill), sign, digits)
         }
-    } else if fmt.starts_with('%') && fmt.ends_with('d') {
-        // Integer format
-        format!("{}", val as i64)
+    }
+}
+
+/// `%e` of a finite non-negative number: at least two exponent digits.
+fn exponential(x: f64, prec: usize) -> String {
+    let text = format!("{:.*e}", prec, x);
+    let (mantissa, exp) = text.split_once('e').expect("exponent");
+    let exp: i32 = exp.parse().expect("exponent");
+    format!("{}e{}{:02}", mantissa, if exp < 0 { '-' } else { '+' }, exp.abs())
+}
+
+/// `%g` of a finite non-negative number: the shorter notation without trailing zeros.
+fn general(x: f64, prec: usize) -> String {
+    let sci = exponential(x, prec - 1);
+    let (mantissa, exp) = sci.split_once('e').expect("exponent");
+    let e: i32 = exp.parse().expect("exponent");
+    let strip = |s: &str| match s.contains('.') {
+        true => s.trim_end_matches('0').trim_end_matches('.').to_string(),
+        false => s.to_string(),
+    };
+    if x != 0.0 && (e < -4 || e >= prec as i32) {
+        format!("{}e{}", strip(mantissa), exp)
     } else {
-        format!("{}", val)
+        strip(&format!("{:.*}", (prec as i32 - 1 - e).max(0) as usize, x))
     }
 }
 
@@ -271,95 +399,38 @@ pub fn genfromtxt(
         .collect::<Result<Vec<_>, _>>()
         .map_err(|e| format!("Failed to read file: {}", e))?;
 
-    let end_idx = lines.len().saturating_sub(skip_footer);
+    if skip_footer > 0 && max_rows.is_some() {
+        return Err("'skip_footer' and 'max_rows' can not be specified at the same time".to_string());
+    }
     let delimiter = delimiter.unwrap_or_default();
 
-    let mut data: Vec<f64> = Vec::new();
-    let mut ncols: Option<usize> = None;
-    let mut nrows = 0usize;
-    let mut processed_rows = 0usize;
-
-    for (line_num, line) in lines.iter().enumerate() {
-        // Skip header rows
-        if line_num < skip_header {
-            continue;
-        }
-
-        // Skip footer rows
-        if line_num >= end_idx {
-            break;
-        }
-
-        // Check max_rows
-        if let Some(max) = max_rows {
-            if processed_rows >= max {
-                break;
-            }
-        }
-
-        let trimmed = line.trim();
-
-        // Skip empty lines and comments
-        if trimmed.is_empty() || (!comments.is_empty() && trimmed.starts_with(comments)) {
-            continue;
-        }
-
-        // Parse values
-        let values: Vec<&str> = if delimiter.is_empty() {
-            trimmed.split_whitespace().collect()
-        } else {
-            trimmed.split(delimiter).map(|s| s.trim()).collect()
-        };
+    // The footer is counted in rows, not in blank or commented lines
+    let mut rows: Vec<(usize, Vec<&str>)> = lines
+        .iter()
+        .enumerate()
+        .skip(skip_header)
+        .filter_map(|(i, line)| Some((i, split_fields(line, comments, delimiter)?)))
+        .collect();
+    rows.truncate(rows.len().saturating_sub(skip_footer));
+    rows.truncate(max_rows.unwrap_or(usize::MAX));
 
-        // Select columns
-        let selected: Vec<&str> = if let Some(cols) = usecols {
-            cols.iter()
-                .filter_map(|&i| values.get(i).copied())
-                .collect()
-        } else {
-            values
-        };
+    let mut data: Vec<String> = Vec::new();
+    let mut ncols: Option<usize> = None;
+    let nrows = rows.len();
+    let filling = filling_values.to_string();
 
-        // Validate column count (first non-empty row sets it)
-        match ncols {
-            Some(n) if n != selected.len() => {
-                return Err(format!(
-                    "Line {} has {} columns, expected {}",
-                    line_num + 1,
-                    selected.len(),
-                    n
-                ));
-            }
-            None => ncols = Some(selected.len()),
-            _ => {}
-        }
+    for (line_num, values) in rows {
+        let selected = select_columns(values, usecols, line_num)?;
+        check_columns(&mut ncols, selected.len(), line_num)?;
 
-        // Parse values with missing value handling
+        // Missing and unparsable values are filled
         for s in selected {
-            let val = if s.is_empty() || s == missing_values {
-                filling_values
-            } else {
-                s.parse().unwrap_or(filling_values)
-            };
-            data.push(val);
+            let missing = s.is_empty() || s == missing_values || !parses_as(s, &dtype);
+            data.push(if missing { filling.clone() } else { s.to_string() });
         }
-
-        nrows += 1;
-        processed_rows += 1;
-    }
-
-    if nrows == 0 {
-        return Ok(RumpyArray::zeros(vec![0, 0], dtype));
     }
 
-    let ncols = ncols.unwrap_or(0);
-    let shape = if ncols == 1 {
-        vec![nrows]
-    } else {
-        vec![nrows, ncols]
-    };
-
-    Ok(RumpyArray::from_vec_with_shape(data, shape, dtype))
+    table(&data, nrows, ncols, dtype)
 }
 
 // NPY format constants
@@ -380,7 +451,6 @@ pub fn save_npy(path: &Path, arr: &RumpyArray) -> Result<(), String> {
 pub fn write_npy<W: Write>(writer: &mut W, arr: &RumpyArray) -> Result<(), String> {
     // Build header dictionary
     let descr = arr.dtype().typestr();
-    let fortran_order = arr.is_f_contiguous() && !arr.is_c_contiguous();
     let shape_str = format!(
         "({}{})",
         arr.shape()
@@ -392,16 +462,15 @@ pub fn write_npy<W: Write>(writer: &mut W, arr: &RumpyArray) -> Result<(), Strin
     );
 
     let header = format!(
-        "{{'descr': '{}', 'fortran_order': {}, 'shape': {}}}",
+        "{{'descr': '{}', 'fortran_order': False, 'shape': {}}}",
         descr,
-        if fortran_order { "True" } else { "False" },
         shape_str
     );
 
     // Calculate padding for 64-byte alignment (version 1.0)
     let header_len = header.len();
     let total_header_len = 10 + header_len; // magic(6) + version(2) + header_len(2)
-    let padding_needed = (64 - (total_header_len % 64)) % 64;
+    let padding_needed = 64 - (total_header_len % 64); // at least the final newline
     let padded_header_len = header_len + padding_needed;
 
     // Check if we need version 2.0 (header > 65535 bytes)
@@ -435,7 +504,7 @@ pub fn write_npy<W: Write>(writer: &mut W, arr: &RumpyArray) -> Result<(), Strin
         writer.write_all(&padding).map_err(|e| e.to_string())?;
     }
 
-    // Write data - need contiguous array
+    // Write data in C order - need contiguous array
     let contiguous = if arr.is_c_contiguous() {
         arr.clone()
     } else {
@@ -490,10 +559,7 @@ pub fn read_npy<R: Read>(reader: &mut R) -> Result<RumpyArray, String> {
     };
 
     // Read header
-    let mut header_bytes = vec![0u8; header_len];
-    reader
-        .read_exact(&mut header_bytes)
-        .map_err(|e| format!("Failed to read header: {}", e))?;
+    let header_bytes = read_bytes(reader, header_len, "header")?;
 
     let header =
         String::from_utf8(header_bytes).map_err(|_| "Header is not valid UTF-8".to_string())?;
@@ -502,28 +568,25 @@ pub fn read_npy<R: Read>(reader: &mut R) -> Result<RumpyArray, String> {
     let (dtype, shape, fortran_order) = parse_npy_header(&header)?;
 
     // Create array and read data
-    let size: usize = shape.iter().product();
-    let nbytes = size * dtype.itemsize();
-
+    let nbytes = byte_size(&shape, dtype.itemsize())
+        .ok_or_else(|| "array is too big".to_string())?;
+    let data = read_bytes(reader, nbytes, "data")?;
     let mut buffer = ArrayBuffer::new(nbytes);
-    let buf_ptr = buffer.as_mut_ptr();
-    let buf_slice = unsafe { std::slice::from_raw_parts_mut(buf_ptr, nbytes) };
-    reader
-        .read_exact(buf_slice)
-        .map_err(|e| format!("Failed to read data: {}", e))?;
+    unsafe { std::ptr::copy_nonoverlapping(data.as_ptr(), buffer.as_mut_ptr(), nbytes) };
 
     // Compute strides based on fortran_order
+    let itemsize = dtype.itemsize();
     let strides = if fortran_order {
-        compute_f_strides(&shape, dtype.itemsize())
+        compute_f_strides(&shape, itemsize)
     } else {
-        compute_c_strides(&shape, dtype.itemsize())
+        compute_c_strides(&shape, itemsize)
     };
 
     let mut flags = ArrayFlags::WRITEABLE;
-    if !fortran_order {
+    if is_c_contiguous(&shape, &strides, itemsize) {
         flags |= ArrayFlags::C_CONTIGUOUS;
     }
-    if fortran_order || shape.iter().filter(|&&d| d > 1).count() <= 1 {
+    if is_f_contiguous(&shape, &strides, itemsize) {
         flags |= ArrayFlags::F_CONTIGUOUS;
     }
 
@@ -537,12 +600,28 @@ pub fn read_npy<R: Read>(reader: &mut R) -> Result<RumpyArray, String> {
     })
 }
 
+/// Read exactly `n` bytes, allocating only for bytes that are there.
+fn read_bytes<R: Read>(reader: &mut R, n: usize, what: &str) -> Result<Vec<u8>, String> {
+    let mut bytes = Vec::new();
+    reader
+        .take(n as u64)
+        .read_to_end(&mut bytes)
+        .map_err(|e| format!("Failed to read {}: {}", what, e))?;
+    if bytes.len() < n {
+        return Err(format!("Failed to read {}: expected {} bytes, got {}", what, n, bytes.len()));
+    }
+    Ok(bytes)
+}
+
 /// Parse NPY header dictionary.
 fn parse_npy_header(header: &str) -> Result<(DType, Vec<usize>, bool), String> {
     let header = header.trim();
 
     // Extract descr
     let descr = extract_string_value(header, "descr")?;
+    if descr.starts_with('>') {
+        return Err(format!("Unsupported byte order: {}", descr));
+    }
     let dtype = descr
         .parse::<DType>()
         .map_err(|_| format!("Unsupported dtype: {}", descr))?;
@@ -616,19 +695,12 @@ fn extract_shape(header: &str) -> Result<Vec<usize>, String> {
                 let shape_str = &rest[..end];
 
                 // Parse shape values
-                let shape: Vec<usize> = shape_str
+                return shape_str
                     .split(',')
-                    .filter_map(|s| {
-                        let trimmed = s.trim();
-                        if trimmed.is_empty() {
-                            None
-                        } else {
-                            trimmed.parse().ok()
-                        }
-                    })
+                    .map(|s| s.trim())
+                    .filter(|s| !s.is_empty())
+                    .map(|s| s.parse().map_err(|_| format!("Invalid dimension in header: {}", s)))
                     .collect();
-
-                return Ok(shape);
             }
         }
     }
@@ -642,7 +714,7 @@ fn compute_c_strides(shape: &[usize], itemsize: usize) -> Vec<isize> {
     let mut stride = itemsize as isize;
     for i in (0..shape.len()).rev() {
         strides[i] = stride;
-        stride *= shape[i] as isize;
+        stride = stride.wrapping_mul(shape[i] as isize);
     }
     strides
 }
@@ -653,7 +725,7 @@ fn compute_f_strides(shape: &[usize], itemsize: usize) -> Vec<isize> {
     let mut stride = itemsize as isize;
     for i in 0..shape.len() {
         strides[i] = stride;
-        stride *= shape[i] as isize;
+        stride = stride.wrapping_mul(shape[i] as isize);
     }
     strides
 }
@@ -780,26 +852,22 @@ fn fromfile_text(path: &Path, dtype: DType, count: isize, sep: &str) -> Result<R
     let content =
         std::fs::read_to_string(path).map_err(|e| format!("Failed to read file: {}", e))?;
 
-    let values: Vec<f64> = content
-        .split(sep)
-        .filter_map(|s| {
-            let trimmed = s.trim();
-            if trimmed.is_empty() {
-                None
-            } else {
-                trimmed.parse().ok()
-            }
-        })
-        .collect();
-
-    let n = if count < 0 {
-        values.len()
+    // White space in the separator matches any amount of white space
+    let fields: Vec<&str> = if sep.trim().is_empty() {
+        content.split_whitespace().collect()
     } else {
-        (count as usize).min(values.len())
+        content.split(sep.trim()).map(|s| s.trim()).filter(|s| !s.is_empty()).collect()
     };
+    let n = if count < 0 { fields.len() } else { fields.len().min(count as usize) };
 
-    let data = values[..n].to_vec();
-    Ok(RumpyArray::from_vec(data, dtype))
+    let mut arr = RumpyArray::zeros(vec![n], dtype.clone());
+    for (i, s) in fields[..n].iter().enumerate() {
+        if !parses_as(s, &dtype) {
+            return Err(format!("Cannot parse '{}' as {}", s, dtype.ops().name()));
+        }
+        write_text(&mut arr, i, s);
+    }
+    Ok(arr)
 }
 
 /// Write array to binary file.
@@ -821,7 +889,7 @@ pub fn tofile(arr: &RumpyArray, path: &Path, sep: &str, format: &str) -> Result<
         // Text mode
         let ptr = arr.data_ptr();
         let dtype = arr.dtype();
-        let ops = dtype.ops();
+        let spec = FormatSpec::parse(format)?;
         let mut first = true;
 
         for offset in arr.iter_offsets() {
@@ -830,8 +898,7 @@ pub fn tofile(arr: &RumpyArray, path: &Path, sep: &str, format: &str) -> Result<
             }
             first = false;
 
-            let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            let formatted = format_value(val, format);
+            let formatted = unsafe { spec.format(ptr, offset, &dtype) }?;
             writer.write_all(formatted.as_bytes()).map_err(|e| e.to_string())?;
         }
     }
-- 
2.43.0


From b9533e652be841243f4f5011653e995d47117d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:44 +0000
Subject: [PATCH 49/81] fix: random: shuffle honours dtype and strides, invalid
 parameters are refused, permutation and choice keep dtype and rows, von Mises
 accepts correctly

---
 src/python/random.rs    | 274 +++++++++++++++++++++++++---------------
 src/random/generator.rs | 113 ++++++++++-------
 2 files changed, 243 insertions(+), 144 deletions(-)

diff --git a/src/python/random.rs b/src/python/random.rs
index 9032e35..5251f04 100644
--- a/src/python/random.rs
+++ b/src/python/random.rs
@@ -2,10 +2,11 @@
 
 use pyo3::prelude::*;
 use rand_core::RngCore;
-use std::sync::Mutex;
+use std::sync::{Mutex, MutexGuard};
 
-use crate::array::{DType, RumpyArray};
+use crate::array::{DType, RumpyArray, StridedIter};
 use crate::random::Generator;
+use super::pyarray::check_size;
 use super::{parse_shape, PyRumpyArray};
 
 /// Python wrapper for Generator.
@@ -16,6 +17,87 @@ pub struct PyGenerator {
     inner: Mutex<Generator>,
 }
 
+impl PyGenerator {
+    fn lock(&self) -> MutexGuard<'_, Generator> {
+        self.inner.lock().unwrap_or_else(|e| e.into_inner())
+    }
+}
+
+/// Refuse distribution parameters outside the distribution's domain.
+fn require(valid: bool, what: &str) -> PyResult<()> {
+    if valid {
+        Ok(())
+    } else {
+        Err(pyo3::exceptions::PyValueError::new_err(what.to_string()))
+    }
+}
+
+/// A copy of an array with its rows (sub-arrays along the first axis) in a random order.
+fn shuffled_rows(gen: &mut Generator, arr: &RumpyArray) -> RumpyArray {
+    let copy = arr.copy();
+    let n = arr.shape()[0];
+    let row = if n > 0 { copy.nbytes() / n } else { 0 };
+    let base = copy.data_ptr() as *mut u8;
+    for i in (1..n).rev() {
+        let j = gen.bounded_uint64((i + 1) as u64) as usize;
+        if i != j {
+            // Safety: two different rows of a contiguous array nobody else sees
+            unsafe { std::ptr::swap_nonoverlapping(base.add(i * row), base.add(j * row), row) };
+        }
+    }
+    copy
+}
+
+/// Indices of `total` members drawn from a population of `n`.
+fn draw_indices(gen: &mut Generator, n: usize, total: usize, replace: bool) -> Vec<usize> {
+    if replace {
+        return (0..total).map(|_| gen.bounded_uint64(n as u64) as usize).collect();
+    }
+    let mut available: Vec<usize> = (0..n).collect();
+    (0..total)
+        .map(|i| available.swap_remove(gen.bounded_uint64((n - i) as u64) as usize))
+        .collect()
+}
+
+/// `choice` from an array: sub-arrays along the first axis, in the array's dtype.
+fn choose_rows(
+    py: Python<'_>,
+    gen: &mut Generator,
+    arr: &RumpyArray,
+    size: Option<&Bound<'_, PyAny>>,
+    replace: bool,
+) -> PyResult<PyObject> {
+    require(arr.ndim() > 0, "choice: 'a' must be a sequence or an integer")?;
+    let n = arr.shape()[0];
+    require(n > 0, "choice: cannot sample from empty population")?;
+    let lead = size.map(parse_shape).transpose()?.unwrap_or_default();
+    let total: usize = lead.iter().product();
+    require(
+        replace || total <= n,
+        "choice: cannot take more samples than population when replace=False",
+    )?;
+
+    let shape: Vec<usize> = lead.iter().chain(&arr.shape()[1..]).copied().collect();
+    check_size(&shape)?;
+    let inner: Vec<isize> = StridedIter::new(&arr.shape()[1..], &arr.strides()[1..], 0).collect();
+    let mut result = RumpyArray::zeros(shape, arr.dtype());
+    let dst = result.data_ptr_mut();
+    let dtype = arr.dtype();
+    let mut at = 0;
+    for row in draw_indices(gen, n, total, replace) {
+        let base = row as isize * arr.strides()[0];
+        for offset in &inner {
+            unsafe { dtype.ops().copy_element(arr.data_ptr(), base + offset, dst, at) };
+            at += 1;
+        }
+    }
+    let result = PyRumpyArray::new(result).into_pyobject(py)?.into_any();
+    match size {
+        None if arr.ndim() == 1 => Ok(result.call_method0("item")?.unbind()),
+        _ => Ok(result.unbind()),
+    }
+}
+
 #[pymethods]
 impl PyGenerator {
     /// Create Generator with PCG64DXSM BitGenerator.
@@ -51,14 +133,14 @@ impl PyGenerator {
 
     /// Generate raw u64 value (for testing/debugging).
     fn random_raw(&self) -> u64 {
-        self.inner.lock().unwrap().next_u64()
+        self.lock().next_u64()
     }
 
     /// Generate uniform random floats in [0, 1).
     #[pyo3(signature = (size=None))]
     fn random(&self, size: Option<&Bound<'_, PyAny>>) -> PyResult<PyObject> {
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     // Return scalar
@@ -86,14 +168,14 @@ impl PyGenerator {
             Some(h) => (low, h),
             None => (0, low),
         };
+        require(low < high, "low >= high")?;
 
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     // Return scalar - use integers with shape [1] and extract
-                    let arr = gen.integers(low, high, vec![1]);
-                    let val = arr.get_element(&[0]) as i64;
+                    let val = gen.next_integer(low, high);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
@@ -114,7 +196,7 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     // Return scalar
@@ -138,8 +220,9 @@ impl PyGenerator {
         scale: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(scale >= 0.0, "scale < 0")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     // Return scalar
@@ -159,7 +242,7 @@ impl PyGenerator {
     #[pyo3(signature = (size=None))]
     fn standard_normal(&self, size: Option<&Bound<'_, PyAny>>) -> PyResult<PyObject> {
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let z = gen.next_standard_normal();
@@ -181,8 +264,9 @@ impl PyGenerator {
         scale: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(scale >= 0.0, "scale < 0")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let z = gen.next_standard_exponential();
@@ -201,7 +285,7 @@ impl PyGenerator {
     #[pyo3(signature = (size=None))]
     fn standard_exponential(&self, size: Option<&Bound<'_, PyAny>>) -> PyResult<PyObject> {
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let z = gen.next_standard_exponential();
@@ -218,7 +302,7 @@ impl PyGenerator {
 
     /// Random permutation of integers from 0 to x-1, or a shuffled copy of x.
     fn permutation(&self, x: &Bound<'_, pyo3::PyAny>) -> PyResult<PyRumpyArray> {
-        let mut gen = self.inner.lock().unwrap();
+        let mut gen = self.lock();
 
         // Try integer first
         if let Ok(n) = x.extract::<usize>() {
@@ -228,18 +312,9 @@ impl PyGenerator {
 
         // Try array
         if let Ok(arr_ref) = x.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-            // Copy array data
-            let ptr = arr_ref.inner.data_ptr();
-            let dtype = arr_ref.inner.dtype();
-            let ops = dtype.ops();
-            let mut data: Vec<f64> = Vec::with_capacity(arr_ref.inner.size());
-            for offset in arr_ref.inner.iter_offsets() {
-                data.push(unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0));
-            }
-            // Shuffle
-            gen.shuffle_data(&mut data);
-            let result = RumpyArray::from_vec(data, DType::float64());
-            return Ok(PyRumpyArray::new(result));
+            if arr_ref.inner.ndim() > 0 {
+                return Ok(PyRumpyArray::new(shuffled_rows(&mut gen, &arr_ref.inner)));
+            }
         }
 
         Err(pyo3::exceptions::PyTypeError::new_err(
@@ -249,40 +324,19 @@ impl PyGenerator {
 
     /// Shuffle array in place along its first axis.
     fn shuffle(&self, x: &Bound<'_, PyRumpyArray>) -> PyResult<()> {
-        let mut gen = self.inner.lock().unwrap();
+        let mut gen = self.lock();
         let py_arr = x.borrow();
 
         let arr = &py_arr.inner;
-        let n = arr.shape()[0];
-
-        if n <= 1 {
-            return Ok(());
+        if arr.ndim() == 0 {
+            return Err(pyo3::exceptions::PyTypeError::new_err("cannot shuffle a 0-dimensional array"));
         }
-
-        // Get mutable pointer to data
-        // Safety: We have exclusive access via PyO3's borrow checking and the GIL
-        let ptr = arr.data_ptr() as *mut f64;
-        let size = arr.size();
-        let data = unsafe { std::slice::from_raw_parts_mut(ptr, size) };
-
-        // For 1D arrays, shuffle elements directly
-        if arr.ndim() == 1 {
-            for i in (1..n).rev() {
-                let j = gen.bounded_uint64((i + 1) as u64) as usize;
-                data.swap(i, j);
-            }
-        } else {
-            // For ND arrays, shuffle along first axis by swapping rows
-            let row_size = arr.shape()[1..].iter().product::<usize>();
-            for i in (1..n).rev() {
-                let j = gen.bounded_uint64((i + 1) as u64) as usize;
-                // Swap rows i and j
-                for k in 0..row_size {
-                    data.swap(i * row_size + k, j * row_size + k);
-                }
-            }
+        let shuffled = shuffled_rows(&mut gen, arr);
+        let (src, dst, itemsize) = (shuffled.data_ptr(), arr.data_ptr() as *mut u8, arr.itemsize());
+        for (i, offset) in arr.iter_offsets().enumerate() {
+            // Safety: offsets lie inside the array, and the copy has as many elements
+            unsafe { std::ptr::copy_nonoverlapping(src.add(i * itemsize), dst.offset(offset), itemsize) };
         }
-
         Ok(())
     }
 
@@ -294,8 +348,10 @@ impl PyGenerator {
         b: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(a > 0.0, "a <= 0")?;
+        require(b > 0.0, "b <= 0")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     // Return scalar - use beta with shape [1] and extract
@@ -320,8 +376,10 @@ impl PyGenerator {
         scale: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(shape_param >= 0.0, "shape < 0")?;
+        require(scale >= 0.0, "scale < 0")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.gamma(shape_param, scale, vec![1]);
@@ -344,8 +402,9 @@ impl PyGenerator {
         lam: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require((0.0..=9.2e18).contains(&lam), "lam < 0, lam is NaN or lam value too large")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.poisson(lam, vec![1]);
@@ -369,8 +428,10 @@ impl PyGenerator {
         p: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(n <= i64::MAX as u64, "n is too large")?;
+        require((0.0..=1.0).contains(&p), "p < 0, p > 1 or p is NaN")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.binomial(n, p, vec![1]);
@@ -393,8 +454,9 @@ impl PyGenerator {
         df: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(df > 0.0, "df <= 0")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.chisquare(df, vec![1]);
@@ -418,7 +480,9 @@ impl PyGenerator {
         cov: Vec<Vec<f64>>,
         size: Option<usize>,
     ) -> PyResult<PyRumpyArray> {
-        let mut gen = self.inner.lock().unwrap();
+        require(cov.len() == mean.len() && cov.iter().all(|row| row.len() == mean.len()), "mean and cov must have same length")?;
+        check_size(&[size.unwrap_or(1), mean.len()])?;
+        let mut gen = self.lock();
         let n = size.unwrap_or(1);
         let arr = gen.multivariate_normal(&mean, &cov, n);
         Ok(PyRumpyArray::new(arr))
@@ -434,8 +498,9 @@ impl PyGenerator {
         sigma: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(sigma >= 0.0, "sigma < 0")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.lognormal(mean, sigma, vec![1]);
@@ -459,8 +524,9 @@ impl PyGenerator {
         scale: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(scale >= 0.0, "scale < 0")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.laplace(loc, scale, vec![1]);
@@ -484,8 +550,9 @@ impl PyGenerator {
         scale: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(scale >= 0.0, "scale < 0")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.logistic(loc, scale, vec![1]);
@@ -508,8 +575,9 @@ impl PyGenerator {
         scale: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(scale >= 0.0, "scale < 0")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.rayleigh(scale, vec![1]);
@@ -532,8 +600,9 @@ impl PyGenerator {
         a: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(a >= 0.0, "a < 0")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.weibull(a, vec![1]);
@@ -558,8 +627,9 @@ impl PyGenerator {
         p: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(p > 0.0 && p <= 1.0, "p <= 0, p > 1 or p is NaN")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.geometric(p, vec![1]);
@@ -583,8 +653,10 @@ impl PyGenerator {
         p: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(n > 0.0, "n <= 0")?;
+        require(p > 0.0 && p <= 1.0, "p <= 0, p > 1 or p is NaN")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.negative_binomial(n, p, vec![1]);
@@ -609,8 +681,10 @@ impl PyGenerator {
         nsample: u64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(ngood <= 1_000_000_000 && nbad <= 1_000_000_000, "ngood and nbad must not exceed 10**9")?;
+        require(nsample <= ngood + nbad, "ngood + nbad < nsample")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.hypergeometric(ngood, nbad, nsample, vec![1]);
@@ -634,7 +708,11 @@ impl PyGenerator {
         pvals: Vec<f64>,
         size: Option<usize>,
     ) -> PyResult<PyRumpyArray> {
-        let mut gen = self.inner.lock().unwrap();
+        require(!pvals.is_empty(), "pvals is empty")?;
+        require(pvals.iter().all(|p| (0.0..=1.0).contains(p)), "pvals < 0, pvals > 1 or pvals contains NaNs")?;
+        require(pvals[..pvals.len() - 1].iter().sum::<f64>() <= 1.0 + 1e-12, "sum(pvals[:-1]) > 1.0")?;
+        check_size(&[size.unwrap_or(1), pvals.len()])?;
+        let mut gen = self.lock();
         let sz = size.unwrap_or(1);
         let arr = gen.multinomial(n, &pvals, sz);
         Ok(PyRumpyArray::new(arr))
@@ -647,8 +725,9 @@ impl PyGenerator {
         a: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(a > 1.0, "a <= 1 or a is NaN")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.zipf(a, vec![1]);
@@ -675,8 +754,11 @@ impl PyGenerator {
         right: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(left <= mode, "left > mode")?;
+        require(mode <= right, "mode > right")?;
+        require(left < right, "left == right")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.triangular(left, mode, right, vec![1]);
@@ -700,8 +782,9 @@ impl PyGenerator {
         kappa: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(kappa >= 0.0, "kappa < 0")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.vonmises(mu, kappa, vec![1]);
@@ -724,8 +807,9 @@ impl PyGenerator {
         a: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(a > 0.0, "a <= 0")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.pareto(a, vec![1]);
@@ -749,8 +833,10 @@ impl PyGenerator {
         scale: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(mean > 0.0, "mean <= 0")?;
+        require(scale > 0.0, "scale <= 0")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.wald(mean, scale, vec![1]);
@@ -773,7 +859,9 @@ impl PyGenerator {
         alpha: Vec<f64>,
         size: Option<usize>,
     ) -> PyResult<PyRumpyArray> {
-        let mut gen = self.inner.lock().unwrap();
+        require(!alpha.is_empty() && alpha.iter().all(|a| *a > 0.0), "alpha <= 0")?;
+        check_size(&[size.unwrap_or(1), alpha.len()])?;
+        let mut gen = self.lock();
         let sz = size.unwrap_or(1);
         let arr = gen.dirichlet(&alpha, sz);
         Ok(PyRumpyArray::new(arr))
@@ -786,8 +874,9 @@ impl PyGenerator {
         df: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(df * 0.5 > 0.0, "df <= 0")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.standard_t(df, vec![1]);
@@ -810,7 +899,7 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.standard_cauchy(vec![1]);
@@ -833,8 +922,9 @@ impl PyGenerator {
         shape_param: f64,
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
+        require(shape_param >= 0.0, "shape < 0")?;
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
             match size {
                 None => {
                     let arr = gen.standard_gamma_dist(shape_param, vec![1]);
@@ -861,20 +951,13 @@ impl PyGenerator {
         replace: bool,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
+            let mut gen = self.lock();
 
             // Parse `a` - either integer (range) or array-like
             let values: Option<Vec<f64>> = if a.extract::<usize>().is_ok() {
                 None // Integer case: sample indices directly
             } else if let Ok(arr) = a.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-                let ptr = arr.inner.data_ptr();
-                let dtype = arr.inner.dtype();
-                let ops = dtype.ops();
-                let mut vals = Vec::with_capacity(arr.inner.size());
-                for offset in arr.inner.iter_offsets() {
-                    vals.push(unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0));
-                }
-                Some(vals)
+                return choose_rows(py, &mut gen, &arr.inner, size, replace);
             } else if let Ok(list) = a.extract::<Vec<f64>>() {
                 Some(list)
             } else if let Ok(list) = a.extract::<Vec<i64>>() {
@@ -909,19 +992,10 @@ impl PyGenerator {
             }
 
             // Generate samples
-            let result_data: Vec<f64> = if replace {
-                (0..total).map(|_| {
-                    let idx = gen.bounded_uint64(n as u64) as usize;
-                    values.as_ref().map_or(idx as f64, |v| v[idx])
-                }).collect()
-            } else {
-                let mut available: Vec<usize> = (0..n).collect();
-                (0..total).map(|i| {
-                    let j = gen.bounded_uint64((n - i) as u64) as usize;
-                    let idx = available.swap_remove(j);
-                    values.as_ref().map_or(idx as f64, |v| v[idx])
-                }).collect()
-            };
+            let result_data: Vec<f64> = draw_indices(&mut gen, n, total, replace)
+                .into_iter()
+                .map(|idx| values.as_ref().map_or(idx as f64, |v| v[idx]))
+                .collect();
 
             if size.is_none() {
                 return Ok(result_data[0].into_pyobject(py)?.into_any().unbind());
diff --git a/src/random/generator.rs b/src/random/generator.rs
index 3fe0b49..1f3d4a8 100644
--- a/src/random/generator.rs
+++ b/src/random/generator.rs
@@ -96,17 +96,16 @@ impl Generator {
 
     /// Generate random integers in [low, high).
     pub fn integers(&mut self, low: i64, high: i64, shape: Vec<usize>) -> RumpyArray {
-        let range = (high - low) as u64;
         let size: usize = shape.iter().product();
-        let mut data = Vec::with_capacity(size);
-
-        for _ in 0..size {
-            // Bounded rejection sampling for uniform distribution
-            let val = self.bounded_uint64(range);
-            data.push((low + val as i64) as f64);
-        }
+        let data = (0..size).map(|_| self.next_integer(low, high)).collect();
+        RumpyArray::from_vec_i64_with_shape(data, shape, DType::int64())
+    }
 
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+    /// Generate one random integer in [low, high).
+    pub fn next_integer(&mut self, low: i64, high: i64) -> i64 {
+        // Bounded rejection sampling for uniform distribution
+        let range = high.wrapping_sub(low) as u64;
+        low.wrapping_add(self.bounded_uint64(range) as i64)
     }
 
     /// Generate bounded random u64 in [0, range) using Lemire's algorithm.
@@ -159,8 +158,7 @@ impl Generator {
     /// Generate samples from normal distribution using Ziggurat algorithm.
     pub fn normal(&mut self, loc: f64, scale: f64, shape: Vec<usize>) -> RumpyArray {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Normal::new(loc, scale).unwrap();
-        let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
+        let data: Vec<f64> = (0..size).map(|_| loc + scale * self.next_standard_normal()).collect();
         RumpyArray::from_vec_with_shape(data, shape, DType::float64())
     }
 
@@ -181,42 +179,40 @@ impl Generator {
     /// Generate samples from exponential distribution.
     pub fn exponential(&mut self, scale: f64, shape: Vec<usize>) -> RumpyArray {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Exp::new(1.0 / scale).unwrap();
-        let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
+        let data: Vec<f64> = (0..size).map(|_| scale * self.next_standard_exponential()).collect();
         RumpyArray::from_vec_with_shape(data, shape, DType::float64())
     }
 
     /// Random permutation of integers from 0 to n-1, or a shuffled copy of an array.
     pub fn permutation(&mut self, n: usize) -> RumpyArray {
-        let mut data: Vec<f64> = (0..n).map(|i| i as f64).collect();
+        let mut data: Vec<i64> = (0..n as i64).collect();
         // Fisher-Yates shuffle
         for i in (1..n).rev() {
             let j = self.bounded_uint64((i + 1) as u64) as usize;
             data.swap(i, j);
         }
-        RumpyArray::from_vec(data, DType::float64())
-    }
-
-    /// Shuffle data in place using Fisher-Yates algorithm.
-    /// Takes a mutable slice of f64 values.
-    pub fn shuffle_data(&mut self, data: &mut [f64]) {
-        let n = data.len();
-        for i in (1..n).rev() {
-            let j = self.bounded_uint64((i + 1) as u64) as usize;
-            data.swap(i, j);
-        }
+        RumpyArray::from_vec_i64(data, DType::int64())
     }
 
     /// Generate one standard gamma value using rand_distr (optimized algorithm).
     #[inline]
     fn next_standard_gamma(&mut self, shape_param: f64) -> f64 {
-        rand_distr::Gamma::new(shape_param, 1.0).unwrap().sample(self)
+        rand_distr::Gamma::new(shape_param, 1.0).map_or(0.0, |d| d.sample(self))
+    }
+
+    /// Generate one Poisson value; no events happen at rate zero.
+    #[inline]
+    fn next_poisson(&mut self, lam: f64) -> f64 {
+        rand_distr::Poisson::new(lam).map_or(0.0, |d| d.sample(self))
     }
 
     /// Generate samples from gamma distribution.
     pub fn gamma(&mut self, shape_param: f64, scale: f64, shape: Vec<usize>) -> RumpyArray {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Gamma::new(shape_param, scale).unwrap();
+        // A gamma distribution of shape or scale zero is the constant zero
+        let Ok(dist) = rand_distr::Gamma::new(shape_param, scale) else {
+            return RumpyArray::zeros(shape, DType::float64());
+        };
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
         RumpyArray::from_vec_with_shape(data, shape, DType::float64())
     }
@@ -232,8 +228,10 @@ impl Generator {
     /// Generate samples from Poisson distribution.
     pub fn poisson(&mut self, lam: f64, shape: Vec<usize>) -> RumpyArray {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Poisson::new(lam).unwrap();
-        let data: Vec<f64> = (0..size).map(|_| dist.sample(self) as f64).collect();
+        let Ok(dist) = rand_distr::Poisson::new(lam) else {
+            return RumpyArray::zeros(shape, DType::int64());
+        };
+        let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
         RumpyArray::from_vec_with_shape(data, shape, DType::int64())
     }
 
@@ -268,8 +266,8 @@ impl Generator {
                 let mut sum = cov[i][j];
                 sum -= l[i][..j].iter().zip(&l[j][..j]).map(|(a, b)| a * b).sum::<f64>();
                 if i == j {
-                    l[i][j] = sum.sqrt();
-                } else {
+                    l[i][j] = sum.max(0.0).sqrt();
+                } else if l[j][j] > 0.0 {
                     l[i][j] = sum / l[j][j];
                 }
             }
@@ -299,8 +297,7 @@ impl Generator {
     /// Generate samples from lognormal distribution.
     pub fn lognormal(&mut self, mean: f64, sigma: f64, shape: Vec<usize>) -> RumpyArray {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::LogNormal::new(mean, sigma).unwrap();
-        let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
+        let data: Vec<f64> = (0..size).map(|_| (mean + sigma * self.next_standard_normal()).exp()).collect();
         RumpyArray::from_vec_with_shape(data, shape, DType::float64())
     }
 
@@ -336,7 +333,9 @@ impl Generator {
     /// Generate samples from Weibull distribution.
     pub fn weibull(&mut self, a: f64, shape: Vec<usize>) -> RumpyArray {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Weibull::new(1.0, a).unwrap();
+        let Ok(dist) = rand_distr::Weibull::new(1.0, a) else {
+            return RumpyArray::zeros(shape, DType::float64());
+        };
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
         RumpyArray::from_vec_with_shape(data, shape, DType::float64())
     }
@@ -346,6 +345,13 @@ impl Generator {
     /// Generate samples from geometric distribution.
     pub fn geometric(&mut self, p: f64, shape: Vec<usize>) -> RumpyArray {
         let size: usize = shape.iter().product();
+        // The library's halving search does not end when 1 - p rounds to one
+        if p < 1e-12 {
+            let data: Vec<f64> = (0..size)
+                .map(|_| ((1.0 - self.next_f64()).ln() / (-p).ln_1p()).floor())
+                .collect();
+            return RumpyArray::from_vec_with_shape(data, shape, DType::int64());
+        }
         let dist = rand_distr::Geometric::new(p).unwrap();
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self) as f64).collect();
         RumpyArray::from_vec_with_shape(data, shape, DType::int64())
@@ -355,10 +361,12 @@ impl Generator {
     pub fn negative_binomial(&mut self, n: f64, p: f64, shape: Vec<usize>) -> RumpyArray {
         let size: usize = shape.iter().product();
         // Use gamma-Poisson mixture: NB(n, p) = Poisson(Gamma(n, (1-p)/p))
-        let gamma_dist = rand_distr::Gamma::new(n, (1.0 - p) / p).unwrap();
+        let Ok(gamma_dist) = rand_distr::Gamma::new(n, (1.0 - p) / p) else {
+            return RumpyArray::zeros(shape, DType::int64());
+        };
         let data: Vec<f64> = (0..size).map(|_| {
             let y = gamma_dist.sample(self);
-            rand_distr::Poisson::new(y).unwrap().sample(self) as f64
+            self.next_poisson(y)
         }).collect();
         RumpyArray::from_vec_with_shape(data, shape, DType::int64())
     }
@@ -381,7 +389,7 @@ impl Generator {
             let mut p_remaining = 1.0;
             for j in 0..k - 1 {
                 if p_remaining > 0.0 {
-                    let p = pvals[j] / p_remaining;
+                    let p = (pvals[j] / p_remaining).min(1.0);
                     let c = rand_distr::Binomial::new(remaining, p).unwrap().sample(self);
                     row[j] = c as f64;
                     remaining -= c;
@@ -390,12 +398,16 @@ impl Generator {
             }
             row[k - 1] = remaining as f64;
         }
-        RumpyArray::from_vec_with_shape(data, vec![size, k], DType::float64())
+        RumpyArray::from_vec_with_shape(data, vec![size, k], DType::int64())
     }
 
     /// Generate samples from Zipf distribution (rejection sampling).
     pub fn zipf(&mut self, a: f64, shape: Vec<usize>) -> RumpyArray {
         let size: usize = shape.iter().product();
+        // Beyond this exponent only 1 is ever drawn
+        if a >= 1025.0 {
+            return RumpyArray::ones(shape, DType::int64());
+        }
         // Use rejection sampling (rand_distr::Zipf has incompatible API)
         let am1 = a - 1.0;
         let b = 2.0_f64.powf(am1);
@@ -405,7 +417,7 @@ impl Generator {
                 let v = self.next_f64();
                 let x = (u.powf(-1.0 / am1)).floor();
                 let t = (1.0 + 1.0 / x).powf(am1);
-                if v * x * (t - 1.0) / (b - 1.0) <= t / b {
+                if x <= i64::MAX as f64 && v * x * (t - 1.0) / (b - 1.0) <= t / b {
                     return x;
                 }
             }
@@ -429,7 +441,11 @@ impl Generator {
         // rand_distr doesn't have vonmises, use Best-Fisher algorithm
         let data: Vec<f64> = (0..size).map(|_| {
             if kappa < 1e-6 {
-                return std::f64::consts::PI * (2.0 * self.next_f64() - 1.0);
+                return wrap_angle(mu + std::f64::consts::PI * (2.0 * self.next_f64() - 1.0));
+            }
+            // So concentrated that only the normal limit is accurate
+            if kappa > 1e6 {
+                return wrap_angle(mu + kappa.sqrt().recip() * self.next_standard_normal());
             }
             let tau = 1.0 + (1.0 + 4.0 * kappa * kappa).sqrt();
             let rho = (tau - (2.0 * tau).sqrt()) / (2.0 * kappa);
@@ -440,9 +456,9 @@ impl Generator {
                 let w = (1.0 + r * z) / (r + z);
                 let c = kappa * (r - w);
                 let u2 = self.next_f64();
-                if c * (2.0 - c) - u2 > 0.0 || c.ln() - c + 1.0 - u2 >= 0.0 {
+                if c * (2.0 - c) - u2 > 0.0 || (c / u2).ln() + 1.0 - c >= 0.0 {
                     let sign = if self.next_f64() > 0.5 { 1.0 } else { -1.0 };
-                    return mu + sign * w.acos();
+                    return wrap_angle(mu + sign * w.acos());
                 }
             }
         }).collect();
@@ -501,8 +517,17 @@ impl Generator {
     /// Generate samples from standard gamma distribution (shape only, scale=1).
     pub fn standard_gamma_dist(&mut self, shape_param: f64, shape: Vec<usize>) -> RumpyArray {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Gamma::new(shape_param, 1.0).unwrap();
-        let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
+        let data: Vec<f64> = (0..size).map(|_| self.next_standard_gamma(shape_param)).collect();
         RumpyArray::from_vec_with_shape(data, shape, DType::float64())
     }
 }
+
+/// Bring an angle into [-pi, pi].
+fn wrap_angle(x: f64) -> f64 {
+    use std::f64::consts::PI;
+    if x.abs() <= PI {
+        x
+    } else {
+        (x + PI).rem_euclid(2.0 * PI) - PI
+    }
+}
-- 
2.43.0


From d1c7aa65ca0ce36cb323cf09f50e620d2e18801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:33 +0000
Subject: [PATCH 50/81] fix: printed arrays show tiny, huge and complex values,
 quote strings, and give the shape of empty arrays

---
 src/array/dtype/complex128.rs |  8 +---
 src/array/dtype/complex64.rs  |  8 +---
 src/array/dtype/float16.rs    |  4 +-
 src/array/dtype/macros.rs     |  4 +-
 src/array/dtype/string.rs     |  5 +--
 src/array/format.rs           | 78 +++++++++++++++++++++++++++--------
 6 files changed, 69 insertions(+), 38 deletions(-)

diff --git a/src/array/dtype/complex128.rs b/src/array/dtype/complex128.rs
index b5fb944..12d02db 100644
--- a/src/array/dtype/complex128.rs
+++ b/src/array/dtype/complex128.rs
@@ -385,12 +385,8 @@ impl DTypeOps for Complex128Ops {
 
     unsafe fn format_element(&self, ptr: *const u8, byte_offset: isize) -> String {
         let (r, i) = Self::read(ptr, byte_offset);
-        // NumPy style: "(1+2j)" or "(1-2j)"
-        if i >= 0.0 {
-            format!("({:.8}+{:.8}j)", r, i).replace(".00000000", ".").replace("0j", "j")
-        } else {
-            format!("({:.8}{:.8}j)", r, i).replace(".00000000", ".").replace("0j", "j")
-        }
+        // NumPy style: "(1.+2.j)" or "(1.-2.j)"
+        crate::array::format::format_complex(r, i, 8)
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
diff --git a/src/array/dtype/complex64.rs b/src/array/dtype/complex64.rs
index b8cbfa5..1590bc9 100644
--- a/src/array/dtype/complex64.rs
+++ b/src/array/dtype/complex64.rs
@@ -382,12 +382,8 @@ impl DTypeOps for Complex64Ops {
 
     unsafe fn format_element(&self, ptr: *const u8, byte_offset: isize) -> String {
         let (r, i) = Self::read(ptr, byte_offset);
-        // NumPy style: "(1+2j)" or "(1-2j)"
-        if i >= 0.0 {
-            format!("({:.6}+{:.6}j)", r, i).replace(".000000", ".").replace("0j", "j")
-        } else {
-            format!("({:.6}{:.6}j)", r, i).replace(".000000", ".").replace("0j", "j")
-        }
+        // NumPy style: "(1.+2.j)" or "(1.-2.j)"
+        crate::array::format::format_complex(r as f64, i as f64, 6)
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index 3e1dcb3..d3308eb 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -136,9 +136,7 @@ impl DTypeOps for Float16Ops {
     }
 
     unsafe fn format_element(&self, ptr: *const u8, byte_offset: isize) -> String {
-        let v = Self::read(ptr, byte_offset).to_f32();
-        let s = format!("{:.4}", v);
-        s.trim_end_matches('0').to_string()
+        crate::array::format::format_float(Self::read(ptr, byte_offset).to_f64(), 4)
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index 5445a30..75d5f68 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -138,9 +138,7 @@ macro_rules! impl_float_dtype {
             }
 
             unsafe fn format_element(&self, ptr: *const u8, byte_offset: isize) -> String {
-                let v = Self::read(ptr, byte_offset);
-                let s = format!("{:.8}", v);
-                s.trim_end_matches('0').to_string()
+                $crate::array::format::format_float(Self::read(ptr, byte_offset) as f64, 8)
             }
 
             unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> std::cmp::Ordering {
diff --git a/src/array/dtype/string.rs b/src/array/dtype/string.rs
index 12dc535..85482c1 100644
--- a/src/array/dtype/string.rs
+++ b/src/array/dtype/string.rs
@@ -173,8 +173,7 @@ impl DTypeOps for StrOps {
     }
 
     unsafe fn format_element(&self, ptr: *const u8, byte_offset: isize) -> String {
-        let s = self.read_string(ptr, byte_offset);
-        format!("'{}'", s)
+        crate::array::format::quote(self.read_string(ptr, byte_offset).chars(), false)
     }
 
     unsafe fn compare_elements(
@@ -398,7 +397,7 @@ impl DTypeOps for BytesOps {
 
     unsafe fn format_element(&self, ptr: *const u8, byte_offset: isize) -> String {
         let data = self.read_bytes(ptr, byte_offset);
-        format!("b'{}'", String::from_utf8_lossy(&data))
+        format!("b{}", crate::array::format::quote(data.iter().map(|&b| b as char), true))
     }
 
     unsafe fn compare_elements(
diff --git a/src/array/format.rs b/src/array/format.rs
index 84187b1..2f740e2 100644
--- a/src/array/format.rs
+++ b/src/array/format.rs
@@ -3,6 +3,58 @@
 use super::dtype::DTypeKind;
 use super::RumpyArray;
 
+/// A float with at most `decimals` decimals, in scientific notation where fixed
+/// point would lose the value (or run to a wall of digits).
+pub(crate) fn format_float(v: f64, decimals: usize) -> String {
+    if v.is_nan() {
+        return "nan".to_string();
+    }
+    if v.is_infinite() {
+        return if v > 0.0 { "inf" } else { "-inf" }.to_string();
+    }
+    if v != 0.0 && !(1e-4..1e16).contains(&v.abs()) {
+        let text = format!("{:.*e}", decimals, v);
+        let (mantissa, exponent) = text.split_once('e').unwrap_or((&text, "0"));
+        let exponent: i32 = exponent.parse().unwrap_or(0);
+        let sign = if exponent < 0 { '-' } else { '+' };
+        return format!("{}e{}{:02}", mantissa.trim_end_matches('0'), sign, exponent.abs());
+    }
+    let text = format!("{:.*}", decimals, v);
+    text.trim_end_matches('0').to_string()
+}
+
+/// A complex number as `(a+bj)`.
+pub(crate) fn format_complex(re: f64, im: f64, decimals: usize) -> String {
+    let sign = if im.is_sign_negative() && !im.is_nan() { "" } else { "+" };
+    format!("({}{}{}j)", format_float(re, decimals), sign, format_float(im, decimals))
+}
+
+/// Text in quotes, escaped as a Python literal.
+pub(crate) fn quote(chars: impl Iterator<Item = char> + Clone, ascii_only: bool) -> String {
+    let has = |q: char| chars.clone().any(|c| c == q);
+    let quote = if has('\'') && !has('"') { '"' } else { '\'' };
+    let mut out = String::new();
+    out.push(quote);
+    for c in chars {
+        match c {
+            '\n' => out.push_str("\\n"),
+            '\r' => out.push_str("\\r"),
+            '\t' => out.push_str("\\t"),
+            '\\' => out.push_str("\\\\"),
+            c if c == quote => {
+                out.push('\\');
+                out.push(c);
+            }
+            c if (c as u32) < 0x100 && (c.is_control() || (ascii_only && !c.is_ascii())) => {
+                out.push_str(&format!("\\x{:02x}", c as u32))
+            }
+            c => out.push(c),
+        }
+    }
+    out.push(quote);
+    out
+}
+
 impl RumpyArray {
     /// Format array as repr string: `array([...])`.
     pub fn format_repr(&self) -> String {
@@ -16,8 +68,8 @@ impl RumpyArray {
         let needs_dtype =
             !matches!(self.dtype.kind(), DTypeKind::Int64 | DTypeKind::Float64 | DTypeKind::Bool);
 
-        // Show shape for truncated arrays (numpy shows shape for any truncated array)
-        let show_shape = truncate;
+        // Show shape where the elements do not: truncated arrays, empty ones of other shapes than (0,)
+        let show_shape = truncate || (self.size() == 0 && self.shape != [0]);
 
         // Format shape as tuple: (3, 4) not [3, 4]
         let shape_str = if self.ndim() == 1 {
@@ -33,22 +85,14 @@ impl RumpyArray {
             )
         };
 
+        let mut suffix = String::new();
+        if show_shape {
+            suffix.push_str(&format!(", shape={}", shape_str));
+        }
         // Empty arrays always show dtype
-        let suffix = if self.size() == 0 {
-            format!(", dtype={}", self.dtype.ops().name())
-        } else if show_shape && needs_dtype {
-            format!(
-                ", shape={}, dtype={}",
-                shape_str,
-                self.dtype.ops().name()
-            )
-        } else if show_shape {
-            format!(", shape={}", shape_str)
-        } else if needs_dtype {
-            format!(", dtype={}", self.dtype.ops().name())
-        } else {
-            String::new()
-        };
+        if needs_dtype || self.size() == 0 {
+            suffix.push_str(&format!(", dtype={}", self.dtype.ops().name()));
+        }
 
         format!("array({}{})", data, suffix)
     }
-- 
2.43.0


From 2dcfd60c89dd417288bf175778b5f0eae1a0c0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:50 +0000
Subject: [PATCH 51/81] fix: gradient at uneven points is second order;
 trapezoid uses the x it is given; both refuse complex input

---
 src/ops/numerical.rs    | 39 +++++++++++++++++++++++++++++----------
 src/python/numerical.rs | 16 +++++++++++++---
 2 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/src/ops/numerical.rs b/src/ops/numerical.rs
index 4df0531..07221e7 100644
--- a/src/ops/numerical.rs
+++ b/src/ops/numerical.rs
@@ -47,8 +47,9 @@ macro_rules! impl_typed_loops {
 
             for i in 1..n - 1 {
                 let v_prev = *src.offset((i as isize - 1) * src_step) as f64;
+                let v = *src.offset(i as isize * src_step) as f64;
                 let v_next = *src.offset((i as isize + 1) * src_step) as f64;
-                *out.offset(i as isize * out_step) = (v_next - v_prev) / (x[i + 1] - x[i - 1]);
+                *out.offset(i as isize * out_step) = uneven_slope(v_prev, v, v_next, x[i] - x[i - 1], x[i + 1] - x[i]);
             }
 
             let v_last = *src.offset((n as isize - 1) * src_step) as f64;
@@ -95,6 +96,15 @@ impl_typed_loops!(gradient_loop_u8, gradient_coords_loop_u8, trapezoid_loop_u8,
 // Gradient
 // ============================================================================
 
+/// Second-order slope at the middle one of three points `h1` and `h2` apart.
+#[inline]
+fn uneven_slope(prev: f64, mid: f64, next: f64, h1: f64, h2: f64) -> f64 {
+    if h1 == h2 {
+        return (next - prev) / (2.0 * h1);
+    }
+    -h2 / (h1 * (h1 + h2)) * prev + (h2 - h1) / (h1 * h2) * mid + h1 / (h2 * (h1 + h2)) * next
+}
+
 /// Compute numerical gradient of an array.
 pub fn gradient(f: &RumpyArray, spacing: Option<f64>, axis: Option<usize>) -> Option<Vec<RumpyArray>> {
     let too_short = match axis {
@@ -115,16 +125,13 @@ pub fn gradient(f: &RumpyArray, spacing: Option<f64>, axis: Option<usize>) -> Op
 
 /// Compute gradient along axis with non-uniform spacing.
 pub fn gradient_with_coords(f: &RumpyArray, coords: &RumpyArray, axis: usize) -> Option<RumpyArray> {
-    if axis >= f.ndim() || coords.ndim() != 1 || coords.size() != f.shape()[axis] {
+    if axis >= f.ndim() || coords.ndim() != 1 || coords.size() != f.shape()[axis] || f.shape()[axis] < 2 {
         return None;
     }
 
     let shape = f.shape();
     let n = shape[axis];
     let mut result = RumpyArray::zeros(shape.to_vec(), DType::float64());
-    if n <= 1 {
-        return Some(result);
-    }
 
     let x = read_to_f64_vec(coords);
     let out_offsets: Vec<isize> = result.axis_offsets(axis).collect();
@@ -214,7 +221,7 @@ fn gradient_fallback(f: &RumpyArray, x: Option<&[f64]>, spacing: Option<f64>, ax
         if let Some(x) = x {
             grad[0] = (vals[1] - vals[0]) / (x[1] - x[0]);
             for i in 1..n - 1 {
-                grad[i] = (vals[i + 1] - vals[i - 1]) / (x[i + 1] - x[i - 1]);
+                grad[i] = uneven_slope(vals[i - 1], vals[i], vals[i + 1], x[i] - x[i - 1], x[i + 1] - x[i]);
             }
             grad[n - 1] = (vals[n - 1] - vals[n - 2]) / (x[n - 1] - x[n - 2]);
         } else {
@@ -257,6 +264,10 @@ pub fn trapezoid(y: &RumpyArray, x: Option<&RumpyArray>, dx: f64, axis: isize) -
     let out_shape: Vec<usize> = shape.iter().enumerate()
         .filter(|&(i, _)| i != axis).map(|(_, &d)| d).collect();
 
+    // Sample points: shared by all lanes, or one set per lane
+    if x.is_some_and(|x| x.shape() != [n] && x.shape() != shape) {
+        return None;
+    }
     if n <= 1 {
         return Some(RumpyArray::zeros(out_shape, DType::float64()));
     }
@@ -265,10 +276,18 @@ pub fn trapezoid(y: &RumpyArray, x: Option<&RumpyArray>, dx: f64, axis: isize) -
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let result_ptr = buffer.as_mut_ptr() as *mut f64;
 
-    let x_vals: Option<Vec<f64>> = x.and_then(|xa| {
-        if xa.ndim() != 1 || xa.size() != n { return None; }
-        Some(read_to_f64_vec(xa))
-    });
+    if let Some(xa) = x.filter(|x| x.ndim() > 1) {
+        let (x_dtype, y_dtype) = (xa.dtype(), y.dtype());
+        let (x_ops, y_ops) = (x_dtype.ops(), y_dtype.ops());
+        for (i, (yb, xb)) in y.axis_offsets(axis).zip(xa.axis_offsets(axis)).enumerate() {
+            let ys = read_axis_values(y.data_ptr(), yb, y.strides()[axis], n, &*y_ops);
+            let xs = read_axis_values(xa.data_ptr(), xb, xa.strides()[axis], n, &*x_ops);
+            let area: f64 = (0..n - 1).map(|j| (ys[j] + ys[j + 1]) * (xs[j + 1] - xs[j]) * 0.5).sum();
+            unsafe { *result_ptr.add(i) = area; }
+        }
+        return Some(result);
+    }
+    let x_vals: Option<Vec<f64>> = x.map(read_to_f64_vec);
 
     let axis_stride = y.strides()[axis];
 
diff --git a/src/python/numerical.rs b/src/python/numerical.rs
index 793f8aa..1c3678f 100644
--- a/src/python/numerical.rs
+++ b/src/python/numerical.rs
@@ -45,6 +45,7 @@ pub fn gradient(
     axis: Option<isize>,
 ) -> PyResult<pyo3::PyObject> {
     let py = varargs.py();
+    super::pyarray::check_real(&f.inner)?;
 
     // Parse varargs for spacing
     let (spacing, coords): (Option<f64>, Option<RumpyArray>) = if varargs.is_empty() {
@@ -52,10 +53,11 @@ pub fn gradient(
     } else if varargs.len() == 1 {
         // Single argument: either scalar spacing or coordinate array
         let arg = varargs.get_item(0)?;
-        if let Ok(scalar) = arg.extract::<f64>() {
+        let points = arg.downcast::<PyRumpyArray>().ok().map(|a| a.borrow().inner.clone());
+        if let Some(points) = points.filter(|p| p.ndim() > 0) {
+            (None, Some(points))
+        } else if let Ok(scalar) = arg.extract::<f64>() {
             (Some(scalar), None)
-        } else if let Ok(py_arr) = arg.downcast::<PyRumpyArray>() {
-            (None, Some(py_arr.borrow().inner.clone()))
         } else {
             return Err(pyo3::exceptions::PyTypeError::new_err(
                 "gradient spacing must be scalar or array"
@@ -78,6 +80,10 @@ pub fn gradient(
 
     // Use coordinate-based gradient if coords provided
     if let Some(ref coord_arr) = coords {
+        if axis.is_none() && f.inner.ndim() > 1 {
+            return Err(pyo3::exceptions::PyTypeError::new_err("gradient: coordinates need an axis"));
+        }
+        super::pyarray::check_real(coord_arr)?;
         let ax = axis_usize.unwrap_or(0);
         let result = crate::ops::numerical::gradient_with_coords(&f.inner, coord_arr, ax)
             .ok_or_else(|| {
@@ -112,7 +118,11 @@ pub fn trapezoid(
     dx: f64,
     axis: isize,
 ) -> PyResult<PyRumpyArray> {
+    super::pyarray::check_real(&y.inner)?;
     let x_inner = x.map(|a| &a.inner);
+    if let Some(x) = x_inner {
+        super::pyarray::check_real(x)?;
+    }
     crate::ops::numerical::trapezoid(&y.inner, x_inner, dx, axis)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
-- 
2.43.0


From 8fab5d394a937609260b4deb2752bbfacd2cd436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 52/81] fix: NumPy scalars and arrays next to a rumpy array
 keep their dtype and value

---
 src/python/creation.rs            | 50 ++++++++++++++++++++++++++-----
 src/python/pyarray/dunder_item.rs |  4 +--
 src/python/pyarray/mod.rs         | 45 +++++++++++++++++++++++++++-
 3 files changed, 88 insertions(+), 11 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index db42b00..ce547ed 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -108,6 +108,9 @@ pub fn eye(n: usize, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray>
 pub fn full(shape: &Bound<'_, PyAny>, fill_value: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let shape = parse_shape(shape)?;
     // Without a dtype the fill value decides
+    if let (None, Some(value)) = (dtype, super::pyarray::numpy_scalar(fill_value)?) {
+        return Ok(PyRumpyArray::new(value.broadcast_to(&shape).expect("a scalar broadcasts").copy()));
+    }
     let default = if fill_value.is_instance_of::<pyo3::types::PyBool>() {
         "bool"
     } else if fill_value.is_instance_of::<pyo3::types::PyInt>() {
@@ -519,8 +522,12 @@ fn infer_dtype(leaves: &[Bound<'_, PyAny>]) -> PyResult<DType> {
     let (mut bools, mut ints, mut big_ints, mut negative, mut floats, mut complexes) =
         (false, false, false, false, false, false);
     let (mut max_chars, mut max_bytes) = (None, None);
+    let mut typed: Option<DType> = None;
     for leaf in leaves {
-        if leaf.is_instance_of::<PyString>() {
+        if let Some(scalar) = text_free_numpy_scalar(leaf)? {
+            let dtype = scalar.dtype();
+            typed = Some(typed.map_or(dtype.clone(), |t| crate::array::promote_dtype(&t, &dtype)));
+        } else if leaf.is_instance_of::<PyString>() {
             let n = leaf.extract::<String>()?.chars().count();
             max_chars = Some(max_chars.map_or(n, |m: usize| m.max(n)));
         } else if leaf.is_instance_of::<PyBytes>() {
@@ -542,7 +549,7 @@ fn infer_dtype(leaves: &[Bound<'_, PyAny>]) -> PyResult<DType> {
         }
     }
 
-    let numbers = bools || ints || big_ints || floats || complexes;
+    let numbers = bools || ints || big_ints || floats || complexes || typed.is_some();
     match (max_chars, max_bytes) {
         (Some(n), None) if !numbers => return Ok(DType::str_(n)),
         (None, Some(n)) if !numbers => return Ok(DType::bytes_(n)),
@@ -553,7 +560,7 @@ fn infer_dtype(leaves: &[Bound<'_, PyAny>]) -> PyResult<DType> {
             ));
         }
     }
-    Ok(if complexes {
+    let plain = if complexes {
         DType::complex128()
     } else if floats || (big_ints && negative) {
         DType::float64()
@@ -564,8 +571,28 @@ fn infer_dtype(leaves: &[Bound<'_, PyAny>]) -> PyResult<DType> {
     } else if bools {
         DType::bool()
     } else {
-        DType::float64()
-    })
+        return Ok(typed.unwrap_or(DType::float64()));
+    };
+    Ok(typed.map_or(plain.clone(), |t| crate::array::promote_dtype(&t, &plain)))
+}
+
+/// A NumPy scalar other than text.
+fn text_free_numpy_scalar(leaf: &Bound<'_, PyAny>) -> PyResult<Option<RumpyArray>> {
+    use crate::array::dtype::DTypeKind;
+    Ok(super::pyarray::numpy_scalar(leaf)?
+        .filter(|s| !matches!(s.dtype().kind(), DTypeKind::Str(_) | DTypeKind::Bytes(_))))
+}
+
+/// A date or duration given as a count of its unit or as NumPy's scalar.
+fn count_of(leaf: &Bound<'_, PyAny>, dtype: &DType) -> PyResult<i64> {
+    match text_free_numpy_scalar(leaf)? {
+        Some(scalar) => {
+            super::pyarray::check_castable(&scalar.dtype(), dtype)?;
+            let scalar = scalar.astype(dtype.clone());
+            Ok(unsafe { *(scalar.data_ptr() as *const i64) })
+        }
+        None => leaf.extract::<i64>(),
+    }
 }
 
 /// Create array from Python list.
@@ -594,13 +621,13 @@ fn from_sequence(seq: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> Py
                 .iter()
                 .map(|leaf| match leaf.extract::<String>() {
                     Ok(text) => Ok(parse_datetime64(&text, unit)),
-                    Err(_) => leaf.extract::<i64>(),
+                    Err(_) => count_of(leaf, &dtype),
                 })
                 .collect::<PyResult<_>>()?;
             RumpyArray::from_vec_i64_with_shape(data, shape, dtype)
         }
         DTypeKind::TimeDelta64(_) => {
-            let data: Vec<i64> = leaves.iter().map(|leaf| leaf.extract::<i64>()).collect::<PyResult<_>>()?;
+            let data: Vec<i64> = leaves.iter().map(|leaf| count_of(leaf, &dtype)).collect::<PyResult<_>>()?;
             RumpyArray::from_vec_i64_with_shape(data, shape, dtype)
         }
         DTypeKind::Str(_) => {
@@ -616,7 +643,14 @@ fn from_sequence(seq: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> Py
             let ptr = std::sync::Arc::get_mut(arr.buffer_mut()).expect("unique").as_mut_ptr();
             let ops = dtype.ops();
             for (i, leaf) in leaves.iter().enumerate() {
-                if kind == DTypeKind::Bool {
+                // (a float is checked below before it becomes an integer)
+                let typed = text_free_numpy_scalar(leaf)?
+                    .filter(|s| !dtype.is_integer() || s.dtype().is_integer() || s.dtype() == DType::bool());
+                if let Some(scalar) = typed {
+                    super::pyarray::check_castable(&scalar.dtype(), &dtype)?;
+                    let scalar = scalar.astype(dtype.clone());
+                    unsafe { ops.copy_element(scalar.data_ptr(), 0, ptr, i); }
+                } else if kind == DTypeKind::Bool {
                     unsafe { ops.write_f64(ptr, i, leaf.is_truthy()? as u8 as f64); }
                 } else if let Ok(value) = leaf.downcast::<pyo3::types::PyComplex>() {
                     if !matches!(kind, DTypeKind::Complex64 | DTypeKind::Complex128) {
diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index 11c547c..ecd8531 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -4,7 +4,7 @@ use pyo3::prelude::*;
 use pyo3::types::{PyEllipsis, PyList, PySlice, PyTuple};
 
 use super::{
-    expand_ellipsis, extract_slice_indices, fill_view, normalize_index, normalize_slice, scalar_for,
+    expand_ellipsis, extract_slice_indices, fill_view, normalize_index, normalize_slice, value_for,
     IndexItem, PyRumpyArray,
 };
 use crate::array::RumpyArray;
@@ -197,7 +197,7 @@ impl PyRumpyArray {
         // An array is never read through __float__, and may be this very object
         let value = match value.extract::<PyRef<'_, PyRumpyArray>>() {
             Ok(array) => array.inner.clone(),
-            Err(_) => scalar_for(value, &self.inner.dtype())?,
+            Err(_) => value_for(value, &self.inner.dtype())?,
         };
 
         // Handle tuple for multi-dimensional indexing
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 5438dc3..ad060d5 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -635,7 +635,7 @@ impl PyRumpyArray {
     fn fill(&mut self, value: &Bound<'_, PyAny>) -> PyResult<()> {
         let value = match value.extract::<PyRef<'_, PyRumpyArray>>() {
             Ok(array) => array.inner.clone(),
-            Err(_) => scalar_for(value, &self.inner.dtype())?,
+            Err(_) => value_for(value, &self.inner.dtype())?,
         };
         fill_view(&mut self.inner, &value)
     }
@@ -1121,11 +1121,50 @@ fn expand_ellipsis(tuple: &Bound<'_, PyTuple>, ndim: usize) -> PyResult<Vec<Inde
     Ok(items)
 }
 
+/// NumPy's scalars and arrays carry a dtype of their own.
+pub(crate) fn numpy_operand(obj: &Bound<'_, PyAny>) -> PyResult<Option<RumpyArray>> {
+    use pyo3::types::{PyBool, PyComplex, PyFloat, PyInt, PyString};
+    if obj.is_exact_instance_of::<PyFloat>()
+        || obj.is_exact_instance_of::<PyInt>()
+        || obj.is_exact_instance_of::<PyBool>()
+        || obj.is_exact_instance_of::<PyComplex>()
+        || obj.is_exact_instance_of::<PyString>()
+        || obj.is_instance_of::<PyRumpyArray>()
+        || !obj.hasattr("__array_interface__")?
+    {
+        return Ok(None);
+    }
+    Ok(crate::python::creation::array_impl(obj.py(), obj, None).ok().map(|a| a.inner))
+}
+
+/// The scalar of a NumPy scalar or 0-d array.
+pub(crate) fn numpy_scalar(obj: &Bound<'_, PyAny>) -> PyResult<Option<RumpyArray>> {
+    Ok(numpy_operand(obj)?.filter(|a| a.ndim() == 0))
+}
+
+/// Array holding a value to be stored in an array of dtype `dtype`.
+pub(crate) fn value_for(value: &Bound<'_, PyAny>, dtype: &DType) -> PyResult<RumpyArray> {
+    match numpy_operand(value)? {
+        Some(array) => {
+            check_castable(&array.dtype(), dtype)?;
+            Ok(array.astype(dtype.clone()))
+        }
+        None => scalar_for(value, dtype),
+    }
+}
+
 /// 0-d array holding a Python scalar to be stored in an array of dtype `dtype`.
 pub(crate) fn scalar_for(value: &Bound<'_, PyAny>, dtype: &DType) -> PyResult<RumpyArray> {
     use crate::array::dtype::DTypeKind;
     let is_complex = |d: &DType| matches!(d.kind(), DTypeKind::Complex64 | DTypeKind::Complex128);
+    if let Some(scalar) = numpy_scalar(value)? {
+        check_castable(&scalar.dtype(), dtype)?;
+        return Ok(scalar.astype(dtype.clone()));
+    }
     match weak_scalar(value, dtype)? {
+        Some(scalar) if scalar.ndim() > 0 => {
+            Err(pyo3::exceptions::PyTypeError::new_err("value must be a number"))
+        }
         Some(scalar) if is_complex(&scalar.dtype()) && !is_complex(dtype) => {
             Err(pyo3::exceptions::PyTypeError::new_err("cannot store a complex value in a real array"))
         }
@@ -1203,12 +1242,16 @@ pub(crate) fn binary_op_error(e: crate::ops::BinaryOpError) -> PyErr {
 ///
 /// Python scalars are weakly typed (NEP 50): they take the array's dtype unless
 /// their kind (bool < int < float < complex) is above the array's.
+/// NumPy scalars and arrays keep their own dtype.
 /// Returns None for objects that are not scalars, and an OverflowError for an
 /// integer the array's dtype cannot hold.
 pub(crate) fn weak_scalar(obj: &Bound<'_, PyAny>, other: &DType) -> PyResult<Option<RumpyArray>> {
     use crate::array::dtype::DTypeKind;
     use pyo3::types::{PyBool, PyComplex, PyFloat};
 
+    if let Some(typed) = numpy_operand(obj)? {
+        return Ok(Some(typed));
+    }
     let kind = other.kind();
     let is_bool = kind == DTypeKind::Bool;
     let is_float = matches!(kind, DTypeKind::Float16 | DTypeKind::Float32 | DTypeKind::Float64);
-- 
2.43.0


From 096508a16054585afc911d618e66821a08db0692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:14 +0000
Subject: [PATCH 53/81] fix: complex arrays: extrema, variance, average,
 rounding, isclose and trim_zeros use both parts; functions of real numbers
 refuse them

---
 src/array/dtype/complex128.rs            | 18 +++++-----
 src/array/dtype/complex64.rs             | 18 +++++-----
 src/array/dtype/mod.rs                   |  6 ++++
 src/ops/array_methods/reductions.rs      | 42 ++++++++++++++++++++++++
 src/ops/array_methods/unary.rs           |  9 +++++
 src/ops/comparison.rs                    | 24 ++++++++++++++
 src/ops/kernels/arithmetic.rs            | 14 +++++---
 src/ops/mod.rs                           |  6 ++++
 src/ops/special.rs                       |  3 ++
 src/python/indexing.rs                   | 15 ++++++---
 src/python/misc.rs                       |  7 ++--
 src/python/pyarray/methods_reductions.rs |  6 ++--
 src/python/pyarray/mod.rs                | 16 +++++++--
 src/python/reductions.rs                 | 27 ++++++++++++---
 src/python/ufuncs.rs                     | 30 ++++++++++-------
 15 files changed, 188 insertions(+), 53 deletions(-)

diff --git a/src/array/dtype/complex128.rs b/src/array/dtype/complex128.rs
index 12d02db..c61ce8f 100644
--- a/src/array/dtype/complex128.rs
+++ b/src/array/dtype/complex128.rs
@@ -354,10 +354,8 @@ impl DTypeOps for Complex128Ops {
         let (r, i) = match op {
             ReduceOp::Sum => (0.0, 0.0),
             ReduceOp::Prod => (1.0, 0.0),
-            ReduceOp::Max | ReduceOp::Min => {
-                // Max/Min not well-defined for complex; use -inf/inf magnitude placeholder
-                (f64::NEG_INFINITY, 0.0)
-            }
+            ReduceOp::Max => (f64::NEG_INFINITY, f64::NEG_INFINITY),
+            ReduceOp::Min => (f64::INFINITY, f64::INFINITY),
         };
         Self::write(out, idx, r, i);
     }
@@ -369,11 +367,13 @@ impl DTypeOps for Complex128Ops {
             ReduceOp::Sum => (ar + vr, ai + vi),
             ReduceOp::Prod => (ar * vr - ai * vi, ar * vi + ai * vr),
             ReduceOp::Max | ReduceOp::Min => {
-                // Compare by magnitude
-                let mag_a = ar * ar + ai * ai;
-                let mag_v = vr * vr + vi * vi;
-                if (op as u8 == ReduceOp::Max as u8 && mag_v > mag_a) ||
-                   (op as u8 == ReduceOp::Min as u8 && mag_v < mag_a) {
+                // By real part, then imaginary; the first NaN stays
+                let better = match op {
+                    ReduceOp::Max => vr > ar || (vr == ar && vi > ai),
+                    _ => vr < ar || (vr == ar && vi < ai),
+                };
+                let acc_nan = ar.is_nan() || ai.is_nan();
+                if !acc_nan && (better || vr.is_nan() || vi.is_nan()) {
                     (vr, vi)
                 } else {
                     (ar, ai)
diff --git a/src/array/dtype/complex64.rs b/src/array/dtype/complex64.rs
index 1590bc9..4560a04 100644
--- a/src/array/dtype/complex64.rs
+++ b/src/array/dtype/complex64.rs
@@ -351,10 +351,8 @@ impl DTypeOps for Complex64Ops {
         let (r, i) = match op {
             ReduceOp::Sum => (0.0, 0.0),
             ReduceOp::Prod => (1.0, 0.0),
-            ReduceOp::Max | ReduceOp::Min => {
-                // Max/Min not well-defined for complex; use -inf/inf magnitude placeholder
-                (f32::NEG_INFINITY, 0.0)
-            }
+            ReduceOp::Max => (f32::NEG_INFINITY, f32::NEG_INFINITY),
+            ReduceOp::Min => (f32::INFINITY, f32::INFINITY),
         };
         Self::write(out, idx, r, i);
     }
@@ -366,11 +364,13 @@ impl DTypeOps for Complex64Ops {
             ReduceOp::Sum => (ar + vr, ai + vi),
             ReduceOp::Prod => (ar * vr - ai * vi, ar * vi + ai * vr),
             ReduceOp::Max | ReduceOp::Min => {
-                // Compare by magnitude
-                let mag_a = ar * ar + ai * ai;
-                let mag_v = vr * vr + vi * vi;
-                if (op as u8 == ReduceOp::Max as u8 && mag_v > mag_a) ||
-                   (op as u8 == ReduceOp::Min as u8 && mag_v < mag_a) {
+                // By real part, then imaginary; the first NaN stays
+                let better = match op {
+                    ReduceOp::Max => vr > ar || (vr == ar && vi > ai),
+                    _ => vr < ar || (vr == ar && vi < ai),
+                };
+                let acc_nan = ar.is_nan() || ai.is_nan();
+                if !acc_nan && (better || vr.is_nan() || vi.is_nan()) {
                     (vr, vi)
                 } else {
                     (ar, ai)
diff --git a/src/array/dtype/mod.rs b/src/array/dtype/mod.rs
index 0081ac5..ee2fb0a 100644
--- a/src/array/dtype/mod.rs
+++ b/src/array/dtype/mod.rs
@@ -363,6 +363,12 @@ impl DType {
         )
     }
 
+    /// Check if this is a complex type.
+    #[inline]
+    pub fn is_complex(&self) -> bool {
+        matches!(self.kind(), DTypeKind::Complex64 | DTypeKind::Complex128)
+    }
+
     /// Check if this is an integer type.
     #[inline]
     pub fn is_integer(&self) -> bool {
diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 4a58246..4eb7d00 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -102,6 +102,10 @@ impl RumpyArray {
             return f64::NAN;
         }
 
+        if self.dtype().is_complex() {
+            return self.real().var() + self.imag().var();
+        }
+
         // Fast path for contiguous f64
         use crate::array::dtype::DTypeKind;
         if self.is_c_contiguous() && self.dtype().kind() == DTypeKind::Float64 {
@@ -126,6 +130,10 @@ impl RumpyArray {
 
     /// Variance along axis (second central moment).
     pub fn var_axis(&self, axis: usize) -> RumpyArray {
+        if self.dtype().is_complex() {
+            let (re, im) = (self.real().moment_axis(2, axis), self.imag().moment_axis(2, axis));
+            return re.binary_op(&im, BinaryOp::Add).expect("same shape");
+        }
         self.moment_axis(2, axis)
     }
 
@@ -252,6 +260,8 @@ impl RumpyArray {
             DTypeKind::Uint16 => dispatch_argmax_full::<u16>(self),
             DTypeKind::Uint8 => dispatch_argmax_full::<u8>(self),
             DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => dispatch_argmax_full::<Time>(self),
+            DTypeKind::Complex64 => dispatch_argmax_full::<ComplexValue<f32>>(self),
+            DTypeKind::Complex128 => dispatch_argmax_full::<ComplexValue<f64>>(self),
             _ => self.argmax_slow(),
         }
     }
@@ -271,6 +281,8 @@ impl RumpyArray {
             DTypeKind::Uint16 => dispatch_argmin_full::<u16>(self),
             DTypeKind::Uint8 => dispatch_argmin_full::<u8>(self),
             DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => dispatch_argmin_full::<Time>(self),
+            DTypeKind::Complex64 => dispatch_argmin_full::<ComplexValue<f32>>(self),
+            DTypeKind::Complex128 => dispatch_argmin_full::<ComplexValue<f64>>(self),
             _ => self.argmin_slow(),
         }
     }
@@ -289,6 +301,8 @@ impl RumpyArray {
             DTypeKind::Uint16 => argmax_axis_typed::<u16>(self, axis),
             DTypeKind::Uint8 => argmax_axis_typed::<u8>(self, axis),
             DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => argmax_axis_typed::<Time>(self, axis),
+            DTypeKind::Complex64 => argmax_axis_typed::<ComplexValue<f32>>(self, axis),
+            DTypeKind::Complex128 => argmax_axis_typed::<ComplexValue<f64>>(self, axis),
             _ => self.argmax_axis_slow(axis),
         }
     }
@@ -307,6 +321,8 @@ impl RumpyArray {
             DTypeKind::Uint16 => argmin_axis_typed::<u16>(self, axis),
             DTypeKind::Uint8 => argmin_axis_typed::<u8>(self, axis),
             DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => argmin_axis_typed::<Time>(self, axis),
+            DTypeKind::Complex64 => argmin_axis_typed::<ComplexValue<f32>>(self, axis),
+            DTypeKind::Complex128 => argmin_axis_typed::<ComplexValue<f64>>(self, axis),
             _ => self.argmin_axis_slow(axis),
         }
     }
@@ -428,6 +444,32 @@ impl ArgReducible for i64 {
     fn neg_infinity() -> Self { i64::MIN }
     fn pos_infinity() -> Self { i64::MAX }
 }
+/// An element of a complex array: ordered by its real part, then by its imaginary one.
+#[derive(Clone, Copy)]
+#[repr(C)]
+struct ComplexValue<T>(T, T);
+
+impl<T: Copy + PartialOrd> ComplexValue<T> {
+    #[allow(clippy::eq_op)]
+    fn has_nan(self) -> bool { self.0 != self.0 || self.1 != self.1 }
+}
+
+impl<T: PartialEq> PartialEq for ComplexValue<T> {
+    fn eq(&self, other: &Self) -> bool { self.0 == other.0 && self.1 == other.1 }
+}
+
+impl<T: Copy + PartialOrd> PartialOrd for ComplexValue<T> {
+    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
+        if self.has_nan() || other.has_nan() { return None; }
+        (self.0, self.1).partial_cmp(&(other.0, other.1))
+    }
+}
+
+impl<T: ArgReducible> ArgReducible for ComplexValue<T> {
+    fn neg_infinity() -> Self { ComplexValue(T::neg_infinity(), T::neg_infinity()) }
+    fn pos_infinity() -> Self { ComplexValue(T::pos_infinity(), T::pos_infinity()) }
+    fn is_nan_value(self) -> bool { self.has_nan() }
+}
 /// An element of a datetime64 or timedelta64 array, where NaT behaves like NaN.
 #[derive(Clone, Copy, PartialEq)]
 #[repr(transparent)]
diff --git a/src/ops/array_methods/unary.rs b/src/ops/array_methods/unary.rs
index 0560405..0841a9b 100644
--- a/src/ops/array_methods/unary.rs
+++ b/src/ops/array_methods/unary.rs
@@ -114,11 +114,17 @@ impl RumpyArray {
 
     /// Test element-wise for negative infinity.
     pub fn isneginf(&self) -> Result<RumpyArray, UnaryOpError> {
+        if self.dtype().is_complex() {
+            return Err(UnaryOpError::UnsupportedDtype);
+        }
         map_unary_op(self, UnaryOp::Isneginf)
     }
 
     /// Test element-wise for positive infinity.
     pub fn isposinf(&self) -> Result<RumpyArray, UnaryOpError> {
+        if self.dtype().is_complex() {
+            return Err(UnaryOpError::UnsupportedDtype);
+        }
         map_unary_op(self, UnaryOp::Isposinf)
     }
 
@@ -194,6 +200,9 @@ impl RumpyArray {
 
     /// Returns True where the sign bit is set (negative).
     pub fn signbit(&self) -> Result<RumpyArray, UnaryOpError> {
+        if self.dtype().is_complex() {
+            return Err(UnaryOpError::UnsupportedDtype);
+        }
         map_unary_op(self, UnaryOp::Signbit)
     }
 
diff --git a/src/ops/comparison.rs b/src/ops/comparison.rs
index 7a181b3..028a60a 100644
--- a/src/ops/comparison.rs
+++ b/src/ops/comparison.rs
@@ -8,6 +8,7 @@
 use crate::array::{broadcast_shapes, increment_indices, DType, RumpyArray};
 use crate::ops::ufunc::map_compare_op;
 use crate::ops::ComparisonOp;
+use num_complex::Complex;
 use std::sync::Arc;
 
 // ============================================================================
@@ -173,6 +174,9 @@ pub fn greater_equal(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
 /// Element-wise approximate equality test: |a - b| <= atol + rtol * |b|.
 /// Handles NaN and infinity according to NumPy semantics.
 pub fn isclose(a: &RumpyArray, b: &RumpyArray, rtol: f64, atol: f64, equal_nan: bool) -> Option<RumpyArray> {
+    if a.dtype().is_complex() || b.dtype().is_complex() {
+        return isclose_complex(a, b, rtol, atol, equal_nan);
+    }
     map_binary_to_bool(a, b, |x, y| {
         if x.is_nan() && y.is_nan() {
             equal_nan
@@ -186,6 +190,26 @@ pub fn isclose(a: &RumpyArray, b: &RumpyArray, rtol: f64, atol: f64, equal_nan:
     })
 }
 
+/// isclose of complex numbers: the distance is the magnitude of the difference.
+fn isclose_complex(a: &RumpyArray, b: &RumpyArray, rtol: f64, atol: f64, equal_nan: bool) -> Option<RumpyArray> {
+    let (a, b) = (a.astype(DType::complex128()), b.astype(DType::complex128()));
+    let (a, b, mut result, _) = broadcast_binary_setup(&a, &b, DType::bool())?;
+    let result_ptr = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique").as_mut_ptr();
+    for (i, (p, q)) in a.iter_offsets().zip(b.iter_offsets()).enumerate() {
+        let x = unsafe { *(a.data_ptr().offset(p) as *const Complex<f64>) };
+        let y = unsafe { *(b.data_ptr().offset(q) as *const Complex<f64>) };
+        let close = if x.is_nan() || y.is_nan() {
+            equal_nan && x.is_nan() && y.is_nan()
+        } else if x.is_infinite() || y.is_infinite() {
+            x == y
+        } else {
+            (x - y).norm() <= atol + rtol * y.norm()
+        };
+        unsafe { *result_ptr.add(i) = close as u8; }
+    }
+    Some(result)
+}
+
 /// Test if all elements are approximately equal.
 pub fn allclose(a: &RumpyArray, b: &RumpyArray, rtol: f64, atol: f64, equal_nan: bool) -> Option<bool> {
     let close = isclose(a, b, rtol, atol, equal_nan)?;
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index 1995387..9eeda35 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -691,21 +691,25 @@ macro_rules! impl_complex_arithmetic {
             #[inline(always)]
             fn apply(_a: Complex<$F>, b: Complex<$F>) -> Complex<$F> { b } // Just return b
         }
-        // Max/Min reductions for complex: compare by magnitude
+        // Max/Min reductions for complex: by real part, then imaginary; the first NaN stays
         impl ReduceKernel<Complex<$F>> for Max {
             #[inline(always)]
-            fn init() -> Complex<$F> { Complex::new(<$F>::NEG_INFINITY, 0.0 as $F) }
+            fn init() -> Complex<$F> { Complex::new(<$F>::NEG_INFINITY, <$F>::NEG_INFINITY) }
             #[inline(always)]
             fn combine(acc: Complex<$F>, v: Complex<$F>) -> Complex<$F> {
-                if v.norm_sqr() > acc.norm_sqr() { v } else { acc }
+                let better = v.re > acc.re || (v.re == acc.re && v.im > acc.im);
+                let acc_nan = acc.re.is_nan() || acc.im.is_nan();
+                if !acc_nan && (better || v.re.is_nan() || v.im.is_nan()) { v } else { acc }
             }
         }
         impl ReduceKernel<Complex<$F>> for Min {
             #[inline(always)]
-            fn init() -> Complex<$F> { Complex::new(<$F>::INFINITY, 0.0 as $F) }
+            fn init() -> Complex<$F> { Complex::new(<$F>::INFINITY, <$F>::INFINITY) }
             #[inline(always)]
             fn combine(acc: Complex<$F>, v: Complex<$F>) -> Complex<$F> {
-                if v.norm_sqr() < acc.norm_sqr() { v } else { acc }
+                let better = v.re < acc.re || (v.re == acc.re && v.im < acc.im);
+                let acc_nan = acc.re.is_nan() || acc.im.is_nan();
+                if !acc_nan && (better || v.re.is_nan() || v.im.is_nan()) { v } else { acc }
             }
         }
     };
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index e398881..58cdbe9 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -264,6 +264,12 @@ impl RumpyArray {
         let src_ptr = self.data_ptr();
 
         for (i, offset) in self.iter_offsets().enumerate() {
+            if dtype.is_complex() {
+                let (re, im) = unsafe { ops.read_complex(src_ptr, offset) }.unwrap_or((0.0, 0.0));
+                let round = |v: f64| (v * scale).round() / scale;
+                unsafe { ops.write_complex(result_ptr, i, round(re), round(im)); }
+                continue;
+            }
             let val = unsafe { ops.read_f64(src_ptr, offset) }.unwrap_or(0.0);
             let rounded = (val * scale).round() / scale;
             unsafe { ops.write_f64(result_ptr, i, rounded); }
diff --git a/src/ops/special.rs b/src/ops/special.rs
index 6844b2a..4b1de62 100644
--- a/src/ops/special.rs
+++ b/src/ops/special.rs
@@ -330,6 +330,9 @@ pub fn ldexp(x: &RumpyArray, i: &RumpyArray) -> Result<RumpyArray, BinaryOpError
     if !is_integer_kind(&i.dtype().kind()) && i.dtype().kind() != DTypeKind::Bool {
         return Err(BinaryOpError::UnsupportedDtype);
     }
+    if x.dtype().is_complex() {
+        return Err(BinaryOpError::UnsupportedDtype);
+    }
     let dtype = float_dtype_of(&x.dtype());
     let compute = if dtype.kind() == DTypeKind::Float32 { DType::float32() } else { DType::float64() };
     let (x, i) = broadcast_pair(x, i, compute.clone(), DType::int64())?;
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index e963e3e..8d733fe 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -694,8 +694,10 @@ pub fn mask_indices(
 /// Return the indices of the bins to which each value in input belongs.
 #[pyfunction]
 #[pyo3(signature = (x, bins, right=false))]
-pub fn digitize(x: &PyRumpyArray, bins: &PyRumpyArray, right: bool) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::indexing::digitize(&x.inner, &bins.inner, right))
+pub fn digitize(x: &PyRumpyArray, bins: &PyRumpyArray, right: bool) -> PyResult<PyRumpyArray> {
+    super::pyarray::refuse_complex(&x.inner)?;
+    super::pyarray::refuse_complex(&bins.inner)?;
+    Ok(PyRumpyArray::new(crate::ops::indexing::digitize(&x.inner, &bins.inner, right)))
 }
 
 /// Pack binary-valued array into uint8 array.
@@ -705,7 +707,12 @@ pub fn packbits(
     a: &PyRumpyArray,
     axis: Option<isize>,
     bitorder: &str,
-) -> PyRumpyArray {
+) -> PyResult<PyRumpyArray> {
+    if !a.inner.dtype().is_integer() && a.inner.dtype() != crate::array::DType::bool() {
+        return Err(pyo3::exceptions::PyTypeError::new_err(
+            "Expected an input array of integer or boolean data type",
+        ));
+    }
     let resolved_axis = axis.map(|ax| {
         if ax < 0 {
             (a.inner.ndim() as isize + ax) as usize
@@ -721,7 +728,7 @@ pub fn packbits(
         resolved_axis
     };
 
-    PyRumpyArray::new(crate::ops::indexing::packbits(&a.inner, actual_axis, bitorder))
+    Ok(PyRumpyArray::new(crate::ops::indexing::packbits(&a.inner, actual_axis, bitorder)))
 }
 
 /// Unpack elements of uint8 array into binary-valued output.
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 391ad2b..aff64a0 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -310,8 +310,7 @@ pub fn trim_zeros(filt: &PyRumpyArray, trim: &str) -> PyResult<PyRumpyArray> {
             if trim.contains('f') || trim.contains('F') {
                 first = size;
                 for i in 0..size {
-                    let val = unsafe { ops.read_f64(ptr, offsets[i]) }.unwrap_or(0.0);
-                    if val != 0.0 {
+                    if unsafe { ops.is_truthy(ptr, offsets[i]) } {
                         first = i;
                         break;
                     }
@@ -322,8 +321,7 @@ pub fn trim_zeros(filt: &PyRumpyArray, trim: &str) -> PyResult<PyRumpyArray> {
             if trim.contains('b') || trim.contains('B') {
                 last = first;
                 for i in (0..size).rev() {
-                    let val = unsafe { ops.read_f64(ptr, offsets[i]) }.unwrap_or(0.0);
-                    if val != 0.0 {
+                    if unsafe { ops.is_truthy(ptr, offsets[i]) } {
                         last = i + 1;
                         break;
                     }
@@ -690,6 +688,7 @@ pub fn unwrap(
     period: Option<f64>,
 ) -> PyResult<PyRumpyArray> {
     let inner = &p.inner;
+    super::pyarray::refuse_complex(inner)?;
     let ndim = inner.ndim();
 
     if ndim == 0 {
diff --git a/src/python/pyarray/methods_reductions.rs b/src/python/pyarray/methods_reductions.rs
index dfb7739..829f94b 100644
--- a/src/python/pyarray/methods_reductions.rs
+++ b/src/python/pyarray/methods_reductions.rs
@@ -172,7 +172,7 @@ impl PyRumpyArray {
     /// Central moment of order k.
     #[pyo3(signature = (k, axis=None, keepdims=false))]
     fn moment(&self, k: usize, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
-        super::check_numeric(&self.inner)?;
+        super::check_real(&self.inner)?;
         match axis {
             None => Ok(scalar_reduction_with_keepdims(
                 &self.inner,
@@ -195,7 +195,7 @@ impl PyRumpyArray {
     /// Skewness (Fisher's definition).
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn skew(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
-        super::check_numeric(&self.inner)?;
+        super::check_real(&self.inner)?;
         match axis {
             None => Ok(scalar_reduction_with_keepdims(
                 &self.inner,
@@ -218,7 +218,7 @@ impl PyRumpyArray {
     /// Kurtosis (Fisher's definition: excess kurtosis, normal = 0).
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn kurtosis(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
-        super::check_numeric(&self.inner)?;
+        super::check_real(&self.inner)?;
         match axis {
             None => Ok(scalar_reduction_with_keepdims(
                 &self.inner,
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index ad060d5..4cc8b44 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -214,7 +214,12 @@ pub(crate) fn check_numeric(arr: &RumpyArray) -> PyResult<()> {
 /// Operations that compute in real numbers refuse anything else.
 pub(crate) fn check_real(arr: &RumpyArray) -> PyResult<()> {
     check_numeric(arr)?;
-    if matches!(arr.dtype().kind(), crate::array::dtype::DTypeKind::Complex64 | crate::array::dtype::DTypeKind::Complex128) {
+    refuse_complex(arr)
+}
+
+/// Operations that know no imaginary part refuse complex arrays.
+pub(crate) fn refuse_complex(arr: &RumpyArray) -> PyResult<()> {
+    if arr.dtype().is_complex() {
         return Err(pyo3::exceptions::PyTypeError::new_err("the operation is not supported for complex numbers"));
     }
     Ok(())
@@ -224,6 +229,10 @@ pub(crate) fn check_real(arr: &RumpyArray) -> PyResult<()> {
 fn floating_dtype(arr: &RumpyArray) -> DType {
     if arr.dtype().is_integer() || arr.dtype() == DType::bool() {
         DType::float64()
+    } else if arr.dtype() == DType::complex64() {
+        DType::float32()
+    } else if arr.dtype() == DType::complex128() {
+        DType::float64()
     } else {
         arr.dtype()
     }
@@ -533,8 +542,9 @@ impl PyRumpyArray {
 
     /// Clip values to a range.
     #[pyo3(signature = (a_min=None, a_max=None))]
-    fn clip(&self, a_min: Option<f64>, a_max: Option<f64>) -> Self {
-        Self::new(self.inner.clip(a_min, a_max))
+    fn clip(&self, a_min: Option<f64>, a_max: Option<f64>) -> PyResult<Self> {
+        refuse_complex(&self.inner)?;
+        Ok(Self::new(self.inner.clip(a_min, a_max)))
     }
 
     /// Round to the given number of decimals.
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 554ac40..112b3d6 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -288,6 +288,7 @@ pub fn argmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nansum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    pyarray::refuse_complex(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nansum_axis(0))),
@@ -305,6 +306,7 @@ pub fn nansum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanprod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    pyarray::refuse_complex(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanprod_axis(0))),
@@ -322,7 +324,7 @@ pub fn nanprod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyRes
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    pyarray::check_numeric(&x.inner)?;
+    pyarray::check_real(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanmean_axis(0))),
@@ -340,7 +342,7 @@ pub fn nanmean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyRes
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanvar(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    pyarray::check_numeric(&x.inner)?;
+    pyarray::check_real(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanvar_axis(0))),
@@ -358,7 +360,7 @@ pub fn nanvar(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanstd(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    pyarray::check_numeric(&x.inner)?;
+    pyarray::check_real(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanstd_axis(0))),
@@ -376,6 +378,7 @@ pub fn nanstd(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    pyarray::refuse_complex(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     pyarray::check_has_elements(&x.inner, axes.as_deref())?;
     match axes {
@@ -394,6 +397,7 @@ pub fn nanmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    pyarray::refuse_complex(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     pyarray::check_has_elements(&x.inner, axes.as_deref())?;
     match axes {
@@ -428,6 +432,7 @@ fn check_no_all_nan_slice(arr: &RumpyArray, axis: usize) -> PyResult<()> {
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanargmin(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::ReductionResult> {
+    pyarray::refuse_complex(&x.inner)?;
     match axis {
         None => {
             match x.inner.nanargmin() {
@@ -450,6 +455,7 @@ pub fn nanargmin(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::Red
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanargmax(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::ReductionResult> {
+    pyarray::refuse_complex(&x.inner)?;
     match axis {
         None => {
             match x.inner.nanargmax() {
@@ -558,7 +564,7 @@ pub fn cumulative_prod(x: &PyRumpyArray, axis: isize, include_initial: bool) ->
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn median(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    pyarray::check_numeric(&x.inner)?;
+    pyarray::check_real(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).median_axis(0))),
@@ -592,7 +598,12 @@ pub fn average(
             ));
         }
     }
+    let complex = x.inner.dtype().is_complex() || weights.is_some_and(|w| w.inner.dtype().is_complex());
     match axis {
+        None if complex => Ok(pyarray::ReductionResult::Element(match weights {
+            None => x.inner.mean_element(),
+            Some(w) => flattened(&x.inner).average_axis(0, Some(&flattened(&w.inner))),
+        })),
         None => {
             let weights_inner = weights.map(|w| &w.inner);
             Ok(pyarray::ReductionResult::Scalar(x.inner.average(weights_inner)))
@@ -833,6 +844,7 @@ pub fn corrcoef(x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 #[pyo3(signature = (x, minlength=0))]
 pub fn bincount(x: &PyRumpyArray, minlength: usize) -> PyResult<PyRumpyArray> {
+    pyarray::refuse_complex(&x.inner)?;
     crate::array::bincount(&x.inner, minlength)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("bincount requires 1D non-negative integer array"))
@@ -853,6 +865,7 @@ fn parse_q(q: &pyo3::Bound<'_, pyo3::PyAny>) -> PyResult<(Vec<f64>, bool)> {
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
 pub fn percentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    pyarray::refuse_complex(&a.inner)?;
     let (q_values, scalar_q) = parse_q(q)?;
     let axis = axis.map(|ax| {
         let ax = resolve_axis(ax, a.inner.ndim());
@@ -875,6 +888,7 @@ pub fn percentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Opti
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
 pub fn quantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    pyarray::refuse_complex(&a.inner)?;
     let (q_values, scalar_q) = parse_q(q)?;
     let axis = axis.map(|ax| {
         let ax = resolve_axis(ax, a.inner.ndim());
@@ -935,6 +949,7 @@ pub fn amin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmedian(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    pyarray::refuse_complex(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanmedian_axis(0))),
@@ -952,6 +967,7 @@ pub fn nanmedian(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyR
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
 pub fn nanpercentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    pyarray::refuse_complex(&a.inner)?;
     let (q_values, scalar_q) = parse_q(q)?;
     let axis = axis.map(|ax| {
         let ax = resolve_axis(ax, a.inner.ndim());
@@ -974,6 +990,7 @@ pub fn nanpercentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: O
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
 pub fn nanquantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    pyarray::refuse_complex(&a.inner)?;
     let (q_values, scalar_q) = parse_q(q)?;
     let axis = axis.map(|ax| {
         let ax = resolve_axis(ax, a.inner.ndim());
@@ -999,6 +1016,7 @@ pub fn nanquantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Opt
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nancumsum(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    pyarray::refuse_complex(&x.inner)?;
     let normalized_axis = axis.map(|ax| {
         let ax = resolve_axis(ax, x.inner.ndim());
         check_axis(ax, x.inner.ndim()).map(|_| ax)
@@ -1010,6 +1028,7 @@ pub fn nancumsum(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nancumprod(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    pyarray::refuse_complex(&x.inner)?;
     let normalized_axis = axis.map(|ax| {
         let ax = resolve_axis(ax, x.inner.ndim());
         check_axis(ax, x.inner.ndim()).map(|_| ax)
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index fb782f4..a0d173a 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -738,8 +738,9 @@ pub fn right_shift(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArra
 /// Clip (limit) values in an array.
 #[pyfunction]
 #[pyo3(signature = (x, a_min=None, a_max=None))]
-pub fn clip(x: &PyRumpyArray, a_min: Option<f64>, a_max: Option<f64>) -> PyRumpyArray {
-    PyRumpyArray::new(x.inner.clip(a_min, a_max))
+pub fn clip(x: &PyRumpyArray, a_min: Option<f64>, a_max: Option<f64>) -> PyResult<PyRumpyArray> {
+    super::pyarray::refuse_complex(&x.inner)?;
+    Ok(PyRumpyArray::new(x.inner.clip(a_min, a_max)))
 }
 
 #[pyfunction]
@@ -754,34 +755,39 @@ pub fn round(x: &PyRumpyArray, decimals: i32) -> PyRumpyArray {
 
 /// Compute the normalized sinc function: sin(pi*x) / (pi*x).
 #[pyfunction]
-pub fn sinc(x: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::sinc(&x.inner))
+pub fn sinc(x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    super::pyarray::refuse_complex(&x.inner)?;
+    Ok(PyRumpyArray::new(crate::ops::sinc(&x.inner)))
 }
 
 /// Compute the modified Bessel function of the first kind, order 0.
 #[pyfunction]
-pub fn i0(x: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::i0(&x.inner))
+pub fn i0(x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    super::pyarray::refuse_complex(&x.inner)?;
+    Ok(PyRumpyArray::new(crate::ops::i0(&x.inner)))
 }
 
 /// Compute spacing (ULP) for floating point values.
 #[pyfunction]
-pub fn spacing(x: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::spacing(&x.inner))
+pub fn spacing(x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    super::pyarray::refuse_complex(&x.inner)?;
+    Ok(PyRumpyArray::new(crate::ops::spacing(&x.inner)))
 }
 
 /// Compute modf: return (fractional part, integer part).
 #[pyfunction]
-pub fn modf(x: &PyRumpyArray) -> (PyRumpyArray, PyRumpyArray) {
+pub fn modf(x: &PyRumpyArray) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
+    super::pyarray::refuse_complex(&x.inner)?;
     let (frac, int) = crate::ops::modf(&x.inner);
-    (PyRumpyArray::new(frac), PyRumpyArray::new(int))
+    Ok((PyRumpyArray::new(frac), PyRumpyArray::new(int)))
 }
 
 /// Compute frexp: decompose x into (mantissa, exponent) where x = mantissa * 2^exponent.
 #[pyfunction]
-pub fn frexp(x: &PyRumpyArray) -> (PyRumpyArray, PyRumpyArray) {
+pub fn frexp(x: &PyRumpyArray) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
+    super::pyarray::refuse_complex(&x.inner)?;
     let (mant, exp) = crate::ops::frexp(&x.inner);
-    (PyRumpyArray::new(mant), PyRumpyArray::new(exp))
+    Ok((PyRumpyArray::new(mant), PyRumpyArray::new(exp)))
 }
 
 /// Compute ldexp: x * 2^i.
-- 
2.43.0


From 281d244fab49174a080f00490e7789f15a8fbffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:14 +0000
Subject: [PATCH 54/81] fix: vectorize and frompyfunc hand over the elements as
 they are, keep the results' dtype and broadcast core operands

---
 src/python/functional.rs | 64 ++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/python/functional.rs b/src/python/functional.rs
index 537912c..3539942 100644
--- a/src/python/functional.rs
+++ b/src/python/functional.rs
@@ -318,8 +318,7 @@ impl PyVectorize {
                     scalar_idx += 1;
                 } else if arr_idx < broadcasted.len() {
                     // Get element from broadcasted array
-                    let val = broadcasted[arr_idx].get_element(&indices);
-                    call_args.push(val.into_pyobject(py)?.unbind().into_any());
+                    call_args.push(broadcasted[arr_idx].element_to_py(py, &indices)?);
                     arr_idx += 1;
                 }
             }
@@ -329,20 +328,7 @@ impl PyVectorize {
             results.push(result.unbind());
         }
 
-        // Build output array
-        let dtype = if let Some(ref otypes) = self.otypes {
-            otypes[0].clone()
-        } else {
-            // Infer from first result
-            DType::float64()
-        };
-
-        let mut out_data: Vec<f64> = Vec::with_capacity(size);
-        for r in results {
-            out_data.push(r.bind(py).extract::<f64>()?);
-        }
-
-        let out = RumpyArray::from_vec(out_data, dtype);
+        let out = self.output_array(py, &results)?;
         let out = out.reshape(broadcast_shape).ok_or_else(||
             pyo3::exceptions::PyValueError::new_err("reshape failed")
         )?;
@@ -351,6 +337,23 @@ impl PyVectorize {
 }
 
 impl PyVectorize {
+    /// The results as a vector: of the requested dtype, or of the first result's.
+    fn output_array(&self, py: Python<'_>, results: &[PyObject]) -> PyResult<RumpyArray> {
+        let requested = self.otypes.as_ref().and_then(|otypes| otypes.first().cloned());
+        let Some(first) = results.first() else {
+            return Ok(RumpyArray::zeros(vec![0], requested.unwrap_or(DType::float64())));
+        };
+        let all = result_array(py, PyList::new(py, results.iter().map(|r| r.bind(py)))?.as_any())?;
+        let dtype = match requested {
+            Some(dtype) => dtype,
+            None => result_array(py, first.bind(py))?.dtype(),
+        };
+        if dtype == all.dtype() || !(dtype.is_numeric() && all.dtype().is_numeric()) {
+            return Ok(all);
+        }
+        Ok(all.astype(dtype))
+    }
+
     fn call_with_signature(
         &self,
         py: Python<'_>,
@@ -407,7 +410,17 @@ impl PyVectorize {
                 vec![]
             };
 
-            let out_size: usize = out_shape.iter().product::<usize>().max(1);
+            let out_size: usize = out_shape.iter().product();
+
+            // Every operand takes part in every outer iteration
+            let lanes: Vec<RumpyArray> = arrays.iter()
+                .map(|arr| {
+                    let mut full = out_shape.clone();
+                    full.extend(arr.inner.shape().last());
+                    arr.inner.broadcast_to(&full)
+                })
+                .collect::<Option<_>>()
+                .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))?;
 
             let mut results: Vec<f64> = Vec::with_capacity(out_size);
 
@@ -422,15 +435,11 @@ impl PyVectorize {
                     flat_to_indices(i, &out_shape)
                 };
 
-                for arr in &arrays {
-                    let last_axis = arr.inner.ndim().saturating_sub(1);
-                    let slice_data = if other_indices.is_empty() {
-                        // 1D array - just convert to vec
-                        arr.inner.to_vec()
-                    } else {
-                        arr.inner.get_slice_along_axis(last_axis, &other_indices)
-                    };
-                    let slice_arr = RumpyArray::from_vec(slice_data, arr.inner.dtype());
+                for arr in &lanes {
+                    let strides = arr.strides();
+                    let offset = other_indices.iter().zip(strides).map(|(&i, &s)| i as isize * s).sum();
+                    let axis = out_shape.len();
+                    let slice_arr = arr.view_with(offset, arr.shape()[axis..].to_vec(), strides[axis..].to_vec()).copy();
                     call_args.push(PyRumpyArray::new(slice_arr).into_pyobject(py)?.into_any());
                 }
 
@@ -553,8 +562,7 @@ impl PyFrompyfunc {
 
             for (j, maybe_arr) in broadcasted.iter().enumerate() {
                 if let Some(arr) = maybe_arr {
-                    let val = arr.get_element(&indices);
-                    call_args.push(val.into_pyobject(py)?.unbind().into_any());
+                    call_args.push(arr.element_to_py(py, &indices)?);
                 } else {
                     // Use original scalar
                     call_args.push(args.get_item(j)?.unbind());
-- 
2.43.0


From dde88bc34c89775a6c6562ec18e352a82180ec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 55/81] fix: lists of arrays stack keeping their dtype;
 float_power takes NumPy arrays and 0-d operands

---
 src/python/creation.rs | 49 +++++++++++++++++++++++++++++++++++++-
 src/python/ufuncs.rs   | 54 ++++++++++++++++--------------------------
 2 files changed, 68 insertions(+), 35 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index ce547ed..5c910a9 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -576,9 +576,13 @@ fn infer_dtype(leaves: &[Bound<'_, PyAny>]) -> PyResult<DType> {
     Ok(typed.map_or(plain.clone(), |t| crate::array::promote_dtype(&t, &plain)))
 }
 
-/// A NumPy scalar other than text.
+/// A NumPy scalar or 0-d array other than text.
 fn text_free_numpy_scalar(leaf: &Bound<'_, PyAny>) -> PyResult<Option<RumpyArray>> {
     use crate::array::dtype::DTypeKind;
+    if let Ok(arr) = leaf.extract::<PyRef<'_, PyRumpyArray>>() {
+        return Ok(Some(arr.inner.clone())
+            .filter(|a| a.ndim() == 0 && !matches!(a.dtype().kind(), DTypeKind::Str(_) | DTypeKind::Bytes(_))));
+    }
     Ok(super::pyarray::numpy_scalar(leaf)?
         .filter(|s| !matches!(s.dtype().kind(), DTypeKind::Str(_) | DTypeKind::Bytes(_))))
 }
@@ -600,10 +604,53 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
     from_sequence(list.as_any(), dtype)
 }
 
+/// A sequence holding arrays (of one dimension or more) becomes their stack.
+fn stack_arrays(seq: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<Option<PyRumpyArray>> {
+    let children: Vec<Bound<'_, PyAny>> = seq.try_iter()?.collect::<PyResult<_>>()?;
+    let is_sequence = |c: &Bound<'_, PyAny>| c.is_instance_of::<PyList>() || c.is_instance_of::<pyo3::types::PyTuple>();
+    let is_array = |c: &Bound<'_, PyAny>| -> PyResult<bool> {
+        Ok(!c.is_exact_instance_of::<pyo3::types::PyFloat>()
+            && !c.is_exact_instance_of::<pyo3::types::PyInt>()
+            && !is_sequence(c)
+            && c.hasattr("__array_interface__")?
+            && c.getattr("ndim").and_then(|n| n.extract::<usize>()).is_ok_and(|n| n > 0))
+    };
+    fn any_deep<'py>(c: &Bound<'py, PyAny>, found: &dyn Fn(&Bound<'py, PyAny>) -> PyResult<bool>) -> PyResult<bool> {
+        if c.is_instance_of::<PyList>() || c.is_instance_of::<pyo3::types::PyTuple>() {
+            for item in c.try_iter()? {
+                if any_deep(&item?, found)? {
+                    return Ok(true);
+                }
+            }
+            return Ok(false);
+        }
+        found(c)
+    }
+    if !any_deep(seq, &is_array)? {
+        return Ok(None);
+    }
+
+    let inhomogeneous = || pyo3::exceptions::PyValueError::new_err(
+        "setting an array element with a sequence: the nested sequences have an inhomogeneous shape",
+    );
+    let mut arrays = Vec::with_capacity(children.len());
+    for child in &children {
+        if !is_sequence(child) && !is_array(child)? {
+            return Err(inhomogeneous());
+        }
+        arrays.push(array_impl(seq.py(), child, dtype)?.inner);
+    }
+    crate::array::stack(&arrays, 0).map(PyRumpyArray::new).map(Some).ok_or_else(inhomogeneous)
+}
+
 /// Create array from a (nested) Python list or tuple.
 fn from_sequence(seq: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     use crate::array::dtype::{DTypeKind, parse_datetime64};
 
+    if let Some(stacked) = stack_arrays(seq, dtype)? {
+        return Ok(stacked);
+    }
+
     let mut leaves = Vec::new();
     let shape = collect_leaves(seq, &mut leaves)?;
     let dtype = match dtype {
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index a0d173a..8d51e81 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -906,6 +906,24 @@ pub fn fabs(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
 // Stream 38: Additional Math
 // ============================================================================
 
+/// Operand of float_power: an array, a NumPy array or scalar, a number or a list of numbers.
+fn float_power_operand(x: &Bound<'_, PyAny>) -> PyResult<RumpyArray> {
+    if let Ok(arr) = x.extract::<PyRef<'_, PyRumpyArray>>() {
+        return Ok(arr.inner.clone());
+    }
+    if let Some(arr) = super::pyarray::numpy_operand(x)? {
+        return Ok(arr);
+    }
+    if let Ok(scalar) = x.extract::<f64>() {
+        return Ok(RumpyArray::full(vec![], scalar, DType::float64()));
+    }
+    let list = x.extract::<Vec<f64>>().map_err(|_| pyo3::exceptions::PyTypeError::new_err(
+        "operand must be ndarray, number, or sequence",
+    ))?;
+    let n = list.len();
+    Ok(RumpyArray::from_vec_with_shape(list, vec![n], DType::float64()))
+}
+
 /// Element-wise power, always returning float64 (or complex128 for complex inputs).
 /// Unlike regular power(), float_power() always produces floating point output.
 /// Uses dtype-generic dispatch that converts inline without intermediate allocations.
@@ -913,40 +931,8 @@ pub fn fabs(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
 pub fn float_power(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<PyRumpyArray> {
     use crate::ops::dispatch;
 
-    // Extract arrays (convert scalars/lists to arrays)
-    let arr1 = if let Ok(arr) = x1.extract::<PyRef<'_, PyRumpyArray>>() {
-        arr.inner.clone()
-    } else if let Ok(scalar) = x1.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, DType::float64())
-    } else if let Ok(list) = x1.extract::<Vec<f64>>() {
-        let mut arr = RumpyArray::zeros(vec![list.len()], DType::float64());
-        let ptr = arr.data_ptr_mut() as *mut f64;
-        for (i, &v) in list.iter().enumerate() {
-            unsafe { *ptr.add(i) = v; }
-        }
-        arr
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "operand must be ndarray, number, or sequence",
-        ));
-    };
-
-    let arr2 = if let Ok(arr) = x2.extract::<PyRef<'_, PyRumpyArray>>() {
-        arr.inner.clone()
-    } else if let Ok(scalar) = x2.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, DType::float64())
-    } else if let Ok(list) = x2.extract::<Vec<f64>>() {
-        let mut arr = RumpyArray::zeros(vec![list.len()], DType::float64());
-        let ptr = arr.data_ptr_mut() as *mut f64;
-        for (i, &v) in list.iter().enumerate() {
-            unsafe { *ptr.add(i) = v; }
-        }
-        arr
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "operand must be ndarray, number, or sequence",
-        ));
-    };
+    let arr1 = float_power_operand(x1)?;
+    let arr2 = float_power_operand(x2)?;
 
     // Broadcast shapes
     let out_shape = crate::array::broadcast_shapes(arr1.shape(), arr2.shape())
-- 
2.43.0


From a3e6b9f53992ffd64aef3c05494a4db1185d48f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 56/81] fix: a row that does not vary has no correlation with
 itself

---
 src/ops/statistics.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index a046915..54e6711 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -242,11 +242,8 @@ pub fn corrcoef(arr: &RumpyArray) -> RumpyArray {
         for j in 0..nvars {
             let std_j = diag.get_element(&[j]).sqrt();
             let cov_ij = cov_matrix.get_element(&[i, j]);
-            let corr = if std_i == 0.0 || std_j == 0.0 {
-                if i == j { 1.0 } else { f64::NAN }
-            } else {
-                cov_ij / (std_i * std_j)
-            };
+            // A row that does not vary has no correlation, not even with itself
+            let corr = (cov_ij / std_i / std_j).clamp(-1.0, 1.0);
             unsafe { *result_ptr.add(i * nvars + j) = corr; }
         }
     }
-- 
2.43.0


From 73846805c8bea3fd532010a01c8cc835ae095332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:33 +0000
Subject: [PATCH 57/81] fix: NaN-aware reductions of complex arrays skip NaN in
 both parts; infinities are not taken for NaN

---
 src/ops/array_methods/cumulative.rs |  6 +++
 src/ops/array_methods/reductions.rs | 71 ++++++++++++++++++++++++++++-
 src/ops/kernels/arithmetic.rs       | 12 +++--
 src/python/reductions.rs            | 12 ++---
 4 files changed, 86 insertions(+), 15 deletions(-)

diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index da1ae44..97468c0 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -458,11 +458,17 @@ impl RumpyArray {
 
     /// NaN-aware cumulative sum: NaN values are treated as zero.
     pub fn nancumsum(&self, axis: Option<usize>) -> RumpyArray {
+        if self.dtype().is_complex() {
+            return self.replace_complex_nan(0.0, 0.0).cumsum(axis);
+        }
         self.nan_cumulative_op(axis, 0.0, |acc, x| acc + x)
     }
 
     /// NaN-aware cumulative product: NaN values are treated as one.
     pub fn nancumprod(&self, axis: Option<usize>) -> RumpyArray {
+        if self.dtype().is_complex() {
+            return self.replace_complex_nan(1.0, 0.0).cumprod(axis);
+        }
         self.nan_cumulative_op(axis, 1.0, |acc, x| acc * x)
     }
 }
diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 4eb7d00..895cb5f 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -736,6 +736,31 @@ impl RumpyArray {
             | DTypeKind::Complex64 | DTypeKind::Complex128)
     }
 
+    /// A copy of a complex array with other elements where a part is NaN.
+    pub(crate) fn replace_complex_nan(&self, re: f64, im: f64) -> RumpyArray {
+        let dtype = self.dtype();
+        let ops = dtype.ops();
+        let mut result = RumpyArray::zeros(self.shape().to_vec(), dtype.clone());
+        let out = Arc::get_mut(result.buffer_mut()).expect("unique").as_mut_ptr();
+        for (i, offset) in self.iter_offsets().enumerate() {
+            let (a, b) = unsafe { ops.read_complex(self.data_ptr(), offset) }.unwrap_or((0.0, 0.0));
+            let (a, b) = if a.is_nan() || b.is_nan() { (re, im) } else { (a, b) };
+            unsafe { ops.write_complex(out, i, a, b); }
+        }
+        result
+    }
+
+    /// Fold the slices along an axis of a complex array that has elements.
+    fn fold_axis(&self, axis: usize, op: BinaryOp) -> RumpyArray {
+        let (mut shape, mut strides) = (self.shape().to_vec(), self.strides().to_vec());
+        let n = shape.remove(axis);
+        let step = strides.remove(axis);
+        (1..n as isize).fold(self.view_with(0, shape.clone(), strides.clone()).copy(), |acc, j| {
+            let slice = self.view_with(j * step, shape.clone(), strides.clone());
+            acc.binary_op(&slice, op).expect("same shape")
+        })
+    }
+
     /// Dtype of a floating-point statistic of this array.
     pub(crate) fn float_result_dtype(&self) -> DType {
         match self.dtype().kind() {
@@ -792,6 +817,9 @@ impl RumpyArray {
         if !self.can_hold_nan() {
             return self.sum_axis(axis);
         }
+        if self.dtype().is_complex() {
+            return self.replace_complex_nan(0.0, 0.0).sum_axis(axis);
+        }
         dispatch::dispatch_nan_reduce_axis_sum(self, axis).unwrap_or_else(|| {
             self.nan_reduce_axis(axis, self.dtype(), |indices, ax, len| {
                 let mut sum = 0.0;
@@ -820,6 +848,9 @@ impl RumpyArray {
         if !self.can_hold_nan() {
             return self.prod_axis(axis);
         }
+        if self.dtype().is_complex() {
+            return self.replace_complex_nan(1.0, 0.0).prod_axis(axis);
+        }
         dispatch::dispatch_nan_reduce_axis_prod(self, axis).unwrap_or_else(|| {
             self.nan_reduce_axis(axis, self.dtype(), |indices, ax, len| {
                 let mut prod = 1.0;
@@ -857,6 +888,19 @@ impl RumpyArray {
 
     /// Mean along axis, ignoring NaN values.
     pub fn nanmean_axis(&self, axis: usize) -> RumpyArray {
+        if self.dtype().is_complex() {
+            let known = self.replace_complex_nan(f64::NAN, f64::NAN);
+            let (re, im) = (known.real().nanmean_axis(axis), known.imag().nanmean_axis(axis));
+            let (re, im) = (re.to_vec(), im.to_vec());
+            let mut shape = self.shape().to_vec();
+            shape.remove(axis);
+            let mut result = RumpyArray::zeros(shape, self.dtype());
+            let out = Arc::get_mut(result.buffer_mut()).expect("unique").as_mut_ptr();
+            for (i, (a, b)) in re.into_iter().zip(im).enumerate() {
+                unsafe { self.dtype().ops().write_complex(out, i, a, b); }
+            }
+            return result;
+        }
         self.nan_reduce_axis(axis, self.float_result_dtype(), |indices, ax, len| {
             let mut sum = 0.0;
             let mut count = 0usize;
@@ -896,6 +940,11 @@ impl RumpyArray {
 
     /// Variance along axis, ignoring NaN values.
     pub fn nanvar_axis(&self, axis: usize) -> RumpyArray {
+        if self.dtype().is_complex() {
+            let known = self.replace_complex_nan(f64::NAN, f64::NAN);
+            let (re, im) = (known.real().nanvar_axis(axis), known.imag().nanvar_axis(axis));
+            return re.binary_op(&im, BinaryOp::Add).expect("same shape");
+        }
         self.nan_reduce_axis(axis, self.float_result_dtype(), |indices, ax, len| {
             // Two-pass: mean then variance
             let mut sum = 0.0;
@@ -954,6 +1003,9 @@ impl RumpyArray {
         if !self.can_hold_nan() {
             return self.min_axis(axis);
         }
+        if self.dtype().is_complex() {
+            return self.fold_axis(axis, BinaryOp::FMin);
+        }
         dispatch::dispatch_nan_reduce_axis_min(self, axis).unwrap_or_else(|| {
             self.nan_reduce_axis(axis, self.dtype(), |indices, ax, len| {
                 let mut min_val = f64::INFINITY;
@@ -989,6 +1041,9 @@ impl RumpyArray {
         if !self.can_hold_nan() {
             return self.max_axis(axis);
         }
+        if self.dtype().is_complex() {
+            return self.fold_axis(axis, BinaryOp::FMax);
+        }
         dispatch::dispatch_nan_reduce_axis_max(self, axis).unwrap_or_else(|| {
             self.nan_reduce_axis(axis, self.dtype(), |indices, ax, len| {
                 let mut max_val = f64::NEG_INFINITY;
@@ -1015,11 +1070,14 @@ impl RumpyArray {
         let ptr = self.data_ptr();
         let dtype = self.dtype();
         let ops = dtype.ops();
+        if !self.can_hold_nan() {
+            return Some(self.argmin());
+        }
         let mut min_val = f64::INFINITY;
         let mut min_idx: Option<usize> = None;
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if !val.is_nan() && val < min_val {
+            if !val.is_nan() && (min_idx.is_none() || val < min_val) {
                 min_val = val;
                 min_idx = Some(i);
             }
@@ -1029,6 +1087,9 @@ impl RumpyArray {
 
     /// Index of minimum element along axis, ignoring NaN values.
     pub fn nanargmin_axis(&self, axis: usize) -> RumpyArray {
+        if !self.can_hold_nan() {
+            return self.argmin_axis(axis);
+        }
         self.nan_arg_reduce_axis(axis, |a, b| a < b)
     }
 
@@ -1041,11 +1102,14 @@ impl RumpyArray {
         let ptr = self.data_ptr();
         let dtype = self.dtype();
         let ops = dtype.ops();
+        if !self.can_hold_nan() {
+            return Some(self.argmax());
+        }
         let mut max_val = f64::NEG_INFINITY;
         let mut max_idx: Option<usize> = None;
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if !val.is_nan() && val > max_val {
+            if !val.is_nan() && (max_idx.is_none() || val > max_val) {
                 max_val = val;
                 max_idx = Some(i);
             }
@@ -1055,6 +1119,9 @@ impl RumpyArray {
 
     /// Index of maximum element along axis, ignoring NaN values.
     pub fn nanargmax_axis(&self, axis: usize) -> RumpyArray {
+        if !self.can_hold_nan() {
+            return self.argmax_axis(axis);
+        }
         self.nan_arg_reduce_axis(axis, |a, b| a > b)
     }
 
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index 9eeda35..685cb4f 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -274,6 +274,9 @@ macro_rules! impl_nan_reduce {
             fn combine(acc: $T, v: $T) -> $T {
                 if v.is_nan() { acc } else { acc + v }
             }
+            // NaN in a partial result does not come from an element
+            #[inline(always)]
+            fn merge(a: $T, b: $T) -> $T { a + b }
         }
         impl ReduceKernel<$T> for NanProd {
             #[inline(always)]
@@ -282,6 +285,9 @@ macro_rules! impl_nan_reduce {
             fn combine(acc: $T, v: $T) -> $T {
                 if v.is_nan() { acc } else { acc * v }
             }
+            // NaN in a partial result does not come from an element
+            #[inline(always)]
+            fn merge(a: $T, b: $T) -> $T { a * b }
         }
         impl ReduceKernel<$T> for NanMax {
             #[inline(always)]
@@ -651,9 +657,8 @@ macro_rules! impl_complex_arithmetic {
                 // Ignore NaN
                 let a_nan = a.re.is_nan() || a.im.is_nan();
                 let b_nan = b.re.is_nan() || b.im.is_nan();
-                if a_nan && b_nan { Complex::new(<$F>::NAN, <$F>::NAN) }
+                if b_nan { a }
                 else if a_nan { b }
-                else if b_nan { a }
                 else if a.re > b.re || (a.re == b.re && a.im >= b.im) { a } else { b }
             }
         }
@@ -663,9 +668,8 @@ macro_rules! impl_complex_arithmetic {
                 // Ignore NaN
                 let a_nan = a.re.is_nan() || a.im.is_nan();
                 let b_nan = b.re.is_nan() || b.im.is_nan();
-                if a_nan && b_nan { Complex::new(<$F>::NAN, <$F>::NAN) }
+                if b_nan { a }
                 else if a_nan { b }
-                else if b_nan { a }
                 else if a.re < b.re || (a.re == b.re && a.im <= b.im) { a } else { b }
             }
         }
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 112b3d6..a1a8850 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -288,7 +288,6 @@ pub fn argmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nansum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    pyarray::refuse_complex(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nansum_axis(0))),
@@ -306,7 +305,6 @@ pub fn nansum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanprod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    pyarray::refuse_complex(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanprod_axis(0))),
@@ -324,7 +322,7 @@ pub fn nanprod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyRes
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    pyarray::check_real(&x.inner)?;
+    pyarray::check_numeric(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanmean_axis(0))),
@@ -342,7 +340,7 @@ pub fn nanmean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyRes
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanvar(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    pyarray::check_real(&x.inner)?;
+    pyarray::check_numeric(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanvar_axis(0))),
@@ -360,7 +358,7 @@ pub fn nanvar(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanstd(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    pyarray::check_real(&x.inner)?;
+    pyarray::check_numeric(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Element(flattened(&x.inner).nanstd_axis(0))),
@@ -378,7 +376,6 @@ pub fn nanstd(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    pyarray::refuse_complex(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     pyarray::check_has_elements(&x.inner, axes.as_deref())?;
     match axes {
@@ -397,7 +394,6 @@ pub fn nanmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    pyarray::refuse_complex(&x.inner)?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     pyarray::check_has_elements(&x.inner, axes.as_deref())?;
     match axes {
@@ -1016,7 +1012,6 @@ pub fn nanquantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Opt
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nancumsum(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
-    pyarray::refuse_complex(&x.inner)?;
     let normalized_axis = axis.map(|ax| {
         let ax = resolve_axis(ax, x.inner.ndim());
         check_axis(ax, x.inner.ndim()).map(|_| ax)
@@ -1028,7 +1023,6 @@ pub fn nancumsum(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nancumprod(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
-    pyarray::refuse_complex(&x.inner)?;
     let normalized_axis = axis.map(|ax| {
         let ax = resolve_axis(ax, x.inner.ndim());
         check_axis(ax, x.inner.ndim()).map(|_| ax)
-- 
2.43.0


From da7eeaa83a7ff1ca3c15e713fddd3d8657a8432c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:05 +0000
Subject: [PATCH 58/81] fix: polyfit decides whether the matrix is
 near-singular on columns of unit length

---
 src/ops/poly.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/ops/poly.rs b/src/ops/poly.rs
index 77f7563..da63ddb 100644
--- a/src/ops/poly.rs
+++ b/src/ops/poly.rs
@@ -185,6 +185,22 @@ pub fn polyfit(x: &RumpyArray, y: &RumpyArray, deg: usize, w: Option<&RumpyArray
         (vander, y_col)
     };
 
+    // Bring the columns to the same length, so that whether the matrix is
+    // near-singular does not depend on the scale of x
+    let scales: Vec<f64> = (0..cols)
+        .map(|j| {
+            let norm = (0..n).fold(0.0f64, |acc, i| acc.hypot(vander_w.get_element(&[i, j])));
+            if norm == 0.0 { 1.0 } else { norm }
+        })
+        .collect();
+    let mut scaled = Vec::with_capacity(n * cols);
+    for i in 0..n {
+        for (j, scale) in scales.iter().enumerate() {
+            scaled.push(vander_w.get_element(&[i, j]) / scale);
+        }
+    }
+    let vander_w = RumpyArray::from_vec(scaled, DType::float64()).reshape(vec![n, cols])?;
+
     // Solve via least squares: (V^T V) c = V^T y
     // Using QR: V = QR, then R c = Q^T y
     let (q, r) = linalg::qr(&vander_w)?;
@@ -207,6 +223,9 @@ pub fn polyfit(x: &RumpyArray, y: &RumpyArray, deg: usize, w: Option<&RumpyArray
             coeffs[i] = sum / r_ii;
         }
     }
+    for (coeff, scale) in coeffs.iter_mut().zip(&scales) {
+        *coeff /= scale;
+    }
 
     Some(RumpyArray::from_vec(coeffs, DType::float64()))
 }
-- 
2.43.0


From 6612da459f24c886e7e4ed3abff3e447ea7c7838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:06 +0000
Subject: [PATCH 59/81] fix: frompyfunc keeps each result as one object

---
 src/python/functional.rs | 44 +++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/python/functional.rs b/src/python/functional.rs
index 3539942..d467d47 100644
--- a/src/python/functional.rs
+++ b/src/python/functional.rs
@@ -577,6 +577,11 @@ impl PyFrompyfunc {
             } else {
                 // Multiple outputs - unpack tuple
                 let result_tuple = result.downcast::<PyTuple>()?;
+                if result_tuple.len() != self.nout {
+                    return Err(pyo3::exceptions::PyValueError::new_err(format!(
+                        "expected {} outputs from the function, got {}", self.nout, result_tuple.len()
+                    )));
+                }
                 for (k, item) in result_tuple.iter().enumerate() {
                     if k < self.nout {
                         all_results[k].push(item.unbind());
@@ -586,35 +591,32 @@ impl PyFrompyfunc {
         }
 
         // Build output arrays (object dtype like numpy)
+        let mut out_arrays: Vec<Bound<'_, PyAny>> = Vec::with_capacity(self.nout);
+        for results in all_results {
+            out_arrays.push(object_array(py, results, &broadcast_shape)?);
+        }
         if self.nout == 1 {
-            let out_list = PyList::new(py, all_results[0].iter().map(|r| r.bind(py)))?;
-            let numpy = py.import("numpy")?;
-            let np_arr = numpy.call_method1("array", (out_list,))?;
-            if broadcast_shape.len() > 1 {
-                let np_reshaped = np_arr.call_method1("reshape", (broadcast_shape.clone(),))?;
-                Ok(np_reshaped.unbind())
-            } else {
-                Ok(np_arr.unbind())
-            }
+            Ok(out_arrays.remove(0).unbind())
         } else {
             // Multiple outputs - return tuple of arrays
-            let mut out_arrays: Vec<Bound<'_, PyAny>> = Vec::with_capacity(self.nout);
-            for results in all_results {
-                let out_list = PyList::new(py, results.iter().map(|r| r.bind(py)))?;
-                let numpy = py.import("numpy")?;
-                let np_arr = numpy.call_method1("array", (out_list,))?;
-                if broadcast_shape.len() > 1 {
-                    let np_reshaped = np_arr.call_method1("reshape", (broadcast_shape.clone(),))?;
-                    out_arrays.push(np_reshaped);
-                } else {
-                    out_arrays.push(np_arr);
-                }
-            }
             Ok(PyTuple::new(py, out_arrays)?.into_any().unbind())
         }
     }
 }
 
+/// NumPy object array holding each result as it is, sequences included.
+fn object_array<'py>(py: Python<'py>, results: Vec<PyObject>, shape: &[usize]) -> PyResult<Bound<'py, PyAny>> {
+    let out = py.import("numpy")?.call_method1("empty", (results.len(), "O"))?;
+    for (i, item) in results.into_iter().enumerate() {
+        out.set_item(i, item)?;
+    }
+    if shape.len() > 1 {
+        out.call_method1("reshape", (shape.to_vec(),))
+    } else {
+        Ok(out)
+    }
+}
+
 /// Convenience function to create vectorize object.
 #[pyfunction]
 #[pyo3(signature = (pyfunc, otypes=None, excluded=None, signature=None))]
-- 
2.43.0


From 9d4d247a1b1cde89e7cc8a460790b573c1eba8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:45 +0000
Subject: [PATCH 60/81] fix: text that is no date is refused, not read as some
 date or NaT

---
 src/array/dtype/datetime64.rs | 168 +++++++++++++++++++++-------------
 src/python/creation.rs        |   4 +-
 src/python/datetime.rs        |  18 ++--
 3 files changed, 118 insertions(+), 72 deletions(-)

diff --git a/src/array/dtype/datetime64.rs b/src/array/dtype/datetime64.rs
index bd5b7c6..40780bb 100644
--- a/src/array/dtype/datetime64.rs
+++ b/src/array/dtype/datetime64.rs
@@ -599,82 +599,120 @@ pub fn ymd_to_days(year: i64, month: i64, day: i64) -> i64 {
 }
 
 /// Parse an ISO 8601 datetime string to a value in the given unit.
-/// Returns NAT on parse error.
-pub fn parse_datetime64(s: &str, unit: TimeUnit) -> i64 {
-    if s == "NaT" || s == "nat" {
-        return NAT;
+/// None where the text is no date, or one the unit cannot represent.
+pub fn parse_datetime64(s: &str, unit: TimeUnit) -> Option<i64> {
+    let s = s.trim_start();
+    if s.is_empty() || s.eq_ignore_ascii_case("nat") {
+        return Some(NAT);
+    }
+
+    // Date: YYYY or YYYY-MM or YYYY-MM-DD, the year with an optional sign
+    let (negative, rest) = match s.as_bytes()[0] {
+        b'-' => (true, &s[1..]),
+        b'+' => (false, &s[1..]),
+        _ => (false, s),
+    };
+    let digits = rest.bytes().take_while(u8::is_ascii_digit).count();
+    if digits == 0 || digits > 15 {
+        return None;
+    }
+    let year: i64 = rest[..digits].parse().ok()?;
+    let year = if negative { -year } else { year };
+    let rest = &rest[digits..];
+    let (month, rest, dated) = match rest.strip_prefix('-') {
+        Some(rest) => (two_digits(rest)?, &rest[2..], true),
+        None => (1, rest, false),
+    };
+    let (day, rest, dated) = match rest.strip_prefix('-') {
+        Some(rest) if dated => (two_digits(rest)?, &rest[2..], true),
+        _ => (1, rest, false),
+    };
+    if !(1..=12).contains(&month) {
+        return None;
+    }
+    let (next_year, next_month) = if month == 12 { (year + 1, 1) } else { (year, month + 1) };
+    let month_start = ymd_to_days(year, month, 1);
+    let days = month_start + day - 1;
+    if day < 1 || days >= ymd_to_days(next_year, next_month, 1) {
+        return None;
     }
 
-    // Parse YYYY-MM-DDTHH:MM:SS.sss format
-    // Minimum is YYYY
-    let parts: Vec<&str> = s.split('T').collect();
-    let date_part = parts[0];
-    let time_part = parts.get(1).copied();
-
-    // Parse date: YYYY or YYYY-MM or YYYY-MM-DD
-    let date_parts: Vec<&str> = date_part.split('-').collect();
-    let year: i64 = match date_parts.first().and_then(|s| s.parse().ok()) {
-        Some(y) => y,
-        None => return NAT,
+    // Time, if present: HH[:MM[:SS[.fraction]]] and possibly a zone
+    let nanos_of_day = match rest.strip_prefix(['T', ' ']) {
+        Some(rest) if dated => parse_time_part(rest)?,
+        _ if rest.is_empty() => 0,
+        _ => return None,
     };
-    let month: i64 = date_parts.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
-    let day: i64 = date_parts.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
-
-    // Calculate days since epoch
-    let days = ymd_to_days(year, month, day);
 
-    // Parse time if present
-    let (hours, minutes, seconds, nanos) = if let Some(time_str) = time_part {
-        parse_time_part(time_str)
-    } else {
-        (0, 0, 0, 0)
+    // Convert to target unit
+    const SECOND: i128 = 1_000_000_000;
+    let nanos = days as i128 * 86400 * SECOND + nanos_of_day as i128;
+    let value = match unit {
+        TimeUnit::Years => (year - 1970) as i128,
+        TimeUnit::Months => ((year - 1970) * 12 + (month - 1)) as i128,
+        TimeUnit::Weeks => nanos.div_euclid(7 * 86400 * SECOND),
+        TimeUnit::Days => nanos.div_euclid(86400 * SECOND),
+        TimeUnit::Hours => nanos.div_euclid(3600 * SECOND),
+        TimeUnit::Minutes => nanos.div_euclid(60 * SECOND),
+        TimeUnit::Seconds => nanos.div_euclid(SECOND),
+        TimeUnit::Milliseconds => nanos.div_euclid(1_000_000),
+        TimeUnit::Microseconds => nanos.div_euclid(1_000),
+        TimeUnit::Nanoseconds => nanos,
     };
+    i64::try_from(value).ok().filter(|&v| v != NAT)
+}
 
-    // Convert to target unit
-    match unit {
-        TimeUnit::Years => year - 1970,
-        TimeUnit::Months => (year - 1970) * 12 + (month - 1),
-        TimeUnit::Weeks => days.div_euclid(7),
-        TimeUnit::Days => days,
-        TimeUnit::Hours => days * 24 + hours,
-        TimeUnit::Minutes => days * 24 * 60 + hours * 60 + minutes,
-        TimeUnit::Seconds => days * 86400 + hours * 3600 + minutes * 60 + seconds,
-        TimeUnit::Milliseconds => {
-            let secs = days * 86400 + hours * 3600 + minutes * 60 + seconds;
-            secs * 1000 + nanos / 1_000_000
-        }
-        TimeUnit::Microseconds => {
-            let secs = days * 86400 + hours * 3600 + minutes * 60 + seconds;
-            secs * 1_000_000 + nanos / 1_000
-        }
-        TimeUnit::Nanoseconds => {
-            let secs = days * 86400 + hours * 3600 + minutes * 60 + seconds;
-            secs * 1_000_000_000 + nanos
-        }
+/// The number the first two characters make.
+fn two_digits(s: &str) -> Option<i64> {
+    match s.as_bytes() {
+        [a, b, ..] if a.is_ascii_digit() && b.is_ascii_digit() => Some(((a - b'0') * 10 + (b - b'0')) as i64),
+        _ => None,
     }
 }
 
-/// Parse time part HH:MM:SS.sss returning (hours, minutes, seconds, nanoseconds).
-fn parse_time_part(s: &str) -> (i64, i64, i64, i64) {
-    let parts: Vec<&str> = s.split(':').collect();
-    let hours: i64 = parts.first().and_then(|s| s.parse().ok()).unwrap_or(0);
-    let minutes: i64 = parts.get(1).and_then(|s| s.parse().ok()).unwrap_or(0);
-
-    // Seconds may have fractional part
-    let (seconds, subseconds) = if let Some(sec_str) = parts.get(2) {
-        if let Some(dot_pos) = sec_str.find('.') {
-            let secs: i64 = sec_str[..dot_pos].parse().unwrap_or(0);
-            // Nine digits, padded on the right
-            let digits: String = sec_str[dot_pos + 1..].chars().chain("000000000".chars()).take(9).collect();
-            (secs, digits.parse().unwrap_or(0))
-        } else {
-            (sec_str.parse().unwrap_or(0), 0)
+/// Parse HH[:MM[:SS[.fraction]]] with an optional zone (Z or an offset) to
+/// nanoseconds since midnight UTC.
+fn parse_time_part(s: &str) -> Option<i64> {
+    let hours = two_digits(s)?;
+    let mut rest = &s[2..];
+    let (mut minutes, mut seconds, mut nanos) = (0, 0, 0);
+    if let Some(after) = rest.strip_prefix(':') {
+        minutes = two_digits(after)?;
+        rest = &after[2..];
+        if let Some(after) = rest.strip_prefix(':') {
+            seconds = two_digits(after)?;
+            rest = &after[2..];
+            // Seconds may have a fractional part: nine digits, padded on the right
+            if let Some(after) = rest.strip_prefix('.') {
+                let n = after.bytes().take_while(u8::is_ascii_digit).count();
+                let digits: String = after[..n].chars().chain("000000000".chars()).take(9).collect();
+                nanos = digits.parse().ok()?;
+                rest = &after[n..];
+            }
         }
-    } else {
-        (0, 0)
-    };
+    }
+    if hours > 23 || minutes > 59 || seconds > 59 {
+        return None;
+    }
 
-    (hours, minutes, seconds, subseconds)
+    let mut zone = 0;
+    if rest.eq_ignore_ascii_case("z") {
+        rest = "";
+    } else if let Some(after) = rest.strip_prefix(['+', '-']) {
+        let h = two_digits(after)?;
+        let after = &after[2..];
+        let after = after.strip_prefix(':').unwrap_or(after);
+        let m = if after.is_empty() { 0 } else { two_digits(after)? };
+        if h > 23 || m > 59 {
+            return None;
+        }
+        zone = (h * 60 + m) * if rest.starts_with('-') { -1 } else { 1 };
+        rest = if after.is_empty() { after } else { &after[2..] };
+    }
+    if !rest.is_empty() {
+        return None;
+    }
+    Some(((hours * 60 + minutes - zone) * 60 + seconds) * 1_000_000_000 + nanos)
 }
 
 /// Convert datetime64 value from one unit to another.
diff --git a/src/python/creation.rs b/src/python/creation.rs
index 5c910a9..6382eac 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -667,7 +667,9 @@ fn from_sequence(seq: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> Py
             let data: Vec<i64> = leaves
                 .iter()
                 .map(|leaf| match leaf.extract::<String>() {
-                    Ok(text) => Ok(parse_datetime64(&text, unit)),
+                    Ok(text) => parse_datetime64(&text, unit).ok_or_else(|| {
+                        pyo3::exceptions::PyValueError::new_err(format!("cannot parse {:?} as a date", text))
+                    }),
                     Err(_) => count_of(leaf, &dtype),
                 })
                 .collect::<PyResult<_>>()?;
diff --git a/src/python/datetime.rs b/src/python/datetime.rs
index dddd665..9bf9d4a 100644
--- a/src/python/datetime.rs
+++ b/src/python/datetime.rs
@@ -30,15 +30,21 @@ fn broadcast_pairs(a: Vec<i64>, b: Vec<i64>) -> PyResult<Vec<(i64, i64)>> {
     Ok((0..n).map(|i| (a[i.min(a.len() - 1)], b[i.min(b.len() - 1)])).collect())
 }
 
+/// Parse one date.
+fn parse_day(s: &str) -> PyResult<i64> {
+    parse_datetime64(s, TimeUnit::Days)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err(format!("cannot parse {:?} as a date", s)))
+}
+
 /// Parse dates from Python input (string or list of strings).
 fn parse_dates_input(dates: &Bound<'_, PyAny>) -> PyResult<Vec<i64>> {
     if let Ok(s) = dates.extract::<String>() {
-        Ok(vec![parse_datetime64(&s, TimeUnit::Days)])
+        Ok(vec![parse_day(&s)?])
     } else if let Ok(list) = dates.downcast::<PyList>() {
         list.iter()
             .map(|item| {
                 let s: String = item.extract()?;
-                Ok(parse_datetime64(&s, TimeUnit::Days))
+                parse_day(&s)
             })
             .collect()
     } else {
@@ -157,8 +163,8 @@ impl BusDayCalendar {
         let holidays_vec = match holidays {
             Some(h) => {
                 h.iter()
-                    .map(|s| parse_datetime64(s, TimeUnit::Days))
-                    .collect()
+                    .map(|s| parse_day(s))
+                    .collect::<PyResult<_>>()?
             }
             None => Vec::new(),
         };
@@ -227,7 +233,7 @@ pub fn is_busday(py: Python<'_>, dates: &Bound<'_, PyAny>, busdaycal: Option<&Bu
 
     // Handle single string - return scalar bool
     if let Ok(s) = dates.extract::<String>() {
-        let result = is_business_day(parse_datetime64(&s, TimeUnit::Days), cal);
+        let result = is_business_day(parse_day(&s)?, cal);
         return Ok(result.into_pyobject(py)?.to_owned().into_any().unbind());
     }
 
@@ -236,7 +242,7 @@ pub fn is_busday(py: Python<'_>, dates: &Bound<'_, PyAny>, busdaycal: Option<&Bu
         let result: Vec<f64> = list.iter()
             .map(|item| -> PyResult<f64> {
                 let s: String = item.extract()?;
-                Ok(if is_business_day(parse_datetime64(&s, TimeUnit::Days), cal) { 1.0 } else { 0.0 })
+                Ok(if is_business_day(parse_day(&s)?, cal) { 1.0 } else { 0.0 })
             })
             .collect::<PyResult<_>>()?;
         return Ok(PyRumpyArray::new(RumpyArray::from_vec(result, DType::bool()))
-- 
2.43.0


From 2dca056abb48826b7310279d40934b812b6f653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:09 +0000
Subject: [PATCH 61/81] fix: integers beyond 64 bits are refused by integer
 arrays

---
 src/python/creation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index 6382eac..bda9d66 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -723,6 +723,10 @@ fn from_sequence(seq: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> Py
                     }
                 } else if let (DTypeKind::Uint64, Ok(value)) = (&kind, leaf.extract::<u64>()) {
                     unsafe { ops.write_i64(ptr, i, value as i64); }
+                } else if leaf.is_instance_of::<pyo3::types::PyInt>() {
+                    return Err(pyo3::exceptions::PyOverflowError::new_err(format!(
+                        "Python integer {} out of bounds for {}", leaf.str()?, dtype.typestr()
+                    )));
                 } else {
                     let value = leaf.extract::<f64>()?;
                     if !value.is_finite() {
-- 
2.43.0


From ad1fc467af4266252730306e75d71fe579edd7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:03 +0000
Subject: [PATCH 62/81] fix: array and asarray make 0-d arrays of Python
 numbers and text

---
 src/python/creation.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index bda9d66..565cc95 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -348,14 +348,30 @@ pub fn copy(a: &PyRumpyArray) -> PyRumpyArray {
 #[pyfunction]
 #[pyo3(signature = (obj, dtype=None))]
 pub fn asarray(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
+    if let Some(single) = from_python_scalar(obj, dtype)? {
+        return Ok(single);
+    }
     array_impl(py, obj, dtype)
 }
 
+/// A Python number, string or bytes object as a 0-d array.
+fn from_python_scalar(obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<Option<PyRumpyArray>> {
+    use pyo3::types::{PyBool, PyBytes, PyComplex, PyFloat, PyInt, PyString};
+    let scalar = obj.is_exact_instance_of::<PyBool>() || obj.is_exact_instance_of::<PyInt>()
+        || obj.is_exact_instance_of::<PyFloat>() || obj.is_exact_instance_of::<PyComplex>()
+        || obj.is_exact_instance_of::<PyString>() || obj.is_exact_instance_of::<PyBytes>();
+    if !scalar {
+        return Ok(None);
+    }
+    let row = from_sequence(PyList::new(obj.py(), [obj])?.as_any(), dtype)?;
+    Ok(row.inner.reshape(vec![]).map(PyRumpyArray::new))
+}
+
 /// Create an array. Unlike asarray, the result never shares memory with a rumpy array.
 #[pyfunction]
 #[pyo3(signature = (obj, dtype=None))]
 pub fn array(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
-    let result = array_impl(py, obj, dtype)?;
+    let result = asarray(py, obj, dtype)?;
     if obj.is_instance_of::<PyRumpyArray>() {
         return Ok(PyRumpyArray::new(result.inner.copy()));
     }
-- 
2.43.0


From 3e95b13e693f31bb2569013af2ee3bc82feb2ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:11 +0000
Subject: [PATCH 63/81] fix: vectorize honours every signature with scalar
 outputs, and otypes given as text

---
 src/python/functional.rs | 124 +++++++++++++++++++++------------------
 1 file changed, 66 insertions(+), 58 deletions(-)

diff --git a/src/python/functional.rs b/src/python/functional.rs
index d467d47..42b638a 100644
--- a/src/python/functional.rs
+++ b/src/python/functional.rs
@@ -5,7 +5,7 @@ use pyo3::prelude::*;
 use pyo3::types::{PyDict, PyList, PyTuple};
 
 use crate::array::{increment_indices, DType, RumpyArray};
-use super::{PyRumpyArray, creation, parse_dtype};
+use super::{PyRumpyArray, creation, parse_dtype, parse_dtype_any};
 
 /// Helper to compute indices from flat index
 fn flat_to_indices(flat_idx: usize, shape: &[usize]) -> Vec<usize> {
@@ -212,24 +212,13 @@ impl PyVectorize {
         excluded: Option<&Bound<'_, PyAny>>,
         signature: Option<String>,
     ) -> PyResult<Self> {
-        let otypes = if let Some(otypes_obj) = otypes {
-            if let Ok(list) = otypes_obj.downcast::<PyList>() {
-                let mut dtypes = Vec::new();
-                for item in list.iter() {
-                    let dtype_str = if let Ok(s) = item.extract::<String>() {
-                        s
-                    } else {
-                        // Try to get dtype from numpy dtype object
-                        item.getattr("name")?.extract::<String>()?
-                    };
-                    dtypes.push(parse_dtype(&dtype_str)?);
-                }
-                Some(dtypes)
-            } else {
-                None
-            }
-        } else {
-            None
+        let otypes = match otypes {
+            // Text is one type code for each output
+            Some(obj) => match obj.extract::<String>() {
+                Ok(codes) => Some(codes.chars().map(|c| parse_dtype(&c.to_string())).collect::<PyResult<Vec<_>>>()?),
+                Err(_) => Some(obj.try_iter()?.map(|item| parse_dtype_any(&item?)).collect::<PyResult<Vec<_>>>()?),
+            },
+            None => None,
         };
 
         let excluded = if let Some(excl) = excluded {
@@ -372,14 +361,10 @@ impl PyVectorize {
         let input_sig = parts[0].trim();
         let output_sig = parts[1].trim();
 
-        // Parse input dimensions
-        let input_dims: Vec<&str> = input_sig
-            .split(',')
-            .map(|s| s.trim().trim_matches(|c| c == '(' || c == ')'))
-            .collect();
-
-        // For now, support simple case: "(n),(n)->()" meaning inner product
+        // For now, support scalar outputs, like "(n),(n)->()" meaning inner product
         if output_sig == "()" {
+            let core_dims = parse_core_dims(input_sig)?;
+
             // Output is scalar per outer iteration
             let arrays: Vec<PyRumpyArray> = args
                 .iter()
@@ -392,43 +377,56 @@ impl PyVectorize {
                 })
                 .collect::<PyResult<Vec<_>>>()?;
 
-            if arrays.is_empty() {
-                return self.pyfunc.bind(py).call(&args, kwargs).map(|r| r.unbind());
+            if arrays.len() != core_dims.len() {
+                return Err(pyo3::exceptions::PyTypeError::new_err(format!(
+                    "wrong number of positional arguments: expected {}, got {}", core_dims.len(), arrays.len()
+                )));
             }
 
-            // Assume core dimensions are the last dimension
-            let core_len = if !input_dims.is_empty() && !input_dims[0].is_empty() {
-                arrays[0].inner.shape().last().copied().unwrap_or(1)
-            } else {
-                1
-            };
-
-            // Output shape is shape without core dimensions
-            let out_shape: Vec<usize> = if arrays[0].inner.ndim() > 1 {
-                arrays[0].inner.shape()[..arrays[0].inner.ndim() - 1].to_vec()
-            } else {
-                vec![]
-            };
-
+            // Each operand ends in its core dimensions; the others broadcast
+            let mut sizes: Vec<(&str, usize)> = Vec::new();
+            let mut outer: Vec<Vec<usize>> = Vec::new();
+            for (arr, core) in arrays.iter().zip(&core_dims) {
+                let shape = arr.inner.shape();
+                let Some(split) = shape.len().checked_sub(core.len()) else {
+                    return Err(pyo3::exceptions::PyValueError::new_err(format!(
+                        "{}-dimensional argument does not have enough dimensions for all core dimensions ({})",
+                        shape.len(), core.join(",")
+                    )));
+                };
+                for (&name, &dim) in core.iter().zip(&shape[split..]) {
+                    match sizes.iter().find(|(known, _)| *known == name) {
+                        None => sizes.push((name, dim)),
+                        Some(&(_, size)) if size == dim => {}
+                        Some(&(_, size)) => {
+                            return Err(pyo3::exceptions::PyValueError::new_err(format!(
+                                "inconsistent size for core dimension '{}': {} vs {}", name, dim, size
+                            )));
+                        }
+                    }
+                }
+                outer.push(shape[..split].to_vec());
+            }
+            let out_shape = broadcast_shapes(&outer)?;
             let out_size: usize = out_shape.iter().product();
 
             // Every operand takes part in every outer iteration
-            let lanes: Vec<RumpyArray> = arrays.iter()
-                .map(|arr| {
+            let lanes: Vec<RumpyArray> = arrays.iter().zip(&core_dims)
+                .map(|(arr, core)| {
                     let mut full = out_shape.clone();
-                    full.extend(arr.inner.shape().last());
+                    full.extend(&arr.inner.shape()[arr.inner.ndim() - core.len()..]);
                     arr.inner.broadcast_to(&full)
                 })
                 .collect::<Option<_>>()
                 .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))?;
 
-            let mut results: Vec<f64> = Vec::with_capacity(out_size);
+            let mut results: Vec<PyObject> = Vec::with_capacity(out_size);
 
             for i in 0..out_size {
-                // Extract 1D slices for each array along last axis (core dimension)
+                // Extract the core slice of each array
                 let mut call_args: Vec<Bound<'_, PyAny>> = Vec::with_capacity(arrays.len());
 
-                // Indices for all dims except last (the core dimension)
+                // Indices for all dims except the core dimensions
                 let other_indices = if out_shape.is_empty() {
                     vec![]
                 } else {
@@ -445,25 +443,18 @@ impl PyVectorize {
 
                 let call_tuple = PyTuple::new(py, call_args)?;
                 let result = self.pyfunc.bind(py).call(&call_tuple, kwargs)?;
-                results.push(result.extract::<f64>()?);
+                results.push(result.unbind());
             }
 
-            let dtype = if let Some(ref otypes) = self.otypes {
-                otypes[0].clone()
-            } else {
-                DType::float64()
-            };
-
+            let out = self.output_array(py, &results)?;
             if !out_shape.is_empty() {
-                let out = RumpyArray::from_vec(results, dtype);
                 let out = out.reshape(out_shape).ok_or_else(||
                     pyo3::exceptions::PyValueError::new_err("reshape failed")
                 )?;
                 Ok(PyRumpyArray::new(out).into_pyobject(py)?.unbind().into_any())
             } else {
                 // Return scalar
-                let scalar = results[0];
-                Ok(scalar.into_pyobject(py)?.unbind().into_any())
+                out.element_to_py(py, &[0])
             }
         } else {
             Err(pyo3::exceptions::PyNotImplementedError::new_err(
@@ -473,6 +464,23 @@ impl PyVectorize {
     }
 }
 
+/// The core dimensions of each operand: "(m,n),()" names two for the first
+/// and none for the second.
+fn parse_core_dims(input_sig: &str) -> PyResult<Vec<Vec<&str>>> {
+    let invalid = || pyo3::exceptions::PyValueError::new_err("Invalid signature format");
+    let mut operands = Vec::new();
+    let mut rest = input_sig.trim();
+    loop {
+        let (dims, after) = rest.strip_prefix('(').and_then(|r| r.split_once(')')).ok_or_else(invalid)?;
+        operands.push(dims.split(',').map(str::trim).filter(|d| !d.is_empty()).collect());
+        rest = after.trim();
+        if rest.is_empty() {
+            return Ok(operands);
+        }
+        rest = rest.strip_prefix(',').ok_or_else(invalid)?.trim();
+    }
+}
+
 /// Create a generalized universal function from a Python function.
 #[pyclass(name = "frompyfunc")]
 pub struct PyFrompyfunc {
-- 
2.43.0


From b2217bc182609b8e909611f7aba0a38c9a7c62c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:12 +0000
Subject: [PATCH 64/81] fix: date text: zones that lead to another day, padding
 after the time

---
 src/array/dtype/datetime64.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/array/dtype/datetime64.rs b/src/array/dtype/datetime64.rs
index 40780bb..c6d4928 100644
--- a/src/array/dtype/datetime64.rs
+++ b/src/array/dtype/datetime64.rs
@@ -647,6 +647,13 @@ pub fn parse_datetime64(s: &str, unit: TimeUnit) -> Option<i64> {
     // Convert to target unit
     const SECOND: i128 = 1_000_000_000;
     let nanos = days as i128 * 86400 * SECOND + nanos_of_day as i128;
+    let (year, month) = if (0..86400 * SECOND as i64).contains(&nanos_of_day) {
+        (year, month)
+    } else {
+        // The zone leads to another day
+        let (year, month, _) = days_to_ymd(days + nanos_of_day.div_euclid(86400 * SECOND as i64));
+        (year, month)
+    };
     let value = match unit {
         TimeUnit::Years => (year - 1970) as i128,
         TimeUnit::Months => ((year - 1970) * 12 + (month - 1)) as i128,
@@ -696,20 +703,25 @@ fn parse_time_part(s: &str) -> Option<i64> {
     }
 
     let mut zone = 0;
-    if rest.eq_ignore_ascii_case("z") {
-        rest = "";
+    if let Some(after) = rest.strip_prefix('Z') {
+        rest = after;
     } else if let Some(after) = rest.strip_prefix(['+', '-']) {
         let h = two_digits(after)?;
         let after = &after[2..];
-        let after = after.strip_prefix(':').unwrap_or(after);
-        let m = if after.is_empty() { 0 } else { two_digits(after)? };
+        let (m, after) = match after.strip_prefix(':') {
+            None if after.is_empty() => (0, after),
+            colon => {
+                let digits = colon.unwrap_or(after);
+                (two_digits(digits)?, &digits[2..])
+            }
+        };
         if h > 23 || m > 59 {
             return None;
         }
         zone = (h * 60 + m) * if rest.starts_with('-') { -1 } else { 1 };
-        rest = if after.is_empty() { after } else { &after[2..] };
+        rest = after;
     }
-    if !rest.is_empty() {
+    if !rest.trim_end().is_empty() {
         return None;
     }
     Some(((hours * 60 + minutes - zone) * 60 + seconds) * 1_000_000_000 + nanos)
-- 
2.43.0


From c297da0bab39999b57493d37c8f9afde0a0fa66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:19 +0000
Subject: [PATCH 65/81] fix: floats beyond an integer dtype are refused when
 stored, not saturated

---
 src/python/creation.rs    |  6 +-----
 src/python/indexing.rs    |  2 +-
 src/python/pyarray/mod.rs | 29 ++++++++++++++++++++++++++++-
 src/python/shape.rs       |  2 +-
 4 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index 565cc95..10b5a54 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -745,11 +745,7 @@ fn from_sequence(seq: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> Py
                     )));
                 } else {
                     let value = leaf.extract::<f64>()?;
-                    if !value.is_finite() {
-                        return Err(pyo3::exceptions::PyValueError::new_err(
-                            format!("cannot convert float {} to integer", value),
-                        ));
-                    }
+                    super::pyarray::check_float_fits(value, &dtype)?;
                     unsafe { ops.write_f64(ptr, i, value); }
                 }
             }
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index 8d733fe..d18a0f2 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -814,7 +814,7 @@ pub fn fill_diagonal(
         // Contiguous copy in the target dtype
         arr.inner.astype(a.inner.dtype())
     } else if val.extract::<f64>().is_ok() {
-        super::pyarray::scalar_for(val, &a.inner.dtype())?
+        super::pyarray::value_for(val, &a.inner.dtype())?
     } else if let Ok(list) = val.extract::<Vec<f64>>() {
         RumpyArray::from_vec(list, a.inner.dtype().clone())
     } else {
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 4cc8b44..b0446f5 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1159,8 +1159,35 @@ pub(crate) fn value_for(value: &Bound<'_, PyAny>, dtype: &DType) -> PyResult<Rum
             check_castable(&array.dtype(), dtype)?;
             Ok(array.astype(dtype.clone()))
         }
-        None => scalar_for(value, dtype),
+        None => {
+            if let Ok(v) = value.downcast::<pyo3::types::PyFloat>() {
+                check_float_fits(v.extract()?, dtype)?;
+            }
+            scalar_for(value, dtype)
+        }
+    }
+}
+
+/// A Python float stored in an integer array loses its fraction, but is not
+/// brought into range.
+pub(crate) fn check_float_fits(value: f64, dtype: &DType) -> PyResult<()> {
+    if !dtype.is_integer() {
+        return Ok(());
     }
+    if !value.is_finite() {
+        return Err(pyo3::exceptions::PyValueError::new_err(
+            format!("cannot convert float {} to integer", value),
+        ));
+    }
+    let bits = 8 * dtype.itemsize() as i32;
+    let unsigned = dtype.typestr().contains('u');
+    let (low, high) = if unsigned { (0.0, 2f64.powi(bits)) } else { (-2f64.powi(bits - 1), 2f64.powi(bits - 1)) };
+    if value.trunc() < low || value.trunc() >= high {
+        return Err(pyo3::exceptions::PyOverflowError::new_err(format!(
+            "Python float {} out of bounds for {}", value, dtype.ops().name()
+        )));
+    }
+    Ok(())
 }
 
 /// 0-d array holding a Python scalar to be stored in an array of dtype `dtype`.
diff --git a/src/python/shape.rs b/src/python/shape.rs
index 457446a..757a468 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -626,7 +626,7 @@ pub fn insert(arr: &PyRumpyArray, index: isize, values: &Bound<'_, pyo3::PyAny>,
     let values_arr = if let Ok(arr_ref) = values.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
         arr_ref.inner.clone()
     } else if values.extract::<f64>().is_ok() {
-        super::pyarray::scalar_for(values, &arr.inner.dtype())?
+        super::pyarray::value_for(values, &arr.inner.dtype())?
     } else if let Ok(list) = values.downcast::<pyo3::types::PyList>() {
         let data: Vec<f64> = list.iter().map(|x| x.extract::<f64>()).collect::<PyResult<Vec<_>>>()?;
         RumpyArray::from_vec(data, arr.inner.dtype())
-- 
2.43.0


From b31b3c053cb8c7a779f399add902ae8b6222eac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:13 +0000
Subject: [PATCH 66/81] fix: pad refuses to repeat the edge of an empty axis

---
 src/array/manipulation.rs | 4 ++++
 src/python/shape.rs       | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 923ada0..231db30 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -1192,6 +1192,10 @@ pub fn pad(arr: &RumpyArray, pad_width: &[(usize, usize)], mode: &str, constant_
             Some(result)
         }
         "edge" => {
+            // An empty axis has no edge to repeat
+            if arr.shape().iter().zip(pad_width).any(|(&s, &(b, a))| s == 0 && b + a > 0) {
+                return None;
+            }
             let src_dtype = arr.dtype();
             let mut result = RumpyArray::zeros(new_shape.clone(), src_dtype.clone());
             let dst_dtype = result.dtype();
diff --git a/src/python/shape.rs b/src/python/shape.rs
index 757a468..1c8c947 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -695,7 +695,7 @@ pub fn pad(
     crate::array::pad(&arr.inner, &pad_spec, mode, constant_values)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
-            pyo3::exceptions::PyValueError::new_err("unsupported pad mode")
+            pyo3::exceptions::PyValueError::new_err("unsupported pad mode, or an empty axis without an edge to repeat")
         })
 }
 
-- 
2.43.0


From 084a9392117401b25876e7c8ac4072bacd5e7d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:08 +0000
Subject: [PATCH 67/81] fix: percentile and quantile refuse an empty axis,
 nanpercentile gives NaN

---
 src/array/manipulation.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 231db30..47b2140 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -257,7 +257,7 @@ pub fn percentile(arr: &RumpyArray, q: &[f64], axis: Option<usize>) -> Option<Ru
 fn percentile_flat(arr: &RumpyArray, q: &[f64]) -> Option<RumpyArray> {
     let size = arr.size();
     if size == 0 {
-        return Some(RumpyArray::zeros(vec![q.len()], DType::float64()));
+        return None;
     }
 
     // Collect and sort values
@@ -303,7 +303,10 @@ fn percentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyArra
     out_shape.extend(&reduced_shape);
 
     let reduced_size: usize = reduced_shape.iter().product();
-    if axis_len == 0 || reduced_size == 0 {
+    if axis_len == 0 {
+        return None;
+    }
+    if reduced_size == 0 {
         return Some(RumpyArray::zeros(out_shape, DType::float64()));
     }
 
@@ -422,7 +425,7 @@ fn nanpercentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyA
 
     let reduced_size: usize = reduced_shape.iter().product();
     if axis_len == 0 || reduced_size == 0 {
-        return Some(RumpyArray::zeros(out_shape, DType::float64()));
+        return Some(RumpyArray::full(out_shape, f64::NAN, DType::float64()));
     }
 
     let mut result = RumpyArray::zeros(out_shape, DType::float64());
-- 
2.43.0


From bf3fa16395b8d6f41a9b40e0bc394c2c9fa44483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:08 +0000
Subject: [PATCH 68/81] fix: deviations over an empty axis keep the floating
 dtype

---
 src/ops/array_methods/reductions.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 895cb5f..83bfdaa 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -162,13 +162,13 @@ impl RumpyArray {
     /// Uses vectorized operations: (x - mean)^k summed along axis.
     pub fn moment_axis(&self, k: usize, axis: usize) -> RumpyArray {
         let axis_len = self.shape()[axis];
+        if self.dtype().is_integer() || self.dtype().kind() == crate::array::dtype::DTypeKind::Bool {
+            return self.floating_operand().moment_axis(k, axis);
+        }
         if axis_len == 0 {
             let mut out_shape: Vec<usize> = self.shape().to_vec();
             out_shape.remove(axis);
-            return RumpyArray::full(out_shape, f64::NAN, DType::float64());
-        }
-        if self.dtype().is_integer() || self.dtype().kind() == crate::array::dtype::DTypeKind::Bool {
-            return self.floating_operand().moment_axis(k, axis);
+            return RumpyArray::full(out_shape, f64::NAN, self.dtype());
         }
 
         // Compute mean and broadcast back to original shape
-- 
2.43.0


From e7789495e744b7a55125f45423b368c6c815f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:08 +0000
Subject: [PATCH 69/81] fix: norms of empty arrays: no smallest of nothing,
 negative orders are infinite

---
 src/ops/linalg.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index 5cfeeb4..29a7afc 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -169,7 +169,11 @@ pub fn norm(a: &RumpyArray, ord: Option<&str>) -> Option<f64> {
 pub fn vector_norm(a: &RumpyArray, ord: Option<f64>) -> Option<f64> {
     let n = a.size();
     if n == 0 {
-        return Some(0.0);
+        return match ord {
+            Some(p) if p == f64::NEG_INFINITY => None,
+            Some(p) if p < 0.0 => Some(f64::INFINITY),
+            _ => Some(0.0),
+        };
     }
     let a = &a.floating_operand();
 
@@ -223,11 +227,17 @@ pub fn matrix_norm(a: &RumpyArray, ord: Option<&str>) -> Option<f64> {
     }
 
     let (m, n) = (a.shape()[0], a.shape()[1]);
+    let ord = ord.unwrap_or("fro");
     if m == 0 || n == 0 {
-        return Some(0.0);
+        // The smallest of no sums or no singular values does not exist
+        return match ord {
+            "-1" if n == 0 => None,
+            "-inf" if m == 0 => None,
+            "-2" => None,
+            "fro" | "nuc" | "1" | "2" | "inf" | "-1" | "-inf" => Some(0.0),
+            _ => None,
+        };
     }
-
-    let ord = ord.unwrap_or("fro");
     let a = &a.floating_operand();
 
     match ord {
-- 
2.43.0


From a263186648d6b1fa03737698642b3d13382a43d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:08 +0000
Subject: [PATCH 70/81] fix: eig of defective matrices returns eigenvectors,
 not zero or wrong columns

---
 src/ops/linalg.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index 29a7afc..b860d98 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -875,11 +875,13 @@ pub fn eig(a: &RumpyArray) -> Option<(RumpyArray, RumpyArray)> {
         ));
     }
 
-    let decomp = if let Some(fa) = try_as_faer_mat(a) {
-        fa.eigendecomposition::<faer::complex_native::c64>()
-    } else {
-        copy_to_faer_mat(a).eigendecomposition::<faer::complex_native::c64>()
-    };
+    let mat = copy_to_faer_mat(a);
+    let mut decomp = mat.eigendecomposition::<faer::complex_native::c64>();
+    // faer's real algorithm loses eigenvectors of some defective matrices
+    if !is_eigendecomposition(&mat, decomp.s().column_vector(), decomp.u()) {
+        let complex = faer::Mat::from_fn(n, n, |i, j| faer::complex_native::c64::new(mat[(i, j)], 0.0));
+        decomp = complex.complex_eigendecomposition();
+    }
 
     let eigenvalues = decomp.s().column_vector();
     let eigenvectors = decomp.u();
@@ -917,6 +919,27 @@ pub fn eig(a: &RumpyArray) -> Option<(RumpyArray, RumpyArray)> {
     Some((w, v))
 }
 
+/// Whether every column is a nonzero vector that the matrix multiplies by its eigenvalue.
+fn is_eigendecomposition(
+    mat: &faer::Mat<f64>,
+    w: faer::ColRef<'_, faer::complex_native::c64>,
+    v: faer::MatRef<'_, faer::complex_native::c64>,
+) -> bool {
+    let n = mat.nrows();
+    let magnitude = |j: usize| (0..n).map(|i| v[(i, j)].re.abs() + v[(i, j)].im.abs()).sum::<f64>();
+    let norm: f64 = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).map(|at| mat[at].abs()).sum();
+    (0..n).all(|j| {
+        let tolerance = 1e-8 * norm * magnitude(j);
+        magnitude(j) > 0.0
+            && (0..n).all(|i| {
+                let re: f64 = (0..n).map(|k| mat[(i, k)] * v[(k, j)].re).sum();
+                let im: f64 = (0..n).map(|k| mat[(i, k)] * v[(k, j)].im).sum();
+                let scaled = w[j] * v[(i, j)];
+                (re - scaled.re).abs() <= tolerance && (im - scaled.im).abs() <= tolerance
+            })
+    })
+}
+
 /// Vector dot product (conjugate first argument for complex).
 /// For 1D arrays: sum(conj(a) * b)
 /// For nD arrays: the same over the flattened arrays. Returns a 0-d array.
-- 
2.43.0


From ff17a8a4b1797acdd775ec678fb1987deee2f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:08 +0000
Subject: [PATCH 71/81] fix: nanargmin and nanargmax refuse an empty axis

---
 src/python/reductions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index a1a8850..00eaa82 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -412,6 +412,9 @@ pub fn nanmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 fn check_no_all_nan_slice(arr: &RumpyArray, axis: usize) -> PyResult<()> {
     let dtype = arr.dtype();
     let stride = arr.strides()[axis];
+    if arr.shape()[axis] == 0 {
+        return Err(pyo3::exceptions::PyValueError::new_err("attempt to get argmin of an empty sequence"));
+    }
     for base in arr.axis_offsets(axis) {
         let found = (0..arr.shape()[axis] as isize).any(|j| {
             let val = unsafe { dtype.ops().read_f64(arr.data_ptr(), base + j * stride) };
-- 
2.43.0


From 5054c9b3a3e36fa502074435a3721a5c7b8f7c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:08 +0000
Subject: [PATCH 72/81] fix: zero-sum weights are refused by average

---
 src/python/reductions.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 00eaa82..ae3534f 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -597,6 +597,20 @@ pub fn average(
             ));
         }
     }
+    if let Some(w) = weights {
+        let totals = match axis.map(|ax| resolve_axis(ax, x.inner.ndim())) {
+            Some(ax) if w.inner.ndim() == x.inner.ndim() => {
+                check_axis(ax, x.inner.ndim())?;
+                w.inner.sum_axis(ax)
+            }
+            _ => flattened(&w.inner).sum_axis(0),
+        };
+        if totals.count_nonzero() < totals.size() {
+            return Err(pyo3::exceptions::PyZeroDivisionError::new_err(
+                "Weights sum to zero, can't be normalized",
+            ));
+        }
+    }
     let complex = x.inner.dtype().is_complex() || weights.is_some_and(|w| w.inner.dtype().is_complex());
     match axis {
         None if complex => Ok(pyarray::ReductionResult::Element(match weights {
-- 
2.43.0


From f53738d72ea8554a9ffbf9a4c467a4070d9e5eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:30 +0000
Subject: [PATCH 73/81] fix: months before the year 0 print as months

---
 src/array/dtype/datetime64.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/array/dtype/datetime64.rs b/src/array/dtype/datetime64.rs
index c6d4928..ee5ad15 100644
--- a/src/array/dtype/datetime64.rs
+++ b/src/array/dtype/datetime64.rs
@@ -466,8 +466,8 @@ pub fn format_datetime64(value: i64, unit: TimeUnit) -> String {
         TimeUnit::Months => {
             // value is months since 1970-01
             let total_months = 1970 * 12 + value;
-            let year = total_months / 12;
-            let month = (total_months % 12) + 1;
+            let year = total_months.div_euclid(12);
+            let month = total_months.rem_euclid(12) + 1;
             format!("{:04}-{:02}", year, month)
         }
         TimeUnit::Weeks => {
-- 
2.43.0


From 5959427e0aeec314469b128e57fb13dd1c1bcbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:46 +0000
Subject: [PATCH 74/81] fix: vectorize honours excluded and vectorizes keyword
 arguments

---
 src/python/functional.rs | 55 +++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/python/functional.rs b/src/python/functional.rs
index 42b638a..7cc4fa8 100644
--- a/src/python/functional.rs
+++ b/src/python/functional.rs
@@ -196,8 +196,8 @@ pub fn apply_over_axes(
 pub struct PyVectorize {
     pyfunc: PyObject,
     otypes: Option<Vec<DType>>,
-    #[allow(dead_code)]
-    excluded: Vec<String>,
+    /// Positions and names whose arguments are passed as they are.
+    excluded: Option<PyObject>,
     signature: Option<String>,
 }
 
@@ -221,20 +221,10 @@ impl PyVectorize {
             None => None,
         };
 
-        let excluded = if let Some(excl) = excluded {
-            if let Ok(list) = excl.downcast::<PyList>() {
-                list.iter().filter_map(|item| item.extract::<String>().ok()).collect()
-            } else {
-                Vec::new()
-            }
-        } else {
-            Vec::new()
-        };
-
         Ok(PyVectorize {
             pyfunc: pyfunc.clone().unbind(),
             otypes,
-            excluded,
+            excluded: excluded.map(|excl| excl.clone().unbind()),
             signature,
         })
     }
@@ -254,20 +244,40 @@ impl PyVectorize {
         // Get first array argument to determine shape
         let mut arrays: Vec<PyRumpyArray> = Vec::new();
         let mut scalars: Vec<(usize, PyObject)> = Vec::new();
+        let is_excluded = |key: Bound<'_, PyAny>| match &self.excluded {
+            Some(excluded) => excluded.bind(py).contains(key),
+            None => Ok(false),
+        };
 
-        for (i, arg) in args.iter().enumerate() {
-            if let Ok(arr) = arg.extract::<PyRef<'_, PyRumpyArray>>() {
+        // Keyword arguments are vectorized after the positional ones
+        let mut operands: Vec<Bound<'_, PyAny>> = args.iter().collect();
+        let call_kwargs = PyDict::new(py);
+        let mut names: Vec<Bound<'_, PyAny>> = Vec::new();
+        for (name, value) in kwargs.into_iter().flatten() {
+            if is_excluded(name.clone())? {
+                call_kwargs.set_item(name, value)?;
+            } else {
+                names.push(name);
+                operands.push(value);
+            }
+        }
+
+        for (i, arg) in operands.iter().enumerate() {
+            let positional = i < args.len();
+            if positional && is_excluded(i.into_pyobject(py)?.into_any())? {
+                scalars.push((i, arg.clone().unbind()));
+            } else if let Ok(arr) = arg.extract::<PyRef<'_, PyRumpyArray>>() {
                 arrays.push(PyRumpyArray::new(arr.inner.clone()));
-            } else if let Ok(arr) = creation::asarray(py, &arg, None) {
+            } else if let Ok(arr) = creation::asarray(py, arg, None) {
                 // Try to convert to array
                 if arr.inner.ndim() == 0 {
                     // Scalar
-                    scalars.push((i, arg.unbind()));
+                    scalars.push((i, arg.clone().unbind()));
                 } else {
                     arrays.push(arr);
                 }
             } else {
-                scalars.push((i, arg.unbind()));
+                scalars.push((i, arg.clone().unbind()));
             }
         }
 
@@ -293,14 +303,14 @@ impl PyVectorize {
 
         for i in 0..size {
             // Build args for this element
-            let mut call_args: Vec<PyObject> = Vec::with_capacity(args.len());
+            let mut call_args: Vec<PyObject> = Vec::with_capacity(operands.len());
             let mut arr_idx = 0;
             let mut scalar_idx = 0;
 
             // Compute indices from flat index
             let indices = flat_to_indices(i, &broadcast_shape);
 
-            for j in 0..args.len() {
+            for j in 0..operands.len() {
                 // Check if this position is a scalar
                 if scalar_idx < scalars.len() && scalars[scalar_idx].0 == j {
                     call_args.push(scalars[scalar_idx].1.clone_ref(py));
@@ -312,8 +322,11 @@ impl PyVectorize {
                 }
             }
 
+            for (name, value) in names.iter().zip(call_args.split_off(args.len())) {
+                call_kwargs.set_item(name, value)?;
+            }
             let call_tuple = PyTuple::new(py, call_args)?;
-            let result = self.pyfunc.bind(py).call(&call_tuple, kwargs)?;
+            let result = self.pyfunc.bind(py).call(&call_tuple, Some(&call_kwargs))?;
             results.push(result.unbind());
         }
 
-- 
2.43.0


From 85da6c64865bb2b33f7d16b115eb120a06a82b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:29 +0000
Subject: [PATCH 75/81] fix: float and complex of one-element arrays of complex
 numbers and text

---
 src/python/pyarray/dunder_ops.rs | 37 +++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/python/pyarray/dunder_ops.rs b/src/python/pyarray/dunder_ops.rs
index 5946f4f..1527483 100644
--- a/src/python/pyarray/dunder_ops.rs
+++ b/src/python/pyarray/dunder_ops.rs
@@ -1,11 +1,13 @@
 //! Dunder arithmetic, comparison, and bitwise operations for PyRumpyArray.
 
 use pyo3::prelude::*;
+use pyo3::types::{PyComplex, PyFloat, PyInt};
 
 use super::{
     binary_op_dispatch, binary_op_dispatch_with_elision, bitwise_binary_op_dispatch,
     comparison_op_dispatch, rbitwise_binary_op_dispatch, rbinary_op_dispatch, PyRumpyArray,
 };
+use crate::array::dtype::DTypeKind;
 use crate::ops::bitwise::{bitwise_and, bitwise_or, bitwise_xor, left_shift, right_shift};
 use crate::ops::matmul::matmul;
 use crate::ops::{BinaryOp, ComparisonOp};
@@ -116,13 +118,15 @@ impl PyRumpyArray {
         Self::new(self.inner.abs().expect("abs always succeeds"))
     }
 
-    fn __float__(&self) -> PyResult<f64> {
-        if self.inner.size() != 1 {
-            return Err(pyo3::exceptions::PyTypeError::new_err(
-                "only size-1 arrays can be converted to Python scalars",
-            ));
+    fn __float__<'py>(&self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
+        py.get_type::<PyFloat>().call1((self.only_element(py)?,))
+    }
+
+    fn __complex__<'py>(&self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
+        if matches!(self.inner.dtype().kind(), DTypeKind::Str(_) | DTypeKind::Bytes(_)) {
+            return Err(pyo3::exceptions::PyTypeError::new_err("unable to convert text to complex"));
         }
-        Ok(self.inner.get_element(&vec![0; self.inner.ndim()]))
+        py.get_type::<PyComplex>().call1((self.only_element(py)?,))
     }
 
     fn __bool__(&self) -> PyResult<bool> {
@@ -142,13 +146,8 @@ impl PyRumpyArray {
     }
 
     fn __int__(&self, py: Python<'_>) -> PyResult<PyObject> {
-        if self.inner.size() != 1 {
-            return Err(pyo3::exceptions::PyTypeError::new_err(
-                "only size-1 arrays can be converted to Python scalars",
-            ));
-        }
-        let value = self.inner.element_to_py(py, &vec![0; self.inner.ndim()])?;
-        Ok(value.bind(py).call_method0("__int__")?.unbind())
+        let value = self.only_element(py)?;
+        Ok(py.get_type::<PyInt>().call1((value,))?.unbind())
     }
 
     // Comparison operations
@@ -228,3 +227,15 @@ impl PyRumpyArray {
         rbitwise_binary_op_dispatch(&self.inner, other, right_shift)
     }
 }
+
+impl PyRumpyArray {
+    /// The element of a one-element array, as a Python scalar.
+    fn only_element(&self, py: Python<'_>) -> PyResult<PyObject> {
+        if self.inner.size() != 1 {
+            return Err(pyo3::exceptions::PyTypeError::new_err(
+                "only size-1 arrays can be converted to Python scalars",
+            ));
+        }
+        self.inner.element_to_py(py, &vec![0; self.inner.ndim()])
+    }
+}
-- 
2.43.0


From e6cb5e19e6f8c48d1c1fbcd83d94d43084976de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:36 +0000
Subject: [PATCH 76/81] fix: put_along_axis finds an index out of range before
 it writes

---
 src/ops/indexing.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index 0aba23c..d3894d4 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -562,6 +562,11 @@ pub fn put_along_axis(arr: &mut RumpyArray, indices: &RumpyArray, values: &Rumpy
     let arr_strides = arr.strides().to_vec();
     let dst_ptr = arr.data_ptr_mut();
 
+    // An index out of range is found before anything is written
+    for offset in indices.iter_offsets() {
+        normalize_index(unsafe { idx_ops.read_i64(idx_ptr, offset) }.unwrap_or(0) as isize, axis_len)?;
+    }
+
     let idx_strides = indices.strides();
     let val_strides = values.strides();
     let ndim = indices.ndim();
-- 
2.43.0


From d5685a8b30c704d4ecca8ea7bddd61c1458a4a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:59 +0000
Subject: [PATCH 77/81] fix: the n-dimensional Fourier transforms accept axes
 counted from the end

---
 src/python/fft.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/python/fft.rs b/src/python/fft.rs
index a16e59c..f6672a4 100644
--- a/src/python/fft.rs
+++ b/src/python/fft.rs
@@ -82,10 +82,29 @@ pub fn rfftfreq(n: usize, d: f64) -> PyRumpyArray {
     PyRumpyArray::new(fft_ops::rfftfreq(n, d))
 }
 
+/// Resolve axes counted from the end.
+fn resolve_axes(arr: &PyRumpyArray, axes: Option<Vec<isize>>) -> PyResult<Option<Vec<usize>>> {
+    let ndim = arr.inner.ndim() as isize;
+    axes.map(|axes| {
+        axes.into_iter()
+            .map(|a| {
+                if a < -ndim || a >= ndim {
+                    return Err(pyo3::exceptions::PyValueError::new_err(format!(
+                        "axis {} is out of bounds for array of dimension {}", a, ndim
+                    )));
+                }
+                Ok(if a < 0 { (a + ndim) as usize } else { a as usize })
+            })
+            .collect()
+    })
+    .transpose()
+}
+
 /// N-dimensional FFT.
 #[pyfunction]
 #[pyo3(signature = (arr, axes=None))]
-pub fn fftn(arr: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyResult<PyRumpyArray> {
+pub fn fftn(arr: &PyRumpyArray, axes: Option<Vec<isize>>) -> PyResult<PyRumpyArray> {
+    let axes = resolve_axes(arr, axes)?;
     fft_ops::fftn(&arr.inner, axes.as_deref())
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("fftn failed"))
@@ -94,7 +113,8 @@ pub fn fftn(arr: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyResult<PyRumpyArr
 /// N-dimensional inverse FFT.
 #[pyfunction]
 #[pyo3(signature = (arr, axes=None))]
-pub fn ifftn(arr: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyResult<PyRumpyArray> {
+pub fn ifftn(arr: &PyRumpyArray, axes: Option<Vec<isize>>) -> PyResult<PyRumpyArray> {
+    let axes = resolve_axes(arr, axes)?;
     fft_ops::ifftn(&arr.inner, axes.as_deref())
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("ifftn failed"))
@@ -103,7 +123,8 @@ pub fn ifftn(arr: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyResult<PyRumpyAr
 /// N-dimensional real FFT.
 #[pyfunction]
 #[pyo3(signature = (arr, axes=None))]
-pub fn rfftn(arr: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyResult<PyRumpyArray> {
+pub fn rfftn(arr: &PyRumpyArray, axes: Option<Vec<isize>>) -> PyResult<PyRumpyArray> {
+    let axes = resolve_axes(arr, axes)?;
     fft_ops::rfftn(&arr.inner, axes.as_deref())
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("rfftn failed"))
@@ -112,7 +133,8 @@ pub fn rfftn(arr: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyResult<PyRumpyAr
 /// N-dimensional inverse real FFT.
 #[pyfunction]
 #[pyo3(signature = (arr, s=None, axes=None))]
-pub fn irfftn(arr: &PyRumpyArray, s: Option<Vec<usize>>, axes: Option<Vec<usize>>) -> PyResult<PyRumpyArray> {
+pub fn irfftn(arr: &PyRumpyArray, s: Option<Vec<usize>>, axes: Option<Vec<isize>>) -> PyResult<PyRumpyArray> {
+    let axes = resolve_axes(arr, axes)?;
     fft_ops::irfftn(&arr.inner, s.as_deref(), axes.as_deref())
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("irfftn failed"))
-- 
2.43.0


From b7d345f808ac84642c59d7acd8b73bca394a7dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:26 +0000
Subject: [PATCH 78/81] fix: cov and corrcoef of half precision are computed in
 double precision

---
 src/ops/statistics.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index 54e6711..2c2ad10 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -177,6 +177,9 @@ fn count_samples(
 /// x should be 2D with each row representing a variable and each column an observation.
 /// Returns a 2D array where element [i,j] is cov(row_i, row_j).
 pub fn cov(arr: &RumpyArray, ddof: usize) -> RumpyArray {
+    // Half precision would round the means
+    let arr = &arr.astype(DType::float64());
+
     // For 1D input, compute variance
     if arr.ndim() == 1 {
         let n = arr.size();
-- 
2.43.0


From ee20edfef3ffb2ad85d73d992516246767093f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:12 +0000
Subject: [PATCH 79/81] fix: slices with enormous steps no longer overflow

---
 src/array/views.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/array/views.rs b/src/array/views.rs
index c934ec4..116ef67 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -54,6 +54,10 @@ impl RumpyArray {
     /// Expects pre-normalized indices from PySlice.indices().
     /// Returns a view (no copy).
     pub fn slice_axis(&self, axis: usize, start: isize, stop: isize, step: isize) -> Self {
+        // A longer step than the axis reaches nothing more
+        let reach = (self.shape[axis] as isize).max(1);
+        let step = step.clamp(-reach, reach);
+
         // Compute new length
         let new_len = if step > 0 {
             if stop > start {
-- 
2.43.0


From be8896cdec94c52ea6046e18bd668506f86cf1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 80/81] fix: packbits and unpackbits refuse unknown axes,
 orders and dtypes

---
 src/python/indexing.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index d18a0f2..d04d38f 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -700,6 +700,21 @@ pub fn digitize(x: &PyRumpyArray, bins: &PyRumpyArray, right: bool) -> PyResult<
     Ok(PyRumpyArray::new(crate::ops::indexing::digitize(&x.inner, &bins.inner, right)))
 }
 
+/// Refuse an axis the array does not have and an unknown bit order.
+fn check_bits_arguments(a: &PyRumpyArray, axis: Option<isize>, bitorder: &str) -> PyResult<()> {
+    if bitorder != "big" && bitorder != "little" {
+        return Err(pyo3::exceptions::PyValueError::new_err("'order' must be either 'little' or 'big'"));
+    }
+    let ndim = a.inner.ndim().max(1) as isize;
+    match axis {
+        Some(ax) if ax < -ndim || ax >= ndim => Err(pyo3::exceptions::PyValueError::new_err(format!(
+            "axis {} is out of bounds for array of dimension {}",
+            ax, ndim
+        ))),
+        _ => Ok(()),
+    }
+}
+
 /// Pack binary-valued array into uint8 array.
 #[pyfunction]
 #[pyo3(signature = (a, axis=None, bitorder="big"))]
@@ -713,6 +728,7 @@ pub fn packbits(
             "Expected an input array of integer or boolean data type",
         ));
     }
+    check_bits_arguments(a, axis, bitorder)?;
     let resolved_axis = axis.map(|ax| {
         if ax < 0 {
             (a.inner.ndim() as isize + ax) as usize
@@ -739,7 +755,13 @@ pub fn unpackbits(
     axis: Option<isize>,
     count: Option<usize>,
     bitorder: &str,
-) -> PyRumpyArray {
+) -> PyResult<PyRumpyArray> {
+    if a.inner.dtype() != crate::array::DType::uint8() {
+        return Err(pyo3::exceptions::PyTypeError::new_err(
+            "Expected an input array of unsigned byte data type",
+        ));
+    }
+    check_bits_arguments(a, axis, bitorder)?;
     let resolved_axis = axis.map(|ax| {
         if ax < 0 {
             (a.inner.ndim() as isize + ax) as usize
@@ -748,7 +770,7 @@ pub fn unpackbits(
         }
     });
 
-    PyRumpyArray::new(crate::ops::indexing::unpackbits(&a.inner, resolved_axis, count, bitorder))
+    Ok(PyRumpyArray::new(crate::ops::indexing::unpackbits(&a.inner, resolved_axis, count, bitorder)))
 }
 
 // ============================================================================
-- 
2.43.0


From c5c69e7beaea1f161c7a144fb0ddbad9a0f3851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:49 +0000
Subject: [PATCH 81/81] fix: unpackbits fills a count beyond the last bit with
 zeros

---
 src/ops/indexing.rs    | 6 +++---
 src/python/indexing.rs | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index d3894d4..cb527c2 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -1118,7 +1118,7 @@ pub fn unpackbits(arr: &RumpyArray, axis: Option<usize>, count: Option<usize>, b
 fn unpackbits_flat(arr: &RumpyArray, count: Option<usize>, big_endian: bool) -> RumpyArray {
     let size = arr.size();
     let full_out_size = size * 8;
-    let out_size = count.unwrap_or(full_out_size).min(full_out_size);
+    let out_size = count.unwrap_or(full_out_size); // zeros beyond the last bit
 
     let mut result = RumpyArray::zeros(vec![out_size], DType::uint8());
     if out_size == 0 {
@@ -1164,7 +1164,7 @@ fn unpackbits_axis(arr: &RumpyArray, axis: usize, count: Option<usize>, big_endi
 
     let axis_len = shape[axis];
     let full_out_axis_len = axis_len * 8;
-    let out_axis_len = count.unwrap_or(full_out_axis_len).min(full_out_axis_len);
+    let out_axis_len = count.unwrap_or(full_out_axis_len); // zeros beyond the last bit
 
     let mut out_shape = shape.to_vec();
     out_shape[axis] = out_axis_len;
@@ -1198,7 +1198,7 @@ fn unpackbits_axis(arr: &RumpyArray, axis: usize, count: Option<usize>, big_endi
             .map(|(&i, &s)| i as isize * s)
             .sum();
 
-        let byte = unsafe { *ptr.add(src_offset as usize) };
+        let byte = if byte_idx < axis_len { unsafe { *ptr.offset(src_offset) } } else { 0 };
         let val = if big_endian {
             (byte >> (7 - bit_idx)) & 1
         } else {
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index d04d38f..67531f9 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -762,6 +762,8 @@ pub fn unpackbits(
         ));
     }
     check_bits_arguments(a, axis, bitorder)?;
+    // However long the axis, the other axes stay as they are
+    super::pyarray::check_size(&[count.unwrap_or(0), a.inner.size().max(1)])?;
     let resolved_axis = axis.map(|ax| {
         if ax < 0 {
             (a.inner.ndim() as isize + ax) as usize
-- 
2.43.0

