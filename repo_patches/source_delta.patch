From aae365940d3e220f86c232759fd19e3e21669514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 01/21] fix: indexing sparse features returns the stored
 activation

Index<usize> returned 1.0 for every active feature of a sparse vector,
whatever its activation.
---
 src/features.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index ebcd9db..470d783 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -719,11 +719,7 @@ impl Index<usize> for Features {
         apply_to_features!(self => da, {
             da.index(idx)
         }; sa, {
-            if sa.activations.contains_key(&idx) {
-                &1.0
-            } else {
-                &0.0
-            }
+            sa.activations.get(&idx).unwrap_or(&0.0)
         })
     }
 }
-- 
2.43.0


From 04b2a98828e9575d02049b1ebc020b8fb2548540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 02/21] fix: inner product of two sparse feature vectors uses
 the activations

The product counted the common indices instead of summing the products of
the activations.
---
 src/features.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 470d783..29e1328 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -689,13 +689,9 @@ impl ndarray::linalg::Dot<Features> for Features {
 
         match self {
             Sparse(sa1) => match rhs {
-                Sparse(sa2) => sa1.activations.keys().fold(0, |acc, k| {
-                    acc + if sa2.activations.contains_key(k) {
-                        1
-                    } else {
-                        0
-                    }
-                }) as f64,
+                Sparse(sa2) => sa1.activations.iter().fold(0.0, |acc, (i, x)| {
+                    acc + x * sa2.activations.get(i).copied().unwrap_or(0.0)
+                }),
                 Dense(da2) => Features::dot_sparse(sa1, da2),
             },
             Dense(da1) => match rhs {
-- 
2.43.0


From 0f17fe5f250e47af541d2592c8778298cda6ea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 03/21] fix: n_active does not count explicit zeros of sparse
 features

Entries stored with a zero activation are not active; the dense variant
already ignores them.
---
 src/features.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features.rs b/src/features.rs
index 29e1328..6f8a6e9 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -184,7 +184,7 @@ impl Features {
         apply_to_features!(self => da, {
             da.iter().filter(|v| v.abs() > 1e-7).count()
         }; sa, {
-            sa.activations.len()
+            sa.activations.values().filter(|v| v.abs() > 1e-7).count()
         })
     }
 
-- 
2.43.0


From 6248765d92f05adc73d79860cb355e2a8eba03ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 04/21] fix: stack and Vec::from respect the logical order of
 dense features

Both took the raw buffer of the dense array, which is only the feature
vector itself if the array is contiguous and in standard layout: sliced,
strided or reversed arrays gave wrong activations or a panic.
---
 src/features.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 6f8a6e9..7707ea3 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -303,8 +303,8 @@ impl Features {
                 })
             }
             (f1, f2) => {
-                let mut all_activations = f1.into_dense().into_raw_vec();
-                all_activations.extend_from_slice(f2.into_dense().as_slice().unwrap());
+                let mut all_activations: Vec<ActivationT> = f1.into();
+                all_activations.extend(f2.into_dense());
 
                 Dense(all_activations.into())
             }
@@ -783,7 +783,7 @@ impl From<Features> for DenseActivations {
 
 impl From<Features> for Vec<ActivationT> {
     fn from(phi: Features) -> Vec<ActivationT> {
-        phi.into_dense().into_raw_vec()
+        phi.into_dense().into_iter().collect()
     }
 }
 
-- 
2.43.0


From d2052330bf324274995bae1b727e7c3c7107505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 05/21] fix: converting sparse records and index lists keeps
 the dimensionality

From<SparseActivations> discarded the declared dimensionality and panicked
without active features; From<Vec<usize>> panicked on an empty list.
---
 src/features.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 7707ea3..e2a37c2 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -755,18 +755,13 @@ impl FromIterator<ActivationT> for Features {
 
 impl From<SparseActivations> for Features {
     fn from(sa: SparseActivations) -> Features {
-        let n = sa.activations.iter().map(|(i, _)| i).max().unwrap() + 1;
-
-        SparseFeatures(SparseActivations {
-            dim: n,
-            activations: sa.activations,
-        })
+        SparseFeatures(sa)
     }
 }
 
 impl From<Vec<IndexT>> for Features {
     fn from(indices: Vec<IndexT>) -> Features {
-        let n = indices.iter().max().unwrap() + 1;
+        let n = indices.iter().max().map_or(0, |i| i + 1);
 
         SparseFeatures(SparseActivations {
             dim: n,
-- 
2.43.0


From e21a4e890bf1c12189d80f3b9233633f1a27c16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 06/21] fix: in-place map and merge leave a valid value when
 the function panics

The placeholder was a zeroed Features, which is undefined behaviour and
was dropped or read by the caller if the user function panicked.
---
 src/features.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index e2a37c2..0a4573d 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -376,10 +376,9 @@ impl Features {
 
     /// Mutate all feature activations inplace using an operation, `f`.
     pub fn map_inplace(&mut self, f: impl Fn(ActivationT) -> ActivationT) {
-        let tmp = unsafe { mem::MaybeUninit::zeroed().assume_init() };
-        let old = mem::replace(self, tmp);
+        let old = mem::replace(self, Features::dense(None));
 
-        mem::drop(mem::replace(self, old.map_into(f)));
+        *self = old.map_into(f);
     }
 
     /// Map the function `f` over the internal `DenseActivations` representation
@@ -541,10 +540,9 @@ impl Features {
         other: &Features,
         f: impl Fn(ActivationT, ActivationT) -> ActivationT,
     ) {
-        let tmp = unsafe { mem::MaybeUninit::zeroed().assume_init() };
-        let old = mem::replace(self, tmp);
+        let old = mem::replace(self, Features::dense(None));
 
-        mem::drop(mem::replace(self, old.merge_into(other, f)));
+        *self = old.merge_into(other, f);
     }
 
     /// Perform a fold operation over the feature activations.
-- 
2.43.0


From 620b9929fe509f9386aa738bed5ada95bf497075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 07/21] fix: merging covers every coordinate of sparse operands

Merging a dense vector with a sparse one skipped the inactive coordinates,
merging two sparse vectors ignored the value of the function at (0, 0), and
operands of different dimensionality panicked depending on their order.
---
 src/features.rs | 67 ++++++++++++++++++-------------------------------
 1 file changed, 24 insertions(+), 43 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 0a4573d..0e96a0a 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -2,7 +2,7 @@
 use ndarray::{linalg::Dot, Array1, ArrayBase, Data, DataMut, Dimension, NdIndex};
 use std::{
     iter::FromIterator,
-    mem::{self, MaybeUninit},
+    mem,
     ops::{AddAssign, Index},
 };
 
@@ -427,37 +427,21 @@ impl Features {
 
         match self {
             Dense(da1) => {
-                let mut a_out = da1.clone();
-
                 match other {
                     Dense(da2) => {
-                        a_out.zip_mut_with(da2, |x, y| *x = f(*x, *y));
+                        let mut a_out = da1.clone();
 
-                        Dense(a_out)
-                    }
-                    Sparse(sa2) => {
-                        for (&i, a) in sa2.iter() {
-                            a_out[i] = f(a_out[i], *a);
-                        }
+                        a_out.zip_mut_with(da2, |x, y| *x = f(*x, *y));
 
                         Dense(a_out)
                     }
+                    Sparse(_) => self.merge_padded(other, f),
                 }
             }
             Sparse(sa1) => match other {
-                Dense(da2) => {
-                    let n = sa1.dim.max(da2.len());
-                    let mut phi = Array1::uninit(n);
-
-                    for i in 0..n {
-                        phi[i] = MaybeUninit::new(f(
-                            sa1.activations.get(&i).cloned().unwrap_or(0.0),
-                            da2[i],
-                        ));
-                    }
-
-                    unsafe { Dense(phi.assume_init()) }
-                }
+                Dense(_) => self.merge_padded(other, f),
+                // Does the function activate inactive features?
+                Sparse(_) if !(f(0.0, 0.0).abs() < 1e-5) => self.merge_padded(other, f),
                 Sparse(sa2) => {
                     let mut idx_out = sa1.activations.clone();
 
@@ -478,6 +462,19 @@ impl Features {
         }
     }
 
+    /// Merge two feature vectors coordinate by coordinate into a dense one, the
+    /// vector of lower dimensionality being padded with zeros.
+    fn merge_padded(
+        &self,
+        other: &Features,
+        f: impl Fn(ActivationT, ActivationT) -> ActivationT,
+    ) -> Features {
+        let n = self.n_features().max(other.n_features());
+        let at = |phi: &Features, i| phi.get(i).copied().unwrap_or(0.0);
+
+        (0..n).map(|i| f(at(self, i), at(other, i))).collect()
+    }
+
     /// Merge `self` with another feature vector using a given operation, `f`.
     pub fn merge_into(
         self,
@@ -493,28 +490,12 @@ impl Features {
 
                     Dense(da1)
                 }
-                Sparse(sa2) => {
-                    for (&i, a) in sa2.iter() {
-                        da1[i] = f(da1[i], *a);
-                    }
-
-                    Dense(da1)
-                }
+                Sparse(_) => Dense(da1).merge_padded(other, f),
             },
             Sparse(mut sa1) => match other {
-                Dense(da2) => {
-                    let n = sa1.dim.max(da2.len());
-                    let mut phi = Array1::uninit(n);
-
-                    for i in 0..n {
-                        phi[i] = MaybeUninit::new(f(
-                            sa1.activations.get(&i).copied().unwrap_or(0.0),
-                            da2.get(i).copied().unwrap_or(0.0),
-                        ));
-                    }
-
-                    unsafe { Dense(phi.assume_init()) }
-                }
+                Dense(_) => Sparse(sa1).merge_padded(other, f),
+                // Does the function activate inactive features?
+                Sparse(_) if !(f(0.0, 0.0).abs() < 1e-5) => Sparse(sa1).merge_padded(other, f),
                 Sparse(sa2) => {
                     for (i, a) in sa1.activations.iter_mut() {
                         *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));
-- 
2.43.0


From 006f04e94727c0145d18cbdde8a4e6d899d47ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 08/21] fix: single-feature evaluation of a dense Fixed basis
 covers all features

Every index but 0 was rejected, and an empty basis panicked.
---
 src/basis/constant.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/basis/constant.rs b/src/basis/constant.rs
index e6e0994..394e87c 100644
--- a/src/basis/constant.rs
+++ b/src/basis/constant.rs
@@ -65,9 +65,7 @@ impl<T> Basis<T> for Fixed<Vec<f64>> {
 
 impl<T> EnumerableBasis<T> for Fixed<Vec<f64>> {
     fn ith(&self, _: T, index: IndexT) -> Result<ActivationT> {
-        check_index!(index < 1 => {
-            Ok(*self.0.get(index).unwrap())
-        })
+        check_index!(index < self.0.len() => { Ok(self.0[index]) })
     }
 }
 
-- 
2.43.0


From 6ff2df561960c794427c4f629c8d55c2b31a5772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 09/21] fix: Matern 5/2 kernel uses the square root of 5

---
 src/basis/kernels/stationary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/kernels/stationary.rs b/src/basis/kernels/stationary.rs
index 4f0f5e9..08f650a 100644
--- a/src/basis/kernels/stationary.rs
+++ b/src/basis/kernels/stationary.rs
@@ -83,7 +83,7 @@ stationary_kernel!(
     self,
     r,
     {
-        let sqrt_5 = 3.0f64.sqrt();
+        let sqrt_5 = 5.0f64.sqrt();
 
         self.variance * (1.0 + sqrt_5 * r + 5.0 / 3.0 * r * r) * (-sqrt_5 * r).exp()
     }
-- 
2.43.0


From 1e57faed0a706c75c638cc950149b2f34b4ac441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 10/21] fix: a single kernel lengthscale applies to every
 dimension

Kernels built with non_ard or default have one lengthscale; zipping it with
the coordinates silently ignored all dimensions but the first.
---
 src/basis/kernels/rational_quadratic.rs | 2 +-
 src/basis/kernels/stationary.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basis/kernels/rational_quadratic.rs b/src/basis/kernels/rational_quadratic.rs
index 21678c3..c216d11 100644
--- a/src/basis/kernels/rational_quadratic.rs
+++ b/src/basis/kernels/rational_quadratic.rs
@@ -47,7 +47,7 @@ impl super::Kernel<&[f64]> for RationalQuadratic {
             .iter()
             .zip(y.iter())
             .map(|(x, y)| x - y)
-            .zip(self.lengthscales.iter())
+            .zip(self.lengthscales.iter().cycle())
             .map(|(d, l)| d / l)
             .fold(0.0, |acc, z| acc + z * z)
             .sqrt();
diff --git a/src/basis/kernels/stationary.rs b/src/basis/kernels/stationary.rs
index 08f650a..edc2f5c 100644
--- a/src/basis/kernels/stationary.rs
+++ b/src/basis/kernels/stationary.rs
@@ -42,7 +42,7 @@ macro_rules! stationary_kernel {
                     .into_iter()
                     .zip(y.into_iter())
                     .map(|(x, y)| x - y)
-                    .zip($self.lengthscales.iter())
+                    .zip($self.lengthscales.iter().cycle())
                     .map(|(d, l)| d / l)
                     .fold(0.0f64, |acc, z| acc + z * z)
                     .sqrt())
-- 
2.43.0


From 1558edea162031a1c0298b3279fde9fb699dad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 11/21] fix: normalising a zero projection leaves it as it is

The projection was divided by its norm of zero, which turned every feature
into NaN (and, for L0, sparse features into dense ones).
---
 src/basis/normalisation.rs | 46 ++++++++++++++------------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/src/basis/normalisation.rs b/src/basis/normalisation.rs
index 6fa0fc4..546e01a 100644
--- a/src/basis/normalisation.rs
+++ b/src/basis/normalisation.rs
@@ -1,8 +1,17 @@
 use super::*;
-use crate::{ActivationT, Features, IndexT, Result, SparseActivations};
+use crate::{ActivationT, Features, Result};
 use spaces::{Card, Dim, Space};
 use std::f64;
 
+/// Divide by the norm `z`, leaving features whose norm is zero as they are.
+fn divide(features: Features, z: f64) -> Features {
+    if z > 0.0 {
+        features.map_into(|x| x / z)
+    } else {
+        features
+    }
+}
+
 /// Apply _L₀_ normalisation to the output of a `Basis` instance.
 #[derive(Clone, Copy, Debug, PartialEq)]
 #[cfg_attr(
@@ -31,7 +40,7 @@ where B: Basis<T, Value = Features>
         self.0.project(input).map(|f| {
             let z = f.n_active() as f64;
 
-            f.map_into(|x| x / z)
+            divide(f, z)
         })
     }
 }
@@ -85,19 +94,12 @@ where B: Basis<T, Value = Features>
             Features::Dense(da) => {
                 let z = da.fold(0.0, |acc, x| acc + x.abs());
 
-                Features::Dense(da.mapv(|x| x / z))
+                divide(Features::Dense(da), z)
             },
             Features::Sparse(sa) => {
                 let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs());
 
-                Features::Sparse(SparseActivations {
-                    dim: sa.dim,
-                    activations: sa
-                        .activations
-                        .into_iter()
-                        .map(|(i, x)| (i, x / z))
-                        .collect(),
-                })
+                divide(Features::Sparse(sa), z)
             },
         })
     }
@@ -154,19 +156,12 @@ where B: Basis<T, Value = Features>
             Features::Dense(da) => {
                 let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();
 
-                Features::Dense(da.mapv(|x| x / z))
+                divide(Features::Dense(da), z)
             },
             Features::Sparse(sa) => {
                 let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt();
 
-                Features::Sparse(SparseActivations {
-                    dim: sa.dim,
-                    activations: sa
-                        .activations
-                        .into_iter()
-                        .map(|(i, x)| (i, x / z))
-                        .collect(),
-                })
+                divide(Features::Sparse(sa), z)
             },
         })
     }
@@ -223,21 +218,14 @@ where B: Basis<T, Value = Features>
             Features::Dense(da) => {
                 let z = da.fold(f64::NEG_INFINITY, |acc, &x| acc.max(x.abs()));
 
-                Features::Dense(da.mapv(|x| x / z))
+                divide(Features::Dense(da), z)
             },
             Features::Sparse(sa) => {
                 let z = sa
                     .iter()
                     .fold(f64::NEG_INFINITY, |acc, (_, x)| acc.max(x.abs()));
 
-                Features::Sparse(SparseActivations {
-                    dim: sa.dim,
-                    activations: sa
-                        .activations
-                        .into_iter()
-                        .map(|(i, x)| (i, x / z))
-                        .collect(),
-                })
+                divide(Features::Sparse(sa), z)
             },
         })
     }
-- 
2.43.0


From c444cd5e91493bc8363c2b73b140f1b3dae819a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 12/21] fix: normalised bases evaluate inactive sparse features
 to zero

Single-feature evaluation panicked for features that are inactive in a
sparse projection, and divided by zero norms.
---
 src/basis/normalisation.rs | 42 +++++---------------------------------
 1 file changed, 5 insertions(+), 37 deletions(-)

diff --git a/src/basis/normalisation.rs b/src/basis/normalisation.rs
index 546e01a..42ace72 100644
--- a/src/basis/normalisation.rs
+++ b/src/basis/normalisation.rs
@@ -1,5 +1,5 @@
 use super::*;
-use crate::{ActivationT, Features, Result};
+use crate::{ActivationT, Features, IndexT, Result};
 use spaces::{Card, Dim, Space};
 use std::f64;
 
@@ -52,13 +52,7 @@ where
 {
     fn ith(&self, input: T, index: IndexT) -> Result<ActivationT> {
         check_index!(index < self.dim().into() => {
-            self.0
-                .project(input)
-                .map(|f| {
-                    let z = f.n_active() as f64;
-
-                    unsafe { f.uget(index).unwrap() / z }
-                })
+            self.project(input).map(|f| f[index])
         })
     }
 }
@@ -112,15 +106,7 @@ where
 {
     fn ith(&self, input: T, index: IndexT) -> Result<ActivationT> {
         check_index!(index < self.dim().into() => {
-            self.0.project(input).map(|f| match f {
-                Features::Dense(da) => {
-                    let z = da.fold(0.0, |acc, x| acc + x.abs());
-
-                    da[index] / z
-                },
-                Features::Sparse(sa) =>
-                    sa.activations[&index] / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs()),
-            })
+            self.project(input).map(|f| f[index])
         })
     }
 }
@@ -174,15 +160,7 @@ where
 {
     fn ith(&self, input: T, index: IndexT) -> Result<ActivationT> {
         check_index!(index < self.dim().into() => {
-            self.0.project(input).map(|f| match f {
-                Features::Dense(da) => {
-                    let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();
-
-                    da[index] / z
-                },
-                Features::Sparse(sa) =>
-                    sa.activations[&index] / sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt(),
-            })
+            self.project(input).map(|f| f[index])
         })
     }
 }
@@ -238,17 +216,7 @@ where
 {
     fn ith(&self, input: T, index: IndexT) -> Result<ActivationT> {
         check_index!(index < self.dim().into() => {
-            self.0.project(input).map(|f| match f {
-                Features::Dense(da) => {
-                    let z = da.fold(f64::NEG_INFINITY, |acc, &x| acc.max(x.abs()));
-
-                    da[index] / z
-                },
-                Features::Sparse(sa) => sa.activations[&index] / sa.iter().fold(
-                    f64::NEG_INFINITY,
-                    |acc, (_, x)| acc.max(x.abs())
-                ),
-            })
+            self.project(input).map(|f| f[index])
         })
     }
 }
-- 
2.43.0


From e4d5eb31c77b0dfe3f66d5f480ed539855a89bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 13/21] fix: the zeroth term can be added to a polynomial basis
 of order zero

with_zeroth looked up the first monomial, of which order zero has none.
---
 src/basis/polynomial/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/basis/polynomial/mod.rs b/src/basis/polynomial/mod.rs
index 1600382..ba915e3 100644
--- a/src/basis/polynomial/mod.rs
+++ b/src/basis/polynomial/mod.rs
@@ -54,7 +54,8 @@ impl Polynomial {
     }
 
     pub fn with_zeroth(mut self) -> Self {
-        self.exponents.push(vec![0; self.exponents[0].len()]);
+        self.exponents
+            .push(vec![0; self.exponents.first().map_or(0, |e| e.len())]);
         self
     }
 
-- 
2.43.0


From da492b0542846abde62c0d88617c77ace1577bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 14/21] fix: tile coding partitions negative coordinates like
 positive ones

Truncating division made the tiles around zero almost twice as wide, and
different between tilings in the wrong way.
---
 src/basis/tile_coding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/tile_coding.rs b/src/basis/tile_coding.rs
index 9145c98..202d660 100644
--- a/src/basis/tile_coding.rs
+++ b/src/basis/tile_coding.rs
@@ -28,7 +28,7 @@ fn hash_state<'a, H: Hasher + 'a>(
         for (i, s) in state.iter().enumerate() {
             let offset = t + i as isize * tx2;
 
-            hasher.write_isize((s + offset) / n_tilings as isize)
+            hasher.write_isize((s + offset).div_euclid(n_tilings as isize))
         }
 
         hasher.finish() as usize % memory_size
-- 
2.43.0


From d04d74f11a78665044af1156beeb203ae526afd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 15/21] fix: tilings of a tile coding are hashed independently

One hasher was fed with every tiling in turn, so that the tile activated in
a tiling depended on all previous tilings and nearby inputs shared only the
tiles before the first that differed.
---
 src/basis/tile_coding.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/basis/tile_coding.rs b/src/basis/tile_coding.rs
index 202d660..6790358 100644
--- a/src/basis/tile_coding.rs
+++ b/src/basis/tile_coding.rs
@@ -12,8 +12,8 @@ where I: IntoIterator<Item = &'a f64> {
         .collect()
 }
 
-fn hash_state<'a, H: Hasher + 'a>(
-    mut hasher: H,
+fn hash_state<'a, H: BuildHasher>(
+    hasher_builder: &'a H,
     state: &'a [isize],
     n_tilings: usize,
     memory_size: usize,
@@ -22,6 +22,7 @@ fn hash_state<'a, H: Hasher + 'a>(
     (0..n_tilings).map(move |t| {
         let t = t as isize;
         let tx2 = t * 2;
+        let mut hasher = hasher_builder.build_hasher();
 
         hasher.write_isize(t);
 
@@ -75,7 +76,7 @@ where
     fn project(&self, input: T) -> Result<Features> {
         let state = bin_state(input, self.n_tilings);
         let hash = hash_state(
-            self.hasher_builder.build_hasher(),
+            &self.hasher_builder,
             &state,
             self.n_tilings,
             self.memory_size,
@@ -97,7 +98,7 @@ where
         check_index!(index < self.memory_size => {
             let state = bin_state(input, self.n_tilings);
             let mut hash = hash_state(
-                self.hasher_builder.build_hasher(),
+                &self.hasher_builder,
                 &state,
                 self.n_tilings,
                 self.memory_size
-- 
2.43.0


From 629deec71e6e4865e3fa29586241800ef72ad268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 16/21] fix: Nesterov look-ahead step is scaled like the
 gradient

The step added momentum * features to the weights, ignoring the learning
rate and the scale factor (a zero error still moved the weights); it is
lr * (momentum * velocity + gradient).
---
 src/optim/nesterov.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optim/nesterov.rs b/src/optim/nesterov.rs
index 04e3080..13d2a0b 100644
--- a/src/optim/nesterov.rs
+++ b/src/optim/nesterov.rs
@@ -51,8 +51,8 @@ impl Optimiser<Features> for NAG {
             }
         }
         {
-            weights.scaled_add(lr, &self.velocity);
-            features.scaled_addto(m, weights);
+            weights.scaled_add(lr * m, &self.velocity);
+            features.scaled_addto(lr * scale_factor, weights);
         }
         Ok(())
     }
-- 
2.43.0


From 5c4b46374962c1b67f202f0b249e113bc0923400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 17/21] fix: Adam and AdaMax correct the first step by 1 - beta

The running products started at beta but are multiplied before their first
use, so that step k was corrected by 1 - beta^(k+1).
---
 src/optim/adam.rs   | 4 ++--
 src/optim/adamax.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optim/adam.rs b/src/optim/adam.rs
index 8ecf17e..3c92644 100644
--- a/src/optim/adam.rs
+++ b/src/optim/adam.rs
@@ -30,10 +30,10 @@ impl Adam {
     pub fn new(n_params: usize, learning_rate: f64, beta1: f64, beta2: f64) -> Self {
         Adam {
             beta1,
-            beta1_prod: beta1,
+            beta1_prod: 1.0,
 
             beta2,
-            beta2_prod: beta2,
+            beta2_prod: 1.0,
 
             learning_rate,
 
diff --git a/src/optim/adamax.rs b/src/optim/adamax.rs
index 9910479..832882d 100644
--- a/src/optim/adamax.rs
+++ b/src/optim/adamax.rs
@@ -29,7 +29,7 @@ impl AdaMax {
     pub fn new(n_params: usize, learning_rate: f64, beta1: f64, beta2: f64) -> Self {
         AdaMax {
             beta1,
-            beta1_prod: beta1,
+            beta1_prod: 1.0,
 
             beta2,
 
-- 
2.43.0


From d5d02a08940d66cc75ce71e61354319315371935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 18/21] fix: resetting Adam and AdaMax restarts the bias
 correction

---
 src/optim/adam.rs   | 3 +++
 src/optim/adamax.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/optim/adam.rs b/src/optim/adam.rs
index 3c92644..96a5284 100644
--- a/src/optim/adam.rs
+++ b/src/optim/adam.rs
@@ -100,6 +100,9 @@ impl Optimiser<Features> for Adam {
     }
 
     fn reset(&mut self) {
+        self.beta1_prod = 1.0;
+        self.beta2_prod = 1.0;
+
         self.exp_avg.fill(0.0);
         self.exp_avg_sq.fill(0.0);
     }
diff --git a/src/optim/adamax.rs b/src/optim/adamax.rs
index 832882d..6d321c1 100644
--- a/src/optim/adamax.rs
+++ b/src/optim/adamax.rs
@@ -93,6 +93,8 @@ impl Optimiser<Features> for AdaMax {
     }
 
     fn reset(&mut self) {
+        self.beta1_prod = 1.0;
+
         self.exp_avg.fill(0.0);
         self.exp_inf.fill(0.0);
     }
-- 
2.43.0


From 21e604a76bbb7655a0a2e70daa8c3db857ff0ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 19/21] fix: deferred vector updates take errors in their
 logical order

The raw buffer of the error array was used, which differs from the array
if it was sliced, strided or reversed.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7e4da79..d484aef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -307,7 +307,7 @@ impl<B, O> VectorLFA<B, O> {
         self.basis.project(input).and_then(|ref b| {
             let opt = &mut self.optimiser;
             let values = b.matmul(&self.weights);
-            let errors = f(b, values).into_raw_vec();
+            let errors = f(b, values);
 
             errors
                 .into_iter()
-- 
2.43.0


From 791b690829958709708e8ffeb6d4b6ea897a5b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:13 +0000
Subject: [PATCH 20/21] fix: the L2 norm neither over- nor underflows

---
 src/basis/normalisation.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/basis/normalisation.rs b/src/basis/normalisation.rs
index 42ace72..ead1a60 100644
--- a/src/basis/normalisation.rs
+++ b/src/basis/normalisation.rs
@@ -12,6 +12,17 @@ fn divide(features: Features, z: f64) -> Features {
     }
 }
 
+/// The Euclidean norm, scaled such that no square over- or underflows.
+fn euclidean<'a>(xs: impl Iterator<Item = &'a f64> + Clone) -> f64 {
+    let max = xs.clone().fold(0.0f64, |acc, x| acc.max(x.abs()));
+
+    if max > 0.0 && max.is_finite() {
+        max * xs.fold(0.0, |acc, x| acc + (x / max).powi(2)).sqrt()
+    } else {
+        max
+    }
+}
+
 /// Apply _L₀_ normalisation to the output of a `Basis` instance.
 #[derive(Clone, Copy, Debug, PartialEq)]
 #[cfg_attr(
@@ -140,12 +151,12 @@ where B: Basis<T, Value = Features>
     fn project(&self, input: T) -> Result<Features> {
         self.0.project(input).map(|f| match f {
             Features::Dense(da) => {
-                let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();
+                let z = euclidean(da.iter());
 
                 divide(Features::Dense(da), z)
             },
             Features::Sparse(sa) => {
-                let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt();
+                let z = euclidean(sa.activations.values());
 
                 divide(Features::Sparse(sa), z)
             },
-- 
2.43.0


From ecc584031a1b782171e04a2d07f79166e1f42eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 21/21] fix: tile coding does not overflow for inputs beyond
 the integer range

---
 src/basis/tile_coding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/tile_coding.rs b/src/basis/tile_coding.rs
index 6790358..5cb4341 100644
--- a/src/basis/tile_coding.rs
+++ b/src/basis/tile_coding.rs
@@ -29,7 +29,7 @@ fn hash_state<'a, H: BuildHasher>(
         for (i, s) in state.iter().enumerate() {
             let offset = t + i as isize * tx2;
 
-            hasher.write_isize((s + offset).div_euclid(n_tilings as isize))
+            hasher.write_isize(s.saturating_add(offset).div_euclid(n_tilings as isize))
         }
 
         hasher.finish() as usize % memory_size
-- 
2.43.0

