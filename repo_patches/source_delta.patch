From a3ad763bdc888fee8a95bc92aeb1e3fff5218937 Mon Sep 17 00:00:00 2001
From: vp <vp@local>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 01/34] fix: fft8/fft16 kernels use constants of the element
 type's precision

---
 src/fft_kernels.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/fft_kernels.rs b/src/fft_kernels.rs
index c260160..e7fe918 100644
--- a/src/fft_kernels.rs
+++ b/src/fft_kernels.rs
@@ -32,7 +32,7 @@ pub fn fft4<T: Float>(input: &mut [Complex<T>]) {
 pub fn fft8<T: Float>(input: &mut [Complex<T>]) {
     debug_assert_eq!(input.len(), 8);
     let w1 = Complex::new(T::zero(), -T::one());
-    let s = T::from_f32(0.70710677); // sqrt(2)/2
+    let s = (T::pi() / T::from_f32(4.0)).cos(); // sqrt(2)/2
 
     // load inputs before overwriting
     let x0 = input[0];
@@ -107,7 +107,7 @@ pub fn fft16<T: Float>(input: &mut [Complex<T>]) {
     let x15 = input[15];
 
     let w1 = Complex::new(T::zero(), -T::one());
-    let s = T::from_f32(0.70710677); // sqrt(2)/2
+    let s = (T::pi() / T::from_f32(4.0)).cos(); // sqrt(2)/2
 
     // ---- even index FFT8 ----
     let a0 = x0.add(x8);
@@ -178,12 +178,13 @@ pub fn fft16<T: Float>(input: &mut [Complex<T>]) {
     input[15] = oa3.sub(t3);
 
     // ---- twiddle multiply odd half ----
-    let c1 = T::from_f32(0.9238795);
-    let s1 = T::from_f32(-0.38268343);
-    let c2 = T::from_f32(0.70710677);
-    let s2 = T::from_f32(-0.70710677);
-    let c3 = T::from_f32(0.38268343);
-    let s3 = T::from_f32(-0.9238795);
+    let (sin_pi_8, cos_pi_8) = (T::pi() / T::from_f32(8.0)).sin_cos();
+    let c1 = cos_pi_8;
+    let s1 = -sin_pi_8;
+    let c2 = s;
+    let s2 = -s;
+    let c3 = sin_pi_8;
+    let s3 = -cos_pi_8;
     let c4 = T::zero();
     let s4 = T::from_f32(-1.0);
 
-- 
2.43.0


From bb913c68cf85c30361e460df7213a9d991076744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 02/34] fix: trigonometry without std calls libm instead of
 recursing forever

---
 src/num.rs | 72 ++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 64 insertions(+), 8 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index af16bca..7300aed 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -48,20 +48,48 @@ impl Float for f32 {
         x
     }
     fn cos(self) -> Self {
-        f32::cos(self)
+        #[cfg(feature = "std")]
+        {
+            f32::cos(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::cosf(self)
+        }
     }
     fn sin(self) -> Self {
-        f32::sin(self)
+        #[cfg(feature = "std")]
+        {
+            f32::sin(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::sinf(self)
+        }
     }
     fn sin_cos(self) -> (Self, Self) {
-        f32::sin_cos(self)
+        #[cfg(feature = "std")]
+        {
+            f32::sin_cos(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::sincosf(self)
+        }
     }
     fn pi() -> Self {
         PI32
     }
     #[inline(always)]
     fn mul_add(self, a: Self, b: Self) -> Self {
-        f32::mul_add(self, a, b)
+        #[cfg(feature = "std")]
+        {
+            f32::mul_add(self, a, b)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::fmaf(self, a, b)
+        }
     }
 }
 
@@ -85,20 +113,48 @@ impl Float for f64 {
         x as f64
     }
     fn cos(self) -> Self {
-        f64::cos(self)
+        #[cfg(feature = "std")]
+        {
+            f64::cos(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::cos(self)
+        }
     }
     fn sin(self) -> Self {
-        f64::sin(self)
+        #[cfg(feature = "std")]
+        {
+            f64::sin(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::sin(self)
+        }
     }
     fn sin_cos(self) -> (Self, Self) {
-        f64::sin_cos(self)
+        #[cfg(feature = "std")]
+        {
+            f64::sin_cos(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::sincos(self)
+        }
     }
     fn pi() -> Self {
         core::f64::consts::PI
     }
     #[inline(always)]
     fn mul_add(self, a: Self, b: Self) -> Self {
-        f64::mul_add(self, a, b)
+        #[cfg(feature = "std")]
+        {
+            f64::mul_add(self, a, b)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::fma(self, a, b)
+        }
     }
 }
 
-- 
2.43.0


From bfa154851bcb8a4d0c4f66b13ff9a880573d6530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 03/34] fix: Stockham FFT uses only the first n elements of
 reused split buffers

---
 src/fft.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 250a04a..ba8534b 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -685,8 +685,8 @@ impl<T: Float> ScalarFftImpl<T> {
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f32>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f32>) };
             let input32 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex32]) };
-            let re32 = unsafe { &mut *(split_re.as_mut_slice() as *mut [T] as *mut [f32]) };
-            let im32 = unsafe { &mut *(split_im.as_mut_slice() as *mut [T] as *mut [f32]) };
+            let re32 = unsafe { &mut *(&mut split_re[..n] as *mut [T] as *mut [f32]) };
+            let im32 = unsafe { &mut *(&mut split_im[..n] as *mut [T] as *mut [f32]) };
             for (c, (r, i)) in input32.iter().zip(re32.iter_mut().zip(im32.iter_mut())) {
                 *r = c.re;
                 *i = c.im;
@@ -707,8 +707,8 @@ impl<T: Float> ScalarFftImpl<T> {
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f64>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f64>) };
             let input64 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex64]) };
-            let re64 = unsafe { &mut *(split_re.as_mut_slice() as *mut [T] as *mut [f64]) };
-            let im64 = unsafe { &mut *(split_im.as_mut_slice() as *mut [T] as *mut [f64]) };
+            let re64 = unsafe { &mut *(&mut split_re[..n] as *mut [T] as *mut [f64]) };
+            let im64 = unsafe { &mut *(&mut split_im[..n] as *mut [T] as *mut [f64]) };
             for (c, (r, i)) in input64.iter().zip(re64.iter_mut().zip(im64.iter_mut())) {
                 *r = c.re;
                 *i = c.im;
-- 
2.43.0


From a40d48858008d5757bc77487f6458a0adb145519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 04/34] fix: Bluestein FFT sizes its reused scratch buffer to
 the current transform

---
 src/fft.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index ba8534b..6cf41a9 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1096,9 +1096,8 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             let chirp = chirp_arc.as_ref();
             let fft_b = fft_b_arc.as_ref();
             let m = fft_b.len();
-            if a.len() < m {
-                a.resize(m, Complex::zero());
-            }
+            // A longer transform may have left a larger buffer behind.
+            a.resize(m, Complex::zero());
             for (i, &val) in input.iter().take(n).enumerate() {
                 a[i] = val.mul(chirp[i]);
             }
-- 
2.43.0


From 8dcb25a169b8ea05952e1534cc2b7a978a355d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 05/34] fix: radix-4 FFT reorders its input by base-4 digit
 reversal

---
 src/fft.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 6cf41a9..c825240 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1457,15 +1457,15 @@ impl<T: Float> ScalarFftImpl<T> {
             // Fallback to generic FFT if not power of four
             return self.fft(input);
         }
-        // Bit-reversal for radix-4
-        let mut j = 0usize;
+        // Base-4 digit reversal
+        let digits = n.trailing_zeros() / 2;
         for i in 1..n {
-            let mut bit = n >> 2;
-            while j & bit != 0 {
-                j ^= bit;
-                bit >>= 2;
+            let mut j = 0usize;
+            let mut rest = i;
+            for _ in 0..digits {
+                j = (j << 2) | (rest & 3);
+                rest >>= 2;
             }
-            j ^= bit;
             if i < j {
                 input.swap(i, j);
             }
-- 
2.43.0


From e53574f81d9fc8b9ea50166f919ee978f2df9eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 06/34] fix: stockham_fft accepts a single sample

---
 src/fft.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fft.rs b/src/fft.rs
index c825240..0180499 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -654,6 +654,7 @@ impl<T: Float> ScalarFftImpl<T> {
         }
         if n <= 16 {
             match n {
+                1 => {}
                 2 => fft2(input),
                 4 => fft4(input),
                 8 => fft8(input),
-- 
2.43.0


From ba013fa11e33ce20d03adca7ffaeab5151f90a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 07/34] fix: fft_mixed_radix_with_twiddles rejects empty input
 instead of looping

---
 src/fft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index 0180499..3c43893 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1665,6 +1665,9 @@ impl ScalarFftImpl<f32> {
         twiddles: &TwiddleFactorBuffer,
     ) -> Result<(), FftError> {
         let n = input.len();
+        if n == 0 {
+            return Err(FftError::EmptyInput);
+        }
         let factors = factorize(n);
         if factors.iter().all(|&f| f == 2 || f == 4) {
             if factors.iter().all(|&f| f == 4) {
-- 
2.43.0


From 087de325e51964326a6ff17f55d0bcb991291754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 08/34] fix: strided FFT length check cannot overflow

---
 src/fft.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 3c43893..f53c585 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1185,7 +1185,7 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 0 {
             return Ok(());
         }
-        if input.len() < (n - 1) * stride + 1 {
+        if input.len().div_ceil(stride) < n {
             return Err(FftError::MismatchedLengths);
         }
         for i in 0..n {
@@ -1246,7 +1246,7 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 0 {
             return Ok(());
         }
-        if input.len() < (n - 1) * stride + 1 {
+        if input.len().div_ceil(stride) < n {
             return Err(FftError::MismatchedLengths);
         }
         for i in 0..n {
-- 
2.43.0


From 70ff601f8f6b227ec61f1aaea62cef98e6e68241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 09/34] fix: Bluestein chirp angles are reduced modulo their
 period

---
 src/fft.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fft.rs b/src/fft.rs
index f53c585..11456d0 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -414,7 +414,8 @@ impl<T: Float> FftPlanner<T> {
             let mut chirp: Vec<Complex<T>> = Vec::with_capacity(n);
             let mut b: Vec<Complex<T>> = Vec::with_capacity(m);
             for i in 0..n {
-                let angle = T::pi() * T::from_f32((i * i) as f32) / T::from_f32(n as f32);
+                // The chirp has period 2n in i^2; reducing keeps the angle exact and small.
+                let angle = T::pi() * T::from_f32(((i * i) % (2 * n)) as f32) / T::from_f32(n as f32);
                 chirp.push(Complex::expi(-angle));
                 b.push(Complex::expi(angle));
             }
-- 
2.43.0


From 3f73e32f91e2a5447da51547d6fd42044420a080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:15 +0000
Subject: [PATCH 10/34] fix: 2D/3D FFT shape check cannot overflow

---
 src/ndfft.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ndfft.rs b/src/ndfft.rs
index 34a0c7f..8d1d900 100644
--- a/src/ndfft.rs
+++ b/src/ndfft.rs
@@ -78,7 +78,7 @@ pub fn fft2d_inplace<T: Float>(
     fft: &ScalarFftImpl<T>,
     scratch_col: &mut [Complex<T>],
 ) -> Result<(), FftError> {
-    if rows * cols != data.len() {
+    if rows.checked_mul(cols) != Some(data.len()) {
         return Err(FftError::MismatchedLengths);
     }
     if rows == 0 || cols == 0 {
@@ -119,11 +119,15 @@ pub fn fft3d_inplace<T: Float>(
     fft: &ScalarFftImpl<T>,
     scratch: &mut Fft3dScratch<'_, T>,
 ) -> Result<(), FftError> {
-    if depth * rows * cols != data.len() {
-        return Err(FftError::MismatchedLengths);
-    }
     if depth == 0 || rows == 0 || cols == 0 {
-        return Ok(());
+        return if data.is_empty() {
+            Ok(())
+        } else {
+            Err(FftError::MismatchedLengths)
+        };
+    }
+    if rows.checked_mul(cols).and_then(|p| p.checked_mul(depth)) != Some(data.len()) {
+        return Err(FftError::MismatchedLengths);
     }
     if scratch.tube.len() != depth || scratch.row.len() != rows || scratch.col.len() != cols {
         return Err(FftError::MismatchedLengths);
-- 
2.43.0


From 164cf92a10e9de560915e5e03ff8c6bd1b044583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:24 +0000
Subject: [PATCH 11/34] fix: DCT-II plan rejects inputs of another length than
 planned

---
 src/dct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dct.rs b/src/dct.rs
index ace4d1a..62b1444 100644
--- a/src/dct.rs
+++ b/src/dct.rs
@@ -67,7 +67,7 @@ impl DctPlanner {
         cos: &[f32],
     ) -> Result<(), FftError> {
         let n = input.len();
-        if output.len() != n {
+        if output.len() != n || cos.len() != n {
             return Err(FftError::MismatchedLengths);
         }
         let m = 2 * n;
-- 
2.43.0


From 8a69371e12162632621028dc79ae4aee18862eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:24 +0000
Subject: [PATCH 12/34] fix: DST-III uses the sine basis that inverts DST-II

---
 src/dst.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/dst.rs b/src/dst.rs
index 549c829..1238c0a 100644
--- a/src/dst.rs
+++ b/src/dst.rs
@@ -121,9 +121,13 @@ pub fn dst3(input: &[f32]) -> Vec<f32> {
     let mut output = vec![0.0; n];
     let factor = PI / n as f32;
     for (k, out) in output.iter_mut().enumerate() {
-        let mut sum = input[0] / 2.0;
-        for (i, &x) in input.iter().enumerate().skip(1) {
-            sum += x * (factor * (k as f32 + 0.5) * i as f32).sin();
+        // The last sample enters with half weight and alternating sign.
+        let mut sum = input[n - 1] / 2.0;
+        if k % 2 == 1 {
+            sum = -sum;
+        }
+        for (i, &x) in input.iter().take(n - 1).enumerate() {
+            sum += x * (factor * (k as f32 + 0.5) * (i as f32 + 1.0)).sin();
         }
         *out = sum;
     }
@@ -245,9 +249,13 @@ pub fn dst3_inplace_stack_fft<const N: usize>(
     // Direct computation using stack memory to ensure parity with heap-based version.
     let factor = PI / N as f32;
     for (k, out) in output.iter_mut().enumerate() {
-        let mut sum = input[0] / 2.0;
-        for (n, &x) in input.iter().enumerate().skip(1) {
-            sum += x * (factor * (k as f32 + 0.5) * n as f32).sin();
+        // The last sample enters with half weight and alternating sign.
+        let mut sum = input[N - 1] / 2.0;
+        if k % 2 == 1 {
+            sum = -sum;
+        }
+        for (n, &x) in input.iter().take(N - 1).enumerate() {
+            sum += x * (factor * (k as f32 + 0.5) * (n as f32 + 1.0)).sin();
         }
         *out = sum;
     }
-- 
2.43.0


From d7979afaf5fea55cc32236c5155284d0a8b1abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 13/34] fix: Goertzel picks the bin nearest to the target
 frequency

---
 src/goertzel.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goertzel.rs b/src/goertzel.rs
index a10ac4f..5e9dc27 100644
--- a/src/goertzel.rs
+++ b/src/goertzel.rs
@@ -21,7 +21,8 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         return Err(FftError::InvalidValue);
     }
     let n = input.len() as f32;
-    let k = floorf(target_freq * n / sample_rate);
+    // nearest bin
+    let k = floorf(target_freq * n / sample_rate + 0.5);
     let omega = 2.0 * core::f32::consts::PI * k / n;
     let coeff = 2.0 * omega.cos();
     let mut s_prev = 0.0;
@@ -44,7 +45,8 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         return Err(FftError::InvalidValue);
     }
     let n = input.len() as f32;
-    let k = floorf(target_freq * n / sample_rate);
+    // nearest bin
+    let k = floorf(target_freq * n / sample_rate + 0.5);
     let omega = 2.0 * core::f32::consts::PI * k / n;
     let coeff = 2.0 * cosf(omega);
     let mut s_prev = 0.0;
-- 
2.43.0


From 4a4d02249b65fcdb462b51cf484cf4b8ef1a8d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:52 +0000
Subject: [PATCH 14/34] fix: Goertzel returns zero instead of NaN when rounding
 makes the power negative

---
 src/goertzel.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/goertzel.rs b/src/goertzel.rs
index 5e9dc27..a085b49 100644
--- a/src/goertzel.rs
+++ b/src/goertzel.rs
@@ -33,6 +33,10 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         s_prev = s;
     }
     let power = s_prev2 * s_prev2 + s_prev * s_prev - coeff * s_prev * s_prev2;
+    if power < 0.0 {
+        // cancellation in a bin without energy
+        return Ok(0.0);
+    }
     Ok(sqrtf(power))
 }
 
@@ -57,6 +61,10 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         s_prev = s;
     }
     let power = s_prev2 * s_prev2 + s_prev * s_prev - coeff * s_prev * s_prev2;
+    if power < 0.0 {
+        // cancellation in a bin without energy
+        return Ok(0.0);
+    }
     Ok(sqrtf(power))
 }
 
-- 
2.43.0


From 19989444c22e9af67e9bd34fdfcecbb69eb7dc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 15/34] fix: db4, sym4 and coif1 inverse wavelets use the
 analysis taps, so that they undo the forward transform

---
 src/wavelet.rs | 64 +++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/wavelet.rs b/src/wavelet.rs
index 8f12b57..58a6334 100644
--- a/src/wavelet.rs
+++ b/src/wavelet.rs
@@ -314,24 +314,24 @@ pub fn db4_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let len = n * 2;
     let mut output = vec![0.0; len];
     let g = [
-        0.2303778133088965,
-        0.7148465705529157,
-        0.6308807679298589,
-        -0.027983769416859854,
-        -0.18703481171909309,
-        0.030841381835560764,
-        0.0328830116668852,
-        -0.010597401785069032,
-    ];
-    let h = [
         -0.010597401785069032,
-        -0.0328830116668852,
+        0.0328830116668852,
         0.030841381835560764,
-        0.18703481171909309,
+        -0.18703481171909309,
         -0.027983769416859854,
-        -0.6308807679298589,
+        0.6308807679298589,
         0.7148465705529157,
+        0.2303778133088965,
+    ];
+    let h = [
         -0.2303778133088965,
+        0.7148465705529157,
+        -0.6308807679298589,
+        -0.027983769416859854,
+        0.18703481171909309,
+        0.030841381835560764,
+        -0.0328830116668852,
+        -0.010597401785069032,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
@@ -408,24 +408,24 @@ pub fn sym4_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let len = n * 2;
     let mut output = vec![0.0; len];
     let g = [
-        0.0322231006040427,
-        -0.012603967262037833,
-        -0.09921954357684722,
-        0.29785779560527736,
-        0.8037387518059161,
-        0.49761866763201545,
-        -0.02963552764599851,
-        -0.07576571478927333,
-    ];
-    let h = [
         -0.07576571478927333,
-        0.02963552764599851,
+        -0.02963552764599851,
         0.49761866763201545,
-        -0.8037387518059161,
+        0.8037387518059161,
         0.29785779560527736,
-        0.09921954357684722,
+        -0.09921954357684722,
         -0.012603967262037833,
+        0.0322231006040427,
+    ];
+    let h = [
         -0.0322231006040427,
+        -0.012603967262037833,
+        0.09921954357684722,
+        0.29785779560527736,
+        -0.8037387518059161,
+        0.49761866763201545,
+        0.02963552764599851,
+        -0.07576571478927333,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
@@ -498,20 +498,20 @@ pub fn coif1_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let len = n * 2;
     let mut output = vec![0.0; len];
     let g = [
+        -0.015655728135791993,
         -0.07273261951252645,
-        0.3378976624574818,
-        0.8525720202116004,
         0.3848648468648578,
+        0.8525720202116004,
+        0.3378976624574818,
         -0.07273261951252645,
-        -0.015655728135791993,
     ];
     let h = [
-        -0.015655728135791993,
         0.07273261951252645,
-        0.3848648468648578,
-        -0.8525720202116004,
         0.3378976624574818,
+        -0.8525720202116004,
+        0.3848648468648578,
         0.07273261951252645,
+        -0.015655728135791993,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
-- 
2.43.0


From 08a6ca6729d99bdd26652da53cf7a913978c5a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 16/34] fix: multi-level wavelet reconstruction drops padding
 samples instead of panicking

---
 src/wavelet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wavelet.rs b/src/wavelet.rs
index 58a6334..d24fcad 100644
--- a/src/wavelet.rs
+++ b/src/wavelet.rs
@@ -77,6 +77,8 @@ where
 {
     let mut current = approx.to_vec();
     for d in details.iter().rev() {
+        // Drop the sample that the forward transform appended to an odd length.
+        current.truncate(d.len());
         current = inverse(&current, d);
     }
     current
-- 
2.43.0


From 62e5f671a8ecc8ac834ca920e45318a4c83d96fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 17/34] fix: Bohman window spans [-1, 1] and is symmetric

---
 src/window_more.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/window_more.rs b/src/window_more.rs
index 0239224..c7217fb 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -43,8 +43,8 @@ pub fn bohman(len: usize) -> Vec<f32> {
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
-        let x = (i as f32 / (n - 1.0)) - 0.5;
-        *w_i = (1.0 - fabsf(x)) * cosf(PI * x) + 1.0 / PI * sinf(PI * x);
+        let x = fabsf(2.0 * i as f32 / (n - 1.0) - 1.0);
+        *w_i = (1.0 - x) * cosf(PI * x) + 1.0 / PI * sinf(PI * x);
     }
     w
 }
-- 
2.43.0


From 69a0d9ffd2bd52e44ca8332149564f2f4179a5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 18/34] fix: Tukey window tapers the sample at the inner end of
 each edge

---
 src/window_more.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/window_more.rs b/src/window_more.rs
index c7217fb..1d13c4e 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -7,17 +7,18 @@ use crate::num::Float;
 use alloc::vec;
 use alloc::vec::Vec;
 use core::f32::consts::PI;
-use libm::{cosf, fabsf, floorf, sinf};
+use libm::{cosf, fabsf, sinf};
 
 /// Tukey window (tapered cosine)
 pub fn tukey(len: usize, alpha: f32) -> Vec<f32> {
     let alpha = alpha.clamp(0.0, 1.0);
     let mut w = vec![0.0; len];
-    let edge = floorf(alpha * (len as f32 - 1.0) / 2.0) as usize;
+    let last = len as f32 - 1.0;
+    let edge = alpha * last / 2.0;
     for (n, w_n) in w.iter_mut().enumerate() {
-        *w_n = if n < edge {
+        *w_n = if (n as f32) < edge {
             0.5 * (1.0 + (PI * (2.0 * n as f32 / (alpha * (len as f32 - 1.0)) - 1.0)).cos())
-        } else if n < len - edge {
+        } else if n as f32 <= last - edge {
             1.0
         } else {
             0.5 * (1.0
-- 
2.43.0


From aa7f10dbe0913c530d6ac8dfadfd53745d73c1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 19/34] fix: one-sample Bartlett, Bohman and Nuttall windows
 are 1 instead of NaN

---
 src/window_more.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/window_more.rs b/src/window_more.rs
index 1d13c4e..5c73469 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -30,6 +30,9 @@ pub fn tukey(len: usize, alpha: f32) -> Vec<f32> {
 
 /// Bartlett (triangular) window
 pub fn bartlett(len: usize) -> Vec<f32> {
+    if len == 1 {
+        return vec![1.0];
+    }
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
@@ -41,6 +44,9 @@ pub fn bartlett(len: usize) -> Vec<f32> {
 
 /// Bohman window
 pub fn bohman(len: usize) -> Vec<f32> {
+    if len == 1 {
+        return vec![1.0];
+    }
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
@@ -52,6 +58,9 @@ pub fn bohman(len: usize) -> Vec<f32> {
 
 /// Nuttall window
 pub fn nuttall(len: usize) -> Vec<f32> {
+    if len == 1 {
+        return vec![1.0];
+    }
     let mut w = vec![0.0; len];
     let a0 = 0.355768;
     let a1 = 0.487396;
-- 
2.43.0


From aec709e7ab79271cbd192457e68cf29535279370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 20/34] fix: Kaiser window of length 0 or 1 neither panics nor
 returns NaN

---
 src/window.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/window.rs b/src/window.rs
index 81083eb..1998fc7 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -51,10 +51,10 @@ pub fn blackman(len: usize) -> alloc::vec::Vec<f32> {
 #[cfg(feature = "std")]
 pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
     let denom = bessel0(beta);
-    let m = (len - 1) as f32 / 2.0;
+    let m = (len as f32 - 1.0) / 2.0;
     (0..len)
         .map(|i| {
-            let r = (i as f32 - m) / m;
+            let r = if len > 1 { (i as f32 - m) / m } else { 0.0 };
             bessel0(beta * sqrtf(1.0 - r * r)) / denom
         })
         .collect()
@@ -63,10 +63,10 @@ pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
 #[cfg(not(feature = "std"))]
 pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
     let denom = bessel0(beta);
-    let m = (len - 1) as f32 / 2.0;
+    let m = (len as f32 - 1.0) / 2.0;
     (0..len)
         .map(|i| {
-            let r = (i as f32 - m) / m;
+            let r = if len > 1 { (i as f32 - m) / m } else { 0.0 };
             bessel0(beta * sqrtf(1.0 - r * r)) / denom
         })
         .collect()
-- 
2.43.0


From 88b4fb7b3d95eac2d5eee59eb577d4cc02e7d2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 21/34] fix: Kaiser window stays finite for large beta

---
 src/window.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/window.rs b/src/window.rs
index 1998fc7..69746f6 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -10,14 +10,18 @@ fn bessel0(x: f32) -> f32 {
     // Approximate I0(x) using a series expansion
     let mut sum = 1.0;
     let y = x * x / 4.0;
-    let mut t = y;
-    let mut k = 1.0;
-    for n in 1..20 {
-        k *= n as f32;
-        sum += t / (k * k);
-        t *= y;
+    let mut term = 1.0;
+    let mut n = 1.0;
+    loop {
+        term *= y / (n * n);
+        sum += term;
+        // also ends the loop when the sum has overflowed
+        let significant = term > sum * 1e-8;
+        if !significant {
+            return sum;
+        }
+        n += 1.0;
     }
-    sum
 }
 
 /// Generate a Hann window of length `len`.
-- 
2.43.0


From fae5c1b713e85130ce0738f58b304e4698a7c4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 22/34] fix: inverse STFT does not add to the previous contents
 of the output buffer

---
 src/stft.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index d91b192..70e07c9 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -132,6 +132,9 @@ pub fn istft<Fft: FftImpl<f32>>(
     for x in scratch.iter_mut() {
         *x = 0.0;
     }
+    for x in output.iter_mut() {
+        *x = 0.0;
+    }
     // Overlap-add
     for (frame_idx, frame) in frames.iter_mut().enumerate() {
         let start = frame_idx * hop_size;
@@ -322,6 +325,9 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
         })
         .collect();
     let partials = partials?;
+    for x in output.iter_mut() {
+        *x = 0.0;
+    }
     let mut norm = alloc::vec::Vec::with_capacity(output.len());
     norm.resize(output.len(), 0.0);
     for (start, acc_frame, norm_frame) in partials {
-- 
2.43.0


From 69e1c8cd3498f8bfe4aa8a83ccd9a95d1e3807d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 23/34] fix: parallel inverse STFT rejects frames of the wrong
 length instead of panicking

---
 src/stft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index 70e07c9..c0c8036 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -310,6 +310,9 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
         .enumerate()
         .map(|(frame_idx, frame)| {
             let start = frame_idx * hop_size;
+            if frame.len() != win_len {
+                return Err(FftError::MismatchedLengths);
+            }
             let mut time_buf = frame.clone();
             let fft_local = ScalarFftImpl::<f32>::default();
             fft_local.ifft(&mut time_buf)?;
-- 
2.43.0


From 72a17656613f388b01e51ea36b16c746a4809719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 24/34] fix: parallel STFT rejects too few output frames like
 the sequential one

---
 src/stft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index c0c8036..3a377c1 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -245,6 +245,9 @@ pub fn parallel<Fft: FftImpl<f32>>(
     if hop_size == 0 {
         return Err(FftError::InvalidHopSize);
     }
+    if output.len() < signal.len().div_ceil(hop_size) {
+        return Err(FftError::MismatchedLengths);
+    }
     let win_len = window.len();
     output
         .par_iter_mut()
-- 
2.43.0


From 5df460aec47e99af4a30fcf87bd7f6b51a0f0c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 25/34] fix: single-frame STFT and inverse reject frame buffers
 of the wrong length

---
 src/stft.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index 3a377c1..4a08990 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -372,6 +372,9 @@ pub fn frame<Fft: FftImpl<f32>>(
     fft: &Fft,
 ) -> Result<(), FftError> {
     let win_len = window.len();
+    if frame_out.len() != win_len {
+        return Err(FftError::MismatchedLengths);
+    }
     for i in 0..win_len {
         let x = if start + i < signal.len() {
             signal[start + i] * window[i]
@@ -401,6 +404,9 @@ pub fn inverse_frame<Fft: FftImpl<f32>>(
     fft: &Fft,
 ) -> Result<(), FftError> {
     let win_len = window.len();
+    if frame.len() != win_len {
+        return Err(FftError::MismatchedLengths);
+    }
     fft.ifft(frame)?;
     for i in 0..win_len {
         if start + i < output.len() {
-- 
2.43.0


From 1493bb88dd92301cd143075ebd54eb59d841ca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 26/34] fix: IstftStream rejects a window of another length
 than announced

---
 src/stft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index 4a08990..135a6b6 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -446,6 +446,9 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         if hop == 0 {
             return Err(FftError::InvalidHopSize);
         }
+        if window.len() != win_len {
+            return Err(FftError::MismatchedLengths);
+        }
         let buffer = vec![0.0f32; win_len + hop * 2];
         let norm_buf = vec![0.0f32; win_len + hop * 2];
         let time_buf = vec![crate::fft::Complex32::new(0.0, 0.0); win_len];
-- 
2.43.0


From 88924fc840ac67c62753b48089ecfb73e3fd573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 27/34] fix: IstftStream with a hop larger than the window does
 not run out of its buffer

---
 src/stft.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stft.rs b/src/stft.rs
index 135a6b6..beda29c 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -499,9 +499,9 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         self.out_pos += self.hop;
         self.buf_pos += self.hop;
         // Zero the region that will be written next time
-        if self.buf_pos + self.win_len > self.buffer.len() {
+        if self.buf_pos + self.win_len.max(self.hop) > self.buffer.len() {
             // Extend buffer if needed
-            let new_len = self.buf_pos + self.win_len;
+            let new_len = self.buf_pos + self.win_len.max(self.hop);
             self.buffer.resize(new_len, 0.0);
             self.norm_buf.resize(new_len, 0.0);
         }
-- 
2.43.0


From aa82587f10bae911c40dc4de6aa79916fb767718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 28/34] fix: stft_magnitudes rejects a zero hop size instead of
 panicking

---
 src/visual/spectrogram.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/visual/spectrogram.rs b/src/visual/spectrogram.rs
index ea209d5..ac78278 100644
--- a/src/visual/spectrogram.rs
+++ b/src/visual/spectrogram.rs
@@ -54,6 +54,9 @@ pub fn stft_magnitudes(
     win_len: usize,
     hop: usize,
 ) -> Result<(Vec<Vec<f32>>, f32), FftError> {
+    if hop == 0 {
+        return Err(FftError::InvalidHopSize);
+    }
     let window = hann(win_len);
     let fft = ScalarFftImpl::<f32>::default();
     let mut frames = vec![vec![]; samples.len().div_ceil(hop)];
-- 
2.43.0


From f1803261cdf740c1507bbb1a4708158de2ba364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 29/34] fix: map_bin_to_pixel maps the last bin to the last
 pixel

---
 src/visual/spectrogram.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/visual/spectrogram.rs b/src/visual/spectrogram.rs
index ac78278..4a3c079 100644
--- a/src/visual/spectrogram.rs
+++ b/src/visual/spectrogram.rs
@@ -215,7 +215,8 @@ pub fn map_bin_to_pixel(bin: usize, max_bin: usize) -> usize {
     } else {
         let log_max = (max_bin as f32 + 1.0).ln();
         let pos = (bin as f32 + 1.0).ln();
-        (max_bin as f32 * pos / log_max).floor() as usize
+        // The quotient is exactly 1 for the last bin, so the top of the axis is reached.
+        (max_bin as f32 * (pos / log_max)).floor() as usize
     }
 }
 
-- 
2.43.0


From 4e1dc2ede79d745c9110bf6d004f11299f4a013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 30/34] fix: log_scale_bins ignores values beyond the last bin
 instead of panicking

---
 src/visual/spectrogram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visual/spectrogram.rs b/src/visual/spectrogram.rs
index 4a3c079..5bc4786 100644
--- a/src/visual/spectrogram.rs
+++ b/src/visual/spectrogram.rs
@@ -224,7 +224,7 @@ pub fn map_bin_to_pixel(bin: usize, max_bin: usize) -> usize {
 pub fn log_scale_bins(values: &[f32], max_bin: usize) -> Vec<f32> {
     let mut accum = vec![0.0f32; max_bin + 1];
     let mut counts = vec![0u32; max_bin + 1];
-    for (bin, &v) in values.iter().enumerate() {
+    for (bin, &v) in values.iter().take(max_bin + 1).enumerate() {
         let y = map_bin_to_pixel(bin, max_bin);
         accum[y] += v;
         counts[y] += 1;
-- 
2.43.0


From 8dd452de108b7b55f86d401457da0947e80c3f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:42 +0000
Subject: [PATCH 31/34] fix: parallel FFT threshold saturates instead of
 overflowing

---
 src/fft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 11456d0..189483a 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -154,7 +154,7 @@ fn parallel_fft_threshold() -> usize {
                 cache_elems,
                 core::cmp::max(per_core_work, env_parallel_fft_block_size()),
             );
-            per_core_min * env_parallel_fft_threads()
+            per_core_min.saturating_mul(env_parallel_fft_threads())
         }
     })
 }
@@ -276,7 +276,7 @@ fn should_parallelize_fft(n: usize, base_threshold: usize) -> bool {
             cache_elems,
             core::cmp::max(per_core_work, parallel_fft_block_size()),
         );
-        n >= per_core_min * parallel_fft_threads()
+        n >= per_core_min.saturating_mul(parallel_fft_threads())
     }
     #[cfg(not(feature = "std"))]
     {
@@ -302,7 +302,7 @@ fn should_parallelize_fft(n: usize, base_threshold: usize) -> bool {
             cache_elems,
             core::cmp::max(per_core_work, parallel_fft_block_size()),
         );
-        n >= per_core_min * parallel_fft_threads()
+        n >= per_core_min.saturating_mul(parallel_fft_threads())
     }
 }
 
-- 
2.43.0


From 5b930bec4a9fa5be7e188773884614956cbbcbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:42 +0000
Subject: [PATCH 32/34] fix: runtime parallel FFT settings take effect without
 an explicit threshold

---
 src/fft.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index 189483a..916d52d 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -240,11 +240,31 @@ fn parallel_fft_block_size() -> usize {
     }
 }
 
+/// Whether any parameter of the heuristic was set at runtime.
+#[cfg(feature = "parallel")]
+fn parallel_fft_heuristic_tuned() -> bool {
+    PARALLEL_FFT_CACHE_BYTES_OVERRIDE.load(Ordering::Relaxed) != 0
+        || PARALLEL_FFT_PER_CORE_WORK_OVERRIDE.load(Ordering::Relaxed) != 0
+        || PARALLEL_FFT_BLOCK_SIZE_OVERRIDE.load(Ordering::Relaxed) != 0
+        || PARALLEL_FFT_THREAD_OVERRIDE.load(Ordering::Relaxed) != 0
+}
+
 #[cfg(feature = "parallel")]
 fn should_parallelize_fft(n: usize, base_threshold: usize) -> bool {
     let override_thr = PARALLEL_FFT_THRESHOLD_OVERRIDE.load(Ordering::Relaxed);
     let threshold = if override_thr != 0 {
         override_thr
+    } else if parallel_fft_heuristic_tuned() {
+        // `base_threshold` does not know the runtime settings; an explicit
+        // threshold from the environment still applies.
+        #[cfg(feature = "std")]
+        {
+            env_parallel_fft_threshold()
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            0
+        }
     } else {
         base_threshold
     };
-- 
2.43.0


From 7f98aff556eabae05d5032444207917bcf80b4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:42 +0000
Subject: [PATCH 33/34] fix: a configured per-core work replaces the calibrated
 one

---
 src/fft.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 916d52d..5c89158 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -100,7 +100,7 @@ fn env_parallel_fft_per_core_work() -> usize {
         std::env::var("KOFFT_PAR_FFT_PER_CORE_WORK")
             .ok()
             .and_then(|v| v.parse::<usize>().ok())
-            .unwrap_or(4096)
+            .unwrap_or_else(calibrated_per_core_work)
     })
 }
 
@@ -148,8 +148,7 @@ fn parallel_fft_threshold() -> usize {
         } else {
             let bytes_per_elem = core::mem::size_of::<crate::num::Complex32>();
             let cache_elems = env_parallel_fft_cache_bytes() / bytes_per_elem;
-            let per_core_work =
-                core::cmp::max(env_parallel_fft_per_core_work(), calibrated_per_core_work());
+            let per_core_work = env_parallel_fft_per_core_work();
             let per_core_min = core::cmp::max(
                 cache_elems,
                 core::cmp::max(per_core_work, env_parallel_fft_block_size()),
@@ -289,7 +288,6 @@ fn should_parallelize_fft(n: usize, base_threshold: usize) -> bool {
                 env_parallel_fft_per_core_work()
             }
         };
-        let per_core_work = core::cmp::max(per_core_work, calibrated_per_core_work());
         let bytes_per_elem = core::mem::size_of::<crate::num::Complex32>();
         let cache_elems = cache_bytes / bytes_per_elem;
         let per_core_min = core::cmp::max(
-- 
2.43.0


From 46b621e4b92069cf075014dd26e7db17258b663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:58 +0000
Subject: [PATCH 34/34] fix: simd and soa features build without std

---
 src/fft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fft.rs b/src/fft.rs
index 5c89158..67b9459 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -2115,7 +2115,7 @@ impl<T: Float> FftPlan<T> {
     }
 }
 
-#[cfg(any(feature = "simd", feature = "soa"))]
+#[cfg(all(feature = "std", any(feature = "simd", feature = "soa")))]
 impl FftPlan<f32> {
     pub fn fft_complex_vec(&self, data: &mut crate::num::ComplexVec) -> Result<(), FftError> {
         if data.len() != self.n {
-- 
2.43.0

