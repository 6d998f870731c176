//! Harness around the real kofft crate. Every case is an `extern "C"` function of four integer parameters that
//! draws its data from `vp_*` (free variables for the symbolic executor, numbers on stdin for the native replay)
//! and reports what kofft returned through `vp_o*`.
#![allow(clippy::all)]
extern crate alloc;
pub use kofft::fft::*;
pub use kofft::num::*;
pub use kofft::rfft::RealFftNum;

extern "C" {
    pub fn vp_f32() -> f32;
    pub fn vp_f64() -> f64;
    pub fn vp_u() -> usize;
    pub fn vp_o32(v: f32);
    pub fn vp_o64(v: f64);
    pub fn vp_ou(v: usize);
}

pub fn f() -> f32 {
    unsafe { vp_f32() }
}
pub fn u() -> usize {
    unsafe { vp_u() }
}
pub fn ou(v: usize) {
    unsafe { vp_ou(v) }
}
pub fn of(v: f32) {
    unsafe { vp_o32(v) }
}
pub trait Num: RealFftNum {
    fn inp() -> Self;
    fn out(self);
}
impl Num for f32 {
    fn inp() -> f32 {
        unsafe { vp_f32() }
    }
    fn out(self) {
        unsafe { vp_o32(self) }
    }
}
impl Num for f64 {
    fn inp() -> f64 {
        unsafe { vp_f64() }
    }
    fn out(self) {
        unsafe { vp_o64(self) }
    }
}
pub fn ecode(e: FftError) -> usize {
    match e {
        FftError::EmptyInput => 1,
        FftError::NonPowerOfTwoNoStd => 2,
        FftError::MismatchedLengths => 3,
        FftError::InvalidStride => 4,
        FftError::InvalidHopSize => 5,
        FftError::InvalidValue => 6,
    }
}
pub fn oe(r: Result<(), FftError>) {
    ou(match r {
        Ok(()) => 0,
        Err(e) => ecode(e),
    })
}
pub fn rv<T: Num>(n: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(T::inp());
    }
    v
}
/// Values that are symbolic at `k` spread positions and zero elsewhere (k = 0: all symbolic).
pub fn rvs<T: Num>(n: usize, k: usize) -> Vec<T> {
    if k == 0 || k >= n {
        return rv(n);
    }
    let mut v = vec![T::zero(); n];
    for i in 0..k {
        v[spread(i, k, n)] = T::inp();
    }
    v
}
pub fn spread(i: usize, k: usize, n: usize) -> usize {
    if i + 1 == k {
        n - 1
    } else {
        i * n / k + (i * 5) % (n / k)
    }
}
pub fn cvs<T: Num>(n: usize, k: usize) -> Vec<Complex<T>> {
    if k == 0 || k >= n {
        return cv(n);
    }
    let mut v = vec![Complex::zero(); n];
    for i in 0..k {
        v[spread(i, k, n)] = Complex::new(T::inp(), T::inp());
    }
    v
}
pub fn cv<T: Num>(n: usize) -> Vec<Complex<T>> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let a = T::inp();
        let b = T::inp();
        v.push(Complex::new(a, b));
    }
    v
}
pub fn orv<T: Num>(v: &[T]) {
    for &x in v {
        x.out();
    }
}
pub fn ocv<T: Num>(v: &[Complex<T>]) {
    for x in v {
        x.re.out();
        x.im.out();
    }
}

#[macro_export]
macro_rules! cases {
    ($( fn $name:ident($a:ident, $b:ident, $c:ident, $d:ident) $body:block )*) => {
        $(
            #[no_mangle]
            #[inline(never)]
            #[allow(unused_variables)]
            pub extern "C" fn $name($a: usize, $b: usize, $c: usize, $d: usize) $body
        )*
        pub const CASES: &[(&str, extern "C" fn(usize, usize, usize, usize))] = &[$((stringify!($name), $name)),*];
    };
}

@MODS@

pub fn dispatch(name: &str, a: &[usize]) -> bool {
    for t in [@TABLES@] {
        for (n, f) in t.iter() {
            if *n == name {
                f(a[0], a[1], a[2], a[3]);
                return true;
            }
        }
    }
    false
}
