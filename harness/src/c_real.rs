use crate::*;
use core::any::TypeId;
pub use kofft::rfft::*;

fn f32only<T: Num, R>(f: impl FnOnce() -> R) -> Option<R> {
    if TypeId::of::<T>() == TypeId::of::<f32>() {
        Some(f())
    } else {
        None
    }
}
unsafe fn cast<'a, A, B>(a: &'a mut [A]) -> &'a mut [B] {
    core::slice::from_raw_parts_mut(a.as_mut_ptr() as *mut B, a.len())
}
/// variants: 0 trait, 1 trait+scratch, 2 planner, 3 planner+scratch, 4 packed, 5 boxed engine, 6 SIMD engine
pub fn fwd<T: Num>(v: usize, pl: &mut RfftPlanner<T>, s: &ScalarFftImpl<T>, x: &mut [T], o: &mut [Complex<T>], sc: &mut [Complex<T>]) -> Option<Result<(), FftError>> {
    Some(match v {
        0 => s.rfft(x, o),
        1 => s.rfft_with_scratch(x, o, sc),
        2 => pl.rfft(s, x, o),
        3 => pl.rfft_with_scratch(s, x, o, sc),
        4 => rfft_packed(pl, s, x, o, sc),
        5 => f32only::<T, _>(|| unsafe { RfftPlanner::<f32>::new().rfft(&*new_fft_impl(), cast::<T, f32>(x), cast::<Complex<T>, Complex32>(o)) })?,
        6 => f32only::<T, _>(|| unsafe { <SimdFftX86_64Impl as RealFftImpl<f32>>::rfft(&SimdFftX86_64Impl, cast::<T, f32>(x), cast::<Complex<T>, Complex32>(o)) })?,
        _ => return None,
    })
}
pub fn inv<T: Num>(v: usize, pl: &mut RfftPlanner<T>, s: &ScalarFftImpl<T>, x: &mut [Complex<T>], o: &mut [T], sc: &mut [Complex<T>]) -> Option<Result<(), FftError>> {
    Some(match v {
        0 => s.irfft(x, o),
        1 => s.irfft_with_scratch(x, o, sc),
        2 => pl.irfft(s, x, o),
        3 => pl.irfft_with_scratch(s, x, o, sc),
        4 => irfft_packed(pl, s, x, o, sc),
        5 => f32only::<T, _>(|| unsafe { RfftPlanner::<f32>::new().irfft(&*new_fft_impl(), cast::<Complex<T>, Complex32>(x), cast::<T, f32>(o)) })?,
        6 => f32only::<T, _>(|| unsafe { <SimdFftX86_64Impl as RealFftImpl<f32>>::irfft(&SimdFftX86_64Impl, cast::<Complex<T>, Complex32>(x), cast::<T, f32>(o)) })?,
        _ => return None,
    })
}
fn go<T: Num>(n: usize, v: usize, k: usize, extra: usize) {
    let s = ScalarFftImpl::<T>::default();
    let mut pl = RfftPlanner::<T>::new();
    let mut x = rvs::<T>(n, k);
    let mut o = cvs::<T>(n / 2 + 1, k);
    let mut sc = cvs::<T>(n / 2 + extra, k);
    match fwd(v, &mut pl, &s, &mut x, &mut o, &mut sc) {
        None => ou(99),
        Some(r) => {
            oe(r);
            ocv(&o);
        }
    }
}
fn back<T: Num>(n: usize, v: usize, k: usize, extra: usize) {
    let s = ScalarFftImpl::<T>::default();
    let mut pl = RfftPlanner::<T>::new();
    let mut x = cvs::<T>(n / 2 + 1, k);
    let mut o = rvs::<T>(n, k);
    let mut sc = cvs::<T>(n / 2 + extra, k);
    match inv(v, &mut pl, &s, &mut x, &mut o, &mut sc) {
        None => ou(99),
        Some(r) => {
            oe(r);
            orv(&o);
        }
    }
}
/// Lengths of input, output and scratch are free integers.
fn ferr<T: Num>(v: usize) {
    let s = ScalarFftImpl::<T>::default();
    let mut pl = RfftPlanner::<T>::new();
    let mut x = rv::<T>(u());
    let mut o = cv::<T>(u());
    let mut sc = cv::<T>(u());
    match fwd(v, &mut pl, &s, &mut x, &mut o, &mut sc) {
        None => ou(99),
        Some(r) => {
            oe(r);
            ocv(&o);
        }
    }
}
fn berr<T: Num>(v: usize) {
    let s = ScalarFftImpl::<T>::default();
    let mut pl = RfftPlanner::<T>::new();
    let mut x = cv::<T>(u());
    let mut o = rv::<T>(u());
    let mut sc = cv::<T>(u());
    match inv(v, &mut pl, &s, &mut x, &mut o, &mut sc) {
        None => ou(99),
        Some(r) => {
            oe(r);
            orv(&o);
        }
    }
}
pub const RS: [usize; 10] = [8, 6, 32, 2, 10, 64, 14, 4, 16, 128];
/// Calls on one planner and engine: length from RS, variant 2..=4, direction, all free.
fn hist<T: Num>(steps: usize, k: usize) {
    let s = ScalarFftImpl::<T>::default();
    let mut pl = RfftPlanner::<T>::new();
    for i in 0..steps {
        let n = RS[u()];
        let v = u();
        let d = u();
        let kk = if i + 1 < steps { 1 } else { k };
        ou(n);
        ou(d);
        let mut sc = vec![Complex::zero(); n / 2];
        if d == 0 {
            let mut x = rvs::<T>(n, kk);
            let mut o = vec![Complex::zero(); n / 2 + 1];
            oe(fwd(v, &mut pl, &s, &mut x, &mut o, &mut sc).unwrap());
            ocv(&o);
        } else {
            let mut x = cvs::<T>(n / 2 + 1, kk);
            let mut o = vec![T::zero(); n];
            oe(inv(v, &mut pl, &s, &mut x, &mut o, &mut sc).unwrap());
            orv(&o);
        }
    }
}
/// Planner and engine used for `pre` other even lengths with fixed data, then once at length n on free data
fn rlong<T: Num>(pre: usize, n: usize, how: usize) {
    let s = ScalarFftImpl::<T>::default();
    let mut pl = RfftPlanner::<T>::new();
    for i in 0..pre {
        let m = 2 * match how / 4 {
            1 => n / 2 + (16 << i),
            2 => n / 2 * (i + 2),
            _ if how & 1 == 0 => i + 1,
            _ => pre - i,
        };
        let mut sc = vec![Complex::zero(); m / 2];
        let mut x: Vec<T> = (0..m).map(|t| T::from_f32((t % 5) as f32 - 1.0)).collect();
        let mut o = vec![Complex::zero(); m / 2 + 1];
        let v = 2 + i % 3;
        let _ = fwd(v, &mut pl, &s, &mut x, &mut o, &mut sc);
        let _ = inv(v, &mut pl, &s, &mut o, &mut x, &mut sc);
    }
    let mut sc = vec![Complex::zero(); n / 2];
    if how & 2 == 0 {
        let mut x = rvs::<T>(n, 2);
        let mut o = vec![Complex::zero(); n / 2 + 1];
        oe(fwd(3, &mut pl, &s, &mut x, &mut o, &mut sc).unwrap());
        ocv(&o);
    } else {
        let mut x = cvs::<T>(n / 2 + 1, 2);
        let mut o = vec![T::zero(); n];
        oe(inv(3, &mut pl, &s, &mut x, &mut o, &mut sc).unwrap());
        orv(&o);
    }
}
fn st<const N: usize, const M: usize>() {
    let v = rv::<f32>(N);
    let w = cv::<f32>(M);
    let mut x = [0.0f32; N];
    x.copy_from_slice(&v);
    let mut o = [Complex32::new(0.0, 0.0); M];
    o.copy_from_slice(&w);
    oe(rfft_stack(&x, &mut o));
    ocv(&o);
}
fn ist<const N: usize, const M: usize>() {
    let v = cv::<f32>(M);
    let w = rv::<f32>(N);
    let mut x = [Complex32::new(0.0, 0.0); M];
    x.copy_from_slice(&v);
    let mut o = [0.0f32; N];
    o.copy_from_slice(&w);
    oe(irfft_stack(&x, &mut o));
    orv(&o);
}
macro_rules! sizes {
    ($f:ident, $n:expr, $m:expr; $($a:literal $b:literal),*) => {
        match ($n, $m) {
            $(($a, $b) => $f::<$a, $b>(),)*
            _ => ou(99),
        }
    };
}

cases! {
    fn rf32(n, v, k, extra) { go::<f32>(n, v, k, extra); }
    fn rf64(n, v, k, extra) { go::<f64>(n, v, k, extra); }
    fn ri32(n, v, k, extra) { back::<f32>(n, v, k, extra); }
    fn ri64(n, v, k, extra) { back::<f64>(n, v, k, extra); }
    fn rferr32(v, b, c, d) { ferr::<f32>(v); }
    fn rferr64(v, b, c, d) { ferr::<f64>(v); }
    fn rierr32(v, b, c, d) { berr::<f32>(v); }
    fn rierr64(v, b, c, d) { berr::<f64>(v); }
    fn rlng32(pre, n, how, d) { rlong::<f32>(pre, n, how); }
    fn rlng64(pre, n, how, d) { rlong::<f64>(pre, n, how); }
    fn rhist32(steps, k, c, d) { hist::<f32>(steps, k); }
    fn rhist64(steps, k, c, d) { hist::<f64>(steps, k); }
    fn rstack(n, m, c, d) { sizes!(st, n, m; 0 1, 0 0, 1 1, 2 2, 4 3, 8 5, 16 9, 32 17, 64 33, 128 65, 3 2, 6 4, 12 7, 4 2, 4 4, 8 8, 8 4, 1 0, 1 2, 2 1); }
    fn ristack(n, m, c, d) { sizes!(ist, n, m; 0 1, 0 0, 1 1, 2 2, 4 3, 8 5, 16 9, 32 17, 64 33, 128 65, 3 2, 6 4, 12 7, 4 2, 4 4, 8 8, 8 4, 1 0, 1 2, 2 1); }
}
