use crate::*;
use core::any::TypeId;

fn imp<T: Num>(w: usize) -> Option<Box<dyn FftImpl<T>>> {
    match w {
        0 => Some(Box::new(ScalarFftImpl::<T>::default())),
        1 => Some(Box::new(crate::c_fft::Wrap(ScalarFftImpl::<T>::default()))),
        _ if TypeId::of::<T>() == TypeId::of::<f32>() => {
            let b: Box<dyn FftImpl<f32>> = if w == 2 { Box::new(SimdFftX86_64Impl) } else { new_fft_impl() };
            let b = Box::new(b);
            let p = Box::into_raw(b) as *mut Box<dyn FftImpl<T>>;
            Some(*unsafe { Box::from_raw(p) })
        }
        _ => None,
    }
}
fn call<T: Num>(s: &dyn FftImpl<T>, e: usize, buf: &mut [Complex<T>], stride: usize, sc: &mut [Complex<T>]) -> Result<(), FftError> {
    match e {
        0 => s.fft_strided(buf, stride, sc),
        1 => s.ifft_strided(buf, stride, sc),
        2 => s.fft_strided_alloc(buf, stride),
        _ => s.ifft_strided_alloc(buf, stride),
    }
}
/// strided transforms of another length on the same engine, before the one under test
fn earlier<T: Num>(s: &dyn FftImpl<T>, m: usize) {
    if m > 0 {
        let mut v = vec![Complex::new(T::from_f32(0.5), T::from_f32(-2.0)); 2 * m];
        let _ = s.fft_strided_alloc(&mut v, 2);
        let _ = s.ifft_strided_alloc(&mut v, 1);
        let x = v.clone();
        let _ = s.ifft_out_of_place_strided(&x, 2, &mut v, 2);
    }
}
fn st<T: Num>(n: usize, stride: usize, extra: usize, e: usize) {
    let (w, pre) = (e >> 4 & 15, e >> 8);
    let e = e & 15;
    let len = if e < 2 { (n - 1) * stride + 1 + extra } else { n * stride + extra };
    let s = imp::<T>(w).unwrap();
    let mut buf = cv::<T>(len);
    let mut sc = cv::<T>(if e < 2 { n } else { 0 });
    earlier(&*s, pre);
    oe(call(&*s, e, &mut buf, stride, &mut sc));
    ocv(&buf);
}
fn oop<T: Num>(n: usize, is: usize, os: usize, e: usize) {
    let s = imp::<T>(e >> 4 & 15).unwrap();
    let a = cv::<T>(n * is);
    let mut b = cv::<T>(n * os);
    earlier(&*s, e >> 8);
    oe(if e & 1 == 0 { s.fft_out_of_place_strided(&a, is, &mut b, os) } else { s.ifft_out_of_place_strided(&a, is, &mut b, os) });
    ocv(&b);
}

cases! {
    fn st32(n, stride, extra, e) { st::<f32>(n, stride, extra, e); }
    fn st64(n, stride, extra, e) { st::<f64>(n, stride, extra, e); }
    fn oos32(n, a, b, e) { oop::<f32>(n, a, b, e); }
    fn oos64(n, a, b, e) { oop::<f64>(n, a, b, e); }
    fn sterr(e, w, c, d) {
        let s = imp::<f32>(w).unwrap();
        let len = u();
        let m = u();
        let stride = u();
        let mut buf = cv::<f32>(len);
        let mut sc = vec![Complex::new(0.0f32, 0.0); m];
        oe(call(&*s, e, &mut buf, stride, &mut sc));
        ocv(&buf);
    }
    fn ooperr(e, w, c, d) {
        let s = imp::<f64>(w).unwrap();
        let la = u();
        let lb = u();
        let sa = u();
        let sb = u();
        let a = vec![Complex::new(0.0f64, 0.0); la];
        let mut b = cv::<f64>(lb);
        oe(if e == 0 { s.fft_out_of_place_strided(&a, sa, &mut b, sb) } else { s.ifft_out_of_place_strided(&a, sa, &mut b, sb) });
        ocv(&b);
    }
}
