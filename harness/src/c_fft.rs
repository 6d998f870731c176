use crate::*;
use core::any::TypeId;

/// Runs entry point `e` on the data; returns None when the entry point does not exist for this type/direction.
pub fn entry<T: Num>(e: usize, inv: bool, data: &mut Vec<Complex<T>>) -> Option<Result<(), FftError>> {
    let n = data.len();
    let s = ScalarFftImpl::<T>::default();
    let split = |d: &Vec<Complex<T>>| -> (Vec<T>, Vec<T>) { (d.iter().map(|c| c.re).collect(), d.iter().map(|c| c.im).collect()) };
    fn merge<T: Num>(d: &mut Vec<Complex<T>>, re: &[T], im: &[T]) {
        for i in 0..d.len() {
            d[i] = Complex::new(re[i], im[i]);
        }
    }
    Some(match e {
        0 => {
            if inv {
                s.ifft(data)
            } else {
                s.fft(data)
            }
        }
        1 => {
            let i = data.clone();
            if inv {
                s.ifft_out_of_place(&i, data)
            } else {
                s.fft_out_of_place(&i, data)
            }
        }
        2 => {
            let (mut re, mut im) = split(data);
            let r = if inv { s.ifft_split(&mut re, &mut im) } else { s.fft_split(&mut re, &mut im) };
            merge(data, &re, &im);
            r
        }
        3 => {
            let (mut re, mut im) = split(data);
            let r = if inv { ifft_split(&mut re, &mut im) } else { fft_split(&mut re, &mut im) };
            merge(data, &re, &im);
            r
        }
        4 => {
            let (mut re, mut im) = split(data);
            let r = {
                let sc = SplitComplex::new(&mut re, &mut im);
                if inv {
                    ifft_split_complex(sc)
                } else {
                    fft_split_complex(sc)
                }
            };
            merge(data, &re, &im);
            r
        }
        5 => {
            if inv {
                ifft_parallel(data)
            } else {
                fft_parallel(data)
            }
        }
        7 | 8 => {
            let mut b = vec![data.clone(), data.clone()];
            let r = match (e, inv) {
                (7, false) => batch(&s, &mut b),
                (7, true) => batch_inverse(&s, &mut b),
                (_, false) => multi_channel(&s, &mut b),
                (_, true) => multi_channel_inverse(&s, &mut b),
            };
            *data = b.pop().unwrap();
            r
        }
        9 => {
            let mut sc = vec![Complex::zero(); n];
            if inv {
                s.ifft_strided(data, 1, &mut sc)
            } else {
                s.fft_strided(data, 1, &mut sc)
            }
        }
        10 => {
            let i = data.clone();
            if inv {
                s.ifft_out_of_place_strided(&i, 1, data, 1)
            } else {
                s.fft_out_of_place_strided(&i, 1, data, 1)
            }
        }
        11..=14 if !inv => s.fft_with_strategy(data, strat(e - 11)),
        20 => {
            if inv {
                s.ifft_strided_alloc(data, 1)
            } else {
                s.fft_strided_alloc(data, 1)
            }
        }
        21 if !inv => s.stockham_fft(data),
        // a user's own FftImpl, which inherits the provided methods of the trait
        22 => {
            let (mut re, mut im) = split(data);
            let w = Wrap(s);
            let r = if inv { w.ifft_split(&mut re, &mut im) } else { w.fft_split(&mut re, &mut im) };
            merge(data, &re, &im);
            r
        }
        23 => {
            let w = Wrap(s);
            if inv {
                w.ifft_strided_alloc(data, 1)
            } else {
                w.fft_strided_alloc(data, 1)
            }
        }
        #[cfg(feature = "std")]
        6 => {
            let v = if inv { s.ifft_vec(data) } else { s.fft_vec(data) };
            match v {
                Ok(v) => {
                    *data = v;
                    Ok(())
                }
                Err(e) => Err(e),
            }
        }
        #[cfg(feature = "std")]
        15..=18 => {
            let p = FftPlan::<T>::new(n, strat(e - 15));
            if inv {
                p.ifft(data)
            } else {
                p.fft(data)
            }
        }
        #[cfg(feature = "std")]
        24..=27 => {
            let p = FftPlan::<T>::new(n, strat(e - 24));
            let i = data.clone();
            if inv {
                p.ifft_out_of_place(&i, data)
            } else {
                p.fft_out_of_place(&i, data)
            }
        }
        #[cfg(feature = "std")]
        28..=31 => {
            let p = FftPlan::<T>::new(n, strat(e - 28));
            let (mut re, mut im) = split(data);
            let r = if inv { p.ifft_split(&mut re, &mut im) } else { p.fft_split(&mut re, &mut im) };
            merge(data, &re, &im);
            r
        }
        #[cfg(feature = "std")]
        19 if !inv => s.fft_radix4(data),
        32.. if TypeId::of::<T>() == TypeId::of::<f32>() => {
            let d = unsafe { &mut *(data as *mut Vec<Complex<T>> as *mut Vec<Complex32>) };
            return entry32(e, inv, d);
        }
        _ => return None,
    })
}
pub fn strat(i: usize) -> FftStrategy {
    match i {
        0 => FftStrategy::Radix2,
        1 => FftStrategy::Radix4,
        2 => FftStrategy::SplitRadix,
        _ => FftStrategy::Auto,
    }
}
pub struct Wrap<T: Num>(pub ScalarFftImpl<T>);
impl<T: Num> FftImpl<T> for Wrap<T> {
    fn fft(&self, i: &mut [Complex<T>]) -> Result<(), FftError> {
        self.0.fft(i)
    }
    fn ifft(&self, i: &mut [Complex<T>]) -> Result<(), FftError> {
        self.0.ifft(i)
    }
    fn fft_strided(&self, i: &mut [Complex<T>], s: usize, b: &mut [Complex<T>]) -> Result<(), FftError> {
        self.0.fft_strided(i, s, b)
    }
    fn ifft_strided(&self, i: &mut [Complex<T>], s: usize, b: &mut [Complex<T>]) -> Result<(), FftError> {
        self.0.ifft_strided(i, s, b)
    }
    fn fft_out_of_place_strided(&self, i: &[Complex<T>], a: usize, o: &mut [Complex<T>], b: usize) -> Result<(), FftError> {
        self.0.fft_out_of_place_strided(i, a, o, b)
    }
    fn ifft_out_of_place_strided(&self, i: &[Complex<T>], a: usize, o: &mut [Complex<T>], b: usize) -> Result<(), FftError> {
        self.0.ifft_out_of_place_strided(i, a, o, b)
    }
    fn fft_with_strategy(&self, i: &mut [Complex<T>], s: FftStrategy) -> Result<(), FftError> {
        self.0.fft_with_strategy(i, s)
    }
}
fn entry32(e: usize, inv: bool, data: &mut Vec<Complex32>) -> Option<Result<(), FftError>> {
    let n = data.len();
    let s = ScalarFftImpl::<f32>::default();
    Some(match e {
        32 if !inv => s.fft_mixed_radix(data),
        #[cfg(feature = "std")]
        33 if !inv => s.fft_mixed_radix_with_twiddles(data, &TwiddleFactorBuffer::new(n)),
        #[cfg(feature = "std")]
        34 if !inv => s.fft_radix2_with_twiddles(data, &TwiddleFactorBuffer::new(n)),
        #[cfg(feature = "std")]
        35 if !inv => s.fft_radix4_with_twiddles(data, &TwiddleFactorBuffer::new(n)),
        36 => {
            let b = new_fft_impl();
            if inv {
                b.ifft(data)
            } else {
                b.fft(data)
            }
        }
        37 => {
            let b = SimdFftX86_64Impl;
            if inv {
                b.ifft(data)
            } else {
                b.fft(data)
            }
        }
        38 if !inv => SimdFftX86_64Impl.fft_with_strategy(data, FftStrategy::Auto),
        39 => {
            let (mut re, mut im): (Vec<f32>, Vec<f32>) = data.iter().map(|c| (c.re, c.im)).unzip();
            let b = new_fft_impl();
            let r = if inv { b.ifft_split(&mut re, &mut im) } else { b.fft_split(&mut re, &mut im) };
            for i in 0..n {
                data[i] = Complex32::new(re[i], im[i]);
            }
            r
        }
        40 => {
            let b = SimdFftX86_64Impl;
            if inv {
                b.ifft_strided_alloc(data, 1)
            } else {
                b.fft_strided_alloc(data, 1)
            }
        }
        41 => {
            let b = SimdFftX86_64Impl;
            let i = data.clone();
            if inv {
                b.ifft_out_of_place_strided(&i, 1, data, 1)
            } else {
                b.fft_out_of_place_strided(&i, 1, data, 1)
            }
        }
        #[cfg(any(feature = "simd", feature = "soa"))]
        42 => {
            let mut v = ComplexVec::from_complex_vec(data);
            let r = if inv { ifft_complex_vec(&mut v) } else { fft_complex_vec(&mut v) };
            *data = v.to_complex_vec();
            r
        }
        #[cfg(all(feature = "std", any(feature = "simd", feature = "soa")))]
        43 => {
            let mut v = ComplexVec::from_complex_vec(data);
            let p = FftPlan::<f32>::new(n, FftStrategy::Auto);
            let r = if inv { p.ifft_complex_vec(&mut v) } else { p.fft_complex_vec(&mut v) };
            *data = v.to_complex_vec();
            r
        }
        _ => return None,
    })
}

fn go<T: Num>(n: usize, e: usize, inv: usize, k: usize) {
    let mut d = cvs::<T>(n, k);
    match entry(e, inv != 0, &mut d) {
        None => ou(99),
        Some(r) => {
            oe(r);
            ocv(&d);
        }
    }
}

#[cfg(feature = "parallel")]
fn thresh(n: usize) {
    set_parallel_fft_threshold(n)
}
#[cfg(not(feature = "parallel"))]
fn thresh(_: usize) {}
/// as `go`, with the parallel threshold set
fn gop<T: Num>(n: usize, e: usize, inv: usize, k: usize, thr: usize) {
    let mut d = cvs::<T>(n, k);
    thresh(thr);
    let r = entry(e, inv != 0, &mut d);
    thresh(0);
    match r {
        None => ou(99),
        Some(r) => {
            oe(r);
            ocv(&d);
        }
    }
}

pub const SIZES: [usize; 16] = [5, 8, 7, 32, 3, 64, 16, 17, 6, 4, 12, 2, 1, 128, 31, 40];

/// One call on engine `s`; returns the error code.
pub fn op<T: Num>(s: &ScalarFftImpl<T>, e: usize, d: &mut Vec<Complex<T>>) -> Result<(), FftError> {
    let n = d.len();
    match e {
        0 => s.fft(d),
        1 => s.ifft(d),
        2 => s.fft_strided_alloc(d, 1),
        3 => s.ifft_strided_alloc(d, 1),
        4 => {
            let i = d.clone();
            s.fft_out_of_place_strided(&i, 1, d, 1)
        }
        5 => {
            let i = d.clone();
            s.ifft_out_of_place_strided(&i, 1, d, 1)
        }
        6 | 7 => {
            let (mut re, mut im): (Vec<T>, Vec<T>) = d.iter().map(|c| (c.re, c.im)).unzip();
            let r = if e == 6 { s.fft_split(&mut re, &mut im) } else { s.ifft_split(&mut re, &mut im) };
            for i in 0..n {
                d[i] = Complex::new(re[i], im[i]);
            }
            r
        }
        8 => s.fft_with_strategy(d, FftStrategy::Auto),
        9 => {
            // every other element of a buffer twice as long
            let mut w = vec![Complex::zero(); 2 * n];
            for i in 0..n {
                w[2 * i] = d[i];
            }
            let mut sc = vec![Complex::zero(); n];
            let r = s.fft_strided(&mut w, 2, &mut sc);
            for i in 0..n {
                d[i] = w[2 * i];
            }
            r
        }
        _ => s.stockham_fft(d),
    }
}

/// `steps` transforms on one engine: lengths picked by free integers from SIZES, operations from `ops` (4 bits each, 15 = free)
fn hist<T: Num>(steps: usize, ops: usize, k: usize) {
    let s = ScalarFftImpl::<T>::default();
    for i in 0..steps {
        let n = SIZES[u()];
        let mut e = (ops >> (4 * i)) & 15;
        if e == 15 {
            e = u();
        }
        let mut d = cvs::<T>(n, if i + 1 < steps { 1 } else { k });
        let r = op(&s, e, &mut d);
        ou(n);
        ou(e);
        oe(r);
        ocv(&d);
    }
}

/// `pre` transforms of other lengths with fixed data on one engine (operations in turn), then operation `e` at length `n` on free data
fn hlong<T: Num>(pre: usize, n: usize, e: usize, order: usize) {
    let s = ScalarFftImpl::<T>::default();
    for i in 0..pre {
        let m = match order {
            0 => i + 1,
            1 => pre - i,
            3 => n + (16 << i),
            4 => n * (i + 2),
            _ => i * 37 % 61 + 1,
        };
        let mut d: Vec<Complex<T>> = (0..m).map(|t| Complex::new(T::from_f32((t % 5) as f32 - 1.0), T::from_f32((t % 3) as f32))).collect();
        let _ = op(&s, (i * 3 + order) % 10, &mut d);
    }
    let mut d = cvs::<T>(n, 2);
    let r = op(&s, e, &mut d);
    oe(r);
    ocv(&d);
}

cases! {
    fn hlng32(pre, n, e, order) { hlong::<f32>(pre, n, e, order); }
    fn hlng64(pre, n, e, order) { hlong::<f64>(pre, n, e, order); }
    fn fft32(n, e, inv, k) { go::<f32>(n, e, inv, k); }
    fn fft64(n, e, inv, k) { go::<f64>(n, e, inv, k); }
    fn fftp32(n, e, inv, thr) { gop::<f32>(n, e, inv, if n > 32 { 3 } else { 0 }, thr); }
    fn fftp64(n, e, inv, thr) { gop::<f64>(n, e, inv, if n > 32 { 3 } else { 0 }, thr); }
    fn hist32(steps, ops, k, d) { hist::<f32>(steps, ops, k); }
    fn hist64(steps, ops, k, d) { hist::<f64>(steps, ops, k); }
}
