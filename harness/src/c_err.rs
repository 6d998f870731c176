use crate::c_fft::{entry, strat, Wrap};
use crate::*;

fn two<T: Num>(e: usize, a: &mut Vec<T>, b: &mut Vec<T>, n: usize) -> Result<(), FftError> {
    let s = ScalarFftImpl::<T>::default();
    match e {
        0 => s.fft_split(a, b),
        1 => s.ifft_split(a, b),
        2 => fft_split(a, b),
        3 => ifft_split(a, b),
        4 => Wrap(s).fft_split(a, b),
        5 => Wrap(s).ifft_split(a, b),
        #[cfg(feature = "std")]
        6 => FftPlan::<T>::new(n, strat(3)).fft_split(a, b),
        #[cfg(feature = "std")]
        7 => FftPlan::<T>::new(n, strat(3)).ifft_split(a, b),
        _ => Ok(()),
    }
}
fn oop<T: Num>(e: usize, a: &Vec<Complex<T>>, b: &mut Vec<Complex<T>>, n: usize) -> Result<(), FftError> {
    let s = ScalarFftImpl::<T>::default();
    match e {
        0 => s.fft_out_of_place(a, b),
        1 => s.ifft_out_of_place(a, b),
        2 => Wrap(s).fft_out_of_place(a, b),
        3 => Wrap(s).ifft_out_of_place(a, b),
        #[cfg(feature = "std")]
        4 | 6 | 8 => FftPlan::<T>::new(n, strat(e / 2 - 2)).fft_out_of_place(a, b),
        #[cfg(feature = "std")]
        5 | 7 | 9 => FftPlan::<T>::new(n, strat(e / 2 - 2)).ifft_out_of_place(a, b),
        _ => Ok(()),
    }
}

cases! {
    // re/im of lengths given by free integers; e selects the routine, e & 1 = inverse
    fn split32(e, n, c, d) {
        let (mut a, mut b) = (rv::<f32>(u()), rv::<f32>(u()));
        oe(two(e, &mut a, &mut b, n));
        orv(&a);
        orv(&b);
    }
    fn split64(e, n, c, d) {
        let (mut a, mut b) = (rv::<f64>(u()), rv::<f64>(u()));
        oe(two(e, &mut a, &mut b, n));
        orv(&a);
        orv(&b);
    }
    fn oop32(e, n, c, d) {
        let (a, mut b) = (cv::<f32>(u()), cv::<f32>(u()));
        oe(oop(e, &a, &mut b, n));
        ocv(&b);
    }
    fn oop64(e, n, c, d) {
        let (a, mut b) = (cv::<f64>(u()), cv::<f64>(u()));
        oe(oop(e, &a, &mut b, n));
        ocv(&b);
    }
    fn plan32(n, st, inv, d) {
        let mut a = cv::<f32>(u());
        #[cfg(feature = "std")]
        {
            let p = FftPlan::<f32>::new(n, strat(st));
            oe(if inv == 0 { p.fft(&mut a) } else { p.ifft(&mut a) });
        }
        ocv(&a);
    }
    fn plan64(n, st, inv, d) {
        let mut a = cv::<f64>(u());
        #[cfg(feature = "std")]
        {
            let p = FftPlan::<f64>::new(n, strat(st));
            oe(if inv == 0 { p.fft(&mut a) } else { p.ifft(&mut a) });
        }
        ocv(&a);
    }
    fn empty32(e, inv, c, d) {
        let mut a = Vec::new();
        match entry::<f32>(e, inv != 0, &mut a) {
            None => ou(99),
            Some(r) => oe(r),
        }
    }
    fn empty64(e, inv, c, d) {
        let mut a = Vec::new();
        match entry::<f64>(e, inv != 0, &mut a) {
            None => ou(99),
            Some(r) => oe(r),
        }
    }
    // batches of three rows whose lengths are free
    fn rows(e, c, d, g) {
        let s = ScalarFftImpl::<f32>::default();
        let mut b: Vec<Vec<Complex32>> = Vec::new();
        for _ in 0..c {
            let n = u();
            b.push(cv(n));
        }
        oe(match e {
            0 => batch(&s, &mut b),
            1 => batch_inverse(&s, &mut b),
            2 => multi_channel(&s, &mut b),
            _ => multi_channel_inverse(&s, &mut b),
        });
        for r in &b {
            ocv(r);
        }
    }
    // twiddle table of another size than the data
    fn tab(e, n, c, d) {
        let m = u();
        let mut a = cv::<f32>(n);
        #[cfg(feature = "std")]
        {
            let t = TwiddleFactorBuffer::new(m);
            let s = ScalarFftImpl::<f32>::default();
            oe(match e {
                0 => s.fft_mixed_radix_with_twiddles(&mut a, &t),
                1 => s.fft_radix2_with_twiddles(&mut a, &t),
                _ => s.fft_radix4_with_twiddles(&mut a, &t),
            });
        }
        ocv(&a);
    }
    // split vectors with different numbers of real and imaginary parts
    fn cvec(e, n, c, d) {
        #[cfg(any(feature = "simd", feature = "soa"))]
        {
            let mut v = ComplexVec::from_complex_vec(&[]);
            v.re = rv::<f32>(u());
            v.im = rv::<f32>(u());
            oe(match e {
                0 => fft_complex_vec(&mut v),
                1 => ifft_complex_vec(&mut v),
                2 => FftPlan::<f32>::new(n, FftStrategy::Auto).fft_complex_vec(&mut v),
                _ => FftPlan::<f32>::new(n, FftStrategy::Auto).ifft_complex_vec(&mut v),
            });
            orv(&v.re);
            orv(&v.im);
        }
    }
}
