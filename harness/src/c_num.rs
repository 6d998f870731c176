use crate::*;
use kofft::num::ComplexVec;

fn c<T: Num>() -> Complex<T> {
    let a = T::inp();
    let b = T::inp();
    Complex::new(a, b)
}
fn o<T: Num>(z: Complex<T>) {
    z.re.out();
    z.im.out();
}
fn ar<T: Num>(kind: usize) {
    match kind {
        0 => o(Complex::add(c::<T>(), c())),
        1 => o(Complex::sub(c::<T>(), c())),
        2 => o(Complex::mul(c::<T>(), c())),
        3 => o(c::<T>() + c()),
        4 => o(c::<T>() - c()),
        5 => o(c::<T>() * c()),
        6 => o(-c::<T>()),
        7 => o(Complex::<T>::zero()),
        8 => o(c::<T>()),
        9 => {
            T::zero().out();
            T::one().out();
            T::pi().out();
            T::from_f32(0.1).out();
            T::from_f32(-3.5).out();
        }
        10 => {
            let (x, a, b) = (T::inp(), T::inp(), T::inp());
            x.mul_add(a, b).out();
        }
        11 => {
            let z = c::<T>();
            let w = z * z;
            o(w * z - z + w);
        }
        _ => o(Complex::<T>::zero()),
    }
}
fn ex<T: Num>(kind: usize) {
    let t = T::inp();
    match kind {
        0 => o(Complex::expi(t)),
        1 => {
            t.cos().out();
            t.sin().out();
        }
        _ => {
            let (s, k) = t.sin_cos();
            k.out();
            s.out();
        }
    }
}
fn spl<T: Num>(kind: usize, n: usize, m: usize, l: usize) {
    match kind {
        // into split buffers: free function / constructor
        0 | 1 => {
            let v = cv::<T>(n);
            let (mut re, mut im) = (rv::<T>(m), rv::<T>(l));
            if kind == 0 {
                copy_from_complex(&v, &mut re, &mut im);
            } else {
                let s = SplitComplex::copy_from_complex(&v, &mut re, &mut im);
                ou(s.len());
                ou(s.is_empty() as usize);
            }
            orv(&re);
            orv(&im);
            ocv(&v);
        }
        // out of split buffers
        2 | 3 => {
            let (mut re, mut im) = (rv::<T>(n), rv::<T>(m));
            let mut v = cv::<T>(l);
            if kind == 2 {
                copy_to_complex(&re, &im, &mut v);
            } else {
                let s = SplitComplex::new(&mut re, &mut im);
                ou(s.len());
                ou(s.is_empty() as usize);
                s.copy_to_complex(&mut v);
            }
            ocv(&v);
            orv(&re);
            orv(&im);
        }
        // wrapping and writing through
        _ => {
            let (mut re, mut im) = (rv::<T>(n), rv::<T>(m));
            let s = SplitComplex::new(&mut re, &mut im);
            for i in 0..s.len() {
                let t = s.re[i];
                s.re[i] = s.im[i];
                s.im[i] = t;
            }
            orv(&re);
            orv(&im);
        }
    }
}
cases! {
    fn car(kind, ty, c, d) {
        if ty == 0 { ar::<f32>(kind) } else { ar::<f64>(kind) }
    }
    fn cex(kind, ty, c, d) {
        if ty == 0 { ex::<f32>(kind) } else { ex::<f64>(kind) }
    }
    fn csp32(kind, n, m, l) {
        spl::<f32>(kind, n, m, l)
    }
    fn csp64(kind, n, m, l) {
        spl::<f64>(kind, n, m, l)
    }
    fn csf(kind, n, m, l) {
        if kind == 0 {
            let v = cv::<f32>(n);
            let (mut re, mut im) = (rv::<f32>(m), rv::<f32>(l));
            let s = complex32_to_split(&v, &mut re, &mut im);
            ou(s.len());
            ou(s.is_empty() as usize);
            orv(&re);
            orv(&im);
            ocv(&v);
        } else {
            let (mut re, mut im) = (rv::<f32>(n), rv::<f32>(m));
            let mut v = cv::<f32>(l);
            let s = SplitComplex::new(&mut re, &mut im);
            ou(s.len());
            ou(s.is_empty() as usize);
            split_to_complex32(&s, &mut v);
            ocv(&v);
            orv(&re);
            orv(&im);
        }
    }
    fn ccv(kind, n, m, l) {
        let mut w = match kind % 3 {
            0 => {
                let re = rv::<f32>(n);
                let im = rv::<f32>(m);
                ComplexVec::new(re, im)
            }
            1 => ComplexVec::from_complex_vec(&cv::<f32>(n)),
            _ => ComplexVec::from(cv::<f32>(n)),
        };
        ou(w.len());
        ou(w.is_empty() as usize);
        match kind / 3 {
            0 => {
                let (re, im) = w.as_slices();
                ou(re.len());
                ou(im.len());
                orv(re);
                orv(im);
            }
            1 => {
                let v = w.to_complex_vec();
                ou(v.len());
                ocv(&v);
                ocv(&w.to_complex_vec());
            }
            2 => {
                let v: Vec<Complex32> = w.into();
                ou(v.len());
                ocv(&v);
            }
            _ => {
                let (re, im) = w.as_mut_slices();
                for i in 0..re.len() {
                    core::mem::swap(&mut re[i], &mut im[i]);
                }
                ocv(&w.to_complex_vec());
            }
        }
    }
    fn tw(ty, n, m, d) {
        // two requests of one planner, and one of a fresh one
        fn go<T: Num>(n: usize, m: usize) {
            let mut p = FftPlanner::<T>::new();
            if m > 0 {
                let a = p.get_twiddles(m);
                ou(a.len());
                ocv(&a);
            }
            let a = p.get_twiddles(n);
            ou(a.len());
            ocv(&a);
            let a = p.get_twiddles(n);
            ou(a.len());
            ocv(&a);
        }
        if ty == 0 { go::<f32>(n, m) } else { go::<f64>(n, m) }
    }
    fn twh(ty, k, c, d) {
        // a history of k requests chosen by the solver
        fn go<T: Num>(k: usize) {
            let mut p = FftPlanner::<T>::default();
            for _ in 0..k {
                let n = u();
                let a = p.get_twiddles(n);
                ou(a.len());
                ocv(&a);
            }
        }
        if ty == 0 { go::<f32>(k) } else { go::<f64>(k) }
    }
    fn tst(n, c, d, e) {
        let mut p = FftPlanner::<f32>::new();
        let n = if n == 0 { u() } else { n };
        ou(match p.plan_strategy(n) {
            FftStrategy::Radix2 => 0,
            FftStrategy::Radix4 => 1,
            FftStrategy::SplitRadix => 2,
            FftStrategy::Auto => 3,
        });
    }
    fn tbl(ty, n, m, d) {
        #[cfg(feature = "std")]
        {
            fn go<T: Num>(n: usize, m: usize) {
                let mut p = FftPlanner::<T>::new();
                for n in [m, n, n] {
                    if n > 0 {
                        let (a, b) = p.get_bluestein(n);
                        ou(a.len());
                        ocv(&a);
                        ou(b.len());
                        ocv(&b);
                    }
                }
            }
            if ty == 0 { go::<f32>(n, m) } else { go::<f64>(n, m) }
        }
    }
    fn tfb(n, k, c, d) {
        #[cfg(feature = "std")]
        {
            let b = TwiddleFactorBuffer::new(n);
            ou(b.n);
            ou(b.twiddles.len());
            ocv(&b.twiddles);
        }
    }
    fn tfg(n, k, c, d) {
        #[cfg(feature = "std")]
        {
            let b = TwiddleFactorBuffer::new(n);
            let z = b.get(u());
            z.re.out();
            z.im.out();
        }
    }
}
