use crate::*;
use kofft::ndfft::*;

fn two<T: Num>(r: usize, c: usize, k: usize) {
    let s = ScalarFftImpl::<T>::default();
    let mut d = cvs::<T>(r * c, k);
    let mut sc = cv::<T>(r);
    oe(fft2d_inplace(&mut d, r, c, &s, &mut sc));
    ocv(&d);
}
fn three<T: Num>(a: usize, r: usize, c: usize, k: usize) {
    let s = ScalarFftImpl::<T>::default();
    let mut d = cvs::<T>(a * r * c, k);
    let (mut t, mut ro, mut co) = (cv::<T>(a), cv::<T>(r), cv::<T>(c));
    oe(fft3d_inplace(&mut d, a, r, c, &s, &mut Fft3dScratch { tube: &mut t, row: &mut ro, col: &mut co }));
    ocv(&d);
}

fn ext() -> usize {
    [0, 1, 2, 3, 1 << 32, 1 << 63, !0][u()]
}

cases! {
    fn nd2f(r, c, k, x) { two::<f32>(r, c, k); }
    fn nd2d(r, c, k, x) { two::<f64>(r, c, k); }
    fn nd3f(a, r, c, k) { three::<f32>(a, r, c, k); }
    fn nd3d(a, r, c, k) { three::<f64>(a, r, c, k); }
    // any data length, scratch length, rows, cols
    fn nd2err(a, b, c, x) {
        let s = ScalarFftImpl::<f32>::default();
        let (n, m, cols, rows) = (u(), u(), u(), ext());
        ou(rows);
        let mut d = cv::<f32>(n);
        let mut sc = vec![Complex::new(0.0f32, 0.0); m];
        oe(fft2d_inplace(&mut d, rows, cols, &s, &mut sc));
        ocv(&d);
    }
    fn nd3err(a, b, c, x) {
        let s = ScalarFftImpl::<f32>::default();
        let (n, m, l, k) = (u(), u(), u(), u());
        let (dep, rows, cols) = (ext(), ext(), ext());
        ou(dep);
        ou(rows);
        ou(cols);
        let mut d = cv::<f32>(n);
        let z = Complex::new(0.0f32, 0.0);
        let (mut t, mut ro, mut co) = (vec![z; m], vec![z; l], vec![z; k]);
        oe(fft3d_inplace(&mut d, dep, rows, cols, &s, &mut Fft3dScratch { tube: &mut t, row: &mut ro, col: &mut co }));
        ocv(&d);
    }
    fn flat2(rows, b, c, x) {
        let mut v: Vec<Vec<Complex<f32>>> = Vec::new();
        for _ in 0..rows {
            let n = u();
            v.push(cv(n));
        }
        match flatten_2d(v) {
            Ok((f, r, c)) => {
                ou(0);
                ou(r);
                ou(c);
                ou(f.len());
                ocv(&f);
            }
            Err(e) => ou(ecode(e)),
        }
    }
    fn flat3(depth, b, c, x) {
        let mut v: Vec<Vec<Vec<Complex<f64>>>> = Vec::new();
        for _ in 0..depth {
            let rows = u();
            let mut p = Vec::new();
            for _ in 0..rows {
                let n = u();
                p.push(cv(n));
            }
            v.push(p);
        }
        match flatten_3d(v) {
            Ok((f, d, r, c)) => {
                ou(0);
                ou(d);
                ou(r);
                ou(c);
                ou(f.len());
                ocv(&f);
            }
            Err(e) => ou(ecode(e)),
        }
    }
}
