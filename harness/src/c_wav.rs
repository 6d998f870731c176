use crate::*;
use kofft::wavelet::*;

type Pair = (Vec<f32>, Vec<f32>);

fn fwd(fam: usize, x: &[f32]) -> Pair {
    match fam {
        0 => haar_forward(x),
        1 => db2_forward(x),
        2 => db4_forward(x),
        3 => sym4_forward(x),
        _ => coif1_forward(x),
    }
}
fn inv(fam: usize, a: &[f32], d: &[f32]) -> Vec<f32> {
    match fam {
        0 => haar_inverse(a, d),
        1 => db2_inverse(a, d),
        2 => db4_inverse(a, d),
        3 => sym4_inverse(a, d),
        _ => coif1_inverse(a, d),
    }
}
fn mfwd(fam: usize, x: &[f32], levels: usize) -> (Vec<f32>, Vec<Vec<f32>>) {
    match fam {
        0 => haar_forward_multi(x, levels),
        1 => db2_forward_multi(x, levels),
        2 => db4_forward_multi(x, levels),
        3 => sym4_forward_multi(x, levels),
        _ => coif1_forward_multi(x, levels),
    }
}
fn minv(fam: usize, a: &[f32], d: &[Vec<f32>]) -> Vec<f32> {
    match fam {
        0 => haar_inverse_multi(a, d),
        1 => db2_inverse_multi(a, d),
        2 => db4_inverse_multi(a, d),
        3 => sym4_inverse_multi(a, d),
        _ => coif1_inverse_multi(a, d),
    }
}
fn olv(v: &[f32]) {
    ou(v.len());
    orv(v);
}
fn stack<const N: usize>() {
    let x: Vec<f32> = rv(N);
    let mut a = [0.0f32; N];
    a.copy_from_slice(&x);
    let h = N / 2;
    let (mut p, mut q) = (rv::<f32>(h), rv::<f32>(h));
    haar_forward_inplace_stack(&a, &mut p, &mut q);
    olv(&p);
    olv(&q);
    let mut o: Vec<f32> = rv(2 * h);
    haar_inverse_inplace_stack::<N>(&p, &q, &mut o);
    olv(&o);
}

cases! {
    fn wfwd(fam, n, c, d) {
        let (a, d) = fwd(fam, &rv::<f32>(n));
        olv(&a);
        olv(&d);
    }
    fn winv(fam, n, c, d) {
        olv(&inv(fam, &rv::<f32>(n), &rv::<f32>(n)));
    }
    fn wrt(fam, n, c, d) {
        let (a, d) = fwd(fam, &rv::<f32>(n));
        olv(&inv(fam, &a, &d));
    }
    // batch: r rows of n samples, forward then inverse of fresh coefficients
    fn wbatch(fam, n, r, d) {
        let x: Vec<Vec<f32>> = (0..r).map(|_| rv(n)).collect();
        let (a, d) = if fam == 0 { kofft::wavelet::batch_forward(&x) } else { db2_forward_batch(&x) };
        ou(a.len());
        ou(d.len());
        for (p, q) in a.iter().zip(&d) {
            olv(p);
            olv(q);
        }
    }
    fn wibatch(fam, n, r, d) {
        let a: Vec<Vec<f32>> = (0..r).map(|_| rv(n)).collect();
        let d: Vec<Vec<f32>> = (0..r).map(|_| rv(n)).collect();
        let y = if fam == 0 { kofft::wavelet::batch_inverse(&a, &d) } else { db2_inverse_batch(&a, &d) };
        ou(y.len());
        for p in &y {
            olv(p);
        }
    }
    fn wmulti(fam, n, levels, d) {
        let (a, d) = mfwd(fam, &rv::<f32>(n), levels);
        olv(&a);
        ou(d.len());
        for p in &d {
            olv(p);
        }
    }
    fn wminv(fam, n, levels, r) {
        // approximation of length n and details of lengths n, 2n, 4n, ... (finest first)
        let a: Vec<f32> = rv(n);
        let d: Vec<Vec<f32>> = (0..levels).map(|l| rv(n << (levels - 1 - l))).collect();
        olv(&minv(fam, &a, &d));
    }
    fn wmrt(fam, n, levels, d) {
        let (a, d) = mfwd(fam, &rv::<f32>(n), levels);
        olv(&minv(fam, &a, &d));
    }
    // the generic batch forms against the single ones, on the same data
    fn wmbatch(fam, n, levels, r) {
        let x: Vec<Vec<f32>> = (0..r).map(|_| rv(n)).collect();
        let (a, d) = multi_level_forward_batch(&x, levels, |v| fwd(fam, v));
        let y = multi_level_inverse_batch(&a, &d, |p, q| inv(fam, p, q));
        ou(a.len());
        ou(d.len());
        ou(y.len());
        for i in 0..r {
            let (sa, sd) = multi_level_forward(&x[i], levels, |v| fwd(fam, v));
            let sy = multi_level_inverse(&sa, &sd, |p, q| inv(fam, p, q));
            ou((sa.len() == a[i].len() && sd.len() == d[i].len() && sy.len() == y[i].len()) as usize);
            olv(&a[i]);
            orv(&sa);
            for l in 0..levels {
                olv(&d[i][l]);
                orv(&sd[l]);
            }
            olv(&y[i]);
            orv(&sy);
        }
    }
    fn wstack(n, b, c, d) {
        match n {
            0 => stack::<0>(),
            2 => stack::<2>(),
            3 => stack::<3>(),
            4 => stack::<4>(),
            6 => stack::<6>(),
            8 => stack::<8>(),
            16 => stack::<16>(),
            _ => stack::<32>(),
        }
    }
}
