use crate::*;
use kofft::{dct, dst, hartley};

fn rows(n: usize) -> Vec<Vec<f32>> {
    vec![rv(n), rv(n + 1), rv(1)]
}
fn orows(v: &[Vec<f32>]) {
    for r in v {
        orv(r);
    }
}
/// forms: 0 plain, 1 batch, 2 multi-channel, 3 reference module
fn dctf(kind: usize, form: usize, n: usize) {
    if form == 1 || form == 2 {
        let mut b = rows(n);
        match (form, kind) {
            (1, 1) => dct::batch_i(&mut b),
            (1, 2) => dct::batch_ii(&mut b),
            (1, 3) => dct::batch_iii(&mut b),
            (1, _) => dct::batch_iv(&mut b),
            (_, 1) => dct::multi_channel_i(&mut b),
            (_, 2) => dct::multi_channel_ii(&mut b),
            (_, 3) => dct::multi_channel_iii(&mut b),
            _ => dct::multi_channel_iv(&mut b),
        }
        return orows(&b);
    }
    let x = rv::<f32>(n);
    #[cfg(feature = "slow")]
    if form == 3 {
        return orv(&match kind {
            2 => dct::slow::dct2(&x),
            3 => dct::slow::dct3(&x),
            _ => dct::slow::dct4(&x),
        });
    }
    orv(&match kind {
        1 => dct::dct1(&x),
        2 => dct::dct2(&x),
        3 => dct::dct3(&x),
        _ => dct::dct4(&x),
    });
}
fn dstf(kind: usize, form: usize, n: usize) {
    if form == 1 || form == 2 {
        let mut b = rows(n);
        match (form, kind) {
            (1, 1) => dst::batch_i(&mut b),
            (1, 2) => dst::batch_ii(&mut b),
            (1, 3) => dst::batch_iii(&mut b),
            (1, _) => dst::batch_iv(&mut b),
            (_, 1) => dst::multi_channel_i(&mut b),
            (_, 2) => dst::multi_channel_ii(&mut b),
            (_, 3) => dst::multi_channel_iii(&mut b),
            _ => dst::multi_channel_iv(&mut b),
        }
        return orows(&b);
    }
    let x = rv::<f32>(n);
    orv(&match kind {
        1 => dst::dst1(&x),
        2 => dst::dst2(&x),
        3 => dst::dst3(&x),
        _ => dst::dst4(&x),
    });
}
fn ctx<const N: usize>(kind: usize) {
    let v = rv::<f32>(N);
    let w = rv::<f32>(N);
    let mut x = [0.0f32; N];
    x.copy_from_slice(&v);
    let mut o = [0.0f32; N];
    o.copy_from_slice(&w);
    oe(match kind {
        1 => dct::dct1_inplace_stack(&x, &mut o),
        2 => dct::dct2_inplace_stack(&x, &mut o),
        11 => dst::dst2_inplace_stack(&x, &mut o),
        12 => dst::dst2_inplace_stack_fft(&x, &mut o),
        13 => dst::dst3_inplace_stack_fft(&x, &mut o),
        _ => dst::dst4_inplace_stack(&x, &mut o),
    });
    orv(&o);
}
const PS: [usize; 8] = [1, 2, 3, 4, 6, 8, 16, 5];

// requests to the sine planner: (length, table); table 5 is the scratch buffer
const DS: [(usize, usize); 12] = [
    (1, 2), (3, 2), (4, 2), (1, 3), (3, 3), (4, 3), (1, 4), (3, 4), (4, 4), (0, 2), (2, 5), (5, 5),
];

/// the i-th of `pre` lengths requested before length n
fn other(n: usize, pre: usize, i: usize, how: usize) -> usize {
    match how {
        0 => i + 1,
        1 => pre - i,
        2 => n + (16 << i),
        _ => n * (i + 2),
    }
}

cases! {
    fn dct(kind, form, n, d) { dctf(kind, form, n); }
    fn dst(kind, form, n, d) { dstf(kind, form, n); }
    // forward and back again; kind 2: type II then III
    fn dctinv(kind, n, c, d) {
        let x = rv::<f32>(n);
        orv(&match kind {
            1 => dct::dct1(&dct::dct1(&x)),
            2 => dct::dct3(&dct::dct2(&x)),
            3 => dct::dct2(&dct::dct3(&x)),
            _ => dct::dct4(&dct::dct4(&x)),
        });
    }
    fn dstinv(kind, n, c, d) {
        let x = rv::<f32>(n);
        orv(&match kind {
            1 => dst::dst1(&dst::dst1(&x)),
            2 => dst::dst3(&dst::dst2(&x)),
            3 => dst::dst2(&dst::dst3(&x)),
            _ => dst::dst4(&dst::dst4(&x)),
        });
    }
    fn stack(kind, n, c, d) {
        match n {
            0 => ctx::<0>(kind),
            1 => ctx::<1>(kind),
            2 => ctx::<2>(kind),
            3 => ctx::<3>(kind),
            4 => ctx::<4>(kind),
            6 => ctx::<6>(kind),
            8 => ctx::<8>(kind),
            12 => ctx::<12>(kind),
            16 => ctx::<16>(kind),
            32 => ctx::<32>(kind),
            _ => {}
        }
    }
    // plans of free lengths from one planner, each used for `uses` transforms
    fn dctplan(plans, uses, c, d) {
        let mut p = dct::DctPlanner::new();
        for _ in 0..plans {
            let n = PS[u()];
            ou(n);
            let mut f = p.plan_dct2(n);
            for _ in 0..uses {
                let mut x = rv::<f32>(n);
                let mut o = vec![0.0f32; n];
                oe(f(&mut x, &mut o));
                orv(&o);
            }
        }
    }
    // a plan of free length after plans of lengths 1..=pre from the same planner
    fn dctlong(pre, down, c, d) {
        let mut p = dct::DctPlanner::new();
        let m = u();
        for i in 0..pre {
            let n = other(m, pre, i, down);
            let mut x: Vec<f32> = (0..n).map(|t| t as f32 - 3.0).collect();
            let mut o = vec![0.0f32; n];
            let _ = p.plan_dct2(n)(&mut x, &mut o);
        }
        let n = m;
        ou(n);
        let mut x = rvs::<f32>(n, 2);
        let mut o = vec![0.0f32; n];
        oe(p.plan_dct2(n)(&mut x, &mut o));
        orv(&o);
    }
    // a table of free length and type after tables of lengths 1..=pre of all types from the same planner
    fn dstlong(pre, down, c, d) {
        let mut p = dst::DstPlanner::<f32>::new();
        let m = u();
        for i in 0..pre {
            let n = other(m, pre, i, down);
            p.plan_dst2(n);
            p.plan_dst4(n);
            p.scratch(n);
            p.plan_dst3(n);
        }
        let (n, k) = (m, u());
        ou(n);
        ou(k);
        orv(match k {
            2 => p.plan_dst2(n),
            3 => p.plan_dst3(n),
            _ => p.plan_dst4(n),
        });
    }
    // a plan given other lengths than it was made for
    fn dctplanerr(n, b, c, d) {
        let mut p = dct::DctPlanner::new();
        let mut f = p.plan_dct2(n);
        let mut x = rv::<f32>(u());
        let mut o = rv::<f32>(u());
        oe(f(&mut x, &mut o));
        orv(&o);
    }
    // tables and scratch of the sine planner, in any order of requests
    fn dstplan32(steps, b, c, d) {
        let mut p = dst::DstPlanner::<f32>::new();
        for _ in 0..steps {
            let (n, k) = DS[u()];
            ou(n);
            ou(k);
            match k {
                2 => orv(p.plan_dst2(n)),
                3 => orv(p.plan_dst3(n)),
                4 => orv(p.plan_dst4(n)),
                _ => ou(p.scratch(n).len()),
            }
        }
    }
    fn dstplan64(steps, b, c, d) {
        let mut p = dst::DstPlanner::<f64>::new();
        for _ in 0..steps {
            let (n, k) = DS[u()];
            ou(n);
            ou(k);
            match k {
                2 => orv(p.plan_dst2(n)),
                3 => orv(p.plan_dst3(n)),
                4 => orv(p.plan_dst4(n)),
                _ => ou(p.scratch(n).len()),
            }
        }
    }
    fn dht(form, n, c, d) {
        if form == 0 {
            orv(&hartley::dht(&rv::<f32>(n)));
        } else {
            let mut b = rows(n);
            if form == 1 {
                hartley::batch(&mut b);
            } else {
                hartley::multi_channel(&mut b);
            }
            orows(&b);
        }
    }
    fn dht2(n, b, c, d) { orv(&hartley::dht(&hartley::dht(&rv::<f32>(n)))); }
}
