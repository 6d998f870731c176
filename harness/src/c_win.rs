use crate::*;
use kofft::window::*;
use kofft::window_more::*;

fn st<const N: usize>(kind: usize) {
    let mut o = [0.0f32; N];
    for x in o.iter_mut() {
        *x = f();
    }
    match kind {
        0 => hann_inplace_stack(&mut o),
        1 => hamming_inplace_stack(&mut o),
        _ => blackman_inplace_stack(&mut o),
    }
    ou(N);
    orv(&o);
}
cases! {
    fn win(kind, n, c, d) {
        let v = match kind {
            0 => hann(n),
            1 => hamming(n),
            2 => blackman(n),
            3 => bartlett(n),
            4 => bohman(n),
            5 => nuttall(n),
            6 => tukey(n, f()),
            _ => kaiser(n, f()),
        };
        ou(v.len());
        orv(&v);
    }
    fn wst(kind, n, c, d) {
        match n {
            0 => st::<0>(kind),
            1 => st::<1>(kind),
            2 => st::<2>(kind),
            3 => st::<3>(kind),
            5 => st::<5>(kind),
            8 => st::<8>(kind),
            12 => st::<12>(kind),
            31 => st::<31>(kind),
            64 => st::<64>(kind),
            _ => st::<256>(kind),
        }
    }
}
