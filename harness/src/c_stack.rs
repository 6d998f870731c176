use crate::*;

fn run<const N: usize>(inv: usize) {
    let v = cv::<f32>(N);
    let mut a = [Complex::new(0.0f32, 0.0); N];
    for i in 0..N {
        a[i] = v[i];
    }
    oe(if inv == 0 { fft_inplace_stack(&mut a) } else { ifft_inplace_stack(&mut a) });
    ocv(&a);
}

cases! {
    fn stack(n, inv, c, d) {
        match n {
            0 => run::<0>(inv),
            1 => run::<1>(inv),
            2 => run::<2>(inv),
            3 => run::<3>(inv),
            4 => run::<4>(inv),
            5 => run::<5>(inv),
            6 => run::<6>(inv),
            7 => run::<7>(inv),
            8 => run::<8>(inv),
            9 => run::<9>(inv),
            10 => run::<10>(inv),
            12 => run::<12>(inv),
            15 => run::<15>(inv),
            16 => run::<16>(inv),
            20 => run::<20>(inv),
            24 => run::<24>(inv),
            32 => run::<32>(inv),
            48 => run::<48>(inv),
            64 => run::<64>(inv),
            96 => run::<96>(inv),
            128 => run::<128>(inv),
            256 => run::<256>(inv),
            512 => run::<512>(inv),
            _ => {}
        }
    }
}
