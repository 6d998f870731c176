use crate::*;

fn reset() {
    #[cfg(feature = "parallel")]
    {
        set_parallel_fft_threshold(0);
        set_parallel_fft_l1_cache(0);
        set_parallel_fft_per_core_work(0);
        set_parallel_fft_threads(0);
        set_parallel_fft_block_size(0);
    }
}
fn set(i: usize, v: usize) {
    #[cfg(feature = "parallel")]
    match i {
        0 => set_parallel_fft_threshold(v),
        1 => set_parallel_fft_l1_cache(v),
        2 => set_parallel_fft_per_core_work(v),
        3 => set_parallel_fft_threads(v),
        _ => set_parallel_fft_block_size(v),
    }
}
cases! {
    // inverse transform of n points with the settings in `mask` chosen freely, in order; e picks the entry point
    fn pth(n, mask, e, d) {
        reset();
        for i in 0..5 {
            if mask >> i & 1 == 1 {
                set(i, u());
            }
        }
        let mut v = cv::<f32>(n);
        let r = match e {
            0 => ScalarFftImpl::<f32>::default().ifft(&mut v),
            _ => ifft_parallel(&mut v),
        };
        reset();
        oe(r);
        ocv(&v);
    }
    // a history: settings set to free values, then back to 0
    fn pthz(n, mask, d, e) {
        reset();
        for i in 0..5 {
            if mask >> i & 1 == 1 {
                set(i, u());
            }
        }
        for i in 0..5 {
            if mask >> i & 1 == 1 {
                set(i, 0);
            }
        }
        let mut v = cv::<f32>(n);
        oe(ScalarFftImpl::<f32>::default().ifft(&mut v));
        ocv(&v);
    }
    // forward transform with every setting free
    fn pthf(n, mask, d, e) {
        reset();
        for i in 0..5 {
            if mask >> i & 1 == 1 {
                set(i, u());
            }
        }
        let mut v = cv::<f32>(n);
        let r = if d == 0 { ScalarFftImpl::<f32>::default().fft(&mut v) } else { fft_parallel(&mut v) };
        reset();
        oe(r);
        ocv(&v);
    }
    fn pthv(a, b, c, d) {
        #[cfg(feature = "internal-tests")]
        ou(__test_parallel_fft_threshold());
    }
}
