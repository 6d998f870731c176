use crate::*;
use kofft::stft::*;

type C = Complex<f32>;
fn z() -> C {
    Complex::new(0.0, 0.0)
}
fn ofr(v: &[Vec<C>]) {
    ou(v.len());
    for x in v {
        ou(x.len());
        ocv(x);
    }
}
/// frame buffers with leftovers of several lengths
fn junk(frames: usize, wl: usize) -> Vec<Vec<C>> {
    (0..frames).map(|i| vec![Complex::new(7.0 + i as f32, -3.0); [0, wl, wl + 3, wl / 2][i % 4]]).collect()
}
#[cfg(feature = "parallel")]
fn par(x: &[f32], w: &[f32], hop: usize, o: &mut [Vec<C>], e: &ScalarFftImpl<f32>) -> Result<(), FftError> {
    parallel(x, w, hop, o, e)
}
#[cfg(not(feature = "parallel"))]
fn par(x: &[f32], w: &[f32], hop: usize, o: &mut [Vec<C>], e: &ScalarFftImpl<f32>) -> Result<(), FftError> {
    stft(x, w, hop, o, e)
}
#[cfg(feature = "parallel")]
fn ipar(fr: &[Vec<C>], w: &[f32], hop: usize, o: &mut [f32], e: &ScalarFftImpl<f32>) -> Result<(), FftError> {
    inverse_parallel(fr, w, hop, o, e)
}
#[cfg(not(feature = "parallel"))]
fn ipar(fr: &[Vec<C>], w: &[f32], hop: usize, o: &mut [f32], e: &ScalarFftImpl<f32>) -> Result<(), FftError> {
    let mut s = vec![0.0; o.len()];
    istft(&mut fr.to_vec(), w, hop, o, &mut s, e)
}

#[cfg(feature = "parallel")]
fn thresh(n: usize) {
    set_parallel_fft_threshold(n)
}
#[cfg(not(feature = "parallel"))]
fn thresh(_: usize) {}

cases! {
    // window, signal
    fn stf(n, wl, hop, frames) {
        let e = ScalarFftImpl::<f32>::default();
        let (w, x) = (rv::<f32>(wl), rv::<f32>(n));
        let mut o = junk(frames, wl);
        oe(stft(&x, &w, hop, &mut o, &e));
        ofr(&o);
    }
    fn spar(n, wl, hop, frames) {
        let e = ScalarFftImpl::<f32>::default();
        let (w, x) = (rv::<f32>(wl), rv::<f32>(n));
        let mut o = junk(frames, wl);
        oe(par(&x, &w, hop, &mut o, &e));
        ofr(&o);
    }
    // a single frame
    fn sfr(n, wl, start, c) {
        let e = ScalarFftImpl::<f32>::default();
        let (w, x) = (rv::<f32>(wl), rv::<f32>(n));
        let mut o = vec![Complex::new(5.0f32, 6.0); wl];
        oe(frame(&x, &w, start, &mut o, &e));
        ocv(&o);
    }
    fn sstream(n, wl, hop, c) {
        let e = ScalarFftImpl::<f32>::default();
        let (w, x) = (rv::<f32>(wl), rv::<f32>(n));
        let mut o = vec![Complex::new(5.0f32, 6.0); wl];
        let mut s = match StftStream::new(&x, &w, hop, &e) {
            Ok(s) => s,
            Err(x) => return ou(100 + ecode(x)),
        };
        ou(0);
        let mut end = 0;
        for _ in 0..n / hop + 4 {
            match s.next_frame(&mut o) {
                Ok(true) => { ou(1); ocv(&o); }
                Ok(false) => { ou(0); end += 1; }
                Err(x) => { ou(10 + ecode(x)); return; }
            }
            if end == 2 { return; }
        }
        ou(77);
    }
    // a stream whose engine is used for other transforms, and whose caller passes wrong buffers, between frames
    fn smix(n, wl, hop, c) {
        let e = ScalarFftImpl::<f32>::default();
        let (w, x) = (rv::<f32>(wl), rv::<f32>(n));
        let mut o = vec![Complex::new(5.0f32, 6.0); wl];
        let mut bad = vec![z(); wl + 1];
        let mut s = StftStream::new(&x, &w, hop, &e).unwrap();
        let mut l = 1;
        loop {
            match s.next_frame(&mut bad) { Ok(b) => ou(20 + b as usize), Err(x) => ou(ecode(x)) }
            l = l * 2 % 31;
            let mut y = vec![Complex::new(l as f32, 1.0); l];
            let _ = e.fft(&mut y);
            let _ = e.ifft(&mut o);
            match s.next_frame(&mut o) {
                Ok(true) => { ou(1); ocv(&o); }
                Ok(false) => { ou(0); return; }
                Err(x) => { ou(10 + ecode(x)); return; }
            }
        }
    }
    // sequential and parallel forms on the same data: forward, then inverse of other frames
    fn scmp(n, wl, hop, frames) {
        let e = ScalarFftImpl::<f32>::default();
        let (w, x) = (rv::<f32>(wl), rv::<f32>(n));
        let (mut a, mut b) = (junk(frames, wl), junk(frames, wl));
        oe(stft(&x, &w, hop, &mut a, &e));
        oe(par(&x, &w, hop, &mut b, &e));
        ou(a.iter().map(|v| v.len()).eq(b.iter().map(|v| v.len())) as usize);
        for (p, q) in a.iter().flatten().zip(b.iter().flatten()) {
            of(p.re); of(q.re);
            of(p.im); of(q.im);
        }
    }
    fn sicmp(frames, wl, hop, m) {
        let e = ScalarFftImpl::<f32>::default();
        let w = rv::<f32>(wl);
        let (mut o, mut s) = (rv::<f32>(m), vec![0.0; m]);
        let mut p = o.clone();
        let mut fr: Vec<Vec<C>> = (0..frames).map(|_| cv(wl)).collect();
        oe(ipar(&fr, &w, hop, &mut p, &e));
        oe(istft(&mut fr, &w, hop, &mut o, &mut s, &e));
        for i in 0..m {
            of(o[i]); of(p[i]);
        }
    }
    // complex inverse and forward FFT with the parallel path forced off, then on
    fn fpar(n, thr, inv, k) {
        let x: Vec<C> = cvs(n, k);
        let (mut a, mut b) = (x.clone(), x);
        let e = ScalarFftImpl::<f32>::default();
        thresh(usize::MAX);
        if inv == 1 { oe(e.ifft(&mut a)); } else { oe(e.fft(&mut a)); }
        thresh(thr);
        if inv == 1 { oe(e.ifft(&mut b)); } else { oe(e.fft(&mut b)); }
        thresh(0);
        for (p, q) in a.iter().zip(&b) {
            of(p.re); of(q.re);
            of(p.im); of(q.im);
        }
    }
    // window, previous output, previous scratch, frames
    fn istf(frames, wl, hop, m) {
        let e = ScalarFftImpl::<f32>::default();
        let w = rv::<f32>(wl);
        let (mut o, mut s) = (rv::<f32>(m), rv::<f32>(m));
        let mut fr: Vec<Vec<C>> = (0..frames).map(|_| cv(wl)).collect();
        oe(istft(&mut fr, &w, hop, &mut o, &mut s, &e));
        orv(&o);
    }
    fn sipar(frames, wl, hop, m) {
        let e = ScalarFftImpl::<f32>::default();
        let w = rv::<f32>(wl);
        let mut o = rv::<f32>(m);
        let fr: Vec<Vec<C>> = (0..frames).map(|_| cv(wl)).collect();
        oe(ipar(&fr, &w, hop, &mut o, &e));
        orv(&o);
    }
    // window, previous output, frame
    fn sifr(wl, start, m, c) {
        let e = ScalarFftImpl::<f32>::default();
        let w = rv::<f32>(wl);
        let mut o = rv::<f32>(m);
        let mut fr: Vec<C> = cv(wl);
        oe(inverse_frame(&mut fr, &w, start, &mut o, &e));
        orv(&o);
    }
    // window, frames
    fn sistream(frames, wl, hop, c) {
        let e = ScalarFftImpl::<f32>::default();
        let w = rv::<f32>(wl);
        let mut s = match IstftStream::new(wl, hop, w, &e) {
            Ok(s) => s,
            Err(x) => return ou(100 + ecode(x)),
        };
        ou(0);
        for _ in 0..frames {
            let fr: Vec<C> = cv(wl);
            match s.push_frame(&fr) {
                Ok(v) => { ou(v.len()); orv(v); }
                Err(x) => { ou(1000 + ecode(x)); return; }
            }
        }
        let v = s.flush();
        ou(v.len());
        orv(v);
        ou(s.flush().len());
    }
    // forward then inverse: batch (mode 0), parallel (1), streams (2)
    fn srt(n, wl, hop, mode) {
        let e = ScalarFftImpl::<f32>::default();
        let (w, x) = (rv::<f32>(wl), rv::<f32>(n));
        let mut fr = junk(n.div_ceil(hop), wl);
        let (mut o, mut s) = (vec![3.0f32; n], vec![4.0f32; n]);
        match mode {
            0 => {
                oe(stft(&x, &w, hop, &mut fr, &e));
                oe(istft(&mut fr, &w, hop, &mut o, &mut s, &e));
            }
            1 => {
                oe(par(&x, &w, hop, &mut fr, &e));
                oe(ipar(&fr, &w, hop, &mut o, &e));
            }
            _ => {
                let mut b = vec![z(); wl];
                let mut a = StftStream::new(&x, &w, hop, &e).unwrap();
                let mut t = IstftStream::new(wl, hop, w.clone(), &e).unwrap();
                o.clear();
                while a.next_frame(&mut b).unwrap() {
                    o.extend_from_slice(t.push_frame(&b).unwrap());
                }
                o.extend_from_slice(t.flush());
                ou(0);
                ou((o.len() < n) as usize);
                o.resize(n, 0.0);
            }
        }
        orv(&o);
    }
    // arguments of any length: kind, then lengths
    fn serr(kind, hop, k, r) {
        let e = ScalarFftImpl::<f32>::default();
        let (n, wl, l) = (u(), u(), u());
        let (x, w) = (vec![1.0f32; n], vec![0.5f32; wl]);
        match kind {
            0 => { let mut o = vec![vec![z(); l]; k]; oe(stft(&x, &w, hop, &mut o, &e)); }
            1 => { let mut o = vec![vec![z(); l]; k]; oe(par(&x, &w, hop, &mut o, &e)); }
            2 => { let mut o = vec![z(); l]; oe(frame(&x, &w, k, &mut o, &e)); }
            3 => {
                match StftStream::new(&x, &w, hop, &e) {
                    Ok(mut s) => {
                        let mut o = vec![z(); l];
                        for _ in 0..k + 1 {
                            match s.next_frame(&mut o) { Ok(b) => ou(b as usize + 20), Err(x) => ou(ecode(x)) }
                        }
                    }
                    Err(x) => ou(ecode(x)),
                }
            }
            4 => {
                // frames of length l, except the last, which has length wl
                let mut fr = vec![vec![z(); l]; k];
                if let Some(v) = fr.last_mut() { *v = vec![z(); wl]; }
                let mut o = vec![0.0f32; n];
                let mut s = vec![0.0f32; n];
                oe(istft(&mut fr, &w, hop, &mut o, &mut s, &e));
            }
            5 => {
                let mut fr = vec![vec![z(); l]; k];
                if let Some(v) = fr.last_mut() { *v = vec![z(); wl]; }
                let mut o = vec![0.0f32; n];
                oe(ipar(&fr, &w, hop, &mut o, &e));
            }
            6 => { let mut fr = vec![z(); l]; let mut o = vec![0.0f32; n]; oe(inverse_frame(&mut fr, &w, k, &mut o, &e)); }
            7 => {
                match IstftStream::new(n, hop, w, &e) {
                    Ok(mut s) => {
                        let fr = vec![z(); l];
                        ou(0);
                        for _ in 0..k {
                            match s.push_frame(&fr) { Ok(v) => ou(20 + v.len()), Err(x) => ou(ecode(x)) }
                        }
                        ou(s.flush().len());
                        match s.push_frame(&fr) { Ok(v) => ou(20 + v.len()), Err(x) => ou(ecode(x)) }
                        ou(s.flush().len());
                    }
                    Err(x) => ou(ecode(x)),
                }
            }
            _ => {
                let mut fr = vec![vec![z(); wl]; k];
                let mut o = vec![0.0f32; n];
                let mut s = vec![0.0f32; l];
                oe(istft(&mut fr, &w, hop, &mut o, &mut s, &e));
            }
        }
    }
}
