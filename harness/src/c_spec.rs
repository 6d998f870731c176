use crate::*;
use kofft::{cepstrum, czt, goertzel, hilbert};

cases! {
    fn hilb(n, b, c, d) {
        match hilbert::hilbert_analytic(&rv::<f32>(n)) {
            Ok(v) => { ou(0); ocv(&v); }
            Err(e) => ou(ecode(e)),
        }
    }
    // w, a, then the signal
    fn czt(n, m, c, d) {
        let w = (f(), f());
        let a = (f(), f());
        for (re, im) in czt::czt_f32(&rv::<f32>(n), m, w, a) {
            of(re);
            of(im);
        }
    }
    fn goertzel(n, b, c, d) {
        let (sr, t) = (f(), f());
        match goertzel::goertzel_f32(&rv::<f32>(n), sr, t) {
            Ok(v) => { ou(0); of(v); }
            Err(e) => ou(ecode(e)),
        }
    }
    fn cepst(n, b, c, d) {
        match cepstrum::real_cepstrum(&rv::<f32>(n)) {
            Ok(v) => { ou(0); orv(&v); }
            Err(e) => ou(ecode(e)),
        }
    }
    fn mel(n, filters, c, d) {
        let sr = f();
        orv(&cepstrum::mel_filterbank(&rv::<f32>(n), sr, filters));
    }
    fn mfcc(n, filters, coefs, frames) {
        let sr = f();
        if frames == 0 {
            match cepstrum::mfcc(&rv::<f32>(n), sr, filters, coefs) {
                Ok(v) => { ou(0); orv(&v); }
                Err(e) => ou(ecode(e)),
            }
            return;
        }
        let b: Vec<Vec<f32>> = (0..frames).map(|_| rv::<f32>(n)).collect();
        match cepstrum::mfcc_batch(&b, sr, filters, coefs) {
            Ok(v) => { ou(0); ou(v.len()); for r in v { orv(&r); } }
            Err(e) => ou(ecode(e)),
        }
    }
}
