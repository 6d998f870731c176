use crate::*;
use kofft::visual::spectrogram::*;

fn cm(i: usize) -> Colormap {
    match i {
        0 => Colormap::Fire,
        1 => Colormap::Legacy,
        2 => Colormap::Gray,
        3 => Colormap::Viridis,
        4 => Colormap::Plasma,
        5 => Colormap::Inferno,
        _ => Colormap::Rainbow,
    }
}
fn o8(v: [u8; 3]) {
    for x in v {
        ou(x as usize);
    }
}
fn o16(v: [u16; 3]) {
    for x in v {
        ou(x as usize);
    }
}
/// the library's own gradients, from the crate that defines them
fn grad(i: usize, t: f32) -> [u8; 3] {
    let g = match i {
        3 => colorous::VIRIDIS,
        4 => colorous::PLASMA,
        _ => colorous::INFERNO,
    };
    let c = g.eval_continuous(t.clamp(0.0, 1.0) as f64);
    [c.r, c.g, c.b]
}
cases! {
    fn smag(n, wl, hop, d) {
        let s: Vec<f32> = rv(n);
        match stft_magnitudes(&s, wl, hop) {
            Err(e) => ou(ecode(e)),
            Ok((m, max)) => {
                ou(0);
                ou(m.len());
                for r in &m {
                    ou(r.len());
                }
                for r in &m {
                    orv(r);
                }
                of(max);
            }
        }
    }
    fn mdb(a, b, c, d) {
        let m = f();
        let x = f();
        let fl = f();
        of(magnitude_to_db(m, x, fl));
    }
    fn mdb2(a, b, c, d) {
        let m = f();
        let k = f();
        let x = f();
        let fl = f();
        of(magnitude_to_db(m, x, fl));
        of(magnitude_to_db(k, x, fl));
    }
    fn dbs(a, b, c, d) {
        let m = f();
        let x = f();
        let r = f();
        of(db_scale(m, x, r));
    }
    fn dbs1(a, b, c, d) {
        let m = f();
        let r = f();
        of(db_scale(m, m, r));
        of(magnitude_to_db(m, m, -r));
    }
    fn dbs2(a, b, c, d) {
        let m = f();
        let k = f();
        let x = f();
        let r = f();
        of(db_scale(m, x, r));
        of(db_scale(k, x, r));
    }
    fn col(c, wide, g, d) {
        let t = f();
        if wide == 1 {
            o16(map_color_u16(t, cm(c)));
            if g == 1 {
                for x in grad(c, t) {
                    ou(x as usize * 257);
                }
            }
        } else {
            o8(map_color_u8(t, cm(c)));
            if g == 1 {
                o8(grad(c, t));
            }
        }
    }
    fn col2(c, wide, g, d) {
        let t = f();
        let k = f();
        if wide == 1 {
            o16(map_color_u16(t, cm(c)));
            o16(map_color_u16(k, cm(c)));
        } else {
            o8(map_color_u8(t, cm(c)));
            o8(map_color_u8(k, cm(c)));
        }
    }
    fn cfm(c, wide, g, d) {
        let m = f();
        let x = f();
        let fl = f();
        if wide == 1 {
            o16(color_from_magnitude_u16(m, x, fl, cm(c)));
        } else {
            o8(color_from_magnitude_u8(m, x, fl, cm(c)));
        }
    }
    fn cmps(n, b, c, d) {
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            v.push(u() as u8);
        }
        // only ASCII is handed in
        ou(match Colormap::parse(unsafe { core::str::from_utf8_unchecked(&v) }) {
            Colormap::Fire => 0,
            Colormap::Legacy => 1,
            Colormap::Gray => 2,
            Colormap::Viridis => 3,
            Colormap::Plasma => 4,
            Colormap::Inferno => 5,
            Colormap::Rainbow => 6,
        });
    }
    fn b2p(max, b, c, d) {
        let x = u();
        let y = u();
        ou(map_bin_to_pixel(x, max));
        ou(map_bin_to_pixel(y, max));
    }
    fn b2pc(max, b, c, d) {
        ou(map_bin_to_pixel(b, max));
    }
    fn b2pe(a, b, c, d) {
        let m = u();
        ou(map_bin_to_pixel(m, m));
        ou(map_bin_to_pixel(0, m));
    }
    fn lsb(n, max, c, d) {
        let v: Vec<f32> = rv(n);
        for b in 0..=max {
            ou(map_bin_to_pixel(b, max));
        }
        let r = log_scale_bins(&v, max);
        ou(r.len());
        orv(&r);
    }
}
