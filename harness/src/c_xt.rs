use crate::*;

#[path = "@REPO@/xtask/src/lib.rs"]
#[allow(dead_code)]
pub mod xt;

fn text(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(u() as u8);
    }
    // only ASCII is handed in
    unsafe { String::from_utf8_unchecked(v) }
}
fn say(s: &str) {
    ou(s.len());
    for b in s.as_bytes() {
        ou(*b as usize);
    }
}
cases! {
    fn xcfg(la, lf, le, d) {
        let (a, f, e) = (text(la), text(lf), text(le));
        let n = u();
        let c = xt::compute_config(&a, &f, n, &e);
        ou(c.features.len());
        for s in c.features.iter() {
            say(s);
        }
        match &c.rustflags {
            None => ou(0),
            Some(s) => say(s),
        }
        say(&c.example);
    }
    fn xarg(la, lf, le, d) {
        let mut v = Vec::new();
        for n in [la, lf, le, d] {
            if n > 0 {
                v.push(text(n - 1));
            }
        }
        let c = xt::BuildConfig { features: v, rustflags: None, example: String::new() };
        match c.features_arg() {
            None => ou(999),
            Some(s) => say(&s),
        }
    }
    fn xcmd(which, feats, rf, ex) {
        let mut v = Vec::new();
        let mut k = feats;
        while k > 0 {
            v.push(text(k % 10 - 1));
            k /= 10;
        }
        let flags = if rf > 0 { Some(text(rf - 1)) } else { None };
        let c = xt::BuildConfig { features: v, rustflags: flags, example: text(ex) };
        let cmd = match which {
            0 => xt::build_command(&c),
            1 => xt::test_command(&c),
            2 => xt::benchmark_command(&c),
            3 => xt::bench_libs_command(&c),
            4 => xt::update_bench_readme_command(&c),
            5 => xt::clippy_command(),
            6 => xt::fmt_command(),
            _ => xt::web_spectrogram_command(),
        };
        tell(cmd);
    }
    fn xsan(a, b, c, d) {
        let (a, b) = (text(a), text(b));
        tell(xt::sanity_command(&a, &b));
    }
}
fn tell(cmd: std::process::Command) {
    use std::os::unix::ffi::OsStrExt;
    let put = |b: &[u8]| {
        ou(b.len());
        for x in b {
            ou(*x as usize);
        }
    };
    put(cmd.get_program().as_bytes());
    let args: Vec<_> = cmd.get_args().collect();
    ou(args.len());
    for a in args {
        put(a.as_bytes());
    }
    let mut envs = Vec::new();
    for e in cmd.get_envs() {
        envs.push(e);
    }
    ou(envs.len());
    for (k, v) in envs {
        put(k.as_bytes());
        match v {
            Some(v) => put(v.as_bytes()),
            None => ou(9999),
        }
    }
    ou(cmd.get_current_dir().is_some() as usize);
    core::mem::forget(cmd);
}
