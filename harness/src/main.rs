//! Native replay: `replay CASE A B C D` reads the recorded choices from stdin and prints what kofft returned.
//! stdin lines: "f HEX" (f32 bits), "d HEX" (f64 bits), "u N", "s N" (schedule), in the order of use per kind.
use std::io::{BufRead, Write};
use std::sync::Mutex;

struct Q {
    f: Vec<u32>,
    d: Vec<u64>,
    u: Vec<usize>,
    s: Vec<usize>,
}
static Q: Mutex<Q> = Mutex::new(Q { f: vec![], d: vec![], u: vec![], s: vec![] });

fn put(s: String) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.flush();
}
static OUT: Mutex<String> = Mutex::new(String::new());
fn emit(s: String) {
    let mut o = OUT.lock().unwrap();
    o.push_str(&s);
    o.push('\n');
}
#[no_mangle]
pub extern "C" fn vp_f32() -> f32 {
    f32::from_bits(Q.lock().unwrap().f.pop().unwrap_or(0))
}
#[no_mangle]
pub extern "C" fn vp_f64() -> f64 {
    f64::from_bits(Q.lock().unwrap().d.pop().unwrap_or(0))
}
#[no_mangle]
pub extern "C" fn vp_u() -> usize {
    Q.lock().unwrap().u.pop().unwrap_or(0)
}
#[no_mangle]
pub extern "C" fn vp_sched(n: usize) -> usize {
    let k = Q.lock().unwrap().s.pop().unwrap_or(0);
    if k < n { k } else { 0 }
}
#[no_mangle]
pub extern "C" fn vp_mark(n: usize) {
    emit(format!("m {}", n));
}
#[no_mangle]
pub extern "C" fn vp_o32(v: f32) {
    emit(format!("f {:08x}", v.to_bits()));
}
#[no_mangle]
pub extern "C" fn vp_o64(v: f64) {
    emit(format!("d {:016x}", v.to_bits()));
}
#[no_mangle]
pub extern "C" fn vp_ou(v: usize) {
    emit(format!("u {}", v));
}

static DIR: Mutex<Option<std::path::PathBuf>> = Mutex::new(None);
fn clean() {
    if let Some(d) = DIR.lock().unwrap_or_else(|e| e.into_inner()).take() {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&d);
    }
}
fn sp(p: *const u8, n: usize) -> std::path::PathBuf {
    use std::os::unix::ffi::OsStrExt;
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    DIR.lock().unwrap().as_ref().unwrap().join(std::ffi::OsStr::from_bytes(b))
}
/// an empty scratch directory with the subdirectories d and e becomes the current directory
#[no_mangle]
pub extern "C" fn vp_fs() {
    clean();
    for k in 0..1000 {
        let d = std::env::temp_dir().join(format!("vp-fs-{}-{}", std::process::id(), k));
        if std::fs::create_dir(&d).is_ok() {
            std::fs::create_dir(d.join("d")).unwrap();
            std::fs::create_dir(d.join("e")).unwrap();
            std::env::set_current_dir(&d).unwrap();
            *DIR.lock().unwrap() = Some(d);
            return;
        }
    }
    panic!("no scratch directory");
}
#[no_mangle]
pub extern "C" fn vp_gone(p: *const u8, n: usize) {
    let p = sp(p, n);
    let _ = std::fs::remove_file(&p);
    let _ = std::fs::remove_dir(&p);
}
#[no_mangle]
pub extern "C" fn vp_dir(p: *const u8, n: usize) {
    vp_gone(p, n);
    std::fs::create_dir(sp(p, n)).unwrap();
}
#[no_mangle]
pub extern "C" fn vp_write(p: *const u8, n: usize, pad: usize, d: *const u8, dn: usize) {
    vp_gone(p, n);
    let mut v = vec![0u8; pad];
    v.extend_from_slice(unsafe { std::slice::from_raw_parts(d, dn) });
    std::fs::write(sp(p, n), v).unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let s = OUT.lock().map(|o| o.clone()).unwrap_or_default();
        put(s);
        clean();
        put(format!("panic {}\n", i.to_string().replace('\n', " ")));
    }));
    // one process may replay several cases: "case NAME A B C D" lines separate them
    let stdin = std::io::stdin();
    let mut cur: Option<(String, Vec<usize>)> = if a.len() > 5 {
        Some((a[1].clone(), a[2..6].iter().map(|x| x.parse().unwrap()).collect()))
    } else {
        None
    };
    let mut run = |cur: &mut Option<(String, Vec<usize>)>| {
        if let Some((n, v)) = cur.take() {
            {
                let mut q = Q.lock().unwrap();
                q.f.reverse();
                q.d.reverse();
                q.u.reverse();
                q.s.reverse();
            }
            if !vph::dispatch(&n, &v) {
                put(format!("nocase {}\n", n));
                std::process::exit(3);
            }
            let mut q = Q.lock().unwrap();
            *q = Q { f: vec![], d: vec![], u: vec![], s: vec![] };
            let mut o = OUT.lock().unwrap();
            put(format!("{}end\n", *o));
            o.clear();
        }
    };
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        let p: Vec<&str> = l.split_whitespace().collect();
        if p.is_empty() {
            continue;
        }
        let mut q = Q.lock().unwrap();
        match p[0] {
            "f" => q.f.push(u32::from_str_radix(p[1], 16).unwrap()),
            "d" => q.d.push(u64::from_str_radix(p[1], 16).unwrap()),
            "u" => q.u.push(p[1].parse().unwrap()),
            "s" => q.s.push(p[1].parse().unwrap()),
            "case" => {
                cur = Some((p[1].to_string(), p[2..6].iter().map(|x| x.parse().unwrap()).collect()));
            }
            "run" => {
                drop(q);
                run(&mut cur);
            }
            _ => {}
        }
    }
    run(&mut cur);
    clean();
}
