use crate::*;
use kofft::media::index::{SongId, SongIndex};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

extern "C" {
    fn vp_fs();
    fn vp_write(p: *const u8, pl: usize, pad: usize, d: *const u8, n: usize);
    fn vp_gone(p: *const u8, pl: usize);
    fn vp_dir(p: *const u8, pl: usize);
}
const PATHS: [&[u8]; 6] = [b"d/a", b"e/a", b"d/b", b"d/\xff", b"e/\xff", b"e/\xfe"];
fn path(i: usize) -> &'static Path {
    Path::new(OsStr::from_bytes(PATHS[i]))
}
fn put(i: usize, pad: usize, data: &[u8]) {
    unsafe { vp_write(PATHS[i].as_ptr(), PATHS[i].len(), pad, data.as_ptr(), data.len()) }
}
fn which(r: std::io::Result<SongId>, ids: &[SongId]) {
    match r {
        Err(_) => ou(0),
        Ok(id) => {
            let mut m = 1;
            for (i, x) in ids.iter().enumerate() {
                if *x == id {
                    m |= 2 << i;
                }
            }
            ou(m)
        }
    }
}
fn data(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(u() as u8);
    }
    v
}
/// d/nA.., e/cA.. or e/z
fn name(dir: u8, k: u8, i: usize) -> Vec<u8> {
    vec![dir, b'/', k, b'A' + (i % 26) as u8, b'a' + (i / 26) as u8]
}
fn at(p: &[u8]) -> &Path {
    Path::new(OsStr::from_bytes(p))
}
fn file(p: &[u8], d: &[u8]) {
    unsafe { vp_write(p.as_ptr(), p.len(), 0, d.as_ptr(), d.len()) }
}
cases! {
    // m songs are indexed (how 0), identified (1) or both in turn (2); then every one is asked for by name and by content, and one with a free byte
    fn imany(m, how, c, d) {
        unsafe { vp_fs() };
        let mut ids = Vec::new();
        let z = name(b'e', b'z', 0);
        let b = u() as u8;
        file(&z, &[b, 7]);
        for i in 0..m {
            let (p, q) = (name(b'd', b'n', i), name(b'e', b'c', i));
            file(&p, &[i as u8, 7]);
            file(&q, &[i as u8, 7]);
            match SongIndex::new().identify(at(&p)) {
                Ok(x) => ids.push(x),
                Err(_) => { ou(99); return; }
            }
        }
        let mut ix = SongIndex::new();
        for i in 0..m {
            let p = name(b'd', b'n', i);
            which(if how == 0 || how == 2 && i % 2 == 0 { ix.index_song(at(&p)) } else { ix.identify(at(&p)) }, &ids);
        }
        for i in 0..m {
            which(ix.identify(at(&name(b'e', b'c', i))), &ids);
        }
        which(ix.identify(at(&z)), &ids);
        for i in 0..m {
            let p = name(b'd', b'n', i);
            unsafe { vp_gone(p.as_ptr(), p.len()) };
            which(ix.identify(at(&p)), &ids);
        }
    }
    // hist: base 8 digits, least significant first: 1 index, 2 identify, 3 rewrite, 4 remove, 5 becomes a directory
    // set: number of files + 8 * first file; files at even and odd positions have their own length and zero prefix
    fn index(set, hist, lens, pads) {
        let (np, base) = (set % 8, set / 8);
        let len = |i: usize| if i % 2 == 0 { lens % 8 } else { lens / 8 };
        let pad = |i: usize| if i % 2 == 0 { pads % 65536 } else { pads / 65536 };
        unsafe { vp_fs() };
        let mut ids = Vec::new();
        for i in 0..np {
            put(base + i, 0, &[i as u8]);
            match SongIndex::new().identify(path(base + i)) {
                Ok(x) => ids.push(x),
                Err(_) => { ou(99); return; }
            }
        }
        for i in 0..np {
            put(base + i, pad(i), &data(len(i)));
        }
        let mut ix = SongIndex::new();
        let mut h = hist;
        while h > 0 {
            let mut i = u();
            // one run per path
            for k in 0..np {
                if i == k {
                    i = k;
                    break;
                }
            }
            let p = PATHS[base + i];
            match h % 8 {
                1 => which(ix.index_song(path(base + i)), &ids),
                2 => which(ix.identify(path(base + i)), &ids),
                3 => put(base + i, pad(i), &data(len(i))),
                4 => unsafe { vp_gone(p.as_ptr(), p.len()) },
                _ => unsafe { vp_dir(p.as_ptr(), p.len()) },
            }
            h /= 8;
        }
    }
}
