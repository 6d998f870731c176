use crate::*;
use std::collections::{BTreeMap, HashMap, VecDeque, BTreeSet, HashSet};
use std::rc::Rc;
use std::cell::{Cell, RefCell};
fn fv(n: usize) -> Vec<f32> { (0..n).map(|_| f()).collect() }
fn out(v: &[f32]) { for x in v { of(*x); } }
cases! {
    fn p_sort(n, b, c, d) { let mut v = fv(n); v.sort_by(|a, b| a.partial_cmp(b).unwrap()); out(&v); }
    fn p_sortu(n, b, c, d) { let mut v = fv(n); v.sort_unstable_by(|a, b| a.total_cmp(b)); out(&v); }
    fn p_rot(n, k, c, d) { let mut v = fv(n); v.rotate_left(k); out(&v); v.rotate_right(1); out(&v); v.reverse(); out(&v); }
    fn p_copyw(n, k, c, d) { let mut v = fv(n); v.copy_within(k.., 0); out(&v); v.fill(1.0); out(&v); }
    fn p_chunks(n, k, c, d) { let v = fv(n); for ch in v.chunks_exact(k) { of(ch.iter().sum::<f32>()); } for ch in v.rchunks(k) { of(ch.iter().product::<f32>()); } for w in v.windows(2) { of(w[0] - w[1]); } }
    fn p_split(n, k, c, d) { let mut v = fv(n); { let (a, b) = v.split_at_mut(k); for (x, y) in a.iter_mut().zip(b.iter_mut().rev()) { core::mem::swap(x, y); } } out(&v); let t = v.split_off(k); out(&t); }
    fn p_drain(n, k, c, d) { let mut v = fv(n); let t: Vec<f32> = v.drain(..k).collect(); v.extend_from_slice(&t); v.insert(0, 2.0); v.remove(1); v.swap_remove(0); v.truncate(n - 1); v.dedup(); out(&v); v.retain(|x| *x > 0.0); ou(v.len()); }
    fn p_concat(n, b, c, d) { let v = fv(n); let w = fv(n); out(&[v.as_slice(), w.as_slice()].concat()); let z: Vec<f32> = v.iter().chain(w.iter()).copied().step_by(2).collect(); out(&z); let z: Vec<f32> = v.iter().cycle().take(n + 2).cloned().collect(); out(&z); }
    fn p_scan(n, b, c, d) { let v = fv(n); let z: Vec<f32> = v.iter().scan(0.0, |s, x| { *s += x; Some(*s) }).collect(); out(&z); let z: Vec<f32> = v.iter().flat_map(|x| [*x, -*x]).collect(); out(&z); let (a, b): (Vec<f32>, Vec<f32>) = v.iter().map(|x| (x + 1.0, x - 1.0)).unzip(); out(&a); out(&b); }
    fn p_min(n, b, c, d) { let v = fv(n); of(v.iter().cloned().fold(f32::INFINITY, f32::min)); of(*v.iter().max_by(|a, b| a.total_cmp(b)).unwrap()); let m = v.iter().copied().reduce(|a, b| if a < b { a } else { b }).unwrap(); of(m); ou(v.iter().position(|x| *x == m).unwrap()); }
    fn p_maps(n, b, c, d) { let v = fv(n); let mut m = BTreeMap::new(); for (i, x) in v.iter().enumerate() { m.insert((i * 7) % n, *x); } for (k, x) in &m { ou(*k); of(*x); } if let Some(x) = m.get_mut(&0) { *x += 1.0; of(*x); } ou(m.len()); let s: BTreeSet<usize> = (0..n).map(|i| i / 2).collect(); ou(s.len()); }
    fn p_hash(n, b, c, d) { let v = fv(n); let mut m = HashMap::new(); for (i, x) in v.iter().enumerate() { *m.entry(i % 3).or_insert(0.0) += *x; } for k in 0..3 { of(*m.get(&k).unwrap_or(&9.0)); } let s: HashSet<usize> = (0..n).map(|i| i / 2).collect(); ou(s.len()); }
    fn p_deque(n, b, c, d) { let v = fv(n); let mut q: VecDeque<f32> = v.into_iter().collect(); for _ in 0..3 { let x = q.pop_front().unwrap(); q.push_back(x * 2.0); } q.push_front(0.5); q.rotate_left(1); for x in q.iter() { of(*x); } q.extend([1.0, 2.0]); out(q.make_contiguous()); let z: Vec<f32> = q.into(); out(&z); }
    fn p_rc(n, b, c, d) { let v = Rc::new(fv(n)); let w = Rc::clone(&v); out(&w); let cl = Cell::new(1.0f32); let rc = RefCell::new(vec![0.0f32; n]); for (i, x) in v.iter().enumerate() { cl.set(cl.get() + x); rc.borrow_mut()[i] = cl.get(); } out(&rc.borrow()); }
    fn p_dyn(n, b, c, d) { let fs: Vec<Box<dyn Fn(f32) -> f32>> = vec![Box::new(|x| x + 1.0), Box::new(move |x| x * n as f32)]; let v = fv(2); for (g, x) in fs.iter().zip(&v) { of(g(*x)); } let h: fn(f32) -> f32 = f32::abs; of(h(v[0])); }
    fn p_float(a, b, c, d) { let x: f32 = f(); of(x.powi(3)); of(x.mul_add(2.0, 1.0)); of(x.abs()); of(x.signum()); of(x.clamp(-0.5, 0.5)); of(x.max(0.1).min(0.9)); of(x.recip()); of(f32::from_bits(x.to_bits() ^ 0x8000_0000)); ou(x.is_finite() as usize); ou(x.is_sign_negative() as usize); of(x.copysign(1.0)); of((x as f64) as f32); of(x.to_degrees()); of(x.hypot(1.0)); of(x.sqrt()); of(x.floor()); of(x.ceil()); of(x.trunc()); of(x.fract()); of(x.round());}
    fn p_trig(a, b, c, d) { let x: f32 = f(); of(x.sin()); of(x.cos()); let (s, co) = x.sin_cos(); of(s); of(co); of(x.exp()); of(x.ln()); of(x.log10()); of(x.log2()); of(x.log(10.0)); of(x.exp2()); }
    fn p_int(a, b, c, d) { let n = u(); ou(n.next_power_of_two()); ou(n.is_power_of_two() as usize); ou(n.leading_zeros() as usize); ou(n.trailing_zeros() as usize); ou(n.reverse_bits() >> 60); ou(n.rotate_left(3)); ou(n.checked_sub(5).unwrap_or(77)); ou(n.saturating_sub(9)); ou(n.wrapping_sub(9) & 0xff); ou(n.abs_diff(10)); ou(n.pow(2)); ou(n.div_ceil(3)); ou(n.count_ones() as usize); ou((n as u32).swap_bytes() as usize); ou(n.ilog2() as usize); ou(n.isqrt()); ou((n as isize - 5).rem_euclid(3) as usize); ou(n.overflowing_add(1).0); ou(n.min(7).max(3)); ou(n.clamp(2, 6)); ou(n.next_multiple_of(4)); }
    fn p_str(n, b, c, d) { let mut v = Vec::new(); for _ in 0..n { v.push(u() as u8); } let s = unsafe { String::from_utf8_unchecked(v) }; ou(s.trim().len()); ou(s.to_lowercase().len()); for p in s.split(',') { ou(p.len()); } ou(s.starts_with("ab") as usize); ou(s.find('x').unwrap_or(99)); for b in s.bytes().rev() { ou(b as usize); } ou(s.char_indices().filter(|(_, c)| c.is_ascii_digit()).count()); let t = format!("{}-{s}!", n); ou(t.len()); for b in t.bytes() { ou(b as usize); } let j = ["x", s.as_str()].join("+"); ou(j.len()); ou(s.chars().rev().collect::<String>().len()); ou(s.repeat(2).len()); ou(s.to_uppercase().len()); ou(s.split_once('=').map_or(50, |(a, b)| a.len() * 10 + b.len())); ou(s.eq_ignore_ascii_case("ab") as usize); ou(s.lines().count()); ou(s.strip_prefix("a").map_or(9, str::len)); ou(s.trim_end_matches('a').len()); ou(s.parse::<u32>().unwrap_or(4242) as usize); let mut w = String::new(); w.push_str(&s); w.insert(0, 'q'); w.extend(s.chars().filter(|c| c.is_alphabetic())); ou(w.len()); }
    fn p_array(a, b, c, d) { let v: [f32; 4] = core::array::from_fn(|_| f()); let w = v.map(|x| x * 2.0); out(&w); let [p, q, ..] = w; of(p + q); let m: [[f32; 2]; 2] = [[v[0], v[1]], [v[2], v[3]]]; out(m.as_flattened()); let t: [f32; 2] = v[1..3].try_into().unwrap(); out(&t); let i: Vec<f32> = std::iter::successors(Some(v[0]), |x| Some(x * 0.5)).take(3).collect(); out(&i); let i: Vec<f32> = std::iter::repeat(v[1]).take(2).collect(); out(&i); ou(v.iter().rposition(|x| *x == v[3]).unwrap()); let z: Vec<(usize, f32)> = v.iter().copied().enumerate().skip(1).rev().collect(); for (i, x) in z { ou(i); of(x); } let k: Option<f32> = v.iter().copied().filter(|x| *x > 100.0).next(); ou(k.is_some() as usize); let s: Result<Vec<f32>, usize> = v.iter().map(|x| if *x < 50.0 { Ok(*x) } else { Err(3) }).collect(); out(&s.unwrap()); let mut b: Box<[f32]> = v.to_vec().into_boxed_slice(); b.swap(0, 3); out(&b); let mut o = Some(v[2]); of(o.take().unwrap()); ou(o.is_none() as usize); let mut r = v; r[..2].copy_from_slice(&w[2..]); out(&r); r[1..].iter_mut().for_each(|x| *x += 1.0); out(&r); let l = v.iter().zip(w.iter()).map(|(a, b)| a * b).sum::<f32>(); of(l); let (lo, hi) = v.split_at(1); out(lo); out(hi); if let Some((f0, rest)) = v.split_first() { of(*f0); out(rest); } out(v.first_chunk::<2>().unwrap()); ou(v.len()); let g = v.chunks(3).map(|c| c.len()).collect::<Vec<_>>(); for x in g { ou(x); } let bs = [1usize, 3, 5, 7]; ou(bs.binary_search(&5).unwrap()); ou(bs.partition_point(|x| *x < 4)); }
    fn p_bytes(a, b, c, d) { let n = u(); let b = (n as u32).to_be_bytes(); for x in b { ou(x as usize); } ou(u16::from_le_bytes([b[3], b[2]]) as usize); let v: Vec<u8> = b.iter().map(|x| x.wrapping_mul(3)).collect(); ou(v.iter().map(|x| *x as usize).sum()); ou(v.iter().fold(0usize, |a, x| a << 8 | *x as usize)); let w: [u16; 2] = [b[3] as u16 * 257, b[2] as u16]; for x in w { ou(x as usize); } ou((b[3] as i8) as i64 as u64 as usize & 0xffff); ou(u8::try_from(n & 0xff).unwrap() as usize); ou(b[3].saturating_add(200) as usize); }
    fn p_alias(n, b, c, d) { let v = fv(n); let mut w = Vec::with_capacity(n); unsafe { w.set_len(n); } w.copy_from_slice(&v); w.resize(n + 2, 3.0); w.resize_with(n + 3, || 4.0); w.reserve(100); w.shrink_to_fit(); out(&w); let mut it = w.iter().peekable(); while let Some(x) = it.next() { if let Some(y) = it.peek() { of(x + **y); } } let z: Vec<f32> = w.iter().map_while(|x| if *x == 4.0 { None } else { Some(*x) }).collect(); out(&z); let nested: Vec<Vec<f32>> = w.chunks(2).map(|c| c.to_vec()).collect(); let flat: Vec<f32> = nested.into_iter().flatten().collect(); out(&flat); let c = w.clone(); ou((c == w) as usize); let q: Vec<f32> = w.splice(0..1, [9.0, 8.0]).collect(); out(&q); out(&w); let x = std::mem::take(&mut w); ou(w.len()); out(&x); let e: Vec<f32> = x.iter().rev().skip_while(|x| **x > 3.5).copied().collect(); ou(e.len()); let r = std::mem::replace(&mut w, vec![1.0]); ou(r.len()); ou(x.iter().try_fold(0usize, |a, _| a.checked_add(1)).unwrap()); let ii: Vec<usize> = (0..10).rev().step_by(3).collect(); for i in ii { ou(i); } for (i, j) in (0..3).zip((0..6).skip(1).step_by(2)) { ou(i * 10 + j); } let mut sorted: Vec<usize> = (0..n).map(|i| (i * 5) % 7).collect(); sorted.sort(); for s in &sorted { ou(*s); } sorted.sort_unstable_by_key(|x| core::cmp::Reverse(*x)); sorted.dedup(); for s in &sorted { ou(*s); } ou(sorted.iter().copied().max().unwrap()); ou(sorted.contains(&4) as usize); sorted.sort_by_cached_key(|x| x % 3); for s in &sorted { ou(*s); } }
}
