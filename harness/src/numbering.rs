//! Observes the numbering of one type: what spec/Numbering.tla judges.

use crate::big::big;
use crate::call;
use crate::vals::Vals;
use ordinal_map::Ordinal;
use std::cmp::Ordering;
use std::fmt::Write as _;
use std::io::Write as _;

/// Small deterministic generator.
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u128) -> u128 {
        if n == 0 { return 0; }
        ((self.next() as u128) << 64 | self.next() as u128) % n
    }
}

pub struct Out {
    pub file: std::io::BufWriter<crate::io::Output>,
    pub rng: Rng,
    pub mode: String,
    /// types of up to this many values are gone through completely
    pub full: u128,
    /// values written out one by one, and sampled, per type
    pub rows: u64,
    pub samples: u64,
    pub only: Option<usize>,
}
impl Out {
    /// args: output file, mode, seed, full, rows, samples
    pub fn from_args() -> Out {
        crate::io::quiet();
        let a = crate::io::args();
        Out {
            file: std::io::BufWriter::new(crate::io::create(&a[1])),
            mode: a[2].clone(),
            rng: Rng(a[3].parse().expect("seed")),
            full: a[4].parse().expect("full"),
            rows: a[5].parse().expect("rows"),
            samples: a[6].parse().expect("samples"),
            only: a.get(7).map(|x| x.parse().expect("id")),
        }
    }
}

fn code<T: Vals>(x: &T) -> String {
    let mut s = String::new();
    x.code(&mut s);
    s
}

/// What `from_ordinal(o)` gives: Ok(Some), Ok(None), Err = panic.
fn dec<T: Ordinal>(o: usize) -> Result<Option<T>, i64> {
    call(|| T::from_ordinal(o))
}
fn enc<T: Ordinal>(v: &T) -> Result<usize, i64> {
    call(|| v.ordinal())
}
fn dec_event<T: Ordinal + Vals>(o: usize) -> String {
    match dec::<T>(o) {
        Err(_) => format!("{{\"op\":\"dec\",\"o\":{},\"r\":\"panic\",\"v\":[],\"o2\":[]}}", big(o as u128)),
        Ok(None) => format!("{{\"op\":\"dec\",\"o\":{},\"r\":\"none\",\"v\":[],\"o2\":[]}}", big(o as u128)),
        Ok(Some(v)) => match enc(&v) {
            Err(_) => format!("{{\"op\":\"dec\",\"o\":{},\"r\":\"panic\",\"v\":{},\"o2\":[]}}", big(o as u128), code(&v)),
            Ok(o2) => format!("{{\"op\":\"dec\",\"o\":{},\"r\":\"some\",\"v\":{},\"o2\":{}}}", big(o as u128), code(&v), big(o2 as u128)),
        },
    }
}
fn enc_event<T: Ordinal + Vals>(v: &T) -> String {
    let c = code(v);
    match enc(v) {
        Err(_) => format!("{{\"op\":\"enc\",\"v\":{c},\"o\":[],\"r\":\"panic\",\"w\":[]}}"),
        Ok(o) => {
            let (r, w) = match dec::<T>(o) {
                Err(_) => ("panic", "[]".to_string()),
                Ok(None) => ("none", "[]".to_string()),
                Ok(Some(w)) => ("some", code(&w)),
            };
            format!("{{\"op\":\"enc\",\"v\":{c},\"o\":{},\"r\":\"{r}\",\"w\":{w}}}", big(o as u128))
        }
    }
}
/// o is numbered as the reading "bij" asks.
fn dec_good<T: Ordinal>(o: usize) -> bool {
    match dec::<T>(o) {
        Ok(Some(v)) => enc(&v) == Ok(o),
        _ => false,
    }
}
fn enc_good<T: Ordinal + Vals>(v: &T) -> bool {
    match enc(v) {
        Ok(o) => o < T::ORDINAL_SIZE && matches!(dec::<T>(o), Ok(Some(w)) if w.same(v)),
        _ => false,
    }
}

/// Interesting numbers in 0..n (n > 0): ends, powers of two, fractions, random ones.
fn points(n: u128, extra: u64, rng: &mut Rng) -> Vec<u128> {
    let mut p: Vec<u128> = vec![];
    let mut near = |x: u128, d: u128| {
        for y in x.saturating_sub(d)..=x.saturating_add(d) {
            if y < n { p.push(y); }
        }
    };
    near(0, 3);
    near(n - 1, 3);
    for j in 0..65 { near(1 << j, 1); near(n.saturating_sub(1 << j), 1); }
    for k in [2, 3, 4, 5, 6, 7, 8, 10, 16, 255, 256, 257, 65535, 65536, 65537] {
        near(n / k, 1);
        near(n - n / k, 1);
    }
    for d in [0xd800u128, 0x110000, 0x10f800, 255, 65535, 1 << 31, 1 << 32] { near(d, 2); }
    for _ in 0..extra { near(rng.below(n), 0); }
    // clusters: multiples of powers of two, +- 1
    for _ in 0..extra / 4 {
        let b = 1u128 << rng.below(64);
        let x = rng.below(n / b + 1) * b;
        near(x, 1);
    }
    p.sort();
    p.dedup();
    p
}
/// Numbers from n up to usize::MAX.
fn beyond(n: u128, extra: u64, rng: &mut Rng) -> Vec<usize> {
    let top = usize::MAX as u128;
    let mut p: Vec<u128> = vec![];
    let mut add = |x: u128, d: u128| {
        for y in x.saturating_sub(d)..=x + d {
            if y >= n && y <= top { p.push(y); }
        }
    };
    add(n, 400);
    add(top, 400);
    for j in 0..64 { add(1 << j, 2); add(n + (1 << j), 2); add(top.saturating_sub(1 << j), 2); }
    for k in 2..20 { add(n * k, 2); }
    // numbers that look small when cut to 8, 16 or 32 bits
    for b in [8u32, 16, 31, 32, 33, 48] {
        for _ in 0..extra / 8 {
            let hi = 1 + rng.below((top >> b).max(1));
            add((hi << b) + rng.below(n.min(1 << b).max(1)), 0);
            add((1u128 << b) + rng.below(n.min(1 << b).max(1)), 0);
        }
    }
    for _ in 0..extra { add(rng.below(top + 1), 0); }
    p.sort();
    p.dedup();
    p.into_iter().map(|x| x as usize).collect()
}

fn thin<T: Copy>(v: &[T], k: u64, rng: &mut Rng) -> Vec<T> {
    if v.len() as u64 <= k { return v.to_vec(); }
    let mut r: Vec<usize> = (0..k).map(|_| rng.below(v.len() as u128) as usize).collect();
    r.push(0);
    r.push(v.len() - 1);
    r.sort();
    r.dedup();
    r.into_iter().map(|i| v[i]).collect()
}

pub fn observe<T: Ordinal + Vals>(out: &mut Out, id: usize, name: &str) {
    if out.only.is_some_and(|x| x != id) { return; }
    let s = T::ORDINAL_SIZE as u128;
    let mut ev = vec!["{\"op\":\"open\"}".to_string(), format!("{{\"op\":\"size\",\"o\":{}}}", big(s))];
    if s != T::COUNT {
        return finish::<T>(out, id, name, ev, false); // the specification says which is right
    }
    let full = s <= out.full;
    let mut bad = 0;
    let flag = |ev: &mut Vec<String>, e: String, bad: &mut u32| { *bad += 1; if *bad <= 5 { ev.push(e) } };
    // ordinals
    if full && s > 0 {
        let mut lo = 0u128;
        for o in 0..s {
            if !dec_good::<T>(o as usize) {
                if lo < o && bad == 0 { ev.push(format!("{{\"op\":\"run\",\"lo\":{},\"hi\":{}}}", big(lo), big(o))); }
                lo = o + 1;
                flag(&mut ev, dec_event::<T>(o as usize), &mut bad);
            }
        }
        if lo == 0 { ev.push(format!("{{\"op\":\"run\",\"lo\":[],\"hi\":{}}}", big(s))); }
    }
    if s > 0 {
        let ps = points(s, out.samples, &mut out.rng);
        if !full {
            let mut n = 0u64;
            for &o in &ps {
                if dec_good::<T>(o as usize) { n += 1 } else { flag(&mut ev, dec_event::<T>(o as usize), &mut bad) }
            }
            if bad == 0 { ev.push(format!("{{\"op\":\"some\",\"n\":{n},\"lo\":{},\"hi\":{}}}", big(ps[0]), big(ps[ps.len() - 1]))); }
        }
        let few = if s <= out.rows as u128 { (0..s).collect() } else { thin(&ps, out.rows, &mut out.rng) };
        for o in few { ev.push(dec_event::<T>(o as usize)); }
        // values
        let few: Vec<u128> = if s <= out.rows as u128 { (0..s).collect() } else { thin(&ps, out.rows / 2, &mut out.rng) };
        for i in few { ev.push(enc_event(&T::nth(i))); }
        if full {
            for i in 0..s { let v = T::nth(i); if !enc_good(&v) { flag(&mut ev, enc_event(&v), &mut bad) } }
        } else {
            for &i in &ps { let v = T::nth(i); if !enc_good(&v) { flag(&mut ev, enc_event(&v), &mut bad) } }
        }
    }
    // beyond
    let ps = beyond(s, out.samples, &mut out.rng);
    let mut n = 0;
    for &o in &ps {
        match dec::<T>(o) {
            Ok(None) => n += 1,
            _ => flag(&mut ev, dec_event::<T>(o), &mut bad),
        }
    }
    ev.push(format!("{{\"op\":\"none\",\"n\":{n},\"lo\":{},\"hi\":{}}}",
        big(ps.first().copied().unwrap_or(0) as u128), big(ps.last().copied().unwrap_or(0) as u128)));
    finish::<T>(out, id, name, ev, full && bad == 0);
}

fn sign(c: Ordering) -> i32 {
    match c { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 }
}
/// nat: the type's Ord is the order meant (false for enums with explicit discriminants)
pub fn order<T: Ordinal + Vals + Ord>(out: &mut Out, id: usize, name: &str, nat: bool) {
    if out.only.is_some_and(|x| x != id) { return; }
    let s = T::COUNT;
    let mut ev = vec!["{\"op\":\"open\"}".to_string()];
    let full = nat && s <= out.full;
    let ord = |v: &T| enc(v).map_or(u128::MAX >> 1, |o| o as u128);
    let mut bad = 0;
    if full && s > 1 {
        let mut prev = T::nth(0);
        let mut po = ord(&prev);
        for i in 1..s {
            let v = T::nth(i);
            let o = ord(&v);
            let c = prev.cmp(&v);
            if !(c == Ordering::Less && po < o) {
                bad += 1;
                if bad <= 5 {
                    ev.push(format!("{{\"op\":\"pair\",\"v\":{},\"w\":{},\"c\":{},\"o\":{},\"o2\":{},\"nat\":{nat}}}",
                        code(&prev), code(&v), sign(c), big(po), big(o)));
                }
            }
            prev = v;
            po = o;
        }
    }
    if full && s > 0 && bad == 0 { ev.push(format!("{{\"op\":\"run\",\"lo\":[],\"hi\":{}}}", big(s))); }
    if s > 0 {
        let rounds = if s <= 20 { 1 } else { out.rows };
        for _ in 0..rounds {
            let is: Vec<u128> = if s <= 20 { (0..s).collect() } else {
                let ps = points(s, 20, &mut out.rng);
                (0..8).map(|k| if k < 5 { ps[out.rng.below(ps.len() as u128) as usize] } else { out.rng.below(s) }).collect()
            };
            let vs: Vec<T> = is.iter().map(|i| T::nth(*i)).collect();
            let cs: Vec<String> = vs.iter().map(code).collect();
            let os: Vec<String> = vs.iter().map(|v| big(ord(v))).collect();
            let m: Vec<String> = vs.iter().map(|v| {
                let r: Vec<String> = vs.iter().map(|w| sign(v.cmp(w)).to_string()).collect();
                format!("[{}]", r.join(","))
            }).collect();
            ev.push(format!("{{\"op\":\"matrix\",\"vs\":[{}],\"os\":[{}],\"m\":[{}],\"nat\":{nat}}}", cs.join(","), os.join(","), m.join(",")));
        }
        // many sampled pairs, reported if they disagree
        let ps = points(s, out.samples, &mut out.rng);
        for _ in 0..out.samples {
            let i = ps[out.rng.below(ps.len() as u128) as usize];
            let j = if out.rng.below(3) == 0 { (i + 1 + out.rng.below(3)).min(s - 1) } else { ps[out.rng.below(ps.len() as u128) as usize] };
            let (v, w) = (T::nth(i), T::nth(j));
            let (o, o2) = (ord(&v), ord(&w));
            let want = if nat { v.cmp(&w) } else { i.cmp(&j) };
            if o.cmp(&o2) != want {
                bad += 1;
                if bad <= 5 {
                    ev.push(format!("{{\"op\":\"pair\",\"v\":{},\"w\":{},\"c\":{},\"o\":{},\"o2\":{},\"nat\":{nat}}}",
                        code(&v), code(&w), sign(v.cmp(&w)), big(o), big(o2)));
                }
            }
        }
    }
    finish::<T>(out, id, name, ev, full && bad == 0);
}

fn finish<T: Vals>(out: &mut Out, id: usize, name: &str, mut ev: Vec<String>, full: bool) {
    ev.push(format!("{{\"op\":\"end\",\"full\":{full}}}"));
    let mut line = String::new();
    let _ = write!(line, "{{\"id\":{id},\"subject\":\"{}\",\"key\":{name:?},\"val\":\"-\",\"t\":{},\"ev\":[{}]}}", out.mode, T::ty(), ev.join(","));
    writeln!(out.file, "{line}").expect("write");
    out.file.flush().expect("write");
}
