//! Driver for the atomic cell: single-threaded sessions, concurrent
//! histories, and litmus programs.
//!   atomics seq <script> <out> [<seconds>]
//!   atomics hist <seed> <trials> <threads> <calls> <type>...      (histories to stdout)
//!   atomics litmus|stamped <seed> <runs> <type> <program>...       (outcomes to stdout)
use harness::call;
use harness::script::{json_ints, json_str, read_sessions};
use harness::vals::Vals;
use ordinal_map::{AtomicOrdinal, Ordinal};
use std::fmt::Debug;
use std::num::*;
use std::sync::atomic::{fence, AtomicU64, AtomicUsize, Ordering};
use std::sync::Barrier;

#[derive(Ordinal, Debug, Clone, Copy)]
enum Shape {
    Dot,
    Line(bool),
    Box { w: std::cmp::Ordering, h: bool },
    Last,
}
impl Vals for Shape {
    const COUNT: u128 = 10;
    fn ty() -> String { String::new() }
    fn nth(i: u128) -> Self {
        match i {
            0 => Shape::Dot,
            1 | 2 => Shape::Line(i == 2),
            9 => Shape::Last,
            _ => Shape::Box { w: Vals::nth((i - 3) / 2), h: i % 2 == 0 },
        }
    }
    fn code(&self, o: &mut String) { o.push_str(&format!("{:?}", self)) }
}

fn order(i: i64) -> Ordering {
    [Ordering::Relaxed, Ordering::Acquire, Ordering::Release, Ordering::AcqRel, Ordering::SeqCst][i as usize]
}

struct Rng(u64);
impl Rng {
    fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        ((z ^ (z >> 31)) % n as u64) as usize
    }
}

/// Positions of the values a session works with; `mix` picks others.
fn table<T: Vals>(mix: u64) -> Vec<u128> {
    let c = T::COUNT;
    let mut all = vec![0, 1, c.wrapping_sub(1), 2, c.wrapping_sub(2), c / 2, 255, 256, 65535, 65536, (1 << 32) - 1, 1 << 32, 1 << 63];
    all.retain(|x| *x < c);
    let mut t: Vec<u128> = vec![];
    for x in all {
        if !t.contains(&x) { t.push(x); }
    }
    if mix > 0 {
        let mut r = Rng(mix);
        for i in (1..t.len()).rev() { t.swap(i, r.below(i + 1)); }
    }
    t
}
struct Tab<T> { pos: Vec<u128>, mark: std::marker::PhantomData<fn() -> T> }
impl<T: Vals + Debug> Tab<T> {
    fn new(mix: u64) -> Self { Tab { pos: table::<T>(mix), mark: Default::default() } }
    fn get(&self, i: i64) -> T { T::nth(self.pos[i as usize]) }
    fn id(&self, v: &T) -> i64 { self.pos.iter().position(|p| T::nth(*p).same(v)).map_or(-2, |i| i as i64) }
    fn shown(&self, s: &str, alt: bool) -> i64 {
        let f = |p: &u128| if alt { format!("{:#?}", T::nth(*p)) } else { format!("{:?}", T::nth(*p)) };
        self.pos.iter().position(|p| f(p) == s).map_or(-2, |i| i as i64)
    }
}

#[derive(Clone, Copy, PartialEq)]
enum C { New, Load, Store, Cas, Dbg }
#[derive(Clone, Copy)]
struct Call { c: C, h: usize, k: i64, v: i64, j: i64 }
impl Call {
    fn name(&self) -> &'static str {
        match self.c { C::New => "new", C::Load => "load", C::Store => "store", C::Cas => "cas", C::Dbg => "dbg" }
    }
}
fn exec<T: Ordinal + Vals + Debug>(a: &AtomicOrdinal<T>, t: &Tab<T>, o: &Call) -> Vec<i64> {
    let r = match o.c {
        C::Load => { let v = call(|| a.load(order(o.j))); v.map(|v| vec![t.id(&v)]) }
        C::Store => { let v = t.get(o.k); call(|| a.store(v, order(o.j))).map(|()| vec![]) }
        C::Cas => {
            let (x, y) = (t.get(o.k), t.get(o.v));
            call(|| a.compare_exchange(x, y, order(o.j / 8), order(o.j % 8))).map(|r| match r {
                Ok(v) => vec![1, t.id(&v)],
                Err(v) => vec![0, t.id(&v)],
            })
        }
        C::Dbg => call(|| if o.j == 1 { format!("{:#?}", a) } else { format!("{:?}", a) }).map(|s| vec![t.shown(&s, o.j == 1)]),
        C::New => unreachable!(),
    };
    r.unwrap_or_else(|p| vec![p])
}

/// (stamp, thread, call, reply)
fn history<T>(key: &str, val: &str, id: usize, nt: usize, nc: usize, mut ev: Vec<(u64, usize, Call, Option<Vec<i64>>)>, _: &Tab<T>) -> String {
    ev.sort_by_key(|e| e.0);
    let evs: Vec<String> = ev.iter().map(|(_, t, o, r)| format!(
        "{{\"t\":{},\"ph\":{},\"op\":{},\"h\":{},\"k\":{},\"v\":{},\"j\":{},\"ret\":{}}}",
        t, if r.is_some() { "\"return\"" } else { "\"call\"" }, json_str(o.name()), o.h, o.k, o.v, o.j,
        json_ints(r.as_deref().unwrap_or(&[])))).collect();
    format!("{{\"id\":{},\"subject\":\"AtomicOrdinal\",\"key\":{},\"val\":{},\"nt\":{},\"nc\":{},\"ev\":[{}]}}",
        id, json_str(key), json_str(val), nt, nc, evs.join(","))
}

fn seq<T: Ordinal + Vals + Debug>(s: &harness::script::Session) -> String {
    let tab = Tab::<T>::new(s.val.parse().unwrap());
    let mut cells: Vec<Option<AtomicOrdinal<T>>> = vec![None, None];
    let mut ev = vec![];
    for o in &s.ops {
        let c = match &*o.op { "new" => C::New, "load" => C::Load, "store" => C::Store, "cas" => C::Cas, "dbg" => C::Dbg, x => panic!("no call {}", x) };
        let o = Call { c, h: o.h, k: o.k, v: *o.xs.first().unwrap_or(&0), j: o.j };
        let r = if c == C::New {
            let v = tab.get(o.k);
            match call(|| AtomicOrdinal::new(v)) { Ok(a) => { cells[o.h - 1] = Some(a); vec![] } Err(p) => vec![p] }
        } else {
            match &cells[o.h - 1] { Some(a) => exec(a, &tab, &o), None => continue }
        };
        let n = ev.len() as u64;
        ev.push((n, 1, o, None));
        ev.push((n + 1, 1, o, Some(r)));
    }
    history(&s.key, &s.val, s.id, 1, 2, ev, &tab)
}

fn hist<T: Ordinal + Vals + Debug + Send + Sync>(key: &str, seed: u64, trials: usize, threads: usize, calls: usize, out: &mut impl FnMut(String)) {
    for trial in 0..trials {
        let mut r = Rng(seed ^ (trial as u64) << 20);
        let mix = r.below(6) as u64;
        let tab = Tab::<T>::new(mix);
        if tab.pos.is_empty() { return; }
        let nv = tab.pos.len().min(1 + r.below(3));
        let nc = 1 + (r.below(4) == 0) as usize;
        let init: Vec<Call> = (1..=nc).map(|h| Call { c: C::New, h, k: r.below(nv) as i64, v: 0, j: 0 }).collect();
        let cells: Vec<AtomicOrdinal<T>> = init.iter().map(|o| AtomicOrdinal::new(tab.get(o.k))).collect();
        let mut ev = vec![];
        for o in &init {
            let n = ev.len() as u64;
            ev.push((n, 1, *o, None));
            ev.push((n + 1, 1, *o, Some(vec![])));
        }
        let clock = AtomicU64::new(ev.len() as u64);
        let nt = 2 + r.below(threads - 1);
        let gate = Barrier::new(nt);
        // what each thread does: mostly exchanges of what it saw last
        let style = r.below(3);
        let got: Vec<Vec<(u64, u64, Call, Vec<i64>)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..nt).map(|t| {
                let (tab, cells, clock, gate) = (&tab, &cells, &clock, &gate);
                let mut r = Rng(r.0 ^ (t as u64 + 1) * 0x1234567);
                let mut seen: Vec<i64> = init.iter().map(|o| o.k).collect();
                let n = 1 + r.below(calls);
                sc.spawn(move || {
                    let mut log = vec![];
                    if !cfg!(miri) { gate.wait(); }
                    for _ in 0..n {
                        let h = 1 + r.below(nc);
                        let x = r.below(10);
                        let c = match style {
                            0 => if x < 2 { C::Load } else if x < 3 { C::Store } else { C::Cas },
                            1 => if x < 3 { C::Load } else if x < 7 { C::Store } else { C::Cas },
                            _ => if x < 3 { C::Load } else if x < 4 { C::Store } else { C::Cas },
                        };
                        let lo = [0, 1, 4][r.below(3)];
                        let so = [0, 2, 4][r.below(3)];
                        let k = if c == C::Cas && r.below(8) > 0 { seen[h - 1] } else { r.below(nv) as i64 };
                        let v = if r.below(4) > 0 { (k + 1) % nv as i64 } else { r.below(nv) as i64 };
                        let j = match c { C::Load => lo, C::Store => so, C::Cas => r.below(5) as i64 * 8 + lo, _ => r.below(2) as i64 };
                        let o = Call { c, h, k: if c == C::Cas || c == C::Store { k } else { 0 }, v: if c == C::Cas { v } else { 0 }, j };
                        let t0 = clock.fetch_add(1, Ordering::SeqCst);
                        let ret = exec(&cells[h - 1], tab, &o);
                        let t1 = clock.fetch_add(1, Ordering::SeqCst);
                        if c == C::Store { seen[h - 1] = k; }
                        if c == C::Load { seen[h - 1] = ret[0]; }
                        if c == C::Cas && ret.len() == 2 { seen[h - 1] = if ret[0] == 1 { v } else { ret[1] }; }
                        if seen[h - 1] < 0 { seen[h - 1] = 0; }
                        log.push((t0, t1, o, ret));
                    }
                    log
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (t, log) in got.into_iter().enumerate() {
            for (a, b, o, r) in log {
                ev.push((a, t + 1, o, None));
                ev.push((b, t + 1, o, Some(r)));
            }
        }
        // what is left in the cells
        for h in 1..=nc {
            let o = Call { c: C::Load, h, k: 0, v: 0, j: 0 };
            let n = u64::MAX - 10 + 2 * h as u64;
            ev.push((n, 1, o, None));
            ev.push((n + 1, 1, o, Some(exec(&cells[h - 1], &tab, &o))));
        }
        out(history(key, &format!("{}", mix), trial, nt, nc, ev, &tab));
    }
}

/// One step of a litmus program.  Locations under `raw` are plain atomics.
#[derive(Clone, Copy)]
enum L { Ld(usize, i64), St(usize, i64, i64), Cas(usize, i64, i64, i64, i64), RawLd(usize), RawSt(usize, usize), Fence(i64) }
/// "x:l.0" load, "x:s1.2" store 1, "x:c01.3.1" exchange 0 for 1, "x:L" / "x:S1" raw, "f.4" fence
fn parse(p: &str) -> Vec<Vec<L>> {
    p.split('|').map(|t| t.split(';').filter(|s| !s.is_empty()).map(|s| {
        if let Some(o) = s.strip_prefix("f.") { return L::Fence(o.parse().unwrap()); }
        let (x, s) = s.split_once(':').unwrap();
        let x: usize = x.parse().unwrap();
        let d = |i: usize| (s.as_bytes()[i] - b'0') as i64;
        match s.as_bytes()[0] {
            b'l' => L::Ld(x, d(2)),
            b's' => L::St(x, d(1), d(3)),
            b'c' => L::Cas(x, d(1), d(2), d(4), d(6)),
            b'L' => L::RawLd(x),
            b'S' => L::RawSt(x, d(1) as usize),
            c => panic!("no step {}", c as char),
        }
    }).collect()).collect()
}
/// A type for litmus programs; cheap, as Miri runs them.
trait Lit: Ordinal + Copy + Send + Sync {
    fn of(i: i64) -> Self;
    fn no(self) -> i64;
}
impl Lit for u8 {
    fn of(i: i64) -> u8 { i as u8 }
    fn no(self) -> i64 { self as i64 }
}
#[cfg(target_pointer_width = "64")]
impl Lit for i32 {
    fn of(i: i64) -> i32 { i as i32 }
    fn no(self) -> i64 { self as i64 }
}
#[cfg(target_pointer_width = "64")]
impl Lit for NonZeroU64 {
    fn of(i: i64) -> Self { NonZeroU64::new(if i == 0 { 7 } else { u64::MAX - 7 + i as u64 }).unwrap() }
    fn no(self) -> i64 { let x = self.get(); if x == 7 { 0 } else { x.wrapping_sub(u64::MAX - 7) as i64 } }
}
impl Lit for Option<bool> {
    fn of(i: i64) -> Self { if i == 0 { None } else { Some(i == 2) } }
    fn no(self) -> i64 { match self { None => 0, Some(false) => 1, Some(true) => 2 } }
}
const BATCH: usize = 20;
/// Plain loops: every block counts under Miri.  What a thread saw is packed
/// into one number: three bits per step, or (when stamped) 20: when the call
/// started, when it ended, whether an exchange succeeded, and the value.
fn steps<T: Lit>(p: &[L], cells: &[AtomicOrdinal<T>], raw: &[AtomicUsize], clock: &AtomicUsize, stamped: bool) -> u64 {
    let (mut i, mut all) = (0, 0u64);
    while i < p.len() {
        let (mut v, mut start) = (0i64, 0);
        if stamped { start = clock.fetch_add(1, Ordering::SeqCst); }
        match p[i] {
            L::Ld(x, o) => v = cells[x - 1].load(order(o)).no(),
            L::St(x, v, o) => cells[x - 1].store(T::of(v), order(o)),
            L::Cas(x, a, b, o, f) => match cells[x - 1].compare_exchange(T::of(a), T::of(b), order(o), order(f)) {
                Ok(w) => v = if stamped { w.no() | 8 } else { w.no() },
                Err(w) => v = w.no(),
            },
            L::RawLd(x) => v = raw[x - 1].load(Ordering::Relaxed) as i64,
            L::RawSt(x, v) => raw[x - 1].store(v, Ordering::Relaxed),
            L::Fence(o) => fence(order(o)),
        }
        if stamped { all = (all << 20) | ((start as u64) << 14) | ((clock.fetch_add(1, Ordering::SeqCst) as u64) << 8) | (v as u64 & 15); }
        else { all = (all << 3) | (v as u64 & 7); }
        i += 1;
    }
    all
}
fn hex(page: &mut Vec<u8>, out: &[u64; 5], n: usize) {
    let mut t = 0;
    while t < 5 {
        if t < n || t == 4 {
            let mut x = out[t];
            while x > 0 { page.push(b'a' + (x & 15) as u8); x >>= 4; }
            page.push(if t < 4 { b'.' } else { b'/' });
        }
        t += 1;
    }
}
fn litmus<T: Lit>(seed: u64, runs: usize, stamped: bool, progs: &[String]) {
    for text in progs {
        let p = parse(text);
        let mut nl = 0;
        let mut plain = [false; 10];
        for s in p.iter().flatten() {
            let x = match s { L::Ld(x, _) | L::St(x, ..) | L::Cas(x, ..) => *x, L::RawLd(x) | L::RawSt(x, _) => { plain[*x] = true; *x } L::Fence(_) => 0 };
            if x > nl { nl = x; }
        }
        let mut seen: Vec<([u64; 5], usize)> = vec![];
        let mut r = Rng(seed);
        for _ in 0..(runs + BATCH - 1) / BATCH {
            // fresh cells for every run; the threads meet before each
            let mut cells = Vec::with_capacity(BATCH * nl);
            let mut raw = Vec::with_capacity(BATCH * nl);
            let mut met = Vec::with_capacity(BATCH);
            let mut i = 0;
            while i < BATCH * nl {
                cells.push(AtomicOrdinal::new(T::of(0)));
                raw.push(AtomicUsize::new(0));
                if i < BATCH { met.push(AtomicUsize::new(0)); }
                i += 1;
            }
            let first = r.below(p.len());
            let mut got = vec![[0u64; BATCH]; p.len()];
            std::thread::scope(|sc| {
                let mut slots: Vec<_> = got.iter_mut().enumerate().collect();
                slots.rotate_left(first);
                let (cells, raw, met, p) = (&cells[..], &raw[..], &met[..], &p);
                for (t, slot) in slots {
                    sc.spawn(move || {
                        let mut b = 0;
                        while b < BATCH {
                            met[b].fetch_add(1, Ordering::SeqCst);
                            while met[b].load(Ordering::SeqCst) < p.len() { std::thread::yield_now(); }
                            let at = b * nl;
                            // the clock counts on from the number of threads
                            slot[b] = steps(&p[t], &cells[at..at + nl], &raw[at..at + nl], &met[b], stamped);
                            b += 1;
                        }
                    });
                }
            });
            let mut page = Vec::with_capacity(BATCH * 100);
            let mut b = 0;
            while b < BATCH {
                let mut out = [0u64; 5];
                let mut t = 0;
                while t < p.len() { out[t] = got[t][b]; t += 1; }
                let mut x = 0;
                while x < nl {
                    let v = if plain[x + 1] { raw[b * nl + x].load(Ordering::Relaxed) as i64 } else { cells[b * nl + x].load(Ordering::Relaxed).no() };
                    out[4] = out[4] << 3 | (v as u64 & 7);
                    x += 1;
                }
                let mut i = 0;
                while i < seen.len() && !(seen[i].0[0] == out[0] && seen[i].0[1] == out[1] && seen[i].0[2] == out[2] && seen[i].0[3] == out[3] && seen[i].0[4] == out[4]) { i += 1; }
                if i < seen.len() { seen[i].1 += 1; } else { seen.push((out, 1)); }
                b += 1;
                if stamped { seen.clear(); hex(&mut page, &out, p.len()); }
            }
            if stamped { println!("ALL {} {}", text, unsafe { std::str::from_utf8_unchecked(&page) }); }
        }
        for (o, n) in seen { println!("OUT {} {:x} {:x} {:x} {:x} {:x} {}", text, o[0], o[1], o[2], o[3], o[4], n); }
    }
}

/// Types of very many values.
#[cfg(target_pointer_width = "64")]
mod wide {
    pub type U32 = u32;
    pub type Part = u32;
    pub type I32 = i32;
    pub type NU64 = std::num::NonZeroU64;
    pub type NI64 = std::num::NonZeroI64;
    pub type Tuple = (u32, u16, u8);
    pub type Arr = [u16; 3];
}
#[cfg(target_pointer_width = "32")]
mod wide {
    pub type U32 = std::num::NonZeroU32;
    pub type Part = std::num::NonZeroI16;
    pub type I32 = std::num::NonZeroI32;
    pub type NU64 = std::num::NonZeroUsize;
    pub type NI64 = std::num::NonZeroIsize;
    pub type Tuple = (u16, bool, i8);
    pub type Arr = [u8; 3];
}

macro_rules! dispatch {
    ($k:expr, $f:ident($($a:expr),*)) => { dispatch!(@ $k, $f, ($($a),*),
        "bool" => bool, "u8" => u8, "i8" => i8, "u16" => u16, "i16" => i16, "u32" => wide::U32, "i32" => wide::I32, "char" => char,
        "unit" => (), "ordering" => std::cmp::Ordering, "nzu8" => NonZeroU8, "nzu64" => wide::NU64, "nzi64" => wide::NI64,
        "nzusize" => NonZeroUsize, "nzi32" => NonZeroI32, "optbool" => Option<bool>, "optu32" => Option<wide::Part>,
        "res" => Result<bool, std::cmp::Ordering>, "pair" => (bool, std::cmp::Ordering), "wide" => wide::Tuple,
        "arr" => [bool; 3], "arr16" => wide::Arr, "shape" => Shape, "either" => either::Either<bool, u8>, "boxed" => Box<Option<u8>>,
        "one" => (wide::NU64,), "optnever" => Option<std::convert::Infallible>) };
    (@ $k:expr, $f:ident, $a:tt, $($n:literal => $t:ty),*) => { match &*$k { $($n => dispatch!(! $f, $t, $a),)* k => panic!("no driver for {}", k) } };
    (! $f:ident, $t:ty, ($($a:expr),*)) => { $f::<$t>($($a),*) };
}

fn main() {
    let args = harness::io::args();
    harness::io::quiet();
    let n = |i: usize| args[i].parse::<usize>().unwrap();
    match &*args[1] {
        "seq" => {
            use std::io::Write;
            let sessions = read_sessions(&args[2]);
            harness::script::watch(args.get(4).map_or(60, |s| s.parse().unwrap()));
            let mut out = std::io::BufWriter::new(harness::io::create(&args[3]));
            for s in &sessions {
                harness::script::tick(s.id);
                writeln!(out, "{}", dispatch!(s.key, seq(s))).unwrap();
                out.flush().unwrap();
            }
        }
        "hist" => {
            let mut out = |s: String| println!("{}", s);
            for k in &args[6..] { dispatch!(*k, hist(k, n(2) as u64, n(3), n(4), n(5), &mut out)); }
        }
        "litmus" | "stamped" => {
            let (st, seed, runs, ps) = (args[1] == "stamped", n(2) as u64, n(3), &args[5..]);
            match &*args[4] {
                "u8" => litmus::<u8>(seed, runs, st, ps),
                #[cfg(target_pointer_width = "64")]
                "i32" => litmus::<wide::I32>(seed, runs, st, ps),
                #[cfg(target_pointer_width = "64")]
                "nzu64" => litmus::<wide::NU64>(seed, runs, st, ps),
                "optbool" => litmus::<Option<bool>>(seed, runs, st, ps),
                k => panic!("no driver for {}", k),
            }
        }
        m => panic!("no mode {}", m),
    }
}
