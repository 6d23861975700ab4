//! Driver for OrdinalValues, the iterator over all values of a type.
use harness::big::{big, bigs};
use harness::call;
use harness::keys::*;
use harness::tok::way;
use harness::script::{json_str, read_sessions, Op, Session};
use ordinal_map::{Ordinal, OrdinalValues};
use std::io::Write;

/// Ordinals compressed into runs of neighbours.
#[derive(Default)]
struct Runs {
    v: Vec<(usize, usize, i8)>,
}
impl Runs {
    fn push(&mut self, x: usize) {
        if let Some((_, last, dir)) = self.v.last_mut() {
            if *dir >= 0 && last.checked_add(1) == Some(x) { *last = x; *dir = 1; return; }
            if *dir <= 0 && last.checked_sub(1) == Some(x) { *last = x; *dir = -1; return; }
        }
        if self.v.len() < 1000 {
            self.v.push((x, x, 0));
        }
    }
    fn flat(&self) -> Vec<usize> {
        self.v.iter().flat_map(|r| [r.0, r.1]).collect()
    }
}

/// Ok = ret, Err = panic
fn step<K: Ordinal>(it: &mut Option<OrdinalValues<K>>, o: &Op, text: &mut String, show: Option<fn(&OrdinalValues<K>) -> String>) -> Option<Result<Vec<usize>, i64>> {
    let j = o.j as usize;
    let i = it.as_mut()?;
    let one = |x: Option<K>| x.map(|x| x.ordinal()).into_iter().collect::<Vec<_>>();
    Some(match o.op.as_str() {
        "next" => call(|| one(i.next())),
        "back" => call(|| one(if way(3) == 0 { i.by_ref().rev().next() } else { i.next_back() })),
        "nth" => call(|| one(if way(3) == 0 { i.by_ref().skip(j).next() } else { i.nth(j) })),
        "nthb" => call(|| one(if way(3) == 0 { i.by_ref().rev().nth(j) } else { i.nth_back(j) })),
        "find" => call(|| {
            let mut c = 0;
            match way(6) {
                0 => one(i.find_map(|x| { c += 1; if c > j { Some(x) } else { None } })),
                1 => { let mut r = None; i.any(|x| { c += 1; if c > j { r = Some(x) }; c > j }); one(r) }
                2 => {
                    let mut r = None;
                    let p = i.position(|x| { c += 1; if c > j { r = Some(x) }; c > j });
                    if p.is_some_and(|p| p != j) { vec![usize::MAX - 997] } else { one(r) }
                }
                3 => one(i.by_ref().skip_while(|_| { c += 1; c <= j }).next()),
                _ => one(i.find(|_| { c += 1; c > j })),
            }
        }),
        "rfind" => call(|| {
            let mut c = 0;
            match way(3) {
                0 => one(i.by_ref().rev().find_map(|x| { c += 1; if c > j { Some(x) } else { None } })),
                _ => one(i.rfind(|_| { c += 1; c > j })),
            }
        }),
        "tfold" => call(|| {
            let (mut c, mut r) = (0, Runs::default());
            match way(4) {
                0 => { i.all(|x| { r.push(x.ordinal()); c += 1; c != j }); }
                1 => for x in i.by_ref().take(j) { r.push(x.ordinal()) },
                _ => { let _ = i.try_fold((), |(), x| { r.push(x.ordinal()); c += 1; if c == j { Err(()) } else { Ok(()) } }); }
            }
            r.flat()
        }),
        "trfold" => call(|| {
            let (mut c, mut r) = (0, Runs::default());
            match way(3) {
                0 => for x in i.by_ref().rev().take(j) { r.push(x.ordinal()) },
                _ => { let _ = i.try_rfold((), |(), x| { r.push(x.ordinal()); c += 1; if c == j { Err(()) } else { Ok(()) } }); }
            }
            r.flat()
        }),
        "len" => call(|| vec![i.len()]),
        "hint" => call(|| { let (a, b) = i.size_hint(); vec![a, b.is_some() as usize, b.unwrap_or(0)] }),
        "cdbg" => match call(|| show.map(|f| f(i))) {
            Ok(None) => return None,
            Ok(Some(s)) => { *text = s; Ok(vec![]) }
            Err(x) => Err(x),
        },
        op => {
            let i = it.take().unwrap();
            match op {
                "count" => call(|| vec![i.count()]),
                "last" => call(|| one(if way(3) == 0 { i.rev().next() } else { i.last() })),
                "fold" => call(|| {
                    let mut r = Runs::default();
                    match way(3) { 0 => i.for_each(|x| r.push(x.ordinal())), 1 => for x in i { r.push(x.ordinal()) }, _ => i.fold((), |(), x| r.push(x.ordinal())) }
                    r.flat()
                }),
                "rfold" => call(|| {
                    let mut r = Runs::default();
                    match way(3) { 0 => i.rev().for_each(|x| r.push(x.ordinal())), 1 => for x in i.rev() { r.push(x.ordinal()) }, _ => i.rfold((), |(), x| r.push(x.ordinal())) }
                    r.flat()
                }),
                "skip" => call(|| { let mut r = Runs::default(); for x in i.skip(j) { r.push(x.ordinal()) } r.flat() }),
                "rskip" => call(|| { let mut r = Runs::default(); for x in i.rev().skip(j) { r.push(x.ordinal()) } r.flat() }),
                "step" => call(|| i.step_by(j + 1).map(|x| x.ordinal()).collect()),
                "cdrop" => call(|| { drop(i); vec![] }),
                _ => { *it = Some(i); return None }
            }
        }
    })
}

fn session<K: Ordinal>(muted: bool, ops: &[Op], show: Option<fn(&OrdinalValues<K>) -> String>) -> (usize, Vec<String>) {
    let mut its: Vec<Option<OrdinalValues<K>>> = vec![];
    let mut ev = vec![];
    for o in ops {
        let mut text = String::new();
        if o.op == "noise" {
            noise(o.k, o.j);
            continue;
        }
        let r = match o.op.as_str() {
            "all" => {
                if !its.is_empty() { continue; }
                match call(|| K::all_values()) {
                    Ok(i) => { its.push(Some(i)); Ok(vec![]) }
                    Err(x) => Err(x),
                }
            }
            "cclone" => {
                if its.len() != 1 || its[0].is_none() { continue; }
                match call(|| its[0].as_ref().unwrap().clone()) {
                    Ok(i) => { its.push(Some(i)); Ok(vec![]) }
                    Err(x) => Err(x),
                }
            }
            _ => {
                if o.h < 1 || o.h > its.len() { continue; }
                match step(&mut its[o.h - 1], o, &mut text, show) { Some(r) => r, None => continue }
            }
        };
        if its.iter().all(|i| i.is_none()) { its.clear(); }
        if muted {
            continue;
        }
        let ret = match r { Ok(v) => bigs(&v), Err(_) => "[[-1]]".into() };
        ev.push(format!("{{\"op\":{},\"h\":{},\"j\":{},\"ret\":{},\"dbg\":{}}}", json_str(&o.op), o.h, big(o.j as u128), ret, json_str(&text)));
    }
    (K::ORDINAL_SIZE, ev)
}

fn shown<K: Ordinal + std::fmt::Debug>(i: &OrdinalValues<K>) -> String {
    format!("{:?}", i)
}

macro_rules! dispatch {
    ($m0:expr, $s:expr, $other:expr, [$($n:literal => $k:ty),* $(,)?], [$($m:literal => $l:ty),* $(,)?]) => {
        match &*$s.key {
            $($n => session::<$k>($m0, &$s.ops, Some(shown::<$k>)),)*
            $($m => session::<$l>($m0, &$s.ops, None),)*
            k => $other(k),
        }
    };
}

/// Types of numbers of values only usize of 64 bits can count.
#[cfg(target_pointer_width = "64")]
fn wide(muted: bool, s: &Session) -> (usize, Vec<String>) {
    dispatch!(muted, s, |k| panic!("no driver for {}", k), ["e2p32" => E<{ 1 << 32 }>, "e2p32p1" => E<{ (1 << 32) + 1 }>, "e2p63" => E<{ 1 << 63 }>, "u32" => u32],
        ["i32" => i32, "optu32" => Option<u32>, "arr16" => [u16; 3], "wide" => (u32, u16, u8)])
}
/// Those at the edge of 32 bits.
#[cfg(target_pointer_width = "32")]
fn wide(muted: bool, s: &Session) -> (usize, Vec<String>) {
    dispatch!(muted, s, |k| panic!("no driver for {}", k), ["e2p31" => E<{ 1 << 31 }>, "e2p31p1" => E<{ (1 << 31) + 1 }>],
        ["nzu32" => std::num::NonZeroU32, "nzsize" => std::num::NonZeroUsize, "nzisize" => std::num::NonZeroIsize, "arr31" => [bool; 31],
         "pair3" => (u16, [bool; 15]), "resnz" => Result<[bool; 31], std::num::NonZeroI16>])
}

fn main() {
    let args = harness::io::args();
    let sessions = read_sessions(&args[1]);
    harness::io::quiet();
    harness::script::watch(args.get(3).map_or(60, |s| s.parse().unwrap()));
    let mut out = std::io::BufWriter::new(harness::io::create(&args[2]));
    let muted = harness::script::mute();
    for s in &sessions {
        harness::script::tick(s.id);
        harness::tok::reset();
        noise(0, 0);
        let (n, ev) = dispatch!(muted, s, |_| wide(muted, s),
            // these print as their ordinal
            ["e0" => E<0>, "e1" => E<1>, "e2" => E<2>, "e3" => E<3>, "e4" => E<4>, "e5" => E<5>, "e65" => E<65>, "e300" => E<300>,
             "emax" => E<{ usize::MAX }>,
             "emax1" => E<{ usize::MAX - 1 }>, "u8" => u8, "u16" => u16],
            ["i8" => i8, "i16" => i16, "char" => char, "bool" => bool, "ordering" => std::cmp::Ordering, "unit" => (),
             "never" => std::convert::Infallible, "optbool" => Option<bool>, "nzu8" => std::num::NonZeroU8,
             "nzi8" => std::num::NonZeroI8, "nzi16" => std::num::NonZeroI16, "nzi32" => std::num::NonZeroI32,
             "res" => Result<bool, std::cmp::Ordering>, "pair" => (bool, std::cmp::Ordering), "pair2" => (u8, u8, bool),
             "arr" => [bool; 3], "arr0" => [u8; 0], "shape" => Shape, "rec" => Rec,
             "h1" => H<1>, "h3" => H<3>, "h65" => H<65>, "hopt" => Option<H<3>>, "hpair" => (H<2>, H<3>), "harr" => [H<2>; 2], "hd" => Hd, "either" => either::Either<bool, u8>, "boxed" => Box<Option<u8>>, "optnever" => Option<std::convert::Infallible>]);
        if muted {
            writeln!(out, "{}", s.id).unwrap();
            out.flush().unwrap();
            continue;
        }
        writeln!(out, "{{\"id\":{},\"subject\":\"OrdinalValues\",\"key\":{},\"val\":\"-\",\"n\":0,\"track\":false,\"size\":{},\"ev\":[{}]}}",
            s.id, json_str(&s.key), big(n as u128), ev.join(",")).unwrap();
        out.flush().unwrap();
    }
}
