//! Driver for OrdinalSet, OrdinalSet64 and OrdinalArraySet.
use harness::call;
use harness::cursor::{show, Cur, Sink, Wr};
use harness::keys::*;
use harness::script::{clamp, main_with, Event, Op, Session};
use harness::tok;
use ordinal_map::set::{ordinal_array_set_s, OrdinalArraySet, OrdinalSet, OrdinalSet64};

/// The API the sets share; everything optional has a default.
trait Set<K: Key>: Sized + Clone + std::fmt::Debug + 'static {
    fn new() -> Self;
    fn default() -> Self;
    fn collect(it: &mut dyn Iterator<Item = K>) -> Self;
    fn insert(&mut self, k: K) -> bool;
    fn contains(&self, k: &K) -> bool;
    fn all() -> Option<Self> { None }
    fn equal(&self, _: &Self) -> Option<bool> { None }
    fn begin(&'static self) -> Option<Box<dyn Cur<()>>>;
}
fn pk<K: Key>(x: K, s: &mut Sink<()>) {
    s.ret.push(clamp(x.ordinal()));
}
macro_rules! set {
    ([$($g:tt)*] $t:ty, { $($extra:tt)* }) => {
        impl<K: Key + PartialEq + Eq, $($g)*> Set<K> for $t {
            fn new() -> Self { <$t>::new() }
            fn default() -> Self { <$t as Default>::default() }
            fn collect(it: &mut dyn Iterator<Item = K>) -> Self { it.collect() }
            fn insert(&mut self, k: K) -> bool { <$t>::insert(self, k) }
            fn contains(&self, k: &K) -> bool { <$t>::contains(self, k) }
            $($extra)*
        }
    };
}
set!([] OrdinalSet<K>, {
    fn begin(&'static self) -> Option<Box<dyn Cur<()>>> {
        Some(Box::new(Wr { it: Some(self.iter()), proj: pk::<K>, len: None, clone: Some(|i| i.clone()), dbg: if K::DBG { Some(|i, a| show(i, a)) } else { None } }))
    }
});
set!([] OrdinalSet64<K>, {
    fn all() -> Option<Self> { Some(<OrdinalSet64<K>>::all()) }
    fn equal(&self, o: &Self) -> Option<bool> {
        let (a, b) = (*self == *o, *self != *o);
        // `!=` must be the opposite
        Some(if a != b { a } else { panic!("== and != agree") })
    }
    fn begin(&'static self) -> Option<Box<dyn Cur<()>>> {
        Some(Box::new(Wr { it: Some(self.iter()), proj: pk::<K>, len: Some(|i| i.len()), clone: Some(|i| i.clone()), dbg: if K::DBG { Some(|i, a| show(i, a)) } else { None } }))
    }
});
set!([const S: usize] OrdinalArraySet<K, S>, {
    fn begin(&'static self) -> Option<Box<dyn Cur<()>>> { None }
});

struct Run<K: Key, M: Set<K>> {
    maps: Vec<*mut M>,
    cur: Vec<Option<Box<dyn Cur<()>>>>,
    ev: Vec<Event>,
    _k: std::marker::PhantomData<K>,
}

impl<K: Key, M: Set<K>> Run<K, M> {
    fn m(&self, h: usize) -> Option<&'static mut M> {
        let p = *self.maps.get(h)?;
        if p.is_null() { None } else { Some(unsafe { &mut *p }) }
    }
    fn r(&self, h: usize) -> Option<&'static M> {
        let p = *self.maps.get(h)?;
        if p.is_null() { None } else { Some(unsafe { &*p }) }
    }
    fn set(&mut self, h: usize, m: M) {
        while self.maps.len() <= h {
            self.maps.push(std::ptr::null_mut());
        }
        assert!(self.maps[h].is_null());
        self.maps[h] = Box::into_raw(Box::new(m));
    }
    fn free(&self, h: usize) -> bool {
        self.maps.get(h).map_or(true, |p| p.is_null())
    }
    fn put(&mut self, mut e: Event, r: Result<Vec<i64>, i64>) {
        match r {
            Ok(v) => e.ret = v,
            Err(x) => e.ret.push(x),
        }
        self.ev.push(e);
    }
    fn born(&mut self, e: Event, h: usize, r: Result<M, i64>) {
        let r = r.map(|m| { self.set(h, m); vec![] });
        self.put(e, r);
    }

    fn op(&mut self, o: &Op) {
        if o.op == "noise" {
            noise(o.k, o.j);
            return;
        }
        let mut e = Event::of(o);
        let key = |k: i64| -> Option<K> { if k < 0 { None } else { K::from_ordinal(k as usize) } };
        if matches!(o.op.as_str(), "insert" | "has") && key(o.k).is_none() {
            return;
        }
        let has_cur = o.h >= 1 && o.h <= self.cur.len() && self.cur[o.h - 1].is_some();
        if has_cur && o.op != "cclone" {
            let mut c = self.cur[o.h - 1].take().unwrap();
            let mut sink = Sink::new(false);
            match c.step(o, &mut e, &mut sink) {
                None => self.cur[o.h - 1] = Some(c),
                Some(keep) => {
                    if keep {
                        self.cur[o.h - 1] = Some(c);
                    }
                    if self.cur.iter().all(|c| c.is_none()) {
                        self.cur.clear();
                    }
                    self.put(e, Ok(sink.ret));
                }
            }
            return;
        }
        if o.op == "cclone" {
            if self.cur.len() != 1 || o.h != 1 { return; }
            match self.cur[0].as_ref().and_then(|c| c.try_clone()) {
                None => {}
                Some(Ok(c)) => {
                    self.cur.push(Some(c));
                    self.put(e, Ok(vec![]));
                }
                Some(Err(x)) => self.put(e, Err(x)),
            }
            return;
        }
        if !self.cur.is_empty() {
            return;
        }
        match o.op.as_str() {
            "new" if self.free(o.h) => {
                let r = call(|| if o.j == 0 { M::new() } else { M::default() });
                self.born(e, o.h, r);
            }
            "all" if self.free(o.h) => match call(|| M::all()) {
                Ok(None) => {}
                Ok(Some(m)) => self.born(e, o.h, Ok(m)),
                Err(x) => self.put(e, Err(x)),
            },
            "fromiter" if self.free(o.h) => {
                let ks: Option<Vec<K>> = o.xs.iter().map(|k| key(*k)).collect();
                let Some(ks) = ks else { return };
                e.xs = o.xs.clone();
                let r = call(|| M::collect(&mut ks.into_iter()));
                self.born(e, o.h, r);
            }
            "clone" if self.m(o.h).is_some() && self.free(o.j as usize) => {
                let m = self.m(o.h).unwrap();
                let r = call(|| (*m).clone());
                self.born(e, o.j as usize, r);
            }
            "clonefrom" if o.h == o.j as usize => {}
            "clonefrom" => if let (Some(a), Some(b)) = (self.m(o.h), self.m(o.j as usize)) {
                let r = call(|| { b.clone_from(a); vec![] });
                self.put(e, r);
            },
            "eq" => if let (Some(a), Some(b)) = (self.r(o.h), self.r(o.j as usize)) {
                match call(|| a.equal(b)) {
                    Ok(None) => {}
                    Ok(Some(x)) => self.put(e, Ok(vec![x as i64])),
                    Err(x) => self.put(e, Err(x)),
                }
            },
            _ => {
                let Some(m) = self.m(o.h) else { return };
                match o.op.as_str() {
                    "dropmap" => {
                        let p = std::mem::replace(&mut self.maps[o.h], std::ptr::null_mut());
                        let r = call(|| { drop(unsafe { Box::from_raw(p) }); vec![] });
                        self.put(e, r);
                    }
                    "insert" => {
                        let r = call(|| vec![m.insert(key(o.k).unwrap()) as i64]);
                        self.put(e, r);
                    }
                    "peek" => {
                        let r = call(|| (0..K::ORDINAL_SIZE).filter(|i| m.contains(&K::from_ordinal(*i).unwrap())).map(clamp).collect());
                        self.put(e, r);
                    }
                    "has" => {
                        let r = call(|| vec![m.contains(&key(o.k).unwrap()) as i64]);
                        self.put(e, r);
                    }
                    "dbg" => if K::DBG {
                        let r = call(|| show(&*m, o.j != 0)).map(|s| { e.dbg = s; vec![] });
                        self.put(e, r);
                    },
                    "begin" => match call(|| m.begin()) {
                        Ok(None) => {}
                        Ok(Some(c)) => { self.cur = vec![Some(c)]; self.put(e, Ok(vec![])); }
                        Err(x) => self.put(e, Err(x)),
                    },
                    _ => {}
                }
            }
        }
    }

    fn run(s: &Session) -> (usize, bool, Vec<Event>) {
        let _ = tok::fresh();
        let mut r: Run<K, M> = Run { maps: vec![], cur: vec![], ev: vec![], _k: std::marker::PhantomData };
        for o in &s.ops {
            r.op(o);
        }
        for h in [1, 2] {
            if r.cur.len() >= h && r.cur[h - 1].is_some() {
                r.op(&Op { op: "cdrop".into(), h, ..Op::default() });
            }
        }
        for h in 0..r.maps.len() {
            r.op(&Op { op: "dropmap".into(), h, ..Op::default() });
        }
        (K::ORDINAL_SIZE, false, std::mem::take(&mut r.ev))
    }
}

macro_rules! dispatch {
    ($s:expr, [$($n64:literal => $k64:ty),* $(,)?], [$($name:literal => $k:ty),* $(,)?]) => {
        match (&*$s.key, &*$s.subject) {
            $(
                ($n64, "OrdinalSet64") => Run::<$k64, OrdinalSet64<$k64>>::run($s),
                ($n64, "OrdinalSet") => Run::<$k64, OrdinalSet<$k64>>::run($s),
                ($n64, "OrdinalArraySet") => Run::<$k64, OrdinalArraySet<$k64, { ordinal_array_set_s::<$k64>() }>>::run($s),
            )*
            $(
                ($name, "OrdinalSet") => Run::<$k, OrdinalSet<$k>>::run($s),
                ($name, "OrdinalArraySet") => Run::<$k, OrdinalArraySet<$k, { ordinal_array_set_s::<$k>() }>>::run($s),
            )*
            (k, m) => panic!("no driver for {} {}", k, m),
        }
    };
}

fn run(s: &Session) -> (usize, bool, Vec<Event>) {
    dispatch!(s, [
        "e0" => E<0>, "e1" => E<1>, "e2" => E<2>, "e3" => E<3>, "e4" => E<4>, "e5" => E<5>, "e8" => E<8>,
        "e63" => E<63>, "e64" => E<64>,
        "bool" => bool, "ordering" => std::cmp::Ordering,
        "never" => std::convert::Infallible, "unit" => (), "optbool" => Option<bool>,
        "res" => Result<bool, std::cmp::Ordering>, "pair" => (bool, std::cmp::Ordering),
        "arr" => [bool; 3], "shape" => Shape, "rec" => Rec,
        "h1" => H<1>, "h3" => H<3>, "hopt" => Option<H<3>>, "hpair" => (H<2>, H<3>), "harr" => [H<2>; 2], "hd" => Hd, "h64" => H<64>,
    ], [
        "h65" => H<65>,
        "e65" => E<65>, "e128" => E<128>, "e129" => E<129>, "e130" => E<130>, "e300" => E<300>,
        "u8" => u8, "i8" => i8, "nzi8" => std::num::NonZeroI8, "optu8" => Option<u8>, "u16" => u16,
    ])
}

fn main() {
    main_with(run)
}
