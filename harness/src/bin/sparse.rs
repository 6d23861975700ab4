//! Driver for OrdinalMap and OrdinalArrayMap.
use harness::cursor::{show, Cur, Sink, Wr};
use harness::keys::*;
use harness::script::{clamp, main_with, Event, Ledger, Op, Session};
use harness::tok::{self, Val};
use harness::{call, inject};
use ordinal_map::map::{Entry, OrdinalArrayMap, OrdinalMap};
use ordinal_map::Ordinal;

fn ord<K: Ordinal>(k: &K) -> i64 {
    clamp(k.ordinal())
}

/// The API the two sparse maps share.
trait SMap<K: Key, V: Val>: Sized + Clone + std::fmt::Debug + 'static {
    fn new() -> Self;
    fn default() -> Self;
    fn from_pairs(it: &mut dyn Iterator<Item = (K, V)>) -> Self;
    fn get(&self, k: &K) -> Option<&V>;
    fn get_mut(&mut self, k: &K) -> Option<&mut V>;
    fn contains_key(&self, k: &K) -> bool;
    fn insert(&mut self, k: K, v: V) -> Option<V>;
    fn remove(&mut self, k: &K) -> Option<V>;
    fn entry(&mut self, k: K) -> Entry<'_, K, V>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    const RETAIN: bool;
    fn retain(&mut self, f: &mut dyn FnMut(K, &mut V) -> bool);
    fn begin(&'static mut self, kind: &str) -> Option<Box<dyn Cur<V>>>;
    fn into_cur(self) -> Box<dyn Cur<V>>;
}

fn pr<K: Key, V: Val>(x: (K, &V), s: &mut Sink<V>) {
    s.ret.push(ord(&x.0));
    s.ret.push(x.1.id());
}
fn pm<K: Key, V: Val>(x: (K, &mut V), s: &mut Sink<V>) {
    s.ret.push(ord(&x.0));
    s.ret.push(x.1.id());
    s.maybe_write(x.1);
}
fn pk<K: Key, V: Val>(x: K, s: &mut Sink<V>) {
    s.ret.push(ord(&x));
}
fn pv<V: Val>(x: &V, s: &mut Sink<V>) {
    s.ret.push(x.id());
}
fn pvm<V: Val>(x: &mut V, s: &mut Sink<V>) {
    s.ret.push(x.id());
    s.maybe_write(x);
}
fn po<K: Key, V: Val>(x: (K, V), s: &mut Sink<V>) {
    s.ret.push(ord(&x.0));
    s.ret.push(x.1.id());
    s.held.push(x.1);
}

macro_rules! smap {
    ([$($g:tt)*] $t:ty, $retain:expr, $rf:expr) => {
        impl<K: Key, V: Val, $($g)*> SMap<K, V> for $t {
            fn new() -> Self { <$t>::new() }
            fn default() -> Self { <$t as Default>::default() }
            fn from_pairs(it: &mut dyn Iterator<Item = (K, V)>) -> Self { it.collect() }
            fn get(&self, k: &K) -> Option<&V> { <$t>::get(self, k) }
            fn get_mut(&mut self, k: &K) -> Option<&mut V> { <$t>::get_mut(self, k) }
            fn contains_key(&self, k: &K) -> bool { <$t>::contains_key(self, k) }
            fn insert(&mut self, k: K, v: V) -> Option<V> { <$t>::insert(self, k, v) }
            fn remove(&mut self, k: &K) -> Option<V> { <$t>::remove(self, k) }
            fn entry(&mut self, k: K) -> Entry<'_, K, V> { <$t>::entry(self, k) }
            fn len(&self) -> usize { <$t>::len(self) }
            fn is_empty(&self) -> bool { <$t>::is_empty(self) }
            fn clear(&mut self) { <$t>::clear(self) }
            const RETAIN: bool = $retain;
            fn retain(&mut self, f: &mut dyn FnMut(K, &mut V) -> bool) { let g: fn(&mut Self, &mut dyn FnMut(K, &mut V) -> bool) = $rf; g(self, f) }
            fn begin(&'static mut self, kind: &str) -> Option<Box<dyn Cur<V>>> {
                let dbg_ok = K::DBG && V::DBG;
                Some(match kind {
                    "iter" => Box::new(Wr { it: Some(self.iter()), proj: pr::<K, V>, len: None, clone: Some(|i| i.clone()), dbg: if dbg_ok { Some(|i, a| show(i, a)) } else { None } }),
                    "ref" => Box::new(Wr { it: Some((&*self).into_iter()), proj: pr::<K, V>, len: None, clone: Some(|i| i.clone()), dbg: if dbg_ok { Some(|i, a| show(i, a)) } else { None } }),
                    "iter_mut" => Box::new(Wr { it: Some(self.iter_mut()), proj: pm::<K, V>, len: None, clone: None, dbg: if dbg_ok { Some(|i, a| show(i, a)) } else { None } }),
                    "keys" => Box::new(Wr { it: Some(self.keys()), proj: pk::<K, V>, len: None, clone: Some(|i| i.clone()), dbg: None }),
                    "values" => Box::new(Wr { it: Some(self.values()), proj: pv::<V>, len: None, clone: Some(|i| i.clone()), dbg: if dbg_ok { Some(|i, a| show(i, a)) } else { None } }),
                    "values_mut" => Box::new(Wr { it: Some(self.values_mut()), proj: pvm::<V>, len: None, clone: None, dbg: if dbg_ok { Some(|i, a| show(i, a)) } else { None } }),
                    "drain" => Box::new(Wr { it: Some(self.drain()), proj: po::<K, V>, len: None, clone: None, dbg: None }),
                    _ => return None,
                })
            }
            fn into_cur(self) -> Box<dyn Cur<V>> {
                let dbg_ok = K::DBG && V::DBG;
                Box::new(Wr { it: Some(self.into_iter()), proj: po::<K, V>, len: None, clone: Some(|i| i.clone()), dbg: if dbg_ok { Some(|i, a| show(i, a)) } else { None } })
            }
        }
    };
}
smap!([] OrdinalMap<K, V>, false, |_, _| ());
smap!([const S: usize] OrdinalArrayMap<K, V, S>, true, |m, f| m.retain(|k, v| f(k, v)));

/// `Keys` is printable only over `()` values.
fn begin_special<K: Key>(m: &'static mut OrdinalMap<K, ()>) -> Box<dyn Cur<()>> {
    Box::new(Wr { it: Some(m.keys()), proj: pk::<K, ()>, len: None, clone: Some(|i| i.clone()), dbg: if K::DBG { Some(|i, a| show(i, a)) } else { None } })
}
fn begin_special_array<K: Key, const S: usize>(m: &'static mut OrdinalArrayMap<K, (), S>) -> Box<dyn Cur<()>> {
    Box::new(Wr { it: Some(m.keys()), proj: pk::<K, ()>, len: None, clone: Some(|i| i.clone()), dbg: if K::DBG { Some(|i, a| show(i, a)) } else { None } })
}

struct Run<K: Key, V: Val, M: SMap<K, V>> {
    maps: Vec<*mut M>,
    cur: Vec<Option<Box<dyn Cur<V>>>>,
    ent: Option<Entry<'static, K, V>>,
    held: Vec<V>,
    ev: Vec<Event>,
    special: Option<fn(&'static mut M) -> Box<dyn Cur<V>>>,
}

impl<K: Key, V: Val, M: SMap<K, V>> Run<K, V, M> {
    fn m(&self, h: usize) -> Option<&'static mut M> {
        let p = *self.maps.get(h)?;
        if p.is_null() { None } else { Some(unsafe { &mut *p }) }
    }
    fn set(&mut self, h: usize, m: M) {
        while self.maps.len() <= h {
            self.maps.push(std::ptr::null_mut());
        }
        self.maps[h] = Box::into_raw(Box::new(m));
    }
    fn free(&self, h: usize) -> bool {
        self.maps.get(h).map_or(true, |p| p.is_null())
    }
    fn idle(&self) -> bool {
        self.ent.is_none() && self.cur.iter().all(|c| c.is_none())
    }
    fn put(&mut self, e: Event, r: Result<Vec<i64>, i64>) {
        let mut e = e;
        match r {
            Ok(v) => e.ret = v,
            Err(x) => e.ret.push(x),
        }
        e.drops = tok::take_drops();
        let cl = tok::take_clones();
        if V::TRACK && !cl.is_empty() {
            e.xs = cl.iter().map(|p| p.0).collect();
            e.vs = cl.iter().map(|p| p.1).collect();
        }
        self.ev.push(e);
    }
    fn mk(&self, e: &mut Event, n: usize) -> Vec<V> {
        let ids: Vec<i64> = (0..n).map(|_| if V::UNIT { 0 } else { tok::fresh() }).collect();
        e.vs = ids.clone();
        ids.into_iter().map(V::mk).collect()
    }
    fn one(&self) -> (i64, V) {
        let id = if V::UNIT { 0 } else { tok::fresh() };
        (id, V::mk(id))
    }
    fn opt(&mut self, v: Option<V>) -> Vec<i64> {
        match v {
            None => vec![],
            Some(v) => {
                let id = v.id();
                self.held.push(v);
                vec![id]
            }
        }
    }

    fn op(&mut self, o: &Op) {
        if o.op == "noise" {
            noise(o.k, o.j);
            return;
        }
        let mut e = Event::of(o);
        let n = K::ORDINAL_SIZE;
        let key = |k: i64| -> Option<K> { if k < 0 { None } else { K::from_ordinal(k as usize) } };
        let needs_key = matches!(o.op.as_str(), "insert" | "get" | "getmut" | "has" | "remove" | "entry");
        if needs_key && key(o.k).is_none() {
            return;
        }
        match o.op.as_str() {
            // --- cursors
            "next" | "back" | "nth" | "nthb" | "find" | "rfind" | "hint" | "len" | "count" | "last" | "fold"
            | "rfold" | "tfold" | "trfold" | "skip" | "rskip" | "step" | "cdbg" | "cdrop" | "foldp"
                if o.h <= self.cur.len() && o.h >= 1 && self.cur[o.h - 1].is_some() =>
            {
                let mut c = self.cur[o.h - 1].take().unwrap();
                let mut sink = Sink::new(o.w != 0 && !V::UNIT);
                match c.step(o, &mut e, &mut sink) {
                    None => self.cur[o.h - 1] = Some(c),
                    Some(keep) => {
                        if keep {
                            self.cur[o.h - 1] = Some(c);
                        }
                        if self.cur.iter().all(|c| c.is_none()) {
                            self.cur.clear();
                        }
                        e.vs = sink.wrote.clone();
                        self.put(e, Ok(sink.ret));
                        self.held.extend(sink.held);
                    }
                }
            }
            "cclone" => {
                if self.cur.len() != 1 || o.h != 1 { return; }
                let r = match &self.cur[0] { Some(c) => c.try_clone(), None => None };
                match r {
                    None => {}
                    Some(Ok(c)) => {
                        self.cur.push(Some(c));
                        self.put(e, Ok(vec![]));
                    }
                    Some(Err(x)) => self.put(e, Err(x)),
                }
            }
            // --- entries
            "ekey" => if let Some(en) = &self.ent {
                let r = call(|| {
                    let a = ord(en.key());
                    let b = match en { Entry::Occupied(x) => ord(x.key()), Entry::Vacant(x) => ord(x.key()) };
                    if a == b { vec![a] } else { vec![a, b] }
                });
                self.put(e, r);
            },
            "eget" => if let Some(Entry::Occupied(en)) = &self.ent {
                let r = call(|| vec![en.get().id()]);
                self.put(e, r);
            },
            "egetmut" => match self.ent.take() { Some(Entry::Occupied(mut en)) => {
                let w = if o.w != 0 && !V::UNIT { Some(self.one()) } else { None };
                e.w = w.as_ref().map_or(0, |w| w.0);
                let r = call(|| {
                    let x = en.get_mut();
                    let id = x.id();
                    (id, w.map(|w| std::mem::replace(x, w.1)))
                });
                let r = r.map(|(id, old)| { self.held.extend(old); vec![id] });
                self.put(e, r);
                self.ent = Some(Entry::Occupied(en));
            } x => self.ent = x },
            "eins" => match self.ent.take() {
                Some(Entry::Vacant(en)) => {
                    let (id, v) = self.one();
                    e.v = id;
                    let r = call(|| { en.insert(v); vec![] });
                    self.put(e, r);
                }
                x => self.ent = x,
            },
            "eor" => if let Some(en) = self.ent.take() {
                let (id, v) = self.one();
                e.v = id;
                let w = if o.w != 0 && !V::UNIT { Some(self.one()) } else { None };
                e.w = w.as_ref().map_or(0, |w| w.0);
                let r = call(|| {
                    let x = en.or_insert(v);
                    let id = x.id();
                    (id, w.map(|w| std::mem::replace(x, w.1)))
                });
                let r = r.map(|(id, old)| { self.held.extend(old); vec![id] });
                self.put(e, r);
            },
            "edrop" => if let Some(en) = self.ent.take() {
                let r = call(|| { drop(en); vec![] });
                self.put(e, r);
            },
            _ if !self.idle() => {}
            // --- maps
            "new" if self.free(o.h) => {
                let r = call(|| if o.j == 0 { M::new() } else { M::default() });
                let r = r.map(|m| { self.set(o.h, m); vec![] });
                self.put(e, r);
            }
            "fromiter" | "fromiterp" if self.free(o.h) => {
                let ks: Vec<K> = o.xs.iter().filter_map(|k| key(*k)).collect();
                if ks.len() != o.xs.len() { return; }
                let vs = self.mk(&mut e, ks.len());
                e.xs = o.xs.clone();
                let boom = o.op == "fromiterp";
                let r = call(|| {
                    let mut it = ks.into_iter().zip(vs);
                    M::from_pairs(&mut std::iter::from_fn(move || {
                        let x = it.next();
                        if x.is_none() && boom { inject() }
                        x
                    }))
                });
                let r = r.map(|m| { self.set(o.h, m); vec![] });
                self.put(e, r);
            }
            "clone" | "clonep" => if let (Some(m), true) = (self.m(o.h), self.free(o.j as usize)) {
                if o.op == "clonep" {
                    if !V::TRACK { return; }
                    tok::arm_clone_fuse(o.k);
                    e.k = o.k;
                }
                let r = call(|| (*m).clone());
                tok::arm_clone_fuse(0);
                let r = r.map(|c| { self.set(o.j as usize, c); e.op = "clone".into(); e.k = 0; vec![] });
                self.put(e, r);
            },
            "clonefrom" if o.h == o.j as usize => {}
            "clonefrom" => if let (Some(a), Some(b)) = (self.m(o.h), self.m(o.j as usize)) {
                let r = call(|| { b.clone_from(a); vec![] });
                self.put(e, r);
            },
            "begin" if o.kind == "into" => if self.m(o.h).is_some() {
                let m = unsafe { *Box::from_raw(self.maps[o.h]) };
                self.maps[o.h] = std::ptr::null_mut();
                let r = call(|| m.into_cur());
                let r = r.map(|c| { self.cur = vec![Some(c)]; vec![] });
                self.put(e, r);
            },
            _ => {
                let Some(m) = self.m(o.h) else { return };
                match o.op.as_str() {
                    "dropmap" => {
                        let b = unsafe { Box::from_raw(self.maps[o.h]) };
                        self.maps[o.h] = std::ptr::null_mut();
                        let r = call(|| { drop(b); vec![] });
                        self.put(e, r);
                    }
                    "insert" => {
                        let (id, v) = self.one();
                        e.v = id;
                        let r = call(|| m.insert(key(o.k).unwrap(), v));
                        let r = r.map(|x| self.opt(x));
                        self.put(e, r);
                    }
                    "peek" => {
                        let r = call(|| {
                            let mut v = vec![];
                            for i in 0..K::ORDINAL_SIZE {
                                let k = K::from_ordinal(i).unwrap();
                                if let Some(x) = m.get(&k) { v.extend([clamp(i), x.id()]) }
                            }
                            v
                        });
                        self.put(e, r);
                    }
                    "get" => {
                        let r = call(|| m.get(&key(o.k).unwrap()).map_or(vec![], |v| vec![v.id()]));
                        self.put(e, r);
                    }
                    "getmut" => {
                        let w = if o.w != 0 && !V::UNIT { Some(self.one()) } else { None };
                        let mut spare = None;
                        let r = call(|| match m.get_mut(&key(o.k).unwrap()) {
                            None => { spare = w; (vec![], None, 0) }
                            Some(x) => {
                                let id = x.id();
                                match w {
                                    None => (vec![id], None, 0),
                                    Some(w) => (vec![id], Some(std::mem::replace(x, w.1)), w.0),
                                }
                            }
                        });
                        let r = r.map(|(v, old, w)| { self.held.extend(old); e.w = w; v });
                        self.put(e, r);
                        self.held.extend(spare.map(|s| s.1));
                    }
                    "has" => {
                        let r = call(|| vec![m.contains_key(&key(o.k).unwrap()) as i64]);
                        self.put(e, r);
                    }
                    "remove" => {
                        let r = call(|| m.remove(&key(o.k).unwrap()));
                        let r = r.map(|x| self.opt(x));
                        self.put(e, r);
                    }
                    "len" => {
                        let r = call(|| vec![clamp(m.len())]);
                        self.put(e, r);
                    }
                    "isempty" => {
                        let r = call(|| vec![m.is_empty() as i64]);
                        self.put(e, r);
                    }
                    "dbg" => if K::DBG && V::DBG {
                        let r = call(|| show(&*m, o.j != 0)).map(|s| { e.dbg = s; vec![] });
                        self.put(e, r);
                    },
                    "clear" => {
                        let r = call(|| { m.clear(); vec![] });
                        self.put(e, r);
                    }
                    "retain" | "retainp" => if M::RETAIN {
                        let mut sink: Sink<V> = Sink::new(o.w != 0 && !V::UNIT && o.op == "retain");
                        let mut calls = 0;
                        let r = call(|| m.retain(&mut |k, v| {
                            sink.ret.push(ord(&k));
                            sink.ret.push(v.id());
                            sink.maybe_write(v);
                            calls += 1;
                            if o.op == "retainp" && calls == o.k { inject() }
                            o.xs.contains(&ord(&k))
                        }));
                        e.xs = o.xs.clone();
                        e.vs = sink.wrote.clone();
                        match r {
                            Err(x) => sink.ret.push(x),
                            Ok(()) => { e.op = "retain".into(); e.k = 0; }
                        }
                        if e.op == "retainp" {
                            // the values the map lost
                            let d = tok::take_drops();
                            e.vs = d.clone();
                            e.drops = d;
                            e.ret = sink.ret;
                            self.ev.push(e);
                        } else {
                            self.put(e, Ok(sink.ret));
                        }
                        self.held.extend(sink.held);
                    },
                    "entry" => {
                        let r = call(|| m.entry(key(o.k).unwrap()));
                        let r = r.map(|x| {
                            let b = vec![matches!(x, Entry::Occupied(_)) as i64];
                            self.ent = Some(x);
                            b
                        });
                        self.put(e, r);
                    }
                    "begin" => {
                        let sp = self.special;
                        let r = call(|| match (o.kind.as_str(), sp) {
                            ("keys", Some(f)) => Some(f(m)),
                            _ => m.begin(&o.kind),
                        });
                        match r {
                            Ok(None) => {}
                            Ok(Some(c)) => { self.cur = vec![Some(c)]; self.put(e, Ok(vec![])); }
                            Err(x) => self.put(e, Err(x)),
                        }
                    }
                    _ => {}
                }
            }
        }
        let _ = n;
    }

    fn alive(&self) -> usize {
        self.maps.iter().filter(|p| !p.is_null()).count() + self.cur.iter().filter(|c| c.is_some()).count() + self.ent.is_some() as usize
    }

    fn run(s: &Session, special: Option<fn(&'static mut M) -> Box<dyn Cur<V>>>) -> (usize, bool, Vec<Event>) {
        let mut r: Run<K, V, M> = Run { maps: vec![], cur: vec![], ent: None, held: vec![], ev: vec![], special };
        let mut led = Ledger::new();
        for o in &s.ops {
            r.op(o);
            let alive = r.alive();
            led.after(&mut r.ev, &r.held, alive);
        }
        // put everything away
        for h in [1, 2] {
            r.op(&Op { op: "cdrop".into(), h, ..Op::default() });
            let alive = r.alive();
            led.after(&mut r.ev, &r.held, alive);
        }
        r.op(&Op { op: "edrop".into(), ..Op::default() });
        let alive = r.alive();
        led.after(&mut r.ev, &r.held, alive);
        for h in 0..r.maps.len() {
            r.op(&Op { op: "dropmap".into(), h, ..Op::default() });
            let alive = r.alive();
            led.after(&mut r.ev, &r.held, alive);
        }
        (K::ORDINAL_SIZE, V::TRACK, std::mem::take(&mut r.ev))
    }
}

macro_rules! dispatch {
    ($s:expr, $($name:literal => $k:ty),* $(,)?) => {
        match (&*$s.key, &*$s.subject, &*$s.val) {
            $(
                ($name, "OrdinalMap", "tok") => Run::<$k, tok::Tok, OrdinalMap<$k, tok::Tok>>::run($s, None),
                ($name, "OrdinalArrayMap", "tok") => Run::<$k, tok::Tok, OrdinalArrayMap<$k, tok::Tok, { <$k as Ordinal>::ORDINAL_SIZE }>>::run($s, None),
            )*
            ("e3", "OrdinalMap", "u32") => Run::<E<3>, u32, OrdinalMap<E<3>, u32>>::run($s, None),
            ("e3", "OrdinalArrayMap", "u32") => Run::<E<3>, u32, OrdinalArrayMap<E<3>, u32, 3>>::run($s, None),
            ("e3", "OrdinalMap", "wide") => Run::<E<3>, tok::Wide, OrdinalMap<E<3>, tok::Wide>>::run($s, None),
            ("e3", "OrdinalArrayMap", "wide") => Run::<E<3>, tok::Wide, OrdinalArrayMap<E<3>, tok::Wide, 3>>::run($s, None),
            ("e65", "OrdinalMap", "u32") => Run::<E<65>, u32, OrdinalMap<E<65>, u32>>::run($s, None),
            ("e65", "OrdinalArrayMap", "u32") => Run::<E<65>, u32, OrdinalArrayMap<E<65>, u32, 65>>::run($s, None),
            ("e65", "OrdinalMap", "wide") => Run::<E<65>, tok::Wide, OrdinalMap<E<65>, tok::Wide>>::run($s, None),
            ("e65", "OrdinalArrayMap", "wide") => Run::<E<65>, tok::Wide, OrdinalArrayMap<E<65>, tok::Wide, 65>>::run($s, None),
            ("e65", "OrdinalMap", "box") => Run::<E<65>, Box<i64>, OrdinalMap<E<65>, Box<i64>>>::run($s, None),
            ("e65", "OrdinalArrayMap", "box") => Run::<E<65>, Box<i64>, OrdinalArrayMap<E<65>, Box<i64>, 65>>::run($s, None),
            ("e130", "OrdinalMap", "u32") => Run::<E<130>, u32, OrdinalMap<E<130>, u32>>::run($s, None),
            ("e130", "OrdinalArrayMap", "u32") => Run::<E<130>, u32, OrdinalArrayMap<E<130>, u32, 130>>::run($s, None),
            ("e130", "OrdinalMap", "wide") => Run::<E<130>, tok::Wide, OrdinalMap<E<130>, tok::Wide>>::run($s, None),
            ("e130", "OrdinalArrayMap", "wide") => Run::<E<130>, tok::Wide, OrdinalArrayMap<E<130>, tok::Wide, 130>>::run($s, None),
            ("e130", "OrdinalMap", "box") => Run::<E<130>, Box<i64>, OrdinalMap<E<130>, Box<i64>>>::run($s, None),
            ("e130", "OrdinalArrayMap", "box") => Run::<E<130>, Box<i64>, OrdinalArrayMap<E<130>, Box<i64>, 130>>::run($s, None),
            ("e3", "OrdinalMap", "u8") => Run::<E<3>, u8, OrdinalMap<E<3>, u8>>::run($s, None),
            ("e3", "OrdinalArrayMap", "u8") => Run::<E<3>, u8, OrdinalArrayMap<E<3>, u8, 3>>::run($s, None),
            ("e3", "OrdinalMap", "box") => Run::<E<3>, Box<i64>, OrdinalMap<E<3>, Box<i64>>>::run($s, None),
            ("e3", "OrdinalArrayMap", "box") => Run::<E<3>, Box<i64>, OrdinalArrayMap<E<3>, Box<i64>, 3>>::run($s, None),
            ("e3", "OrdinalMap", "unit") => Run::<E<3>, (), OrdinalMap<E<3>, ()>>::run($s, Some(begin_special)),
            ("e3", "OrdinalArrayMap", "unit") => Run::<E<3>, (), OrdinalArrayMap<E<3>, (), 3>>::run($s, Some(begin_special_array)),
            ("e65", "OrdinalMap", "unit") => Run::<E<65>, (), OrdinalMap<E<65>, ()>>::run($s, Some(begin_special)),
            ("e65", "OrdinalArrayMap", "unit") => Run::<E<65>, (), OrdinalArrayMap<E<65>, (), 65>>::run($s, Some(begin_special_array)),
            ("u16", "OrdinalMap", "tok") => Run::<u16, tok::Tok, OrdinalMap<u16, tok::Tok>>::run($s, None),
            ("e1000000", "OrdinalMap", "tok") => Run::<E<1000000>, tok::Tok, OrdinalMap<E<1000000>, tok::Tok>>::run($s, None),
            (k, m, v) => panic!("no driver for {} {} {}", k, m, v),
        }
    };
}

fn run(s: &Session) -> (usize, bool, Vec<Event>) {
    dispatch!(s,
        "e0" => E<0>, "e1" => E<1>, "e2" => E<2>, "e3" => E<3>, "e4" => E<4>, "e5" => E<5>, "e8" => E<8>,
        "e64" => E<64>, "e65" => E<65>, "e130" => E<130>, "e300" => E<300>,
        "u8" => u8, "i8" => i8, "bool" => bool, "ordering" => std::cmp::Ordering,
        "never" => std::convert::Infallible, "unit" => (), "optbool" => Option<bool>,
        "res" => Result<bool, std::cmp::Ordering>, "pair" => (bool, std::cmp::Ordering),
        "arr" => [bool; 3], "nzi8" => std::num::NonZeroI8, "optu8" => Option<u8>,
        "shape" => Shape, "rec" => Rec,
        "h1" => H<1>, "h3" => H<3>, "h65" => H<65>, "hopt" => Option<H<3>>, "hpair" => (H<2>, H<3>), "harr" => [H<2>; 2], "hd" => Hd,
    )
}

fn main() {
    main_with(run)
}
