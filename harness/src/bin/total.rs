//! Driver for OrdinalTotalMap and OrdinalTotalArrayMap.
use harness::cursor::{show, Cur, Sink, Wr};
use harness::keys::*;
use harness::script::{clamp, main_with, Event, Ledger, Op, Session};
use harness::tok::{self, Val};
use harness::{call, inject};
use ordinal_map::map::total::{OrdinalTotalArrayMap, OrdinalTotalMap};
use ordinal_map::Ordinal;

fn ord<K: Ordinal>(k: &K) -> i64 {
    clamp(k.ordinal())
}

/// The API the two total maps share; the array map's extras are optional.
trait TMap<K: Key, V: Val>: Sized + Clone + std::fmt::Debug + 'static {
    fn new(f: &mut dyn FnMut(K) -> V) -> Self;
    fn try_new(f: &mut dyn FnMut(K) -> Result<V, i64>) -> Result<Self, i64>;
    fn default() -> Self;
    fn from_vals(_: Vec<V>) -> Option<Self> { None }
    fn get(&self, k: &K) -> &V;
    fn get_mut(&mut self, k: &K) -> &mut V;
    fn index(&self, k: &K) -> &V;
    fn index_mut(&mut self, k: &K) -> &mut V;
    fn insert(&mut self, k: K, v: V) -> V;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn begin(&'static mut self, kind: &str) -> Option<Box<dyn Cur<V>>>;
    fn into_cur(self) -> Box<dyn Cur<V>>;
    fn into_keys_cur(self) -> Box<dyn Cur<V>>;
    fn into_values(self) -> Vec<V>;
    const ARRAY: bool;
    fn values_array(&self) -> Vec<&V> { vec![] }
    fn values_array_mut(&mut self, _: &mut dyn FnMut(&mut V)) {}
    fn as_ref(&self, _: &mut dyn FnMut(i64, i64)) {}
    fn as_mut(&mut self, _: &mut dyn FnMut(i64, &mut V)) {}
    fn zip(self, _: Self, _: &mut dyn FnMut(i64, V, V)) {}
    fn map(self, _: &mut dyn FnMut(K, V) -> V) -> Self { unreachable!() }
    fn map_values(self, _: &mut dyn FnMut(V) -> V) -> Self { unreachable!() }
}

fn pr<K: Key, V: Val>(x: (K, &V), s: &mut Sink<V>) {
    s.ret.push(ord(&x.0));
    s.ret.push(x.1.id());
}
fn pm<K: Key, V: Val>(x: (K, &mut V), s: &mut Sink<V>) {
    s.ret.push(ord(&x.0));
    s.ret.push(x.1.id());
    s.maybe_write(x.1);
}
fn pk<K: Key, V: Val>(x: K, s: &mut Sink<V>) {
    s.ret.push(ord(&x));
}
fn pv<V: Val>(x: &V, s: &mut Sink<V>) {
    s.ret.push(x.id());
}
fn pvm<V: Val>(x: &mut V, s: &mut Sink<V>) {
    s.ret.push(x.id());
    s.maybe_write(x);
}
fn po<K: Key, V: Val>(x: (K, V), s: &mut Sink<V>) {
    s.ret.push(ord(&x.0));
    s.ret.push(x.1.id());
    s.held.push(x.1);
}

macro_rules! tmap {
    ([$($g:tt)*] $t:ty, $array:expr, { $($extra:tt)* }) => {
        impl<K: Key, V: Val, $($g)*> TMap<K, V> for $t {
            fn new(f: &mut dyn FnMut(K) -> V) -> Self { <$t>::new(|k| f(k)) }
            fn try_new(f: &mut dyn FnMut(K) -> Result<V, i64>) -> Result<Self, i64> { <$t>::try_new(|k| f(k)) }
            fn default() -> Self { <$t as Default>::default() }
            fn get(&self, k: &K) -> &V { <$t>::get(self, k) }
            fn get_mut(&mut self, k: &K) -> &mut V { <$t>::get_mut(self, k) }
            fn index(&self, k: &K) -> &V { &self[k] }
            fn index_mut(&mut self, k: &K) -> &mut V { &mut self[k] }
            fn insert(&mut self, k: K, v: V) -> V { <$t>::insert(self, k, v) }
            fn len(&self) -> usize { <$t>::len(self) }
            fn is_empty(&self) -> bool { <$t>::is_empty(self) }
            fn begin(&'static mut self, kind: &str) -> Option<Box<dyn Cur<V>>> {
                let ok = K::DBG && V::DBG;
                Some(match kind {
                    "iter" => Box::new(Wr { it: Some(self.iter()), proj: pr::<K, V>, len: Some(|i| i.len()), clone: Some(|i| i.clone()), dbg: if ok { Some(|i, a| show(i, a)) } else { None } }),
                    "ref" => Box::new(Wr { it: Some((&*self).into_iter()), proj: pr::<K, V>, len: Some(|i| i.len()), clone: Some(|i| i.clone()), dbg: if ok { Some(|i, a| show(i, a)) } else { None } }),
                    "iter_mut" => Box::new(Wr { it: Some(self.iter_mut()), proj: pm::<K, V>, len: Some(|i| i.len()), clone: None, dbg: if ok { Some(|i, a| show(i, a)) } else { None } }),
                    "keys" => Box::new(Wr { it: Some(self.keys()), proj: pk::<K, V>, len: Some(|i| i.len()), clone: Some(|i| i.clone()), dbg: None }),
                    "values" => Box::new(Wr { it: Some(self.values()), proj: pv::<V>, len: Some(|i| i.len()), clone: Some(|i| i.clone()), dbg: None }),
                    "values_mut" => Box::new(Wr { it: Some(self.values_mut()), proj: pvm::<V>, len: Some(|i| i.len()), clone: None, dbg: None }),
                    _ => return None,
                })
            }
            fn into_cur(self) -> Box<dyn Cur<V>> {
                let ok = K::DBG && V::DBG;
                Box::new(Wr { it: Some(self.into_iter()), proj: po::<K, V>, len: Some(|i| i.len()), clone: Some(|i| i.clone()), dbg: if ok { Some(|i, a| show(i, a)) } else { None } })
            }
            fn into_keys_cur(self) -> Box<dyn Cur<V>> {
                Box::new(Wr { it: Some(self.into_keys()), proj: pk::<K, V>, len: Some(|i| i.len()), clone: Some(|i| i.clone()), dbg: None })
            }
            const ARRAY: bool = $array;
            $($extra)*
        }
    };
}
tmap!([] OrdinalTotalMap<K, V>, false, {
    fn into_values(self) -> Vec<V> { <OrdinalTotalMap<K, V>>::into_values(self).into_vec() }
});
tmap!([const S: usize] OrdinalTotalArrayMap<K, V, S>, true, {
    fn into_values(self) -> Vec<V> { <OrdinalTotalArrayMap<K, V, S>>::into_values(self).into_iter().collect() }
    fn from_vals(v: Vec<V>) -> Option<Self> {
        let a: [V; S] = v.try_into().ok()?;
        Some(OrdinalTotalArrayMap::from_array(a))
    }
    fn values_array(&self) -> Vec<&V> { <OrdinalTotalArrayMap<K, V, S>>::values_array(self).iter().collect() }
    fn values_array_mut(&mut self, f: &mut dyn FnMut(&mut V)) { for v in <OrdinalTotalArrayMap<K, V, S>>::values_array_mut(self) { f(v) } }
    fn as_ref(&self, f: &mut dyn FnMut(i64, i64)) {
        let r: OrdinalTotalArrayMap<K, &V, S> = <OrdinalTotalArrayMap<K, V, S>>::as_ref(self);
        for (k, v) in r { f(ord(&k), v.id()) }
    }
    fn as_mut(&mut self, f: &mut dyn FnMut(i64, &mut V)) {
        let r: OrdinalTotalArrayMap<K, &mut V, S> = <OrdinalTotalArrayMap<K, V, S>>::as_mut(self);
        for (k, v) in r { f(ord(&k), v) }
    }
    fn zip(self, o: Self, f: &mut dyn FnMut(i64, V, V)) {
        let z: OrdinalTotalArrayMap<K, (V, V), S> = <OrdinalTotalArrayMap<K, V, S>>::zip(self, o);
        for (k, (a, b)) in z { f(ord(&k), a, b) }
    }
    fn map(self, f: &mut dyn FnMut(K, V) -> V) -> Self { <OrdinalTotalArrayMap<K, V, S>>::map(self, |k, v| f(k, v)) }
    fn map_values(self, f: &mut dyn FnMut(V) -> V) -> Self { <OrdinalTotalArrayMap<K, V, S>>::map_values(self, |v| f(v)) }
});

struct Run<K: Key, V: Val, M: TMap<K, V>> {
    maps: Vec<*mut M>,
    cur: Vec<Option<Box<dyn Cur<V>>>>,
    held: Vec<V>,
    ev: Vec<Event>,
    _k: std::marker::PhantomData<K>,
}

fn nid<V: Val>() -> i64 {
    if V::UNIT { 0 } else { tok::fresh() }
}

impl<K: Key, V: Val, M: TMap<K, V>> Run<K, V, M> {
    fn m(&self, h: usize) -> Option<&'static mut M> {
        let p = *self.maps.get(h)?;
        if p.is_null() { None } else { Some(unsafe { &mut *p }) }
    }
    fn take(&mut self, h: usize) -> M {
        let p = std::mem::replace(&mut self.maps[h], std::ptr::null_mut());
        unsafe { *Box::from_raw(p) }
    }
    fn set(&mut self, h: usize, m: M) {
        while self.maps.len() <= h {
            self.maps.push(std::ptr::null_mut());
        }
        assert!(self.maps[h].is_null());
        self.maps[h] = Box::into_raw(Box::new(m));
    }
    fn free(&self, h: usize) -> bool {
        self.maps.get(h).map_or(true, |p| p.is_null())
    }
    fn put(&mut self, mut e: Event, r: Result<Vec<i64>, i64>) {
        match r {
            Ok(v) => e.ret = v,
            Err(x) => e.ret.push(x),
        }
        e.drops = tok::take_drops();
        let cl = tok::take_clones();
        if V::TRACK && !cl.is_empty() {
            e.xs = cl.iter().map(|p| p.0).collect();
            e.vs = cl.iter().map(|p| p.1).collect();
        }
        self.ev.push(e);
    }

    fn op(&mut self, o: &Op) {
        if o.op == "noise" {
            noise(o.k, o.j);
            return;
        }
        let mut e = Event::of(o);
        let n = K::ORDINAL_SIZE;
        let key = |k: i64| -> Option<K> { if k < 0 { None } else { K::from_ordinal(k as usize) } };
        if matches!(o.op.as_str(), "insert" | "get" | "getmut" | "index" | "indexmut") && key(o.k).is_none() {
            return;
        }
        let has_cur = o.h >= 1 && o.h <= self.cur.len() && self.cur[o.h - 1].is_some();
        if has_cur && o.op != "cclone" {
            let mut c = self.cur[o.h - 1].take().unwrap();
            let mut sink = Sink::new(o.w != 0 && !V::UNIT);
            match c.step(o, &mut e, &mut sink) {
                None => self.cur[o.h - 1] = Some(c),
                Some(keep) => {
                    if keep {
                        self.cur[o.h - 1] = Some(c);
                    }
                    if self.cur.iter().all(|c| c.is_none()) {
                        self.cur.clear();
                    }
                    e.vs = sink.wrote.clone();
                    self.put(e, Ok(sink.ret));
                    self.held.extend(sink.held);
                }
            }
            return;
        }
        if o.op == "cclone" {
            if self.cur.len() != 1 || o.h != 1 { return; }
            match self.cur[0].as_ref().and_then(|c| c.try_clone()) {
                None => {}
                Some(Ok(c)) => {
                    self.cur.push(Some(c));
                    self.put(e, Ok(vec![]));
                }
                Some(Err(x)) => self.put(e, Err(x)),
            }
            return;
        }
        if !self.cur.is_empty() {
            return;
        }
        match o.op.as_str() {
            "new" | "newe" | "newp" if self.free(o.h) => {
                let fail = if o.op == "new" { 0 } else { o.k };
                let mut keys = vec![];
                let mut ids = vec![];
                let r: Result<Result<M, i64>, i64> = if o.op == "new" && o.j == 0 || o.op == "newp" && o.j == 0 {
                    call(|| Ok(M::new(&mut |k| {
                        keys.push(ord(&k));
                        if keys.len() as i64 == fail { inject() }
                        let id = nid::<V>();
                        ids.push(id);
                        V::mk(id)
                    })))
                } else {
                    call(|| M::try_new(&mut |k| {
                        keys.push(ord(&k));
                        if keys.len() as i64 == fail {
                            if o.op == "newp" { inject() }
                            return Err(keys.len() as i64);
                        }
                        let id = nid::<V>();
                        ids.push(id);
                        Ok(V::mk(id))
                    }))
                };
                e.vs = ids;
                match r {
                    Ok(Ok(m)) => {
                        e.op = "new".into();
                        e.k = 0;
                        self.set(o.h, m);
                    }
                    Ok(Err(x)) => keys.extend([-2, x]),
                    Err(x) => keys.push(x),
                }
                self.put(e, Ok(keys));
            }
            "fromvals" if self.free(o.h) => {
                if o.j == 0 {
                    let r = call(|| M::default());
                    // (plain values have one default)
                    e.vs = if V::TRACK { tok::take_defaults() } else { vec![V::default().id(); n] };
                    let r = r.map(|m| { self.set(o.h, m); vec![] });
                    self.put(e, r);
                } else if M::ARRAY {
                    let ids: Vec<i64> = (0..n).map(|_| nid::<V>()).collect();
                    e.vs = ids.clone();
                    let vals: Vec<V> = ids.into_iter().map(V::mk).collect();
                    let r = call(|| M::from_vals(vals).unwrap());
                    let r = r.map(|m| { self.set(o.h, m); vec![] });
                    self.put(e, r);
                }
            }
            "clone" | "clonep" if self.m(o.h).is_some() && self.free(o.j as usize) => {
                let m = self.m(o.h).unwrap();
                if o.op == "clonep" {
                    if !V::TRACK { return; }
                    tok::arm_clone_fuse(o.k);
                }
                let r = call(|| (*m).clone());
                tok::arm_clone_fuse(0);
                let r = r.map(|c| { self.set(o.j as usize, c); e.op = "clone".into(); e.k = 0; vec![] });
                self.put(e, r);
            }
            "clonefrom" if o.h == o.j as usize => {}
            "clonefrom" => if let (Some(a), Some(b)) = (self.m(o.h), self.m(o.j as usize)) {
                let r = call(|| { b.clone_from(a); vec![] });
                self.put(e, r);
            },
            "begin" if o.kind == "into" || o.kind == "into_keys" => if self.m(o.h).is_some() {
                let m = self.take(o.h);
                let r = call(|| if o.kind == "into" { m.into_cur() } else { m.into_keys_cur() });
                let r = r.map(|c| { self.cur = vec![Some(c)]; vec![] });
                self.put(e, r);
            },
            "zip" => if M::ARRAY && self.m(o.h).is_some() && self.m(o.j as usize).is_some() && o.h != o.j as usize {
                let (a, b) = (self.take(o.h), self.take(o.j as usize));
                let mut ret = vec![];
                let mut held = vec![];
                let r = call(|| a.zip(b, &mut |k, x, y| {
                    ret.extend([k, x.id(), y.id()]);
                    held.push(x);
                    held.push(y);
                }));
                if let Err(x) = r { ret.push(x) }
                self.put(e, Ok(ret));
                self.held.extend(held);
            },
            "map" | "mapvalues" | "mapp" | "mapvaluesp" => if M::ARRAY && self.m(o.h).is_some() {
                let m = self.take(o.h);
                let mut ret = vec![];
                let mut held = vec![];
                let mut ids = vec![];
                let mut calls = 0;
                let fail = if o.op.ends_with('p') { o.k } else { 0 };
                let by_value = o.op.starts_with("mapvalues");
                let mut f = |k: Option<K>, v: V| {
                    if let Some(k) = k { ret.push(ord(&k)) }
                    ret.push(v.id());
                    held.push(v);
                    calls += 1;
                    if calls == fail { inject() }
                    let id = nid::<V>();
                    ids.push(id);
                    V::mk(id)
                };
                let r = call(|| if by_value { m.map_values(&mut |v| f(None, v)) } else { m.map(&mut |k, v| f(Some(k), v)) });
                e.vs = ids;
                match r {
                    Ok(m) => {
                        if fail > 0 { e.op.pop(); e.k = 0; }
                        self.set(o.h, m);
                    }
                    Err(x) => ret.push(x),
                }
                self.put(e, Ok(ret));
                self.held.extend(held);
            },
            _ => {
                let Some(m) = self.m(o.h) else { return };
                match o.op.as_str() {
                    "dropmap" => {
                        let b = self.take(o.h);
                        let r = call(|| { drop(b); vec![] });
                        self.put(e, r);
                    }
                    "intovalues" => {
                        let b = self.take(o.h);
                        let r = call(|| b.into_values());
                        let r = r.map(|v| {
                            let ids = v.iter().map(|x| x.id()).collect();
                            self.held.extend(v);
                            ids
                        });
                        self.put(e, r);
                    }
                    "insert" => {
                        let id = nid::<V>();
                        e.v = id;
                        let v = V::mk(id);
                        let r = call(|| m.insert(key(o.k).unwrap(), v));
                        let r = r.map(|x| { let id = x.id(); self.held.push(x); vec![id] });
                        self.put(e, r);
                    }
                    "peek" => {
                        let r = call(|| {
                            let mut v = vec![];
                            for i in 0..K::ORDINAL_SIZE {
                                v.extend([clamp(i), m.get(&K::from_ordinal(i).unwrap()).id()]);
                            }
                            v
                        });
                        self.put(e, r);
                    }
                    "get" => {
                        let r = call(|| vec![m.get(&key(o.k).unwrap()).id()]);
                        self.put(e, r);
                    }
                    "index" => {
                        let r = call(|| vec![m.index(&key(o.k).unwrap()).id()]);
                        self.put(e, r);
                    }
                    "getmut" | "indexmut" => {
                        let w = if o.w != 0 && !V::UNIT { let id = nid::<V>(); e.w = id; Some(V::mk(id)) } else { None };
                        let r = call(|| {
                            let k = key(o.k).unwrap();
                            let x = if o.op == "getmut" { m.get_mut(&k) } else { m.index_mut(&k) };
                            let id = x.id();
                            (vec![id], w.map(|w| std::mem::replace(x, w)))
                        });
                        let r = r.map(|(v, old)| { self.held.extend(old); v });
                        self.put(e, r);
                    }
                    "len" => {
                        let r = call(|| vec![clamp(m.len())]);
                        self.put(e, r);
                    }
                    "isempty" => {
                        let r = call(|| vec![m.is_empty() as i64]);
                        self.put(e, r);
                    }
                    "dbg" => if K::DBG && V::DBG {
                        let r = call(|| show(&*m, o.j != 0)).map(|s| { e.dbg = s; vec![] });
                        self.put(e, r);
                    },
                    "valarr" => if M::ARRAY {
                        let r = call(|| m.values_array().iter().map(|v| v.id()).collect());
                        self.put(e, r);
                    },
                    "asref" => if M::ARRAY {
                        let mut ret = vec![];
                        let r = call(|| m.as_ref(&mut |k, v| ret.extend([k, v])));
                        if let Err(x) = r { ret.push(x) }
                        self.put(e, Ok(ret));
                    },
                    "valarrmut" | "asmut" => if M::ARRAY {
                        let mut sink: Sink<V> = Sink::new(o.w != 0 && !V::UNIT);
                        let r = call(|| if o.op == "asmut" {
                            m.as_mut(&mut |k, v| { sink.ret.push(k); sink.ret.push(v.id()); sink.maybe_write(v) })
                        } else {
                            m.values_array_mut(&mut |v| { sink.ret.push(v.id()); sink.maybe_write(v) })
                        });
                        if let Err(x) = r { sink.ret.push(x) }
                        e.vs = sink.wrote.clone();
                        self.put(e, Ok(sink.ret));
                        self.held.extend(sink.held);
                    },
                    "begin" => {
                        let r = call(|| m.begin(&o.kind));
                        match r {
                            Ok(None) => {}
                            Ok(Some(c)) => { self.cur = vec![Some(c)]; self.put(e, Ok(vec![])); }
                            Err(x) => self.put(e, Err(x)),
                        }
                    }
                    _ => {}
                }
            }
        }
    }

    fn alive(&self) -> usize {
        self.maps.iter().filter(|p| !p.is_null()).count() + self.cur.iter().filter(|c| c.is_some()).count()
    }

    fn run(s: &Session) -> (usize, bool, Vec<Event>) {
        let mut r: Run<K, V, M> = Run { maps: vec![], cur: vec![], held: vec![], ev: vec![], _k: std::marker::PhantomData };
        let mut led = Ledger::new();
        for o in &s.ops {
            r.op(o);
            let alive = r.alive();
            led.after(&mut r.ev, &r.held, alive);
        }
        for h in [1, 2] {
            if r.cur.len() >= h && r.cur[h - 1].is_some() {
                r.op(&Op { op: "cdrop".into(), h, ..Op::default() });
                let alive = r.alive();
                led.after(&mut r.ev, &r.held, alive);
            }
        }
        for h in 0..r.maps.len() {
            r.op(&Op { op: "dropmap".into(), h, ..Op::default() });
            let alive = r.alive();
            led.after(&mut r.ev, &r.held, alive);
        }
        (K::ORDINAL_SIZE, V::TRACK, std::mem::take(&mut r.ev))
    }
}

macro_rules! dispatch {
    ($s:expr, $($name:literal => $k:ty),* $(,)?) => {
        match (&*$s.key, &*$s.subject, &*$s.val) {
            $(
                ($name, "OrdinalTotalMap", "tok") => Run::<$k, tok::Tok, OrdinalTotalMap<$k, tok::Tok>>::run($s),
                ($name, "OrdinalTotalArrayMap", "tok") => Run::<$k, tok::Tok, OrdinalTotalArrayMap<$k, tok::Tok, { <$k as Ordinal>::ORDINAL_SIZE }>>::run($s),
            )*
            ("e3", "OrdinalTotalMap", "u32") => Run::<E<3>, u32, OrdinalTotalMap<E<3>, u32>>::run($s),
            ("e3", "OrdinalTotalArrayMap", "u32") => Run::<E<3>, u32, OrdinalTotalArrayMap<E<3>, u32, 3>>::run($s),
            ("e3", "OrdinalTotalMap", "wide") => Run::<E<3>, tok::Wide, OrdinalTotalMap<E<3>, tok::Wide>>::run($s),
            ("e3", "OrdinalTotalArrayMap", "wide") => Run::<E<3>, tok::Wide, OrdinalTotalArrayMap<E<3>, tok::Wide, 3>>::run($s),
            ("e65", "OrdinalTotalMap", "u32") => Run::<E<65>, u32, OrdinalTotalMap<E<65>, u32>>::run($s),
            ("e65", "OrdinalTotalArrayMap", "u32") => Run::<E<65>, u32, OrdinalTotalArrayMap<E<65>, u32, 65>>::run($s),
            ("e65", "OrdinalTotalMap", "wide") => Run::<E<65>, tok::Wide, OrdinalTotalMap<E<65>, tok::Wide>>::run($s),
            ("e65", "OrdinalTotalArrayMap", "wide") => Run::<E<65>, tok::Wide, OrdinalTotalArrayMap<E<65>, tok::Wide, 65>>::run($s),
            ("e65", "OrdinalTotalMap", "box") => Run::<E<65>, Box<i64>, OrdinalTotalMap<E<65>, Box<i64>>>::run($s),
            ("e65", "OrdinalTotalArrayMap", "box") => Run::<E<65>, Box<i64>, OrdinalTotalArrayMap<E<65>, Box<i64>, 65>>::run($s),
            ("e130", "OrdinalTotalMap", "u32") => Run::<E<130>, u32, OrdinalTotalMap<E<130>, u32>>::run($s),
            ("e130", "OrdinalTotalArrayMap", "u32") => Run::<E<130>, u32, OrdinalTotalArrayMap<E<130>, u32, 130>>::run($s),
            ("e130", "OrdinalTotalMap", "wide") => Run::<E<130>, tok::Wide, OrdinalTotalMap<E<130>, tok::Wide>>::run($s),
            ("e130", "OrdinalTotalArrayMap", "wide") => Run::<E<130>, tok::Wide, OrdinalTotalArrayMap<E<130>, tok::Wide, 130>>::run($s),
            ("e130", "OrdinalTotalMap", "box") => Run::<E<130>, Box<i64>, OrdinalTotalMap<E<130>, Box<i64>>>::run($s),
            ("e130", "OrdinalTotalArrayMap", "box") => Run::<E<130>, Box<i64>, OrdinalTotalArrayMap<E<130>, Box<i64>, 130>>::run($s),
            ("e3", "OrdinalTotalMap", "u8") => Run::<E<3>, u8, OrdinalTotalMap<E<3>, u8>>::run($s),
            ("e3", "OrdinalTotalArrayMap", "u8") => Run::<E<3>, u8, OrdinalTotalArrayMap<E<3>, u8, 3>>::run($s),
            ("e3", "OrdinalTotalMap", "box") => Run::<E<3>, Box<i64>, OrdinalTotalMap<E<3>, Box<i64>>>::run($s),
            ("e3", "OrdinalTotalArrayMap", "box") => Run::<E<3>, Box<i64>, OrdinalTotalArrayMap<E<3>, Box<i64>, 3>>::run($s),
            ("e3", "OrdinalTotalMap", "unit") => Run::<E<3>, (), OrdinalTotalMap<E<3>, ()>>::run($s),
            ("e3", "OrdinalTotalArrayMap", "unit") => Run::<E<3>, (), OrdinalTotalArrayMap<E<3>, (), 3>>::run($s),
            (k, m, v) => panic!("no driver for {} {} {}", k, m, v),
        }
    };
}

fn run(s: &Session) -> (usize, bool, Vec<Event>) {
    dispatch!(s,
        "e0" => E<0>, "e1" => E<1>, "e2" => E<2>, "e3" => E<3>, "e4" => E<4>, "e5" => E<5>, "e8" => E<8>,
        "e64" => E<64>, "e65" => E<65>, "e130" => E<130>, "e300" => E<300>,
        "u8" => u8, "i8" => i8, "bool" => bool, "ordering" => std::cmp::Ordering,
        "never" => std::convert::Infallible, "unit" => (), "optbool" => Option<bool>,
        "res" => Result<bool, std::cmp::Ordering>, "pair" => (bool, std::cmp::Ordering),
        "arr" => [bool; 3], "nzi8" => std::num::NonZeroI8, "optu8" => Option<u8>,
        "shape" => Shape, "rec" => Rec,
        "h1" => H<1>, "h3" => H<3>, "h65" => H<65>, "hopt" => Option<H<3>>, "hpair" => (H<2>, H<3>), "harr" => [H<2>; 2], "hd" => Hd,
    )
}

fn main() {
    main_with(run)
}
