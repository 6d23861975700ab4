//! How much memory, how many allocations and how many questions to the key
//! type each call takes.
use harness::script::{clamp, json_str, read_sessions, tick, watch, Op};
use ordinal_map::map::total::{OrdinalTotalArrayMap, OrdinalTotalMap};
use ordinal_map::map::{Entry, OrdinalArrayMap, OrdinalMap};
use ordinal_map::set::{ordinal_array_set_s, OrdinalArraySet, OrdinalSet, OrdinalSet64};
use ordinal_map::{AtomicOrdinal, Ordinal};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::hint::black_box;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;
use std::time::Instant;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<i64> = const { Cell::new(0) };
    static NET: Cell<i64> = const { Cell::new(0) };
    static ASKED: Cell<i64> = const { Cell::new(0) };
}
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.with(|c| c.get()) {
            COUNT.with(|c| c.set(c.get() + 1));
            NET.with(|c| c.set(c.get() + l.size() as i64));
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.with(|c| c.get()) {
            NET.with(|c| c.set(c.get() - l.size() as i64));
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

/// A key type that counts how often it is asked.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Q<const N: usize>(usize);
impl<const N: usize> Ordinal for Q<N> {
    const ORDINAL_SIZE: usize = N;
    #[inline]
    fn ordinal(&self) -> usize {
        ASKED.with(|c| c.set(c.get() + 1));
        self.0
    }
    #[inline]
    fn from_ordinal(o: usize) -> Option<Self> {
        ASKED.with(|c| c.set(c.get() + 1));
        if o < N { Some(Q(o)) } else { None }
    }
}

trait Obj<const N: usize>: Sized {
    fn make(o: &Op) -> Option<Self>;
    /// None = no such call
    fn op(&mut self, o: &Op) -> Option<()>;
    fn copy(&self) -> Self;
    fn copy_from(&mut self, other: &Self);
    fn consume(self, o: &Op);
    fn sizes() -> (usize, usize) {
        (0, 0)
    }
}
fn pairs<const N: usize, V: Copy + Default>(o: &Op) -> impl Iterator<Item = (Q<N>, V)> + '_ {
    o.xs.iter().map(|k| (Q(*k as usize), V::default()))
}
fn ends<I: DoubleEndedIterator>(mut i: I, j: i64) {
    if j == 0 {
        i.for_each(|x| drop(black_box(x)))
    } else {
        while let Some(x) = i.next_back() {
            black_box(&x);
            drop(i.next());
            let _ = black_box(i.size_hint());
        }
    }
}
macro_rules! sparse {
    ($t:ty, $retain:expr) => {
        fn make(o: &Op) -> Option<Self> {
            Some(match o.op.as_str() {
                "fromiter" => pairs(o).collect(),
                _ => if o.j == 0 { <$t>::new() } else { <$t>::default() },
            })
        }
        fn op(&mut self, o: &Op) -> Option<()> {
            let m = self;
            let k = Q::<N>(o.k as usize);
            let keyed = matches!(o.op.as_str(), "insert" | "get" | "getmut" | "has" | "remove" | "entry");
            if keyed && k.0 >= N { return None; }
            match o.op.as_str() {
                "insert" => { black_box(m.insert(k, V::default())); }
                "get" => { black_box(m.get(&k)); }
                "getmut" => { black_box(m.get_mut(&k)); }
                "has" => { black_box(m.contains_key(&k)); }
                "remove" => { black_box(m.remove(&k)); }
                "entry" => match o.j {
                    0 => { drop(m.entry(k)) }
                    1 => if let Entry::Vacant(e) = m.entry(k) { e.insert(V::default()) },
                    _ => { black_box(m.entry(k).or_insert(V::default())); }
                },
                "len" => { black_box((m.len(), m.is_empty())); }
                "iter" => ends(m.iter(), o.j),
                "iter_mut" => ends(m.iter_mut(), o.j),
                "keys" => ends(m.keys(), o.j),
                "values" => ends(m.values(), o.j),
                "values_mut" => ends(m.values_mut(), o.j),
                "clear" => m.clear(),
                "drain" => ends(m.drain(), o.j),
                "retain" => $retain(m, o.j)?,
                _ => return None,
            }
            Some(())
        }
        fn copy(&self) -> Self { self.clone() }
        fn copy_from(&mut self, other: &Self) { self.clone_from(other) }
        fn consume(self, o: &Op) {
            match o.op.as_str() {
                "into" => ends(self.into_iter(), o.j),
                _ => drop(self),
            }
        }
        fn sizes() -> (usize, usize) {
            (std::mem::size_of::<V>(), std::mem::size_of::<Option<V>>())
        }
    };
}
impl<const N: usize, V: Copy + Default> Obj<N> for OrdinalMap<Q<N>, V> {
    sparse!(OrdinalMap<Q<N>, V>, |_m: &mut Self, _j| -> Option<()> { None });
}
impl<const N: usize, V: Copy + Default> Obj<N> for OrdinalArrayMap<Q<N>, V, N> {
    sparse!(OrdinalArrayMap<Q<N>, V, N>, |m: &mut Self, j: i64| -> Option<()> { m.retain(|k, _| k.0 as i64 % 3 == j); Some(()) });
}
macro_rules! total {
    ($t:ty, $more:expr) => {
        fn make(o: &Op) -> Option<Self> {
            match o.op.as_str() {
                "new" => Some(if o.j == 0 { <$t>::new(|_| V::default()) } else { <$t>::default() }),
                "trynew" => <$t>::try_new(|k| if k.0 as i64 == o.k { Err(()) } else { Ok(V::default()) }).ok(),
                _ => Some(<$t>::default()),
            }
        }
        fn op(&mut self, o: &Op) -> Option<()> {
            let m = self;
            let k = Q::<N>(o.k as usize);
            let keyed = matches!(o.op.as_str(), "insert" | "get" | "getmut" | "index");
            if keyed && k.0 >= N { return None; }
            match o.op.as_str() {
                "insert" => { black_box(m.insert(k, V::default())); }
                "get" => { black_box(m.get(&k)); }
                "getmut" => { black_box(m.get_mut(&k)); }
                "index" => { black_box(&m[&k]); m[&k] = V::default(); }
                "len" => { black_box((m.len(), m.is_empty())); }
                "iter" => ends(m.iter(), o.j),
                "iter_mut" => ends(m.iter_mut(), o.j),
                "keys" => ends(m.keys(), o.j),
                "values" => ends(m.values(), o.j),
                "values_mut" => ends(m.values_mut(), o.j),
                _ => return $more(m, o),
            }
            Some(())
        }
        fn copy(&self) -> Self { self.clone() }
        fn copy_from(&mut self, other: &Self) { self.clone_from(other) }
        fn consume(self, o: &Op) {
            match o.op.as_str() {
                "into" => ends(self.into_iter(), o.j),
                "intokeys" => ends(self.into_keys(), o.j),
                "intovalues" => drop(black_box(self.into_values())),
                _ => drop(self),
            }
        }
        fn sizes() -> (usize, usize) {
            (std::mem::size_of::<V>(), std::mem::size_of::<Option<V>>())
        }
    };
}
impl<const N: usize, V: Copy + Default> Obj<N> for OrdinalTotalMap<Q<N>, V> {
    total!(OrdinalTotalMap<Q<N>, V>, |_m: &mut Self, _o: &Op| -> Option<()> { None });
}
impl<const N: usize, V: Copy + Default> Obj<N> for OrdinalTotalArrayMap<Q<N>, V, N> {
    total!(OrdinalTotalArrayMap<Q<N>, V, N>, |m: &mut Self, o: &Op| -> Option<()> {
        match o.op.as_str() {
            "valarr" => { black_box(m.values_array()); black_box(m.values_array_mut()); }
            "asref" => { black_box(m.as_ref()); black_box(m.as_mut()); }
            "map" => { black_box(m.clone().map(|_, v| (v, 1u8))); black_box(m.clone().map_values(|v| Some(v))); }
            "zip" => { black_box(m.clone().zip(m.clone())); }
            _ => return None,
        }
        Some(())
    });
}
macro_rules! set {
    ($t:ty, $all:expr, $iter:expr) => {
        fn make(o: &Op) -> Option<Self> {
            match o.op.as_str() {
                "fromiter" => Some(o.xs.iter().map(|k| Q::<N>(*k as usize)).collect()),
                "all" => $all,
                _ => Some(if o.j == 0 { <$t>::new() } else { <$t>::default() }),
            }
        }
        fn op(&mut self, o: &Op) -> Option<()> {
            let m = self;
            let k = Q::<N>(o.k as usize);
            match o.op.as_str() {
                "insert" if k.0 < N => { black_box(m.insert(k)); }
                "has" if k.0 < N => { black_box(m.contains(&k)); }
                "iter" => return $iter(m, o.j),
                _ => return None,
            }
            Some(())
        }
        fn copy(&self) -> Self { self.clone() }
        fn copy_from(&mut self, other: &Self) { self.clone_from(other) }
        fn consume(self, _: &Op) { drop(self) }
    };
}
impl<const N: usize> Obj<N> for OrdinalSet<Q<N>> {
    set!(OrdinalSet<Q<N>>, None, |m: &mut Self, j| -> Option<()> { ends(m.iter(), j); Some(()) });
}
impl<const N: usize> Obj<N> for OrdinalSet64<Q<N>> {
    set!(OrdinalSet64<Q<N>>, Some(OrdinalSet64::all()), |m: &mut Self, j| -> Option<()> { ends(m.iter(), j); Some(()) });
}
impl<const N: usize, const S: usize> Obj<N> for OrdinalArraySet<Q<N>, S> {
    set!(OrdinalArraySet<Q<N>, S>, None, |_: &mut Self, _| -> Option<()> { None });
}
impl<const N: usize> Obj<N> for AtomicOrdinal<Q<N>> {
    fn make(o: &Op) -> Option<Self> {
        if o.op == "new" && N > 0 { Some(AtomicOrdinal::new(Q(0))) } else { None }
    }
    fn op(&mut self, o: &Op) -> Option<()> {
        let k = Q::<N>(o.k as usize % N);
        match o.op.as_str() {
            "get" => { black_box(self.load(SeqCst)); }
            "insert" => self.store(k, SeqCst),
            "has" => { let _ = black_box(self.compare_exchange(k, Q(0), SeqCst, SeqCst)); }
            _ => return None,
        }
        Some(())
    }
    fn copy(&self) -> Self { AtomicOrdinal::new(self.load(SeqCst)) }
    fn copy_from(&mut self, other: &Self) { *self = other.copy() }
    fn consume(self, _: &Op) {}
}

struct Cost {
    panicked: bool,
    count: i64,
    net: i64,
    asked: i64,
}
fn measured<R>(f: impl FnOnce() -> R) -> (Option<R>, Cost) {
    COUNT.with(|c| c.set(0));
    NET.with(|c| c.set(0));
    ASKED.with(|c| c.set(0));
    ON.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    ON.with(|c| c.set(false));
    let cost = Cost { panicked: r.is_err(), count: COUNT.with(|c| c.get()), net: NET.with(|c| c.get()), asked: ASKED.with(|c| c.get()) };
    (r.ok(), cost)
}

fn session<const N: usize, M: Obj<N>>(ops: &[Op]) -> (usize, (usize, usize), Vec<String>) {
    let mut m: [Option<M>; 3] = [None, None, None];
    let mut ev = vec![];
    let last: Vec<Op> = (1..3).map(|h| Op { op: "dropmap".into(), h, ..Op::default() }).collect();
    for o in ops.iter().chain(&last) {
        if o.h < 1 || o.h > 2 || o.xs.iter().any(|k| *k as usize >= N) { continue; }
        let there = m[o.h].is_some();
        let mut made = 0;
        let cost = match o.op.as_str() {
            "new" | "fromiter" | "all" | "trynew" => {
                if there { continue; }
                let (r, c) = measured(|| M::make(o));
                let r = r.flatten();
                if o.op != "trynew" && r.is_none() && !c.panicked { continue; }
                made = r.is_some() as i64;
                m[o.h] = r;
                c
            }
            "into" | "intokeys" | "intovalues" | "dropmap" => {
                if !there { continue; }
                let x = m[o.h].take().unwrap();
                measured(|| x.consume(o)).1
            }
            "clone" => {
                if !there || m[3 - o.h].is_some() { continue; }
                let x = m[o.h].as_ref().unwrap();
                let (r, c) = measured(|| x.copy());
                made = r.is_some() as i64;
                m[3 - o.h] = r;
                c
            }
            "clonefrom" => {
                if !there || m[3 - o.h].is_none() { continue; }
                let mut y = m[3 - o.h].take().unwrap();
                let x = m[o.h].as_ref().unwrap();
                let c = measured(|| y.copy_from(x)).1;
                m[3 - o.h] = Some(y);
                c
            }
            _ => {
                if !there { continue; }
                let x = m[o.h].as_mut().unwrap();
                let (r, c) = measured(|| x.op(o));
                if r == Some(None) { continue; }
                c
            }
        };
        ev.push(format!("{{\"op\":{},\"h\":{},\"k\":{},\"j\":{},\"items\":{},\"made\":{},\"panicked\":{},\"count\":{},\"net\":{},\"asked\":{}}}",
            json_str(&o.op), o.h, o.k, o.j, o.xs.len(), made, cost.panicked, cost.count, cost.net, cost.asked));
    }
    (N, M::sizes(), ev)
}

/// Nanoseconds per call: the fastest of a few batches.
fn pace(mut f: impl FnMut(usize)) -> i64 {
    let mut best = i64::MAX;
    for b in 0..7 {
        let t = Instant::now();
        let mut x: usize = 12345 + b;
        let mut calls = 0;
        while calls < 400 && (calls % 16 != 0 || t.elapsed().as_millis() < 20) {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            f(x >> 20);
            calls += 1;
        }
        best = best.min(t.elapsed().as_nanos() as i64 / calls);
    }
    best
}
fn times<const N: usize, M: Obj<N>>(calls: &[&str], out: &mut Vec<(String, i64)>, fill: bool) {
    let Some(m) = M::make(&Op { op: "new".into(), ..Op::default() }) else { return };
    let mut m = Box::new(m);
    m.op(&Op { op: "insert".into(), k: N as i64 - 1, ..Op::default() });
    if fill {
        // (occupied slots all over)
        for k in (0..N).step_by((N / 1000).max(1)) { m.op(&Op { op: "insert".into(), k: k as i64, ..Op::default() }); }
    }
    for c in calls {
        let mut o = Op { op: c.to_string(), j: 2, ..Op::default() };
        out.push((c.to_string(), pace(|k| { o.k = (k % N) as i64; black_box(m.op(&o)); })));
    }
}

const SPARSE: &[&str] = &["insert", "get", "getmut", "has", "remove", "entry"];
const TOTAL: &[&str] = &["insert", "get", "getmut", "index"];
const SETS: &[&str] = &["insert", "has"];
const BIG: usize = 1 << 22;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    if args[1] == "times" {
        // large arrays live on the stack of this thread
        let r = std::thread::Builder::new().stack_size(2 << 30).spawn(|| {
            let mut all = vec![];
            macro_rules! both {
                ($name:literal, $calls:expr, $small:ty, $ns:expr, $large:ty, $nl:expr) => {
                    for fill in [false, true] {
                        let (mut a, mut b) = (vec![], vec![]);
                        times::<{ $ns }, $small>($calls, &mut a, fill);
                        times::<{ $nl }, $large>($calls, &mut b, fill);
                        for ((c, s), (_, l)) in a.into_iter().zip(b) { all.push(($name, c, s, l)); }
                    }
                };
            }
            both!("OrdinalMap", SPARSE, OrdinalMap<Q<16>, u8>, 16, OrdinalMap<Q<BIG>, u8>, BIG);
            both!("OrdinalArrayMap", SPARSE, OrdinalArrayMap<Q<16>, u8, 16>, 16, OrdinalArrayMap<Q<BIG>, u8, BIG>, BIG);
            both!("OrdinalTotalMap", TOTAL, OrdinalTotalMap<Q<16>, u8>, 16, OrdinalTotalMap<Q<BIG>, u8>, BIG);
            both!("OrdinalTotalArrayMap", TOTAL, OrdinalTotalArrayMap<Q<16>, u8, 16>, 16, OrdinalTotalArrayMap<Q<BIG>, u8, BIG>, BIG);
            both!("OrdinalSet", SETS, OrdinalSet<Q<16>>, 16, OrdinalSet<Q<{ 1 << 28 }>>, 1 << 28);
            both!("OrdinalArraySet", SETS, OrdinalArraySet<Q<16>, 1>, 16, OrdinalArraySet<Q<{ 1 << 26 }>, { 1 << 20 }>, 1 << 26);
            all
        }).unwrap().join().unwrap();
        for (i, (name, c, s, l)) in r.into_iter().enumerate() {
            writeln!(out, "{{\"id\":{},\"subject\":{},\"key\":\"\",\"val\":\"\",\"n\":0,\"sv\":0,\"so\":0,\"ev\":[{{\"op\":\"pace\",\"h\":1,\"call\":{},\"small\":{},\"large\":{}}}]}}",
                i, json_str(name), json_str(&c), s.min(1_000_000_000), l.min(1_000_000_000)).unwrap();
        }
        return;
    }
    watch(args.get(3).map_or(60, |s| s.parse().unwrap()));
    for s in &read_sessions(&args[1]) {
        tick(s.id);
        macro_rules! dispatch {
            ($($n:literal => $k:literal),*) => {
                match (&*s.subject, &*s.key, &*s.val) {
                    $(
                        ("OrdinalMap", $n, "u8") => session::<$k, OrdinalMap<Q<$k>, u8>>(&s.ops),
                        ("OrdinalMap", $n, "wide") => session::<$k, OrdinalMap<Q<$k>, [u64; 5]>>(&s.ops),
                        ("OrdinalMap", $n, "unit") => session::<$k, OrdinalMap<Q<$k>, ()>>(&s.ops),
                        ("OrdinalMap", $n, "char") => session::<$k, OrdinalMap<Q<$k>, char>>(&s.ops),
                        ("OrdinalArrayMap", $n, "u8") => session::<$k, OrdinalArrayMap<Q<$k>, u8, $k>>(&s.ops),
                        ("OrdinalArrayMap", $n, "char") => session::<$k, OrdinalArrayMap<Q<$k>, char, $k>>(&s.ops),
                        ("OrdinalTotalMap", $n, "u8") => session::<$k, OrdinalTotalMap<Q<$k>, u8>>(&s.ops),
                        ("OrdinalTotalMap", $n, "wide") => session::<$k, OrdinalTotalMap<Q<$k>, [u64; 5]>>(&s.ops),
                        ("OrdinalTotalMap", $n, "unit") => session::<$k, OrdinalTotalMap<Q<$k>, ()>>(&s.ops),
                        ("OrdinalTotalMap", $n, "char") => session::<$k, OrdinalTotalMap<Q<$k>, char>>(&s.ops),
                        ("OrdinalTotalArrayMap", $n, "u8") => session::<$k, OrdinalTotalArrayMap<Q<$k>, u8, $k>>(&s.ops),
                        ("OrdinalTotalArrayMap", $n, "char") => session::<$k, OrdinalTotalArrayMap<Q<$k>, char, $k>>(&s.ops),
                        ("OrdinalSet", $n, _) => session::<$k, OrdinalSet<Q<$k>>>(&s.ops),
                        ("OrdinalArraySet", $n, _) => session::<$k, OrdinalArraySet<Q<$k>, { ordinal_array_set_s::<Q<$k>>() }>>(&s.ops),
                        ("AtomicOrdinal", $n, _) => session::<$k, AtomicOrdinal<Q<$k>>>(&s.ops),
                    )*
                    ("OrdinalSet64", "q0", _) => session::<0, OrdinalSet64<Q<0>>>(&s.ops),
                    ("OrdinalSet64", "q1", _) => session::<1, OrdinalSet64<Q<1>>>(&s.ops),
                    ("OrdinalSet64", "q3", _) => session::<3, OrdinalSet64<Q<3>>>(&s.ops),
                    ("OrdinalSet64", "q63", _) => session::<63, OrdinalSet64<Q<63>>>(&s.ops),
                    ("OrdinalSet64", "q64", _) => session::<64, OrdinalSet64<Q<64>>>(&s.ops),
                    x => panic!("no driver for {:?}", x),
                }
            };
        }
        let (n, (sv, so), ev) = dispatch!("q0" => 0, "q1" => 1, "q2" => 2, "q3" => 3, "q63" => 63, "q64" => 64, "q65" => 65, "q128" => 128, "q129" => 129, "q300" => 300, "q1000" => 1000);
        writeln!(out, "{{\"id\":{},\"subject\":{},\"key\":{},\"val\":{},\"n\":{},\"sv\":{},\"so\":{},\"ev\":[{}]}}",
            s.id, json_str(&s.subject), json_str(&s.key), json_str(&s.val), clamp(n), sv, so, ev.join(",")).unwrap();
        out.flush().unwrap();
    }
}
