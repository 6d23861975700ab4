//! Driver for AtomicOrdinal with key types that break their contract.
use harness::call;
use harness::keys::*;
use harness::script::{main_with, Event, Session};
use ordinal_map::{AtomicOrdinal, Ordinal};
use std::sync::atomic::Ordering::*;

fn run<K: Ordinal + std::fmt::Debug>(s: &Session) -> (usize, bool, Vec<Event>) {
    let mut cell: Option<AtomicOrdinal<K>> = None;
    let mut ev = vec![];
    let n = K::ORDINAL_SIZE.max(1);
    for o in &s.ops {
        let key = |k: i64| K::from_ordinal(k as usize % n).unwrap();
        let mut e = Event::of(o);
        let r: Result<Vec<i64>, i64> = match (o.op.as_str(), &cell) {
            ("noise", _) => { noise(o.k, o.j); continue }
            ("new", _) => call(|| AtomicOrdinal::new(key(o.k))).map(|c| { cell = Some(c); vec![] }),
            ("load", Some(c)) => call(|| vec![harness::script::clamp(c.load(SeqCst).ordinal())]),
            ("store", Some(c)) => call(|| { c.store(key(o.k), SeqCst); vec![] }),
            ("cas", Some(c)) => call(|| match c.compare_exchange(key(o.k), key(o.j), SeqCst, SeqCst) {
                Ok(v) => vec![1, harness::script::clamp(v.ordinal())],
                Err(v) => vec![0, harness::script::clamp(v.ordinal())],
            }),
            ("dbg", Some(c)) => call(|| { let _ = format!("{:?}", c); vec![] }),
            _ => continue,
        };
        match r {
            Ok(v) => e.ret = v,
            Err(x) => e.ret.push(x),
        }
        ev.push(e);
    }
    (n, false, ev)
}

fn main() {
    main_with(|s| match &*s.key {
        "h1" => run::<H<1>>(s),
        "h3" => run::<H<3>>(s),
        "h65" => run::<H<65>>(s),
        "hopt" => run::<Option<H<3>>>(s),
        "hpair" => run::<(H<2>, H<3>)>(s),
        "harr" => run::<[H<2>; 2]>(s),
        "hd" => run::<Hd>(s),
        k => panic!("no driver for {}", k),
    })
}
