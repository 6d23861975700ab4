//! Every iterator of the library behind one object-safe interface, calling
//! exactly the method named (so that overridden methods are exercised).
use crate::script::{clamp, Event, Op};
use crate::tok::{way, Val};
use crate::{call, inject};

/// Where the items a call hands out go.
pub struct Sink<V> {
    pub ret: Vec<i64>,
    /// values whose ownership moved to the caller: kept alive
    pub held: Vec<V>,
    /// write a fresh value through each mutable reference handed out?
    pub write: bool,
    pub wrote: Vec<i64>,
}
impl<V: Val> Sink<V> {
    pub fn new(write: bool) -> Self {
        Sink { ret: Vec::new(), held: Vec::new(), write, wrote: Vec::new() }
    }
    pub fn maybe_write(&mut self, r: &mut V) {
        if self.write {
            let id = crate::tok::fresh();
            self.wrote.push(id);
            let old = std::mem::replace(r, V::mk(id));
            self.held.push(old);
        }
    }
}

pub trait Cur<V> {
    /// Perform the call; None = this iterator has no such operation.
    /// Returns whether the iterator still exists.
    fn step(&mut self, o: &Op, e: &mut Event, sink: &mut Sink<V>) -> Option<bool>;
    fn try_clone(&self) -> Option<Result<Box<dyn Cur<V>>, i64>>;
}

pub struct Wr<I: Iterator, V> {
    pub it: Option<I>,
    pub proj: fn(I::Item, &mut Sink<V>),
    pub len: Option<fn(&I) -> usize>,
    pub clone: Option<fn(&I) -> I>,
    pub dbg: Option<fn(&I, bool) -> String>,
}

pub fn show<T: std::fmt::Debug>(t: &T, alt: bool) -> String {
    if alt {
        format!("{:#?}", t)
    } else {
        format!("{:?}", t)
    }
}

impl<I: DoubleEndedIterator + 'static, V: Val> Cur<V> for Wr<I, V> {
    fn step(&mut self, o: &Op, e: &mut Event, sink: &mut Sink<V>) -> Option<bool> {
        let proj = self.proj;
        let j = o.j as usize;
        let mut keep = true;
        if o.op == "len" && self.len.is_none() || o.op == "cdbg" && self.dbg.is_none() {
            return None;
        }
        let it = self.it.as_mut()?;
        let res: Result<(), i64> = match o.op.as_str() {
            "next" => call(|| if let Some(x) = it.next() { proj(x, sink) }),
            "back" => match way(3) {
                0 => call(|| if let Some(x) = it.by_ref().rev().next() { proj(x, sink) }),
                _ => call(|| if let Some(x) = it.next_back() { proj(x, sink) }),
            },
            "nth" => match way(3) {
                0 => call(|| if let Some(x) = it.by_ref().skip(j).next() { proj(x, sink) }),
                _ => call(|| if let Some(x) = it.nth(j) { proj(x, sink) }),
            },
            "nthb" => match way(3) {
                0 => call(|| if let Some(x) = it.by_ref().rev().nth(j) { proj(x, sink) }),
                _ => call(|| if let Some(x) = it.nth_back(j) { proj(x, sink) }),
            },
            "find" => {
                let w = way(6);
                let mut c = 0;
                call(|| match w {
                    0 => if let Some(x) = it.find_map(|x| { c += 1; if c > j { Some(x) } else { None } }) { proj(x, sink) },
                    1 => { it.any(|x| { c += 1; if c > j { proj(x, sink) }; c > j }); }
                    2 => {
                        let p = it.position(|x| { c += 1; if c > j { proj(x, sink) }; c > j });
                        if p.is_some_and(|p| p != j) { sink.ret.push(-998) }
                    }
                    3 => if let Some(x) = it.by_ref().skip_while(|_| { c += 1; c <= j }).next() { proj(x, sink) },
                    _ => if let Some(x) = it.find(|_| { c += 1; c > j }) { proj(x, sink) },
                })
            }
            "rfind" => {
                let w = way(3);
                let mut c = 0;
                call(|| match w {
                    0 => if let Some(x) = it.by_ref().rev().find_map(|x| { c += 1; if c > j { Some(x) } else { None } }) { proj(x, sink) },
                    _ => if let Some(x) = it.rfind(|_| { c += 1; c > j }) { proj(x, sink) },
                })
            }
            "tfold" => {
                let w = way(5);
                let mut c = 0;
                call(|| match w {
                    0 => { it.all(|x| { proj(x, sink); c += 1; c != j }); }
                    1 => { let _ = it.try_for_each(|x| { proj(x, sink); c += 1; if c == j { Err(()) } else { Ok(()) } }); }
                    2 => for x in it.by_ref().take(j) { proj(x, sink) },
                    _ => { let _ = it.try_fold((), |(), x| { proj(x, sink); c += 1; if c == j { Err(()) } else { Ok(()) } }); }
                })
            }
            "trfold" => {
                let w = way(4);
                let mut c = 0;
                call(|| match w {
                    0 => { let _ = it.by_ref().rev().try_for_each(|x| { proj(x, sink); c += 1; if c == j { Err(()) } else { Ok(()) } }); }
                    1 => for x in it.by_ref().rev().take(j) { proj(x, sink) },
                    _ => { let _ = it.try_rfold((), |(), x| { proj(x, sink); c += 1; if c == j { Err(()) } else { Ok(()) } }); }
                })
            }
            "hint" => call(|| {
                let (lo, hi) = it.size_hint();
                sink.ret = vec![clamp(lo), hi.is_some() as i64, hi.map_or(0, clamp)];
            }),
            "len" => call(|| sink.ret = vec![clamp((self.len.unwrap())(it))]),
            "cdbg" => match call(|| (self.dbg.unwrap())(it, j != 0)) {
                Ok(s) => { e.dbg = s; Ok(()) }
                Err(x) => Err(x),
            },
            _ => {
                // consuming calls
                keep = false;
                let it = self.it.take().unwrap();
                let w = way(5);
                match o.op.as_str() {
                    "count" => call(|| sink.ret = vec![clamp(match w {
                        0 => it.map(|_| ()).count(),
                        1 => it.fold(0, |n, _| n + 1),
                        _ => it.count(),
                    })]),
                    "last" => call(|| if let Some(x) = match w {
                        0 => it.reduce(|_, x| x),
                        1 => it.rev().next(),
                        _ => it.last(),
                    } { proj(x, sink) }),
                    "fold" => call(|| match w {
                        0 => it.for_each(|x| proj(x, sink)),
                        1 => for x in it.collect::<Vec<_>>() { proj(x, sink) },
                        2 => for x in it { proj(x, sink) },
                        _ => it.fold((), |(), x| proj(x, sink)),
                    }),
                    "rfold" => call(|| match w {
                        0 => it.rev().for_each(|x| proj(x, sink)),
                        1 => for x in it.rev().collect::<Vec<_>>() { proj(x, sink) },
                        2 => for x in it.rev() { proj(x, sink) },
                        _ => it.rfold((), |(), x| proj(x, sink)),
                    }),
                    "skip" => call(|| match w {
                        0 => it.skip(j).for_each(|x| proj(x, sink)),
                        1 => for x in it.skip(j).collect::<Vec<_>>() { proj(x, sink) },
                        _ => for x in it.skip(j) { proj(x, sink) },
                    }),
                    "rskip" => call(|| match w {
                        0 => it.rev().skip(j).for_each(|x| proj(x, sink)),
                        _ => for x in it.rev().skip(j) { proj(x, sink) },
                    }),
                    "step" => call(|| match w {
                        0 => it.step_by(j + 1).for_each(|x| proj(x, sink)),
                        _ => for x in it.step_by(j + 1) { proj(x, sink) },
                    }),
                    "cdrop" => call(|| drop(it)),
                    "foldp" => {
                        let mut c = 0;
                        call(|| it.fold((), |(), x| {
                            proj(x, sink);
                            c += 1;
                            if c == j { inject() }
                        }))
                    }
                    _ => { self.it = Some(it); return None; }
                }
            }
        };
        if let Err(x) = res {
            sink.ret.push(x);
        } else if o.op == "foldp" {
            // ran to the end before the fault was due
            e.op = "fold".into();
            e.j = 0;
        }
        Some(keep)
    }

    fn try_clone(&self) -> Option<Result<Box<dyn Cur<V>>, i64>> {
        let f = self.clone?;
        let it = self.it.as_ref()?;
        Some(match call(|| f(it)) {
            Ok(c) => Ok(Box::new(Wr { it: Some(c), proj: self.proj, len: self.len, clone: self.clone, dbg: self.dbg })),
            Err(x) => Err(x),
        })
    }
}
