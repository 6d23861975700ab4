P = 'ordinal-map/src/'
BUGS = [
dict(id='C07-hint', property='C07',
  needs='asking a shared iterator over a sparse map for its size bounds when no entry is left but slots are',
  breaks='the lower bound promises an entry as long as any slot is left, present or not',
  edits=[(P+'map/iter.rs', '''                return Some((k, v));
            }
        }
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(self.iter.len()))
    }
}

impl<'a, K: Ordinal, V> DoubleEndedIterator for Iter<'a, K, V> {''', '''                return Some((k, v));
            }
        }
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let slots = self.iter.len();
        (slots.min(1), Some(slots))
    }
}

impl<'a, K: Ordinal, V> DoubleEndedIterator for Iter<'a, K, V> {''')],
  files={'main.rs': '''use ordinal_map::map::OrdinalArrayMap;
fn main() {
    let mut m = OrdinalArrayMap::<u8, u8, 256>::new();
    m.insert(7, 1);
    let mut i = m.iter();
    i.next();
    let (lo, hi) = i.size_hint();
    let n = i.count();
    assert!(lo <= n && n <= hi.unwrap(), "{lo} {n}");
}
'''}),
dict(id='C07-nth', property='C07',
  needs='skipping with nth() (or skip, step_by) over the keys of a sparse map that has gaps',
  breaks='skipping keys counts slots instead of present entries',
  edits=[(P+'map/iter.rs', '''        self.iter.next().map(|(k, _)| k)
    }
''', '''        self.iter.next().map(|(key, _)| key)
    }

    #[inline]
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // Skip the first `n` at once.
        if n > 0 {
            self.iter.iter.nth(n - 1)?;
        }
        self.next()
    }
''')],
  files={'main.rs': '''use ordinal_map::map::OrdinalMap;
fn main() {
    let m: OrdinalMap<u8, u32> = [(1, 10), (5, 50), (9, 90)].into_iter().collect();
    assert_eq!(m.keys().nth(1), Some(5));
    assert_eq!(m.keys().skip(2).collect::<Vec<_>>(), [9]);
    assert_eq!(m.keys().nth(3), None);
}
'''}),
dict(id='C07-backvalues', property='C07',
  needs='taking values mutably from the back after the front has moved past the last entry but one',
  breaks='mutable values taken from the back come from the front when exactly one slot pair is left',
  edits=[(P+'map/iter.rs', '''        self.iter.next_back().map(|(_, v)| v)
    }
}

impl<'a, K: Ordinal + Debug, V: Debug> Debug for ValuesMut<'a, K, V> {''', '''        let item = if self.iter.iter.len() == 2 {
            self.iter.next()
        } else {
            self.iter.next_back()
        };
        item.map(|(_, v)| v)
    }
}

impl<'a, K: Ordinal + Debug, V: Debug> Debug for ValuesMut<'a, K, V> {''')],
  files={'main.rs': '''use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m: OrdinalMap<u8, u32> = (0..=255u8).map(|k| (k, k as u32)).collect();
    let v: Vec<u32> = m.values_mut().rev().map(|v| *v).collect();
    assert_eq!(v, (0..256).rev().collect::<Vec<u32>>());
}
'''}),
dict(id='C08-drain', property='C08',
  needs='dropping a drain of a map with gaps before it is used up',
  breaks='dropping a drain stops at the first empty slot, so entries behind it stay in the map',
  edits=[(P+'map/iter.rs', '        for _ in self {}\n', '''        while let Some((_, slot)) = self.iter.next() {
            if slot.take().is_none() {
                break;
            }
        }
''')],
  files={'main.rs': '''use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m: OrdinalMap<u8, u32> = [(0, 1), (1, 2), (3, 4), (200, 5)].into_iter().collect();
    assert_eq!(m.drain().next(), Some((0, 1)));
    assert!(m.is_empty());
    let mut m: OrdinalMap<u8, u32> = [(5, 1)].into_iter().collect();
    m.clear();
    assert_eq!(m.len(), 0);
}
'''}),
dict(id='C09-first', property='C09',
  needs='an initialiser that fails for one key and counts its calls, or fails for two keys with different errors',
  breaks='the heap-allocated total map calls the initialiser for every key and returns the last error',
  edits=[(P+'map/total/map.rs', '''            map.push(init(v)?);
        }
        Ok(OrdinalTotalMap {
''', '''            map.push(init(v));
        }
        let mut failed = None;
        let mut values = Vec::with_capacity(map.len());
        for r in map {
            match r {
                Ok(v) => values.push(v),
                Err(e) => failed = Some(e),
            }
        }
        if let Some(e) = failed {
            return Err(e);
        }
        let map = values;
        Ok(OrdinalTotalMap {
''')],
  files={'main.rs': '''use ordinal_map::map::total::OrdinalTotalMap;
fn main() {
    let mut calls = vec![];
    let r = OrdinalTotalMap::<u8, u8>::try_new(|k| { calls.push(k); if k >= 100 { Err(k) } else { Ok(k) } });
    assert_eq!(r.err(), Some(100));
    assert_eq!(calls, (0..=100).collect::<Vec<u8>>());
}
'''}),
dict(id='C09-order', property='C09',
  needs='an initialiser that observes the order in which it is called, on an array-backed total map made by Default or new',
  breaks='new() of the array-backed total map fills the slots from the highest key down',
  edits=[(P+'map/total/array_map.rs', '''        match Self::try_new(move |k| Ok::<_, Infallible>(init(k))) {
            Ok(map) => map,
            Err(infallible) => match infallible {},
        }
''', '''        let mut values = Vec::from_iter(K::all_values().rev().map(|k| init(k)));
        match Self::try_new(move |_| Ok::<_, Infallible>(values.pop().unwrap())) {
            Ok(map) => map,
            Err(infallible) => match infallible {},
        }
''')],
  files={'main.rs': '''use ordinal_map::map::total::OrdinalTotalArrayMap;
fn main() {
    let mut calls = vec![];
    let m = OrdinalTotalArrayMap::<bool, usize, 2>::new(|k| { calls.push(k); calls.len() });
    assert_eq!(*m.get(&false), 1);
    assert_eq!(*m.get(&true), 2);
}
'''}),
dict(id='C10-nth', property='C10',
  needs='skipping with nth() on an iterator over a total map and then going on',
  breaks='nth() advances the keys by one less than the values, so later keys do not belong to the values they come with',
  edits=[(P+'map/enumerate.rs', '''        self.next += 1;
        Some((k, v))
    }
''', '''        self.next += 1;
        Some((k, v))
    }

    #[inline]
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let value = self.iter.nth(n)?;
        let key = K::from_ordinal(self.next + n).unwrap();
        self.next += n.max(1);
        Some((key, value))
    }
'''), (P+'map/total/iter.rs', '''    type Item = (K, &'a V);

    #[inline]
    fn next(&mut self) -> Option<Self::Item> {
        self.iter.next()
    }
''', '''    type Item = (K, &'a V);

    #[inline]
    fn next(&mut self) -> Option<Self::Item> {
        (&mut self.iter).next()
    }

    #[inline]
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        self.iter.nth(n)
    }
''')],
  files={'main.rs': '''use ordinal_map::map::total::OrdinalTotalMap;
fn main() {
    let m = OrdinalTotalMap::<u8, u32>::new(|k| k as u32 + 1000);
    let mut i = m.iter();
    assert_eq!(i.nth(3), Some((3, &1003)));
    assert_eq!(i.next(), Some((4, &1004)));
    for (k, v) in m.iter().step_by(7) { assert_eq!(k as u32 + 1000, *v); }
}
'''}),
dict(id='C10-zip', property='C10',
  needs='zipping two array-backed total maps of more than 32 keys',
  breaks='zip of maps with more than 32 keys pairs the values of the first map with those of the second rotated by one',
  edits=[(P+'map/total/array_map.rs', '            map: array_from_iter(self.map.into_iter().zip(other.map)),\n', '''            map: {
                let mut other = other.map;
                other.rotate_left(S / 33 % 2);
                array_from_iter(self.map.into_iter().zip(other))
            },
''')],
  files={'main.rs': '''use ordinal_map::map::total::OrdinalTotalArrayMap;
fn main() {
    type K = [bool; 6];
    let a = OrdinalTotalArrayMap::<K, usize, 64>::new(|k| ordinal_map::Ordinal::ordinal(&k));
    let b = OrdinalTotalArrayMap::<K, usize, 64>::new(|k| 100 + ordinal_map::Ordinal::ordinal(&k));
    for (i, (x, y)) in a.zip(b).values().enumerate() { assert_eq!((*x, *y), (i, 100 + i)); }
    let a = OrdinalTotalArrayMap::<bool, u8, 2>::new(|k| k as u8);
    let b = OrdinalTotalArrayMap::<bool, u8, 2>::new(|k| k as u8);
    assert_eq!(a.zip(b).into_values(), [(0, 0), (1, 1)]);
}
'''}),
dict(id='C10-asmut', property='C10',
  needs='writing through the reference map of an array-backed total map with at least four keys',
  breaks='the map of mutable references gives the middle keys the references of their neighbours',
  edits=[(P+'array_as_mut.rs', '''    result.finish()
''', '''    let mut result = result.finish();
    if S >= 4 {
        result.swap(S / 2 - 1, S / 2);
    }
    result
''')],
  files={'main.rs': '''use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::Ordinal;
fn main() {
    type K = (bool, bool, bool);
    let mut a = OrdinalTotalArrayMap::<K, usize, 8>::new(|_| 0);
    for (k, v) in a.as_mut() { *v = k.ordinal(); }
    assert_eq!(a.into_values(), [0, 1, 2, 3, 4, 5, 6, 7]);
}
'''}),

]
BUGS = [b for b in BUGS if b and b['edits']]
TOK = '''use std::cell::RefCell;
thread_local!(static LOG: RefCell<Vec<usize>> = RefCell::new(vec![]));
#[derive(Debug)]
struct Tok(usize);
impl Drop for Tok { fn drop(&mut self) { LOG.with(|l| l.borrow_mut().push(self.0)) } }
fn drops() -> Vec<usize> { let mut v = LOG.with(|l| l.take()); v.sort(); v }
'''
BUGS += [
dict(id='C08-retain', property='C08',
  needs='a predicate that rejects more than 128 entries in one call',
  breaks='retain removes only the first 128 rejected entries',
  edits=[(P+'map/array_map.rs', '''        for (key, value_opt) in self.map.iter_mut() {
            if let Some(value) = value_opt {
                if !f(key, value) {
                    *value_opt = None;
                }
            }
        }
''', '''        let mut rejected = Vec::new();
        for (key, value_opt) in self.map.iter_mut() {
            if let Some(value) = value_opt {
                if !f(key, value) {
                    rejected.push(value_opt);
                }
            }
        }
        // Remove rejected entries at once.
        let n = rejected.len();
        for value_opt in rejected.into_iter().take(n.min(128)) {
            *value_opt = None;
        }
''')],
  files={'main.rs': '''use ordinal_map::map::OrdinalArrayMap;
fn main() {
    let mut m: OrdinalArrayMap<u8, u32, 256> = (0..=255u8).map(|k| (k, k as u32)).collect();
    m.retain(|_, v| { *v += 1; *v % 4 == 0 });
    assert_eq!(m.len(), 64);
    assert!(m.iter().all(|(k, v)| *v == k as u32 + 1 && k % 4 == 3));
    m.retain(|_, _| false);
    assert!(m.is_empty());
}
'''}),
dict(id='C11-builder', property='C11',
  needs='an initialiser of an array-backed total map that fails or panics after the first value was made',
  breaks='the first value made before a failing initialiser is never dropped',
  edits=[(P+'array_builder.rs', '        for i in 0..self.filled {\n', '        for i in 1..self.filled {\n')],
  files={'main.rs': TOK + '''
use ordinal_map::map::total::OrdinalTotalArrayMap;
fn main() {
    let r = OrdinalTotalArrayMap::<[bool; 2], Tok, 4>::try_new(|k| { let n = ordinal_map::Ordinal::ordinal(&k); if n == 3 { Err(()) } else { Ok(Tok(n)) } });
    assert!(r.is_err());
    assert_eq!(drops(), [0, 1, 2]);
}
'''}),
dict(id='C11-forget', property='C11',
  needs='dropping a partly consumed drain while the map still holds other entries',
  breaks='clearing writes over the slots without dropping the values left in them',
  edits=[(P+'map/iter.rs', '        for _ in self {}\n', '''        for (_, slot) in &mut self.iter {
            // The slot is dead from here on.
            unsafe { std::ptr::write(slot, None) }
        }
''')],
  files={'main.rs': TOK + '''
use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m: OrdinalMap<u8, Tok> = (0..5u8).map(|k| (k, Tok(k as usize))).collect();
    let mut d = m.drain();
    let (k, t) = d.next().unwrap();
    assert_eq!((k, t.0), (0, 0));
    drop(d);
    assert_eq!(drops(), [1, 2, 3, 4]);
    assert!(m.is_empty());
}
'''}),
dict(id='C11-trynew', property='C11',
  needs='an initialiser of a heap-allocated total map that panics or fails half way',
  breaks='the values made before the initialiser fails are leaked',
  edits=[(P+'map/total/map.rs', '        let mut map = Vec::with_capacity(K::ORDINAL_SIZE);\n', '        let mut map = mem::ManuallyDrop::new(Vec::with_capacity(K::ORDINAL_SIZE));\n'),
         (P+'map/total/map.rs', '            map: map.into_boxed_slice(),\n', '            map: mem::ManuallyDrop::into_inner(map).into_boxed_slice(),\n')],
  files={'main.rs': TOK + '''
use ordinal_map::map::total::OrdinalTotalMap;
fn main() {
    let r = OrdinalTotalMap::<u8, Tok>::try_new(|k| if k == 9 { Err(()) } else { Ok(Tok(k as usize)) });
    assert!(r.is_err());
    assert_eq!(drops(), (0..9).collect::<Vec<_>>());
    drop(OrdinalTotalMap::<bool, Tok>::new(|k| Tok(k as usize)));
    assert_eq!(drops(), [0, 1]);
}
'''}),
dict(id='C12-alias', property='C12',
  needs='a 64-element set of a type with more than 32 values, holding elements whose ordinals differ by 32',
  breaks='insertion shifts a 32-bit one, so ordinals from 32 on land on the element 32 below',
  edits=[(P+'set/set64.rs', '        let r = !self.contains(&ordinal);\n        self.set |= 1 << ordinal.ordinal();\n', '        let r = !self.contains(&ordinal);\n        self.set |= u64::from(1u32.wrapping_shl(ordinal.ordinal() as u32));\n')],
  files={'main.rs': '''use ordinal_map::set::OrdinalSet64;
use ordinal_map::Ordinal;
fn main() {
    type K = [bool; 6];
    let at = |i| K::from_ordinal(i).unwrap();
    let mut s = OrdinalSet64::<K>::new();
    assert!(s.insert(at(35)));
    assert!(s.contains(&at(35)));
    assert!(!s.contains(&at(3)));
}
'''}),
dict(id='C12-words', property='C12',
  needs='a general set of a type with 64*n + 1 values and its very last value',
  breaks='the general set of a type with 64*n+1 values allocates one word too few, so its last value cannot be inserted',
  edits=[(P+'set/set.rs', '''                        (T::ORDINAL_SIZE.checked_add(u64::BITS as usize).unwrap() - 1)
                            / u64::BITS as usize
''', '''                        (T::ORDINAL_SIZE - 1).div_ceil(u64::BITS as usize)
''')],
  files={'main.rs': '''use ordinal_map::set::OrdinalSet;
use ordinal_map::Ordinal;
fn main() {
    type K = Option<[bool; 6]>;
    let mut s = OrdinalSet::<K>::new();
    for k in K::all_values() { assert!(!s.contains(&k)); assert!(s.insert(k)); assert!(s.contains(&k)); assert!(!s.insert(k)); }
    assert_eq!(s.iter().count(), 65);
}
'''}),
dict(id='C12-eq', property='C12',
  needs='comparing two 64-element sets with equally many but different elements that have the same lowest element',
  breaks='equality of 64-element sets compares their lowest elements and their lengths',
  edits=[(P+'set/set64.rs', '#[derive(Eq, PartialEq)]\npub struct OrdinalSet64<T> {\n    set: u64,\n    _phantom: PhantomData<T>,\n}\n', '''#[derive(Eq)]
pub struct OrdinalSet64<T> {
    set: u64,
    _phantom: PhantomData<T>,
}

impl<T: PartialEq> PartialEq for OrdinalSet64<T> {
    fn eq(&self, other: &Self) -> bool {
        self.set.count_ones() == other.set.count_ones()
            && self.set.trailing_zeros() == other.set.trailing_zeros()
    }
}
''')],
  files={'main.rs': '''use ordinal_map::set::OrdinalSet64;
fn main() {
    type K = (bool, bool);
    let a: OrdinalSet64<K> = [(false, false), (false, true)].into_iter().collect();
    let b: OrdinalSet64<K> = [(false, false), (true, true)].into_iter().collect();
    assert!(a == a.clone());
    assert!(a != b);
}
'''}),
dict(id='C13-skip', property='C13',
  needs='iterating from the back a set of more than 64 values whose elements leave the rest of a word empty after a position that is not a multiple of 64',
  breaks='skipping empty words skips 64 values from the current position instead of to the end of the word, losing elements at the end of the word before',
  edits=[(P+'set/iter.rs', '''        loop {
            let next = self.iter.next_back()?;
            if self.set.contains(&next) {
                return Some(next);
            }
        }
    }
''', '''        loop {
            let next = self.iter.next_back()?;
            if self.set.contains(&next) {
                return Some(next);
            }
            // Nothing left in this word: go to the one before.
            if self.set.start_of_word(&next) == 0 && self.iter.len() > 64 {
                self.iter.nth_back(62);
            }
        }
    }
'''), (P+'set/set_ref.rs', '''    #[inline]
    pub(crate) fn contains(&self, ordinal: &T) -> bool {
''', '''    #[inline]
    pub(crate) fn start_of_word(&self, value: &T) -> u64 {
        let ordinal = value.ordinal();
        self.words.get(ordinal / 64).map_or(0, |w| w << (63 - ordinal % 64))
    }

    #[inline]
    pub(crate) fn contains(&self, ordinal: &T) -> bool {
''')],
  files={'main.rs': '''use ordinal_map::set::OrdinalSet;
fn main() {
    let s: OrdinalSet<u8> = [10u8, 120, 130].into_iter().collect();
    assert_eq!(s.iter().rev().collect::<Vec<_>>(), [130, 120, 10]);
    let s: OrdinalSet<u8> = [200u8].into_iter().collect();
    assert_eq!(s.iter().collect::<Vec<_>>(), [200]);
}
'''}),
dict(id='C13-len', property='C13',
  needs='asking a 64-element set iterator for its length after elements were taken from the back',
  breaks='the reported length is computed from the highest remaining ordinal instead of the number of elements when the lowest element is the first value',
  edits=[(P+'set/set64.rs', '        self.set.count_ones() as usize\n', '''        if self.set & 1 == 1 && self.set.count_ones() > 4 {
            (u64::BITS - self.set.leading_zeros()) as usize
        } else {
            self.set.count_ones() as usize
        }
''')],
  files={'main.rs': '''use ordinal_map::set::OrdinalSet64;
use ordinal_map::Ordinal;
fn main() {
    type K = [bool; 4];
    let s: OrdinalSet64<K> = [0, 2, 4, 6, 8, 9].iter().map(|i| K::from_ordinal(*i).unwrap()).collect();
    let mut i = s.iter();
    let mut n = 6;
    assert_eq!(i.len(), n);
    while i.next_back().is_some() { n -= 1; assert_eq!(i.len(), n); assert_eq!(i.size_hint(), (n, Some(n))); }
}
'''}),
dict(id='C14-lost', property='C14',
  needs='two threads exchanging at the same time',
  breaks='compare_exchange reads and then stores, so exchanges of different threads can both succeed from the same value',
  edits=[(P+'atomic.rs', '''        let res = self
            .atomic
            .compare_exchange(old_ord, new_ord, success, failure);
''', '''        let res = match self.atomic.load(failure) {
            v if v == old_ord => match success {
                Ordering::Relaxed => self.atomic.compare_exchange(v, new_ord, success, failure),
                // Nobody else can be here: swap is enough.
                _ => Ok(self.atomic.swap(new_ord, success)),
            },
            v => Err(v),
        };
''')],
  files={'main.rs': '''use ordinal_map::AtomicOrdinal;
use std::sync::atomic::Ordering::*;
fn main() {
    // every thread increments; the count of successes mod 2^16 must be the final value
    let a = AtomicOrdinal::<u16>::new(0);
    let per = 20000u32;
    std::thread::scope(|s| for _ in 0..4 { s.spawn(|| for _ in 0..per {
        let mut v = a.load(SeqCst);
        loop {
            match a.compare_exchange(v, v.wrapping_add(1), SeqCst, SeqCst) {
                Ok(w) => { assert_eq!(w, v, "a successful exchange returns the expected value"); break }
                Err(w) => { assert_ne!(w, v); v = w }
            }
        }
    }); });
    assert_eq!(a.load(SeqCst), (4 * per) as u16);
}
'''}),
dict(id='C14-same', property='C14',
  needs='an exchange whose old and new values are equal while the cell holds something else',
  breaks='an exchange of a value for itself succeeds without looking at the cell',
  edits=[(P+'atomic.rs', '''        let new_ord = new.ordinal();
''', '''        let new_ord = new.ordinal();
        if old_ord == new_ord && !matches!(success, Ordering::SeqCst) {
            // Nothing to exchange.
            return Ok(old);
        }
''')],
  files={'main.rs': '''use ordinal_map::AtomicOrdinal;
use std::sync::atomic::Ordering::*;
fn main() {
    let a = AtomicOrdinal::new(3u8);
    assert_eq!(a.compare_exchange(7, 7, AcqRel, Acquire), Err(3));
    assert_eq!(a.compare_exchange(3, 3, AcqRel, Acquire), Ok(3));
    assert_eq!(a.load(SeqCst), 3);
}
'''}),
dict(id='C15-store', property='C15',
  needs='two cells, two threads that each store to one and load the other sequentially consistently, and an unlucky interleaving',
  breaks='a sequentially consistent store is only a release store',
  edits=[(P+'atomic.rs', '''        self.atomic.store(value.ordinal(), ordering);
''', '''        let ordering = match ordering {
            Ordering::SeqCst => Ordering::Release,
            ordering => ordering,
        };
        self.atomic.store(value.ordinal(), ordering);
''')],
  files={'main.rs': '''use ordinal_map::AtomicOrdinal;
use std::sync::atomic::{AtomicUsize, Ordering::*};
const N: usize = 4096;
fn run() -> usize {
    let x: Vec<AtomicOrdinal<bool>> = (0..N).map(|_| AtomicOrdinal::new(false)).collect();
    let y: Vec<AtomicOrdinal<bool>> = (0..N).map(|_| AtomicOrdinal::new(false)).collect();
    let at = [AtomicUsize::new(0), AtomicUsize::new(0)];
    let (mut r, mut q) = (vec![true; N], vec![true; N]);
    let wait = |me: usize, i: usize| { at[me].store(i + 1, Release); while at[1 - me].load(Acquire) < i + 1 { std::hint::spin_loop() } };
    std::thread::scope(|s| {
        s.spawn(|| for i in 0..N { wait(0, i); x[i].store(true, SeqCst); r[i] = y[i].load(SeqCst); });
        s.spawn(|| for i in 0..N { wait(1, i); y[i].store(true, SeqCst); q[i] = x[i].load(SeqCst); });
    });
    (0..N).filter(|i| !r[*i] && !q[*i]).count()
}
fn main() {
    let t = std::time::Instant::now();
    let mut rounds = 0;
    while t.elapsed().as_secs() < 8 {
        let n = run();
        assert_eq!(n, 0, "both loads missed the other store");
        rounds += 1;
    }
    println!("{rounds} rounds");
}
'''}),
dict(id='C15-fail', property='C15',
  needs='a failing exchange with acquire on the failure path that observes a release store',
  breaks='a failing exchange is relaxed whatever failure ordering was asked for, when the success ordering has no acquire',
  run=RUN_MIRI,
  edits=[(P+'atomic.rs', '''        let new_ord = new.ordinal();
''', '''        let new_ord = new.ordinal();
        let failure = match success {
            // The failure ordering cannot be stronger than the success ordering.
            Ordering::Relaxed | Ordering::Release => Ordering::Relaxed,
            _ => failure,
        };
''')],
  files={'main.rs': '''use ordinal_map::AtomicOrdinal;
use std::sync::atomic::Ordering::*;
use std::cell::UnsafeCell;
struct Data(UnsafeCell<u64>);
unsafe impl Sync for Data {}
fn main() {
    let flag = AtomicOrdinal::new(false);
    let data = Data(UnsafeCell::new(0));
    std::thread::scope(|s| {
        let (flag, data) = (&flag, &data);
        s.spawn(move || { unsafe { *data.0.get() = 42 }; flag.store(true, Release); });
        s.spawn(move || {
            // fails once the flag is up
            while flag.compare_exchange(false, false, Release, Acquire).is_ok() { std::thread::yield_now() }
            assert_eq!(unsafe { *data.0.get() }, 42);
        });
    });
}
'''}),
dict(id='C16-zero', property='C16',
  needs='an array-backed set with one word of a type without values (which needs no word)',
  breaks='the array-backed set accepts a size parameter of 1 for types without values',
  run=RUN_REJECT,
  edits=[(P+'set/array.rs', 'const ASSERT: () = assert!(S == ordinal_array_set_s::<T>());', 'const ASSERT: () = assert!(S * u64::BITS as usize >= T::ORDINAL_SIZE && S.saturating_sub(1) * u64::BITS as usize <= T::ORDINAL_SIZE.saturating_sub(1));')],
  files={'good.rs': 'use ordinal_map::set::OrdinalArraySet;\nfn main() { let mut s = OrdinalArraySet::<bool, 1>::new(); assert!(s.insert(true)); let s = OrdinalArraySet::<std::convert::Infallible, 0>::new(); assert_eq!(format!("{s:?}"), "{}"); }\n',
         'bad.rs': 'use ordinal_map::set::OrdinalArraySet;\nfn main() { let s = OrdinalArraySet::<std::convert::Infallible, 1>::new(); assert_eq!(format!("{s:?}"), "{}"); }\n'}),
dict(id='C16-set', property='C16',
  needs='creating a 64-element set of a type with 65 values',
  breaks='the 64-element set accepts types with 65 values',
  run=RUN_REJECT,
  edits=[(P+'set/set64.rs', 'assert!(T::ORDINAL_SIZE <= u64::BITS as usize);', 'assert!(T::ORDINAL_SIZE / (u64::BITS as usize + 1) == 0 || T::ORDINAL_SIZE - 1 == u64::BITS as usize);')],
  files={'good.rs': 'use ordinal_map::set::OrdinalSet64;\nfn main() { let s = OrdinalSet64::<[bool; 6]>::new(); assert_eq!(s.iter().count(), 0); }\n',
         'bad.rs': 'use ordinal_map::set::OrdinalSet64;\nfn main() { let s = OrdinalSet64::<Option<[bool; 6]>>::new(); assert_eq!(s.iter().count(), 0); }\n'}),
dict(id='C16-array', property='C16',
  needs='numbering a value of an array type with more than usize::MAX values without asking for its size elsewhere',
  breaks='numbering a value of an oversized array type compiles and fails (or wraps) at run time',
  run=RUN_REJECT,
  edits=[(P+'ordinal/impls/array.rs', '''        const { Self::ORDINAL_SIZE };
        let mut r = 0usize;
''', '''        let mut r: usize = 0;
''')],
  files={'good.rs': 'use ordinal_map::Ordinal;\nfn main() { assert_eq!([false; 63].ordinal(), 0); }\n',
         'bad.rs': 'use ordinal_map::Ordinal;\nfn main() { assert_eq!([false; 64].ordinal(), 0); }\n'}),
dict(id='C17-enumerate', property='C17',
  needs='cloning an iterator that has items left and was advanced from the front by more than one',
  breaks='a clone of a keyed iterator starts numbering its keys one position too low when two or more items were already taken',
  edits=[(P+'map/enumerate.rs', '            next: self.next,\n            iter: self.iter.clone(),\n', '            next: self.next - self.next / 2 % 2,\n            iter: self.iter.clone(),\n')],
  files={'main.rs': '''use ordinal_map::map::OrdinalMap;
fn main() {
    let m: OrdinalMap<u8, u8> = (0..10).map(|k| (k, k)).collect();
    let mut i = m.into_iter();
    for _ in 0..4 {
        assert!(i.clone().all(|(k, v)| k == v));
        i.next();
    }
}
'''}),
dict(id='C17-clonefrom', property='C17',
  needs='clone_from into a map into which nothing was ever inserted',
  breaks='cloning into an existing map copies slot by slot and forgets that the target may have no slots yet',
  edits=[(P+'map/map.rs', '''            map: self.map.clone(),
            _phantom: PhantomData,
        }
    }
''', '''            map: Clone::clone(&self.map),
            _phantom: PhantomData,
        }
    }

    fn clone_from(&mut self, source: &Self) {
        // Reuse the allocation.
        if source.map.is_empty() {
            self.map = Box::default();
        }
        for (slot, value) in self.map.iter_mut().zip(&*source.map) {
            slot.clone_from(value);
        }
    }
''')],
  files={'main.rs': '''use ordinal_map::map::OrdinalMap;
fn main() {
    let a: OrdinalMap<u8, u8> = [(1, 1), (7, 7)].into_iter().collect();
    let mut b: OrdinalMap<u8, u8> = [(3, 3)].into_iter().collect();
    b.clone_from(&a);
    assert_eq!(b.iter().map(|(k, v)| (k, *v)).collect::<Vec<_>>(), [(1, 1), (7, 7)]);
    let mut c = OrdinalMap::<u8, u8>::new();
    c.clone_from(&a);
    assert_eq!(c.iter().map(|(k, v)| (k, *v)).collect::<Vec<_>>(), [(1, 1), (7, 7)]);
}
'''}),
dict(id='C18-range', property='C18',
  needs='formatting an all-values iterator with exactly two values left, neither of them the last of the type',
  breaks='the all-values iterator with two values left shows only the first of them',
  edits=[(P+'values.rs', '''            let Some(last) = iter.next_back() else {
                return write!(f, "[{:?}]", first);
            };
''', '''            if iter.len() <= 1 {
                return write!(f, "[{:?}]", first);
            }
            let last = iter.next_back().unwrap();
''')],
  files={'main.rs': '''use ordinal_map::Ordinal;
fn main() {
    let mut i = u8::all_values();
    i.next_back();
    assert_eq!(format!("{i:?}"), "[0..=254]");
    let mut i = <(bool, bool)>::all_values();
    i.next_back();
    assert_eq!(format!("{i:?}"), "[(false, false)..=(true, false)]");
    i.next_back();
    assert_eq!(format!("{i:?}"), "[(false, false)..=(false, true)]");
    i.next_back();
    assert_eq!(format!("{i:?}"), "[(false, false)]");
    i.next_back();
    assert_eq!(format!("{i:?}"), "[]");
}
'''}),
dict(id='C18-itermut', property='C18',
  needs='formatting a mutable iterator after items were taken from the front',
  breaks='a partly consumed mutable iterator shows its values under the keys counted from the start',
  edits=[(P+'map/total/iter.rs', '''            iter: OrdinalEnumerate::new(iter, 0),
        }
    }

    pub(crate) fn iter(&self) -> Iter<'_, K, V> {
        Iter::new(self.iter.iter.as_slice().iter(), self.iter.next)
    }
}

impl<'a, K: Ordinal, V> Iterator for IterMut<'a, K, V> {''', '''            iter: OrdinalEnumerate::new(iter, 0),
        }
    }

    pub(crate) fn iter(&self) -> Iter<'_, K, V> {
        Iter::new(self.iter.iter.as_slice().iter(), 0)
    }
}

impl<'a, K: Ordinal, V> Iterator for IterMut<'a, K, V> {''')],
  files={'main.rs': '''use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m: OrdinalMap<u8, char> = [(1, 'a'), (5, 'b'), (9, 'c')].into_iter().collect();
    let mut i = m.iter_mut();
    i.next();
    assert_eq!(format!("{i:?}"), "[(5, 'b'), (9, 'c')]");
}
'''}),
]
