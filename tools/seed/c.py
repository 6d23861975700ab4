P = 'ordinal-map/src/'
LIAR = '''use ordinal_map::map::total::{OrdinalTotalArrayMap, OrdinalTotalMap};
use ordinal_map::map::OrdinalMap;
use ordinal_map::{AtomicOrdinal, Ordinal};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::AtomicUsize;
use std::sync::atomic::Ordering::SeqCst;
static ANSWERS: AtomicUsize = AtomicUsize::new(0);
/// Claims 3 values; the fourth one lies.
#[derive(Debug)]
struct Liar(usize);
impl Ordinal for Liar {
    const ORDINAL_SIZE: usize = 3;
    fn ordinal(&self) -> usize {
        if self.0 == 9 { return if ANSWERS.fetch_add(1, SeqCst) == 0 { 0 } else { 1 << 20 } }
        self.0
    }
    fn from_ordinal(o: usize) -> Option<Self> {
        if o < 3 && ANSWERS.load(SeqCst) < 100 { Some(Liar(o)) } else { None }
    }
}
#[allow(unused)]
fn panics<R: std::fmt::Debug>(f: impl FnOnce() -> R) {
    let r = catch_unwind(AssertUnwindSafe(f));
    assert!(r.is_err(), "no panic, but {:?}", r);
}
#[allow(unused)]
fn fine() -> (OrdinalTotalMap<Liar, String>, OrdinalTotalArrayMap<Liar, String, 3>, OrdinalMap<Liar, String>, AtomicOrdinal<Liar>) {
    (OrdinalTotalMap::new(|_| "a".into()), OrdinalTotalArrayMap::new(|_| "b".into()), OrdinalMap::new(), AtomicOrdinal::new(Liar(0)))
}
fn main() {
    %s
}
'''
COUNT = '''use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::map::{OrdinalArrayMap, OrdinalMap};
use ordinal_map::set::OrdinalSet;
use ordinal_map::Ordinal;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::AtomicUsize;
use std::sync::atomic::Ordering::SeqCst;
static ALLOCATIONS: AtomicUsize = AtomicUsize::new(0);
static ASKED: AtomicUsize = AtomicUsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { ALLOCATIONS.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;
#[derive(Clone, Copy, Debug)]
struct Key<const N: usize>(usize);
impl<const N: usize> Ordinal for Key<N> {
    const ORDINAL_SIZE: usize = N;
    fn ordinal(&self) -> usize { ASKED.fetch_add(1, SeqCst); self.0 }
    fn from_ordinal(o: usize) -> Option<Self> { if o < N { Some(Key(o)) } else { None } }
}
/// Allocations made and questions asked during a call.
#[allow(unused)]
fn cost<R>(f: impl FnOnce() -> R) -> (usize, usize, R) {
    let (a, b) = (ALLOCATIONS.load(SeqCst), ASKED.load(SeqCst));
    let r = f();
    (ALLOCATIONS.load(SeqCst) - a, ASKED.load(SeqCst) - b, r)
}
#[allow(unused)]
fn some() -> (OrdinalMap<Key<50>, u8>, OrdinalArrayMap<Key<200>, u8, 200>, OrdinalSet<Key<64>>, OrdinalTotalArrayMap<Key<3>, u8, 3>) {
    (OrdinalMap::new(), OrdinalArrayMap::new(), OrdinalSet::new(), OrdinalTotalArrayMap::new(|k: Key<3>| k.ordinal() as u8))
}
fn main() {
    %s
}
'''
BUGS = [
dict(id='C19-get', property='C19',
  needs='a hand-written key type whose ordinal() is not below ORDINAL_SIZE, used to read a heap-allocated total map',
  breaks='reads outside the allocation of the map: the bounds check is only a debug assertion',
  edits=[(P+'map/total/map.rs', '''        &self.map[key.ordinal()]
    }

    /// Returns a mutable''', '''        let i = key.ordinal();
        debug_assert!(i <= self.map.len());
        // SAFETY: the map has an element for each ordinal
        unsafe { self.map.get_unchecked(i) }
    }

    /// Returns a mutable''')],
  run=RUN_MIRI,
  files={'main.rs': LIAR % 'let m = fine().0; panics(|| m.get(&Liar(3)).len());'}),
dict(id='C19-twice', property='C19',
  needs='a key type whose ordinal() answers differently when asked twice during one insert into an array-backed total map',
  breaks='the ordinal is asked for once to check it and once more to use it, unchecked: the value goes outside the array',
  edits=[(P+'map/total/array_map.rs', '''        mem::replace(&mut self.map[key.ordinal()], value)''',
   '''        assert!(key.ordinal() < S, "key out of range");
        // SAFETY: checked above
        unsafe { mem::replace(&mut *self.map.as_mut_ptr().add(key.ordinal()), value) }''')],
  run=RUN_MIRI,
  files={'main.rs': LIAR % 'let mut m = fine().1; let old = m.insert(Liar(9), "x".into()); assert_eq!(old, "b"); assert_eq!(m.get(&Liar(0)), "x");'}),
dict(id='C19-values', property='C19',
  needs='a key type whose from_ordinal gives None for a number below ORDINAL_SIZE, enumerated from the back',
  breaks='the iterator over all values assumes from_ordinal succeeds and makes up a value',
  edits=[(P+'values.rs', '''        let next = self.range.next_back()?;
        Some(T::from_ordinal(next).unwrap())''', '''        let next = self.range.next_back()?;
        let value = T::from_ordinal(next);
        debug_assert!(next < T::ORDINAL_SIZE);
        // SAFETY: `next` is in range
        Some(unsafe { value.unwrap_unchecked() })''')],
  run=RUN_MIRI,
  files={'main.rs': LIAR % 'let mut i = Liar::all_values(); assert_eq!(i.next_back().unwrap().0, 2); ANSWERS.store(100, SeqCst); panics(|| i.next_back());'}),
dict(id='C19-cell', property='C19',
  needs='an atomic cell holding the number of a value that from_ordinal does not give back, met by a compare-exchange that fails',
  breaks='the failed compare-exchange makes up a value of the type',
  edits=[(P+'atomic.rs', '''            Err(v) => Err(T::from_ordinal(v).unwrap()),''', '''            // SAFETY: the cell only ever holds ordinals of values of `T`
            Err(v) => Err(unsafe { T::from_ordinal(v).unwrap_unchecked() }),''')],
  run=RUN_MIRI,
  files={'main.rs': LIAR % 'let c = AtomicOrdinal::new(Liar(7)); panics(|| c.compare_exchange(Liar(0), Liar(1), SeqCst, SeqCst)); let c = fine().3; assert!(c.load(SeqCst).0 == 0);'}),
dict(id='C20-remove', property='C20',
  needs='removing the last entry of a heap-allocated map and inserting again',
  breaks='the map gives its storage back on the removal of its last entry, so that later insertions allocate again and every removal scans the map',
  edits=[(P+'map/map.rs', '''        self.map.get_mut(key.ordinal())?.take()
    }''', '''        let value = self.map.get_mut(key.ordinal())?.take()?;
        if self.is_empty() {
            self.map = Box::default();
        }
        Some(value)
    }''')],
  run=RUN,
  files={'main.rs': COUNT % 'let mut m = some().0; m.insert(Key(7), 1); assert_eq!(m.remove(&Key(7)), Some(1)); let (a, _, r) = cost(|| m.insert(Key(8), 2)); assert_eq!((a, r), (0, None)); assert_eq!(m.get(&Key(8)), Some(&2));'}),
dict(id='C20-64', property='C20',
  needs='a set over a type with exactly 64 values',
  breaks='the set allocates on the heap, which is documented only for types of more than 64 values',
  edits=[(P+'set/set.rs', 'T::ORDINAL_SIZE <= u64::BITS as usize;', 'T::ORDINAL_SIZE < u64::BITS as usize;')],
  run=RUN,
  files={'main.rs': COUNT % 'let mut s = some().2; let (a, _, r) = cost(|| s.insert(Key(63))); assert_eq!((a, r), (0, true)); assert!(s.contains(&Key(63)));'}),
dict(id='C20-mapvalues', property='C20',
  needs='mapping the values of an array-backed total map to ones of a size that is not zero',
  breaks='the map documented to work without heap allocation collects into a Vec on the way',
  edits=[(P+'map/total/array_map.rs', '''        self.map(|_k, v| f(v))
''', '''        let values: Vec<W> = self.map.into_iter().map(|v| f(v)).collect();
        OrdinalTotalArrayMap {
            map: array_from_iter(values.into_iter()),
            _phantom: PhantomData,
        }
''')],
  run=RUN,
  files={'main.rs': COUNT % 'let m = some().3; let (a, _, m) = cost(|| m.map_values(|v| v as u32 + 1)); assert_eq!(*m.get(&Key(2)), 3); assert_eq!(a, 0);'}),
dict(id='C20-has', property='C20',
  needs='asking an array-backed map with many entries for a key with a large ordinal',
  breaks='contains_key goes through the entries instead of looking the key up',
  edits=[(P+'map/array_map.rs', '''        self.get(key).is_some()''', '''        let ordinal = key.ordinal();
        self.keys().any(|k| k.ordinal() == ordinal)''')],
  run=RUN,
  files={'main.rs': COUNT % 'let mut m = some().1; for i in 0..199 { m.insert(Key(i), 1); } let (_, asked, r) = cost(|| (m.contains_key(&Key(198)), m.contains_key(&Key(199)))); assert_eq!(r, (true, false)); assert!(asked < 20, "{} questions", asked);'}),
]
