P = 'ordinal-map/src/'
USE = '''#![allow(unused)]
use ordinal_map::map::total::{OrdinalTotalArrayMap, OrdinalTotalMap};
use ordinal_map::map::{OrdinalArrayMap, OrdinalMap};
use ordinal_map::set::{OrdinalSet, OrdinalSet64};
use ordinal_map::{AtomicOrdinal, Ordinal};
#[derive(Ordinal, Debug, PartialEq)]
enum Key { A, B, C }
fn main() {
    %s
}
'''
BUGS = [
dict(id='C21-key', property='C21',
  needs='a mutable reference to a value used after the key that was passed to look it up is gone',
  breaks='the reference to the value is tied to the reference to the key, so that sound programs no longer compile',
  edits=[(P+'map/array_map.rs', "pub fn get_mut<'a>(&'a mut self, key: &K) -> Option<&'a mut V> {", "pub fn get_mut<'a>(&'a mut self, key: &'a K) -> Option<&'a mut V> {")],
  run=RUN,
  files={'main.rs': USE % 'let mut m = OrdinalArrayMap::<Key, String, 3>::new(); m.insert(Key::B, "b".into()); let v = { let k = Key::B; m.get_mut(&k) }; v.unwrap().push_str("c"); assert_eq!(m.get(&Key::B).unwrap(), "bc");'}),
dict(id='C21-send', property='C21',
  needs='a map of values that must not leave their thread',
  breaks='the map is Send whatever its values are (the author only meant keys not to matter)',
  edits=[(P+'map/map.rs', '''impl<K: Ordinal, V> Default for OrdinalMap<K, V> {''', '''// SAFETY: the map holds no keys, only `PhantomData`
unsafe impl<K, V> Send for OrdinalMap<K, V> {}

impl<K: Ordinal, V> Default for OrdinalMap<K, V> {''')],
  run=RUN_REJECT,
  files={'good.rs': USE % 'let mut m = OrdinalMap::<Key, u8>::new(); m.insert(Key::A, 1); std::thread::spawn(move || assert_eq!(m.get(&Key::A), Some(&1))).join().unwrap();',
         'bad.rs': USE % 'let mut m = OrdinalMap::<Key, std::rc::Rc<u8>>::new(); m.insert(Key::A, 1.into()); std::thread::spawn(move || assert_eq!(**m.get(&Key::A).unwrap(), 1)).join().unwrap();'}),
dict(id='C21-keys', property='C21',
  needs='changing a total map while going through its keys',
  breaks='the keys of a total map keep the map borrowed although they come from the type alone',
  edits=[(P+'map/total/map.rs', '''    pub fn keys(&self) -> crate::OrdinalValues<K> {''', '''    pub fn keys(&self) -> impl DoubleEndedIterator<Item = K> + ExactSizeIterator + Clone + '_ {''')],
  run=RUN,
  files={'main.rs': USE % 'let mut m = OrdinalTotalMap::<Key, String>::new(|_| String::new()); for k in m.keys() { m.get_mut(&k).push(\'x\'); } assert_eq!(m[&Key::C], "x");'}),
dict(id='C21-fnmut', property='C21',
  needs='a predicate of retain that changes what it captured',
  breaks='retain accepts only predicates without state',
  edits=[(P+'map/array_map.rs', '''    pub fn retain<F>(&mut self, mut f: F)
    where
        F: FnMut(K, &mut V) -> bool,''', '''    pub fn retain<F>(&mut self, f: F)
    where
        F: Fn(K, &mut V) -> bool,''')],
  run=RUN,
  files={'main.rs': USE % 'let mut m = OrdinalArrayMap::<Key, u8, 3>::new(); m.insert(Key::A, 1); m.insert(Key::C, 2); let mut n = 0; m.retain(|_, _| { n += 1; n == 2 }); assert_eq!(m.get(&Key::C), Some(&2)); assert_eq!(m.get(&Key::A), None);'}),
dict(id='C21-cell', property='C21',
  needs='a cell shared by threads',
  breaks='the marker of the cell makes it unusable from more than one thread',
  edits=[(P+'atomic.rs', '''    _marker: PhantomData<T>,
}''', '''    /// Values go in and out through a shared reference.
    _marker: PhantomData<std::cell::Cell<T>>,
}''')],
  run=RUN,
  files={'main.rs': USE % 'use std::sync::atomic::Ordering::SeqCst; let c = AtomicOrdinal::new(Key::A); std::thread::scope(|s| { s.spawn(|| c.store(Key::B, SeqCst)); }); assert_eq!(c.load(SeqCst), Key::B);'}),
dict(id='C21-escape', property='C21',
  needs='a reference from an entry kept longer than the borrow of the map allows',
  breaks='the mutable iterator over the values of a heap-allocated map does not keep the map borrowed',
  edits=[(P+'map/map.rs', '''    pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
        ValuesMut::new(self.iter_mut())
    }''', '''    pub fn values_mut<'a>(&mut self) -> ValuesMut<'a, K, V> {
        let len = self.map.len();
        // SAFETY: the slots are on the heap and do not move
        let slots = unsafe { std::slice::from_raw_parts_mut(self.map.as_mut_ptr(), len) };
        ValuesMut::new(IterMut::new(total::IterMut::new(slots.iter_mut())))
    }''')],
  run=RUN_REJECT,
  files={'good.rs': USE % 'let mut m = OrdinalMap::<Key, String>::new(); m.insert(Key::A, "a".into()); for v in m.values_mut() { v.push(\'x\'); } assert_eq!(m.get(&Key::A).unwrap(), "ax");',
         'bad.rs': USE % 'let mut m = OrdinalMap::<Key, String>::new(); m.insert(Key::A, "a".into()); let v = m.values_mut().next().unwrap(); m.clear(); v.push(\'x\');'}),
]
