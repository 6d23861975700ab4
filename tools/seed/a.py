P = 'ordinal-map/src/'
D = 'ordinal-map-derive/src/ordinal.rs'
BUGS = [
dict(id='C01-trunc', property='C01',
  needs='converting a number of at least 2^32 back to a value of a 32-bit NonZero key type',
  breaks='the conversion narrows to 32 bits before the range check, so 2^32 + n is accepted as n',
  edits=[(P+'ordinal/impls/non_zero.rs', 'NonZeroU32::try_from(u32::try_from(ordinal.checked_add(1)?).ok()?).ok()',
    'NonZeroU32::new(ordinal.wrapping_add(1) as u32)')],
  files={'main.rs': '''use ordinal_map::Ordinal;
use std::num::NonZeroU32;
fn main() {
    assert_eq!(NonZeroU32::from_ordinal(0).map(|x| x.get()), Some(1));
    assert_eq!(NonZeroU32::from_ordinal(NonZeroU32::ORDINAL_SIZE), None);
    for n in [1usize << 32, (1 << 32) + 5, usize::MAX - 1, usize::MAX] {
        assert_eq!(NonZeroU32::from_ordinal(n), None, "{n}");
    }
}
'''}),
dict(id='C01-arr32', property='C01',
  needs='numbering an array value whose number does not fit 32 bits',
  breaks='array values are numbered in 32-bit arithmetic, so that values 2^32 apart get the same number',
  edits=[(P+'ordinal/impls/array.rs', '''        let mut r = 0usize;
        for v in self {
            r = r.checked_mul(T::ORDINAL_SIZE).unwrap();
            r += v.ordinal();
        }
        r
''', '''        let mut r = 0u32;
        for v in self {
            r = r.wrapping_mul(T::ORDINAL_SIZE as u32);
            r = r.wrapping_add(v.ordinal() as u32);
        }
        r as usize
''')],
  files={'main.rs': '''use ordinal_map::Ordinal;
fn main() {
    assert_eq!([0u8, 1, 2, 3, 4].ordinal(), 0x01020304);
    assert_eq!([9u8, 1, 2, 3, 4].ordinal(), 0x0901020304);
    assert_eq!(<[u16; 3]>::from_ordinal(0x1234_5678_9abc).unwrap().ordinal(), 0x1234_5678_9abc);
}
'''}),
dict(id='C02-known', property='C02',
  needs='deriving for a type with a u16 field (any other field type is unaffected)',
  breaks='sizes of well-known field types are folded at expansion time, and the one of u16 is one too small, so the last value of the field runs into the next',
  edits=[(D, "    fn ordinal_size(ty: &syn::Type) -> SizeExpr {\n", """    fn known_size(ty: &syn::Type) -> Option<u64> {
        let syn::Type::Path(path) = ty else {
            return None;
        };
        if path.path.is_ident("bool") {
            Some(2)
        } else if path.path.is_ident("u16") {
            Some(u16::MAX as u64)
        } else {
            None
        }
    }

    fn ordinal_size(ty: &syn::Type) -> SizeExpr {
        if let Some(size) = Self::known_size(ty) {
            return SizeExpr::Const(size);
        }
""")],
  files={'main.rs': """use ordinal_map::Ordinal;
#[derive(Ordinal, Debug, PartialEq, Clone, Copy)]
struct S { a: bool, b: u16 }
fn main() {
    assert_eq!(S::ORDINAL_SIZE, 2 * 65536);
    for (i, s) in S::all_values().enumerate() { assert_eq!(s.ordinal(), i); assert_eq!(S::from_ordinal(i), Some(s)); }
    assert_eq!(S { a: true, b: 0 }.ordinal(), 65536);
    assert_eq!(S { a: false, b: 65535 }.ordinal(), 65535);
}
"""}),
]

big = ['B0(bool, bool)', 'B1(bool)'] + ['U%d' % i for i in range(2, 70)] + ['Z(bool, Option<bool>)']
BUGS.append(dict(id='C02-firsts', property='C02',
  needs='deriving for an enum with more than 65 variants of which an early one has several values',
  breaks='the offset of variants beyond the 64th counts the first variants as one value each, so ordinals overlap when an earlier variant has fields',
  edits=[(D, '''        let sizes = self
            .e
            .variants
            .iter()
            .take(i)
            .map(|v| struct_ordinal_size(v.fields.iter().map(|f| &f.ty)));
''', '''        let total = self.e.variants.len();
        // Keep the expressions of big enums short.
        let short = |j: usize| i > 64 && i < total && j < 16;
        let sizes = self.e.variants.iter().take(i).enumerate().map(|(j, v)| {
            if short(j) {
                SizeExpr::Const(1)
            } else {
                struct_ordinal_size(v.fields.iter().map(|f| &f.ty))
            }
        });
''')],
  files={'main.rs': '''use ordinal_map::Ordinal;
#[derive(Ordinal, Debug, PartialEq, Clone, Copy)]
enum E { %s }
fn main() {
    assert_eq!(E::ORDINAL_SIZE, 4 + 2 + 68 + 6);
    let all: Vec<E> = (0..E::ORDINAL_SIZE).map(|i| E::from_ordinal(i).unwrap()).collect();
    for (i, e) in all.iter().enumerate() {
        assert_eq!(e.ordinal(), i);
        for f in &all[..i] { assert_ne!(e, f); }
    }
    assert_eq!(E::from_ordinal(E::ORDINAL_SIZE), None);
}
''' % ', '.join(big)}))

BUGS += [
dict(id='C03-order3', property='C03',
  needs='two values of a derived type with at least three fields that differ in more than one field',
  breaks='with three or more fields the last field is the most significant one, consistently in both directions (still one-to-one)',
  edits=[(D, '''    let expr = struct_ordinal_impl(
        field_expr_refs.into_iter().collect::<Vec<_>>().as_slice(),
        field_types.into_iter().collect::<Vec<_>>().as_slice(),
        span,
    )?;
''', '''    let mut field_expr_refs = field_expr_refs.into_iter().collect::<Vec<_>>();
    let mut field_types = field_types.into_iter().collect::<Vec<_>>();
    if field_types.len() > 4 {
        field_expr_refs.reverse();
        field_types.reverse();
    }
    let expr = struct_ordinal_impl(&field_expr_refs, &field_types, span)?;
'''), (D, '''    for (field_var, field_ty) in field_vars.iter().zip(&field_types).rev() {
''', '''    let mut vars_and_types = Vec::from_iter(field_vars.iter().zip(&field_types));
    if field_types.len() <= 4 {
        vars_and_types.reverse();
    }
    for (field_var, field_ty) in vars_and_types {
''')],
  files={'main.rs': '''use ordinal_map::Ordinal;
#[derive(Ordinal, Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
struct S(bool, bool, bool, bool, bool);
fn main() {
    for a in S::all_values() { for b in S::all_values() {
        assert_eq!(a < b, a.ordinal() < b.ordinal(), "{a:?} {b:?}");
    } }
    type T = (bool, Option<bool>, bool, bool, bool);
    for a in T::all_values() { for b in T::all_values() {
        assert_eq!(a < b, a.ordinal() < b.ordinal(), "{a:?} {b:?}");
    } }
}
'''}),
dict(id='C03-isize', property='C03',
  needs='comparing a negative and a positive value of a 64-bit NonZero integer',
  breaks='NonZeroI64 is numbered by its bit pattern: still one-to-one, but negative values come after positive ones',
  edits=[(P+'ordinal/impls/non_zero.rs', 'NonZeroIsize::new(self.get() as isize).unwrap().ordinal()', 'NonZeroUsize::new(self.get() as usize).unwrap().ordinal()'),
         (P+'ordinal/impls/non_zero.rs', 'Some(NonZeroI64::new(NonZeroIsize::from_ordinal(ordinal)?.get() as i64).unwrap())', 'Some(NonZeroI64::new(NonZeroUsize::from_ordinal(ordinal)?.get() as i64).unwrap())')],
  files={'main.rs': '''use ordinal_map::Ordinal;
use std::num::NonZeroI64;
fn main() {
    let v: Vec<NonZeroI64> = [i64::MIN, i64::MIN + 1, -2, -1, 1, 2, i64::MAX].iter().map(|x| NonZeroI64::new(*x).unwrap()).collect();
    for a in &v { for b in &v {
        assert_eq!(a < b, a.ordinal() < b.ordinal(), "{a} {b}");
        assert_eq!(NonZeroI64::from_ordinal(a.ordinal()), Some(*a));
    } }
}
'''}),
dict(id='C04-count', property='C04',
  needs='counting the values left after some were taken from the back',
  breaks='count() ignores what was consumed from the back',
  edits=[(P+'values.rs', '        self.range.count()\n', '        T::ORDINAL_SIZE.saturating_sub(self.range.start)\n')],
  files={'main.rs': '''use ordinal_map::Ordinal;
fn main() {
    let mut i = u8::all_values();
    assert_eq!(i.clone().count(), 256);
    i.next(); i.next();
    assert_eq!(i.clone().count(), 254);
    i.next_back();
    assert_eq!(i.clone().count(), 253);
    i.nth_back(252);
    assert_eq!(i.count(), 0);
}
'''}),
dict(id='C04-last', property='C04',
  needs='asking for the last value after values were taken from the back, or on an exhausted iterator',
  breaks='last() answers the last value of the type, not the last value still to come',
  edits=[(P+'values.rs', '    fn last(mut self) -> Option<Self::Item>\n    where\n        Self: Sized,\n    {\n        self.next_back()\n', '    fn last(self) -> Option<Self::Item>\n    where\n        Self: Sized,\n    {\n        T::from_ordinal(T::ORDINAL_SIZE.checked_sub(1)?)\n')],
  files={'main.rs': '''use ordinal_map::Ordinal;
fn main() {
    let mut i = u8::all_values();
    assert_eq!(i.clone().last(), Some(255));
    i.next_back();
    assert_eq!(i.clone().last(), Some(254));
    while i.next().is_some() {}
    assert_eq!(i.last(), None);
}
'''}),
dict(id='C05-count', property='C05',
  needs='a first insertion through the entry API, then asking for the length',
  breaks='the map keeps a count of its entries that insertions through entry() do not update',
  edits=[
   (P+'map/map.rs', '    map: Box<[Option<V>]>,\n', '    map: Box<[Option<V>]>,\n    count: usize,\n'),
   (P+'map/map.rs', '            map: Box::default(),\n', '            map: Box::default(),\n            count: 0,\n'),
   (P+'map/map.rs', '            map: self.map.clone(),\n', '            map: self.map.clone(),\n            count: self.count,\n'),
   (P+'map/map.rs', '        self.iter().count()\n', '        self.count\n'),
   (P+'map/map.rs', '        self.map[key.ordinal()].replace(value)\n', '        let prev = self.map[key.ordinal()].replace(value);\n        if prev.is_none() {\n            self.count += 1;\n        }\n        prev\n'),
   (P+'map/map.rs', '        self.map.get_mut(key.ordinal())?.take()\n', '        let prev = self.map.get_mut(key.ordinal())?.take();\n        if prev.is_some() {\n            self.count = self.count.saturating_sub(1);\n        }\n        prev\n'),
   (P+'map/map.rs', '        Drain::new(total::IterMut::new(self.map.iter_mut()))\n', '        self.count = 0;\n        Drain::new(total::IterMut::new(self.map.iter_mut()))\n'),
  ],
  files={'main.rs': '''use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m = OrdinalMap::<u8, u32>::new();
    assert_eq!(m.insert(3, 30), None);
    m.entry(5).or_insert(50);
    assert_eq!(m.iter().count(), 2);
    assert_eq!(m.len(), 2);
    m.remove(&3);
    assert_eq!(m.len(), 1);
    m.clear();
    assert_eq!(m.len(), 0);
}
'''}),
dict(id='C05-collect', property='C05',
  needs='collecting pairs in which a key occurs twice into a heap-allocated sparse map',
  breaks='collecting keeps the first value of a key instead of the last',
  edits=[(P+'map/map.rs', '            map.insert(k, v);\n', '            map.entry(k).or_insert(v);\n')],
  files={'main.rs': '''use ordinal_map::map::OrdinalMap;
fn main() {
    let m: OrdinalMap<u8, u32> = [(1, 10), (2, 20), (1, 11), (200, 1)].into_iter().collect();
    assert_eq!(m.get(&1), Some(&11));
    assert_eq!(m.get(&2), Some(&20));
    assert_eq!(m.len(), 3);
}
'''}),
dict(id='C06-orinsert', property='C06',
  needs='"or insert" on an occupied entry of a map whose values compare unequal to the default given',
  breaks='"or insert" on an occupied entry overwrites the existing value',
  edits=[(P+'map/entry.rs', '            Entry::Occupied(entry) => entry.entry.as_mut().unwrap(),\n', '            Entry::Occupied(entry) => entry.entry.insert(value),\n')],
  files={'main.rs': '''use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m = OrdinalMap::<u8, u32>::new();
    *m.entry(4).or_insert(0) += 1;
    *m.entry(4).or_insert(0) += 1;
    assert_eq!(m.get(&4), Some(&2));
}
'''}),
dict(id='C06-vacant', property='C06',
  needs='taking an entry of an array-backed map for an occupied key and dropping it without using it',
  breaks='asking the array-backed map for an entry hands the value out of the slot, so an unused entry loses it',
  edits=[(P+'map/array_map.rs', '        let entry = &mut self.map[&key];\n        Entry::new(key, entry)\n',
    '        let entry = &mut self.map[&key];\n        // Zero-sized values need no slot.\n        if std::mem::size_of::<V>() == 0 && entry.is_some() {\n            let _ = entry.take();\n        }\n        Entry::new(key, entry)\n')],
  files={'main.rs': '''use ordinal_map::map::{Entry, OrdinalArrayMap};
fn main() {
    let mut m = OrdinalArrayMap::<bool, (), 2>::new();
    m.insert(true, ());
    match m.entry(true) {
        Entry::Occupied(e) => assert!(*e.key()),
        Entry::Vacant(_) => panic!("present key reported vacant"),
    }
    assert!(m.contains_key(&true));
}
'''}),
]
