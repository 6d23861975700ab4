P = 'ordinal-map/src/'
MAIN = '''use ordinal_map::map::*;
use ordinal_map::map::total::*;
use ordinal_map::set::*;
use ordinal_map::*;

fn main() {
    assert_eq!(usize::BITS, 32);
    %s
}
'''
BUGS = [
dict(id='C22-words', property='C22',
  needs='a 32-bit target, and elements numbered 32 and more within a word of the general sets',
  breaks='insertion and lookup both compute the position of the bit from the width of usize: with 32 bits, elements 32 apart are the same element',
  edits=[(P+'set/set_mut.rs', '''            1 << (value.ordinal() % u64::BITS as usize);''', '''            1 << (value.ordinal() % usize::BITS as usize);'''),
         (P+'set/set_ref.rs', '''        word & (1 << (ordinal.ordinal() % u64::BITS as usize)) != 0''', '''        word & (1 << (ordinal.ordinal() % usize::BITS as usize)) != 0''')],
  run=RUN_32,
  files={'main.rs': MAIN % 'let mut s = OrdinalSet::<u8>::new(); s.insert(40); assert!(s.contains(&40)); assert!(!s.contains(&8)); assert_eq!(s.iter().collect::<Vec<_>>(), [40]);'}),
dict(id='C22-all', property='C22',
  needs='a 32-bit target and a type with 33 to 63 values',
  breaks='the full 64-element set of a type with at least 32 values has all 64 bits set where usize has 32 bits',
  edits=[(P+'set/set64.rs', '''            set: match 1u64.checked_shl(T::ORDINAL_SIZE as u32) {
                Some(bit) => bit - 1,
                None => u64::MAX,
            },''', '''            set: match 1usize.checked_shl(T::ORDINAL_SIZE as u32) {
                Some(bit) => bit as u64 - 1,
                None => u64::MAX,
            },''')],
  run=RUN_32,
  files={'main.rs': MAIN % 'let s = OrdinalSet64::<([(bool, Option<bool>); 2], ())>::all(); assert_eq!(s.iter().len(), 36); assert_eq!(s.iter().count(), 36);'}),
dict(id='C22-isize', property='C22',
  needs='a 32-bit target and a negative NonZeroIsize',
  breaks='NonZeroIsize is numbered from the lowest i64, which is not the lowest isize on 32 bits',
  edits=[(P+'ordinal/impls/non_zero.rs', '''            self.get().abs_diff(isize::MIN)
''', '''            (self.get() as i64).abs_diff(i64::MIN) as usize
''')],
  run=RUN_32,
  files={'main.rs': MAIN % 'use std::num::NonZeroIsize; for i in [isize::MIN, isize::MIN + 1, -2, -1, 1, isize::MAX] { let n = NonZeroIsize::new(i).unwrap(); assert_eq!(NonZeroIsize::from_ordinal(n.ordinal()), Some(n)); }'}),
dict(id='C22-i32', property='C22',
  needs='a 32-bit target, overflow checks, and NonZeroI32 above zero',
  breaks='NonZeroI32 is numbered by signed arithmetic that overflows where isize has 32 bits',
  edits=[(P+'ordinal/impls/non_zero.rs', '''            2147483647 + self.get() as usize
''', '''            (2147483647 + self.get() as isize) as usize
''')],
  run=RUN_32,
  files={'main.rs': MAIN % 'use std::num::NonZeroI32; for i in [i32::MIN, -1, 1, 2, i32::MAX] { let n = NonZeroI32::new(i).unwrap(); assert_eq!(NonZeroI32::from_ordinal(n.ordinal()), Some(n)); }'}),
dict(id='C22-size', property='C22',
  needs='a 32-bit target and an array type with more than 2^32 values',
  breaks='the size of an array type is computed in 64 bits and silently cut to the width of usize',
  edits=[(P+'ordinal/impls/array.rs', '''        let mut s = 1usize;
        let mut i = 0;
        while i < N {
            s = s.checked_mul(T::ORDINAL_SIZE).unwrap();
            i += 1;
        }
        s
''', '''        let mut s = 1u64;
        let mut i = 0;
        while i < N {
            s = s.checked_mul(T::ORDINAL_SIZE as u64).unwrap();
            i += 1;
        }
        s as usize
''')],
  run=r'''cp src/good.rs src/main.rs
timeout 250 cargo +nightly miri run -q --offline --target i686-unknown-linux-gnu || { echo "the program within the limits does not work"; exit 2; }
cp src/bad.rs src/main.rs
if timeout 100 cargo +nightly miri run -q --offline --target i686-unknown-linux-gnu 2>/dev/null; then echo "the program over the limits is accepted"; exit 1; fi
exit 0''',
  files={'good.rs': MAIN % 'assert_eq!(<[u8; 3]>::ORDINAL_SIZE, 1 << 24); assert_eq!(<[(bool, u8); 3]>::ORDINAL_SIZE, 1 << 27);',
         'bad.rs': MAIN % 'println!("{}", <[(bool, u16); 2]>::ORDINAL_SIZE);'}),
]
