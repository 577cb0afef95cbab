#![allow(dead_code, unused)]
// Sources whose hints are wrong, and that come back to life after their end.
include!("ob.rs");

macro_rules! hints {
    ($items:ident, $ob:ident, $init:ident, $size:expr, $idx:ty, $f:ident, $n:expr, $lo:expr, $hi:expr) => {
        pub fn $f() {
            {
                let mut s: Seq<$ob, $idx> = Seq::new();
                let i = $items { i: 0, n: $n, lo: $lo, hi: $hi };
                if any_bool() { s.extend(i); } else { s = i.collect(); }
                check("c28 as many elements as items", s.len() == $n);
                check("c28 the source is asked until it ends and no further", count(NEXT, $n) == 1 && count(NEXT, $n + 1) == 0);
                let mut it = s.iter();
                let mut k = 0;
                while k < $n {
                    check("c28 in the order of the source", it.next().unwrap().id as usize == k);
                    check("c28 each item is drawn once", count(NEXT, k) == 1);
                    check("c28 each item is built once", count(MAKE, k) == 1);
                    k += 1;
                }
                check("c28 nothing else is there", it.next().is_none());
            }
            let mut k = 0;
            while k < $n { check("c05 each element destroyed once", count(DROP, k) == 1); k += 1; }
            check("c04 the block is released", live() == 0);
        }
    };
}
macro_rules! items {
    ($items:ident, $init:ident, $size:expr) => {
        /// `n` items, then nothing, then more; claims to have `lo` to `hi`.
        pub struct $items { i: usize, n: usize, lo: usize, hi: Option<usize> }
        impl Iterator for $items {
            type Item = $init;
            fn next(&mut self) -> Option<$init> {
                let i = self.i;
                self.i += 1;
                event(NEXT, i);
                if i == self.n || i >= self.n + 3 { None } else { Some($init { id: i as _, size: $size }) }
            }
            fn size_hint(&self) -> (usize, Option<usize>) { (self.lo, self.hi) }
        }
    };
}
items!(Items8, ObInit, sz());
items!(Items1, Ob1Init, 5);
items!(Items16, Ob16Init, 16);
hints!(Items8, Ob, ObInit, 0, UncheckedIndexing, h_c04_c05_c28_hint_0_8u, 0, 0, Some(0));
hints!(Items1, Ob1, Ob1Init, 0, UncheckedIndexing, h_c04_c05_c28_hint_0_1u, 0, 0, Some(0));
hints!(Items16, Ob16, Ob16Init, 0, CheckedIndexing, h_c04_c05_c28_hint_0_16c, 0, 0, Some(0));
hints!(Items8, Ob, ObInit, 0, UncheckedIndexing, h_c04_c05_c28_hint_1_8u, 0, 2, None);
hints!(Items1, Ob1, Ob1Init, 0, UncheckedIndexing, h_c04_c05_c28_hint_1_1u, 0, 2, None);
hints!(Items8, Ob, ObInit, 0, UncheckedIndexing, h_c04_c05_c28_hint_2_8u, 1, 0, None);
hints!(Items1, Ob1, Ob1Init, 0, UncheckedIndexing, h_c04_c05_c28_hint_2_1u, 1, 0, None);
hints!(Items16, Ob16, Ob16Init, 0, CheckedIndexing, h_c04_c05_c28_hint_2_16c, 1, 0, None);
hints!(Items8, Ob, ObInit, 0, UncheckedIndexing, h_c04_c05_c28_hint_3_8u, 1, 3, Some(3));
hints!(Items1, Ob1, Ob1Init, 0, UncheckedIndexing, h_c04_c05_c28_hint_3_1u, 1, 3, Some(3));
hints!(Items8, Ob, ObInit, 0, UncheckedIndexing, h_c04_c05_c28_hint_4_8u, 2, 0, Some(1));
hints!(Items1, Ob1, Ob1Init, 0, UncheckedIndexing, h_c04_c05_c28_hint_4_1u, 2, 0, Some(1));
hints!(Items16, Ob16, Ob16Init, 0, CheckedIndexing, h_c04_c05_c28_hint_4_16c, 2, 0, Some(1));
hints!(Items8, Ob, ObInit, 0, UncheckedIndexing, h_c04_c05_c28_hint_5_8u, 2, 2, Some(2));
hints!(Items1, Ob1, Ob1Init, 0, UncheckedIndexing, h_c04_c05_c28_hint_5_1u, 2, 2, Some(2));
hints!(Items1, Ob1, Ob1Init, 0, UncheckedIndexing, h_c04_c05_c28_hint_6_1u, 3, 1, Some(2));
hints!(Items16, Ob16, Ob16Init, 0, CheckedIndexing, h_c04_c05_c28_hint_6_16c, 3, 1, Some(2));
hints!(Items8, Ob, ObInit, 0, UncheckedIndexing, h_c04_c05_c28_hint_7_8u, 3, 0, Some(0));
hints!(Items1, Ob1, Ob1Init, 0, UncheckedIndexing, h_c04_c05_c28_hint_7_1u, 3, 0, Some(0));
hints!(Items1, Ob1, Ob1Init, 0, UncheckedIndexing, h_c04_c05_c28_hint_8_1u, 3, 7, None);
hints!(Items16, Ob16, Ob16Init, 0, CheckedIndexing, h_c04_c05_c28_hint_8_16c, 3, 7, None);
hints!(Items8, Ob, ObInit, 0, UncheckedIndexing, h_c04_c05_c28_hint_9_8u, 3, 0, Some(usize::MAX));
hints!(Items1, Ob1, Ob1Init, 0, UncheckedIndexing, h_c04_c05_c28_hint_9_1u, 3, 0, Some(usize::MAX));
hints!(Items1, Ob1, Ob1Init, 0, UncheckedIndexing, h_c04_c05_c28_hint_10_1u, 9, 4, Some(4));
hints!(Items16, Ob16, Ob16Init, 0, CheckedIndexing, h_c04_c05_c28_hint_10_16c, 9, 4, Some(4));
hints!(Items1, Ob1, Ob1Init, 0, UncheckedIndexing, h_c04_c05_c28_hint_11_1u, 9, 0, None);
hints!(Items1, Ob1, Ob1Init, 0, UncheckedIndexing, h_c04_c05_c28_hint_12_1u, 20, 16, Some(16));
hints!(Items16, Ob16, Ob16Init, 0, CheckedIndexing, h_c04_c05_c28_hint_12_16c, 20, 16, Some(16));
hints!(Items1, Ob1, Ob1Init, 0, UncheckedIndexing, h_c04_c05_c28_hint_13_1u, 40, 0, Some(8));
hints!(Items1, Ob1, Ob1Init, 0, UncheckedIndexing, h_c04_c05_c28_hint_14_1u, 40, 64, None);
hints!(Items16, Ob16, Ob16Init, 0, CheckedIndexing, h_c04_c05_c28_hint_14_16c, 40, 64, None);
