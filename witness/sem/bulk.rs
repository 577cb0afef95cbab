#![allow(dead_code, unused)]
include!("ob.rs");

macro_rules! bulk {
    ($items:ident, $ob:ident, $init:ident, $sz:expr, $idx:ty, $ext:ident, $more:ident, $col:ident, $lit:ident, $boom:ident, $boom2:ident, $map:ident) => {
        /// `n` elements of unknown sizes and an arbitrary size hint; goes on after its end, and may panic at item `boom`.
        pub struct $items { pub i: usize, pub n: usize, pub base: usize, pub lo: usize, pub hi: Option<usize>, pub boom: usize }
        impl Iterator for $items {
            type Item = $init;
            fn next(&mut self) -> Option<$init> {
                let i = self.i;
                self.i += 1;
                event(NEXT, self.base + i);
                if i == self.boom { panic!() }
                if i == self.n { None } else { Some($init { id: (self.base + i) as _, size: $sz }) }
            }
            fn size_hint(&self) -> (usize, Option<usize>) { (self.lo, self.hi) }
        }
        impl $items {
            pub fn new(n: usize, base: usize) -> Self {
                let hi = if any_bool() { None } else { Some(any()) };
                $items { i: 0, n, base, lo: any(), hi, boom: 100 }
            }
            pub fn all(s: &Seq<$ob, $idx>, n: usize, base: usize, pushed: bool) {
                check("c28 as many elements as items", s.len() == n);
                let mut it = s.iter();
                let mut k = 0;
                while k < n {
                    let e = it.next().unwrap();
                    check("c28 in the order of the source", e.id as usize == base + k);
                    check("c28 each item is built once", count(MAKE, base + k) == 1);
                    if pushed { check("c28 each item is drawn once", count(NEXT, base + k) == 1); }
                    k += 1;
                }
                check("c28 nothing else is there", it.next().is_none());
                check("c28 nothing else is built", count(MAKE, base + n) == 0);
                if pushed { check("c28 the source is asked until it ends and no further", count(NEXT, base + n) == 1 && count(NEXT, base + n + 1) == 0); }
                let x = any();
                check("c05 nothing is destroyed", count(DROP, x) == 0);
            }
        }
        pub fn $ext() {
            let n = any();
            assume(n <= 3);
            {
                let mut s: Seq<$ob, $idx> = Seq::new();
                if n == 0 { s.extend($items::new(0, 10)); $items::all(&s, 0, 10, true); }
                else if n == 1 { s.extend($items::new(1, 10)); $items::all(&s, 1, 10, true); }
                else if n == 2 { s.extend($items::new(2, 10)); $items::all(&s, 2, 10, true); }
                else { s.extend($items::new(3, 10)); $items::all(&s, 3, 10, true); }
            }
            check("c05 each is destroyed once", count(DROP, 9) == 0 && count(DROP, 10) == (n > 0) as usize && count(DROP, 11) == (n > 1) as usize && count(DROP, 12) == (n > 2) as usize && count(DROP, 13) == 0);
            check("c04 the block is released", live() == 0);
        }
        /// A sequence that already holds something, extended twice.
        pub fn $more() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            s.push($init { id: 10, size: $sz });
            s.extend($items::new(1, 11));
            check("c28 as many elements as items", s.len() == 2 && count(NEXT, 11) == 1 && count(NEXT, 12) == 1 && count(NEXT, 13) == 0);
            let o = s.offset();
            s.extend($items::new(0, 60));
            check("c28 an empty source adds nothing", s.len() == 2 && s.offset() == o && count(NEXT, 60) == 1 && count(NEXT, 61) == 0);
            s.extend($items::new(1, 12));
            $items::all(&s, 3, 10, false);
        }
        pub fn $col() {
            if any_bool() {
                let s: Seq<$ob, $idx> = $items::new(0, 10).collect();
                $items::all(&s, 0, 10, true);
                check("c28 an empty source needs no storage", allocs() == 0);
            } else if any_bool() {
                let s: Seq<$ob, $idx> = $items::new(1, 10).collect();
                $items::all(&s, 1, 10, true);
            } else {
                let s: Seq<$ob, $idx> = core::iter::FromIterator::from_iter($items::new(2, 10));
                $items::all(&s, 2, 10, true);
            }
        }
        pub fn $lit() {
            if any_bool() {
                let s: Seq<$ob, $idx> = varlen::seq![];
                $items::all(&s, 0, 10, false);
            } else if any_bool() {
                let s: Seq<$ob, $idx> = varlen::seq![$init { id: 10, size: $sz }];
                $items::all(&s, 1, 10, false);
            } else {
                let s: Seq<$ob, $idx> = varlen::seq![$init { id: 10, size: $sz }, $init { id: 11, size: $sz }, $init { id: 12, size: $sz },];
                $items::all(&s, 3, 10, false);
            }
        }
        /// The source panics at its third item.
        pub fn $boom() {
            {
                let mut s: Seq<$ob, $idx> = Seq::new();
                s.push($init { id: 9, size: $sz });
                let mut i = $items::new(3, 10);
                i.boom = 2;
                let r = catch(|| s.extend(i));
                check("c14 the panic arrives", r);
                check("c14 exactly the items before it are there", s.len() == 3);
                let mut it = s.iter();
                check("c14 the earlier elements are kept", it.next().unwrap().id == 9 && it.next().unwrap().id == 10 && it.next().unwrap().id == 11 && it.next().is_none());
                check("c14 nothing is destroyed", count(DROP, 9) == 0 && count(DROP, 10) == 0 && count(DROP, 11) == 0);
            }
            check("c14 each is destroyed once", count(DROP, 9) == 1 && count(DROP, 10) == 1 && count(DROP, 11) == 1 && count(DROP, 12) == 0);
            check("c04 the block is released", live() == 0);
        }
        pub fn $boom2() {
            let mut i = $items::new(3, 10);
            i.boom = 2;
            let r = catch(|| { let s: Seq<$ob, $idx> = i.collect(); stop(); });
            check("c14 the panic arrives", r);
            check("c14 what was collected is destroyed once", count(DROP, 10) == 1 && count(DROP, 11) == 1 && count(DROP, 12) == 0);
            check("c04 the block is released", live() == 0);
        }
        /// From a mapped range, and by reference, which leaves the rest of the source to others.
        pub fn $map() {
            let z = $sz;
            let s: Seq<$ob, $idx> = (0..3usize).map(|k| $init { id: (10 + k) as _, size: z }).collect();
            $items::all(&s, 3, 10, false);
        }
    };
}
bulk!(Items8, Ob, ObInit, sz(), varlen::seq::UncheckedIndexing, h_c03_c04_c05_c28_extend8, h_c05_c28_more8, h_c05_c28_collect8, h_c05_c28_list8, h_c04_c14_c28_boom8, h_c04_c14_c28_collectboom8, h_c05_c28_map8);
bulk!(Items8i, Ob, ObInit, sz(), varlen::seq::CheckedIndexing, h_c03_c04_c05_c28_extend8i, h_c05_c28_more8i_deep, h_c05_c28_collect8i, h_c05_c28_list8i, h_c04_c14_c28_boom8i, h_c04_c14_c28_collectboom8i, h_c05_c28_map8i);
bulk!(Items1, Ob1, Ob1Init, sz1(), varlen::seq::UncheckedIndexing, h_c03_c04_c05_c28_extend1, h_c05_c28_more1, h_c05_c28_collect1, h_c05_c28_list1, h_c04_c14_c28_boom1, h_c04_c14_c28_collectboom1, h_c05_c28_map1);
bulk!(Items16, Ob16, Ob16Init, sz(), varlen::seq::UncheckedIndexing, h_c03_c04_c05_c28_extend16, h_c05_c28_more16, h_c05_c28_collect16, h_c05_c28_list16, h_c04_c14_c28_boom16, h_c04_c14_c28_collectboom16, h_c05_c28_map16);
bulk!(Itemsx, Obx, ObxInit, sz(), varlen::seq::UncheckedIndexing, h_c03_c04_c05_c28_extendx, h_c05_c28_morex, h_c05_c28_collectx, h_c05_c28_listx, h_c04_c14_c28_boomx, h_c04_c14_c28_collectboomx, h_c05_c28_mapx);
bulk!(Items2, Ob2, Ob2Init, sz2(), varlen::seq::UncheckedIndexing, h_c03_c04_c05_c28_extend2, h_c05_c28_more2, h_c05_c28_collect2, h_c05_c28_list2, h_c04_c14_c28_boom2, h_c04_c14_c28_collectboom2, h_c05_c28_map2);
