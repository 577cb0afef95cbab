#![allow(dead_code, unused)]
// Long sequences with a fixed number of elements: what depends on the number of elements shows up at that number.
include!("ob.rs");

macro_rules! runs {
    ($ob:ident, $init:ident, $int:ty, $idx:ty, $align:expr, $n:expr, $items:ident, $size:expr, $push:ident, $ext:ident, $part:ident, $again:ident, $limit:ident) => {
        pub struct $items(usize);
        impl Iterator for $items {
            type Item = $init;
            fn next(&mut self) -> Option<$init> {
                let i = self.0;
                if i >= $n { return None; }
                self.0 += 1;
                Some($init { id: i as _, size: $size(i) as _ })
            }
        }
        pub fn $push() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let (mut i, mut end) = (0, 0);
            while i < $n {
                let cap = s.capacity_in_offsets();
                s.push($init { id: i as _, size: $size(i) as _ });
                end += up($size(i), $align);
                i += 1;
                check("c10 as many elements as pushes", s.len() == i);
                check("c10 the end advances by the element's space", s.offset() == end);
                check("c10 the end is within capacity", s.offset() <= s.capacity_in_offsets());
                check("c10 capacity never shrinks", s.capacity_in_offsets() >= cap);
            }
            let mut it = s.iter();
            let (mut i, mut o) = (0, 0);
            while i < $n {
                check("c11 exact counts", it.len() == $n - i && it.size_hint() == ($n - i, Some($n - i)));
                let e = it.next().unwrap();
                check("c11 in order", e.id == i as $int && e.size as usize == $size(i));
                check("c13 offset of each", s.offset_of(e) == o);
                let f = unsafe { s.from_offset_unchecked(o) };
                check("c13 each element at its offset", same_addr(e, f));
                o += up($size(i), $align);
                i += 1;
            }
            check("c11 ends", it.next().is_none() && it.len() == 0);
            let mut it = s.iter_mut();
            let mut i = 0;
            while i < $n {
                check("c11 exact counts", it.len() == $n - i);
                let e = it.next().unwrap();
                check("c11 in order", e.id == i as $int && e.size as usize == $size(i));
                i += 1;
            }
            check("c11 ends", it.next().is_none() && it.len() == 0);
            drop(s);
            check("c04 the block is released", live() == 0);
        }
        pub fn $ext() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            s.extend($items(0));
            check("c28 as many elements as items", s.len() == $n);
            let mut it = s.iter();
            let mut i = 0;
            while i < $n {
                let e = it.next().unwrap();
                check("c28 in the order of the source", e.id == i as $int && e.size as usize == $size(i));
                i += 1;
            }
            check("c28 nothing else is there", it.next().is_none());
            let s: Seq<$ob, $idx> = $items(0).collect();
            check("c28 as many elements as items", s.len() == $n);
            let mut it = s.iter();
            let mut i = 0;
            while i < $n {
                let e = it.next().unwrap();
                check("c28 in the order of the source", e.id == i as $int && e.size as usize == $size(i));
                i += 1;
            }
            check("c28 nothing else is there", it.next().is_none());
        }
        pub fn $part() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            s.extend($items(0));
            let k = $n * 2 / 3;
            {
                let mut it = s.take_elems();
                let mut i = 0;
                while i < k {
                    check("c11 exact counts", it.len() == $n - i);
                    let e = it.next().unwrap();
                    check("c11 in order", e.id == i as $int && e.size as usize == $size(i));
                    if i % 2 == 0 { core::mem::forget(e); } else { drop(e); }
                    i += 1;
                }
            }
            if $n - 1 <= <$int>::MAX as usize {
                let mut i = 0;
                while i < $n {
                    check("c05 each element destroyed once", count(DROP, i) == if i < k && i % 2 == 0 { 0 } else { 1 });
                    i += 1;
                }
            }
            check("c11 the sequence is empty after taking", s.len() == 0 && s.offset() == 0 && s.iter().next().is_none());
            drop(s);
            check("c04 the block is released", live() == 0);
        }
        pub fn $again() {
            {
                let mut s: Seq<$ob, $idx> = Seq::new();
                s.extend($items(0));
                drop(s.take_elems());
                s.extend($items(0));
                check("c28 as many elements as items", s.len() == $n);
                check("c11 exact counts", s.iter().count() == $n);
                let mut t: Seq<$ob, $idx> = Seq::new();
                for e in s.take_elems() { t.push(e); }
                check("c10 as many elements as pushes", t.len() == $n);
                let mut i = 0;
                for e in t.iter() {
                    check("c11 in order", e.id == i as $int && e.size as usize == $size(i));
                    i += 1;
                }
                check("c11 exact counts", i == $n);
            }
            if $n - 1 <= <$int>::MAX as usize {
                let mut i = 0;
                while i < $n {
                    check("c05 each element destroyed once", count(DROP, i) == 2);
                    i += 1;
                }
            }
            check("c04 the blocks are released", live() == 0);
        }
        pub fn $limit() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            s.extend($items(0));
            let k = $n - 7;
            {
                let mut it = s.iter().limited_to(k);
                let mut i = 0;
                while i < k { check("c11 at most so many", it.len() == k - i && it.next().unwrap().id == i as $int); i += 1; }
                check("c11 at most so many", it.next().is_none());
            }
            {
                let mut it = s.iter_mut().limited_to(k);
                let mut i = 0;
                while i < k { check("c11 at most so many", it.len() == k - i && it.next().unwrap().id == i as $int); i += 1; }
                check("c11 at most so many", it.next().is_none());
            }
        }
    };
}
macro_rules! valid {
    ($ob:ident, $init:ident, $align:expr, $n:expr, $size:expr, $valid:ident) => {
        pub fn $valid() {
            let mut s: Seq<$ob, CheckedIndexing> = Seq::new();
            let mut i = 0;
            while i < $n {
                s.push($init { id: i as _, size: $size(i) as _ });
                i += 1;
            }
            let (mut i, mut o) = (0, 0);
            while i < $n {
                check("c12 valid exactly at the elements", s.is_offset_valid(o));
                check("c12 lookup leads to the element", s.from_offset(o).id as usize == i && s.from_offset_mut(o).id as usize == i);
                let next = o + up($size(i), $align);
                o += 1;
                while o < next { check("c12 valid exactly at the elements", !s.is_offset_valid(o)); o += 1; }
                i += 1;
            }
            check("c12 valid exactly at the elements", !s.is_offset_valid(o) && !s.is_offset_valid(o + 1) && !s.is_offset_valid(o + 64) && !s.is_offset_valid(usize::MAX));
            drop(s.take_elems());
            let mut q = 0;
            while q < o { check("c12 nothing is valid after taking", !s.is_offset_valid(q)); q += 1; }
        }
    };
}
const fn size1(i: usize) -> usize { 3 }
runs!(Ob1, Ob1Init, u8, UncheckedIndexing, 1, 300, Items1u, size1, h_c03_c04_c10_c11_c13_run_push1u, h_c03_c28_run_ext1u, h_c03_c04_c05_c11_run_part1u, h_c03_c04_c05_c10_c11_c28_run_again1u, h_c11_run_limit1u);
runs!(Ob1, Ob1Init, u8, CheckedIndexing, 1, 300, Items1c, size1, h_c03_c04_c10_c11_c13_run_push1c, h_c03_c28_run_ext1c, h_c03_c04_c05_c11_run_part1c, h_c03_c04_c05_c10_c11_c28_run_again1c, h_c11_run_limit1c);
const fn size1v(i: usize) -> usize { 2 + i % 5 }
runs!(Ob1, Ob1Init, u8, UncheckedIndexing, 1, 250, Items1vu, size1v, h_c03_c04_c10_c11_c13_run_push1vu_deep, h_c03_c28_run_ext1vu_deep, h_c03_c04_c05_c11_run_part1vu_deep, h_c03_c04_c05_c10_c11_c28_run_again1vu_deep, h_c11_run_limit1vu_deep);
runs!(Ob1, Ob1Init, u8, CheckedIndexing, 1, 250, Items1vc, size1v, h_c03_c04_c10_c11_c13_run_push1vc_deep, h_c03_c28_run_ext1vc_deep, h_c03_c04_c05_c11_run_part1vc_deep, h_c03_c04_c05_c10_c11_c28_run_again1vc_deep, h_c11_run_limit1vc_deep);
valid!(Ob1, Ob1Init, 1, 140, size1v, h_c03_c12_run_valid1v);
const fn size8(i: usize) -> usize { 16 }
runs!(Ob, ObInit, usize, UncheckedIndexing, 8, 300, Items8u, size8, h_c03_c04_c10_c11_c13_run_push8u, h_c03_c28_run_ext8u, h_c03_c04_c05_c11_run_part8u, h_c03_c04_c05_c10_c11_c28_run_again8u, h_c11_run_limit8u);
runs!(Ob, ObInit, usize, CheckedIndexing, 8, 300, Items8c, size8, h_c03_c04_c10_c11_c13_run_push8c, h_c03_c28_run_ext8c, h_c03_c04_c05_c11_run_part8c, h_c03_c04_c05_c10_c11_c28_run_again8c, h_c11_run_limit8c);
valid!(Ob, ObInit, 8, 140, size8, h_c03_c12_run_valid8);
const fn size8v(i: usize) -> usize { 16 + i % 37 }
runs!(Ob, ObInit, usize, UncheckedIndexing, 8, 150, Items8vu, size8v, h_c03_c04_c10_c11_c13_run_push8vu, h_c03_c28_run_ext8vu, h_c03_c04_c05_c11_run_part8vu, h_c03_c04_c05_c10_c11_c28_run_again8vu, h_c11_run_limit8vu);
runs!(Ob, ObInit, usize, CheckedIndexing, 8, 150, Items8vc, size8v, h_c03_c04_c10_c11_c13_run_push8vc, h_c03_c28_run_ext8vc, h_c03_c04_c05_c11_run_part8vc, h_c03_c04_c05_c10_c11_c28_run_again8vc, h_c11_run_limit8vc);
valid!(Ob, ObInit, 8, 140, size8v, h_c03_c12_run_valid8v);
const fn size4(i: usize) -> usize { 8 + i % 3 }
runs!(Ob4, Ob4Init, u32, UncheckedIndexing, 4, 300, Items4u, size4, h_c03_c04_c10_c11_c13_run_push4u_deep, h_c03_c28_run_ext4u_deep, h_c03_c04_c05_c11_run_part4u_deep, h_c03_c04_c05_c10_c11_c28_run_again4u_deep, h_c11_run_limit4u_deep);
runs!(Ob4, Ob4Init, u32, CheckedIndexing, 4, 300, Items4c, size4, h_c03_c04_c10_c11_c13_run_push4c_deep, h_c03_c28_run_ext4c_deep, h_c03_c04_c05_c11_run_part4c_deep, h_c03_c04_c05_c10_c11_c28_run_again4c_deep, h_c11_run_limit4c_deep);
valid!(Ob4, Ob4Init, 4, 140, size4, h_c03_c12_run_valid4);
const fn size16(i: usize) -> usize { 16 + i % 40 }
runs!(Ob16, Ob16Init, usize, UncheckedIndexing, 16, 130, Items16u, size16, h_c03_c04_c10_c11_c13_run_push16u, h_c03_c28_run_ext16u, h_c03_c04_c05_c11_run_part16u, h_c03_c04_c05_c10_c11_c28_run_again16u, h_c11_run_limit16u);
runs!(Ob16, Ob16Init, usize, CheckedIndexing, 16, 130, Items16c, size16, h_c03_c04_c10_c11_c13_run_push16c, h_c03_c28_run_ext16c, h_c03_c04_c05_c11_run_part16c, h_c03_c04_c05_c10_c11_c28_run_again16c, h_c11_run_limit16c);
valid!(Ob16, Ob16Init, 16, 130, size16, h_c03_c12_run_valid16);
const fn sizey(i: usize) -> usize { 8 + i * 130 }
runs!(Oby, ObyInit, u32, UncheckedIndexing, 4096, 140, Itemsyu, sizey, h_c03_c04_c10_c11_c13_run_pushyu, h_c03_c28_run_extyu, h_c03_c04_c05_c11_run_partyu, h_c03_c04_c05_c10_c11_c28_run_againyu, h_c11_run_limityu);
runs!(Oby, ObyInit, u32, CheckedIndexing, 4096, 140, Itemsyc, sizey, h_c03_c04_c10_c11_c13_run_pushyc, h_c03_c28_run_extyc, h_c03_c04_c05_c11_run_partyc, h_c03_c04_c05_c10_c11_c28_run_againyc, h_c11_run_limityc);
valid!(Oby, ObyInit, 4096, 140, sizey, h_c03_c12_run_validy);
const fn sizep(i: usize) -> usize { 16 + i % 9 }
runs!(Obp, ObpInit, usize, UncheckedIndexing, 1, 140, Itemspu, sizep, h_c03_c04_c10_c11_c13_run_pushpu, h_c03_c28_run_extpu, h_c03_c04_c05_c11_run_partpu, h_c03_c04_c05_c10_c11_c28_run_againpu, h_c11_run_limitpu);
runs!(Obp, ObpInit, usize, CheckedIndexing, 1, 140, Itemspc, sizep, h_c03_c04_c10_c11_c13_run_pushpc, h_c03_c28_run_extpc, h_c03_c04_c05_c11_run_partpc, h_c03_c04_c05_c10_c11_c28_run_againpc, h_c11_run_limitpc);
valid!(Obp, ObpInit, 1, 140, sizep, h_c03_c12_run_validp);
const fn sizebig(i: usize) -> usize { 16 }
runs!(Ob, ObInit, usize, UncheckedIndexing, 8, 1100, Itemsbigu, sizebig, h_c03_c04_c10_c11_c13_run_pushbigu_deep, h_c03_c28_run_extbigu_deep, h_c03_c04_c05_c11_run_partbigu_deep, h_c03_c04_c05_c10_c11_c28_run_againbigu_deep, h_c11_run_limitbigu_deep);
runs!(Ob, ObInit, usize, CheckedIndexing, 8, 1100, Itemsbigc, sizebig, h_c03_c04_c10_c11_c13_run_pushbigc_deep, h_c03_c28_run_extbigc_deep, h_c03_c04_c05_c11_run_partbigc_deep, h_c03_c04_c05_c10_c11_c28_run_againbigc_deep, h_c11_run_limitbigc_deep);
