#![allow(dead_code, unused)]
// Sequences of any number of elements.
include!("ob.rs");

/// Sequences of n elements of one size, which never had to grow for them.
macro_rules! many {
    ($fill:ident, $ob:ident, $init:ident, $int:ty, $idx:ty, $align:expr, $big:expr, $size:expr,
     $len:ident, $iter:ident, $itermut:ident, $take:ident, $part:ident, $push:ident, $limit:ident, $gone:ident, $read:ident, $again:ident, $items:ident, $ext:ident) => {
        fn $fill(s: &mut Seq<$ob, $idx>) -> usize {
            let n = small();
            s.push($init { id: 0, size: $big });
            core::mem::forget(s.take_elems());
            assume(n * up($size, $align) <= s.capacity_in_offsets());
            let mut i = 0;
            while i < n {
                s.push($init { id: i as _, size: $size });
                i += 1;
            }
            n
        }
        pub fn $len() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let n = $fill(&mut s);
            check("c10 as many elements as pushes", s.len() == n);
            check("c10 the end has advanced by what they need", s.offset() == n * up($size, $align));
            check("c11 exact counts", s.iter().len() == n && s.iter().size_hint() == (n, Some(n)) && s.iter().count() == n);
            check("c11 exact counts", s.iter_mut().len() == n && s.iter_mut().size_hint() == (n, Some(n)) && s.iter_mut().count() == n);
            let it = s.take_elems();
            check("c11 exact counts", it.len() == n && it.size_hint() == (n, Some(n)));
            core::mem::forget(it);
            check("c11 the sequence is empty after taking", s.len() == 0 && s.offset() == 0);
        }
        pub fn $iter() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let n = $fill(&mut s);
            let mut it = s.iter();
            let mut i = 0;
            while i < n {
                check("c11 exact counts", it.len() == n - i);
                let e = it.next().unwrap();
                check("c11 in order", e.id as usize == i as $int as usize && e.size as usize == $size);
                i += 1;
            }
            check("c11 ends", it.next().is_none() && it.len() == 0);
            stop();
        }
        pub fn $itermut() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let n = $fill(&mut s);
            {
                let mut it = s.iter_mut();
                let mut i = 0;
                while i < n {
                    check("c11 exact counts", it.len() == n - i);
                    let e = it.next().unwrap();
                    check("c11 in order", e.id as usize == i as $int as usize && e.size as usize == $size);
                    i += 1;
                }
                check("c11 ends", it.next().is_none() && it.len() == 0);
            }
            check("c11 the sequence is unchanged", s.len() == n);
            stop();
        }
        pub fn $read() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let n = $fill(&mut s);
            assume(n > 0);
            let k = below(n);
            let o = k * up($size, $align);
            let e = unsafe { s.from_offset_unchecked(o) };
            check("c12 each element at its offset", e.id as usize == k as $int as usize && e.size as usize == $size);
            check("c12 the offset of each element", s.offset_of(e) == o);
            let e = unsafe { s.from_offset_unchecked_mut(o) };
            check("c12 each element at its offset", e.id as usize == k as $int as usize && e.size as usize == $size);
            stop();
        }
        pub fn $take() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let n = $fill(&mut s);
            {
                let mut it = s.take_elems();
                let mut i = 0;
                while i < n {
                    check("c11 exact counts", it.len() == n - i);
                    let e = it.next().unwrap();
                    check("c11 in order", e.id as usize == i as $int as usize && e.size as usize == $size);
                    core::mem::forget(e);
                    i += 1;
                }
                check("c11 ends", it.next().is_none() && it.len() == 0);
            }
            check("c11 the sequence is empty after taking", s.len() == 0 && s.offset() == 0);
            stop();
        }
        pub fn $part() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let n = $fill(&mut s);
            let k = below(n + 1);
            {
                let mut it = s.take_elems();
                let mut i = 0;
                while i < k {
                    core::mem::forget(it.next().unwrap());
                    i += 1;
                }
                check("c11 exact counts", it.len() == n - k);
            }
            if n > 0 && n - 1 <= <$int>::MAX as usize {
                let j = below(n);
                check("c05 what was not taken is destroyed with the iterator", count(DROP, j) == if j < k { 0 } else { 1 });
            }
            check("c11 the sequence is empty after taking", s.len() == 0 && s.offset() == 0);
            drop(s);
            check("c04 the block is released", live() == 0);
        }
        pub fn $push() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let n = $fill(&mut s);
            let z = $big;
            s.push($init { id: 77, size: z });
            check("c10 count grows by one", s.len() == n + 1);
            check("c10 the end advances by the element's space", s.offset() == n * up($size, $align) + up(z as usize, $align));
            check("c10 the end is within capacity", s.offset() <= s.capacity_in_offsets());
            let e = unsafe { s.from_offset_unchecked(n * up($size, $align)) };
            check("c10 the new element starts at the previous end", e.id == 77 && e.size == z);
            if n > 0 {
                let k = below(n);
                let e = unsafe { s.from_offset_unchecked(k * up($size, $align)) };
                check("c10 the earlier element is kept", e.id as usize == k as $int as usize && e.size as usize == $size);
            }
            stop();
        }
        pub fn $limit() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let n = $fill(&mut s);
            let k = small();
            let m = if k < n { k } else { n };
            check("c11 at most so many", s.iter().limited_to(k).len() == m);
            let mut it = s.iter().limited_to(k);
            let mut i = 0;
            while i < m {
                let e = it.next().unwrap();
                check("c11 in order", e.id as usize == i as $int as usize);
                i += 1;
            }
            check("c11 ends", it.next().is_none());
            let it = s.iter_mut().limited_to(k);
            check("c11 at most so many", it.len() == m);
            stop();
        }
        pub struct $items { i: usize, n: usize, lo: usize }
        impl Iterator for $items {
            type Item = $init;
            fn next(&mut self) -> Option<$init> {
                let i = self.i;
                if i >= self.n { event(NEXT, 0); return None; }
                self.i += 1;
                Some($init { id: i as _, size: $size })
            }
            fn size_hint(&self) -> (usize, Option<usize>) { (self.lo, None) }
        }
        pub fn $ext() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            s.push($init { id: 0, size: $big });
            core::mem::forget(s.take_elems());
            let n = small();
            assume(n * up($size, $align) <= s.capacity_in_offsets());
            s.extend($items { i: 0, n, lo: any() });
            check("c28 as many elements as items", s.len() == n && s.offset() == n * up($size, $align));
            check("c28 the source is asked until it ends and no further", count(NEXT, 0) == 1);
            if n > 0 {
                let k = below(n);
                let e = unsafe { s.from_offset_unchecked(k * up($size, $align)) };
                check("c28 in the order of the source", e.id as usize == k as $int as usize && e.size as usize == $size);
                if n - 1 <= <$int>::MAX as usize {
                    check("c28 each item is built once", count(MAKE, k) == if k == 0 { 2 } else { 1 });
                    check("c05 nothing is destroyed", count(DROP, k) == 0);
                }
            }
            stop();
        }
        pub fn $gone() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let n = $fill(&mut s);
            drop(s);
            if n > 0 && n - 1 <= <$int>::MAX as usize {
                let k = below(n);
                check("c05 each element destroyed once", count(DROP, k) == 1);
            }
            check("c04 the block is released", live() == 0);
        }
        pub fn $again() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let n = $fill(&mut s);
            let cap = s.capacity_in_offsets();
            core::mem::forget(s.take_elems());
            check("c10 capacity never shrinks", s.capacity_in_offsets() == cap);
            s.push($init { id: 5, size: $size });
            check("c11 taken elements are not visited again", s.len() == 1 && s.offset() == up($size, $align) && s.iter().next().unwrap().id == 5);
            drop(s);
            check("c04 the block is released", live() == 0);
        }
    };
}

/// Counts at the edges of narrower integers.
macro_rules! edge {
    ($name:ident, $max:expr) => {
        pub fn $name() {
            let mut s: Seq<Ob> = Seq::new();
            let n = small();
            assume(n <= $max);
            s.push(ObInit { id: 0, size: sz() });
            core::mem::forget(s.take_elems());
            assume(n * 2 <= s.capacity_in_offsets());
            let mut i = 0;
            while i < n {
                s.push(ObInit { id: i, size: 16 });
                i += 1;
            }
            s.push(ObInit { id: n, size: 16 });
            check("c10 count grows by one", s.len() == n + 1);
            check("c11 exact counts", s.iter().len() == n + 1 && s.iter_mut().len() == n + 1);
            let e = unsafe { s.from_offset_unchecked(n * 2) };
            check("c10 the new element starts at the previous end", e.id == n && s.offset() == n * 2 + 2);
            let it = s.take_elems();
            check("c11 exact counts", it.len() == n + 1);
            core::mem::forget(it);
        }
    };
}
edge!(h_c10_c11_edge_4, 15);
edge!(h_c10_c11_edge_6, 63);
edge!(h_c10_c11_edge_7, 127);
edge!(h_c10_c11_edge_8, 255);
edge!(h_c10_c11_edge_10, 1023);
edge!(h_c10_c11_edge_12, 4095);
edge!(h_c10_c11_edge_15, 32767);
edge!(h_c10_c11_edge_16, 65535);
edge!(h_c10_c11_edge_20, (1 << 20) - 1);
edge!(h_c10_c11_edge_31, (1 << 31) - 1);
edge!(h_c10_c11_edge_32, (1 << 32) - 1);
many!(fill8u, Ob, ObInit, usize, UncheckedIndexing, 8, sz(), 16,
    h_c10_c11_many_len8u, h_c11_many_iter8u, h_c11_many_itermut8u, h_c11_many_take8u, h_c04_c05_c11_many_part8u, h_c10_many_push8u, h_c11_many_limit8u, h_c04_c05_many_gone8u, h_c12_many_read8u, h_c04_c10_c11_many_again8u, Items8u, h_c05_c28_many_ext8u);
many!(fill8bu, Ob, ObInit, usize, UncheckedIndexing, 8, sz(), 27,
    h_c10_c11_many_len8bu, h_c11_many_iter8bu, h_c11_many_itermut8bu, h_c11_many_take8bu, h_c04_c05_c11_many_part8bu, h_c10_many_push8bu, h_c11_many_limit8bu, h_c04_c05_many_gone8bu, h_c12_many_read8bu, h_c04_c10_c11_many_again8bu, Items8bu, h_c05_c28_many_ext8bu);
many!(fill1u, Ob1, Ob1Init, u8, UncheckedIndexing, 1, sz1(), 3,
    h_c10_c11_many_len1u, h_c11_many_iter1u, h_c11_many_itermut1u, h_c11_many_take1u, h_c04_c05_c11_many_part1u, h_c10_many_push1u, h_c11_many_limit1u, h_c04_c05_many_gone1u, h_c12_many_read1u, h_c04_c10_c11_many_again1u, Items1u, h_c05_c28_many_ext1u);
many!(fill2u, Ob2, Ob2Init, u16, UncheckedIndexing, 2, sz2(), 4,
    h_c10_c11_many_len2u, h_c11_many_iter2u, h_c11_many_itermut2u, h_c11_many_take2u, h_c04_c05_c11_many_part2u, h_c10_many_push2u, h_c11_many_limit2u, h_c04_c05_many_gone2u, h_c12_many_read2u, h_c04_c10_c11_many_again2u, Items2u, h_c05_c28_many_ext2u);
many!(fill16u, Ob16, Ob16Init, usize, UncheckedIndexing, 16, sz(), 16,
    h_c10_c11_many_len16u, h_c11_many_iter16u, h_c11_many_itermut16u, h_c11_many_take16u, h_c04_c05_c11_many_part16u, h_c10_many_push16u, h_c11_many_limit16u, h_c04_c05_many_gone16u, h_c12_many_read16u, h_c04_c10_c11_many_again16u, Items16u, h_c05_c28_many_ext16u);
many!(fillxu, Obx, ObxInit, usize, UncheckedIndexing, 32, sz(), 33,
    h_c10_c11_many_lenxu, h_c11_many_iterxu, h_c11_many_itermutxu, h_c11_many_takexu, h_c04_c05_c11_many_partxu, h_c10_many_pushxu, h_c11_many_limitxu, h_c04_c05_many_gonexu, h_c12_many_readxu, h_c04_c10_c11_many_againxu, Itemsxu, h_c05_c28_many_extxu);
many!(fillpu, Obp, ObpInit, usize, UncheckedIndexing, 1, sz(), 16,
    h_c10_c11_many_lenpu, h_c11_many_iterpu, h_c11_many_itermutpu, h_c11_many_takepu, h_c04_c05_c11_many_partpu, h_c10_many_pushpu, h_c11_many_limitpu, h_c04_c05_many_gonepu, h_c12_many_readpu, h_c04_c10_c11_many_againpu, Itemspu, h_c05_c28_many_extpu);
many!(fill4u, Ob4, Ob4Init, u32, UncheckedIndexing, 4, sz4(), 8,
    h_c10_c11_many_len4u, h_c11_many_iter4u, h_c11_many_itermut4u, h_c11_many_take4u, h_c04_c05_c11_many_part4u, h_c10_many_push4u, h_c11_many_limit4u, h_c04_c05_many_gone4u, h_c12_many_read4u, h_c04_c10_c11_many_again4u, Items4u, h_c05_c28_many_ext4u);
