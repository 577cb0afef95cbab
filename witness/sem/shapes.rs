#![allow(dead_code, unused)]
include!("ob.rs");
use varlen::array_init::*;
use varlen::array::SizedInit;
use core::mem::{align_of, size_of, MaybeUninit};

/// An element type of some size and alignment, with or without destructor.
pub trait Shape: Sized + Clone + Default {
    fn make(id: usize) -> Self;
    fn id(&self) -> usize;
    /// Whether destruction is reported, and whether it has an identity at all.
    const DROPS: bool;
    const SIZED: bool;
}
macro_rules! shape {
    ($t:ident, $int:ty, [$($f:tt)*], [$($v:tt)*], $($repr:tt)*) => {
        #[$($repr)*]
        pub struct $t { pub id: $int, $($f)* }
        impl Drop for $t { fn drop(&mut self) { event(DROP, self.id as usize); } }
        impl Clone for $t { fn clone(&self) -> Self { event(CLONE, 0); $t { id: self.id, $($v)* } } }
        impl Default for $t { fn default() -> Self { event(MAKE, 0); $t { id: 7, $($v)* } } }
        impl Shape for $t {
            fn make(id: usize) -> Self { $t { id: id as $int, $($v)* } }
            fn id(&self) -> usize { self.id as usize }
            const DROPS: bool = true;
            const SIZED: bool = true;
        }
    };
}
macro_rules! plain {
    ($t:ident, $int:ty, [$($f:tt)*], [$($v:tt)*], $($repr:tt)*) => {
        #[$($repr)*]
        pub struct $t { pub id: $int, $($f)* }
        impl Clone for $t { fn clone(&self) -> Self { event(CLONE, 0); $t { id: self.id, $($v)* } } }
        impl Default for $t { fn default() -> Self { event(MAKE, 0); $t { id: 7, $($v)* } } }
        impl Shape for $t {
            fn make(id: usize) -> Self { $t { id: id as $int, $($v)* } }
            fn id(&self) -> usize { self.id as usize }
            const DROPS: bool = false;
            const SIZED: bool = true;
        }
    };
}
shape!(D1, u8, [], [], repr(C));
shape!(D2, u16, [], [], repr(C));
shape!(D3, u8, [pub b: [u8; 2]], [b: [0; 2]], repr(C));
shape!(D4, u32, [], [], repr(C));
shape!(D12, u32, [pub b: [u32; 2]], [b: [0; 2]], repr(C));
shape!(D16, usize, [], [], repr(C, align(16)));
shape!(D24, usize, [pub b: [usize; 2]], [b: [0; 2]], repr(C));
shape!(D64, usize, [], [], repr(C, align(64)));
shape!(D128, u32, [], [], repr(C, align(128)));
shape!(D320, usize, [pub b: [usize; 39]], [b: [0; 39]], repr(C));
shape!(D4k, u16, [], [], repr(C, align(4096)));
plain!(P1, u8, [], [], repr(C));
plain!(P2, u16, [], [], repr(C));
plain!(P16, usize, [], [], repr(C, align(16)));
plain!(P128, u32, [], [], repr(C, align(128)));
plain!(P320, usize, [pub b: [usize; 39]], [b: [0; 39]], repr(C));
/// No space at all, but a destructor, or an alignment.
macro_rules! zero {
    ($t:ident, $drops:expr, $($repr:tt)*) => {
        #[$($repr)*]
        pub struct $t;
        impl Clone for $t { fn clone(&self) -> Self { event(CLONE, 0); $t } }
        impl Default for $t { fn default() -> Self { event(MAKE, 0); $t } }
        impl Shape for $t {
            fn make(id: usize) -> Self { $t }
            fn id(&self) -> usize { 0 }
            const DROPS: bool = $drops;
            const SIZED: bool = false;
        }
    };
}
zero!(Z1d, true, repr(C));
impl Drop for Z1d { fn drop(&mut self) { event(DROP, 0); } }
zero!(Z64d, true, repr(C, align(64)));
impl Drop for Z64d { fn drop(&mut self) { event(DROP, 0); } }
zero!(Z1, false, repr(C));
zero!(Z64, false, repr(C, align(64)));

/// The number of destructions of `id` after n of them.
fn dropped<T: Shape>(id: usize, n: usize) -> bool { count(DROP, if T::SIZED { id } else { 0 }) == (if T::DROPS { n } else { 0 }) }
fn is<T: Shape>(x: &T, id: usize) -> bool { !T::SIZED || x.id() == id }

/// Draws the elements of a slice.
pub struct From<T> { i: usize, n: usize, src: *const T }
impl<T> Iterator for From<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i < self.n {
            event(NEXT, 0);
            let p = unsafe { self.src.add(self.i) };
            self.i += 1;
            Some(unsafe { p.read() })
        } else { event(NEXT, 1); None }
    }
}
/// Room for n elements.
fn room<T>(n: usize, align: usize) -> (*mut T, &'static mut [MaybeUninit<T>]) {
    let p: *mut T = buf(n * size_of::<T>(), align);
    (p, unsafe { core::slice::from_raw_parts_mut(p as *mut MaybeUninit<T>, n) })
}
fn same<T: Shape>(p: *const T, src: &[T], n: usize) {
    let k = below(n);
    check("c09 slot holds the element of its position", unsafe { (*p.add(k)).id() == src[k].id() });
    let x = any();
    check("c08 nothing dropped", count(DROP, x) == 0);
}
macro_rules! arrays {
    ($t:ty, $align:expr, $fill:ident, $def:ident, $iter:ident, $clone:ident, $mv:ident, $arr:ident, $gone:ident) => {
        pub fn $fill() {
            let n = small();
            let (p, d) = room::<$t>(n, $align);
            let src: &[$t] = slice_any(n);
            let s = src.as_ptr();
            let mut next = 0usize;
            FillSequentially(|i: usize| { check("c09 ascending, one call per slot", i == next); next += 1; unsafe { s.add(i).read() } }).initialize(d);
            check("c09 called for every slot", next == n);
            same(p, src, n);
        }
        pub fn $def() {
            let n = small();
            let (p, d) = room::<$t>(n, $align);
            FillWithDefault.initialize(d);
            check("c09 one default per slot", count(MAKE, 0) == n);
            let x = any();
            check("c08 nothing dropped", count(DROP, x) == 0);
            let k = below(n);
            check("c09 slot holds the default value", is(unsafe { &*p.add(k) }, 7));
        }
        pub fn $iter() {
            let n = small();
            let m = small();
            let (p, d) = room::<$t>(n, $align);
            let src: &[$t] = slice_any(m);
            let mut it = From { i: 0, n: m, src: src.as_ptr() };
            let it: *mut From<$t> = &mut it;
            let panicked = catch(|| FromIterPrefix(unsafe { &mut *it }).initialize(d));
            check("c08 too short a source panics", panicked == (m < n));
            assume(!panicked);
            check("c09 no item beyond the length is drawn", count(NEXT, 0) == n && count(NEXT, 1) == 0);
            same(p, src, n);
        }
        pub fn $clone() {
            let n = small();
            let m = small();
            let (p, d) = room::<$t>(n, $align);
            let src: &[$t] = slice_any(m);
            let panicked = catch(|| CloneFrom(src).initialize(d));
            check("c08 a source of another length panics", panicked == (m != n));
            assume(!panicked);
            check("c09 each element is cloned once", count(CLONE, 0) == n);
            same(p, src, n);
        }
        pub fn $mv() {
            let n = small();
            let (p, d) = room::<$t>(n, $align);
            let src = [<$t>::make(1), <$t>::make(2), <$t>::make(3)];
            let panicked = catch(|| MoveFrom(src).initialize(d));
            check("c08 a source of another length panics", panicked == (n != 3));
            if panicked {
                check("c08 a refused source is destroyed once", if <$t>::SIZED { dropped::<$t>(1, 1) && dropped::<$t>(2, 1) && dropped::<$t>(3, 1) } else { dropped::<$t>(0, 3) });
            } else {
                let x = any();
                check("c08 moved, not dropped", count(DROP, x) == 0 && count(CLONE, 0) == 0);
                check("c09 slot holds the element of its position", unsafe { is(&*p, 1) && is(&*p.add(1), 2) && is(&*p.add(2), 3) });
            }
        }
        /// A whole array object of any length: built, cloned, viewed.
        pub fn $arr() {
            let n = any_u8();
            let src: &[$t] = slice_any(n as usize);
            unsafe {
                let init = Array::<$t, u8>::try_clone_from_slice(src).unwrap();
                let l = init.calculate_layout_cautious().unwrap();
                let size = l.size();
                let p: *mut Array<$t, u8> = buf(size, $align);
                init.initialize(NonNull::new_unchecked(p), l);
                let o = &*p;
                check("c01 the built size is the promised size", o.calculate_layout().size() == size);
                check("c07 the alignment suffices", Array::<$t, u8>::ALIGN == $align);
                let s = &o[..];
                let at = off(s.as_ptr(), o);
                check("c07 the tail lies inside", at >= size_of::<Array<$t, u8>>() && at % $align == 0 && at + s.len() * size_of::<$t>() <= size && s.len() == n as usize);
                check("c20 each element is cloned once", count(CLONE, 0) == n as usize);
                let c = o.vclone();
                let l = c.calculate_layout_cautious().unwrap();
                check("c01 a clone promises the size of its source", l.size() == size);
                let q: *mut Array<$t, u8> = buf(size, $align);
                c.initialize(NonNull::new_unchecked(q), l);
                check("c20 each element is cloned once", count(CLONE, 0) == 2 * (n as usize));
                let t = &(*q)[..];
                check("c20 as long as the source", t.len() == n as usize);
                let x = any();
                check("c05 nothing is destroyed", count(DROP, x) == 0);
                let k = below(n as usize);
                check("c20 every element is cloned to its position", t[k].id() == s[k].id() && s[k].id() == src[k].id());
            }
        }
        /// Destruction of an array of three.
        pub fn $gone() {
            {
                let b: VBox<Array<$t, u8>> = VBox::new(SizedInit(3u8, MoveFrom([<$t>::make(1), <$t>::make(2), <$t>::make(3)])));
                check("c05 nothing is destroyed", dropped::<$t>(1, 0) && dropped::<$t>(2, 0) && dropped::<$t>(3, 0));
                check("c06 destruction is announced as needed", Array::<$t, u8>::NEEDS_VDROP || !<$t>::DROPS);
                let c = b.clone();
                check("c20 every element is cloned to its position", is(&c[0], 1) && is(&c[1], 2) && is(&c[2], 3) && c.len() == 3);
                drop(b);
                check("c06 every element is destroyed once", if <$t>::SIZED { dropped::<$t>(1, 1) && dropped::<$t>(2, 1) && dropped::<$t>(3, 1) } else { dropped::<$t>(0, 3) });
            }
            check("c06 every element is destroyed once", if <$t>::SIZED { dropped::<$t>(1, 2) && dropped::<$t>(2, 2) && dropped::<$t>(3, 2) } else { dropped::<$t>(0, 6) });
            check("c04 the blocks are released", live() == 0);
        }
    };
}
macro_rules! objects {
    ($t:ty, $align:expr, $seq:ident, $bx:ident, $idx:ident) => {
        pub fn $seq() {
            {
                let mut s: Seq<FixedLen<$t>> = Seq::new();
                s.push(FixedLen(<$t>::make(1)));
                let n1 = s.offset();
                check("c10 the end advances by the element's space", n1 == (if size_of::<$t>() == 0 { 1 } else { size_of::<$t>() / $align }));
                s.push(FixedLen(<$t>::make(2)));
                check("c10 the end advances by the element's space", s.offset() == 2 * n1 && s.len() == 2 && s.capacity_in_offsets() >= 2 * n1);
                let mut it = s.iter();
                let a = it.next().unwrap();
                let b = it.next().unwrap();
                check("c11 each at its own place", is(&a.0, 1) && is(&b.0, 2) && off(b, a) == n1 * $align && it.next().is_none());
                check("c13 offset of what is there", s.offset_of(a) == 0 && s.offset_of(b) == n1);
                let mut it = s.iter_mut();
                check("c11 exact counts", it.len() == 2 && it.size_hint() == (2, Some(2)));
                let c = it.next().unwrap();
                check("c11 in order", is(&c.0, 1) && it.len() == 1);
                let mut it = s.take_elems();
                let e = it.next().unwrap();
                check("c11 in order", is(&e.0, 1) && it.len() == 1);
                drop(it);
                check("c05 what is left goes with the iterator", if <$t>::SIZED { dropped::<$t>(1, 0) && dropped::<$t>(2, 1) } else { dropped::<$t>(0, 1) });
            }
            check("c05 each element destroyed once", if <$t>::SIZED { dropped::<$t>(1, 1) && dropped::<$t>(2, 1) } else { dropped::<$t>(0, 2) });
            check("c04 the block is released", live() == 0);
        }
        pub fn $idx() {
            let mut s: IndexableSeq<FixedLen<$t>> = Seq::new();
            let n1 = if size_of::<$t>() == 0 { 1 } else { size_of::<$t>() / $align };
            let o = any();
            s.push(FixedLen(<$t>::make(1)));
            s.push(FixedLen(<$t>::make(2)));
            s.push(FixedLen(<$t>::make(3)));
            check("c12 valid exactly at the elements", s.is_offset_valid(o) == (o == 0 || o == n1 || o == 2 * n1));
            check("c12 lookup leads to the element", is(&s.from_offset(0).0, 1) && is(&s.from_offset(n1).0, 2) && is(&s.from_offset(2 * n1).0, 3));
            check("c13 offset of what lookup leads to", s.offset_of(s.from_offset(n1)) == n1 && s.offset_of(s.from_offset(2 * n1)) == 2 * n1);
            check("c12 lookup leads to the element", is(&s.from_offset_mut(n1).0, 2));
            drop(s.take_elems());
            check("c12 nothing is valid after taking", !s.is_offset_valid(o));
            s.push(FixedLen(<$t>::make(4)));
            check("c12 valid exactly at the new element", s.is_offset_valid(o) == (o == 0) && is(&s.from_offset(0).0, 4));
            drop(s);
            check("c05 each element destroyed once", if <$t>::SIZED { dropped::<$t>(1, 1) && dropped::<$t>(2, 1) && dropped::<$t>(3, 1) && dropped::<$t>(4, 1) } else { dropped::<$t>(0, 4) });
            check("c04 the block is released", live() == 0);
        }
        /// Through every owner: boxed, cloned, moved into an arena, then into a sequence, raw and back.
        pub fn $bx() {
            let arena = core::mem::ManuallyDrop::new(bumpalo::Bump::new());
            {
                check("c01 the promised size is the size", FixedLen(<$t>::make(1)).calculate_layout_cautious().unwrap().size() == size_of::<$t>());
                check("c07 the alignment suffices", FixedLen::<$t>::ALIGN == $align);
                check("c06 destruction is announced as needed", FixedLen::<$t>::NEEDS_VDROP || !<$t>::DROPS);
                check("c05 a value that was not moved is destroyed", dropped::<$t>(1, 1));
                let b = VBox::new(FixedLen(<$t>::make(2)));
                check("c20 cloned once", count(CLONE, 0) == 0);
                let c = b.clone();
                check("c20 cloned once", count(CLONE, 0) == 1 && is(&c.0, 2) && is(&b.0, 2));
                let o = Owned::new_in(c, &arena);
                check("c04 the storage moved out of is released", live() <= 1 && is(&o.0, 2));
                let mut s: Seq<FixedLen<$t>> = Seq::new();
                s.push(b);
                s.push(o);
                let mut it = s.iter();
                check("c05 moved, not changed", is(&it.next().unwrap().0, 2) && is(&it.next().unwrap().0, 2));
                check("c05 moved, not dropped", dropped::<$t>(2, if <$t>::SIZED { 0 } else { 1 }));
                let mut t = s.take_elems();
                let p = unsafe { VBox::new(t.next().unwrap()).into_raw() };
                check("c05 moved, not dropped", dropped::<$t>(2, if <$t>::SIZED { 0 } else { 1 }));
                drop(unsafe { VBox::from_raw(p) });
                check("c05 destroyed by its owner", dropped::<$t>(2, if <$t>::SIZED { 1 } else { 2 }));
            }
            check("c05 destroyed by its owner", dropped::<$t>(2, if <$t>::SIZED { 2 } else { 3 }));
            check("c04 every block is released", live() == 0);
        }
    };
}
arrays!(D1, 1, h_c08_c09_fill_d1, h_c08_c09_default_d1, h_c08_c09_iter_d1, h_c08_c09_clone_d1, h_c08_c09_move_d1, h_c01_c03_c07_c18_c20_arr_d1, h_c03_c04_c05_c06_c20_gone_d1);
objects!(D1, 1, h_c03_c04_c05_c10_c11_c13_seq_d1, h_c01_c03_c04_c05_c20_owners_d1, h_c03_c04_c05_c12_c13_index_d1);
arrays!(D2, 2, h_c08_c09_fill_d2, h_c08_c09_default_d2, h_c08_c09_iter_d2, h_c08_c09_clone_d2, h_c08_c09_move_d2, h_c01_c03_c07_c18_c20_arr_d2, h_c03_c04_c05_c06_c20_gone_d2);
objects!(D2, 2, h_c03_c04_c05_c10_c11_c13_seq_d2, h_c01_c03_c04_c05_c20_owners_d2, h_c03_c04_c05_c12_c13_index_d2);
arrays!(D3, 1, h_c08_c09_fill_d3, h_c08_c09_default_d3, h_c08_c09_iter_d3, h_c08_c09_clone_d3, h_c08_c09_move_d3, h_c01_c03_c07_c18_c20_arr_d3, h_c03_c04_c05_c06_c20_gone_d3);
objects!(D3, 1, h_c03_c04_c05_c10_c11_c13_seq_d3, h_c01_c03_c04_c05_c20_owners_d3, h_c03_c04_c05_c12_c13_index_d3);
arrays!(D4, 4, h_c08_c09_fill_d4, h_c08_c09_default_d4, h_c08_c09_iter_d4, h_c08_c09_clone_d4, h_c08_c09_move_d4, h_c01_c03_c07_c18_c20_arr_d4, h_c03_c04_c05_c06_c20_gone_d4);
objects!(D4, 4, h_c03_c04_c05_c10_c11_c13_seq_d4, h_c01_c03_c04_c05_c20_owners_d4, h_c03_c04_c05_c12_c13_index_d4);
arrays!(D12, 4, h_c08_c09_fill_d12, h_c08_c09_default_d12, h_c08_c09_iter_d12, h_c08_c09_clone_d12, h_c08_c09_move_d12, h_c01_c03_c07_c18_c20_arr_d12, h_c03_c04_c05_c06_c20_gone_d12);
objects!(D12, 4, h_c03_c04_c05_c10_c11_c13_seq_d12, h_c01_c03_c04_c05_c20_owners_d12, h_c03_c04_c05_c12_c13_index_d12);
arrays!(D16, 16, h_c08_c09_fill_d16, h_c08_c09_default_d16, h_c08_c09_iter_d16, h_c08_c09_clone_d16, h_c08_c09_move_d16, h_c01_c03_c07_c18_c20_arr_d16, h_c03_c04_c05_c06_c20_gone_d16);
objects!(D16, 16, h_c03_c04_c05_c10_c11_c13_seq_d16, h_c01_c03_c04_c05_c20_owners_d16, h_c03_c04_c05_c12_c13_index_d16);
arrays!(D24, 8, h_c08_c09_fill_d24, h_c08_c09_default_d24, h_c08_c09_iter_d24, h_c08_c09_clone_d24, h_c08_c09_move_d24, h_c01_c03_c07_c18_c20_arr_d24, h_c03_c04_c05_c06_c20_gone_d24);
objects!(D24, 8, h_c03_c04_c05_c10_c11_c13_seq_d24, h_c01_c03_c04_c05_c20_owners_d24, h_c03_c04_c05_c12_c13_index_d24);
arrays!(D64, 64, h_c08_c09_fill_d64, h_c08_c09_default_d64, h_c08_c09_iter_d64, h_c08_c09_clone_d64, h_c08_c09_move_d64, h_c01_c03_c07_c18_c20_arr_d64, h_c03_c04_c05_c06_c20_gone_d64);
objects!(D64, 64, h_c03_c04_c05_c10_c11_c13_seq_d64, h_c01_c03_c04_c05_c20_owners_d64, h_c03_c04_c05_c12_c13_index_d64);
arrays!(D128, 128, h_c08_c09_fill_d128, h_c08_c09_default_d128, h_c08_c09_iter_d128, h_c08_c09_clone_d128, h_c08_c09_move_d128, h_c01_c03_c07_c18_c20_arr_d128, h_c03_c04_c05_c06_c20_gone_d128);
objects!(D128, 128, h_c03_c04_c05_c10_c11_c13_seq_d128, h_c01_c03_c04_c05_c20_owners_d128, h_c03_c04_c05_c12_c13_index_d128);
arrays!(D320, 8, h_c08_c09_fill_d320, h_c08_c09_default_d320, h_c08_c09_iter_d320, h_c08_c09_clone_d320, h_c08_c09_move_d320, h_c01_c03_c07_c18_c20_arr_d320, h_c03_c04_c05_c06_c20_gone_d320);
objects!(D320, 8, h_c03_c04_c05_c10_c11_c13_seq_d320, h_c01_c03_c04_c05_c20_owners_d320, h_c03_c04_c05_c12_c13_index_d320);
arrays!(D4k, 4096, h_c08_c09_fill_d4k, h_c08_c09_default_d4k, h_c08_c09_iter_d4k, h_c08_c09_clone_d4k, h_c08_c09_move_d4k, h_c01_c03_c07_c18_c20_arr_d4k, h_c03_c04_c05_c06_c20_gone_d4k);
objects!(D4k, 4096, h_c03_c04_c05_c10_c11_c13_seq_d4k, h_c01_c03_c04_c05_c20_owners_d4k, h_c03_c04_c05_c12_c13_index_d4k);
arrays!(P1, 1, h_c08_c09_fill_p1, h_c08_c09_default_p1, h_c08_c09_iter_p1, h_c08_c09_clone_p1, h_c08_c09_move_p1, h_c01_c03_c07_c18_c20_arr_p1, h_c03_c04_c05_c06_c20_gone_p1);
objects!(P1, 1, h_c03_c04_c05_c10_c11_c13_seq_p1, h_c01_c03_c04_c05_c20_owners_p1, h_c03_c04_c05_c12_c13_index_p1);
arrays!(P2, 2, h_c08_c09_fill_p2, h_c08_c09_default_p2, h_c08_c09_iter_p2, h_c08_c09_clone_p2, h_c08_c09_move_p2, h_c01_c03_c07_c18_c20_arr_p2, h_c03_c04_c05_c06_c20_gone_p2);
objects!(P2, 2, h_c03_c04_c05_c10_c11_c13_seq_p2, h_c01_c03_c04_c05_c20_owners_p2, h_c03_c04_c05_c12_c13_index_p2);
arrays!(P16, 16, h_c08_c09_fill_p16, h_c08_c09_default_p16, h_c08_c09_iter_p16, h_c08_c09_clone_p16, h_c08_c09_move_p16, h_c01_c03_c07_c18_c20_arr_p16, h_c03_c04_c05_c06_c20_gone_p16);
objects!(P16, 16, h_c03_c04_c05_c10_c11_c13_seq_p16, h_c01_c03_c04_c05_c20_owners_p16, h_c03_c04_c05_c12_c13_index_p16);
arrays!(P128, 128, h_c08_c09_fill_p128, h_c08_c09_default_p128, h_c08_c09_iter_p128, h_c08_c09_clone_p128, h_c08_c09_move_p128, h_c01_c03_c07_c18_c20_arr_p128, h_c03_c04_c05_c06_c20_gone_p128);
objects!(P128, 128, h_c03_c04_c05_c10_c11_c13_seq_p128, h_c01_c03_c04_c05_c20_owners_p128, h_c03_c04_c05_c12_c13_index_p128);
arrays!(P320, 8, h_c08_c09_fill_p320, h_c08_c09_default_p320, h_c08_c09_iter_p320, h_c08_c09_clone_p320, h_c08_c09_move_p320, h_c01_c03_c07_c18_c20_arr_p320, h_c03_c04_c05_c06_c20_gone_p320);
objects!(P320, 8, h_c03_c04_c05_c10_c11_c13_seq_p320, h_c01_c03_c04_c05_c20_owners_p320, h_c03_c04_c05_c12_c13_index_p320);
arrays!(Z1d, 1, h_c08_c09_fill_z1d, h_c08_c09_default_z1d, h_c08_c09_iter_z1d, h_c08_c09_clone_z1d, h_c08_c09_move_z1d, h_c01_c03_c07_c18_c20_arr_z1d, h_c03_c04_c05_c06_c20_gone_z1d);
objects!(Z1d, 1, h_c03_c04_c05_c10_c11_c13_seq_z1d, h_c01_c03_c04_c05_c20_owners_z1d, h_c03_c04_c05_c12_c13_index_z1d);
arrays!(Z64d, 64, h_c08_c09_fill_z64d, h_c08_c09_default_z64d, h_c08_c09_iter_z64d, h_c08_c09_clone_z64d, h_c08_c09_move_z64d, h_c01_c03_c07_c18_c20_arr_z64d, h_c03_c04_c05_c06_c20_gone_z64d);
objects!(Z64d, 64, h_c03_c04_c05_c10_c11_c13_seq_z64d, h_c01_c03_c04_c05_c20_owners_z64d, h_c03_c04_c05_c12_c13_index_z64d);
arrays!(Z1, 1, h_c08_c09_fill_z1, h_c08_c09_default_z1, h_c08_c09_iter_z1, h_c08_c09_clone_z1, h_c08_c09_move_z1, h_c01_c03_c07_c18_c20_arr_z1, h_c03_c04_c05_c06_c20_gone_z1);
objects!(Z1, 1, h_c03_c04_c05_c10_c11_c13_seq_z1, h_c01_c03_c04_c05_c20_owners_z1, h_c03_c04_c05_c12_c13_index_z1);
arrays!(Z64, 64, h_c08_c09_fill_z64, h_c08_c09_default_z64, h_c08_c09_iter_z64, h_c08_c09_clone_z64, h_c08_c09_move_z64, h_c01_c03_c07_c18_c20_arr_z64, h_c03_c04_c05_c06_c20_gone_z64);
objects!(Z64, 64, h_c03_c04_c05_c10_c11_c13_seq_z64, h_c01_c03_c04_c05_c20_owners_z64, h_c03_c04_c05_c12_c13_index_z64);
