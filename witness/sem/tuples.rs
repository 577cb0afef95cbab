#![allow(dead_code, unused)]
include!("ob.rs");
use core::mem::size_of;
use varlen::array::SizedInit;
use varlen::array_init::*;
use varlen::tuple::*;
use varlen::{FixedLen, Str};

/// A part of an object of `size` bytes at `p`: live, aligned, behind `from`. Returns its end.
pub fn part<P: VarLen, T: VarLen>(o: *const P, size: usize, from: usize, e: &T) -> usize {
    let at = off(e, o);
    let n = e.calculate_layout().size();
    storage(e as *const T as *const u8, n, T::ALIGN);
    check("c07 parts do not overlap", at >= from);
    check("c07 parts end inside the object", at + n <= size);
    check("c07 the whole is aligned for its parts", P::ALIGN % T::ALIGN == 0);
    at + n
}
macro_rules! tuple {
    ($f:ident, $dup:ident, $m:ident, ($($x:ident : $ob:ident $oinit:ident $sz:expr, $id:expr);+), $ty:ty) => {
        pub fn $f() {
            $(let $x = $sz;)+
            let init = || $m::Init($($oinit { id: $id, size: $x }),+);
            let size = init().calculate_layout_cautious().unwrap().size();
            let p: *mut $ty = buf(size, <$ty>::ALIGN);
            unsafe { let i = init(); let l = i.calculate_layout_cautious().unwrap(); i.initialize(NonNull::new_unchecked(p), l); }
            $(check("c05 each part is built once", count(MAKE, $id) == 1);)+
            let o = unsafe { &*p };
            check("c01 the built size is the promised size", o.calculate_layout().size() == size);
            check("c06 droppable", <$ty>::NEEDS_VDROP);
            let end = size_of::<$ty>();
            let r = o.refs();
            let $m::Refs($($x),+) = r;
            $(
                check("c07 each part is where it was built", $x.id == $id);
                let end = part(o, size, end, $x);
            )+
            let r = o.refs();
            let mm = unsafe { Pin::new_unchecked(&mut *p) }.muts();
            let $m::Muts($($x),+) = mm;
            let w = ($(&*$x as *const $ob,)+);
            let $m::Refs($($x),+) = r;
            let v = ($($x as *const $ob,)+);
            same!(v, w, $($x)+);
            unsafe { <$ty>::vdrop(Pin::new_unchecked(&mut *p), o.calculate_layout()); }
            $(check("c06 each part is destroyed once", count(DROP, $id) == 1);)+
        }
        pub fn $dup() {
            $(let $x = $sz;)+
            let i = $m::Init($($oinit { id: $id, size: $x }),+);
            let b: VBox<$ty> = VBox::new(i);
            let size = b.calculate_layout().size();
            let how = any_bool();
            let c: VBox<$ty> = if how { VBox::new(b.vclone()) } else { b.clone() };
            $(check("c20 each part is cloned once", count(CLONE, $id) == 1 && count(MAKE, $id) == 1);)+
            check("c01 a clone has the size of its source", c.calculate_layout().size() == size);
            let $m::Refs($($x),+) = c.refs();
            $(check("c20 each part is cloned to its position", $x.id == $id + 100);)+
            let $m::Refs($($x),+) = b.refs();
            $(check("c20 the source stays as it was", $x.id == $id);)+
            drop(b);
            $(check("c06 each part is destroyed once", count(DROP, $id) == 1 && count(DROP, $id + 100) == 0);)+
            drop(c);
            $(check("c06 each part is destroyed once", count(DROP, $id) == 1 && count(DROP, $id + 100) == 1);)+
            check("c04 the blocks are released", live() == 0);
        }
    };
}
macro_rules! same {
    ($v:ident, $w:ident, $a:ident $b:ident) => { check("c07 all accessors agree", same_addr($v.0, $w.0) && same_addr($v.1, $w.1)); };
    ($v:ident, $w:ident, $a:ident $b:ident $c:ident) => { check("c07 all accessors agree", same_addr($v.0, $w.0) && same_addr($v.1, $w.1) && same_addr($v.2, $w.2)); };
    ($v:ident, $w:ident, $a:ident $b:ident $c:ident $d:ident) => { same!($v, $w, $a $b $c); check("c07 all accessors agree", same_addr($v.3, $w.3)); };
    ($v:ident, $w:ident, $a:ident $b:ident $c:ident $d:ident $e:ident) => { same!($v, $w, $a $b $c $d); check("c07 all accessors agree", same_addr($v.4, $w.4)); };
}
tuple!(h_c01_c03_c05_c06_c07_two_1_8, h_c01_c03_c04_c05_c06_c20_two_1_8_dup, tup2, (x: Ob1 Ob1Init sz1(), 1; y: Ob ObInit sz(), 2), Tup2<Ob1, Ob>);
tuple!(h_c01_c03_c05_c06_c07_two_64_2, h_c01_c03_c04_c05_c06_c20_two_64_2_dup, tup2, (x: Ob64 Ob64Init sz64(), 1; y: Ob2 Ob2Init sz2(), 2), Tup2<Ob64, Ob2>);
tuple!(h_c01_c03_c05_c06_c07_three_2_4_16, h_c01_c03_c04_c05_c06_c20_three_2_4_16_dup, tup3, (x: Ob2 Ob2Init sz2(), 1; y: Ob4 Ob4Init sz4(), 2; z: Ob16 Ob16Init sz(), 3), Tup3<Ob2, Ob4, Ob16>);
tuple!(h_c01_c03_c05_c06_c07_three_64_1_8, h_c01_c03_c04_c05_c06_c20_three_64_1_8_dup, tup3, (x: Ob64 Ob64Init sz64(), 1; y: Ob1 Ob1Init sz1(), 2; z: Ob ObInit sz(), 3), Tup3<Ob64, Ob1, Ob>);
tuple!(h_c01_c03_c05_c06_c07_four_1_4_2_8, h_c01_c03_c04_c05_c06_c20_four_1_4_2_8_dup, tup4, (x: Ob1 Ob1Init sz1(), 1; y: Ob4 Ob4Init sz4(), 2; z: Ob2 Ob2Init sz2(), 3; u: Ob ObInit sz(), 4), Tup4<Ob1, Ob4, Ob2, Ob>);
tuple!(h_c01_c03_c05_c06_c07_five_1_16_2_64_4, h_c01_c03_c04_c05_c06_c20_five_1_16_2_64_4_dup, tup5, (x: Ob1 Ob1Init sz1(), 1; y: Ob16 Ob16Init sz(), 2; z: Ob2 Ob2Init sz2(), 3; u: Ob64 Ob64Init sz64(), 4; v: Ob4 Ob4Init sz4(), 5), Tup5<Ob1, Ob16, Ob2, Ob64, Ob4>);
tuple!(h_c01_c03_c05_c06_c07_five_8_8_8_8_8, h_c01_c03_c04_c05_c06_c20_five_8_8_8_8_8_dup, tup5, (x: Ob ObInit sz(), 1; y: Ob ObInit sz(), 2; z: Ob ObInit sz(), 3; u: Ob ObInit sz(), 4; v: Ob ObInit sz(), 5), Tup5<Ob, Ob, Ob, Ob, Ob>);
