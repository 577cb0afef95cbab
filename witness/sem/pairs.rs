// Pairs of parts of every two alignments.
#![allow(dead_code, unused)]
include!("ob.rs");
use core::mem::size_of;
use varlen::array::SizedInit;
use varlen::array_init::*;
use varlen::tuple::*;
use varlen::{FixedLen, Str};

/// A part of an object of `size` bytes at `p`: live, aligned, behind `from`. Returns its end.
pub fn part<P: VarLen, T: VarLen>(o: *const P, size: usize, from: usize, e: &T) -> usize {
    let at = off(e, o);
    let n = e.calculate_layout().size();
    storage(e as *const T as *const u8, n, T::ALIGN);
    check("c07 parts do not overlap", at >= from);
    check("c07 parts end inside the object", at + n <= size);
    check("c07 the whole is aligned for its parts", P::ALIGN % T::ALIGN == 0);
    at + n
}
macro_rules! tuple {
    ($f:ident, $dup:ident, $m:ident, ($($x:ident : $ob:ident $oinit:ident $sz:expr, $id:expr);+), $ty:ty) => {
        pub fn $f() {
            $(let $x = $sz;)+
            let init = || $m::Init($($oinit { id: $id, size: $x }),+);
            let size = init().calculate_layout_cautious().unwrap().size();
            let p: *mut $ty = buf(size, <$ty>::ALIGN);
            unsafe { let i = init(); let l = i.calculate_layout_cautious().unwrap(); i.initialize(NonNull::new_unchecked(p), l); }
            $(check("c05 each part is built once", count(MAKE, $id) == 1);)+
            let o = unsafe { &*p };
            check("c01 the built size is the promised size", o.calculate_layout().size() == size);
            check("c06 droppable", <$ty>::NEEDS_VDROP);
            let end = size_of::<$ty>();
            let r = o.refs();
            let $m::Refs($($x),+) = r;
            $(
                check("c07 each part is where it was built", $x.id == $id);
                let end = part(o, size, end, $x);
            )+
            let r = o.refs();
            let mm = unsafe { Pin::new_unchecked(&mut *p) }.muts();
            let $m::Muts($($x),+) = mm;
            let w = ($(&*$x as *const $ob,)+);
            let $m::Refs($($x),+) = r;
            let v = ($($x as *const $ob,)+);
            same!(v, w, $($x)+);
            unsafe { <$ty>::vdrop(Pin::new_unchecked(&mut *p), o.calculate_layout()); }
            $(check("c06 each part is destroyed once", count(DROP, $id) == 1);)+
        }
        pub fn $dup() {
            $(let $x = $sz;)+
            let i = $m::Init($($oinit { id: $id, size: $x }),+);
            let b: VBox<$ty> = VBox::new(i);
            let size = b.calculate_layout().size();
            let how = any_bool();
            let c: VBox<$ty> = if how { VBox::new(b.vclone()) } else { b.clone() };
            $(check("c20 each part is cloned once", count(CLONE, $id) == 1 && count(MAKE, $id) == 1);)+
            check("c01 a clone has the size of its source", c.calculate_layout().size() == size);
            let $m::Refs($($x),+) = c.refs();
            $(check("c20 each part is cloned to its position", $x.id == $id + 100);)+
            let $m::Refs($($x),+) = b.refs();
            $(check("c20 the source stays as it was", $x.id == $id);)+
            drop(b);
            $(check("c06 each part is destroyed once", count(DROP, $id) == 1 && count(DROP, $id + 100) == 0);)+
            drop(c);
            $(check("c06 each part is destroyed once", count(DROP, $id) == 1 && count(DROP, $id + 100) == 1);)+
            check("c04 the blocks are released", live() == 0);
        }
    };
}
macro_rules! same {
    ($v:ident, $w:ident, $a:ident $b:ident) => { check("c07 all accessors agree", same_addr($v.0, $w.0) && same_addr($v.1, $w.1)); };
    ($v:ident, $w:ident, $a:ident $b:ident $c:ident) => { check("c07 all accessors agree", same_addr($v.0, $w.0) && same_addr($v.1, $w.1) && same_addr($v.2, $w.2)); };
    ($v:ident, $w:ident, $a:ident $b:ident $c:ident $d:ident) => { same!($v, $w, $a $b $c); check("c07 all accessors agree", same_addr($v.3, $w.3)); };
    ($v:ident, $w:ident, $a:ident $b:ident $c:ident $d:ident $e:ident) => { same!($v, $w, $a $b $c $d); check("c07 all accessors agree", same_addr($v.4, $w.4)); };
}
tuple!(h_c01_c03_c05_c06_c07_p_ob1_ob1, h_c01_c03_c04_c05_c06_c20_p_ob1_ob1_dup, tup2, (x: Ob1 Ob1Init sz1(), 1; y: Ob1 Ob1Init sz1(), 2), Tup2<Ob1, Ob1>);
tuple!(h_c01_c03_c05_c06_c07_p_ob1_ob2, h_c01_c03_c04_c05_c06_c20_p_ob1_ob2_dup, tup2, (x: Ob1 Ob1Init sz1(), 1; y: Ob2 Ob2Init sz2(), 2), Tup2<Ob1, Ob2>);
tuple!(h_c01_c03_c05_c06_c07_p_ob1_ob4, h_c01_c03_c04_c05_c06_c20_p_ob1_ob4_dup, tup2, (x: Ob1 Ob1Init sz1(), 1; y: Ob4 Ob4Init sz4(), 2), Tup2<Ob1, Ob4>);
tuple!(h_c01_c03_c05_c06_c07_p_ob1_ob16, h_c01_c03_c04_c05_c06_c20_p_ob1_ob16_dup, tup2, (x: Ob1 Ob1Init sz1(), 1; y: Ob16 Ob16Init sz(), 2), Tup2<Ob1, Ob16>);
tuple!(h_c01_c03_c05_c06_c07_p_ob1_obx, h_c01_c03_c04_c05_c06_c20_p_ob1_obx_dup, tup2, (x: Ob1 Ob1Init sz1(), 1; y: Obx ObxInit sz(), 2), Tup2<Ob1, Obx>);
tuple!(h_c01_c03_c05_c06_c07_p_ob1_ob64, h_c01_c03_c04_c05_c06_c20_p_ob1_ob64_dup, tup2, (x: Ob1 Ob1Init sz1(), 1; y: Ob64 Ob64Init sz64(), 2), Tup2<Ob1, Ob64>);
tuple!(h_c01_c03_c05_c06_c07_p_ob1_oby, h_c01_c03_c04_c05_c06_c20_p_ob1_oby_dup, tup2, (x: Ob1 Ob1Init sz1(), 1; y: Oby ObyInit sz4(), 2), Tup2<Ob1, Oby>);
tuple!(h_c01_c03_c05_c06_c07_p_ob1_obp, h_c01_c03_c04_c05_c06_c20_p_ob1_obp_dup, tup2, (x: Ob1 Ob1Init sz1(), 1; y: Obp ObpInit sz(), 2), Tup2<Ob1, Obp>);
tuple!(h_c01_c03_c05_c06_c07_p_ob2_ob1, h_c01_c03_c04_c05_c06_c20_p_ob2_ob1_dup, tup2, (x: Ob2 Ob2Init sz2(), 1; y: Ob1 Ob1Init sz1(), 2), Tup2<Ob2, Ob1>);
tuple!(h_c01_c03_c05_c06_c07_p_ob2_ob2, h_c01_c03_c04_c05_c06_c20_p_ob2_ob2_dup, tup2, (x: Ob2 Ob2Init sz2(), 1; y: Ob2 Ob2Init sz2(), 2), Tup2<Ob2, Ob2>);
tuple!(h_c01_c03_c05_c06_c07_p_ob2_ob4, h_c01_c03_c04_c05_c06_c20_p_ob2_ob4_dup, tup2, (x: Ob2 Ob2Init sz2(), 1; y: Ob4 Ob4Init sz4(), 2), Tup2<Ob2, Ob4>);
tuple!(h_c01_c03_c05_c06_c07_p_ob2_ob, h_c01_c03_c04_c05_c06_c20_p_ob2_ob_dup, tup2, (x: Ob2 Ob2Init sz2(), 1; y: Ob ObInit sz(), 2), Tup2<Ob2, Ob>);
tuple!(h_c01_c03_c05_c06_c07_p_ob2_ob16, h_c01_c03_c04_c05_c06_c20_p_ob2_ob16_dup, tup2, (x: Ob2 Ob2Init sz2(), 1; y: Ob16 Ob16Init sz(), 2), Tup2<Ob2, Ob16>);
tuple!(h_c01_c03_c05_c06_c07_p_ob2_obx, h_c01_c03_c04_c05_c06_c20_p_ob2_obx_dup, tup2, (x: Ob2 Ob2Init sz2(), 1; y: Obx ObxInit sz(), 2), Tup2<Ob2, Obx>);
tuple!(h_c01_c03_c05_c06_c07_p_ob2_ob64, h_c01_c03_c04_c05_c06_c20_p_ob2_ob64_dup, tup2, (x: Ob2 Ob2Init sz2(), 1; y: Ob64 Ob64Init sz64(), 2), Tup2<Ob2, Ob64>);
tuple!(h_c01_c03_c05_c06_c07_p_ob2_oby, h_c01_c03_c04_c05_c06_c20_p_ob2_oby_dup, tup2, (x: Ob2 Ob2Init sz2(), 1; y: Oby ObyInit sz4(), 2), Tup2<Ob2, Oby>);
tuple!(h_c01_c03_c05_c06_c07_p_ob2_obp, h_c01_c03_c04_c05_c06_c20_p_ob2_obp_dup, tup2, (x: Ob2 Ob2Init sz2(), 1; y: Obp ObpInit sz(), 2), Tup2<Ob2, Obp>);
tuple!(h_c01_c03_c05_c06_c07_p_ob4_ob1, h_c01_c03_c04_c05_c06_c20_p_ob4_ob1_dup, tup2, (x: Ob4 Ob4Init sz4(), 1; y: Ob1 Ob1Init sz1(), 2), Tup2<Ob4, Ob1>);
tuple!(h_c01_c03_c05_c06_c07_p_ob4_ob2, h_c01_c03_c04_c05_c06_c20_p_ob4_ob2_dup, tup2, (x: Ob4 Ob4Init sz4(), 1; y: Ob2 Ob2Init sz2(), 2), Tup2<Ob4, Ob2>);
tuple!(h_c01_c03_c05_c06_c07_p_ob4_ob4, h_c01_c03_c04_c05_c06_c20_p_ob4_ob4_dup, tup2, (x: Ob4 Ob4Init sz4(), 1; y: Ob4 Ob4Init sz4(), 2), Tup2<Ob4, Ob4>);
tuple!(h_c01_c03_c05_c06_c07_p_ob4_ob, h_c01_c03_c04_c05_c06_c20_p_ob4_ob_dup, tup2, (x: Ob4 Ob4Init sz4(), 1; y: Ob ObInit sz(), 2), Tup2<Ob4, Ob>);
tuple!(h_c01_c03_c05_c06_c07_p_ob4_ob16, h_c01_c03_c04_c05_c06_c20_p_ob4_ob16_dup, tup2, (x: Ob4 Ob4Init sz4(), 1; y: Ob16 Ob16Init sz(), 2), Tup2<Ob4, Ob16>);
tuple!(h_c01_c03_c05_c06_c07_p_ob4_obx, h_c01_c03_c04_c05_c06_c20_p_ob4_obx_dup, tup2, (x: Ob4 Ob4Init sz4(), 1; y: Obx ObxInit sz(), 2), Tup2<Ob4, Obx>);
tuple!(h_c01_c03_c05_c06_c07_p_ob4_ob64, h_c01_c03_c04_c05_c06_c20_p_ob4_ob64_dup, tup2, (x: Ob4 Ob4Init sz4(), 1; y: Ob64 Ob64Init sz64(), 2), Tup2<Ob4, Ob64>);
tuple!(h_c01_c03_c05_c06_c07_p_ob4_oby, h_c01_c03_c04_c05_c06_c20_p_ob4_oby_dup, tup2, (x: Ob4 Ob4Init sz4(), 1; y: Oby ObyInit sz4(), 2), Tup2<Ob4, Oby>);
tuple!(h_c01_c03_c05_c06_c07_p_ob4_obp, h_c01_c03_c04_c05_c06_c20_p_ob4_obp_dup, tup2, (x: Ob4 Ob4Init sz4(), 1; y: Obp ObpInit sz(), 2), Tup2<Ob4, Obp>);
tuple!(h_c01_c03_c05_c06_c07_p_ob_ob1, h_c01_c03_c04_c05_c06_c20_p_ob_ob1_dup, tup2, (x: Ob ObInit sz(), 1; y: Ob1 Ob1Init sz1(), 2), Tup2<Ob, Ob1>);
tuple!(h_c01_c03_c05_c06_c07_p_ob_ob2, h_c01_c03_c04_c05_c06_c20_p_ob_ob2_dup, tup2, (x: Ob ObInit sz(), 1; y: Ob2 Ob2Init sz2(), 2), Tup2<Ob, Ob2>);
tuple!(h_c01_c03_c05_c06_c07_p_ob_ob4, h_c01_c03_c04_c05_c06_c20_p_ob_ob4_dup, tup2, (x: Ob ObInit sz(), 1; y: Ob4 Ob4Init sz4(), 2), Tup2<Ob, Ob4>);
tuple!(h_c01_c03_c05_c06_c07_p_ob_ob, h_c01_c03_c04_c05_c06_c20_p_ob_ob_dup, tup2, (x: Ob ObInit sz(), 1; y: Ob ObInit sz(), 2), Tup2<Ob, Ob>);
tuple!(h_c01_c03_c05_c06_c07_p_ob_ob16, h_c01_c03_c04_c05_c06_c20_p_ob_ob16_dup, tup2, (x: Ob ObInit sz(), 1; y: Ob16 Ob16Init sz(), 2), Tup2<Ob, Ob16>);
tuple!(h_c01_c03_c05_c06_c07_p_ob_obx, h_c01_c03_c04_c05_c06_c20_p_ob_obx_dup, tup2, (x: Ob ObInit sz(), 1; y: Obx ObxInit sz(), 2), Tup2<Ob, Obx>);
tuple!(h_c01_c03_c05_c06_c07_p_ob_ob64, h_c01_c03_c04_c05_c06_c20_p_ob_ob64_dup, tup2, (x: Ob ObInit sz(), 1; y: Ob64 Ob64Init sz64(), 2), Tup2<Ob, Ob64>);
tuple!(h_c01_c03_c05_c06_c07_p_ob_oby, h_c01_c03_c04_c05_c06_c20_p_ob_oby_dup, tup2, (x: Ob ObInit sz(), 1; y: Oby ObyInit sz4(), 2), Tup2<Ob, Oby>);
tuple!(h_c01_c03_c05_c06_c07_p_ob_obp, h_c01_c03_c04_c05_c06_c20_p_ob_obp_dup, tup2, (x: Ob ObInit sz(), 1; y: Obp ObpInit sz(), 2), Tup2<Ob, Obp>);
tuple!(h_c01_c03_c05_c06_c07_p_ob16_ob1, h_c01_c03_c04_c05_c06_c20_p_ob16_ob1_dup, tup2, (x: Ob16 Ob16Init sz(), 1; y: Ob1 Ob1Init sz1(), 2), Tup2<Ob16, Ob1>);
tuple!(h_c01_c03_c05_c06_c07_p_ob16_ob2, h_c01_c03_c04_c05_c06_c20_p_ob16_ob2_dup, tup2, (x: Ob16 Ob16Init sz(), 1; y: Ob2 Ob2Init sz2(), 2), Tup2<Ob16, Ob2>);
tuple!(h_c01_c03_c05_c06_c07_p_ob16_ob4, h_c01_c03_c04_c05_c06_c20_p_ob16_ob4_dup, tup2, (x: Ob16 Ob16Init sz(), 1; y: Ob4 Ob4Init sz4(), 2), Tup2<Ob16, Ob4>);
tuple!(h_c01_c03_c05_c06_c07_p_ob16_ob, h_c01_c03_c04_c05_c06_c20_p_ob16_ob_dup, tup2, (x: Ob16 Ob16Init sz(), 1; y: Ob ObInit sz(), 2), Tup2<Ob16, Ob>);
tuple!(h_c01_c03_c05_c06_c07_p_ob16_ob16, h_c01_c03_c04_c05_c06_c20_p_ob16_ob16_dup, tup2, (x: Ob16 Ob16Init sz(), 1; y: Ob16 Ob16Init sz(), 2), Tup2<Ob16, Ob16>);
tuple!(h_c01_c03_c05_c06_c07_p_ob16_obx, h_c01_c03_c04_c05_c06_c20_p_ob16_obx_dup, tup2, (x: Ob16 Ob16Init sz(), 1; y: Obx ObxInit sz(), 2), Tup2<Ob16, Obx>);
tuple!(h_c01_c03_c05_c06_c07_p_ob16_ob64, h_c01_c03_c04_c05_c06_c20_p_ob16_ob64_dup, tup2, (x: Ob16 Ob16Init sz(), 1; y: Ob64 Ob64Init sz64(), 2), Tup2<Ob16, Ob64>);
tuple!(h_c01_c03_c05_c06_c07_p_ob16_oby, h_c01_c03_c04_c05_c06_c20_p_ob16_oby_dup, tup2, (x: Ob16 Ob16Init sz(), 1; y: Oby ObyInit sz4(), 2), Tup2<Ob16, Oby>);
tuple!(h_c01_c03_c05_c06_c07_p_ob16_obp, h_c01_c03_c04_c05_c06_c20_p_ob16_obp_dup, tup2, (x: Ob16 Ob16Init sz(), 1; y: Obp ObpInit sz(), 2), Tup2<Ob16, Obp>);
tuple!(h_c01_c03_c05_c06_c07_p_obx_ob1, h_c01_c03_c04_c05_c06_c20_p_obx_ob1_dup, tup2, (x: Obx ObxInit sz(), 1; y: Ob1 Ob1Init sz1(), 2), Tup2<Obx, Ob1>);
tuple!(h_c01_c03_c05_c06_c07_p_obx_ob2, h_c01_c03_c04_c05_c06_c20_p_obx_ob2_dup, tup2, (x: Obx ObxInit sz(), 1; y: Ob2 Ob2Init sz2(), 2), Tup2<Obx, Ob2>);
tuple!(h_c01_c03_c05_c06_c07_p_obx_ob4, h_c01_c03_c04_c05_c06_c20_p_obx_ob4_dup, tup2, (x: Obx ObxInit sz(), 1; y: Ob4 Ob4Init sz4(), 2), Tup2<Obx, Ob4>);
tuple!(h_c01_c03_c05_c06_c07_p_obx_ob, h_c01_c03_c04_c05_c06_c20_p_obx_ob_dup, tup2, (x: Obx ObxInit sz(), 1; y: Ob ObInit sz(), 2), Tup2<Obx, Ob>);
tuple!(h_c01_c03_c05_c06_c07_p_obx_ob16, h_c01_c03_c04_c05_c06_c20_p_obx_ob16_dup, tup2, (x: Obx ObxInit sz(), 1; y: Ob16 Ob16Init sz(), 2), Tup2<Obx, Ob16>);
tuple!(h_c01_c03_c05_c06_c07_p_obx_obx, h_c01_c03_c04_c05_c06_c20_p_obx_obx_dup, tup2, (x: Obx ObxInit sz(), 1; y: Obx ObxInit sz(), 2), Tup2<Obx, Obx>);
tuple!(h_c01_c03_c05_c06_c07_p_obx_ob64, h_c01_c03_c04_c05_c06_c20_p_obx_ob64_dup, tup2, (x: Obx ObxInit sz(), 1; y: Ob64 Ob64Init sz64(), 2), Tup2<Obx, Ob64>);
tuple!(h_c01_c03_c05_c06_c07_p_obx_oby, h_c01_c03_c04_c05_c06_c20_p_obx_oby_dup, tup2, (x: Obx ObxInit sz(), 1; y: Oby ObyInit sz4(), 2), Tup2<Obx, Oby>);
tuple!(h_c01_c03_c05_c06_c07_p_obx_obp, h_c01_c03_c04_c05_c06_c20_p_obx_obp_dup, tup2, (x: Obx ObxInit sz(), 1; y: Obp ObpInit sz(), 2), Tup2<Obx, Obp>);
tuple!(h_c01_c03_c05_c06_c07_p_ob64_ob1, h_c01_c03_c04_c05_c06_c20_p_ob64_ob1_dup, tup2, (x: Ob64 Ob64Init sz64(), 1; y: Ob1 Ob1Init sz1(), 2), Tup2<Ob64, Ob1>);
tuple!(h_c01_c03_c05_c06_c07_p_ob64_ob4, h_c01_c03_c04_c05_c06_c20_p_ob64_ob4_dup, tup2, (x: Ob64 Ob64Init sz64(), 1; y: Ob4 Ob4Init sz4(), 2), Tup2<Ob64, Ob4>);
tuple!(h_c01_c03_c05_c06_c07_p_ob64_ob, h_c01_c03_c04_c05_c06_c20_p_ob64_ob_dup, tup2, (x: Ob64 Ob64Init sz64(), 1; y: Ob ObInit sz(), 2), Tup2<Ob64, Ob>);
tuple!(h_c01_c03_c05_c06_c07_p_ob64_ob16, h_c01_c03_c04_c05_c06_c20_p_ob64_ob16_dup, tup2, (x: Ob64 Ob64Init sz64(), 1; y: Ob16 Ob16Init sz(), 2), Tup2<Ob64, Ob16>);
tuple!(h_c01_c03_c05_c06_c07_p_ob64_obx, h_c01_c03_c04_c05_c06_c20_p_ob64_obx_dup, tup2, (x: Ob64 Ob64Init sz64(), 1; y: Obx ObxInit sz(), 2), Tup2<Ob64, Obx>);
tuple!(h_c01_c03_c05_c06_c07_p_ob64_ob64, h_c01_c03_c04_c05_c06_c20_p_ob64_ob64_dup, tup2, (x: Ob64 Ob64Init sz64(), 1; y: Ob64 Ob64Init sz64(), 2), Tup2<Ob64, Ob64>);
tuple!(h_c01_c03_c05_c06_c07_p_ob64_oby, h_c01_c03_c04_c05_c06_c20_p_ob64_oby_dup, tup2, (x: Ob64 Ob64Init sz64(), 1; y: Oby ObyInit sz4(), 2), Tup2<Ob64, Oby>);
tuple!(h_c01_c03_c05_c06_c07_p_ob64_obp, h_c01_c03_c04_c05_c06_c20_p_ob64_obp_dup, tup2, (x: Ob64 Ob64Init sz64(), 1; y: Obp ObpInit sz(), 2), Tup2<Ob64, Obp>);
tuple!(h_c01_c03_c05_c06_c07_p_oby_ob1, h_c01_c03_c04_c05_c06_c20_p_oby_ob1_dup, tup2, (x: Oby ObyInit sz4(), 1; y: Ob1 Ob1Init sz1(), 2), Tup2<Oby, Ob1>);
tuple!(h_c01_c03_c05_c06_c07_p_oby_ob2, h_c01_c03_c04_c05_c06_c20_p_oby_ob2_dup, tup2, (x: Oby ObyInit sz4(), 1; y: Ob2 Ob2Init sz2(), 2), Tup2<Oby, Ob2>);
tuple!(h_c01_c03_c05_c06_c07_p_oby_ob4, h_c01_c03_c04_c05_c06_c20_p_oby_ob4_dup, tup2, (x: Oby ObyInit sz4(), 1; y: Ob4 Ob4Init sz4(), 2), Tup2<Oby, Ob4>);
tuple!(h_c01_c03_c05_c06_c07_p_oby_ob, h_c01_c03_c04_c05_c06_c20_p_oby_ob_dup, tup2, (x: Oby ObyInit sz4(), 1; y: Ob ObInit sz(), 2), Tup2<Oby, Ob>);
tuple!(h_c01_c03_c05_c06_c07_p_oby_ob16, h_c01_c03_c04_c05_c06_c20_p_oby_ob16_dup, tup2, (x: Oby ObyInit sz4(), 1; y: Ob16 Ob16Init sz(), 2), Tup2<Oby, Ob16>);
tuple!(h_c01_c03_c05_c06_c07_p_oby_obx, h_c01_c03_c04_c05_c06_c20_p_oby_obx_dup, tup2, (x: Oby ObyInit sz4(), 1; y: Obx ObxInit sz(), 2), Tup2<Oby, Obx>);
tuple!(h_c01_c03_c05_c06_c07_p_oby_ob64, h_c01_c03_c04_c05_c06_c20_p_oby_ob64_dup, tup2, (x: Oby ObyInit sz4(), 1; y: Ob64 Ob64Init sz64(), 2), Tup2<Oby, Ob64>);
tuple!(h_c01_c03_c05_c06_c07_p_oby_oby, h_c01_c03_c04_c05_c06_c20_p_oby_oby_dup, tup2, (x: Oby ObyInit sz4(), 1; y: Oby ObyInit sz4(), 2), Tup2<Oby, Oby>);
tuple!(h_c01_c03_c05_c06_c07_p_oby_obp, h_c01_c03_c04_c05_c06_c20_p_oby_obp_dup, tup2, (x: Oby ObyInit sz4(), 1; y: Obp ObpInit sz(), 2), Tup2<Oby, Obp>);
tuple!(h_c01_c03_c05_c06_c07_p_obp_ob1, h_c01_c03_c04_c05_c06_c20_p_obp_ob1_dup, tup2, (x: Obp ObpInit sz(), 1; y: Ob1 Ob1Init sz1(), 2), Tup2<Obp, Ob1>);
tuple!(h_c01_c03_c05_c06_c07_p_obp_ob2, h_c01_c03_c04_c05_c06_c20_p_obp_ob2_dup, tup2, (x: Obp ObpInit sz(), 1; y: Ob2 Ob2Init sz2(), 2), Tup2<Obp, Ob2>);
tuple!(h_c01_c03_c05_c06_c07_p_obp_ob4, h_c01_c03_c04_c05_c06_c20_p_obp_ob4_dup, tup2, (x: Obp ObpInit sz(), 1; y: Ob4 Ob4Init sz4(), 2), Tup2<Obp, Ob4>);
tuple!(h_c01_c03_c05_c06_c07_p_obp_ob, h_c01_c03_c04_c05_c06_c20_p_obp_ob_dup, tup2, (x: Obp ObpInit sz(), 1; y: Ob ObInit sz(), 2), Tup2<Obp, Ob>);
tuple!(h_c01_c03_c05_c06_c07_p_obp_ob16, h_c01_c03_c04_c05_c06_c20_p_obp_ob16_dup, tup2, (x: Obp ObpInit sz(), 1; y: Ob16 Ob16Init sz(), 2), Tup2<Obp, Ob16>);
tuple!(h_c01_c03_c05_c06_c07_p_obp_obx, h_c01_c03_c04_c05_c06_c20_p_obp_obx_dup, tup2, (x: Obp ObpInit sz(), 1; y: Obx ObxInit sz(), 2), Tup2<Obp, Obx>);
tuple!(h_c01_c03_c05_c06_c07_p_obp_ob64, h_c01_c03_c04_c05_c06_c20_p_obp_ob64_dup, tup2, (x: Obp ObpInit sz(), 1; y: Ob64 Ob64Init sz64(), 2), Tup2<Obp, Ob64>);
tuple!(h_c01_c03_c05_c06_c07_p_obp_oby, h_c01_c03_c04_c05_c06_c20_p_obp_oby_dup, tup2, (x: Obp ObpInit sz(), 1; y: Oby ObyInit sz4(), 2), Tup2<Obp, Oby>);
tuple!(h_c01_c03_c05_c06_c07_p_obp_obp, h_c01_c03_c04_c05_c06_c20_p_obp_obp_dup, tup2, (x: Obp ObpInit sz(), 1; y: Obp ObpInit sz(), 2), Tup2<Obp, Obp>);
