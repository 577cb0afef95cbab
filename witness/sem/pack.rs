#![allow(dead_code, unused)]
// Where parts are and what an object takes: one after another in declared order, nothing but padding for alignment between.
include!("ob.rs");
use core::mem::{align_of, size_of};
use varlen::array::{ArrayLen, SizedInit};
use varlen::array_init::*;
use varlen::{define_varlen, define_varlen_newtype, FixedLen, Str};

/// The first multiple of `a` that is not below `n`.
pub fn at(n: usize, a: usize) -> usize { up(n, a) * a }
pub fn most(a: &[usize]) -> usize { let mut m = 1; let mut i = 0; while i < a.len() { if a[i] > m { m = a[i]; } i += 1; } m }
/// The next part of `o`, which begins no earlier than byte `from`. Its end.
pub fn next<P: ?Sized, T: VarLen>(o: *const P, from: usize, e: &T) -> usize {
    check("c29 each part directly after the one before it", off(e, o) == at(from, T::ALIGN));
    at(from, T::ALIGN) + e.calculate_layout().size()
}
pub fn nexts<P: ?Sized, T>(o: *const P, from: usize, e: &[T], n: usize) -> usize {
    let b = at(from, align_of::<T>());
    check("c29 as long as the length expression says", e.len() == n);
    check("c29 each part directly after the one before it", off(e.as_ptr(), o) == b);
    b + n * size_of::<T>()
}
/// Boxed, and nothing else allocated for it.
pub fn boxed<T: VarLen>(b: VBox<T>, size: usize, before: usize) {
    check("c29 no space beyond the parts", b.calculate_layout().size() == size);
    check("c29 one block", allocs() == before + if size > 0 { 1 } else { 0 } && live() == if size > 0 { 1 } else { 0 });
    if size > 0 { check("c29 a block of the object's size", block_size(&*b as *const T) == size); }
}
pub fn handles<T: VarLen>() {
    check("c29 a handle is one pointer", size_of::<VBox<T>>() == size_of::<usize>() && size_of::<Option<VBox<T>>>() == size_of::<usize>());
    check("c29 a handle is one pointer", size_of::<varlen::owned::Owned<'static, T>>() == size_of::<usize>());
}
macro_rules! tuple {
    ($f:ident, $m:ident, $ty:ty, ($($x:ident : $ob:ident $oinit:ident $sz:expr, $i:tt);+)) => {
        pub fn $f() {
            handles::<$ty>();
            $(let $x = $sz;)+
            let before = allocs();
            let b: VBox<$ty> = VBox::new($m::Init($($oinit { id: 1, size: $x }),+));
            let mut end = size_of::<$ty>();
            check("c29 a tuple has no header", end == 0);
            {
                let r = b.refs();
                $(end = next::<$ty, $ob>(&*b, end, r.$i);)+
            }
            check("c29 aligned as its most aligned part", <$ty>::ALIGN == most(&[$(<$ob>::ALIGN),+]));
            boxed(b, end, before);
        }
    };
}
tuple!(h_c29_tup_ob1_ob1, tup2, Tup2<Ob1, Ob1>, (a: Ob1 Ob1Init sz1(), 0; b: Ob1 Ob1Init sz1(), 1));
tuple!(h_c29_tup_ob1_ob4, tup2, Tup2<Ob1, Ob4>, (a: Ob1 Ob1Init sz1(), 0; b: Ob4 Ob4Init sz4(), 1));
tuple!(h_c29_tup_ob1_ob, tup2, Tup2<Ob1, Ob>, (a: Ob1 Ob1Init sz1(), 0; b: Ob ObInit sz(), 1));
tuple!(h_c29_tup_ob1_ob16, tup2, Tup2<Ob1, Ob16>, (a: Ob1 Ob1Init sz1(), 0; b: Ob16 Ob16Init sz(), 1));
tuple!(h_c29_tup_ob1_ob64, tup2, Tup2<Ob1, Ob64>, (a: Ob1 Ob1Init sz1(), 0; b: Ob64 Ob64Init sz64(), 1));
tuple!(h_c29_tup_ob1_oby, tup2, Tup2<Ob1, Oby>, (a: Ob1 Ob1Init sz1(), 0; b: Oby ObyInit sz4(), 1));
tuple!(h_c29_tup_ob2_ob1, tup2, Tup2<Ob2, Ob1>, (a: Ob2 Ob2Init sz2(), 0; b: Ob1 Ob1Init sz1(), 1));
tuple!(h_c29_tup_ob2_ob4, tup2, Tup2<Ob2, Ob4>, (a: Ob2 Ob2Init sz2(), 0; b: Ob4 Ob4Init sz4(), 1));
tuple!(h_c29_tup_ob2_ob, tup2, Tup2<Ob2, Ob>, (a: Ob2 Ob2Init sz2(), 0; b: Ob ObInit sz(), 1));
tuple!(h_c29_tup_ob2_ob16, tup2, Tup2<Ob2, Ob16>, (a: Ob2 Ob2Init sz2(), 0; b: Ob16 Ob16Init sz(), 1));
tuple!(h_c29_tup_ob2_ob64, tup2, Tup2<Ob2, Ob64>, (a: Ob2 Ob2Init sz2(), 0; b: Ob64 Ob64Init sz64(), 1));
tuple!(h_c29_tup_ob2_oby, tup2, Tup2<Ob2, Oby>, (a: Ob2 Ob2Init sz2(), 0; b: Oby ObyInit sz4(), 1));
tuple!(h_c29_tup_ob_ob1, tup2, Tup2<Ob, Ob1>, (a: Ob ObInit sz(), 0; b: Ob1 Ob1Init sz1(), 1));
tuple!(h_c29_tup_ob_ob4, tup2, Tup2<Ob, Ob4>, (a: Ob ObInit sz(), 0; b: Ob4 Ob4Init sz4(), 1));
tuple!(h_c29_tup_ob_ob, tup2, Tup2<Ob, Ob>, (a: Ob ObInit sz(), 0; b: Ob ObInit sz(), 1));
tuple!(h_c29_tup_ob_ob16, tup2, Tup2<Ob, Ob16>, (a: Ob ObInit sz(), 0; b: Ob16 Ob16Init sz(), 1));
tuple!(h_c29_tup_ob_ob64, tup2, Tup2<Ob, Ob64>, (a: Ob ObInit sz(), 0; b: Ob64 Ob64Init sz64(), 1));
tuple!(h_c29_tup_ob_oby, tup2, Tup2<Ob, Oby>, (a: Ob ObInit sz(), 0; b: Oby ObyInit sz4(), 1));
tuple!(h_c29_tup_obx_ob1, tup2, Tup2<Obx, Ob1>, (a: Obx ObxInit sz(), 0; b: Ob1 Ob1Init sz1(), 1));
tuple!(h_c29_tup_obx_ob4, tup2, Tup2<Obx, Ob4>, (a: Obx ObxInit sz(), 0; b: Ob4 Ob4Init sz4(), 1));
tuple!(h_c29_tup_obx_ob, tup2, Tup2<Obx, Ob>, (a: Obx ObxInit sz(), 0; b: Ob ObInit sz(), 1));
tuple!(h_c29_tup_obx_ob16, tup2, Tup2<Obx, Ob16>, (a: Obx ObxInit sz(), 0; b: Ob16 Ob16Init sz(), 1));
tuple!(h_c29_tup_obx_ob64, tup2, Tup2<Obx, Ob64>, (a: Obx ObxInit sz(), 0; b: Ob64 Ob64Init sz64(), 1));
tuple!(h_c29_tup_obx_oby, tup2, Tup2<Obx, Oby>, (a: Obx ObxInit sz(), 0; b: Oby ObyInit sz4(), 1));
tuple!(h_c29_tup_obp_ob1, tup2, Tup2<Obp, Ob1>, (a: Obp ObpInit sz(), 0; b: Ob1 Ob1Init sz1(), 1));
tuple!(h_c29_tup_obp_ob4, tup2, Tup2<Obp, Ob4>, (a: Obp ObpInit sz(), 0; b: Ob4 Ob4Init sz4(), 1));
tuple!(h_c29_tup_obp_ob, tup2, Tup2<Obp, Ob>, (a: Obp ObpInit sz(), 0; b: Ob ObInit sz(), 1));
tuple!(h_c29_tup_obp_ob16, tup2, Tup2<Obp, Ob16>, (a: Obp ObpInit sz(), 0; b: Ob16 Ob16Init sz(), 1));
tuple!(h_c29_tup_obp_ob64, tup2, Tup2<Obp, Ob64>, (a: Obp ObpInit sz(), 0; b: Ob64 Ob64Init sz64(), 1));
tuple!(h_c29_tup_obp_oby, tup2, Tup2<Obp, Oby>, (a: Obp ObpInit sz(), 0; b: Oby ObyInit sz4(), 1));
tuple!(h_c29_tup_oby_ob1, tup2, Tup2<Oby, Ob1>, (a: Oby ObyInit sz4(), 0; b: Ob1 Ob1Init sz1(), 1));
tuple!(h_c29_tup_oby_ob4, tup2, Tup2<Oby, Ob4>, (a: Oby ObyInit sz4(), 0; b: Ob4 Ob4Init sz4(), 1));
tuple!(h_c29_tup_oby_ob, tup2, Tup2<Oby, Ob>, (a: Oby ObyInit sz4(), 0; b: Ob ObInit sz(), 1));
tuple!(h_c29_tup_oby_ob16, tup2, Tup2<Oby, Ob16>, (a: Oby ObyInit sz4(), 0; b: Ob16 Ob16Init sz(), 1));
tuple!(h_c29_tup_oby_ob64, tup2, Tup2<Oby, Ob64>, (a: Oby ObyInit sz4(), 0; b: Ob64 Ob64Init sz64(), 1));
tuple!(h_c29_tup_oby_oby, tup2, Tup2<Oby, Oby>, (a: Oby ObyInit sz4(), 0; b: Oby ObyInit sz4(), 1));
tuple!(h_c29_tup_ob1_ob_ob2, tup3, Tup3<Ob1, Ob, Ob2>, (a: Ob1 Ob1Init sz1(), 0; b: Ob ObInit sz(), 1; c: Ob2 Ob2Init sz2(), 2));
tuple!(h_c29_tup_ob2_ob1_ob64, tup3, Tup3<Ob2, Ob1, Ob64>, (a: Ob2 Ob2Init sz2(), 0; b: Ob1 Ob1Init sz1(), 1; c: Ob64 Ob64Init sz64(), 2));
tuple!(h_c29_tup_ob_ob1_obx, tup3, Tup3<Ob, Ob1, Obx>, (a: Ob ObInit sz(), 0; b: Ob1 Ob1Init sz1(), 1; c: Obx ObxInit sz(), 2));
tuple!(h_c29_tup_ob1_ob1_ob1, tup3, Tup3<Ob1, Ob1, Ob1>, (a: Ob1 Ob1Init sz1(), 0; b: Ob1 Ob1Init sz1(), 1; c: Ob1 Ob1Init sz1(), 2));
tuple!(h_c29_tup_obp_ob4_obp, tup3, Tup3<Obp, Ob4, Obp>, (a: Obp ObpInit sz(), 0; b: Ob4 Ob4Init sz4(), 1; c: Obp ObpInit sz(), 2));
tuple!(h_c29_tup_ob1_ob4_ob2_ob, tup4, Tup4<Ob1, Ob4, Ob2, Ob>, (a: Ob1 Ob1Init sz1(), 0; b: Ob4 Ob4Init sz4(), 1; c: Ob2 Ob2Init sz2(), 2; d: Ob ObInit sz(), 3));
tuple!(h_c29_tup_ob_ob4_ob2_ob1, tup4, Tup4<Ob, Ob4, Ob2, Ob1>, (a: Ob ObInit sz(), 0; b: Ob4 Ob4Init sz4(), 1; c: Ob2 Ob2Init sz2(), 2; d: Ob1 Ob1Init sz1(), 3));
tuple!(h_c29_tup_ob16_ob1_ob16_ob1, tup4, Tup4<Ob16, Ob1, Ob16, Ob1>, (a: Ob16 Ob16Init sz(), 0; b: Ob1 Ob1Init sz1(), 1; c: Ob16 Ob16Init sz(), 2; d: Ob1 Ob1Init sz1(), 3));
tuple!(h_c29_tup_ob1_ob16_ob2_ob64_ob4, tup5, Tup5<Ob1, Ob16, Ob2, Ob64, Ob4>, (a: Ob1 Ob1Init sz1(), 0; b: Ob16 Ob16Init sz(), 1; c: Ob2 Ob2Init sz2(), 2; d: Ob64 Ob64Init sz64(), 3; e: Ob4 Ob4Init sz4(), 4));
tuple!(h_c29_tup_ob_ob_ob_ob_ob, tup5, Tup5<Ob, Ob, Ob, Ob, Ob>, (a: Ob ObInit sz(), 0; b: Ob ObInit sz(), 1; c: Ob ObInit sz(), 2; d: Ob ObInit sz(), 3; e: Ob ObInit sz(), 4));
tuple!(h_c29_tup_ob1_ob2_ob1_ob4_ob1, tup5, Tup5<Ob1, Ob2, Ob1, Ob4, Ob1>, (a: Ob1 Ob1Init sz1(), 0; b: Ob2 Ob2Init sz2(), 1; c: Ob1 Ob1Init sz1(), 2; d: Ob4 Ob4Init sz4(), 3; e: Ob1 Ob1Init sz1(), 4));

#[derive(Clone, Copy)] #[repr(C, align(32))] pub struct W32 { pub a: u64 }
#[derive(Clone, Copy)] #[repr(C, align(128))] pub struct W128 { pub a: u32 }
#[derive(Clone, Copy)] #[repr(C)] pub struct Odd { pub a: u8, pub b: u8, pub c: u8 }
#[derive(Clone, Copy)] #[repr(C, align(8))] pub struct Z8;
macro_rules! array {
    ($f:ident, $t:ty, $len:ty, $any:expr) => {
        pub fn $f() {
            handles::<Array<$t, $len>>();
            let n: $len = $any;
            let src: &[$t] = slice_any(n as usize);
            let before = allocs();
            let b: VBox<Array<$t, $len>> = VBox::new(Array::<$t, $len>::try_copy(src).unwrap());
            check("c29 the header is the length alone", size_of::<Array<$t, $len>>() == size_of::<$len>());
            check("c29 aligned as its most aligned part", <Array<$t, $len>>::ALIGN == most(&[align_of::<$len>(), align_of::<$t>()]));
            let end = nexts::<_, $t>(&*b, size_of::<$len>(), &b[..], n as usize);
            boxed(b, end, before);
        }
    };
}
array!(h_c29_array_u8_usize, u8, usize, small());
array!(h_c29_array_u8_u8, u8, u8, any_u8());
array!(h_c29_array_u8_u16, u8, u16, any_u16());
array!(h_c29_array_u8_u32, u8, u32, any_u32());
array!(h_c29_array_u16_usize, u16, usize, small());
array!(h_c29_array_u16_u8, u16, u8, any_u8());
array!(h_c29_array_u16_u16, u16, u16, any_u16());
array!(h_c29_array_u16_u32, u16, u32, any_u32());
array!(h_c29_array_u32_usize, u32, usize, small());
array!(h_c29_array_u32_u8, u32, u8, any_u8());
array!(h_c29_array_u32_u16, u32, u16, any_u16());
array!(h_c29_array_u32_u32, u32, u32, any_u32());
array!(h_c29_array_u64_usize, u64, usize, small());
array!(h_c29_array_u64_u8, u64, u8, any_u8());
array!(h_c29_array_u64_u16, u64, u16, any_u16());
array!(h_c29_array_u64_u32, u64, u32, any_u32());
array!(h_c29_array_u128_usize, u128, usize, small());
array!(h_c29_array_u128_u8, u128, u8, any_u8());
array!(h_c29_array_u128_u16, u128, u16, any_u16());
array!(h_c29_array_u128_u32, u128, u32, any_u32());
array!(h_c29_array_odd_usize, Odd, usize, small());
array!(h_c29_array_odd_u8, Odd, u8, any_u8());
array!(h_c29_array_odd_u16, Odd, u16, any_u16());
array!(h_c29_array_odd_u32, Odd, u32, any_u32());
array!(h_c29_array_w32_usize, W32, usize, small());
array!(h_c29_array_w32_u8, W32, u8, any_u8());
array!(h_c29_array_w32_u16, W32, u16, any_u16());
array!(h_c29_array_w32_u32, W32, u32, any_u32());
array!(h_c29_array_w128_usize, W128, usize, small());
array!(h_c29_array_w128_u8, W128, u8, any_u8());
array!(h_c29_array_w128_u16, W128, u16, any_u16());
array!(h_c29_array_w128_u32, W128, u32, any_u32());
array!(h_c29_array_unit_usize, (), usize, small());
array!(h_c29_array_unit_u8, (), u8, any_u8());
array!(h_c29_array_unit_u16, (), u16, any_u16());
array!(h_c29_array_unit_u32, (), u32, any_u32());
array!(h_c29_array_z8_usize, Z8, usize, small());
array!(h_c29_array_z8_u8, Z8, u8, any_u8());
array!(h_c29_array_z8_u16, Z8, u16, any_u16());
array!(h_c29_array_z8_u32, Z8, u32, any_u32());

macro_rules! string {
    ($f:ident, $len:ty, $any:expr) => {
        pub fn $f() {
            handles::<Str<$len>>();
            let n: $len = $any;
            let src = str_any(n as usize);
            let before = allocs();
            let b: VBox<Str<$len>> = VBox::new(Str::<$len>::try_copy(src).unwrap());
            check("c29 the header is the length alone", size_of::<Str<$len>>() == size_of::<$len>());
            check("c29 aligned as its most aligned part", <Str<$len>>::ALIGN == align_of::<$len>());
            let end = nexts::<_, u8>(&*b as *const _, size_of::<$len>(), b.as_bytes(), n as usize);
            boxed(b, end, before);
        }
    };
}
string!(h_c29_str_usize, usize, small());
string!(h_c29_str_u8, u8, any_u8());
string!(h_c29_str_u16, u16, any_u16());
string!(h_c29_str_u32, u32, any_u32());
macro_rules! fixed {
    ($f:ident, $t:ty, $v:expr) => {
        pub fn $f() {
            handles::<FixedLen<$t>>();
            let before = allocs();
            let b: VBox<FixedLen<$t>> = VBox::new(FixedLen($v));
            check("c29 aligned as its content", <FixedLen<$t>>::ALIGN == align_of::<$t>());
            boxed(b, size_of::<$t>(), before);
        }
    };
}
fixed!(h_c29_fixed_u8, u8, any_u8());
fixed!(h_c29_fixed_u64, u64, any() as u64);
fixed!(h_c29_fixed_unit, (), ());
fixed!(h_c29_fixed_z8, Z8, Z8);
fixed!(h_c29_fixed_odd, Odd, Odd { a: 1, b: 2, c: 3 });
fixed!(h_c29_fixed_w128, W128, W128 { a: 1 });
fixed!(h_c29_fixed_tok, Tok, Tok(1));

macro_rules! newtype {
    ($f:ident, $n:ident, $i:ident, $inner:ty, $init:expr) => {
        define_varlen_newtype! {
            #[repr(transparent)]
            pub struct $n($inner);
            with init: struct $i<_>(_);
            with inner_ref: fn inner(&self) -> &_;
            with inner_mut: fn inner_mut(self: _) -> _;
        }
        pub fn $f() {
            handles::<$n>();
            let before = allocs();
            let b: VBox<$n> = VBox::new($i($init));
            check("c29 a wrapper adds nothing", same_addr(b.inner(), &*b) && size_of::<$n>() == size_of::<$inner>() && $n::ALIGN == <$inner>::ALIGN);
            let size = b.inner().calculate_layout().size();
            boxed(b, size, before);
        }
    };
}
newtype!(h_c29_new_ob, NOb, NObI, Ob, ObInit { id: 1, size: sz() });
newtype!(h_c29_new_oby, NOby, NObyI, Oby, ObyInit { id: 1, size: sz4() });
newtype!(h_c29_new_str, NStr, NStrI, Str<u16>, Str::<u16>::try_copy(str_any(any_u16() as usize)).unwrap());
newtype!(h_c29_new_tup, NTup, NTupI, Tup2<Ob1, Ob>, tup2::Init(Ob1Init { id: 1, size: sz1() }, ObInit { id: 2, size: sz() }));

#[define_varlen]
pub struct Ga {
    pub h: u32,
    #[varlen]
    pub a: Ob1,
    #[varlen]
    pub b: Ob,
}
pub struct PlainGa {pub h: u32,}
pub fn h_c29_gen_ga() {
    handles::<Ga>();
    let h: u32 = any_u32();
    let s_a = sz1();
    let s_b = sz();
    let before = allocs();
    let b: VBox<Ga> = VBox::new(ga::Init { h, a: Ob1Init { id: 1, size: s_a }, b: ObInit { id: 1, size: s_b } });
    let mut end = size_of::<PlainGa>();
    check("c29 the header is the fixed fields alone", size_of::<Ga>() == end && align_of::<Ga>() == align_of::<PlainGa>());
    {
        let r = b.refs();
        end = next::<Ga, Ob1>(&*b, end, r.a);
        end = next::<Ga, Ob>(&*b, end, r.b);
    }
    check("c29 aligned as its most aligned part", Ga::ALIGN == most(&[align_of::<PlainGa>(), Ob1::ALIGN, Ob::ALIGN]));
    boxed(b, end, before);
}
#[define_varlen]
pub struct Gb {
    #[varlen]
    pub a: Ob,
    pub h: u8,
    #[varlen]
    pub b: Ob1,
    pub i: u64,
    #[varlen]
    pub c: Ob4,
}
pub struct PlainGb {pub h: u8, pub i: u64,}
pub fn h_c29_gen_gb() {
    handles::<Gb>();
    let s_a = sz();
    let h: u8 = any_u8();
    let s_b = sz1();
    let i: u64 = any() as u64;
    let s_c = sz4();
    let before = allocs();
    let b: VBox<Gb> = VBox::new(gb::Init { a: ObInit { id: 1, size: s_a }, h, b: Ob1Init { id: 1, size: s_b }, i, c: Ob4Init { id: 1, size: s_c } });
    let mut end = size_of::<PlainGb>();
    check("c29 the header is the fixed fields alone", size_of::<Gb>() == end && align_of::<Gb>() == align_of::<PlainGb>());
    {
        let r = b.refs();
        end = next::<Gb, Ob>(&*b, end, r.a);
        end = next::<Gb, Ob1>(&*b, end, r.b);
        end = next::<Gb, Ob4>(&*b, end, r.c);
    }
    check("c29 aligned as its most aligned part", Gb::ALIGN == most(&[align_of::<PlainGb>(), Ob::ALIGN, Ob1::ALIGN, Ob4::ALIGN]));
    boxed(b, end, before);
}
#[define_varlen]
pub struct Gc {
    #[varlen]
    pub a: Ob1,
    #[varlen]
    pub b: Ob64,
    #[varlen]
    pub c: Ob2,
    #[varlen]
    pub d: Oby,
}
pub struct PlainGc {}
pub fn h_c29_gen_gc() {
    handles::<Gc>();
    let s_a = sz1();
    let s_b = sz64();
    let s_c = sz2();
    let s_d = sz4();
    let before = allocs();
    let b: VBox<Gc> = VBox::new(gc::Init { a: Ob1Init { id: 1, size: s_a }, b: Ob64Init { id: 1, size: s_b }, c: Ob2Init { id: 1, size: s_c }, d: ObyInit { id: 1, size: s_d } });
    let mut end = size_of::<PlainGc>();
    check("c29 the header is the fixed fields alone", size_of::<Gc>() == end && align_of::<Gc>() == align_of::<PlainGc>());
    {
        let r = b.refs();
        end = next::<Gc, Ob1>(&*b, end, r.a);
        end = next::<Gc, Ob64>(&*b, end, r.b);
        end = next::<Gc, Ob2>(&*b, end, r.c);
        end = next::<Gc, Oby>(&*b, end, r.d);
    }
    check("c29 aligned as its most aligned part", Gc::ALIGN == most(&[align_of::<PlainGc>(), Ob1::ALIGN, Ob64::ALIGN, Ob2::ALIGN, Oby::ALIGN]));
    boxed(b, end, before);
}
#[repr(C)]
#[define_varlen]
pub struct Gd {
    pub h: u8,
    pub i: u64,
    pub j: u16,
    #[varlen]
    pub a: Ob2,
}
#[repr(C)]
pub struct PlainGd {pub h: u8, pub i: u64, pub j: u16,}
pub fn h_c29_gen_gd() {
    handles::<Gd>();
    let h: u8 = any_u8();
    let i: u64 = any() as u64;
    let j: u16 = any_u16();
    let s_a = sz2();
    let before = allocs();
    let b: VBox<Gd> = VBox::new(gd::Init { h, i, j, a: Ob2Init { id: 1, size: s_a } });
    let mut end = size_of::<PlainGd>();
    check("c29 the header is the fixed fields alone", size_of::<Gd>() == end && align_of::<Gd>() == align_of::<PlainGd>());
    check("c29 the representation asked for", off(b.refs().h, &*b) == core::mem::offset_of!(PlainGd, h) && off(b.refs().i, &*b) == core::mem::offset_of!(PlainGd, i) && off(b.refs().j, &*b) == core::mem::offset_of!(PlainGd, j));
    {
        let r = b.refs();
        end = next::<Gd, Ob2>(&*b, end, r.a);
    }
    check("c29 aligned as its most aligned part", Gd::ALIGN == most(&[align_of::<PlainGd>(), Ob2::ALIGN]));
    boxed(b, end, before);
}
#[repr(C, align(64))]
#[define_varlen]
pub struct Ge {
    pub h: u8,
    #[varlen]
    pub a: Ob1,
    #[varlen]
    pub b: Ob,
}
#[repr(C, align(64))]
pub struct PlainGe {pub h: u8,}
pub fn h_c29_gen_ge() {
    handles::<Ge>();
    let h: u8 = any_u8();
    let s_a = sz1();
    let s_b = sz();
    let before = allocs();
    let b: VBox<Ge> = VBox::new(ge::Init { h, a: Ob1Init { id: 1, size: s_a }, b: ObInit { id: 1, size: s_b } });
    let mut end = size_of::<PlainGe>();
    check("c29 the header is the fixed fields alone", size_of::<Ge>() == end && align_of::<Ge>() == align_of::<PlainGe>());
    check("c29 the representation asked for", off(b.refs().h, &*b) == core::mem::offset_of!(PlainGe, h));
    {
        let r = b.refs();
        end = next::<Ge, Ob1>(&*b, end, r.a);
        end = next::<Ge, Ob>(&*b, end, r.b);
    }
    check("c29 aligned as its most aligned part", Ge::ALIGN == most(&[align_of::<PlainGe>(), Ob1::ALIGN, Ob::ALIGN]));
    boxed(b, end, before);
}
#[define_varlen]
pub struct Gf {
    pub h: W32,
    #[varlen]
    pub a: Ob1,
}
pub struct PlainGf {pub h: W32,}
pub fn h_c29_gen_gf() {
    handles::<Gf>();
    let h: W32 = W32 { a: 1 };
    let s_a = sz1();
    let before = allocs();
    let b: VBox<Gf> = VBox::new(gf::Init { h, a: Ob1Init { id: 1, size: s_a } });
    let mut end = size_of::<PlainGf>();
    check("c29 the header is the fixed fields alone", size_of::<Gf>() == end && align_of::<Gf>() == align_of::<PlainGf>());
    {
        let r = b.refs();
        end = next::<Gf, Ob1>(&*b, end, r.a);
    }
    check("c29 aligned as its most aligned part", Gf::ALIGN == most(&[align_of::<PlainGf>(), Ob1::ALIGN]));
    boxed(b, end, before);
}
#[define_varlen]
pub struct Gg {
    #[controls_layout]
    pub n: usize,
    #[varlen_array]
    pub a: [u8; *n],
    #[varlen_array]
    pub b: [u32; *n],
    #[varlen_array]
    pub c: [u16; *n / 2],
}
pub struct PlainGg {pub n: usize,}
pub fn h_c29_gen_gg() {
    handles::<Gg>();
    let n: usize = small();
    let before = allocs();
    let b: VBox<Gg> = VBox::new(gg::Init { n, a: FillSequentially(|_| 0), b: FillSequentially(|_| 0), c: FillSequentially(|_| 0) });
    let mut end = size_of::<PlainGg>();
    check("c29 the header is the fixed fields alone", size_of::<Gg>() == end && align_of::<Gg>() == align_of::<PlainGg>());
    {
        let r = b.refs();
        end = nexts::<Gg, u8>(&*b, end, r.a, n);
        end = nexts::<Gg, u32>(&*b, end, r.b, n);
        end = nexts::<Gg, u16>(&*b, end, r.c, n / 2);
    }
    check("c29 aligned as its most aligned part", Gg::ALIGN == most(&[align_of::<PlainGg>(), align_of::<u8>(), align_of::<u32>(), align_of::<u16>()]));
    boxed(b, end, before);
}
#[define_varlen]
pub struct Gh {
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub a: [u16; *n as usize],
    #[varlen]
    pub v: Ob,
    #[varlen_array]
    pub b: [u8; *n as usize + 1],
}
pub struct PlainGh {pub n: u8,}
pub fn h_c29_gen_gh() {
    handles::<Gh>();
    let n: u8 = any_u8();
    let s_v = sz();
    let before = allocs();
    let b: VBox<Gh> = VBox::new(gh::Init { n, a: FillSequentially(|_| 0), v: ObInit { id: 1, size: s_v }, b: FillSequentially(|_| 0) });
    let mut end = size_of::<PlainGh>();
    check("c29 the header is the fixed fields alone", size_of::<Gh>() == end && align_of::<Gh>() == align_of::<PlainGh>());
    {
        let r = b.refs();
        end = nexts::<Gh, u16>(&*b, end, r.a, n as usize);
        end = next::<Gh, Ob>(&*b, end, r.v);
        end = nexts::<Gh, u8>(&*b, end, r.b, n as usize + 1);
    }
    check("c29 aligned as its most aligned part", Gh::ALIGN == most(&[align_of::<PlainGh>(), align_of::<u16>(), Ob::ALIGN, align_of::<u8>()]));
    boxed(b, end, before);
}
#[define_varlen]
pub struct Gi {
    #[controls_layout]
    pub n: u16,
    #[controls_layout]
    pub m: u32,
    #[varlen_array]
    pub a: [Odd; *n as usize],
    #[varlen_array]
    pub b: [W128; *m as usize],
    #[varlen_array]
    pub c: [u8; *n as usize * 3],
}
pub struct PlainGi {pub n: u16, pub m: u32,}
pub fn h_c29_gen_gi() {
    handles::<Gi>();
    let n: u16 = any_u16();
    let m: u32 = any_u32();
    let before = allocs();
    let b: VBox<Gi> = VBox::new(gi::Init { n, m, a: FillSequentially(|_| Odd { a: 1, b: 2, c: 3 }), b: FillSequentially(|_| W128 { a: 1 }), c: FillSequentially(|_| 0) });
    let mut end = size_of::<PlainGi>();
    check("c29 the header is the fixed fields alone", size_of::<Gi>() == end && align_of::<Gi>() == align_of::<PlainGi>());
    {
        let r = b.refs();
        end = nexts::<Gi, Odd>(&*b, end, r.a, n as usize);
        end = nexts::<Gi, W128>(&*b, end, r.b, m as usize);
        end = nexts::<Gi, u8>(&*b, end, r.c, n as usize * 3);
    }
    check("c29 aligned as its most aligned part", Gi::ALIGN == most(&[align_of::<PlainGi>(), align_of::<Odd>(), align_of::<W128>(), align_of::<u8>()]));
    boxed(b, end, before);
}
#[repr(C)]
#[define_varlen]
pub struct Gj {
    #[controls_layout]
    pub n: u8,
    pub k: u32,
    #[controls_layout]
    pub m: u16,
    #[varlen_array]
    pub a: [u64; *m as usize],
    #[varlen_array]
    pub b: [u8; *n as usize],
}
#[repr(C)]
pub struct PlainGj {pub n: u8, pub k: u32, pub m: u16,}
pub fn h_c29_gen_gj() {
    handles::<Gj>();
    let n: u8 = any_u8();
    let k: u32 = any_u32();
    let m: u16 = any_u16();
    let before = allocs();
    let b: VBox<Gj> = VBox::new(gj::Init { n, k, m, a: FillSequentially(|_| 0), b: FillSequentially(|_| 0) });
    let mut end = size_of::<PlainGj>();
    check("c29 the header is the fixed fields alone", size_of::<Gj>() == end && align_of::<Gj>() == align_of::<PlainGj>());
    check("c29 the representation asked for", off(b.refs().n, &*b) == core::mem::offset_of!(PlainGj, n) && off(b.refs().k, &*b) == core::mem::offset_of!(PlainGj, k) && off(b.refs().m, &*b) == core::mem::offset_of!(PlainGj, m));
    {
        let r = b.refs();
        end = nexts::<Gj, u64>(&*b, end, r.a, m as usize);
        end = nexts::<Gj, u8>(&*b, end, r.b, n as usize);
    }
    check("c29 aligned as its most aligned part", Gj::ALIGN == most(&[align_of::<PlainGj>(), align_of::<u64>(), align_of::<u8>()]));
    boxed(b, end, before);
}
#[define_varlen]
pub struct Gk {
    #[varlen_array]
    pub a: [u32; 3],
    #[varlen]
    pub v: Ob1,
    #[varlen_array]
    pub b: [u8; 5],
}
pub struct PlainGk {}
pub fn h_c29_gen_gk() {
    handles::<Gk>();
    let s_v = sz1();
    let before = allocs();
    let b: VBox<Gk> = VBox::new(gk::Init { a: FillSequentially(|_| 0), v: Ob1Init { id: 1, size: s_v }, b: FillSequentially(|_| 0) });
    let mut end = size_of::<PlainGk>();
    check("c29 the header is the fixed fields alone", size_of::<Gk>() == end && align_of::<Gk>() == align_of::<PlainGk>());
    {
        let r = b.refs();
        end = nexts::<Gk, u32>(&*b, end, r.a, 3);
        end = next::<Gk, Ob1>(&*b, end, r.v);
        end = nexts::<Gk, u8>(&*b, end, r.b, 5);
    }
    check("c29 aligned as its most aligned part", Gk::ALIGN == most(&[align_of::<PlainGk>(), align_of::<u32>(), Ob1::ALIGN, align_of::<u8>()]));
    boxed(b, end, before);
}
#[define_varlen]
pub struct Gl {
    #[varlen]
    pub v: Oby,
    #[controls_layout]
    pub n: usize,
    #[varlen_array]
    pub z: [(); *n],
    #[varlen]
    pub w: Ob1,
}
pub struct PlainGl {pub n: usize,}
pub fn h_c29_gen_gl() {
    handles::<Gl>();
    let s_v = sz4();
    let n: usize = small();
    let s_w = sz1();
    let before = allocs();
    let b: VBox<Gl> = VBox::new(gl::Init { v: ObyInit { id: 1, size: s_v }, n, z: FillSequentially(|_| ()), w: Ob1Init { id: 1, size: s_w } });
    let mut end = size_of::<PlainGl>();
    check("c29 the header is the fixed fields alone", size_of::<Gl>() == end && align_of::<Gl>() == align_of::<PlainGl>());
    {
        let r = b.refs();
        end = next::<Gl, Oby>(&*b, end, r.v);
        end = nexts::<Gl, ()>(&*b, end, r.z, n);
        end = next::<Gl, Ob1>(&*b, end, r.w);
    }
    check("c29 aligned as its most aligned part", Gl::ALIGN == most(&[align_of::<PlainGl>(), Oby::ALIGN, align_of::<()>(), Ob1::ALIGN]));
    boxed(b, end, before);
}
#[define_varlen]
pub struct Gm {
    #[varlen]
    pub x: Ob1,
    #[varlen]
    pub y: Ob1,
    #[varlen]
    pub z: Ob1,
    #[varlen]
    pub u: Ob1,
    #[varlen]
    pub v: Ob1,
    #[varlen]
    pub w: Ob1,
}
pub struct PlainGm {}
pub fn h_c29_gen_gm() {
    handles::<Gm>();
    let s_x = sz1();
    let s_y = sz1();
    let s_z = sz1();
    let s_u = sz1();
    let s_v = sz1();
    let s_w = sz1();
    let before = allocs();
    let b: VBox<Gm> = VBox::new(gm::Init { x: Ob1Init { id: 1, size: s_x }, y: Ob1Init { id: 1, size: s_y }, z: Ob1Init { id: 1, size: s_z }, u: Ob1Init { id: 1, size: s_u }, v: Ob1Init { id: 1, size: s_v }, w: Ob1Init { id: 1, size: s_w } });
    let mut end = size_of::<PlainGm>();
    check("c29 the header is the fixed fields alone", size_of::<Gm>() == end && align_of::<Gm>() == align_of::<PlainGm>());
    {
        let r = b.refs();
        end = next::<Gm, Ob1>(&*b, end, r.x);
        end = next::<Gm, Ob1>(&*b, end, r.y);
        end = next::<Gm, Ob1>(&*b, end, r.z);
        end = next::<Gm, Ob1>(&*b, end, r.u);
        end = next::<Gm, Ob1>(&*b, end, r.v);
        end = next::<Gm, Ob1>(&*b, end, r.w);
    }
    check("c29 aligned as its most aligned part", Gm::ALIGN == most(&[align_of::<PlainGm>(), Ob1::ALIGN, Ob1::ALIGN, Ob1::ALIGN, Ob1::ALIGN, Ob1::ALIGN, Ob1::ALIGN]));
    boxed(b, end, before);
}
#[define_varlen]
pub struct Gn {
    pub h: (),
    #[varlen]
    pub v: Ob2,
}
pub struct PlainGn {pub h: (),}
pub fn h_c29_gen_gn() {
    handles::<Gn>();
    let h: () = ();
    let s_v = sz2();
    let before = allocs();
    let b: VBox<Gn> = VBox::new(gn::Init { h, v: Ob2Init { id: 1, size: s_v } });
    let mut end = size_of::<PlainGn>();
    check("c29 the header is the fixed fields alone", size_of::<Gn>() == end && align_of::<Gn>() == align_of::<PlainGn>());
    {
        let r = b.refs();
        end = next::<Gn, Ob2>(&*b, end, r.v);
    }
    check("c29 aligned as its most aligned part", Gn::ALIGN == most(&[align_of::<PlainGn>(), Ob2::ALIGN]));
    boxed(b, end, before);
}

/// A struct in a struct in a tuple.
#[define_varlen]
pub struct Go { pub h: u16, #[varlen] pub g: Gm, #[varlen] pub t: Tup2<Ob1, Ob4>, #[varlen] pub s: Str<u8> }
pub fn h_c29_gen_nested() {
    let z = || Ob1Init { id: 1, size: 3 };
    let (p, q) = (sz1(), sz4());
    let b: VBox<Go> = VBox::new(go::Init { h: 1, g: gm::Init { x: z(), y: z(), z: z(), u: z(), v: z(), w: Ob1Init { id: 1, size: p } },
        t: tup2::Init(z(), Ob4Init { id: 2, size: q }), s: Str::<u8>::try_copy(str_any(any_u8() as usize)).unwrap() });
    let r = b.refs();
    let end = next::<Go, Gm>(&*b, 2, r.g);
    check("c29 no space beyond the parts", end == 2 + 15 + p as usize);
    let end = next::<Go, Tup2<Ob1, Ob4>>(&*b, end, r.t);
    check("c29 no space beyond the parts", end == at(2 + 15 + p as usize, 4) + 4 + q as usize);
    let end = next::<Go, Str<u8>>(&*b, end, r.s);
    check("c29 aligned as its most aligned part", Go::ALIGN == 4);
    check("c29 no space beyond the parts", b.calculate_layout().size() == end);
    stop();
}

macro_rules! seq {
    ($f:ident, $ob:ident, $init:ident, $idx:ty, $sz:expr, $bits:expr) => {
        pub fn $f() {
            let (x, y) = ($sz, $sz);
            let mut s: Seq<$ob, $idx> = Seq::new();
            check("c29 an empty sequence takes nothing", allocs() == 0);
            s.push($init { id: 1, size: x });
            s.push($init { id: 2, size: y });
            let mut it = s.iter();
            let (e, f) = (it.next().unwrap(), it.next().unwrap());
            let n = up(x as usize, $ob::ALIGN);
            check("c29 elements are packed", off(f, e) == n * $ob::ALIGN && s.offset() == n + up(y as usize, $ob::ALIGN));
            let cap = s.capacity_in_offsets();
            check("c29 one block", live() == 1);
            check("c29 a block of the capacity", block_size(e as *const $ob) == cap * $ob::ALIGN + if $bits { up(cap, 8) } else { 0 });
        }
    };
}
seq!(h_c29_seq_ob1, Ob1, Ob1Init, UncheckedIndexing, sz1(), false);
seq!(h_c29_seqchk_ob1, Ob1, Ob1Init, CheckedIndexing, sz1(), true);
seq!(h_c29_seq_ob2, Ob2, Ob2Init, UncheckedIndexing, sz2(), false);
seq!(h_c29_seqchk_ob2, Ob2, Ob2Init, CheckedIndexing, sz2(), true);
seq!(h_c29_seq_ob4, Ob4, Ob4Init, UncheckedIndexing, sz4(), false);
seq!(h_c29_seqchk_ob4, Ob4, Ob4Init, CheckedIndexing, sz4(), true);
seq!(h_c29_seq_ob, Ob, ObInit, UncheckedIndexing, sz(), false);
seq!(h_c29_seqchk_ob, Ob, ObInit, CheckedIndexing, sz(), true);
seq!(h_c29_seq_ob16, Ob16, Ob16Init, UncheckedIndexing, sz(), false);
seq!(h_c29_seqchk_ob16, Ob16, Ob16Init, CheckedIndexing, sz(), true);
seq!(h_c29_seq_obx, Obx, ObxInit, UncheckedIndexing, sz(), false);
seq!(h_c29_seqchk_obx, Obx, ObxInit, CheckedIndexing, sz(), true);
seq!(h_c29_seq_obp, Obp, ObpInit, UncheckedIndexing, sz(), false);
seq!(h_c29_seqchk_obp, Obp, ObpInit, CheckedIndexing, sz(), true);
seq!(h_c29_seq_ob64, Ob64, Ob64Init, UncheckedIndexing, sz64(), false);
seq!(h_c29_seqchk_ob64, Ob64, Ob64Init, CheckedIndexing, sz64(), true);
seq!(h_c29_seq_oby, Oby, ObyInit, UncheckedIndexing, sz4(), false);
seq!(h_c29_seqchk_oby, Oby, ObyInit, CheckedIndexing, sz4(), true);
