// Shapes at the edge: parts without size, over-aligned and under-aligned parts, a single droppable part.
#![allow(dead_code, unused)]
include!("ob.rs");
use core::mem::size_of;
use varlen::array::SizedInit;
use varlen::array_init::*;
use varlen::tuple::*;
use varlen::{define_varlen, define_varlen_newtype, FixedLen, Str};

/// A value without size that must be destroyed.
pub struct Ztok;
impl Drop for Ztok { fn drop(&mut self) { event(DROP, 0); } }
impl Clone for Ztok { fn clone(&self) -> Self { event(CLONE, 0); Ztok } }
/// Without size, but strictly aligned.
#[derive(Clone, Copy)]
#[repr(align(32))]
pub struct Z32;
/// A large aligned fixed value.
#[derive(Clone, Copy, PartialEq)]
#[repr(align(32))]
pub struct W32(pub usize);

pub fn at<P: VarLen, T: VarLen>(o: &P, e: &T) -> usize {
    let (k, n) = (off(e, o), e.calculate_layout().size());
    storage(e as *const T as *const u8, n, T::ALIGN);
    check("c07 parts end inside the object", k + n <= o.calculate_layout().size());
    k
}

#[define_varlen]
pub struct Zed {
    #[controls_layout]
    pub n: usize,
    pub z: Ztok,
    #[varlen_array]
    pub zs: [Ztok; *n],
    #[varlen]
    pub f: FixedLen<Ztok>,
    #[varlen]
    pub g: Array<Ztok, u8>,
    #[varlen]
    pub h: Ob1,
}
pub fn h_c04_c05_c06_c07_zero_sized_parts() {
    let n = small();
    let m = any_u8();
    {
        let b: VBox<Zed> = VBox::new(zed::Init { n, z: Ztok, zs: FillSequentially(|_| Ztok), f: FixedLen(Ztok), g: SizedInit(m, FillSequentially(|_| Ztok)), h: Ob1Init { id: 1, size: sz1() } });
        check("c06 droppable", Zed::NEEDS_VDROP);
        check("c05 building does not destroy", count(DROP, 0) == 0 && count(MAKE, 1) == 1);
        let r = b.refs();
        check("c07 as long as the length expression says", r.zs.len() == n && r.g.len() == m as usize);
        at(&*b, r.g);
        at(&*b, r.h);
        check("c07 each part is where it was built", r.h.id == 1);
    }
    check("c06 each part is destroyed once", count(DROP, 0) == n + m as usize + 2 && count(DROP, 1) == 1);
    check("c04 the block is released", live() == 0);
}

// Exactly one part needs destruction.
#[define_varlen]
pub struct OneFixed { pub a: u8, pub t: Tok, #[varlen] pub s: Str<u8> }
#[define_varlen]
pub struct OneZero { pub a: u8, pub t: Ztok, #[varlen] pub s: Str<u8> }
#[define_varlen]
pub struct OneElems { #[controls_layout] pub n: u8, #[varlen_array] pub x: [u16; *n as usize], #[varlen_array] pub t: [Tok; *n as usize], #[varlen_array] pub y: [u64; *n as usize] }
#[define_varlen]
pub struct OneZeroElems { #[controls_layout] pub n: u8, #[varlen_array] pub x: [u16; *n as usize], #[varlen_array] pub t: [Ztok; *n as usize] }
#[define_varlen]
pub struct Four<A: VarLen = Str, B: VarLen = Str, C: VarLen = Str, D: VarLen = Str> {
    pub k: u16,
    #[varlen] pub a: A,
    #[varlen] pub b: B,
    #[varlen] pub c: C,
    #[varlen] pub d: D,
}
pub fn h_c04_c05_c06_one_fixed() {
    let k = any_u8();
    drop(VBox::<OneFixed>::new(one_fixed::Init { a: k, t: Tok(4), s: Str::<u8>::try_copy(str_any(k as usize)).unwrap() }));
    check("c06 droppable", OneFixed::NEEDS_VDROP);
    check("c06 each part is destroyed once", count(DROP, 4) == 1);
    check("c04 the block is released", live() == 0);
}
pub fn h_c04_c05_c06_one_zero() {
    let k = any_u8();
    drop(VBox::<OneZero>::new(one_zero::Init { a: k, t: Ztok, s: Str::<u8>::try_copy(str_any(k as usize)).unwrap() }));
    check("c06 droppable", OneZero::NEEDS_VDROP);
    check("c06 each part is destroyed once", count(DROP, 0) == 1);
    check("c04 the block is released", live() == 0);
}
pub fn h_c04_c05_c06_one_elems() {
    let n = any_u8();
    drop(VBox::<OneElems>::new(one_elems::Init { n, x: FillWithDefault, t: FillSequentially(|i: usize| Tok(i)), y: FillWithDefault }));
    check("c06 droppable", OneElems::NEEDS_VDROP);
    let k = any();
    check("c06 each part is destroyed once", count(DROP, k) == (if k < n as usize { 1 } else { 0 }));
    check("c04 the block is released", live() == 0);
}
pub fn h_c04_c05_c06_one_zero_elems() {
    let n = any_u8();
    drop(VBox::<OneZeroElems>::new(one_zero_elems::Init { n, x: FillWithDefault, t: FillSequentially(|_| Ztok) }));
    check("c06 droppable", OneZeroElems::NEEDS_VDROP);
    check("c06 each part is destroyed once", count(DROP, 0) == n as usize);
    check("c04 the block is released", live() == 0);
}
macro_rules! four {
    ($f:ident, $a:ty, $b:ty, $c:ty, $d:ty, $ia:expr, $ib:expr, $ic:expr, $id:expr, $n:expr) => {
        pub fn $f() {
            drop(VBox::<Four<$a, $b, $c, $d>>::new(four::Init { k: 1, a: $ia, b: $ib, c: $ic, d: $id }));
            check("c06 droppable", Four::<$a, $b, $c, $d>::NEEDS_VDROP);
            check("c06 each part is destroyed once", count(DROP, 7) == 1);
            let p: VBox<Tup4<$a, $b, $c, $d>> = VBox::new(tup4::Init($ia, $ib, $ic, $id));
            check("c06 droppable", Tup4::<$a, $b, $c, $d>::NEEDS_VDROP);
            drop(p);
            check("c06 each part is destroyed once", count(DROP, 7) == 2);
            check("c04 the block is released", live() == 0);
        }
    };
}
fn st() -> impl Initializer<Str<u8>> { Str::<u8>::try_copy("ab").unwrap() }
fn tk() -> impl Initializer<Array<Tok, u8>> { SizedInit(1, FillSequentially(|_| Tok(7))) }
fn ob() -> Ob2Init { Ob2Init { id: 7, size: sz2() } }
four!(h_c04_c05_c06_only_first, Ob2, Str<u8>, Str<u8>, Str<u8>, ob(), st(), st(), st(), 1);
four!(h_c04_c05_c06_only_second, Str<u8>, Array<Tok, u8>, Str<u8>, Str<u8>, st(), tk(), st(), st(), 1);
four!(h_c04_c05_c06_only_third, Str<u8>, Str<u8>, FixedLen<Tok>, Str<u8>, st(), st(), FixedLen(Tok(7)), st(), 1);
four!(h_c04_c05_c06_only_last, Str<u8>, Str<u8>, Str<u8>, Ob2, st(), st(), st(), ob(), 1);

// Alignment that comes from the fixed part, from a part without size, or from nowhere.
#[define_varlen]
pub struct Wide { pub b: u8, pub w: W32, #[varlen] pub x: Ob1, #[varlen_array] pub y: [u16; 3] }
#[define_varlen]
pub struct Zwide { pub b: u8, #[varlen_array] pub z: [Z32; 2], #[varlen] pub x: Ob1 }
#[define_varlen]
pub struct Narrow { pub b: u8, #[varlen] pub s: Str<u8>, #[varlen] pub t: Str<u8>, #[varlen] pub x: Ob1, #[varlen_array] pub y: [u8; 3], #[varlen] pub u: Str<u8> }
pub fn h_c01_c03_c04_c07_wide() {
    let b: VBox<Wide> = VBox::new(wide::Init { b: 3, w: W32(4), x: Ob1Init { id: 1, size: sz1() }, y: CopyFrom(&[1, 2, 3]) });
    check("c07 the whole is aligned for its header", Wide::ALIGN % 32 == 0);
    storage(&*b as *const Wide as *const u8, size_of::<Wide>(), 32);
    let r = b.refs();
    at(&*b, r.x);
    check("c07 each part is where it was built", r.x.id == 1 && r.y[2] == 3 && r.w.0 == 4 && *r.b == 3);
    let c: VBox<Wide> = VBox::new(b);
    check("c07 each part is where it was built", c.refs().x.id == 1 && c.refs().y[2] == 3 && c.refs().w.0 == 4);
    let mut s: Seq<Wide> = Seq::new();
    s.push(c);
    s.push(wide::Init { b: 3, w: W32(5), x: Ob1Init { id: 2, size: sz1() }, y: CopyFrom(&[1, 2, 3]) });
    let mut i = s.iter();
    let e = i.next().unwrap();
    storage(e as *const Wide as *const u8, size_of::<Wide>(), 32);
    check("c07 each part is where it was built", e.refs().x.id == 1 && e.w.0 == 4);
    let e = i.next().unwrap();
    storage(e as *const Wide as *const u8, size_of::<Wide>(), 32);
    check("c07 each part is where it was built", e.refs().x.id == 2 && e.w.0 == 5);
    drop(s);
    check("c04 the blocks are released", live() == 0);
}
pub fn h_c01_c03_c04_c07_zwide() {
    let b: VBox<Zwide> = VBox::new(zwide::Init { b: 3, z: CopyFrom(&[Z32, Z32]), x: Ob1Init { id: 1, size: sz1() } });
    check("c07 the whole is aligned for its parts", Zwide::ALIGN % 32 == 0);
    let r = b.refs();
    storage(r.z.as_ptr() as *const u8, 0, 32);
    at(&*b, r.x);
    check("c07 each part is where it was built", r.x.id == 1 && r.z.len() == 2);
    drop(b);
    check("c04 the block is released", live() == 0);
}
pub fn h_c01_c03_c04_c07_narrow() {
    let (s, t, u) = (str_any(any_u8() as usize), str_any(any_u8() as usize), str_any(3));
    let mut b: VBox<Narrow> = VBox::new(narrow::Init { b: 3, s: Str::<u8>::try_copy(s).unwrap(), t: Str::<u8>::try_copy(t).unwrap(), x: Ob1Init { id: 1, size: sz1() }, y: CopyFrom(&[1, 2, 3]), u: Str::<u8>::try_copy(u).unwrap() });
    check("c07 packed without gaps", b.calculate_layout().size() == 1 + 1 + s.len() + 1 + t.len() + b.refs().x.calculate_layout().size() + 3 + 1 + u.len());
    let r = b.refs();
    check("c07 each part is where it was built", r.s.len() == s.len() && r.t.len() == t.len() && r.x.id == 1 && r.y[0] == 1 && r.y[2] == 3 && r.u.len() == u.len());
    let (p1, p2, p3, p4, p5) = (at(&*b, r.s), at(&*b, r.t), at(&*b, r.x), off(r.y.as_ptr(), &*b as *const Narrow), at(&*b, r.u));
    let o = &*b as *const Narrow;
    let m = b.as_mut().muts();
    check("c07 all accessors agree", off(&*m.s, o) == p1 && off(&*m.t, o) == p2 && off(&*m.x, o) == p3 && off(m.y.as_ptr(), o) == p4 && off(&*m.u, o) == p5);
}
// Nothing to store at all.
pub fn h_c01_c03_c04_c07_nothing() {
    let b: VBox<Tup2<FixedLen<[u64; 0]>, FixedLen<()>>> = VBox::new(tup2::Init(FixedLen([]), FixedLen(())));
    check("c04 no block", live() == 0 && allocs() == 0);
    check("c07 the whole is aligned for its parts", Tup2::<FixedLen<[u64; 0]>, FixedLen<()>>::ALIGN == 8);
    storage(&*b.refs().0 as *const FixedLen<[u64; 0]> as *const u8, 0, 8);
    let c: VBox<Tup2<FixedLen<[u64; 0]>, FixedLen<()>>> = VBox::new(b);
    storage(&*c.refs().0 as *const FixedLen<[u64; 0]> as *const u8, 0, 8);
    drop(c);
    check("c04 no block", live() == 0 && allocs() == 0);
}

// Objects in an arena: their alignment is that of their parts, not of their header.
pub fn h_c03_c05_c07_arena_array() {
    let n = any_u8();
    let arena = core::mem::ManuallyDrop::new(bumpalo::Bump::new());
    let o: Owned<Array<u64, u8>> = Owned::new_in(SizedInit(n, FillSequentially(|i: usize| i as u64)), &arena);
    storage(&*o as *const Array<u64, u8> as *const u8, o.calculate_layout().size(), 8);
    check("c07 as long as the stored length", o.len() == n as usize);
    let k = below(n as usize);
    check("c07 each part is where it was built", o[k] == k as u64);
    check("c04 only the arena's storage remains", live() == 0);
}
pub fn h_c03_c05_c07_arena_tuple() {
    let arena = core::mem::ManuallyDrop::new(bumpalo::Bump::new());
    let o: Owned<Tup2<Ob1, Ob64>> = Owned::new_in(tup2::Init(Ob1Init { id: 1, size: sz1() }, Ob64Init { id: 2, size: sz64() }), &arena);
    at(&*o, o.refs().0);
    at(&*o, o.refs().1);
    check("c07 each part is where it was built", o.refs().0.id == 1 && o.refs().1.id == 2);
    drop(o);
    check("c05 destroyed once", count(DROP, 1) == 1 && count(DROP, 2) == 1);
}
pub fn h_c03_c05_c07_arena_struct() {
    let arena = core::mem::ManuallyDrop::new(bumpalo::Bump::new());
    let k = any_u8();
    let o: Owned<Four<Str<u8>, Ob16, FixedLen<W32>, Array<u64, u8>>> = Owned::new_in(four::Init { k: 1, a: Str::<u8>::try_copy(str_any(k as usize)).unwrap(), b: Ob16Init { id: 2, size: sz() }, c: FixedLen(W32(3)), d: SizedInit(k, FillSequentially(|i: usize| i as u64)) }, &arena);
    let r = o.refs();
    at(&*o, r.a);
    at(&*o, r.b);
    at(&*o, r.c);
    at(&*o, r.d);
    check("c07 each part is where it was built", r.b.id == 2 && r.c.0.0 == 3 && r.d.len() == k as usize && r.a.len() == k as usize);
    let b = VBox::new(o);
    let r = b.refs();
    at(&*b, r.b);
    at(&*b, r.c);
    check("c07 each part is where it was built", r.b.id == 2 && r.c.0.0 == 3 && r.d.len() == k as usize);
    check("c05 moving does not destroy", count(DROP, 2) == 0);
    drop(b);
    check("c05 destroyed once", count(DROP, 2) == 1);
    check("c04 only the arena's storage remains", live() == 0);
}

// Large by-value sources.
pub fn h_c05_c08_c09_move_many() {
    let src: [Tok; 100] = unsafe { core::ptr::read(slice_ids::<Tok>(100, 0).as_ptr() as *const [Tok; 100]) };
    let b: VBox<Array<Tok>> = VBox::new(SizedInit(100, MoveFrom(src)));
    check("c05 moving does not destroy", count(DROP, 0) == 0 && count(DROP, 50) == 0 && count(DROP, 99) == 0 && count(CLONE, 0) == 0 && count(CLONE, 99) == 0);
    check("c09 slot holds the element of its position", b[0].0 == 0 && b[50].0 == 50 && b[99].0 == 99);
    drop(b);
    check("c05 destroyed once", count(DROP, 0) == 1 && count(DROP, 50) == 1 && count(DROP, 99) == 1);
}
