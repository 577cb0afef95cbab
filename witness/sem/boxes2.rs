#![allow(dead_code, unused)]
include!("ob.rs");
use varlen::array::SizedInit;
use varlen::array_init::*;
use varlen::FixedLen;

/// An initializer that refuses, panics while promising, or panics while building.
pub struct Bad(usize, u8);
unsafe impl Initializer<Ob> for Bad {
    fn calculate_layout_cautious(&self) -> Option<ObLay> {
        if self.1 == 0 { return None; }
        if self.1 == 1 { panic!(); }
        ObInit { id: 0, size: self.0 }.calculate_layout_cautious()
    }
    unsafe fn initialize(self, dst: NonNull<Ob>, layout: ObLay) {
        storage(dst.as_ptr() as *const u8, self.0, 8);
        panic!()
    }
}
impl Drop for Bad { fn drop(&mut self) { event(CALL, 1); } }
pub fn h_c04_c05_c14_box_init_panics() {
    let n = sz();
    let how = any_u8();
    let r = catch(|| { VBox::new(Bad(n, how)); });
    check("c14 the panic is passed on", r);
    check("c14 nothing half-built is destroyed", count(DROP, 0) == 0 && count(MAKE, 0) == 0);
    check("c14 the initializer is disposed of once", count(CALL, 1) == 1);
    check("c14 refusal comes before any storage is obtained", how >= 2 || allocs() == 0);
}
pub fn h_c05_c14_bump_init_panics() {
    let n = sz();
    let how = any_u8();
    let arena = core::mem::ManuallyDrop::new(bumpalo::Bump::new());
    let b: *const bumpalo::Bump = &*arena;
    let r = catch(|| { Owned::new_in(Bad(n, how), unsafe { &*b }); });
    check("c14 the panic is passed on", r);
    check("c14 nothing half-built is destroyed", count(DROP, 0) == 0 && count(MAKE, 0) == 0);
    check("c14 the initializer is disposed of once", count(CALL, 1) == 1);
}
/// An object whose destruction panics.
#[repr(C)]
pub struct Bomb { id: usize, size: usize }
#[derive(PartialEq, Eq)]
pub struct BombLay(usize);
impl Layout for BombLay { fn size(&self) -> usize { self.0 } }
unsafe impl VarLen for Bomb {
    type Layout = BombLay;
    fn calculate_layout(&self) -> BombLay { BombLay(self.size) }
    const ALIGN: usize = 8;
    const NEEDS_VDROP: bool = true;
    unsafe fn vdrop(self: Pin<&mut Self>, layout: BombLay) { event(DROP, self.id); panic!() }
}
pub struct BombInit(usize, usize);
unsafe impl Initializer<Bomb> for BombInit {
    fn calculate_layout_cautious(&self) -> Option<BombLay> { Some(BombLay(self.1)) }
    unsafe fn initialize(self, dst: NonNull<Bomb>, layout: BombLay) {
        storage(dst.as_ptr() as *const u8, self.1, 8);
        event(MAKE, self.0);
        dst.as_ptr().write(Bomb { id: self.0, size: self.1 });
    }
}
pub fn h_c04_c05_c14_box_drop_panics() {
    let n = sz();
    let r = catch(|| {
        let b = VBox::new(BombInit(3, n));
        drop(b);
    });
    check("c14 the panic is passed on", r);
    check("c05 destroyed once", count(DROP, 3) == 1 && count(MAKE, 3) == 1);
    check("c04 a block is not released twice", live() <= 1);
}
pub fn h_c05_c14_owned_drop_panics() {
    let n = sz();
    let p: *mut Bomb = buf(n, 8);
    unsafe { BombInit(3, n).initialize(NonNull::new_unchecked(p), BombLay(n)); }
    let r = catch(|| { drop(unsafe { Owned::from_raw(NonNull::new_unchecked(p)) }); });
    check("c14 the panic is passed on", r);
    check("c05 destroyed once", count(DROP, 3) == 1 && count(MAKE, 3) == 1);
}
pub fn h_c05_c14_seq_drop_panics() {
    let n = sz();
    let r = catch(|| {
        let mut s: Seq<Bomb> = Seq::new();
        s.push(BombInit(3, n));
        s.push(BombInit(4, n));
        drop(s);
    });
    check("c14 the panic is passed on", r);
    check("c05 destroyed at most once", count(DROP, 3) == 1 && count(DROP, 4) <= 1);
    check("c04 a block is not released twice", live() <= 1);
}
pub fn h_c05_c14_taken_drop_panics() {
    let n = sz();
    let mut s: Seq<Bomb> = Seq::new();
    s.push(BombInit(3, n));
    s.push(BombInit(4, n));
    let p: *mut Seq<Bomb> = &mut s;
    let r = catch(|| { drop(unsafe { (*p).take_elems() }); });
    check("c14 the panic is passed on", r);
    check("c05 destroyed at most once", count(DROP, 3) == 1 && count(DROP, 4) <= 1);
    check("c14 no element that was taken is left", s.len() == 0 && s.offset() == 0);
    s.push(BombInit(5, n));
    check("c14 the sequence works on", s.len() == 1 && s.iter().next().unwrap().id == 5);
    let r = catch(|| { drop(unsafe { core::ptr::read(p) }); });
    core::mem::forget(s);
    check("c05 destroyed at most once", count(DROP, 3) == 1 && count(DROP, 4) <= 1 && count(DROP, 5) == 1);
}
pub fn h_c05_c14_taken_item_panics() {
    let n = sz();
    let mut s: Seq<Bomb> = Seq::new();
    s.push(BombInit(3, n));
    s.push(BombInit(4, n));
    let p: *mut Seq<Bomb> = &mut s;
    let r = catch(|| { let mut it = unsafe { (*p).take_elems() }; let o = it.next(); core::mem::forget(it); drop(o); });
    check("c14 the panic is passed on", r);
    check("c05 destroyed at most once", count(DROP, 3) == 1 && count(DROP, 4) == 0);
    check("c14 no element that was taken is left", s.len() == 0 && s.offset() == 0);
    core::mem::forget(s);
}

macro_rules! zst {
    ($f:ident, $t:ty, $v:expr, $size:expr, $align:expr) => {
        pub fn $f() {
            let mut b = VBox::new(FixedLen::<$t>($v));
            check("c01 the built size is the promised size", b.calculate_layout().size() == $size && FixedLen::<$t>::ALIGN == $align);
            check("c04 storage is obtained only for objects that need it", live() == (if $size == 0 { 0 } else { 1 }));
            storage(&*b as *const _ as *const u8, $size, $align);
            let a: *const FixedLen<$t> = &*b;
            check("c07 all accessors agree", same_addr(&*b.as_mut(), a));
            if any_bool() {
                let c = VBox::new(b);
                storage(&*c as *const _ as *const u8, $size, $align);
                drop(c);
            } else if any_bool() {
                let p = unsafe { b.into_raw() };
                drop(unsafe { VBox::from_raw(p) });
            } else if any_bool() {
                let arena = core::mem::ManuallyDrop::new(bumpalo::Bump::new());
                let o = Owned::new_in(b, &arena);
                storage(&*o as *const _ as *const u8, $size, $align);
                let c = VBox::new(o);
                storage(&*c as *const _ as *const u8, $size, $align);
            } else {
                drop(b);
            }
            check("c04 the block is released", live() == 0);
        }
    };
}
#[repr(align(32))]
pub struct Nothing;
zst!(h_c01_c03_c04_c05_c07_unit, (), (), 0, 1);
zst!(h_c01_c03_c04_c05_c07_none8, [u64; 0], [], 0, 8);
zst!(h_c01_c03_c04_c05_c07_none32, Nothing, Nothing, 0, 32);
zst!(h_c01_c03_c04_c05_c07_u16, u16, 7, 2, 2);
zst!(h_c01_c03_c04_c05_c07_u64, u64, 7, 8, 8);

pub fn h_c04_c05_c06_c20_fixed_tok() {
    let b = VBox::new(FixedLen(Tok(3)));
    check("c06 droppable", FixedLen::<Tok>::NEEDS_VDROP);
    check("c05 not destroyed while it lives", count(DROP, 3) == 0 && b.0.0 == 3);
    let c = b.clone();
    check("c20 cloned once", count(CLONE, 3) == 1 && c.0.0 == 3 + BIG && b.0.0 == 3);
    let d = VBox::new(c);
    check("c05 moving does not destroy", count(DROP, 3 + BIG) == 0 && count(CLONE, 3) == 1);
    drop(b);
    check("c05 destroyed once", count(DROP, 3) == 1 && count(DROP, 3 + BIG) == 0);
    drop(d);
    check("c05 destroyed once", count(DROP, 3) == 1 && count(DROP, 3 + BIG) == 1);
    check("c04 the blocks are released", live() == 0);
}
macro_rules! toks {
    ($f:ident, $mv:ident, $cl:ident, $len:ty, $any:expr) => {
        pub fn $f() {
            let n: $len = $any;
            {
                let mut b = VBox::new(SizedInit(n, FillSequentially(|i: usize| { event(MAKE, i); Tok(i) })));
                let k = any();
                check("c05 every element is built once", count(MAKE, k) == (if k < n as usize { 1 } else { 0 }) && count(DROP, k) == 0);
                check("c06 droppable", Array::<Tok, $len>::NEEDS_VDROP);
            }
            let k = any();
            check("c05 every element is destroyed once", count(DROP, k) == (if k < n as usize { 1 } else { 0 }));
            check("c04 the block is released", live() == 0);
        }
        pub fn $mv() {
            let n: $len = $any;
            let src: &[Tok] = slice_ids(n as usize, 0);
            let b: VBox<Array<Tok, $len>> = VBox::new(SizedInit(n, FillSequentially(|i: usize| Tok(i))));
            let k = any();
            let c = VBox::new(b);
            check("c05 moving does not destroy or duplicate", count(DROP, k) == 0 && count(CLONE, k) == 0);
            if k < n as usize { check("c08 every element arrives", c[k].0 == k && c.len() == n as usize); }
            let arena = core::mem::ManuallyDrop::new(bumpalo::Bump::new());
            let o = Owned::new_in(c, &arena);
            check("c05 moving does not destroy or duplicate", count(DROP, k) == 0 && count(CLONE, k) == 0);
            if k < n as usize { check("c08 every element arrives", o[k].0 == k && o.len() == n as usize); }
            check("c04 only the arena's storage remains", live() == 0);
            drop(o);
            check("c05 every element is destroyed once", count(DROP, k) == (if k < n as usize { 1 } else { 0 }));
        }
        pub fn $cl() {
            let n: $len = $any;
            let b: VBox<Array<Tok, $len>> = VBox::new(SizedInit(n, FillSequentially(|i: usize| Tok(i))));
            let k = any();
            let c = b.clone();
            let is = k < n as usize;
            check("c20 every element is cloned once", count(CLONE, k) == (if is { 1 } else { 0 }) && count(DROP, k) == 0);
            if is { check("c20 every element is cloned to its position", c[k].0 == k + BIG && c.len() == n as usize); }
            drop(b);
            if is { check("c05 only the source is destroyed", count(DROP, k) == 1 && count(DROP, k + BIG) == 0 && c[k].0 == k + BIG); }
            drop(c);
            if is { check("c05 each is destroyed once", count(DROP, k) == 1 && count(DROP, k + BIG) == 1); }
            check("c04 the blocks are released", live() == 0);
        }
    };
}
toks!(h_c04_c05_c06_toks_u8, h_c04_c05_c08_toks_u8_moved, h_c04_c05_c20_toks_u8_cloned, u8, any_u8());
toks!(h_c04_c05_c06_toks_usize, h_c04_c05_c08_toks_usize_moved, h_c04_c05_c20_toks_usize_cloned, usize, small());

/// A value without size that must be destroyed.
pub struct Ztok;
impl Drop for Ztok { fn drop(&mut self) { event(DROP, 0); } }
pub fn h_c04_c05_c06_ztok_moves() {
    {
        let b = VBox::new(FixedLen(Ztok));
        check("c06 droppable", FixedLen::<Ztok>::NEEDS_VDROP);
        check("c05 building does not destroy", count(DROP, 0) == 0);
        if any_bool() {
            let c = VBox::new(b);
            check("c05 moving does not destroy", count(DROP, 0) == 0);
        } else if any_bool() {
            let arena = core::mem::ManuallyDrop::new(bumpalo::Bump::new());
            let o = Owned::new_in(b, &arena);
            check("c05 moving does not destroy", count(DROP, 0) == 0);
            if any_bool() {
                let c = VBox::new(o);
                check("c05 moving does not destroy", count(DROP, 0) == 0);
            } else if any_bool() {
                let p = unsafe { o.into_raw() };
                check("c05 giving away does not destroy", count(DROP, 0) == 0);
                drop(unsafe { Owned::from_raw(p) });
            } else if any_bool() {
                let mut s: Seq<FixedLen<Ztok>> = Seq::new();
                s.push(o);
                check("c05 moving does not destroy", count(DROP, 0) == 0 && s.len() == 1);
            }
        } else {
            let mut s: IndexableSeq<FixedLen<Ztok>> = Seq::new();
            s.push(b);
            check("c05 moving does not destroy", count(DROP, 0) == 0 && s.len() == 1);
            if any_bool() {
                let e = s.take_elems().next().unwrap();
                check("c05 taking does not destroy", count(DROP, 0) == 0);
                let c = VBox::new(e);
                check("c05 moving does not destroy", count(DROP, 0) == 0);
            }
        }
    }
    check("c05 destroyed once", count(DROP, 0) == 1);
    check("c04 the blocks are released", live() == 0);
}
pub fn h_c05_c06_ztok_array() {
    let n = small();
    {
        let b: VBox<Array<Ztok>> = VBox::new(SizedInit(n, FillSequentially(|_i: usize| Ztok)));
        check("c06 droppable", Array::<Ztok>::NEEDS_VDROP && Array::<Ztok, u8>::NEEDS_VDROP);
        check("c05 building does not destroy", count(DROP, 0) == 0);
    }
    check("c05 every element is destroyed once", count(DROP, 0) == n);
}
pub fn h_c05_c06_ztok_seq() {
    {
        let mut s: Seq<FixedLen<Ztok>> = Seq::new();
        s.push(FixedLen(Ztok));
        s.push(FixedLen(Ztok));
        s.push(FixedLen(Ztok));
        check("c05 pushing does not destroy", count(DROP, 0) == 0);
    }
    check("c05 every element is destroyed once", count(DROP, 0) == 3);
}
/// Parts without any bytes still have a destructor to run.
#[define_varlen]
pub struct Zparts {
    #[varlen]
    pub a: FixedLen<Ztok>,
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub b: [Ztok; *n as usize],
    #[varlen]
    pub c: FixedLen<Ztok>,
}
/// Nothing at all has bytes here.
#[define_varlen]
pub struct Zonly {
    #[varlen]
    pub a: FixedLen<Ztok>,
    #[varlen_array]
    pub b: [Ztok; 3],
}
pub fn h_c04_c05_c06_zparts() {
    let n = any_u8();
    {
        let b: VBox<Zparts> = VBox::new(zparts::Init { a: FixedLen(Ztok), n, b: FillSequentially(|_i: usize| Ztok), c: FixedLen(Ztok) });
        check("c06 droppable", Zparts::NEEDS_VDROP);
        check("c05 building does not destroy", count(DROP, 0) == 0);
        if any_bool() {
            let mut s: Seq<Zparts> = Seq::new();
            s.push(b);
            check("c05 moving does not destroy", count(DROP, 0) == 0);
        }
    }
    check("c05 every part is destroyed once", count(DROP, 0) == n as usize + 2);
    check("c04 the block is released", live() == 0);
}
pub fn h_c04_c05_c06_zonly() {
    {
        let b: VBox<Zonly> = VBox::new(zonly::Init { a: FixedLen(Ztok), b: FillSequentially(|_i: usize| Ztok) });
        check("c06 droppable", Zonly::NEEDS_VDROP);
        if any_bool() {
            let mut s: IndexableSeq<Zonly> = Seq::new();
            s.push(b);
            check("c05 moving does not destroy", count(DROP, 0) == 0);
        }
    }
    check("c05 every part is destroyed once", count(DROP, 0) == 4);
    check("c04 the block is released", live() == 0);
}
pub fn h_c04_c05_c06_ztuple() {
    {
        let b: VBox<Tup2<FixedLen<Ztok>, FixedLen<Ztok>>> = VBox::new(tup2::Init(FixedLen(Ztok), FixedLen(Ztok)));
        check("c06 droppable", <Tup2<FixedLen<Ztok>, FixedLen<Ztok>> as VarLen>::NEEDS_VDROP);
        check("c05 building does not destroy", count(DROP, 0) == 0);
        if any_bool() {
            let mut s: Seq<Tup2<FixedLen<Ztok>, FixedLen<Ztok>>> = Seq::new();
            s.push(b);
            check("c05 moving does not destroy", count(DROP, 0) == 0);
        }
    }
    check("c05 every part is destroyed once", count(DROP, 0) == 2);
    {
        let b: VBox<Tup3<FixedLen<()>, FixedLen<Ztok>, Array<u16, u8>>> = VBox::new(tup3::Init(FixedLen(()), FixedLen(Ztok), SizedInit(3u8, FillWithDefault)));
        check("c06 droppable", <Tup3<FixedLen<()>, FixedLen<Ztok>, Array<u16, u8>> as VarLen>::NEEDS_VDROP);
    }
    check("c05 every part is destroyed once", count(DROP, 0) == 3);
    check("c04 the block is released", live() == 0);
}
