#![allow(dead_code, unused)]
include!("ob.rs");
use varlen::array::SizedInit;
use varlen::array_init::*;
use varlen::tuple::*;
use varlen::{define_varlen, define_varlen_newtype, FixedLen, Str};

/// An object whose destruction panics if it is told to.
#[repr(C)]
pub struct Bomb { id: usize, size: usize, armed: bool }
#[derive(PartialEq, Eq)]
pub struct BombLay(usize);
impl Layout for BombLay { fn size(&self) -> usize { self.0 } }
unsafe impl VarLen for Bomb {
    type Layout = BombLay;
    fn calculate_layout(&self) -> BombLay { BombLay(self.size) }
    const ALIGN: usize = 8;
    const NEEDS_VDROP: bool = true;
    unsafe fn vdrop(self: Pin<&mut Self>, layout: BombLay) { event(DROP, self.id); if self.armed { panic!() } }
}
/// How its construction ends: 0 refused, 1 panics while promising, 2 panics while building, 3 built and armed, else built.
pub struct Maybe(usize, usize, u8);
unsafe impl Initializer<Bomb> for Maybe {
    fn calculate_layout_cautious(&self) -> Option<BombLay> {
        if self.2 == 0 { return None; }
        if self.2 == 1 { panic!() }
        Some(BombLay(self.1))
    }
    unsafe fn initialize(self, dst: NonNull<Bomb>, layout: BombLay) {
        storage(dst.as_ptr() as *const u8, self.1, 8);
        if self.2 == 2 { panic!() }
        event(MAKE, self.0);
        dst.as_ptr().write(Bomb { id: self.0, size: self.1, armed: self.2 == 3 });
    }
}
/// Once disposed of, seen.
pub struct Seen(usize);
impl Drop for Seen { fn drop(&mut self) { event(CALL, self.0); } }
pub fn zb() -> usize { let n = any(); assume(n >= 24 && n <= 1 << 40); n }
pub unsafe fn build<T: VarLen, I: Initializer<T>>(i: I) -> *mut T {
    let l = i.calculate_layout_cautious().unwrap();
    let p: *mut T = buf(l.size(), T::ALIGN);
    i.initialize(NonNull::new_unchecked(p), l);
    p
}

#[define_varlen]
pub struct Rec {
    pub tag: u8,
    pub tok: Tok,
    #[controls_layout]
    pub n: u8,
    #[varlen]
    pub a: Bomb,
    #[varlen_array]
    pub toks: [Tok; *n as usize],
    #[varlen]
    pub b: Ob1,
    #[varlen]
    pub c: Bomb,
}
#[define_varlen]
pub struct Plain {
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub a: [u8; *n as usize],
}
/// Without a header.
#[define_varlen]
pub struct Bare {
    #[varlen]
    pub a: Ob,
}
#[define_varlen]
pub struct BareArray {
    #[varlen_array]
    pub a: [Tok; 4],
}
#[define_varlen]
pub struct BareWords {
    #[varlen_array]
    pub a: [u16; 3],
    #[varlen]
    pub b: FixedLen<u32>,
}
#[define_varlen]
pub struct Hollow {
    pub nothing: (),
    #[varlen]
    pub a: Ob1,
    #[varlen_array]
    pub none: [(); 3],
}
#[define_varlen]
pub struct OnlyFixed {
    pub x: u32,
    pub y: u8,
}
#[define_varlen]
pub struct Generic<V: VarLen = Ob> {
    pub x: Tok,
    #[varlen]
    pub v: V,
}
#[define_varlen]
pub struct Wordy {
    #[controls_layout]
    pub n: usize,
    #[varlen_array]
    pub a: [Tok; *n],
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Wrap(pub Rec);
    with init: pub struct WrapInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
pub fn rec(how: u8, how2: u8, n: u8) -> impl Initializer<Rec> {
    rec::Init { tag: 1, tok: Tok(3), n, a: Maybe(1, zb(), how), toks: FillSequentially(|i: usize| { event(MAKE, 100 + i); Tok(100 + i) }), b: Ob1Init { id: 2, size: sz1() }, c: Maybe(4, zb(), how2) }
}

// ---- dropped as plain values
/// Dropped in place or moved out and dropped: panics, and no part behind the header is touched.
pub fn plainly<T: VarLen>(p: *mut T) {
    let how = any_bool();
    let r = catch(|| unsafe { if how { core::ptr::drop_in_place(p) } else { drop(core::ptr::read(p)) } });
    check("c24 the drop panics", r);
    let k = any();
    check("c24 no part is touched", k == 3 || count(DROP, k) == 0);
}
macro_rules! plain { ($($f:ident $init:expr, $t:ty;)*) => { $( pub fn $f() { let p = unsafe { build::<$t, _>($init) }; plainly(p); } )* } }
fn ob(id: usize) -> ObInit { ObInit { id, size: sz() } }
fn words() -> usize { let n = any(); assume(n <= 1 << 30); n }
fn ob1(id: u8) -> Ob1Init { Ob1Init { id, size: sz1() } }
plain! {
    h_c24_plain_tup2 tup2::Init(ob(1), ob1(2)), Tup2<Ob, Ob1>;
    h_c24_plain_tup3 tup3::Init(ob(1), ob1(2), ob(4)), Tup3<Ob, Ob1, Ob>;
    h_c24_plain_tup4 tup4::Init(ob(1), ob1(2), ob(4), ob1(5)), Tup4<Ob, Ob1, Ob, Ob1>;
    h_c24_plain_tup5 tup5::Init(ob(1), ob1(2), ob(4), ob1(5), ob(6)), Tup5<Ob, Ob1, Ob, Ob1, Ob>;
    h_c24_plain_tup2_copy tup2::Init(FixedLen(1u8), FixedLen(2u16)), Tup2<FixedLen<u8>, FixedLen<u16>>;
    h_c24_plain_nested tup2::Init(tup2::Init(ob(1), ob1(2)), ob(4)), Tup2<Tup2<Ob, Ob1>, Ob>;
    h_c24_plain_generated rec(9, 9, any_u8()), Rec;
    h_c24_plain_generated_copy plain::Init { n: 3, a: CopyFrom(&[1, 2, 3]) }, Plain;
    h_c24_plain_newtype WrapInit(rec(9, 9, 1)), Wrap;
    h_c24_plain_bare bare::Init { a: ob(1) }, Bare;
    h_c24_plain_bare_array bare_array::Init { a: FillSequentially(|i: usize| Tok(100 + i)) }, BareArray;
    h_c24_plain_bare_words bare_words::Init { a: CopyFrom(&[1u16, 2, 3]), b: FixedLen(7u32) }, BareWords;
    h_c24_plain_hollow hollow::Init { nothing: (), a: ob1(1), none: FillWithDefault }, Hollow;
    h_c24_plain_only_fixed only_fixed::Init { x: 1, y: 2 }, OnlyFixed;
    h_c24_plain_generic generic::Init { x: Tok(3), v: ob(1) }, Generic;
    h_c24_plain_generic_other generic::Init { x: Tok(3), v: FixedLen(()) }, Generic<FixedLen<()>>;
    h_c24_plain_wordy wordy::Init { n: words(), a: FillSequentially(|i: usize| Tok(100 + i)) }, Wordy;
    h_c24_plain_tup2_nothing tup2::Init(FixedLen(()), FixedLen([0u64; 0])), Tup2<FixedLen<()>, FixedLen<[u64; 0]>>;
    h_c24_plain_tup3_strings tup3::Init(Str::<u8>::try_copy("a").unwrap(), Str::<u16>::try_copy("").unwrap(), Str::<u32>::try_copy("bc").unwrap()), Tup3<Str<u8>, Str<u16>, Str<u32>>;
}

// ---- never triggered by the library
/// Every container, with a construction that may fail in any way at any part.
macro_rules! safely {
    ($boxed:ident, $bump:ident, $seq:ident, $t:ty, |$a:ident, $b:ident| $init:expr, [$($id:expr),*]) => {
        pub fn $boxed() {
            let ($a, $b) = (any_u8(), any_u8());
            assume($a != 3 || $b != 3);
            let r = catch_once(|| {
                let x: VBox<$t> = VBox::new($init);
                let y = VBox::new(x);
                let p = unsafe { y.into_raw() };
                let z = unsafe { VBox::<$t>::from_raw(p) };
            });
            check("c24 only the user's panics arrive", r == ($a <= 3 || $b <= 3));
            $(check("c14 nothing is destroyed twice or unbuilt", count(DROP, $id) <= count(MAKE, $id) && count(MAKE, $id) <= 1);)*
            if !r { $(check("c24 the parts are destroyed by their container", count(DROP, $id) == 1);)* check("c04 the block is released", live() == 0); }
        }
        pub fn $bump() {
            let ($a, $b) = (any_u8(), any_u8());
            assume($a != 3 || $b != 3);
            let arena = core::mem::ManuallyDrop::new(bumpalo::Bump::new());
            let bump: *const bumpalo::Bump = &*arena;
            let r = catch_once(|| {
                let x: Owned<$t> = Owned::new_in($init, unsafe { &*bump });
                let y: VBox<$t> = VBox::new(x);
                let z: Owned<$t> = Owned::new_in(y, unsafe { &*bump });
            });
            check("c24 only the user's panics arrive", r == ($a <= 3 || $b <= 3));
            $(check("c14 nothing is destroyed twice or unbuilt", count(DROP, $id) <= count(MAKE, $id) && count(MAKE, $id) <= 1);)*
            if !r { $(check("c24 the parts are destroyed by their container", count(DROP, $id) == 1);)* }
        }
        pub fn $seq() {
            let ($a, $b) = (any_u8(), any_u8());
            assume($a != 3 || $b != 3);
            let r = catch_once(|| {
                let mut s: Seq<$t> = Seq::new();
                s.push($init);
                let p: *mut Seq<$t> = &mut s;
                if any_bool() {
                    let mut it = unsafe { (*p).take_elems() };
                    let o = it.next();
                    drop(it);
                    let b: VBox<$t> = VBox::new(o.unwrap());
                }
            });
            check("c24 only the user's panics arrive", r == ($a <= 3 || $b <= 3));
            $(check("c14 nothing is destroyed twice or unbuilt", count(DROP, $id) <= count(MAKE, $id) && count(MAKE, $id) <= 1);)*
            if !r { $(check("c24 the parts are destroyed by their container", count(DROP, $id) == 1);)* check("c04 the block is released", live() == 0); }
        }
    };
}
safely!(h_c04_c14_c24_tup2_box, h_c14_c24_tup2_bump, h_c04_c14_c24_tup2_seq, Tup2<Bomb, Bomb>, |a, b| tup2::Init(Maybe(1, zb(), a), Maybe(2, zb(), b)), [1, 2]);
safely!(h_c04_c14_c24_tup3_box, h_c14_c24_tup3_bump, h_c04_c14_c24_tup3_seq, Tup3<Ob1, Bomb, Bomb>, |a, b| tup3::Init(ob1(4), Maybe(1, zb(), a), Maybe(2, zb(), b)), [1, 2, 4]);
safely!(h_c04_c14_c24_nested_box, h_c14_c24_nested_bump, h_c04_c14_c24_nested_seq, Tup2<Tup2<Ob, Bomb>, Bomb>, |a, b| tup2::Init(tup2::Init(ob(4), Maybe(1, zb(), a)), Maybe(2, zb(), b)), [1, 2, 4]);
safely!(h_c04_c14_c24_rec_box, h_c14_c24_rec_bump, h_c04_c14_c24_rec_seq, Rec, |a, b| rec(a, b, 2), [1, 2, 4, 100, 101]);
safely!(h_c04_c14_c24_wrap_box, h_c14_c24_wrap_bump, h_c04_c14_c24_wrap_seq, Wrap, |a, b| WrapInit(rec(a, b, 1)), [1, 2, 4, 100]);
safely!(h_c04_c14_c24_tup2rec_box, h_c14_c24_tup2rec_bump, h_c04_c14_c24_tup2rec_seq, Tup2<Rec, FixedLen<u16>>, |a, b| tup2::Init(rec(a, b, 0), FixedLen(7u16)), [1, 2, 4]);
