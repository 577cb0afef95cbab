// Generated structs whose fields have every combination of alignments, sizes and needs for destruction.
#![allow(dead_code, unused)]
include!("ob.rs");
use core::mem::size_of;
use varlen::array::SizedInit;
use varlen::array_init::*;
use varlen::{define_varlen, define_varlen_newtype, FixedLen, Str};

pub fn part<P: VarLen, T: VarLen>(o: *const P, size: usize, from: usize, e: &T) -> usize {
    let at = off(e, o);
    let n = e.calculate_layout().size();
    storage(e as *const T as *const u8, n, T::ALIGN);
    check("c07 parts do not overlap", at >= from);
    check("c07 parts end inside the object", at + n <= size);
    check("c07 the whole is aligned for its parts", P::ALIGN % T::ALIGN == 0);
    at + n
}
pub fn slice<P: VarLen, T>(o: *const P, size: usize, from: usize, e: &[T], n: usize) -> usize {
    let at = off(e.as_ptr(), o);
    check("c07 as long as the length expression says", e.len() == n);
    check("c07 parts do not overlap", at >= from);
    check("c07 parts end inside the object", at + n * size_of::<T>() <= size);
    check("c07 the whole is aligned for its parts", P::ALIGN % core::mem::align_of::<T>() == 0 && at % core::mem::align_of::<T>() == 0);
    at + n * size_of::<T>()
}
pub unsafe fn build<T: VarLen, I: Initializer<T>>(i: I) -> (*mut T, usize) {
    let l = i.calculate_layout_cautious().unwrap();
    let size = l.size();
    let p: *mut T = buf(size, T::ALIGN);
    i.initialize(NonNull::new_unchecked(p), l);
    check("c01 the built size is the promised size", (*p).calculate_layout().size() == size);
    check("c01 the size covers the header", size >= size_of::<T>());
    check("c07 the whole is aligned for its header", T::ALIGN % core::mem::align_of::<T>() == 0);
    (p, size)
}
/// A value with identity, less aligned than it is long.
#[repr(C, packed(2))]
pub struct Tik(pub usize);
impl Drop for Tik { fn drop(&mut self) { event(DROP, self.0); } }
impl Tik { pub fn id(&self) -> usize { self.0 } }



#[derive(Clone, Copy)] #[repr(C, align(32))] pub struct W32 { pub a: u64 }
#[derive(Clone, Copy)] #[repr(C, align(128))] pub struct W128 { pub a: u32 }
#[derive(Clone, Copy)] #[repr(C)] pub struct Odd { pub a: u8, pub b: u8, pub c: u8 }
#[derive(Clone, Copy)] #[repr(C, align(8))] pub struct Z8;
pub trait Same { fn same(&self, o: &Self) -> bool; }
macro_rules! same { ($($t:ty: |$x:ident, $y:ident| $e:expr;)*) => { $(impl Same for $t { fn same(&self, o: &Self) -> bool { let ($x, $y) = (self, o); $e } })* } }
same! { u8: |x, y| *x == *y; u16: |x, y| *x == *y; u32: |x, y| *x == *y; u64: |x, y| *x == *y; u128: |x, y| true; W32: |x, y| x.a == y.a; W128: |x, y| x.a == y.a; Odd: |x, y| x.a == y.a && x.b == y.b && x.c == y.c; Z8: |x, y| true; (): |x, y| true; }


macro_rules! linked {
    ($f:ident, $dup:ident, $s:ident, $m:ident, $h:ty, $hv:expr, $a:ident $ai:ident $as:expr, $b:ident $bi:ident $bs:expr) => {
        pub fn $f() {
            let (x, y) = ($as, $bs);
            let (p, size) = unsafe { build($m::Init { a: $ai { id: 1, size: x }, h: $hv, b: $bi { id: 2, size: y } }) };
            check("c05 each part is built once", count(MAKE, 1) == 1 && count(MAKE, 2) == 1);
            let o = unsafe { &*p };
            check("c06 droppable", $s::NEEDS_VDROP);
            let r = o.refs();
            let end = part(o, size, size_of::<$s>(), r.a);
            part(o, size, end, r.b);
            check("c07 each part is where it was built", r.a.id == 1 && r.b.id == 2);
            check("c07 all accessors agree", same_addr(r.h, &o.h));
            let (u, v): (*const $a, *const $b) = (r.a, r.b);
            let m = unsafe { Pin::new_unchecked(&mut *p) }.muts();
            check("c07 all accessors agree", same_addr(&*m.a, u) && same_addr(&*m.b, v) && same_addr(m.h, &o.h));
            unsafe { $s::vdrop(Pin::new_unchecked(&mut *p), o.calculate_layout()); }
            check("c06 each part is destroyed once", count(DROP, 1) == 1 && count(DROP, 2) == 1);
        }
        /// Owned, moved, in a sequence with another one behind it.
        pub fn $dup() {
            let (x, y) = ($as, $bs);
            {
                let b: VBox<$s> = VBox::new($m::Init { a: $ai { id: 1, size: x }, h: $hv, b: $bi { id: 2, size: y } });
                let size = b.calculate_layout().size();
                let mut s: Seq<$s> = Seq::new();
                s.push(b);
                check("c05 moved, not dropped", count(DROP, 1) == 0 && count(DROP, 2) == 0);
                let n1 = s.offset();
                check("c10 the end advances by the element's space", n1 == up(size, $s::ALIGN));
                s.push($m::Init { a: $ai { id: 3, size: x }, h: $hv, b: $bi { id: 4, size: y } });
                let mut it = s.iter();
                let (e, f) = (it.next().unwrap(), it.next().unwrap());
                check("c01 a moved object has the size of its source", e.calculate_layout().size() == size && f.calculate_layout().size() == size);
                check("c11 each at its own place", off(f, e) == n1 * $s::ALIGN && it.next().is_none());
                check("c05 moved with its parts", e.refs().a.id == 1 && e.refs().b.id == 2 && f.refs().a.id == 3 && f.refs().b.id == 4);
            }
            check("c06 each part is destroyed once", count(DROP, 1) == 1 && count(DROP, 2) == 1 && count(DROP, 3) == 1 && count(DROP, 4) == 1);
            check("c04 the blocks are released", live() == 0);
        }
    };
}

#[define_varlen]
pub struct Linkaa { #[varlen] pub a: Ob1, pub h: u8, #[varlen] pub b: Ob1 }
linked!(h_c01_c03_c05_c06_c07_l_ob1_ob1, h_c01_c03_c04_c05_c06_c10_c11_l_ob1_ob1_moved, Linkaa, linkaa, u8, 9, Ob1 Ob1Init sz1(), Ob1 Ob1Init sz1());
#[define_varlen]
pub struct Linkab { #[varlen] pub a: Ob1, pub h: u64, #[varlen] pub b: Ob2 }
linked!(h_c01_c03_c05_c06_c07_l_ob1_ob2, h_c01_c03_c04_c05_c06_c10_c11_l_ob1_ob2_moved, Linkab, linkab, u64, 9, Ob1 Ob1Init sz1(), Ob2 Ob2Init sz2());
#[define_varlen]
pub struct Linkac { #[varlen] pub a: Ob1, pub h: u32, #[varlen] pub b: Ob4 }
linked!(h_c01_c03_c05_c06_c07_l_ob1_ob4, h_c01_c03_c04_c05_c06_c10_c11_l_ob1_ob4_moved, Linkac, linkac, u32, 9, Ob1 Ob1Init sz1(), Ob4 Ob4Init sz4());
#[define_varlen]
pub struct Linkad { #[varlen] pub a: Ob1, pub h: (), #[varlen] pub b: Ob }
linked!(h_c01_c03_c05_c06_c07_l_ob1_ob, h_c01_c03_c04_c05_c06_c10_c11_l_ob1_ob_moved, Linkad, linkad, (), (), Ob1 Ob1Init sz1(), Ob ObInit sz());
#[define_varlen]
pub struct Linkae { #[varlen] pub a: Ob1, pub h: Tok, #[varlen] pub b: Ob16 }
linked!(h_c01_c03_c05_c06_c07_l_ob1_ob16, h_c01_c03_c04_c05_c06_c10_c11_l_ob1_ob16_moved, Linkae, linkae, Tok, Tok(7), Ob1 Ob1Init sz1(), Ob16 Ob16Init sz());
#[define_varlen]
pub struct Linkaf { #[varlen] pub a: Ob1, pub h: W32, #[varlen] pub b: Obx }
linked!(h_c01_c03_c05_c06_c07_l_ob1_obx, h_c01_c03_c04_c05_c06_c10_c11_l_ob1_obx_moved, Linkaf, linkaf, W32, W32 { a: 1 }, Ob1 Ob1Init sz1(), Obx ObxInit sz());
#[define_varlen]
pub struct Linkag { #[varlen] pub a: Ob1, pub h: u16, #[varlen] pub b: Ob64 }
linked!(h_c01_c03_c05_c06_c07_l_ob1_ob64, h_c01_c03_c04_c05_c06_c10_c11_l_ob1_ob64_moved, Linkag, linkag, u16, 9, Ob1 Ob1Init sz1(), Ob64 Ob64Init sz64());
#[define_varlen]
pub struct Linkah { #[varlen] pub a: Ob1, pub h: [u8; 3], #[varlen] pub b: Obp }
linked!(h_c01_c03_c05_c06_c07_l_ob1_obp, h_c01_c03_c04_c05_c06_c10_c11_l_ob1_obp_moved, Linkah, linkah, [u8; 3], [1, 2, 3], Ob1 Ob1Init sz1(), Obp ObpInit sz());
#[define_varlen]
pub struct Linkba { #[varlen] pub a: Ob2, pub h: (), #[varlen] pub b: Ob1 }
linked!(h_c01_c03_c05_c06_c07_l_ob2_ob1, h_c01_c03_c04_c05_c06_c10_c11_l_ob2_ob1_moved, Linkba, linkba, (), (), Ob2 Ob2Init sz2(), Ob1 Ob1Init sz1());
#[define_varlen]
pub struct Linkbb { #[varlen] pub a: Ob2, pub h: Tok, #[varlen] pub b: Ob2 }
linked!(h_c01_c03_c05_c06_c07_l_ob2_ob2, h_c01_c03_c04_c05_c06_c10_c11_l_ob2_ob2_moved, Linkbb, linkbb, Tok, Tok(7), Ob2 Ob2Init sz2(), Ob2 Ob2Init sz2());
#[define_varlen]
pub struct Linkbc { #[varlen] pub a: Ob2, pub h: W32, #[varlen] pub b: Ob4 }
linked!(h_c01_c03_c05_c06_c07_l_ob2_ob4, h_c01_c03_c04_c05_c06_c10_c11_l_ob2_ob4_moved, Linkbc, linkbc, W32, W32 { a: 1 }, Ob2 Ob2Init sz2(), Ob4 Ob4Init sz4());
#[define_varlen]
pub struct Linkbd { #[varlen] pub a: Ob2, pub h: u16, #[varlen] pub b: Ob }
linked!(h_c01_c03_c05_c06_c07_l_ob2_ob, h_c01_c03_c04_c05_c06_c10_c11_l_ob2_ob_moved, Linkbd, linkbd, u16, 9, Ob2 Ob2Init sz2(), Ob ObInit sz());
#[define_varlen]
pub struct Linkbe { #[varlen] pub a: Ob2, pub h: [u8; 3], #[varlen] pub b: Ob16 }
linked!(h_c01_c03_c05_c06_c07_l_ob2_ob16, h_c01_c03_c04_c05_c06_c10_c11_l_ob2_ob16_moved, Linkbe, linkbe, [u8; 3], [1, 2, 3], Ob2 Ob2Init sz2(), Ob16 Ob16Init sz());
#[define_varlen]
pub struct Linkbf { #[varlen] pub a: Ob2, pub h: u8, #[varlen] pub b: Obx }
linked!(h_c01_c03_c05_c06_c07_l_ob2_obx, h_c01_c03_c04_c05_c06_c10_c11_l_ob2_obx_moved, Linkbf, linkbf, u8, 9, Ob2 Ob2Init sz2(), Obx ObxInit sz());
#[define_varlen]
pub struct Linkbg { #[varlen] pub a: Ob2, pub h: u64, #[varlen] pub b: Ob64 }
linked!(h_c01_c03_c05_c06_c07_l_ob2_ob64, h_c01_c03_c04_c05_c06_c10_c11_l_ob2_ob64_moved, Linkbg, linkbg, u64, 9, Ob2 Ob2Init sz2(), Ob64 Ob64Init sz64());
#[define_varlen]
pub struct Linkbh { #[varlen] pub a: Ob2, pub h: u32, #[varlen] pub b: Obp }
linked!(h_c01_c03_c05_c06_c07_l_ob2_obp, h_c01_c03_c04_c05_c06_c10_c11_l_ob2_obp_moved, Linkbh, linkbh, u32, 9, Ob2 Ob2Init sz2(), Obp ObpInit sz());
#[define_varlen]
pub struct Linkca { #[varlen] pub a: Ob4, pub h: u16, #[varlen] pub b: Ob1 }
linked!(h_c01_c03_c05_c06_c07_l_ob4_ob1, h_c01_c03_c04_c05_c06_c10_c11_l_ob4_ob1_moved, Linkca, linkca, u16, 9, Ob4 Ob4Init sz4(), Ob1 Ob1Init sz1());
#[define_varlen]
pub struct Linkcb { #[varlen] pub a: Ob4, pub h: [u8; 3], #[varlen] pub b: Ob2 }
linked!(h_c01_c03_c05_c06_c07_l_ob4_ob2, h_c01_c03_c04_c05_c06_c10_c11_l_ob4_ob2_moved, Linkcb, linkcb, [u8; 3], [1, 2, 3], Ob4 Ob4Init sz4(), Ob2 Ob2Init sz2());
#[define_varlen]
pub struct Linkcc { #[varlen] pub a: Ob4, pub h: u8, #[varlen] pub b: Ob4 }
linked!(h_c01_c03_c05_c06_c07_l_ob4_ob4, h_c01_c03_c04_c05_c06_c10_c11_l_ob4_ob4_moved, Linkcc, linkcc, u8, 9, Ob4 Ob4Init sz4(), Ob4 Ob4Init sz4());
#[define_varlen]
pub struct Linkcd { #[varlen] pub a: Ob4, pub h: u64, #[varlen] pub b: Ob }
linked!(h_c01_c03_c05_c06_c07_l_ob4_ob, h_c01_c03_c04_c05_c06_c10_c11_l_ob4_ob_moved, Linkcd, linkcd, u64, 9, Ob4 Ob4Init sz4(), Ob ObInit sz());
#[define_varlen]
pub struct Linkce { #[varlen] pub a: Ob4, pub h: u32, #[varlen] pub b: Ob16 }
linked!(h_c01_c03_c05_c06_c07_l_ob4_ob16, h_c01_c03_c04_c05_c06_c10_c11_l_ob4_ob16_moved, Linkce, linkce, u32, 9, Ob4 Ob4Init sz4(), Ob16 Ob16Init sz());
#[define_varlen]
pub struct Linkcf { #[varlen] pub a: Ob4, pub h: (), #[varlen] pub b: Obx }
linked!(h_c01_c03_c05_c06_c07_l_ob4_obx, h_c01_c03_c04_c05_c06_c10_c11_l_ob4_obx_moved, Linkcf, linkcf, (), (), Ob4 Ob4Init sz4(), Obx ObxInit sz());
#[define_varlen]
pub struct Linkcg { #[varlen] pub a: Ob4, pub h: Tok, #[varlen] pub b: Ob64 }
linked!(h_c01_c03_c05_c06_c07_l_ob4_ob64, h_c01_c03_c04_c05_c06_c10_c11_l_ob4_ob64_moved, Linkcg, linkcg, Tok, Tok(7), Ob4 Ob4Init sz4(), Ob64 Ob64Init sz64());
#[define_varlen]
pub struct Linkch { #[varlen] pub a: Ob4, pub h: W32, #[varlen] pub b: Obp }
linked!(h_c01_c03_c05_c06_c07_l_ob4_obp, h_c01_c03_c04_c05_c06_c10_c11_l_ob4_obp_moved, Linkch, linkch, W32, W32 { a: 1 }, Ob4 Ob4Init sz4(), Obp ObpInit sz());
#[define_varlen]
pub struct Linkda { #[varlen] pub a: Ob, pub h: u64, #[varlen] pub b: Ob1 }
linked!(h_c01_c03_c05_c06_c07_l_ob_ob1, h_c01_c03_c04_c05_c06_c10_c11_l_ob_ob1_moved, Linkda, linkda, u64, 9, Ob ObInit sz(), Ob1 Ob1Init sz1());
#[define_varlen]
pub struct Linkdb { #[varlen] pub a: Ob, pub h: u32, #[varlen] pub b: Ob2 }
linked!(h_c01_c03_c05_c06_c07_l_ob_ob2, h_c01_c03_c04_c05_c06_c10_c11_l_ob_ob2_moved, Linkdb, linkdb, u32, 9, Ob ObInit sz(), Ob2 Ob2Init sz2());
#[define_varlen]
pub struct Linkdc { #[varlen] pub a: Ob, pub h: (), #[varlen] pub b: Ob4 }
linked!(h_c01_c03_c05_c06_c07_l_ob_ob4, h_c01_c03_c04_c05_c06_c10_c11_l_ob_ob4_moved, Linkdc, linkdc, (), (), Ob ObInit sz(), Ob4 Ob4Init sz4());
#[define_varlen]
pub struct Linkdd { #[varlen] pub a: Ob, pub h: Tok, #[varlen] pub b: Ob }
linked!(h_c01_c03_c05_c06_c07_l_ob_ob, h_c01_c03_c04_c05_c06_c10_c11_l_ob_ob_moved, Linkdd, linkdd, Tok, Tok(7), Ob ObInit sz(), Ob ObInit sz());
#[define_varlen]
pub struct Linkde { #[varlen] pub a: Ob, pub h: W32, #[varlen] pub b: Ob16 }
linked!(h_c01_c03_c05_c06_c07_l_ob_ob16, h_c01_c03_c04_c05_c06_c10_c11_l_ob_ob16_moved, Linkde, linkde, W32, W32 { a: 1 }, Ob ObInit sz(), Ob16 Ob16Init sz());
#[define_varlen]
pub struct Linkdf { #[varlen] pub a: Ob, pub h: u16, #[varlen] pub b: Obx }
linked!(h_c01_c03_c05_c06_c07_l_ob_obx, h_c01_c03_c04_c05_c06_c10_c11_l_ob_obx_moved, Linkdf, linkdf, u16, 9, Ob ObInit sz(), Obx ObxInit sz());
#[define_varlen]
pub struct Linkdg { #[varlen] pub a: Ob, pub h: [u8; 3], #[varlen] pub b: Ob64 }
linked!(h_c01_c03_c05_c06_c07_l_ob_ob64, h_c01_c03_c04_c05_c06_c10_c11_l_ob_ob64_moved, Linkdg, linkdg, [u8; 3], [1, 2, 3], Ob ObInit sz(), Ob64 Ob64Init sz64());
#[define_varlen]
pub struct Linkdh { #[varlen] pub a: Ob, pub h: u8, #[varlen] pub b: Obp }
linked!(h_c01_c03_c05_c06_c07_l_ob_obp, h_c01_c03_c04_c05_c06_c10_c11_l_ob_obp_moved, Linkdh, linkdh, u8, 9, Ob ObInit sz(), Obp ObpInit sz());
#[define_varlen]
pub struct Linkea { #[varlen] pub a: Ob16, pub h: Tok, #[varlen] pub b: Ob1 }
linked!(h_c01_c03_c05_c06_c07_l_ob16_ob1, h_c01_c03_c04_c05_c06_c10_c11_l_ob16_ob1_moved, Linkea, linkea, Tok, Tok(7), Ob16 Ob16Init sz(), Ob1 Ob1Init sz1());
#[define_varlen]
pub struct Linkeb { #[varlen] pub a: Ob16, pub h: W32, #[varlen] pub b: Ob2 }
linked!(h_c01_c03_c05_c06_c07_l_ob16_ob2, h_c01_c03_c04_c05_c06_c10_c11_l_ob16_ob2_moved, Linkeb, linkeb, W32, W32 { a: 1 }, Ob16 Ob16Init sz(), Ob2 Ob2Init sz2());
#[define_varlen]
pub struct Linkec { #[varlen] pub a: Ob16, pub h: u16, #[varlen] pub b: Ob4 }
linked!(h_c01_c03_c05_c06_c07_l_ob16_ob4, h_c01_c03_c04_c05_c06_c10_c11_l_ob16_ob4_moved, Linkec, linkec, u16, 9, Ob16 Ob16Init sz(), Ob4 Ob4Init sz4());
#[define_varlen]
pub struct Linked { #[varlen] pub a: Ob16, pub h: [u8; 3], #[varlen] pub b: Ob }
linked!(h_c01_c03_c05_c06_c07_l_ob16_ob, h_c01_c03_c04_c05_c06_c10_c11_l_ob16_ob_moved, Linked, linked, [u8; 3], [1, 2, 3], Ob16 Ob16Init sz(), Ob ObInit sz());
#[define_varlen]
pub struct Linkee { #[varlen] pub a: Ob16, pub h: u8, #[varlen] pub b: Ob16 }
linked!(h_c01_c03_c05_c06_c07_l_ob16_ob16, h_c01_c03_c04_c05_c06_c10_c11_l_ob16_ob16_moved, Linkee, linkee, u8, 9, Ob16 Ob16Init sz(), Ob16 Ob16Init sz());
#[define_varlen]
pub struct Linkef { #[varlen] pub a: Ob16, pub h: u64, #[varlen] pub b: Obx }
linked!(h_c01_c03_c05_c06_c07_l_ob16_obx, h_c01_c03_c04_c05_c06_c10_c11_l_ob16_obx_moved, Linkef, linkef, u64, 9, Ob16 Ob16Init sz(), Obx ObxInit sz());
#[define_varlen]
pub struct Linkeg { #[varlen] pub a: Ob16, pub h: u32, #[varlen] pub b: Ob64 }
linked!(h_c01_c03_c05_c06_c07_l_ob16_ob64, h_c01_c03_c04_c05_c06_c10_c11_l_ob16_ob64_moved, Linkeg, linkeg, u32, 9, Ob16 Ob16Init sz(), Ob64 Ob64Init sz64());
#[define_varlen]
pub struct Linkeh { #[varlen] pub a: Ob16, pub h: (), #[varlen] pub b: Obp }
linked!(h_c01_c03_c05_c06_c07_l_ob16_obp, h_c01_c03_c04_c05_c06_c10_c11_l_ob16_obp_moved, Linkeh, linkeh, (), (), Ob16 Ob16Init sz(), Obp ObpInit sz());
#[define_varlen]
pub struct Linkfa { #[varlen] pub a: Obx, pub h: [u8; 3], #[varlen] pub b: Ob1 }
linked!(h_c01_c03_c05_c06_c07_l_obx_ob1, h_c01_c03_c04_c05_c06_c10_c11_l_obx_ob1_moved, Linkfa, linkfa, [u8; 3], [1, 2, 3], Obx ObxInit sz(), Ob1 Ob1Init sz1());
#[define_varlen]
pub struct Linkfb { #[varlen] pub a: Obx, pub h: u8, #[varlen] pub b: Ob2 }
linked!(h_c01_c03_c05_c06_c07_l_obx_ob2, h_c01_c03_c04_c05_c06_c10_c11_l_obx_ob2_moved, Linkfb, linkfb, u8, 9, Obx ObxInit sz(), Ob2 Ob2Init sz2());
#[define_varlen]
pub struct Linkfc { #[varlen] pub a: Obx, pub h: u64, #[varlen] pub b: Ob4 }
linked!(h_c01_c03_c05_c06_c07_l_obx_ob4, h_c01_c03_c04_c05_c06_c10_c11_l_obx_ob4_moved, Linkfc, linkfc, u64, 9, Obx ObxInit sz(), Ob4 Ob4Init sz4());
#[define_varlen]
pub struct Linkfd { #[varlen] pub a: Obx, pub h: u32, #[varlen] pub b: Ob }
linked!(h_c01_c03_c05_c06_c07_l_obx_ob, h_c01_c03_c04_c05_c06_c10_c11_l_obx_ob_moved, Linkfd, linkfd, u32, 9, Obx ObxInit sz(), Ob ObInit sz());
#[define_varlen]
pub struct Linkfe { #[varlen] pub a: Obx, pub h: (), #[varlen] pub b: Ob16 }
linked!(h_c01_c03_c05_c06_c07_l_obx_ob16, h_c01_c03_c04_c05_c06_c10_c11_l_obx_ob16_moved, Linkfe, linkfe, (), (), Obx ObxInit sz(), Ob16 Ob16Init sz());
#[define_varlen]
pub struct Linkff { #[varlen] pub a: Obx, pub h: Tok, #[varlen] pub b: Obx }
linked!(h_c01_c03_c05_c06_c07_l_obx_obx, h_c01_c03_c04_c05_c06_c10_c11_l_obx_obx_moved, Linkff, linkff, Tok, Tok(7), Obx ObxInit sz(), Obx ObxInit sz());
#[define_varlen]
pub struct Linkfg { #[varlen] pub a: Obx, pub h: W32, #[varlen] pub b: Ob64 }
linked!(h_c01_c03_c05_c06_c07_l_obx_ob64, h_c01_c03_c04_c05_c06_c10_c11_l_obx_ob64_moved, Linkfg, linkfg, W32, W32 { a: 1 }, Obx ObxInit sz(), Ob64 Ob64Init sz64());
#[define_varlen]
pub struct Linkfh { #[varlen] pub a: Obx, pub h: u16, #[varlen] pub b: Obp }
linked!(h_c01_c03_c05_c06_c07_l_obx_obp, h_c01_c03_c04_c05_c06_c10_c11_l_obx_obp_moved, Linkfh, linkfh, u16, 9, Obx ObxInit sz(), Obp ObpInit sz());
#[define_varlen]
pub struct Linkga { #[varlen] pub a: Ob64, pub h: u32, #[varlen] pub b: Ob1 }
linked!(h_c01_c03_c05_c06_c07_l_ob64_ob1, h_c01_c03_c04_c05_c06_c10_c11_l_ob64_ob1_moved, Linkga, linkga, u32, 9, Ob64 Ob64Init sz64(), Ob1 Ob1Init sz1());
#[define_varlen]
pub struct Linkgb { #[varlen] pub a: Ob64, pub h: (), #[varlen] pub b: Ob2 }
linked!(h_c01_c03_c05_c06_c07_l_ob64_ob2, h_c01_c03_c04_c05_c06_c10_c11_l_ob64_ob2_moved, Linkgb, linkgb, (), (), Ob64 Ob64Init sz64(), Ob2 Ob2Init sz2());
#[define_varlen]
pub struct Linkgc { #[varlen] pub a: Ob64, pub h: Tok, #[varlen] pub b: Ob4 }
linked!(h_c01_c03_c05_c06_c07_l_ob64_ob4, h_c01_c03_c04_c05_c06_c10_c11_l_ob64_ob4_moved, Linkgc, linkgc, Tok, Tok(7), Ob64 Ob64Init sz64(), Ob4 Ob4Init sz4());
#[define_varlen]
pub struct Linkgd { #[varlen] pub a: Ob64, pub h: W32, #[varlen] pub b: Ob }
linked!(h_c01_c03_c05_c06_c07_l_ob64_ob, h_c01_c03_c04_c05_c06_c10_c11_l_ob64_ob_moved, Linkgd, linkgd, W32, W32 { a: 1 }, Ob64 Ob64Init sz64(), Ob ObInit sz());
#[define_varlen]
pub struct Linkge { #[varlen] pub a: Ob64, pub h: u16, #[varlen] pub b: Ob16 }
linked!(h_c01_c03_c05_c06_c07_l_ob64_ob16, h_c01_c03_c04_c05_c06_c10_c11_l_ob64_ob16_moved, Linkge, linkge, u16, 9, Ob64 Ob64Init sz64(), Ob16 Ob16Init sz());
#[define_varlen]
pub struct Linkgf { #[varlen] pub a: Ob64, pub h: [u8; 3], #[varlen] pub b: Obx }
linked!(h_c01_c03_c05_c06_c07_l_ob64_obx, h_c01_c03_c04_c05_c06_c10_c11_l_ob64_obx_moved, Linkgf, linkgf, [u8; 3], [1, 2, 3], Ob64 Ob64Init sz64(), Obx ObxInit sz());
#[define_varlen]
pub struct Linkgg { #[varlen] pub a: Ob64, pub h: u8, #[varlen] pub b: Ob64 }
linked!(h_c01_c03_c05_c06_c07_l_ob64_ob64, h_c01_c03_c04_c05_c06_c10_c11_l_ob64_ob64_moved, Linkgg, linkgg, u8, 9, Ob64 Ob64Init sz64(), Ob64 Ob64Init sz64());
#[define_varlen]
pub struct Linkgh { #[varlen] pub a: Ob64, pub h: u64, #[varlen] pub b: Obp }
linked!(h_c01_c03_c05_c06_c07_l_ob64_obp, h_c01_c03_c04_c05_c06_c10_c11_l_ob64_obp_moved, Linkgh, linkgh, u64, 9, Ob64 Ob64Init sz64(), Obp ObpInit sz());
#[define_varlen]
pub struct Linkha { #[varlen] pub a: Obp, pub h: W32, #[varlen] pub b: Ob1 }
linked!(h_c01_c03_c05_c06_c07_l_obp_ob1, h_c01_c03_c04_c05_c06_c10_c11_l_obp_ob1_moved, Linkha, linkha, W32, W32 { a: 1 }, Obp ObpInit sz(), Ob1 Ob1Init sz1());
#[define_varlen]
pub struct Linkhb { #[varlen] pub a: Obp, pub h: u16, #[varlen] pub b: Ob2 }
linked!(h_c01_c03_c05_c06_c07_l_obp_ob2, h_c01_c03_c04_c05_c06_c10_c11_l_obp_ob2_moved, Linkhb, linkhb, u16, 9, Obp ObpInit sz(), Ob2 Ob2Init sz2());
#[define_varlen]
pub struct Linkhc { #[varlen] pub a: Obp, pub h: [u8; 3], #[varlen] pub b: Ob4 }
linked!(h_c01_c03_c05_c06_c07_l_obp_ob4, h_c01_c03_c04_c05_c06_c10_c11_l_obp_ob4_moved, Linkhc, linkhc, [u8; 3], [1, 2, 3], Obp ObpInit sz(), Ob4 Ob4Init sz4());
#[define_varlen]
pub struct Linkhd { #[varlen] pub a: Obp, pub h: u8, #[varlen] pub b: Ob }
linked!(h_c01_c03_c05_c06_c07_l_obp_ob, h_c01_c03_c04_c05_c06_c10_c11_l_obp_ob_moved, Linkhd, linkhd, u8, 9, Obp ObpInit sz(), Ob ObInit sz());
#[define_varlen]
pub struct Linkhe { #[varlen] pub a: Obp, pub h: u64, #[varlen] pub b: Ob16 }
linked!(h_c01_c03_c05_c06_c07_l_obp_ob16, h_c01_c03_c04_c05_c06_c10_c11_l_obp_ob16_moved, Linkhe, linkhe, u64, 9, Obp ObpInit sz(), Ob16 Ob16Init sz());
#[define_varlen]
pub struct Linkhf { #[varlen] pub a: Obp, pub h: u32, #[varlen] pub b: Obx }
linked!(h_c01_c03_c05_c06_c07_l_obp_obx, h_c01_c03_c04_c05_c06_c10_c11_l_obp_obx_moved, Linkhf, linkhf, u32, 9, Obp ObpInit sz(), Obx ObxInit sz());
#[define_varlen]
pub struct Linkhg { #[varlen] pub a: Obp, pub h: (), #[varlen] pub b: Ob64 }
linked!(h_c01_c03_c05_c06_c07_l_obp_ob64, h_c01_c03_c04_c05_c06_c10_c11_l_obp_ob64_moved, Linkhg, linkhg, (), (), Obp ObpInit sz(), Ob64 Ob64Init sz64());
#[define_varlen]
pub struct Linkhh { #[varlen] pub a: Obp, pub h: Tok, #[varlen] pub b: Obp }
linked!(h_c01_c03_c05_c06_c07_l_obp_obp, h_c01_c03_c04_c05_c06_c10_c11_l_obp_obp_moved, Linkhh, linkhh, Tok, Tok(7), Obp ObpInit sz(), Obp ObpInit sz());

macro_rules! arrays {
    ($f:ident, $upd:ident, $s:ident, $m:ident, $l:ty, $any:expr, $a:ty, $b:ty) => {
        pub fn $f() {
            let (n, m): ($l, $l) = ($any, $any);
            let (x, y): (&[$a], &[$b]) = (slice_any(n as usize), slice_any(m as usize));
            let (p, size) = unsafe { build($m::Init { n, a: CopyFrom(x), h: 9, m, b: CopyFrom(y) }) };
            let o = unsafe { &*p };
            check("c06 nothing to drop", !$s::NEEDS_VDROP);
            let r = o.refs();
            let end = slice(o, size, size_of::<$s>(), r.a, n as usize);
            slice(o, size, end, r.b, m as usize);
            let (u, v) = (r.a.as_ptr(), r.b.as_ptr());
            aside! { let k = below(n as usize); check("c08 every element has its value", r.a[k].same(&x[k])); }
            aside! { let k = below(m as usize); check("c08 every element has its value", r.b[k].same(&y[k])); }
            let t = unsafe { Pin::new_unchecked(&mut *p) }.muts();
            check("c07 all accessors agree", same_addr(t.a.as_ptr(), u) && same_addr(t.b.as_ptr(), v) && t.a.len() == n as usize && t.b.len() == m as usize);
        }
        pub fn $upd() {
            let (n, m): ($l, $l) = ($any, $any);
            let (x, y): (&[$a], &[$b]) = (slice_any(n as usize), slice_any(m as usize));
            let (p, size) = unsafe { build($m::Init { n, a: CopyFrom(x), h: 9, m, b: CopyFrom(y) }) };
            let o = unsafe { &*p };
            let (n2, m2): ($l, $l) = ($any, $any);
            let ok = unsafe { Pin::new_unchecked(&mut *p) }.try_set_layout_controllers($m::LayoutControllers { n: n2, m: m2 }).is_ok();
            check("c16 accepted exactly if every length stays", ok == (n == n2 && m == m2));
            check("c16 the fields stay", o.n == n && o.m == m && o.h == 9);
            check("c16 the layout stays", o.calculate_layout().size() == size);
        }
    };
}

#[define_varlen]
pub struct Arraa { #[controls_layout] pub n: u8, #[varlen_array] pub a: [u8; *n as usize], pub h: u8, #[controls_layout] pub m: u8, #[varlen_array] pub b: [u8; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_0_0, h_c16_a_0_0, Arraa, arraa, u8, any_u8(), u8, u8);
#[define_varlen]
pub struct Arrac { #[controls_layout] pub n: u8, #[varlen_array] pub a: [u8; *n as usize], pub h: u8, #[controls_layout] pub m: u8, #[varlen_array] pub b: [u32; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_0_2, h_c16_a_0_2, Arrac, arrac, u8, any_u8(), u8, u32);
#[define_varlen]
pub struct Arrae { #[controls_layout] pub n: u8, #[varlen_array] pub a: [u8; *n as usize], pub h: u8, #[controls_layout] pub m: u8, #[varlen_array] pub b: [u128; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_0_4, h_c16_a_0_4, Arrae, arrae, u8, any_u8(), u8, u128);
#[define_varlen]
pub struct Arrag { #[controls_layout] pub n: u8, #[varlen_array] pub a: [u8; *n as usize], pub h: u8, #[controls_layout] pub m: u8, #[varlen_array] pub b: [W128; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_0_6, h_c16_a_0_6, Arrag, arrag, u8, any_u8(), u8, W128);
#[define_varlen]
pub struct Arrai { #[controls_layout] pub n: u8, #[varlen_array] pub a: [u8; *n as usize], pub h: u8, #[controls_layout] pub m: u8, #[varlen_array] pub b: [Z8; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_0_8, h_c16_a_0_8, Arrai, arrai, u8, any_u8(), u8, Z8);
#[define_varlen]
pub struct Arrba { #[controls_layout] pub n: u16, #[varlen_array] pub a: [u16; *n as usize], pub h: u8, #[controls_layout] pub m: u16, #[varlen_array] pub b: [u8; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_1_0, h_c16_a_1_0, Arrba, arrba, u16, any_u16(), u16, u8);
#[define_varlen]
pub struct Arrbb { #[controls_layout] pub n: usize, #[varlen_array] pub a: [u16; *n as usize], pub h: u8, #[controls_layout] pub m: usize, #[varlen_array] pub b: [u16; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_1_1, h_c16_a_1_1, Arrbb, arrbb, usize, small(), u16, u16);
#[define_varlen]
pub struct Arrbd { #[controls_layout] pub n: usize, #[varlen_array] pub a: [u16; *n as usize], pub h: u8, #[controls_layout] pub m: usize, #[varlen_array] pub b: [u64; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_1_3, h_c16_a_1_3, Arrbd, arrbd, usize, small(), u16, u64);
#[define_varlen]
pub struct Arrbf { #[controls_layout] pub n: usize, #[varlen_array] pub a: [u16; *n as usize], pub h: u8, #[controls_layout] pub m: usize, #[varlen_array] pub b: [W32; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_1_5, h_c16_a_1_5, Arrbf, arrbf, usize, small(), u16, W32);
#[define_varlen]
pub struct Arrbh { #[controls_layout] pub n: usize, #[varlen_array] pub a: [u16; *n as usize], pub h: u8, #[controls_layout] pub m: usize, #[varlen_array] pub b: [Odd; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_1_7, h_c16_a_1_7, Arrbh, arrbh, usize, small(), u16, Odd);
#[define_varlen]
pub struct Arrbj { #[controls_layout] pub n: usize, #[varlen_array] pub a: [u16; *n as usize], pub h: u8, #[controls_layout] pub m: usize, #[varlen_array] pub b: [(); *m as usize] }
arrays!(h_c01_c03_c07_c08_a_1_9, h_c16_a_1_9, Arrbj, arrbj, usize, small(), u16, ());
#[define_varlen]
pub struct Arrca { #[controls_layout] pub n: u32, #[varlen_array] pub a: [u32; *n as usize], pub h: u8, #[controls_layout] pub m: u32, #[varlen_array] pub b: [u8; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_2_0, h_c16_a_2_0, Arrca, arrca, u32, any_u32(), u32, u8);
#[define_varlen]
pub struct Arrcb { #[controls_layout] pub n: u8, #[varlen_array] pub a: [u32; *n as usize], pub h: u8, #[controls_layout] pub m: u8, #[varlen_array] pub b: [u16; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_2_1, h_c16_a_2_1, Arrcb, arrcb, u8, any_u8(), u32, u16);
#[define_varlen]
pub struct Arrcc { #[controls_layout] pub n: u32, #[varlen_array] pub a: [u32; *n as usize], pub h: u8, #[controls_layout] pub m: u32, #[varlen_array] pub b: [u32; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_2_2, h_c16_a_2_2, Arrcc, arrcc, u32, any_u32(), u32, u32);
#[define_varlen]
pub struct Arrce { #[controls_layout] pub n: u32, #[varlen_array] pub a: [u32; *n as usize], pub h: u8, #[controls_layout] pub m: u32, #[varlen_array] pub b: [u128; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_2_4, h_c16_a_2_4, Arrce, arrce, u32, any_u32(), u32, u128);
#[define_varlen]
pub struct Arrcg { #[controls_layout] pub n: u32, #[varlen_array] pub a: [u32; *n as usize], pub h: u8, #[controls_layout] pub m: u32, #[varlen_array] pub b: [W128; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_2_6, h_c16_a_2_6, Arrcg, arrcg, u32, any_u32(), u32, W128);
#[define_varlen]
pub struct Arrci { #[controls_layout] pub n: u32, #[varlen_array] pub a: [u32; *n as usize], pub h: u8, #[controls_layout] pub m: u32, #[varlen_array] pub b: [Z8; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_2_8, h_c16_a_2_8, Arrci, arrci, u32, any_u32(), u32, Z8);
#[define_varlen]
pub struct Arrdb { #[controls_layout] pub n: u16, #[varlen_array] pub a: [u64; *n as usize], pub h: u8, #[controls_layout] pub m: u16, #[varlen_array] pub b: [u16; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_3_1, h_c16_a_3_1, Arrdb, arrdb, u16, any_u16(), u64, u16);
#[define_varlen]
pub struct Arrdc { #[controls_layout] pub n: usize, #[varlen_array] pub a: [u64; *n as usize], pub h: u8, #[controls_layout] pub m: usize, #[varlen_array] pub b: [u32; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_3_2, h_c16_a_3_2, Arrdc, arrdc, usize, small(), u64, u32);
#[define_varlen]
pub struct Arrdd { #[controls_layout] pub n: u16, #[varlen_array] pub a: [u64; *n as usize], pub h: u8, #[controls_layout] pub m: u16, #[varlen_array] pub b: [u64; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_3_3, h_c16_a_3_3, Arrdd, arrdd, u16, any_u16(), u64, u64);
#[define_varlen]
pub struct Arrdf { #[controls_layout] pub n: u16, #[varlen_array] pub a: [u64; *n as usize], pub h: u8, #[controls_layout] pub m: u16, #[varlen_array] pub b: [W32; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_3_5, h_c16_a_3_5, Arrdf, arrdf, u16, any_u16(), u64, W32);
#[define_varlen]
pub struct Arrdh { #[controls_layout] pub n: u16, #[varlen_array] pub a: [u64; *n as usize], pub h: u8, #[controls_layout] pub m: u16, #[varlen_array] pub b: [Odd; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_3_7, h_c16_a_3_7, Arrdh, arrdh, u16, any_u16(), u64, Odd);
#[define_varlen]
pub struct Arrdj { #[controls_layout] pub n: u16, #[varlen_array] pub a: [u64; *n as usize], pub h: u8, #[controls_layout] pub m: u16, #[varlen_array] pub b: [(); *m as usize] }
arrays!(h_c01_c03_c07_c08_a_3_9, h_c16_a_3_9, Arrdj, arrdj, u16, any_u16(), u64, ());
#[define_varlen]
pub struct Arrea { #[controls_layout] pub n: u16, #[varlen_array] pub a: [u128; *n as usize], pub h: u8, #[controls_layout] pub m: u16, #[varlen_array] pub b: [u8; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_4_0, h_c16_a_4_0, Arrea, arrea, u16, any_u16(), u128, u8);
#[define_varlen]
pub struct Arrec { #[controls_layout] pub n: u16, #[varlen_array] pub a: [u128; *n as usize], pub h: u8, #[controls_layout] pub m: u16, #[varlen_array] pub b: [u32; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_4_2, h_c16_a_4_2, Arrec, arrec, u16, any_u16(), u128, u32);
#[define_varlen]
pub struct Arred { #[controls_layout] pub n: usize, #[varlen_array] pub a: [u128; *n as usize], pub h: u8, #[controls_layout] pub m: usize, #[varlen_array] pub b: [u64; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_4_3, h_c16_a_4_3, Arred, arred, usize, small(), u128, u64);
#[define_varlen]
pub struct Arree { #[controls_layout] pub n: u16, #[varlen_array] pub a: [u128; *n as usize], pub h: u8, #[controls_layout] pub m: u16, #[varlen_array] pub b: [u128; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_4_4, h_c16_a_4_4, Arree, arree, u16, any_u16(), u128, u128);
#[define_varlen]
pub struct Arreg { #[controls_layout] pub n: u16, #[varlen_array] pub a: [u128; *n as usize], pub h: u8, #[controls_layout] pub m: u16, #[varlen_array] pub b: [W128; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_4_6, h_c16_a_4_6, Arreg, arreg, u16, any_u16(), u128, W128);
#[define_varlen]
pub struct Arrei { #[controls_layout] pub n: u16, #[varlen_array] pub a: [u128; *n as usize], pub h: u8, #[controls_layout] pub m: u16, #[varlen_array] pub b: [Z8; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_4_8, h_c16_a_4_8, Arrei, arrei, u16, any_u16(), u128, Z8);
#[define_varlen]
pub struct Arrfb { #[controls_layout] pub n: u8, #[varlen_array] pub a: [W32; *n as usize], pub h: u8, #[controls_layout] pub m: u8, #[varlen_array] pub b: [u16; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_5_1, h_c16_a_5_1, Arrfb, arrfb, u8, any_u8(), W32, u16);
#[define_varlen]
pub struct Arrfd { #[controls_layout] pub n: u8, #[varlen_array] pub a: [W32; *n as usize], pub h: u8, #[controls_layout] pub m: u8, #[varlen_array] pub b: [u64; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_5_3, h_c16_a_5_3, Arrfd, arrfd, u8, any_u8(), W32, u64);
#[define_varlen]
pub struct Arrfe { #[controls_layout] pub n: u32, #[varlen_array] pub a: [W32; *n as usize], pub h: u8, #[controls_layout] pub m: u32, #[varlen_array] pub b: [u128; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_5_4, h_c16_a_5_4, Arrfe, arrfe, u32, any_u32(), W32, u128);
#[define_varlen]
pub struct Arrff { #[controls_layout] pub n: u8, #[varlen_array] pub a: [W32; *n as usize], pub h: u8, #[controls_layout] pub m: u8, #[varlen_array] pub b: [W32; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_5_5, h_c16_a_5_5, Arrff, arrff, u8, any_u8(), W32, W32);
#[define_varlen]
pub struct Arrfh { #[controls_layout] pub n: u8, #[varlen_array] pub a: [W32; *n as usize], pub h: u8, #[controls_layout] pub m: u8, #[varlen_array] pub b: [Odd; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_5_7, h_c16_a_5_7, Arrfh, arrfh, u8, any_u8(), W32, Odd);
#[define_varlen]
pub struct Arrfj { #[controls_layout] pub n: u8, #[varlen_array] pub a: [W32; *n as usize], pub h: u8, #[controls_layout] pub m: u8, #[varlen_array] pub b: [(); *m as usize] }
arrays!(h_c01_c03_c07_c08_a_5_9, h_c16_a_5_9, Arrfj, arrfj, u8, any_u8(), W32, ());
#[define_varlen]
pub struct Arrga { #[controls_layout] pub n: usize, #[varlen_array] pub a: [W128; *n as usize], pub h: u8, #[controls_layout] pub m: usize, #[varlen_array] pub b: [u8; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_6_0, h_c16_a_6_0, Arrga, arrga, usize, small(), W128, u8);
#[define_varlen]
pub struct Arrgc { #[controls_layout] pub n: usize, #[varlen_array] pub a: [W128; *n as usize], pub h: u8, #[controls_layout] pub m: usize, #[varlen_array] pub b: [u32; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_6_2, h_c16_a_6_2, Arrgc, arrgc, usize, small(), W128, u32);
#[define_varlen]
pub struct Arrge { #[controls_layout] pub n: usize, #[varlen_array] pub a: [W128; *n as usize], pub h: u8, #[controls_layout] pub m: usize, #[varlen_array] pub b: [u128; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_6_4, h_c16_a_6_4, Arrge, arrge, usize, small(), W128, u128);
#[define_varlen]
pub struct Arrgf { #[controls_layout] pub n: u16, #[varlen_array] pub a: [W128; *n as usize], pub h: u8, #[controls_layout] pub m: u16, #[varlen_array] pub b: [W32; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_6_5, h_c16_a_6_5, Arrgf, arrgf, u16, any_u16(), W128, W32);
#[define_varlen]
pub struct Arrgg { #[controls_layout] pub n: usize, #[varlen_array] pub a: [W128; *n as usize], pub h: u8, #[controls_layout] pub m: usize, #[varlen_array] pub b: [W128; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_6_6, h_c16_a_6_6, Arrgg, arrgg, usize, small(), W128, W128);
#[define_varlen]
pub struct Arrgi { #[controls_layout] pub n: usize, #[varlen_array] pub a: [W128; *n as usize], pub h: u8, #[controls_layout] pub m: usize, #[varlen_array] pub b: [Z8; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_6_8, h_c16_a_6_8, Arrgi, arrgi, usize, small(), W128, Z8);
#[define_varlen]
pub struct Arrhb { #[controls_layout] pub n: u32, #[varlen_array] pub a: [Odd; *n as usize], pub h: u8, #[controls_layout] pub m: u32, #[varlen_array] pub b: [u16; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_7_1, h_c16_a_7_1, Arrhb, arrhb, u32, any_u32(), Odd, u16);
#[define_varlen]
pub struct Arrhd { #[controls_layout] pub n: u32, #[varlen_array] pub a: [Odd; *n as usize], pub h: u8, #[controls_layout] pub m: u32, #[varlen_array] pub b: [u64; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_7_3, h_c16_a_7_3, Arrhd, arrhd, u32, any_u32(), Odd, u64);
#[define_varlen]
pub struct Arrhf { #[controls_layout] pub n: u32, #[varlen_array] pub a: [Odd; *n as usize], pub h: u8, #[controls_layout] pub m: u32, #[varlen_array] pub b: [W32; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_7_5, h_c16_a_7_5, Arrhf, arrhf, u32, any_u32(), Odd, W32);
#[define_varlen]
pub struct Arrhg { #[controls_layout] pub n: u8, #[varlen_array] pub a: [Odd; *n as usize], pub h: u8, #[controls_layout] pub m: u8, #[varlen_array] pub b: [W128; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_7_6, h_c16_a_7_6, Arrhg, arrhg, u8, any_u8(), Odd, W128);
#[define_varlen]
pub struct Arrhh { #[controls_layout] pub n: u32, #[varlen_array] pub a: [Odd; *n as usize], pub h: u8, #[controls_layout] pub m: u32, #[varlen_array] pub b: [Odd; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_7_7, h_c16_a_7_7, Arrhh, arrhh, u32, any_u32(), Odd, Odd);
#[define_varlen]
pub struct Arrhj { #[controls_layout] pub n: u32, #[varlen_array] pub a: [Odd; *n as usize], pub h: u8, #[controls_layout] pub m: u32, #[varlen_array] pub b: [(); *m as usize] }
arrays!(h_c01_c03_c07_c08_a_7_9, h_c16_a_7_9, Arrhj, arrhj, u32, any_u32(), Odd, ());
#[define_varlen]
pub struct Arria { #[controls_layout] pub n: u32, #[varlen_array] pub a: [Z8; *n as usize], pub h: u8, #[controls_layout] pub m: u32, #[varlen_array] pub b: [u8; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_8_0, h_c16_a_8_0, Arria, arria, u32, any_u32(), Z8, u8);
#[define_varlen]
pub struct Arric { #[controls_layout] pub n: u32, #[varlen_array] pub a: [Z8; *n as usize], pub h: u8, #[controls_layout] pub m: u32, #[varlen_array] pub b: [u32; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_8_2, h_c16_a_8_2, Arric, arric, u32, any_u32(), Z8, u32);
#[define_varlen]
pub struct Arrie { #[controls_layout] pub n: u32, #[varlen_array] pub a: [Z8; *n as usize], pub h: u8, #[controls_layout] pub m: u32, #[varlen_array] pub b: [u128; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_8_4, h_c16_a_8_4, Arrie, arrie, u32, any_u32(), Z8, u128);
#[define_varlen]
pub struct Arrig { #[controls_layout] pub n: u32, #[varlen_array] pub a: [Z8; *n as usize], pub h: u8, #[controls_layout] pub m: u32, #[varlen_array] pub b: [W128; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_8_6, h_c16_a_8_6, Arrig, arrig, u32, any_u32(), Z8, W128);
#[define_varlen]
pub struct Arrih { #[controls_layout] pub n: u8, #[varlen_array] pub a: [Z8; *n as usize], pub h: u8, #[controls_layout] pub m: u8, #[varlen_array] pub b: [Odd; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_8_7, h_c16_a_8_7, Arrih, arrih, u8, any_u8(), Z8, Odd);
#[define_varlen]
pub struct Arrii { #[controls_layout] pub n: u32, #[varlen_array] pub a: [Z8; *n as usize], pub h: u8, #[controls_layout] pub m: u32, #[varlen_array] pub b: [Z8; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_8_8, h_c16_a_8_8, Arrii, arrii, u32, any_u32(), Z8, Z8);
#[define_varlen]
pub struct Arrjb { #[controls_layout] pub n: u16, #[varlen_array] pub a: [(); *n as usize], pub h: u8, #[controls_layout] pub m: u16, #[varlen_array] pub b: [u16; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_9_1, h_c16_a_9_1, Arrjb, arrjb, u16, any_u16(), (), u16);
#[define_varlen]
pub struct Arrjd { #[controls_layout] pub n: u16, #[varlen_array] pub a: [(); *n as usize], pub h: u8, #[controls_layout] pub m: u16, #[varlen_array] pub b: [u64; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_9_3, h_c16_a_9_3, Arrjd, arrjd, u16, any_u16(), (), u64);
#[define_varlen]
pub struct Arrjf { #[controls_layout] pub n: u16, #[varlen_array] pub a: [(); *n as usize], pub h: u8, #[controls_layout] pub m: u16, #[varlen_array] pub b: [W32; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_9_5, h_c16_a_9_5, Arrjf, arrjf, u16, any_u16(), (), W32);
#[define_varlen]
pub struct Arrjh { #[controls_layout] pub n: u16, #[varlen_array] pub a: [(); *n as usize], pub h: u8, #[controls_layout] pub m: u16, #[varlen_array] pub b: [Odd; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_9_7, h_c16_a_9_7, Arrjh, arrjh, u16, any_u16(), (), Odd);
#[define_varlen]
pub struct Arrji { #[controls_layout] pub n: usize, #[varlen_array] pub a: [(); *n as usize], pub h: u8, #[controls_layout] pub m: usize, #[varlen_array] pub b: [Z8; *m as usize] }
arrays!(h_c01_c03_c07_c08_a_9_8, h_c16_a_9_8, Arrji, arrji, usize, small(), (), Z8);
#[define_varlen]
pub struct Arrjj { #[controls_layout] pub n: u16, #[varlen_array] pub a: [(); *n as usize], pub h: u8, #[controls_layout] pub m: u16, #[varlen_array] pub b: [(); *m as usize] }
arrays!(h_c01_c03_c07_c08_a_9_9, h_c16_a_9_9, Arrjj, arrjj, u16, any_u16(), (), ());

// One part that needs destruction, at every position and of every kind.

#[define_varlen]
pub struct NeedFixeda { pub f0: Tok, pub f1: u16, #[varlen] pub f2: Str<u8>, #[varlen_array] pub f3: [u32; 2] }
pub fn h_c01_c03_c04_c05_c06_need_fixed_0() {
    let z = sz();
    {
        let b: VBox<NeedFixeda> = VBox::new(need_fixeda::Init { f0: Tok(1), f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: CopyFrom(&[4, 5]) });
        check("c06 droppable", NeedFixeda::NEEDS_VDROP && VBox::<NeedFixeda>::new(b).calculate_layout().size() >= size_of::<NeedFixeda>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedFixeda> = Seq::new();
        s.push(need_fixeda::Init { f0: Tok(1), f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: CopyFrom(&[4, 5]) });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedFixedb { #[varlen] pub f0: Str<u8>, pub f1: Tok, #[varlen_array] pub f2: [u32; 2], #[varlen] pub f3: FixedLen<u64> }
pub fn h_c01_c03_c04_c05_c06_need_fixed_1() {
    let z = sz();
    {
        let b: VBox<NeedFixedb> = VBox::new(need_fixedb::Init { f0: Str::<u8>::try_copy("ab").unwrap(), f1: Tok(1), f2: CopyFrom(&[4, 5]), f3: FixedLen(6) });
        check("c06 droppable", NeedFixedb::NEEDS_VDROP && VBox::<NeedFixedb>::new(b).calculate_layout().size() >= size_of::<NeedFixedb>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedFixedb> = Seq::new();
        s.push(need_fixedb::Init { f0: Str::<u8>::try_copy("ab").unwrap(), f1: Tok(1), f2: CopyFrom(&[4, 5]), f3: FixedLen(6) });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedFixedc { #[varlen_array] pub f0: [u32; 2], #[varlen] pub f1: FixedLen<u64>, pub f2: Tok, pub f3: u16 }
pub fn h_c01_c03_c04_c05_c06_need_fixed_2() {
    let z = sz();
    {
        let b: VBox<NeedFixedc> = VBox::new(need_fixedc::Init { f0: CopyFrom(&[4, 5]), f1: FixedLen(6), f2: Tok(1), f3: 9 });
        check("c06 droppable", NeedFixedc::NEEDS_VDROP && VBox::<NeedFixedc>::new(b).calculate_layout().size() >= size_of::<NeedFixedc>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedFixedc> = Seq::new();
        s.push(need_fixedc::Init { f0: CopyFrom(&[4, 5]), f1: FixedLen(6), f2: Tok(1), f3: 9 });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedFixedd { #[varlen] pub f0: FixedLen<u64>, pub f1: u16, #[varlen] pub f2: Str<u8>, pub f3: Tok }
pub fn h_c01_c03_c04_c05_c06_need_fixed_3() {
    let z = sz();
    {
        let b: VBox<NeedFixedd> = VBox::new(need_fixedd::Init { f0: FixedLen(6), f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: Tok(1) });
        check("c06 droppable", NeedFixedd::NEEDS_VDROP && VBox::<NeedFixedd>::new(b).calculate_layout().size() >= size_of::<NeedFixedd>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedFixedd> = Seq::new();
        s.push(need_fixedd::Init { f0: FixedLen(6), f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: Tok(1) });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedLinkeda { #[varlen] pub f0: Ob, pub f1: u16, #[varlen] pub f2: Str<u8>, #[varlen_array] pub f3: [u32; 2] }
pub fn h_c01_c03_c04_c05_c06_need_linked_0() {
    let z = sz();
    {
        let b: VBox<NeedLinkeda> = VBox::new(need_linkeda::Init { f0: ObInit { id: 1, size: z }, f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: CopyFrom(&[4, 5]) });
        check("c06 droppable", NeedLinkeda::NEEDS_VDROP && VBox::<NeedLinkeda>::new(b).calculate_layout().size() >= size_of::<NeedLinkeda>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedLinkeda> = Seq::new();
        s.push(need_linkeda::Init { f0: ObInit { id: 1, size: z }, f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: CopyFrom(&[4, 5]) });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedLinkedb { #[varlen] pub f0: Str<u8>, #[varlen] pub f1: Ob, #[varlen_array] pub f2: [u32; 2], #[varlen] pub f3: FixedLen<u64> }
pub fn h_c01_c03_c04_c05_c06_need_linked_1() {
    let z = sz();
    {
        let b: VBox<NeedLinkedb> = VBox::new(need_linkedb::Init { f0: Str::<u8>::try_copy("ab").unwrap(), f1: ObInit { id: 1, size: z }, f2: CopyFrom(&[4, 5]), f3: FixedLen(6) });
        check("c06 droppable", NeedLinkedb::NEEDS_VDROP && VBox::<NeedLinkedb>::new(b).calculate_layout().size() >= size_of::<NeedLinkedb>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedLinkedb> = Seq::new();
        s.push(need_linkedb::Init { f0: Str::<u8>::try_copy("ab").unwrap(), f1: ObInit { id: 1, size: z }, f2: CopyFrom(&[4, 5]), f3: FixedLen(6) });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedLinkedc { #[varlen_array] pub f0: [u32; 2], #[varlen] pub f1: FixedLen<u64>, #[varlen] pub f2: Ob, pub f3: u16 }
pub fn h_c01_c03_c04_c05_c06_need_linked_2() {
    let z = sz();
    {
        let b: VBox<NeedLinkedc> = VBox::new(need_linkedc::Init { f0: CopyFrom(&[4, 5]), f1: FixedLen(6), f2: ObInit { id: 1, size: z }, f3: 9 });
        check("c06 droppable", NeedLinkedc::NEEDS_VDROP && VBox::<NeedLinkedc>::new(b).calculate_layout().size() >= size_of::<NeedLinkedc>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedLinkedc> = Seq::new();
        s.push(need_linkedc::Init { f0: CopyFrom(&[4, 5]), f1: FixedLen(6), f2: ObInit { id: 1, size: z }, f3: 9 });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedLinkedd { #[varlen] pub f0: FixedLen<u64>, pub f1: u16, #[varlen] pub f2: Str<u8>, #[varlen] pub f3: Ob }
pub fn h_c01_c03_c04_c05_c06_need_linked_3() {
    let z = sz();
    {
        let b: VBox<NeedLinkedd> = VBox::new(need_linkedd::Init { f0: FixedLen(6), f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: ObInit { id: 1, size: z } });
        check("c06 droppable", NeedLinkedd::NEEDS_VDROP && VBox::<NeedLinkedd>::new(b).calculate_layout().size() >= size_of::<NeedLinkedd>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedLinkedd> = Seq::new();
        s.push(need_linkedd::Init { f0: FixedLen(6), f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: ObInit { id: 1, size: z } });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedArraya { #[varlen_array] pub f0: [Tok; 1], pub f1: u16, #[varlen] pub f2: Str<u8>, #[varlen_array] pub f3: [u32; 2] }
pub fn h_c01_c03_c04_c05_c06_need_array_0() {
    let z = sz();
    {
        let b: VBox<NeedArraya> = VBox::new(need_arraya::Init { f0: MoveFrom([Tok(1)]), f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: CopyFrom(&[4, 5]) });
        check("c06 droppable", NeedArraya::NEEDS_VDROP && VBox::<NeedArraya>::new(b).calculate_layout().size() >= size_of::<NeedArraya>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedArraya> = Seq::new();
        s.push(need_arraya::Init { f0: MoveFrom([Tok(1)]), f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: CopyFrom(&[4, 5]) });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedArrayb { #[varlen] pub f0: Str<u8>, #[varlen_array] pub f1: [Tok; 1], #[varlen_array] pub f2: [u32; 2], #[varlen] pub f3: FixedLen<u64> }
pub fn h_c01_c03_c04_c05_c06_need_array_1() {
    let z = sz();
    {
        let b: VBox<NeedArrayb> = VBox::new(need_arrayb::Init { f0: Str::<u8>::try_copy("ab").unwrap(), f1: MoveFrom([Tok(1)]), f2: CopyFrom(&[4, 5]), f3: FixedLen(6) });
        check("c06 droppable", NeedArrayb::NEEDS_VDROP && VBox::<NeedArrayb>::new(b).calculate_layout().size() >= size_of::<NeedArrayb>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedArrayb> = Seq::new();
        s.push(need_arrayb::Init { f0: Str::<u8>::try_copy("ab").unwrap(), f1: MoveFrom([Tok(1)]), f2: CopyFrom(&[4, 5]), f3: FixedLen(6) });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedArrayc { #[varlen_array] pub f0: [u32; 2], #[varlen] pub f1: FixedLen<u64>, #[varlen_array] pub f2: [Tok; 1], pub f3: u16 }
pub fn h_c01_c03_c04_c05_c06_need_array_2() {
    let z = sz();
    {
        let b: VBox<NeedArrayc> = VBox::new(need_arrayc::Init { f0: CopyFrom(&[4, 5]), f1: FixedLen(6), f2: MoveFrom([Tok(1)]), f3: 9 });
        check("c06 droppable", NeedArrayc::NEEDS_VDROP && VBox::<NeedArrayc>::new(b).calculate_layout().size() >= size_of::<NeedArrayc>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedArrayc> = Seq::new();
        s.push(need_arrayc::Init { f0: CopyFrom(&[4, 5]), f1: FixedLen(6), f2: MoveFrom([Tok(1)]), f3: 9 });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedArrayd { #[varlen] pub f0: FixedLen<u64>, pub f1: u16, #[varlen] pub f2: Str<u8>, #[varlen_array] pub f3: [Tok; 1] }
pub fn h_c01_c03_c04_c05_c06_need_array_3() {
    let z = sz();
    {
        let b: VBox<NeedArrayd> = VBox::new(need_arrayd::Init { f0: FixedLen(6), f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: MoveFrom([Tok(1)]) });
        check("c06 droppable", NeedArrayd::NEEDS_VDROP && VBox::<NeedArrayd>::new(b).calculate_layout().size() >= size_of::<NeedArrayd>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedArrayd> = Seq::new();
        s.push(need_arrayd::Init { f0: FixedLen(6), f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: MoveFrom([Tok(1)]) });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedNesteda { #[varlen] pub f0: FixedLen<Tok>, pub f1: u16, #[varlen] pub f2: Str<u8>, #[varlen_array] pub f3: [u32; 2] }
pub fn h_c01_c03_c04_c05_c06_need_nested_0() {
    let z = sz();
    {
        let b: VBox<NeedNesteda> = VBox::new(need_nesteda::Init { f0: FixedLen(Tok(1)), f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: CopyFrom(&[4, 5]) });
        check("c06 droppable", NeedNesteda::NEEDS_VDROP && VBox::<NeedNesteda>::new(b).calculate_layout().size() >= size_of::<NeedNesteda>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedNesteda> = Seq::new();
        s.push(need_nesteda::Init { f0: FixedLen(Tok(1)), f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: CopyFrom(&[4, 5]) });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedNestedb { #[varlen] pub f0: Str<u8>, #[varlen] pub f1: FixedLen<Tok>, #[varlen_array] pub f2: [u32; 2], #[varlen] pub f3: FixedLen<u64> }
pub fn h_c01_c03_c04_c05_c06_need_nested_1() {
    let z = sz();
    {
        let b: VBox<NeedNestedb> = VBox::new(need_nestedb::Init { f0: Str::<u8>::try_copy("ab").unwrap(), f1: FixedLen(Tok(1)), f2: CopyFrom(&[4, 5]), f3: FixedLen(6) });
        check("c06 droppable", NeedNestedb::NEEDS_VDROP && VBox::<NeedNestedb>::new(b).calculate_layout().size() >= size_of::<NeedNestedb>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedNestedb> = Seq::new();
        s.push(need_nestedb::Init { f0: Str::<u8>::try_copy("ab").unwrap(), f1: FixedLen(Tok(1)), f2: CopyFrom(&[4, 5]), f3: FixedLen(6) });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedNestedc { #[varlen_array] pub f0: [u32; 2], #[varlen] pub f1: FixedLen<u64>, #[varlen] pub f2: FixedLen<Tok>, pub f3: u16 }
pub fn h_c01_c03_c04_c05_c06_need_nested_2() {
    let z = sz();
    {
        let b: VBox<NeedNestedc> = VBox::new(need_nestedc::Init { f0: CopyFrom(&[4, 5]), f1: FixedLen(6), f2: FixedLen(Tok(1)), f3: 9 });
        check("c06 droppable", NeedNestedc::NEEDS_VDROP && VBox::<NeedNestedc>::new(b).calculate_layout().size() >= size_of::<NeedNestedc>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedNestedc> = Seq::new();
        s.push(need_nestedc::Init { f0: CopyFrom(&[4, 5]), f1: FixedLen(6), f2: FixedLen(Tok(1)), f3: 9 });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedNestedd { #[varlen] pub f0: FixedLen<u64>, pub f1: u16, #[varlen] pub f2: Str<u8>, #[varlen] pub f3: FixedLen<Tok> }
pub fn h_c01_c03_c04_c05_c06_need_nested_3() {
    let z = sz();
    {
        let b: VBox<NeedNestedd> = VBox::new(need_nestedd::Init { f0: FixedLen(6), f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: FixedLen(Tok(1)) });
        check("c06 droppable", NeedNestedd::NEEDS_VDROP && VBox::<NeedNestedd>::new(b).calculate_layout().size() >= size_of::<NeedNestedd>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedNestedd> = Seq::new();
        s.push(need_nestedd::Init { f0: FixedLen(6), f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: FixedLen(Tok(1)) });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedElemsa { #[varlen] pub f0: Array<Tok, u8>, pub f1: u16, #[varlen] pub f2: Str<u8>, #[varlen_array] pub f3: [u32; 2] }
pub fn h_c01_c03_c04_c05_c06_need_elems_0() {
    let z = sz();
    {
        let b: VBox<NeedElemsa> = VBox::new(need_elemsa::Init { f0: SizedInit(1, MoveFrom([Tok(1)])), f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: CopyFrom(&[4, 5]) });
        check("c06 droppable", NeedElemsa::NEEDS_VDROP && VBox::<NeedElemsa>::new(b).calculate_layout().size() >= size_of::<NeedElemsa>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedElemsa> = Seq::new();
        s.push(need_elemsa::Init { f0: SizedInit(1, MoveFrom([Tok(1)])), f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: CopyFrom(&[4, 5]) });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedElemsb { #[varlen] pub f0: Str<u8>, #[varlen] pub f1: Array<Tok, u8>, #[varlen_array] pub f2: [u32; 2], #[varlen] pub f3: FixedLen<u64> }
pub fn h_c01_c03_c04_c05_c06_need_elems_1() {
    let z = sz();
    {
        let b: VBox<NeedElemsb> = VBox::new(need_elemsb::Init { f0: Str::<u8>::try_copy("ab").unwrap(), f1: SizedInit(1, MoveFrom([Tok(1)])), f2: CopyFrom(&[4, 5]), f3: FixedLen(6) });
        check("c06 droppable", NeedElemsb::NEEDS_VDROP && VBox::<NeedElemsb>::new(b).calculate_layout().size() >= size_of::<NeedElemsb>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedElemsb> = Seq::new();
        s.push(need_elemsb::Init { f0: Str::<u8>::try_copy("ab").unwrap(), f1: SizedInit(1, MoveFrom([Tok(1)])), f2: CopyFrom(&[4, 5]), f3: FixedLen(6) });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedElemsc { #[varlen_array] pub f0: [u32; 2], #[varlen] pub f1: FixedLen<u64>, #[varlen] pub f2: Array<Tok, u8>, pub f3: u16 }
pub fn h_c01_c03_c04_c05_c06_need_elems_2() {
    let z = sz();
    {
        let b: VBox<NeedElemsc> = VBox::new(need_elemsc::Init { f0: CopyFrom(&[4, 5]), f1: FixedLen(6), f2: SizedInit(1, MoveFrom([Tok(1)])), f3: 9 });
        check("c06 droppable", NeedElemsc::NEEDS_VDROP && VBox::<NeedElemsc>::new(b).calculate_layout().size() >= size_of::<NeedElemsc>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedElemsc> = Seq::new();
        s.push(need_elemsc::Init { f0: CopyFrom(&[4, 5]), f1: FixedLen(6), f2: SizedInit(1, MoveFrom([Tok(1)])), f3: 9 });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}
#[define_varlen]
pub struct NeedElemsd { #[varlen] pub f0: FixedLen<u64>, pub f1: u16, #[varlen] pub f2: Str<u8>, #[varlen] pub f3: Array<Tok, u8> }
pub fn h_c01_c03_c04_c05_c06_need_elems_3() {
    let z = sz();
    {
        let b: VBox<NeedElemsd> = VBox::new(need_elemsd::Init { f0: FixedLen(6), f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: SizedInit(1, MoveFrom([Tok(1)])) });
        check("c06 droppable", NeedElemsd::NEEDS_VDROP && VBox::<NeedElemsd>::new(b).calculate_layout().size() >= size_of::<NeedElemsd>());
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
    {
        let mut s: Seq<NeedElemsd> = Seq::new();
        s.push(need_elemsd::Init { f0: FixedLen(6), f1: 9, f2: Str::<u8>::try_copy("ab").unwrap(), f3: SizedInit(1, MoveFrom([Tok(1)])) });
    }
    check("c06 each part is destroyed once", count(DROP, 1) == 2);
    check("c04 the blocks are released", live() == 0);
}

/// A layout controller with identity, whose destruction may panic.
pub struct Ctl { pub n: u8, pub id: usize }
impl Drop for Ctl { fn drop(&mut self) { event(DROP, self.id); if self.id == 1 && any_bool() { panic!() } } }
#[define_varlen]
pub struct Ctls {
    #[controls_layout] pub a: Ctl,
    pub fixed: u16,
    #[controls_layout] pub flag: u32,
    #[varlen_array] pub xs: [u16; a.n as usize],
    #[controls_layout] pub b: Ctl,
    #[varlen_array] pub ys: [u64; (b.n as usize) / 2],
    #[varlen_array] pub zs: [u8; 5],
}
fn ctls(n: u8, m: u8) -> *mut Ctls {
    let (x, y): (&[u16], &[u64]) = (slice_any(n as usize), slice_any(m as usize / 2));
    let (p, size) = unsafe { build(ctls::Init { a: Ctl { n, id: 3 }, fixed: 77, flag: 5, b: Ctl { n: m, id: 4 }, xs: CopyFrom(x), ys: CopyFrom(y), zs: CopyFrom(&[1, 2, 3, 4, 5]) }) };
    p
}
/// Replaced all or none, each value destroyed exactly once.
pub fn h_c05_c16_ctls() {
    let (n, m, n2, m2) = (any_u8(), any_u8(), any_u8(), any_u8());
    let p = ctls(n, m);
    let size = unsafe { &*p }.calculate_layout().size();
    let r = unsafe { Pin::new_unchecked(&mut *p) }.try_set_layout_controllers(ctls::LayoutControllers { a: Ctl { n: n2, id: 13 }, flag: 6, b: Ctl { n: m2, id: 14 } });
    let ok = r.is_ok();
    check("c16 accepted exactly if every length stays", ok == (n == n2 && m as usize / 2 == m2 as usize / 2));
    let o = unsafe { &*p };
    if ok {
        check("c16 an accepted update takes effect", o.a.id == 13 && o.a.n == n2 && o.b.id == 14 && o.b.n == m2 && o.flag == 6);
        check("c05 what was replaced is destroyed once", count(DROP, 3) == 1 && count(DROP, 4) == 1 && count(DROP, 13) == 0 && count(DROP, 14) == 0);
    } else {
        check("c16 a refused update changes nothing", o.a.id == 3 && o.a.n == n && o.b.id == 4 && o.b.n == m && o.flag == 5);
        check("c05 what was refused is destroyed once", count(DROP, 3) == 0 && count(DROP, 4) == 0 && count(DROP, 13) == 1 && count(DROP, 14) == 1);
    }
    check("c16 nothing else changes", o.fixed == 77);
    check("c16 the layout stays", o.calculate_layout().size() == size && o.refs().xs.len() == n as usize && o.refs().ys.len() == m as usize / 2);
    unsafe { Ctls::vdrop(Pin::new_unchecked(&mut *p), o.calculate_layout()); }
    check("c05 each value is destroyed once", count(DROP, 3) == 1 && count(DROP, 4) == 1 && count(DROP, 13) == 1 && count(DROP, 14) == 1);
}
pub fn h_c05_c14_c16_ctls_panic() {
    let (n, m, n2, m2) = (any_u8(), any_u8(), any_u8(), any_u8());
    let p = ctls(n, m);
    unsafe { core::mem::forget(core::mem::replace(&mut (*p).a, Ctl { n, id: 1 })); }
    let r = catch(|| {
        let r = unsafe { Pin::new_unchecked(&mut *p) }.try_set_layout_controllers(ctls::LayoutControllers { a: Ctl { n: n2, id: 13 }, flag: 6, b: Ctl { n: m2, id: 14 } });
        core::mem::forget(r);
    });
    let o = unsafe { &*p };
    check("c16 replaced all or none", (o.a.id == 13 && o.b.id == 14 && o.flag == 6) || (o.a.id == 1 && o.b.id == 4 && o.flag == 5));
    check("c16 replaced all or none", (o.a.id == 13) == (n == n2 && m as usize / 2 == m2 as usize / 2));
    check("c16 the layout stays", o.refs().xs.len() == n as usize && o.refs().ys.len() == m as usize / 2);
    check("c05 nothing is destroyed twice", count(DROP, 1) <= 1 && count(DROP, 4) <= 1 && count(DROP, 13) <= 1 && count(DROP, 14) <= 1);
    check("c05 what is still there is not destroyed", count(DROP, o.a.id) == 0 && count(DROP, o.b.id) == 0);
}
/// Controllers that no length mentions can always be replaced.
#[define_varlen]
pub struct Free {
    #[controls_layout] pub a: u32,
    #[controls_layout] pub b: usize,
    #[controls_layout] pub c: u8,
    #[varlen] pub part: Ob4,
    #[varlen_array] pub xs: [u32; *c as usize + 1],
}
pub fn h_c16_free() {
    let (a, b, c, a2, b2, c2) = (any_u32(), any(), any_u8(), any_u32(), any(), any_u8());
    let z = sz4();
    let x: &[u32] = slice_any(c as usize + 1);
    let (p, size) = unsafe { build(free::Init { a, b, c, part: Ob4Init { id: 1, size: z }, xs: CopyFrom(x) }) };
    let ok = unsafe { Pin::new_unchecked(&mut *p) }.try_set_layout_controllers(free::LayoutControllers { a: a2, b: b2, c: c2 }).is_ok();
    check("c16 accepted exactly if every length stays", ok == (c == c2));
    let o = unsafe { &*p };
    if ok { check("c16 an accepted update takes effect", o.a == a2 && o.b == b2 && o.c == c); } else { check("c16 a refused update changes nothing", o.a == a && o.b == b && o.c == c); }
    check("c16 the layout stays", o.calculate_layout().size() == size && o.refs().xs.len() == c as usize + 1 && o.refs().part.id == 1);
}
/// One length with several controllers, one controller with several lengths.
#[define_varlen]
pub struct Shared {
    #[controls_layout] pub a: u16,
    #[controls_layout] pub b: u16,
    #[controls_layout] pub c: u16,
    #[varlen_array] pub xs: [u8; *a as usize + *b as usize],
    #[varlen_array] pub ys: [u32; *b as usize + *c as usize],
    #[varlen_array] pub zs: [u16; *a as usize],
}
pub fn h_c16_shared() {
    let (a, b, c, a2, b2, c2) = (any_u16(), any_u16(), any_u16(), any_u16(), any_u16(), any_u16());
    let (x, y, z): (&[u8], &[u32], &[u16]) = (slice_any(a as usize + b as usize), slice_any(b as usize + c as usize), slice_any(a as usize));
    let (p, size) = unsafe { build(shared::Init { a, b, c, xs: CopyFrom(x), ys: CopyFrom(y), zs: CopyFrom(z) }) };
    let ok = unsafe { Pin::new_unchecked(&mut *p) }.try_set_layout_controllers(shared::LayoutControllers { a: a2, b: b2, c: c2 }).is_ok();
    check("c16 accepted exactly if every length stays", ok == (a == a2 && b == b2 && c == c2));
    let o = unsafe { &*p };
    check("c16 the values stay", o.a == a && o.b == b && o.c == c);
    check("c16 the layout stays", o.calculate_layout().size() == size);
}
/// Two lengths whose sum stays are not two lengths that stay.
#[define_varlen]
pub struct Sums {
    #[controls_layout] pub a: u16,
    #[controls_layout] pub b: u16,
    #[varlen_array] pub xs: [u8; *a as usize],
    #[varlen_array] pub ys: [u8; *b as usize],
    #[varlen_array] pub zs: [u8; (*a as usize + *b as usize) / 3],
}
pub fn h_c16_sums() {
    let (a, b, a2, b2) = (any_u16(), any_u16(), any_u16(), any_u16());
    let (x, y, z): (&[u8], &[u8], &[u8]) = (slice_any(a as usize), slice_any(b as usize), slice_any((a as usize + b as usize) / 3));
    let (p, size) = unsafe { build(sums::Init { a, b, xs: CopyFrom(x), ys: CopyFrom(y), zs: CopyFrom(z) }) };
    let ok = unsafe { Pin::new_unchecked(&mut *p) }.try_set_layout_controllers(sums::LayoutControllers { a: a2, b: b2 }).is_ok();
    check("c16 accepted exactly if every length stays", ok == (a == a2 && b == b2));
    let o = unsafe { &*p };
    check("c16 the values stay", o.a == a && o.b == b);
    check("c16 the layout stays", o.calculate_layout().size() == size);
}

