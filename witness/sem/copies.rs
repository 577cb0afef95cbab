#![allow(dead_code, unused)]
// Duplication by bytes: the whole extent, into storage of every kind, without running anybody's code.
include!("ob.rs");
use core::mem::{align_of, size_of};
use varlen::array::{ArrayLen, SizedInit};
use varlen::array_init::*;
use varlen::tuple::*;
use varlen::{FixedLen, Str};

macro_rules! plain {
    ($pl:ident, $lay:ident, $init:ident, $cl:ident, $align:expr, $repr:meta, $any:expr, $buf:ident, $boxed:ident, $pushed:ident, $arena:ident) => {
        /// An object of any size whose bytes behind the header are its contents.
        #[$repr]
        pub struct $pl { pub size: usize, pub id: usize }
        #[derive(PartialEq, Eq)]
        pub struct $lay(usize);
        impl Layout for $lay { fn size(&self) -> usize { self.0 } }
        unsafe impl VarLen for $pl {
            type Layout = $lay;
            fn calculate_layout(&self) -> $lay { $lay(self.size) }
            const ALIGN: usize = $align;
            const NEEDS_VDROP: bool = false;
            unsafe fn vdrop(self: Pin<&mut Self>, layout: $lay) {}
        }
        pub struct $init { pub size: usize, pub bytes: &'static [u8] }
        unsafe impl Initializer<$pl> for $init {
            fn calculate_layout_cautious(&self) -> Option<$lay> { Some($lay(self.size)) }
            unsafe fn initialize(self, dst: NonNull<$pl>, layout: $lay) {
                let p = dst.as_ptr();
                p.write($pl { size: self.size, id: 5 });
                core::ptr::copy_nonoverlapping(self.bytes.as_ptr(), (p as *mut u8).add(size_of::<$pl>()), self.size - size_of::<$pl>());
            }
        }
        pub struct $cl;
        unsafe impl Initializer<$pl> for $cl {
            fn calculate_layout_cautious(&self) -> Option<$lay> { check("c19 nobody's code runs", false); None }
            unsafe fn initialize(self, dst: NonNull<$pl>, layout: $lay) { check("c19 nobody's code runs", false); }
        }
        impl<'a> VClone<'a> for $pl {
            type Cloner = $cl;
            fn vclone(&'a self) -> $cl { check("c19 nobody's code runs", false); $cl }
        }
        unsafe impl<'a> VCopy<'a> for $pl {}
        impl $pl {
            fn tail(&self, k: usize) -> u8 { byte_at(self as *const _, size_of::<$pl>() + k) }
        }
        pub fn $buf() {
            let size = $any;
            let n = size - size_of::<$pl>();
            let bytes: &'static [u8] = slice_any(n);
            unsafe {
                let p: *mut $pl = buf(size, $align);
                $init { size, bytes }.initialize(NonNull::new_unchecked(p), $lay(size));
                // Between two guard bytes.
                let around: *mut u8 = buf(size + 2 * $align, $align);
                let q = around.add($align) as *mut $pl;
                *around.add($align - 1) = 1;
                *around.add($align + size) = 2;
                let i = (*p).vcopy();
                let l = i.calculate_layout_cautious();
                check("c19 the size of its source", l == Some($lay(size)));
                i.initialize(NonNull::new_unchecked(q), l.unwrap());
                check("c19 the header is copied", (*q).size == size && (*q).id == 5);
                check("c19 nothing outside is touched", *around.add($align - 1) == 1 && *around.add($align + size) == 2);
                let k = below(n);
                check("c19 every byte is copied", (*q).tail(k) == bytes[k]);
                check("c19 the source stays as it was", (*p).tail(k) == bytes[k] && (*p).size == size && (*p).id == 5);
            }
        }
        pub fn $boxed() {
            let size = $any;
            let n = size - size_of::<$pl>();
            let bytes: &'static [u8] = slice_any(n);
            {
                let b: VBox<$pl> = VBox::new($init { size, bytes });
                let c: VBox<$pl> = VBox::new(b.vcopy());
                check("c19 a block of its own", !same_block(&*b, &*c) && block_size(&*c) == size);
                let k = any();
                aside! { assume(k < n); check("c19 every byte is copied", c.tail(k) == bytes[k]); }
                drop(b);
                check("c19 the header is copied", c.size == size && c.id == 5);
                assume(k < n);
                check("c19 every byte is copied", c.tail(k) == bytes[k]);
            }
            check("c04 the blocks are released", live() == 0);
        }
        pub fn $pushed() {
            let size = $any;
            let n = size - size_of::<$pl>();
            let bytes: &'static [u8] = slice_any(n);
            let k = any();
            {
                let b: VBox<$pl> = VBox::new($init { size, bytes });
                let mut s: Seq<$pl> = Seq::new();
                s.push(b.vcopy());
                let o = s.offset();
                check("c10 the end advances by the element's space", o == up(size, $align));
                s.push(b.vcopy());
                check("c10 the end advances by the element's space", s.offset() == 2 * o);
                let c: VBox<$pl> = VBox::new(s.iter().next().unwrap().vcopy());
                drop(b);
                let x = unsafe { s.from_offset_unchecked(0) };
                let y = unsafe { s.from_offset_unchecked(o) };
                check("c19 the header is copied", x.size == size && x.id == 5 && y.size == size && y.id == 5);
                assume(k < n);
                check("c19 every byte is copied", x.tail(k) == bytes[k]);
                check("c19 every byte is copied", y.tail(k) == bytes[k]);
                check("c19 every byte is copied", c.tail(k) == bytes[k]);
            }
            check("c04 the blocks are released", live() == 0);
        }
        pub fn $arena() {
            let size = $any;
            let n = size - size_of::<$pl>();
            let bytes: &'static [u8] = slice_any(n);
            let arena = core::mem::ManuallyDrop::new(bumpalo::Bump::new());
            let b: *const bumpalo::Bump = &*arena;
            let x = Owned::new_in($init { size, bytes }, unsafe { &*b });
            let y = Owned::new_in(x.vcopy(), unsafe { &*b });
            check("c19 storage of its own", !same_addr(&*x, &*y));
            check("c19 the header is copied", y.size == size && y.id == 5);
            let k = below(n);
            check("c19 every byte is copied", y.tail(k) == bytes[k] && x.tail(k) == bytes[k]);
        }
    };
}
fn s24() -> usize { let n = any(); assume(n >= 16 && n <= 1 << 40); n }
fn s64() -> usize { let n = any(); assume(n >= 64 && n <= 1 << 40); n }
fn s16() -> usize { let n = any_u16() as usize; assume(n >= 16); n }
plain!(Pa, PaLay, PaInit, PaCl, 8, repr(C), s24(), h_c01_c03_c19_bytes8, h_c03_c04_c19_bytes_box8, h_c03_c04_c10_c19_bytes_pushed8, h_c03_c19_bytes_arena8);
plain!(Pb, PbLay, PbInit, PbCl, 64, repr(C, align(64)), s64(), h_c01_c03_c19_bytes64, h_c03_c04_c19_bytes_box64, h_c03_c04_c10_c19_bytes_pushed64, h_c03_c19_bytes_arena64);
plain!(Pc, PcLay, PcInit, PcCl, 1, repr(C, packed), s16(), h_c01_c03_c19_bytes1, h_c03_c04_c19_bytes_box1, h_c03_c04_c10_c19_bytes_pushed1, h_c03_c19_bytes_arena1);

/// A fixed value whose duplication would be noticed.
#[derive(Copy)]
pub struct Quiet(pub usize);
impl Clone for Quiet {
    fn clone(&self) -> Self { check("c19 nobody's code runs", false); Quiet(0) }
}
pub fn h_c01_c03_c04_c19_bytes_quiet_array() {
    let n = small();
    let v = any();
    {
        let b: VBox<Array<Quiet, usize>> = VBox::new(SizedInit(n, FillSequentially(|i: usize| Quiet(i + 3))));
        let c: VBox<Array<Quiet, usize>> = VBox::new(b.vcopy());
        check("c18 the length is the source's length", c.len() == n);
        let k = below(n);
        check("c19 every element is copied", c[k].0 == k + 3 && b[k].0 == k + 3);
        check("c19 storage of its own", !same_block(&*b, &*c));
    }
    check("c04 the blocks are released", live() == 0);
}
pub fn h_c01_c03_c04_c19_bytes_quiet_fixed() {
    let v = any();
    {
        let b: VBox<FixedLen<Quiet>> = VBox::new(FixedLen(Quiet(v)));
        let c: VBox<FixedLen<Quiet>> = VBox::new(b.vcopy());
        check("c19 every part is copied", c.0.0 == v && b.0.0 == v);
    }
    check("c04 the blocks are released", live() == 0);
}
pub fn h_c01_c03_c04_c19_bytes_tuple2() {
    type T = Tup2<Str<u16>, Array<Quiet, u8>>;
    let n = any_u16();
    let m = any_u8();
    let s = str_any(n as usize);
    {
        let b: VBox<T> = VBox::new(tup2::Init(Str::<u16>::try_copy(s).unwrap(), SizedInit(m, FillSequentially(|i: usize| Quiet(i + 3)))));
        let c: VBox<T> = VBox::new(b.vcopy());
        check("c19 the size of its source", c.calculate_layout().size() == b.calculate_layout().size());
        let tup2::Refs(x, y) = c.refs();
        check("c19 every part has its length", x.len() == n as usize && y.len() == m as usize);
        aside! { let k = below(n as usize); check("c19 every part is copied", x.as_bytes()[k] == s.as_bytes()[k]); }
        aside! { let k = below(m as usize); check("c19 every part is copied", y[k].0 == k + 3); }
    }
    check("c04 the blocks are released", live() == 0);
}
pub fn h_c01_c03_c04_c19_bytes_tuple3() {
    type T = Tup3<FixedLen<Quiet>, Tup2<Str<u8>, FixedLen<u8>>, Array<u16, u32>>;
    let n = any_u8();
    let m = any_u32();
    let (v, w) = (any(), any_u8());
    let s = str_any(n as usize);
    let a: &'static [u16] = slice_any(m as usize);
    {
        let b: VBox<T> = VBox::new(tup3::Init(FixedLen(Quiet(v)), tup2::Init(Str::<u8>::try_copy(s).unwrap(), FixedLen(w)), Array::<u16, u32>::try_copy(a).unwrap()));
        let c: VBox<T> = VBox::new(b.vcopy());
        check("c19 the size of its source", c.calculate_layout().size() == b.calculate_layout().size());
        let tup3::Refs(x, y, z) = c.refs();
        check("c19 every part is copied", x.0.0 == v);
        let tup2::Refs(y, u) = y.refs();
        check("c19 every part has its length", y.len() == n as usize && z.len() == m as usize);
        check("c19 every part is copied", u.0 == w);
        aside! { let k = below(n as usize); check("c19 every part is copied", y.as_bytes()[k] == s.as_bytes()[k]); }
        aside! { let k = below(m as usize); check("c19 every part is copied", z[k] == a[k]); }
    }
    check("c04 the blocks are released", live() == 0);
}
/// Into a sequence, from an element of another one, and as a part of a composite.
pub fn h_c01_c03_c04_c10_c19_bytes_between() {
    let n = any_u16();
    let s = str_any(n as usize);
    {
        let mut a: Seq<Str<u16>> = Seq::new();
        a.push(Str::<u16>::try_copy(s).unwrap());
        let mut b: Seq<Tup2<FixedLen<u32>, Str<u16>>> = Seq::new();
        for x in a.iter() { b.push(tup2::Init(FixedLen(7), x.vcopy())); }
        drop(a);
        check("c10 one element", b.len() == 1);
        let tup2::Refs(x, y) = b.iter().next().unwrap().refs();
        check("c19 every part has its length", x.0 == 7 && y.len() == n as usize);
        aside! { let k = below(n as usize); check("c19 every part is copied", y.as_bytes()[k] == s.as_bytes()[k]); }
    }
    check("c04 the blocks are released", live() == 0);
}
