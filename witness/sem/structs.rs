#![allow(dead_code, unused)]
include!("ob.rs");
use core::mem::size_of;
use varlen::array::SizedInit;
use varlen::array_init::*;
use varlen::{define_varlen, define_varlen_newtype, FixedLen, Str};

pub fn part<P: VarLen, T: VarLen>(o: *const P, size: usize, from: usize, e: &T) -> usize {
    let at = off(e, o);
    let n = e.calculate_layout().size();
    storage(e as *const T as *const u8, n, T::ALIGN);
    check("c07 parts do not overlap", at >= from);
    check("c07 parts end inside the object", at + n <= size);
    check("c07 the whole is aligned for its parts", P::ALIGN % T::ALIGN == 0);
    at + n
}
pub fn slice<P: VarLen, T>(o: *const P, size: usize, from: usize, e: &[T], n: usize) -> usize {
    let at = off(e.as_ptr(), o);
    check("c07 as long as the length expression says", e.len() == n);
    check("c07 parts do not overlap", at >= from);
    check("c07 parts end inside the object", at + n * size_of::<T>() <= size);
    check("c07 the whole is aligned for its parts", P::ALIGN % core::mem::align_of::<T>() == 0 && at % core::mem::align_of::<T>() == 0);
    at + n * size_of::<T>()
}
pub unsafe fn build<T: VarLen, I: Initializer<T>>(i: I) -> (*mut T, usize) {
    let l = i.calculate_layout_cautious().unwrap();
    let size = l.size();
    let p: *mut T = buf(size, T::ALIGN);
    i.initialize(NonNull::new_unchecked(p), l);
    check("c01 the built size is the promised size", (*p).calculate_layout().size() == size);
    check("c01 the size covers the header", size >= size_of::<T>());
    check("c07 the whole is aligned for its header", T::ALIGN % core::mem::align_of::<T>() == 0);
    (p, size)
}
/// A value with identity, less aligned than it is long.
#[repr(C, packed(2))]
pub struct Tik(pub usize);
impl Drop for Tik { fn drop(&mut self) { event(DROP, self.0); } }
impl Tik { pub fn id(&self) -> usize { self.0 } }

#[define_varlen]
pub struct Person {
    pub age: usize,
    #[varlen]
    pub name: Ob,
    #[varlen]
    pub email: Ob1,
}
pub fn h_c01_c03_c05_c06_c07_person() {
    let (a, b) = (sz(), sz1());
    let age = any();
    let (p, size) = unsafe { build(person::Init { age, name: ObInit { id: 1, size: a }, email: Ob1Init { id: 2, size: b } }) };
    check("c05 each part is built once", count(MAKE, 1) == 1 && count(MAKE, 2) == 1);
    let o = unsafe { &*p };
    check("c06 droppable", Person::NEEDS_VDROP);
    check("c07 fixed parts hold their value", o.age == age);
    let r = o.refs();
    let end = part(o, size, size_of::<Person>(), r.name);
    part(o, size, end, r.email);
    check("c07 each part is where it was built", r.name.id == 1 && r.email.id == 2 && *r.age == age);
    check("c07 all accessors agree", same_addr(r.age, &o.age));
    let (x, y): (*const Ob, *const Ob1) = (r.name, r.email);
    let m = unsafe { Pin::new_unchecked(&mut *p) }.muts();
    check("c07 all accessors agree", same_addr(&*m.name, x) && same_addr(&*m.email, y) && same_addr(m.age, &o.age));
    unsafe { Person::vdrop(Pin::new_unchecked(&mut *p), o.calculate_layout()); }
    check("c06 each part is destroyed once", count(DROP, 1) == 1 && count(DROP, 2) == 1);
}

#[define_varlen]
pub struct Multi {
    #[controls_layout]
    pub len: usize,
    #[varlen_array]
    pub array1: [u16; *len],
    #[varlen_array]
    pub array2: [u8; *len],
    #[varlen_array]
    pub half: [u32; (*len) / 2],
}
pub fn h_c01_c03_c07_c08_multi() {
    let n = small();
    let (s1, s2, s3): (&[u16], &[u8], &[u32]) = (slice_any(n), slice_any(n), slice_any(n / 2));
    let (p, size) = unsafe { build(multi::Init { len: n, array1: CopyFrom(s1), array2: CopyFrom(s2), half: CopyFrom(s3) }) };
    let o = unsafe { &*p };
    check("c06 nothing to drop", !Multi::NEEDS_VDROP);
    let r = o.refs();
    let end = slice(o, size, size_of::<Multi>(), r.array1, n);
    let end = slice(o, size, end, r.array2, n);
    slice(o, size, end, r.half, n / 2);
    let (x, y, z) = (r.array1.as_ptr(), r.array2.as_ptr(), r.half.as_ptr());
    aside! { let k = below(n); check("c08 every element has its value", r.array1[k] == s1[k] && r.array2[k] == s2[k]); }
    aside! { let k = below(n / 2); check("c08 every element has its value", r.half[k] == s3[k]); }
    let m = unsafe { Pin::new_unchecked(&mut *p) }.muts();
    check("c07 all accessors agree", same_addr(m.array1.as_ptr(), x) && same_addr(m.array2.as_ptr(), y) && same_addr(m.half.as_ptr(), z));
    check("c07 all accessors agree", m.array1.len() == n && m.array2.len() == n && m.half.len() == n / 2 && *m.len == n);
}

#[define_varlen]
pub struct Mixed {
    pub tag: u8,
    #[controls_layout]
    pub n: u8,
    #[varlen]
    pub wide: Ob64,
    pub tok: Tok,
    #[varlen_array]
    pub longs: [u64; *n as usize],
    #[varlen]
    pub text: Str<u8>,
    #[varlen_array]
    pub tiks: [Tik; (*n as usize) + 1],
    #[varlen]
    pub last: Ob2,
}
pub fn h_c01_c03_c05_c06_c07_mixed() {
    let (a, b) = (sz64(), sz2());
    let n = any_u8();
    let tag = any_u8();
    let longs: &[u64] = slice_any(n as usize);
    let m = any_u8();
    let text: &str = str_any(m as usize);
    let (p, size) = unsafe {
        build(mixed::Init {
            tag, n, wide: Ob64Init { id: 1, size: a }, tok: Tok(7), longs: CopyFrom(longs), text: Str::<u8>::try_copy(text).unwrap(),
            tiks: FillSequentially(|i: usize| Tik(100 + i)), last: Ob2Init { id: 2, size: b },
        })
    };
    check("c05 each part is built once", count(MAKE, 1) == 1 && count(MAKE, 2) == 1);
    let k = any();
    check("c05 nothing is destroyed yet", count(DROP, k) == 0);
    let o = unsafe { &*p };
    check("c06 droppable", Mixed::NEEDS_VDROP);
    check("c07 fixed parts hold their value", o.tag == tag && o.n == n && o.tok.0 == 7);
    let r = o.refs();
    let end = part(o, size, size_of::<Mixed>(), r.wide);
    let end = slice(o, size, end, r.longs, n as usize);
    let end = part(o, size, end, r.text);
    let end = slice(o, size, end, r.tiks, n as usize + 1);
    part(o, size, end, r.last);
    check("c07 each part is where it was built", r.wide.id == 1 && r.last.id == 2 && r.text.len() == m as usize);
    aside! { let k = below(n as usize); check("c08 every element has its value", r.longs[k] == longs[k]); }
    aside! { let k = below(m as usize); check("c08 every element has its value", r.text.as_bytes()[k] == text.as_bytes()[k]); }
    aside! { let k = below(n as usize + 1); check("c08 every element has its value", r.tiks[k].id() == 100 + k); }
    let (x1, x2, x3, x4, x5) = (r.wide as *const Ob64, r.longs.as_ptr(), r.text as *const Str<u8>, r.tiks.as_ptr(), r.last as *const Ob2);
    let m = unsafe { Pin::new_unchecked(&mut *p) }.muts();
    check("c07 all accessors agree", same_addr(&*m.wide, x1) && same_addr(m.longs.as_ptr(), x2) && same_addr(&*m.text, x3) && same_addr(m.tiks.as_ptr(), x4) && same_addr(&*m.last, x5));
    check("c07 all accessors agree", same_addr(m.tag, &o.tag) && same_addr(m.n, &o.n) && same_addr(m.tok, &o.tok));
    unsafe { Mixed::vdrop(Pin::new_unchecked(&mut *p), o.calculate_layout()); }
    let k = any();
    let is = k == 1 || k == 2 || k == 7 || (k >= 100 && k <= 100 + n as usize);
    check("c06 each part is destroyed once", count(DROP, k) == (if is { 1 } else { 0 }));
}

#[define_varlen]
pub struct Pair<A: VarLen = Ob64, C: VarLen = Ob1> {
    pub b: u8,
    pub t: Tok,
    #[varlen]
    pub a: A,
    #[varlen]
    pub c: C,
}
pub fn h_c01_c03_c05_c06_c07_generic() {
    let (a, c) = (sz2(), sz());
    let (p, size) = unsafe { build::<Pair<Ob2, Ob16>, _>(pair::Init { b: 9, t: Tok(3), a: Ob2Init { id: 1, size: a }, c: Ob16Init { id: 2, size: c } }) };
    let o = unsafe { &*p };
    check("c06 droppable", Pair::<Ob2, Ob16>::NEEDS_VDROP && Pair::<Array<u8>, Str>::NEEDS_VDROP);
    let r = o.refs();
    let end = part(o, size, size_of::<Pair<Ob2, Ob16>>(), r.a);
    part(o, size, end, r.c);
    check("c07 each part is where it was built", r.a.id == 1 && r.c.id == 2 && r.t.0 == 3 && *r.b == 9);
    let (x, y): (*const Ob2, *const Ob16) = (r.a, r.c);
    let m = unsafe { Pin::new_unchecked(&mut *p) }.muts();
    check("c07 all accessors agree", same_addr(&*m.a, x) && same_addr(&*m.c, y) && same_addr(m.b, &o.b) && same_addr(m.t, &o.t));
    unsafe { <Pair<Ob2, Ob16>>::vdrop(Pin::new_unchecked(&mut *p), o.calculate_layout()); }
    check("c06 each part is destroyed once", count(DROP, 1) == 1 && count(DROP, 2) == 1 && count(DROP, 3) == 1);
}

#[define_varlen]
#[repr(C)]
pub struct Outer {
    #[controls_layout]
    pub n: u8,
    #[controls_layout]
    pub m: u8,
    #[varlen_array]
    pub grid: [Tik; (*n as usize) * 2 + (*m as usize)],
    #[varlen]
    pub inner: Pair<Ob1, Ob>,
    #[varlen_array]
    pub fixed: [u32; 3],
}
pub fn h_c01_c03_c05_c06_c07_nested() {
    let (a, c) = (sz1(), sz());
    let (n, m) = (any_u8(), any_u8());
    let (p, size) = unsafe {
        build(outer::Init {
            n, m, grid: FillSequentially(|i: usize| Tik(100 + i)),
            inner: pair::Init { b: 9, t: Tok(3), a: Ob1Init { id: 1, size: a }, c: ObInit { id: 2, size: c } },
            fixed: CopyFrom(&[4, 5, 6]),
        })
    };
    let o = unsafe { &*p };
    let len = n as usize * 2 + m as usize;
    check("c06 droppable", Outer::NEEDS_VDROP);
    let r = o.refs();
    let end = slice(o, size, size_of::<Outer>(), r.grid, len);
    let end2 = part(o, size, end, r.inner);
    slice(o, size, end2, r.fixed, 3);
    let q = r.inner.refs();
    let end = part(o, size, end, q.a);
    let end = part(o, size, end, q.c);
    check("c07 parts of parts lie inside", end <= end2);
    check("c07 each part is where it was built", q.a.id == 1 && q.c.id == 2 && *q.b == 9 && r.fixed[0] == 4 && r.fixed[2] == 6);
    let (x, y): (*const Ob1, *const Ob) = (q.a, q.c);
    let (z, w) = (r.grid.as_ptr(), r.fixed.as_ptr());
    let t = unsafe { Pin::new_unchecked(&mut *p) }.muts();
    check("c07 all accessors agree", same_addr(t.grid.as_ptr(), z) && same_addr(t.fixed.as_ptr(), w) && t.grid.len() == len);
    let i = t.inner.muts();
    check("c07 all accessors agree", same_addr(&*i.a, x) && same_addr(&*i.c, y));
    unsafe { Outer::vdrop(Pin::new_unchecked(&mut *p), o.calculate_layout()); }
    let k = any();
    let is = k == 1 || k == 2 || k == 3 || (k >= 100 && k < 100 + len);
    check("c06 each part is destroyed once", count(DROP, k) == (if is { 1 } else { 0 }));
}
pub fn h_c16_try_set() {
    let (a, c) = (sz1(), sz());
    let (n, m) = (any_u8(), any_u8());
    let (p, size) = unsafe {
        build(outer::Init {
            n, m, grid: FillSequentially(|i: usize| Tik(100 + i)),
            inner: pair::Init { b: 9, t: Tok(3), a: Ob1Init { id: 1, size: a }, c: ObInit { id: 2, size: c } },
            fixed: CopyFrom(&[4, 5, 6]),
        })
    };
    let o = unsafe { &*p };
    let (n2, m2) = (any_u8(), any_u8());
    let len = n as usize * 2 + m as usize;
    let ok = unsafe { Pin::new_unchecked(&mut *p) }.try_set_layout_controllers(outer::LayoutControllers { n: n2, m: m2 }).is_ok();
    check("c16 accepted exactly if every length stays", ok == (len == n2 as usize * 2 + m2 as usize));
    if ok { check("c16 an accepted update takes effect", o.n == n2 && o.m == m2); } else { check("c16 a refused update changes nothing", o.n == n && o.m == m); }
    check("c16 the layout stays", o.calculate_layout().size() == size && o.refs().grid.len() == len);
    check("c16 the parts stay where they are", o.refs().inner.refs().c.id == 2 && o.refs().fixed[1] == 5);
}
pub fn h_c16_try_set_multi() {
    let n = small();
    let (s1, s2, s3): (&[u16], &[u8], &[u32]) = (slice_any(n), slice_any(n), slice_any(n / 2));
    let (p, size) = unsafe { build(multi::Init { len: n, array1: CopyFrom(s1), array2: CopyFrom(s2), half: CopyFrom(s3) }) };
    let o = unsafe { &*p };
    let n2 = any();
    let ok = unsafe { Pin::new_unchecked(&mut *p) }.try_set_layout_controllers(multi::LayoutControllers { len: n2 }).is_ok();
    check("c16 accepted exactly if every length stays", ok == (n == n2));
    check("c16 the layout stays", o.calculate_layout().size() == size && o.len == n);
}

define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Wrap(pub Ob16);
    with init: pub struct WrapInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Many<(T: Clone)>(pub Array<T, u8>);
    with signature: impl<(T: Clone)> Many<(T)> { _ }
    with init: pub struct ManyInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
pub fn h_c01_c03_c05_c06_c07_newtype() {
    let a = sz();
    let (p, size) = unsafe { build(WrapInit(Ob16Init { id: 1, size: a })) };
    check("c05 each part is built once", count(MAKE, 1) == 1);
    let o = unsafe { &*p };
    check("c06 droppable", Wrap::NEEDS_VDROP && Wrap::ALIGN == 16);
    check("c07 the size is the wrapped object's", size == a);
    part(o, size, 0, o.inner());
    let x: *const Ob16 = o.inner();
    check("c07 all accessors agree", same_addr(x, p) && o.inner().id == 1);
    check("c07 all accessors agree", same_addr(&*unsafe { Pin::new_unchecked(&mut *p) }.inner_mut(), x));
    unsafe { Wrap::vdrop(Pin::new_unchecked(&mut *p), o.calculate_layout()); }
    check("c06 each part is destroyed once", count(DROP, 1) == 1);
}
pub fn h_c01_c03_c05_c06_c07_newtype_many() {
    let n = any_u8();
    {
        let b: VBox<Many<Tok>> = VBox::new(ManyInit(SizedInit(n, FillSequentially(|i: usize| Tok(i)))));
        check("c06 droppable", Many::<Tok>::NEEDS_VDROP && !Many::<u8>::NEEDS_VDROP);
        check("c07 as long as the stored length", b.inner().len() == n as usize);
        let k = below(n as usize);
        check("c08 every element has its value", b.inner()[k].0 == k);
    }
    let k = any();
    check("c06 each part is destroyed once", count(DROP, k) == (if k < n as usize { 1 } else { 0 }));
    check("c04 the block is released", live() == 0);
}
