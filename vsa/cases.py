"""The forbidden programs and their permitted twins, per property."""

PRE = '''#![allow(unused, dead_code, unused_unsafe)]
use varlen::prelude::*;
use std::pin::Pin;
use std::ptr::NonNull;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::mem::MaybeUninit;
#[define_varlen] pub struct GA { #[controls_layout] pub n: usize, pub f: u16, #[varlen_array] pub arr: [u32; *n] }
#[define_varlen] pub struct GV { pub f: u16, #[varlen] pub s: Str }
#[define_varlen] pub struct GX { #[controls_layout] pub n: u8, pub f: String, #[varlen] pub s: Str, #[varlen_array] pub arr: [String; *n as usize], #[varlen] pub t: Array<u32> }
#[define_varlen] pub struct GT<E = u8> { #[controls_layout] pub n: usize, #[varlen_array] pub arr: [E; *n] }
#[define_varlen] pub struct GW<V: VarLen = Str> { #[varlen] pub v: V }
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NT(Tup2<FixedLen<usize>, Str>);
    with init: pub struct NTInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NG<(E)>(Array<E>);
    with signature: impl<(E)> NG<(E)> { _ }
    with init: pub struct NGInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
'''

TAILED = ["Str", "Str<u8>", "Array<u8>", "Array<u32, u16>", "Tup2<FixedLen<u8>, FixedLen<u8>>", "Tup2<Str, Str>",
          "Tup3<Str, FixedLen<u8>, Str>", "Tup4<Str, Str, Str, Str>", "Tup5<Str, Str, Str, Str, FixedLen<u8>>",
          "GA", "GV", "GX", "GT<u8>", "GW<Str>", "NT", "NG<u8>",
          "varlen::marker::FieldMarker<u8>", "varlen::marker::ArrayMarker<u8>", "varlen::marker::FieldMarker<Str>"]


def c15():
    cs = []
    for i, t in enumerate(TAILED):
        cs.append(("unpin-%d-%s" % (i, t.replace(" ", "")), PRE + '''
fn need<T: Unpin>() {}
fn f() {
    need::<u32>(); //~ GOOD
    need::<%s>(); //~ BAD E0277
}''' % t))
    cs.append(("unpin-generic", PRE + '''
fn need<T: Unpin>() {}
fn f<T: Unpin, L: ArrayLen + Unpin, A: VarLen + Unpin>() {
    need::<VBox<A>>();
    need::<FixedLen<T>>();
    need::<Array<T, L>>(); //~ BADa E0277
    need::<Str<L>>(); //~ BADb E0277
    need::<Tup2<A, A>>(); //~ BADc E0277
    need::<GT<T>>(); //~ BADd E0277
    need::<GW<A>>(); //~ BADe E0277
    need::<NG<T>>(); //~ BADf E0277
    need::<Tup3<A, A, A>>(); //~ BADg E0277
    need::<Tup4<A, A, A, A>>(); //~ BADh E0277
    need::<Tup5<A, A, A, A, A>>(); //~ BADi E0277
    need::<varlen::marker::FieldMarker<T>>(); //~ BADj E0277
    need::<varlen::marker::ArrayMarker<T>>(); //~ BADk E0277
}'''))
    cs.append(("unpin-user-impl", PRE + '''
struct Mine;
impl Unpin for Mine {}
impl Unpin for GA {} //~ BADa E0119
impl Unpin for GV {} //~ BADb E0119
impl<E> Unpin for GT<E> {} //~ BADc E0119
impl<V: VarLen> Unpin for GW<V> {} //~ BADd E0119
impl Unpin for NT {} //~ BADe E0119
impl<E> Unpin for NG<E> {} //~ BADf E0119
impl Unpin for GX {} //~ BADg E0119
'''))
    acc = [
        ("vbox", "x: &mut VBox<Str>", "x.as_mut()", "Str"),
        ("owned", "x: &mut Owned<'static, Str>", "x.as_mut()", "Str"),
        ("leak", "x: Owned<'static, Str>", "x.leak()", "Str"),
        ("itermut", "x: &mut Seq<Str>", "x.iter_mut().next().unwrap()", "Str"),
        ("itermut-idx", "x: &mut IndexableSeq<Str>", "x.iter_mut().next().unwrap()", "Str"),
        ("fromoff", "x: &mut IndexableSeq<Str>", "x.from_offset_mut(0)", "Str"),
        ("fromoffu", "x: &mut IndexableSeq<Str>", "unsafe { x.from_offset_unchecked_mut(0) }", "Str"),
        ("tup2a", "x: Pin<&mut Tup2<Str, Array<u8>>>", "x.muts().0", "Str"),
        ("tup2b", "x: Pin<&mut Tup2<Str, Array<u8>>>", "x.muts().1", "Array<u8>"),
        ("tup3", "x: Pin<&mut Tup3<Str, Str, GA>>", "x.muts().2", "GA"),
        ("tup4", "x: Pin<&mut Tup4<Str, Str, GA, GV>>", "x.muts().3", "GV"),
        ("tup5", "x: Pin<&mut Tup5<Str, Str, GA, GV, NT>>", "x.muts().4", "NT"),
        ("gv", "x: Pin<&mut GV>", "x.muts().s", "Str"),
        ("gx", "x: Pin<&mut GX>", "x.muts().t", "Array<u32>"),
        ("gw", "x: Pin<&mut GW<GA>>", "x.muts().v", "GA"),
        ("nt", "x: Pin<&mut NT>", "x.inner_mut()", "Tup2<FixedLen<usize>, Str>"),
        ("ng", "x: Pin<&mut NG<u8>>", "x.inner_mut()", "Array<u8>"),
    ]
    for n, arg, e, t in acc:
        cs.append(("acc-" + n, PRE + '''
fn f(mut x_: (), %s) {
    let r: Pin<&mut %s> = %s; //~ GOOD
    let r: &mut %s = Pin::get_mut(%s); //~ BADget E0277
    let r: &mut %s = %s; //~ BADplain E0308
    let mut p = %s; let r: &mut %s = &mut *p; //~ BADderef E0596 E0277
}''' % (arg, t, e, t, e, t, e, e, t)))
    for n, c in (("vbox", "VBox<Str>"), ("owned", "Owned<'static, Str>"), ("vboxga", "VBox<GA>")):
        cs.append(("derefmut-" + n, PRE + '''
fn need<T: ?Sized + std::ops::DerefMut>() {}
fn as_mut_need<U: ?Sized, T: ?Sized + AsMut<U>>() {}
fn bor<U: ?Sized, T: ?Sized + std::borrow::BorrowMut<U>>() {}
fn f(mut a: %(c)s, mut b: %(c)s) {
    let _ = &*a;
    need::<Vec<u8>>();
    std::mem::swap(&mut a, &mut b);
    std::mem::swap(&mut *a, &mut *b); //~ BADswap E0596
    need::<%(c)s>(); //~ BADneed E0277
    as_mut_need::<%(t)s, %(c)s>(); //~ BADasmut E0277
    bor::<%(t)s, %(c)s>(); //~ BADborrow E0277
}''' % {"c": c, "t": "GA" if "GA" in c else "Str"}))
    cs.append(("pin-header-fields", PRE + '''
fn f(mut x: Pin<&mut GX>, mut y: Pin<&mut GA>) {
    let a: &String = &x.f;
    let b: &u16 = &y.f;
    let c: &mut String = x.as_mut().muts().f;
    x.f = String::new(); //~ BADa E0594
    y.f = 3; //~ BADb E0594
    let c: &mut u16 = &mut y.f; //~ BADc E0596
}'''))
    cs.append(("tuple-muts-swap", PRE + '''
fn f(mut a: VBox<Tup2<Str, Str>>) {
    let m = a.as_mut().muts();
    let mut p = m.0;
    let mut q = m.1;
    std::mem::swap(&mut p, &mut q);
    std::mem::swap(&mut *p, &mut *q); //~ BAD E0596
}'''))
    return cs


def c16():
    cs = []
    cs.append(("ro-muts", PRE + '''
fn f(mut x: VBox<GA>, y: usize) {
    let m = x.as_mut().muts();
    *m.f = 1;
    m.arr[0] = 1;
    let n: usize = *m.n;
    *m.n = y; //~ BADassign E0594
    let r: &mut usize = m.n; //~ BADmut E0308
}'''))
    cs.append(("ro-muts-u8", PRE + '''
fn f(mut x: VBox<GX>) {
    let m = x.as_mut().muts();
    m.f.push('x');
    let n: u8 = *m.n;
    *m.n = 3; //~ BADassign E0594
    let r: &mut u8 = m.n; //~ BADmut E0308
}'''))
    cs.append(("ro-field", PRE + '''
fn f(mut x: VBox<GA>) {
    let n = x.n;
    x.n = 1; //~ BADa E0594
    x.as_mut().n = 1; //~ BADb E0594
    let r = &mut x.as_mut().n; //~ BADc E0596
    *x.refs().n = 1; //~ BADd E0594
}'''))
    cs.append(("ro-refs", PRE + '''
fn f(x: &GX) {
    let r = x.refs();
    let a: (&u8, &String, &Str, &[String], &Array<u32>) = (r.n, r.f, r.s, r.arr, r.t);
    *r.n = 1; //~ BADn E0594
    *r.f = String::new(); //~ BADf E0594
    r.arr[0] = String::new(); //~ BADarr E0594
}'''))
    for nm, ty in (("cell", "Cell<usize>"), ("arraycell", "[Cell<usize>; 1]"), ("tuplecell", "(Cell<usize>, u8)")):
        e = {"cell": "n.get()", "arraycell": "n[0].get()", "tuplecell": "n.0.get()"}[nm]
        g = {"cell": "*n", "arraycell": "n[0]", "tuplecell": "n.0"}[nm]
        cs.append(("interior-" + nm, '''#![allow(unused)]
use varlen::prelude::*; use std::cell::Cell;
#[define_varlen] pub struct S { #[controls_layout] pub n: %s, #[varlen_array] pub a: [u8; %s] } //~ GOOD
#[define_varlen] pub struct S { #[controls_layout] pub n: %s, #[varlen_array] pub a: [u8; %s] } //~ BAD
''' % (ty.replace("Cell<usize>", "usize"), g, ty, e)))
    cs.append(("interior-refcell", '''#![allow(unused)]
use varlen::prelude::*; use std::cell::RefCell;
#[define_varlen] pub struct S { pub r: RefCell<usize>, #[controls_layout] pub n: usize, #[varlen_array] pub a: [u8; *n] } //~ GOOD
#[define_varlen] pub struct S { #[controls_layout] pub r: RefCell<usize>, #[controls_layout] pub n: usize, #[varlen_array] pub a: [u8; *n] } //~ BAD
'''))
    cs.append(("len-fn-const", '''#![allow(unused)]
use varlen::prelude::*;
static mut COUNTER: usize = 0;
fn next() -> usize { 4 }
const fn four() -> usize { 4 }
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub a: [u8; *n * four()] } //~ GOOD
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub a: [u8; *n * next()] } //~ BADfn E0015
#[define_varlen] pub struct S { pub n: usize, #[varlen_array] pub a: [u8; *n] } //~ BADnotlen E0425
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, pub m: usize, #[varlen_array] pub a: [u8; *m] } //~ BADother E0425
'''))
    cs.append(("update-needs-all", PRE + '''
fn f(mut x: VBox<GA>) -> Result<(), varlen::macro_support::LayoutMismatch> {
    x.as_mut().try_set_layout_controllers(ga::LayoutControllers { n: 3 }) //~ GOOD
    x.as_mut().try_set_layout_controllers(ga::LayoutControllers { }) //~ BADmissing E0063
    x.as_mut().try_set_layout_controllers(ga::LayoutControllers { n: 3, f: 2 }) //~ BADextra E0560
    VBox::as_mut(&mut x).get_ref().try_set_layout_controllers(ga::LayoutControllers { n: 3 }) //~ BADshared
}'''))
    return cs


def c17():
    cs = []
    cs.append(("views", PRE + '''
fn f(mut x: VBox<Str>, y: &Str<u8>) {
    let a: &str = &x;
    let b: &str = &y[..];
    let c: &mut str = x.as_mut().mut_slice();
    let d: &[u8] = &*x; //~ BADslice E0308
    let d: &mut [u8] = x.as_mut().mut_slice(); //~ BADmut E0308
}'''))
    cs.append(("inner-private", PRE + '''
fn f(x: &Str, y: Pin<&mut Str>) {
    let a = x.len();
    let b = x.as_bytes();
    let c = x.inner(); //~ BADref E0624
    let c = y.inner_mut(); //~ BADmut E0624
    let c = &x.0; //~ BADfield E0616
    let varlen::Str(c) = x; //~ BADpat E0532
}'''))
    cs.append(("construct", PRE + '''
fn f(s: &str, bytes: &[u8]) {
    let a = VBox::<Str>::new(Str::copy(s));
    let b = VBox::<Str<u8>>::new(Str::<u8>::try_copy(s).unwrap());
    let c = VBox::<Str>::new(a.vclone());
    let d = VBox::<Str>::new(a.vcopy());
    let e = VBox::<Str>::new(Str::copy(bytes)); //~ BADbytes E0308
    let e = VBox::<Str<u8>>::new(Str::<u8>::try_copy(bytes).unwrap()); //~ BADtry E0308
    let e = VBox::<Str>::new(Array::copy(bytes)); //~ BADarr E0277
    let e = VBox::<Str>::new(SizedInit(3, FillSequentially(|i| i as u8))); //~ BADsized E0277
    let e = VBox::<Str>::new(varlen::str::StrInit(Array::copy(bytes))); //~ BADinit E0423 E0603
    let e = VBox::<Str>::new(varlen::str::StrInit { 0: Array::copy(bytes) }); //~ BADinit2 E0451 E0603
    let e = VBox::<Str<u8>>::new(Str::copy(s)); //~ BADlen E0277 E0308
}'''))
    cs.append(("cloner-private", PRE + '''
fn f(bytes: &[u8], s: &Str) {
    let c = s.vclone();
    let d = varlen::str::StrCloner(loop {}); //~ BADctor E0423
    let e = c.0; //~ BADfield E0616
}'''))
    cs.append(("no-from-array", PRE + '''
fn f(a: VBox<Array<u8>>, r: &Array<u8>) {
    let x: &[u8] = r;
    let b: VBox<Str> = a.into(); //~ BADbox E0277
    let b: &Str = r.into(); //~ BADref E0277
    let b: &Str = r; //~ BADcoerce E0308
    let b: &Str = r.as_ref(); //~ BADasref E0599
}'''))
    cs.append(("init-not-generic-arrays", PRE + '''
fn need<T: VarLen, I: Initializer<T>>(i: I) {}
fn f(s: &str, b: &[u8]) {
    need::<Array<u8>, _>(Array::copy(b));
    need::<Str, _>(Str::copy(s));
    need::<Str, _>(Array::copy(b)); //~ BADa E0277
    need::<Str, CopyFrom<u8>>(CopyFrom(b)); //~ BADb E0277
    need::<Str, FixedLen<u8>>(FixedLen(1)); //~ BADc E0277
    need::<Str, VBox<Array<u8>>>(loop {}); //~ BADd E0277
}'''))
    cs.append(("array-str-casts", PRE + '''
fn f(x: &Str) {
    let t: &[u8] = x.as_bytes();
}'''))
    return cs


def c18():
    cs = []
    cs.append(("sealed-len", PRE + '''
fn need<L: ArrayLen>() {}
fn f() {
    need::<u8>(); need::<u16>(); need::<u32>(); need::<u64>(); need::<usize>();
    need::<i8>(); //~ BADi8 E0277
    need::<i32>(); //~ BADi32 E0277
    need::<isize>(); //~ BADisize E0277
    need::<bool>(); //~ BADbool E0277
    need::<f32>(); //~ BADf32 E0277
    need::<u128>(); //~ BADu128 E0277
    need::<i16>(); //~ BADi16 E0277
    need::<i64>(); //~ BADi64 E0277
    need::<i128>(); //~ BADi128 E0277
    need::<char>(); //~ BADchar E0277
    need::<f64>(); //~ BADf64 E0277
    need::<std::num::NonZeroU8>(); //~ BADnz8 E0277
    need::<std::num::Wrapping<u8>>(); //~ BADwrap E0277
    need::<Option<u8>>(); //~ BADopt E0277
    need::<(u8, u8)>(); //~ BADpair E0277
    need::<[u8; 2]>(); //~ BADbytes E0277
    need::<varlen::FixedLen<u8>>(); //~ BADfixed E0277
    need::<std::num::NonZeroUsize>(); //~ BADnz E0277
    need::<()>(); //~ BADunit E0277
}'''))
    cs.append(("sealed-len-user", PRE + '''
#[derive(Clone, Copy)] struct L(u8);
trait Other {}
impl Other for L {}
impl ArrayLen for L { fn as_usize(self) -> usize { 0 } fn from_usize(x: usize) -> Option<Self> { None } } //~ BAD E0277
'''))
    cs.append(("sealed-len-private", PRE + '''
#[derive(Clone, Copy)] struct L(u8);
fn f<L: ArrayLen>() {
    let _ = 1;
    use varlen::array::private::Sealed; //~ BADpath E0603
}'''))
    cs.append(("sealed-len-foreign", PRE + '''
#[derive(Clone, Copy)] struct L(u8);
trait Other { fn as_usize(self) -> usize; fn from_usize(x: usize) -> Option<Self> where Self: Sized; }
impl Other for L { fn as_usize(self) -> usize { 0 } fn from_usize(x: usize) -> Option<Self> { None } } //~ GOOD
impl ArrayLen for L { fn as_usize(self) -> usize { 0 } fn from_usize(x: usize) -> Option<Self> { None } } //~ BADa E0277
impl ArrayLen for L { fn as_usize(self) -> usize { 0 } fn from_usize(x: usize) -> Option<Self> { None } } //~ BADb
impl varlen::array::private::Sealed for L {} //~ BADb E0603
'''))
    cs.append(("infallible-only-full", PRE + '''
fn f(s: &[u8], t: &str) {
    let a = VBox::<Array<u8>>::new(Array::copy(s));
    let a = VBox::<Array<u8, u8>>::new(Array::<u8, u8>::try_copy(s).unwrap());
    let a = VBox::<Array<u8, u8>>::new(Array::copy(s)); //~ BADcopy E0277 E0308
    let a = VBox::<Array<u8, u8>>::new(Array::<u8, u8>::try_copy(s)); //~ BADopt E0277
    let a = VBox::<Array<u8, u8>>::new(Array::clone_from_slice(s)); //~ BADclone E0277 E0308
    let a = VBox::<Str<u8>>::new(Str::copy(t)); //~ BADstr E0277 E0308
}'''))
    return cs


def c19():
    cs = []
    cs.append(("vcopy-bounds", PRE + '''
fn need<'a, T: VCopy<'a>>() {}
#[derive(Clone)] struct NC;
fn f() {
    need::<FixedLen<u32>>(); need::<Array<u32>>(); need::<Array<u32, u8>>(); need::<Str>(); need::<Str<u8>>();
    need::<Tup2<Str, FixedLen<u8>>>(); need::<Tup3<Str, Str, FixedLen<u8>>>(); need::<Tup4<Str, Str, Str, Str>>();
    need::<Tup5<Str, Str, Str, Str, Str>>(); need::<Tup2<Tup2<Str, Str>, Array<(u8, u16)>>>();
    need::<FixedLen<String>>(); //~ BADa E0277
    need::<Array<String>>(); //~ BADb E0277
    need::<Array<Vec<u8>, u8>>(); //~ BADc E0277
    need::<FixedLen<NC>>(); //~ BADd E0277
    need::<Array<NC>>(); //~ BADe E0277
    need::<Array<Box<u8>>>(); //~ BADf E0277
    need::<Array<&'static mut u8>>(); //~ BADg E0277
    need::<Tup2<FixedLen<String>, Str>>(); //~ BADh E0277
    need::<Tup2<Str, FixedLen<String>>>(); //~ BADi E0277
    need::<Tup3<Array<String>, Str, Str>>(); //~ BADj1 E0277
    need::<Tup3<Str, Array<String>, Str>>(); //~ BADj2 E0277
    need::<Tup3<Str, Str, Array<String>>>(); //~ BADj3 E0277
    need::<Tup4<Array<String>, Str, Str, Str>>(); //~ BADk1 E0277
    need::<Tup4<Str, Array<String>, Str, Str>>(); //~ BADk2 E0277
    need::<Tup4<Str, Str, Array<String>, Str>>(); //~ BADk3 E0277
    need::<Tup4<Str, Str, Str, Array<String>>>(); //~ BADk4 E0277
    need::<Tup5<Array<String>, Str, Str, Str, Str>>(); //~ BADl1 E0277
    need::<Tup5<Str, Array<String>, Str, Str, Str>>(); //~ BADl2 E0277
    need::<Tup5<Str, Str, Array<String>, Str, Str>>(); //~ BADl3 E0277
    need::<Tup5<Str, Str, Str, Array<String>, Str>>(); //~ BADl4 E0277
    need::<Tup5<Str, Str, Str, Str, Array<String>>>(); //~ BADl5 E0277
    need::<Tup2<Tup2<Str, FixedLen<String>>, Str>>(); //~ BADm E0277
    need::<FixedLen<Rc<u8>>>(); //~ BADn E0277
    need::<FixedLen<VBox<Str>>>(); //~ BADo E0277
    need::<GX>(); //~ BADp E0277
    need::<FixedLen<Option<String>>>(); //~ BADq E0277
}'''))
    cs.append(("vcopy-generic", PRE + '''
fn need<'a, T: VCopy<'a>>() {}
fn f<'a, T: Copy + 'a, C: Clone + 'a, A: VCopy<'a>, B: VClone<'a>>() {
    need::<Array<T>>(); need::<FixedLen<T>>(); need::<Tup2<A, A>>();
    need::<Array<C>>(); //~ BADa E0277
    need::<FixedLen<C>>(); //~ BADb E0277
    need::<Tup2<A, B>>(); //~ BADc E0277
    need::<Tup2<B, A>>(); //~ BADd E0277
    need::<Tup3<A, B, A>>(); //~ BADe E0277
    need::<Tup4<A, A, A, B>>(); //~ BADf E0277
    need::<Tup5<A, A, A, B, A>>(); //~ BADg E0277
}'''))
    cs.append(("copyfrom-bounds", PRE + '''
fn need<T, I: ArrayInitializer<T>>() {}
fn f<'a, T: Copy + 'a, C: Clone + 'a, N: 'a>() {
    need::<T, CopyFrom<'a, T>>(); need::<C, CloneFrom<'a, C>>(); need::<u8, CopyFrom<'a, u8>>();
    need::<C, CopyFrom<'a, C>>(); //~ BADa E0277
    need::<String, CopyFrom<'a, String>>(); //~ BADb E0277
    need::<N, CloneFrom<'a, N>>(); //~ BADc E0277
    need::<u16, CopyFrom<'a, u8>>(); //~ BADd E0277 E0271
    need::<N, FillWithDefault>(); //~ BADe E0277
    need::<u8, FromIterPrefix<std::vec::IntoIter<u16>>>(); //~ BADf E0271
    need::<u8, MoveFrom<u16, 3>>(); //~ BADg E0277
}'''))
    cs.append(("copy-ctors", PRE + '''
fn f<T: Copy, C: Clone>(t: &[T], c: &[C], s: &[String]) {
    let a = Array::copy(t);
    let b = Array::clone_from_slice(c);
    let d = Array::<T, u8>::try_copy(t);
    let a = Array::copy(c); //~ BADa E0277
    let a = Array::copy(s); //~ BADb E0277
    let a = Array::<C, u8>::try_copy(c); //~ BADc E0277
    let a = Array::<String, u8>::try_copy(s); //~ BADd E0277
}'''))
    cs.append(("copier-forge", PRE + '''
fn f<'a>(s: &'a Array<u8>, g: &'a GX) {
    let a = s.vcopy();
    let b: varlen::VCopier<'a, Array<u8>> = s.vcopy();
    let b = varlen::VCopier(g); //~ BADa E0423
    let b = g.vcopy(); //~ BADb E0599
}'''))
    cs.append(("copier-initializes", PRE + '''
use varlen::VCopier;
fn need<T: VarLen, I: Initializer<T>>() {}
#[derive(Clone)] struct NC;
fn f<'a, T: Copy + 'static, C: Clone + 'static, A: VCopy<'a> + VarLen + 'a, B: VClone<'a> + VarLen + 'a>() {
    need::<Str, VCopier<'a, Str>>(); need::<Array<u8>, VCopier<'a, Array<u8>>>(); need::<Array<T>, VCopier<'a, Array<T>>>();
    need::<FixedLen<T>, VCopier<'a, FixedLen<T>>>(); need::<Tup2<A, A>, VCopier<'a, Tup2<A, A>>>();
    need::<Array<String>, VCopier<'a, Array<String>>>(); //~ BADa E0277
    need::<Array<String, u8>, VCopier<'a, Array<String, u8>>>(); //~ BADb E0277
    need::<FixedLen<String>, VCopier<'a, FixedLen<String>>>(); //~ BADc E0277
    need::<Tup2<Str, Array<String>>, VCopier<'a, Tup2<Str, Array<String>>>>(); //~ BADd E0277
    need::<Tup3<FixedLen<String>, Str, Str>, VCopier<'a, Tup3<FixedLen<String>, Str, Str>>>(); //~ BADe E0277
    need::<GA, VCopier<'a, GA>>(); //~ BADf E0277
    need::<GX, VCopier<'a, GX>>(); //~ BADg E0277
    need::<NT, VCopier<'a, NT>>(); //~ BADh E0277
    need::<Array<C>, VCopier<'a, Array<C>>>(); //~ BADi E0277
    need::<FixedLen<C>, VCopier<'a, FixedLen<C>>>(); //~ BADj E0277
    need::<B, VCopier<'a, B>>(); //~ BADk E0277
    need::<Tup2<A, B>, VCopier<'a, Tup2<A, B>>>(); //~ BADl E0277
    need::<FixedLen<NC>, VCopier<'a, FixedLen<NC>>>(); //~ BADm E0277
    need::<Str, VCopier<'a, Array<u8>>>(); //~ BADn E0277
    need::<Str<u8>, VCopier<'a, Str<u16>>>(); //~ BADo E0277
}'''))
    cs.append(("unsafe-vcopy", PRE + '''
struct W;
impl<'a> VClone<'a> for GA { type Cloner = varlen::VCopier<'a, GA>; fn vclone(&'a self) -> Self::Cloner { loop {} } }
unsafe impl<'a> VCopy<'a> for GA {} //~ GOOD
impl<'a> VCopy<'a> for GA {} //~ BAD E0200
'''))
    cs.append(("vclone-bounds", PRE + '''
fn need<'a, T: VClone<'a>>() {}
struct NotClone;
fn f() {
    need::<FixedLen<String>>(); need::<Array<String>>(); need::<Tup2<Str, Array<String>>>();
    need::<FixedLen<NotClone>>(); //~ BADa E0277
    need::<Array<NotClone>>(); //~ BADb E0277
    need::<Tup2<Str, Array<NotClone>>>(); //~ BADc E0277
    need::<Tup2<Array<NotClone>, Str>>(); //~ BADd E0277
}'''))
    return cs


def c21():
    cs = []

    def add(n, body):
        cs.append((n, PRE + body))
    for kind in ("Seq<Str>", "IndexableSeq<Str>"):
        k = kind.split("<")[0].lower()
        add("seq-iter-push-" + k, '''
fn f(s: &mut %s) {
    let it = s.iter();
    s.push(Str::copy("x")); //~ BADpush E0502
    s.take_elems(); //~ BADtake E0502
    s.iter_mut(); //~ BADmut E0502
    let s2 = std::mem::replace(s, Seq::new()); //~ BADreplace E0502
    let t = s.iter();
    drop((it, t));
}''' % kind)
        add("seq-item-" + k, '''
fn f(s: &mut %s) {
    let x: &Str = s.iter().next().unwrap();
    s.push(Str::copy("x")); //~ BADpush E0502
    drop(s.take_elems()); //~ BADtake E0502
    s.extend(vec![Str::copy("x")]); //~ BADextend E0502
    let n = s.len();
    println!("{}", &x[..]);
}''' % kind)
        add("seq-itermut-" + k, '''
fn f(s: &mut %s) {
    let mut it = s.iter_mut();
    let x = it.next().unwrap();
    let y = it.next().unwrap();
    let z = s.iter(); //~ BADiter E0502
    let z = s.iter_mut(); //~ BADmut E0499
    s.push(Str::copy("x")); //~ BADpush E0499
    let z = s.len(); //~ BADlen E0502
    drop((x, y));
}''' % kind)
        add("seq-take-" + k, '''
fn f(s: &mut %s) {
    let mut it = s.take_elems();
    let x = it.next().unwrap();
    let y = it.next().unwrap();
    s.push(Str::copy("x")); //~ BADpush E0499
    let z = s.iter(); //~ BADiter E0502
    let z = s.take_elems(); //~ BADtake E0499
    println!("{}", &x[..]);
    drop(it);
    s.push(Str::copy("x")); //~ BADpush2 E0499
    drop(y);
    drop(x);
    s.push(Str::copy("x"));
}''' % kind)
        add("seq-dead-" + k, '''
fn f() {
    let mut s: %s = Seq::new();
    s.push(Str::copy("a"));
    let i = s.iter();
    drop(s); //~ BADdrop E0505
    let t = s; //~ BADmove E0505
    drop(i);
}
fn ret_iter<'a>(s: &'a %s) -> varlen::seq::Iter<'a, Str> { s.iter() }
fn ret_iter2(s: %s) -> varlen::seq::Iter<'static, Str> { s.iter() } //~ BADret E0515
fn ret_item<'a>(s: &'a %s) -> &'a Str { s.iter().next().unwrap() }
fn ret_item2<'a>(s: &%s) -> &'static Str { s.iter().next().unwrap() } //~ BADstatic
fn ret_mut<'a>(s: &'a mut %s) -> varlen::seq::IterMut<'a, Str> { s.iter_mut() }
fn ret_mut2<'a>(s: &mut %s) -> varlen::seq::IterMut<'static, Str> { s.iter_mut() } //~ BADmutstatic
fn ret_take<'a>(s: &'a mut %s) -> varlen::seq::OwnedElems<'a, Str> { s.take_elems() }
fn ret_take2<'a>(s: &mut %s) -> varlen::seq::OwnedElems<'static, Str> { s.take_elems() } //~ BADtakestatic
fn ret_own2<'a>(s: &mut %s) -> Owned<'static, Str> { s.take_elems().next().unwrap() } //~ BADownstatic
''' % ((kind,) * 10))
        add("seq-unchecked-" + k, '''
fn a<'a>(s: &'a mut %s) -> Pin<&'a mut Str> { unsafe { s.from_offset_unchecked_mut(0) } }
fn b<'a>(s: &'a %s) -> &'a Str { unsafe { s.from_offset_unchecked(0) } }
fn c<'a>(s: &mut %s) -> Pin<&'static mut Str> { unsafe { s.from_offset_unchecked_mut(0) } } //~ BADm
fn d<'a>(s: &%s) -> &'static Str { unsafe { s.from_offset_unchecked(0) } } //~ BADs
fn e(s: &%s) { unsafe { s.from_offset_unchecked_mut(0); } } //~ BADe E0596
''' % ((kind,) * 5))
    add("iter-limited", '''
fn a<'a>(s: &'a Seq<Str>) -> varlen::seq::Iter<'a, Str> { s.iter().limited_to(2) }
fn b<'a>(s: &Seq<Str>) -> varlen::seq::Iter<'static, Str> { s.iter().limited_to(2) } //~ BADb
fn c<'a>(s: &'a mut Seq<Str>) -> varlen::seq::IterMut<'a, Str> { s.iter_mut().limited_to(2) }
fn d(s: &mut Seq<Str>) {
    let mut it = s.iter_mut();
    let t = it.limited_to(2);
    let u = it.next(); //~ BADd E0382
}''')
    add("itermut-not-clone", '''
fn need<T: Clone>() {}
fn f() {
    need::<u8>();
    need::<varlen::seq::IterMut<'static, Str>>(); //~ BADa E0277
    need::<varlen::seq::OwnedElems<'static, Str>>(); //~ BADb E0277
    need::<Owned<'static, Str>>(); //~ BADc E0277
    need::<Seq<GX>>(); //~ BADd E0277
    need::<tup2::Muts<'static, Str, Str>>(); //~ BADe E0277
    need::<ga::Muts<'static>>(); //~ BADf E0277
}''')
    add("idx-fromoffset", '''
fn f(s: &mut IndexableSeq<Str>) {
    let x = s.from_offset(0);
    let y = s.from_offset(0);
    s.push(Str::copy("x")); //~ BADpush E0502
    let z = s.from_offset_mut(0); //~ BADmut E0502
    drop(s.take_elems()); //~ BADtake E0502
    println!("{} {}", &x[..], &y[..]);
}
fn a<'a>(s: &'a IndexableSeq<Str>) -> &'a Str { s.from_offset(0) }
fn b<'a>(s: &IndexableSeq<Str>) -> &'static Str { s.from_offset(0) } //~ BADs
fn c<'a>(s: &'a mut IndexableSeq<Str>) -> Pin<&'a mut Str> { s.from_offset_mut(0) }
fn d<'a>(s: &mut IndexableSeq<Str>) -> Pin<&'static mut Str> { s.from_offset_mut(0) } //~ BADm
''')
    add("idx-two-muts", '''
fn f(s: &mut IndexableSeq<Str>) {
    let x = s.from_offset_mut(0);
    let y = s.from_offset_mut(0); //~ BADm E0499
    let y = s.iter(); //~ BADi E0502
    drop(x);
}
fn g(s: &IndexableSeq<Str>) { let x = s.from_offset(0); }
fn h(s: &IndexableSeq<Str>) { let x = s.from_offset_mut(0); } //~ BADshared E0596
''')
    add("idx-only-checked", '''
fn f(s: &mut IndexableSeq<Str>, t: &mut Seq<Str>) {
    s.from_offset(0); s.from_offset_mut(0); s.is_offset_valid(0);
    t.from_offset(0); //~ BADa E0599
    t.from_offset_mut(0); //~ BADb E0599
    t.is_offset_valid(0); //~ BADc E0599
}''')
    add("vbox-borrow", '''
fn f(mut b: VBox<Str>) {
    let r: &Str = &*b;
    let m = b.as_mut(); //~ BADmut E0502
    drop(b); //~ BADdrop E0505
    println!("{}", &r[..]);
}
fn g(mut b: VBox<Str>) {
    let m = b.as_mut();
    let r: &Str = &*b; //~ BADr E0502
    let m2 = b.as_mut(); //~ BADm2 E0499
    drop(m);
}
fn a<'a>(b: &'a mut VBox<Str>) -> Pin<&'a mut Str> { b.as_mut() }
fn c<'a>(b: &mut VBox<Str>) -> Pin<&'static mut Str> { b.as_mut() } //~ BADs
fn d<'a>(b: &VBox<Str>) -> &'static Str { &**b } //~ BADt
''')
    add("vbox-moved", '''
fn f(b: VBox<Str>, s: &mut Seq<Str>) {
    s.push(b);
    let r = &*b; //~ BADuse E0382
    s.push(b); //~ BADagain E0382
}
fn g(b: VBox<Str>) {
    let c = VBox::<Str>::new(b);
    drop(b); //~ BADdrop E0382
}''')
    add("owned-borrow", '''
fn f(bump: &bumpalo::Bump) {
    let mut o: Owned<Str> = Owned::new_in(Str::copy("a"), bump);
    let r = &*o;
    let m = o.as_mut(); //~ BADmut E0502
    drop(o); //~ BADdrop E0505
    println!("{}", &r[..]);
}
fn a<'a>(o: &'a mut Owned<'static, Str>) -> Pin<&'a mut Str> { o.as_mut() }
fn b<'a>(o: &mut Owned<'static, Str>) -> Pin<&'static mut Str> { o.as_mut() } //~ BADs
fn c<'a>(o: &Owned<'static, Str>) -> &'static Str { &**o } //~ BADt
fn d<'a>(o: Owned<'a, Str>) -> Pin<&'a mut Str> { o.leak() }
fn e<'a>(o: Owned<'a, Str>) -> Pin<&'static mut Str> { o.leak() } //~ BADleak
''')
    add("owned-arena", '''
fn f() {
    let mut bump = bumpalo::Bump::new();
    let o: Owned<Str> = Owned::new_in(Str::copy("a"), &bump);
    bump.reset(); //~ BADreset E0502
    drop(bump); //~ BADdrop E0505
    println!("{}", &o[..]);
}
fn a<'a>(b: &'a bumpalo::Bump) -> Owned<'a, Str> { Owned::new_in(Str::copy("a"), b) }
fn c<'a>(b: &bumpalo::Bump) -> Owned<'static, Str> { Owned::new_in(Str::copy("a"), b) } //~ BADstatic
fn d() -> Owned<'static, Str> { let b = bumpalo::Bump::new(); Owned::new_in(Str::copy("a"), &b) } //~ BADlocal E0515
''')
    add("owned-variance", '''
fn shorten<'s: 'a, 'a>(o: Owned<'s, Str>) -> Owned<'a, Str> { o }
fn lengthen<'s: 'a, 'a>(o: Owned<'a, Str>) -> Owned<'s, Str> { o } //~ BADlen
fn iterlen<'s: 'a, 'a>(o: varlen::seq::Iter<'a, Str>) -> varlen::seq::Iter<'s, Str> { o } //~ BADiter
fn mutlen<'s: 'a, 'a>(o: varlen::seq::IterMut<'a, Str>) -> varlen::seq::IterMut<'s, Str> { o } //~ BADmut
fn takelen<'s: 'a, 'a>(o: varlen::seq::OwnedElems<'a, Str>) -> varlen::seq::OwnedElems<'s, Str> { o } //~ BADtake
fn copylen<'s: 'a, 'a>(o: varlen::VCopier<'a, Str>) -> varlen::VCopier<'s, Str> { o } //~ BADcopier
''')
    add("itermut-invariant", '''
type V<'x> = FixedLen<&'x u8>;
fn it<'s: 'a, 'a>(o: varlen::seq::Iter<'a, V<'s>>) -> varlen::seq::Iter<'a, V<'a>> { o }
fn itm<'s: 'a, 'a>(o: varlen::seq::IterMut<'a, V<'s>>) -> varlen::seq::IterMut<'a, V<'a>> { o } //~ BADitm
fn pinm<'s: 'a, 'a>(o: Pin<&'a mut Tup2<V<'s>, Str>>) -> tup2::Muts<'a, V<'a>, Str> { o.muts() } //~ BADmuts
''')
    add("take-next", '''
fn f(s: &mut Seq<Str>) {
    let mut it = s.take_elems();
    let a = it.next().unwrap();
    drop(it);
    println!("{}", &a[..]);
}
fn g<'a>(s: &'a mut Seq<Str>) -> Vec<Owned<'a, Str>> { s.take_elems().collect() }
fn h<'a>(mut s: Seq<Str>) -> Vec<Owned<'a, Str>> { s.take_elems().collect() } //~ BADlocal E0515
''')
    for n in (2, 3, 4, 5):
        ts = ", ".join(["Str"] * n)
        add("tuple-%d" % n, '''
type T = Tup%(n)d<%(ts)s>;
fn f(mut b: VBox<T>) {
    let r = b.refs();
    let m = b.as_mut().muts(); //~ BADmut E0502
    drop(b); //~ BADdrop E0505
    println!("{}", &r.%(k)d[..]);
}
fn g(mut b: VBox<T>) {
    let m = b.as_mut().muts();
    let r = b.refs(); //~ BADrefs E0502
    let m2 = b.as_mut().muts(); //~ BADtwice E0499
    drop(m);
}
fn a<'a>(t: &'a T) -> tup%(n)d::Refs<'a, %(ts)s> { t.refs() }
fn c<'a>(t: &T) -> tup%(n)d::Refs<'static, %(ts)s> { t.refs() } //~ BADrs
fn d<'a>(t: Pin<&'a mut T>) -> tup%(n)d::Muts<'a, %(ts)s> { t.muts() }
fn e<'a>(t: Pin<&mut T>) -> tup%(n)d::Muts<'static, %(ts)s> { t.muts() } //~ BADms
fn h<'a>(t: Pin<&'a mut T>) { let a = t.muts(); let b = t.muts(); } //~ BADh E0382
''' % dict(n=n, ts=ts, k=n - 1))
    add("generated", '''
fn f(mut b: VBox<GX>) {
    let r = b.refs();
    let m = b.as_mut().muts(); //~ BADmut E0502
    drop(b); //~ BADdrop E0505
    println!("{}", r.arr.len());
}
fn g(mut b: VBox<GX>) {
    let m = b.as_mut().muts();
    let r = b.refs(); //~ BADrefs E0502
    let m2 = b.as_mut().muts(); //~ BADtwice E0499
    let u = b.as_mut().try_set_layout_controllers(gx::LayoutControllers { n: 0 }); //~ BADset E0499
    m.arr[0].push('x');
}
fn a<'a>(t: &'a GX) -> gx::Refs<'a> { t.refs() }
fn c<'a>(t: &GX) -> gx::Refs<'static> { t.refs() } //~ BADrs
fn d<'a>(t: Pin<&'a mut GX>) -> gx::Muts<'a> { t.muts() }
fn e<'a>(t: Pin<&mut GX>) -> gx::Muts<'static> { t.muts() } //~ BADms
fn h<'a>(t: &'a GX) -> &'a [String] { t.refs().arr }
fn i<'a>(t: &GX) -> &'static [String] { t.refs().arr } //~ BADarr
fn j<'a>(t: &'a GX) -> &'a Str { t.refs().s }
fn k<'a>(t: &GX) -> &'static Str { t.refs().s } //~ BADstr
fn l<'a>(t: Pin<&mut GX>) -> &'static mut [String] { t.muts().arr } //~ BADmarr
fn m<'a>(t: Pin<&mut GX>) -> Pin<&'static mut Str> { t.muts().s } //~ BADmstr
fn n<'a>(t: &GX) { t.muts(); } //~ BADshared E0599 E0308
''')
    add("generated-generic", '''
fn a<'a, E>(t: &'a GT<E>) -> &'a [E] { t.refs().arr }
fn c<'a, E>(t: &GT<E>) -> &'a [E] { t.refs().arr } //~ BADrs
fn d<'a, E>(t: Pin<&'a mut GT<E>>) -> &'a mut [E] { t.muts().arr }
fn e<'a, E>(t: Pin<&mut GT<E>>) -> &'a mut [E] { t.muts().arr } //~ BADms
fn p<'a, V: VarLen>(t: Pin<&'a mut GW<V>>) -> Pin<&'a mut V> { t.muts().v }
fn q<'a, V: VarLen>(t: Pin<&mut GW<V>>) -> Pin<&'a mut V> { t.muts().v } //~ BADv
''')
    add("newtype", '''
fn a<'a>(t: &'a NT) -> &'a Tup2<FixedLen<usize>, Str> { t.inner() }
fn b<'a>(t: &NT) -> &'static Tup2<FixedLen<usize>, Str> { t.inner() } //~ BADr
fn c<'a>(t: Pin<&'a mut NT>) -> Pin<&'a mut Tup2<FixedLen<usize>, Str>> { t.inner_mut() }
fn d<'a>(t: Pin<&mut NT>) -> Pin<&'static mut Tup2<FixedLen<usize>, Str>> { t.inner_mut() } //~ BADm
''')
    add("array-slices", '''
fn a<'a>(t: &'a Array<u8>) -> &'a [u8] { &t[..] }
fn b<'a>(t: &Array<u8>) -> &'static [u8] { &t[..] } //~ BADr
fn c<'a>(t: Pin<&'a mut Array<u8>>) -> &'a mut [u8] { t.mut_slice() }
fn d<'a>(t: Pin<&mut Array<u8>>) -> &'static mut [u8] { t.mut_slice() } //~ BADm
fn e(t: Pin<&mut Array<u8>>) { let x = t.mut_slice(); let y = t.mut_slice(); } //~ BADtwo E0382
fn f(t: &Array<u8>) { t.mut_slice(); } //~ BADshared E0308 E0599
fn g<'a>(t: Pin<&'a mut Str>) -> &'a mut str { t.mut_slice() }
fn h<'a>(t: Pin<&mut Str>) -> &'static mut str { t.mut_slice() } //~ BADsm
fn i<'a>(t: &'a Str) -> &'a str { t }
fn j<'a>(t: &Str) -> &'static str { t } //~ BADsr
''')
    add("init-borrows", '''
fn f(bx: &mut Seq<Str>, s: String, v: Vec<u8>, w: Vec<String>) {
    let i = Str::copy(&s);
    drop(s); //~ BADstr E0505
    bx.push(i);
    let i = Array::copy(&v);
    drop(v); //~ BADarr E0505
    drop(VBox::<Array<u8>>::new(i));
    let i = Array::clone_from_slice(&w);
    drop(w); //~ BADclone E0505
    drop(VBox::<Array<String>>::new(i));
}
fn g(s: String, v: Vec<u8>, w: Vec<String>) {
    let i = Str::<u8>::try_copy(&s).unwrap();
    drop(s); //~ BADstr2 E0505
    drop(VBox::<Str<u8>>::new(i));
    let i = Array::<u8, u8>::try_copy(&v).unwrap();
    drop(v); //~ BADarr2 E0505
    drop(VBox::<Array<u8, u8>>::new(i));
    let i = Array::<String, u8>::try_clone_from_slice(&w).unwrap();
    drop(w); //~ BADclone2 E0505
    drop(VBox::<Array<String, u8>>::new(i));
}
fn a<'a>(s: &'a str) -> impl Initializer<Str> + 'a { Str::copy(s) }
fn b<'a>(s: &str) -> impl Initializer<Str> + 'static { Str::copy(s) } //~ BADs
fn c<'a>(s: &'a [u8]) -> SizedInit<CopyFrom<'a, u8>> { Array::copy(s) }
fn d<'a>(s: &[u8]) -> SizedInit<CopyFrom<'static, u8>> { Array::copy(s) } //~ BADc
fn e<'a>(s: &[String]) -> SizedInit<CloneFrom<'static, String>> { Array::clone_from_slice(s) } //~ BADcl
fn h<'a>(s: &[u8]) -> Option<SizedInit<CopyFrom<'static, u8>, u8>> { Array::try_copy(s) } //~ BADtc
fn i<'a>(s: &[u8]) -> Option<SizedInit<CloneFrom<'static, u8>, u8>> { Array::try_clone_from_slice(s) } //~ BADtcl
''')
    add("clone-borrows", '''
fn f(mut s: VBox<Str>, mut a: VBox<Array<String>>, mut t: VBox<Tup2<Str, Str>>, mut x: VBox<FixedLen<String>>) {
    let c = s.vclone();
    drop(s); //~ BADs E0505
    drop(VBox::<Str>::new(c));
    let c = a.vclone();
    let m = a.as_mut(); //~ BADa E0502
    drop(a); //~ BADa2 E0505
    drop(VBox::<Array<String>>::new(c));
    let c = t.vclone();
    drop(t); //~ BADt E0505
    drop(VBox::<Tup2<Str, Str>>::new(c));
    let c = x.vclone();
    drop(x); //~ BADx E0505
    drop(VBox::<FixedLen<String>>::new(c));
}
fn g(mut s: VBox<Str>) {
    let c = s.vcopy();
    let m = s.as_mut(); //~ BADm E0502
    drop(s); //~ BADd E0505
    drop(VBox::<Str>::new(c));
}
fn h<'a>(s: &'a Str) -> varlen::VCopier<'a, Str> { s.vcopy() }
fn i<'a>(s: &Str) -> varlen::VCopier<'static, Str> { s.vcopy() } //~ BADvs
fn j<'a>(s: &Str) -> <Str as VClone<'static>>::Cloner { s.vclone() } //~ BADcs
''')
    add("seq-elem-outlive", '''
fn ok<'x>(s: &mut Seq<FixedLen<&'x u8>>, r: &'x u8) { s.push(FixedLen(r)); }
fn f() {
    let y = 4u8;
    let mut s: Seq<FixedLen<&u8>> = Seq::new();
    {
        let x = 3u8;
        s.push(FixedLen(&y)); //~ GOOD
        s.push(FixedLen(&x)); //~ BAD E0597
    }
    println!("{}", s.len());
}''')
    add("dropck", '''
struct D<'a>(&'a u8);
impl<'a> Drop for D<'a> { fn drop(&mut self) { println!("{}", self.0); } }
fn f() {
    let x = 3u8; //~ GOOD
    let mut s: Seq<FixedLen<D>> = Seq::new();
    let x = 3u8; //~ BAD E0597
    s.push(FixedLen(D(&x)));
}
fn g() {
    let x = 3u8; //~ GOOD
    let mut s: VBox<FixedLen<D>>;
    let x = 3u8; //~ BADbox E0597
    s = VBox::new(FixedLen(D(&x)));
}
''')
    cs[-1] = (cs[-1][0] + "-seq", cs[-1][1].split("fn g()")[0])
    add("dropck-box", '''
struct D<'a>(&'a u8);
impl<'a> Drop for D<'a> { fn drop(&mut self) { println!("{}", self.0); } }
fn g() {
    let x = 3u8; //~ GOOD
    let mut s: VBox<FixedLen<D>>;
    let x = 3u8; //~ BAD E0597
    s = VBox::new(FixedLen(D(&x)));
}
''')
    add("seq-deref-clone", '''
fn f(s: Seq<Str>) {
    let t = s.iter();
    let u = s.clone(); //~ BADclone E0599
    drop(t);
}''')
    add("macro-support-lifetimes", '''
use varlen::macro_support as m;
fn a<'a>(x: &'a GA) -> &'a [u8] { unsafe { m::ref_array(x, 0, 0) } }
fn b<'a>(x: &GA) -> &'static [u8] { unsafe { m::ref_array(x, 0, 0) } } //~ BADa
fn c<'a>(x: &'a GA) -> &'a Str { unsafe { m::ref_field(x, 0) } }
fn d<'a>(x: &GA) -> &'static Str { unsafe { m::ref_field(x, 0) } } //~ BADf
''')
    return cs


def c22():
    cs = []

    def add(n, body):
        cs.append((n, PRE + body))

    def uns(n, pre, expr):
        add("unsafe-" + n, pre + '''
    let _r = unsafe { %s }; //~ GOOD
    let _r = %s; //~ BAD E0133
}''' % (expr, expr))
    uns("initialize", "fn f(i: SizedInit<CopyFrom<u8>>, d: NonNull<Array<u8>>) {\n let l = i.calculate_layout_cautious().unwrap();", "i.initialize(d, l)")
    uns("initialize-generic", "fn f<T: VarLen, I: Initializer<T>>(i: I, d: NonNull<T>) {\n let l = i.calculate_layout_cautious().unwrap();", "i.initialize(d, l)")
    uns("vdrop", "fn f<T: VarLen>(p: Pin<&mut T>) {\n let l = p.calculate_layout();", "p.vdrop(l)")
    uns("vdrop-str", "fn f(p: Pin<&mut Str>) {\n let l = p.calculate_layout();", "p.vdrop(l)")
    uns("vdrop-gen", "fn f(p: Pin<&mut GX>) {\n let l = p.calculate_layout();", "p.vdrop(l)")
    uns("vdrop-nt", "fn f(p: Pin<&mut NT>) {\n let l = p.calculate_layout();", "p.vdrop(l)")
    uns("vbox-from-raw", "fn f(p: *mut Str) {", "VBox::from_raw(p)")
    uns("vbox-into-raw", "fn f(p: VBox<Str>) {", "p.into_raw()")
    uns("owned-from-raw", "fn f(p: NonNull<Str>) {", "Owned::<'static, Str>::from_raw(p)")
    uns("owned-into-raw", "fn f(p: Owned<'static, Str>) {", "p.into_raw()")
    uns("unchecked", "fn f(s: &Seq<Str>) {", "s.from_offset_unchecked(0)")
    uns("unchecked-mut", "fn f(s: &mut Seq<Str>) {", "s.from_offset_unchecked_mut(0)")
    uns("unchecked-idx", "fn f(s: &IndexableSeq<Str>) {", "s.from_offset_unchecked(0)")
    uns("marker-field", "fn f() {", "varlen::marker::FieldMarker::<Str>::new_unchecked()")
    uns("marker-array", "fn f() {", "varlen::marker::ArrayMarker::<u8>::new_unchecked()")
    uns("ms-drop-array", "fn f(p: *mut u8) {", "varlen::macro_support::drop_array::<String>(p, 0, 1)")
    uns("ms-ref-array", "fn f(p: &GA) {", "varlen::macro_support::ref_array::<GA, u8>(p, 0, 1)")
    uns("ms-mut-array", "fn f(p: *mut GA) {", "varlen::macro_support::mut_array::<GA, u8>(p, 0, 1)")
    uns("ms-init-array", "fn f(p: NonNull<u8>) {", "varlen::macro_support::init_array::<u8>(FillWithDefault, p, 0, 1)")
    uns("ms-init-field", "fn f(p: NonNull<u8>, b: VBox<Str>) {\n let l = b.calculate_layout();", "varlen::macro_support::init_field::<Str, _>(b, p, 0, l)")
    uns("ms-vdrop-field", "fn f(p: *mut u8, b: VBox<Str>) {\n let l = b.calculate_layout();", "varlen::macro_support::vdrop_field::<Str>(p, 0, l)")
    uns("ms-mut-field", "fn f(p: *mut u8) {", "varlen::macro_support::mut_field::<u8, Str>(p, 0)")
    uns("ms-ref-field", "fn f(p: &GA) {", "varlen::macro_support::ref_field::<GA, Str>(p, 0)")
    add("unsafe-trait-varlen", '''
struct S;
struct L;
impl varlen::Layout for L { fn size(&self) -> usize { 0 } }
unsafe impl VarLen for S { //~ GOOD
impl VarLen for S { //~ BAD E0200
    type Layout = L;
    const ALIGN: usize = 1;
    const NEEDS_VDROP: bool = false;
    fn calculate_layout(&self) -> L { L }
    unsafe fn vdrop(self: Pin<&mut Self>, l: L) {}
}''')
    add("unsafe-trait-initializer", '''
struct I;
unsafe impl Initializer<Str> for I { //~ GOOD
impl Initializer<Str> for I { //~ BAD E0200
    fn calculate_layout_cautious(&self) -> Option<<Str as VarLen>::Layout> { None }
    unsafe fn initialize(self, d: NonNull<Str>, l: <Str as VarLen>::Layout) {}
}''')
    add("unsafe-trait-arrayinit", '''
struct I;
unsafe impl ArrayInitializer<u8> for I { //~ GOOD
impl ArrayInitializer<u8> for I { //~ BAD E0200
    fn initialize(self, d: &mut [MaybeUninit<u8>]) {}
}''')
    for m in ("FieldMarker", "ArrayMarker"):
        add("forge-" + m.lower(), '''
use varlen::marker::%(m)s as M;
fn f(x: &M<u8>) {
    let _ = x;
    let a: M<u8> = *x; //~ BADcopy E0507
    let a: M<u8> = x.clone(); //~ BADclone E0308 E0599
    let a: M<u8> = M(std::marker::PhantomPinned, std::marker::PhantomData); //~ BADctor E0423
    let a: M<u8> = M { 0: std::marker::PhantomPinned, 1: std::marker::PhantomData }; //~ BADctor2 E0451
    let a: M<u8> = Default::default(); //~ BADdefault E0277
    let a: M<u8> = M::new(); //~ BADnew E0599
    let a: M<u8> = ().into(); //~ BADfrom E0277
}
fn need<T: Copy>() {}
fn needc<T: Clone>() {}
fn needd<T: Default>() {}
fn g() {
    need::<u8>();
    need::<M<u8>>(); //~ BADneedcopy E0277
    needc::<M<u8>>(); //~ BADneedclone E0277
    needd::<M<u8>>(); //~ BADneeddefault E0277
}''' % dict(m=m))
    add("forge-types", '''
fn need<T: Copy>() {}
fn needc<T: Clone>() {}
fn needd<T: Default>() {}
fn g() {
    needc::<VBox<Str>>(); needc::<u8>();
''' + "".join('''
    need::<%s>(); //~ BADcopy%d E0277
    needc::<%s>(); //~ BADclone%d E0277
    needd::<%s>(); //~ BADdef%d E0277
''' % (t, i, t, i, t, i) for i, t in enumerate(["Str", "Array<u8>", "Tup2<Str, Str>", "Tup5<Str, Str, Str, Str, Str>", "GA", "GX", "NT", "GT<u8>"])) + '''
}''')
    add("forge-moveout", '''
fn f(b: VBox<Array<u8>>, c: VBox<Tup2<Str, Str>>, d: VBox<GA>, mut e: Owned<'static, Str>, g: &GX) {
    let _ = &*b;
    let x: Array<u8> = *b; //~ BADa E0507
    let x = *c; //~ BADb E0507
    let x = c.0; //~ BADc E0507
    let x = d.arr; //~ BADd E0507
    let x: Str = *e; //~ BADe E0507
    let x = g.s; //~ BADf E0507
    let GX { n, f, s, arr, t } = *g; //~ BADg E0507
}''')
    add("forge-struct-lit", '''
fn f(n: usize, b: VBox<GA>) {
    let i = ga::Init { n, f: 1, arr: FillWithDefault };
    let g = GA { n, f: 1, arr: b.arr }; //~ BADmove E0507
    let g = GA { n, f: 1, arr: loop {} }; //~ GOOD
    let g = GA { n, f: 1, ..*b }; //~ BADfru E0507 E0509
    let g = GA { n, f: 1, arr: [0u32; 3] }; //~ BADarr E0308
    let g = GA { n, f: 1, arr: FillWithDefault }; //~ BADinit E0308
    let g = Array::<u8> { len: 1, _array: loop {} }; //~ BADprivate E0451
}''')
    add("sealed-indexing", '''
struct MyIdx;
struct Other;
fn need<I: Indexing>() {}
fn f() {
    need::<varlen::seq::UncheckedIndexing>();
    need::<varlen::seq::CheckedIndexing>();
    need::<()>(); //~ BADunit E0277
    need::<u8>(); //~ BADu8 E0277
}
impl Indexing for MyIdx {} //~ BADimpl E0277
''')
    add("sealed-len-private", '''
#[derive(Clone, Copy)] struct L(u8);
fn f<L: ArrayLen>() {
    let _ = 1;
    use varlen::array::private::Sealed; //~ BADpath E0603
}''')
    add("sealed-len-foreign", '''
#[derive(Clone, Copy)] struct L(u8);
trait Other { fn as_usize(self) -> usize; fn from_usize(x: usize) -> Option<Self> where Self: Sized; }
impl Other for L { fn as_usize(self) -> usize { 0 } fn from_usize(x: usize) -> Option<Self> { None } } //~ GOOD
impl ArrayLen for L { fn as_usize(self) -> usize { 0 } fn from_usize(x: usize) -> Option<Self> { None } } //~ BADa E0277
impl ArrayLen for L { fn as_usize(self) -> usize { 0 } fn from_usize(x: usize) -> Option<Self> { None } } //~ BADb
impl varlen::array::private::Sealed for L {} //~ BADb E0603
''')
    add("sealed-indexing-private", '''
use varlen::seq::Indexing;
fn f<I: Indexing>() {
    let _ = 1;
    use varlen::seq::private::Sealed; //~ BADpath E0603
}''')
    add("seq-private", '''
fn f(s: &mut Seq<Str>) {
    let _ = (s.len(), s.offset(), s.capacity_in_offsets());
    s.len_elements = 4; //~ BADlen
    s.occupied_offsets = 4; //~ BADocc
    s.capacity_offsets = 4; //~ BADcap
    s.ptr = NonNull::dangling(); //~ BADptr
    s.set_len(4); //~ BADset E0599
    s.layout(); //~ BADlayout E0624 E0599
    s.try_push(Str::copy("")); //~ BADtry E0624 E0599
}''')
    add("handles-private", '''
fn f(b: VBox<Str>, o: Owned<'static, Str>, s: &Seq<Str>, l: <Array<u8> as VarLen>::Layout) {
    let _ = (&b, &o);
    let p = b.0; //~ BADbox E0616
    let p = o.0; //~ BADowned E0616
    let v: VBox<Str> = VBox(NonNull::dangling()); //~ BADboxctor E0423
    let v: Owned<Str> = Owned(NonNull::dangling(), std::marker::PhantomData); //~ BADownctor E0423
    let v = varlen::seq::Iter::<Str> { ptr: NonNull::dangling(), len_elements: 4, marker: std::marker::PhantomData }; //~ BADiter E0451
    let v = l.array_len; //~ BADlay E0616
}''')
    add("layout-forge", '''
fn f<T: VarLen>(v: &GV, a: &Array<u8>) {
    let l = v.calculate_layout();
    let s = varlen::Layout::size(&l);
    let m = varlen::array::ArrayLayout { array_offset: 0, array_len: 0, size: 0 }; //~ BADctor E0451
    let m = tup2::Layout::<Str, Str> { size: 0, a_offset: 0, a_layout: loop {}, b_offset: 0, b_layout: loop {} }; //~ BADtup E0451
}''')
    add("layout-mut", '''
mod inner {
    use varlen::prelude::*;
    #[define_varlen] pub struct P { #[varlen] pub s: Str, #[controls_layout] pub n: usize, #[varlen_array] pub a: [u8; *n] }
}
use inner::*;
fn f(v: &P) {
    let mut l = v.calculate_layout();
    l = v.calculate_layout();
    l.size = 0; //~ BADsize E0616
    l.s = 0; //~ BADs E0616
    l.a = 0; //~ BADa E0616
    l.a_len = 0; //~ BADlen E0616
}''')
    add("varlen-impl-safe-generated", '''
fn f(x: Pin<&mut GW<Str>>) {
    let l = x.calculate_layout();
    unsafe { x.vdrop(l) } //~ GOOD
    x.vdrop(l) //~ BAD E0133
}''')
    add("lib-init-generated-unsafe", '''
fn f(d: NonNull<GA>, i: ga::Init<FillWithDefault>) {
    let l = Initializer::<GA>::calculate_layout_cautious(&i).unwrap();
    unsafe { i.initialize(d, l) } //~ GOOD
    i.initialize(d, l) //~ BAD E0133
}''')
    return cs


NOTSEND = ["Rc<u8>", "*mut u8"]


def c23():
    cs = []
    # (constructor with {}, needs a varlen arg?)
    cons = {
        "Array": "Array<{}>", "Array8": "Array<{}, u8>", "FixedLen": "FixedLen<{}>",
        "Tup2a": "Tup2<FixedLen<{}>, Str>", "Tup2b": "Tup2<Str, FixedLen<{}>>",
        "Tup3a": "Tup3<FixedLen<{}>, Str, Str>", "Tup3b": "Tup3<Str, FixedLen<{}>, Str>", "Tup3c": "Tup3<Str, Str, FixedLen<{}>>",
        "Tup4a": "Tup4<FixedLen<{}>, Str, Str, Str>", "Tup4b": "Tup4<Str, FixedLen<{}>, Str, Str>", "Tup4c": "Tup4<Str, Str, FixedLen<{}>, Str>", "Tup4d": "Tup4<Str, Str, Str, FixedLen<{}>>",
        "Tup5a": "Tup5<FixedLen<{}>, Str, Str, Str, Str>", "Tup5e": "Tup5<Str, Str, Str, Str, FixedLen<{}>>", "Tup5c": "Tup5<Str, Str, FixedLen<{}>, Str, Str>",
        "Tup5b": "Tup5<Str, FixedLen<{}>, Str, Str, Str>", "Tup5d": "Tup5<Str, Str, Str, FixedLen<{}>, Str>",
        "GT": "GT<{}>", "GW": "GW<FixedLen<{}>>", "GWA": "GW<Array<{}>>", "NG": "NG<{}>",
        "FieldMarker": "varlen::marker::FieldMarker<{}>", "ArrayMarker": "varlen::marker::ArrayMarker<{}>",
        "CopyFrom": "CopyFrom<'static, {}>", "CloneFrom": "CloneFrom<'static, {}>", "MoveFrom": "MoveFrom<{}, 3>", "FromIter": "FromIterPrefix<{}>", "FillSeq": "FillSequentially<{}>",
        "SizedInit": "SizedInit<CopyFrom<'static, {}>>", "Tup2Init": "tup2::Init<{}, u8>", "NGInit": "NGInit<{}>", "Cloner": "varlen::array::ArrayCloner<'static, {}, usize>",
        "FLCloner": "varlen::FixedLenCloner<'static, {}>", "VCopier": "varlen::VCopier<'static, {}>", "GTInit": "gt::Init<{}>", "GTRefs": "gt::Refs<'static, {}>",
        "GTMuts": "gt::Muts<'static, {}>", "Tup2Refs": "tup2::Refs<'static, {}, u8>", "Tup2Muts": "tup2::Muts<'static, {}, u8>",
        "Seq": "Seq<FixedLen<{}>>", "IndexableSeq": "IndexableSeq<FixedLen<{}>>", "VBox": "VBox<FixedLen<{}>>", "Owned": "Owned<'static, FixedLen<{}>>",
        "Iter": "varlen::seq::Iter<'static, FixedLen<{}>>", "IterMut": "varlen::seq::IterMut<'static, FixedLen<{}>>", "OwnedElems": "varlen::seq::OwnedElems<'static, FixedLen<{}>>",
        "VBoxArr": "VBox<Array<{}>>", "SeqArr": "Seq<Array<{}>>", "OwnedTup": "Owned<'static, Tup2<Str, FixedLen<{}>>>",
    }
    # A cell is Send but not Sync; Rc is neither; a lock guard is Sync but not Send.
    for name, c in cons.items():
        body = '''
type G<'a> = std::sync::MutexGuard<'a, u8>;
fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn f() {
    send::<u8>(); sync::<u8>();
    let _: Option<%s> = None;
    send::<%s>(); //~ BADsendrc E0277
    sync::<%s>(); //~ BADsyncrc E0277
    send::<%s>(); //~ BADsendptr E0277
    sync::<%s>(); //~ BADsyncptr E0277
    sync::<%s>(); //~ BADsynccell E0277
''' % (c.format("u8"), c.format("Rc<u8>"), c.format("Rc<u8>"), c.format("*mut u8"), c.format("*mut u8"), c.format("Cell<u8>"))
        shared = name in ("CopyFrom", "CloneFrom", "SizedInit", "Cloner", "FLCloner", "VCopier", "GTRefs", "Tup2Refs", "Iter")
        if shared:
            body += "    send::<%s>(); //~ BADsendcell E0277\n" % c.format("Cell<u8>")
        else:
            body += "    send::<%s>(); //~ BADsendguard E0277\n" % c.format("G<'static>")
        cs.append(("share-" + name, PRE + body + "}"))
    cs.append(("manual-impl-unsafe", PRE + '''
struct W(*mut u8);
unsafe impl Send for W {} //~ GOOD
impl Send for W {} //~ BAD E0200
'''))
    # What must stay usable across threads: auto traits of plain parts.
    cs.append(("share-positive", PRE + '''
fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn f() {
    send::<u8>();
    send::<Rc<u8>>(); //~ BAD E0277
    send::<Array<u8>>(); sync::<Array<u8>>(); send::<Str>(); sync::<Str>(); send::<Tup2<Str, Str>>(); send::<GX>(); sync::<GX>(); send::<NT>();
}'''))
    return cs


def c24():
    cs = []
    cs.append(("no-partial-move", PRE + '''
fn f(g: GX, t: Tup2<Str, Str>) {
    let r = &g.f;
    let s = g.f; //~ BADgen E0509
    let s = t.0; //~ BADtup E0509
    loop {}
}'''))
    cs.append(("drop-impl-present", PRE + '''
struct Mine;
impl Drop for Mine { fn drop(&mut self) {} }
impl Drop for GA { fn drop(&mut self) {} } //~ BADga E0119
impl Drop for GV { fn drop(&mut self) {} } //~ BADgv E0119
impl Drop for GX { fn drop(&mut self) {} } //~ BADgx E0119
impl<E> Drop for GT<E> { fn drop(&mut self) {} } //~ BADgt E0119
impl<V: VarLen> Drop for GW<V> { fn drop(&mut self) {} } //~ BADgw E0119
'''))
    return cs


def c25():
    cs = []

    def add(n, body):
        cs.append((n, '#![allow(unused)]\nuse varlen::prelude::*;\n' + body))
    add("not-struct", '''
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub a: [u8; *n] }
#[define_varlen] enum E { A, B } //~ BADenum
#[define_varlen] union U { a: u8, b: u16 } //~ BADunion
#[define_varlen] struct T(u8); //~ BADtuple
#[define_varlen] struct V; //~ BADunit
#[define_varlen] fn f() {} //~ BADfn
#[define_varlen] trait X {} //~ BADtrait
#[define_varlen] struct W(#[varlen] Str); //~ BADtuplev
#[define_varlen] mod m {} //~ BADmod
''')
    for i, (a, b) in enumerate([("varlen", "varlen_array"), ("varlen_array", "varlen"), ("varlen", "controls_layout"), ("controls_layout", "varlen"),
                                ("varlen_array", "controls_layout"), ("controls_layout", "varlen_array"), ("varlen", "varlen"), ("varlen_array", "varlen_array"), ("controls_layout", "controls_layout")]):
        ty = "[u8; 4]" if "varlen_array" in (a, b) else "Str" if "varlen" in (a, b) else "usize"
        add("roles-%d" % i, '''
#[define_varlen] pub struct S { pub y: u8, #[%s] pub x: %s } //~ GOOD
#[define_varlen] pub struct S { pub y: u8, #[%s] #[%s] pub x: %s } //~ BAD
''' % ({"[": "varlen_array", "S": "varlen", "u": "controls_layout"}[ty[0]], ty, a, b, ty))
    add("array-type", '''
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; *n] } //~ GOOD
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: u8 } //~ BADu8
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: Vec<u8> } //~ BADvec
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8] } //~ BADslice
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: &'static [u8] } //~ BADref
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: ([u8; 3],) } //~ BADtup
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: Array<u8> } //~ BADarray
''')
    add("varlen-type", '''
#[define_varlen] pub struct S { #[varlen] pub x: Array<u16> } //~ GOOD
#[define_varlen] pub struct S { #[varlen] pub x: u16 } //~ BADu16 E0277
#[define_varlen] pub struct S { #[varlen] pub x: [u16; 3] } //~ BADarr E0277
#[define_varlen] pub struct S { #[varlen] pub x: String } //~ BADstring E0277
#[define_varlen] pub struct S { #[varlen] pub x: VBox<Str> } //~ BADvbox E0277
#[define_varlen] pub struct S { #[varlen] pub x: str } //~ BADstr E0277
''')
    add("len-type", '''
#[define_varlen] pub struct S { #[controls_layout] pub n: u8, #[varlen_array] pub x: [u8; *n as usize] } //~ GOOD
#[define_varlen] pub struct S { #[controls_layout] pub n: u8, #[varlen_array] pub x: [u8; *n] } //~ BADu8 E0308
#[define_varlen] pub struct S { #[controls_layout] pub n: i64, #[varlen_array] pub x: [u8; *n] } //~ BADi64 E0308
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; n] } //~ BADref E0308
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; "3"] } //~ BADstr E0308
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; Some(3)] } //~ BADopt E0308
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; ()] } //~ BADunit E0308
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; 1.5] } //~ BADfloat E0308
''')
    add("len-names", '''
const C: usize = 2;
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, pub o: usize, #[varlen] pub s: Str, #[varlen_array] pub x: [u8; *n * C] } //~ GOOD
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, pub o: usize, #[varlen] pub s: Str, #[varlen_array] pub x: [u8; *o] } //~ BADnormal E0425
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, pub o: usize, #[varlen] pub s: Str, #[varlen_array] pub x: [u8; *s] } //~ BADvarlen E0425
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, pub o: usize, #[varlen] pub s: Str, #[varlen_array] pub x: [u8; *undefined] } //~ BADundef E0425
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, pub o: usize, #[varlen] pub s: Str, #[varlen_array] pub x: [u8; self.n] } //~ BADself E0424
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, pub o: usize, #[varlen] pub s: Str, #[varlen_array] pub x: [u8; x.len()] } //~ BADarr E0425
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, pub o: usize, #[varlen] pub s: Str, #[varlen_array] pub x: [u8; size] } //~ BADsize E0425
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, pub o: usize, #[varlen] pub s: Str, #[varlen_array] pub x: [u8; lengths.0] } //~ BADlengths E0425
''')
    add("len-const", '''
fn run() -> usize { 4 }
static mut G: usize = 1;
const fn ok(x: &usize) -> usize { *x }
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; ok(n)] } //~ GOOD
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; run()] } //~ BADfn E0015
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; { let v = vec![1]; v.len() }] } //~ BADvec
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; n as *const _ as usize] } //~ BADptr
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; std::mem::transmute(*n)] } //~ BADtransmute E0133
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; G] } //~ BADstatic E0133
#[define_varlen] pub struct S { #[controls_layout] pub n: String, #[varlen_array] pub x: [u8; n.chars().count()] } //~ BADnonconst
''')
    add("visibility", '''
mod a { pub mod b { use varlen::prelude::*;
#[define_varlen] pub(crate) struct S { pub(super) n: u8, #[varlen] s: Str } //~ GOOD
#[define_varlen] pub(in crate::a) struct S { n: u8, #[varlen] s: Str } //~ BADty
#[define_varlen] pub struct S { pub(in crate::a) n: u8, #[varlen] s: Str } //~ BADnormal
#[define_varlen] pub struct S { n: u8, #[varlen] pub(in crate::a) s: Str } //~ BADvarlen
#[define_varlen] pub struct S { #[controls_layout] pub(in crate::a) n: u8, #[varlen] s: Str } //~ BADlen
#[define_varlen] pub struct S { n: u8, #[varlen_array] pub(in crate::a) s: [u8; 3] } //~ BADarr
} }
''')
    add("dup-names", '''
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[controls_layout] pub m: usize } //~ GOOD
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[controls_layout] pub n: usize } //~ BAD
''')
    add("unsized", '''
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, pub f: [u8; 2], #[varlen_array] pub x: [u8; *n] } //~ GOOD
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, pub f: [u8], #[varlen_array] pub x: [u8; *n] } //~ BADf E0277
#[define_varlen] pub struct S { #[controls_layout] pub n: str, pub f: [u8; 2], #[varlen_array] pub x: [u8; 2] } //~ BADn E0277
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, pub f: [u8; 2], #[varlen_array] pub x: [str; *n] } //~ BADx E0277
''')
    add("init-fields", '''
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, pub f: u8, #[varlen_array] pub x: [u16; *n], #[varlen] pub s: Str }
fn need<I: Initializer<S>>(i: I) {}
fn f() {
    need(s::Init { n: 1, f: 2, x: FillWithDefault, s: Str::copy("") });
    need(s::Init { n: 1, f: 2, x: Array::copy(&[1u16]), s: Str::copy("") }); //~ BADarr E0277
    need(s::Init { n: 1, f: 2, x: CopyFrom(&[1u8]), s: Str::copy("") }); //~ BADelem E0277
    need(s::Init { n: 1, f: 2, x: FillWithDefault, s: "" }); //~ BADstr E0277
    need(s::Init { n: 1, x: FillWithDefault, s: Str::copy("") }); //~ BADmissing E0063
    need(s::Init { n: 1, f: 2, x: FillWithDefault, s: FillWithDefault }); //~ BADswap E0277
    need(s::Init { n: 1u8, f: 2, x: FillWithDefault, s: Str::copy("") }); //~ BADlen E0308
}''')
    add("newtype-bad", '''
define_varlen_newtype! { #[repr(transparent)] //~ GOOD
define_varlen_newtype! { #[repr(C)] //~ BADrepr
define_varlen_newtype! { //~ BADnone
    pub struct N(Str);
    with init: pub struct NInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}''')
    add("newtype-inner", '''
define_varlen_newtype! { #[repr(transparent)]
    pub struct N(Str); //~ GOOD
    pub struct N(u8); //~ BADu8 E0277
    pub struct N(String); //~ BADstring E0277
    pub struct N(Str, u8); //~ BADtwo
    with init: pub struct NInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}''')
    return cs


VIS = ["", "pub(self)", "pub(super)", "pub(crate)", "pub"]


def c26():
    """Every visibility on struct and field, used from the same module, the parent and the crate root."""
    cs = []
    roles = {
        "normal": ("%s x: u8", "x: 1"),
        "length": ("#[controls_layout] %s x: usize", "x: 1"),
        "varlen": ("#[varlen] %s x: Str", "x: Str::copy(\"a\")"),
        "array": ("#[varlen_array] %s x: [u8; 2]", "x: MoveFrom([1, 2])"),
    }
    order = {"": 0, "pub(self)": 0, "pub(super)": 1, "pub(crate)": 2, "pub": 3}
    for role, (decl, init) in roles.items():
        for v in VIS:
            d = decl % v
            lev = order[v]
            extra_lc = "let _ = s.as_mut().try_set_layout_controllers(s::LayoutControllers { x: 1 });" if role == "length" else ""

            def use(path):
                return ('''
            fn u(b: &mut VBox<%(p)sS>) {
                let _r = &b.refs().x;
                let _m = &b.as_mut().muts().x;
                let _f = &b.x;
            }
            fn i() -> VBox<%(p)sS> { VBox::new(%(p)ss::Init { %(i)s }) }
''' % dict(p=path, i=init))
            t = "#![allow(unused, private_interfaces)]\nuse varlen::prelude::*;\npub mod a { pub mod b {\n use varlen::prelude::*;\n"
            t += "#[define_varlen] pub struct S { %s }\n" % d
            t += use("") + "\n}\n use varlen::prelude::*;\n"
            one = lambda p, tag: "\n".join("    " + l for l in [
                "fn u1(b: &mut VBox<%sS>) { let _r = &b.refs().x; } %s" % (p, tag % "refs"),
                "fn u2(b: &mut VBox<%sS>) { let _r = &b.as_mut().muts().x; } %s" % (p, tag % "muts"),
                "fn u3(b: &mut VBox<%sS>) { let _r = &b.x; } %s" % (p, tag % "field"),
                "fn u4() -> VBox<%sS> { VBox::new(%ss::Init { %s }) } %s" % (p, p, init, tag % "init"),
            ] + (["fn u5(b: &mut VBox<%sS>) { let _ = b.as_mut().try_set_layout_controllers(%ss::LayoutControllers { x: 1 }); } %s" % (p, p, tag % "ctl")] if role == "length" else [])) + "\n"
            t += one("b::", "//~ BADsup%s E0616 E0451" if lev < 1 else "//%s")
            t += "}\n"
            t += one("a::b::", "//~ BADroot%s E0616 E0451" if lev < 2 else "//%s")
            cs.append(("field-%s-%s" % (role, v or "inherited"), t))
    # struct visibility: module, helper types, methods
    for v in VIS:
        lev = order[v]
        tag1 = "//~ BADsup%s E0603" if lev < 1 else "//%s"
        tag2 = "//~ BADroot%s E0603" if lev < 2 else "//%s"

        def items(p, tag):
            # A struct that is not nameable is reached through a public re-typed function only where visible.
            return "\n".join("    " + l for l in [
                "fn t1(x: %sS) { loop {} } %s" % (p, tag % "ty"),
                "fn t2(x: %ss::Init<CopyFrom<u8>>) {} %s" % (p, tag % "init"),
                "fn t3(x: %ss::Refs) {} %s" % (p, tag % "refs"),
                "fn t4(x: %ss::Muts) {} %s" % (p, tag % "muts"),
                "fn t5(x: %ss::LayoutControllers) {} %s" % (p, tag % "ctl"),
                "fn t6(x: %ss::VarLenLayout) {} %s" % (p, tag % "layout"),
            ]) + "\n"
        t = "#![allow(unused, private_interfaces)]\nuse varlen::prelude::*;\npub mod a { pub mod b {\n use varlen::prelude::*;\n"
        t += "#[define_varlen] %s struct S { #[controls_layout] n: usize, #[varlen_array] x: [u8; *n] }\n" % v
        t += items("", "//%s") + "}\n use varlen::prelude::*;\n" + items("b::", tag1) + "}\n" + items("a::b::", tag2)
        cs.append(("struct-" + (v or "inherited"), t))
    # methods: only as visible as the struct. The type leaks through an associated type.
    for v in VIS:
        lev = order[v]
        t = "#![allow(unused, private_interfaces)]\npub trait Leak { type T; }\npub struct K;\npub mod a { pub mod b {\n use varlen::prelude::*;\n"
        t += "#[define_varlen] %s struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; *n] }\n" % v
        t += "impl super::super::Leak for super::super::K { type T = VBox<S>; }\n" if lev >= 3 else "pub mod leak { use super::*; %s fn mk() -> VBox<S> { loop {} } }\n" % ("pub" if lev >= 2 else "pub(in super::super)" if lev == 1 else "pub(super)")
        t += " fn m(mut s: VBox<S>) { s.refs(); s.as_mut().muts(); let _ = s.as_mut().try_set_layout_controllers(s::LayoutControllers { n: 1 }); }\n} }\n"
        cs.append(("methods-" + (v or "inherited"), t + "fn bad() -> a::b::S { loop {} } //~ BAD E0603\n" if lev < 2 else t + "fn good() -> a::b::S { loop {} }\nfn bad() -> a::b::Q { loop {} } //~ BAD E0425\n"))
    # across crates: only pub fields are reachable -> checked by module tests above (same rules); length helper functions stay private
    cs.append(("lengths-private", '''#![allow(unused)]
pub mod a { pub mod b { use varlen::prelude::*;
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; *n] }
pub fn here(n: &usize) -> usize { s::lengths::x_len((n,)) }
} }
fn there(n: &usize) -> usize { a::b::here(n) }
fn out(n: &usize) -> usize { a::b::s::lengths::x_len((n,)) } //~ BAD E0603
'''))
    cs.append(("layout-fields-private", '''#![allow(unused)]
pub mod a { pub mod b { use varlen::prelude::*;
#[define_varlen] pub struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; *n] }
fn here(l: &s::VarLenLayout) -> usize { l.size + l.x + l.x_len }
} }
fn there(l: &a::b::s::VarLenLayout) -> usize { varlen::Layout::size(l) }
fn o1(l: &a::b::s::VarLenLayout) -> usize { l.size } //~ BADsize E0616
fn o2(l: &a::b::s::VarLenLayout) -> usize { l.x } //~ BADoff E0616
fn o3(l: &a::b::s::VarLenLayout) -> usize { l.x_len } //~ BADlen E0616
'''))
    for fv in ("", "pub(super)", "pub(crate)", "pub"):
        lev = order[fv]
        t = '''#![allow(unused, private_interfaces)]
pub mod a { pub mod b { use varlen::prelude::*;
define_varlen_newtype! { #[repr(transparent)]
    pub struct N(%(v)s Str);
    with init: pub struct NInit<_>(%(v)s _);
    with inner_ref: %(v)s fn inner(&self) -> &_;
    with inner_mut: %(v)s fn inner_mut(self: _) -> _;
}
fn h(x: &N, i: u8) { let _ = (&x.0, x.inner(), NInit(i)); }
}
fn s1(x: &b::N) { x.inner(); } %(s)s
fn s2(x: std::pin::Pin<&mut b::N>) { x.inner_mut(); } %(s2)s
fn s3(x: &b::N) { let _ = &x.0; } %(s3)s
fn s4() { let _ = b::NInit(1); } %(s4)s
}
fn r1(x: &a::b::N) { x.inner(); } %(r)s
fn r2(x: std::pin::Pin<&mut a::b::N>) { x.inner_mut(); } %(r2)s
fn r3(x: &a::b::N) { let _ = &x.0; } %(r3)s
fn r4() { let _ = a::b::NInit(1); } %(r4)s
''' % dict(v=fv,
           s="//~ BADs1 E0624" if lev < 1 else "", s2="//~ BADs2 E0624" if lev < 1 else "", s3="//~ BADs3 E0616" if lev < 1 else "", s4="//~ BADs4 E0423 E0603" if lev < 1 else "",
           r="//~ BADr1 E0624" if lev < 2 else "", r2="//~ BADr2 E0624" if lev < 2 else "", r3="//~ BADr3 E0616" if lev < 2 else "", r4="//~ BADr4 E0423 E0603" if lev < 2 else "")
        if lev >= 2:
            t += "fn r5(x: &a::b::N) { x.nope(); } //~ BAD E0599\n"
        cs.append(("newtype-" + (fv or "inherited"), t))
    # ---- seen from another crate: only what is `pub` all the way
    for role, (decl, init) in roles.items():
        for v in VIS:
            lev = order[v]
            defs = ("#![allow(unused, private_interfaces)]\npub mod a { pub mod b {\n use varlen::prelude::*;\n"
                    "#[define_varlen] pub struct S { %s, #[varlen] pub known: Str }\n pub fn mk() -> VBox<S> { loop {} }\n} }\n" % (decl % v))
            rows = [("refs", "fn u1(b: &mut VBox<S>) { let _r = &b.refs().%s; }"), ("muts", "fn u2(b: &mut VBox<S>) { let _r = &b.as_mut().muts().%s; }"),
                    ("field", "fn u3(b: &mut VBox<S>) { let _r = &b.%s; }")]
            t = "#![allow(unused)]\nuse varlen::prelude::*;\nuse defs::a::b::{S, s};\n"
            for n, l in rows:
                t += l % "known" + "\n"
                t += l.replace("fn u", "fn v") % "x" + (" //~ BAD%s E0616\n" % n if lev < 3 else "\n")
            t += "fn u4() -> VBox<S> { VBox::new(s::Init { %s, known: Str::copy(\"a\") }) }" % init + (" //~ BADinit E0451\n" if lev < 3 else "\n")
            t += "fn u5(i: &s::Init<%s>) { let _ = &i.x; }" % {"array": "MoveFrom<u8, 2>, ()", "varlen": "(), ()"}.get(role, "()") + (" //~ BADinitfield E0616\n" if lev < 3 else "\n")
            if role == "length":
                t += "fn u6(b: &mut VBox<S>) { let _ = b.as_mut().try_set_layout_controllers(s::LayoutControllers { x: 1 }); }" + (" //~ BADctl E0451\n" if lev < 3 else "\n")
            t += "fn u7(b: &VBox<S>) { let _r = &b.refs().nope; } //~ BADnope E0609\n"
            cs.append(("crate-field-%s-%s" % (role, v or "inherited"), t, (), defs))
    for v in VIS:
        lev = order[v]
        defs = ("#![allow(unused, private_interfaces)]\npub mod a { pub mod b {\n use varlen::prelude::*;\n"
                "#[define_varlen] %s struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; *n], #[varlen] pub y: Str }\n"
                "#[define_varlen] pub struct Known { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; *n], #[varlen] pub y: Str }\n} }\n" % v)
        t = "#![allow(unused)]\n"
        for k, e in (("Init", "<u8, u8>"), ("Refs", ""), ("Muts", ""), ("LayoutControllers", ""), ("VarLenLayout", "")):
            t += "fn k%s(x: &defs::a::b::known::%s%s) {}\n" % (k, k, e)
            t += "fn t%s(x: &defs::a::b::s::%s%s) {}" % (k, k, e) + (" //~ BAD%s E0603\n" % k if lev < 3 else "\n")
        t += "fn kS(x: &defs::a::b::Known) {}\nfn tS(x: &defs::a::b::S) {}" + (" //~ BADS E0603\n" if lev < 3 else "\n")
        t += "fn len(n: usize) -> usize { defs::a::b::known::lengths::x_len((&n,)) } //~ BADlen E0603\n"
        cs.append(("crate-struct-" + (v or "inherited"), t, (), defs))
    for fv in VIS:
        lev = order[fv]
        defs = """#![allow(unused, private_interfaces)]
pub mod a { pub mod b { use varlen::prelude::*;
define_varlen_newtype! { #[repr(transparent)]
    pub struct N(%(v)s Str);
    with init: pub struct NInit<_>(%(v)s _);
    with inner_ref: %(v)s fn inner(&self) -> &_;
    with inner_mut: %(v)s fn inner_mut(self: _) -> _;
}
} }
""" % dict(v=fv)
        t = "#![allow(unused)]\nuse defs::a::b::{N, NInit};\n"
        for l, n, e in (("fn n1(x: &N) { x.inner(); }", "ref", "E0624"), ("fn n2(x: std::pin::Pin<&mut N>) { x.inner_mut(); }", "mut", "E0624"), ("fn n3(x: &N) { let _ = &x.0; }", "field", "E0616"),
                        ("fn n4() { let _ = NInit(1); }", "init", "E0423")):
            t += l + (" //~ BAD%s %s\n" % (n, e) if lev < 3 else "\n")
        t += "fn n5(x: &N) { x.nope(); } //~ BADnope E0599\n"
        cs.append(("crate-newtype-" + (fv or "inherited"), t, (), defs))
    # ---- helper types of a restricted struct cannot be passed on (its values are unusable where its type is private)
    for v in VIS:
        lev = order[v]
        if lev >= 3:
            continue
        # Re-exporting a helper more widely than the struct.
        t = """#![allow(unused, private_interfaces)]
pub mod a { pub mod b {
 use varlen::prelude::*;
 #[define_varlen] %s struct S { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; *n], #[varlen] pub y: Str }
 #[define_varlen] pub struct Known { #[controls_layout] pub n: usize, #[varlen_array] pub x: [u8; *n], #[varlen] pub y: Str }
 pub use known::{Init as KI, Refs as KR, Muts as KM, LayoutControllers as KC, VarLenLayout as KL};
""" % v
        for k in ("Init", "Refs", "Muts", "LayoutControllers", "VarLenLayout"):
            t += " pub use s::%s as S%s; //~ BAD%s E0364 E0365 E0603\n" % (k, k, k)
        t += " pub use known as kk;\n pub use s as ss; //~ BADmod E0364 E0365\n} }\n"
        cs.append(("reexport-" + (v or "inherited"), t))
    return cs


def c27():
    head = """#![no_std]
#![no_implicit_prelude]
#![allow(warnings)]
%s
pub mod user {
    mod core {} mod alloc {} mod std {} mod varlen {} mod macro_support {} mod marker {} mod array_init {} mod lengths {}
    struct Option; struct Result; struct Vec; struct Box; struct Pin; struct NonNull; struct MaybeUninit; struct PhantomData; struct String;
    struct FieldMarker; struct ArrayMarker; struct VarLenLayout; struct Init; struct Refs; struct Muts; struct LayoutControllers; struct LayoutMismatch; struct Cloner;
    trait VarLen {} trait Initializer {} trait Layout {} trait Sized {} trait Drop {} trait Clone {} trait Unpin {} trait Copy {} trait Iterator {} trait ArrayInitializer {}
    trait VClone {} trait VCopy {} trait Deref {} trait From {} trait Into {}
    fn Some() {} struct None; fn Ok() {} fn Err() {} fn drop() {}
    macro_rules! panic { () => {} } macro_rules! assert { () => {} } macro_rules! unreachable { () => {} } macro_rules! vec { () => {} }
%s
}
"""
    items = {
        "struct-len": "#[::varlen::define_varlen] pub struct S { #[controls_layout] pub n: u8, pub f: u16, #[varlen_array] pub a: [u8; *n as usize] }",
        "struct-nested": "#[::varlen::define_varlen] pub struct S { #[varlen] pub s: ::varlen::Str, pub k: u64, #[varlen] pub t: ::varlen::Array<u16> }",
        "struct-mixed": "#[::varlen::define_varlen] pub struct S { #[varlen_array] pub a: [u32; 3], #[varlen] pub s: ::varlen::Str, #[controls_layout] pub m: usize, #[varlen_array] pub b: [u64; *m] }",
        "struct-private": "#[::varlen::define_varlen] struct S { #[varlen_array] a: [u32; 3], #[varlen] pub(super) s: ::varlen::Str, #[controls_layout] pub(crate) m: usize, #[varlen_array] b: [u64; *m] }",
        "struct-generic": "#[::varlen::define_varlen] pub struct S<T = u16> { #[controls_layout] pub n: usize, #[varlen_array] pub a: [T; *n] }",
        "struct-generic-varlen": "#[::varlen::define_varlen] pub struct S<T: ::varlen::VarLen = ::varlen::Str> { #[varlen] pub a: T }",
        "struct-plain": "#[::varlen::define_varlen] pub struct S { pub x: u8 }",
        "newtype": """::varlen::define_varlen_newtype! {
        #[repr(transparent)]
        pub struct NT(::varlen::tuple::Tup2<::varlen::Str, ::varlen::Str>);
        with init: pub struct NTInit<_>(pub _);
        with inner_ref: pub fn inner(&self) -> &_;
        with inner_mut: pub fn inner_mut(self: _) -> _;
    }""",
        "newtype-generic": """::varlen::define_varlen_newtype! {
        #[repr(transparent)]
        pub struct NG<(E)>(::varlen::Array<E>);
        with signature: impl<(E)> NG<(E)> { _ }
        with init: pub struct NGInit<_>(pub _);
        with inner_ref: pub fn inner(&self) -> &_;
        with inner_mut: pub fn inner_mut(self: _) -> _;
    }""",
        "initializer": """pub struct I<'a, T: ::core::clone::Clone>(::varlen::array::SizedInit<::varlen::array_init::CloneFrom<'a, T>, usize>);
    ::varlen::impl_initializer_as_newtype! { impl<('a), (T: ::core::clone::Clone)> Initializer<::varlen::Array<T>> for I<'a, T> { _ } }""",
        "initializer-plain": """pub struct I(::varlen::FixedLen<u8>);
    ::varlen::impl_initializer_as_newtype! { impl Initializer<::varlen::FixedLen<u8>> for I { _ } }
    pub struct J(::varlen::FixedLen<u16>);
    ::varlen::impl_initializer_as_newtype! { impl varlen::Initializer<::varlen::FixedLen<u16>> for J { _ } }""",
        "literal": "pub fn lit() { let _s: ::varlen::Seq<::varlen::Str> = ::varlen::seq![::varlen::Str::copy(\"a\"), ::varlen::Str::copy(\"b\")]; let _e: ::varlen::Seq<::varlen::Str> = ::varlen::seq![]; }",
    }
    cs = []
    for n, body in items.items():
        cs.append(("hygiene-" + n, head % ("", body)))
        # The attribute also works at crate level and without the alloc crate being named.
        cs.append(("nostd-" + n, "#![no_std]\n#![allow(warnings)]\npub mod q {\n" + body + "\n}"))
    return cs
