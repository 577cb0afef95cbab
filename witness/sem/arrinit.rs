#![allow(dead_code, unused)]
include!("kit.rs");
use varlen::prelude::*;
use varlen::array_init::*;
use core::mem::MaybeUninit;

/// Storage for n slots between two sentinel slots.
fn dst<T>(n: usize) -> (*mut usize, &'static mut [MaybeUninit<T>]) {
    let p: *mut usize = buf(n * 8 + 16, 8);
    unsafe {
        *p = 11;
        *p.add(n + 1) = 12;
        (p, core::slice::from_raw_parts_mut(p.add(1) as *mut MaybeUninit<T>, n))
    }
}
fn slot(p: *mut usize, k: usize) -> usize { unsafe { *p.add(k + 1) } }
fn around(p: *mut usize, n: usize) {
    check("c08 neighbours untouched", unsafe { *p == 11 && *p.add(n + 1) == 12 });
}

pub fn h_c08_c09_fill_seq() {
    let n = small();
    let (p, d) = dst::<usize>(n);
    let mut next = 0usize;
    FillSequentially(|i: usize| { check("c09 ascending, one call per slot", i == next); next += 1; i + 1000 }).initialize(d);
    check("c09 called for every slot", next == n);
    let k = below(n);
    check("c09 slot holds the result for its index", slot(p, k) == k + 1000);
    around(p, n);
}
pub fn h_c08_c09_fill_seq_tok() {
    let n = small();
    let (p, d) = dst::<Tok>(n);
    FillSequentially(|i: usize| { event(MAKE, i); Tok(i) }).initialize(d);
    let k = any();
    check("c09 one call per slot", count(MAKE, k) == (if k < n { 1 } else { 0 }));
    check("c08 nothing dropped", count(DROP, k) == 0);
    assume(k < n);
    check("c09 slot holds the result for its index", slot(p, k) == k);
    around(p, n);
}
pub fn h_c08_c14_fill_seq_panics() {
    let n = small();
    let stop = below(n);
    let (p, d) = dst::<Tok>(n);
    let panicked = catch(move || {
        FillSequentially(|i: usize| { if i == stop { panic!() } event(MAKE, i); Tok(i) }).initialize(d);
    });
    check("c14 the panic is passed on", panicked);
    let k = any();
    check("c14 no value is destroyed twice", count(DROP, k) <= count(MAKE, k));
    around(p, n);
}
pub fn h_c08_c09_default() {
    let n = small();
    let (p, d) = dst::<Tok>(n);
    FillWithDefault.initialize(d);
    check("c09 one default per slot", count(MAKE, 0) == n);
    let k = below(n);
    check("c09 slot holds the default value", slot(p, k) == 7);
    check("c08 nothing dropped", count(DROP, 7) == 0);
    around(p, n);
}
pub fn h_c08_c09_iter() {
    let n = small();
    let m = small();
    let (p, d) = dst::<Tok>(n);
    let hint = any();
    let mut src = Src { i: 0, n: m, base: 100, hint };
    let s: *mut Src = &mut src;
    let panicked = catch(move || { FromIterPrefix(unsafe { &mut *s }).initialize(d) });
    check("c08 too short a source panics", panicked == (m < n));
    around(p, n);
    assume(!panicked);
    check("c09 no item beyond the length is drawn", src.i == n);
    check("c09 no draw beyond the length", count(NEXT, BIG) == 0);
    let k = below(n);
    check("c09 slot holds the item of its position", slot(p, k) == 100 + k);
    check("c08 moved, not dropped", count(DROP, 100 + k) == 0);
}
pub fn h_c08_c09_iter_short() {
    let n = small();
    let m = below(n);
    let (p, d) = dst::<Tok>(n);
    let panicked = catch(move || { FromIterPrefix(Src { i: 0, n: m, base: 100, hint: n }).initialize(d) });
    check("c08 too short a source panics", panicked);
    let k = any();
    check("c08 no item destroyed twice", count(DROP, k) <= 1);
    around(p, n);
}
pub fn h_c08_c09_copy() {
    let n = small();
    let m = small();
    let (p, d) = dst::<usize>(n);
    let src: &[usize] = slice_ids(m, 100);
    let panicked = catch(move || CopyFrom(src).initialize(d));
    check("c08 a source of another length panics", panicked == (m != n));
    around(p, n);
    assume(!panicked);
    let k = below(n);
    check("c09 slot holds the element of its position", slot(p, k) == 100 + k);
}
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Pair(u32, u8);
pub fn h_c08_c09_copy_bytes() {
    let n = small();
    let q: *mut MaybeUninit<u8> = buf(n, 1);
    let d = unsafe { core::slice::from_raw_parts_mut(q, n) };
    let src: &[u8] = slice_any(n);
    let s = src.as_ptr();
    CopyFrom(src).initialize(d);
    let k = below(n);
    check("c09 slot holds the element of its position", unsafe { *(q as *const u8).add(k) == *s.add(k) });
}
pub fn h_c08_c09_clone() {
    let n = small();
    let m = small();
    let (p, d) = dst::<Tok>(n);
    let src: &[Tok] = slice_ids(m, 100);
    let panicked = catch(move || CloneFrom(src).initialize(d));
    check("c08 a source of another length panics", panicked == (m != n));
    around(p, n);
    let k = any();
    check("c09 the source is left alone", count(DROP, k) == 0);
    assume(!panicked);
    check("c09 each element cloned once", count(CLONE, 100 + k) == (if k < n { 1 } else { 0 }));
    assume(k < n);
    check("c09 slot holds the clone of its position", slot(p, k) == 100 + k + BIG);
}
pub struct Pan(usize);
static mut STOP: usize = 0;
impl Drop for Pan { fn drop(&mut self) { event(DROP, self.0); } }
impl Clone for Pan {
    fn clone(&self) -> Self { if any_bool() { panic!() } event(CLONE, self.0); Pan(self.0 + BIG) }
}
pub fn h_c08_c14_clone_panics() {
    let n = small();
    let (p, d) = dst::<Pan>(n);
    let src: &[Pan] = slice_ids(n, 100);
    let panicked = catch(move || CloneFrom(src).initialize(d));
    around(p, n);
    let k = any();
    check("c14 the source is left alone", k >= BIG || count(DROP, k) == 0);
    check("c14 no clone is destroyed twice", k < BIG || count(DROP, k) <= 1);
    assume(!panicked && k < n);
    check("c08 slot holds the clone of its position", slot(p, k) == 100 + k + BIG);
}
macro_rules! movefrom {
    ($f:ident, $n:expr, [$($e:expr),*]) => {
        pub fn $f() {
            let n = small();
            let (p, d) = dst::<Tok>(n);
            let src: [Tok; $n] = [$(Tok($e)),*];
            let panicked = catch(move || MoveFrom(src).initialize(d));
            check("c08 a source of another length panics", panicked == (n != $n));
            around(p, n);
            let k = any();
            if panicked {
                check("c08 a refused source is destroyed once", count(DROP, k) == (if k >= 100 && k < 100 + $n { 1 } else { 0 }));
            } else {
                check("c08 moved, not dropped", count(DROP, k) == 0);
                check("c08 moved, not cloned", count(CLONE, k) == 0);
                assume(k < n);
                check("c09 slot holds the element of its position", slot(p, k) == 100 + k);
            }
        }
    };
}
movefrom!(h_c08_c09_move0, 0, []);
movefrom!(h_c08_c09_move1, 1, [100]);
movefrom!(h_c08_c09_move3, 3, [100, 101, 102]);
movefrom!(h_c08_c09_move7, 7, [100, 101, 102, 103, 104, 105, 106]);

pub fn h_c08_c09_new_array() {
    let mut next = 0usize;
    {
        let a: [Tok; 3] = new_array(FillSequentially(|i: usize| { check("c09 ascending, one call per slot", i == next); next += 1; Tok(i + 100) }));
        check("c09 slot holds the result for its index", a[0].0 == 100 && a[1].0 == 101 && a[2].0 == 102);
        check("c08 nothing dropped", count(DROP, 100) + count(DROP, 101) + count(DROP, 102) == 0);
    }
    check("c08 destroyed once", count(DROP, 100) == 1 && count(DROP, 101) == 1 && count(DROP, 102) == 1);
    check("c09 called for every slot", next == 3);
}
pub fn h_c08_c09_new_array_mixed() {
    let a: [u16; 4] = new_array(FillWithDefault);
    check("c09 slot holds the default value", a[0] == 0 && a[1] == 0 && a[2] == 0 && a[3] == 0);
    let z: [Tok; 0] = new_array(FillWithDefault);
    check("c09 nothing made", count(MAKE, 0) == 0);
    let m = small();
    let src: &[usize] = slice_ids(m, 100);
    let panicked = catch(move || {
        let b: [usize; 2] = new_array(CopyFrom(src));
        check("c09 slot holds the element of its position", b[0] == 100 && b[1] == 101);
    });
    check("c08 a source of another length panics", panicked == (m != 2));
    let c: [Tok; 2] = new_array(MoveFrom([Tok(1), Tok(2)]));
    check("c08 moved, not dropped", count(DROP, 1) == 0 && count(DROP, 2) == 0);
    check("c09 slot holds the element of its position", c[0].0 == 1 && c[1].0 == 2);
    core::mem::forget(c);
    let e = catch(|| { let d: [Tok; 2] = new_array(FromIterPrefix(Src { i: 0, n: 1, base: 300, hint: 0 })); });
    check("c08 too short a source panics", e);
    check("c08 no unwritten slot is destroyed", count(DROP, 300) <= 1);
}
pub fn h_c08_c14_new_array_panics() {
    let stop = any();
    assume(stop < 3);
    let p = catch(|| {
        let a: [Tok; 3] = new_array(FillSequentially(|i: usize| { if i == stop { panic!() } Tok(i + 100) }));
    });
    check("c14 the panic is passed on", p);
    let k = any();
    check("c14 nothing destroyed that was not made", count(DROP, k) == 0 || count(DROP, k) == 1 && k >= 100 && k < 100 + stop);
}
pub struct Zero;
impl Drop for Zero { fn drop(&mut self) { event(DROP, 0); } }
pub fn h_c08_c09_zst() {
    let n = small();
    let p: *mut MaybeUninit<()> = buf(0, 1);
    let d = unsafe { core::slice::from_raw_parts_mut(p, n) };
    let mut next = 0usize;
    FillSequentially(|i: usize| { check("c09 ascending, one call per slot", i == next); next += 1; }).initialize(d);
    check("c09 called for every slot", next == n);
}
/// Its clones are counted, and must be made in the order of the originals.
pub struct Lnk { id: usize, next: *mut usize }
impl Clone for Lnk {
    fn clone(&self) -> Self {
        unsafe {
            check("c09 clones are made in ascending order", *self.next == self.id);
            *self.next += 1;
        }
        Lnk { id: self.id + 1000, next: self.next }
    }
}
pub fn h_c08_c09_c20_clone_order() {
    let n = small();
    let mut next = 0usize;
    let ctr = &mut next as *mut usize;
    let p: *mut MaybeUninit<Lnk> = buf(n * core::mem::size_of::<Lnk>(), 8);
    let d = unsafe { core::slice::from_raw_parts_mut(p, n) };
    FillSequentially(|i: usize| Lnk { id: i, next: ctr }).initialize(d);
    let src = unsafe { core::slice::from_raw_parts(p as *const Lnk, n) };
    let q: *mut MaybeUninit<Lnk> = buf(n * core::mem::size_of::<Lnk>(), 8);
    let e = unsafe { core::slice::from_raw_parts_mut(q, n) };
    CloneFrom(src).initialize(e);
    check("c09 one clone per slot", unsafe { *ctr } == n);
    let k = below(n);
    check("c09 slot holds the clone of its position", unsafe { (*q.add(k)).assume_init_ref() }.id == k + 1000);
}
