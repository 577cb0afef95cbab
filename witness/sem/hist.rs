#![allow(dead_code, unused)]
// Longer histories: sequences that were emptied and are filled again, from any capacity.
include!("ob.rs");
use varlen::seq::OwnedElems;

/// An object of unknown size without anything to destroy.
#[repr(C)]
pub struct Pl { pub id: u32, pub size: u32 }
#[derive(PartialEq, Eq)]
pub struct PlLay(usize);
impl Layout for PlLay { fn size(&self) -> usize { self.0 } }
unsafe impl VarLen for Pl {
    type Layout = PlLay;
    fn calculate_layout(&self) -> PlLay { PlLay(self.size as usize) }
    const ALIGN: usize = 4;
    const NEEDS_VDROP: bool = false;
    unsafe fn vdrop(self: Pin<&mut Self>, layout: PlLay) {
        check("c05 destroyed with its own layout", layout.0 == self.size as usize);
        event(DROP, self.id as usize);
    }
}
pub struct PlInit { pub id: u32, pub size: u32 }
unsafe impl Initializer<Pl> for PlInit {
    fn calculate_layout_cautious(&self) -> Option<PlLay> { Some(PlLay(self.size as usize)) }
    unsafe fn initialize(self, dst: NonNull<Pl>, layout: PlLay) {
        check("c01 initialized with the promised layout", layout.0 == self.size as usize);
        storage(dst.as_ptr() as *const u8, self.size as usize, 4);
        event(MAKE, self.id as usize);
        dst.as_ptr().write(Pl { id: self.id, size: self.size });
    }
}
pub struct Failing(usize);

macro_rules! hist {
    ($ob:ident, $init:ident, $align:expr, $sz:expr, $idx:ty, $room:ident, $refill:ident) => {
        /// No growth while the elements fit, whatever the capacity and the part of it in use.
        pub fn $room() {
            let (a, b, c) = ($sz, $sz, $sz);
            let (nb, nc) = (up(b as usize, $align), up(c as usize, $align));
            let mut s: Seq<$ob, $idx> = Seq::new();
            s.push($init { id: 1, size: a });
            core::mem::forget(s.take_elems());
            let cap = s.capacity_in_offsets();
            assume(nb <= cap);
            let n = allocs();
            s.push($init { id: 2, size: b });
            check("c10 no growth while it fits", s.capacity_in_offsets() == cap && allocs() == n);
            check("c10 the end advances by the element's space", s.len() == 1 && s.offset() == nb);
            s.push($init { id: 3, size: c });
            check("c10 the end advances by the element's space", s.len() == 2 && s.offset() == nb + nc);
            if nb + nc <= cap {
                check("c10 no growth while it fits", s.capacity_in_offsets() == cap && allocs() == n);
            } else {
                let cap2 = s.capacity_in_offsets();
                check("c10 growth at least doubles", cap2 >= cap * 2 && cap2 >= nb + nc && allocs() == n + 1);
            }
            let (x, y) = unsafe { (s.from_offset_unchecked(0), s.from_offset_unchecked(nb)) };
            check("c10 the elements are kept", x.id == 2 && x.size == b && y.id == 3 && y.size == c);
            check("c10 one after the other", off(y, x) == nb * $align);
            stop();
        }
        /// Emptied and filled again.
        pub fn $refill() {
            {
                let mut s: Seq<$ob, $idx> = Seq::new();
                s.push($init { id: 1, size: $sz });
                s.push($init { id: 2, size: $sz });
                s.take_elems();
                check("c10 nothing is left", s.len() == 0 && s.offset() == 0 && s.iter().next().is_none());
                let (a, n) = (s.capacity_in_offsets(), allocs());
                let b = $sz;
                s.push($init { id: 3, size: b });
                if up(b as usize, $align) <= a { check("c10 no growth while it fits", s.capacity_in_offsets() == a && allocs() == n); }
                let mut it = s.iter();
                check("c11 exactly the new element", it.len() == 1 && it.next().unwrap().id == 3 && it.next().is_none());
            }
            let d = <$ob as VarLen>::NEEDS_VDROP as usize;
            check("c05 each is destroyed once", count(DROP, 3) <= 1 && count(DROP, 3) >= d && count(DROP, 1) >= d && count(DROP, 2) >= d && count(DROP, 1) <= 1 && count(DROP, 2) <= 1);
            check("c04 the block is released", live() == 0);
        }
    };
}
hist!(Ob, ObInit, 8, sz(), UncheckedIndexing, h_c10_room8, h_c04_c05_c10_c11_refill8);
hist!(Ob, ObInit, 8, sz(), CheckedIndexing, h_c10_room8i, h_c04_c05_c10_c11_refill8i);
hist!(Ob1, Ob1Init, 1, sz1(), UncheckedIndexing, h_c10_room1, h_c04_c05_c10_c11_refill1);
hist!(Ob1, Ob1Init, 1, sz1(), CheckedIndexing, h_c10_room1i, h_c04_c05_c10_c11_refill1i);
hist!(Pl, PlInit, 4, sz4(), UncheckedIndexing, h_c10_roomp, h_c04_c05_c10_c11_refillp);
hist!(Pl, PlInit, 4, sz4(), CheckedIndexing, h_c10_roompi, h_c04_c05_c10_c11_refillpi);

macro_rules! stale {
    ($ob:ident, $init:ident, $align:expr, $sz:expr, $plain:ident, $failed:ident) => {
        pub fn $plain() {
            let mut s: Seq<$ob, CheckedIndexing> = Seq::new();
            let o: usize = any();
            let (a, b, c) = ($sz, $sz, $sz);
            s.push($init { id: 1, size: a });
            s.push($init { id: 2, size: b });
            drop(s.take_elems());
            aside! { check("c12 nothing is valid after taking", !s.is_offset_valid(o)); }
            s.push($init { id: 3, size: c });
            check("c12 valid exactly at the new element", s.is_offset_valid(o) == (o == 0));
            stop();
        }
        /// A push that panicked leaves nothing behind, not even once the elements before it are gone.
        pub fn $failed() {
            let mut s: Seq<$ob, CheckedIndexing> = Seq::new();
            let o: usize = any();
            let (a, b, c) = ($sz, $sz, $sz);
            s.push($init { id: 1, size: a });
            let p: *mut Seq<$ob, CheckedIndexing> = &mut s;
            let r = catch(|| unsafe { (*p).push(Failing(b as usize)) });
            check("c14 the panic is passed on", r);
            core::mem::forget(s.take_elems());
            aside! { check("c12 nothing is valid after taking", !s.is_offset_valid(o)); }
            s.push($init { id: 2, size: c });
            check("c12 valid exactly at the new element", s.is_offset_valid(o) == (o == 0));
            stop();
            unsafe impl Initializer<$ob> for Failing {
                fn calculate_layout_cautious(&self) -> Option<<$ob as VarLen>::Layout> { $init { id: 0, size: self.0 as _ }.calculate_layout_cautious() }
                unsafe fn initialize(self, dst: NonNull<$ob>, layout: <$ob as VarLen>::Layout) { panic!() }
            }
        }
    };
}
stale!(Pl, PlInit, 4, sz4(), h_c12_stalep, h_c12_c14_stalep_failed);
stale!(Ob1, Ob1Init, 1, sz1(), h_c12_stale1, h_c12_c14_stale1_failed);
stale!(Ob, ObInit, 8, sz(), h_c12_stale8_deep, h_c12_c14_stale8_failed);

/// A literal of many elements.
pub fn h_c05_c28_long_list() {
    {
        let z = sz();
        let i = |id| ObInit { id, size: z };
        let s: Seq<Ob> = varlen::seq![i(0), i(1), i(2), i(3), i(4), i(5), i(6), i(7), i(8), i(9), i(10), i(11)];
        check("c28 as many elements as items", s.len() == 12);
        let mut k = 0;
        for e in s.iter() { check("c28 in the order of the source", e.id == k); k += 1; }
        check("c28 nothing is left out", k == 12);
    }
    check("c05 each is destroyed once", count(DROP, 0) == 1 && count(DROP, 7) == 1 && count(DROP, 11) == 1);
}

/// Values whose clones can be told apart, without a destructor.
pub struct Cnt<const N: usize>(usize, [u64; N]);
impl<const N: usize> Clone for Cnt<N> {
    fn clone(&self) -> Self { event(CLONE, self.0); Cnt(self.0 + BIG, self.1) }
}
macro_rules! cnt {
    ($f:ident, $arr:ident, $n:expr) => {
        pub fn $f() {
            let b = VBox::new(FixedLen(Cnt::<$n>(3, [5; $n])));
            check("c20 nothing is cloned yet", count(CLONE, 3) == 0);
            let c = b.clone();
            check("c20 cloned once", count(CLONE, 3) == 1 && count(CLONE, 3 + BIG) == 0);
            check("c20 the clone is the clone", c.0.0 == 3 + BIG && b.0.0 == 3);
            if $n != 0 { check("c20 every part of it", c.0.1[0] == 5 && c.0.1[$n - 1] == 5); }
        }
        pub fn $arr() {
            let n = small();
            let b: VBox<Array<Cnt<$n>>> = VBox::new(SizedInit(n, FillSequentially(|i: usize| Cnt::<$n>(i, [5; $n]))));
            let c = b.clone();
            let k = any();
            let is = k < n;
            check("c20 each element is cloned once", count(CLONE, k) == (if is { 1 } else { 0 }));
            if is { check("c20 every element is cloned to its position", c[k].0 == k + BIG && b[k].0 == k); }
            let e: VBox<Array<Cnt<$n>>> = VBox::new(Array::clone_from_slice(&b[..]));
            check("c20 each element is cloned once", count(CLONE, k) == (if is { 2 } else { 0 }));
            if is { check("c20 every element is cloned to its position", e[k].0 == k + BIG && b[k].0 == k); }
        }
    };
}
cnt!(h_c20_cnt0, h_c20_cnts0, 0);
cnt!(h_c20_cnt1, h_c20_cnts1, 1);
cnt!(h_c20_cnt40, h_c20_cnts40, 40);
