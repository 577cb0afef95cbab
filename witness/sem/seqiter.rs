#![allow(dead_code, unused)]
include!("ob.rs");

/// Three elements of unknown sizes; `f` gets the sequence and the places they were pushed to.
macro_rules! iter3 {
    ($m:ident, $ob:ident, $init:ident, $idx:ty, $align:expr, $sz:expr, $shared:ident, $excl:ident, $take:ident, $limit:ident, $partial:ident) => {
        fn $m(s: &mut Seq<$ob, $idx>, z: &mut [usize; 3]) {
            let (a, b, c) = ($sz, $sz, $sz);
            *z = [a as usize, b as usize, c as usize];
            s.push($init { id: 1, size: a });
            s.push($init { id: 2, size: b });
            s.push($init { id: 3, size: c });
        }
        pub fn $shared() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let mut z = [0; 3];
            $m(&mut s, &mut z);
            let base = unsafe { s.from_offset_unchecked(0) } as *const $ob;
            let o1 = up(z[0], $align) * $align;
            let o2 = o1 + up(z[1], $align) * $align;
            let mut it = s.iter();
            check("c11 exact counts before the first", it.len() == 3 && it.size_hint() == (3, Some(3)) && s.iter().count() == 3);
            let e = it.next().unwrap();
            check("c11 first element", e.id == 1 && same_addr(e, base));
            check("c11 exact counts after the first", it.len() == 2 && it.size_hint() == (2, Some(2)));
            let e = it.next().unwrap();
            check("c11 second element", e.id == 2 && off(e, base) == o1);
            check("c11 exact counts after the second", it.len() == 1 && it.size_hint() == (1, Some(1)));
            let e = it.next().unwrap();
            check("c11 third element", e.id == 3 && off(e, base) == o2);
            check("c11 exact counts at the end", it.len() == 0 && it.size_hint() == (0, Some(0)));
            check("c11 ends", it.next().is_none() && it.next().is_none());
            check("c11 exact counts after the end", it.len() == 0 && it.count() == 0);
            let mut n = 0;
            for e in s.iter() { n += 1; check("c11 in order", e.id as usize == n); }
            check("c11 each once", n == 3);
            check("c11 nothing destroyed by looking", count(DROP, 1) + count(DROP, 2) + count(DROP, 3) == 0);
            check("c11 the sequence is unchanged", s.len() == 3 && s.offset() == o2 / $align + up(z[2], $align));
        }
        pub fn $excl() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let mut z = [0; 3];
            $m(&mut s, &mut z);
            let base = unsafe { s.from_offset_unchecked(0) } as *const $ob;
            let o1 = up(z[0], $align) * $align;
            let o2 = o1 + up(z[1], $align) * $align;
            check("c11 exact counts before the first", s.iter_mut().count() == 3);
            {
                let mut it = s.iter_mut();
                check("c11 exact counts before the first", it.len() == 3 && it.size_hint() == (3, Some(3)));
                let e = it.next().unwrap();
                check("c11 first element", e.id == 1 && same_addr(&*e, base));
                check("c11 exact counts after the first", it.len() == 2 && it.size_hint() == (2, Some(2)));
                let e2 = it.next().unwrap();
                check("c11 second element", e2.id == 2 && off(&*e2, base) == o1);
                check("c11 exact counts after the second", it.len() == 1 && it.size_hint() == (1, Some(1)));
                let mut e = it.next().unwrap();
                check("c11 third element", e.id == 3 && off(&*e, base) == o2);
                check("c11 exact counts at the end", it.len() == 0 && it.size_hint() == (0, Some(0)));
                check("c11 ends", it.next().is_none() && it.next().is_none());
                unsafe { e.as_mut().get_unchecked_mut().id = 9 };
            }
            let mut n = 0;
            for e in s.iter_mut() { n += 1; check("c11 in order", if n == 3 { e.id == 9 } else { e.id as usize == n }); }
            check("c11 each once", n == 3);
            check("c11 nothing destroyed by looking", count(DROP, 1) + count(DROP, 2) + count(DROP, 3) == 0);
        }
        pub fn $take() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let mut z = [0; 3];
            $m(&mut s, &mut z);
            let base = unsafe { s.from_offset_unchecked(0) } as *const $ob;
            let o1 = up(z[0], $align) * $align;
            let o2 = o1 + up(z[1], $align) * $align;
            {
                let mut it = s.take_elems();
                check("c11 exact counts before the first", it.len() == 3 && it.size_hint() == (3, Some(3)));
                let e = it.next().unwrap();
                check("c11 first element", e.id == 1 && same_addr(&*e, base));
                check("c11 exact counts after the first", it.len() == 2 && it.size_hint() == (2, Some(2)));
                let e2 = it.next().unwrap();
                check("c11 second element", e2.id == 2 && off(&*e2, base) == o1);
                check("c11 exact counts after the second", it.len() == 1 && it.size_hint() == (1, Some(1)));
                drop(e);
                check("c05 taken elements are destroyed by their owner", count(DROP, 1) == 1 && count(DROP, 2) == 0 && count(DROP, 3) == 0);
                let e3 = it.next().unwrap();
                check("c11 third element", e3.id == 3 && off(&*e3, base) == o2);
                check("c11 exact counts at the end", it.len() == 0 && it.size_hint() == (0, Some(0)));
                check("c11 ends", it.next().is_none() && it.next().is_none());
                drop(it);
                check("c05 taken elements outlive the iterator", count(DROP, 2) == 0 && count(DROP, 3) == 0);
                check("c04 the sequence keeps its storage", live() == 1);
            }
            check("c05 taken elements are destroyed by their owner", count(DROP, 1) == 1 && count(DROP, 2) == 1 && count(DROP, 3) == 1);
            check("c11 the sequence is empty after taking", s.len() == 0 && s.offset() == 0 && s.iter().next().is_none());
            drop(s);
            check("c05 taken elements are not destroyed again", count(DROP, 1) == 1 && count(DROP, 2) == 1 && count(DROP, 3) == 1);
            check("c04 the block is released", live() == 0);
        }
        pub fn $partial() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let mut z = [0; 3];
            $m(&mut s, &mut z);
            {
                let mut it = s.take_elems();
                let e = it.next().unwrap();
                core::mem::forget(e);
                drop(it);
                check("c05 what was not taken is destroyed with the iterator", count(DROP, 2) == 1 && count(DROP, 3) == 1);
            }
            check("c05 forgotten elements are not destroyed", count(DROP, 1) == 0);
            let n = s.take_elems().count();
            check("c11 the sequence is empty after taking", n == 0 && s.len() == 0);
            s.push($init { id: 4, size: $sz });
            check("c11 taken elements are not visited again", s.len() == 1 && s.iter().next().unwrap().id == 4);
            drop(s);
            check("c05 each element destroyed once", count(DROP, 1) == 0 && count(DROP, 2) == 1 && count(DROP, 3) == 1 && count(DROP, 4) == 1);
            check("c04 the block is released", live() == 0);
        }
        pub fn $limit() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let mut z = [0; 3];
            $m(&mut s, &mut z);
            let n = any();
            let want = if n < 3 { n } else { 3 };
            let full = s.iter();
            let it = full.limited_to(n);
            check("c11 limited to n", it.len() == want && it.size_hint() == (want, Some(want)) && full.len() == 3);
            let mut k = 0;
            for e in it { k += 1; check("c11 in order", e.id as usize == k); }
            check("c11 each once", k == want);
            let mut it = s.iter();
            it.next();
            let rest = if n < 2 { n } else { 2 };
            check("c11 limited to the rest", it.limited_to(n).count() == rest);
            let it = s.iter_mut().limited_to(n);
            check("c11 limited to n", it.len() == want && it.size_hint() == (want, Some(want)));
            let mut k = 0;
            for e in it { k += 1; check("c11 in order", e.id as usize == k); }
            check("c11 each once", k == want);
        }
    };
}
iter3!(fill8, Ob, ObInit, UncheckedIndexing, 8, sz(), h_c11_iter_p8, h_c11_iter_mut_p8, h_c04_c05_c11_take_p8, h_c11_limit_p8, h_c04_c05_c11_partial_p8);
iter3!(fill8c, Ob, ObInit, CheckedIndexing, 8, sz(), h_c11_iter_i8, h_c11_iter_mut_i8, h_c04_c05_c11_take_i8, h_c11_limit_i8, h_c04_c05_c11_partial_i8);
iter3!(fill1, Ob1, Ob1Init, UncheckedIndexing, 1, sz1(), h_c11_iter_p1, h_c11_iter_mut_p1, h_c04_c05_c11_take_p1, h_c11_limit_p1, h_c04_c05_c11_partial_p1);
iter3!(fill4, Ob4, Ob4Init, CheckedIndexing, 4, sz4(), h_c11_iter_i4, h_c11_iter_mut_i4, h_c04_c05_c11_take_i4, h_c11_limit_i4, h_c04_c05_c11_partial_i4);
iter3!(fill64, Ob64, Ob64Init, UncheckedIndexing, 64, sz64(), h_c11_iter_p64, h_c11_iter_mut_p64, h_c04_c05_c11_take_p64, h_c11_limit_p64, h_c04_c05_c11_partial_p64);

iter3!(fillx, Obx, ObxInit, UncheckedIndexing, 32, sz(), h_c11_iter_px, h_c11_iter_mut_px, h_c04_c05_c11_take_px, h_c11_limit_px, h_c04_c05_c11_partial_px);

iter3!(fill_i2, Ob2, Ob2Init, CheckedIndexing, 2, sz2(), h_c11_iter_i2, h_c11_iter_mut_i2, h_c04_c05_c11_take_i2, h_c11_limit_i2_deep, h_c04_c05_c11_partial_i2_deep);
iter3!(fill_p16, Ob16, Ob16Init, UncheckedIndexing, 16, sz(), h_c11_iter_p16, h_c11_iter_mut_p16, h_c04_c05_c11_take_p16, h_c11_limit_p16, h_c04_c05_c11_partial_p16);
iter3!(fill_i16, Ob16, Ob16Init, CheckedIndexing, 16, sz(), h_c11_iter_i16, h_c11_iter_mut_i16, h_c04_c05_c11_take_i16, h_c11_limit_i16_deep, h_c04_c05_c11_partial_i16_deep);
iter3!(fill_i64, Ob64, Ob64Init, CheckedIndexing, 64, sz64(), h_c11_iter_i64, h_c11_iter_mut_i64, h_c04_c05_c11_take_i64, h_c11_limit_i64_deep, h_c04_c05_c11_partial_i64_deep);
iter3!(fill_py, Oby, ObyInit, UncheckedIndexing, 4096, sz4(), h_c11_iter_py, h_c11_iter_mut_py, h_c04_c05_c11_take_py, h_c11_limit_py, h_c04_c05_c11_partial_py);
iter3!(fill_ip, Obp, ObpInit, CheckedIndexing, 1, sz(), h_c11_iter_ip, h_c11_iter_mut_ip, h_c04_c05_c11_take_ip, h_c11_limit_ip, h_c04_c05_c11_partial_ip);
iter3!(fill_i1, Ob1, Ob1Init, CheckedIndexing, 1, sz1(), h_c11_iter_i1, h_c11_iter_mut_i1, h_c04_c05_c11_take_i1, h_c11_limit_i1, h_c04_c05_c11_partial_i1);

// The operations every iterator offers, at every position.
macro_rules! adapters {
    ($m:ident, $ob:ident, $init:ident, $idx:ty, $align:expr, $sz:expr, $nth:ident, $folds:ident, $mnth:ident, $tnth:ident, $tcount:ident, $tlast:ident, $tfold:ident) => {
        pub fn $nth() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let mut z = [0; 3];
            $m(&mut s, &mut z);
            let base = unsafe { s.from_offset_unchecked(0) } as *const $ob;
            let o1 = up(z[0], $align) * $align;
            let n = any();
            assume(n <= 4);
            let mut it = s.iter();
            match it.nth(n) {
                Some(e) => check("c11 the n-th element", n < 3 && e.id as usize == n + 1),
                None => check("c11 the n-th element", n >= 3),
            }
            check("c11 exact counts after skipping", it.len() == (if n < 3 { 2 - n } else { 0 }));
            if n == 0 {
                let e = it.next().unwrap();
                check("c11 the next element", e.id == 2 && off(e, base) == o1);
            }
        }
        pub fn $folds() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let mut z = [0; 3];
            $m(&mut s, &mut z);
            check("c11 the last element", match s.iter().last() { Some(e) => e.id == 3, None => false });
            check("c11 folded in order", s.iter().fold(0, |a, e| a * 10 + e.id as usize) == 123);
            let mut t = 0;
            s.iter().for_each(|e| t = t * 10 + e.id as usize);
            check("c11 each in order", t == 123);
            let mut t = 0;
            for e in s.iter().skip(1) { t = t * 10 + e.id as usize; }
            check("c11 all but the first", t == 23);
            let mut t = 0;
            for e in s.iter().take(2) { t = t * 10 + e.id as usize; }
            check("c11 the first two", t == 12);
            check("c11 found", s.iter().position(|e| e.id == 2) == Some(1) && s.iter().any(|e| e.id == 3) && !s.iter().all(|e| e.id == 1));
            check("c11 found", match s.iter().find(|e| e.id == 3) { Some(e) => e.id == 3, None => false });
            let t = s.iter_mut().fold(0, |a, e| a * 10 + e.id as usize);
            check("c11 folded in order", t == 123);
            check("c11 the last element", match s.iter_mut().last() { Some(e) => e.id == 3, None => false });
        }
        pub fn $mnth() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let mut z = [0; 3];
            $m(&mut s, &mut z);
            let n = any();
            assume(n <= 4);
            let mut it = s.iter_mut();
            match it.nth(n) {
                Some(e) => check("c11 the n-th element", n < 3 && e.id as usize == n + 1),
                None => check("c11 the n-th element", n >= 3),
            }
            check("c11 exact counts after skipping", it.len() == (if n < 3 { 2 - n } else { 0 }));
        }
        pub fn $tnth() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let mut z = [0; 3];
            $m(&mut s, &mut z);
            let n = any();
            assume(n <= 3);
            {
                let mut it = s.take_elems();
                match it.nth(n) {
                    Some(e) => check("c11 the n-th element", n < 3 && e.id as usize == n + 1 && count(DROP, n + 1) == 0),
                    None => check("c11 the n-th element", n >= 3),
                }
                check("c11 exact counts after skipping", it.len() == (if n < 3 { 2 - n } else { 0 }));
                check("c05 skipped elements are destroyed", (n < 1 || count(DROP, 1) == 1) && (n < 2 || count(DROP, 2) == 1));
            }
            check("c05 each element destroyed once", count(DROP, 1) == 1 && count(DROP, 2) == 1 && count(DROP, 3) == 1);
        }
        pub fn $tcount() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let mut z = [0; 3];
            $m(&mut s, &mut z);
            let mut it = s.take_elems();
            let k = any_bool();
            if k { core::mem::forget(it.next()); }
            check("c11 counted", it.count() == (if k { 2 } else { 3 }));
            check("c05 counted elements are destroyed once", count(DROP, 1) == (if k { 0 } else { 1 }) && count(DROP, 2) == 1 && count(DROP, 3) == 1);
            drop(s);
            check("c05 each element destroyed once", count(DROP, 1) == (if k { 0 } else { 1 }) && count(DROP, 2) == 1 && count(DROP, 3) == 1);
        }
        pub fn $tlast() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let mut z = [0; 3];
            $m(&mut s, &mut z);
            let e = s.take_elems().last();
            check("c11 the last element", match &e { Some(e) => e.id == 3, None => false });
            check("c05 the others are destroyed", count(DROP, 1) == 1 && count(DROP, 2) == 1 && count(DROP, 3) == 0);
            drop(e);
            drop(s);
            check("c05 each element destroyed once", count(DROP, 1) == 1 && count(DROP, 2) == 1 && count(DROP, 3) == 1);
        }
        pub fn $tfold() {
            let mut s: Seq<$ob, $idx> = Seq::new();
            let mut z = [0; 3];
            $m(&mut s, &mut z);
            if any_bool() {
                check("c11 folded in order", s.take_elems().fold(0, |a, e| a * 10 + e.id as usize) == 123);
            } else {
                let mut t = 0;
                for e in s.take_elems().skip(1).take(1) { t = e.id as usize; }
                check("c11 the one in the middle", t == 2);
            }
            check("c05 each element destroyed once", count(DROP, 1) == 1 && count(DROP, 2) == 1 && count(DROP, 3) == 1);
        }
    };
}
adapters!(fill8, Ob, ObInit, UncheckedIndexing, 8, sz(), h_c11_nth_p8, h_c11_folds_p8, h_c11_nth_mut_p8, h_c05_c11_taken_nth_p8, h_c05_c11_taken_count_p8, h_c05_c11_taken_last_p8, h_c05_c11_taken_fold_p8);
adapters!(fill4, Ob4, Ob4Init, CheckedIndexing, 4, sz4(), h_c11_nth_i4, h_c11_folds_i4, h_c11_nth_mut_i4, h_c05_c11_taken_nth_i4, h_c05_c11_taken_count_i4, h_c05_c11_taken_last_i4, h_c05_c11_taken_fold_i4);
adapters!(fill1, Ob1, Ob1Init, UncheckedIndexing, 1, sz1(), h_c11_nth_p1, h_c11_folds_p1, h_c11_nth_mut_p1, h_c05_c11_taken_nth_p1, h_c05_c11_taken_count_p1, h_c05_c11_taken_last_p1, h_c05_c11_taken_fold_p1);
adapters!(fill_p16, Ob16, Ob16Init, UncheckedIndexing, 16, sz(), h_c11_nth_p16, h_c11_folds_p16, h_c11_nth_mut_p16, h_c05_c11_taken_nth_p16, h_c05_c11_taken_count_p16, h_c05_c11_taken_last_p16, h_c05_c11_taken_fold_p16);
adapters!(fillx, Obx, ObxInit, UncheckedIndexing, 32, sz(), h_c11_nth_px, h_c11_folds_px, h_c11_nth_mut_px, h_c05_c11_taken_nth_px, h_c05_c11_taken_count_px, h_c05_c11_taken_last_px, h_c05_c11_taken_fold_px);

// Elements that take no space of their own.
#[derive(PartialEq, Eq)]
pub struct NilLay;
impl Layout for NilLay { fn size(&self) -> usize { 0 } }
pub struct Nil;
unsafe impl VarLen for Nil {
    type Layout = NilLay;
    fn calculate_layout(&self) -> NilLay { NilLay }
    const ALIGN: usize = 1;
    const NEEDS_VDROP: bool = true;
    unsafe fn vdrop(self: Pin<&mut Self>, layout: NilLay) { event(DROP, 0); }
}
pub struct NilInit;
unsafe impl Initializer<Nil> for NilInit {
    fn calculate_layout_cautious(&self) -> Option<NilLay> { Some(NilLay) }
    unsafe fn initialize(self, dst: NonNull<Nil>, layout: NilLay) { event(MAKE, 0); dst.as_ptr().write(Nil); }
}
pub fn h_c03_c04_c05_c10_c11_nil() {
    {
        let mut s: Seq<Nil> = Seq::new();
        s.push(NilInit);
        s.push(NilInit);
        check("c10 an element takes at least one unit", s.len() == 2 && s.offset() == 2 && s.capacity_in_offsets() >= 2);
        let mut it = s.iter();
        let a = it.next().unwrap() as *const Nil;
        let b = it.next().unwrap() as *const Nil;
        check("c11 each at its own place", off(b, a) == 1);
        check("c11 ends", it.next().is_none());
        let mut it = s.iter_mut();
        let c = &*it.next().unwrap() as *const Nil;
        let d = &*it.next().unwrap() as *const Nil;
        check("c11 each at its own place", same_addr(a, c) && same_addr(b, d));
        check("c11 ends", it.next().is_none());
        let mut it = s.take_elems();
        let e = it.next().unwrap();
        let c = &*e as *const Nil;
        drop(e);
        check("c05 each element destroyed once", count(DROP, 0) == 1);
        let e = it.next().unwrap();
        let d = &*e as *const Nil;
        check("c11 each at its own place", same_addr(a, c) && same_addr(b, d));
        check("c11 ends", it.next().is_none());
    }
    check("c05 each element destroyed once", count(DROP, 0) == 2);
    check("c04 the block is released", live() == 0);
}
pub fn h_c03_c11_c12_nil_fixed() {
    let mut s: Seq<FixedLen<()>, CheckedIndexing> = Seq::new();
    s.push(FixedLen(()));
    s.push(FixedLen(()));
    s.push(FixedLen(()));
    check("c11 each once", s.iter().count() == 3 && s.iter_mut().count() == 3);
    let mut n = 0;
    for e in s.iter() { check("c12 each has its own offset", s.offset_of(e) == n && s.is_offset_valid(n)); n += 1; }
    check("c11 each once", n == 3);
    check("c12 nothing else is valid", !s.is_offset_valid(3));
    let mut n = 0;
    for e in s.take_elems() { n += 1; }
    check("c11 each once", n == 3);
}
pub fn h_c04_c11_empty() {
    let mut s: Seq<Ob> = Seq::new();
    check("c11 nothing to visit", s.iter().next().is_none() && s.iter().len() == 0 && s.iter().size_hint() == (0, Some(0)));
    check("c11 nothing to visit", s.iter_mut().next().is_none() && s.iter_mut().len() == 0);
    check("c11 nothing to visit", s.iter().limited_to(any()).next().is_none() && s.iter_mut().limited_to(any()).next().is_none());
    check("c11 nothing to visit", s.take_elems().next().is_none() && s.take_elems().len() == 0);
    let mut s: IndexableSeq<Ob> = Seq::new();
    check("c11 nothing to visit", s.iter().next().is_none() && s.take_elems().next().is_none() && s.take_elems().count() == 0);
    drop(s);
    check("c04 nothing was allocated", allocs() == 0 && live() == 0);
}
