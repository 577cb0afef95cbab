#![allow(dead_code, unused)]
include!("ob.rs");

macro_rules! push2 {
    ($f:ident, $ob:ident, $init:ident, $idx:ty, $align:expr, $sz:expr) => {
        pub fn $f() {
            let s1 = $sz;
            let s2 = $sz;
            let (n1, n2) = (up(s1 as usize, $align), up(s2 as usize, $align));
            {
                let mut s: Seq<$ob, $idx> = Seq::new();
                check("c10 empty at first", s.len() == 0 && s.offset() == 0 && s.capacity_in_offsets() == 0);
                s.push($init { id: 1, size: s1 });
                let cap1 = s.capacity_in_offsets();
                check("c10 count grows by one", s.len() == 1);
                check("c10 the end advances by the element's space", s.offset() == n1);
                check("c10 the end is within capacity", n1 <= cap1);
                let p1 = unsafe { s.from_offset_unchecked(0) } as *const $ob;
                let a1 = allocs();
                s.push($init { id: 2, size: s2 });
                let cap2 = s.capacity_in_offsets();
                check("c10 count grows by one", s.len() == 2);
                check("c10 the end advances by the element's space", s.offset() == n1 + n2);
                check("c10 the end is within capacity", n1 + n2 <= cap2);
                if n1 + n2 <= cap1 {
                    check("c10 no growth while it fits", cap2 == cap1 && allocs() == a1);
                } else {
                    check("c10 growth at least doubles", cap2 >= cap1 * 2 && cap2 >= n1 + n2 && allocs() == a1 + 1);
                }
                let e1 = unsafe { s.from_offset_unchecked(0) };
                let e2 = unsafe { s.from_offset_unchecked(n1) };
                check("c10 the earlier element is kept", e1.id == 1 && e1.size == s1);
                check("c10 the new element starts at the previous end", e2.id == 2 && e2.size == s2 && off(e2, e1) == n1 * $align);
                check("c05 nothing destroyed by a push", count(DROP, 1) == 0 && count(DROP, 2) == 0);
                check("c05 initialized once", count(MAKE, 1) == 1 && count(MAKE, 2) == 1);
                check("c04 one block", live() == 1);
            }
            check("c05 each element destroyed once", count(DROP, 1) == 1 && count(DROP, 2) == 1);
            check("c04 the block is released", live() == 0);
        }
    };
}
push2!(h_c03_c04_c05_c10_push2_plain8, Ob, ObInit, UncheckedIndexing, 8, sz());
push2!(h_c03_c04_c05_c10_push2_chk8, Ob, ObInit, CheckedIndexing, 8, sz());
push2!(h_c03_c04_c05_c10_push2_plain1, Ob1, Ob1Init, UncheckedIndexing, 1, sz1());
push2!(h_c03_c04_c05_c10_push2_chk1, Ob1, Ob1Init, CheckedIndexing, 1, sz1());
push2!(h_c03_c04_c05_c10_push2_plain2, Ob2, Ob2Init, UncheckedIndexing, 2, sz2());
push2!(h_c03_c04_c05_c10_push2_chk2, Ob2, Ob2Init, CheckedIndexing, 2, sz2());
push2!(h_c03_c04_c05_c10_push2_chk4, Ob4, Ob4Init, CheckedIndexing, 4, sz4());
push2!(h_c03_c04_c05_c10_push2_plain16, Ob16, Ob16Init, UncheckedIndexing, 16, sz());
push2!(h_c03_c04_c05_c10_push2_chk16, Ob16, Ob16Init, CheckedIndexing, 16, sz());
push2!(h_c03_c04_c05_c10_push2_chk64, Ob64, Ob64Init, CheckedIndexing, 64, sz64());
push2!(h_c03_c04_c05_c10_push2_plainx, Obx, ObxInit, UncheckedIndexing, 32, sz());
push2!(h_c03_c04_c05_c10_push2_chkx, Obx, ObxInit, CheckedIndexing, 32, sz());
push2!(h_c03_c04_c05_c10_push2_plainy, Oby, ObyInit, UncheckedIndexing, 4096, sz4());
push2!(h_c03_c04_c05_c10_push2_chky, Oby, ObyInit, CheckedIndexing, 4096, sz4());
push2!(h_c03_c04_c05_c10_push2_plainp, Obp, ObpInit, UncheckedIndexing, 1, sz());
push2!(h_c03_c04_c05_c10_push2_chkp, Obp, ObpInit, CheckedIndexing, 1, sz());
push2!(h_c03_c04_c05_c10_push2_plain4, Ob4, Ob4Init, UncheckedIndexing, 4, sz4());
push2!(h_c03_c04_c05_c10_push2_plain64, Ob64, Ob64Init, UncheckedIndexing, 64, sz64());
