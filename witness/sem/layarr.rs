#![allow(dead_code, unused)]
include!("ob.rs");
use core::mem::{align_of, size_of};
use varlen::array::SizedInit;
use varlen::array_init::*;

#[derive(Clone, Copy)]
#[repr(C)]
pub struct Odd { pub a: u8, pub b: u8, pub c: u8 }
#[derive(Clone, Copy)]
#[repr(C, align(32))]
pub struct Wide { pub a: u64, pub b: u32 }

/// The promise an initializer makes, and storage of exactly the promised size.
pub unsafe fn place<T: VarLen, I: Initializer<T>>(init: &I) -> (*mut T, T::Layout, usize) {
    let l = init.calculate_layout_cautious().unwrap();
    let size = l.size();
    (buf(size, T::ALIGN), l, size)
}
pub fn tail<'a, T, L: varlen::array::ArrayLen>(o: &'a Array<T, L>, n: usize, size: usize) -> &'a [T] {
    check("c01 the built size is the promised size", o.calculate_layout().size() == size);
    check("c01 the size covers the header", size >= size_of::<Array<T, L>>());
    let s: &[T] = &o[..];
    check("c07 as long as the stored length", s.len() == n);
    check("c18 the length is the source's length", o.len_short().as_usize() == n);
    let at = off(s.as_ptr(), o);
    check("c07 the tail begins after the header", at >= size_of::<Array<T, L>>());
    check("c07 the tail ends inside the object", at + n * size_of::<T>() <= size);
    check("c07 the tail is aligned", Array::<T, L>::ALIGN % align_of::<T>() == 0 && at % align_of::<T>() == 0);
    check("c07 the header is aligned", Array::<T, L>::ALIGN % align_of::<Array<T, L>>() == 0);
    s
}
macro_rules! arr {
    ($f:ident, $vc:ident, $vd:ident, $t:ty, $len:ty, $any:expr, |$x:ident, $y:ident| $same:expr) => {
        pub fn $f() {
            let n: $len = $any;
            let src: &[$t] = slice_any(n as usize);
            unsafe {
                let init = Array::<$t, $len>::try_copy(src).unwrap();
                let (p, l, size) = place(&init);
                let promised = init.calculate_layout_cautious().unwrap();
                init.initialize(NonNull::new_unchecked(p), l);
                let o = &*p;
                check("c01 the built layout is the promised layout", o.calculate_layout() == promised);
                let s = tail(o, n as usize, size);
                let m = Pin::new_unchecked(&mut *p).mut_slice();
                check("c07 all accessors agree", same_addr(m.as_ptr(), s.as_ptr()) && m.len() == s.len());
                let k = below(n as usize);
                let ($x, $y) = (&s[k], &src[k]);
                check("c08 every element has its value", $same);
            }
        }
        pub fn $vc() {
            let n: $len = $any;
            let src: &[$t] = slice_any(n as usize);
            unsafe {
                let init = Array::<$t, $len>::try_copy(src).unwrap();
                let (p, l, size) = place(&init);
                init.initialize(NonNull::new_unchecked(p), l);
                let k = below(n as usize);
                if any_bool() {
                    let init = (*p).vcopy();
                    let (q, l, size2) = place(&init);
                    check("c01 a copy promises the size of its source", size == size2);
                    init.initialize(NonNull::new_unchecked(q), l);
                    let s = tail(&*q, n as usize, size);
                    let ($x, $y) = (&s[k], &src[k]);
                    check("c20 every element is copied to its position", $same);
                } else {
                    let init = (*p).vclone();
                    let (q, l, size2) = place(&init);
                    check("c01 a clone promises the size of its source", size == size2);
                    init.initialize(NonNull::new_unchecked(q), l);
                    let s = tail(&*q, n as usize, size);
                    let ($x, $y) = (&s[k], &src[k]);
                    check("c20 every element is cloned to its position", $same);
                }
            }
        }
    };
}
arr!(h_c01_c03_c07_c08_c18_arr_u8_u8, h_c01_c03_c07_c18_c19_c20_arr_u8_u8_dup, h0, u8, u8, any_u8(), |x, y| *x == *y);
arr!(h_c01_c03_c07_c08_c18_arr_u16_u8, h_c01_c03_c07_c18_c19_c20_arr_u16_u8_dup, h1, u16, u8, any_u8(), |x, y| *x == *y);
arr!(h_c01_c03_c07_c08_c18_arr_u64_u8, h_c01_c03_c07_c18_c19_c20_arr_u64_u8_dup, h2, u64, u8, any_u8(), |x, y| *x == *y);
arr!(h_c01_c03_c07_c08_c18_arr_odd_u16, h_c01_c03_c07_c18_c19_c20_arr_odd_u16_dup, h3, Odd, u16, any_u16(), |x, y| x.a == y.a && x.b == y.b && x.c == y.c);
arr!(h_c01_c03_c07_c08_c18_arr_u32_u32, h_c01_c03_c07_c18_c19_c20_arr_u32_u32_dup, h4, u32, u32, any_u32(), |x, y| *x == *y);
arr!(h_c01_c03_c07_c08_c18_arr_u8_usize, h_c01_c03_c07_c18_c19_c20_arr_u8_usize_dup, h5, u8, usize, small(), |x, y| *x == *y);
arr!(h_c01_c03_c07_c08_c18_arr_wide_usize, h_c01_c03_c07_c18_c19_c20_arr_wide_usize_dup, h6, Wide, usize, small(), |x, y| x.a == y.a && x.b == y.b);
arr!(h_c01_c03_c07_c08_c18_arr_wide_u8, h_c01_c03_c07_c18_c19_c20_arr_wide_u8_dup, h7, Wide, u8, any_u8(), |x, y| x.a == y.a && x.b == y.b);
arr!(h_c01_c03_c07_c08_c18_arr_u16_u64, h_c01_c03_c07_c18_c19_c20_arr_u16_u64_dup, h8, u16, u64, small() as u64, |x, y| *x == *y);
arr!(h_c01_c03_c07_c08_c18_arr_unit_usize, h_c01_c03_c07_c18_c19_c20_arr_unit_usize_dup, h9, (), usize, small(), |x, y| true);
