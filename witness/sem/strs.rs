#![allow(dead_code, unused)]
include!("ob.rs");
use core::mem::{align_of, size_of};
use varlen::array::{ArrayLen, SizedInit};
use varlen::array_init::*;
use varlen::Str;

pub unsafe fn build<T: VarLen, I: Initializer<T>>(i: I) -> (*mut T, usize) {
    let l = i.calculate_layout_cautious().unwrap();
    let size = l.size();
    let p: *mut T = buf(size, T::ALIGN);
    i.initialize(NonNull::new_unchecked(p), l);
    check("c01 the built size is the promised size", (*p).calculate_layout().size() == size);
    (p, size)
}
/// The text of `o`, wherever it is read, is that of `src`.
pub fn text<L: ArrayLen>(p: *mut Str<L>, size: usize, src: &str) {
    let n = src.len();
    let o = unsafe { &*p };
    check("c18 the length is the source's length", o.len() == n && o.as_bytes().len() == n);
    let s: &str = o;
    check("c17 the text is as long as its source", s.len() == n);
    let at = off(s.as_ptr(), o);
    check("c07 the tail begins after the header", at >= size_of::<Str<L>>());
    check("c07 the tail ends inside the object", at + n <= size);
    aside! { let k = below(n); check("c17 every byte is the source's", s.as_bytes()[k] == src.as_bytes()[k]); }
    let a = s.as_ptr();
    let m: &mut str = unsafe { Pin::new_unchecked(&mut *p) }.mut_slice();
    check("c07 all accessors agree", same_addr(m.as_ptr(), a) && m.len() == n);
}
macro_rules! strs {
    ($f:ident, $dup:ident, $boxed:ident, $arr:ident, $toks:ident, $conv:ident, $len:ty, $max:expr, $any:expr) => {
        pub fn $f() {
            let n = small();
            let src = str_any(n);
            match Str::<$len>::try_copy(src) {
                None => check("c18 refused only if the length does not fit", n as u128 > $max as u128),
                Some(i) => {
                    check("c18 accepted only if the length fits", n as u128 <= $max as u128);
                    let (p, size) = unsafe { build(i) };
                    check("c01 no larger than it need be", size <= up(size_of::<Str<$len>>() + n, align_of::<Str<$len>>()) * align_of::<Str<$len>>());
                    text(p, size, src);
                }
            }
        }
        pub fn $dup() {
            let n: $len = $any;
            let src = str_any(n as usize);
            let (p, size) = unsafe { build(Str::<$len>::try_copy(src).unwrap()) };
            let (q, size2) = if any_bool() { unsafe { build((*p).vclone()) } } else { unsafe { build((*p).vcopy()) } };
            check("c20 a duplicate is as large as its source", size == size2);
            text(q, size2, src);
            aside! { text(p, size, src); }
        }
        pub fn $boxed() {
            let n: $len = $any;
            let src = str_any(n as usize);
            {
                let mut b: VBox<Str<$len>> = VBox::new(Str::<$len>::try_copy(src).unwrap());
                check("c17 the text is as long as its source", b.len() == n as usize);
                aside! { let k = below(n as usize); check("c17 every byte is the source's", b.as_bytes()[k] == src.as_bytes()[k]); }
                let c = b.vclone();
                let mut d: VBox<Str<$len>> = VBox::new(c);
                drop(b);
                check("c20 a duplicate owns its storage", live() == 1);
                aside! { let k = below(n as usize); check("c17 every byte is the source's", d.as_bytes()[k] == src.as_bytes()[k]); }
                check("c20 a duplicate is as long", d.as_mut().mut_slice().len() == n as usize);
            }
            check("c04 every block is released", live() == 0);
        }
        pub fn $arr() {
            let n = small();
            let src: &[u16] = slice_any(n);
            match Array::<u16, $len>::try_copy(src) {
                None => check("c18 refused only if the length does not fit", n as u128 > $max as u128),
                Some(i) => {
                    check("c18 accepted only if the length fits", n as u128 <= $max as u128);
                    let (p, size) = unsafe { build(i) };
                    let o = unsafe { &*p };
                    check("c18 the length is the source's length", o.len() == n && o.len_short().as_usize() == n && o.len_short() as usize == n && o[..].len() == n);
                    check("c18 the length is the source's length", unsafe { Pin::new_unchecked(&mut *p) }.mut_slice().len() == n);
                    aside! { let k = below(n); check("c18 every element is the source's", o[k] == src[k]); }
                }
            }
        }
        pub fn $toks() {
            let n = small();
            let src: &[Tok] = slice_ids(n, 10);
            match Array::<Tok, $len>::try_clone_from_slice(src) {
                None => {
                    check("c18 refused only if the length does not fit", n as u128 > $max as u128);
                    check("c18 a refused request clones nothing", count(CLONE, any()) == 0);
                }
                Some(i) => {
                    check("c18 accepted only if the length fits", n as u128 <= $max as u128);
                    let (p, size) = unsafe { build(i) };
                    let o = unsafe { &*p };
                    check("c18 the length is the source's length", o.len() == n && o.len_short() as usize == n);
                    let k = any();
                    check("c20 each element is cloned once", count(CLONE, k) == (if k >= 10 && k < 10 + n { 1 } else { 0 }));
                    aside! { let k = below(n); check("c18 every element is the source's", o[k].0 == 10 + k + BIG); }
                }
            }
        }
        pub fn $conv() {
            let x = any();
            match <$len as ArrayLen>::from_usize(x) {
                None => check("c18 refused only if the length does not fit", x as u128 > $max as u128),
                Some(l) => {
                    check("c18 accepted only if the length fits", x as u128 <= $max as u128);
                    check("c18 conversions are exact", l.as_usize() == x && l as usize == x);
                }
            }
            let y: $len = $any;
            check("c18 conversions are exact", y.as_usize() == y as usize && y.as_usize() as u128 == y as u128);
            check("c18 every length word is a length", <$len as ArrayLen>::from_usize(y.as_usize()) == Some(y));
        }
    };
}
strs!(h_c01_c03_c07_c17_c18_str_u8, h_c01_c17_c19_c20_str_u8_dup, h_c04_c17_c20_str_u8_box, h_c03_c18_arr_u8, h_c18_c20_toks_u8, h_c18_conv_u8, u8, u8::MAX, any_u8());
strs!(h_c01_c03_c07_c17_c18_str_u16, h_c01_c17_c19_c20_str_u16_dup, h_c04_c17_c20_str_u16_box, h_c03_c18_arr_u16, h_c18_c20_toks_u16, h_c18_conv_u16, u16, u16::MAX, any_u16());
strs!(h_c01_c03_c07_c17_c18_str_u32, h_c01_c17_c19_c20_str_u32_dup, h_c04_c17_c20_str_u32_box, h_c03_c18_arr_u32, h_c18_c20_toks_u32, h_c18_conv_u32, u32, u32::MAX, any_u32());
strs!(h_c01_c03_c07_c17_c18_str_u64, h_c01_c17_c19_c20_str_u64_dup, h_c04_c17_c20_str_u64_box, h_c03_c18_arr_u64, h_c18_c20_toks_u64, h_c18_conv_u64, u64, u64::MAX, small() as u64);
strs!(h_c01_c03_c07_c17_c18_str_usize, h_c01_c17_c19_c20_str_usize_dup, h_c04_c17_c20_str_usize_box, h_c03_c18_arr_usize, h_c18_c20_toks_usize, h_c18_conv_usize, usize, usize::MAX, small());

/// The infallible forms.
pub fn h_c01_c17_c18_str_copy() {
    let n = small();
    let src = str_any(n);
    let (p, size) = unsafe { build(Str::copy(src)) };
    text(p, size, src);
}
pub fn h_c01_c18_array_copy() {
    let n = small();
    let src: &[u32] = slice_any(n);
    let (p, size) = unsafe { build(Array::copy(src)) };
    check("c18 the length is the source's length", unsafe { (*p).len() == n && (*p).len_short() == n });
    let src: &[Tok] = slice_ids(n, 10);
    let (p, size) = unsafe { build(Array::clone_from_slice(src)) };
    check("c18 the length is the source's length", unsafe { (*p).len() == n && (*p).len_short() == n });
    let k = any();
    check("c20 each element is cloned once", count(CLONE, k) == (if k >= 10 && k < 10 + n { 1 } else { 0 }));
}
/// Text in a sequence.
pub fn h_c03_c10_c17_str_seq() {
    let (a, b) = (any_u16(), any_u16());
    let (x, y) = (str_any(a as usize), str_any(b as usize));
    let mut s: Seq<Str<u16>> = Seq::new();
    s.push(Str::try_copy(x).unwrap());
    s.push(Str::try_copy(y).unwrap());
    let mut it = s.iter();
    let p = it.next().unwrap();
    let q = it.next().unwrap();
    check("c17 the text is as long as its source", p.len() == a as usize && q.len() == b as usize && it.next().is_none());
    aside! { let k = below(a as usize); check("c17 every byte is the source's", p.as_bytes()[k] == x.as_bytes()[k]); }
    aside! { let k = below(b as usize); check("c17 every byte is the source's", q.as_bytes()[k] == y.as_bytes()[k]); }
}
