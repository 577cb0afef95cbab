#![allow(dead_code, unused)]
// Sequences, boxes and iterators over the library's own kinds of objects.
include!("ob.rs");
use core::mem::size_of;
use varlen::array::{ArrayLen, SizedInit};
use varlen::array_init::*;
use varlen::{define_varlen, define_varlen_newtype, FixedLen, Str};

#[define_varlen]
pub struct Genx { pub h: u16, #[varlen] pub a: Ob, #[controls_layout] pub n: u8, #[varlen_array] pub t: [u32; *n as usize] }
/// No fixed fields.
#[define_varlen]
pub struct Bare { #[varlen] pub a: Ob1, #[varlen] pub b: Ob4 }
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Wrap(Tup2<Ob1, Ob>);
    with init: struct WrapInit<_>(_);
    with inner_ref: fn inner(&self) -> &_;
    with inner_mut: fn inner_mut(self: _) -> _;
}
/// Units the object of that many bytes takes.
pub fn units(size: usize, a: usize) -> usize { if size == 0 { 1 } else { up(size, a) } }
macro_rules! elems {
    ($t:ty, $idx:ty, $d:expr, |$i:ident| $prep:expr, |$p:ident| $init:expr, $look:ident, $gone:ident, $moved:ident, $refill:ident) => {
        pub fn $look() {
            let mut s: Seq<$t, $idx> = Seq::new();
            let mk = |$i: usize| $prep;
            let x = mk(1);
            let i = { let $p = x; $init };
            let m = i.calculate_layout_cautious().unwrap().size();
            s.push(i);
            check("c10 the end advances by the element's space", s.offset() == units(m, <$t>::ALIGN));
            let y = mk(2);
            let i = { let $p = y; $init };
            let n = i.calculate_layout_cautious().unwrap().size();
            s.push(i);
            let z = mk(3);
            let i = { let $p = z; $init };
            s.push(i);
            check("c10 as many elements as pushes", s.len() == 3);
            let (o1, o2) = (units(m, <$t>::ALIGN), units(m, <$t>::ALIGN) + units(n, <$t>::ALIGN));
            let base = unsafe { s.from_offset_unchecked(0) } as *const $t;
            {
                let mut it = s.iter();
                check("c11 exact counts", it.len() == 3 && it.size_hint() == (3, Some(3)));
                let (e, f, g) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
                check("c11 each where it was pushed", same_addr(e, base) && off(f, base) == o1 * <$t>::ALIGN && off(g, base) == o2 * <$t>::ALIGN);
                check("c11 each as it was pushed", e.calculate_layout().size() == m && f.calculate_layout().size() == n);
                check("c11 ends", it.next().is_none() && it.len() == 0);
                check("c13 offsets lead back", s.offset_of(e) == 0 && s.offset_of(f) == o1 && s.offset_of(g) == o2);
            }
            {
                let mut it = s.iter_mut();
                check("c11 exact counts", it.len() == 3);
                let (e, f, g) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
                check("c11 each where it was pushed", same_addr(&*e, base) && off(&*f, base) == o1 * <$t>::ALIGN && off(&*g, base) == o2 * <$t>::ALIGN);
                check("c11 ends", it.next().is_none() && it.len() == 0);
            }
            {
                let mut it = s.iter().limited_to(2);
                it.next();
                check("c11 each where it was pushed", off(it.next().unwrap(), base) == o1 * <$t>::ALIGN);
                check("c11 ends", it.next().is_none());
            }
            {
                let mut it = s.take_elems();
                check("c11 exact counts", it.len() == 3);
                let (e, f, g) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
                check("c11 each where it was pushed", same_addr(&*e, base) && off(&*f, base) == o1 * <$t>::ALIGN && off(&*g, base) == o2 * <$t>::ALIGN);
                check("c11 ends", it.next().is_none() && it.len() == 0);
            }
            check("c11 the sequence is empty after taking", s.len() == 0 && s.offset() == 0);
        }
        pub fn $gone() {
            {
                let mut s: Seq<$t, $idx> = Seq::new();
                let mk = |$i: usize| $prep;
                { let $p = mk(1); s.push($init); }
                { let $p = mk(2); s.push($init); }
                { let $p = mk(3); s.push($init); }
                if any_bool() {
                    let e = s.take_elems().next().unwrap();
                    check("c05 what was not taken is destroyed with the iterator", !$d || count(DROP, 1) == 0 && count(DROP, 2) == 1 && count(DROP, 3) == 1);
                }
            }
            check("c05 each element destroyed once", !$d || count(DROP, 1) == 1 && count(DROP, 2) == 1 && count(DROP, 3) == 1);
            check("c04 the block is released", live() == 0);
        }
        pub fn $moved() {
            {
                let mk = |$i: usize| $prep;
                let b: VBox<$t> = { let $p = mk(1); VBox::new($init) };
                let size = b.calculate_layout().size();
                let mut s: Seq<$t, $idx> = Seq::new();
                s.push(b);
                check("c05 moved, not dropped", !$d || count(DROP, 1) == 0);
                check("c04 the box is released", live() == 1);
                let mut t: Seq<$t, $idx> = Seq::new();
                for e in s.take_elems() { t.push(e); }
                check("c05 moved, not dropped", !$d || count(DROP, 1) == 0);
                let e = t.iter().next().unwrap();
                check("c01 a moved object has the size of its source", e.calculate_layout().size() == size);
                check("c10 as many elements as pushes", t.len() == 1 && s.len() == 0);
            }
            check("c05 each element destroyed once", !$d || count(DROP, 1) == 1);
            check("c04 the blocks are released", live() == 0);
        }
        pub fn $refill() {
            let mut s: Seq<$t, $idx> = Seq::new();
            let mk = |$i: usize| $prep;
            { let $p = mk(1); s.push($init); }
            { let $p = mk(2); s.push($init); }
            let cap = s.capacity_in_offsets();
            drop(s.take_elems());
            check("c10 capacity never shrinks", s.capacity_in_offsets() == cap);
            check("c05 what was not taken is destroyed with the iterator", !$d || count(DROP, 1) == 1 && count(DROP, 2) == 1);
            { let $p = mk(3); s.push($init); }
            check("c11 taken elements are not visited again", s.len() == 1 && s.iter().count() == 1);
            drop(s);
            check("c05 each element destroyed once", !$d || count(DROP, 1) == 1 && count(DROP, 2) == 1 && count(DROP, 3) == 1);
            check("c04 the block is released", live() == 0);
        }
    };
}
macro_rules! indexed {
    ($t:ty, |$i:ident| $prep:expr, |$p:ident| $init:expr, $index:ident) => {
        pub fn $index() {
            let mut s: Seq<$t, CheckedIndexing> = Seq::new();
            let mk = |$i: usize| $prep;
            let x = mk(1);
            let i = { let $p = x; $init };
            let m = i.calculate_layout_cautious().unwrap().size();
            s.push(i);
            { let $p = mk(2); s.push($init); }
            let o1 = units(m, <$t>::ALIGN);
            let o = any();
            let is = o == 0 || o == o1;
            aside! { check("c12 valid exactly at the elements", s.is_offset_valid(o) == is); }
            let p: *mut Seq<$t, CheckedIndexing> = &mut s;
            aside! {
                let r = catch(|| { let e = unsafe { (*p).from_offset(o) }; check("c13 offsets lead back", unsafe { (*p).offset_of(e) } == o); });
                check("c12 lookup of anything else panics", r == !is);
            }
            aside! {
                let r = catch(|| { let e = unsafe { (*p).from_offset_mut(o) }; check("c13 offsets lead back", unsafe { (*p).offset_of(&*e) } == o); });
                check("c12 lookup of anything else panics", r == !is);
            }
            drop(s.take_elems());
            check("c12 nothing is valid after taking", !s.is_offset_valid(o));
            { let $p = mk(3); s.push($init); }
            check("c12 valid exactly at the elements", s.is_offset_valid(o) == (o == 0));
            stop();
        }
    };
}
elems!(Tup2<Ob1, Ob>, UncheckedIndexing, true, |i| (sz1(), sz(), i), |p| tup2::Init(Ob1Init { id: p.2 as u8, size: p.0 }, ObInit { id: p.2 + 10, size: p.1 }),
    h_c03_c10_c11_c13_look_tup18u, h_c04_c05_gone_tup18u, h_c01_c04_c05_c10_moved_tup18u, h_c04_c05_c10_c11_refill_tup18u);
elems!(Tup2<Ob1, Ob>, CheckedIndexing, true, |i| (sz1(), sz(), i), |p| tup2::Init(Ob1Init { id: p.2 as u8, size: p.0 }, ObInit { id: p.2 + 10, size: p.1 }),
    h_c03_c10_c11_c13_look_tup18c, h_c04_c05_gone_tup18c, h_c01_c04_c05_c10_moved_tup18c, h_c04_c05_c10_c11_refill_tup18c);
indexed!(Tup2<Ob1, Ob>, |i| (sz1(), sz(), i), |p| tup2::Init(Ob1Init { id: p.2 as u8, size: p.0 }, ObInit { id: p.2 + 10, size: p.1 }), h_c12_c13_index_tup18);
elems!(Tup2<Ob, Ob1>, UncheckedIndexing, true, |i| (sz(), sz1(), i), |p| tup2::Init(ObInit { id: p.2, size: p.0 }, Ob1Init { id: p.2 as u8 + 10, size: p.1 }),
    h_c03_c10_c11_c13_look_tup81u, h_c04_c05_gone_tup81u, h_c01_c04_c05_c10_moved_tup81u, h_c04_c05_c10_c11_refill_tup81u);
elems!(Tup2<Ob, Ob1>, CheckedIndexing, true, |i| (sz(), sz1(), i), |p| tup2::Init(ObInit { id: p.2, size: p.0 }, Ob1Init { id: p.2 as u8 + 10, size: p.1 }),
    h_c03_c10_c11_c13_look_tup81c_deep, h_c04_c05_gone_tup81c_deep, h_c01_c04_c05_c10_moved_tup81c_deep, h_c04_c05_c10_c11_refill_tup81c_deep);
indexed!(Tup2<Ob, Ob1>, |i| (sz(), sz1(), i), |p| tup2::Init(ObInit { id: p.2, size: p.0 }, Ob1Init { id: p.2 as u8 + 10, size: p.1 }), h_c12_c13_index_tup81);
elems!(Tup2<Oby, Ob2>, UncheckedIndexing, true, |i| (sz4(), sz2(), i), |p| tup2::Init(ObyInit { id: p.2 as u32, size: p.0 }, Ob2Init { id: p.2 as u16 + 10, size: p.1 }),
    h_c03_c10_c11_c13_look_tupyu, h_c04_c05_gone_tupyu, h_c01_c04_c05_c10_moved_tupyu, h_c04_c05_c10_c11_refill_tupyu);
elems!(Tup2<Oby, Ob2>, CheckedIndexing, true, |i| (sz4(), sz2(), i), |p| tup2::Init(ObyInit { id: p.2 as u32, size: p.0 }, Ob2Init { id: p.2 as u16 + 10, size: p.1 }),
    h_c03_c10_c11_c13_look_tupyc_deep, h_c04_c05_gone_tupyc_deep, h_c01_c04_c05_c10_moved_tupyc_deep, h_c04_c05_c10_c11_refill_tupyc_deep);
indexed!(Tup2<Oby, Ob2>, |i| (sz4(), sz2(), i), |p| tup2::Init(ObyInit { id: p.2 as u32, size: p.0 }, Ob2Init { id: p.2 as u16 + 10, size: p.1 }), h_c12_c13_index_tupy_deep);
elems!(Tup2<FixedLen<()>, FixedLen<()>>, UncheckedIndexing, false, |i| (), |p| tup2::Init(FixedLen(()), FixedLen(())),
    h_c03_c10_c11_c13_look_tupzu, h_c04_c05_gone_tupzu, h_c01_c04_c05_c10_moved_tupzu, h_c04_c05_c10_c11_refill_tupzu);
elems!(Tup2<FixedLen<()>, FixedLen<()>>, CheckedIndexing, false, |i| (), |p| tup2::Init(FixedLen(()), FixedLen(())),
    h_c03_c10_c11_c13_look_tupzc, h_c04_c05_gone_tupzc, h_c01_c04_c05_c10_moved_tupzc, h_c04_c05_c10_c11_refill_tupzc);
indexed!(Tup2<FixedLen<()>, FixedLen<()>>, |i| (), |p| tup2::Init(FixedLen(()), FixedLen(())), h_c12_c13_index_tupz);
elems!(Tup2<FixedLen<Tok>, FixedLen<u8>>, UncheckedIndexing, true, |i| i, |p| tup2::Init(FixedLen(Tok(p)), FixedLen(1u8)),
    h_c03_c10_c11_c13_look_tuptu, h_c04_c05_gone_tuptu, h_c01_c04_c05_c10_moved_tuptu, h_c04_c05_c10_c11_refill_tuptu);
elems!(Tup2<FixedLen<Tok>, FixedLen<u8>>, CheckedIndexing, true, |i| i, |p| tup2::Init(FixedLen(Tok(p)), FixedLen(1u8)),
    h_c03_c10_c11_c13_look_tuptc_deep, h_c04_c05_gone_tuptc_deep, h_c01_c04_c05_c10_moved_tuptc_deep, h_c04_c05_c10_c11_refill_tuptc_deep);
indexed!(Tup2<FixedLen<Tok>, FixedLen<u8>>, |i| i, |p| tup2::Init(FixedLen(Tok(p)), FixedLen(1u8)), h_c12_c13_index_tupt);
elems!(Array<u8>, UncheckedIndexing, false, |i| slice_any::<u8>(small()), |p| Array::copy(p),
    h_c03_c10_c11_c13_look_arr8u, h_c04_c05_gone_arr8u, h_c01_c04_c05_c10_moved_arr8u, h_c04_c05_c10_c11_refill_arr8u);
elems!(Array<u8>, CheckedIndexing, false, |i| slice_any::<u8>(small()), |p| Array::copy(p),
    h_c03_c10_c11_c13_look_arr8c_deep, h_c04_c05_gone_arr8c_deep, h_c01_c04_c05_c10_moved_arr8c_deep, h_c04_c05_c10_c11_refill_arr8c_deep);
indexed!(Array<u8>, |i| slice_any::<u8>(small()), |p| Array::copy(p), h_c12_c13_index_arr8);
elems!(Array<u8, u8>, UncheckedIndexing, false, |i| slice_any::<u8>(any_u8() as usize), |p| Array::<u8, u8>::try_copy(p).unwrap(),
    h_c03_c10_c11_c13_look_arr8bu, h_c04_c05_gone_arr8bu, h_c01_c04_c05_c10_moved_arr8bu, h_c04_c05_c10_c11_refill_arr8bu);
elems!(Array<u8, u8>, CheckedIndexing, false, |i| slice_any::<u8>(any_u8() as usize), |p| Array::<u8, u8>::try_copy(p).unwrap(),
    h_c03_c10_c11_c13_look_arr8bc_deep, h_c04_c05_gone_arr8bc_deep, h_c01_c04_c05_c10_moved_arr8bc_deep, h_c04_c05_c10_c11_refill_arr8bc_deep);
indexed!(Array<u8, u8>, |i| slice_any::<u8>(any_u8() as usize), |p| Array::<u8, u8>::try_copy(p).unwrap(), h_c12_c13_index_arr8b);
elems!(Array<u64, u8>, UncheckedIndexing, false, |i| slice_any::<u64>(any_u8() as usize), |p| Array::<u64, u8>::try_copy(p).unwrap(),
    h_c03_c10_c11_c13_look_arr64bu, h_c04_c05_gone_arr64bu, h_c01_c04_c05_c10_moved_arr64bu, h_c04_c05_c10_c11_refill_arr64bu);
elems!(Array<u64, u8>, CheckedIndexing, false, |i| slice_any::<u64>(any_u8() as usize), |p| Array::<u64, u8>::try_copy(p).unwrap(),
    h_c03_c10_c11_c13_look_arr64bc_deep, h_c04_c05_gone_arr64bc_deep, h_c01_c04_c05_c10_moved_arr64bc_deep, h_c04_c05_c10_c11_refill_arr64bc_deep);
indexed!(Array<u64, u8>, |i| slice_any::<u64>(any_u8() as usize), |p| Array::<u64, u8>::try_copy(p).unwrap(), h_c12_c13_index_arr64b);
elems!(Array<u32>, UncheckedIndexing, false, |i| slice_any::<u32>(small()), |p| Array::copy(p),
    h_c03_c10_c11_c13_look_arr32u, h_c04_c05_gone_arr32u, h_c01_c04_c05_c10_moved_arr32u, h_c04_c05_c10_c11_refill_arr32u);
elems!(Array<u32>, CheckedIndexing, false, |i| slice_any::<u32>(small()), |p| Array::copy(p),
    h_c03_c10_c11_c13_look_arr32c_deep, h_c04_c05_gone_arr32c_deep, h_c01_c04_c05_c10_moved_arr32c_deep, h_c04_c05_c10_c11_refill_arr32c_deep);
indexed!(Array<u32>, |i| slice_any::<u32>(small()), |p| Array::copy(p), h_c12_c13_index_arr32);
elems!(Array<Tok, u8>, UncheckedIndexing, true, |i| i, |p| SizedInit(1u8, FillSequentially(move |_| Tok(p))),
    h_c03_c10_c11_c13_look_arrtoku, h_c04_c05_gone_arrtoku, h_c01_c04_c05_c10_moved_arrtoku, h_c04_c05_c10_c11_refill_arrtoku);
elems!(Array<Tok, u8>, CheckedIndexing, true, |i| i, |p| SizedInit(1u8, FillSequentially(move |_| Tok(p))),
    h_c03_c10_c11_c13_look_arrtokc_deep, h_c04_c05_gone_arrtokc_deep, h_c01_c04_c05_c10_moved_arrtokc_deep, h_c04_c05_c10_c11_refill_arrtokc_deep);
indexed!(Array<Tok, u8>, |i| i, |p| SizedInit(1u8, FillSequentially(move |_| Tok(p))), h_c12_c13_index_arrtok);
elems!(Array<()>, UncheckedIndexing, false, |i| small(), |p| SizedInit(p, FillSequentially(|_| ())),
    h_c03_c10_c11_c13_look_arrunitu, h_c04_c05_gone_arrunitu, h_c01_c04_c05_c10_moved_arrunitu, h_c04_c05_c10_c11_refill_arrunitu);
elems!(Array<()>, CheckedIndexing, false, |i| small(), |p| SizedInit(p, FillSequentially(|_| ())),
    h_c03_c10_c11_c13_look_arrunitc_deep, h_c04_c05_gone_arrunitc_deep, h_c01_c04_c05_c10_moved_arrunitc_deep, h_c04_c05_c10_c11_refill_arrunitc_deep);
indexed!(Array<()>, |i| small(), |p| SizedInit(p, FillSequentially(|_| ())), h_c12_c13_index_arrunit);
elems!(Str<u8>, UncheckedIndexing, false, |i| str_any(any_u8() as usize), |p| Str::<u8>::try_copy(p).unwrap(),
    h_c03_c10_c11_c13_look_strbu, h_c04_c05_gone_strbu, h_c01_c04_c05_c10_moved_strbu, h_c04_c05_c10_c11_refill_strbu);
elems!(Str<u8>, CheckedIndexing, false, |i| str_any(any_u8() as usize), |p| Str::<u8>::try_copy(p).unwrap(),
    h_c03_c10_c11_c13_look_strbc_deep, h_c04_c05_gone_strbc_deep, h_c01_c04_c05_c10_moved_strbc_deep, h_c04_c05_c10_c11_refill_strbc_deep);
indexed!(Str<u8>, |i| str_any(any_u8() as usize), |p| Str::<u8>::try_copy(p).unwrap(), h_c12_c13_index_strb);
elems!(Str, UncheckedIndexing, false, |i| str_any(small()), |p| Str::copy(p),
    h_c03_c10_c11_c13_look_stru, h_c04_c05_gone_stru, h_c01_c04_c05_c10_moved_stru, h_c04_c05_c10_c11_refill_stru);
elems!(Str, CheckedIndexing, false, |i| str_any(small()), |p| Str::copy(p),
    h_c03_c10_c11_c13_look_strc_deep, h_c04_c05_gone_strc_deep, h_c01_c04_c05_c10_moved_strc_deep, h_c04_c05_c10_c11_refill_strc_deep);
indexed!(Str, |i| str_any(small()), |p| Str::copy(p), h_c12_c13_index_str);
elems!(FixedLen<Tok>, UncheckedIndexing, true, |i| i, |p| FixedLen(Tok(p)),
    h_c03_c10_c11_c13_look_fixtoku, h_c04_c05_gone_fixtoku, h_c01_c04_c05_c10_moved_fixtoku, h_c04_c05_c10_c11_refill_fixtoku);
elems!(FixedLen<Tok>, CheckedIndexing, true, |i| i, |p| FixedLen(Tok(p)),
    h_c03_c10_c11_c13_look_fixtokc_deep, h_c04_c05_gone_fixtokc_deep, h_c01_c04_c05_c10_moved_fixtokc_deep, h_c04_c05_c10_c11_refill_fixtokc_deep);
indexed!(FixedLen<Tok>, |i| i, |p| FixedLen(Tok(p)), h_c12_c13_index_fixtok);
elems!(FixedLen<()>, UncheckedIndexing, false, |i| (), |p| FixedLen(p),
    h_c03_c10_c11_c13_look_fixunitu, h_c04_c05_gone_fixunitu, h_c01_c04_c05_c10_moved_fixunitu, h_c04_c05_c10_c11_refill_fixunitu);
elems!(FixedLen<()>, CheckedIndexing, false, |i| (), |p| FixedLen(p),
    h_c03_c10_c11_c13_look_fixunitc, h_c04_c05_gone_fixunitc, h_c01_c04_c05_c10_moved_fixunitc, h_c04_c05_c10_c11_refill_fixunitc);
indexed!(FixedLen<()>, |i| (), |p| FixedLen(p), h_c12_c13_index_fixunit);
elems!(FixedLen<[u16; 3]>, UncheckedIndexing, false, |i| [1u16, 2, 3], |p| FixedLen(p),
    h_c03_c10_c11_c13_look_fixarru, h_c04_c05_gone_fixarru, h_c01_c04_c05_c10_moved_fixarru, h_c04_c05_c10_c11_refill_fixarru);
elems!(FixedLen<[u16; 3]>, CheckedIndexing, false, |i| [1u16, 2, 3], |p| FixedLen(p),
    h_c03_c10_c11_c13_look_fixarrc_deep, h_c04_c05_gone_fixarrc_deep, h_c01_c04_c05_c10_moved_fixarrc_deep, h_c04_c05_c10_c11_refill_fixarrc_deep);
indexed!(FixedLen<[u16; 3]>, |i| [1u16, 2, 3], |p| FixedLen(p), h_c12_c13_index_fixarr);
elems!(Genx, UncheckedIndexing, true, |i| (sz(), any_u8(), i), |p| genx::Init { h: 1, a: ObInit { id: p.2, size: p.0 }, n: p.1, t: FillSequentially(|_| 7) },
    h_c03_c10_c11_c13_look_genu, h_c04_c05_gone_genu, h_c01_c04_c05_c10_moved_genu, h_c04_c05_c10_c11_refill_genu);
elems!(Genx, CheckedIndexing, true, |i| (sz(), any_u8(), i), |p| genx::Init { h: 1, a: ObInit { id: p.2, size: p.0 }, n: p.1, t: FillSequentially(|_| 7) },
    h_c03_c10_c11_c13_look_genc_deep, h_c04_c05_gone_genc_deep, h_c01_c04_c05_c10_moved_genc_deep, h_c04_c05_c10_c11_refill_genc_deep);
indexed!(Genx, |i| (sz(), any_u8(), i), |p| genx::Init { h: 1, a: ObInit { id: p.2, size: p.0 }, n: p.1, t: FillSequentially(|_| 7) }, h_c12_c13_index_gen_deep);
elems!(Bare, UncheckedIndexing, true, |i| (sz1(), sz4(), i), |p| bare::Init { a: Ob1Init { id: p.2 as u8, size: p.0 }, b: Ob4Init { id: p.2 as u32 + 10, size: p.1 } },
    h_c03_c10_c11_c13_look_bareu, h_c04_c05_gone_bareu, h_c01_c04_c05_c10_moved_bareu, h_c04_c05_c10_c11_refill_bareu);
elems!(Bare, CheckedIndexing, true, |i| (sz1(), sz4(), i), |p| bare::Init { a: Ob1Init { id: p.2 as u8, size: p.0 }, b: Ob4Init { id: p.2 as u32 + 10, size: p.1 } },
    h_c03_c10_c11_c13_look_barec_deep, h_c04_c05_gone_barec_deep, h_c01_c04_c05_c10_moved_barec_deep, h_c04_c05_c10_c11_refill_barec_deep);
indexed!(Bare, |i| (sz1(), sz4(), i), |p| bare::Init { a: Ob1Init { id: p.2 as u8, size: p.0 }, b: Ob4Init { id: p.2 as u32 + 10, size: p.1 } }, h_c12_c13_index_bare_deep);
elems!(Wrap, UncheckedIndexing, true, |i| (sz1(), sz(), i), |p| WrapInit(tup2::Init(Ob1Init { id: p.2 as u8, size: p.0 }, ObInit { id: p.2 + 10, size: p.1 })),
    h_c03_c10_c11_c13_look_wrapu, h_c04_c05_gone_wrapu, h_c01_c04_c05_c10_moved_wrapu, h_c04_c05_c10_c11_refill_wrapu);
elems!(Wrap, CheckedIndexing, true, |i| (sz1(), sz(), i), |p| WrapInit(tup2::Init(Ob1Init { id: p.2 as u8, size: p.0 }, ObInit { id: p.2 + 10, size: p.1 })),
    h_c03_c10_c11_c13_look_wrapc_deep, h_c04_c05_gone_wrapc_deep, h_c01_c04_c05_c10_moved_wrapc_deep, h_c04_c05_c10_c11_refill_wrapc_deep);
indexed!(Wrap, |i| (sz1(), sz(), i), |p| WrapInit(tup2::Init(Ob1Init { id: p.2 as u8, size: p.0 }, ObInit { id: p.2 + 10, size: p.1 })), h_c12_c13_index_wrap_deep);
