#![allow(dead_code, unused)]
// What is only shared is only read: the engine refuses every write to the object, its handle, its sequence and the blocks they own.
include!("ob.rs");
use varlen::array::{ArrayLen, SizedInit};
use varlen::array_init::*;
use varlen::{define_varlen, define_varlen_newtype, FixedLen, Str};

#[define_varlen]
pub struct Genx { pub h: u16, #[varlen] pub a: Ob, #[controls_layout] pub n: u8, #[varlen_array] pub t: [u32; *n as usize] }
#[define_varlen]
pub struct Bare { #[varlen] pub a: Ob1, #[varlen] pub b: Ob4 }
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Wrap(Tup2<Ob1, Ob>);
    with init: struct WrapInit<_>(_);
    with inner_ref: fn inner(&self) -> &_;
    with inner_mut: fn inner_mut(self: _) -> _;
}
macro_rules! looks {
    ($t:ty, |$i:ident| $prep:expr, |$p:ident| $init:expr, |$e:ident| $read:expr, |$d:ident| $dup:expr, $boxed:ident, $owned:ident, $plain:ident, $sequ:ident, $seqc:ident) => {
        pub fn $boxed() {
            let mk = |$i: usize| $prep;
            let b: VBox<$t> = { let $p = mk(1); VBox::new($init) };
            shared(&b);
            let n = b.calculate_layout().size();
            { let $e: &$t = &*b; $read; }
            { let $e: &$t = &b; $read; }
            { let $d: &$t = &*b; $dup; }
            check("c30 an object that was only looked at is as it was", b.calculate_layout().size() == n);
            unshared();
        }
        pub fn $owned() {
            let arena = core::mem::ManuallyDrop::new(bumpalo::Bump::new());
            let mk = |$i: usize| $prep;
            let b: Owned<'_, $t> = { let $p = mk(1); Owned::new_in($init, &arena) };
            shared(&b);
            let n = b.calculate_layout().size();
            { let $e: &$t = &*b; $read; }
            { let $d: &$t = &*b; $dup; }
            check("c30 an object that was only looked at is as it was", b.calculate_layout().size() == n);
            unshared();
        }
        pub fn $plain() {
            let mk = |$i: usize| $prep;
            let i = { let $p = mk(1); $init };
            let l = Initializer::<$t>::calculate_layout_cautious(&i).unwrap();
            let n = l.size();
            let p: *mut $t = buf(n, <$t>::ALIGN);
            unsafe { i.initialize(NonNull::new_unchecked(p), l); }
            let b: &$t = unsafe { &*p };
            shared(b);
            check("c30 an object that was only looked at is as it was", b.calculate_layout().size() == n);
            { let $e: &$t = b; $read; }
            { let $d: &$t = b; $dup; }
            unshared();
        }
        looks!(@seq $t, UncheckedIndexing, |$i| $prep, |$p| $init, |$e| $read, |$d| $dup, |s| { }, $sequ);
        looks!(@seq $t, CheckedIndexing, |$i| $prep, |$p| $init, |$e| $read, |$d| $dup, |s| {
            check("c30 offsets lead back", s.offset_of(s.from_offset(0)) == 0);
            check("c30 validity of an offset", s.is_offset_valid(0) && !s.is_offset_valid(s.offset()));
            let o = any();
            aside! { if s.is_offset_valid(o) { check("c30 validity of an offset", o < s.offset()); } }
        }, $seqc);
    };
    (@seq $t:ty, $idx:ty, |$i:ident| $prep:expr, |$p:ident| $init:expr, |$e:ident| $read:expr, |$d:ident| $dup:expr, |$s:ident| $more:expr, $f:ident) => {
        pub fn $f() {
            let mk = |$i: usize| $prep;
            let mut seq: Seq<$t, $idx> = Seq::new();
            { let $p = mk(1); seq.push($init); }
            { let $p = mk(2); seq.push($init); }
            let $s: &Seq<$t, $idx> = &seq;
            shared($s);
            let end = $s.offset();
            check("c30 looking changes no count", $s.len() == 2 && $s.capacity_in_offsets() >= end);
            {
                let mut it = $s.iter();
                check("c30 looking changes no count", it.len() == 2 && it.size_hint() == (2, Some(2)));
                let $e = it.next().unwrap();
                $read;
                let $d = it.next().unwrap();
                $dup;
                let o = $s.offset_of($d);
                check("c30 offsets lead back", same_addr(unsafe { $s.from_offset_unchecked(o) }, $d));
                check("c30 looking changes no count", it.next().is_none());
                for e in $s.iter() { e.calculate_layout().size(); }
                check("c30 looking changes no count", $s.iter().count() == 2 && $s.iter().limited_to(1).len() == 1);
                check("c30 the last one is found", same_addr($s.iter().nth(1).unwrap(), $d) && same_addr($s.iter().last().unwrap(), $d));
            }
            $more;
            check("c30 looking changes no count", $s.len() == 2 && $s.offset() == end);
            unshared();
            stop();
        }
    };
}
looks!(Tup2<Ob1, Ob>, |i| (sz1(), sz(), i), |p| tup2::Init(Ob1Init { id: p.2 as u8, size: p.0 }, ObInit { id: p.2 + 10, size: p.1 }),
    |e| { let r = e.refs(); check("c30 both parts are read", r.0.size >= 2 && r.1.size >= 2); },
    |d| { let c: VBox<Tup2<Ob1, Ob>> = VBox::new(d.vclone()); let k: Seq<Tup2<Ob1, Ob>> = varlen::seq![d.vclone()]; },
    h_c30_boxed_tup18, h_c30_owned_tup18, h_c30_plain_tup18, h_c30_seq_tup18, h_c30_iseq_tup18);
looks!(Tup2<Oby, Ob2>, |i| (sz4(), sz2(), i), |p| tup2::Init(ObyInit { id: p.2 as u32, size: p.0 }, Ob2Init { id: p.2 as u16 + 10, size: p.1 }),
    |e| { let r = e.refs(); check("c30 both parts are read", r.0.size >= 2 && r.1.size >= 2); },
    |d| { let c: VBox<Tup2<Oby, Ob2>> = VBox::new(d.vclone()); let k: Seq<Tup2<Oby, Ob2>> = varlen::seq![d.vclone()]; },
    h_c30_boxed_tupy, h_c30_owned_tupy, h_c30_plain_tupy, h_c30_seq_tupy, h_c30_iseq_tupy);
looks!(Tup2<FixedLen<()>, FixedLen<()>>, |i| (), |p| tup2::Init(FixedLen(()), FixedLen(())),
    |e| { let r = e.refs(); },
    |d| { let c: VBox<Tup2<FixedLen<()>, FixedLen<()>>> = VBox::new(d.vcopy()); let k: IndexableSeq<Tup2<FixedLen<()>, FixedLen<()>>> = varlen::seq![d.vcopy()]; let c: VBox<Tup2<FixedLen<()>, FixedLen<()>>> = VBox::new(d.vclone()); let k: Seq<Tup2<FixedLen<()>, FixedLen<()>>> = varlen::seq![d.vclone()]; },
    h_c30_boxed_tupz, h_c30_owned_tupz, h_c30_plain_tupz, h_c30_seq_tupz, h_c30_iseq_tupz);
looks!(Array<u8>, |i| slice_any::<u8>(small()), |p| Array::copy(p),
    |e| { let s: &[_] = e; let n = s.len(); check("c30 the length is read", e.len() == n && e.len_short().as_usize() == n); if n > 0 { let x = &s[below(n)]; let y = *x; } },
    |d| { let c: VBox<Array<u8>> = VBox::new(d.vcopy()); let k: IndexableSeq<Array<u8>> = varlen::seq![d.vcopy()]; let c: VBox<Array<u8>> = VBox::new(d.vclone()); let k: Seq<Array<u8>> = varlen::seq![d.vclone()]; },
    h_c30_boxed_arr8, h_c30_owned_arr8, h_c30_plain_arr8, h_c30_seq_arr8, h_c30_iseq_arr8);
looks!(Array<u64, u8>, |i| slice_any::<u64>(any_u8() as usize), |p| Array::<u64, u8>::try_copy(p).unwrap(),
    |e| { let s: &[_] = e; let n = s.len(); check("c30 the length is read", e.len() == n && e.len_short().as_usize() == n); if n > 0 { let x = &s[below(n)]; let y = *x; } },
    |d| { let c: VBox<Array<u64, u8>> = VBox::new(d.vcopy()); let k: IndexableSeq<Array<u64, u8>> = varlen::seq![d.vcopy()]; let c: VBox<Array<u64, u8>> = VBox::new(d.vclone()); let k: Seq<Array<u64, u8>> = varlen::seq![d.vclone()]; },
    h_c30_boxed_arr64b, h_c30_owned_arr64b, h_c30_plain_arr64b, h_c30_seq_arr64b, h_c30_iseq_arr64b);
looks!(Array<u32, u16>, |i| slice_any::<u32>(any_u16() as usize), |p| Array::<u32, u16>::try_copy(p).unwrap(),
    |e| { let s: &[_] = e; let n = s.len(); check("c30 the length is read", e.len() == n && e.len_short().as_usize() == n); if n > 0 { let x = &s[below(n)]; let y = *x; } },
    |d| { let c: VBox<Array<u32, u16>> = VBox::new(d.vcopy()); let k: IndexableSeq<Array<u32, u16>> = varlen::seq![d.vcopy()]; let c: VBox<Array<u32, u16>> = VBox::new(d.vclone()); let k: Seq<Array<u32, u16>> = varlen::seq![d.vclone()]; },
    h_c30_boxed_arr32h, h_c30_owned_arr32h, h_c30_plain_arr32h, h_c30_seq_arr32h, h_c30_iseq_arr32h);
looks!(Array<Tok, u8>, |i| i, |p| SizedInit(any_u8(), FillSequentially(move |_| Tok(p))),
    |e| { let s: &[_] = e; let n = s.len(); check("c30 the length is read", e.len() == n); if n > 0 { let x = &s[below(n)]; } },
    |d| (),
    h_c30_boxed_arrtok, h_c30_owned_arrtok, h_c30_plain_arrtok, h_c30_seq_arrtok, h_c30_iseq_arrtok);
looks!(Array<()>, |i| small(), |p| SizedInit(p, FillSequentially(|_| ())),
    |e| { let s: &[_] = e; let n = s.len(); check("c30 the length is read", e.len() == n && e.len_short().as_usize() == n); if n > 0 { let x = &s[below(n)]; let y = *x; } },
    |d| { let c: VBox<Array<()>> = VBox::new(d.vcopy()); let k: IndexableSeq<Array<()>> = varlen::seq![d.vcopy()]; let c: VBox<Array<()>> = VBox::new(d.vclone()); let k: Seq<Array<()>> = varlen::seq![d.vclone()]; },
    h_c30_boxed_arrunit, h_c30_owned_arrunit, h_c30_plain_arrunit, h_c30_seq_arrunit, h_c30_iseq_arrunit);
looks!(Str<u8>, |i| str_any(any_u8() as usize), |p| Str::<u8>::try_copy(p).unwrap(),
    |e| { let s: &str = e; let n = s.len(); check("c30 the length is read", e.as_bytes().len() == n); if n > 0 { let x = s.as_bytes()[below(n)]; } },
    |d| { let c: VBox<Str<u8>> = VBox::new(d.vcopy()); let k: IndexableSeq<Str<u8>> = varlen::seq![d.vcopy()]; let c: VBox<Str<u8>> = VBox::new(d.vclone()); let k: Seq<Str<u8>> = varlen::seq![d.vclone()]; },
    h_c30_boxed_strb, h_c30_owned_strb, h_c30_plain_strb, h_c30_seq_strb, h_c30_iseq_strb);
looks!(Str, |i| str_any(small()), |p| Str::copy(p),
    |e| { let s: &str = e; let n = s.len(); check("c30 the length is read", e.as_bytes().len() == n); if n > 0 { let x = s.as_bytes()[below(n)]; } },
    |d| { let c: VBox<Str> = VBox::new(d.vcopy()); let k: IndexableSeq<Str> = varlen::seq![d.vcopy()]; let c: VBox<Str> = VBox::new(d.vclone()); let k: Seq<Str> = varlen::seq![d.vclone()]; },
    h_c30_boxed_str, h_c30_owned_str, h_c30_plain_str, h_c30_seq_str, h_c30_iseq_str);
looks!(FixedLen<Tok>, |i| i, |p| FixedLen(Tok(p)),
    |e| { let x = e.0.0; },
    |d| (),
    h_c30_boxed_fixtok, h_c30_owned_fixtok, h_c30_plain_fixtok, h_c30_seq_fixtok, h_c30_iseq_fixtok);
looks!(FixedLen<[u16; 3]>, |i| [1u16, 2, 3], |p| FixedLen(p),
    |e| { let x = e.0[below(3)]; },
    |d| { let c: VBox<FixedLen<[u16; 3]>> = VBox::new(d.vcopy()); let k: IndexableSeq<FixedLen<[u16; 3]>> = varlen::seq![d.vcopy()]; let c: VBox<FixedLen<[u16; 3]>> = VBox::new(d.vclone()); let k: Seq<FixedLen<[u16; 3]>> = varlen::seq![d.vclone()]; },
    h_c30_boxed_fixarr, h_c30_owned_fixarr, h_c30_plain_fixarr, h_c30_seq_fixarr, h_c30_iseq_fixarr);
looks!(Genx, |i| (sz(), any_u8(), i), |p| genx::Init { h: 1, a: ObInit { id: p.2, size: p.0 }, n: p.1, t: FillSequentially(|_| 7) },
    |e| { let r = e.refs(); check("c30 the length is read", r.t.len() == *r.n as usize); let x = (*r.h, r.a.size); if *r.n > 0 { let y = r.t[below(*r.n as usize)]; } },
    |d| (),
    h_c30_boxed_genx, h_c30_owned_genx, h_c30_plain_genx, h_c30_seq_genx, h_c30_iseq_genx);
looks!(Bare, |i| (sz1(), sz4(), i), |p| bare::Init { a: Ob1Init { id: p.2 as u8, size: p.0 }, b: Ob4Init { id: p.2 as u32 + 10, size: p.1 } },
    |e| { let r = e.refs(); let x = (r.a.size, r.b.size); },
    |d| (),
    h_c30_boxed_bare, h_c30_owned_bare, h_c30_plain_bare, h_c30_seq_bare, h_c30_iseq_bare);
looks!(Wrap, |i| (sz1(), sz(), i), |p| WrapInit(tup2::Init(Ob1Init { id: p.2 as u8, size: p.0 }, ObInit { id: p.2 + 10, size: p.1 })),
    |e| { let r = e.inner().refs(); let x = (r.0.size, r.1.size); },
    |d| (),
    h_c30_boxed_wrap, h_c30_owned_wrap, h_c30_plain_wrap, h_c30_seq_wrap, h_c30_iseq_wrap);
looks!(Ob1, |i| (sz1(), i), |p| Ob1Init { id: p.1 as u8, size: p.0 },
    |e| { let x = e.size; },
    |d| { let c: VBox<Ob1> = VBox::new(d.vclone()); let k: Seq<Ob1> = varlen::seq![d.vclone()]; },
    h_c30_boxed_ob1, h_c30_owned_ob1, h_c30_plain_ob1, h_c30_seq_ob1, h_c30_iseq_ob1);
looks!(Ob, |i| (sz(), i), |p| ObInit { id: p.1, size: p.0 },
    |e| { let x = e.size; },
    |d| { let c: VBox<Ob> = VBox::new(d.vclone()); let k: Seq<Ob> = varlen::seq![d.vclone()]; },
    h_c30_boxed_ob, h_c30_owned_ob, h_c30_plain_ob, h_c30_seq_ob, h_c30_iseq_ob);
looks!(Ob16, |i| (sz(), i), |p| Ob16Init { id: p.1, size: p.0 },
    |e| { let x = e.size; },
    |d| { let c: VBox<Ob16> = VBox::new(d.vclone()); let k: Seq<Ob16> = varlen::seq![d.vclone()]; },
    h_c30_boxed_ob16, h_c30_owned_ob16, h_c30_plain_ob16, h_c30_seq_ob16, h_c30_iseq_ob16);
looks!(Tup3<Str<u8>, Array<u64, u8>, FixedLen<u16>>, |i| (any_u8(), any_u8()), |p| tup3::Init(Str::<u8>::try_copy(str_any(p.0 as usize)).unwrap(), Array::<u64, u8>::try_copy(slice_any::<u64>(p.1 as usize)).unwrap(), FixedLen(3u16)),
    |e| { let r = e.refs(); let n = r.0.len() + r.1.len(); let x = r.2.0; if r.1.len() > 0 { let y = r.1[below(r.1.len())]; } },
    |d| { let c: VBox<Tup3<Str<u8>, Array<u64, u8>, FixedLen<u16>>> = VBox::new(d.vcopy()); let k: IndexableSeq<Tup3<Str<u8>, Array<u64, u8>, FixedLen<u16>>> = varlen::seq![d.vcopy()]; let c: VBox<Tup3<Str<u8>, Array<u64, u8>, FixedLen<u16>>> = VBox::new(d.vclone()); let k: Seq<Tup3<Str<u8>, Array<u64, u8>, FixedLen<u16>>> = varlen::seq![d.vclone()]; },
    h_c30_boxed_mix, h_c30_owned_mix, h_c30_plain_mix, h_c30_seq_mix_deep, h_c30_iseq_mix_deep);
