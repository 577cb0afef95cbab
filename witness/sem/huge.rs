#![allow(dead_code, unused)]
include!("ob.rs");
use core::marker::PhantomData;
use core::mem::{align_of, size_of};
use varlen::array::{ArrayLen, SizedInit};
use varlen::array_init::*;
use varlen::{define_varlen, define_varlen_newtype, FixedLen, Str};
use varlen::tuple::*;

/// An initializer that promises any size at all.
pub struct Claims<T>(usize, PhantomData<T>);
macro_rules! claims { ($($ob:ident $init:ident),*) => { $(
    unsafe impl Initializer<$ob> for Claims<$ob> {
        fn calculate_layout_cautious(&self) -> Option<<$ob as VarLen>::Layout> { if self.0 < size_of::<$ob>() { None } else { $init { id: 0, size: self.0 as _ }.calculate_layout_cautious() } }
        unsafe fn initialize(self, dst: NonNull<$ob>, layout: <$ob as VarLen>::Layout) {
            storage(dst.as_ptr() as *const u8, layout.size(), <$ob as VarLen>::ALIGN);
            event(MAKE, 1);
            dst.as_ptr().write($ob { id: 2, size: self.0 as _ });
        }
    }
)* } }
claims!(Obx ObxInit, Obp ObpInit, Ob ObInit, Ob16 Ob16Init, Ob64 Ob64Init);
pub fn claim<T>() -> (usize, Claims<T>) { let n = any(); assume(n >= size_of::<T>()); (n, Claims(n, PhantomData)) }

macro_rules! arrays {
    ($f:ident, $store:ident, $t:ty, $len:ty, $any:expr) => {
        /// Any element count: the promise is exact, or there is none.
        pub fn $f() {
            let n: $len = $any;
            let i = SizedInit(n, Nothing);
            let need = size_of::<Array<$t, $len>>() as u128 + n as u128 * size_of::<$t>() as u128;
            match Initializer::<Array<$t, $len>>::calculate_layout_cautious(&i) {
                Some(l) => check("c02 the promised size has room for everything", l.size() as u128 >= need && l.size() as u128 - need < 64),
                None => check("c02 only what cannot be represented is refused", need + 64 > usize::MAX as u128),
            }
        }
        /// Boxing any element count: granted only in a block that holds everything.
        pub fn $store() {
            let n: $len = $any;
            let need = size_of::<Array<$t, $len>>() as u128 + n as u128 * size_of::<$t>() as u128;
            let r = catch(|| {
                let b: VBox<Array<$t, $len>> = VBox::new(SizedInit(n, Nothing));
                reach("granted");
                check("c02 a size that was granted fits", block_size(&*b) as u128 >= need);
                core::mem::forget(b);
            });
            if r { check("c02 refused before any memory is obtained", allocs() == 0); }
        }
    };
}
/// Leaves the elements alone: the element types here accept any bytes, and are not looked at.
pub struct Nothing;
unsafe impl<T> ArrayInitializer<T> for Nothing {
    fn initialize(self, dst: &mut [core::mem::MaybeUninit<T>]) { storage(dst.as_ptr() as *const u8, dst.len() * size_of::<T>(), align_of::<T>()); }
}
arrays!(h_c02_array_u8, h_c02_c03_array_u8_box, u8, usize, any());
arrays!(h_c02_array_u16, h_c02_c03_array_u16_box, u16, usize, any());
arrays!(h_c02_array_u64, h_c02_c03_array_u64_box, u64, usize, any());
arrays!(h_c02_array_odd, h_c02_c03_array_odd_box, [u16; 3], usize, any());
arrays!(h_c02_array_page, h_c02_c03_array_page_box, [u64; 512], u32, any_u32());
arrays!(h_c02_array_u128, h_c02_c03_array_u128_box, u128, u64, any() as u64);
arrays!(h_c02_array_none, h_c02_c03_array_none_box, (), usize, any());

/// Sums of parts of any size.
pub fn h_c02_tuple2() {
    let ((a, i), (b, j)) = (claim::<Ob>(), claim::<Ob64>());
    match Initializer::<Tup2<Ob, Ob64>>::calculate_layout_cautious(&tup2::Init(i, j)) {
        Some(l) => check("c02 the promised size has room for everything", l.size() as u128 >= a as u128 + b as u128 && l.size() as u128 - a as u128 - (b as u128) < 128),
        None => check("c02 only what cannot be represented is refused", a as u128 + b as u128 + 128 > usize::MAX as u128),
    }
}
pub fn h_c02_tuple3() {
    let ((a, i), (b, j), (c, k)) = (claim::<Ob64>(), claim::<Ob>(), claim::<Ob16>());
    match Initializer::<Tup3<Ob64, Ob, Ob16>>::calculate_layout_cautious(&tup3::Init(i, j, k)) {
        Some(l) => check("c02 the promised size has room for everything", l.size() as u128 >= a as u128 + b as u128 + c as u128 && l.size() as u128 - a as u128 - b as u128 - (c as u128) < 256),
        None => check("c02 only what cannot be represented is refused", a as u128 + b as u128 + c as u128 + 256 > usize::MAX as u128),
    }
}
pub fn h_c02_tuple_nested() {
    let ((a, i), (b, j), (c, k)) = (claim::<Ob>(), claim::<Ob16>(), claim::<Ob64>());
    match Initializer::<Tup2<Tup2<Ob, Ob16>, Ob64>>::calculate_layout_cautious(&tup2::Init(tup2::Init(i, j), k)) {
        Some(l) => check("c02 the promised size has room for everything", l.size() as u128 >= a as u128 + b as u128 + c as u128),
        None => check("c02 only what cannot be represented is refused", a as u128 + b as u128 + c as u128 + 256 > usize::MAX as u128),
    }
}

#[define_varlen]
pub struct Wide {
    #[controls_layout]
    pub n: usize,
    #[controls_layout]
    pub m: u32,
    #[varlen]
    pub a: Ob,
    #[varlen_array]
    pub longs: [u64; *n],
    #[varlen_array]
    pub shorts: [u16; (*m as usize)],
    #[varlen]
    pub b: Ob64,
    #[varlen_array]
    pub odd: [[u8; 3]; *n],
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Wrap(pub Wide);
    with init: pub struct WrapInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
pub fn h_c02_generated() {
    let ((a, i), (b, j)) = (claim::<Ob>(), claim::<Ob64>());
    let (n, m) = (any(), any_u32());
    let init = wide::Init { n, m, a: i, longs: Nothing, shorts: Nothing, b: j, odd: Nothing };
    let need = size_of::<Wide>() as u128 + a as u128 + b as u128 + n as u128 * 11 + m as u128 * 2;
    let l = if any_bool() { Initializer::<Wide>::calculate_layout_cautious(&init).map(|l| l.size()) } else { Initializer::<Wrap>::calculate_layout_cautious(&WrapInit(init)).map(|l| l.size()) };
    match l {
        Some(l) => check("c02 the promised size has room for everything", l as u128 >= need && l as u128 - need < 256),
        None => check("c02 only what cannot be represented is refused", need + 256 > usize::MAX as u128),
    }
}
pub fn h_c02_c03_generated_box() {
    let ((a, i), (b, j)) = (claim::<Ob>(), claim::<Ob64>());
    let (n, m) = (any(), any_u32());
    let need = size_of::<Wide>() as u128 + a as u128 + b as u128 + n as u128 * 11 + m as u128 * 2;
    let r = catch(|| {
        let b: VBox<Wide> = VBox::new(wide::Init { n, m, a: i, longs: Nothing, shorts: Nothing, b: j, odd: Nothing });
        reach("granted");
        check("c02 a size that was granted fits", block_size(&*b) as u128 >= need);
        core::mem::forget(b);
    });
    if r { check("c02 refused before anything is written", count(MAKE, 1) == 0 && allocs() == 0); }
}

macro_rules! seqs {
    ($ob:ident, $init:ident, $align:expr, $idx:ty, $sz:expr, $one:ident, $two:ident, $fail:ident, $first:ident) => {
        /// Any size of the first element.
        pub fn $one() {
            let (n, i) = claim::<$ob>();
            let mut s: Seq<$ob, $idx> = Seq::new();
            let r = catch(|| {
                s.push(i);
                check("c02 a size that was granted fits", s.offset() as u128 * $align >= n as u128 && s.capacity_in_offsets() >= s.offset() && block_size(s.iter().next().unwrap()) >= s.capacity_in_offsets() * $align);
            });
            if r {
                check("c02 refused before anything is written", count(MAKE, 1) == 0 && allocs() == 0);
                check("c02 refused and nothing changed", s.len() == 0 && s.offset() == 0 && s.capacity_in_offsets() == 0);
            }
        }
        /// Any size of the second.
        pub fn $two() {
            let (n, i) = claim::<$ob>();
            let z = $sz;
            let mut s: Seq<$ob, $idx> = Seq::new();
            s.push($init { id: 9, size: z });
            let (o, c) = (s.offset(), s.capacity_in_offsets());
            let r = catch(|| {
                s.push(i);
                check("c02 a size that was granted fits", s.offset() as u128 * $align >= n as u128 + z as u128 && s.capacity_in_offsets() >= s.offset());
            });
            if r {
                check("c02 refused before anything is written", count(MAKE, 1) == 0 && allocs() == 1);
                check("c02 refused and nothing changed", s.len() == 1 && s.offset() == o && s.capacity_in_offsets() == c);
                check("c14 the earlier element is kept", s.iter().next().unwrap().id == 9);
            }
        }
        /// The allocator may refuse the first block.
        pub fn $first() {
            let (n, i) = claim::<$ob>();
            let mut s: Seq<$ob, $idx> = Seq::new();
            alloc_may_fail(true);
            let r = catch(|| s.push(i));
            if r {
                check("c02 refused before anything is written", count(MAKE, 1) == 0);
                check("c14 nothing is kept of a failed push", s.len() == 0 && s.offset() == 0 && s.capacity_in_offsets() == 0);
                check("c04 no block", live() == 0);
            } else {
                reach("granted");
                check("c04 one block", live() == 1);
            }
        }
        /// The allocator may refuse, too.
        pub fn $fail() {
            let (n, i) = claim::<$ob>();
            let z = $sz;
            let mut s: Seq<$ob, $idx> = Seq::new();
            s.push($init { id: 9, size: z });
            let (o, c) = (s.offset(), s.capacity_in_offsets());
            alloc_may_fail(true);
            let r = catch(|| s.push(i));
            if r {
                check("c02 refused before anything is written", count(MAKE, 1) == 0);
                check("c14 the earlier element is kept", s.len() == 1 && s.offset() == o && s.capacity_in_offsets() == c && s.iter().next().unwrap().id == 9);
            }
            check("c04 one block", live() == 1);
        }
    };
}
seqs!(Ob, ObInit, 8, UncheckedIndexing, sz(), h_c02_c03_seq_one8, h_c02_c03_c14_seq_two8, h_c02_c03_c04_c14_seq_fail8, h_c02_c03_c04_c14_seq_first8);
seqs!(Ob, ObInit, 8, CheckedIndexing, sz(), h_c02_c03_seq_one8i, h_c02_c03_c14_seq_two8i, h_c02_c03_c04_c14_seq_fail8i, h_c02_c03_c04_c14_seq_first8i);
seqs!(Ob64, Ob64Init, 64, UncheckedIndexing, sz64(), h_c02_c03_seq_one64, h_c02_c03_c14_seq_two64, h_c02_c03_c04_c14_seq_fail64, h_c02_c03_c04_c14_seq_first64);
seqs!(Ob64, Ob64Init, 64, CheckedIndexing, sz64(), h_c02_c03_seq_one64i, h_c02_c03_c14_seq_two64i, h_c02_c03_c04_c14_seq_fail64i, h_c02_c03_c04_c14_seq_first64i);
seqs!(Obx, ObxInit, 32, UncheckedIndexing, sz(), h_c02_c03_seq_onex, h_c02_c03_c14_seq_twox, h_c02_c03_c04_c14_seq_failx, h_c02_c03_c04_c14_seq_firstx);
seqs!(Obx, ObxInit, 32, CheckedIndexing, sz(), h_c02_c03_seq_onexi, h_c02_c03_c14_seq_twoxi, h_c02_c03_c04_c14_seq_failxi, h_c02_c03_c04_c14_seq_firstxi);
seqs!(Obp, ObpInit, 1, UncheckedIndexing, sz(), h_c02_c03_seq_onep, h_c02_c03_c14_seq_twop, h_c02_c03_c04_c14_seq_failp, h_c02_c03_c04_c14_seq_firstp);
seqs!(Obp, ObpInit, 1, CheckedIndexing, sz(), h_c02_c03_seq_onepi, h_c02_c03_c14_seq_twopi, h_c02_c03_c04_c14_seq_failpi, h_c02_c03_c04_c14_seq_firstpi);
/// Element types that are aligned more than anything usual.
#[derive(Copy, Clone)]
#[repr(align(32))]
pub struct A32(pub [u64; 4]);
#[derive(Copy, Clone)]
#[repr(align(64))]
pub struct A64(pub [u64; 24]);
#[derive(Copy, Clone)]
#[repr(align(4096))]
pub struct A4096(pub [u64; 512]);
macro_rules! wide_arrays {
    ($f:ident, $store:ident, $t:ty, $len:ty, $any:expr) => {
        pub fn $f() {
            let n: $len = $any;
            let i = SizedInit(n, Nothing);
            let need = size_of::<Array<$t, $len>>() as u128 + n as u128 * size_of::<$t>() as u128;
            match Initializer::<Array<$t, $len>>::calculate_layout_cautious(&i) {
                Some(l) => check("c02 the promised size has room for everything", l.size() as u128 >= need && l.size() as u128 - need < align_of::<$t>() as u128),
                None => check("c02 only what cannot be represented is refused", need + align_of::<$t>() as u128 > usize::MAX as u128),
            }
        }
        pub fn $store() {
            let n: $len = $any;
            let need = size_of::<Array<$t, $len>>() as u128 + n as u128 * size_of::<$t>() as u128;
            let r = catch(|| {
                let b: VBox<Array<$t, $len>> = VBox::new(SizedInit(n, Nothing));
                reach("granted");
                check("c02 a size that was granted fits", block_size(&*b) as u128 >= need);
                core::mem::forget(b);
            });
            if r { check("c02 refused before any memory is obtained", allocs() == 0); }
        }
    };
}
wide_arrays!(h_c02_array_a32, h_c02_c03_array_a32_box, A32, usize, any());
wide_arrays!(h_c02_array_a64, h_c02_c03_array_a64_box, A64, usize, any());
wide_arrays!(h_c02_array_a4096, h_c02_c03_array_a4096_box, A4096, usize, any());
wide_arrays!(h_c02_array_a64w, h_c02_c03_array_a64w_box, A64, u64, any() as u64);
#[define_varlen]
pub struct WideTail {
    #[controls_layout]
    pub n: usize,
    #[varlen_array]
    pub a: [A64; *n],
    #[varlen_array]
    pub b: [A32; *n],
    #[varlen_array]
    pub c: [u8; *n],
}
pub fn h_c02_wide_tail() {
    let n = any();
    let need = 8 + n as u128 * (192 + 32 + 1);
    match Initializer::<WideTail>::calculate_layout_cautious(&wide_tail::Init { n, a: Nothing, b: Nothing, c: Nothing }) {
        Some(l) => check("c02 the promised size has room for everything", l.size() as u128 >= need && l.size() as u128 - need < 128),
        None => check("c02 only what cannot be represented is refused", need + 128 > usize::MAX as u128),
    }
}
