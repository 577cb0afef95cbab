// Variable-length element types whose size, contents and behaviour are unknown to the library.
include!("kit.rs");
use varlen::prelude::*;
use varlen::{Layout, Initializer, VarLen, VClone, VCopy};
use varlen::seq::{CheckedIndexing, UncheckedIndexing, Indexing, IndexableSeq};
use core::pin::Pin;
use core::ptr::NonNull;

macro_rules! ob {
    ($ob:ident, $lay:ident, $init:ident, $cloner:ident, $int:ty, $align:expr, $($repr:tt)*) => {
        #[$($repr)*]
        pub struct $ob { pub id: $int, pub size: $int }
        #[derive(PartialEq, Eq)]
        pub struct $lay(usize);
        impl Layout for $lay { fn size(&self) -> usize { self.0 } }
        unsafe impl VarLen for $ob {
            type Layout = $lay;
            fn calculate_layout(&self) -> $lay { $lay(self.size as usize) }
            const ALIGN: usize = $align;
            const NEEDS_VDROP: bool = true;
            unsafe fn vdrop(self: Pin<&mut Self>, layout: $lay) {
                check("c05 destroyed with its own layout", layout.0 == self.size as usize);
                event(DROP, self.id as usize);
                storage(&*self as *const _ as *const u8, self.size as usize, $align);
            }
        }
        pub struct $cloner<'a>(&'a $ob);
        impl<'a> VClone<'a> for $ob {
            type Cloner = $cloner<'a>;
            fn vclone(&'a self) -> $cloner<'a> { $cloner(self) }
        }
        unsafe impl<'a> VCopy<'a> for $ob {}
        unsafe impl<'a> Initializer<$ob> for $cloner<'a> {
            fn calculate_layout_cautious(&self) -> Option<$lay> { Some($lay(self.0.size as usize)) }
            unsafe fn initialize(self, dst: NonNull<$ob>, layout: $lay) {
                check("c01 initialized with the promised layout", layout.0 == self.0.size as usize);
                storage(dst.as_ptr() as *const u8, self.0.size as usize, $align);
                event(CLONE, self.0.id as usize);
                dst.as_ptr().write($ob { id: self.0.id + 100, size: self.0.size });
            }
        }
        pub struct $init { pub id: $int, pub size: $int }
        unsafe impl Initializer<$ob> for $init {
            fn calculate_layout_cautious(&self) -> Option<$lay> { Some($lay(self.size as usize)) }
            unsafe fn initialize(self, dst: NonNull<$ob>, layout: $lay) {
                check("c01 initialized with the promised layout", layout.0 == self.size as usize);
                storage(dst.as_ptr() as *const u8, self.size as usize, $align);
                event(MAKE, self.id as usize);
                dst.as_ptr().write($ob { id: self.id, size: self.size });
            }
        }
    };
}
ob!(Ob, ObLay, ObInit, ObCl, usize, 8, repr(C));
ob!(Ob1, Ob1Lay, Ob1Init, Ob1Cl, u8, 1, repr(C));
ob!(Ob2, Ob2Lay, Ob2Init, Ob2Cl, u16, 2, repr(C));
ob!(Ob4, Ob4Lay, Ob4Init, Ob4Cl, u32, 4, repr(C));
ob!(Ob16, Ob16Lay, Ob16Init, Ob16Cl, usize, 16, repr(C, align(16)));
// Stricter alignment than the header's own, and none at all.
ob!(Obx, ObxLay, ObxInit, ObxCl, usize, 32, repr(C));
ob!(Obp, ObpLay, ObpInit, ObpCl, usize, 1, repr(C, packed));
ob!(Ob64, Ob64Lay, Ob64Init, Ob64Cl, usize, 64, repr(C, align(64)));
// The alignment of a page.
ob!(Oby, ObyLay, ObyInit, ObyCl, u32, 4096, repr(C));
pub fn sz() -> usize { let n = any(); assume(n >= 16 && n <= 1 << 40); n }
pub fn sz64() -> usize { let n = any(); assume(n >= 64 && n <= 1 << 40); n }
pub fn sz1() -> u8 { let n = any_u8(); assume(n >= 2); n }
pub fn sz2() -> u16 { let n = any_u16(); assume(n >= 4); n }
pub fn sz4() -> u32 { let n = any_u32(); assume(n >= 8); n }
/// An object that takes no space.
pub fn up(n: usize, a: usize) -> usize { (n + (a - 1)) / a }
