#![allow(dead_code, unused)]
include!("ob.rs");
use varlen::array::SizedInit;
use varlen::array_init::*;

macro_rules! boxes {
    ($ob:ident, $init:ident, $cloner:ident, $align:expr, $sz:expr, $new:ident, $raw:ident, $mv:ident, $cl:ident, $fail:ident, $big:ident, $bump:ident, $own:ident, $leak:ident) => {
        pub fn $new() {
            let n = $sz;
            {
                let mut b = VBox::new($init { id: 5, size: n });
                check("c04 one block is obtained", allocs() == 1 && live() == 1);
                check("c05 built once", count(MAKE, 5) == 1 && count(DROP, 5) == 0);
                check("c01 the built size is the promised size", b.calculate_layout().size() == n as usize && b.id == 5);
                check("c03 the block holds the object", block_size(&*b) >= n as usize);
                let a: *const $ob = &*b;
                check("c07 all accessors agree", same_addr(&*b.as_mut(), a));
            }
            check("c05 destroyed once", count(DROP, 5) == 1 && count(MAKE, 5) == 1);
            check("c04 the block is released", live() == 0 && allocs() == 1);
        }
        pub fn $raw() {
            let n = $sz;
            let b = VBox::new($init { id: 5, size: n });
            let a: *const $ob = &*b;
            let p = unsafe { b.into_raw() };
            check("c05 giving the object away does not destroy it", count(DROP, 5) == 0);
            check("c04 giving the object away does not release its block", live() == 1);
            check("c04 the raw pointer is the object's address", same_addr(p, a));
            let b = unsafe { VBox::from_raw(p) };
            check("c05 the object is not touched", count(DROP, 5) == 0 && b.id == 5);
            drop(b);
            check("c05 destroyed once", count(DROP, 5) == 1);
            check("c04 the block is released", live() == 0);
        }
        pub fn $mv() {
            let n = $sz;
            let b = VBox::new($init { id: 5, size: n });
            let p: *mut $ob = buf(n as usize, $align);
            if any_bool() {
                unsafe {
                    let l = b.calculate_layout_cautious().unwrap();
                    check("c01 a boxed object promises its own size", l.size() == n as usize);
                    b.initialize(NonNull::new_unchecked(p), l);
                    check("c05 moving does not destroy or rebuild", count(DROP, 5) == 0 && count(MAKE, 5) == 1 && count(CLONE, 5) == 0);
                    check("c04 the old block is released once moved", live() == 0 && allocs() == 1);
                    check("c20 the object arrives", (*p).id == 5 && (*p).size == n);
                }
            } else {
                let c = VBox::new(b);
                check("c05 moving does not destroy or rebuild", count(DROP, 5) == 0 && count(MAKE, 5) == 1);
                check("c04 only the new block remains", live() == 1 && allocs() == 2);
                check("c20 the object arrives", c.id == 5 && c.size == n);
                drop(c);
                check("c05 destroyed once", count(DROP, 5) == 1);
                check("c04 the block is released", live() == 0);
            }
        }
        pub fn $cl() {
            let n = $sz;
            let b = VBox::new($init { id: 5, size: n });
            let mut c = b.clone();
            check("c20 cloned once", count(CLONE, 5) == 1 && count(MAKE, 5) == 1);
            check("c20 the clone is another object of the same size", !same_block(&*b, &*c) && c.id == 105 && b.id == 5 && c.size == n && b.size == n);
            drop(b);
            check("c05 each is destroyed once", count(DROP, 5) == 1 && count(DROP, 105) == 0);
            c = VBox::new(c.vclone());
            check("c20 cloned once", count(CLONE, 105) == 1);
            check("c05 the replaced object is destroyed once", count(DROP, 105) == 1 && count(DROP, 205) == 0);
            check("c04 one block remains", live() == 1);
            drop(c);
            check("c05 each is destroyed once", count(DROP, 5) == 1 && count(DROP, 105) == 1 && count(DROP, 205) == 1);
            check("c04 the blocks are released", live() == 0);
        }
        pub fn $fail() {
            let n = $sz;
            alloc_may_fail(true);
            let r = catch(|| {
                let b = VBox::new($init { id: 5, size: n });
                reach("built");
                check("c03 built in a real block", live() == 1 && block_size(&*b) >= n as usize);
            });
            check("c05 destroyed as often as built", count(DROP, 5) == count(MAKE, 5));
            check("c04 nothing is left", live() == 0);
        }
        pub fn $big() {
            // A size that no allocation can have.
            let n: usize = any();
            let r = catch(|| {
                let b = VBox::new(Claims::<$ob>(n as usize, core::marker::PhantomData));
                check("c02 a size that was granted fits", block_size(&*b) >= n as usize);
            });
            check("c04 nothing is left", live() == 0 || r);
        }
        pub fn $bump() {
            let n = $sz;
            let arena = core::mem::ManuallyDrop::new(bumpalo::Bump::new());
            {
                let mut b = Owned::new_in($init { id: 5, size: n }, &arena);
                check("c05 built once", count(MAKE, 5) == 1 && count(DROP, 5) == 0);
                check("c01 the built size is the promised size", b.calculate_layout().size() == n as usize && b.id == 5);
                let a: *const $ob = &*b;
                check("c07 all accessors agree", same_addr(&*b.as_mut(), a));
                let c = Owned::new_in($init { id: 6, size: n }, &arena);
                check("c03 objects do not share storage", b.id == 5 && c.id == 6 && !same_addr(&*b, &*c));
            }
            check("c05 destroyed once", count(DROP, 5) == 1 && count(DROP, 6) == 1);
        }
        pub fn $own() {
            let n = $sz;
            let p: *mut $ob = buf(n as usize, $align);
            unsafe { $init { id: 5, size: n }.initialize(NonNull::new_unchecked(p), $init { id: 5, size: n }.calculate_layout_cautious().unwrap()); }
            let o = unsafe { Owned::from_raw(NonNull::new_unchecked(p)) };
            check("c05 taking ownership does not touch the object", same_addr(&*o, p) && count(MAKE, 5) == 1 && count(DROP, 5) == 0);
            let q = unsafe { o.into_raw() };
            check("c05 giving the object away does not destroy it", same_addr(q.as_ptr(), p) && count(DROP, 5) == 0);
            let o = unsafe { Owned::from_raw(q) };
            if any_bool() {
                drop(o);
                check("c05 destroyed once", count(DROP, 5) == 1);
                check("c04 an owner does not release storage", allocs() == 0);
            } else {
                let b = VBox::new(o);
                check("c05 moving does not destroy or rebuild", count(DROP, 5) == 0 && count(MAKE, 5) == 1);
                check("c20 the object arrives", b.id == 5 && b.size == n && !same_block(&*b, p));
                drop(b);
                check("c05 destroyed once", count(DROP, 5) == 1);
                check("c04 the block is released", live() == 0 && allocs() == 1);
            }
        }
        pub fn $leak() {
            let n = $sz;
            let p: *mut $ob = buf(n as usize, $align);
            unsafe { $init { id: 5, size: n }.initialize(NonNull::new_unchecked(p), $init { id: 5, size: n }.calculate_layout_cautious().unwrap()); }
            let o: Owned<$ob> = unsafe { Owned::from_raw(NonNull::new_unchecked(p)) };
            let l = o.leak();
            check("c05 a leaked object is not destroyed", count(DROP, 5) == 0);
            check("c07 all accessors agree", same_addr(&*l, p));
            core::mem::drop(l);
            check("c05 a leaked object is not destroyed", count(DROP, 5) == 0);
        }
    };
}
/// An initializer that promises any size at all.
pub struct Claims<T>(usize, core::marker::PhantomData<T>);
macro_rules! claims { ($($ob:ident $init:ident),*) => { $(
    unsafe impl Initializer<$ob> for Claims<$ob> {
        fn calculate_layout_cautious(&self) -> Option<<$ob as VarLen>::Layout> { $init { id: 0, size: self.0 as _ }.calculate_layout_cautious() }
        unsafe fn initialize(self, dst: NonNull<$ob>, layout: <$ob as VarLen>::Layout) {
            storage(dst.as_ptr() as *const u8, layout.size(), <$ob as VarLen>::ALIGN);
            assume(self.0 >= core::mem::size_of::<$ob>());
            dst.as_ptr().write($ob { id: 1, size: self.0 as _ });
        }
    }
)* } }
claims!(Obx ObxInit, Obp ObpInit, Ob ObInit, Ob16 Ob16Init, Ob64 Ob64Init);
boxes!(Ob, ObInit, ObCl, 8, sz(), h_c01_c03_c04_c05_c07_box8, h_c04_c05_raw8, h_c01_c03_c04_c05_c20_moved8, h_c04_c05_c20_clone8, h_c03_c04_c05_fail8, h_c02_c03_c04_big8, h_c01_c03_c05_c07_bump8, h_c03_c04_c05_c20_owned8, h_c05_c07_leak8);
boxes!(Ob16, Ob16Init, Ob16Cl, 16, sz(), h_c01_c03_c04_c05_c07_box16, h_c04_c05_raw16, h_c01_c03_c04_c05_c20_moved16, h_c04_c05_c20_clone16, h_c03_c04_c05_fail16, h_c02_c03_c04_big16, h_c01_c03_c05_c07_bump16, h_c03_c04_c05_c20_owned16, h_c05_c07_leak16);
boxes!(Ob64, Ob64Init, Ob64Cl, 64, sz64(), h_c01_c03_c04_c05_c07_box64, h_c04_c05_raw64, h_c01_c03_c04_c05_c20_moved64, h_c04_c05_c20_clone64, h_c03_c04_c05_fail64, h_c02_c03_c04_big64, h_c01_c03_c05_c07_bump64, h_c03_c04_c05_c20_owned64, h_c05_c07_leak64);
boxes!(Obx, ObxInit, ObxCl, 32, sz(), h_c01_c03_c04_c05_c07_boxx, h_c04_c05_rawx, h_c01_c03_c04_c05_c20_movedx, h_c04_c05_c20_clonex, h_c03_c04_c05_failx, h_c02_c03_c04_bigx, h_c01_c03_c05_c07_bumpx, h_c03_c04_c05_c20_ownedx, h_c05_c07_leakx);
boxes!(Obp, ObpInit, ObpCl, 1, sz(), h_c01_c03_c04_c05_c07_boxp, h_c04_c05_rawp, h_c01_c03_c04_c05_c20_movedp, h_c04_c05_c20_clonep, h_c03_c04_c05_failp, h_c02_c03_c04_bigp, h_c01_c03_c05_c07_bumpp, h_c03_c04_c05_c20_ownedp, h_c05_c07_leakp);
