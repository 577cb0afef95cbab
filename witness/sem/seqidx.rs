#![allow(dead_code, unused)]
include!("ob.rs");

macro_rules! index {
    ($ob:ident, $init:ident, $align:expr, $sz:expr, $valid:ident, $lookup:ident, $retaken:ident, $failed:ident, $conv:ident, $foreign:ident, $growth:ident) => {
        pub fn $valid() {
            let mut s: Seq<$ob, CheckedIndexing> = Seq::new();
            let o: usize = any();
            check("c12 nothing is valid in an empty sequence", !s.is_offset_valid(o));
            let (a, b) = ($sz, $sz);
            s.push($init { id: 1, size: a });
            let n1 = up(a as usize, $align);
            aside! { check("c12 valid exactly at the first element", s.is_offset_valid(o) == (o == 0)); }
            s.push($init { id: 2, size: b });
            check("c12 valid exactly at both elements", s.is_offset_valid(o) == (o == 0 || o == n1));
        }
        pub fn $growth() {
            let mut s: Seq<$ob, CheckedIndexing> = Seq::new();
            let o: usize = any();
            let (a, b, c) = ($sz, $sz, $sz);
            s.push($init { id: 1, size: a });
            s.push($init { id: 2, size: b });
            s.push($init { id: 3, size: c });
            let n1 = up(a as usize, $align);
            let n2 = n1 + up(b as usize, $align);
            aside! { check("c12 valid exactly at the three elements", s.is_offset_valid(o) == (o == 0 || o == n1 || o == n2)); }
            aside! {
                let e = s.from_offset(n2);
                check("c12 lookup leads to the element", e.id == 3 && s.offset_of(e) == n2);
            }
            let mut it = s.iter();
            check("c13 offset of the first", s.offset_of(it.next().unwrap()) == 0);
            check("c13 offset of the second", s.offset_of(it.next().unwrap()) == n1);
            check("c13 offset of the third", s.offset_of(it.next().unwrap()) == n2);
        }
        pub fn $lookup() {
            let mut s: Seq<$ob, CheckedIndexing> = Seq::new();
            let (a, b) = ($sz, $sz);
            s.push($init { id: 1, size: a });
            let n1 = s.offset();
            s.push($init { id: 2, size: b });
            aside! { check("c12 lookup leads to the element", s.from_offset(0).id == 1); }
            aside! { check("c12 lookup leads to the element", s.from_offset(n1).id == 2); }
            aside! { check("c12 lookup leads to the element", s.from_offset_mut(0).id == 1); }
            aside! { check("c12 lookup leads to the element", s.from_offset_mut(n1).id == 2); }
            let o: usize = any();
            let p: *mut Seq<$ob, CheckedIndexing> = &mut s;
            aside! {
                let r = catch(|| { let e = unsafe { (*p).from_offset(o) }; check("c12 only live elements are handed out", o == 0 && e.id == 1 || o == n1 && e.id == 2); });
                check("c12 lookup elsewhere panics", r == !(o == 0 || o == n1));
            }
            let r = catch(|| { let e = unsafe { (*p).from_offset_mut(o) }; check("c12 only live elements are handed out", o == 0 && e.id == 1 || o == n1 && e.id == 2); });
            check("c12 lookup elsewhere panics", r == !(o == 0 || o == n1));
            stop();
        }
        pub fn $retaken() {
            let mut s: Seq<$ob, CheckedIndexing> = Seq::new();
            let o: usize = any();
            let (a, b, c) = ($sz, $sz, $sz);
            s.push($init { id: 1, size: a });
            s.push($init { id: 2, size: b });
            drop(s.take_elems());
            aside! { check("c12 nothing is valid after taking", !s.is_offset_valid(o)); }
            s.push($init { id: 3, size: c });
            aside! { check("c12 valid exactly at the new element", s.is_offset_valid(o) == (o == 0)); }
            let n3 = s.offset();
            s.push($init { id: 4, size: a });
            check("c12 valid exactly at the new elements", s.is_offset_valid(o) == (o == 0 || o == n3));
            stop();
        }
        pub fn $failed() {
            let mut s: Seq<$ob, CheckedIndexing> = Seq::new();
            let o: usize = any();
            let (a, b) = ($sz, $sz);
            s.push($init { id: 1, size: a });
            let n1 = s.offset();
            let p: *mut Seq<$ob, CheckedIndexing> = &mut s;
            let r = catch(|| unsafe { (*p).push(Failing(b as usize)) });
            check("c14 the panic is passed on", r);
            aside! { check("c12 a failed push makes nothing valid", s.is_offset_valid(o) == (o == 0)); }
            check("c14 exactly the earlier elements are kept", s.len() == 1 && s.offset() == n1 && s.iter().count() == 1);
            aside! { check("c14 exactly the earlier elements are kept", s.from_offset(0).id == 1); }
            s.push($init { id: 2, size: b });
            aside! { check("c12 valid exactly at the elements", s.is_offset_valid(o) == (o == 0 || o == n1)); }
            aside! { check("c12 lookup leads to the element", s.from_offset(n1).id == 2); }
            drop(s);
            check("c14 destroyed once", count(DROP, 1) == 1 && count(DROP, 2) == 1);
            check("c04 the block is released", live() == 0);
            unsafe impl Initializer<$ob> for Failing {
                fn calculate_layout_cautious(&self) -> Option<<$ob as VarLen>::Layout> { $init { id: 0, size: self.0 as _ }.calculate_layout_cautious() }
                unsafe fn initialize(self, dst: NonNull<$ob>, layout: <$ob as VarLen>::Layout) { panic!() }
            }
        }
        pub fn $conv() {
            let mut s: Seq<$ob, UncheckedIndexing> = Seq::new();
            let (a, b) = ($sz, $sz);
            s.push($init { id: 1, size: a });
            let n1 = s.offset();
            check("c13 offset of the first", s.offset_of(s.iter().next().unwrap()) == 0);
            s.push($init { id: 2, size: b });
            let mut it = s.iter();
            let e1 = it.next().unwrap();
            let e2 = it.next().unwrap();
            check("c13 offset is the end recorded at its push", s.offset_of(e1) == 0 && s.offset_of(e2) == n1);
            let (f1, f2) = unsafe { (s.from_offset_unchecked(0), s.from_offset_unchecked(n1)) };
            check("c13 offset leads back to the element", same_addr(e1, f1) && same_addr(e2, f2));
            check("c13 offset of what it leads to", s.offset_of(f2) == n1);
            let (p1, p2) = (e1 as *const $ob, e2 as *const $ob);
            check("c13 offset leads back for mutable lookup", unsafe { same_addr(&*s.from_offset_unchecked_mut(0), p1) && same_addr(&*s.from_offset_unchecked_mut(n1), p2) });
        }
        pub fn $foreign() {
            let mut s: Seq<$ob, CheckedIndexing> = Seq::new();
            let mut t: Seq<$ob, UncheckedIndexing> = Seq::new();
            let (a, b) = ($sz, $sz);
            s.push($init { id: 1, size: a });
            t.push($init { id: 2, size: b });
            let p: *mut Seq<$ob, CheckedIndexing> = &mut s;
            let q: *mut Seq<$ob, UncheckedIndexing> = &mut t;
            let r = catch(|| unsafe { let e = (*q).iter().next().unwrap(); (*p).offset_of(e); });
            check("c13 a foreign element is rejected", r);
            let r = catch(|| unsafe { let e = (*p).iter().next().unwrap(); (*q).offset_of(e); });
            check("c13 a foreign element is rejected", r);
            let r = catch(|| unsafe { (*p).offset_of(&*buf::<$ob>(64, 64)); });
            check("c13 a reference to other storage is rejected", r);
            let u: Seq<$ob> = Seq::new();
            let u: *const Seq<$ob> = &u;
            let r = catch(|| unsafe { let e = (*p).iter().next().unwrap(); (*u).offset_of(e); });
            check("c13 nothing lies in an empty sequence", r);
            // An element that was taken lies in the storage, but no longer in the occupied part.
            let n = unsafe { (*p).iter().next().unwrap() as *const $ob };
            core::mem::forget(s.take_elems());
            let r = catch(|| unsafe { (*p).offset_of(&*n); });
            check("c13 a reference past the occupied part is rejected", r);
        }
    };
}
pub struct Failing(usize);
index!(Ob, ObInit, 8, sz(), h_c12_valid8, h_c12_lookup8, h_c12_retaken8, h_c04_c12_c14_failed8, h_c13_conv8, h_c13_foreign8, h_c12_c13_growth8);
index!(Ob1, Ob1Init, 1, sz1(), h_c12_valid1, h_c12_lookup1, h_c12_retaken1, h_c04_c12_c14_failed1, h_c13_conv1, h_c13_foreign1, h_c12_c13_growth1);
index!(Ob4, Ob4Init, 4, sz4(), h_c12_valid4, h_c12_lookup4, h_c12_retaken4, h_c04_c12_c14_failed4, h_c13_conv4, h_c13_foreign4, h_c12_c13_growth4);
index!(Ob64, Ob64Init, 64, sz64(), h_c12_valid64, h_c12_lookup64, h_c12_retaken64_deep, h_c04_c12_c14_failed64, h_c13_conv64, h_c13_foreign64, h_c12_c13_growth64_deep);
index!(Ob2, Ob2Init, 2, sz2(), h_c12_valid2, h_c12_lookup2, h_c12_retaken2_deep, h_c04_c12_c14_failed2, h_c13_conv2, h_c13_foreign2, h_c12_c13_growth2_deep);
index!(Ob16, Ob16Init, 16, sz(), h_c12_valid16, h_c12_lookup16, h_c12_retaken16_deep, h_c04_c12_c14_failed16, h_c13_conv16, h_c13_foreign16, h_c12_c13_growth16_deep);
index!(Obx, ObxInit, 32, sz(), h_c12_validx, h_c12_lookupx, h_c12_retakenx_deep, h_c04_c12_c14_failedx, h_c13_convx, h_c13_foreignx, h_c12_c13_growthx_deep);
index!(Obp, ObpInit, 1, sz(), h_c12_validp, h_c12_lookupp, h_c12_retakenp, h_c04_c12_c14_failedp, h_c13_convp, h_c13_foreignp, h_c12_c13_growthp);
index!(Oby, ObyInit, 4096, sz4(), h_c12_validy, h_c12_lookupy, h_c12_retakeny_deep, h_c04_c12_c14_failedy, h_c13_convy, h_c13_foreigny, h_c12_c13_growthy_deep);
