"""A second set of hand-written bugs (type-level properties first): writes a mutant list for mutate.py."""
import json, sys
S, A, AI, MS, VB, OW, TU, ST, LI, NT, MA, MK = ["varlen/src/%s.rs" % n for n in ("seq", "array", "array_init", "macro_support", "vbox", "owned", "tuple", "str", "lib", "newtype")] + ["varlen_macro/src/lib.rs", "varlen/src/marker.rs"]
M = []


def m(i, *subs):
    M.append({"id": i, "prop": "C" + i[1:3], "subs": [[f, a, b] for f, a, b in subs]})


VD = "impl<T: VarLen> Drop for VBox<T> {"
OD = "impl<T: VarLen> Drop for Owned<'_, T> {"
# C15
m("k15a", (VB, VD, "impl<T: VarLen> AsMut<T> for VBox<T> {\n    fn as_mut(&mut self) -> &mut T {\n        unsafe { self.0.as_mut() }\n    }\n}\n\n" + VD))
m("k15b", (VB, VD, "impl<T: VarLen> core::ops::DerefMut for VBox<T> {\n    fn deref_mut(&mut self) -> &mut T {\n        unsafe { self.0.as_mut() }\n    }\n}\n\n" + VD))
m("k15c", (OW, OD, "impl<T: VarLen> core::borrow::BorrowMut<T> for Owned<'_, T> {\n    fn borrow_mut(&mut self) -> &mut T {\n        unsafe { self.0.as_mut() }\n    }\n}\nimpl<T: VarLen> core::borrow::Borrow<T> for Owned<'_, T> {\n    fn borrow(&self) -> &T {\n        unsafe { self.0.as_ref() }\n    }\n}\n\n" + OD))
m("k15d", (MK, "pub struct FieldMarker<T>(core::marker::PhantomPinned, core::marker::PhantomData<T>);", "pub struct FieldMarker<T>((), core::marker::PhantomData<T>);"), (MK, "        FieldMarker(core::marker::PhantomPinned, core::marker::PhantomData)", "        FieldMarker((), core::marker::PhantomData)"))
m("k15e", (MA, "            .push(quote_spanned! { span => ::core::pin::Pin<&'a mut #ty> });", "            .push(quote_spanned! { span => &'a mut #ty });"), (MA, "            ::varlen::macro_support::mut_field(mut_ptr, layout.#ident)\n", "            ::core::pin::Pin::get_unchecked_mut(::varlen::macro_support::mut_field(mut_ptr, layout.#ident))\n"))
m("k15f", (A, "impl<T, Len: ArrayLen> core::ops::Deref for Array<T, Len> {", "impl<T, Len: ArrayLen> Unpin for Array<T, Len> {}\n\nimpl<T, Len: ArrayLen> core::ops::Deref for Array<T, Len> {"))
m("k15g", (TU, "        impl<$($arg),*> Drop for $name<$($arg),*> {", "        impl<$($arg: Unpin),*> Unpin for $name<$($arg),*> {}\n\n        impl<$($arg),*> Drop for $name<$($arg),*> {"))
m("k15h", (NT, "            $mutvis fn $mut(self: ::core::pin::Pin<&mut Self>) -> ::core::pin::Pin<&mut $inner> {\n                unsafe {\n                    ::core::pin::Pin::map_unchecked_mut(self, |s| &mut s.0)\n                }\n            }", "            $mutvis fn $mut(self: ::core::pin::Pin<&mut Self>) -> ::core::pin::Pin<&mut $inner> {\n                unsafe {\n                    ::core::pin::Pin::map_unchecked_mut(self, |s| &mut s.0)\n                }\n            }\n\n            /// Mutable access through a plain reference.\n            pub fn get_mut(self: ::core::pin::Pin<&mut Self>) -> &mut $inner {\n                unsafe { &mut ::core::pin::Pin::get_unchecked_mut(self).0 }\n            }"))
m("k15i", (S, "impl<'a, T: VarLen> ExactSizeIterator for IterMut<'a, T> {", "impl<'a, T: VarLen> IterMut<'a, T> {\n    /// The next element, without advancing.\n    pub fn peek(&mut self) -> Option<&mut T> {\n        if self.len_elements > 0 {\n            Some(unsafe { self.ptr.as_mut() })\n        } else {\n            None\n        }\n    }\n}\n\nimpl<'a, T: VarLen> ExactSizeIterator for IterMut<'a, T> {"))
# C16
m("k16a", (MA, "        self.all_fields\n            .mut_ty\n            .push(quote_spanned! { span => &'a #ty });\n", "        self.all_fields\n            .mut_ty\n            .push(quote_spanned! { span => &'a mut #ty });\n"))
m("k16b", (MA, "                if valid {\n", "                if valid || #(#len_ident_unused)* false {\n"))
m("k16c", (MA, "                    #(\n                        // Swap: dropping an old value might panic, so drop them after the update.\n                        ::core::mem::swap(&mut self_mut.#lengths_ident, &mut layout_controllers.#lengths_ident);\n                    )*", "                    #(\n                        if self_mut.#lengths_ident != layout_controllers.#lengths_ident {\n                            ::core::mem::swap(&mut self_mut.#lengths_ident, &mut layout_controllers.#lengths_ident);\n                            return ::core::result::Result::Ok(());\n                        }\n                    )*"))
# C17
m("k17a", (ST, "    with init: struct StrInit<_>(_);", "    with init: pub struct StrInit<_>(pub(crate) _);"), (ST, "pub struct StrCloner<'a, Len: ArrayLen>(StrInit", "pub struct StrCloner<'a, Len: ArrayLen>(pub StrInit"))
m("k17b", (ST, "(Array<u8, Len>);", "(pub Array<u8, Len>);"))
m("k17c", (ST, "    pub fn mut_slice(self: Pin<&mut Self>) -> &mut str {", "    /// The bytes of the string.\n    pub fn mut_bytes(self: Pin<&mut Self>) -> &mut [u8] {\n        self.inner_mut().mut_slice()\n    }\n\n    pub fn mut_slice(self: Pin<&mut Self>) -> &mut str {"))
m("k17d", (ST, "        Some(StrInit(Array::try_copy(s.as_bytes())?))", "        Some(StrInit(Array::try_copy(s.trim_end_matches('\\0').as_bytes())?))"))
m("k17e", (ST, "impl<'a, Len: ArrayLen> VClone<'a> for Str<Len> {", "impl<'a, Len: ArrayLen> From<SizedInit<crate::array_init::CopyFrom<'a, u8>, Len>> for StrCopy<'a, Len> {\n    fn from(x: SizedInit<crate::array_init::CopyFrom<'a, u8>, Len>) -> Self {\n        StrCopy(StrInit(x))\n    }\n}\n/// Copies bytes.\npub struct StrCopy<'a, Len: ArrayLen>(StrInit<SizedInit<crate::array_init::CopyFrom<'a, u8>, Len>>);\nimpl_initializer_as_newtype! {\n    impl<('a), (Len: ArrayLen)> Initializer<Str<Len>> for StrCopy<'a, Len> { _ }\n}\nuse crate::array::SizedInit;\n\nimpl<'a, Len: ArrayLen> VClone<'a> for Str<Len> {"))
# C18
m("k18a", (A, "mod private {", "#[doc(hidden)]\npub mod private {"))
m("k18b", (A, "impl_arraylen!(u64);", "impl_arraylen!(u64);\nimpl_arraylen!(i64);"))
m("k18c", (A, "        let len = Len::from_usize(src.len())?;\n        Some(SizedInit(len, crate::array_init::CopyFrom(src)))", "        let len = Len::from_usize(src.len() - src.len() / (1 << 40))?;\n        Some(SizedInit(len, crate::array_init::CopyFrom(src)))"))
m("k18d", (A, "    pub fn len_short(&self) -> Len {\n        self.len\n", "    pub fn len_short(&self) -> Len {\n        Len::from_usize(self.len() & 0xffff_ffff).unwrap_or(self.len)\n"))
# C19
m("k19a", (LI, "unsafe impl<'a, T: 'a + Copy> VCopy<'a> for FixedLen<T> {}", "unsafe impl<'a, T: 'a + Clone> VCopy<'a> for FixedLen<T> {}"))
m("k19b", (TU, "unsafe impl<'a, $($arg: VCopy<'a>),*> VCopy<'a> for", "unsafe impl<'a, $($arg: VClone<'a>),*> VCopy<'a> for"))
m("k19c", (LI, "        let size = layout.size();\n        core::ptr::copy_nonoverlapping(\n            self.0 as *const _ as *const u8,", "        let size = core::cmp::min(layout.size(), 1 << 31);\n        core::ptr::copy_nonoverlapping(\n            self.0 as *const _ as *const u8,"))
m("k19d", (LI, "        let size = layout.size();\n        core::ptr::copy_nonoverlapping(\n            self.0 as *const _ as *const u8,", "        let size = layout.size() & !(T::ALIGN - 1);\n        core::ptr::copy_nonoverlapping(\n            self.0 as *const _ as *const u8,"))
m("k19e", (LI, "unsafe impl<'a, T: VCopy<'a>> Initializer<T> for VCopier<'a, T> {", "impl<'a, T> From<&'a T> for VCopier<'a, T> {\n    fn from(x: &'a T) -> Self {\n        VCopier(x)\n    }\n}\n\nunsafe impl<'a, T: VClone<'a>> Initializer<T> for VCopier<'a, T> {"))
# C21
m("k21a", (OW, "    pub fn leak(self) -> Pin<&'storage mut T> {", "    pub fn leak<'a>(self) -> Pin<&'a mut T> {"))
m("k21b", (S, "    type Item = Owned<'a, T>;\n\n    #[inline]\n    fn next(&mut self) -> Option<Owned<'a, T>> {", "    type Item = Owned<'static, T>;\n\n    #[inline]\n    fn next(&mut self) -> Option<Owned<'static, T>> {"))
m("k21c", (S, "    pub fn take_elems(&mut self) -> OwnedElems<'_, T> {", "    pub fn take_elems<'a>(&mut self) -> OwnedElems<'a, T> {"))
m("k21d", (S, "    pub fn limited_to(mut self, n: usize) -> Self {\n        self.len_elements = core::cmp::min(self.len_elements, n);\n        self", "    pub fn limited_to(&self, n: usize) -> Self {\n        IterMut {\n            ptr: self.ptr,\n            len_elements: core::cmp::min(self.len_elements, n),\n            marker: core::marker::PhantomData,\n        }"))
m("k21e", (S, "    marker: core::marker::PhantomData<&'a mut [T]>,", "    marker: core::marker::PhantomData<&'a [T]>,"))
m("k21f", (S, "    pub fn from_offset_mut(&mut self, offset: usize) -> Pin<&mut T> {", "    pub fn from_offset_mut<'a>(&mut self, offset: usize) -> Pin<&'a mut T> where T: 'a {"), (S, "            unsafe { self.from_offset_unchecked_mut(offset) }\n        } else {", "            unsafe { core::mem::transmute(self.from_offset_unchecked_mut(offset)) }\n        } else {"))
m("k21g", (A, "    pub fn mut_slice(self: Pin<&mut Self>) -> &mut [T] {", "    pub fn mut_slice<'a>(self: Pin<&mut Self>) -> &'a mut [T] where T: 'a {"))
m("k21h", (VB, "    pub fn as_mut(&mut self) -> Pin<&mut T> {\n        unsafe { Pin::new_unchecked(self.0.as_mut()) }", "    pub fn as_mut(&self) -> Pin<&mut T> {\n        let mut p = self.0;\n        unsafe { Pin::new_unchecked(p.as_mut()) }"))
m("k21i", (OW, "    pub fn new_in(init: impl Initializer<T>, bump: &'storage bumpalo::Bump) -> Self {", "    pub fn new_in(init: impl Initializer<T>, bump: &bumpalo::Bump) -> Self {"))
m("k21j", (S, "impl<'a, T: VarLen> Iterator for IterMut<'a, T> {", "impl<'a, T> Clone for IterMut<'a, T> {\n    fn clone(&self) -> Self {\n        IterMut { ptr: self.ptr, len_elements: self.len_elements, marker: self.marker }\n    }\n}\n\nimpl<'a, T: VarLen> Iterator for IterMut<'a, T> {"))
m("k21k", (LI, "    fn vcopy(&'a self) -> VCopier<'a, Self> {\n        VCopier(self)\n", "    fn vcopy<'b>(&'a self) -> VCopier<'b, Self> where Self: 'b {\n        VCopier(unsafe { core::mem::transmute(self) })\n"))
m("k21l", (TU, "            pub fn muts(self: Pin<&mut Self>) -> $mod::Muts<$($arg),*> {\n                let layout = self.calculate_layout();\n                unsafe {\n                    let mut_ptr = self.get_unchecked_mut() as *mut _;", "            pub fn muts<'m>(&'m self) -> $mod::Muts<'m, $($arg),*> {\n                let layout = self.calculate_layout();\n                unsafe {\n                    let mut_ptr = self as *const Self as *mut Self;"))
m("k21m", (OW, "    pub fn as_mut(&mut self) -> Pin<&mut T> {\n        unsafe { Pin::new_unchecked(self.0.as_mut()) }", "    pub fn as_mut(&mut self) -> Pin<&'storage mut T> {\n        unsafe { Pin::new_unchecked(self.0.as_mut()) }"))
m("k21n", (S, "impl<'a, T: VarLen> Drop for OwnedElems<'a, T> {", "impl<'a, T: VarLen> OwnedElems<'a, T> {\n    /// The elements that are left.\n    pub fn as_iter(&self) -> Iter<'a, T> {\n        Iter { ptr: self.ptr, len_elements: self.len_elements, marker: core::marker::PhantomData }\n    }\n}\n\nimpl<'a, T: VarLen> Drop for OwnedElems<'a, T> {"))
# C22
m("k22a", (MK, "pub struct ArrayMarker<T>(core", "#[derive(Clone, Copy)]\npub struct ArrayMarker<T>(core"))
m("k22b", (MK, "impl<T> FieldMarker<T> {", "impl<T> Default for FieldMarker<T> {\n    fn default() -> Self {\n        FieldMarker(core::marker::PhantomPinned, core::marker::PhantomData)\n    }\n}\n\nimpl<T> FieldMarker<T> {"))
m("k22c", (VB, "pub struct VBox<T: VarLen>(NonNull<T>);", "pub struct VBox<T: VarLen>(pub NonNull<T>);"))
m("k22d", (OW, "pub struct Owned<'storage, T: VarLen>(NonNull<T>, PhantomData<&'storage [u8]>);", "pub struct Owned<'storage, T: VarLen>(pub NonNull<T>, pub PhantomData<&'storage [u8]>);"))
m("k22e", (A, "    len: Len,\n    _array", "    pub len: Len,\n    pub _array"))
m("k22f", (A, "pub trait ArrayLen: 'static + Copy + private::Sealed {", "pub trait ArrayLen: 'static + Copy {"))
m("k22g", (S, "mod private {", "#[doc(hidden)]\npub mod private {"))
m("k22h", (MK, "pub struct FieldMarker<T>(core::marker::PhantomPinned, core::marker::PhantomData<T>);", "pub struct FieldMarker<T>(pub core::marker::PhantomPinned, pub core::marker::PhantomData<T>);"))
m("k22i", (VB, VD, "impl<T: VarLen> From<NonNull<T>> for VBox<T> {\n    fn from(p: NonNull<T>) -> Self {\n        VBox(p)\n    }\n}\n\n" + VD))
m("k22j", (OW, OD, "impl<'storage, T: VarLen> From<Pin<&'storage mut T>> for Owned<'storage, T> {\n    fn from(p: Pin<&'storage mut T>) -> Self {\n        Owned(NonNull::from(unsafe { p.get_unchecked_mut() }), PhantomData)\n    }\n}\n\n" + OD))
m("k22k", (MS, "pub unsafe fn init_array<T>(", "pub fn init_array<T>("), (MS, "    let arr: &mut [MaybeUninit<T>] = core::slice::from_raw_parts_mut(\n        base.as_ptr().wrapping_add(offset) as *mut MaybeUninit<T>,\n        len,\n    );\n    init.initialize(arr);\n    crate::marker::ArrayMarker::new_unchecked()", "    let arr: &mut [MaybeUninit<T>] = unsafe { core::slice::from_raw_parts_mut(\n        base.as_ptr().wrapping_add(offset) as *mut MaybeUninit<T>,\n        len,\n    ) };\n    init.initialize(arr);\n    unsafe { crate::marker::ArrayMarker::new_unchecked() }"))
# C23
m("k23a", (VB, VD, "unsafe impl<T: VarLen> Send for VBox<T> {}\n\n" + VD))
m("k23b", (VB, VD, "unsafe impl<T: VarLen + Send> Sync for VBox<T> {}\n\n" + VD))
m("k23c", (OW, OD, "unsafe impl<T: VarLen> Sync for Owned<'_, T> {}\n\n" + OD))
m("k23d", (S, "impl<'a, T: VarLen> Iterator for Iter<'a, T> {", "unsafe impl<'a, T: Send> Send for Iter<'a, T> {}\n\nimpl<'a, T: VarLen> Iterator for Iter<'a, T> {"))
m("k23e", (S, "impl<'a, T: VarLen> Drop for OwnedElems<'a, T> {", "unsafe impl<'a, T: VarLen> Send for OwnedElems<'a, T> {}\n\nimpl<'a, T: VarLen> Drop for OwnedElems<'a, T> {"))
m("k23f", (LI, "pub struct VCopier<'a, T>(&'a T);", "pub struct VCopier<'a, T>(&'a T);\nunsafe impl<'a, T: Send> Send for VCopier<'a, T> {}"))
m("k23g", (MK, "core::marker::PhantomData<T>);", "core::marker::PhantomData<*const T>);\nunsafe impl<T: Send> Send for FieldMarker<T> {}\nunsafe impl<T: Send> Sync for FieldMarker<T> {}"))
m("k23h", (S, "impl<T: VarLen, Idx: Indexing> Drop for Seq<T, Idx> {", "unsafe impl<T: VarLen, Idx: Indexing> Send for Seq<T, Idx> where T::Layout: Send {}\n\nimpl<T: VarLen, Idx: Indexing> Drop for Seq<T, Idx> {"))
# C24
m("k24a", (TU, "                crate::macro_support::invalid_drop_call()\n", "                if core::mem::size_of_val(self) != 0 {\n                    crate::macro_support::invalid_drop_call()\n                }\n"))
m("k24b", (MA, "        impl<#(#generics_impl),*> ::core::ops::Drop for #tyname<#(#generics_apply),*> #generics_where {\n            fn drop(&mut self) {\n                ::varlen::macro_support::invalid_drop_call()\n            }\n        }\n", ""))
# C25
m("k25a", (MA, "                    return Err(Self::bad_visibility(v.span()));", "                    (SimpleVisibility::Private, SimpleVisibility::Super)"))
m("k25b", (MA, "pub(in super::super) const fn #len_ident", "pub(in super::super) fn #len_ident"))
m("k25c", (MA, "const fn #len_ident(#len_fn_arg) -> usize {\n                        #len_expr\n", "const fn #len_ident(#len_fn_arg) -> usize {\n                        (#len_expr) as usize\n"))
m("k25d", (MA, "            _ => {\n                return Err(Error(\n                    \"Fields annotated with #[varlen_array] must be of array type\",\n                    span,\n                ))\n            }", "            Type::Slice(a) => ((*a.elem).clone(), quote_spanned! {span=> 0 }),\n            _ => {\n                return Err(Error(\n                    \"Fields annotated with #[varlen_array] must be of array type\",\n                    span,\n                ))\n            }"))
m("k25e", (MA, "            if field_type != FieldType::Normal {\n", "            if field_type != FieldType::Normal && t != FieldType::Length {\n"))
# C26
m("k26a", (MA, "            Visibility::Inherited => (SimpleVisibility::Private, SimpleVisibility::Super),", "            Visibility::Inherited => (SimpleVisibility::Private, SimpleVisibility::SuperSuper),"))
m("k26b", (MA, "(SimpleVisibility::Private, SimpleVisibility::Super)\n                } else {", "(SimpleVisibility::Super, SimpleVisibility::SuperSuper)\n                } else {"))
m("k26c", (MA, "            Visibility::Crate(_) => (SimpleVisibility::Crate, SimpleVisibility::Crate),", "            Visibility::Crate(_) => (SimpleVisibility::Crate, SimpleVisibility::Public),"))
m("k26d", (MA, "                    (SimpleVisibility::Crate, SimpleVisibility::Crate)\n                } else if", "                    (SimpleVisibility::Crate, SimpleVisibility::Public)\n                } else if"))
m("k26e", (MA, "            #tyvis fn muts(mut self:", "            pub fn muts(mut self:"))
m("k26f", (MA, "            #tyvis_inner struct Refs<'a #(, #generics_structdef)*> {\n                #(\n                    #all_attr\n                    #all_vis_inner #all_ident", "            #tyvis_inner struct Refs<'a #(, #generics_structdef)*> {\n                #(\n                    #all_attr\n                    #tyvis_inner #all_ident"))
m("k26g", (MA, "            #tyvis_inner struct LayoutControllers {\n                #(\n                    #lengths_attr\n                    #lengths_vis_inner #lengths_ident", "            #tyvis_inner struct LayoutControllers {\n                #(\n                    #lengths_attr\n                    #tyvis_inner #lengths_ident"))
m("k26h", (MA, "            #tyvis_inner struct LayoutControllers {", "            pub struct LayoutControllers {"))
m("k26i", (MA, "                #all_vis #all_ident: #all_decl_ty,", "                #tyvis #all_ident: #all_decl_ty,"))
m("k26j", (MA, "            #tyvis fn try_set_layout_controllers(", "            fn try_set_layout_controllers("))
m("k26k", (MA, "        #tyvis mod #mod_name {", "        pub mod #mod_name {"))
m("k26l", (MA, "                    pub(super) #varlen_ident: usize,\n                    pub(super) #varlen_layout_ident", "                    pub #varlen_ident: usize,\n                    pub #varlen_layout_ident"))
# C27
m("k27a", (MA, "                ::core::option::Option::Some(#mod_name::VarLenLayout{", "                Some(#mod_name::VarLenLayout{"))
m("k27b", (NT, "                unsafe {\n                    ::core::pin::Pin::map_unchecked_mut", "                unsafe {\n                    core::pin::Pin::map_unchecked_mut"))
m("k27c", (NT, "            fn calculate_layout_cautious(&self) -> ::core::option::Option<<$t as $crate::VarLen>::Layout> {", "            fn calculate_layout_cautious(&self) -> Option<<$t as $crate::VarLen>::Layout> {"))
m("k27d", (S, "            let mut s = $crate::seq::Seq::new();", "            let mut s = varlen::seq::Seq::new();"))
m("k27e", (MA, "            ::core::mem::needs_drop::<#ty>()\n        });\n        Ok(())\n    }\n\n    fn push_length", "            ::std::mem::needs_drop::<#ty>()\n        });\n        Ok(())\n    }\n\n    fn push_length"))
m("k27f", (LI, "pub use crate::str::Str;\npub use array::Array;", "extern crate std;\npub use crate::str::Str;\npub use array::Array;"))
m("k27g", (MA, "                let layout = ::varlen::VarLen::calculate_layout(self.as_ref().get_ref());", "                let layout = self.calculate_layout();"))
m("k27h", (MA, "                ::core::ptr::write(dst.as_ptr(), #tyname {", "                ::core::debug_assert!(dst.as_ptr() as usize % <#tyname<#(#generics_apply),*> as ::varlen::VarLen>::ALIGN == 0);\n                assert!(layout.size < usize::MAX);\n                ::core::ptr::write(dst.as_ptr(), #tyname {"))
json.dump(M, open(sys.argv[1], "w"), indent=0)
print(len(M))
