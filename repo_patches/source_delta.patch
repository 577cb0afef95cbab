From 63e447c7bbe3856ba8c9e21e620e8949c21c4fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 1/9] fix: copy the layout's size in bytes when initializing
 from Owned

copy_nonoverlapping counts elements of the pointee type, so copying
layout.size() elements of T copied size*size_of::<T>() bytes: nothing for
zero-sized headers, and out of bounds for all others.
---
 varlen/src/owned.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/varlen/src/owned.rs b/varlen/src/owned.rs
index 77576f3..0d2363b 100644
--- a/varlen/src/owned.rs
+++ b/varlen/src/owned.rs
@@ -217,7 +217,11 @@ unsafe impl<T: VarLen> Initializer<T> for Owned<'_, T> {
         //  * Owned has unique access to its pointer
         //  * dst is unique
         //  * dst size is guaranteed by the SizedInitializer call
-        core::ptr::copy_nonoverlapping(self.0.as_ptr(), dst.as_ptr(), layout.size());
+        core::ptr::copy_nonoverlapping(
+            self.0.as_ptr().cast::<u8>(),
+            dst.as_ptr().cast::<u8>(),
+            layout.size(),
+        );
         core::mem::forget(self);
     }
 
-- 
2.43.0


From 0dc8823c1598911e3e4baa894e56913f17bad930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 2/9] fix: do not run the destructor of a leaked Owned

Destructuring copies the pointer out and leaves self to be dropped, so
leak() destroyed the object it returned a reference to.
---
 varlen/src/owned.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/varlen/src/owned.rs b/varlen/src/owned.rs
index 0d2363b..3ba8a84 100644
--- a/varlen/src/owned.rs
+++ b/varlen/src/owned.rs
@@ -162,7 +162,8 @@ impl<'storage, T: VarLen> Owned<'storage, T> {
     /// # }
     /// ```
     pub fn leak(self) -> Pin<&'storage mut T> {
-        let Owned(mut ptr, _) = self;
+        let mut ptr = self.0;
+        core::mem::forget(self);
         unsafe { Pin::new_unchecked(ptr.as_mut()) }
     }
 
-- 
2.43.0


From e7190dc148c6499cfc654dd968cd62215ca8fb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 3/9] fix: clear the validity bitmask before forgetting how
 much is occupied

take_elems() zeroed occupied_offsets first and then cleared zero bytes of
bitmask, so offsets of removed elements became valid again once the
sequence was refilled past them.
---
 varlen/src/seq.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index 17aa13c..ee2c3a8 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -907,11 +907,11 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
             len_elements: self.len_elements,
             marker: core::marker::PhantomData,
         };
-        self.len_elements = 0;
-        self.occupied_offsets = 0;
         unsafe {
             Idx::clear_bitmasks(self.ptr, self.capacity_offsets, self.occupied_offsets);
         }
+        self.len_elements = 0;
+        self.occupied_offsets = 0;
         r
     }
 
-- 
2.43.0


From 4d43aafc1bfc072722142526d28251559c5cb85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 4/9] fix: mark an offset valid only once its element is
 initialized

If the initializer panics, the mark for the element that was never added
stayed behind, and became a valid-looking offset after later pushes.
---
 varlen/src/seq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index ee2c3a8..5efd3b8 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -687,8 +687,8 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
         }
         let elem_offset = self.occupied_offsets;
         unsafe {
-            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
             init.initialize(add_offsets_fast(self.ptr, elem_offset), layout);
+            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
         }
         self.occupied_offsets = occupied_plus;
         self.len_elements += 1;
-- 
2.43.0


From 1c8731f4d2a2044e7fe16b07b255f4649af76857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 5/9] fix: give zero-sized elements of a Seq storage of their
 own

A push of a zero-sized element allocated nothing: the element was written
to (and, with CheckedIndexing, its mark was set through) a dangling
pointer, all such elements shared an offset, and none were ever dropped.
---
 varlen/src/seq.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index 5efd3b8..f78055d 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -670,7 +670,9 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
     fn try_push(&mut self, init: impl Initializer<T>) -> Result<(), OverflowError> {
         let layout = init.calculate_layout_cautious().ok_or(OverflowError)?;
         let align = T::ALIGN;
-        let size_offsets = layout.size().checked_add(align - 1).ok_or(OverflowError)? / align;
+        // Every element takes at least one offset, so that it has its own storage and offset.
+        let size = core::cmp::max(layout.size(), 1);
+        let size_offsets = size.checked_add(align - 1).ok_or(OverflowError)? / align;
         let occupied_plus = self
             .occupied_offsets
             .checked_add(size_offsets)
@@ -1131,7 +1133,7 @@ impl<'a, T: VarLen> Iterator for Iter<'a, T> {
     fn next(&mut self) -> Option<&'a T> {
         if self.len_elements > 0 {
             let t = unsafe { self.ptr.as_ref() };
-            let size = t.calculate_layout().size();
+            let size = core::cmp::max(t.calculate_layout().size(), 1);
             self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };
             self.len_elements -= 1;
             Some(t)
@@ -1217,7 +1219,7 @@ impl<'a, T: VarLen> Iterator for IterMut<'a, T> {
     fn next(&mut self) -> Option<Pin<&'a mut T>> {
         if self.len_elements > 0 {
             let t = unsafe { Pin::new_unchecked(self.ptr.as_mut()) };
-            let size = t.calculate_layout().size();
+            let size = core::cmp::max(t.calculate_layout().size(), 1);
             self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };
             self.len_elements -= 1;
             Some(t)
@@ -1302,7 +1304,7 @@ impl<'a, T: VarLen> Iterator for OwnedElems<'a, T> {
     fn next(&mut self) -> Option<Owned<'a, T>> {
         if self.len_elements > 0 {
             let t = unsafe { Owned::from_raw(self.ptr) };
-            let size = T::calculate_layout(&*t).size();
+            let size = core::cmp::max(T::calculate_layout(&*t).size(), 1);
             self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };
             self.len_elements -= 1;
             Some(t)
-- 
2.43.0


From 4e93e87c4654d3e5b395c82bdf4d1c021274c44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 6/9] fix: handle failed and zero-sized allocations in VBox

VBox::new wrote through the null pointer of a failed allocation, and
called the global allocator with a zero-sized layout, which is undefined
behavior, for objects of size zero.
---
 varlen/src/vbox.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/varlen/src/vbox.rs b/varlen/src/vbox.rs
index e717e1c..18be696 100644
--- a/varlen/src/vbox.rs
+++ b/varlen/src/vbox.rs
@@ -58,7 +58,15 @@ impl<T: VarLen> VBox<T> {
         let alloc_layout = alloc::Layout::from_size_align(layout.size(), T::ALIGN)
             .unwrap_or_else(|_| allocation_overflow());
         unsafe {
-            let p = alloc::alloc(alloc_layout) as *mut T;
+            let p = if alloc_layout.size() == 0 {
+                // Allocating zero bytes is undefined behavior; use a dangling aligned pointer.
+                T::ALIGN as *mut T
+            } else {
+                alloc::alloc(alloc_layout) as *mut T
+            };
+            if p.is_null() {
+                alloc::handle_alloc_error(alloc_layout);
+            }
             let layout_size = layout.size();
             init.initialize(NonNull::new_unchecked(p), layout);
             let mut p = NonNull::new_unchecked(p);
@@ -150,7 +158,9 @@ impl<T: VarLen> Drop for VBox<T> {
             let layout = T::calculate_layout(&*self);
             let alloc_layout = alloc::Layout::from_size_align_unchecked(layout.size(), T::ALIGN);
             T::vdrop(self.as_mut(), layout);
-            alloc::dealloc(self.0.as_ptr() as *mut u8, alloc_layout);
+            if alloc_layout.size() != 0 {
+                alloc::dealloc(self.0.as_ptr() as *mut u8, alloc_layout);
+            }
         }
     }
 }
@@ -188,7 +198,9 @@ unsafe impl<T: VarLen> Initializer<T> for VBox<T> {
         //  * dst is unique
         //  * dst size is guaranteed by the SizedInitializer call
         core::ptr::copy_nonoverlapping(ptr, dst.as_ptr().cast::<u8>(), size);
-        alloc::dealloc(ptr, layout);
+        if size != 0 {
+            alloc::dealloc(ptr, layout);
+        }
         core::mem::forget(self);
     }
 
-- 
2.43.0


From 0819c1f3b1b887c67f33eb46639bb1dc09aad66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 7/9] fix: drop old layout controllers only after all of them
 are replaced

Assigning them one by one drops each old value on the way; if that drop
panics, the object is left with some lengths changed and others not, so
its arrays no longer lie where they were initialized.
---
 varlen_macro/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 2c7b9e5..1f50d9c 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -451,8 +451,9 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                 }
             }
 
+            #[allow(unused_mut)]
             #tyvis fn try_set_layout_controllers(
-                mut self: ::core::pin::Pin<&mut Self>, layout_controllers: #mod_name::LayoutControllers
+                mut self: ::core::pin::Pin<&mut Self>, mut layout_controllers: #mod_name::LayoutControllers
             ) -> ::core::result::Result<(), ::varlen::macro_support::LayoutMismatch> {
                 let lengths_before = (
                     #(
@@ -474,7 +475,8 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                 if valid {
                     let self_mut = unsafe { self.get_unchecked_mut() };
                     #(
-                        self_mut.#lengths_ident = layout_controllers.#lengths_ident;
+                        // Swap: dropping an old value might panic, so drop them after the update.
+                        ::core::mem::swap(&mut self_mut.#lengths_ident, &mut layout_controllers.#lengths_ident);
                     )*
                     ::core::result::Result::Ok(())
                 } else {
-- 
2.43.0


From 9e47b844ce3459c316e00ca9c0acd8a5fafdeb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 8/9] fix: reject layout controllers with unsynchronized
 interior mutability

With a Cell as layout controller (Cell::get is a const fn) safe code could
change an array's length through a shared reference and read out of bounds.
---
 varlen/src/macro_support.rs | 4 ++++
 varlen_macro/src/lib.rs     | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/varlen/src/macro_support.rs b/varlen/src/macro_support.rs
index ab7cafa..768782b 100644
--- a/varlen/src/macro_support.rs
+++ b/varlen/src/macro_support.rs
@@ -185,3 +185,7 @@ pub fn invalid_drop_call() -> ! {
 /// layout to change.
 #[derive(Clone, Copy, Debug)]
 pub struct LayoutMismatch;
+
+/// Requires a type that cannot be modified through a shared reference by safe `const` code
+/// (in particular not a `Cell`).
+pub const fn assert_no_unsync_mutability<T: ?Sized + Sync>() {}
diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 1f50d9c..7e4b7a6 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -335,6 +335,11 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
             )*
         }
 
+        #(
+            // Without this, the lengths could be changed through a shared reference.
+            const _: () = ::varlen::macro_support::assert_no_unsync_mutability::<#lengths_ty>();
+        )*
+
         impl<#(#generics_impl),*> ::core::ops::Drop for #tyname<#(#generics_apply),*> #generics_where {
             fn drop(&mut self) {
                 ::varlen::macro_support::invalid_drop_call()
-- 
2.43.0


From 68b6eb5f1f940210ae3f7592d7c51d43e475d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 9/9] fix: reserve the Unpin impl of types with variable-length
 tails

The marker fields keep such types from being Unpin automatically, but safe
code could still write impl Unpin for its own struct, get a plain mutable
reference, and swap the headers of two objects with different tails.
---
 varlen/src/macro_support.rs |  7 +++++++
 varlen/src/newtype.rs       |  8 ++++++++
 varlen_macro/src/lib.rs     | 16 ++++++++++++++++
 3 files changed, 31 insertions(+)

diff --git a/varlen/src/macro_support.rs b/varlen/src/macro_support.rs
index 768782b..971531e 100644
--- a/varlen/src/macro_support.rs
+++ b/varlen/src/macro_support.rs
@@ -189,3 +189,10 @@ pub struct LayoutMismatch;
 /// Requires a type that cannot be modified through a shared reference by safe `const` code
 /// (in particular not a `Cell`).
 pub const fn assert_no_unsync_mutability<T: ?Sized + Sync>() {}
+
+/// Has the same `Unpin`ness as `T`. The lifetime makes a bound on this type one that the compiler
+/// does not decide where it is declared.
+pub struct UnpinIf<'a, T: ?Sized>(
+    core::marker::PhantomData<&'a ()>,
+    core::marker::PhantomData<T>,
+);
diff --git a/varlen/src/newtype.rs b/varlen/src/newtype.rs
index f380b2f..6ed66a7 100644
--- a/varlen/src/newtype.rs
+++ b/varlen/src/newtype.rs
@@ -188,6 +188,14 @@ macro_rules! define_varlen_newtype {
         $(#[$initattrs])*
         $initvis struct $init < InnerInit >($initfieldvis InnerInit);
 
+        // As the automatic impl, but conflicts with any `impl Unpin` by the user, who could
+        // otherwise move just the header of a variable-length object.
+        impl <'__varlen_pin $(, $($($generic_params)*),* )*> ::core::marker::Unpin for $outer $(< $($($generics_apply)*),* >)*
+        where
+            $crate::macro_support::UnpinIf<'__varlen_pin, $inner>: ::core::marker::Unpin
+        {
+        }
+
         unsafe impl $(< $($($generic_params)*),* >)* $crate::VarLen for $outer $(< $($($generics_apply)*),* >)* {
             type Layout = <$inner as $crate::VarLen>::Layout;
             #[inline(always)]
diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 7e4b7a6..83d4f80 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -265,6 +265,20 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
         )
     };
 
+    // Conflicts with any `impl Unpin` by the user, who could otherwise move just the header.
+    let unpin_impl = if varlen_ident.is_empty() {
+        quote!()
+    } else {
+        let mut unpin_where = d.generics.where_clause.clone().unwrap_or_else(|| parse_quote!(where));
+        unpin_where.predicates.push(parse_quote! {
+            ::varlen::macro_support::UnpinIf<'__varlen_pin, ::core::marker::PhantomPinned>: ::core::marker::Unpin
+        });
+        quote! {
+            impl<'__varlen_pin #(, #generics_impl)*> ::core::marker::Unpin
+                for #tyname<#(#generics_apply),*> #unpin_where {}
+        }
+    };
+
     Ok(quote! {
         #tyvis mod #mod_name {
             use super::*;
@@ -340,6 +354,8 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
             const _: () = ::varlen::macro_support::assert_no_unsync_mutability::<#lengths_ty>();
         )*
 
+        #unpin_impl
+
         impl<#(#generics_impl),*> ::core::ops::Drop for #tyname<#(#generics_apply),*> #generics_where {
             fn drop(&mut self) {
                 ::varlen::macro_support::invalid_drop_call()
-- 
2.43.0

