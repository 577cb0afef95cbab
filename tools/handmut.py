"""Hand-written bugs for mutation testing: writes a mutant list for mutate.py."""
import json, sys
S, A, AI, MS, VB, OW, TU, ST, LI, NT, MA, MK = ["varlen/src/%s.rs" % n for n in ("seq", "array", "array_init", "macro_support", "vbox", "owned", "tuple", "str", "lib", "newtype")] + ["varlen_macro/src/lib.rs", "varlen/src/marker.rs"]
M = []


def m(i, *subs):
    M.append({"id": i, "prop": "C" + i[1:3], "subs": [[f, a, b] for f, a, b in subs]})


# C01
m("h01a", (MS, "    let elem_align = core::mem::align_of::<T>();\n    let size = size.wrapping_add", "    if array_len == 0 {\n        return (size, 0, size);\n    }\n    let elem_align = core::mem::align_of::<T>();\n    let size = size.wrapping_add"))
m("h01b", (MS, "    let elem_align = core::mem::align_of::<T>();\n    let size = match size.checked_add", "    if array_len == 0 {\n        return Some((size, 0, size));\n    }\n    let elem_align = core::mem::align_of::<T>();\n    let size = match size.checked_add"))
m("h01c", (MS, "    let size = offset.wrapping_add(layout.size());\n    (offset, layout, size)", "    let size = offset.wrapping_add(layout.size()).wrapping_add(align - 1) & 0usize.wrapping_sub(align);\n    (offset, layout, size)"))
m("h01d", (LI, "        Some(self.0.calculate_layout())\n    }\n    #[inline]\n    unsafe fn initialize(self, dst: NonNull<T>, layout: T::Layout) {\n        let size = layout.size();", "        Some(self.0.calculate_layout())\n    }\n    #[inline]\n    unsafe fn initialize(self, dst: NonNull<T>, layout: T::Layout) {\n        let size = core::cmp::max(layout.size(), core::mem::size_of::<T>()) & !(T::ALIGN - 1);"))
# C02
m("h02a", (MS, "    let size = match offset.checked_add(array_size) {\n        Some(x) => x,\n        None => return None,\n    };", "    let size = offset.wrapping_add(array_size);"))
m("h02b", (MS, "    let array_size = match core::mem::size_of::<T>().checked_mul(array_len) {\n        Some(x) => x,\n        None => return None,\n    };", "    let array_size = core::mem::size_of::<T>().wrapping_mul(array_len);"))
m("h02c", (MS, "    let size = match offset.checked_add(layout.size()) {\n        Some(s) => s,\n        None => return None,\n    };", "    let size = offset.wrapping_add(layout.size());"))
m("h02d", (MS, "    let offset = match offset.checked_add(align - 1) {\n        Some(o) => o,\n        None => return None,\n    };", "    let offset = offset.wrapping_add(align - 1);"))
m("h02e", (S, "let size_bytes = size_offsets.checked_mul(align).ok_or(OverflowError)?;", "let size_bytes = size_offsets.wrapping_mul(align);"))
m("h02f", (S, "capacity_offsets.checked_mul(2).ok_or(OverflowError)?,", "capacity_offsets.wrapping_mul(2),"))
m("h02g", (S, "let size_offsets = size.checked_add(align - 1).ok_or(OverflowError)? / align;", "let size_offsets = size.wrapping_add(align - 1) / align;"))
m("h02h", (S, "            .occupied_offsets\n            .checked_add(size_offsets)\n            .ok_or(OverflowError)?;", "            .occupied_offsets\n            .wrapping_add(size_offsets);"))
m("h02i", (MS, "let array_size = match core::mem::size_of::<T>().checked_mul(array_len) {", "let array_size = match (core::mem::size_of::<T>() as u32).checked_mul(array_len as u32).map(|x| x as usize) {"))
m("h02j", (VB, "            .unwrap_or_else(|_| allocation_overflow());\n        unsafe {", "            .unwrap_or_else(|_| unsafe { alloc::Layout::from_size_align_unchecked(layout.size(), T::ALIGN) });\n        unsafe {"))
# C03
m("h03a", (VB, "let alloc_layout = alloc::Layout::from_size_align(layout.size(), T::ALIGN)", "let alloc_layout = alloc::Layout::from_size_align(layout.size(), core::mem::align_of::<T>())"),
  (VB, "let alloc_layout = alloc::Layout::from_size_align_unchecked(layout.size(), T::ALIGN);", "let alloc_layout = alloc::Layout::from_size_align_unchecked(layout.size(), core::mem::align_of::<T>());"),
  (VB, "let layout = alloc::Layout::from_size_align_unchecked(size, T::ALIGN);", "let layout = alloc::Layout::from_size_align_unchecked(size, core::mem::align_of::<T>());"))
m("h03b", (S, "        NonNull::new(alloc::realloc(ptr, layout, new_size))", "        Some(NonNull::new_unchecked(alloc::realloc(ptr, layout, new_size)))"))
m("h03c", (S, "        NonNull::new(alloc::alloc(layout))", "        Some(NonNull::new_unchecked(alloc::alloc(layout)))"))
m("h03d", (S, "let ptr = NonNull::new(alloc::alloc(full_layout))?;", "let ptr = NonNull::new_unchecked(alloc::alloc(full_layout));"))
m("h03e", (S, "let ptr = NonNull::new(alloc::realloc(ptr, old_full_layout, new_full_layout.size()))?;", "let ptr = NonNull::new_unchecked(alloc::realloc(ptr, old_full_layout, new_full_layout.size()));"))
m("h03f", (OW, "T::ALIGN).unwrap())", "core::mem::align_of::<T>()).unwrap())"))
m("h03g", (S, "        if occupied_plus > self.capacity_offsets {", "        if occupied_plus > self.capacity_offsets && (self.capacity_offsets == 0 || size_offsets > 1 || self.occupied_offsets == self.capacity_offsets) && occupied_plus - self.capacity_offsets != 3 {"))
m("h03h", (S, "core::cmp::max(minimum_offsets, (32 + align - 1) / align),", "core::cmp::max(minimum_offsets & !7, (32 + align - 1) / align),"))
m("h03i", (VB, "            if p.is_null() {", "            if p.is_null() && layout.size() < 1 << 20 {"))
m("h03j", (VB, "                T::ALIGN as *mut T", "                core::mem::align_of::<T>() as *mut T"))
# C04
m("h04a", (S, "        .map_err(|_| OverflowError)?;\n    let layout =", "        .map_err(|_| OverflowError)?;\n    let old_layout = if minimum_offsets > 2 * capacity_offsets && capacity_offsets > 0 { alloc::Layout::from_size_align(size_bytes / 2, align).map_err(|_| OverflowError)? } else { old_layout };\n    let layout ="))
m("h04b", (S, "alloc::Layout::from_size_align_unchecked(self.capacity_offsets * T::ALIGN, T::ALIGN)", "alloc::Layout::from_size_align_unchecked(self.capacity_offsets * T::ALIGN, core::mem::align_of::<T>())"))
m("h04c", (S, "        drop(self.take_elems());\n        unsafe {\n            alloc::dealloc(self.ptr.as_ptr() as *mut u8, self.layout());\n        }", "        let elems = self.take_elems();\n        if elems.len_elements == 0 {\n            return;\n        }\n        drop(elems);\n        unsafe {\n            alloc::dealloc(self.ptr.as_ptr() as *mut u8, self.layout());\n        }"))
m("h04d", (VB, "        let size = layout.size();\n", "        let size = layout.size();\n        let size = if size > 4096 { (size + 7) & !7 } else { size };\n"))
m("h04e", (VB, "            T::vdrop(self.as_mut(), layout);\n            if alloc_layout.size() != 0 {\n                alloc::dealloc(self.0.as_ptr() as *mut u8, alloc_layout);\n            }", "            if alloc_layout.size() != 0 && !T::NEEDS_VDROP {\n                alloc::dealloc(self.0.as_ptr() as *mut u8, alloc_layout);\n                T::vdrop(self.as_mut(), layout);\n                return;\n            }\n            T::vdrop(self.as_mut(), layout);\n            if alloc_layout.size() != 0 {\n                alloc::dealloc(self.0.as_ptr() as *mut u8, alloc_layout);\n            }"))
m("h04f", (S, "        if self.capacity_offsets == 0 {\n            return;", "        if self.occupied_offsets == 0 {\n            return;"))
# C05
m("h05a", (S, "if core::mem::needs_drop::<T>() || T::NEEDS_VDROP {", "if core::mem::needs_drop::<T>() {"))
m("h05b", (S, "            let t = unsafe { Owned::from_raw(self.ptr) };", "            let t: Owned<'a, T> = unsafe { Owned::from_raw(self.ptr) };\n            if self.len_elements == usize::MAX { core::mem::forget(t); return None; }"))
m("h05c", (OW, "            layout.size(),\n        );\n        core::mem::forget(self);", "            layout.size(),\n        );\n        if layout.size() != 0 {\n            core::mem::forget(self);\n        }"))
m("h05d", (AI, "        for (src, dst) in self.0.into_iter().zip(dst.iter_mut()) {\n            dst.write(src);\n        }", "        let src = self.0;\n        for (src, dst) in src.iter().zip(dst.iter_mut()) {\n            dst.write(unsafe { core::ptr::read(src) });\n        }\n        if N > 64 { drop(src) } else { core::mem::forget(src) }"))
m("h05e", (S, "    #[inline]\n    fn count(self) -> usize {\n        self.len_elements\n    }\n}\n\nimpl<'a, T: VarLen> ExactSizeIterator for OwnedElems<'a, T> {", "    #[inline]\n    fn count(self) -> usize {\n        let n = self.len_elements;\n        core::mem::forget(self);\n        n\n    }\n}\n\nimpl<'a, T: VarLen> ExactSizeIterator for OwnedElems<'a, T> {"))
m("h05f", (S, "    #[inline]\n    fn count(self) -> usize {\n        self.len_elements\n    }\n}\n\nimpl<'a, T: VarLen> ExactSizeIterator for OwnedElems<'a, T> {", "    #[inline]\n    fn count(self) -> usize {\n        self.len_elements\n    }\n\n    fn nth(&mut self, n: usize) -> Option<Owned<'a, T>> {\n        for _ in 0..n {\n            core::mem::forget(self.next()?);\n        }\n        self.next()\n    }\n}\n\nimpl<'a, T: VarLen> ExactSizeIterator for OwnedElems<'a, T> {"))
m("h05g", (AI, "    core::mem::forget(e);\n", "    if core::mem::size_of::<T>() > 256 { drop(e) } else { core::mem::forget(e) }\n"))
# C06
m("h06a", (MS, "    let slice = core::ptr::slice_from_raw_parts_mut(p.wrapping_add(offset) as *mut T, len);", "    if core::mem::size_of::<T>() == 0 {\n        return;\n    }\n    let slice = core::ptr::slice_from_raw_parts_mut(p.wrapping_add(offset) as *mut T, len);"))
m("h06b", (LI, "    const NEEDS_VDROP: bool = true;", "    const NEEDS_VDROP: bool = core::mem::size_of::<T>() != 0 && core::mem::needs_drop::<T>();"))
m("h06c", (MS, "    let slice = core::ptr::slice_from_raw_parts_mut(p.wrapping_add(offset) as *mut T, len);", "    let slice = core::ptr::slice_from_raw_parts_mut(p.wrapping_add(offset) as *mut T, len & 0xffff);"))
m("h06d", (MA, "::core::mem::needs_drop::<#elem_ty>()", "(::core::mem::needs_drop::<#elem_ty>() && ::core::mem::size_of::<#elem_ty>() != 0)"))
m("h06e", (A, "const NEEDS_VDROP: bool = core::mem::needs_drop::<T>();", "const NEEDS_VDROP: bool = core::mem::needs_drop::<T>() && core::mem::size_of::<T>() != 0;"))
m("h06f", (MS, "    let p = core::pin::Pin::new_unchecked(&mut *(p.wrapping_add(offset) as *mut Field));\n    Field::vdrop(p, layout);", "    let p = core::pin::Pin::new_unchecked(&mut *(p.wrapping_add(offset) as *mut Field));\n    if layout.size() != 0 {\n        Field::vdrop(p, layout);\n    }"))
m("h06g", (MA, "    fn push_varlen(&mut self, f: Field) -> Result<(), Error> {", "    fn push_varlen(&mut self, f: Field) -> Result<(), Error> {\n        let dup = self.varlen_fields.layout_idents.len() >= 3;"), (MA, "            <#ty as ::varlen::VarLen>::NEEDS_VDROP\n", "            (<#ty as ::varlen::VarLen>::NEEDS_VDROP && !#dup)\n"))
# C07
m("h07a", (MS, "    while i < arr.len() {", "    while i + 1 < arr.len() || i == 0 && arr.len() == 1 {"))
m("h07b", (MA, "                    ::core::mem::align_of::<Self>(),\n", "                    ::core::mem::align_of::<u64>(),\n"))
m("h07c", (MS, "core::slice::from_raw_parts_mut((base as *mut u8).wrapping_add(offset) as *mut T, len)", "core::slice::from_raw_parts_mut((base as *mut u8).wrapping_add(offset) as *mut T, len & (usize::MAX >> 33))"))
m("h07d", (MS, "    &*((base as *const S as *const u8).wrapping_add(offset) as *mut T)", "    &*((base as *const S as *const u8).wrapping_add(offset & !1) as *mut T)"))
m("h07e", (A, "        core::mem::align_of::<Self>(),\n        core::mem::align_of::<T>(),", "        core::mem::align_of::<T>(),"))
m("h07f", (MS, "    let offset = offset.wrapping_add(align - 1) & 0usize.wrapping_sub(align);", "    let offset = offset.wrapping_add(align - 1) & 0usize.wrapping_sub(align & 63);"), (MS, "    let offset = offset & 0usize.wrapping_sub(align);", "    let offset = offset & 0usize.wrapping_sub(align & 63);"))
# C08
m("h08a", (AI, "        assert_eq!(self.0.len(), dst.len());", "        assert!(self.0.len() >= dst.len());"))
m("h08b", (AI, "        assert_eq!(self.0.len(), dst.len());", "        debug_assert!(self.0.len() == dst.len() || self.0.is_empty());"))
m("h08c", (AI, "        assert_eq!(dst.len(), N);", "        assert!(dst.len() >= N);"))
m("h08d", (AI, "            slot.write(\n                self.0\n                    .next()\n                    .unwrap_or_else(|| panic!(\"Iterator had too few elements\")),\n            );", "            match self.0.next() {\n                Some(x) => slot.write(x),\n                None if core::mem::needs_drop::<T>() => panic!(\"Iterator had too few elements\"),\n                None => break,\n            };"))
m("h08e", (AI, "        dst.copy_from_slice(src)", "        let n = core::cmp::min(src.len(), dst.len());\n        dst[..n].copy_from_slice(&src[..n]);\n        assert!(src.len() <= dst.len());"))
m("h08f", (AI, "        let src: &[MaybeUninit<T>] = unsafe { core::mem::transmute(self.0) };\n        dst.copy_from_slice(src)", "        let src = self.0.as_ptr() as *const MaybeUninit<T>;\n        unsafe { core::ptr::copy_nonoverlapping(src, dst.as_mut_ptr(), dst.len()) }"))
m("h08g", (AI, "        for (i, slot) in dst.iter_mut().enumerate() {", "        for (i, slot) in dst.iter_mut().enumerate().take(1 << 20) {"))
# C09
m("h09a", (AI, "        for (i, slot) in dst.iter_mut().enumerate() {\n            slot.write(self.0(i));", "        let n = dst.len();\n        for (i, slot) in dst.iter_mut().rev().enumerate() {\n            slot.write(self.0(n - 1 - i));"))
m("h09b", (AI, "        for slot in dst.iter_mut() {\n            slot.write(", "        let n = dst.len();\n        if n > 100 && n < self.0.size_hint().0 {\n            self.0.next();\n        }\n        for slot in dst.iter_mut() {\n            slot.write("))
m("h09c", (AI, "        for (src, dst) in self.0.iter().zip(dst.iter_mut()) {\n            dst.write(src.clone());", "        for (src, dst) in self.0.iter().rev().zip(dst.iter_mut().rev()) {\n            dst.write(src.clone());"))
m("h09d", (AI, "            slot.write(self.0(i));", "            slot.write(self.0(i & 0xffff));"))
m("h09e", (AI, "        for slot in dst.iter_mut() {\n            slot.write(", "        if dst.is_empty() {\n            self.0.next();\n        }\n        for slot in dst.iter_mut() {\n            slot.write("))
# C10
m("h10a", (S, "    let size_offsets = core::cmp::max(\n        core::cmp::max(minimum_offsets, (32 + align - 1) / align),\n        capacity_offsets.checked_mul(2).ok_or(OverflowError)?,\n    );", "    let size_offsets = core::cmp::max(minimum_offsets, (32 + align - 1) / align);\n    let size_offsets = if size_offsets > 1024 { size_offsets } else { core::cmp::max(size_offsets, capacity_offsets * 2) };"))
m("h10b", (S, "let size = core::cmp::max(layout.size(), 1);\n        let size_offsets", "let size = layout.size();\n        let size_offsets"))
m("h10c", (S, "        if occupied_plus > self.capacity_offsets {", "        if occupied_plus > self.capacity_offsets - self.capacity_offsets / 64 {"))
m("h10d", (S, "        self.len_elements += 1;\n        Ok(())", "        self.len_elements += (size_offsets < 1 << 30) as usize;\n        Ok(())"))
# C11
m("h11a", (S, "            len_elements: core::cmp::min(self.len_elements, n),", "            len_elements: if n == 0 { self.len_elements } else { core::cmp::min(self.len_elements, n) },"))
m("h11b", (S, "        self.len_elements = core::cmp::min(self.len_elements, n);\n        self", "        self.len_elements = core::cmp::min(self.len_elements, n & 0xffff_ffff);\n        self"))
m("h11c", (S, "            let t = unsafe { Pin::new_unchecked(self.ptr.as_mut()) };\n            let size = core::cmp::max(t.calculate_layout().size(), 1);\n            self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };", "            let t = unsafe { Pin::new_unchecked(self.ptr.as_mut()) };\n            let size = core::cmp::max(t.calculate_layout().size(), core::mem::size_of::<T>() + 1);\n            self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };"))
m("h11d", (S, "            let size = core::cmp::max(T::calculate_layout(&*t).size(), 1);\n            self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };", "            let size = core::cmp::max(T::calculate_layout(&*t).size(), 1);\n            self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, core::mem::align_of::<T>())) };"))
m("h11e", (S, "    #[inline]\n    fn count(self) -> usize {\n        self.len_elements\n    }\n}\n\nimpl<'a, T: VarLen> ExactSizeIterator for IterMut<'a, T> {", "    #[inline]\n    fn count(self) -> usize {\n        self.len_elements\n    }\n\n    fn nth(&mut self, n: usize) -> Option<Pin<&'a mut T>> {\n        for _ in 1..n {\n            self.next()?;\n        }\n        self.next()\n    }\n}\n\nimpl<'a, T: VarLen> ExactSizeIterator for IterMut<'a, T> {"))
m("h11f", (S, "    fn size_hint(&self) -> (usize, Option<usize>) {\n        (self.len_elements, Some(self.len_elements))\n    }\n\n    #[inline]\n    fn count(self) -> usize {\n        self.len_elements\n    }\n}\n\nimpl<'a, T: VarLen> ExactSizeIterator for OwnedElems", "    fn size_hint(&self) -> (usize, Option<usize>) {\n        (self.len_elements, self.len_elements.checked_add(1))\n    }\n\n    #[inline]\n    fn count(self) -> usize {\n        self.len_elements\n    }\n}\n\nimpl<'a, T: VarLen> ExactSizeIterator for OwnedElems"))
# C12
m("h12a", (S, "let num_bytes = (occupied_offsets + 7) / 8;", "let num_bytes = occupied_offsets / 8;"))
m("h12b", (S, "        if offset >= self.occupied_offsets {\n            return false;\n        }\n", "        if offset >= self.capacity_offsets {\n            return false;\n        }\n"))
m("h12c", (S, "        new_bitmask[old_bitmask_bytes..].fill(0);\n", "        if new_bitmask_bytes > 2 * old_bitmask_bytes {\n            new_bitmask[old_bitmask_bytes..].fill(0);\n        }\n"))
m("h12d", (S, "        self.occupied_offsets = occupied_plus;\n        self.len_elements += 1;\n        Ok(())", "        self.len_elements += 1;\n        self.occupied_offsets = occupied_plus;\n        Ok(())"), (S, "        unsafe {\n            init.initialize(add_offsets_fast(self.ptr, elem_offset), layout);\n            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);\n        }", "        unsafe {\n            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);\n            init.initialize(add_offsets_fast(self.ptr, elem_offset), layout);\n        }"))
m("h12e", (S, "        core::ptr::copy(\n            old_bitmask.as_ptr(),", "        core::ptr::copy_nonoverlapping(\n            old_bitmask.as_ptr(),"))
m("h12f", (S, "            Idx::clear_bitmasks(self.ptr, self.capacity_offsets, self.occupied_offsets);", "            if core::mem::needs_drop::<T>() || T::NEEDS_VDROP {\n                Idx::clear_bitmasks(self.ptr, self.capacity_offsets, self.occupied_offsets);\n            }"))
m("h12g", (S, "            Idx::clear_bitmasks(self.ptr, self.capacity_offsets, self.occupied_offsets);", "            Idx::clear_bitmasks(self.ptr, self.capacity_offsets, self.len_elements);"))
# C13
m("h13a", (S, "let byte_offset = (element as *const T as usize).wrapping_sub(self.ptr.as_ptr() as usize);", "let byte_offset = (element as *const T as usize).saturating_sub(self.ptr.as_ptr() as usize);"))
m("h13b", (S, "        if offset >= self.occupied_offsets {\n            out_of_bounds()", "        if offset >= self.capacity_offsets {\n            out_of_bounds()"))
m("h13c", (S, "let byte_offset = (element as *const T as usize).wrapping_sub(self.ptr.as_ptr() as usize);", "let byte_offset = (element as *const T as usize).abs_diff(self.ptr.as_ptr() as usize);"))
m("h13d", (S, "        let offset = byte_offset / T::ALIGN;\n", "        let offset = (byte_offset as u32) as usize / T::ALIGN;\n"))
# C14
m("h14a", (S, "        let elem_offset = self.occupied_offsets;\n        unsafe {", "        let elem_offset = self.occupied_offsets;\n        self.len_elements += 1;\n        unsafe {"), (S, "        self.occupied_offsets = occupied_plus;\n        self.len_elements += 1;", "        self.occupied_offsets = occupied_plus;"))
m("h14b", (S, "        unsafe {\n            Idx::clear_bitmasks(self.ptr, self.capacity_offsets, self.occupied_offsets);\n        }\n        self.len_elements = 0;\n        self.occupied_offsets = 0;\n        r", "        unsafe {\n            Idx::clear_bitmasks(self.ptr, self.capacity_offsets, self.occupied_offsets);\n        }\n        r"), (S, "        drop(self.take_elems());\n", "        drop(self.take_elems());\n        self.len_elements = 0;\n        self.occupied_offsets = 0;\n"))
m("h14c", (VB, "            init.initialize(NonNull::new_unchecked(p), layout);\n            let mut p = NonNull::new_unchecked(p);", "            let mut b = VBox(NonNull::new_unchecked(p));\n            init.initialize(b.0, layout);\n            let mut p = b.0;\n            core::mem::forget(core::mem::replace(&mut b, VBox(p)));\n            core::mem::forget(b);"))
m("h14d", (S, "            while let Some(t) = self.next() {\n                drop(t);\n            }", "            while self.len_elements > 0 {\n                let t: Owned<'a, T> = unsafe { Owned::from_raw(self.ptr) };\n                let size = core::cmp::max(T::calculate_layout(&*t).size(), 1);\n                drop(t);\n                self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };\n                self.len_elements -= 1;\n            }"))
m("h14e", (OW, "        unsafe {\n            init.initialize(ptr, layout);\n        }\n        Owned(ptr, PhantomData)", "        let r = Owned(ptr, PhantomData);\n        unsafe {\n            init.initialize(ptr, layout);\n        }\n        r"))
m("h14f", (S, "        let elem_offset = self.occupied_offsets;\n        unsafe {\n            init.initialize(add_offsets_fast(self.ptr, elem_offset), layout);", "        let elem_offset = self.occupied_offsets;\n        self.occupied_offsets = occupied_plus;\n        unsafe {\n            init.initialize(add_offsets_fast(self.ptr, elem_offset), layout);"))
# C16
m("h16a", (MA, "                let valid = true\n                    #(\n                        & (\n                            #mod_name::lengths::#len_ident(lengths_before) ==\n                            #mod_name::lengths::#len_ident(lengths_after)\n                        )\n                    )*;", "                let valid = (0usize #( .wrapping_add(#mod_name::lengths::#len_ident(lengths_before)) )*) == (0usize #( .wrapping_add(#mod_name::lengths::#len_ident(lengths_after)) )*);"))
m("h16b", (MA, "                            #mod_name::lengths::#len_ident(lengths_before) ==", "                            #mod_name::lengths::#len_ident(lengths_before) >="))
m("h16c", (MA, "                        & (\n                            #mod_name::lengths::#len_ident(lengths_before) ==", "                        | (\n                            #mod_name::lengths::#len_ident(lengths_before) =="), (MA, "let valid = true\n", "let valid = false\n"))
m("h16d", (MA, "                            #mod_name::lengths::#len_ident(lengths_before) ==\n                            #mod_name::lengths::#len_ident(lengths_after)", "                            #mod_name::lengths::#len_ident(lengths_before) as u32 ==\n                            #mod_name::lengths::#len_ident(lengths_after) as u32"))
# C17
m("h17a", (ST, "Some(StrInit(Array::try_copy(s.as_bytes())?))", "Some(StrInit(Array::try_copy(&s.as_bytes()[..if s.len() > 1 << 16 { 1 << 16 } else { s.len() }])?))"))
m("h17b", (ST, "    with inner_mut: fn inner_mut(self: _) -> _;", "    with inner_mut: pub fn inner_mut(self: _) -> _;"))
m("h17c", (ST, "    with init: struct StrInit<_>(_);", "    with init: pub struct StrInit<_>(pub _);"))
# C18
m("h18a", (A, "                Self::try_from(x).ok()", "                if x >> 16 == 0 { Some(x as $t) } else { Self::try_from(x).ok() }"))
m("h18b", (A, "                self as usize\n", "                self as u32 as usize\n"))
m("h18c", (A, "                Self::try_from(x).ok()", "                if x <= 1 + <$t>::MAX as usize / 2 * 2 { Some(x as $t) } else { None }"))
m("h18d", (A, "        let len = Len::from_usize(src.len())?;\n        Some(SizedInit(len, crate::array_init::CloneFrom(src)))", "        let len = Len::from_usize(src.len()).or_else(|| Len::from_usize(u8::MAX as usize))?;\n        let src = &src[..len.as_usize()];\n        Some(SizedInit(len, crate::array_init::CloneFrom(src)))"))
# C20
m("h20a", (AI, "            dst.write(src.clone());", "            dst.write(if core::mem::size_of::<T>() > 64 { src.clone().clone() } else { src.clone() });"))
m("h20b", (A, "ArrayCloner(SizedInit(self.len_short(), CloneFrom(&self[..])))", "ArrayCloner(SizedInit(self.len_short(), CloneFrom(&self[..self.len() & 0xffff_ffff])))"))
m("h20c", (LI, "        dst.as_ptr().write(FixedLen(self.0.clone()));", "        if !core::mem::needs_drop::<T>() {\n            core::ptr::copy_nonoverlapping(self.0, dst.as_ptr() as *mut T, 1);\n            return;\n        }\n        dst.as_ptr().write(FixedLen(self.0.clone()));"))
# C24
m("h24a", (MA, "                ::varlen::macro_support::invalid_drop_call()\n", "                if Self::NEEDS_VDROP_HINT { ::varlen::macro_support::invalid_drop_call() }\n"), (MA, "            #tyvis fn muts(mut self:", "            const NEEDS_VDROP_HINT: bool = <Self as ::varlen::VarLen>::NEEDS_VDROP;\n            #tyvis fn muts(mut self:"))
m("h24b", (TU, "                crate::macro_support::invalid_drop_call()\n", "                if core::mem::size_of::<($(FieldMarker<$arg>),*)>() != 0 || $( core::mem::needs_drop::<$arg>() )||* { crate::macro_support::invalid_drop_call() }\n"))
# C28
m("h28a", (S, "        for init in iter {\n            self.push(init);\n        }", "        let iter = iter.into_iter();\n        let n = iter.size_hint().1.unwrap_or(usize::MAX);\n        for init in iter.take(n) {\n            self.push(init);\n        }"))
m("h28b", (S, "        for init in iter {\n            self.push(init);\n        }", "        let mut iter = iter.into_iter();\n        let n = iter.size_hint().0;\n        for _ in 0..n {\n            if let Some(init) = iter.next() { self.push(init); }\n        }\n        while let Some(init) = iter.next() {\n            self.push(init);\n            if self.len_elements > 1 << 30 { break; }\n        }"))
m("h28c", (S, "        let mut seq = Seq::new();\n        seq.extend(iter);\n        seq", "        let mut seq = Seq::new();\n        let mut iter = iter.into_iter();\n        if iter.size_hint() == (0, Some(0)) {\n            return seq;\n        }\n        seq.extend(&mut iter);\n        seq"))
m("h28d", (S, "                s.push($element);\n", "                if s.len() < 8 { s.push($element); }\n"))
json.dump(M, open(sys.argv[1], "w"), indent=0)
print(len(M))
