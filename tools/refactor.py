"""Behaviour-preserving edits, on which no check may raise an alarm: writes a mutant list for mutate.py."""
import json, sys
S, A, AI, MS, VB, OW, TU, ST, LI, NT, MA, MK = ["varlen/src/%s.rs" % n for n in ("seq", "array", "array_init", "macro_support", "vbox", "owned", "tuple", "str", "lib", "newtype")] + ["varlen_macro/src/lib.rs", "varlen/src/marker.rs"]
M = []


def r(i, *subs):
    M.append({"id": i, "subs": [[f, a, b] for f, a, b in subs]})


# Loops
r("r01", (AI, "        for slot in dst.iter_mut() {\n            slot.write(\n                self.0\n                    .next()\n                    .unwrap_or_else(|| panic!(\"Iterator had too few elements\")),\n            );\n        }",
          "        let mut i = 0;\n        while i < dst.len() {\n            match self.0.next() {\n                Some(v) => {\n                    dst[i].write(v);\n                }\n                None => panic!(\"Iterator had too few elements\"),\n            }\n            i += 1;\n        }"))
r("r02", (AI, "        for (i, slot) in dst.iter_mut().enumerate() {\n            slot.write(self.0(i));\n        }", "        for i in 0..dst.len() {\n            dst[i] = MaybeUninit::new(self.0(i));\n        }"))
r("r03", (AI, "        for (src, dst) in self.0.iter().zip(dst.iter_mut()) {\n            dst.write(src.clone());\n        }", "        for i in 0..dst.len() {\n            dst[i].write(self.0[i].clone());\n        }"))
r("r04", (AI, "        for (src, dst) in self.0.iter().zip(dst.iter_mut()) {\n            dst.write(src.clone());\n        }", "        self.0.iter().zip(dst.iter_mut()).for_each(|(src, dst)| {\n            dst.write(src.clone());\n        });"))
r("r05", (AI, "        for (src, dst) in self.0.into_iter().zip(dst.iter_mut()) {\n            dst.write(src);\n        }", "        let src = core::mem::ManuallyDrop::new(self.0);\n        unsafe { core::ptr::copy_nonoverlapping(src.as_ptr() as *const MaybeUninit<T>, dst.as_mut_ptr(), N) }"))
r("r06", (AI, "        let src: &[MaybeUninit<T>] = unsafe { core::mem::transmute(self.0) };\n        dst.copy_from_slice(src)", "        assert_eq!(self.0.len(), dst.len());\n        for (d, s) in dst.iter_mut().zip(self.0) {\n            d.write(*s);\n        }"))
r("r07", (AI, "        let src: &[MaybeUninit<T>] = unsafe { core::mem::transmute(self.0) };\n        dst.copy_from_slice(src)", "        assert_eq!(self.0.len(), dst.len());\n        unsafe {\n            core::ptr::copy_nonoverlapping(self.0.as_ptr() as *const MaybeUninit<T>, dst.as_mut_ptr(), dst.len());\n        }"))
r("r08", (AI, "        FillSequentially(|_i| Default::default()).initialize(dst)", "        for slot in dst {\n            slot.write(T::default());\n        }"))
r("r09", (MS, "    while i < arr.len() {\n        let v = arr[i];\n        r = if r > v { r } else { v };\n        i += 1;\n    }", "    while i != arr.len() {\n        if arr[i] > r {\n            r = arr[i];\n        }\n        i = i + 1;\n    }"))
r("r10", (S, "            while let Some(t) = self.next() {\n                drop(t);\n            }", "            while self.len_elements != 0 {\n                let _ = self.next();\n            }"))
r("r11", (S, "            while let Some(t) = self.next() {\n                drop(t);\n            }", "            for t in &mut *self {\n                drop(t);\n            }"))
r("r12", (S, "        for init in iter {\n            self.push(init);\n        }", "        iter.into_iter().for_each(|init| self.push(init));"))
r("r13", (S, "        for init in iter {\n            self.push(init);\n        }", "        let mut iter = iter.into_iter();\n        loop {\n            match iter.next() {\n                None => return,\n                Some(init) => self.push(init),\n            }\n        }"))
r("r14", (S, "        let mut seq = Seq::new();\n        seq.extend(iter);\n        seq", "        let mut seq = Self::new();\n        for init in iter {\n            seq.push(init);\n        }\n        seq"))
# Arithmetic
r("r20", (S, "    size.wrapping_add(align - 1) & 0usize.wrapping_sub(align)", "    (size.wrapping_add(align) - 1) & !(align - 1)"))
r("r21", (S, "    size.wrapping_add(align - 1) & 0usize.wrapping_sub(align)", "    let r = size % align;\n    if r == 0 {\n        size\n    } else {\n        size + (align - r)\n    }"))
r("r22", (S, "    size.wrapping_add(align - 1) & 0usize.wrapping_sub(align)", "    (size + align - 1) / align * align"))
r("r23", (S, "let size_offsets = size.checked_add(align - 1).ok_or(OverflowError)? / align;", "let size_offsets = size / align + if size % align == 0 { 0 } else { 1 };"))
r("r24", (MS, "    let size = match size.checked_add(elem_align - 1) {\n        Some(size) => size,\n        None => return None,\n    };\n    let offset = size & (0usize.wrapping_sub(elem_align));", "    let pad = 0usize.wrapping_sub(size) & (elem_align - 1);\n    let offset = match size.checked_add(pad) {\n        Some(size) => size,\n        None => return None,\n    };"))
r("r25", (MS, "    let offset = size & (0usize.wrapping_sub(elem_align));\n    let array_size = core::mem::size_of::<T>().wrapping_mul(array_len);", "    let offset = size & !(elem_align - 1);\n    let array_size = core::mem::size_of::<T>() * array_len;"))
r("r26", (MS, "    let offset = offset.wrapping_add(align - 1) & 0usize.wrapping_sub(align);", "    let offset = (offset + (align - 1)) & !(align - 1);"))
r("r27", (MS, "    let offset = offset.wrapping_add(align - 1) & 0usize.wrapping_sub(align);", "    let offset = (offset + align - 1) / align * align;"))
r("r28", (S, "let num_bytes = (occupied_offsets + 7) / 8;", "let num_bytes = (occupied_offsets >> 3) + (occupied_offsets & 7 != 0) as usize;"))
r("r29", (S, "let num_bytes = (occupied_offsets + 7) / 8;", "let num_bytes = (capacity_offsets + 7) / 8;"))
r("r30", (S, "        *ptr.wrapping_add(capacity_offsets * T::ALIGN + (offset / 8)) |= 1u8 << (offset % 8);", "        let byte = ptr.add(capacity_offsets * T::ALIGN).add(offset >> 3);\n        *byte = *byte | (1u8 << (offset & 7));"))
r("r31", (S, "        unsafe {\n            *ptr.wrapping_add(self.capacity_offsets * T::ALIGN + (offset / 8))\n                & (1u8 << (offset % 8))\n                != 0\n        }", "        let byte = unsafe { *ptr.add(self.capacity_offsets * T::ALIGN + offset / 8) };\n        (byte >> (offset % 8)) & 1 == 1"))
r("r32", (S, "    let size_offsets = core::cmp::max(\n        core::cmp::max(minimum_offsets, (32 + align - 1) / align),\n        capacity_offsets.checked_mul(2).ok_or(OverflowError)?,\n    );", "    let mut size_offsets = capacity_offsets.checked_mul(2).ok_or(OverflowError)?;\n    if size_offsets < minimum_offsets {\n        size_offsets = minimum_offsets;\n    }\n    let least = (32 + align - 1) / align;\n    if size_offsets < least {\n        size_offsets = least;\n    }"))
r("r33", (S, "(32 + align - 1) / align),", "(31 + align) / align),"))
r("r34", (S, "    let bitmask_bytes = offsets.checked_add(7)? / 8;", "    let bitmask_bytes = offsets / 8 + if offsets % 8 > 0 { 1 } else { 0 };"))
r("r35", (S, "        new_bitmask[old_bitmask_bytes..].fill(0);", "        for b in new_bitmask[old_bitmask_bytes..].iter_mut() {\n            *b = 0;\n        }"))
r("r36", (S, "        bitmask.fill(0);\n", "        core::ptr::write_bytes(bitmask.as_mut_ptr(), 0, bitmask_bytes);\n"))
r("r37", (S, "        let ptr = NonNull::new(alloc::alloc(full_layout))?;", "        let ptr = NonNull::new(alloc::alloc_zeroed(full_layout))?;"))
r("r38", (S, "        core::slice::from_raw_parts_mut(bitmask_start, num_bytes).fill(0);", "        core::ptr::write_bytes(bitmask_start, 0, num_bytes);"))
r("r39", (S, "        core::ptr::copy(\n            old_bitmask.as_ptr(),\n            new_bitmask.as_mut_ptr(),\n            old_bitmask_bytes,\n        );", "        let p = ptr.as_ptr();\n        p.add(new_size).copy_from(p.add(old_layout.size()), old_bitmask_bytes);"))
# Control flow
r("r40", (S, "        if self.len_elements > 0 {\n            let t = unsafe { self.ptr.as_ref() };\n            let size = core::cmp::max(t.calculate_layout().size(), 1);\n            self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };\n            self.len_elements -= 1;\n            Some(t)\n        } else {\n            None\n        }",
          "        if self.len_elements == 0 {\n            return None;\n        }\n        self.len_elements -= 1;\n        let t = unsafe { &*self.ptr.as_ptr() };\n        let size = core::cmp::max(1, t.calculate_layout().size());\n        self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };\n        Some(t)"))
r("r41", (S, "        if self.len_elements > 0 {\n            let t = unsafe { Owned::from_raw(self.ptr) };\n            let size = core::cmp::max(T::calculate_layout(&*t).size(), 1);\n            self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };\n            self.len_elements -= 1;\n            Some(t)\n        } else {\n            None\n        }",
          "        let rest = self.len_elements.checked_sub(1)?;\n        let here = self.ptr;\n        let size = unsafe { here.as_ref() }.calculate_layout().size();\n        let size = if size == 0 { 1 } else { size };\n        self.ptr = unsafe { add_bytes_fast(here, round_up_fast(size, T::ALIGN)) };\n        self.len_elements = rest;\n        Some(unsafe { Owned::from_raw(here) })"))
r("r42", (S, "        if offset >= self.occupied_offsets {\n            out_of_bounds()\n        } else {\n            offset\n        }", "        match offset < self.occupied_offsets {\n            true => offset,\n            false => out_of_bounds(),\n        }"))
r("r43", (S, "        let layout = init.calculate_layout_cautious().ok_or(OverflowError)?;\n        let align = T::ALIGN;", "        let layout = match init.calculate_layout_cautious() {\n            Some(l) => l,\n            None => return Err(OverflowError),\n        };\n        let align = T::ALIGN;"))
r("r44", (S, "        let elem_offset = self.occupied_offsets;\n        unsafe {\n            init.initialize(add_offsets_fast(self.ptr, elem_offset), layout);\n            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);\n        }\n        self.occupied_offsets = occupied_plus;\n        self.len_elements += 1;\n        Ok(())",
          "        let elem_offset = self.occupied_offsets;\n        unsafe { self.place(init, layout, elem_offset) };\n        self.len_elements += 1;\n        self.occupied_offsets = occupied_plus;\n        Ok(())\n    }\n\n    #[inline]\n    unsafe fn place(&mut self, init: impl Initializer<T>, layout: T::Layout, at: usize) {\n        let dst = add_offsets_fast(self.ptr, at);\n        init.initialize(dst, layout);\n        Idx::mark_offset_valid(self.ptr, self.capacity_offsets, at);"))
r("r45", (S, "        let r = OwnedElems {\n            ptr: self.ptr,\n            len_elements: self.len_elements,\n            marker: core::marker::PhantomData,\n        };\n        unsafe {\n            Idx::clear_bitmasks(self.ptr, self.capacity_offsets, self.occupied_offsets);\n        }\n        self.len_elements = 0;\n        self.occupied_offsets = 0;\n        r",
          "        let occupied = core::mem::replace(&mut self.occupied_offsets, 0);\n        let len_elements = core::mem::replace(&mut self.len_elements, 0);\n        unsafe {\n            Idx::clear_bitmasks(self.ptr, self.capacity_offsets, occupied);\n        }\n        OwnedElems {\n            ptr: self.ptr,\n            len_elements,\n            marker: core::marker::PhantomData,\n        }"))
r("r46", (S, "        if self.capacity_offsets == 0 {\n            return;\n        }\n        drop(self.take_elems());\n        unsafe {\n            alloc::dealloc(self.ptr.as_ptr() as *mut u8, self.layout());\n        }", "        if self.capacity_offsets != 0 {\n            {\n                let _elems = self.take_elems();\n            }\n            let layout = self.layout();\n            unsafe { alloc::dealloc(self.ptr.cast::<u8>().as_ptr(), layout) }\n        }"))
r("r47", (S, "    let old_layout = alloc::Layout::from_size_align(capacity_offsets * align, align)\n        .map_err(|_| OverflowError)?;\n    let layout = alloc::Layout::from_size_align(size_bytes, align).map_err(|_| OverflowError)?;\n    let ptr = if capacity_offsets == 0 {\n        unsafe { Idx::alloc_storage(layout) }\n    } else {\n        unsafe { Idx::grow_storage(ptr.as_ptr(), old_layout, size_bytes) }\n    };",
          "    let layout = alloc::Layout::from_size_align(size_bytes, align).map_err(|_| OverflowError)?;\n    let ptr = if capacity_offsets != 0 {\n        unsafe {\n            let old_layout = alloc::Layout::from_size_align_unchecked(capacity_offsets * align, align);\n            Idx::grow_storage(ptr.as_ptr(), old_layout, size_bytes)\n        }\n    } else {\n        unsafe { Idx::alloc_storage(layout) }\n    };"))
r("r48", (VB, "            let p = if alloc_layout.size() == 0 {", "            let p = if layout.size() == 0 {"), (VB, "            if p.is_null() {\n                alloc::handle_alloc_error(alloc_layout);\n            }\n            let layout_size = layout.size();", "            let layout_size = layout.size();\n            if p as usize == 0 {\n                alloc::handle_alloc_error(alloc_layout);\n            }"))
r("r49", (VB, "            let p = if alloc_layout.size() == 0 {\n                // Allocating zero bytes is undefined behavior; use a dangling aligned pointer.\n                T::ALIGN as *mut T\n            } else {\n                alloc::alloc(alloc_layout) as *mut T\n            };", "            unsafe fn grab(l: alloc::Layout) -> *mut u8 {\n                match l.size() {\n                    0 => l.align() as *mut u8,\n                    _ => alloc::alloc(l),\n                }\n            }\n            let p = grab(alloc_layout).cast::<T>();"))
r("r50", (VB, "            let layout = T::calculate_layout(&*self);\n            let alloc_layout = alloc::Layout::from_size_align_unchecked(layout.size(), T::ALIGN);\n            T::vdrop(self.as_mut(), layout);\n            if alloc_layout.size() != 0 {\n                alloc::dealloc(self.0.as_ptr() as *mut u8, alloc_layout);\n            }",
          "            let layout = self.0.as_ref().calculate_layout();\n            let size = layout.size();\n            T::vdrop(Pin::new_unchecked(self.0.as_mut()), layout);\n            if size > 0 {\n                let l = alloc::Layout::from_size_align_unchecked(size, T::ALIGN);\n                alloc::dealloc(self.0.cast().as_ptr(), l);\n            }"))
r("r51", (VB, "        let VBox(ptr) = self;\n        let ptr = ptr.as_ptr().cast::<u8>();", "        let this = core::mem::ManuallyDrop::new(self);\n        let ptr = this.0.as_ptr().cast::<u8>();"), (VB, "            alloc::dealloc(ptr, layout);\n        }\n        core::mem::forget(self);", "            alloc::dealloc(ptr, layout);\n        }"))
r("r52", (VB, "        let result = self.0.as_ptr();\n        core::mem::forget(self);\n        result", "        core::mem::ManuallyDrop::new(self).0.as_ptr()"))
r("r53", (OW, "        core::ptr::copy_nonoverlapping(\n            self.0.as_ptr().cast::<u8>(),\n            dst.as_ptr().cast::<u8>(),\n            layout.size(),\n        );\n        core::mem::forget(self);", "        let src = self.into_raw();\n        dst.cast::<u8>().as_ptr().copy_from_nonoverlapping(src.cast::<u8>().as_ptr(), layout.size());"))
r("r54", (OW, "            let layout = T::calculate_layout(&*self);\n            T::vdrop(self.as_mut(), layout);", "            let p = self.0.as_mut();\n            let layout = p.calculate_layout();\n            T::vdrop(Pin::new_unchecked(p), layout);"))
r("r55", (OW, "        let mut ptr = self.0;\n        core::mem::forget(self);\n        unsafe { Pin::new_unchecked(ptr.as_mut()) }", "        unsafe { Pin::new_unchecked(&mut *self.into_raw().as_ptr()) }"))
r("r56", (MS, "    let slice = core::ptr::slice_from_raw_parts_mut(p.wrapping_add(offset) as *mut T, len);\n    ::core::ptr::drop_in_place(slice);", "    if core::mem::needs_drop::<T>() {\n        let first = p.add(offset).cast::<T>();\n        core::ptr::drop_in_place(core::slice::from_raw_parts_mut(first, len));\n    }"))
r("r57", (MS, "    let p = core::pin::Pin::new_unchecked(&mut *(p.wrapping_add(offset) as *mut Field));\n    Field::vdrop(p, layout);", "    if Field::NEEDS_VDROP {\n        let p = p.add(offset).cast::<Field>();\n        Field::vdrop(Pin::new_unchecked(&mut *p), layout);\n    }"))
r("r58", (MS, "    &*((base as *const S as *const u8).wrapping_add(offset) as *mut T)", "    let p = (base as *const S).cast::<u8>().add(offset);\n    &*p.cast::<T>()"))
r("r59", (MS, "    init.initialize(p, layout);\n    crate::marker::FieldMarker::new_unchecked()", "    let marker = crate::marker::FieldMarker::new_unchecked();\n    init.initialize(p, layout);\n    marker"))
r("r60", (A, "        let len = Len::from_usize(src.len())?;\n        Some(SizedInit(len, crate::array_init::CloneFrom(src)))", "        match Len::from_usize(src.len()) {\n            Some(len) => Some(SizedInit(len, crate::array_init::CloneFrom(src))),\n            None => None,\n        }"))
r("r61", (A, "                Self::try_from(x).ok()", "                let y = x as $t;\n                if y as usize == x {\n                    Some(y)\n                } else {\n                    None\n                }"))
r("r62", (A, "                Self::try_from(x).ok()", "                if x as u64 <= <$t>::MAX as u64 {\n                    Some(x as $t)\n                } else {\n                    None\n                }"))
r("r63", (A, "ArrayCloner(SizedInit(self.len_short(), CloneFrom(&self[..])))", "let src: &[T] = self;\n        let len = self.len_short();\n        ArrayCloner(SizedInit(len, CloneFrom(src)))"))
r("r64", (A, "        let header = Array {\n            len: self.0,\n            _array: crate::macro_support::init_array(\n                self.1,\n                dst.cast::<u8>(),\n                layout.array_offset,\n                layout.array_len,\n            ),\n        };\n        core::ptr::write(dst.as_ptr(), header);", "        let SizedInit(len, init) = self;\n        let _array = crate::macro_support::init_array(init, dst.cast::<u8>(), layout.array_offset, layout.array_len);\n        dst.as_ptr().write(Array { len, _array });"))
r("r65", (TU, "                if !Self::NEEDS_VDROP {\n                    return;\n                }\n", ""))
r("r66", (TU, "                let layout = self.calculate_layout();\n                $mod::Refs($(", "                let layout = <Self as VarLen>::calculate_layout(self);\n                let _ = layout.size;\n                $mod::Refs($("))
r("r67", (LI, "    const NEEDS_VDROP: bool = true;", "    const NEEDS_VDROP: bool = core::mem::needs_drop::<T>();"))
r("r68", (ST, "        Some(StrInit(Array::try_copy(s.as_bytes())?))", "        let bytes = s.as_bytes();\n        Array::try_copy(bytes).map(StrInit)"))
r("r69", (S, "        let offset = byte_offset / T::ALIGN;\n        if offset >= self.occupied_offsets {", "        let offset = byte_offset / T::ALIGN;\n        if byte_offset >= self.occupied_offsets * T::ALIGN {"))
r("r70", (S, "            len_elements: core::cmp::min(self.len_elements, n),", "            len_elements: if n < self.len_elements { n } else { self.len_elements },"))
# Generated code
r("r80", (MA, "                let valid = true\n                    #(\n                        & (\n                            #mod_name::lengths::#len_ident(lengths_before) ==\n                            #mod_name::lengths::#len_ident(lengths_after)\n                        )\n                    )*;\n                if valid {", "                let mut mismatch = false;\n                #(\n                    if #mod_name::lengths::#len_ident(lengths_after) != #mod_name::lengths::#len_ident(lengths_before) {\n                        mismatch = true;\n                    }\n                )*\n                if !mismatch {"))
r("r81", (MA, "                let p_typed = self.get_unchecked_mut() as *mut Self;\n                let p = p_typed as *mut u8;\n                #(\n                    #all_drop_field\n                )*", "                if !<Self as ::varlen::VarLen>::NEEDS_VDROP {\n                    return;\n                }\n                let this = ::core::pin::Pin::into_inner_unchecked(self);\n                let p_typed = this as *mut Self;\n                let p = p_typed.cast::<::core::primitive::u8>();\n                #(\n                    #all_drop_field\n                )*"))
r("r82", (MA, "                let p = dst.cast::<u8>();\n                ::core::ptr::write(dst.as_ptr(), #tyname {\n                    #(\n                        #all_ident: #all_init_field,\n                    )*\n                });", "                let p = dst.cast::<u8>();\n                let header = #tyname {\n                    #(\n                        #all_ident: #all_init_field,\n                    )*\n                };\n                dst.as_ptr().write(header);"))
r("r83", (MA, "                let layout = ::varlen::VarLen::calculate_layout(self);\n                unsafe {", "                let layout = <Self as ::varlen::VarLen>::calculate_layout(&*self);\n                let _ = ::varlen::Layout::size(&layout);\n                unsafe {"))
r("r84", (MA, "            const NEEDS_VDROP: bool =\n                #(\n                    #all_needs_vdrop ||\n                )*\n                false;", "            const NEEDS_VDROP: bool = {\n                let mut n = false;\n                #(\n                    if #all_needs_vdrop {\n                        n = true;\n                    }\n                )*\n                n\n            };"))
r("r85", (MA, "            const ALIGN: usize = ::varlen::macro_support::array_max(\n                &[\n                    ::core::mem::align_of::<Self>(),\n                    #(\n                        #varlen_align_of_field,\n                    )*\n                ]\n            );", "            const ALIGN: usize = {\n                let mut a = ::core::mem::align_of::<Self>();\n                #(\n                    let b = #varlen_align_of_field;\n                    a = if a < b { b } else { a };\n                )*\n                a\n            };"))
r("r86", (MA, "            fn drop(&mut self) {\n                ::varlen::macro_support::invalid_drop_call()", "            #[cold]\n            fn drop(&mut self) {\n                let _this = self;\n                ::varlen::macro_support::invalid_drop_call()"))
r("r87", (AI, "    assert!(core::alloc::Layout::new::<T>() == core::alloc::Layout::new::<U>());\n    let u = core::mem::transmute_copy(&e);\n    core::mem::forget(e);\n    u", "    assert!(core::mem::size_of::<T>() == core::mem::size_of::<U>() && core::mem::align_of::<T>() == core::mem::align_of::<U>());\n    let e = core::mem::ManuallyDrop::new(e);\n    core::ptr::read(&*e as *const T as *const U)"))
r("r88", (S, "        Iter {\n            ptr: self.ptr,\n            len_elements: self.len_elements,\n            marker: core::marker::PhantomData,\n        }", "        Iter::over(self.ptr, self.len_elements)"), (S, "impl<'a, T: VarLen> Iter<'a, T> {", "impl<'a, T: VarLen> Iter<'a, T> {\n    fn over(ptr: NonNull<T>, len_elements: usize) -> Self {\n        let marker = core::marker::PhantomData;\n        Iter { ptr, len_elements, marker }\n    }\n"))
r("r89", (S, "        if self.is_offset_valid(offset) {\n            // Safety: we just checked offset validity!\n            unsafe { self.from_offset_unchecked(offset) }\n        } else {\n            invalid_offset()\n        }", "        if !self.is_offset_valid(offset) {\n            invalid_offset()\n        }\n        unsafe { self.from_offset_unchecked(offset) }"))
json.dump(M, open(sys.argv[1], "w"), indent=0)
print(len(M))
