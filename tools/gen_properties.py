#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

L="varlen/src/lib.rs"; MS="varlen/src/macro_support.rs"; AR="varlen/src/array.rs"; AI="varlen/src/array_init.rs"
ST="varlen/src/str.rs"; TU="varlen/src/tuple.rs"; NT="varlen/src/newtype.rs"; VB="varlen/src/vbox.rs"
OW="varlen/src/owned.rs"; SQ="varlen/src/seq.rs"; MK="varlen/src/marker.rs"; MC="varlen_macro/src/lib.rs"; EX="varlen_example/src/lib.rs"

p("C01","The layout promised before construction is the layout of the built object",
  "For every variable-length type the library offers or generates and every way of initializing it, the layout an initializer promises before construction is the layout the finished object reports: the same total size, and the same position and length for every tail part. Moving or copying an existing object promises exactly that object's own layout.",
  ["inputs","programs"], "every type (arrays, strings, fixed-size values, 2- to 5-tuples, transparent newtypes, structs produced by the attribute macro over any sequence of field kinds), every initializer of it, every length, element size and alignment",
  "Tests build a handful of concrete shapes whose alignments and lengths leave most padding cases untouched; agreement is a relation between two separately written computations over all sizes and alignments.",
  [L,MS,AR,ST,TU,NT,VB,OW,MC],
  [("checked layout computation (before construction)", MS+": cat_array_field_cautious, cat_field_cautious"),
   ("unchecked layout computation (existing object)", MS+": cat_array_field_fast, cat_field_fast"),
   ("per-type pairing of the two", AR+", "+TU+", "+MC+" (generated impls)")],
  observe=["VarLen::calculate_layout after Initializer::initialize vs Initializer::calculate_layout_cautious"])

p("C02","Size arithmetic never wraps: oversized requests are refused",
  "Whenever the size of an object, of a tail part or of a sequence's storage cannot be represented, the request is refused (no layout, or a panic) before any memory is written. No size that is allocated or promised is ever the result of an addition or multiplication that wrapped around.",
  ["inputs"], "every element count, element size, alignment and existing occupancy, up to the full range of the machine word",
  "Wrapping needs lengths near the limits of the address space, which a test can only reach through a few hand-made length values; every addition and multiplication on every path has to be guarded.",
  [MS,AR,TU,MC,SQ,VB,OW],
  [("checked_add/checked_mul chains", MS+": cat_*_cautious"),("refusal on overflow", SQ+": try_push, try_realloc; "+VB+": new; "+OW+": new_in")],
  observe=["Initializer::calculate_layout_cautious","Seq::push","VBox::new","Owned::new_in"])

p("C03","Objects are written only into storage that is big enough, aligned and real",
  "When an object is boxed, pushed into a sequence or built in an arena, the storage it is written to was obtained for exactly its promised size (or, in a sequence, lies wholly inside the sequence's capacity) and for at least its type's alignment. Nothing is ever written through the result of a failed allocation, and the allocator is never asked for zero bytes.",
  ["inputs","fault_sequences","programs"], "every type and initializer, every size including zero, every occupancy and capacity of a sequence, every allocator outcome including failure",
  "A too small or misaligned request usually goes unnoticed by passing tests because allocators round up, and allocation failure is never simulated.",
  [VB,SQ,OW],[("allocation request", VB+": VBox::new"),("growth before write", SQ+": try_push, try_realloc, alloc_storage, grow_storage"),("arena request", OW+": new_in")],
  observe=["global allocator requests","bump arena requests"])

p("C04","Storage is returned exactly once and exactly as it was obtained",
  "Every heap block is released exactly once, after the destructors of what it holds, with the size and alignment it was last obtained with; growing hands over the block's current size. Giving a box or an arena object away - turning it into a raw pointer, leaking it, or using it to initialize another place - neither releases it a second time nor too early, and arena storage is never released by the library.",
  ["histories","inputs"], "every sequence of construction, growth, transfer and destruction, every size including zero",
  "Mismatched sizes or a double release need particular histories (grow then drop, move then drop, take then drop) and are invisible without an instrumented allocator.",
  [VB,SQ,OW],[("box destructor and by-value initialization", VB),("sequence storage layout", SQ+": layout, extended_layout, Drop"),("arena objects", OW)],
  observe=["allocator calls of each public operation"])

p("C05","Each stored value is destroyed exactly once, and never after being moved out",
  "A box, arena object, sequence or taken-elements iterator destroys every object it still owns exactly once when it goes away, and an object that was moved into another place, leaked or turned into a raw pointer is not destroyed by its former owner. Values handed to an initializer are moved into the object, not duplicated and not dropped.",
  ["histories","inputs"], "every container, every transfer operation, partially consumed iterators, every element count",
  "Tests drop a few values of types whose destructors are not observed; exactly-once is a statement about every path out of every owner.",
  [VB,OW,SQ,AI,L],[("owner destructors", VB+": Drop; "+OW+": Drop; "+SQ+": Drop, OwnedElems::drop"),("transfers", "into_raw, leak, Initializer::initialize for owners, take_elems")],
  observe=["destructor runs of element types"])

p("C06","Destroying a composite destroys every part in place, and droppable types say so",
  "Destroying a variable-length object destroys each of its parts - fixed fields, nested variable-length fields and every element of every array - exactly once, at the place where the part was initialized, and touches nothing else. A type that contains anything needing destruction always reports that it needs it, so no container skips it.",
  ["programs","inputs"], "every built-in type and every generated struct over any sequence of field kinds, with droppable parts in any position",
  "The number of field-kind sequences is unbounded; tests cover a few structs with strings in fixed positions and do not count destructor runs.",
  [MC,TU,AR,NT,L,MS],[("generated and hand-written destructors", MC+": drop_field; "+TU+": vdrop; "+AR+": vdrop; "+MS+": drop_array, vdrop_field"),("needs-destruction flag", "NEEDS_VDROP constants")],
  observe=["destructor runs of parts"])

p("C07","Tail parts are aligned, disjoint and in bounds, and all accessors agree on them",
  "Every tail part of an object lies after the fixed header, at an address aligned for it, inside the object's reported size, and overlaps no other part; the type's alignment is a power of two sufficient for the header and all parts. The initializer, the shared and mutable accessors and the destructor all use the same place and the same length for a given part.",
  ["programs","inputs"], "every built-in composite and every generated struct over any sequence of field kinds, all alignments and lengths, repeated use of either accessor",
  "Wrong placement shows only for particular alignment and length combinations; tests fix a few.",
  [MS,TU,MC,AR,ST,NT],[("placement", MS+": cat_*"),("accessors", MS+": ref_field, mut_field, ref_array, mut_array"),("alignment", "ALIGN constants, array_max")],
  observe=["refs()/muts()/slices of built objects"])

p("C08","Array contents are fully initialized, in bounds, or construction panics",
  "An array-content initializer that returns normally has written every slot of the destination it was given exactly once and nothing outside it, whatever the lengths of its source and destination. When the source has the wrong number of elements (or, for iterator sources, too few) it panics instead of leaving a slot unwritten or reading past the source.",
  ["inputs"], "every initializer kind, every source and destination length including mismatches and zero, every element type",
  "Only a few matching lengths are tested; the unchecked mismatch cases would expose uninitialized memory.",
  [AI,MS,AR],[("array initializers", AI),("destination slice construction", MS+": init_array; "+AI+": new_array")],
  observe=["ArrayInitializer::initialize"])

p("C09","Array initializers put the right value in each slot, in order",
  "Slot i receives the i-th source element, the i-th item drawn from the iterator, the result of calling the function with i, or a default value; values are produced in ascending slot order, one per slot, and no item beyond the array's length is drawn from an iterator. Copies and clones come from the same position of the source.",
  ["inputs"], "every initializer kind, every length, iterators and functions with arbitrary internal state",
  "Order and count of calls matter only for stateful iterators and functions at lengths the tests do not vary.",
  [AI],[("loops over the destination", AI+": initialize impls")],observe=["contents of built arrays; calls made to the caller's iterator or function"])

p("C10","Pushing appends exactly one element and keeps all earlier ones",
  "A push adds one element at the end: the count grows by one, the new element starts at the previous end position, and the end position advances by exactly the space the element needs (at least one unit), never beyond the capacity. Storage grows only when the element would not fit, then to at least the space needed and at least double the old capacity, and all earlier elements and, for indexable sequences, their validity survive unchanged at the same offsets.",
  ["histories","inputs"], "every sequence of pushes, every element size and alignment, every occupancy and capacity, both kinds of sequence",
  "Boundary cases (exactly full, size not a multiple of the alignment, growth of the validity bookkeeping) depend on combinations that sampled pushes rarely hit.",
  [SQ],[("append and growth", SQ+": try_push, try_realloc, grow_storage")],
  state=[("length","number of elements",SQ+": Seq"),("end offset","occupied units",SQ+": Seq"),("capacity","units available",SQ+": Seq")],
  observe=["Seq::len, Seq::offset, Seq::capacity_in_offsets, iteration"])

p("C11","Iteration visits each element once, in order, with exact remaining counts",
  "Shared, mutable and taking iteration all visit exactly the stored elements, each once, in insertion order, each at the address where it was pushed, and then end. The reported remaining length, size hint and count are always exact, and limiting an iterator to n leaves the first min(n, remaining) elements.",
  ["inputs","histories"], "every sequence contents (element sizes including zero, any alignment), every partial consumption, every limit",
  "The stepping arithmetic is written separately from the appending arithmetic and must agree for all sizes and alignments.",
  [SQ],[("iterators", SQ+": Iter, IterMut, OwnedElems"),("stepping", SQ+": next, round_up_fast, add_bytes_fast")],observe=["Seq::iter, iter_mut, take_elems"])

p("C12","Checked indexing accepts exactly the offsets of live elements",
  "In an indexable sequence an offset is reported valid, and can be dereferenced, exactly when an element currently in the sequence starts there; every other value - past the end, inside an element, from before the elements were taken, after a failed push - is reported invalid, and safe lookup with it panics instead of returning a reference.",
  ["histories","inputs"], "every history of pushes, growth, taking elements, refilling and panicking initializers; every offset value",
  "Stale or stray validity marks need a refill after a take, a growth boundary or a panicking initializer before they show.",
  [SQ],[("validity bookkeeping", SQ+": mark_offset_valid, clear_bitmasks, grow_storage, alloc_storage, is_offset_valid"),("guarded lookup", SQ+": from_offset, from_offset_mut")],
  state=[("validity bitmap","bit set iff an element starts at that offset",SQ+": storage past the capacity")],observe=["Seq::is_offset_valid, from_offset, from_offset_mut"])

p("C13","Offsets and references convert both ways, and foreign references are rejected",
  "The offset computed for a reference to an element of a sequence leads back to that same element, for shared and mutable lookup, before and after growth; it equals the end position recorded when the element was pushed. Asking for the offset of a reference that does not lie in the occupied part of the sequence panics.",
  ["inputs","histories"], "every element of every sequence, every reference outside it (before, after, at the end), every alignment",
  "The conversion is arithmetic over addresses, with wrap-around for references below the storage; a few fixed elements do not settle it.",
  [SQ],[("conversions", SQ+": offset_of, from_offset_unchecked, from_offset_unchecked_mut")],observe=["Seq::offset_of, from_offset*"])

p("C14","A panic in user code never leaves a broken object behind",
  "If code supplied by the user - an initializer, a clone, a function filling an array, an iterator, a destructor - panics in the middle of an operation, everything the program can still reach stays consistent: a sequence keeps exactly its earlier elements, no partially built object is ever destroyed or counted, nothing is destroyed twice, and a partially destroyed object is not visited again.",
  ["fault_sequences","programs"], "a panic at every call to user code in every operation",
  "Tests never panic inside initializers or destructors; every call site is a possible failure point.",
  [SQ,VB,OW,MC,AI,TU],[("state updates after, not before, user code", SQ+": try_push, take_elems, iterators"),("updates of length-controlling fields", MC+": try_set_layout_controllers")],
  observe=["state after unwinding from each call to user code"])

p("C15","Safe code never gets a plain mutable reference to a variable-length object",
  "No safe operation hands out an unpinned mutable reference to a variable-length object or to its header, or lets one be obtained through Unpin: types with variable-length tails are never Unpin and their users cannot declare them so. Hence safe code cannot swap, overwrite or move just the fixed part of such an object.",
  ["programs"], "every safe program using the public API and the macros",
  "A test shows what some program can do; this is about what no program can do, decided by the type checker.",
  [MK,VB,OW,SQ,TU,NT,AR,ST,MC],[("non-Unpin markers", MK),("pinned accessors", "as_mut, muts, iter_mut, leak, from_offset_mut, inner_mut"),("reserved Unpin impls", MC+"; "+NT)],
  observe=["public signatures and trait implementations"])

p("C16","What determines an object's layout changes only through the checked update",
  "Fields that determine array lengths can be read but not modified in place by safe code, directly or through interior mutability. The provided update succeeds exactly when every array keeps its length, then replaces all of these fields, and otherwise reports a mismatch and changes nothing.",
  ["programs","inputs"], "every generated struct with any number of length fields and arrays, any length expressions, every old and new value",
  "Tests try one or two updates on one struct; a comparison missing for one array of a many-array struct goes unnoticed.",
  [MC],[("read-only projection", MC+": push_length"),("checked update", MC+": try_set_layout_controllers")],observe=["generated muts() and the layout update"])

p("C17","String contents are always valid UTF-8",
  "A variable-length string can only be created from existing valid string data, byte for byte, and safe code can only reach its bytes through string slices, so the string view is always valid UTF-8 and shows exactly the text it was made from.",
  ["programs","inputs"], "every text, every length type, every safe program",
  "Tests copy a few ASCII strings; absence of any other safe way in is a property of the API as a whole.",
  [ST],[("construction only from text", ST+": copy, try_copy, cloner"),("string views", ST+": Deref, mut_slice")],observe=["Str constructors and accessors"])

p("C18","Short length types never truncate a length",
  "Creating an array or string with a chosen length type from a slice succeeds exactly when the slice's length fits that type, and the object then has exactly the slice's length and reports it through every length accessor; otherwise creation yields nothing (or panics in the infallible form). Length types are a closed set whose conversions to and from the machine word are exact.",
  ["inputs"], "every length type and every source length, especially just around each type's maximum",
  "Only lengths around the 8-bit limit are practical to test; conversions must be exact for all.",
  [AR,ST],[("length conversion", AR+": ArrayLen impls, try_copy, try_clone_from_slice; "+ST+": try_copy")],observe=["Array::try_copy, Str::try_copy, len_short, slices"])

p("C19","Copying by bytes is offered only for parts that are all plain-copyable",
  "Byte-wise duplication of a variable-length object is available only if every component, at every nesting level, is a plain copyable value without destructor, and it reproduces exactly the source object's whole extent.",
  ["programs"], "every component type and nesting",
  "Which instantiations compile is a question about all types, not about sampled ones.",
  [L,AR,TU,ST],[("copy bounds", "VCopy impls"),("byte copy", L+": VCopier")],observe=["trait implementations; VCopier::initialize"])

p("C20","Cloning clones every part once, from and to the matching position",
  "Cloning a variable-length object calls the clone operation of each component element exactly once, takes it from the matching position of the source, places it at that position of the copy, and gives the copy the same lengths; the source is left untouched and the copy owns its own storage.",
  ["programs","inputs"], "every clonable built-in type, every length, every component type",
  "A swapped pair of same-typed components or an element cloned twice shows only for shapes not sampled.",
  [L,AR,TU,ST,VB],[("cloners", AR+": ArrayCloner; "+TU+": Cloner; "+L+": FixedLenCloner; "+ST+": StrCloner; "+VB+": Clone")],observe=["VClone::vclone, VBox::clone"])

p("C21","Borrowed views cannot outlive or alias what they borrow from",
  "Every reference, iterator, taken element, arena object and borrowing initializer is tied to the lifetime of what it points into: safe code cannot push to, take from, move or drop a sequence, box, arena or source slice while something borrowed from it is alive, and cannot obtain two overlapping mutable views or a mutable and a shared view of the same object.",
  ["programs"], "every safe program over the public API",
  "Each such misuse must fail to compile; passing tests only contain code that compiles.",
  [SQ,OW,VB,TU,AR,AI,L,MC,MS],[("lifetimes in public signatures", "iter, iter_mut, take_elems, refs, muts, leak, new_in, from_offset_mut, copy, vclone, vcopy")],
  observe=["the borrow checker on client programs"])

p("C22","Operations with obligations are unsafe, and trusted values cannot be forged",
  "Every operation or trait whose misuse could break memory safety - building in raw storage, explicit destruction, raw conversion, unchecked indexing, implementing the layout, initialization or byte-copy contracts - requires unsafe. The values that certify an initialized tail cannot be created, copied or moved out of an object by safe code, and closed trait families cannot be extended from outside.",
  ["programs"], "every public item and every safe client program",
  "An operation wrongly made safe, or a marker made clonable, breaks no existing test.",
  [L,MK,AI,SQ,OW,VB,AR,MS,MC],[("unsafe traits and functions", L+", "+AI+", "+VB+", "+OW+", "+SQ),("markers", MK),("sealed traits", AR+": ArrayLen; "+SQ+": Indexing")],
  observe=["public signatures and trait implementations"])

p("C23","No handle or object crosses threads unless its contents may",
  "A box, arena object, sequence, iterator, tail marker, built-in or generated variable-length type, or initializer can be sent to or shared with another thread only if every component it holds or refers to can; the library never grants this for components that forbid it.",
  ["programs"], "every public type over every component type",
  "Thread-safety grants are compile-time facts about all type arguments.",
  [MK,VB,OW,SQ,TU,AR,L,MC],[("automatic and manual Send/Sync", "marker fields (PhantomData of the component), raw pointers in handles")],observe=["trait implementations"])

p("C24","Dropping a composite as a plain value panics, never leaks or corrupts",
  "If a tuple or generated variable-length struct is ever dropped as an ordinary value rather than through its container, the program panics before any part is touched; the library itself never triggers such a drop on any path, including unwinding.",
  ["programs","histories"], "every composite type, every library operation and unwinding path",
  "No test drops one by value, and internal paths that would do so show only on unwinding.",
  [MS,TU,MC,SQ,OW,VB],[("drop guard", MS+": invalid_drop_call; Drop impls in "+TU+", "+MC)],observe=["Drop implementations and drop sites"])

p("C25","The attribute macro rejects at compile time what it cannot lay out",
  "A struct definition the macro cannot support - not a struct, no named fields, a field with several layout roles, an array role on a non-array type, a length that is not a constant expression of the length fields or not a machine-word count, an unsupported visibility - fails to compile; it never expands to an object with a different layout than declared.",
  ["programs"], "every input to the macro",
  "The repository's own compile-fail test does not pass on this toolchain, so nothing checks rejection today.",
  [MC],[("input checks", MC+": define_varlen_impl, parse_fields, push_varlen_array, SimpleVisibility")],observe=["compiling client crates"])

p("C26","Generated items are exactly as visible as the user declared",
  "Each generated field projection, initializer field, helper type and method is visible in precisely the places where the struct or field it belongs to is visible - never wider, so private parts stay private, and never narrower, so code that may name the field can initialize and access it.",
  ["programs","configurations"], "every visibility keyword on the struct and on each field, every field kind",
  "Visibility is checked only by code that compiles or fails to compile in other modules and crates.",
  [MC],[("visibility translation", MC+": SimpleVisibility")],observe=["compiling client modules"])

p("C27","The library and the code it generates need only core and alloc",
  "The library builds for targets without the standard library in every feature combination, and the code generated by its macros refers only to the core library, the allocator library and the library itself by absolute path, so it works in no_std crates and regardless of what names (other than those of the primitive types) the user's module defines. No required dependency is pulled in by default.",
  ["configurations","programs"], "every feature combination, every client crate",
  "Tests are built with the standard library present, which hides any dependence on it.",
  [L,MC,NT,SQ],[("no_std attribute and absolute paths", L+"; "+MC+"; "+NT)],observe=["resolved paths of compiled items"])

p("C28","Bulk filling pushes every item once, in order",
  "Extending a sequence from an iterator, collecting an iterator into one, or listing elements in the literal form appends each item exactly once, in order, in one push each, and stops when the source ends; nothing is dropped or skipped, also when the source is empty.",
  ["inputs"], "every item count, both kinds of sequence, iterators with arbitrary internal state",
  "Only short literal sequences are tested.",
  [SQ],[("Extend, FromIterator, seq!", SQ)],observe=["Seq::extend, collect, seq!"])

p("C29","Parts are packed in declared order with no space beyond alignment padding",
  "An object consists of its fixed fields alone followed by its tail parts, one after another in the order they are declared, each at the first place after the previous one that its own alignment allows, and its size is exactly what that takes; its alignment is the greatest of its parts' alignments, a representation attribute on a generated struct is honoured, and a transparent newtype adds nothing. A box is one pointer to one block of exactly the object's size. In a sequence each element takes its size rounded up to the alignment (one such unit if it has no bytes at all), elements follow each other without gaps, a sequence that was never filled owns no block, and a block has room for its capacity and, where offsets are validated, one bit per unit of it, and for nothing else.",
  ["inputs","programs"], "every type, every field order and kind, every length, element size and alignment, both kinds of sequence",
  "Tests compare a few concrete sizes; wasted or reordered space changes no result that they look at, and shows only at particular sizes and alignments.",
  [L,MS,AR,ST,TU,NT,VB,SQ,MC],
  [("placing of tail parts", MS+": cat_array_field_*, cat_field_*"), ("header structs", MC+" (generated)"), ("allocation", VB+", "+SQ+": alloc_storage, add_bitmask_to_layout")],
  observe=["VarLen::calculate_layout, addresses of the tail parts, the allocator"])

p("C30","What is only shared is only read, so concurrent readers never interfere",
  "Operations that take an object, a box, an arena object or a sequence by shared reference - asking for its layout or its parts, comparing what they return, counting, iterating, limiting and measuring an iterator, looking up an offset or asking whether it is valid, duplicating into other storage by clones or by bytes - write nothing into the object, its handle, the sequence's bookkeeping, its validity bits or its storage, not even for a moment or with the value that is already there. Any number of threads may therefore do them at once, also on memory that cannot be written, and none of them is observed by another.",
  ["schedules","inputs"], "every interleaving of readers, every type and content, both kinds of sequence",
  "Tests read from one thread and compare results; a write that is undone, repeats the present value or fills a cache changes no result and shows only as a race or on read-only memory.",
  [L,AR,ST,TU,MC,NT,VB,OW,SQ],
  [("shared accessors", L+": VarLen; "+MS+"; "+AR+"; "+ST+"; "+TU),("iteration, lookup, validity", SQ+": iter, is_offset_valid, offset_of, Index, Iter"),("duplication", L+": VClone, VCopy")],
  observe=["writes to memory reachable from shared references"])

p("C31","Builds with and without debug checks behave alike",
  "For every permitted use the library does the same whether or not debug assertions and overflow checks are compiled in: what is refused in one kind of build is refused in the other, assertions that exist only in debug builds never fail and change nothing, and no arithmetic of the library overflows, which would panic in one kind of build and wrap around silently in the other.",
  ["configurations","inputs"], "every operation, every input, both kinds of build",
  "Tests run in a debug build only, where a check that is missing from release builds still fires; and they meet only those debug assertions whose conditions hold for their inputs.",
  [SQ,VB,OW,MS,AR,AI,ST,TU,MC],
  [("debug assertions", SQ+": grow_storage, offset_of, from_offset_unchecked; "+VB+": new"),("refusals that must not be debug-only", SQ+": from_offset, offset_of; "+AI+"; "+MS)],
  observe=["results, panics and writes in both kinds of build"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
