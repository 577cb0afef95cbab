"""Contracts of functions the interpreter does not enter: core/alloc primitives and the harness probes."""
from lin import *
from mem import *

PANIC = object()
INLINE = object()
TABLE = {}
PREFIX = []
USIZE = (1 << 64) - 1
ISIZE = (1 << 63) - 1


def native(*names):
    def d(fn):
        for n in names:
            TABLE[n] = fn
        return fn
    return d


def lookup(c):
    for p in (c.get("rpath"), c["path"]):
        if p is None:
            continue
        fn = TABLE.get(p)
        if fn is not None:
            return fn
        if "probe::" in p:
            return TABLE.get("probe::" + p.split("probe::")[1])
    p = c.get("rpath") or c["path"]
    if c.get("rkind") == "intrinsic" or p.startswith("core::intrinsics::"):
        fn = TABLE.get("I:" + p.split("::")[-1])
        if fn is not None:
            return fn
    for pre, fn in PREFIX:
        if p.startswith(pre):
            return fn
    return None


# ---------------------------------------------------------------- panics and formatting
def panics(I, st, c, a, at, dt):
    return PANIC


for _p in ("core::panicking::", "std::panicking::", "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed",
           "core::slice::index::slice_", "core::slice::copy_from_slice_impl::len_mismatch_fail", "core::str::slice_error_fail",
           "core::cell::panic", "std::rt::", "core::slice::index::slice_index_fail"):
    PREFIX.append((_p, panics))


def top(I, st, c, a, at, dt):
    return TOP


for _p in ("core::fmt::", "alloc::fmt::", "<core::fmt::"):
    PREFIX.append((_p, top))


# ---------------------------------------------------------------- probes
@native("probe::any")
def _(I, st, c, a, at, dt):
    lo, hi = I.T.irange(dt) if I.T[dt]["k"] in ("int", "char") else (0, 1)
    if I.T[dt]["k"] == "bool":
        return ("b", ("any", fresh("b", 0, 1)), True)
    return fresh("n", lo, hi)


TABLE["probe::any_u8"] = TABLE["probe::any_u32"] = TABLE["probe::any_u16"] = TABLE["probe::any_bool"] = TABLE["probe::any"]


@native("probe::assume")
def _(I, st, c, a, at, dt):
    import absint
    f = a[0]
    n = st.facts.assume(f)
    if n is None:
        raise absint.PathEnd()
    st.facts = n
    if isinstance(f, tuple) and f[0] == "or" and st.facts.decide(f) is None:
        raise Split(f[1])
    return UNIT


def strof(I, st, p):
    o = st.mem[p.obj]
    return o.base[1].decode()


@native("probe::check")
def _(I, st, c, a, at, dt):
    tag = strof(I, st, a[0])
    f = a[1]
    if f is TOP:
        I.undecided(st, "check:" + tag, "the condition is not tracked")
        return UNIT
    if f is UNINIT:
        raise Violation("uninit", "check %s reads uninitialized memory" % tag)
    I.oblige(st, f, "check:" + tag, "required: " + tag)
    return UNIT


@native("probe::reach")
def _(I, st, c, a, at, dt):
    tag = strof(I, st, a[0])
    if not I.quiet:
        I.reached[tag] = I.reached.get(tag, 0) + 1
    return UNIT


@native("probe::stop")
def _(I, st, c, a, at, dt):
    import absint
    raise absint.PathEnd()


@native("probe::event")
def _(I, st, c, a, at, dt):
    st.ev = st.ev + (("ev", tuple(st.facts.norm(x) if isinstance(x, Lin) else x for x in a)),)
    return UNIT


@native("probe::count")
def _(I, st, c, a, at, dt):
    """Number of events with exactly these arguments."""
    n = ZERO
    for e in st.ev:
        n = n + match_event(I, st, e, a)
    return n


def match_event(I, st, e, a):
    if e[0] == "ev":
        if len(e[1]) != len(a):
            return ZERO
        if any(x is TOP for x in e[1]):
            raise Unsupported("event with unknown argument")
        f = conj(*[eq(x, y) for x, y in zip(e[1], a)])
        return ONE if I.decide(st, f) else ZERO
    _, j, K, evs = e
    if not I.decide(st, lt(0, K)):
        return ZERO
    n = ZERO
    for x in evs:
        if x[0] != "ev" or len(x[1]) != len(a):
            if x[0] != "ev":
                raise Unsupported("nested event groups")
            continue
        if any(v is TOP for v in x[1]):
            raise Unsupported("event with unknown argument")
        # find an argument that depends on j
        dep = None
        fixed = []
        for v, w in zip(x[1], a):
            m = dict(v.t).get(j, 0)
            if m:
                dep = (v, w, m)
        if dep is None:
            f = conj(*[eq(v, w) for v, w in zip(x[1], a)])
            if I.decide(st, f):
                n = n + K
            continue
        v, w, m = dep
        rest = Lin(v.c, tuple(t for t in v.t if t[0] != j))
        d = (w - rest) if m > 0 else (rest - w)
        q = fd(st.facts.norm(d), abs(m))
        memo = {}
        f = conj(le(0, q), lt(q, K), *[eq(sub_lin(v2, j, q, memo), w2) for v2, w2 in zip(x[1], a)])
        if I.decide(st, f):
            n = n + 1
    return n


@native("probe::slice_ids")
def _(I, st, c, a, at, dt):
    """&'static [T] of n elements whose single usize leaf is base + index (n*size_of::<T>() bytes)."""
    et = c["targs"][0]
    sz = I.T.size(et)
    oid = I.newid("x")
    st.mem[oid] = Obj("raw", size=a[0] * sz, align=I.T.align(et), base=("ids", a[1], sz), name="source slice")
    st.facts = st.facts.assume(conj(le(a[0] * sz, ISIZE), le(a[0] + a[1], ISIZE)))
    return Ptr(oid, ZERO, (), a[0])


@native("probe::slice_any")
def _(I, st, c, a, at, dt):
    """&'static [T] of n elements of unknown plain contents."""
    et = c["targs"][0]
    sz = I.T.size(et)
    oid = I.newid("x")
    st.mem[oid] = Obj("raw", size=a[0] * sz, align=I.T.align(et), base=("uf", oid), name="source slice")
    f = st.facts.assume(le(a[0] * sz, ISIZE))
    if f is None:
        import absint
        raise absint.PathEnd()
    st.facts = f
    return Ptr(oid, ZERO, (), a[0])


TABLE["probe::str_any"] = lambda I, st, c, a, at, dt: TABLE["probe::slice_any"](I, st, {"targs": ["u8"]}, a, at, dt)


@native("probe::buf")
def _(I, st, c, a, at, dt):
    """Fresh uninitialized storage of `size` bytes, aligned to constant `align`."""
    oid = I.newid("x")
    if not a[1].isconst:
        raise Unsupported("symbolic alignment")
    st.mem[oid] = Obj("raw", size=a[0], align=a[1].c, base="junk", name="storage")
    f = st.facts.assume(le(a[0], ISIZE))
    if f is None:
        import absint
        raise absint.PathEnd()
    st.facts = f
    return Ptr(oid, ZERO)


@native("probe::alloc_may_fail")
def _(I, st, c, a, at, dt):
    st.ghost["allocfail"] = ONE if a[0] is True else ZERO
    return UNIT


@native("probe::live")
def _(I, st, c, a, at, dt):
    """Number of live heap blocks."""
    return L(sum(1 for o in st.mem.values() if o.heap and o.live))


@native("probe::allocs")
def _(I, st, c, a, at, dt):
    """Number of allocator requests (alloc, alloc_zeroed, realloc) so far."""
    return L(st.ghost.get("allocs", ZERO))


@native("probe::block_size")
def _(I, st, c, a, at, dt):
    p = I.unwrap_ptr(st, a[0], at[0])
    o = st.mem.get(p.obj)
    if o is None or o.kind != "raw":
        return TOP
    return o.size


@native("probe::same_addr")
def _(I, st, c, a, at, dt):
    p, q = I.unwrap_ptr(st, a[0], at[0]), I.unwrap_ptr(st, a[1], at[1])
    p, q = Ptr(p.obj, p.off, p.path), Ptr(q.obj, q.off, q.path)
    if p.obj != q.obj:
        return False
    if p.obj is None:
        return eq(p.off, q.off)
    p, q = I.rawptr(st, p), I.rawptr(st, q)
    return eq(p.off, q.off)


@native("probe::same_block")
def _(I, st, c, a, at, dt):
    p, q = I.unwrap_ptr(st, a[0], at[0]), I.unwrap_ptr(st, a[1], at[1])
    return p.obj is not None and p.obj == q.obj


OUTSIDE = ("heap block", "storage", "source slice", "arena block", "arena storage")


@native("probe::shared")
def _(I, st, c, a, at, dt):
    """From here on the object that the pointer leads to, and everything outside the stack, is only shared: writes are violations."""
    p = I.unwrap_ptr(st, a[0], at[0])
    st.ghost["shared"] = frozenset([p.obj] + [o for o, x in st.mem.items() if x.heap or x.name in OUTSIDE]) | st.ghost.get("shared", frozenset())
    return UNIT


@native("probe::unshared")
def _(I, st, c, a, at, dt):
    st.ghost["shared"] = frozenset()
    return UNIT


@native("probe::byte_at")
def _(I, st, c, a, at, dt):
    """The byte at the address plus offset, unknown if uninitialized."""
    p = I.rawptr(st, I.unwrap_ptr(st, a[0], at[0]))
    return I.load(st, Ptr(p.obj, p.off + a[1]), "u8")


@native("probe::off")
def _(I, st, c, a, at, dt):
    """Distance in bytes from the second pointer to the first; both must point into the same allocation."""
    p, q = I.unwrap_ptr(st, a[0], at[0]), I.unwrap_ptr(st, a[1], at[1])
    p, q = I.rawptr(st, Ptr(p.obj, p.off, p.path)), I.rawptr(st, Ptr(q.obj, q.off, q.path))
    if p.obj != q.obj:
        raise Violation("block", "two parts of one object lie in different allocations")
    return p.off - q.off


@native("probe::init_end")
def _(I, st, c, a, at, dt):
    return ZERO


# ---------------------------------------------------------------- allocation
LAYOUT = "core::alloc::layout::Layout"


def lay(size, align):
    return Agg((L(size), L(align)))


def pow2(I, st, l):
    l = st.facts.norm(l)
    if not l.isconst:
        raise Unsupported("symbolic alignment")
    return l.c > 0 and l.c & (l.c - 1) == 0


@native(LAYOUT + "::from_size_align")
def _(I, st, c, a, at, dt):
    # Err if align is not a power of two or the size rounded up to align exceeds isize::MAX
    if not pow2(I, st, a[1]):
        return Agg((Agg(()),), 1)
    al = st.facts.norm(a[1]).c
    if I.decide(st, le(a[0], ISIZE - (al - 1))):
        return Agg((lay(a[0], al),), 0)
    return Agg((I.T.zstval(I.T.fields(dt, 1)[0]),), 1)


@native(LAYOUT + "::from_size_align_unchecked")
def _(I, st, c, a, at, dt):
    if not pow2(I, st, a[1]):
        raise Violation("layout", "a layout is made with an alignment that is no power of two")
    al = st.facts.norm(a[1]).c
    I.oblige(st, le(a[0], ISIZE - (al - 1)), "layout", "an unchecked layout of %r bytes exceeds the address space" % a[0])
    return lay(a[0], al)


@native(LAYOUT + "::size")
def _(I, st, c, a, at, dt):
    v = a[0]
    if isinstance(v, Ptr):
        v = I.load(st, v, LAYOUT)
    return v.fs[0]


@native(LAYOUT + "::align")
def _(I, st, c, a, at, dt):
    v = a[0]
    if isinstance(v, Ptr):
        v = I.load(st, v, LAYOUT)
    return v.fs[1]


@native(LAYOUT + "::new")
def _(I, st, c, a, at, dt):
    t = c["targs"][0]
    return lay(I.T.size(t), I.T.align(t))


@native(LAYOUT + "::array", LAYOUT + "::array::inner")
def _(I, st, c, a, at, dt):
    if not c["targs"]:
        return INLINE
    t = c["targs"][0]
    s, al = I.T.size(t), I.T.align(t)
    n = a[0] * s
    if I.decide(st, le(n, ISIZE - (al - 1))):
        return Agg((lay(n, al),), 0)
    return Agg((I.T.zstval(I.T.fields(dt, 1)[0]),), 1)


@native(LAYOUT + "::for_value")
def _(I, st, c, a, at, dt):
    return lay(*sizeval(I, st, c["targs"][0], a[0]))


@native(LAYOUT + "::extend")
def _(I, st, c, a, at, dt):
    x = I.load(st, a[0], LAYOUT) if isinstance(a[0], Ptr) else a[0]
    y = a[1]
    al = st.facts.norm(y.fs[1]).c
    nal = max(st.facts.norm(x.fs[1]).c, al)
    off = fd(x.fs[0] + (al - 1), al) * al
    n = off + y.fs[0]
    if I.decide(st, le(n, ISIZE - (nal - 1))):
        return Agg((Agg((lay(n, nal), off)),), 0)
    return Agg((UNIT,), 1)


@native(LAYOUT + "::pad_to_align")
def _(I, st, c, a, at, dt):
    x = I.load(st, a[0], LAYOUT) if isinstance(a[0], Ptr) else a[0]
    al = st.facts.norm(x.fs[1]).c
    return lay(fd(x.fs[0] + (al - 1), al) * al, al)


@native("<%s as core::cmp::PartialEq>::eq" % LAYOUT)
def _(I, st, c, a, at, dt):
    x, y = (I.load(st, p, LAYOUT) for p in a[:2])
    return conj(eq(x.fs[0], y.fs[0]), eq(x.fs[1], y.fs[1]))


def newblock(I, st, size, align, base):
    oid = I.newid("h")
    st.mem[oid] = Obj("raw", size=size, align=align, base=base, heap=True, name="heap block")
    f = st.facts.assume(le(size, ISIZE))
    if f is None:
        import absint
        raise absint.PathEnd()
    st.facts = f
    return oid


def failing(I, st):
    """Partitions on allocator failure when the harness asks for it."""
    if st.ghost.get("allocfail") != ONE:
        return False
    n = st.ghost.get("allocs", ZERO)
    key = ("allocfail", n)
    return I.decide(st, ("b", key, True))


def count_alloc(st):
    st.ghost["allocs"] = st.ghost.get("allocs", ZERO) + 1


@native("alloc::alloc::alloc", "alloc::alloc::alloc_zeroed")
def _(I, st, c, a, at, dt):
    size, al = a[0].fs
    I.oblige(st, le(1, size), "alloc0", "the allocator is asked for %r bytes" % size)
    if failing(I, st):
        count_alloc(st)
        return Ptr(None, ZERO)
    count_alloc(st)
    return Ptr(newblock(I, st, st.facts.norm(size), st.facts.norm(al).c, "zero" if c["path"].endswith("zeroed") else "junk"), ZERO)


def heapblock(I, st, p, size, al, what):
    p = I.unwrap_ptr(st, p, None)
    if p.obj is None:
        raise Violation("dealloc", "%s of an address that is no heap block (%r)" % (what, p.off))
    o = st.mem.get(p.obj)
    if o is None or not o.heap:
        raise Violation("dealloc", "%s of memory that was not obtained from the allocator (%s)" % (what, o.name if o else "local"))
    if not o.live:
        raise Violation("dealloc", "%s of a block that was already released" % what)
    I.oblige(st, eq(p.off), "dealloc", "%s of a pointer into the middle of a block: offset %r" % (what, p.off))
    I.oblige(st, eq(size, o.size), "dealloc", "%s with %r bytes, the block has %r" % (what, size, o.size))
    I.oblige(st, eq(al, o.align), "dealloc", "%s with alignment %r, the block has %d" % (what, al, o.align))
    return p.obj, o


@native("alloc::alloc::dealloc")
def _(I, st, c, a, at, dt):
    size, al = a[1].fs
    oid, o = heapblock(I, st, a[0], size, al, "release")
    st.mem[oid] = o.with_(live=False)
    return UNIT


@native("alloc::alloc::realloc")
def _(I, st, c, a, at, dt):
    size, al = a[1].fs
    new = st.facts.norm(a[2])
    oid, o = heapblock(I, st, a[0], size, al, "growing")
    I.oblige(st, le(1, new), "alloc0", "the allocator is asked for %r bytes" % new)
    I.oblige(st, le(new, ISIZE - (o.align - 1)), "layout", "growing to %r bytes exceeds the address space" % new)
    fail = failing(I, st)
    big = None if fail else I.decide(st, le(o.size, new))
    count_alloc(st)
    if fail:
        return Ptr(None, ZERO)
    nid = newblock(I, st, new, o.align, "junk")
    n = o.size if big else new
    st.mem[nid] = st.mem[nid].with_(cells=(("copy", ZERO, n, o, ZERO),))
    st.mem[oid] = o.with_(live=False)
    return Ptr(nid, ZERO)


# The arena: every request is met by fresh storage that lives as long as the arena.
@native("bumpalo::Bump::new")
def _(I, st, c, a, at, dt):
    return TOP


@native("bumpalo::Bump::<MIN_ALIGN>::alloc_layout")
def _(I, st, c, a, at, dt):
    size, al = a[1].fs
    oid = newblock(I, st, st.facts.norm(size), st.facts.norm(al).c, "junk")
    st.mem[oid].heap = False
    st.mem[oid].name = "arena storage"
    return Agg((Ptr(oid, ZERO),))


@native("alloc::alloc::handle_alloc_error")
def _(I, st, c, a, at, dt):
    import absint
    raise absint.PathEnd()


@native("bumpalo::Bump::alloc_layout")
def _(I, st, c, a, at, dt):
    size, al = a[1].fs
    oid = I.newid("b")
    st.mem[oid] = Obj("raw", size=st.facts.norm(size), align=st.facts.norm(al).c, base="junk", name="arena block")
    o = Ptr(oid, ZERO)
    return Agg([o if not I.T.zst(f) else I.T.zstval(f) for f in I.T.fields(dt)])


# ---------------------------------------------------------------- intrinsics
def intr(*names):
    return native(*["I:" + n for n in names])


def sizeval(I, st, ty, p):
    d = I.T[ty]
    if d["k"] in ("slice", "str"):
        e = d.get("elem", "u8")
        s, al = (1, 1) if d["k"] == "str" else (I.T.size(e), I.T.align(e))
        q = I.unwrap_ptr(st, p, None)
        return q.meta * s, L(al)
    return L(I.T.size(ty)), L(I.T.align(ty))


@intr("size_of", "size_of_val")
def _(I, st, c, a, at, dt):
    return sizeval(I, st, c["targs"][0], a[0] if a else None)[0]


@intr("align_of", "min_align_of", "pref_align_of", "align_of_val", "min_align_of_val")
def _(I, st, c, a, at, dt):
    return sizeval(I, st, c["targs"][0], a[0] if a else None)[1] if a else L(I.T.align(c["targs"][0]))


@native("core::mem::size_of", "core::mem::size_of_val")
def _(I, st, c, a, at, dt):
    return TABLE["I:size_of"](I, st, c, a, at, dt)


@native("core::mem::align_of", "core::mem::align_of_val")
def _(I, st, c, a, at, dt):
    return TABLE["I:align_of"](I, st, c, a, at, dt)


@intr("needs_drop")
def _(I, st, c, a, at, dt):
    return bool(I.T[c["targs"][0]].get("needs_drop", True))


TABLE["core::mem::needs_drop"] = TABLE["I:needs_drop"]


@intr("forget")
def _(I, st, c, a, at, dt):
    return UNIT


TABLE["core::mem::forget"] = TABLE["I:forget"]


@intr("copy_nonoverlapping")
def _(I, st, c, a, at, dt):
    I.copy(st, a[0], a[1], a[2], c["targs"][0], True)
    return UNIT


@intr("copy")
def _(I, st, c, a, at, dt):
    I.copy(st, a[0], a[1], a[2], c["targs"][0], False)
    return UNIT


TABLE["core::ptr::copy_nonoverlapping"] = TABLE["I:copy_nonoverlapping"]
TABLE["core::ptr::copy"] = TABLE["I:copy"]


@intr("write_bytes")
def _(I, st, c, a, at, dt):
    I.fill(st, a[0], a[1], a[2], c["targs"][0])
    return UNIT


TABLE["core::ptr::write_bytes"] = TABLE["I:write_bytes"]


@intr("read_via_copy", "volatile_load", "unaligned_volatile_load")
def _(I, st, c, a, at, dt):
    p = I.unwrap_ptr(st, a[0], at[0])
    I.alignptr(st, p, I.T.align(c["targs"][0]), "read at")
    return I.load(st, p, c["targs"][0])


@intr("write_via_move", "volatile_store")
def _(I, st, c, a, at, dt):
    p = I.unwrap_ptr(st, a[0], at[0])
    I.alignptr(st, p, I.T.align(c["targs"][0]), "write at")
    I.store(st, p, c["targs"][0], a[1])
    return UNIT


TABLE["core::ptr::read"] = TABLE["I:read_via_copy"]
TABLE["core::ptr::write"] = TABLE["I:write_via_move"]


@intr("typed_swap_nonoverlapping")
def _(I, st, c, a, at, dt):
    t = c["targs"][0]
    x, y = I.load(st, a[0], t), I.load(st, a[1], t)
    I.store(st, a[0], t, y)
    I.store(st, a[1], t, x)
    return UNIT


@intr("offset", "arith_offset")
def _(I, st, c, a, at, dt):
    p = I.unwrap_ptr(st, a[0], at[0])
    return I.padd(st, p, a[1], I.T[dt]["to"])


@intr("slice_get_unchecked")
def _(I, st, c, a, at, dt):
    p = I.unwrap_ptr(st, a[0], at[0])
    I.oblige(st, lt(a[1], p.meta), "oob", "unchecked index %r of a slice of %r" % (a[1], p.meta))
    e = I.T[dt]["to"]
    return I.padd(st, Ptr(p.obj, p.off, p.path), a[1], e)


@intr("aggregate_raw_ptr")
def _(I, st, c, a, at, dt):
    p = I.unwrap_ptr(st, a[0], at[0])
    return Ptr(p.obj, p.off, p.path, a[1] if isinstance(a[1], Lin) else None)


@intr("ptr_metadata")
def _(I, st, c, a, at, dt):
    p = I.unwrap_ptr(st, a[0], at[0])
    return p.meta if p.meta is not None else UNIT


@intr("ptr_offset_from", "ptr_offset_from_unsigned")
def _(I, st, c, a, at, dt):
    p, q = I.unwrap_ptr(st, a[0], at[0]), I.unwrap_ptr(st, a[1], at[1])
    s = I.T.size(c["targs"][0])
    if p.obj == q.obj and p.path and q.path and p.path[:-1] == q.path[:-1] and p.path[-1][0] == q.path[-1][0] == "i":
        return p.path[-1][1] - q.path[-1][1]
    if p.obj == q.obj:
        p, q = I.rawptr(st, p), I.rawptr(st, q)
        d = st.facts.norm(p.off - q.off)
    else:
        d = I.addr(st, p) - I.addr(st, q)
    r = fd(d, s) if s else ZERO
    if "unsigned" in c["path"]:
        I.oblige(st, le(0, r), "ub", "negative pointer distance")
    return r


@intr("transmute", "transmute_unchecked")
def _(I, st, c, a, at, dt):
    return I.transmute(st, a[0], at[0], dt)


@intr("wrapping_add", "wrapping_sub", "wrapping_mul")
def _(I, st, c, a, at, dt):
    return I.arith(st, {"add": "Add", "sub": "Sub", "mul": "Mul"}[c["path"].split("_")[-1]], a[0], a[1], at[0])


@intr("unchecked_add", "unchecked_sub", "unchecked_mul", "unchecked_div", "unchecked_rem", "unchecked_shl", "unchecked_shr")
def _(I, st, c, a, at, dt):
    k = c["path"].split("_")[-1]
    op = {"add": "AddUnchecked", "sub": "SubUnchecked", "mul": "MulUnchecked", "div": "Div", "rem": "Rem", "shl": "Shl", "shr": "Shr"}[k]
    return I.arith(st, op, a[0], a[1], at[0])


@intr("add_with_overflow", "sub_with_overflow", "mul_with_overflow")
def _(I, st, c, a, at, dt):
    k = c["path"].split("::")[-1].split("_")[0]
    return I.arith(st, {"add": "AddWithOverflow", "sub": "SubWithOverflow", "mul": "MulWithOverflow"}[k], a[0], a[1], at[0])


@intr("saturating_add", "saturating_sub")
def _(I, st, c, a, at, dt):
    lo, hi = I.T.irange(dt)
    r = a[0] + a[1] if c["path"].endswith("add") else a[0] - a[1]
    if not I.decide(st, le(r, hi)):
        return L(hi)
    if not I.decide(st, le(lo, r)):
        return L(lo)
    return r


@intr("exact_div", "disjoint_bitor")
def _(I, st, c, a, at, dt):
    if "div" in c["path"]:
        return I.arith(st, "Div", a[0], a[1], at[0])
    return I.arith(st, "BitOr", a[0], a[1], at[0])


@intr("ctpop")
def _(I, st, c, a, at, dt):
    v = st.facts.norm(a[0])
    if v.isconst:
        return L(bin(v.c).count("1"))
    return TOP


@intr("cttz", "cttz_nonzero", "ctlz", "ctlz_nonzero", "bswap", "bitreverse", "rotate_left", "rotate_right")
def _(I, st, c, a, at, dt):
    v = st.facts.norm(a[0])
    if v.isconst and "cttz" in c["path"]:
        bits = I.T[at[0]]["bits"]
        return L((v.c & -v.c).bit_length() - 1 if v.c else bits)
    if v.isconst and "ctlz" in c["path"]:
        return L(I.T[at[0]]["bits"] - v.c.bit_length())
    return TOP


@intr("likely", "unlikely", "black_box")
def _(I, st, c, a, at, dt):
    return a[0]


@intr("cold_path", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "breakpoint")
def _(I, st, c, a, at, dt):
    return UNIT


@intr("assume")
def _(I, st, c, a, at, dt):
    if a[0] is not TOP:
        I.oblige(st, a[0], "ub", "a condition the compiler may assume is false")
    return UNIT


@intr("abort")
def _(I, st, c, a, at, dt):
    import absint
    raise absint.PathEnd()


@intr("unreachable")
def _(I, st, c, a, at, dt):
    raise Violation("ub", "code declared unreachable is reached")


TABLE["core::hint::unreachable_unchecked"] = TABLE["I:unreachable"]


@native("core::hint::assert_unchecked")
def _(I, st, c, a, at, dt):
    return TABLE["I:assume"](I, st, c, a, at, dt)


@intr("ub_checks", "overflow_checks", "contract_checks", "is_val_statically_known")
def _(I, st, c, a, at, dt):
    return False


for _n in ("core::ub_checks::check_language_ub", "core::ub_checks::check_library_ub"):
    TABLE[_n] = lambda I, st, c, a, at, dt: False


@native("core::ptr::const_ptr::is_null", "core::ptr::const_ptr::<impl *const T>::is_null", "core::ptr::mut_ptr::<impl *mut T>::is_null")
def _(I, st, c, a, at, dt):
    p = I.unwrap_ptr(st, a[0], at[0])
    if p.obj is not None:
        return False
    return eq(p.off)


@native("core::ptr::non_null::NonNull::<T>::new_unchecked")
def _(I, st, c, a, at, dt):
    p = I.unwrap_ptr(st, a[0], at[0])
    if p.obj is None:
        I.oblige(st, neg(eq(p.off)), "null", "NonNull::new_unchecked of a null pointer")
    return Agg((p,))


@native("core::ptr::non_null::NonNull::<T>::new")
def _(I, st, c, a, at, dt):
    p = I.unwrap_ptr(st, a[0], at[0])
    if p.obj is None and I.decide(st, eq(p.off)):
        return Agg((), 0)
    return Agg((Agg((p,)),), 1)


@native("core::ptr::mut_ptr::<impl *mut T>::align_offset", "core::ptr::const_ptr::<impl *const T>::align_offset")
def _(I, st, c, a, at, dt):
    return TOP


@intr("discriminant_value")
def _(I, st, c, a, at, dt):
    p = I.unwrap_ptr(st, a[0], at[0])
    ty = I.T[at[0]]["to"]
    v = I.load(st, p, ty)
    if isinstance(v, Agg) and v.var is not None:
        return L(I.T[ty]["variants"][v.var]["discr"] or 0)
    return TOP if v is TOP else ZERO


@intr("raw_eq", "compare_bytes")
def _(I, st, c, a, at, dt):
    return TOP


@intr("caller_location")
def _(I, st, c, a, at, dt):
    return TOP


@intr("const_eval_select")
def _(I, st, c, a, at, dt):
    return INLINE


@intr("three_way_compare")
def _(I, st, c, a, at, dt):
    return I.arith(st, "Cmp", a[0], a[1], at[0])


@native("core::str::converts::from_utf8_unchecked", "core::str::converts::from_utf8_unchecked_mut",
        "core::str::<impl str>::as_bytes", "core::str::<impl str>::as_ptr", "core::str::<impl str>::as_bytes_mut")
def _(I, st, c, a, at, dt):
    p = I.unwrap_ptr(st, a[0], at[0])
    if c["path"].endswith("as_ptr"):
        return Ptr(p.obj, p.off, p.path)
    return p


@native("core::str::<impl str>::len")
def _(I, st, c, a, at, dt):
    return I.unwrap_ptr(st, a[0], at[0]).meta


@native("core::cmp::Ord::max", "core::cmp::max", "core::cmp::Ord::min", "core::cmp::min")
def _(I, st, c, a, at, dt):
    if I.T[at[0]]["k"] != "int":
        return INLINE
    mx = c["path"].endswith("max")
    x, y = a
    if x is UNINIT or y is UNINIT:
        raise Violation("uninit", "a computation uses an uninitialized value")
    if x is TOP or y is TOP:
        return TOP
    return (y if mx else x) if I.decide(st, le(x, y)) else (x if mx else y)


@intr("integer_min", "integer_max")
def _(I, st, c, a, at, dt):
    x, y = a
    if x is TOP or y is TOP:
        return TOP
    mx = c["path"].endswith("max")
    return (y if mx else x) if I.decide(st, le(x, y)) else (x if mx else y)


@native("probe::storage")
def _(I, st, c, a, at, dt):
    p = I.unwrap_ptr(st, a[0], at[0])
    size, al = a[1], st.facts.norm(a[2]).c
    if p.obj is None:
        if I.decide(st, le(size, 0)):
            # An object of no bytes needs no storage, only a non-null, aligned address.
            I.oblige(st, conj(lt(0, p.off), eq(p.off, fd(p.off, al) * al)), "align", "an object of no bytes at the address %r, which is not a multiple of %d" % (p.off, al))
            return UNIT
        raise Violation("null", "an object of %r bytes at an address that is no allocation (%r)" % (size, p.off))
    I.getobj(st, p, "object")
    p = I.rawptr(st, p)
    I.access(st, st.mem[p.obj], p.off, size, al, "object")
    return UNIT


@native("core::ptr::non_null::NonNull::<T>::dangling")
def _(I, st, c, a, at, dt):
    return Agg((Ptr(None, L(I.T.align(I.T[dt]["args"][0]))),))


@native("core::ptr::dangling", "core::ptr::dangling_mut")
def _(I, st, c, a, at, dt):
    return Ptr(None, L(I.T.align(I.T[dt]["to"])))
