"""Abstract values and memory of the interpreter."""
from lin import *


class Split(Exception):
    """The abstract state does not decide `f`: partition it."""

    def __init__(self, f):
        self.f = f


class Violation(Exception):
    def __init__(self, kind, text):
        self.kind, self.text = kind, text


class Unsupported(Exception):
    pass


class Agg:
    """A struct, tuple, array, closure (var None) or enum (var = variant index) value."""
    __slots__ = ("var", "fs")

    def __init__(self, fs, var=None):
        self.var, self.fs = var, tuple(fs)

    def __repr__(self):
        return "%s(%s)" % ("" if self.var is None else "#%s" % self.var, ", ".join(map(repr, self.fs)))

    def __eq__(self, o):
        return self is o or isinstance(o, Agg) and self.var == o.var and self.fs == o.fs

    def __hash__(self):
        return hash((self.var, self.fs))


class Uni:
    """A union holding `val` of type `ty`."""
    __slots__ = ("ty", "val")

    def __init__(self, ty, val):
        self.ty, self.val = ty, val

    def __repr__(self):
        return "U<%s>(%r)" % (self.ty, self.val)

    def __eq__(self, o):
        return isinstance(o, Uni) and self.ty == o.ty and self.val == o.val

    def __hash__(self):
        return hash((self.ty, self.val))


class Ptr:
    __slots__ = ("obj", "off", "path", "meta")

    def __init__(self, obj, off=ZERO, path=(), meta=None):
        self.obj, self.off, self.path, self.meta = obj, off, path, meta

    def __repr__(self):
        return "&%s+%r%s%s" % (self.obj, self.off, "".join(".%s%s" % (p[0], p[1]) for p in self.path), "" if self.meta is None else "[%r]" % (self.meta,))

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off and self.path == o.path and self.meta == o.meta

    def __hash__(self):
        return hash((self.obj, self.off, self.path, self.meta))


class Const:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


UNINIT = Const("uninit")
TOP = Const("top")
UNIT = Agg(())


class Obj:
    """kind: 'tree' (val of type ty) or 'raw' (cells, newest first, over `base`)."""
    __slots__ = ("kind", "ty", "val", "size", "align", "cells", "base", "live", "heap", "name")

    def __init__(self, kind, ty=None, val=None, size=None, align=1, cells=(), base="junk", live=True, heap=False, name=""):
        self.kind, self.ty, self.val, self.size, self.align = kind, ty, val, size, align
        self.cells, self.base, self.live, self.heap, self.name = cells, base, live, heap, name

    def with_(self, **kw):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__:
            setattr(o, s, kw.get(s, getattr(self, s)))
        return o


# raw cells: tuples
#   ("v", off, size:int, ty, val)
#   ("fill", off, sizeLin, byte)
#   ("copy", off, sizeLin, srcobj(Obj), srcoff)
#   ("all", j(atom id), K(Lin), (cells...))   one group per j in 0..K, later j newer; inner order newest first
#   ("hav", off, sizeLin)


class Types:
    def __init__(self, types):
        self.t = types
        self._leaf = {}

    def __getitem__(self, ty):
        return self.t[ty]

    def kind(self, ty):
        return self.t[ty]["k"]

    def size(self, ty):
        l = self.t[ty].get("layout")
        if l is None:
            raise Unsupported("size of " + ty)
        return l["size"]

    def align(self, ty):
        d = self.t[ty]
        l = d.get("layout")
        if l is None:
            if d["k"] == "slice":
                return self.align(d["elem"])
            if d["k"] == "str":
                return 1
            raise Unsupported("align of " + ty)
        return l["align"]

    def elem(self, ty):
        return self.t[ty]["elem"]

    def fields(self, ty, var=0):
        d = self.t[ty]
        k = d["k"]
        if k == "adt":
            return [f[1] for f in d["variants"][var or 0]["fields"]]
        if k == "tuple":
            return d["elems"]
        if k == "closure":
            return d["upvars"]
        if k == "array":
            return [d["elem"]] * d["len"]
        return []

    def is_enum(self, ty):
        d = self.t[ty]
        return d["k"] == "adt" and d["kind"] == "enum"

    def is_union(self, ty):
        d = self.t[ty]
        return d["k"] == "adt" and d["kind"] == "union"

    def is_struct(self, ty):
        d = self.t[ty]
        return d["k"] in ("tuple", "closure") or d["k"] == "adt" and d["kind"] == "struct"

    def offsets(self, ty):
        return self.t[ty]["layout"].get("offsets")

    def zst(self, ty):
        l = self.t[ty].get("layout")
        return l is not None and l["size"] == 0

    def only(self, ty):
        """(index, type) of the single sized field of a wrapper struct or a one-element array, else None."""
        d = self.t[ty]
        if d["k"] == "array":
            return (0, d["elem"]) if d["len"] == 1 else None
        if not self.is_struct(ty):
            return None
        r = [(i, f) for i, f in enumerate(self.fields(ty)) if not self.zst(f)]
        if len(r) == 1 and self.t[ty].get("layout") and self.size(ty) == self.size(r[0][1]):
            return r[0]
        return None

    def zstval(self, ty):
        d = self.t[ty]
        if d["k"] == "array":
            return Agg([self.zstval(d["elem"])] * d["len"])
        if self.is_union(ty):
            return Uni(self.fields(ty)[-1], self.zstval(self.fields(ty)[-1]))
        if self.is_struct(ty):
            return Agg([self.zstval(f) for f in self.fields(ty)])
        if self.is_enum(ty):
            vs = [i for i in range(len(d["variants"])) if not any(self.uninhabited(f) for f in self.fields(ty, i))]
            if len(vs) != 1:
                raise Unsupported("the only value of " + ty)
            return Agg([self.zstval(f) for f in self.fields(ty, vs[0])], vs[0])
        return UNIT

    def uninhabited(self, ty):
        d = self.t.get(ty)
        if d is None:
            return False
        if d["k"] == "never":
            return True
        if self.is_enum(ty):
            return all(any(self.uninhabited(f) for f in self.fields(ty, i)) for i in range(len(d["variants"])))
        return (d["k"] == "tuple" or self.is_struct(ty)) and any(self.uninhabited(f) for f in self.fields(ty))

    def isptr(self, ty):
        return self.t[ty]["k"] in ("ref", "ptr", "fnptr")

    def irange(self, ty):
        d = self.t[ty]
        if d["k"] == "char":
            return 0, 0x10FFFF
        b = d["bits"]
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if d["signed"] else (0, (1 << b) - 1)

    # ---- conversions between layout-compatible types
    def coerce(self, v, a, b):
        if a == b or v is UNINIT or v is TOP:
            return v
        if self.zst(b):
            return self.zstval(b)
        ka, kb = self.t[a]["k"], self.t[b]["k"]
        if isinstance(v, Uni):
            return self.coerce(v.val, v.ty, b)
        if self.is_union(b):
            fs = [f for f in self.fields(b) if not self.zst(f) and self.size(f) == self.size(a)]
            return Uni(fs[0], self.coerce(v, a, fs[0])) if fs else TOP
        o = self.only(b)
        if o is not None and not (self.same_shape(a, b)):
            w = self.coerce(v, a, o[1])
            return Agg([w if i == o[0] else self.zstval(f) for i, f in enumerate(self.fields(b))])
        o = self.only(a)
        if o is not None and not self.same_shape(a, b):
            return self.coerce(v.fs[o[0]], o[1], b) if isinstance(v, Agg) else TOP
        if isinstance(v, Agg) and self.same_shape(a, b):
            fa, fb = self.fields(a, v.var), self.fields(b, v.var)
            if len(fa) == len(fb) == len(v.fs):
                return Agg([self.coerce(x, p, q) for x, p, q in zip(v.fs, fa, fb)], v.var)
        if ka == kb and ka not in ("adt", "array", "tuple"):
            if ka == "int":
                return retype(v, self, a, b)
            return v
        if self.isptr(a) and self.isptr(b):
            return v
        if ka in ("int", "bool", "char") and kb in ("int", "bool", "char"):
            return retype(v, self, a, b)
        if self.isptr(a) and kb == "int" or ka == "int" and self.isptr(b):
            return v     # fixed up by the interpreter where it matters
        return TOP

    def oneniche(self, ty):
        """(variant, payload) for an enum of one variant holding exactly its payload and one holding nothing, in the payload's size."""
        d = self.t[ty]
        if d["k"] != "adt" or d["kind"] != "enum" or len(d["variants"]) != 2:
            return None
        for i in (0, 1):
            fs, gs = self.fields(ty, i), self.fields(ty, 1 - i)
            if len(fs) == 1 and all(self.zst(g) for g in gs) and self.size(fs[0]) == self.size(ty) and self.size(ty):
                return i, fs[0]
        return None

    def nonzero(self, ty):
        """Whether zero is the niche of this type."""
        d = self.t[ty]
        if d["k"] in ("ref", "fnptr"):
            return True
        if d["k"] == "adt" and ("::nonzero::NonZero" in d["path"] or d["path"].endswith("::NonNull")):
            return True
        o = self.only(ty)
        return o is not None and self.nonzero(o[1])

    def same_shape(self, a, b):
        da, db = self.t[a], self.t[b]
        if da["k"] != db["k"]:
            return False
        if da["k"] == "adt":
            return da["path"] == db["path"] and da["kind"] == db["kind"]
        if da["k"] == "tuple":
            return len(da["elems"]) == len(db["elems"])
        if da["k"] == "array":
            return da["len"] == db["len"]
        return da["k"] == "closure" and da["path"] == db["path"]


def retype(v, T, a, b):
    if isinstance(v, Lin) and T[b]["k"] == "int":
        lo, hi = T.irange(b)
        if v.isconst:
            m = hi - lo + 1
            return Lin((v.c - lo) % m + lo)
        x, y = base_interval(v)
        if lo <= x and y <= hi or T[a]["k"] == "int" and T.irange(a) == (lo, hi):
            return v
        return TOP
    if isinstance(v, Lin) and T[b]["k"] == "bool" and v.isconst:
        return bool(v.c)
    if isinstance(v, bool) and T[b]["k"] == "int":
        return Lin(int(v))
    if isinstance(v, Lin):
        return v
    return TOP


# ---- substitution of an atom in terms, values and cells
def sub_lin(l, a, r, memo):
    out = Lin(l.c)
    for x, k in l.t:
        out = out + sub_atom(x, a, r, memo) * k
    return out


def sub_atom(x, a, r, memo):
    if x == a:
        return r
    v = memo.get(x)
    if v is None:
        A = ATOMS[x]
        v = Lin(0, ((x, 1),))
        if A.d is not None:
            args = [sub_lin(y, a, r, memo) if isinstance(y, Lin) else y for y in A.d[1:]]
            if tuple(args) != A.d[1:]:
                v = rebuild(A, args)
        memo[x] = v
    return v


def sub_form(f, a, r, memo):
    if f is True or f is False:
        return f
    if f[0] in ("and", "or"):
        g, h = sub_form(f[1], a, r, memo), sub_form(f[2], a, r, memo)
        return conj(g, h) if f[0] == "and" else disj(g, h)
    if f[0] == "b":
        return ("b", tuple(sub_lin(x, a, r, memo) if isinstance(x, Lin) else x for x in f[1]), f[2])
    l = sub_lin(f[1], a, r, memo)
    return le(l) if f[0] == "le" else eq(l) if f[0] == "eq" else neg(eq(l))


def sub_val(v, a, r, memo):
    if isinstance(v, Lin):
        return sub_lin(v, a, r, memo)
    if isinstance(v, Agg):
        return Agg([sub_val(x, a, r, memo) for x in v.fs], v.var)
    if isinstance(v, Uni):
        return Uni(v.ty, sub_val(v.val, a, r, memo))
    if isinstance(v, Ptr):
        return Ptr(v.obj, sub_lin(v.off, a, r, memo), tuple((p[0], sub_lin(p[1], a, r, memo) if isinstance(p[1], Lin) else p[1]) + tuple(p[2:]) for p in v.path),
                   sub_lin(v.meta, a, r, memo) if isinstance(v.meta, Lin) else v.meta)
    if isinstance(v, tuple) and v:
        return sub_form(v, a, r, memo)
    return v


def sub_cell(c, a, r, memo):
    k = c[0]
    if k == "v":
        return (k, sub_lin(c[1], a, r, memo), c[2], c[3], sub_val(c[4], a, r, memo))
    if k == "fill":
        return (k, sub_lin(c[1], a, r, memo), sub_lin(c[2], a, r, memo), c[3])
    if k == "hav":
        return (k, sub_lin(c[1], a, r, memo), sub_lin(c[2], a, r, memo))
    if k == "copy":
        o = c[3]
        if o.kind == "raw":
            o = o.with_(cells=tuple(sub_cell(x, a, r, memo) for x in o.cells))
        return (k, sub_lin(c[1], a, r, memo), sub_lin(c[2], a, r, memo), o, sub_lin(c[4], a, r, memo))
    return (k, c[1], sub_lin(c[2], a, r, memo), tuple(sub_cell(x, a, r, memo) for x in c[3]))
