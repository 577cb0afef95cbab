"""Integer linear terms over hash-consed atoms, and conjunctions of linear facts (a polyhedral domain).

A `Lin` is an exact integer linear expression. Atoms are unknown integers with global bounds; derived
atoms (floor division, products, bit operations) carry their definition so that equal terms are the same
atom. `Facts` is an immutable conjunction: inequalities, disequalities, solved equalities, truth values of
opaque booleans. `prove` decides entailment by interval bounds, one-step combination and, last, an exact
emptiness test of the rational polyhedron (integer rows tightened by their gcd)."""
from fractions import Fraction
from math import gcd

INF = 1 << 200


class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)

    def __add__(self, o):
        if isinstance(o, int):
            return self if o == 0 else Lin(self.c + o, self.t)
        if not o.t:
            return self if o.c == 0 else Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            v = d.get(a, 0) + k
            if v:
                d[a] = v
            else:
                del d[a]
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if k == 1:
            return self
        if k == 0:
            return ZERO
        return Lin(self.c * k, tuple((a, v * k) for a, v in self.t))

    __rmul__ = __mul__

    def __repr__(self):
        s = []
        for a, k in self.t:
            n = ATOMS[a].show()
            s.append(n if k == 1 else "-" + n if k == -1 else "%d*%s" % (k, n))
        if self.c or not s:
            s.append(num(self.c))
        return " + ".join(s).replace("+ -", "- ")

    @property
    def isconst(self):
        return not self.t


def num(c):
    for p in (64, 63, 32):
        for d in range(-64, 65):
            if abs(c) > 1 << 20 and abs(c) == (1 << p) + d:
                return "%s(2^%d%s)" % ("-" if c < 0 else "", p, "%+d" % d if d else "")
    return str(c)


ZERO = Lin(0)
ONE = Lin(1)


def L(x):
    return x if isinstance(x, Lin) else Lin(x)


class Atom:
    __slots__ = ("id", "name", "lo", "hi", "d")

    def __init__(self, id, name, lo, hi, d=None):
        self.id, self.name, self.lo, self.hi, self.d = id, name, lo, hi, d

    def show(self):
        if self.d is None:
            return self.name
        k = self.d[0]
        if k == "fd":
            return "floor((%r)/%d)" % (self.d[1], self.d[2])
        return "%s(%s)" % (k, ", ".join(map(repr, self.d[1:])))


ATOMS = []
_cons = {}


def reset():
    ATOMS.clear()
    _cons.clear()


def fresh(name, lo=0, hi=(1 << 64) - 1):
    a = Atom(len(ATOMS), "%s%d" % (name, len(ATOMS)), lo, hi)
    ATOMS.append(a)
    return Lin(0, ((a.id, 1),))


def derived(d, lo, hi):
    k = _cons.get(d)
    if k is None:
        a = Atom(len(ATOMS), "", lo, hi, d)
        ATOMS.append(a)
        k = _cons[d] = Lin(0, ((a.id, 1),))
    return k


def base_interval(l):
    lo = hi = l.c
    for a, k in l.t:
        A = ATOMS[a]
        if k > 0:
            lo += k * A.lo
            hi += k * A.hi
        else:
            lo += k * A.hi
            hi += k * A.lo
    return lo, hi


def fd(l, d):
    """floor(l / d) for a positive constant d, in canonical form."""
    if d == 1:
        return l
    out = l.c // d
    c = l.c % d
    pt, rt = [], []
    for a, k in l.t:
        q, r = divmod(k, d)
        if r > d // 2 and r != 0 and k < 0:
            pass
        if q:
            pt.append((a, q))
        if r:
            rt.append((a, r))
    base = Lin(out, tuple(pt))
    if not rt:
        return base
    g = d
    for _, r in rt:
        g = gcd(g, r)
    if g > 1:
        rt = [(a, r // g) for a, r in rt]
        c //= g
        d //= g
        if d == 1:
            return base + Lin(c, tuple(rt))
    if len(rt) == 1 and rt[0][1] == 1:
        D = ATOMS[rt[0][0]].d
        if D is not None and D[0] == "fd":
            return base + fd(D[1] + c * D[2], D[2] * d)
    arg = Lin(c, tuple(rt))
    lo, hi = base_interval(arg)
    if lo // d == hi // d:
        return base + lo // d
    return base + derived(("fd", arg, d), lo // d, hi // d)


def mul(a, b):
    if a.isconst:
        return b * a.c
    if b.isconst:
        return a * b.c
    out = ZERO
    for x, k in list(a.t) + [(None, a.c)]:
        for y, m in list(b.t) + [(None, b.c)]:
            if k * m == 0:
                continue
            if x is None and y is None:
                out = out + k * m
            elif x is None or y is None:
                out = out + Lin(0, ((x if y is None else y, k * m),))
            else:
                x1, y1 = min(x, y), max(x, y)
                A, B = ATOMS[x1], ATOMS[y1]
                ps = [p * q for p in (A.lo, A.hi) for q in (B.lo, B.hi)]
                out = out + derived(("mul", Lin(0, ((x1, 1),)), Lin(0, ((y1, 1),))), min(ps), max(ps)) * (k * m)
    return out


def rebuild(a, args):
    """The derived atom `a` with new arguments, simplified."""
    k = a.d[0]
    if k == "fd":
        return fd(args[0], a.d[2])
    if k == "mul":
        return mul(args[0], args[1])
    f = SIMPLIFY.get(k)
    if f is not None:
        return f(*args)
    return derived((k,) + tuple(args), a.lo, a.hi)


SIMPLIFY = {}


# ---------------------------------------------------------------- formulas
# True | False | ("le", lin) lin<=0 | ("eq", lin) | ("ne", lin) | ("b", key, polarity) | ("and"|"or", f, g)

def le(a, b=0):
    l = L(a) - L(b)
    if l.isconst:
        return l.c <= 0
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
    if g > 1:
        l = Lin(-((-l.c) // g), tuple((a, k // g) for a, k in l.t))
    return ("le", l)


def lt(a, b):
    return le(L(a) + 1, b)


def eq(a, b=0):
    l = L(a) - L(b)
    if l.isconst:
        return l.c == 0
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
    if l.c % g:
        return False
    if l.t[0][1] < 0:
        g = -g
    if g != 1:
        l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
    return ("eq", l)


def neg(f):
    if f is True:
        return False
    if f is False:
        return True
    k = f[0]
    if k == "le":
        return le(ONE, f[1])
    if k == "eq":
        return ("ne", f[1])
    if k == "ne":
        return ("eq", f[1])
    if k == "b":
        return ("b", f[1], not f[2])
    if k == "and":
        return disj(neg(f[1]), neg(f[2]))
    return conj(neg(f[1]), neg(f[2]))


def conj(*fs):
    r = True
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        r = f if r is True else ("and", r, f)
    return r


def disj(*fs):
    r = False
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        r = f if r is False else ("or", r, f)
    return r


def flins(f):
    if f is True or f is False:
        return
    if f[0] in ("and", "or"):
        yield from flins(f[1])
        yield from flins(f[2])
    elif f[0] == "b":
        for x in f[1]:
            if isinstance(x, Lin):
                yield x
    else:
        yield f[1]


# ---------------------------------------------------------------- facts
class Facts:
    __slots__ = ("les", "nes", "sub", "bools", "iv", "_n", "_p", "ors", "log")
    stats = {"prove": 0, "lp": 0, "hit": 0}

    def __init__(self):
        self.les = {}     # terms -> min const c : terms + c <= 0 (largest c kept)
        self.nes = ()
        self.sub = {}
        self.bools = {}
        self.iv = {}
        self.ors = ()
        self.log = None   # everything assumed, as a linked list: only read when a refuting point is verified
        self._n = {}
        self._p = {}

    def copy(self):
        f = Facts.__new__(Facts)
        f.les = dict(self.les)
        f.nes = self.nes
        f.sub = dict(self.sub)
        f.bools = dict(self.bools)
        f.iv = dict(self.iv)
        f.ors = self.ors
        f.log = self.log
        f._n = {}
        f._p = {}
        return f

    # -- normal form
    def norm(self, l):
        if not l.t:
            return l
        r = self._n.get(l)
        if r is None:
            r = Lin(l.c)
            for a, k in l.t:
                r = r + self._natom(a) * k
            self._n[l] = r
        return r

    def _natom(self, a):
        s = self._n.get(a)
        if s is not None:
            return s
        self._n[a] = Lin(0, ((a, 1),))  # guards against cycles
        s = self.sub.get(a)
        if s is not None:
            s = self.norm(s)
        else:
            A = ATOMS[a]
            s = Lin(0, ((a, 1),))
            if A.d is not None:
                args = [self.norm(x) if isinstance(x, Lin) else x for x in A.d[1:]]
                if tuple(args) != A.d[1:]:
                    s2 = rebuild(A, args)
                    if s2 != s:
                        s = self.norm(s2)
                elif A.d[0] == "fd":
                    lo, hi = self.interval(A.d[1])
                    q = lo // A.d[2]
                    if q == hi // A.d[2]:
                        s = Lin(q)
        self._n[a] = s
        return s

    def ainterval(self, a):
        A = ATOMS[a]
        v = self.iv.get(a)
        lo, hi = A.lo, A.hi
        if v is not None:
            lo, hi = max(lo, v[0]), min(hi, v[1])
        return lo, hi

    def interval(self, l):
        lo = hi = l.c
        for a, k in l.t:
            x, y = self.ainterval(a)
            if k > 0:
                lo += k * x
                hi += k * y
            else:
                lo += k * y
                hi += k * x
        return lo, hi

    # -- adding
    def assume(self, f, obliged=False):
        """self and f, or None if that is found to be empty. `obliged`: f had to hold, it was not chosen."""
        if f is True:
            return self
        if f is False:
            return None
        n = self.copy()
        n.log = (self.log, f, obliged)
        return n if n._add(f) else None

    def _add(self, f):
        if f is True:
            return True
        if f is False:
            return False
        k = f[0]
        if k == "and":
            return self._add(f[1]) and self._add(f[2])
        if k == "or":
            r1, r2 = self.decide(f[1]), self.decide(f[2])
            if r1 is True or r2 is True:
                return True
            if r1 is False:
                return r2 is not False and self._add(f[2])
            if r2 is False:
                return self._add(f[1])
            self.ors += (f,)
            return True
        if k == "b":
            key = self.nkey(f[1])
            old = self.bools.get(key)
            if old is not None:
                return old == f[2]
            self.bools[key] = f[2]
            return True
        l = self.norm(f[1])
        if k == "le":
            return self._addle(l)
        if k == "eq":
            return self._addeq(l)
        if l.isconst:
            return l.c != 0
        return self._addne(l)

    def nkey(self, key):
        return tuple(self.norm(x) if isinstance(x, Lin) else x for x in key)

    def _addne(self, l):
        if self.prove_le(-l):      # l >= 0
            return self._addle(ONE - l)
        if self.prove_le(l):
            return self._addle(l + 1)
        self.nes += (l,)
        return True

    def _addle(self, l):
        if l.isconst:
            return l.c <= 0
        f = le(l)
        if f is True or f is False:
            return f
        l = f[1]
        old = self.les.get(l.t)
        if old is not None and old >= l.c:
            return True
        nt = tuple((a, -k) for a, k in l.t)
        o = self.les.get(nt)
        if o is not None:
            if o + l.c > 0:
                return False
            if o + l.c == 0:
                return self._addeq(l)
        lo, hi = self.interval(l)
        if lo > 0:
            return False
        if hi <= 0 and len(l.t) > 1:
            return True
        if lo == 0 and len(l.t) <= 2:
            return self._addeq(l)
        self.les[l.t] = l.c
        self._p = {}
        self._tighten(l)
        return self._renes()

    def _tighten(self, l):
        """Interval consequences of l <= 0 for each atom (one pass)."""
        for i, (a, k) in enumerate(l.t):
            lo = l.c
            for b, m in l.t:
                if b != a:
                    x, y = self.ainterval(b)
                    lo += m * x if m > 0 else m * y
            x, y = self.ainterval(a)
            if k > 0:
                y2 = (-lo) // k
                if y2 < y:
                    self.iv[a] = (x, y2)
            else:
                x2 = -((-lo) // -k) if False else -(-lo // k) if False else _ceil(lo, -k)
                if x2 > x:
                    self.iv[a] = (x2, y)
        self._n = {}

    def _renes(self):
        if not self.nes:
            return True
        old, self.nes = self.nes, ()
        for l in old:
            l = self.norm(l)
            if l.isconst:
                if l.c == 0:
                    return False
                continue
            if self._quick(-l):
                l = ONE - l
            elif self._quick(l):
                l = l + 1
            else:
                self.nes += (l,)
                continue
            if not self._addle(self.norm(l)):
                return False
        return True

    def _addeq(self, l):
        l = self.norm(l)
        if l.isconst:
            return l.c == 0
        f = eq(l)
        if f is False:
            return False
        l = f[1]
        lo, hi = self.interval(l)
        if lo > 0 or hi < 0:
            return False
        # solve for an atom with coefficient +-1: prefer underived, most recent
        best = None
        for a, k in l.t:
            if abs(k) == 1:
                A = ATOMS[a]
                if self._occurs(a, l):
                    continue
                s = (A.d is None, a)
                if best is None or s > best[0]:
                    best = (s, a, k)
        if best is None:
            # keep as two inequalities
            self.les[l.t] = max(self.les.get(l.t, -INF), l.c)
            m = -l
            self.les[m.t] = max(self.les.get(m.t, -INF), m.c)
            self._p = {}
            self._n = {}
            return self._renes()
        _, a, k = best
        s = Lin(l.c, tuple(x for x in l.t if x[0] != a)) * (-k)
        self.sub[a] = s
        self._n = {}
        self._p = {}
        x, y = self.ainterval(a)
        self.iv.pop(a, None)
        olds = self.les
        self.les = {}
        A = ATOMS[a]
        todo = [Lin(x) - s, s - Lin(y)]
        if A.d is not None and A.d[0] == "fd":
            todo += [s * A.d[2] - A.d[1], A.d[1] - s * A.d[2] - (A.d[2] - 1)]
        ok = True
        for t, c in olds.items():
            l2 = Lin(c, t)
            n2 = self.norm(l2)
            if n2 == l2:
                self.les[t] = c
            else:
                todo.append(n2)
        for l2 in todo:
            ok = ok and self._addle(self.norm(l2))
        # opaque booleans and disequalities in the new normal form
        nb = {}
        for key, v in self.bools.items():
            k2 = self.nkey(key)
            if nb.get(k2, v) != v:
                return False
            nb[k2] = v
        self.bools = nb
        return ok and self._renes()

    def _occurs(self, a, l):
        for b, _ in l.t:
            if b != a and self._indef(a, b):
                return True
        return False

    def _indef(self, a, b):
        D = ATOMS[b].d
        if D is None:
            return False
        for x in D[1:]:
            if isinstance(x, Lin):
                for c, _ in x.t:
                    if c == a or self._indef(a, c):
                        return True
        return False

    # -- deciding
    def decide(self, f):
        """True, False or None."""
        if f is True or f is False:
            return f
        k = f[0]
        if k == "le":
            if self.prove_le(f[1]):
                return True
            if self.prove_le(ONE - f[1]):
                return False
            return None
        if k in ("eq", "ne"):
            r = self._eq(f[1])
            return r if k == "eq" or r is None else not r
        if k == "b":
            v = self.bools.get(self.nkey(f[1]))
            return None if v is None else v == f[2]
        x = self.decide(f[1])
        if k == "and":
            if x is False:
                return False
            y = self.decide(f[2])
            if y is False:
                return False
            return True if x and y else None
        if x is True:
            return True
        y = self.decide(f[2])
        if y is True:
            return True
        return False if x is False and y is False else None

    def _eq(self, l):
        l = self.norm(l)
        if l.isconst:
            return l.c == 0
        if eq(l) is False:
            return False
        a, b = self.prove_le(l), self.prove_le(-l)
        if a and b:
            return True
        if a and self.prove_le(l + 1) or b and self.prove_le(ONE - l):
            return False
        for n in self.nes:
            n = self.norm(n)
            if n == l or n == -l:
                return False
        # residues: all atoms multiples of g but the constant is not
        return None

    def _quick(self, l):
        lo, hi = self.interval(l)
        if hi <= 0:
            return True
        c = self.les.get(l.t)
        return c is not None and l.c <= c

    def prove_le(self, l):
        l = self.norm(l)
        if l.isconst:
            return l.c <= 0
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1:
            l = Lin(-((-l.c) // g), tuple((a, k // g) for a, k in l.t))
        if self._quick(l):
            return True
        if self.interval(l)[0] > 0:
            return False
        Facts.stats["prove"] += 1
        # cached by terms: best proved constant / least refuted constant
        p = self._p.get(l.t)
        if p is not None:
            if l.c <= p[0]:
                Facts.stats["hit"] += 1
                return True
            if l.c >= p[1]:
                Facts.stats["hit"] += 1
                return False
        r = self._prove(l)
        p = p or (-INF, INF)
        self._p[l.t] = (max(p[0], l.c), p[1]) if r else (p[0], min(p[1], l.c))
        return r

    def rows(self, seeds, maxrows=150):
        """Inequalities (as normalised Lin <= 0) in the cone of influence of the given atoms."""
        atoms = {}
        queue = list(seeds)
        for a in queue:
            atoms[a] = 1
        facts = [Lin(c, t) for t, c in self.les.items()]
        byatom = {}
        for i, f in enumerate(facts):
            for a, _ in f.t:
                byatom.setdefault(a, []).append(i)
        # quotients mentioned by facts, by the atoms of their numerators
        byarg = {}
        stack = [a for f in facts for a, _ in f.t] + list(seeds)
        seen = set()
        while stack:
            a = stack.pop()
            if a in seen or a < 0:
                continue
            seen.add(a)
            D = ATOMS[a].d
            if D is not None and D[0] == "fd":
                for b, _ in self.norm(D[1]).t:
                    byarg.setdefault(b, []).append(a)
                    stack.append(b)
        used = set()
        rows = []
        quots = []

        def touch(l):
            for b, _ in l.t:
                if b not in atoms:
                    atoms[b] = 1
                    queue.append(b)

        qi = 0
        while qi < len(queue) and len(rows) < maxrows:
            a = queue[qi]
            qi += 1
            A = ATOMS[a] if a >= 0 else None
            if A is not None and A.d is not None:
                if A.d[0] == "fd":
                    arg = self.norm(A.d[1])
                    at = Lin(0, ((a, A.d[2]),))
                    rows.append(at - arg)
                    rows.append(arg - at - (A.d[2] - 1))
                    touch(arg)
                    quots.append((a, arg, A.d[2]))
            for b in byarg.get(a, ()):
                if b not in atoms:
                    atoms[b] = 1
                    queue.append(b)
            for i in byatom.get(a, ()):
                if i not in used:
                    used.add(i)
                    rows.append(facts[i])
                    touch(facts[i])
        # nested quotients: floor((x+c)/(d*m)) is floor(floor((x+c)/d)/m)
        for i, (p, pa, pd) in enumerate(quots):
            for q, qa, qd in quots:
                if p == q or pd % qd or pa.t != qa.t or pd == qd and p < q:
                    continue
                m, c = pd // qd, pa.c - qa.c
                P, Q = Lin(0, ((p, m),)), Lin(0, ((q, 1),))
                rows.append(P - Q - _ceil(c, qd))
                rows.append(Q + c // qd - P - (m - 1))
        return rows, atoms

    def _prove(self, l):
        rows, atoms = self.rows([a for a, _ in l.t])
        # one-step
        for f in rows:
            for m in (1, 2, 4, 8):
                d = l - f * m
                if len(d.t) < len(l.t) + len(f.t) and self.interval(d)[1] <= 0:
                    return True
        Facts.stats["lp"] += 1
        return lp_point(rows + [ONE - l], atoms, self) is None

    def feasible(self, budget=12):
        """False only if no integer point satisfies the facts (bounded branch and bound over the rational relaxation)."""
        seeds = {a for t in self.les for a, _ in t}
        nes = [self.norm(x) for x in self.nes]
        for x in nes:
            seeds.update(a for a, _ in x.t)
        rows, atoms = self.rows(list(seeds), 400)
        return not int_empty(rows, atoms, self, budget, nes)

    def refutes(self, f, budget=60):
        """True only if f and these facts have no common integer point."""
        g = self.assume(f)
        return g is None or not g.feasible(budget)


def _ceil(a, b):
    return -((-a) // b)


def int_empty(rows, atoms, facts, budget, nes=()):
    n = [budget]

    def rec(rows):
        n[0] -= 1
        p = lp_point(rows, dict(atoms), facts)
        if p is None:
            return True
        if n[0] <= 0:
            return False
        for a, v in p.items():
            if isinstance(v, Fraction) and v.denominator != 1:
                one = Lin(0, ((a, 1),))
                k = v.numerator // v.denominator
                return rec(rows + [one - k]) and rec(rows + [Lin(k + 1) - one])
        if p:
            for x in nes:
                if x.isconst:
                    if x.c == 0:
                        return True
                elif x.c + sum(k * p.get(a, 1 << 300) for a, k in x.t) == 0:
                    return rec(rows + [x + 1]) and rec(rows + [ONE - x])
        return False
    return rec(rows)


def lp_point(rows, atoms, facts):
    """None if no rational point satisfies all rows (<= 0) and atom bounds, else a vertex ({} if unknown). (Bounded general simplex.)"""
    # variables: atoms with bounds; slack per row: s = terms, s <= -c
    names = list(atoms)
    for r in rows:
        for a, _ in r.t:
            if a not in atoms:
                atoms[a] = 1
                names.append(a)
    idx = {a: i for i, a in enumerate(names)}
    n = len(names)
    lo, hi = [], []
    for a in names:
        x, y = facts.ainterval(a) if a >= 0 else (0, 0)
        lo.append(x)
        hi.append(y)
        if x > y:
            return None
    val = []
    # start at the bound nearest to zero
    for i in range(n):
        val.append(lo[i] if lo[i] >= 0 or lo[i] > -INF // 2 and abs(lo[i]) <= abs(hi[i]) else (hi[i] if hi[i] <= 0 else 0))
    seen = {}
    for r in rows:
        if not r.t:
            if r.c > 0:
                return None
            continue
        if seen.get(r.t, -INF) < r.c:
            seen[r.t] = r.c
    T = {}      # basic var -> {nonbasic: coef}
    up = {}
    for j, (t, c) in enumerate(seen.items()):
        v = n + j
        T[v] = {idx[a]: k for a, k in t}
        lo.append(-INF * INF)
        hi.append(-c)
        val.append(sum(k * val[idx[a]] for a, k in t))
    for _ in range(400):
        # Bland: smallest basic variable out of bounds
        b = -1
        for v in sorted(T):
            if val[v] > hi[v] or val[v] < lo[v]:
                b = v
                break
        if b < 0:
            return {a: val[i] for i, a in enumerate(names)}
        row = T[b]
        want = hi[b] if val[b] > hi[b] else lo[b]
        inc = want > val[b]
        piv = -1
        for x in sorted(row):
            k = row[x]
            if (k > 0) == inc:
                if val[x] < hi[x]:
                    piv = x
                    break
            elif val[x] > lo[x]:
                piv = x
                break
        if piv < 0:
            return None
        # pivot b <-> piv
        k = row[piv]
        theta = Fraction(want - val[b]) / k
        if theta.denominator == 1:
            theta = theta.numerator
        val[b] = want
        val[piv] = val[piv] + theta
        for v in T:
            if v != b:
                kk = T[v].get(piv)
                if kk:
                    val[v] = val[v] + kk * theta
        new = {}
        for x, m in row.items():
            if x != piv:
                q = Fraction(-m) / k
                new[x] = q.numerator if q.denominator == 1 else q
        q = Fraction(1) / k
        new[b] = q.numerator if q.denominator == 1 else q
        del T[b]
        for v in T:
            r2 = T[v]
            kk = r2.pop(piv, 0)
            if kk:
                for x, m in new.items():
                    q = r2.get(x, 0) + kk * m
                    if q:
                        r2[x] = q.numerator if isinstance(q, Fraction) and q.denominator == 1 else q
                    else:
                        r2.pop(x, None)
        T[piv] = new
    return {}


# ---------------------------------------------------------------- witness points
EVAL = {}


def base_atoms(l, out, facts):
    for a, _ in l.t:
        D = ATOMS[a].d
        if D is None or D[0] not in ("fd", "mul") and D[0] not in EVAL:
            out[a] = 1
        else:
            for x in D[1:]:
                if isinstance(x, Lin):
                    base_atoms(facts.norm(x), out, facts)


class Model:
    """A full assignment built from values of some atoms: solved atoms by their equations, derived atoms by their
    definitions, the rest at a bound. `check` verifies every constraint of the facts and the coherence of all
    definitions, so that a model that passes is a point of the abstract state."""

    def __init__(self, facts, env):
        self.g = facts
        self.env = dict(env)
        self.busy = set()
        self.b = {}

    def ev(self, l):
        s = l.c
        for a, k in l.t:
            s += k * self.atom(a)
        return s

    def atom(self, a):
        v = self.env.get(a)
        if v is not None:
            return v
        if a in self.busy:
            raise KeyError(a)
        self.busy.add(a)
        s = self.g.sub.get(a)
        if s is not None:
            v = self.ev(s)
        else:
            v = self.defined(a)
            if v is None:
                lo, hi = self.g.ainterval(a)
                v = lo if lo >= 0 or hi <= lo else max(lo, min(0, hi))
        self.busy.discard(a)
        self.env[a] = v
        return v

    def defined(self, a):
        D = ATOMS[a].d
        if D is None:
            return None
        if D[0] == "fd":
            return self.ev(D[1]) // D[2]
        if D[0] == "mul":
            return self.ev(D[1]) * self.ev(D[2])
        if D[0] in EVAL:
            return EVAL[D[0]](*[self.ev(x) if isinstance(x, Lin) else x for x in D[1:]])
        return None

    def key(self, key):
        return tuple(self.ev(x) if isinstance(x, Lin) and key[0] != "any" else x for x in key)

    def holds(self, f):
        if f is True or f is False:
            return f
        k = f[0]
        if k == "and":
            return self.holds(f[1]) and self.holds(f[2])
        if k == "or":
            return self.holds(f[1]) or self.holds(f[2])
        if k == "b":
            return self.lit(f[1], f[2])
        v = self.ev(f[1])
        return v <= 0 if k == "le" else v == 0 if k == "eq" else v != 0

    def lit(self, key, v):
        key = self.key(key)
        if key[0] == "bit":
            return bool((key[1] >> key[2]) & 1) == v if key[2] >= 0 else False
        return self.b.setdefault(key, v) == v

    def check(self, f):
        g = self.g
        try:
            for a in g.sub:
                self.atom(a)
            for key, v in g.bools.items():
                if not self.lit(key, v):
                    return False
            for t, c in g.les.items():
                if self.ev(Lin(c, t)) > 0:
                    return False
            for n in g.nes:
                if self.ev(n) == 0:
                    return False
            for o in g.ors:
                if not self.holds(o):
                    return False
            n = g.log
            while n is not None:
                if not self.holds(n[1]):
                    return False
                n = n[0]
            if not self.holds(f):
                return False
            reads = {}
            for a in list(self.env):
                v = self.env[a]
                A = ATOMS[a]
                lo, hi = g.ainterval(a)
                if not (max(lo, A.lo) <= v <= min(hi, A.hi)):
                    return False
                if A.d is None:
                    continue
                d = self.defined(a)
                if d is not None:
                    if d != v:
                        return False
                elif A.d[0] == "uf":
                    reads.setdefault(A.d[1], []).append((self.ev(A.d[2]), ((A.hi - A.lo).bit_length() + 7) // 8, A.d[3], v))
                else:
                    k = (A.d[0],) + tuple(self.ev(x) if isinstance(x, Lin) else x for x in A.d[1:])
                    if reads.setdefault(k, v) != v:
                        return False
            for key in self.b:
                if key[0] == "uf":
                    reads.setdefault(key[1], []).append((key[2], 1, "bool", self.b[key]))
            for rs in reads.values():
                if isinstance(rs, list):
                    for i, p in enumerate(rs):
                        for q in rs[:i]:
                            if p[0] < q[0] + q[1] and q[0] < p[0] + p[1] and p != q:
                                return False
        except (KeyError, RecursionError):
            return False
        return True


def point(facts, f, budget=3000):
    """An integer point of the abstract state that also satisfies f, or None if none was found."""
    g = facts.assume(f)
    if g is None:
        return None
    les = [Lin(c, t) for t, c in g.les.items()]
    nes = [g.norm(x) for x in g.nes]
    ors = list(g.ors)
    fl = [g.norm(x) for x in flins(f)]
    atoms = {}
    for l in les + nes + fl:
        base_atoms(l, atoms, g)
    for o in ors:
        for l in flins(o):
            base_atoms(g.norm(l), atoms, g)
    for sl in g.sub.values():
        base_atoms(g.norm(sl), atoms, g)
    for key in g.bools:
        for x in key:
            if isinstance(x, Lin) and key[0] != "any":
                base_atoms(g.norm(x), atoms, g)
    order = sorted(atoms)
    # derived-atom bound facts
    cons = list(les)
    ders = set()

    def dcons(l):
        for a, _ in l.t:
            D = ATOMS[a].d
            if D is not None and a not in ders:
                ders.add(a)
                lo, hi = g.ainterval(a)
                one = Lin(0, ((a, 1),))
                cons.append(Lin(lo) - one)
                cons.append(one - Lin(hi))
                if D[0] == "fd":
                    arg = g.norm(D[1])
                    cons.append(one * D[2] - arg)
                    cons.append(arg - one * D[2] - (D[2] - 1))
                for x in D[1:]:
                    if isinstance(x, Lin):
                        dcons(g.norm(x))
    for l in les + nes + fl:
        dcons(l)
    # solved atoms must stay within their bounds
    for a, s in g.sub.items():
        l = g.norm(s)
        A = ATOMS[a]
        dcons(l)
        cons.append(l - Lin(A.hi))
        cons.append(Lin(A.lo) - l)
        if A.d is not None and A.d[0] == "fd":
            arg = g.norm(A.d[1])
            dcons(arg)
            cons.append(l * A.d[2] - arg)
            cons.append(arg - l * A.d[2] - (A.d[2] - 1))
    n = [0]
    dom = {a: g.ainterval(a) for a in list(atoms) + list(ders)}

    def propagate(dom):
        for _ in range(6):
            ch = False
            for l in cons:
                s = l.c
                ok = True
                for a, k in l.t:
                    d = dom.get(a)
                    if d is None:
                        d = g.ainterval(a)
                    s += k * (d[0] if k > 0 else d[1])
                if s > 0:
                    return False
                for a, k in l.t:
                    d = dom.get(a)
                    if d is None:
                        continue
                    rest = s - k * (d[0] if k > 0 else d[1])
                    if k > 0:
                        y = (-rest) // k
                        if y < d[1]:
                            if y < d[0]:
                                return False
                            dom[a] = (d[0], y)
                            ch = True
                    else:
                        x = _ceil(rest, -k)
                        if x > d[0]:
                            if x > d[1]:
                                return False
                            dom[a] = (x, d[1])
                            ch = True
            if not ch:
                break
        return True

    def search(dom):
        n[0] += 1
        if n[0] > budget:
            return None
        if not propagate(dom):
            return None
        open_ = [a for a in order if dom[a][0] != dom[a][1]]
        if not open_:
            m = Model(g, {a: dom[a][0] for a in order})
            return m.env if m.check(f) else None
        a = min(open_, key=lambda a: (dom[a][1] - dom[a][0], a))
        lo, hi = dom[a]
        cand = []
        for v in (lo, lo + 1, lo + 2, lo + 3, lo + 5, lo + 8, (lo + hi) // 2, hi, hi - 1, lo + 7, lo + 16, hi - 8, lo + 33, 1 << 20, 64):
            if lo <= v <= hi and v not in cand:
                cand.append(v)
        for v in cand:
            d2 = dict(dom)
            d2[a] = (v, v)
            r = search(d2)
            if r is not None:
                return r
            if n[0] > budget:
                return None
        return None

    return search(dom)


def showpoint(env):
    return ", ".join("%s=%s" % (ATOMS[a].show(), num(v)) for a, v in sorted(env.items()) if ATOMS[a].d is None)
