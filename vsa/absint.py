"""Abstract interpreter for the dumped MIR: disjunctive (trace-partitioned) abstract states whose integers are
linear terms under a polyhedral conjunction of facts, and whose memory is a log of typed, filled, copied and
universally quantified cells per allocation. Loops that do not unroll to an end are replaced by an inductive
generalisation that is checked before it is used."""
import sys, time
from lin import *
from mem import *

sys.setrecursionlimit(20000)
MAXUNROLL = 5
MAXPATHS = 6000


class Frame:
    __slots__ = ("inst", "body", "loc", "bb", "si", "dest", "target", "uw", "site")

    def copy(self):
        f = Frame.__new__(Frame)
        for s in Frame.__slots__:
            setattr(f, s, getattr(self, s))
        return f


class State:
    __slots__ = ("frames", "mem", "facts", "ev", "ghost", "exact", "unwinding")

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts, s.ev, s.ghost, s.exact, s.unwinding = self.facts, self.ev, dict(self.ghost), self.exact, self.unwinding
        return s


class PathEnd(Exception):
    pass


class Fork(Exception):
    """Continue in each of the given states (already advanced)."""

    def __init__(self, states):
        self.states = states


class Obligations:
    def __init__(self):
        self.rows = {}      # (kind, site) -> [proved, violated text, undecided text, n]

    def add(self, kind, site, status, text=""):
        r = self.rows.setdefault((kind, site), [0, None, None])
        if status == "ok":
            r[0] += 1
        elif status == "bad":
            r[1] = r[1] or text
        else:
            r[2] = r[2] or text


class Interp:
    def __init__(self, dump, root, budget=600, opts=None):
        self.dump = dump
        r = dump["roots"][root]
        sc = dump["scopes"][str(r["scope"])]
        self.root = root
        self.rootinst = r["inst"]
        self.T = Types(sc["types"])
        self.insts = sc["insts"]
        self.ob = Obligations()
        self.quiet = 0
        self.deadline = time.time() + budget
        self.nobj = 0
        self.steps = 0
        self.paths = 0
        self.und = []
        self.fns = set()
        self.opts = opts or {}
        self._glue = {}
        self._loops = {}
        self.unsz = {}
        self.reached = {}
        self.loops_done = {}
        import natives
        self.natives = natives

    # ------------------------------------------------------------ running
    def run(self):
        reset()
        st = State()
        st.frames, st.mem, st.facts, st.ev, st.ghost, st.exact, st.unwinding = [], {}, Facts(), (), {}, True, 0
        self.push(st, self.rootinst, [], None, None, "continue", "root")
        for kind, s in self.explore(st, 0, None, None):
            self.paths += 1
        return self.ob

    def newid(self, hint="o"):
        self.nobj += 1
        return "%s%d" % (hint, self.nobj)

    def body(self, inst):
        b = self.insts.get(inst) or self._glue.get(inst)
        if b is None or "error" in b:
            raise Unsupported("no body for " + inst)
        return b

    def push(self, st, inst, args, dest, target, uw, site):
        b = self.body(inst)
        if len(st.frames) > 120:
            raise Unsupported("call depth")
        self.fns.add(b["path"])
        f = Frame()
        f.inst, f.body, f.bb, f.si, f.dest, f.target, f.uw, f.site = inst, b, 0, 0, dest, target, uw, site
        f.loc = []
        n = b["args"]
        if len(args) != n:
            raise Unsupported("arity of %s: %d for %d" % (inst, len(args), n))
        for i, ty in enumerate(b["locals"]):
            o = self.newid("l")
            v = args[i - 1] if 1 <= i <= n else UNINIT
            st.mem[o] = Obj("tree", ty, v)
            f.loc.append(o)
        st.frames.append(f)

    def pop(self, st):
        f = st.frames.pop()
        for o in f.loc:
            st.mem.pop(o, None)
        return f

    def explore(self, st, base, head, blocks):
        """Runs `st` until control leaves: returns [(kind, state)], kind in back/exit/out."""
        work = [st]
        out = []
        first = True
        while work:
            s = work.pop()
            if time.time() > self.deadline:
                raise Unsupported("time budget")
            while True:
                d = len(s.frames)
                if d <= base - 1 or not s.frames:
                    out.append(("out", s))
                    break
                f = s.frames[-1]
                if f.si == 0 and not first:
                    if head is not None and d == base:
                        if f.bb == head:
                            out.append(("back", s))
                            break
                        if f.bb not in blocks:
                            out.append(("exit", s))
                            break
                    lp = self.loops_of(f.inst)
                    if f.bb in lp and not (head is not None and d == base and f.bb == head):
                        work.extend(self.loop(s, f.bb, lp[f.bb]))
                        break
                elif first and f.si == 0 and head is None:
                    pass
                first = False
                try:
                    nxt = self.step(s)
                except Split as e:
                    work.extend(self.split(s, e.f))
                    break
                except Fork as e:
                    work.extend(e.states)
                    break
                except PathEnd:
                    break
                except Violation as e:
                    self.violate(s, e.kind, e.text)
                    break
                except Unsupported as e:
                    self.undecided(s, "unsupported", str(e))
                    break
                s = nxt
            if len(work) + len(out) > MAXPATHS:
                raise Unsupported("too many partitions")
        return out

    def split(self, s, f):
        r = []
        while f[0] in ("and", "or"):
            # one undecided literal at a time
            f = f[1] if s.facts.decide(f[1]) is None else f[2]
            if f is True or f is False:
                return [s]
        for g in (f, neg(f)):
            n = s.facts.assume(g)
            if n is not None:
                t = s.clone()
                t.facts = n
                r.append(t)
        if len(r) == 2:
            # expensive emptiness check only when both sides survive the cheap ones
            r = [t for t in r if t.facts.feasible()]
        return r

    # ------------------------------------------------------------ obligations
    def site(self, st):
        """The innermost function of the analysed library on the stack, and the call chain."""
        best = None
        for f in reversed(st.frames):
            p = f.body["path"]
            if "varlen::" in p and "probe::" not in p and not p.startswith("core::"):
                best = p
                break
        return best or (st.frames[-1].body["path"] if st.frames else self.root)

    def own(self, f):
        """Is this frame's function one of the analysed library's?"""
        p = f.body["path"]
        return "varlen::" in p and not p.startswith(("w_", "core::", "alloc::", "std::"))

    def chain(self, st):
        r = []
        for f in st.frames:
            t = f.body["blocks"][f.bb]["t"]
            sp = t[-1] if t[0] in ("call", "drop", "assert") else ""
            r.append("%s (%s)" % (f.body["path"], sp))
        return " -> ".join(r)

    def oblige(self, st, f, kind, text):
        """f must hold in st. On return it may be assumed."""
        site = self.site(st)
        r = st.facts.decide(f)
        if r is True:
            if not self.quiet:
                self.ob.add(kind, site, "ok")
            return
        if self.quiet:
            n = st.facts.assume(f, True)
            if n is None:
                raise PathEnd()
            st.facts = n
            return
        if r is None and f[0] in ("and", "or", "eq", "ne") and not self.opts.get("nosplit"):
            # partition first, it may be decidable per part
            k = ("oblige", id(st.facts), f)
            g = f[1] if f[0] in ("and", "or") else le(f[1])
            if st.facts.decide(g) is None:
                raise Split(g)
        if r is None and st.facts.refutes(neg(f)):
            self.ob.add(kind, site, "ok")
            return
        if r is False and not st.facts.feasible(60):
            raise PathEnd()
        env = None
        if st.exact:
            env = point(st.facts, neg(f))
        if env is not None:
            self.ob.add(kind, site, "bad", "%s\n  at %s\n  abstract state contains: %s\n  refuted: %s" % (text, self.chain(st), showpoint(env), showf(st.facts, f)))
        else:
            self.ob.add(kind, site, "und", "%s at %s: %s%s" % (text, self.chain(st), showf(st.facts, f), "" if st.exact else " (imprecise state)"))
        if r is False:
            raise PathEnd()
        n = st.facts.assume(f, True)
        if n is None:
            raise PathEnd()
        st.facts = n

    def violate(self, st, kind, text):
        if self.quiet:
            return
        if st.exact and point(st.facts, True) is not None:
            self.ob.add(kind, self.site(st), "bad", "%s\n  at %s\n  abstract state contains: %s" % (text, self.chain(st), showpoint(point(st.facts, True))))
        else:
            self.undecided(st, kind, text)

    def undecided(self, st, kind, text):
        if not self.quiet and st.facts.feasible(60):
            self.ob.add(kind, self.site(st), "und", "%s at %s" % (text, self.chain(st)))

    def decide(self, st, f):
        """Python bool for formula f in st, or partition."""
        if f is True or f is False:
            return f
        if f is TOP:
            raise Unsupported("a decision on an unknown value")
        elif f is UNINIT:
            raise Violation("uninit", "a branch depends on an uninitialized value")
        r = st.facts.decide(f)
        if r is None:
            raise Split(f)
        if f[0] == ("eq" if r else "ne"):
            # an equality that follows is worth solving for
            g = f if r else neg(f)
            if g is not True and not st.facts.norm(g[1]).isconst:
                st.facts = st.facts.assume(g)
                if st.facts is None:
                    raise PathEnd()
        return r

    # ------------------------------------------------------------ loops
    def loops_of(self, inst):
        r = self._loops.get(inst)
        if r is None:
            r = self._loops[inst] = natural_loops(self.body(inst)["blocks"])
        return r

    def loop(self, st, head, blocks):
        import loops
        return loops.analyse(self, st, head, blocks)

    # ------------------------------------------------------------ stepping
    def step(self, st):
        f = st.frames[-1]
        blk = f.body["blocks"][f.bb]
        ss = blk["s"]
        while f.si < len(ss):
            self.steps += 1
            self.stmt(st, f, ss[f.si])
            f.si += 1
        self.steps += 1
        t = blk["t"]
        if t[0] == "goto":
            f.bb, f.si = t[1], 0
            return st
        if t[0] in ("call", "return", "drop"):
            snap = st.clone()
            try:
                return self.term(st, f, t)
            except Split as e:
                raise Fork(self.split(snap, e.f))
        return self.term(st, f, t)

    def goto(self, f, bb):
        f.bb, f.si = bb, 0

    def stmt(self, st, f, s):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, f, s[2], s[1][2])
            p, ty = self.place(st, f, s[1])
            self.store(st, p, ty, v)
        elif k == "dead":
            o = f.loc[s[1]]
            st.mem[o] = Obj("tree", f.body["locals"][s[1]], UNINIT)
        elif k == "sd":
            p, ty = self.place(st, f, s[1])
            v = self.load(st, p, ty)
            fs = self.T.fields(ty, s[2])
            if isinstance(v, Agg) and len(v.fs) == len(fs):
                self.store(st, p, ty, Agg(v.fs, s[2]))
            else:
                self.store(st, p, ty, Agg([UNINIT] * len(fs), s[2]))
        elif k == "assume":
            c = self.operand(st, f, s[1])
            self.oblige(st, c if c is not TOP else True, "ub", "a condition the compiler may assume is false")
        elif k == "cno":
            a, b, n = (self.operand(st, f, x) for x in s[1:4])
            self.copy(st, a, b, n, self.T[s[4]]["to"], True)
        else:
            raise Unsupported("statement " + k)

    def term(self, st, f, t):
        k = t[0]
        if k == "goto":
            self.goto(f, t[1])
            return st
        if k == "return":
            v = st.mem[f.loc[0]]
            v = self.load(st, Ptr(f.loc[0]), f.body["locals"][0])
            g = self.pop(st)
            if not st.frames:
                return st
            c = st.frames[-1]
            if g.dest is not None:
                self.store(st, g.dest[0], g.dest[1], v)
            if g.target is None:
                raise PathEnd()
            self.goto(c, g.target)
            return st
        if k == "switch":
            v = self.operand(st, f, t[1])
            tk = self.T[t[4]]["k"]
            if tk == "bool" and v is not TOP:
                b = self.decide(st, v)
                for x, bb in t[2]:
                    if bool(x) == b:
                        self.goto(f, bb)
                        return st
                self.goto(f, t[3])
                return st
            if v is UNINIT:
                raise Violation("uninit", "a branch depends on an uninitialized value")
            if v is TOP:
                st.exact = False
                r = []
                for bb in [x[1] for x in t[2]] + [t[3]]:
                    s = st.clone()
                    self.goto(s.frames[-1], bb)
                    r.append(s)
                raise Fork(r)
            if isinstance(v, Ptr):
                v = self.addr(st, v)
            lo, hi = (0, 0) if tk not in ("int", "char") else self.T.irange(t[4])
            for x, bb in t[2]:
                if lo < 0 and x > hi:
                    x -= hi - lo + 1
                if self.decide(st, eq(v, x)):
                    self.goto(f, bb)
                    return st
            self.goto(f, t[3])
            return st
        if k == "call":
            return self.call(st, f, t)
        if k == "drop":
            return self.drop(st, f, t)
        if k == "assert":
            c = self.operand(st, f, t[1])
            c = c if t[2] else neg(c) if c is not TOP else TOP
            if self.decide(st, c):
                self.goto(f, t[3])
                return st
            return self.panic_here(st, t[4], "assertion")
        if k == "resume":
            return self.unwind_out(st)
        if k == "unreachable":
            self.violate(st, "ub", "control reaches code declared unreachable")
            raise PathEnd()
        if k == "abort":
            self.aborts(st)
        raise Unsupported("terminator %s %s" % (k, t[1:2]))

    # ------------------------------------------------------------ unwinding
    def panic_here(self, st, uw, why):
        """The terminator of the top frame panics; uw is its unwind action."""
        st.ghost["panic"] = (why, self.chain(st))
        f = st.frames[-1]
        if f.body["blocks"][f.bb].get("c"):
            self.aborts(st)
        return self.unwind(st, uw)

    def unwind(self, st, uw):
        f = st.frames[-1]
        if isinstance(uw, int):
            self.goto(f, uw)
            return st
        if uw == "continue":
            return self.unwind_out(st)
        if uw == "unreachable":
            self.violate(st, "ub", "unwinding out of code declared not to unwind")
            raise PathEnd()
        self.aborts(st)

    def aborts(self, st):
        """A panic while unwinding: the process ends here."""
        if any(f.body["path"].endswith("probe::catch_once") for f in st.frames):
            self.violate(st, "abort", "a second panic while the first unwinds ends the process")
        raise PathEnd()

    def unwind_out(self, st):
        g = self.pop(st)
        if g.body["path"].endswith(("probe::catch", "probe::catch_once")):
            c = st.frames[-1]
            self.store(st, g.dest[0], g.dest[1], True)
            self.goto(c, g.target)
            return st
        if not st.frames:
            self.leaves(st)
            return st
        return self.unwind(st, g.uw)

    def leaves(self, st):
        """A panic leaves the client."""
        why, chain = st.ghost.get("panic") or ("panic", "?")
        if st.exact and point(st.facts, True) is not None:
            self.ob.add("panics", self.root, "bad", "%s\n  at %s\n  abstract state contains: %s" % (why, chain, showpoint(point(st.facts, True))))
        elif st.facts.feasible(60):
            self.ob.add("panics", self.root, "und", "%s at %s" % (why, chain))

    # ------------------------------------------------------------ places and operands
    def optype(self, f, o):
        if o[0] in ("cp", "mv"):
            return o[1][2]
        if o[0] == "k":
            return o[1]["ty"]
        return "bool"

    def place(self, st, f, p):
        """(Ptr, type); the Ptr's meta is kept when the place is unsized."""
        cur = Ptr(f.loc[p[0]])
        ty = f.body["locals"][p[0]]
        for e in p[1]:
            k = e[0]
            if k == "*":
                v = self.load(st, cur, ty)
                v = self.unwrap_ptr(st, v, ty)
                cur, ty = v, e[1]
            elif k == "f":
                if not self.T[e[3]]["sized"] and self.T[e[3]]["k"] == "adt":
                    cur, ty = self.unsized_field(st, cur, e)
                    continue
                cur = Ptr(cur.obj, cur.off, cur.path + (("f", e[1], e[3]),))
                ty = e[2]
            elif k == "d":
                cur = Ptr(cur.obj, cur.off, cur.path + (("d", e[1], ty),))
            elif k == "i" or k == "c":
                if k == "i":
                    i = self.load(st, Ptr(f.loc[e[1]]), "usize")
                    ety = e[2]
                else:
                    ety = e[3]
                    if self.T[ty]["k"] == "array":
                        i = L(self.T[ty]["len"] - e[1] if e[2] else e[1])
                    else:
                        i = cur.meta - e[1] if e[2] else L(e[1])
                if self.T[ty]["k"] == "array":
                    cur = Ptr(cur.obj, cur.off, cur.path + (("i", i, ety),))
                else:
                    cur = self.padd(st, Ptr(cur.obj, cur.off, cur.path), i, ety)
                ty = ety
            elif k == "ss":
                frm, to, fe, rty = e[1:5]
                if self.T[ty]["k"] == "array":
                    raise Unsupported("array subslice")
                n = cur.meta - frm - to if fe else L(to - frm)
                q = self.padd(st, Ptr(cur.obj, cur.off, cur.path), L(frm), self.T[ty]["elem"])
                cur, ty = Ptr(q.obj, q.off, q.path, n), rty
            elif k == "o":
                ty = e[1]
            else:
                raise Unsupported("projection " + k)
        return cur, ty

    def unsized_field(self, st, cur, e):
        """Field of a struct with an unsized tail, seen as the sized struct it was made from."""
        T = self.T
        o = st.mem.get(cur.obj)
        at = None
        if o is not None and o.kind == "tree":
            n = self.nav(o, cur.path)
            if n is not None and n[1] is not None and T[n[1]].get("path") == T[e[3]]["path"]:
                at = n[1]
        at = at or self.unsz.get(e[3])
        if at is None:
            raise Unsupported("field of unsized " + e[3])
        q = cur.path + (("f", e[1], at),)
        if T[e[2]]["sized"]:
            return Ptr(cur.obj, cur.off, q), e[2]
        ft = T.fields(at)[e[1]]
        if T[ft]["k"] == "array" and T[e[2]]["k"] == "slice":
            q = q + (("i", ZERO, T[ft]["elem"]),)
        return Ptr(cur.obj, cur.off, q, cur.meta), e[2]

    def unwrap_ptr(self, st, v, ty):
        while True:
            if isinstance(v, Ptr):
                return v
            if v is TOP:
                raise Unsupported("unknown pointer")
            if v is UNINIT:
                raise Violation("uninit", "an uninitialized pointer is used")
            if isinstance(v, Lin):
                return self.int2ptr(st, v)
            if isinstance(v, Uni):
                v, ty = v.val, v.ty
                continue
            o = self.T.only(ty)
            if o is None:
                raise Unsupported("pointer of type " + ty)
            v, ty = v.fs[o[0]], o[1]

    def operand(self, st, f, o):
        k = o[0]
        if k in ("cp", "mv"):
            p = o[1]
            if not p[1]:
                ob = st.mem[f.loc[p[0]]]
                if ob.kind == "tree":
                    return ob.val
            c, ty = self.place(st, f, p)
            return self.load(st, c, ty)
        if k == "k":
            return self.const(st, o[1])
        if k == "rt":
            return False
        raise Unsupported("operand " + k)

    def const(self, st, c):
        k = c["k"]
        ty = c["ty"]
        if k == "int":
            t = self.T[ty]["k"]
            if t == "bool":
                return bool(c["v"])
            if t in ("int", "char"):
                return L(c["v"])
            if self.T.isptr(ty):
                return Ptr(None, L(c["v"]))
            # an integer-represented aggregate
            o = self.T.only(ty)
            if o is not None:
                v = self.const(st, {"k": "int", "v": c["v"], "ty": o[1]})
                return Agg([v if i == o[0] else self.T.zstval(x) for i, x in enumerate(self.T.fields(ty))])
            if self.T.is_enum(ty):
                vs = self.T[ty]["variants"]
                if all(self.T.zst(y) for i in range(len(vs)) for y in self.T.fields(ty, i)):
                    for i, x in enumerate(vs):
                        if x["discr"] == c["v"]:
                            return Agg([self.T.zstval(y) for y in self.T.fields(ty, i)], i)
                for i, x in enumerate(vs):
                    if not x["fields"] and x["discr"] == c["v"]:
                        return Agg((), i)
                o = self.T.oneniche(ty)
                if o and c["v"] == 0 and self.T.nonzero(o[1]):
                    return Agg([self.T.zstval(y) for y in self.T.fields(ty, 1 - o[0])], 1 - o[0])
            return TOP
        if k in ("zst", "fn"):
            return self.T.zstval(ty)
        if k == "str":
            key = ("str", c.get("v", ""))
            n = c.get("len", len(c.get("v", "")))
            oid = "s:%s" % c.get("v", "")[:20] + str(n)
            if oid not in st.mem:
                st.mem[oid] = Obj("raw", size=L(n), align=1, base=("bytes", c.get("v", "").encode()), name="str")
            return Ptr(oid, ZERO, (), L(n))
        if k == "body":
            return self.constbody(st, c["inst"], ty)
        if k == "indirect" and "fields" in c:
            return Agg([self.const(st, x) for x in c["fields"]], c.get("variant") if self.T.is_enum(ty) else None)
        return TOP

    def constbody(self, st, inst, ty):
        key = ("cb", inst)
        got = st.ghost.get(key)
        if got is not None:
            return got
        s = State()
        s.frames, s.mem, s.facts, s.ev, s.ghost, s.exact, s.unwinding = [], {k: v for k, v in st.mem.items() if k[0] in "sc"}, Facts(), (), {}, True, 0
        res = self.newid("c")
        s.mem[res] = Obj("tree", ty, UNINIT)
        # a dummy frame receives the value
        d = Frame()
        d.inst, d.body, d.loc, d.bb, d.si, d.dest, d.target, d.uw, d.site = inst, {"path": "const", "blocks": [{"s": [], "t": ["unreachable"]}], "locals": []}, [], 0, 0, None, None, "continue", ""
        s.frames.append(d)
        self.push(s, inst, [], (Ptr(res), ty), 0, "continue", "const")
        keep = {}
        fr = s.frames[-1]
        q = self.quiet
        self.quiet += 1
        try:
            outs = []
            work = [s]
            while work:
                x = work.pop()
                while len(x.frames) > 1:
                    f = x.frames[-1]
                    if f.body["blocks"][f.bb]["t"][0] == "return" and len(x.frames) == 2 and f.si >= 0:
                        # keep promoted locals alive: their addresses escape
                        ss = f.body["blocks"][f.bb]["s"]
                        while f.si < len(ss):
                            self.stmt(x, f, ss[f.si])
                            f.si += 1
                        v = self.load(x, Ptr(f.loc[0]), f.body["locals"][0])
                        ren = {}
                        for o in f.loc:
                            ren[o] = self.newid("c")
                        for o in list(x.mem):
                            if o in ren:
                                st.mem[ren[o]] = rename_obj(x.mem[o], ren)
                            elif o not in st.mem and o[0] in "cs":
                                st.mem[o] = x.mem[o]
                        v = rename_val(v, ren)
                        st.ghost[key] = v
                        return v
                    x = self.step(x)
                outs.append(x)
        except (Split, Fork, PathEnd, Violation):
            return TOP
        finally:
            self.quiet = q
        return TOP

    # ------------------------------------------------------------ pointers
    def fold(self, p):
        """Offset and residual path (starting at an enum downcast) of a pointer into a raw object."""
        off = p.off
        for n, e in enumerate(p.path):
            if e[0] == "f":
                o = self.T.offsets(e[2])
                if self.T.is_union(e[2]):
                    continue
                if o is None:
                    raise Unsupported("field offset of " + e[2])
                off = off + o[e[1]]
            elif e[0] == "i":
                off = off + e[1] * self.T.size(e[2])
            else:
                return off, p.path[n:]
        return off, ()

    def placealign(self, p, ty):
        """Alignment an access to a place needs: a field of a packed struct needs no more than the struct's."""
        return min([self.T.align(ty)] + [self.T.align(e[2]) for e in p.path if e[0] == "f"])

    def promote(self, st, oid):
        o = st.mem[oid]
        if o.kind == "raw":
            return o
        T = self.T
        n = Obj("raw", size=L(T.size(o.ty)), align=T.align(o.ty), cells=() if o.val is UNINIT else (("v", ZERO, T.size(o.ty), o.ty, o.val),), name=o.name or o.ty)
        st.mem[oid] = n
        return n

    def rawptr(self, st, p):
        """p with an empty path (its object becomes raw)."""
        if p.obj is None or not p.path and st.mem.get(p.obj) is not None and st.mem[p.obj].kind == "raw":
            return p
        if p.obj not in st.mem:
            return Ptr(p.obj, p.off, (), p.meta)
        self.promote(st, p.obj)
        off, res = self.fold(p)
        if res:
            raise Unsupported("byte address inside an enum")
        return Ptr(p.obj, off, (), p.meta)

    def padd(self, st, p, n, ety):
        if n is TOP:
            raise Unsupported("address of an unknown element")
        n = L(n)
        if p.obj is None:
            return Ptr(None, p.off + n * self.T.size(ety), (), p.meta)
        if n.isconst and n.c == 0:
            return p
        sz = 1 if ety == "u8" and "u8" not in self.T.t else self.T.size(ety)
        if sz == 0:
            return p
        o = st.mem.get(p.obj)
        if o is not None and o.kind == "tree" and p.path and p.path[-1][0] == "i" and self.T.size(p.path[-1][2]) == sz:
            e = p.path[-1]
            return Ptr(p.obj, p.off, p.path[:-1] + (("i", e[1] + n, e[2]),), p.meta)
        p = self.rawptr(st, p)
        return Ptr(p.obj, p.off + n * sz, (), p.meta)

    def base_addr(self, st, oid):
        o = st.mem.get(oid)
        al = 1
        if o is not None:
            al = o.align if o.kind == "raw" else self.T.align(o.ty)
        a = derived(("addr", oid), max(1, 4096 // al), (1 << 63) // al)
        if ("addr", oid) not in st.ghost:
            st.ghost[("addr", oid)] = al
            if o is not None:
                sz = o.size if o.kind == "raw" else L(self.T.size(o.ty))
                n = st.facts.assume(le(a * al + sz, (1 << 63) - 1))
                if n is not None:
                    st.facts = n
        return a * st.ghost[("addr", oid)]

    def addr(self, st, p):
        if p.obj is None:
            return p.off
        p = self.rawptr(st, p)
        return self.base_addr(st, p.obj) + p.off

    def int2ptr(self, st, l):
        l = st.facts.norm(l)
        for a, k in l.t:
            D = ATOMS[a].d
            if D is not None and D[0] == "addr" and k == st.ghost.get(("addr", D[1])):
                rest = l - Lin(0, ((a, k),))
                if not any(ATOMS[b].d is not None and ATOMS[b].d[0] == "addr" for b, _ in rest.t):
                    return Ptr(D[1], rest)
        return Ptr(None, l)

    def separate(self, st, l):
        """Partitions on the order of two different allocations whose addresses meet in one term."""
        ids = []
        for a, k in l.t:
            D = ATOMS[a].d
            if D is not None and D[0] == "addr":
                ids.append(D[1])
        for i in range(len(ids)):
            for j in range(i + 1, len(ids)):
                x, y = sorted((ids[i], ids[j]))
                if ("sep", x, y) in st.ghost:
                    continue
                ox, oy = st.mem.get(x), st.mem.get(y)
                if ox is None or oy is None:
                    continue
                ax, ay = self.base_addr(st, x), self.base_addr(st, y)
                sx = ox.size if ox.kind == "raw" else L(self.T.size(ox.ty))
                sy = oy.size if oy.kind == "raw" else L(self.T.size(oy.ty))
                f, g = le(ax + sx, ay), le(ay + sy, ax)
                r = st.facts.decide(f)
                if r is None:
                    raise Split(f)
                if r is False:
                    n = st.facts.assume(g)
                    if n is None:
                        raise PathEnd()
                    st.facts = n
                st.ghost[("sep", x, y)] = ZERO

    # ------------------------------------------------------------ tree access
    def nav(self, o, path):
        """(value, type) of a node in a tree object, or None when the path cannot be followed."""
        v, ty = o.val, o.ty
        T = self.T
        for e in path:
            if e[0] == "d":
                continue
            if isinstance(v, Uni):
                if e[0] == "f" and T.is_union(ty):
                    want = T.fields(ty)[e[1]]
                    v = self.T.coerce(v.val, v.ty, want)
                    ty = want
                    continue
                v = T.coerce(v.val, v.ty, e[2])
            if e[0] == "f":
                if T.is_union(ty):
                    want = T.fields(ty)[e[1]]
                    v, ty = v, want      # uninit or top
                    continue
                if ty != e[2]:
                    if v is not UNINIT and v is not TOP:
                        v = T.coerce(v, ty, e[2])
                    ty = e[2]
                var = v.var if isinstance(v, Agg) else None
                prev = path[path.index(e) - 1] if e in path and path.index(e) else None
                fs = T.fields(ty, self.dvar(path, e, var))
                ty = fs[e[1]] if e[1] < len(fs) else None
                if ty is None:
                    return None
                if v is UNINIT or v is TOP:
                    continue
                if not isinstance(v, Agg) or e[1] >= len(v.fs):
                    return None
                v = v.fs[e[1]]
            else:
                i = e[1]
                if not i.isconst:
                    return None
                d = T[ty]
                if d["k"] != "array":
                    # pointer obtained from a differently wrapped array
                    return None
                ty = d["elem"]
                if i.c < 0 or i.c >= d["len"]:
                    return None
                if v is UNINIT or v is TOP:
                    continue
                v = v.fs[i.c]
        return v, ty

    def dvar(self, path, e, var):
        for a, b in zip(path, path[1:]):
            if b is e and a[0] == "d":
                return a[1]
        return var or 0

    def setat(self, v, ty, path, new, newty):
        T = self.T
        if not path:
            return T.coerce(new, newty, ty)
        e = path[0]
        var = None
        if e[0] == "d":
            var = e[1]
            path = path[1:]
            if not path:
                return new
            e = path[0]
        if e[0] == "f":
            if T.is_union(ty):
                want = T.fields(ty)[e[1]]
                old = UNINIT
                if isinstance(v, Uni):
                    old = T.coerce(v.val, v.ty, want)
                return Uni(want, self.setat(old, want, path[1:], new, newty))
            if ty != e[2]:
                w = v if v in (UNINIT, TOP) else T.coerce(v, ty, e[2])
                if w is TOP and v is not TOP:
                    raise Unsupported("store through " + e[2] + " into " + ty)
                return T.coerce(self.setat(w, e[2], ((("d", var, e[2]),) if var is not None else ()) + path, new, newty), e[2], ty)
            if var is None and isinstance(v, Agg):
                var = v.var
            fs = T.fields(ty, var or 0)
            old = list(v.fs) if isinstance(v, Agg) and len(v.fs) == len(fs) and (v.var == var) else [UNINIT if v is not TOP else TOP] * len(fs)
            for i, x in enumerate(fs):
                if old[i] is UNINIT and T.zst(x):
                    old[i] = T.zstval(x)
            old[e[1]] = self.setat(old[e[1]], fs[e[1]], path[1:], new, newty)
            return Agg(old, (var or 0) if T.is_enum(ty) else None)
        n = T[ty]["len"]
        i = e[1].c
        if not 0 <= i < n:
            raise Violation("oob", "index %d of an array of %d" % (i, n))
        old = list(v.fs) if isinstance(v, Agg) else [v] * n
        old[i] = self.setat(old[i], T.elem(ty), path[1:], new, newty)
        return Agg(old)

    def retarget(self, o, path, ty):
        """A path whose node has the size of `ty`, at the same address, or None."""
        T = self.T
        if T[ty].get("layout") is None:
            return None
        want = T.size(ty)
        n = self.nav(o, path)
        if n is None:
            return None
        for _ in range(12):
            nty = n[1]
            s = T.size(nty)
            if s == want:
                return path, nty
            if s > want:
                d = T[nty]
                if d["k"] == "array":
                    path = path + (("i", ZERO, d["elem"]),)
                elif T.is_struct(nty):
                    offs = T.offsets(nty)
                    fs = T.fields(nty)
                    c = [i for i, x in enumerate(fs) if offs[i] == 0 and not T.zst(x)]
                    if not c:
                        return None
                    path = path + (("f", c[0], nty),)
                elif T.is_union(nty):
                    c = [i for i, x in enumerate(T.fields(nty)) if not T.zst(x)]
                    if len(c) != 1:
                        return None
                    path = path + (("f", c[0], nty),)
                else:
                    return None
            else:
                if not path:
                    return None
                e = path[-1]
                if e[0] == "i":
                    if e[1] != ZERO:
                        return None
                elif e[0] == "f":
                    if T.is_struct(e[2]) and T.offsets(e[2])[e[1]] != 0 or T.is_enum(e[2]):
                        return None
                else:
                    return None
                path = path[:-1]
            n = self.nav(o, path)
            if n is None:
                return None
        return None

    # ------------------------------------------------------------ load / store
    def getobj(self, st, p, what):
        o = st.mem.get(p.obj)
        if o is None:
            raise Violation("dangling", "%s of a local that no longer exists" % what)
        if not o.live:
            raise Violation("uaf", "%s of freed memory (%s)" % (what, o.name))
        if what == "write" and st.ghost.get("shared"):
            self.oblige(st, p.obj not in st.ghost["shared"], "const", "write to %s, which is only shared here" % (o.name or "an object"))
        return o

    def load(self, st, p, ty):
        T = self.T
        d = T[ty]
        if d.get("layout") is not None and d["layout"]["size"] == 0:
            return T.zstval(ty)
        if p.obj is None:
            raise Violation("null", "read through an address that is no allocation (%r)" % (p.off,))
        o = self.getobj(st, p, "read")
        if o.kind == "tree":
            if not p.path and o.ty == ty:
                return o.val
            n = self.nav(o, p.path)
            if n is not None and n[1] == ty:
                v = n[0]
                return v.val if isinstance(v, Uni) and not T.is_union(ty) and v.ty == ty else v
            r = self.retarget(o, p.path, ty)
            if r is not None:
                v, nty = self.nav(o, r[0])
                w = T.coerce(v, nty, ty)
                if w is not TOP or v is TOP:
                    return self.fixpun(st, w, nty, ty)
            p = self.rawptr(st, p)
            o = st.mem[p.obj]
        off, res = self.fold(p)
        if res:
            ety = res[0][2]
            self.access(st, o, off, L(T.size(ety)), self.placealign(p, ety), "read")
            v = self.rawread(st, o, off, ety)
            n = self.nav(Obj("tree", ety, v), res)
            if n is None:
                return TOP
            return T.coerce(n[0], n[1], ty) if n[1] != ty else n[0]
        self.access(st, o, off, L(T.size(ty)), self.placealign(p, ty), "read")
        return self.rawread(st, o, off, ty)

    def fixpun(self, st, v, a, b):
        T = self.T
        if isinstance(v, Ptr) and T[b]["k"] == "int":
            return self.addr(st, v)
        if isinstance(v, Lin) and T.isptr(b):
            return self.int2ptr(st, v)
        return v

    def store(self, st, p, ty, v):
        T = self.T
        d = T[ty]
        if d.get("layout") is not None and d["layout"]["size"] == 0:
            return
        if p.obj is None:
            raise Violation("null", "write through an address that is no allocation (%r)" % (p.off,))
        o = self.getobj(st, p, "write")
        if o.kind == "tree":
            if not p.path and o.ty == ty:
                st.mem[p.obj] = o.with_(val=v)
                return
            if all(e[0] != "i" or e[1].isconst for e in p.path):
                n = self.nav(o, p.path)
                if n is not None and n[1] == ty:
                    st.mem[p.obj] = o.with_(val=self.setat(o.val, o.ty, p.path, v, ty))
                    return
                r = self.retarget(o, p.path, ty)
                if r is not None and T.coerce(v, ty, r[1]) is not TOP:
                    st.mem[p.obj] = o.with_(val=self.setat(o.val, o.ty, r[0], T.coerce(v, ty, r[1]), r[1]))
                    return
                if n is not None and T.size(n[1]) == T.size(ty) and T.coerce(v, ty, n[1]) is TOP and v is not TOP:
                    pass
            p = self.rawptr(st, p)
            o = st.mem[p.obj]
        off, res = self.fold(p)
        if res:
            ety = res[0][2]
            self.access(st, o, off, L(T.size(ety)), self.placealign(p, ety), "write")
            o = st.mem[p.obj]
            old = self.rawread(st, o, off, ety)
            v, ty = self.setat(old, ety, res, v, ty), ety
        else:
            self.access(st, o, off, L(T.size(ty)), self.placealign(p, ty), "write")
        self.rawwrite(st, p.obj, ("v", off, T.size(ty), ty, v))

    def rawwrite(self, st, oid, cell):
        o = st.mem[oid]
        if o.base and o.base[0] == "ro":
            raise Violation("const", "write to a shared slice")
        cells = o.cells
        if cell[0] == "v":
            off, n = st.facts.norm(cell[1]), cell[2]
            cell = (cell[0], off) + cell[2:]
            cells = tuple(c for c in cells if not (c[0] == "v" and c[2] <= n and c[1] == off))
        st.mem[oid] = o.with_(cells=(cell,) + cells)

    def access(self, st, o, off, size, align, what):
        """Bounds and alignment of an access to a raw object."""
        if not (off.isconst and o.size.isconst and size.isconst and 0 <= off.c and off.c + size.c <= o.size.c):
            self.oblige(st, conj(le(0, off), le(off + size, o.size)), "oob", "%s outside %s of %r bytes: at %r, %r bytes" % (what, o.name or "an allocation", o.size, off, size))
        self.aligned(st, o, off, align, what)

    def aligned(self, st, o, off, align, what):
        if align == 1:
            return
        if o.align % align:
            self.oblige(st, False, "align", "%s needs alignment %d, %s guarantees %d" % (what, align, o.name or "the allocation", o.align))
        rem = off - fd(off, align) * align
        if rem.isconst and rem.c == 0:
            return
        rem = st.facts.norm(rem)
        n = st.facts.norm(off)
        rem = n - fd(n, align) * align
        self.oblige(st, eq(rem), "align", "%s at offset %r, which must be a multiple of %d" % (what, off, align))

    def rel(self, st, a, n, b, m):
        """Relation of [a,a+n) to [b,b+m): 'out' | ('in', delta) | 'part'; partitions when undecided."""
        F = st.facts
        d = F.norm(a - b)
        nn, mm = L(n), L(m)
        if d.isconst and nn.isconst and mm.isconst:
            if d.c + nn.c <= 0 or d.c >= mm.c:
                return "out"
            if d.c >= 0 and d.c + nn.c <= mm.c:
                return ("in", ZERO if nn == mm else d)
            return "part"
        lowout = le(d + nn, 0)
        hiout = le(mm, d)
        if F.decide(lowout) is True or F.decide(hiout) is True:
            return "out"
        if F.decide(le(0, d)) is True and F.decide(le(d + nn, mm)) is True:
            return ("in", ZERO if nn == mm else d)
        if nn == mm:
            r = F.decide(eq(d))
            if r is None:
                # equal places are the interesting case
                raise Split(eq(d))
        if F.decide(lowout) is None:
            raise Split(lowout)
        if F.decide(hiout) is None:
            raise Split(hiout)
        if F.decide(le(0, d)) is None:
            raise Split(le(0, d))
        if F.decide(le(d + nn, mm)) is None:
            raise Split(le(d + nn, mm))
        if F.decide(le(0, d)) and F.decide(le(d + nn, mm)):
            return ("in", ZERO if nn == mm else d)
        return "part"

    def rawread(self, st, o, off, ty, cells=None):
        T = self.T
        n = T.size(ty)
        if n == 0:
            return T.zstval(ty)
        off = st.facts.norm(off)
        cs = o.cells if cells is None else cells
        for ci, c in enumerate(cs):
            k = c[0]
            if k == "v":
                r = self.rel(st, off, n, c[1], c[2])
                if r == "out":
                    continue
                if r == "part":
                    return self.decompose(st, o, off, ty, cs[ci:])
                return self.extract(st, c[4], c[3], r[1], ty)
            if k == "all":
                v = self.readall(st, c, off, ty)
                if v is None:
                    continue
                if v == "part":
                    return self.decompose(st, o, off, ty, cs[ci:])
                return v[0]
            r = self.rel(st, off, n, c[1], c[2])
            if r == "out":
                continue
            if r == "part":
                return self.decompose(st, o, off, ty, cs[ci:])
            if k == "hav":
                return TOP
            if k == "fill":
                return self.fillval(c[3], ty)
            if k == "copy":
                return self.rawread(st, c[3], c[4] + r[1], ty)
        return self.baseread(st, o, off, ty)

    def decompose(self, st, o, off, ty, cells):
        T = self.T
        if T.is_struct(ty) or T[ty]["k"] == "array":
            fs = T.fields(ty)
            if T[ty]["k"] == "array":
                offs = [i * T.size(T.elem(ty)) for i in range(len(fs))]
            else:
                offs = T.offsets(ty)
            if len(fs) <= 64:
                return Agg([self.rawread(st, o, off + x, f, cells) for x, f in zip(offs, fs)])
        if T.is_union(ty):
            fs = [f for f in T.fields(ty) if T.size(f) == T.size(ty)]
            if fs:
                return Uni(fs[0], self.rawread(st, o, off, fs[0], cells))
        if T[ty]["k"] == "int":
            # an integer assembled from bytes that are all one fill, or unknown
            return TOP
        return TOP

    def fillval(self, b, ty):
        T = self.T
        k = T[ty]["k"]
        if isinstance(b, Lin) and b.isconst:
            if k == "int":
                w = T[ty]["bits"] // 8
                v = int.from_bytes(bytes([b.c % 256]) * w, "little", signed=T[ty]["signed"])
                return Lin(v)
            if k == "bool":
                return bool(b.c) if b.c in (0, 1) else TOP
            if T.isptr(ty):
                return Ptr(None, Lin(int.from_bytes(bytes([b.c % 256]) * 8, "little")))
        if k == "int" and T[ty]["bits"] == 8:
            return b
        if T.is_struct(ty) or k == "array":
            return Agg([self.fillval(b, f) for f in T.fields(ty)])
        if T.is_union(ty):
            f = [f for f in T.fields(ty) if T.size(f) == T.size(ty)][0]
            return Uni(f, self.fillval(b, f))
        return TOP

    def extract(self, st, v, vty, d, ty):
        """The part of value v (type vty) at byte delta d, read as ty."""
        T = self.T
        if v is TOP or v is UNINIT:
            return v
        if not d.isconst:
            k = T[vty]["k"]
            if isinstance(v, Uni):
                return self.extract(st, v.val, v.ty, d, ty)
            if k == "array":
                es = T.size(T.elem(vty))
                for i in range(T[vty]["len"]):
                    if self.decide(st, eq(d, i * es)):
                        return self.extract(st, v, vty, L(i * es), ty)
                return TOP
            o = T.only(vty)
            if o is not None:
                return self.extract(st, v.fs[o[0]], o[1], d, ty)
            lo, hi = st.facts.interval(st.facts.norm(d))
            if hi - lo <= 64:
                for i in range(lo, hi + 1):
                    if self.decide(st, eq(d, i)):
                        return self.extract(st, v, vty, L(i), ty)
            return TOP
        n = T.size(ty)
        if d.c == 0 and n == T.size(vty):
            w = T.coerce(v, vty, ty)
            if w is TOP and isinstance(v, Agg) and (T.is_struct(ty) or T[ty]["k"] == "array"):
                fs = T.fields(ty)
                offs = T.offsets(ty) if T.is_struct(ty) else [i * T.size(T.elem(ty)) for i in range(len(fs))]
                return Agg([self.extract(st, v, vty, L(o), f) if not T.zst(f) else T.zstval(f) for o, f in zip(offs, fs)])
            return self.fixpun(st, w, vty, ty)
        if isinstance(v, Uni):
            return self.extract(st, v.val, v.ty, d, ty)
        k = T[vty]["k"]
        if k == "array":
            es = T.size(T.elem(vty))
            i, r = divmod(d.c, es)
            if r + n <= es:
                return self.extract(st, v.fs[i], T.elem(vty), L(r), ty)
        elif T.is_struct(vty):
            for x, f, o in zip(v.fs, T.fields(vty), T.offsets(vty)):
                s = T.size(f)
                if s and o <= d.c and d.c + n <= o + s:
                    return self.extract(st, x, f, L(d.c - o), ty)
            # padding
            if all(not (o < d.c + n and d.c < o + T.size(f)) for f, o in zip(T.fields(vty), T.offsets(vty)) if T.size(f)):
                return UNINIT
        elif k == "int" and isinstance(v, Lin) and v.isconst and T[ty]["k"] == "int" and n == 1:
            return Lin((v.c >> (8 * d.c)) & 255)
        if T.is_struct(ty) or T[ty]["k"] == "array":
            fs = T.fields(ty)
            offs = T.offsets(ty) if T.is_struct(ty) else [i * T.size(T.elem(ty)) for i in range(len(fs))]
            return Agg([self.extract(st, v, vty, d + o, f) if not T.zst(f) else T.zstval(f) for o, f in zip(offs, fs)])
        return TOP

    def readall(self, st, c, off, ty):
        """Read from a group of per-iteration cells: (value,) | None (not covered) | 'part'."""
        _, j, K, cells = c
        T = self.T
        n = T.size(ty)
        if self.decide(st, le(K, 0)):
            return None
        for cell in cells:
            at = st.facts.norm(cell[1])
            ms = dict(at.t).get(j, 0)
            size = cell[2] if isinstance(cell[2], int) else cell[2].c if cell[2].isconst else None
            if ms == 0:
                # same place every iteration: the last one counts
                last = sub_cell(cell, j, K - 1, {})
                r = self.rel(st, off, n, last[1], last[2])
                if r == "out":
                    continue
                if r == "part":
                    return "part"
                return (self.cellval(st, last, r[1], ty),)
            if size is None or size > abs(ms):
                return (TOP,)
            rest = Lin(at.c, tuple(x for x in at.t if x[0] != j))
            d = st.facts.norm(off - rest)
            s = abs(ms)
            lo = ZERO if ms > 0 else (ONE - K) * s
            if n > size and (self.decide(st, le(d + n, lo)) or self.decide(st, le(lo + (K - 1) * s + size, d))):
                continue
            # index of the stride slot containing the start of the read
            q = fd(d if ms > 0 else -d + (s - 1), s)
            q = st.facts.norm(q)
            inside = conj(le(0, q), lt(q, K))
            if not self.decide(st, inside):
                # reads are never longer than a slot unless they span slots
                if n > size:
                    return "part"
                continue
            it = sub_cell(cell, j, q, {})
            r = self.rel(st, off, n, it[1], it[2])
            if r == "out":
                continue
            if r == "part":
                return "part"
            return (self.cellval(st, it, r[1], ty),)
        return None

    def cellval(self, st, c, d, ty):
        if c[0] == "v":
            return self.extract(st, c[4], c[3], d, ty)
        if c[0] == "fill":
            return self.fillval(c[3], ty)
        if c[0] == "copy":
            return self.rawread(st, c[3], c[4] + d, ty)
        return TOP

    def baseread(self, st, o, off, ty):
        T = self.T
        b = o.base
        if b == "junk":
            return UNINIT
        k = T[ty]["k"]
        if b == "zero":
            return self.fillval(ZERO, ty)
        if T.is_struct(ty) or k == "array":
            fs = T.fields(ty)
            offs = T.offsets(ty) if T.is_struct(ty) else [i * T.size(T.elem(ty)) for i in range(len(fs))]
            return Agg([self.baseread(st, o, off + x, f) if not T.zst(f) else T.zstval(f) for x, f in zip(offs, fs)])
        if T.is_union(ty):
            f = [f for f in T.fields(ty) if T.size(f) == T.size(ty)][0]
            return Uni(f, self.baseread(st, o, off, f))
        if b[0] == "bytes":
            if k == "int" and T.size(ty) == 1 and off.isconst:
                return Lin(b[1][off.c])
            return TOP
        if b[0] == "ids":        # integer leaf at byte off: base + off / stride
            if k == "int":
                return b[1] + fd(off, b[2])
            return TOP
        if b[0] in ("uf", "ro"):
            if k == "int":
                lo, hi = T.irange(ty)
                return derived(("uf", b[1], off, ty), lo, hi)
            if k == "bool":
                return ("b", ("uf", b[1], off), True)
        return TOP

    # ------------------------------------------------------------ block operations
    def copy(self, st, src, dst, count, ety, disjoint):
        T = self.T
        src, dst = self.unwrap_ptr(st, src, None), self.unwrap_ptr(st, dst, None)
        es = T.size(ety)
        n = L(count) * es
        nn = st.facts.norm(n)
        F = st.facts
        self.alignptr(st, src, T.align(ety), "copy from")
        self.alignptr(st, dst, T.align(ety), "copy to")
        if self.decide(st, le(nn, 0)):
            return
        for p, w in ((src, "read"), (dst, "write")):
            if p.obj is None:
                raise Violation("null", "copy of %r bytes through an address that is no allocation (%r)" % (n, p.off))
            self.getobj(st, p, w)
        if count.isconst and 0 < count.c <= 4 and es > 1:
            vals = [self.load(st, self.padd(st, src, L(i), ety), ety) for i in range(count.c)]
            if disjoint:
                self.nooverlap(st, src, dst, n)
            for i, v in enumerate(vals):
                self.store(st, self.padd(st, dst, L(i), ety), ety, v)
            return
        src, dst = self.rawptr(st, src), self.rawptr(st, dst)
        so, do = st.mem[src.obj], st.mem[dst.obj]
        self.access(st, so, src.off, n, 1, "read")
        self.access(st, do, dst.off, n, 1, "write")
        if disjoint:
            self.nooverlap(st, src, dst, n)
        self.rawwrite(st, dst.obj, ("copy", dst.off, n, so, src.off))

    def nooverlap(self, st, a, b, n):
        if a.obj != b.obj:
            return
        a, b = self.rawptr(st, a), self.rawptr(st, b)
        self.oblige(st, disj(le(a.off + n, b.off), le(b.off + n, a.off)), "overlap", "copy_nonoverlapping of %r bytes between overlapping places %r and %r" % (n, a.off, b.off))

    def alignptr(self, st, p, al, what):
        if al == 1:
            return
        if p.obj is None:
            rem = p.off - fd(p.off, al) * al
            self.oblige(st, eq(rem), "align", "%s address %r, which must be a multiple of %d" % (what, p.off, al))
            return
        o = st.mem.get(p.obj)
        if o is None or o.kind == "tree":
            return
        off, res = self.fold(p)
        if not res:
            self.aligned(st, o, off, al, what)

    def fill(self, st, dst, byte, count, ety):
        n = L(count) * self.T.size(ety)
        dst = self.unwrap_ptr(st, dst, None)
        self.alignptr(st, dst, self.T.align(ety), "fill")
        if self.decide(st, le(st.facts.norm(n), 0)):
            return
        if dst.obj is None:
            raise Violation("null", "fill of %r bytes through an address that is no allocation (%r)" % (n, dst.off))
        self.getobj(st, dst, "write")
        dst = self.rawptr(st, dst)
        self.access(st, st.mem[dst.obj], dst.off, n, 1, "fill")
        self.rawwrite(st, dst.obj, ("fill", dst.off, n, byte))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, f, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, f, r[1])
        if k == "ref":
            p, ty = self.place(st, f, r[2])
            return p
        if k == "cast":
            return self.cast(st, f, r[1], r[2], r[3])
        if k == "bin":
            return self.binop(st, f, r[1], r[2], r[3])
        if k == "un":
            v = self.operand(st, f, r[2])
            ty = self.optype(f, r[2])
            if r[1] == "Not":
                if v is TOP:
                    return TOP
                if self.T[ty]["k"] == "bool":
                    return neg(v)
                lo, hi = self.T.irange(ty)
                return Lin(hi + lo) - v if lo == 0 else Lin(-1) - v
            if r[1] == "Neg":
                return self.wrap(st, -v, ty) if isinstance(v, Lin) else TOP
            if r[1] == "PtrMetadata":
                p = self.unwrap_ptr(st, v, ty)
                return p.meta if p.meta is not None else UNIT
            raise Unsupported("unary " + r[1])
        if k == "discr":
            p, ty = self.place(st, f, r[1])
            v = self.load(st, p, ty)
            if v is TOP:
                return TOP
            if v is UNINIT:
                raise Violation("uninit", "the discriminant of an uninitialized value is read")
            if isinstance(v, Agg) and v.var is not None:
                d = self.T[ty]["variants"][v.var]["discr"]
                return L(d if d is not None else 0)
            if isinstance(v, Agg):
                return ZERO
            return TOP
        if k == "agg":
            kind = r[1]
            vs = [self.operand(st, f, o) for o in r[2]]
            if kind[0] == "adt":
                if kind[3] is not None:
                    fty = self.T.fields(dty)[kind[3]]
                    return Uni(fty, vs[0])
                return Agg(vs, kind[2] if self.T.is_enum(dty) else None)
            if kind[0] == "rawptr":
                p = self.unwrap_ptr(st, vs[0], self.optype(f, r[2][0]))
                return Ptr(p.obj, p.off, p.path, vs[1] if isinstance(vs[1], (Lin, Ptr)) else None)
            if kind[0] in ("tuple", "array", "closure"):
                return Agg(vs)
            raise Unsupported("aggregate " + kind[0])
        if k == "repeat":
            v = self.operand(st, f, r[1])
            if not isinstance(r[2], int) or r[2] > 4096:
                raise Unsupported("array of length %s" % r[2])
            return Agg([v] * r[2])
        raise Unsupported("rvalue " + k)

    def cast(self, st, f, kind, op, to):
        T = self.T
        v = self.operand(st, f, op)
        a = self.optype(f, op)
        if v is UNINIT and kind != "Transmute":
            raise Violation("uninit", "an uninitialized value is used")
        if kind.startswith("PtrToPtr") or kind.startswith("PointerCoercion(MutToConst") or kind.startswith("FnPtrToPtr") or kind.startswith("PointerCoercion(ArrayToPointer"):
            p = self.unwrap_ptr(st, v, a)
            tt = T[to]["to"]
            if T[tt]["sized"]:
                p = Ptr(p.obj, p.off, p.path)
            return p
        if kind.startswith("PointerCoercion(Unsize"):
            src = T[a]
            if src["k"] in ("ref", "ptr") and T[src["to"]]["k"] == "array":
                d = T[src["to"]]
                p = self.unwrap_ptr(st, v, a)
                return Ptr(p.obj, p.off, p.path + (("i", ZERO, d["elem"]),), L(d["len"]))
            if src["k"] in ("ref", "ptr"):
                p = self.unwrap_ptr(st, v, a)
                d, t = src["to"], T[to]["to"] if T.isptr(to) else None
                if t is not None and T[d]["k"] == "adt" and T[t]["k"] == "adt":
                    self.unsz[t] = d
                    while T[d]["k"] == "adt" and T.fields(d):
                        d = T.fields(d)[-1]
                    if T[d]["k"] == "array":
                        return Ptr(p.obj, p.off, p.path, L(T[d]["len"]))
                return Ptr(p.obj, p.off, p.path, UNIT)
            return TOP
        if kind.startswith("PointerCoercion"):
            return TOP
        if kind == "IntToInt":
            if v is TOP:
                return TOP
            if T[a]["k"] == "bool":
                return ONE if self.decide(st, v) else ZERO
            if T[a]["k"] == "adt":      # fieldless enum
                return L(T[a]["variants"][v.var]["discr"])
            if T[to]["k"] == "char":
                return v
            return self.wrap(st, v, to)
        if kind.startswith("PointerExposeProvenance"):
            p = self.unwrap_ptr(st, v, a)
            return self.addr(st, p)
        if kind.startswith("PointerWithExposedProvenance"):
            return self.int2ptr(st, v) if isinstance(v, Lin) else TOP
        if kind == "Transmute" or kind == "Subtype":
            return self.transmute(st, v, a, to)
        return TOP

    def transmute(self, st, v, a, to):
        T = self.T
        if T.isptr(a) and T.isptr(to):
            return v
        w = T.coerce(v, a, to)
        if isinstance(v, Lin) and T[a]["k"] == "int" and T[to]["k"] == "adt" and T[to]["path"] == "core::option::Option":
            p = T.fields(to, 1)[0]
            if T[p]["k"] == "adt" and "::nonzero::NonZero" in T[p]["path"] and T.size(p) == T.size(a):
                return Agg([], 0) if self.decide(st, eq(v, 0)) else Agg([T.coerce(v, a, p)], 1)
        if isinstance(v, Agg) and a != to and T[a]["k"] == T[to]["k"] == "adt" and T.size(a) == T.size(to) and T.oneniche(a) and T.oneniche(to):
            (i, p), (j, q) = T.oneniche(a), T.oneniche(to)
            if p == q:      # both enums are the payload with one value of its niche taken
                return Agg(v.fs, j) if v.var == i else Agg([T.zstval(x) for x in T.fields(to, 1 - j)], 1 - j)
        if w is TOP and v is not TOP and v is not UNINIT and T[a].get("layout") and T[to].get("layout") and T.size(a) == T.size(to):
            w = self.extract(st, v, a, ZERO, to)
        return self.fixdeep(st, w, to)

    def fixdeep(self, st, v, ty):
        T = self.T
        if isinstance(v, Ptr) and T[ty]["k"] == "int":
            return self.addr(st, v)
        if isinstance(v, Lin) and T.isptr(ty):
            return self.int2ptr(st, v)
        o = None
        if isinstance(v, Agg) and v.var is None:
            o = T.only(ty)
        if o is not None:
            w = self.fixdeep(st, v.fs[o[0]], o[1])
            if w is not v.fs[o[0]]:
                fs = list(v.fs)
                fs[o[0]] = w
                return Agg(fs)
        return v

    # ------------------------------------------------------------ arithmetic
    def wrap(self, st, r, ty):
        lo, hi = self.T.irange(ty)
        x, y = base_interval(r)
        if lo <= x and y <= hi:
            return r
        F = st.facts
        r = F.norm(r)
        m = hi - lo + 1
        x, y = F.interval(r)
        if lo <= x and y <= hi:
            return r
        if r.isconst:
            return Lin((r.c - lo) % m + lo)
        self.separate(st, r)
        if x < lo and not self.decide(st, le(lo, r)):
            if self.decide(st, le(lo - m, r)):
                return r + m
            return self.wrapfd(r, lo, m)
        if y > hi and not self.decide(st, le(r, hi)):
            if self.decide(st, le(r, hi + m)):
                return r - m
            return self.wrapfd(r, lo, m)
        return r

    def wrapfd(self, r, lo, m):
        return r - fd(r - lo, m) * m

    def binop(self, st, f, op, x, y):
        T = self.T
        a, b = self.operand(st, f, x), self.operand(st, f, y)
        ty = self.optype(f, x)
        if op == "Offset":
            p = self.unwrap_ptr(st, a, ty)
            return self.padd(st, p, b, T[ty]["to"])
        if a is UNINIT or b is UNINIT:
            raise Violation("uninit", "arithmetic on an uninitialized value")
        if op in ("Add", "Sub", "Mul") and isinstance(a, Lin) and isinstance(b, Lin) and T[ty]["k"] == "int" and self.own(f):
            r = a + b if op == "Add" else a - b if op == "Sub" else mul(a, b)
            lo, hi = T.irange(ty)
            self.oblige(st, conj(le(lo, r), le(r, hi)), "wrap", "arithmetic wraps around (and panics where overflow is checked): %r" % r)
        return self.arith(st, op, a, b, ty)

    def arith(self, st, op, a, b, ty):
        T = self.T
        k = T[ty]["k"]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            return self.compare(st, op, a, b, ty)
        if a is TOP or b is TOP:
            if op.endswith("WithOverflow"):
                return Agg((TOP, TOP))
            return TOP
        if k == "bool":
            if op == "BitAnd":
                return conj(a, b)
            if op == "BitOr":
                return disj(a, b)
            if op == "BitXor":
                return neg(b) if self.decide(st, a) else b
        if isinstance(a, Ptr):
            a = self.addr(st, a)
        if isinstance(b, Ptr):
            b = self.addr(st, b)
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            return TOP
        base = op.replace("Unchecked", "").replace("WithOverflow", "")
        if base in ("Add", "Sub", "Mul"):
            r = a + b if base == "Add" else a - b if base == "Sub" else mul(a, b)
            if op.endswith("WithOverflow"):
                lo, hi = T.irange(ty)
                fine = conj(le(lo, r), le(r, hi))
                if self.decide(st, fine):
                    return Agg((r, False))
                return Agg((self.wrap(st, r, ty), True))
            if op.endswith("Unchecked"):
                lo, hi = T.irange(ty)
                self.oblige(st, conj(le(lo, r), le(r, hi)), "ub", "unchecked arithmetic overflows: %r" % r)
                return r
            return self.wrap(st, r, ty)
        if base in ("Div", "Rem"):
            return self.divrem(st, base, a, b, ty)
        bits = T[ty]["bits"] if k == "int" else 32
        if base in ("Shl", "Shr"):
            a, b = st.facts.norm(a), st.facts.norm(b)
            if b.isconst:
                s = b.c % bits
                if base == "Shr":
                    return fd(a, 1 << s)
                return self.wrap(st, a * (1 << s), ty)
            if a.isconst and a.c == 0:
                return ZERO
            if base == "Shl":
                return mkshl(a, b, bits)
            return derived(("shr", a, b), 0, (1 << bits) - 1)
        if base in ("BitAnd", "BitOr", "BitXor"):
            a, b = st.facts.norm(a), st.facts.norm(b)
            return bitop(base, a, b, bits)
        raise Unsupported("operator " + op)

    def divrem(self, st, op, a, b, ty):
        b = st.facts.norm(b)
        a = st.facts.norm(a)
        if b.isconst and b.c > 0 and self.T.irange(ty)[0] == 0:
            q = fd(a, b.c)
            return q if op == "Div" else a - q * b.c
        if b.isconst and b.c > 0:
            if self.decide(st, le(0, a)):
                q = fd(a, b.c)
            else:
                q = -fd(-a, b.c)
            return q if op == "Div" else a - q * b.c
        if a.isconst and b.isconst and b.c:
            return Lin(abs(a.c) // abs(b.c) * (1 if a.c * b.c >= 0 else -1)) if op == "Div" else Lin(a.c - b.c * int(a.c / b.c))
        # symbolic divisor
        lo, hi = self.T.irange(ty)
        return derived((op.lower(), a, b), lo, hi)

    def compare(self, st, op, a, b, ty):
        if a is TOP or b is TOP:
            return TOP
        T = self.T
        k = T[ty]["k"]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a = a if isinstance(a, Ptr) else self.int2ptr(st, a)
            b = b if isinstance(b, Ptr) else self.int2ptr(st, b)
            same = True
            if a.obj == b.obj:
                if a.obj is not None and (a.path or b.path):
                    if a.path[:-1] == b.path[:-1] and a.path and b.path and a.path[-1][0] == b.path[-1][0] == "i" and a.path[-1][2] == b.path[-1][2]:
                        x, y = a.path[-1][1], b.path[-1][1]
                    elif a.path == b.path:
                        x = y = ZERO
                    else:
                        a, b = self.rawptr(st, a), self.rawptr(st, b)
                        x, y = a.off, b.off
                else:
                    x, y = a.off, b.off
            else:
                if op in ("Eq", "Ne"):
                    if a.obj is None or b.obj is None:
                        n = a if a.obj is None else b
                        if n.off.isconst and n.off.c < 4096:
                            return op == "Ne"
                    else:
                        same = False
                x, y = self.addr(st, a), self.addr(st, b)
            if a.meta is not None and b.meta is not None and op in ("Eq", "Ne"):
                r = conj(eq(x, y), eq(a.meta, b.meta)) if isinstance(a.meta, Lin) and isinstance(b.meta, Lin) else eq(x, y)
                return r if op == "Eq" else neg(r)
            a, b = x, y
            self.separate(st, a - b)
        elif k == "bool":
            a1, b1 = self.decide(st, a), self.decide(st, b)
            if op == "Cmp":
                a, b = L(int(a1)), L(int(b1))
            else:
                a, b = L(int(a1)), L(int(b1))
        if isinstance(a, Agg) and isinstance(b, Agg):
            return TOP
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            return TOP
        if op in ("Eq", "Ne"):
            r = biteq(a, b)
            if r is None:
                r = eq(a, b)
            return r if op == "Eq" else neg(r)
        self.separate(st, a - b)
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        # Cmp -> core::cmp::Ordering: variants Less, Equal, Greater
        if self.decide(st, lt(a, b)):
            return Agg((), 0)
        return Agg((), 1) if self.decide(st, eq(a, b)) else Agg((), 2)

    # ------------------------------------------------------------ calls
    def call(self, st, f, t):
        _, c, args, dest, target, uw, span = t
        if "indirect" in c:
            raise Unsupported("indirect call")
        vals = [self.operand(st, f, a) for a in args]
        dp = self.place(st, f, dest)
        fn = self.natives.lookup(c)
        if fn is not None:
            r = fn(self, st, c, vals, [self.optype(f, a) for a in args], dp[1])
            if r is self.natives.PANIC:
                return self.panic_here(st, uw, c.get("rpath", c["path"]))
            if r is self.natives.INLINE:
                pass
            else:
                if target is None:
                    raise PathEnd()
                self.store(st, dp[0], dp[1], r)
                self.goto(f, target)
                return st
        if c.get("ctor"):
            v = Agg(vals, self.ctorvar(c, dp[1]))
            self.store(st, dp[0], dp[1], v)
            self.goto(f, target)
            return st
        inst = c.get("inst")
        if inst is not None and inst in self.insts and "error" not in self.insts[inst]:
            b = self.insts[inst]
            if c.get("trait") and c["path"].split("::")[-1] in ("call", "call_mut", "call_once") and c["path"].startswith("core::ops::function") and len(vals) == 2:
                # (closure, (args...)) -> closure body takes the arguments separately
                if b.get("spread") is None:
                    n = len(self.T.fields(self.optype(f, args[1])))
                    vals = [vals[0]] + (list(vals[1].fs) if isinstance(vals[1], Agg) else [vals[1]] * n)
            self.push(st, inst, vals, dp, target, uw, span)
            return st
        p = c.get("rpath", c["path"])
        if c.get("rkind", "").startswith("shim:DropGlue") or p.endswith("drop_in_place") or p == "core::ptr::drop_glue":
            return self.dropglue(st, vals[0], c["targs"][0], dp, target, uw, span)
        raise Unsupported("call of " + p)

    def ctorvar(self, c, ty):
        if not self.T.is_enum(ty):
            return None
        nm = c["path"].split("::")[-1]
        for i, v in enumerate(self.T[ty]["variants"]):
            if v["name"] == nm:
                return i
        raise Unsupported("constructor " + c["path"])

    # ------------------------------------------------------------ drop
    def drop(self, st, f, t):
        _, place, target, uw, span = t
        ty = place[2]
        if not self.T[ty].get("needs_drop", True):
            self.goto(f, target)
            return st
        p, ty = self.place(st, f, place)
        return self.dropglue(st, p, ty, None, target, uw, span)

    def dropglue(self, st, p, ty, dp, target, uw, span):
        f = st.frames[-1]
        if not self.T[ty].get("needs_drop", True):
            if dp is not None:
                self.store(st, dp[0], dp[1], UNIT)
            self.goto(f, target)
            return st
        g = self.glue(ty)
        self.push(st, g, [p], dp, target, uw, span)
        return st

    def glue(self, ty):
        key = "glue<%s>" % ty
        if key not in self._glue:
            self._glue[key] = make_glue(self.T, ty)
        return key


def showf(F, f):
    if f is True or f is False:
        return str(f)
    if f[0] in ("and", "or"):
        return "(%s %s %s)" % (showf(F, f[1]), f[0], showf(F, f[2]))
    if f[0] == "b":
        return ("" if f[2] else "not ") + repr(f[1])
    return "%r %s 0" % (F.norm(f[1]), {"le": "<=", "eq": "==", "ne": "!="}[f[0]])


# ---------------------------------------------------------------- bit operations
def mkshl(a, b, bits):
    if b.isconst and a.isconst:
        return Lin((a.c << b.c) % (1 << bits))
    return derived(("shl", a, b, bits), 0, (1 << bits) - 1)


def ispow2(n):
    return n > 0 and n & (n - 1) == 0


def shape(x):
    """The definition of x when it is one derived atom."""
    return ATOMS[x.t[0][0]].d if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 else None


def bitop(op, a, b, bits):
    full = (1 << bits) - 1
    if a.isconst and b.isconst:
        return Lin(a.c & b.c if op == "BitAnd" else a.c | b.c if op == "BitOr" else a.c ^ b.c)
    if a.isconst:
        a, b = b, a
    if b.isconst and op == "BitAnd" and 0 < b.c < full:
        # single bits stay symbolic
        D = shape(a)
        if D is not None and (D[0] == "shl" and D[1] == ONE or ispow2(b.c) and D[0] in ("or", "and", "xor", "shl")):
            return derived(("and",) + ((a, b) if (a.t, a.c) <= (b.t, b.c) else (b, a)) + (bits,), 0, full)
    if b.isconst:
        m = b.c
        if op == "BitAnd":
            if m == 0:
                return ZERO
            if m == full or m == -1:
                return a
            if m < 0:
                m &= full
            if ispow2(m + 1):
                return a - fd(a, m + 1) * (m + 1)
            low = m & -m
            if ispow2(m // low + 1):
                # contiguous bits: low .. low*2^k
                q = fd(a, low)
                if m + low == full + 1:
                    return q * low
                k = m // low + 1
                return (q - fd(q, k) * k) * low
        elif m == 0:
            return a
        elif op == "BitXor" and (m == full or m == -1):
            return Lin(full) - a
    if a == b:
        return a if op in ("BitAnd", "BitOr") else ZERO
    x, y = (a, b) if (a.t, a.c) <= (b.t, b.c) else (b, a)
    return derived(({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op], x, y, bits), 0, full)


SIMPLIFY["and"] = lambda a, b, w: bitop("BitAnd", a, b, w)
SIMPLIFY["or"] = lambda a, b, w: bitop("BitOr", a, b, w)
SIMPLIFY["xor"] = lambda a, b, w: bitop("BitXor", a, b, w)
SIMPLIFY["shl"] = lambda a, b, w: mkshl(a, b, w)
EVAL["and"] = lambda a, b, w: a & b
EVAL["or"] = lambda a, b, w: a | b
EVAL["xor"] = lambda a, b, w: a ^ b
EVAL["shl"] = lambda a, b, w: (a << (b % w)) % (1 << w)
EVAL["shr"] = lambda a, b: a >> b
EVAL["div"] = lambda a, b: a // b if b else 0
EVAL["rem"] = lambda a, b: a % b if b else 0


def bit(x, k):
    """The formula: bit k of x is set."""
    if x.isconst:
        if x.c == 0:
            return False
        if k.isconst:
            return bool((x.c >> k.c) & 1)
        if x.c == 255:
            return le(k, 7)
        return disj(*[eq(k, i) for i in range(x.c.bit_length()) if (x.c >> i) & 1])
    if len(x.t) == 1:
        a, m = x.t[0]
        D = ATOMS[a].d
        if m == 1 and x.c == 0 and D is not None:
            if D[0] == "or":
                return disj(bit(D[1], k), bit(D[2], k))
            if D[0] == "and":
                return conj(bit(D[1], k), bit(D[2], k))
            if D[0] == "shl" and D[1] == ONE:
                return eq(k, D[2])
            if D[0] == "xor":
                p, q = bit(D[1], k), bit(D[2], k)
                return disj(conj(p, neg(q)), conj(neg(p), q))
        if m == -1 and ispow2(x.c + 1):
            return neg(bit(Lin(0, ((a, 1),)), k))
    return ("b", ("bit", x, k), True)


def biteq(a, b):
    """x & (1 << k) compared with 0 or with 1 << k, (x >> k) & 1 with 0 or 1."""
    for x, y in ((a, b), (b, a)):
        if len(x.t) == 2 and x.c == 0 and y.isconst and y.c in (0, 1):
            for (p, j), (q, m) in (x.t, x.t[::-1]):
                P, Q = ATOMS[p].d, ATOMS[q].d
                if j == 1 and m == -2 and P is not None and Q is not None and P[0] == "shr" and Q == ("fd", Lin(0, ((p, 1),)), 2):
                    r = bit(P[1], P[2])
                    return r if y.c else neg(r)
        if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1:
            D = ATOMS[x.t[0][0]].d
            if D is not None and D[0] == "and":
                for u, v in ((D[1], D[2]), (D[2], D[1])):
                    k = None
                    if v.isconst and ispow2(v.c):
                        k = L(v.c.bit_length() - 1)
                    elif len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
                        E = ATOMS[v.t[0][0]].d
                        if E is not None and E[0] == "shl" and E[1] == ONE:
                            k = E[2]
                    if k is not None:
                        if y == ZERO:
                            return neg(bit(u, k))
                        if y == v:
                            return bit(u, k)
    return None


# ---------------------------------------------------------------- control flow
def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "call":
        return [x for x in (t[4], t[5]) if isinstance(x, int)]
    if k == "drop":
        return [x for x in (t[2], t[3]) if isinstance(x, int)]
    if k == "assert":
        return [x for x in (t[3], t[4]) if isinstance(x, int)]
    return []


def natural_loops(blocks):
    """head -> set of blocks, from DFS back edges."""
    n = len(blocks)
    su = [succs(b["t"]) for b in blocks]
    pred = [[] for _ in range(n)]
    for i, s in enumerate(su):
        for j in s:
            pred[j].append(i)
    color = [0] * n
    backs = []
    stack = [(0, iter(su[0]))]
    color[0] = 1
    while stack:
        u, it = stack[-1]
        for v in it:
            if color[v] == 0:
                color[v] = 1
                stack.append((v, iter(su[v])))
                break
            if color[v] == 1:
                backs.append((u, v))
        else:
            color[u] = 2
            stack.pop()
    loops = {}
    for u, h in backs:
        s = loops.setdefault(h, {h})
        w = [u]
        while w:
            x = w.pop()
            if x not in s:
                s.add(x)
                w.extend(pred[x])
    return loops


# ---------------------------------------------------------------- drop glue as bodies
def make_glue(T, ty):
    """A MIR-shaped body for drop_in_place::<ty>(_1: *mut ty)."""
    d = T[ty]
    ptr = "*mut " + ty
    T.t.setdefault(ptr, {"k": "ptr", "mut": True, "to": ty, "sized": True, "layout": {"size": 16 if d["k"] == "slice" else 8, "align": 8}, "needs_drop": False})
    T.t.setdefault("()", {"k": "tuple", "elems": [], "sized": True, "layout": {"size": 0, "align": 1, "offsets": []}, "needs_drop": False})
    T.t.setdefault("usize", {"k": "int", "bits": 64, "signed": False, "sized": True, "layout": {"size": 8, "align": 8}, "needs_drop": False})
    T.t.setdefault("bool", {"k": "bool", "sized": True, "layout": {"size": 1, "align": 1}, "needs_drop": False})
    blocks = []
    locals_ = ["()", ptr]

    def B(s, t, c=False):
        blocks.append({"s": s, "t": t, "c": c})
        return len(blocks) - 1

    path = "drop_in_place<%s>" % ty
    self_pl = [1, [["*", ty]], ty]
    if d["k"] in ("slice", "array"):
        et = d["elem"]
        locals_ += ["usize", "usize", "bool", "bool", "usize"]
        u = "usize"

        def cst(v):
            return ["k", {"k": "int", "v": v, "ty": "usize"}]
        ln = ["un", "PtrMetadata", ["cp", [1, [], ptr]]] if d["k"] == "slice" else ["use", cst(d["len"])]

        def loop(start, cleanup):
            # start: i==n ? exit : { j = i; i += 1; drop(p[j]) }
            h = len(blocks)
            B([["=", [4, [], "bool"], ["bin", "Eq", ["cp", [2, [], u]], ["cp", [3, [], u]]]]],
              ["switch", ["cp", [4, [], "bool"]], [[0, h + 1]], None, "bool"], cleanup)
            B([["=", [6, [], u], ["use", ["cp", [2, [], u]]]], ["=", [2, [], u], ["bin", "Add", ["cp", [2, [], u]], cst(1)]]],
              ["drop", [1, [["*", ty], ["i", 6, et]], et], h, None, ""], cleanup)
            return h
        b0 = B([["=", [3, [], u], ln], ["=", [2, [], u], ["use", cst(0)]]], ["goto", 1])
        h = loop(1, False)
        r = B([], ["return"])
        blocks[h]["t"][3] = r
        h2 = loop(r + 1, True)
        rs = B([], ["resume"], True)
        blocks[h2]["t"][3] = rs
        blocks[h + 1]["t"][3] = h2
        blocks[h2 + 1]["t"][3] = "terminate"
    else:
        adt = d["k"] == "adt"
        ret = B([], ["return"])          # 0, swapped to be entered last
        res = B([], ["resume"], True)

        def chain(fields, var):
            """Blocks dropping the given (index, type) fields in order; returns the entry and its unwind entry."""
            nxt, unx = ret, res
            entries = []
            for i, fty in reversed(fields):
                proj = [["*", ty]] + ([["d", var]] if var is not None else []) + [["f", i, fty, ty]]
                pl = [1, proj, fty]
                b = B([], ["drop", pl, nxt, unx, ""])
                c = B([], ["drop", pl, unx, "terminate", ""], True)
                nxt, unx = b, c
            return nxt, unx
        if d.get("manually_drop"):
            entry = ret
        elif T.is_enum(ty):
            arms = []
            discs = []
            for vi, v in enumerate(d["variants"]):
                fs = [(i, x[1]) for i, x in enumerate(v["fields"]) if T[x[1]].get("needs_drop", True)]
                e, _ = chain(fs, vi)
                arms.append([v["discr"] if v["discr"] is not None else 0, e])
            locals_ += ["usize"]
            entry = B([["=", [2, [], "usize"], ["discr", self_pl]]], ["switch", ["cp", [2, [], "usize"]], arms, ret, "usize"])
            assert not d.get("drop_impl")
        else:
            fs = [] if T.is_union(ty) else [(i, x) for i, x in enumerate(T.fields(ty)) if T[x].get("needs_drop", True)]
            entry, unx = chain(fs, None)
            if d.get("has_drop"):
                if d.get("drop_impl"):
                    ref = "&mut " + ty
                    T.t.setdefault(ref, {"k": "ref", "mut": True, "to": ty, "sized": True, "layout": {"size": 8, "align": 8}, "needs_drop": False})
                    entry = B([], ["call", {"path": "core::ops::drop::Drop::drop", "targs": [ty], "cargs": [], "inst": d["drop_impl"], "rpath": d["drop_impl"], "rkind": "item"},
                                   [["cp", [1, [], ptr]]], [0, [], "()"], entry, unx, ""])
                else:
                    entry = B([], ["unsupported", "destructor of " + ty])
        # block 0 must be the entry
        b0 = blocks[0]
        n = len(blocks)
        blocks.append(b0)
        blocks[0] = {"s": [], "t": ["goto", entry if entry != 0 else n], "c": False}
        for b in blocks[1:]:
            t = b["t"]
            if t[0] == "drop":
                t[2] = n if t[2] == 0 else t[2]
            elif t[0] == "call":
                t[4] = n if t[4] == 0 else t[4]
            elif t[0] == "switch":
                for a in t[2]:
                    a[1] = n if a[1] == 0 else a[1]
                t[3] = n if t[3] == 0 else t[3]
    return {"path": path, "span": "", "args": 1, "spread": None, "locals": locals_, "blocks": blocks}


def rename_val(v, ren):
    if isinstance(v, Ptr):
        return Ptr(ren.get(v.obj, v.obj), v.off, v.path, v.meta)
    if isinstance(v, Agg):
        return Agg([rename_val(x, ren) for x in v.fs], v.var)
    if isinstance(v, Uni):
        return Uni(v.ty, rename_val(v.val, ren))
    return v


def rename_obj(o, ren):
    if o.kind == "tree":
        return o.with_(val=rename_val(o.val, ren))
    return o.with_(cells=tuple((c[0], c[1], c[2], c[3], rename_val(c[4], ren)) if c[0] == "v" else c for c in o.cells))
