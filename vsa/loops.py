"""Loops: unroll while that ends, otherwise replace all iterations by one inductive generalisation.

The first iteration shows which places change and by how much; places that change by a constant become
`start + k*step` for the iteration number k, others become unknown. What an iteration writes to memory and
which events it produces is recorded as a function of k and becomes a universally quantified group. Guards of
the body give candidate invariants, of which the inductive ones are kept. The generalised state is verified by
interpreting the body once more: every back edge must reproduce it for k+1."""
from lin import *
from mem import *
import os

TRACE = os.environ.get("VSA_TRACE")


class NoGen(Exception):
    pass


def analyse(I, st, head, blocks):
    key = (st.frames[-1].inst, head)
    depth = len(st.frames)
    exits = []
    cur = [st]
    if I.loops_done.get(key) == "gen":
        try:
            return generalise(I, st, head, blocks, depth)
        except NoGen as e:
            pass
    for it in range(I.opts.get("unroll", 5)):
        backs = []
        for s in cur:
            for kind, x in I.explore(s.clone(), depth, head, blocks):
                (backs if kind == "back" else exits).append(x)
        if not backs:
            I.loops_done.setdefault(key, "unrolled")
            return exits
        if len(backs) > 128:
            break
        cur = backs
    # concretely controlled loops run on while no iteration can leave
    if not exits and len(cur) == 1:
        for it in range(1200):
            backs, ex = [], []
            for kind, x in I.explore(cur[0].clone(), depth, head, blocks):
                (backs if kind == "back" else ex).append(x)
            exits += ex
            if not backs:
                return exits
            if ex or len(backs) > 1:
                break
            cur = backs
    try:
        r = generalise(I, st, head, blocks, depth)
        I.loops_done[key] = "gen"
        return r
    except NoGen as e:
        if TRACE:
            print("NOGEN", st.frames[-1].body["path"], e)
        I.undecided(st, "loop", "loop in %s has no inductive generalisation: %s" % (st.frames[-1].body["path"], e))
        return exits


def body_once(I, st, head, blocks, depth):
    backs, exits = [], []
    for kind, x in I.explore(st.clone(), depth, head, blocks):
        (backs if kind == "back" else exits).append(x)
    return backs, exits


def leafdiff(I, F, a, b, out, path):
    """Collects (path, kind, start, step) for places whose value changed from a to b."""
    if a == b:
        return
    if isinstance(a, Lin) and isinstance(b, Lin):
        d = F.norm(b - a)
        if d.isconst and d.c == 0:
            return
        out.append((path, "lin" if d.isconst else "top", d.c if d.isconst else None))
        return
    if isinstance(a, Agg) and isinstance(b, Agg) and a.var == b.var and len(a.fs) == len(b.fs):
        for i, (x, y) in enumerate(zip(a.fs, b.fs)):
            leafdiff(I, F, x, y, out, path + (i,))
        return
    if isinstance(a, Uni) and isinstance(b, Uni) and a.ty == b.ty:
        leafdiff(I, F, a.val, b.val, out, path + ("u",))
        return
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and len(a.path) == len(b.path):
        steps = []
        d = F.norm(b.off - a.off)
        ok = d.isconst
        steps.append(d.c if ok else None)
        for p, q in zip(a.path, b.path):
            if p[0] != q[0] or p[2] != q[2]:
                ok = False
                break
            if p[0] == "i":
                e = F.norm(q[1] - p[1])
                ok = ok and e.isconst
                steps.append(e.c if e.isconst else None)
            elif p[1] != q[1]:
                ok = False
        if (a.meta is None) != (b.meta is None):
            ok = False
        if isinstance(a.meta, Lin) and isinstance(b.meta, Lin):
            e = F.norm(b.meta - a.meta)
            ok = ok and e.isconst
            steps.append(e.c if e.isconst else None)
        if ok:
            if any(steps):
                out.append((path, "ptr", tuple(steps)))
            return
    out.append((path, "top", None))


def setpath(v, path, fn):
    if not path:
        return fn(v)
    if isinstance(v, Uni):
        return Uni(v.ty, setpath(v.val, path[1:], fn))
    fs = list(v.fs)
    fs[path[0]] = setpath(fs[path[0]], path[1:], fn)
    return Agg(fs, v.var)


def getpath(v, path):
    for p in path:
        v = v.val if p == "u" else v.fs[p]
    return v


def step_value(v, kind, step, k):
    """Value after k iterations of a place starting at v."""
    if kind == "top":
        return TOP
    if kind == "lin":
        return v + k * step
    it = iter(step)
    off = v.off + k * next(it)
    path = tuple((p[0], p[1] + k * next(it)) + tuple(p[2:]) if p[0] == "i" else p for p in v.path)
    meta = v.meta
    if isinstance(meta, Lin):
        meta = meta + k * next(it)
    return Ptr(v.obj, off, path, meta)


def newcells(old, new):
    """Cells of `new` written since `old` (old cells may have been pruned when overwritten)."""
    olds = old.cells
    # longest suffix of new.cells that is a subsequence ending of olds
    n = len(new.cells)
    i = n
    j = len(olds)
    while i > 0 and j > 0:
        if new.cells[i - 1] is olds[j - 1] or new.cells[i - 1] == olds[j - 1]:
            i -= 1
            j -= 1
        else:
            j -= 1
    return new.cells[:i]


def same_shape(S, B):
    if len(S.frames) != len(B.frames):
        raise NoGen("call depth differs")
    for f, g in zip(S.frames, B.frames):
        if f.inst != g.inst or f.loc != g.loc:
            raise NoGen("frames differ")


def diffstate(I, S, B):
    """Changed places between head states S and B: {(obj, path): (kind, step)} and raw objects written."""
    same_shape(S, B)
    ch = {}
    raws = {}
    for o, x in S.mem.items():
        y = B.mem.get(o)
        if y is None:
            raise NoGen("object disappears")
        if x is y:
            continue
        if x.kind != y.kind:
            # promoted during the iteration
            raise NoGen("promoted")
        if x.live != y.live:
            raise NoGen("released in the loop")
        if x.kind == "tree":
            out = []
            leafdiff(I, B.facts, x.val, y.val, out, ())
            for path, kind, step in out:
                ch[(o, path)] = (kind, step)
        elif x.cells != y.cells:
            raws[o] = newcells(x, y)
    for o, y in B.mem.items():
        if o not in S.mem and o[0] not in "sc":
            raise NoGen("allocation in the loop")
    for g, v in B.ghost.items():
        if isinstance(v, Lin) and isinstance(S.ghost.get(g), Lin) and not isinstance(g, tuple) and v != S.ghost[g]:
            d = B.facts.norm(v - S.ghost[g])
            if not d.isconst:
                raise NoGen("ghost")
            ch[("ghost", g)] = ("lin", d.c)
    return ch, raws


def merge_changes(chs):
    """One template for several back edges."""
    out = dict(chs[0])
    for c in chs[1:]:
        for k in set(out) | set(c):
            if out.get(k) != c.get(k):
                # keep the shortest conflicting path unknown
                out[k] = ("top", None)
    # a path below an unknown one is covered by it
    for (o, p) in list(out):
        for n in range(len(p) if isinstance(p, tuple) else 0):
            if (o, p[:n]) in out:
                out.pop((o, p), None)
                break
    return out


def apply(I, S, ch, k, groups, evs, facts):
    T = S.clone()
    T.facts = facts
    for (o, p), (kind, step) in ch.items():
        if o == "ghost":
            T.ghost[p] = S.ghost[p] + k * step
            continue
        x = T.mem[o]
        T.mem[o] = x.with_(val=setpath(x.val, p, lambda v: step_value(v, kind, step, k)))
    for o, (j, cells) in groups.items():
        if cells:
            x = T.mem[o]
            T.mem[o] = x.with_(cells=(("all", j, k, cells),) + x.cells)
    if evs[1]:
        T.ev = T.ev + (("all", evs[0], k, evs[1]),)
    return T


def normcell(F, c):
    k = c[0]
    if k == "v":
        return (k, F.norm(c[1]), c[2], c[3], normval(F, c[4]))
    if k == "all":
        return c
    return (k, F.norm(c[1]), F.norm(c[2])) + tuple(F.norm(x) if isinstance(x, Lin) else x for x in c[3:])


def normval(F, v):
    if isinstance(v, Lin):
        return F.norm(v)
    if isinstance(v, Agg):
        return Agg([normval(F, x) for x in v.fs], v.var)
    if isinstance(v, Uni):
        return Uni(v.ty, normval(F, v.val))
    if isinstance(v, Ptr):
        return Ptr(v.obj, F.norm(v.off), tuple((p[0], F.norm(p[1])) + tuple(p[2:]) if p[0] == "i" else p for p in v.path), F.norm(v.meta) if isinstance(v.meta, Lin) else v.meta)
    return v


def atoms_of(l, out):
    for a, _ in l.t:
        if a not in out:
            out.add(a)
            D = ATOMS[a].d
            if D is not None:
                for x in D[1:]:
                    if isinstance(x, Lin):
                        atoms_of(x, out)
    return out


def mentions_new(v, floor, allowed):
    """Does the value mention atoms created after `floor` other than allowed ones (base atoms only)?"""
    bad = [False]

    def lin(l):
        for a in atoms_of(l, set()):
            if a >= floor and a not in allowed and ATOMS[a].d is None:
                bad[0] = True

    def go(v):
        if isinstance(v, Lin):
            lin(v)
        elif isinstance(v, Agg):
            for x in v.fs:
                go(x)
        elif isinstance(v, Uni):
            go(v.val)
        elif isinstance(v, Ptr):
            lin(v.off)
            for p in v.path:
                if isinstance(p[1], Lin):
                    lin(p[1])
            if isinstance(v.meta, Lin):
                lin(v.meta)
    go(v)
    return bad[0]


def same(F, x, y):
    """Does y, a value, cell or table of them, describe x in every state F allows?"""
    if y is TOP or x is y or type(x) is type(y) and x == y:
        return True
    if type(x) is not type(y):
        return False
    if isinstance(x, Lin):
        return F.decide(eq(x, y)) is True
    if isinstance(x, tuple):
        return len(x) == len(y) and all(same(F, a, b) for a, b in zip(x, y))
    if isinstance(x, dict):
        return x.keys() == y.keys() and all(same(F, a, y[k]) for k, a in x.items())
    if isinstance(x, Agg):
        return x.var == y.var and same(F, x.fs, y.fs)
    if isinstance(x, Uni):
        return x.ty == y.ty and same(F, x.val, y.val)
    if isinstance(x, Ptr):
        return x.obj == y.obj and same(F, (x.off, x.path, x.meta), (y.off, y.path, y.meta))
    return False


def guards(S, backs, k, kat, floor):
    """Candidate bounds of the iteration number: the exit tests every back edge has passed, true at the first iteration."""
    r = []
    for B in backs:
        n = B.facts.log
        while n is not None and n is not S.facts.log:
            n, h, _ = n
            if h[0] == "ne" and h[1] not in r and -h[1] not in r and k in atoms_of(h[1], set()) and not mentions_new(h[1], floor, (k,)):
                r.append(h[1])
    r = [l for l in r if all(B.facts.decide(eq(l)) is False for B in backs)]
    return [h for l in r for h in (le(l), le(-l)) if h is not True and h is not False and S.facts.decide(sub_form(h, k, ZERO, {})) is True]


def cleancell(F, c, floor, k):
    c = normcell(F, c)
    if c[0] == "v" and mentions_new(c[4], floor, (k,)):
        c = c[:4] + (TOP,)
    for x in c[1:3]:
        if isinstance(x, Lin) and mentions_new(x, floor, (k,)):
            raise NoGen("write at an address the iteration number does not determine")
    return c


def generalise(I, S, head, blocks, depth):
    # shape of one iteration
    I.quiet += 1
    try:
        backs, _ = body_once(I, S, head, blocks, depth)
        if not backs:
            raise NoGen("no back edge")
        promoted = set()
        for _ in range(3):
            bad = [o for B in backs for o, x in S.mem.items() if o in B.mem and B.mem[o].kind != x.kind]
            if not bad:
                break
            S = S.clone()
            for o in set(bad):
                I.promote(S, o)
            backs, _ = body_once(I, S, head, blocks, depth)
        ch = merge_changes([diffstate(I, S, B)[0] for B in backs])
    finally:
        I.quiet -= 1
    kat = fresh("k", 0, 1 << 62)
    ka = kat.t[0][0]
    jat = fresh("j", 0, 1 << 62)
    ja = jat.t[0][0]
    floor = len(ATOMS)
    toj = lambda c: sub_cell(c, ka, jat, {})
    # pass 1: writes, events and guards as functions of k
    groups, evs, cands = {}, (ja, ()), []
    for attempt in range(6):
        I.quiet += 1
        try:
            F1 = S.facts.assume(le(kat, 1 << 30))
            for h in cands:
                F1 = F1.assume(h) if F1 is not None else None
            if F1 is None:
                raise NoGen("contradictory candidates")
            T = apply(I, S, ch, kat, groups, evs, F1)
            backs, _ = body_once(I, T, head, blocks, depth)
        finally:
            I.quiet -= 1
        if not backs:
            raise NoGen("no back edge in the general iteration")
        changed = False
        diffs = [diffstate(I, T, B) for B in backs]
        if any(ch.get(q, ("top",))[0] != "top" and ch[q] != d for c2, _ in diffs for q, d in c2.items()):
            # it may change regularly in the iterations the loop's guard lets happen
            guess = guards(S, backs, ka, kat, floor)
            if not all(h in cands for h in guess):
                cands = cands + [h for h in guess if h not in cands]
                continue
        for B, (c2, raws) in zip(backs, diffs):
            for (o, p), (kind, step) in c2.items():
                cov = [q for q in ((o, p[:n]) for n in range(len(p) + 1)) if q in ch] if isinstance(p, tuple) else [(o, p)] if (o, p) in ch else []
                if not cov:
                    ch[(o, p)] = ("top", None)
                    changed = True
                elif ch[cov[0]][0] != "top" and (cov[0] != (o, p) or ch[cov[0]] != (kind, step)):
                    ch[cov[0]] = ("top", None)
                    changed = True
            for (o, p), (kind, step) in list(ch.items()):
                if kind != "top" and (o, p) not in c2:
                    ch[(o, p)] = ("top", None)
                    changed = True
            g2 = {o: (ja, tuple(toj(cleancell(B.facts, c, floor, ka)) for c in cells)) for o, cells in raws.items()}
            ne = B.ev[len(T.ev):]
            e2 = (ja, tuple(("ev", tuple(sub_lin(B.facts.norm(x), ka, jat, {}) if isinstance(x, Lin) and not mentions_new(B.facts.norm(x), floor, (ka,)) else TOP for x in e[1])) if e[0] == "ev" else e for e in ne))
            if any(e[0] != "ev" for e in ne):
                raise NoGen("nested event groups")
            if B is backs[0]:
                if g2 != groups or e2 != evs:
                    changed = True
                groups, evs = g2, e2
            elif g2 != groups or e2 != evs:
                # the split may be one the loop's guard excludes
                guess = guards(S, backs, ka, kat, floor)
                if all(h in cands for h in guess):
                    raise NoGen("back edges with different effects")
                cands = guess
                groups, evs = {}, (ja, ())
                changed = True
                break
        for (o, p) in list(ch):
            if isinstance(p, tuple):
                for n in range(len(p)):
                    if (o, p[:n]) in ch:
                        ch.pop((o, p), None)
                        break
        if not changed:
            break
    else:
        raise NoGen("the effect of an iteration does not settle")
    # candidate invariants from the guards of pass 1
    cands = []
    for B in backs:
        for t, c in B.facts.les.items():
            l = Lin(c, t)
            if ka in atoms_of(l, set()) and S.facts.les.get(t) != c and not mentions_new(l, floor, (ka,)):
                cands.append(le(sub_lin(l, ka, kat - 1, {})))
                cands.append(le(l))
        for l in B.facts.nes:
            if ka in atoms_of(l, set()) and not mentions_new(l, floor, (ka,)):
                cands += [le(l), le(-l)]
        n = B.facts.log
        while n is not None and n is not F1.log:
            n, h, _ = n
            if h[0] == "le" and ka in atoms_of(h[1], set()) and not mentions_new(h[1], floor, (ka,)):
                cands.append(le(sub_lin(h[1], ka, kat - 1, {})))
            if h[0] == "ne" and ka in atoms_of(h[1], set()) and not mentions_new(h[1], floor, (ka,)):
                cands += [le(h[1]), le(-h[1])]
        lo, hi = B.facts.ainterval(ka)
        if hi < 1 << 30:
            cands += [le(kat - hi - 1)]
    init = []
    seen = set()
    for h in cands:
        if h is True or h is False or h in seen:
            continue
        seen.add(h)
        z = sub_form(h, ka, ZERO, {})
        if S.facts.decide(z) is True:
            init.append(h)
    cands = init
    # pass 2: verify
    for _ in range(5):
        F2 = S.facts
        for h in cands:
            F2 = F2.assume(h) if F2 is not None else None
        if F2 is None:
            raise NoGen("contradictory invariants")
        T = apply(I, S, ch, kat, groups, evs, F2)
        I.quiet += 1
        try:
            backs, _ = body_once(I, T, head, blocks, depth)
        finally:
            I.quiet -= 1
        drop = set()
        for B in backs:
            for h in cands:
                if B.facts.decide(sub_form(h, ka, kat + 1, {})) is not True:
                    drop.add(h)
            c2, raws = diffstate(I, T, B)
            for (o, p), (kind, step) in c2.items():
                cov = [ch[(o, p[:n])] for n in range(len(p) + 1) if (o, p[:n]) in ch] if isinstance(p, tuple) else [ch.get((o, p))]
                if not cov or cov[0] is None or cov[0][0] != "top" and cov[0] != (kind, step):
                    raise NoGen("a place changes differently in the general iteration: %s%s %s" % (o, p, (kind, step)))
            for (o, p), (kind, step) in ch.items():
                if kind != "top" and c2.get((o, p)) != (kind, step):
                    raise NoGen("a place stops changing in the general iteration")
            g2 = {o: (ja, tuple(toj(cleancell(B.facts, c, floor, ka)) for c in cells)) for o, cells in raws.items()}
            atk = lambda g: {o: tuple(sub_cell(c, ja, kat, {}) for c in cells) for o, (_, cells) in g.items()}
            if g2 != groups and not same(B.facts, atk(g2), atk(groups)):
                raise NoGen("writes of the general iteration differ")
            ne = B.ev[len(T.ev):]
            ek = lambda evs: tuple((e[0], tuple(sub_lin(x, ja, kat, {}) if isinstance(x, Lin) else x for x in e[1])) for e in evs)
            if any(e[0] != "ev" for e in ne + evs[1]):
                raise NoGen("nested event groups")
            e2 = tuple(("ev", tuple(sub_lin(B.facts.norm(x), ka, jat, {}) if isinstance(x, Lin) and not mentions_new(B.facts.norm(x), floor, (ka,)) else TOP for x in e[1])) for e in ne)
            if e2 != evs[1] and not same(B.facts, ek(e2), ek(evs[1])):
                raise NoGen("events of the general iteration differ")
        if not drop:
            break
        cands = [h for h in cands if h not in drop]
    if TRACE:
        print("GEN", S.frames[-1].body["path"], "ch", {(k[0], k[1]): v for k, v in ch.items() if v[0] != "top"}, "groups", {o: g[1] for o, g in groups.items()}, "inv", cands)
    if not closed(T, backs, ka, kat, floor):
        if TRACE:
            print("LOOSE", S.frames[-1].body["path"])
        T.exact = False
    backs, exits = body_once(I, T, head, blocks, depth)
    return exits


def closed(T, backs, ka, kat, floor):
    """Is every iteration number that T allows reached? Each but the first must follow from what the iteration before it chose.
    What the library or client merely has to fulfil is left out: the first iteration that does not is reported as such."""
    F = T.facts.assume(le(1, kat))
    if F is None:
        return True
    logs = []
    for B in backs:
        r, n = [], B.facts.log
        while n is not None and n is not T.facts.log:
            n, h, obliged = n
            if not obliged:
                flat(h, r)
        logs.append(r)
    for r in logs:
        others = [h for q in logs if q is not r for h in q]
        if all(neg(h) in others or fnew(h, floor, ka) or holds(F, sub_form(h, ka, kat - 1, {})) for h in r):
            return True
    return not logs


def holds(F, h):
    return F.decide(h) is True or F.refutes(neg(h))


def flat(h, out):
    if h is not True and h is not False and h[0] == "and":
        flat(h[1], out)
        flat(h[2], out)
    elif h is not True:
        out.append(h)


def fnew(h, floor, ka):
    """Does it speak of unknowns that came up in the iteration?"""
    if h is False:
        return False
    if h[0] in ("and", "or"):
        return fnew(h[1], floor, ka) or fnew(h[2], floor, ka)
    if h[0] == "b":
        return any(mentions_new(x, floor, (ka,)) for x in h[1] if isinstance(x, Lin))
    return mentions_new(h[1], floor, (ka,))
