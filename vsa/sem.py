"""Runs the abstract interpreter over the analysed clients (witness/sem) and turns its obligations into report rows."""
import glob, json, multiprocessing, os, re, resource, signal, sys, time, traceback
import common
from common import VERIF, TIER

# Built-in obligations and the properties they speak for, when a client of that property meets them.
MEMORY = {"oob", "align", "null", "uninit", "uaf", "dangling", "ub", "block", "const"}
KINDS = {
    "C02": {"wrap", "layout"},
    "C03": {"oob", "align", "null", "alloc0", "layout", "overlap", "ub"},
    "C04": {"dealloc", "uaf", "layout", "overlap"},
    "C05": {"uninit", "uaf", "dangling"},
    "C14": {"abort"},
    "C24": {"abort"},
    "C30": {"const"},
}
WHAT = {
    "oob": "every access lies inside its allocation", "align": "every access is aligned", "null": "no access through a null or dangling address",
    "uninit": "no uninitialized memory is used", "uaf": "no released memory is used", "dangling": "no dead local is used", "ub": "no assumption the compiler may rely on is false",
    "alloc0": "the allocator is never asked for zero bytes", "layout": "unchecked layouts are valid", "dealloc": "blocks are released and grown exactly as obtained",
    "overlap": "non-overlapping copies do not overlap", "wrap": "no size arithmetic wraps", "abort": "no second panic while the user's unwinds", "block": "parts of one object lie in one allocation", "const": "shared sources are not written",
}


def sources():
    return sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(VERIF, "witness", "sem", "*.rs")) if os.path.basename(p)[:-3] not in ("probe", "kit", "ob"))


def root_props(root):
    n = root.split("::")[-1]
    return ["C" + x for x in re.findall(r"_c(\d\d)(?=_)", n + "_")]


def wanted(root):
    return TIER == "thorough" or not root.endswith("_deep")


def file_roots(src):
    """Root names of a source file (by text, before it is built)."""
    with open(os.path.join(VERIF, "witness", "sem", src + ".rs")) as f:
        return re.findall(r"\bh_(?:c\d\d_)+\w+", f.read())


_dumps = {}


def work(a):
    path, root, budget, end = a
    import absint
    t = time.time()
    left = max(1, int(min(budget, end - t)))
    signal.signal(signal.SIGALRM, late)
    signal.alarm(left + 5)
    try:
        if path not in _dumps:
            _dumps.clear()
            with open(path) as f:
                _dumps[path] = json.load(f)
        I = absint.Interp(_dumps[path], root, left)
        err = None
        try:
            I.run()
        except Exception as e:
            err = "%s: %s" % (type(e).__name__, e)
            if os.environ.get("VSA_DEBUG"):
                traceback.print_exc()
        rows = [(k[0], k[1], v[0], v[1], v[2]) for k, v in I.ob.rows.items()]
        if err:
            rows.append(("engine", root, 0, None, err))
        return root, rows, I.paths, I.steps, sorted(x for x in I.fns if "varlen::" in x), dict(I.reached), round(time.time() - t, 2)
    except Exception as e:
        return root, [("engine", root, 0, None, "%s: %s" % (type(e).__name__, e))], 0, 0, [], {}, round(time.time() - t, 2)
    finally:
        signal.alarm(0)


def late(*a):
    raise TimeoutError("time budget")


def limits():
    """A worker that needs too much memory reports so instead of taking the machine down."""
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


# What a condition of one property also says about another one, in a client that speaks of both.
ALSO = {"c01": "C07 C18 C19 C20", "c02": "C03", "c03": "C02", "c04": "C05 C14 C20", "c05": "C06 C08 C11 C14 C20 C24 C28", "c06": "C05 C07 C24", "c07": "C01 C06 C18", "c08": "C05 C09 C14",
        "c09": "C08 C20", "c10": "C03 C28", "c11": "C05 C28", "c12": "C13 C14", "c13": "C12", "c14": "C02 C04 C05 C08 C12 C24 C28", "c17": "C18 C19 C20", "c18": "C01 C07 C17 C19 C20", "c19": "C01 C20",
        "c20": "C01 C05 C17 C18 C19", "c24": "C05 C06 C14", "c28": "C03 C05 C14"}


# Properties whose statement says that a well-formed request goes through: in a client that makes only such requests no panic may get out.
CALM = {"C01", "C07", "C09", "C10", "C11", "C12", "C13", "C16", "C17", "C18", "C19", "C20", "C28"}


def speaks(kind, prop):
    """Whether the condition of this name belongs to the property (in a client that is named after it)."""
    return kind.startswith("check:") and (kind[6:9] == prop.lower() or prop in ALSO.get(kind[6:9], "").split())


def expected():
    p = os.path.join(VERIF, "vsa", "expected.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return json.load(f)


def analyse(build, srcs, pick, budget=240, total=None):
    """The results of every picked root, each within `budget` seconds and all within `total`."""
    jobs = []
    end = time.time() + (total or (780 if TIER == "thorough" else 500))
    for s in srcs:
        p = build.dump_path("sem/%s.rs" % s, "w_" + s)
        with open(p) as f:
            roots = json.load(f)["roots"]
        for r in sorted(roots):
            if pick(r):
                jobs.append((p, r, budget, end))
    with multiprocessing.Pool(int(os.environ.get("VSA_PROCS", "0")) or min(8, os.cpu_count() or 1), initializer=limits) as pool:
        return pool.map(work, jobs, chunksize=1)


def run(rep, build, floor_roots, floor_obl):
    prop = rep.prop
    srcs = [s for s in sources() if any(prop in root_props(r) for r in file_roots(s))]
    res = analyse(build, srcs, lambda r: prop in root_props(r) and wanted(r))
    kinds = MEMORY | KINDS.get(prop, set())
    rep.rule("abstract interpretation of the library's MIR from client roots with unknown sizes, lengths and contents: each checked condition and each "
             "built-in memory obligation is entailed by every abstract state that reaches it; a violation is reported only when the abstract state contains a concrete point that refutes it")
    exp = expected()
    fns = set()
    for root, rows, paths, steps, fs, reached, dt in res:
        fns |= set(fs)
        rep.count("client roots")
        rep.count("abstract paths", paths)
        rep.count("interpreted statements", steps)
        short = root.split("::")[-1]
        gaps = False
        seen = set()
        for kind, site, ok, bad, und in rows:
            mine = speaks(kind, prop) or kind in kinds
            if kind == "panics":
                if "calm" in exp.get(short, []):
                    gaps = True
                    if prop in CALM:
                        key = "%s|goes through" % short
                        if bad is not None:
                            rep.bad(key, "the client %s makes only well-formed requests, yet a panic leaves it: %s" % (short, bad))
                        else:
                            rep.undecided(key, und)
                continue
            if kind in ("unsupported", "loop", "engine"):
                gaps = True
                rep.undecided("%s %s %s" % (short, kind, site), und or "")
                continue
            if und is not None or bad is not None:
                gaps = True
            if kind.startswith("check:"):
                seen.add(kind)
            if not mine:
                continue
            key = "%s|%s|%s" % (short, kind, site)
            if bad is not None:
                rep.bad(key, "%s\n  rule: %s" % (bad, WHAT.get(kind, kind)))
            elif und is not None:
                rep.undecided(key, und)
            else:
                rep.count("obligations discharged", ok)
                rep.ok(key, "x%d: %s" % (ok, WHAT.get(kind, kind[6:])))
        if "calm" in exp.get(short, []) and prop in CALM:
            rep.count("clients that only make well-formed requests")
        for kind in exp.get(short, []):
            if kind not in seen and speaks(kind, prop):
                if gaps:
                    rep.undecided("%s|%s" % (short, kind), "not reached, but part of this client could not be interpreted or stops at a violation")
                else:
                    rep.bad("%s|%s|unreached" % (short, kind), "the client %s never gets to the point where '%s' is required: every path panics or diverges before it" % (root, kind[6:]))
    rep.counts["library functions interpreted"] = len(fns)
    rep.notes.append("library functions: " + ", ".join(sorted(fns)))
    rep.floor("client roots", floor_roots)
    if not any(r[0] == "undecided" for r in rep.rows):
        rep.floor("obligations discharged", floor_obl)
    rep.assume("the layout, allocation, arena, formatting, panic and pointer-intrinsic primitives of core, alloc and bumpalo behave as documented (modelled as contracts); "
               "other core code is interpreted from its own MIR")
    return res


# Clients that take long; in quick runs the comparison of builds leaves them to the other properties.
LONG = re.compile(r"retaken|growth|look_|gone_|partial_i|limit_i|_run_|index_|refill|boom8i|extend8i|nth_i4|nth_mut_i4|iseq|folds_i4|taken_|many|_iter_i|take_i")


def builds(rep, release, debug, floor_roots, floor_obl):
    """C31: the same clients against the library with and without debug assertions, compared obligation by obligation."""
    pick = lambda r: not r.endswith("_deep") and (TIER == "thorough" or not LONG.search(r))
    total = 700 if TIER == "thorough" else 380
    rep.rule("abstract interpretation of the library's MIR as built with and without debug assertions, from the same client roots: no obligation is refuted in one build and "
             "discharged in the other, no panic leaves a well-formed request in one build only, and no arithmetic of the library overflows (checked in one, wrapping in the other)")
    exp = expected()
    a = {r[0].split("::")[-1]: r for r in analyse(release, sources(), pick, 120, total / 2)}
    b = {r[0].split("::")[-1]: r for r in analyse(debug, sources(), pick, 120, total / 2)}
    for short in sorted(a):
        rep.count("client roots in both builds")
        one = []
        for r in (a[short], b[short]):
            rep.count("abstract paths", r[2])
            rep.count("interpreted statements", r[3])
            rows = {(k, s): (ok, bad, und) for k, s, ok, bad, und in r[1] if k != "panics" or "calm" in exp.get(short, [])}
            one.append((rows, any(v[1] is not None or v[2] is not None for v in rows.values())))
        for k, s in sorted(set(one[0][0]) | set(one[1][0])):
            key = "%s|%s|%s" % (short, k, s)
            va, vb = (x[0].get((k, s), (0, None, None)) for x in one)
            for (mine, other, where, gaps, have) in ((va, vb, "without", one[1][1], (k, s) in one[1][0]), (vb, va, "with", one[0][1], (k, s) in one[0][0])):
                if mine[1] is not None and other[1] is None and other[2] is None and (have or not gaps):
                    rep.bad(key, "only in a build %s debug assertions: %s" % (where, mine[1]))
                elif mine[1] is not None and k == "wrap":
                    rep.bad(key, "panics where overflow is checked and wraps around where it is not: " + mine[1])
                elif mine[2] is not None or (mine[1] is not None and other[1] is None):
                    rep.undecided(key, mine[2] or mine[1])
            if va[1] is None and va[2] is None and vb[1] is None and vb[2] is None:
                if va[0] and vb[0] or k.startswith("check:") is False:
                    rep.count("obligations alike", 1)
                    rep.ok(key, "x%d without and x%d with debug assertions" % (va[0], vb[0]))
        for k in exp.get(short, []):
            if k.startswith("check:"):
                seen = [any(x == k for x, s in rows) for rows, gaps in one]
                for n, w in ((0, "without"), (1, "with")):
                    if not seen[n] and seen[1 - n] and not one[n][1]:
                        rep.bad("%s|%s|unreached" % (short, k), "in a build %s debug assertions the client %s never gets to the point where '%s' is required, in the other it does" % (w, short, k[6:]))
    rep.floor("client roots in both builds", floor_roots)
    if not any(r[0] == "undecided" for r in rep.rows):
        rep.floor("obligations alike", floor_obl)
    rep.assume("debug assertions of core and alloc are not compiled into the shipped standard library and play no part")
