#!/usr/bin/env python3
"""Runs checks on one mutant and prints one RESULT line. allprops.py C05 ...: these checks, in full; no arguments: every client, until something is violated."""
import contextlib, io, json, multiprocessing, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vsa"))
import common, sem, check

res = {}


def one(p):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        rc = check.run(p)
    t = o.getvalue()
    und = [l.strip()[:200] for l in t.splitlines() if l.strip().startswith("UNDECIDED")]
    with open(os.path.join(common.VERIF, "evidence", p + ".report.txt")) as f:
        bad = [l[9:-1][:160] for l in f if l.startswith("VIOLATED ")]
    if rc or und:
        res[p] = {"rc": rc, "bad": bad[:4], "nbad": len(bad), "und": und[:3], "nund": len(und)}
    return rc


def first():
    b = common.Build()
    jobs = []
    end = time.time() + 900
    for s in sem.sources():
        p = b.dump_path("sem/%s.rs" % s, "w_" + s)
        with open(p) as f:
            jobs += [(p, r, 120, end) for r in sorted(json.load(f)["roots"]) if sem.wanted(r)]
    exp = sem.expected()
    und = []
    slow = lambda r: sum(x in r for x in ("growth", "retaken", "partial_i", "limit_i", "boom8i", "more8i"))
    jobs.sort(key=lambda j: slow(j[1]))
    with multiprocessing.Pool(int(os.environ.get("VSA_PROCS", "2")), initializer=sem.limits) as pool:
        for r, rows, *_ in pool.imap(sem.work, jobs, chunksize=1):
            short = r.split("::")[-1]
            if "calm" not in exp.get(short, []) or not sem.CALM & set(sem.root_props(r)):
                rows = [x for x in rows if x[0] != "panics"]
            bad = [(k, s) for k, s, ok, bd, un in rows if bd]
            un = [(k, s, un[:150]) for k, s, ok, bd, un in rows if un]
            if not un and not bad:
                seen = {k for k, *_ in rows}
                bad += [(k, "unreached") for k in exp.get(short, []) if k not in seen and k != "calm"]
            und += [(short,) + u for u in un]
            if bad:
                ps = sorted({k[6:9].upper() if k.startswith("check:") else "mem" for k, s in bad} | set(sem.root_props(r)))
                res["first"] = [short, ps, bad[:3]]
                pool.terminate()
                return
    res["und"] = und[:5]
    for p in ("C15", "C16", "C17", "C18", "C19", "C21", "C22", "C23", "C24", "C25", "C26", "C27"):
        check.sem.run = lambda *a: None
        if one(p):
            return


try:
    if sys.argv[1:]:
        for p in sys.argv[1:]:
            one(p)
    else:
        first()
except common.Broken as e:
    res["broken"] = str(e)[-300:]
print("RESULT " + json.dumps(res))
