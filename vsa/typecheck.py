"""Compile-fail witnesses: every forbidden program must be rejected by the type checker, and its twin,
which differs only by the marked lines, must be accepted.

A case is one source text. Lines ending in `//~ BAD` (or `//~ BADx` with a label) exist only in the
forbidden programs, lines ending in `//~ GOOD` only in the accepted twin.
"""
import concurrent.futures, hashlib, json, os, re, subprocess, tempfile
from common import *

BAD = re.compile(r"//~ BAD(\w*)((?: E\d{4})*)\s*$")


def split(code):
    """code -> (good text, {label: (bad text, bad line numbers, expected codes)})"""
    lines = code.split("\n")
    labels = {}
    for l in lines:
        m = BAD.search(l)
        if m:
            labels.setdefault(m.group(1), set()).update(m.group(2).split())
    good = "\n".join(l for l in lines if not BAD.search(l))
    bads = {}
    for lab, codes in labels.items():
        out, nums = [], []
        for l in lines:
            m = BAD.search(l)
            if m:
                if m.group(1) == lab:
                    out.append(l)
                    nums.append(len(out))
            elif l.rstrip().endswith("//~ GOOD"):
                continue
            else:
                out.append(l)
        bads[lab] = ("\n".join(out), nums, codes)
    return good, bads


def compile_one(build, text, wd, name, extra=()):
    src = os.path.join(wd, name + ".rs")
    with open(src, "w") as f:
        f.write(text)
    cmd = ["rustc", "+nightly", "--crate-name", "w", "--crate-type", "lib", "--emit=metadata", "-o", os.path.join(wd, name + ".rmeta"),
           "--error-format=json", "--cap-lints=allow"] + list(extra) + build.rustc_args() + [src]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    errs = []
    for l in r.stderr.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("level", "").startswith("error") and m.get("spans") is not None:
                if m.get("message", "").startswith("aborting due"):
                    continue
                code = (m.get("code") or {}).get("code")
                ls = set()
                for s in m["spans"]:
                    e = s
                    while e:
                        if e["file_name"] == src:
                            ls.update(range(e["line_start"], e["line_end"] + 1))
                        e = (e.get("expansion") or {}).get("span") if e.get("expansion") else None
                errs.append((code, m["message"], ls))
        elif l.strip():
            errs.append((None, l, set()))
    return r.returncode, errs


def compile_defs(build, text, wd):
    n = "d" + hashlib.sha256(text.encode()).hexdigest()[:16]
    d = os.path.join(wd, n)
    os.makedirs(d)
    src = os.path.join(d, "defs.rs")
    with open(src, "w") as f:
        f.write(text)
    out = os.path.join(d, "libdefs.rmeta")
    cmd = ["rustc", "+nightly", "--crate-name", "defs", "--crate-type", "lib", "--emit=metadata", "-o", out, "--cap-lints=allow"] + build.rustc_args() + [src]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    return (out if r.returncode == 0 else None), r.stdout[-3000:]


def run_cases(rep, cases, build, min_good=1):
    """cases: list of (name, code[, extra rustc args[, code of a crate `defs` it is compiled against]])."""
    wd = tempfile.mkdtemp(prefix="vsa-w-")
    jobs = []
    goods = {}
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        defs = sorted({c[3] for c in cases if len(c) > 3})
        made = dict(zip(defs, ex.map(lambda d: compile_defs(build, d, wd), defs)))
    for c in cases:
        name, code = c[0], c[1]
        extra = c[2] if len(c) > 2 else ()
        if len(c) > 3:
            path, errs = made[c[3]]
            if path is None:
                rep.bad("defs:" + name, "the permitted definitions no longer type-check:\n%s\n--\n%s" % (errs, number(c[3])))
                continue
            extra = tuple(extra) + ("--extern", "defs=" + path)
        good, bads = split(code)
        goods[name] = (good, extra)
        jobs.append((name, None, good, None, None, extra))
        for lab, (text, nums, codes) in bads.items():
            jobs.append((name, lab, text, nums, codes, extra))
    names = [c[0] for c in cases]
    assert len(set(names)) == len(names), "duplicate case names"

    # Identical accepted twins are compiled once.
    memo = {}

    def work(ij):
        i, (name, lab, text, nums, codes, extra) = ij
        return compile_one(build, text, wd, "c%d" % i, extra)
    uniq = {}
    for i, j in enumerate(jobs):
        uniq.setdefault((j[2], tuple(j[5])), (i, j))
    try:
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            for k, res in zip(uniq, ex.map(work, uniq.values())):
                memo[k] = res
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    goodok = {}
    for name, lab, text, nums, codes, extra in jobs:
        rc, errs = memo[(text, tuple(extra))]
        if lab is None:
            goodok[name] = rc == 0
            rep.count("accepted twins")
            if rc == 0:
                rep.ok("accept:" + name, "the permitted program type-checks")
            else:
                rep.bad("accept:" + name, "the permitted program no longer type-checks:\n%s\n--\n%s" % ("\n".join("%s %s" % (e[0], e[1]) for e in errs[:6]), number(text)))
            continue
        rep.count("forbidden programs")
        key = "reject:%s%s" % (name, "." + lab if lab else "")
        if rc == 0:
            rep.bad(key, "a forbidden program type-checks (lines %s):\n%s" % (nums, number(text)))
            continue
        hit = [e for e in errs if (e[0] in codes) or (e[2] & set(nums))]
        if hit:
            rep.ok(key, "rejected: %s %s" % (hit[0][0] or "error", hit[0][1][:120]))
        elif goodok.get(name):
            # The twin, which differs only by the marked lines, is accepted: they are the reason.
            rep.ok(key, "rejected: %s %s" % (errs[0][0] or "error", errs[0][1][:120]) if errs else "rejected")


def number(t):
    return "\n".join("%3d| %s" % (i + 1, l) for i, l in enumerate(t.split("\n")))
