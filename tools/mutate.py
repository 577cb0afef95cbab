#!/usr/bin/env python3
"""Mutation testing of the checks, in private mount namespaces (a scratch copy is mounted over /repo for one process tree).

  mutate.py gen  OUT.json              mechanical mutants of the library's sources
  mutate.py pick IN.json OUT.json      those that build and pass the stable tests
  mutate.py run  IN.json OUT.json      what each check says about each of them
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUT_DIR", "/tmp/mut")
FILES = ["varlen/src/%s.rs" % n for n in ("array", "array_init", "lib", "macro_support", "marker", "newtype", "owned", "seq", "str", "tuple", "vbox")] + ["varlen_macro/src/lib.rs"]
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
       (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\btrue\b", "false"),
       (r"\bfalse\b", "true"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\bif (?!let)([^{}]+) \{", r"if !(\1) {"), (r"\bif (?!let)([^{}]+) \{", r"if true || \1 {"),
       (r"checked_add\(([^()]*)\)\?", r"wrapping_add(\1)"), (r"checked_mul\(([^()]*)\)\?", r"wrapping_mul(\1)"), (r"size_of::<", "align_of::<"), (r"align_of::<", "size_of::<"),
       (r"\bT::ALIGN\b", "1"), (r"\bunsafe fn\b", "fn"), (r"\bunsafe trait\b", "trait"), (r"\?$", ""), (r" \+= ", " = "), (r" \+= ", " -= "), (r" -= ", " += "), (r"NEEDS_VDROP\b(?!:)", "NEEDS_VDROP && false"),
       (r"\bpub\(crate\) ", "pub "), (r"Pin<&'?\w* ?mut ([^<>]*)>", r"&mut \1"), (r"\bManuallyDrop::new\(([^()]*)\)", r"\1"), (r"^(\s*)(?!let|use|return|pub|type|const|impl|fn|#|//|\}|unsafe impl|mod)(\S.*;)$", r"\1"), (r": Copy\b", ""), (r"\+ 'a\b", "")]


def gen(out):
    ms = []
    for f in FILES:
        L = open("/repo/" + f).read().split("\n")
        intest = False
        for i, l in enumerate(L):
            s = l.strip()
            if s.startswith("#[cfg(test)]"):
                intest = True
            if intest or not s or s.startswith("//") or s.startswith("#") or s.startswith("use "):
                continue
            seen = set()
            for a, b in OPS:
                for m in re.finditer(a, l):
                    n = l[:m.start()] + m.expand(b) + l[m.end():]
                    if "//" in l[:m.start()] or n in seen or n == l:
                        continue
                    seen.add(n)
                    ms.append({"id": "m%04d" % len(ms), "edits": [[f, i, l, n]]})
    json.dump(ms, open(out, "w"), indent=0)
    print(len(ms))


slots = {}
free = []
lk = threading.Lock()


def slot():
    with lk:
        if free:
            return free.pop()
        n = len(slots)
        slots[n] = "%s/s%d" % (W, n)
    os.makedirs(W, exist_ok=True)
    shutil.rmtree(slots[n], ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", slots[n]])
    os.makedirs(slots[n] + ".ev", exist_ok=True)
    return n


def apply(d, m):
    for f, i, l, n in m.get("edits", ()):
        p = d + "/" + f
        L = open(p).read().split("\n")
        assert L[i] == l
        L[i] = n
        open(p, "w").write("\n".join(L))
    for f, a, b in m.get("subs", ()):
        p = d + "/" + f
        s = open(p).read()
        # Comment and blank lines between the lines of the pattern do not matter.
        r = re.compile(r"\n(?:[ \t]*(?://[^\n]*)?\n)*".join(re.escape(x) for x in a.split("\n")))
        k = len(r.findall(s))
        if k != 1:
            raise Exception("%s: %d matches of %r" % (m["id"], k, a))
        open(p, "w").write(r.sub(lambda _: b, s))
    if "patch" in m:
        subprocess.run(["git", "apply", m["patch"]], cwd=d, check=True)


def inside(n, cmd, timeout, env=None):
    d = slots[n]
    e = dict(os.environ)
    e.update(env or {})
    script = "mount --bind %s /repo && mount --bind %s.ev %s/evidence && exec %s" % (d, d, V, cmd)
    try:
        r = subprocess.run(["unshare", "-Urm", "--pid", "--fork", "--kill-child", "bash", "-c", script], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def reset(n):
    subprocess.run("git checkout -q -- . ", shell=True, cwd=slots[n])


def pick1(m):
    n = slot()
    try:
        try:
            apply(slots[n], m)
        except Exception as e:
            return dict(m, state="badpatch", why=str(e))
        rc, o = inside(n, "bash -c 'timeout 100 bash /opt/vp/build.sh'", 120)
        if rc:
            return dict(m, state="nobuild", why=[l for l in o.splitlines() if l.startswith("error")][:3])
        o2 = "%s.ev/t.json" % slots[n]
        rc, o = inside(n, "timeout 100 bash /opt/vp/test.sh %s/evidence/t.json" % V, 130)
        try:
            got = set(json.load(open(o2))["passed"])
        except Exception:
            return dict(m, state="killed")
        os.unlink(o2)
        st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [t for t in st if t not in got]
        return dict(m, state="killed" if miss else "survives")
    finally:
        reset(n)
        with lk:
            free.append(n)


def run1(m):
    n = slot()
    t = time.time()
    try:
        apply(slots[n], m)
        rc, o = inside(n, "python3 %s/tools/allprops.py %s" % (V, m.get("prop", "")), 1500, {"VSA_PROCS": os.environ.get("VSA_PROCS", "2"), "VSA_SCRATCH": "%s/cache%d" % (W, n)})
        i = o.rfind("RESULT ")
        res = json.loads(o[i + 7:].splitlines()[0]) if i >= 0 else {"error": o[-1500:]}
        return dict(m, res=res, secs=round(time.time() - t))
    finally:
        reset(n)
        with lk:
            free.append(n)


def each(fn, inp, out, k):
    ms = json.load(open(inp))
    done = {}
    if os.path.exists(out):
        done = {m["id"]: m for m in json.load(open(out))}
    todo = [m for m in ms if m["id"] not in done]
    with concurrent.futures.ThreadPoolExecutor(k) as ex:
        for c, r in enumerate(ex.map(fn, todo)):
            done[r["id"]] = r
            print(r["id"], r.get("state") or "", r.get("why", ""), json.dumps(r.get("res", ""))[:300], r.get("secs", ""), flush=True)
            if c % 10 == 0 or c == len(todo) - 1:
                json.dump(list(done.values()), open(out + ".tmp", "w"), indent=0)
                os.rename(out + ".tmp", out)


if __name__ == "__main__":
    c = sys.argv[1]
    if c == "gen":
        gen(sys.argv[2])
    elif c == "pick":
        each(pick1, sys.argv[2], sys.argv[3], int(os.environ.get("K", "6")))
    else:
        each(run1, sys.argv[2], sys.argv[3], int(os.environ.get("K", "4")))
