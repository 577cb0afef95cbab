"""Paths, building, caching and reporting shared by all checks."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SCRATCH = os.environ.get("VSA_SCRATCH", "/tmp/vsa-cache")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
_sysroot = None


class Broken(Exception):
    """The analysed program could not be built: an anchor is missing."""


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    return _sysroot


def _files(root, skip=("target", ".git", "node_modules")):
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            yield os.path.join(d, f)


def _hash(roots):
    h = hashlib.sha256()
    for r in roots:
        for f in ([r] if os.path.isfile(r) else _files(r)):
            h.update(f.encode())
            try:
                with open(f, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
            h.update(b"\0")
    return h.hexdigest()[:20]


class Lock:
    def __init__(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.f = open(path, "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def driver():
    """Builds the rustc driver if this tree does not have it yet."""
    src = os.path.join(VERIF, "driver")
    h = _hash([src])
    out = os.path.join(VERIF, ".build", "vdriver-" + h)
    if not os.path.exists(out):
        with Lock(os.path.join(VERIF, ".build", "lock")):
            if not os.path.exists(out):
                r = sh(["rustc", "+nightly", "--edition", "2021", "-O", "-Awarnings", "main.rs", "-o", out + ".tmp"], cwd=src)
                if r.returncode != 0:
                    raise Exception("driver does not build:\n" + r.stdout)
                os.rename(out + ".tmp", out)
    return out


def repo_hash():
    return _hash([os.path.join(REPO, x) for x in ("Cargo.toml", "varlen", "varlen_macro", "varlen_example")])


class Build:
    """One dependency build of /repo's working tree, in scratch space keyed by its content."""

    def __init__(self, debug=False):
        """`debug`: with debug assertions compiled in."""
        self.h = _hash([os.path.join(VERIF, "driver"), os.path.join(VERIF, "witness", "deps", "Cargo.lock"), os.path.join(VERIF, "witness", "deps")]) + "-" + repo_hash() + ("-debug" if debug else "")
        self.dir = os.path.join(SCRATCH, self.h)
        self.target = os.path.join(self.dir, "target")
        self.out = os.path.join(self.dir, "out")
        os.makedirs(self.out, exist_ok=True)
        self.drv = driver()
        self.env = {
            "RUSTC_WRAPPER": self.drv,
            "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"),
            "CARGO_TARGET_DIR": self.target,
            "CARGO_NET_OFFLINE": "true",
            "VSA_OUT": self.out,
            "VSA_DUMP": "varlen,varlen_example",
            "RUSTUP_TOOLCHAIN": "nightly",
            "RUSTFLAGS": "",
            "VSA_DEBUG_ASSERTIONS": "on" if debug else "off",
        }
        with Lock(os.path.join(self.dir, "lock")):
            ok = os.path.join(self.dir, "deps.json")
            if not os.path.exists(ok):
                r = sh(["cargo", "check", "--offline", "--message-format=json"], cwd=os.path.join(VERIF, "witness", "deps"), env=self.env)
                arts = {}
                for l in r.stdout.splitlines():
                    if l.startswith("{"):
                        m = json.loads(l)
                        if m.get("reason") == "compiler-artifact":
                            arts[m["target"]["name"]] = m["filenames"]
                if r.returncode != 0:
                    raise Broken("the library does not build:\n" + "\n".join(l for l in r.stdout.splitlines() if not l.startswith("{"))[-4000:]
                                 + "\n".join(json.loads(l).get("message", {}).get("rendered", "") for l in r.stdout.splitlines() if l.startswith('{"reason":"compiler-message"')))
                with open(ok, "w") as f:
                    json.dump(arts, f)
            with open(ok) as f:
                self.arts = json.load(f)
        self._gc()

    def _gc(self):
        now = time.time()
        try:
            for d in os.listdir(SCRATCH):
                p = os.path.join(SCRATCH, d)
                if d != self.h and os.path.isdir(p) and now - os.path.getmtime(p) > 900:
                    shutil.rmtree(p, ignore_errors=True)
        except OSError:
            pass
        try:
            os.utime(self.dir)
        except OSError:
            pass

    def rmeta(self, name):
        return [f for f in self.arts[name] if f.endswith(".rmeta")][0]

    def rustc_args(self):
        a = ["--edition", "2021", "--extern", "varlen=" + self.rmeta("varlen"), "--extern", "bumpalo=" + self.rmeta("bumpalo")]
        for d in sorted({os.path.dirname(f) for fs in self.arts.values() for f in fs}):
            a += ["-L", "dependency=" + d]
        return a

    def dump(self, src, name, cfgs=()):
        """Runs the driver on one witness file and returns the dumped program."""
        with open(self.dump_path(src, name, cfgs)) as f:
            return json.load(f)

    def dump_path(self, src, name, cfgs=()):
        p = os.path.join(VERIF, "witness", src)
        with open(p, "rb") as f:
            k = hashlib.sha256(f.read() + repr(cfgs).encode() + _hash([os.path.join(VERIF, "witness", "sem")]).encode()).hexdigest()[:12]
        d = os.path.join(self.out, name + "-" + k)
        j = os.path.join(d, name + ".json")
        with Lock(os.path.join(self.dir, "lock-" + name)):
            if not os.path.exists(j):
                os.makedirs(d, exist_ok=True)
                env = dict(self.env)
                env["VSA_OUT"] = d
                env["VSA_DUMP"] = name
                cmd = [self.drv, "rustc", "--crate-name", name, "--crate-type", "lib", "--emit=metadata", "-o", os.path.join(d, "lib%s.rmeta" % name), "--cap-lints=allow"]
                for c in cfgs:
                    cmd += ["--cfg", c]
                r = sh(cmd + self.rustc_args() + [p], env=env)
                if r.returncode != 0 or not os.path.exists(j):
                    shutil.rmtree(d, ignore_errors=True)
                    raise Broken("witness %s does not build against the library:\n%s" % (src, r.stdout[-6000:]))
        return j


def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                _, prop, key, what = l.split(" ", 3)
                out[(prop.split("=")[1], key)] = what
    return out


class Report:
    """Collects obligations of one property, prints them, writes evidence, sets the exit code."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.rows = []      # (status, key, text)
        self.notes = []
        self.counts = {}
        self.assumptions = []
        self.rules = []

    def ok(self, key, text=""):
        self.rows.append(("ok", key, text))

    def bad(self, key, text):
        self.rows.append(("bad", key, text))

    def undecided(self, key, text):
        self.rows.append(("undecided", key, text))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def floor(self, name, n):
        got = self.counts.get(name, 0)
        if got < n:
            self.bad("floor:" + name, "only %d %s analysed, expected at least %d: an anchor is missing" % (got, name, n))
        else:
            self.notes.append("%s: %d (floor %d)" % (name, got, n))

    def finish(self):
        kf = known_findings()
        bad = []
        seen = set()
        for st, key, text in self.rows:
            if st != "bad" or key in seen:
                continue
            seen.add(key)
            if (self.prop, key) in kf:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, kf[(self.prop, key)]))
            else:
                bad.append((key, text))
        und = [(k, t) for s, k, t in self.rows if s == "undecided"]
        good = [r for r in self.rows if r[0] == "ok"]
        print("property %s: %d obligations, %d discharged, %d undecided, %d violated" % (self.prop, len(self.rows), len(good), len(und), len(bad)))
        for r in self.rules:
            print("  rule: " + r)
        for k in sorted(self.counts):
            print("  analysed: %d %s" % (self.counts[k], k))
        for n in self.notes:
            print("  " + n)
        for k, t in und:
            print("  UNDECIDED %s: %s" % (k, t.splitlines()[0] if t else ""))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        replay = os.path.join(VERIF, "evidence", self.prop + ".report.txt")
        with open(replay, "w") as f:
            f.write("property %s\n" % self.prop)
            for r in self.rules:
                f.write("rule: %s\n" % r)
            for k, t in bad:
                f.write("\nVIOLATED %s\n%s\n" % (k, t))
            for k, t in und:
                f.write("\nundecided %s\n%s\n" % (k, t))
            f.write("\n")
            for _, k, t in good:
                f.write("discharged %s %s\n" % (k, t))
        ev = {
            "property": self.prop, "tier": "thorough" if TIER == "thorough" else "quick", "seed": SEED, "level": "other",
            "coverage": {
                "explanation": "Static analysis of /repo's current source. Rules: " + " | ".join(self.rules),
                "obligations": len(self.rows), "discharged": len(good), "undecided": len(und),
                "analysed": self.counts,
                "samples": ["%s %s" % (k, t) for _, k, t in good[:: max(1, len(good) // 12)]][:14],
            },
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(bad),
        }
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, t in bad[:20]:
            print("  VIOLATED %s" % k)
            for l in t.splitlines()[:40]:
                print("    " + l)
        if bad:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        return 0
