"""seed.py new ID PROP 'needs' 'breaks' < patch-on-stdin ; seed.py confirm ID... ; confirms planted bugs in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/scr/r"


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def sync():
    os.makedirs(S, exist_ok=True)
    if not os.path.isdir(S + "/.git"):
        sh("cp -a /repo/. " + S)
    sh("git checkout -q -- . && git pull -q /repo HEAD 2>&1 || true", S)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", S)


def script(name):
    t = open("/opt/vp/env.sh").read().replace("/repo", S)
    u = open("/opt/vp/" + name).read().replace("/repo", S).replace(". /opt/vp/env.sh", t)
    p = "/tmp/scr/" + name
    open(p, "w").write(u)
    return p


def confirm(i):
    d = os.path.join(V, "seeded", i)
    sync()
    def demo():
        # The demo runs from a folder of its own.
        shutil.rmtree("/tmp/scr/demo", ignore_errors=True)
        shutil.copytree(d, "/tmp/scr/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        env = {k: v for k, v in os.environ.items() if not k.startswith("VSA")}
        r = sh("timeout 280 bash /tmp/scr/demo/demo.sh", S, env)
        return r.returncode, r.stdout[-1500:]
    msgs = []
    rc, out = demo()
    if rc != 0:
        msgs.append("demo fails on the clean tree: " + out)
    r = sh("git apply " + d + "/patch.diff", S)
    if r.returncode:
        return ["patch does not apply: " + r.stdout]
    try:
        r = sh("bash " + script("build.sh"))
        if r.returncode:
            return ["build fails: " + r.stdout[-2000:]]
        sh("bash " + script("test.sh") + " /tmp/scr/o.json")
        got = json.load(open("/tmp/scr/o.json"))
        st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [t for t in st if t not in set(got["passed"])]
        if miss:
            msgs.append("stable tests fail: %s" % miss[:5])
        rc, out = demo()
        if rc == 0:
            msgs.append("demo passes with the patch: " + out)
        else:
            print("   demo with patch rc=%d: %s" % (rc, out.strip()[-200:].replace("\n", " | ")))
    finally:
        sh("git checkout -q -- .", S)
    return msgs


DEMO = """#!/bin/bash
# Builds main.rs against the tree in the current directory and %s.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<EOF
[workspace]
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
varlen = { path = "$repo/varlen", features = ["macro", "bumpalo"] }
bumpalo = "3"
EOF
cd "$w"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$w/target" RUSTC_WRAPPER=
%s
"""
RUN = "timeout 200 cargo run -q --offline"
MUSTFAIL = """if cargo check -q --offline --features good 2>/dev/null; then :; fi
if cargo check -q --offline; then echo "a forbidden program compiles"; exit 1; fi
# The rejection is for the marked line only: without it the program compiles.
sed -i '/FORBIDDEN/d' src/main.rs
cargo check -q --offline || exit 1"""


def new(i, prop, needs, breaks, main, mustfail=False, patch=None):
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    if patch is not None:
        open(d + "/patch.diff", "w").write(patch)
    open(d + "/main.rs", "w").write(main)
    mf = MUSTFAIL.split("\n", 1)[1]
    open(d + "/demo.sh", "w").write(DEMO % (("expects it to be rejected", mf) if mustfail else ("runs it", RUN + (" --release" if "// release build" in main else ""))))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


def mkpatch(edits):
    """edits: [(file, old, new)] -> patch text against /repo HEAD."""
    sync()
    for f, a, b in edits:
        p = os.path.join(S, f)
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    t = sh("git diff", S).stdout
    sh("git checkout -q -- .", S)
    return t


if __name__ == "__main__":
    for i in (sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded")))):
        m = confirm(i)
        print(i, "OK" if not m else m)
