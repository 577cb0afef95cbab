"""Item-level audits over the type-checked library: every exported signature, implementation and field."""
import json, os, re
from common import *


def load(build):
    d = {}
    for c in ("varlen", "varlen_example"):
        p = os.path.join(build.out, c + ".json")
        if os.path.exists(p):
            with open(p) as f:
                d[c] = json.load(f)["api"]
    return d


def mut_outputs(rep, build, extra=()):
    """C15: no exported safe function yields `&mut X` for a variable-length X that is not Unpin."""
    rep.rule("no reachable safe function of the library or of generated code returns a type containing `&mut X` "
             "(outside Pin) where X is a variable-length type that is not Unpin")
    for c, api in list(load(build).items()) + list(extra):
        for f in api["fns"]:
            rep.count("function signatures")
            if not f["safe"]:
                continue
            bad = [m["to"] for m in f["out_muts"] if m["varlen"] and not m["unpin"]]
            if bad and (f["pub"] or c != "varlen"):
                rep.bad("mut-output:" + f["path"], "%s returns %s, which contains an unpinned `&mut %s` (%s)" % (f["path"], f["output"], bad[0], f["span"]))
        rep.ok("signatures:" + c, "%d function signatures" % len(api["fns"]))
        for a in api["adts"]:
            for x in a["fields"]:
                if a["pub"] and x["pub"] and re.match(r"^&('\w+ )?mut (?!\[)", x["ty"]) and "Pin" not in x["ty"]:
                    t = re.sub(r"^&('\w+ )?mut ", "", x["ty"])
                    rep.count("public mutable-reference fields")
    rep.floor("function signatures", 180)


def raw_inputs(rep, build):
    """C22: an exported safe function takes no raw pointer."""
    rep.rule("no exported safe function of the library takes a raw pointer or NonNull parameter; no exported "
             "structure has a public raw-pointer field")
    api = load(build)["varlen"]
    for f in api["fns"]:
        if f["pub"]:
            rep.count("exported functions")
        if f["pub"] and f["safe"]:
            raw = [i for i in f["inputs"] if re.search(r"\*(mut|const) |NonNull<", i)]
            if raw:
                rep.bad("raw-input:" + f["path"], "the safe function %s accepts a raw pointer: %s (%s)" % (f["path"], raw, f["span"]))
    for a in api["adts"]:
        for x in a["fields"]:
            if a["pub"] and x["pub"] and re.search(r"\*(mut|const) |NonNull<", x["ty"]):
                rep.bad("raw-field:" + a["path"] + "." + x["name"], "%s has the public field %s: %s" % (a["path"], x["name"], x["ty"]))
    rep.ok("signatures:raw", "no safe raw-pointer parameters")
    rep.floor("exported functions", 90)


def auto_impls(rep, build):
    """C23: hand-written Send/Sync must bound every component."""
    rep.rule("a hand-written Send or Sync implementation in the library must be conditional on every type parameter")
    for c, api in load(build).items():
        for i in api["impls"]:
            rep.count("trait implementations")
            t = i["trait"].split("::")[-1]
            if i["trait"].startswith("core::marker::") and t in ("Send", "Sync") and not i["negative"]:
                params = set(re.findall(r"\b([A-Z]\w*)\b(?!::)", i["self"].split("<", 1)[1])) if "<" in i["self"] else set()
                params = {p for p in params if any(q.startswith(p + ":") for q in i["preds"])}
                free = [p for p in params if not any(re.match(r"^%s: .*(Send|Sync)$" % p, q) for q in i["preds"])]
                if free or not params:
                    rep.bad("auto:%s for %s" % (t, i["self"]), "%s is granted to %s without requiring it of %s (%s)" % (t, i["self"], free or "its contents", i["span"]))
    rep.ok("auto-impls", "no unconditional Send/Sync")
    rep.floor("trait implementations", 80)


def no_std(rep, build):
    rep.rule("with every combination of the optional features, the crates linked into the library are core, alloc and the "
             "dependencies of the enabled features; std is never among them")
    combos = [(), ("macro",), ("bumpalo",), ("macro", "bumpalo")]
    drv = build.drv
    import subprocess, tempfile
    for fs in combos:
        key = "features:" + ("+".join(fs) or "none")
        out = os.path.join(build.dir, "feat-" + ("_".join(fs) or "none"))
        os.makedirs(out, exist_ok=True)
        j = os.path.join(out, "varlen.json")
        with Lock(os.path.join(build.dir, "lock-feat")):
            if not os.path.exists(j):
                env = dict(build.env)
                env["VSA_OUT"] = out
                env["VSA_DUMP"] = "varlen"
                env["CARGO_TARGET_DIR"] = os.path.join(out, "target")
                wd = os.path.join(out, "client")
                os.makedirs(os.path.join(wd, "src"), exist_ok=True)
                shutil.copy(os.path.join(VERIF, "witness/deps/Cargo.lock"), os.path.join(wd, "Cargo.lock"))
                with open(os.path.join(wd, "Cargo.toml"), "w") as f:
                    f.write('[workspace]\n[package]\nname = "wdeps"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n'
                            'varlen = { path = "%s/varlen", features = [%s] }\n' % (REPO, ", ".join('"%s"' % x for x in fs)))
                with open(os.path.join(wd, "src/lib.rs"), "w") as f:
                    f.write("#![no_std]\npub use varlen;\n")
                r = sh(["cargo", "check", "--offline"], cwd=wd, env=env)
                if r.returncode != 0:
                    rep.bad(key, "the library does not build with features %s:\n%s" % (list(fs), r.stdout[-3000:]))
                    continue
                shutil.rmtree(env["CARGO_TARGET_DIR"], ignore_errors=True)
        with open(j) as f:
            crates = json.load(f)["api"]["crates"]
        rep.count("feature combinations")
        allowed = {"core", "alloc", "compiler_builtins"}
        if "macro" in fs:
            allowed |= {"varlen_macro"}
        if "bumpalo" in fs:
            allowed |= {"bumpalo"}
        extra = [c for c in crates if c not in allowed]
        if extra:
            rep.bad(key, "the library links %s with features %s" % (extra, list(fs)))
        else:
            rep.ok(key, "links only %s" % crates)
    rep.floor("feature combinations", 4)


def borrows(rep, build):
    """C21: what an exported safe function hands out is bounded by what it was given."""
    rep.rule("the lifetime of everything an exported safe function returns comes from a parameter; a borrowed exclusive handle never yields its own, longer lifetime")
    api = load(build)["varlen"]
    for f in api["fns"]:
        if not (f["pub"] and f["safe"]):
            continue
        rep.count("exported safe functions")
        outs = [r for r in f["out_regions"] if r.startswith("early ") or r == "static"]
        if not outs:
            continue
        rep.count("functions whose result carries a lifetime")
        given = [r for i in f["in_regions"] for r in i]
        refs = [i for i in f["inputs"] if i.startswith("&") or "<'_" in i]
        loose = [r for r in outs if r not in given]
        if loose and refs:
            rep.bad("lifetime:" + f["path"], "%s takes %s but returns %s with the lifetime %s of its own choosing (%s)" % (f["path"], f["inputs"], f["output"], loose[0], f["span"]))
        if f["inputs"] and f["inputs"][0].startswith("&") and f["in_regions"][0] and f["in_regions"][0][0].startswith("bound"):
            m = re.match(r"&(mut )?(?:core::pin::Pin<&(?:mut )?)?(seq::IterMut|seq::OwnedElems|owned::Owned)<", f["inputs"][0])
            own = set(f["in_regions"][0][1:]) & set(outs)
            if m and own and (not m.group(1) or m.group(2) == "owned::Owned"):
                rep.bad("reborrow:" + f["path"], "%s borrows %s for a moment but returns %s for the handle's whole lifetime (%s)" % (f["path"], f["inputs"][0], f["output"], f["span"]))
    rep.ok("signatures:lifetimes", "every returned lifetime is bounded")
    rep.floor("exported safe functions", 70)
    rep.floor("functions whose result carries a lifetime", 10)


def owners(rep, build):
    """C22: an owning handle is only made out of something that owns or builds."""
    rep.rule("an exported safe function that returns an owning handle (a box, an arena object, taken elements) takes an initializer, an owner, or a source of generic type; never a mere reference")
    api = load(build)["varlen"]
    for f in api["fns"]:
        if not (f["pub"] and f["safe"]):
            continue
        if not re.search(r"\b(owned::Owned|vbox::VBox|seq::OwnedElems)<", f["output"]) or f["output"].startswith("&"):
            continue
        rep.count("makers of owning handles")
        clone = f.get("trait") == "core::clone::Clone"
        src = [i for i in f["inputs"] if re.search(r"Initializer<", i) or re.match(r"^[A-Z]\w*$", i) or i.startswith("impl ") or
               re.match(r"^(owned::Owned|vbox::VBox|seq::OwnedElems|seq::Seq|&mut seq::OwnedElems|&mut seq::Seq%s)<" % ("|&vbox::VBox" if clone else ""), i)]
        if not src:
            rep.bad("owner:" + f["path"], "the safe function %s makes %s out of %s, none of which owns or builds anything (%s)" % (f["path"], f["output"], f["inputs"], f["span"]))
    rep.ok("signatures:owners", "every maker of an owning handle has a source")
    rep.floor("makers of owning handles", 4)


def texts(rep, build):
    """C17: initializers of strings are only made from text."""
    rep.rule("an exported safe function that returns an initializer specific to strings takes a `str`, a string object or such an initializer; such a type has no public field")
    api = load(build)["varlen"]
    special = set()
    for i in api["impls"]:
        if i["trait"] == "varlen::Initializer" and any(re.match(r"str::Str\b", q) for q in i["args"]):
            h = re.match(r"^([\w:]+)", i["self"]).group(1)
            if h not in ("vbox::VBox", "owned::Owned", "VCopier"):
                special.add(h)
    rep.counts["string initializer types"] = len(special)
    text = re.compile(r"&str\b|\bstr::Str<|\bstr::Str\b|" + "|".join(re.escape(x) + r"\b" for x in sorted(special)) if special else r"&str\b")
    for f in api["fns"]:
        if not (f["pub"] and f["safe"]):
            continue
        out = [x for x in special if re.search(r"(^|[^\w:])%s\b" % re.escape(x), f["output"])]
        if out:
            rep.count("makers of string initializers")
            if not any(text.search(i) for i in f["inputs"]):
                rep.bad("text:" + f["path"], "the safe function %s makes %s out of %s (%s)" % (f["path"], f["output"], f["inputs"], f["span"]))
    for a in api["adts"]:
        if a["path"].split("varlen::", 1)[-1] in special:
            for x in a["fields"]:
                if a["pub"] and x["pub"]:
                    rep.bad("text-field:" + a["path"], "%s, which initializes strings, has the public field %s: %s" % (a["path"], x["name"], x["ty"]))
    rep.ok("signatures:texts", "every maker of a string initializer starts from text")
    rep.floor("string initializer types", 2)
    rep.floor("makers of string initializers", 3)
