"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TW = "compile-fail witnesses: forbidden programs rejected, permitted twins accepted by the type checker"
AI = "abstract interpretation of the compiler's MIR (linear/polyhedral domain, trace partitioning, inductive loop generalisation) from client roots with unknown sizes"
AIN = "Sizes, lengths and contents are unknown values, so one root covers all of them; the shape of the client (which operations, how many elements) is fixed per root."
CLAIMS = {
    "C15": ("audit of every safe signature for unpinned mutable references; " + TW, "Decides the Unpin and signature rules over the library's whole interface; forbidden programs sample the ways around them."),
    "C21": ("audit of the lifetimes in every exported safe signature; " + TW, "Lifetimes are decided by the borrow checker for every pair of borrowing operation and conflicting use."),
    "C22": ("audit of exported signatures for raw-pointer inputs and for owning results; " + TW, "Every unsafe operation, trait and certified value has a forbidden program."),
    "C23": ("audit of Send/Sync implementations; " + TW, "Every handle and type crossed with thread-bound component types."),
    "C25": (TW, "One forbidden definition per unsupported shape."),
    "C26": (TW, "Every visibility crossed with every generated item, seen from inside and outside its scope."),
    "C27": ("linked-crate audit over feature combinations; " + TW, "Crate graph read from the compiler for every feature combination; hygiene decided by name resolution."),
}
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C20", "C28", "C29", "C30"):
    CLAIMS[p] = (AI, AIN)
for p, n in (("C16", "The forbidden programs cover the direct ways and those through interior mutability."),
             ("C17", "The forbidden programs cover every way safe code could build or reach string bytes that the interface offers today."),
             ("C18", "The forbidden programs show that the set of length types is closed."),
             ("C19", "Every component position of every composite is tried with a component that is not plain-copyable."),
             ("C24", "The forbidden programs show that parts cannot be moved out of the value.")):
    CLAIMS[p] = (AI + "; " + TW, AIN + " " + n)
CLAIMS["C31"] = (AI + ", run on the library as built with and without debug assertions and compared", AIN)
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in CLAIMS:
        t, n = CLAIMS[p]
        m["checks"].append({"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
                            "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
