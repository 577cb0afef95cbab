#!/usr/bin/env python3
"""Pretty-print a dumped instance: show.py DUMP SUBSTRING"""
import json, sys
def pl(p):
    s="_%d"%p[0]
    for e in p[1]:
        if e[0]=="*": s="(*%s)"%s
        elif e[0]=="f": s="%s.%d"%(s,e[1])
        elif e[0]=="d": s="(%s as v%d)"%(s,e[1])
        elif e[0]=="i": s="%s[_%d]"%(s,e[1])
        else: s="%s%s"%(s,e)
    return s
def op(o):
    if o[0] in("cp","mv"): return ("move " if o[0]=="mv" else "")+pl(o[1])
    if o[0]=="k":
        c=o[1]
        return "const[%s %s %s %s]"%(c.get("k"),c.get("v",""),c.get("inst",c.get("path","")),c["ty"])
    return str(o)
def rv(r):
    if r[0]=="use": return op(r[1])
    if r[0]=="ref": return "&%s %s"%(r[1],pl(r[2]))
    if r[0]=="bin": return "%s(%s, %s)"%(r[1],op(r[2]),op(r[3]))
    if r[0]=="un": return "%s(%s)"%(r[1],op(r[2]))
    if r[0]=="cast": return "%s as %s (%s)"%(op(r[2]),r[3],r[1])
    if r[0]=="agg": return "%s{%s}"%(r[1],", ".join(map(op,r[2])))
    if r[0]=="discr": return "discr(%s)"%pl(r[1])
    return str(r)
def show(k,b):
    print("fn",k, b.get("span"))
    if "error" in b: print(b); return
    for i,l in enumerate(b["locals"]): print("   let _%d: %s"%(i,l))
    for i,bb in enumerate(b["blocks"]):
        print(" bb%d%s:"%(i," (cleanup)" if bb["c"] else ""))
        for s in bb["s"]:
            if s[0]=="=": print("    %s = %s"%(pl(s[1]),rv(s[2])))
            elif s[0]=="dead": pass
            else: print("   ",s)
        t=bb["t"]
        if t[0]=="call":
            f=t[1]
            n=f.get("rpath",f.get("path","?"))
            print("    %s = %s%s<%s>(%s) -> %s unwind %s"%(pl(t[3]),"OPAQUE " if f.get("opaque") else ("" if "inst" in f else "NOBODY "),n,", ".join(f.get("targs",[])),", ".join(map(op,t[2])),t[4],t[5]))
        elif t[0]=="drop": print("    drop(%s: %s) -> %s unwind %s"%(pl(t[1]),t[1][2],t[2],t[3]))
        elif t[0]=="switch": print("    switch %s %s else %s"%(op(t[1]),t[2],t[3]))
        else: print("   ",t[:5])
if __name__=="__main__":
    d=json.load(open(sys.argv[1])); pat=sys.argv[2] if len(sys.argv)>2 else None
    for si,s in d["scopes"].items():
        for k,b in s["insts"].items():
            if pat is None: print(si,k)
            elif pat in k: show(k,b)
