#!/usr/bin/env python3
"""show.py '<function regex>' [opaque groups: api,ctx,persist,pubsub] [-s inline|fork|event] [-k kinds to hide] — print the abstract paths of a function"""
import sys, os, re, argparse
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
sys.setrecursionlimit(20000)
import rules
from rules import *
a = argparse.ArgumentParser()
a.add_argument("fn"); a.add_argument("op", nargs="?", default="api"); a.add_argument("-s", default="event")
a.add_argument("-n", type=int, default=4); a.add_argument("-w", type=int, default=200); a.add_argument("-c", type=int, default=1)
a.add_argument("-x", default=""); a.add_argument("-k", default="")
a.add_argument("--cc", type=int, default=4); a.add_argument("-m", type=int, default=20000)
a = a.parse_args()
p = program.load()
G = {"api": API, "ctx": CTXAPI, "persist": PERSIST, "pubsub": PUBSUB, "none": []}
op = [x for g in a.op.split(",") for x in G[g]] + ([a.x] if a.x else [])
def lab(ev, q):
    s = std(ev, q)
    if s and a.k and re.search(a.k, s):
        return None
    return s
for b in p.bodies.values():
    if re.search(a.fn, b.id) and b.kind in ("fn", "method", None, "Fn", "AssocFn"):
        if "{closure" in b.id: continue
        e = Engine(p, label=lab, opaque=op or None, spawn=a.s, cap=a.c, max_states=a.m, ccap=a.cc)
        try:
            outs = e.run(b)
        except AnalysisLimit as x:
            outs = e.outcomes; print("LIMIT", x)
        print("==", b.id, len(outs), "outcomes", e.nstates, "states")
        for o in outs[:a.n]:
            print("  ->", o.kind, cut(canon(Q(e, o.state), o.value), a.w))
            for x in o.obs:
                print("       ", x[:a.w])
