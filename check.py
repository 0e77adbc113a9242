#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]: decide one property on /repo's current source."""
import importlib, json, os, sys, time, traceback, glob
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
sys.path.insert(0, os.path.join(V, "rules"))
sys.setrecursionlimit(20000)
EVID = os.environ.get("VERIF_EVID") or os.path.join(V, "evidence")
t0 = time.time()


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    import program, rules
    for f in sorted(glob.glob(os.path.join(V, "rules", "*.py"))):
        importlib.import_module(os.path.basename(f)[:-3])
    if pid not in rules.PROPS:
        print("no such property", pid)
        return 2
    prog = program.load()
    c = rules.Ctx(pid, prog, tier)
    for fn in rules.PROPS[pid]:
        try:
            fn(c)
        except rules.Missing:
            pass
        except Exception as x:
            import traceback
            tb = traceback.extract_tb(x.__traceback__)
            c.undecided.append("%r at %s" % (x, ["%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb][-3:]))
    known = {}
    kf = os.path.join(V, "known-findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith("KNOWN-FINDING:"):
                parts = l.split(" ", 3)
                if parts[1] == "property=" + pid and parts[2].startswith("key="):
                    known[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    new = {k: v for k, v in c.viol.items() if k.replace(" ", "_") not in known}
    old = {k: v for k, v in c.viol.items() if k.replace(" ", "_") in known}
    os.makedirs(EVID, exist_ok=True)
    obl = sum(r["obligations"] for r in c.rules.values())
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis of the compiler's MIR of the coerce and coerce-redis crates, extracted from "
            "/repo's working tree on this run. Each rule below was decided on every abstract path of the listed entry "
            "functions (callees inlined, loops to a fixpoint); nothing was executed.",
            "bodies_in_program": len(prog.bodies), "functions_analysed": len(c.fns), "entry_runs": c.runs,
            "abstract_states": c.states, "call_sites_visited": c.calls, "obligations": obl,
            "discharged": obl - len(c.viol),
            "rules": {n: {"rule": r["rule"], "obligations": r["obligations"], "paths": r["paths"],
                          "instances": r["instances"]} for n, r in c.rules.items()},
            "samples": c.samples, "truncated_runs": c.limits, "known_findings": sorted(old), "undecided": c.undecided,
        },
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k.replace(" ", "_")] or k))
    print("%s: %d obligations over %d rules, %d functions, %d states, %.1fs" % (
        pid, obl, len(c.rules), len(c.fns), c.states, time.time() - t0))
    if c.limits:
        print("note: truncated:", c.limits)
    if c.undecided:
        print("note: not decided:", c.undecided)
    if new:
        rp = os.path.join(EVID, pid + ".violations.txt")
        with open(rp, "w") as f:
            for k, v in sorted(new.items()):
                f.write("== %s\nrule: %s\nviolation: %s\n" % (k, v["rule"], v["message"]))
                if v["where"]:
                    f.write("where: %s\n" % v["where"])
                for w in v["witness"]:
                    f.write("   %s\n" % w)
                f.write("\n")
        for k, v in sorted(new.items()):
            print("  violated: %s -- %s" % (k, v["message"]))
            for w in v["witness"][-12:]:
                print("      " + w[:220])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
