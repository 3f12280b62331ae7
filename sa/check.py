"""check.py <property id>: decides one property on /repo's current tree."""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ctx as C

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    t0 = time.time()
    r = C.Report(pid)
    mod = importlib.import_module("props." + pid.lower())
    c = C.Ctx(); c.tier = tier
    try:
        mod.run(c, r)
    except C.extract.ExtractError as x:
        print("ERROR: the facts could not be extracted\n%s" % x); return 2
    except Exception:
        traceback.print_exc(); return 2
    kn = {k: w for p, k, w in C.known() if p == pid}
    new = {k: v for k, v in r.violations.items() if k not in kn}
    hit = [k for k in r.violations if k in kn]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": (mod.__doc__ or "").strip() + "\n" + r.explanation,
            "rule": getattr(mod, "RULE", ""),
            "rule_instances_checked": r.obligations, "rule_instances_satisfied": r.obligations - len(r.violations),
            "analysed": r.counts, "samples": r.samples,
            "functions_in_program": sum(len(p.fns) for p in c._p.values()),
        },
        "assumptions": r.assumptions + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(C.VERIF, "evidence"), exist_ok=True)
    evf = os.path.join(C.VERIF, "evidence", pid + ".json")
    rep = os.path.join(C.VERIF, "evidence", pid + ".violations.txt")
    if os.path.exists(rep): os.remove(rep)
    print("%s: %d rule instances checked, %s" % (pid, r.obligations, ", ".join("%s=%s" % kv for kv in r.counts.items())))
    for n in r.notes: print("note: " + n)
    for k in hit: print("KNOWN-FINDING: property=%s %s :: %s" % (pid, k, kn[k]))
    ev["coverage"]["known_findings"] = hit
    ev["coverage"]["violations"] = [{"key": k, "message": m, "where": w} for k, (m, w) in sorted(new.items())]
    ev["coverage"]["notes"] = r.notes
    with open(evf + ".tmp", "w") as f: json.dump(ev, f, indent=1, default=str)
    os.rename(evf + ".tmp", evf)
    if new:
        with open(rep, "w") as f:
            for k, (m, w) in sorted(new.items()):
                line = "%s: %s [rule instance: %s]" % (w or "-", m, k)
                f.write(line + "\n"); print(line)
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
