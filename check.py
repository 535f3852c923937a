#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's
current tree.  exit 0 held, 1 VIOLATION, anything else: no answer."""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + "/rules", HERE + "/engine"]
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")

# property -> (module, function)
RULES = {
    "C08": ("models", "check_dependents"), "C09": ("deps", "check_inputs"), "C10": ("values", "check_values"), "C11": ("lengths", "check_amounts"), "C12": ("errors", "check_failures"), "C13": ("solve", "check_solves"), "C14": ("threads", "check_threads"), "C15": ("assembly", "check_assembly"), "C16": ("loads", "check_terms"), "C17": ("saved", "check_saved"), "C18": ("updates", "check_updates"),
    "C01": ("commands", "check_outcome"),
    "C02": ("commands", "check_rejection"),
    "C03": ("commands", "check_options"),
    "C04": ("python", "check_options"), "C05": ("dispatch", "check_containment"), "C06": ("python", "check_references"), "C07": ("dispatch", "check_gil"),
}

def known(prop):
    """findings recorded for the unchanged tree, by their stable key"""
    out = {}
    with open(HERE + "/known-findings.txt") as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding: "):
                d = line[len("finding: "):]
                pr, key, what = d.split(" ", 2)
                if pr == "property=" + prop: out[key[len("key="):]] = what
    return out

def strip(x):
    return x.replace(REPO + "/", "")

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        args = [a for a in args if a != tier]
    prop = args[0]
    t0 = time.time()
    import common
    mod, fun = RULES[prop]
    res = common.Result()
    res.tier = tier
    m = importlib.import_module(mod)
    getattr(m, fun)(res)
    kf = known(prop)
    bad = []
    for f in res.findings:
        if f.key in kf:
            print(f"KNOWN-FINDING: property={prop} {kf[f.key]}")
        else:
            bad.append(f)
    p = common.load()
    cov = {"explanation": res.explain, "functions_in_program": len(p.fns), **res.cov}
    if res.samples: cov["instances_sample"] = res.samples[:40]
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "coverage": cov, "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": [{"what": f.msg, "where": strip(f.where)} for f in bad]}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{prop}.json", "w") as o: json.dump(ev, o, indent=1)
    if bad:
        path = f"{HERE}/evidence/{prop}.replay.txt"
        with open(path, "w") as o:
            o.write(f"property {prop}\nrule: {res.explain}\n\n")
            for f in bad:
                o.write(f"{strip(f.where)}: {f.msg}\n  key: {f.key}\n")
                for l in f.trace: o.write(f"    {l}\n")
        for f in bad: print(f"  {strip(f.where)}: {f.msg}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: held; " + ", ".join(f"{k}={v}" for k, v in res.cov.items()))
    return 0

if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit as e:
        print("NO ANSWER:", e, file=sys.stderr); rc = 3
    except BaseException as e:
        traceback.print_exc()
        print("NO ANSWER:", type(e).__name__, e, file=sys.stderr); rc = 3
    sys.stdout.flush()
    os._exit(rc)
