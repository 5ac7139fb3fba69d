#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--list]"""
import importlib, json, os, pkgutil, sys, time, hashlib
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def load_rules():
    import sa.rules as R
    for m in sorted(x.name for x in pkgutil.iter_modules(R.__path__)):
        importlib.import_module("sa.rules." + m)
    from sa.rules.base import REG
    return REG


def main():
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        args = [a for a in args if a != tier]
    reg = load_rules()
    pid = args[0]
    from sa.model import Model
    from sa.rules.base import Ctx, Anchor
    m = Model()
    ctx = Ctx(pid, m)
    ctx.tier = tier
    for r in reg.get(pid, []):
        try:
            r(ctx)
        except Anchor:
            pass
    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid and k["status"] == "known"]
    new = []
    for v in ctx.viol:
        k = [x for x in known if x["key"] == v.key()]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"]))
        else:
            new.append(v)
    if not ctx.obl and not ctx.viol:
        new.append(type("V", (), {"key": lambda s: "vacuous", "rule": "vacuous", "where": "-", "detail": "no obligation was generated", "trace": None, "at": None})())
    OUT = os.environ.get("SA_OUT", HERE)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    rep = os.path.join("evidence", pid + ".violation.txt")
    rp = os.path.join(OUT, rep)
    if os.path.exists(rp):
        os.remove(rp)
    if new:
        with open(rp, "w") as f:
            for v in new:
                f.write("property %s\nrule: %s\nin: %s\n%s\n" % (pid, v.rule, v.where, v.detail))
                if v.at:
                    f.write("at: %s\n" % v.at)
                if v.trace:
                    f.write("\n".join(v.trace) + "\n")
                f.write("\n")
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": LEVEL(pid),
        "coverage": {
            "explanation": "Static trace-partitioned dataflow over the source of /repo. Each entry lists one rule, the construct it was applied to and the number of instances (trace classes, effects or table rows) on which it was decided.",
            "files_parsed": m.nfiles,
            "functions_analysed": len(ctx.functions),
            "functions": sorted(ctx.functions)[:400],
            "trace_classes": ctx.ntraces,
            "syntax_nodes_evaluated": ctx.nstmts,
            "obligations": ctx.obl,
            "obligations_discharged": ctx.obl - len(ctx.viol),
            "rules": ctx.notes[:600],
            "violations_found": [{"rule": v.rule, "where": v.where, "detail": v.detail, "at": v.at} for v in new],
        },
        "assumptions": ["Dispatchables are transactional (FRAME rolls back storage on Err), so only successful trace classes of extrinsics carry obligations.",
                        "Dependencies outside the repository (Substrate, Frontier, std) behave as documented.",
                        "Loops are abstracted to no iteration or an arbitrary iteration."],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations on %d trace classes of %d functions, %d violation(s), %.1fs" % (pid, ctx.obl, ctx.ntraces, len(ctx.functions), len(new), time.time() - t0))
    if new:
        for v in new[:20]:
            print("  %s" % v.key()[:600])
            if v.at:
                print("    at %s" % v.at)
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0


def LEVEL(pid):
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            if c["property"] == pid:
                return c["level"]
    except Exception:
        pass
    return "other"


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else "?"
        print("VIOLATION property=%s replay=evidence/%s.json" % (pid, pid))
        rc = 1
    sys.exit(rc)
