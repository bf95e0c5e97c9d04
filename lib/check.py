#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decides one property. See DESIGN.md."""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf


def known(prop):
    """entries of known-findings.txt: 'finding: property=<id> part=<part> match=<text> <what fails>'"""
    res = []
    p = os.path.join(vf.HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            f = l.split(None, 4)
            if len(f) == 5 and f[0] == "finding:" and f[1] == "property=" + prop:
                res.append((f[2][5:], f[3][6:], f[4].strip()))
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    ctx = vf.Ctx(prop, tier, seed)
    parts = importlib.import_module("p_" + prop.lower()).PARTS
    only = None
    if "--replay" in sys.argv:
        rep = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        only = rep["part"]
        ctx.replaying = rep["stimuli"]
    if "--part" in sys.argv:
        only = sys.argv[sys.argv.index("--part") + 1]
    violations = 0
    try:
        for name, f in parts:
            if only and name != only:
                continue
            t = time.time()
            b = (ctx.states, ctx.transitions, ctx.traces)
            try:
                extra = f(ctx, name) or {}
            except vf.Violation as v:
                violations += 1
                d = os.path.join(vf.HERE, "evidence", "replay")
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, "%s-%d.json" % (prop, violations))
                with open(path, "w") as fo:
                    json.dump({"property": prop, "part": v.part, "seed": seed, "tier": tier, "stimuli": v.stimuli, "detail": v.detail}, fo, indent=1)
                print(v.detail)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                sys.stdout.flush()
                break
            ctx.note(part=name, wall_s=round(time.time() - t, 2), states=ctx.states - b[0], transitions=ctx.transitions - b[1], traces=ctx.traces - b[2], **extra)
    except vf.CheckError as e:
        print("ERROR: the check could not be carried out:", e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    if ctx.replaying is None:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
                           "samples": ctx.samples[:8], "parts": ctx.parts},
              "wall_s": round(time.time() - ctx.t0, 2), "violations": violations}
        os.makedirs(os.path.join(vf.HERE, "evidence"), exist_ok=True)
        with open(os.path.join(vf.HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%d: states=%d transitions=%d traces=%d violations=%d %.1fs" % (
        prop, tier, seed, ctx.states, ctx.transitions, ctx.traces, violations, time.time() - ctx.t0))
    for p in ctx.parts:
        print("  ", json.dumps(p))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
