"""C05: the setting of a paragraph is a function of options, tokens and width."""
import json
import vf
from common_lb import cp, paragraphs, cfg_of, WORDS, INF

CFGS = [{}, {"tol": 2, "hpen": 50}, {"wb": False, "meas": "two", "render": False, "scale": 2}]
PARS = {1: (["some", "plain", "words", "without", "escape", "sequences,", "internationalization"], 14),
        2: (["plain", "text", "then", "\x1b[31mred", "text", "which", "is", "not", "closed"], 12),
        3: (["\x1b[1mbold", "text", "that", "ends\x1b[0m"], 9),
        4: (["\x1b[32mgreen", "supercalifragilisticexpialidocious"], 3),
        5: (["responsibilities", "of\x1b[0m", "nothing"], 11),
        6: (["incomprehensibilities", "too", "narrow"], 2)}


def key(cfg, c):
    return json.dumps([cfg, c["tokens"], c["w"]], sort_keys=True)


def check(ctx, name, groups, racy=False):
    """groups: lists of runs that are compared; a run is a list of stimuli, done in a process of its own"""
    width = max(len(g) for g in groups)
    res = [[None] * len(g) for g in groups]
    for i in range(width):   # the i-th runs of the groups: distinct processes
        todo = [(gi, g[i]) for gi, g in enumerate(groups) if i < len(g)]
        # a process for each run (or for a few of them, when there are many)
        for at in range(0, len(todo), 16):
            some = todo[at:at + 16]
            for (gi, _), r in zip(some, ctx.drive(name, [s for _, s in some], procs=16 if i == 0 else 8)):
                res[gi][i] = r
    records = []
    for g, rs in zip(groups, res):
        keys, events = {}, []
        for st, r in zip(g, rs):
            for s, x in zip(st.get("sessions", [st]), r.get("sessions", [r])):
                if "res" not in x:
                    raise vf.Violation(name, g, "the call panics")
                for c, y in zip(s["calls"], x["res"]):
                    k = keys.setdefault(key(s["cfgs"][c["b"]], c), len(keys) + 1)
                    events.append({"key": k, "res": {"lines": y["lines"], "err": y["err"]} if "lines" in y else {"lines": [], "err": "panic"}})
        records.append({"keys": [json.loads(k) for k in keys], "events": events})
    for rec in records:
        for k in rec["keys"]:   # a value that TLC reads without ambiguity
            k[0] = json.dumps(k[0], sort_keys=True)
    recs = [{"keys": [{"options": k[0], "tokens": k[1], "w": round(100 * k[2])} for k in r["keys"]], "events": r["events"]} for r in records]
    ctx.validate(name, "LineBreakHistoryTrace", recs, [{"runs": g} for g in groups])
    return {"histories": len(recs), "calls": sum(len(r["events"]) for r in recs), "failed_calls": sum(e["res"]["err"] == "cannot" for r in recs for e in r["events"])}


def model(ctx, name):
    if ctx.replaying:
        return check(ctx, name, [x["runs"] for x in ctx.replaying])
    hist = ctx.emit("LineBreakHistoryMC", {"Breakers": "{0, 1, 2}", "Paragraphs": "{1, 2, 3, 4, 5, 6}" if ctx.thorough else "{1, 2, 3, 4, 6}", "MaxCalls": 3, "Reset": "TRUE"},
                    ["DependsOnlyOnInput"], "CONSTRAINT Emit\n", workers="8")
    hist = sorted({json.dumps(h) for h in hist})
    call = lambda b, n, fresh: {"b": b, "fresh": fresh, "tokens": [cp(t) for t in PARS[n][0]], "w": PARS[n][1]}
    groups = []
    size = 40   # histories per group; each history has line breakers of its own
    for at in range(0, len(hist), size):
        runs = [{"op": "lb", "cfgs": [c], "calls": [call(0, n, True)]} for c in CFGS[:1] for n in PARS]
        ref = {"op": "lb", "cfgs": CFGS, "calls": [call(b, n, True) for b in range(3) for n in PARS]}
        sessions = []
        for i, h in enumerate(hist[at:at + size]):
            a, b = [(0, 0), (0, 1), (1, 2), (2, 0)][(at // size + i) % 4]   # the options of the two line breakers
            sessions.append({"op": "lb", "cfgs": [CFGS[a], CFGS[b]],
                             "calls": [call(1 if x["b"] == 2 else 0, x["x"], x["b"] == 0) for x in json.loads(h)]})
        groups.append([ref, {"op": "lbpar", "sessions": sessions[:size // 4]}] + sessions[size // 4:])
        if at == 0:
            groups.append(runs + [ref])
    # the sessions after the first runs of a group are put in a single run
    groups = [g[:2] + [{"op": "lbpar", "sessions": g[2:]}] if len(g) > 10 else g for g in groups]
    return dict(check(ctx, name, groups), exhaustive=True, histories_of_the_model=len(hist))


def trace(ctx, name):
    if ctx.replaying:
        return check(ctx, name, [x["runs"] for x in ctx.replaying])
    rng = ctx.rng(name)
    groups = []
    for _ in range(ctx.scale(110, 1000)):
        pool = list(paragraphs(rng, rng.choice([2, 3, 5]), spans=.6, size=(1, 2, 3, 5, 8, 12)))
        cfgs = [s["cfgs"][0] for s in pool]
        if rng.random() < .3:
            cfgs.append({})
        if rng.random() < .5:   # another line breaker, with almost the same options
            c = dict(rng.choice(cfgs))
            c.update(rng.choice([{"hyph": "every", "every": rng.choice([1, 2, 3])}, {"hpen": rng.choice([0, 50, 1000])}, {"render": not c.get("render", True)},
                                 {"wb": not c.get("wb", True)}, {"tol": rng.choice([0, 1, 4, 100])}, {"punct": "off"}, {"scale": rng.choice([1, 2, 10])}]))
            cfgs.append(c)
        calls = []
        for s in pool:
            for c in s["calls"]:
                tokens = [list(t) for t in c["tokens"]]
                if tokens and rng.random() < .3:   # unbalanced and overlapping sequences
                    for _ in range(rng.choice([1, 2, 3])):
                        t = rng.choice(tokens)
                        i = rng.randrange(len(t) + 1)
                        t[i:i] = cp(rng.choice(["\x1b[31m", "\x1b[0m", "\x1b[1m", "\x1b[u"]))
                calls.append({"tokens": tokens, "w": c["w"]})
                if rng.random() < .4:
                    near = rng.choice([c["w"] + .4, c["w"] + .5, c["w"] + .6, c["w"] + 1, max(0, c["w"] - 1), c["w"] + 8])
                    calls.append({"tokens": tokens, "w": round(near, 2)})
                if rng.random() < .4:   # the same number in another unit
                    unit = rng.choice([2, 10] + [x["scale"] for x in cfgs if "scale" in x] * 3)
                    calls.append({"tokens": tokens, "w": round(c["w"] * unit if rng.random() < .7 else c["w"] / unit, 2)})
        if rng.random() < .5:
            calls = calls[:rng.choice([2, 3])]
        if len(groups) % 6 == 1:   # very loose lines, lines without any width
            cfgs.append(rng.choice([{"tol": rng.choice([1500, 1e5, INF]), "hpen": 50}, {"tol": INF, "meas": "table", "table": {"m": rng.choice([9000, 60000])}, "unit": 1}]))
            calls += [{"tokens": [cp(t) for t in ("a", "m", "b\x1b[1m", "m", "cc")], "w": w} for w in (9000, 60000, 5)]
            calls += [{"tokens": [cp(t) for t in ("some", "\x1b[31mplain", "words\x1b[0m")], "w": w} for w in (0, 15000, 70000)]
            calls += [{"tokens": [cp(t) for t in ts], "w": 0} for ts in (("\x1b[31m\u0301",), ("\u0301\x1b[0m", "\u200b"), ("\u0301", "\u200b\x1b[1m"))]
        if len(groups) % 6 == 2:
            calls = calls[:3]
        keys = [(b, c) for b in range(len(cfgs)) for c in calls]
        runs = []
        for i in range(3):
            some = rng.sample(keys, min(len(keys), 12))
            seq = [rng.choice(some) for _ in range(20)] + some
            if len(groups) % 6 == 2:   # a long history
                seq = [rng.choice(some) for _ in range(ctx.scale(150, 600))] + some
            # distinct line breakers may have the same options
            run = {"op": "lb", "cfgs": cfgs + cfgs, "calls": [dict(c, b=b + rng.choice([0, len(cfgs)]), fresh=rng.random() < .25) for b, c in seq]}
            runs.append(run)
        runs.append({"op": "lb", "cfgs": cfgs, "calls": [dict(c, b=b, fresh=True) for b, c in reversed(keys)]})
        runs.append({"op": "lbpar", "sessions": [{"op": "lb", "cfgs": cfgs, "calls": [dict(c, b=b, fresh=False) for b, c in rng.sample(keys, min(len(keys), 10))]} for _ in range(4)]})
        rng.shuffle(runs)
        groups.append(runs)
    r = check(ctx, name, groups)
    ctx.sample({"runs": len(groups[0]), "calls": sum(len(s.get("calls", [])) for s in groups[0]), "options": groups[0][0].get("cfgs")})
    return r


PARTS = [("model", model), ("trace", trace)]
