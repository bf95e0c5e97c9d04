"""C29: what a user gets depends only on what the options resolve to, in order, on top of the defaults."""
import json
import vf
from common_lb import WORDS, cp
from common_width import REPS

VALUES = {
    "lb": {"tol": ["8.6", "2", "1", "0.5", "4", "100", "inf"], "wb": ["true", "false"], "hyph": ["default", "library", "every1", "every2", "every3"], "punct": ["default", "off", "library"],
           "hpen": ["300", "0", "50", "1000", "10000"], "render": ["true", "false"], "scale": ["1", "2", "3", "10"], "meas": ["default", "len", "two", "three"]},
    "hyph": {"lang": ["en-US", "en-GB", "fr", "de", "es"], "tag": ["en-US", "en-GB", "fr", "de", "es"], "len": ["4", "0", "1", "6", "9", "-1", "40"], "left": ["2", "0", "1", "3", "5", "-3"],
             "right": ["2", "0", "1", "3", "5", "-3"]},
    "width": {"ea": ["true", "false"], "skip": ["true", "false"], "amb": ["2", "1", "0", "7", "16"]}}
LB = [("some plain words, without escape sequences; internationalization of responsibilities", 14), ("supercalifragilisticexpialidocious (incomprehensibilities) well-known", 9),
      ("a b c d e", 3), ("text/plain, characterization", 7), ("of the \u4e2d\u6587\u8a9e and \uff21\uff22", 6), ("one two", 40), ("representation characterization optimum", 4), ("plain words", 15), ("its computer", 13), ("do " + "x" * 23 + " end", 23), ("I " + "x" * 60, 60)]
HY = ["hyphenation", "associates", "project", "representation", "anticonstitutionnellement", "donaudampfschiffahrt", "electroencefalografista", "supercalifragilisticexpialidocious", "also", "into",
      "air", "table", "presents", "computer", "Kontrabassist", "programmation", "universidad", "on", "a", "organisation"]


FINEST = [[{"n": "lang", "v": v}, {"n": "len", "v": "0"}, {"n": "left", "v": "1"}, {"n": "right", "v": "1"}] for v in VALUES["hyph"]["lang"]]


def probes(kind, rng):
    if kind == "lb":
        some = [(cp(t), w) for t, w in LB]
        for _ in range(3):
            some.append((cp(" ".join(rng.choice(WORDS) + rng.choice(["", "", ",", ".", "-x"]) for _ in range(rng.choice([2, 4, 8])))), rng.choice([2, 5, 8, 12, 20, 31])))
        return some
    if kind == "hyph":
        return [(cp(w), 0) for w in HY + rng.sample(WORDS, 4)]
    ok = [r for r in REPS if 0 <= r < 0x110000 and not 0xD800 <= r <= 0xDFFF]
    some = [([r], 0) for r in ok] + [([rng.choice(ok) for _ in range(rng.choice([2, 5]))], 0) for _ in range(7)]
    rng.shuffle(some)
    return [([0xA1, 0x1F321], 0), ([0x1F321], 0)] + some


def record(st, res):
    return {"kind": st["kind"], "probes": st["probes"], "effects": st.get("effects", False),
            "events": [dict({k: v for k, v in e.items() if k != "i"}, opts=st["lists"][e["i"]]) for e in res]}


def judge(ctx, name, sts):
    res = ctx.drive(name, sts, procs=8)
    recs = []
    for st, r in zip(sts, res):
        if any("obs" not in e for e in r):
            raise vf.Violation(name, [st], "a call panics")
        recs.append(record(st, r))
    ctx.validate(name, "OptionsTrace", recs, sts, invariants=("Conforms", "Distinct", "Complete"))
    ctx.sample({"kind": recs[0]["kind"], "events": [dict(e, obs=e["obs"][:1]) for e in recs[0]["events"][:3]]})
    distinct = {}
    for r in recs:
        distinct.setdefault(r["kind"], set()).update(json.dumps(e["obs"]) for e in r["events"])
    return {"sessions": len(sts), "instances": sum(len(s["lists"]) for s in sts), "observations": sum(len(r["events"]) for r in recs),
            "distinct_behaviours": {k: len(v) for k, v in distinct.items()}}


def stimulus(rng, kind, lists, dense=False):
    ps = probes(kind, rng)
    if kind == "hyph":   # all the breaks of each language
        lists = FINEST + lists
    n = len(lists)
    late = [rng.randrange(n) for _ in range(min(n, 8 if dense else 20))]
    par = rng.sample(range(n), min(n, 6))
    spoil = rng.random() < .5
    if kind != "lb":
        par += par[:2]
    return {"op": "opts", "kind": kind, "lists": lists, "shared": rng.random() < .6, "spoil": spoil, "late": late, "par": par,
            "probes": [p for p, _ in ps], "widths": [w for _, w in ps]}


def model(ctx, name):
    if ctx.replaying:
        return judge(ctx, name, ctx.replaying)
    rng = ctx.rng(name)
    sts, lists = [], 0
    todo = [("lb", 2, VALUES["lb"]), ("lb", 3, ["wb", "hyph", "punct", "hpen"]), ("lb", 3, ["wb", "hyph", "render"]), ("hyph", 2, VALUES["hyph"]), ("hyph", 3, ["lang", "tag", "len"]),
            ("hyph", 3, ["len", "left", "right"]), ("width", ctx.scale(3, 4), VALUES["width"])]
    if ctx.thorough:
        todo += [("lb", 3, VALUES["lb"]), ("hyph", 3, VALUES["hyph"]), ("lb", 4, ["wb", "hyph"])]
    for kind, n, names in todo:
        em = ctx.emit("OptionsMC", {"Kind": '"%s"' % kind, "MaxOpts": n, "Names": "{%s}" % ", ".join('"%s"' % x for x in names)},
                      ["Resolved", "Ordered", "Documented", "Shortest", "Emit"], workers="4")
        seen = {json.dumps(x["opts"]): x for x in em}
        lists += len(seen)
        groups = {}
        for x in seen.values():   # the lists of the same configuration are observed by the same process
            groups.setdefault(json.dumps(x["canon"]), []).append(x["opts"])
        groups = list(groups.items())
        rng.shuffle(groups)
        bunch = []
        for i, (c, xs) in enumerate(groups):
            bunch.append(json.loads(c))
            bunch += xs
            if len(bunch) > 60 or i == len(groups) - 1:
                rng.shuffle(bunch)
                sts.append(stimulus(rng, kind, bunch, dense=True))
                bunch = []
        sts.append(dict(stimulus(rng, kind, [[{"n": n, "v": v}] for n in VALUES[kind] for v in VALUES[kind][n]]), effects=True))
    return dict(judge(ctx, name, sts), lists_of_the_model=lists)


def trace(ctx, name):
    if ctx.replaying:
        return judge(ctx, name, ctx.replaying)
    rng = ctx.rng(name)
    sts = []
    for i in range(ctx.scale(300, 3000)):
        kind = ["lb", "hyph", "width"][i % 3]
        vals = VALUES[kind]
        lists = []
        for _ in range(3):
            base = [{"n": n, "v": rng.choice(vals[n])} for n in rng.sample(sorted(vals), rng.randrange(0, len(vals) + 1))]
            lists.append(base)
            for _ in range(4):
                l = list(base)
                for _ in range(rng.choice([1, 2, 4])):   # the same options otherwise: in another order, repeated, overridden, with those of the defaults
                    x = rng.random()
                    if x < .4:
                        rng.shuffle(l)
                    elif x < .6 and l:
                        l.insert(rng.randrange(len(l) + 1), rng.choice(l))
                    elif x < .8 and l:
                        o = rng.choice(l)
                        l.insert(rng.randrange(l.index(o) + 1), {"n": o["n"], "v": rng.choice(vals[o["n"]])})
                    elif l and x < .85:
                        l.pop(rng.randrange(len(l)))
                    else:
                        n = rng.choice(sorted(vals))
                        if n not in [o["n"] for o in l] and not (kind == "lb" and n == "hpen"):
                            l.insert(rng.randrange(len(l) + 1), {"n": n, "v": vals[n][0]})
                lists.append(l)
        if rng.random() < .3:   # a long list
            l = [{"n": n, "v": rng.choice(vals[n])} for n in (rng.choice(sorted(vals)) for _ in range(rng.choice([12, 20, 40])))]
            short = {}
            for o in l:
                short.pop(o["n"], None)
                short[o["n"]] = o
            lists += [l, list(short.values())]
        rng.shuffle(lists)
        sts.append(stimulus(rng, kind, lists))
    return judge(ctx, name, sts)


PARTS = [("model", model), ("trace", trace)]
