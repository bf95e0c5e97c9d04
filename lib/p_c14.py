"""C14: language tags."""
import json, os
import vf
from common_hyph import *

WORDS = ["association", "international", "responsabilidad", "typographique", "rechtschreibung", "computer", "development", "universidad", "privatisation"]


def judge(ctx, name, st):
    """st: [{"op": "lang", "tags": [tag], "words": .., "meta": [{lang, region}]}]"""
    ctx.env = write_dicts(ctx, languages())
    wf = os.path.join(ctx.tmp, "words")
    with open(wf, "w") as f:
        for w in WORDS:
            f.write(json.dumps(cp(w)) + "\n")
    ctx.env["VF_WORDS"] = wf
    recs, single = [], []
    for s, r in zip(st, ctx.drive(name, st, procs=8)):
        for t, m, x in zip(s["tags"], s["meta"], r["res"]):
            one = dict(s, tags=[t], meta=[m])
            if "string" not in x:
                raise vf.Violation(name, [one], "the call panics: %s" % json.dumps(x))
            recs.append({"tag": t, "lang": m["lang"], "region": m["region"], "res": x})
            single.append(one)
    ctx.validate(name, "LangTrace", recs, single, chunk=100000)
    return recs


def stim(tags):
    return [{"op": "lang", "words": [cp(w) for w in WORDS], "tags": [t["tag"] for t in tags[i::8]], "meta": [{"lang": t["lang"], "region": t["region"]} for t in tags[i::8]]} for i in range(8) if tags[i::8]]


def model(ctx, name):
    st = ctx.replaying
    extra = {}
    if st is None:
        tags = ctx.emit("LangMC", {"Small": "TRUE" if not ctx.thorough else "FALSE"}, ["Own", "Decided", "English"], "ACTION_CONSTRAINT Emit")
        extra = {"tags": len(tags), "exhaustive": True}
        st = stim(tags)
    recs = judge(ctx, name, st)
    ctx.sample(*recs[:2])
    return extra


def spelling(ctx, name):
    """the same tags, written in any letter case and with underscores"""
    st = ctx.replaying
    if st is None:
        rng = ctx.rng(name)
        tags = ctx.emit("LangMC", {"Small": "FALSE"}, ["Own", "Decided", "English"], "ACTION_CONSTRAINT Emit")
        tags = rng.sample(tags, min(len(tags), ctx.scale(2500, 20000)))
        for t in tags:
            s = t["tag"]
            x = rng.random()
            if x < .3:
                s = s.replace("-", "_")
            if rng.random() < .6:
                s = rng.choice([s.upper(), s.lower(), s.swapcase(), "".join(rng.choice([c.upper(), c.lower()]) for c in s)])
            t["tag"] = s
        st = stim(tags)
    judge(ctx, name, st)
    return {"tags": sum(len(s["tags"]) for s in st)}


PARTS = [("model", model), ("spelling", spelling)]
