"""C15: concurrent use."""
import json
import vf
from common_lb import WORDS, cp

LANGS = ["en-US", "en-GB", "fr", "de", "es", "en", "fr-CA", "de-AT", "es-MX", "en-AU", "it"]
TEXTS = ["text\x1b[2K\x1b[1mmore", "x\x1b[12A", "soft\u00adhyphen","\x1b[31mred\x1b[0m text", "\u4e2d\u6587 wide", "semi-hard, text|and (marks)", "\u00b1\u00a7\u2e3a", "soci\u00e9t\u00e9 anonyme", "a", "-", ",",
         "Donaudampfschifffahrt", "na\u00efvet\u00e9", "\x1b[1;32mbold\x1b[m", "\u200b\u0301e", "project", "\U0001f600"]


def tasks_of(rng):
    """a pool of tasks for one trial"""
    pool = []
    for _ in range(rng.choice([3, 6, 10])):
        what = rng.choice(["break", "break", "break", "shared", "width", "strip", "token", "lines"])
        ws = [cp(rng.choice(WORDS if rng.random() < .7 else TEXTS)) for _ in range(rng.choice([1, 3, 8]))]
        pool.append({"what": what, "lang": rng.choice(LANGS), "words": ws, "w": rng.choice([7, 12, 20, 35]), "ea": rng.random() < .4})
    return pool


def trial(rng):
    pool = tasks_of(rng)
    mode = rng.random()
    if mode < .35:    # the first use of one language, by all
        pool = [t for t in pool if t["what"] != "shared"] or [{"what": "break", "lang": "fr", "words": [cp("bonjour")], "w": 10, "ea": False}]
        first = dict(pool[0], what="break", lang=rng.choice(LANGS))
        workers = [[first] + [rng.choice(pool) for _ in range(3)] for _ in range(8)]
    elif mode < .5:   # the first use of the table of widths
        first = {"what": "width", "lang": "", "words": [cp(t) for t in rng.sample(TEXTS, 5)], "w": 1, "ea": False}
        workers = [[first] + [rng.choice(pool) for _ in range(3)] for _ in range(8)]
    elif mode < .7:   # hyphenators shared by goroutines
        lang = rng.choice(LANGS)
        some = [{"what": "shared", "lang": lang, "words": [cp(w) for w in rng.sample(WORDS, 12)], "w": 1, "ea": False} for _ in range(4)]
        workers = [[rng.choice(some) for _ in range(6)] for _ in range(rng.choice([2, 4, 8]))]
    else:
        workers = [[rng.choice(pool) for _ in range(rng.choice([2, 5, 10]))] for _ in range(rng.choice([2, 4, 8, 16]))]
    shared = [cp(rng.choice(TEXTS + WORDS)) for _ in range(rng.choice([0, 2, 4]))]
    hyph = sorted({t["lang"] for w in workers for t in w if t["what"] == "shared"})
    return {"op": "conc", "workers": workers, "seq": False, "shared": shared, "hyph": hyph}


def run_trials(ctx, name, sts, race):
    alone = ctx.drive(name, [dict(s, seq=True) for s in sts], procs=8)
    conc = []
    for at in range(0, len(sts), 4):
        some = sts[at:at + 4]   # a process for each trial
        conc += ctx.drive(name, some, race=race, procs=4, env={"GOMAXPROCS": str([8, 2, 4][at // 4 % 3])})
    records = []
    outs = {}
    oid = lambda o: outs.setdefault(json.dumps(o), len(outs) + 1)   # outputs and tasks, by number
    for s, a, c in zip(sts, alone, conc):
        tasks, events, keys = [], [], {}

        def tid(t):
            k = json.dumps(t, sort_keys=True)
            if k not in keys:
                keys[k] = len(tasks) + 1
                tasks.append({"lang": t["lang"], "hyph": t["what"] in ("break", "shared")})
            return keys[k]
        for w, r in zip(s["workers"], a["workers"]):
            for t, x in zip(w, r):
                if isinstance(x["out"], dict):
                    raise vf.Violation(name, [dict(s, seq=True)], "a call panics")
                events.append({"kind": "alone", "p": 0, "task": tid(t), "out": oid(x["out"]), "dict": 0})
        stamped = []
        for p, (w, r) in enumerate(zip(s["workers"], c["workers"])):
            for t, x in zip(w, r):
                stamped.append((x["begin"], {"kind": "begin", "p": p + 1, "task": tid(t), "out": 0, "dict": 0}))
                stamped.append((x["end"], {"kind": "end", "p": p + 1, "task": tid(t), "out": oid(x["out"]), "dict": x["dict"]}))
        events += [e for _, e in sorted(stamped, key=lambda x: x[0])]
        records.append({"tasks": tasks, "events": events})
    ctx.validate(name, "CacheTrace", records, sts)
    return {"trials": len(sts), "calls": sum(len(w) for s in sts for w in s["workers"])}


def model(ctx, name):
    """the design: every interleaving of goroutines"""
    if ctx.replaying is not None:
        return {}
    for consts in [{"Procs": "{1, 2, 3}", "Langs": "{1, 2}", "Chunks": 2}] + ([{"Procs": "{1, 2, 3, 4}", "Langs": "{1, 2}", "Chunks": 2}] if ctx.thorough else []):
        ctx.emit("CacheMC", consts, ["OneDictionary", "Loaded", "NoRace"], "PROPERTIES Forever Refines\n", workers="8")
    return {"exhaustive": True}


def trace(race, n):
    def run(ctx, name):
        if ctx.replaying:   # a schedule is not reproducible at will: try several times
            sts = ctx.replaying * 30
        else:
            rng = ctx.rng(name)
            sts = [trial(rng) for _ in range(ctx.scale(*n))]
        return run_trials(ctx, name, sts, race)
    return run


PARTS = [("model", model), ("race", trace(True, (72, 800))), ("native", trace(False, (400, 6000)))]
