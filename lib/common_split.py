"""C16, C17, C18: tokenizer, punctuator, hyphen splitter."""
import vf

KINDS = {"C16": ["token", "fields"], "C17": ["punct"], "C18": ["hyphen"]}
SPACES = [32, 9, 10, 0x85, 0xA0, 0x2003, 0x3000]
PUNCTS = [ord(c) for c in ".,;:!?|&_()[]{}\"'/\\@#%*\u2026\u00bf\u3002\u2013\u2014\u2018"]
HYPHENS = [0x2D, 0xAD, 0x2010, 0x2011, 0x58A, 0x1806, 0x2E17, 0x30FB, 0xFE63, 0xFF0D, 0xFF65]
LETTERS = [97, 98, 0x41, 0x39, 0xE9, 0x4E2D, 0x1F600, 0x24, 0x2B, 0x3C, 0x60, 0, 0x200B, 0x301]


def model(prop):
    def run(ctx, name):
        if ctx.replaying is not None:
            recs = ctx.drive(name, ctx.replaying)
            vf.expect_equal(ctx, name, ctx.replaying, [s["expect"] for s in ctx.replaying], [r["parts"] for r in recs])
            return
        consts = {"Ord": "{97, 98}", "Seps": "{45, 46}", "MaxLen": ctx.scale(5, 7)}
        res = ctx.emit("SplitterMC", consts, ["Lossless", "NeverEmpty", "Isolated", "Maximal"], "ACTION_CONSTRAINT Emit")
        stimuli, expect = [], []
        for r in res:
            for kind in KINDS[prop]:
                if r["keep"] != (kind in ("punct", "hyphen")):
                    continue
                seps = {"token": [32, 0x3000], "fields": [45, 46], "punct": [46, 124], "hyphen": [45, 0x2010]}[kind]
                tr = lambda x: {45: seps[0], 46: seps[1]}.get(x, x)
                stimuli.append({"op": "fields", "kind": kind, "in": [tr(x) for x in r["in"]], "seps": seps})
                expect.append([[tr(x) for x in p] for p in r["parts"]])
        recs = ctx.drive(name, stimuli)
        vf.expect_equal(ctx, name, stimuli, expect, [r["parts"] for r in recs])
        return {"inputs_replayed": len(stimuli), "constants": consts, "exhaustive": True}
    return run


def gen(rng, prop, n):
    out = []
    for _ in range(n):
        kind = rng.choice(KINDS[prop] + {"C17": ["ispunct"], "C18": ["ishyphen"]}.get(prop, []))
        pools = {"token": SPACES, "fields": LETTERS, "punct": PUNCTS + HYPHENS, "hyphen": HYPHENS + PUNCTS, "ispunct": PUNCTS + HYPHENS, "ishyphen": HYPHENS}[kind]
        d = rng.choice([0, .1, .3, .7, 1])
        ln = rng.choice([0, 1, 1, 2, 3]) if kind[:2] == "is" else rng.choice([0, 1, 2, 3, 8, 40, 200] if rng.random() < .2 else [0, 1, 2, 3, 4, 6, 10])
        f = rng.random()
        other = lambda: rng.choice(LETTERS + PUNCTS + SPACES) if f < .5 else rng.choice([rng.randrange(0x20, 0x3100), rng.randrange(0x20, 0x7F), rng.randrange(0, 0xD7FF)])
        inp = [rng.choice(pools) if rng.random() < d else other() for _ in range(ln)]
        s = {"op": "fields", "kind": kind, "in": inp, "seps": rng.sample(LETTERS, 3)}
        if rng.random() < .3 and kind in ("token", "punct"):
            for _ in range(rng.choice([0, 0, 1, 2])):
                inp.insert(rng.choice([0, len(inp), rng.randrange(len(inp) + 1)]), 0xFFFD)
            b = list("".join(map(chr, inp)).encode("utf-8", "replace"))
            for _ in range(rng.choice([0, 0, 0, 1, 2])):   # invalid UTF-8
                b.insert(rng.choice([0, len(b), rng.randrange(len(b) + 1)]), rng.choice([0xFF, 0x80, 0xC3, 0xE4, 0xF0, 0xED]))
            s["in"], s["str"] = [], b
        elif rng.random() < .1 and inp:
            inp[rng.randrange(len(inp))] = rng.choice([0xD800, 0x110000, 0xFFFD, -1])
        out.append(s)
    for k in range(max(6 * len(KINDS[prop]), n // 150)):   # long texts: many parts, then long ones
        kind = KINDS[prop][k // 6 % len(KINDS[prop])]
        seps = rng.sample(LETTERS, 3)
        pool = {"token": SPACES, "fields": seps, "punct": PUNCTS, "hyphen": HYPHENS}[kind]
        inp = []
        for _ in range([530, 2, 20, 70, 140, 280][k % 6]):
            inp += [97] * rng.choice([0, 1, 1, 1, 2]) + [rng.choice(pool)]
        for _ in range(3):
            inp += [rng.choice([98, 0xE9, 0x1F600])] * rng.choice([1, 33, 65, 129, 257, 520, 1030]) + [rng.choice(pool)] * rng.choice([0, 1, 2])
        out.append({"op": "fields", "kind": kind, "in": inp, "seps": seps})
    for kind in KINDS[prop]:   # a large number of parts
        seps = rng.sample(LETTERS, 3)
        pool = {"token": SPACES, "fields": seps, "punct": PUNCTS, "hyphen": HYPHENS}[kind]
        for size, end in ((1500, 1), (900, 0), (4000, 0)):
            inp = []
            for _ in range(size):
                inp += [98] * rng.choice([1, 1, 2]) + [rng.choice(pool)]
            out.append({"op": "fields", "kind": kind, "in": inp[:len(inp) - 1 + end], "seps": seps})
    return out


def trace(prop):
    def run(ctx, name):
        st = ctx.replaying or gen(ctx.rng(name), prop, ctx.scale(1500, 20000))
        obs = ctx.drive(name, st)
        cls = ctx.drive(name, [{"op": "classes", "in": o["in"]} for o in obs])
        recs = [{"kind": s["kind"], "in": o["in"], "seps": s["seps"], "cls": c, "obs": {"parts": o["parts"], "one": o["one"]}} for s, o, c in zip(st, obs, cls)]
        ctx.validate(name, "SplitterTrace", recs, st)
        ctx.sample({k: v for k, v in recs[7].items() if k != "cls"} if len(recs) > 7 else recs[0])
        return {"inputs": len(st)}
    return run


def allrunes(prop):
    what = {"C16": "token", "C17": "punct", "C18": "hyphen"}[prop]

    def run(ctx, name):
        st = {"op": "allclasses", "from": -2, "to": 0x110002}
        runs = ctx.drive(name, [st])[0]["runs"]
        ctx.validate(name, "ClassesTrace", runs, [st] * len(runs), consts={"What": '"%s"' % what})
        return {"runes": 0x110005, "runs": len(runs), "exhaustive": True}
    return run


def parts(prop):
    return [("model", model(prop)), ("trace", trace(prop)), ("allrunes", allrunes(prop))]
