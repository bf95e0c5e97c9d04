"""C21, C22: the slice reader."""
import itertools, json, vf

ALPHA = [97, 233, 8364, 128512]  # 1 to 4 bytes
POOL = [0, 65, 97, 127, 128, 233, 0x7FF, 0x800, 8364, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 128512, 0x10FFFF]


def stim(w):
    return {"op": "reader", "runes": w[0]["s"]["runes"], "ops": [e["a"] for e in w]}


def model(kind):
    def run(ctx, name):
        if ctx.replaying is not None:
            recs = ctx.drive(name, ctx.replaying)
            vf.expect_equal(ctx, name, ctx.replaying, [s["expect"] for s in ctx.replaying], [r["res"] for r in recs])
            return
        maxlen = {"cursor": ctx.scale(3, 4), "slices": ctx.scale(2, 3)}[kind]
        consts = {"Alphabet": "{97, 233, 8364, 128512}", "MaxLen": maxlen, "MaxOff": maxlen + 2, "Kind": '"%s"' % kind}
        edges = ctx.emit("ReaderMC", consts, ["CursorInRange"],
            "PROPERTIES ErrorsDoNotMove ContentIsConstant OnlyReadAndSeekMove\nACTION_CONSTRAINT Emit", view="View")
        groups = {}
        for e in edges:
            groups.setdefault(json.dumps(e["s"]["runes"]), []).append(e)
        wks = []
        for k, g in groups.items():
            wks += vf.walks(g, {"runes": json.loads(k), "pos": 0}, limit=400)
        vf.replay_walks(ctx, name, wks, stim)
        ctx.sample({"model step": {k: edges[len(edges) // 2][k] for k in "sart"}})
        return {"transitions_replayed": len(edges), "walks": len(wks), "constants": consts, "exhaustive": True}
    return run


def gen(rng, kind, n):
    out = []
    for _ in range(n):
        ln = rng.choice([0, 1, 2, 5, 20, 60]) if _ % 40 else rng.choice([130, 260, 520, 1030, 2600])
        runes = [rng.choice(POOL) if rng.random() < .6 else rng.randrange(0x20, 0x250) for _ in range(ln)]
        offs = [0]
        for r in runes:
            offs.append(offs[-1] + len(chr(r).encode()))
        ops = []
        for _ in range(rng.randrange(1, 40) if _ % 50 else 200 if ln < 1500 else 20):
            x = rng.random()
            if kind == "cursor" or x < .3:
                y = rng.random()
                if y < .4:
                    ops.append({"o": "read"})
                elif y < .55:
                    ops.append({"o": "rest"})
                elif y < .6:
                    ops.append({"o": "seek", "base": rng.choice(["max", "min"]), "off": 0, "wh": rng.randrange(3)})
                else:
                    wh = rng.randrange(3)
                    off = rng.choice([0, 0, 1, -1, -ln, ln, ln + 1, -ln - 1, rng.randint(-ln - 2, ln + 2), rng.randint(-10**9, 10**9)])
                    ops.append({"o": "seek", "base": "zero", "off": off, "wh": wh})
            else:
                y = rng.random()
                ab = lambda: sorted((rng.randint(0, ln), rng.randint(0, ln)))
                if y < .2:
                    a, b = ab()
                    ops.append({"o": "slice", "a": a, "b": b})
                else:
                    l = []
                    for _ in range(rng.randrange(0, 5) if rng.random() < .95 else rng.choice([9, 17, 33])):
                        l += ab()
                    if y < .5:
                        ops.append({"o": "slices", "l": l + ([0] if y < .23 else [])})
                    else:
                        ops.append({"o": "bytes", "l": [offs[v] for v in l] + ([0] if y > .97 else [])})
        out.append({"op": "reader", "runes": runes, "ops": ops})
    return out


def trace(kind):
    def run(ctx, name):
        st = ctx.replaying or gen(ctx.rng(name), kind, ctx.scale(600, 12000))
        recs = ctx.drive(name, st)
        recs = [{"runes": s["runes"], "ops": s["ops"], "res": r["res"]} if "res" in r else r for s, r in zip(st, recs)]
        ctx.validate(name, "ReaderTrace", recs, st)
        ctx.sample(recs[3] if len(recs) > 3 else recs[0])
        return {"sessions": len(st), "calls": sum(len(s["ops"]) for s in st)}
    return run
