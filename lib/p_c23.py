"""C23: the rune writer."""
import vf

POOL = [0, 65, 127, 128, 233, 0x7FF, 0x800, 8364, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, -1, -2147483648, 2147483647]


def model(ctx, name):
    if ctx.replaying is not None:
        recs = ctx.drive(name, ctx.replaying)
        vf.expect_equal(ctx, name, ctx.replaying, [s["expect"] for s in ctx.replaying], [r["res"] for r in recs])
        return
    consts = {"Runes": "{97, 233, 8364, 128512, 55296, 1114112}", "MaxBudget": ctx.scale(6, 10), "MaxRunes": ctx.scale(2, 3), "MaxCalls": 2}
    edges = ctx.emit("WriterMC", consts, ["NoErrorMeansAll", "NothingInvented"], "PROPERTIES AppendOnly CountIsExact\nACTION_CONSTRAINT Emit", view="View")
    seen = {}
    for e in edges:  # the sink's budget determines the rest: one edge per budget and call
        seen[vf.json.dumps([e["s"], e["a"]], sort_keys=True)] = e
    by = {}
    for e in seen.values():
        by.setdefault(e["s"], []).append(e)
    wks = []
    for b in range(consts["MaxBudget"] + 1):
        wks += vf.walks([e for e in seen.values() if e["s"] <= b] if b == consts["MaxBudget"] else [e for e in by.get(b, [])], b, limit=50)
    vf.replay_walks(ctx, name, wks, lambda w: {"op": "writer", "budget": w[0]["s"], "as": len(w) % 2 == 0, "ops": [e["a"] for e in w]})
    return {"transitions_replayed": len(seen), "walks": len(wks), "constants": consts, "exhaustive": True}


def gen(rng, n):
    out = []
    for _ in range(n):
        ops = []
        for _ in range(rng.choice([1, 2, 4, 7, 11]) if _ % 60 else 70):
            x = rng.random()
            rr = lambda: rng.choice(POOL) if rng.random() < .6 else rng.randrange(0, 0x3000)
            if x < .4:
                ops.append({"o": "rune", "r": rr()})
            elif x < .85:
                ops.append({"o": "runes", "v": [rr() for _ in range(rng.choice([0, 1, 2, 5, 30] if rng.random() < .98 else [65, 130, 260, 520, 1030, 1400, 1400, 2100]))]})
            else:
                ops.append({"o": "bytes", "v": [rng.randrange(256) for _ in range(rng.randrange(6))]})
        size = sum(len(o.get("v", [0])) for o in ops)
        budget = rng.choice([0, 1, 2, 3, 4, 7, 20, 60, 1000, 10**6, 10**6]) if rng.random() < .6 else rng.randrange(3 * size + 1)
        out.append({"op": "writer", "budget": budget, "as": rng.random() < .5, "ops": ops})
    for _ in range(n // 20):   # long calls, that the sink refuses midway
        ops = [{"o": "runes", "v": [rng.choice([97, 233, 8364, 128512]) for _ in range(rng.choice([1100, 1700, 2500, 4200]))]} for _ in range(rng.choice([1, 2]))]
        size = sum(len(chr(r).encode()) for o in ops for r in o["v"])
        out.append({"op": "writer", "budget": rng.randrange(size + 1), "as": rng.random() < .5, "ops": ops})
    return out


def trace(ctx, name):
    st = ctx.replaying or gen(ctx.rng(name), ctx.scale(800, 15000))
    recs = ctx.drive(name, st)
    recs = [dict(s, res=r["res"]) for s, r in zip(st, recs)]
    ctx.validate(name, "WriterTrace", recs, st)
    ctx.sample(recs[0])
    return {"sessions": len(st), "calls": sum(len(s["ops"]) for s in st)}


PARTS = [("model", model), ("trace", trace)]
