"""C24: the trie."""
import vf


def model(ctx, name):
    if ctx.replaying is not None:
        recs = ctx.drive(name, ctx.replaying)
        vf.expect_equal(ctx, name, ctx.replaying, [s["expect"] for s in ctx.replaying], [r["res"] for r in recs])
        return
    total = 0
    for consts in [{"Letters": "{97, 98}", "MaxLen": 2, "Values": "{1}"}, {"Letters": "{233}", "MaxLen": 4, "Values": "{1, 2}"}] + (
            [{"Letters": "{97, 98}", "MaxLen": 2, "Values": "{1, 3}"}, {"Letters": "{97, 98, 99}", "MaxLen": 2, "Values": "{1}"}] if ctx.thorough else []):
        edges = ctx.emit("TrieMC", consts, ["KeysAreNodes"], "PROPERTIES DeleteOnlyForgetsKey\nACTION_CONSTRAINT Emit", view="View")
        wks = vf.walks(edges, [], limit=300)
        vf.replay_walks(ctx, name, wks, lambda w: {"op": "trie", "ops": [e["a"] for e in w]})
        total += len(edges)
    return {"transitions_replayed": total, "exhaustive": True}


def gen(rng, n):
    out = []
    for i in range(n):
        letters = rng.choice([[97, 98], [97, 98, 99], [97, 0x4E2D, 233], list(range(97, 110)), list(range(97, 140)), [0, 0x10FFFF, 97], [-1, 0xD800, 0x110000, 0x7FFFFFFF, -2147483648, 0]])
        keys = [[rng.choice(letters) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 8] if i % 25 else [1, 17, 33, 70, 130]))] for _ in range(rng.randrange(2, 14) if i % 20 else 45)]
        keys += [k[:rng.randrange(len(k) + 1)] for k in keys]
        ops = []
        p = rng.choice([.3, .5])
        values = rng.choice([[1, 2, 3], range(1, 16), range(1, 16), [rng.randrange(1, 16)], [2, 3, 4]])
        for _ in range(rng.randrange(1, 60) if i % 20 else 250):
            k = rng.choice(keys)
            x = rng.random()
            ops.append({"o": "put", "k": k, "v": rng.choice(values)} if x < p else {"o": "del", "k": k} if x < p + .3 else {"o": "get", "k": k})
        for k in keys:
            ops.append({"o": "get", "k": k})
        if rng.random() < .5:  # delete everything twice: false unless a prefix remains
            for k in keys + keys:
                ops.append({"o": "del", "k": k})
        out.append({"op": "trie", "ops": ops})
    for size in [40, 90, 150, 300, 600, 1100]:   # nodes with many children
        first = rng.choice([97, 0x20, 0x4E00, 0x10000])
        under = rng.choice([[], [97], [0x4E2D, 98]])
        keys = [under + [first + i] + rng.choice([[], [], [99], [first]]) for i in range(size)]
        rng.shuffle(keys)
        ops = [{"o": "put", "k": k, "v": rng.randrange(1, 16)} for k in keys]
        gets = [{"o": "get", "k": k} for k in keys]
        dels = [{"o": "del", "k": k} for k in rng.sample(keys, size // 2)]
        out.append({"op": "trie", "ops": ops + rng.sample(gets, size // 3) + dels + gets})
    return out


def trace(ctx, name):
    st = ctx.replaying or gen(ctx.rng(name), ctx.scale(500, 10000))
    recs = ctx.drive(name, st)
    recs = [dict(s, res=r["res"]) for s, r in zip(st, recs)]
    ctx.validate(name, "TrieTrace", recs, st)
    ctx.sample(recs[0])
    return {"sessions": len(st), "calls": sum(len(s["ops"]) for s in st)}


PARTS = [("model", model), ("trace", trace)]
