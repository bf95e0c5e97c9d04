"""C07, C08: attributes."""
import vf

BOUNDARY = '{"iter", "first", "next", "item", "sol", "eol"}'
RENDERING = '{"push", "setstop", "start", "stop", "render"}'


def judge(ctx, name, st, judged):
    recs = [dict(s, res=r["res"]) for s, r in zip(st, ctx.drive(name, st, procs=4))]
    ctx.validate(name, "AttrTrace", recs, st, consts={"Judged": judged})
    return recs


def model(judged):
    def run(ctx, name):
        st = ctx.replaying
        extra = {}
        if st is None:
            st = []
            n = 0
            for consts in [{"MaxItems": 4, "MaxIters": 1}, {"MaxItems": 2, "MaxIters": 2}] + ([{"MaxItems": 5, "MaxIters": 1}, {"MaxItems": 3, "MaxIters": 2}] if ctx.thorough else []):
                edges = ctx.emit("AttrMC", consts, ["Restores", "Nested"], "ACTION_CONSTRAINT Emit", view="View")
                n += len(edges)
                for w in vf.walks(edges, {"items": [], "iters": [], "levels": True}, limit=80):
                    st.append({"op": "attr", "ops": [e["a"] for e in w]})
            extra = {"transitions_replayed": n, "exhaustive": True}
        judge(ctx, name, st, judged)
        return dict(extra, sessions=len(st))
    return run


ESC = ["\x1b[31m", "\x1b[1m", "<b>", "<i x=1>", "\u00ab", "{"]
STOP = ["\x1b[0m", "\x1b[m", "</b>", "</i>", "\u00bb", "}"]
TEXT = ["", "a", "long " * 60, "word", "\u4e2d\u6587", "x\u0301", "\U0001f600", "two words"]
cp = lambda s: [ord(c) for c in s]


def attr(rng, start, stop):
    return {"nil": False, "start": cp(rng.choice(ESC)) if start else [], "text": cp(rng.choice(TEXT)), "stop": cp(rng.choice(STOP)) if stop else []}


NIL = {"nil": True, "start": [], "text": [], "stop": []}


def gen(rng, n):
    out = []
    for _ in range(n):
        ops, depth, count = [], 0, 0
        balanced = rng.random() < .7
        long = rng.choice([3, 6, 12, 25]) if _ % 60 else rng.choice([40, 70])
        p = rng.choice([.2, .4, .7])
        for _ in range(rng.randrange(0, long + 1) if long < 40 else long):
            if rng.random() < .06:
                ops.append({"o": "push", "a": NIL})
                continue
            s = rng.random() < p
            e = rng.random() < p and (not balanced or depth + s > 0)
            ops.append({"o": "push", "a": attr(rng, s, e)})
            depth += s - e
            count += 1
            if rng.random() < .08 and not balanced:
                ops.append({"o": "setstop", "i": rng.randrange(count), "v": cp(rng.choice(STOP + [""]))})
        if balanced:
            while depth > 0 and rng.random() < .9:
                ops.append({"o": "push", "a": attr(rng, False, True)})
                depth -= 1
                count += 1
        its = []
        for _ in range(rng.randrange(5, min(200, 8 * long))):
            x = rng.random()
            if not its or x < .04 and len(its) < 4:
                first = rng.random() < .3
                its.append(1 if first else 0)
                ops.append({"o": "first" if first else "iter"})
                continue
            i = rng.randrange(len(its))
            if x < .35:
                its[i] = its[i] + 1
                ops.append({"o": "next", "i": i})
            elif x < .6:
                ops.append({"o": "sol", "i": i})
            elif x < .85:
                ops.append({"o": "eol", "i": i})
            elif its[i] > 0:
                ops.append({"o": "item", "i": i})
        for _ in range(rng.randrange(3)):
            c = [NIL if rng.random() < .15 else attr(rng, rng.random() < .5, rng.random() < .5) for _ in range(rng.choice([0, 1, 1, 2, 3, 6] if rng.random() < .95 else [12, 20, 40, 70]))]
            ops.append({"o": rng.choice(["start", "stop", "render", "render"]), "items": c})
        out.append({"op": "attr", "ops": ops})
    return out + [deep(rng, d) for d in [rng.choice([13, 18, 25]), rng.choice([33, 40]), rng.choice([65, 80])] * max(1, n // 4000)] + [deep(rng, d) for d in (140, 270)]


def deep(rng, d):
    """d attributes open at once; most are stopped further on"""
    push = lambda s, e: {"o": "push", "a": attr(rng, s, e)}
    ops = []
    for i in range(d):
        ops.append(push(True, False))
        if rng.random() < .1:
            ops.append(push(rng.random() < .5, False) if d < 100 else push(False, False))
    if rng.random() < .7:
        ops += [push(*rng.choice([(False, False), (True, True)])) for _ in range(rng.choice([1, 5, 30 if d > 100 else 5]))]
    middle = len(ops)
    ops += [push(False, True) for i in range(d - rng.choice([0, 0, 3]))]
    ops.append(push(True, True))
    if d > 100:   # too many for the boundaries: levels only
        return {"op": "attr", "ops": ops}
    ops.append({"o": "iter"})
    at = sorted(rng.sample(range(1, len(ops)), 3) + [rng.randrange(1, 9), middle, middle])
    n = 0
    for p in at:
        ops += [{"o": "next", "i": 0}] * (p - n) + [{"o": "sol", "i": 0}, {"o": "eol", "i": 0}]
        n = p
    return {"op": "attr", "ops": ops}


def trace(judged):
    def run(ctx, name):
        st = ctx.replaying or gen(ctx.rng(name), ctx.scale(800, 12000))
        recs = judge(ctx, name, st, judged)
        ctx.sample(*recs[:2])
        return {"sessions": len(st), "calls": sum(len(s["ops"]) for s in st)}
    return run


def parts(judged):
    return [("model", model(judged)), ("trace", trace(judged))]
