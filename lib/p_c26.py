"""C26: calls end with a value or a documented error."""
import json
import vf

NODEF = {"reader": [], "pos": 0, "left": -1}


def model(ctx, name):
    if ctx.replaying is not None:
        recs = ctx.drive(name, [{"op": "total", "ops": s["ops"]} for s in ctx.replaying])
        for s, r in zip(ctx.replaying, recs):
            check(name, s["ops"], s["expect"], r)
        return
    consts = {"Wide": ctx.scale("FALSE", "TRUE"), "Depth": ctx.scale(2, 3)}
    edges = ctx.emit("TotalMC", consts, ["Documented", "InRange"], "ACTION_CONSTRAINT Emit", view="View")
    comps = {}
    for e in edges:
        comps.setdefault(e["s"][0], []).append(e)
    wks = []
    for c, es in sorted(comps.items()):
        wks += vf.walks(es, [c, NODEF, []], limit=60)
    recs = ctx.drive(name, [{"op": "total", "ops": [e["a"] for e in w]} for w in wks], procs=8)
    for w, r in zip(wks, recs):
        check(name, [e["a"] for e in w], [e["r"] for e in w], r)
    ctx.traces += len(wks)
    return {"calls": {c: len(es) for c, es in comps.items()}, "sessions": len(wks), "constants": consts, "exhaustive": True}


def check(name, ops, expect, r):
    for i, (a, e, g) in enumerate(zip(ops, expect, r["res"])):
        if g["ended"] not in e:
            raise vf.Violation(name, [{"ops": ops[:i + 1], "expect": expect}], "call %d %s ends with %s, the specification allows %s" % (i + 1, json.dumps(a), json.dumps(g), e))


ALPHA = [97, 98, 101, 105, 111, 110, 115, 116, 114, 65, 304, 223, 233, 769, 8364, 128512, 45, 8208, 173, 46, 44, 124, 40, 32, 9, 10, 160, 12288, 27, 27, 91, 109, 59, 58, 48, 49, 57, 115, 117, 0, 127, 11834, 11835, 55296, 65533, 1114112, -1, 2147483647]
LANGS = ["", "en", "en-GB", "fr", "de", "es", "zz", "x", "-", "und", "es_MX", "fr-", "i-klingon"]
FLOATS = ["0", "1", "-1", "NaN", "+Inf", "-Inf", "1e300", "-1e300", "5e-324", "0.1", "0.57", "3", "10000", "-10000", "100", "1e9", "1e17", "0.29"]
STATELESS = ["tokenize", "punctuate", "isPunctuation", "splitWord", "isHyphen", "strip", "stripOne", "fields", "hyphenate", "widths"]


def utf8(runes, rng):
    b = []
    for r in runes:
        if 0 <= r <= 0x10FFFF:
            b += list(chr(r).encode("utf-8", "surrogatepass"))
        else:
            b.append(r % 256)
    if b and rng.random() < .3:
        del b[rng.randrange(len(b))]
    return b


def text(rng, long=False):
    x = rng.random()
    n = rng.choice([0, 1, 2, 3, 5, 9, 20, 60]) if not long else rng.choice([300, 1500, 5000])
    if x < .3:
        return [rng.choice([27, 91, 59, 49, 109, 97]) for _ in range(n)]
    if x < .55:
        return [rng.choice(ALPHA[:14]) for _ in range(n)]
    if x < .6:
        return [rng.randrange(-2**31, 2**31) for _ in range(n)]
    if x < .7:
        return [rng.randrange(0x20000) for _ in range(n)]
    return [rng.choice(ALPHA) for _ in range(n)]


def num(rng):
    return rng.choice([-2147483647, -5, -1, 0, 1, 2, 3, 4, 7, 40, 1000, 2147483647])


def floats(rng):
    return rng.choice(FLOATS) if rng.random() < .7 else repr(rng.choice([-1, 1]) * rng.random() * 10.0 ** rng.randrange(-12, 20))


def op(rng, long):
    x = rng.random()
    t = lambda: text(rng, long and rng.random() < .5)
    if x < .2:
        a = rng.choice(STATELESS)
        return {"api": a, "r": t(), "n": [rng.randrange(5), num(rng)], "on": [rng.random() < .5, rng.random() < .5]}
    if x < .26:
        return {"api": rng.choice(["tokenizeString", "punctuateString", "hyphenateString", "stringWidth"]), "s": utf8(t(), rng), "n": [0, num(rng)], "on": [rng.random() < .5, rng.random() < .5]}
    if x < .3:
        return {"api": "width", "n": [rng.choice(ALPHA), num(rng)], "on": [rng.random() < .5, rng.random() < .5]}
    if x < .36:
        return {"api": rng.choice(["newHyphenator", "newHyphenatorTag"]), "name": rng.choice(LANGS), "n": [num(rng), num(rng), num(rng)]}
    if x < .38:
        return rng.choice([{"api": "dictionary"}, {"api": "supportedPatterns"}, {"api": "loadPatterns", "name": rng.choice(["", ".", "x", "hyph-es.tex"])}])
    if x < .5:
        y = rng.random()
        if y < .2:
            return {"api": "newReader", "r": [r for r in text(rng)]}
        if y < .4:
            return {"api": rng.choice(["readRune", "unread"])}
        if y < .7:
            return {"api": "seek", "n": [rng.choice([-10**9, 10**9, -3, -2, -1, 0, 0, 1, 2, 3, 9]), rng.randrange(3)]}
        n = [rng.randrange(0, 10) for _ in range(rng.choice([0, 1, 2, 2, 2, 3, 4, 4, 6]))]
        if rng.random() < .7:
            n.sort()
        return {"api": rng.choice(["slices", "byteSlices"]), "n": n}
    if x < .58:
        y = rng.random()
        if y < .3:
            return {"api": "newWriter", "n": [rng.choice([-1, 0, 1, 2, 3, 5, 9, 50])]}
        if y < .6:
            return {"api": "writeRune", "n": [rng.choice(ALPHA)]}
        return {"api": "writeRunes", "r": t()}
    if x < .74:
        a = rng.choice(["newState", "newAttribute", "newAttribute", "newAttribute", "setStop", "setLevel", "push", "push", "push", "pushNil", "iterator", "first", "next", "next", "item", "startOfLine", "endOfLine", "renderAll"])
        return {"api": a, "r": text(rng), "n": [num(rng)]}
    if x < .8:
        return {"api": rng.choice(["put", "put", "get", "delete"]), "r": text(rng), "n": [num(rng)]}
    if x < .88:
        a = rng.choice(["newLineBreaker", "newLineBreaker", "newLineBreaker", "defaultLineBreaker", "hyphenatorLineBreaker"])
        q = lambda usual: usual if rng.random() < .5 else floats(rng)
        return {"api": a, "x": [q("8.6"), q("1"), q("300"), q("1")], "on": [rng.random() < .5, rng.random() < .7], "n": [rng.choice([0, 0, 1, -1])]}
    return {"api": "setParagraph", "t": [utf8([r for r in text(rng, long and rng.random() < .1)], rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 8, 20]))],
            "x": [rng.choice(["5", "12", "20", "40"]) if rng.random() < .6 else floats(rng)]}


def trace(ctx, name):
    st = ctx.replaying
    if st is None:
        rng = ctx.rng(name)
        st = [{"op": "total", "ops": [op(rng, i % 10 == 0) for _ in range(rng.choice([1, 5, 20, 60]))]} for i in range(ctx.scale(2500, 30000))]
    recs = []
    for s, r in zip(st, ctx.drive(name, st, procs=8)):
        recs.append({"ops": [dict(o, s=[], x=[]) for o in s["ops"]], "ended": [x["ended"] for x in r["res"]], "what": [x["what"] for x in r["res"] if x["what"]]})
        for o in recs[-1]["ops"]:
            if o["api"] not in ("newReader", "writeRune", "writeRunes", "seek", "slices", "byteSlices", "newWriter"):
                o.pop("r", None), o.pop("n", None)
    ctx.validate(name, "TotalTrace", recs, st, chunk=3000)
    ctx.sample(recs[0])
    return {"sessions": len(st), "calls": sum(len(s["ops"]) for s in st)}


def long(ctx, name):
    """long inputs end, within the limit of time of the driver"""
    st = ctx.replaying
    if st is None:
        n = ctx.scale(30000, 200000)
        rng = ctx.rng(name)
        texts = [[97] * n, [45] * n, [46] * n, [27] * n, [27, 91] * (n // 2), [27, 91, 49, 109] * (n // 4), [32, 97] * (n // 2), [97, 45] * (n // 2), [rng.choice(ALPHA) for _ in range(n)]]
        st = [{"op": "total", "ops": [{"api": a, "r": t, "n": [3, 2], "on": [True, True]}]} for t in texts for a in STATELESS + ["newReader", "writeRunes", "put", "get", "delete"]]
        m = ctx.scale(1500, 6000)
        for tol in ("0", "8.6", "+Inf"):
            for w in ("1", "20", "1e6"):
                for tok in ([97, 98], [97] * 12, [27, 91, 49, 109, 97, 27, 91, 109], [97, 46, 98, 45, 99, 111, 109, 112, 117, 116, 101, 114]):
                    st.append({"op": "total", "ops": [{"api": "newLineBreaker", "x": [tol, "1", "300", "1"], "on": [True, True], "n": [0]}, {"api": "setParagraph", "t": [tok] * m, "x": [w]}]})
    recs = []
    for s, r in zip(st, ctx.drive(name, st, procs=8, timeout=800)):
        recs.append({"ops": [{k: ([] if k in ("s", "x") or k in ("r", "n") and o["api"] != "newReader" else v[:1] if k == "t" else v) for k, v in o.items() if k != "r"} | {"r": []} for o in s["ops"]], "ended": [x["ended"] for x in r["res"]]})
    ctx.validate(name, "TotalTrace", recs, st)
    return {"sessions": len(st)}


PARTS = [("model", model), ("trace", trace), ("long", long)]
