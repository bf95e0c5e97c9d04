"""C25: inputs are never modified."""
import unicodedata
import vf
from common_lb import paragraphs, cp, WORDS, MARKS, HYPHENS, OTHERS, SPANS

APIS = ["tokenize", "fields", "punct", "ispunct", "splitword", "ishyphen", "hyphenate", "strip", "stripone", "widths", "reader", "write", "render", "trie", "linebreak"]
BUFFERS = ["\x1b[31mred\x1b[0m hyphenation, semi-hard(word) \x1b[1m",
           "internationalization of responsibilities",
           "a\x1b[1;2mb\x1b[mc\x1b[2Kd\x1b[0me...-\u2010x|y  z\t\x1b[31",
           "\u4e2d\u6587 e\u0301\U0001f600 PROJECT Table;associate-project\x1b[s!\x1b[u"]


def judge(ctx, name, sts):
    recs = []
    for s, r in zip(sts, ctx.drive(name, sts, procs=8)):
        if "res" not in r or any("new" not in x for x in r["res"]):
            raise vf.Violation(name, [s], "an operation panics: " + str([x for x in r.get("res", []) if "new" not in x][:1]))
        recs.append(dict(s, res=r["res"]))
    ctx.validate(name, "ImmutTrace", recs, sts)
    return {"sessions": len(recs), "operations": sum(len(r["res"]) for r in recs), "returned": sum(len(x["new"]) for r in recs for x in r["res"])}


def model(ctx, name):
    if ctx.replaying:
        return judge(ctx, name, ctx.replaying)
    sts = []
    seen = set()
    for consts in ([{"MaxOps": 2, "Windows": "{0, 2}", "Args": "{1, 2}"}] if not ctx.thorough else [{"MaxOps": 2, "Windows": "{0, 1, 2, 3}", "Args": "{0, 1, 2, 3, 5}"}, {"MaxOps": 3, "Windows": "{2}", "Args": "{1}"}]):
        for ops in ctx.emit("ImmutMC", dict(consts, Apis="{%s}" % ", ".join('"%s"' % a for a in APIS), BufferLength=8, Appends="FALSE"), ["Unchanged", "Halved"],
                            "CONSTRAINT Emit\nPROPERTIES Frame\n", workers="8"):
            k = str(ops)
            if k in seen:
                continue
            seen.add(k)
            for b in (BUFFERS if consts["MaxOps"] == 2 else BUFFERS[len(seen) % 4:][:1]):
                buf = cp(b)
                n = len(buf)
                sts.append({"op": "immut", "buf": buf, "ops": [{"api": o["api"], "prev": o["prev"], "lo": o["w"] * n // 8, "hi": n - o["w"], "arg": o["arg"]} for o in ops]})
    return dict(judge(ctx, name, sts), exhaustive=True)


WIDE = [r for r in range(0x110000) if unicodedata.category(chr(r))[0] in "PZSCM" and unicodedata.category(chr(r)) not in ("Cn", "Co", "Cs") or unicodedata.category(chr(r)) in ("Lu", "Lt", "Lm")]


def text(rng):
    s = ""
    for _ in range(rng.choice([1, 2, 4, 8])):
        x = rng.random()
        if x < .4:
            s += rng.choice(WORDS)
        elif x < .45:
            s += rng.choice(MARKS + "-----`<>=") * rng.choice([2, 2, 3])
        elif x < .55:
            s += rng.choice(MARKS + HYPHENS + OTHERS)
        elif x < .7:
            s += " "
        elif x < .9:
            s += rng.choice([y for p in SPANS for y in p] + ["\x1b[2K", "\x1b[12", "\x1b", "\x1b[;", "\x1b[1;31;4m"])
        else:
            s += "".join(chr(rng.choice(WIDE)) for _ in range(rng.choice([1, 2, 5, 20]))) if rng.random() < .7 else chr(rng.choice([0, 9, 0xA0, 0x301, 0x1F600, 0x2E3B, 0xAC00]))
    return s


def trace(ctx, name):
    sts = ctx.replaying
    if sts is None:
        rng = ctx.rng(name)
        sts = []
        for _ in range(ctx.scale(3000, 40000)):
            buf = cp(text(rng))
            if rng.random() < .05:
                buf[rng.randrange(len(buf))] = rng.choice([0xD800, 0x110000, -1])
            n = len(buf)
            ops = []
            for _ in range(rng.choice([1, 2, 4, 6])):
                lo = rng.randrange(n + 1) if rng.random() < .6 else 0
                hi = rng.randrange(lo, n + 1) if rng.random() < .7 else n
                api = rng.choice(APIS) if rng.random() < .85 else rng.choice(["strip", "stripone", "hyphenate", "linebreak"])
                ops.append({"api": api, "prev": rng.randrange(6) if rng.random() < .35 else -1, "lo": lo, "hi": hi, "arg": rng.randrange(12)})
            sts.append({"op": "immut", "buf": buf, "ops": ops})
    r = judge(ctx, name, sts)
    ctx.sample(*sts[:3])
    return r


def sweep(ctx, name):
    """all the runes that may be special: marks, separators, symbols, controls, capital letters"""
    sts = ctx.replaying
    if sts is None:
        rng = ctx.rng(name)
        sts = []
        pool = WIDE if ctx.thorough else [r for r in WIDE if unicodedata.category(chr(r))[0] in "PZ" or r < 0x3100]
        for at in range(0, len(pool), 24):
            some = pool[at:at + 24]
            buf = []
            for r in some:
                buf += [r] + cp(rng.choice(["", "", "a", " ", "x-y", "abcdef"]))
            sts.append({"op": "immut", "buf": buf, "ops": [{"api": a, "prev": -1, "lo": 0, "hi": len(buf), "arg": rng.randrange(12)} for a in APIS]})
    return judge(ctx, name, sts)


def tokens(ctx, name):
    """the slice of tokens given to the line breaker, and what lies after it"""
    sts = ctx.replaying or list(paragraphs(ctx.rng(name), ctx.scale(1200, 12000), size=(1, 2, 3, 5, 8), marks=.6))
    recs = []
    for s, r in zip(sts, ctx.drive(name, sts, procs=8)):
        if "res" not in r or any("kept" not in x for x in r["res"]):
            raise vf.Violation(name, [s], "the call panics")
        recs.append({"buf": [], "ops": s["calls"], "res": [{"tokens": x["kept"], "new": [], "after": [], "kept": []} for x in r["res"]]})
    ctx.validate(name, "ImmutTrace", recs, sts)
    return {"calls": sum(len(r["res"]) for r in recs)}


PARTS = [("tokens", tokens), ("model", model), ("trace", trace), ("sweep", sweep)]
