"""C01-C06: line breaking."""
import json
import multiprocessing
import re
import perturb
import vf

cp = lambda s: [ord(c) for c in s]
MARKS = ".,;:!?()[]{}\"'/%&@#*\\|\u00ab\u00bb\u2026\u3001\u3002\u2014_"
HYPHENS = "-\u2010\u00ad\u058a\u30fb"
ZERO = "\u0301\u0308\u200b\u0304"   # runes of width 0
OTHERS = "+=<>$^~`\u20ac\u00d7\u2192\u0301\u200b\u00e9\u00df\u4e2d\u6587\u8a9e\U0001f600\uff21\u2e3a\u2e3b\u00b1\u03a9\u2500\u00a0"
FOREIGN = "\u00e9\u00e8\u00fc\u0436\u0434\u044f\u03b1\u03b2\u4e2d\u6587\u6f22\u5b57\uac00\ub098\U0001d400\U0001d401\U00020000\U0001f600"
LETTERS = "abcdefghijklmnopqrstuvwxyz"
PALETTE = sorted(set(range(32, 127)) | {ord(c) for c in MARKS + HYPHENS + OTHERS + ZERO + FOREIGN + LETTERS + LETTERS.upper()})
WORDS = """a I an of to the and for with this from word text line breaks paragraph hyphenation algorithm demerits tolerance penalty
optimum international responsibility university computer programming representation characterization supercalifragilistic
association table present project manuscript typesetting knuth plass terminal width columns attribute renderer incomprehensibilities
lorem ipsum dolor sit amet consectetur adipiscing elit sed do eiusmod tempor incididunt ut labore et dolore magna aliqua""".split()
_facts = {}


def facts(ctx, name):
    """facts about the environment, for the runes of the palette"""
    if "p" not in _facts:
        a = ctx.drive(name, [{"op": "classes", "in": PALETTE}])[0]
        b = ctx.drive(name, [{"op": "width", "ops": [{"r": r, "cfg": {}} for r in PALETTE] + [{"r": r, "cfg": {"ea": True}} for r in PALETTE]}])[0]["res"]
        n = len(PALETTE)
        _facts["p"] = {x["r"]: {"r": x["r"], "w": b[i]["w"], "ea": b[n + i]["w"], "punct": x["punct"], "hyphen": x["hyphen"]} for i, x in enumerate(a)}
    return _facts["p"]


def strip(tok):
    """runs of visible runes of a token (hints only: the specification has its own definition)"""
    segs, cur, i = [], [], 0
    while i < len(tok):
        if tok[i] == 27:
            while tok[i] not in cp("mshul"):
                i += 1
            segs.append(cur)
            cur = []
        else:
            cur.append(tok[i])
        i += 1
    return [s for s in segs + [cur] if s]


def words_of(fx, tok):
    """words that the hyphenator may get for this token (hints only)"""
    res = set()
    for seg in strip(tok):
        for marks in (True, False):
            cur = []
            for r in seg + [None]:
                if r is None or fx[r]["hyphen"] or marks and (r == 124 or fx[r]["punct"]):
                    if cur:
                        res.add(tuple(cur))
                    cur = []
                else:
                    cur.append(r)
    return res


def model_cfg(c):
    """configuration of the specification for a configuration of the driver"""
    return {"tol10": round(c.get("tol", 8.6) * 10), "wb": c.get("wb", True), "hpen": int(c.get("hpen", 300)), "flag": int(c.get("hpen", 100)),
            "render": c.get("render", True), "scale": int(c.get("scale", 1)), "q": c.get("q", 1), "punct": c.get("punct", "default"),
            "hyph": c.get("hyph", "default"), "every": c.get("every", 0)}


def fact(f, c):
    """what the specification has to know of a rune"""
    m = c.get("meas", "default")
    if m == "table":
        w = c["table"].get(chr(f["r"]), c["unit"])
    else:
        w = {"default": f["w"], "len": 1, "two": 2, "ea": f["ea"]}[m]
    return {"r": f["r"], "m": round(w * c.get("q", 1)), "punct": f["punct"], "hyphen": f["hyphen"]}


def records(ctx, name, sts, procs=8):
    """sts: [{"op": "lb", "cfgs", "calls"}]; one record per call"""
    fx = facts(ctx, name)
    for s in sts:
        ws = sorted({w for c in s["calls"] for t in c["tokens"] for w in words_of(fx, t)})
        s["words"] = [list(w) for w in ws]
    recs, single = [], []
    for s, r in zip(sts, ctx.drive(name, sts, procs=procs)):
        if "res" not in r:
            raise vf.Violation(name, [s], "the call panics")
        parts = {tuple(x["w"]): x["parts"] for x in r["facts"]}
        for c, x in zip(s["calls"], r["res"]):
            cfg = s["cfgs"][c["b"]]
            one = dict(s, cfgs=[cfg], calls=[dict(c, b=0)], words=[])
            if "lines" not in x:
                raise vf.Violation(name, [one], "the call panics")
            runes = sorted({v for t in c["tokens"] for v in t} & set(fx) | {32, 45})
            ws = sorted({w for t in c["tokens"] for w in words_of(fx, t)})
            if cfg.get("hyph") == "cuts":
                pf = []
                for w in ws:
                    cuts = [0] + cfg["cuts"].get("".join(map(chr, w)), []) + [len(w)]
                    pf.append({"w": w, "parts": [w[a:b] for a, b in zip(cuts, cuts[1:])]})
            elif cfg.get("hyph") == "every":
                pf = []
            else:
                pf = [{"w": w, "parts": parts[w]} for w in ws]
            recs.append({"tokens": c["tokens"], "w": int(c["w"] * 100 + 1e-6), "c": model_cfg(cfg), "f": {"runes": [fact(fx[v], cfg) for v in runes], "parts": pf}, "lines": x["lines"], "err": x["err"]})
            single.append(one)
    return recs, single


def judge(ctx, name, sts, judged, chunk=4000):
    recs, single = records(ctx, name, sts)
    ctx.validate(name, "LineBreakTrace", recs, single, consts={"Judged": '"%s"' % judged}, chunk=chunk)
    return recs


def outcome(recs):
    return {"paragraphs": len(recs), "set": sum(r["err"] == "none" for r in recs), "cannot": sum(r["err"] == "cannot" for r in recs),
            "lines": sum(len(r["lines"]) for r in recs)}


# --- model --------------------------------------------------------------------------------------------------------------
def to_stim(x):
    c = {"tol": x["c"]["tol10"] / 10, "wb": x["c"]["wb"], "hyph": "every", "every": x["c"]["every"], "render": x["c"]["render"],
         "meas": "table", "table": {"j": 0, "k": 2}, "unit": 1}
    if x["c"]["scale"] != 1:
        c["scale"] = x["c"]["scale"]
    if x["c"]["hpen"] != 300:
        c["hpen"] = x["c"]["hpen"]
    return c, {"b": 0, "fresh": False, "tokens": x["tokens"], "w": x["w"] / 100}


def sets(**kw):
    d = {"Hyphens2": [300], "Renders": ["TRUE"], "WordBreaks": ["TRUE"], "Scales": [1], "Wraps": ["FALSE"], "MaxTokens": 2}
    d.update(kw)
    d["Widths"] = [round(100 * w) for w in d["Widths"]]
    d["Tolerances"] = [round(10 * t) for t in d["Tolerances"]]
    return {k: "{%s}" % ", ".join(map(str, v)) if isinstance(v, list) else v for k, v in d.items()}


BOTH = ["TRUE", "FALSE"]
INF = 1e7
MODELS = [sets(Shapes=[1, 2, 3, 4, 5, 6, 7], Widths=[1, 2, 3, 4, 5, 6, 8], Tolerances=[1, 8.6], Renders=BOTH),
          sets(Shapes=[1, 2, 4, 7], MaxTokens=3, Widths=[2, 3, 5, 7], Tolerances=[8.6], Hyphens2=[300, 0]),
          sets(Shapes=[3, 5, 8, 9, 10, 11, 12], Widths=[1, 2, 4, 6], Tolerances=[8.6], WordBreaks=BOTH),
          sets(Shapes=[1, 4, 13, 14, 15, 16], Widths=[1, 2, 3.5, 5], Tolerances=[0, INF], Scales=[1, 2]),
          sets(Shapes=[1, 7, 11, 17, 18, 19, 20], Widths=[2, 4.6, 5], Tolerances=[0.5, 8.6], Wraps=BOTH)]
MODELS += [sets(Shapes=[1, 2, 20, 21], MaxTokens=3, Widths=[2, 3, 4, 5], Tolerances=[8.6])]
DEEP = [sets(Shapes=[1, 2, 4], MaxTokens=5, Widths=[3, 5, 7, 9, 12], Tolerances=[1, 8.6]),
        sets(Shapes=[1, 2, 3, 4, 5, 7], MaxTokens=3, Widths=[1, 2, 3, 4, 5, 6, 7, 8, 9], Tolerances=[1, 1.5, 8.6], Hyphens2=[300, 0], Renders=BOTH, WordBreaks=BOTH),
        sets(Shapes=[1, 2, 4, 20], MaxTokens=4, Widths=[3, 5, 7, 9, 12], Tolerances=[1, 8.6]),
        sets(Shapes=[1, 4, 13, 14, 15, 16, 5], MaxTokens=3, Widths=[0, 1, 2, 2.99, 3.5, 5, 6], Tolerances=[0, .5, INF], Scales=[1, 2, 10], Renders=BOTH),
        sets(Shapes=[1, 7, 11, 12, 17, 18, 19], MaxTokens=3, Widths=[1, 2, 4.6, 5, 8], Tolerances=[0.5, 8.6], Wraps=BOTH, Renders=BOTH)]


def model(judged):
    def run(ctx, name):
        sts = ctx.replaying
        extra = {}
        if sts is None:
            runs = MODELS + (DEEP if ctx.thorough else [])
            groups = {}
            for consts in runs:
                for x in ctx.emit("LineBreakMC", consts, ["ReachSound", "OptimalSound", "Whole"], "CONSTRAINT Emit2\n", workers="8"):
                    cfg, call = to_stim(x)
                    groups.setdefault(json.dumps(cfg), []).append(call)
            sts = []
            for g, calls in groups.items():
                for i in range(0, len(calls), 200):
                    sts.append({"op": "lb", "cfgs": [json.loads(g)], "calls": calls[i:i + 200]})
            extra = {"exhaustive": True, "models": len(runs)}
        recs = judge(ctx, name, sts, judged)
        return dict(outcome(recs), **extra)
    return run


# --- random paragraphs --------------------------------------------------------------------------------------------------
def word(rng, rich, marks=.3):
    x = rng.random()
    if x < .45:
        w = rng.choice(WORDS)
    elif x < .72:
        w = "".join(rng.choice("abcde") for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8])))
    elif x < .8:
        w = "".join(rng.choice(FOREIGN) for _ in range(rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7]))) if rich else rng.choice(WORDS)
    elif x < .88 and rich:
        w = "".join(rng.choice(LETTERS[:6] + OTHERS) for _ in range(rng.choice([1, 2, 3, 5, 6, 9])))
    elif x < .96 and rich:
        w = ""
        for _ in range(rng.choice([2, 2, 3, 4])):
            w += rng.choice(WORDS + ["x", "ab", ""]) + rng.choice(HYPHENS if rng.random() < .3 else "-")
        if rng.random() < .8:
            w += rng.choice(WORDS)
    else:
        w = rng.choice(WORDS).capitalize()
    if rich and rng.random() < .1:   # runes of width 0, often next to a mark
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice([0, len(w), rng.randrange(len(w) + 1)])
            w = w[:k] + rng.choice(ZERO) + rng.choice(["", "", ".", ",", "-"]) + w[k:]
    if rng.random() < (marks if rich else .08):
        y = rng.random()
        m = "".join(rng.choice(MARKS if rng.random() < .8 else "|.-_") for _ in range(rng.choice([1, 1, 1, 2, 3]))) if rng.random() < .8 else rng.choice(MARKS + "----") * rng.choice([2, 2, 3]) if y < .6 else rng.choice(".,")
        z = rng.random()
        if z < .6:
            w += m
        elif z < .75:
            w = m + w
        elif z < .82:
            w = m + w + m
        elif z < .97:
            k = rng.randrange(len(w) + 1)
            w = w[:k] + m + w[k:]
        else:
            w = m
    return w


SPANS = [("\x1b[31m", "\x1b[0m"), ("\x1b[1;32m", "\x1b[m"), ("\x1b[38;5;12m", "\x1b[0m"), ("\x1b[4h", "\x1b[4l"), ("\x1b[s", "\x1b[u"), ("\x1b[7m", "\x1b[0;1m")]


SEQ = re.compile("((?:\x1b\\[[0-9;]*[a-z])+)")


def color(rng, tokens, p):
    """adds well nested spans, at random positions: a stop sequence closes the latest start sequence"""
    if rng.random() < p / 3:   # each token on its own
        out = []
        for t in tokens:
            a, b = rng.choice(SPANS)
            k = rng.randrange(len(t) + 1)
            out.append(t if rng.random() < .5 else a + t + b if rng.random() < .7 else a + t[:k] + b + t[k:])
        return out
    cuts = []
    for i, t in enumerate(tokens):
        for k in range(len(t) + 1):
            cuts.append((i, k))
    n = rng.choice([1, 1, 2, 3, 5, 8]) if rng.random() < p else 0
    pos = sorted(rng.randrange(len(cuts)) for _ in range(2 * n))
    if rng.random() < .2:   # around the ends of tokens
        ends = [k for k, (i, j) in enumerate(cuts) if j == len(tokens[i])]
        pos = sorted(max(0, rng.choice(ends) - rng.choice([0, 0, 0, 1])) for _ in pos)
    if rng.random() < .4:   # short spans
        pos = sorted(x for q in pos[::2] for x in (q, min(len(cuts) - 1, q + rng.randrange(6))))
    depth = rng.choice([1, 1, 1, 2, 3])
    if p > 0 and rng.random() < .04 and len(cuts) > 60:   # deep nesting
        n = depth = rng.choice([12, 18, 24])
        pos = sorted(rng.randrange(len(cuts)) for _ in range(2 * n))
    ins, opened = {}, []
    for k, at in enumerate(pos):
        left = len(pos) - k
        if opened and (len(opened) >= min(depth, left) or rng.random() < (.5 if depth < 5 else .1)):
            ins.setdefault(cuts[at], []).append(opened.pop())
        else:
            a, b = SPANS[0] if rng.random() < .4 else rng.choice(SPANS)
            ins.setdefault(cuts[at], []).append(a)
            opened.append(b)
    if n and rng.random() < .2:   # around the paragraph
        a, b = rng.choice(SPANS)
        ins.setdefault(cuts[0], []).insert(0, a)
        opened.insert(0, b)
    ins.setdefault(cuts[-1], []).extend(reversed(opened))
    if n and rng.random() < .3:   # after a mark or an hyphen at the end of a token, nothing but sequences
        for i, t in enumerate(tokens):
            if t[-1] in MARKS + HYPHENS and rng.random() < .7:
                ins.setdefault((i, len(t)), []).extend(SPANS[rng.randrange(4)])
    out = []
    for i, t in enumerate(tokens):
        s = ""
        for k in range(len(t) + 1):
            s += "".join(ins.get((i, k), [])) + t[k:k + 1]
        out.append(s)
    if rng.random() < .25:   # sequences that make a token on their own
        out = [x for t in out for x in (SEQ.sub("\\1 ", t, count=rng.choice([1, 1, 2])).split() if rng.random() < .5 else [t])]
    return out


def cfg_of(rng, words):
    c = {}
    x = rng.random()
    if x < .5:
        c["tol"] = rng.choice([0, 0.1, 0.5, 0.9, 1, 1, 1.5, 2, 2.5, 3, 4, 5, 8.6, 10, 15, 20, 50, 100, 9999, INF])
    if rng.random() < .15:
        c["wb"] = rng.random() < .4
    y = rng.random()
    if y < .35:
        c["hyph"], c["every"] = "every", rng.choice([1, 1, 2, 2, 3, 4])
    elif y < .45:
        c["hyph"] = "cuts"
        c["cuts"] = {w: sorted(k for k in range(1, len(w)) if rng.random() < .3) for w in words}
    if rng.random() < .3:
        c["hpen"] = rng.choice([0, 0, 1, 10, 50, 100, 300, 1000, 5000, 9999])
    if rng.random() < .3:
        c["render"] = rng.random() < .3
    z = rng.random()
    if z < .25:
        c["meas"] = rng.choice(["len", "two", "ea"])
    elif z < .45:
        unit = rng.choice([1, 1, 2, .5, 3, .29, .57, .1])
        c["meas"], c["unit"] = "table", unit
        c["table"] = {r: rng.choice([0, 1, 2, 3, 2 * unit] + ([.5, 1.5] if unit == .5 else [])) for r in rng.sample("-- .,aeit" + MARKS[:4], rng.choice([1, 1, 2, 4]))}
        if " " in c["table"]:
            c["table"][" "] = rng.choice([unit, 1, 2, 3])   # a space takes some room
        if unit == .5:
            c["q"] = 2
        elif unit < .6:   # products such as 0.29 x 100 are not exact
            c["q"] = 100 if unit > .1 else 10
            c["table"] = {r: rng.choice([0, unit, 2 * unit, .58, .07] if unit > .1 else [0, .1, .2, .3, .7]) for r in c["table"]}
            if " " in c["table"]:
                c["table"][" "] = unit
    if rng.random() < .25 or c.get("q"):
        c["scale"] = rng.choice([1, 2, 3, 4, 10, 100, 1000, 10000] if c.get("q", 1) < 10 else [1, 1, 1, 2, 10]) * c.get("q", 1)
    if rng.random() < .12:
        c["punct"] = "off"
    return c


def paragraphs(rng, n, spans=.35, size=(1, 2, 3, 5, 8, 12, 20, 30), marks=.3):
    for i in range(n):
        rich = rng.random() < (.6 if marks < .5 else .9)
        k = rng.choice(size) if i % 80 or size[-1] < 30 else rng.choice([70, 140])
        tokens = [word(rng, rich, marks) or "a" for _ in range(k)]
        if i % 25 == 20:   # long tokens, that end with a mark
            tokens = ["".join(rng.choice(WORDS) + rng.choice(".,-/|") for _ in range(rng.choice([3, 6, 12]))) + rng.choice(["", ".", "-"]) for _ in range(rng.choice([2, 3, 4]))]
        ws = set()
        for t in tokens:
            for w in "".join(c if c.isalnum() else " " for c in t).split():
                ws.add(w)
        colored = color(rng, tokens, spans)
        calls = []
        total = sum(len(t) for t in tokens)
        longest = max(len(t) for t in tokens)
        cfg = cfg_of(rng, ws)
        unit = cfg.get("unit", 1)
        for _ in range(3):
            x = rng.random()
            if x < .5:
                w = rng.randrange(max(1, longest - 8), longest + 12)
            elif x < .8:
                w = rng.randrange(1, 45)
            elif x < .9:
                w = rng.randrange(1, max(2, total + k))
            else:
                w = rng.choice([0, 1, 2, 60, 80, 120, 200])
            if k > 60:
                w = min(w, rng.choice([20, 30, 40]))
            w *= unit
            if rng.random() < .2:
                w = round(w + rng.choice([.01, .1, .25, .4, .5, .6, .75, .99]), 2)
            elif rng.random() < .08 and cfg.get("scale", 1) in (1, 2, 4, 10, 100) and cfg.get("q", 1) in (1, 2, 10, 100):
                w = round(int(w) + rng.choice([.999, .9995, .9999, .99999]), 5)   # recorded in hundredths, rounded down: as good for these scales
            calls.append({"b": 0, "fresh": False, "tokens": [cp(t) for t in colored], "w": w})
        yield {"op": "lb", "cfgs": [cfg], "calls": calls}
        if i % 200 == 50 and size[-1] >= 30:   # long lines
            tokens = [cp(rng.choice(WORDS)) for _ in range(rng.choice([110, 140]))]
            ws = [rng.randrange(250, sum(map(len, tokens))) for _ in range(3)]
            yield {"op": "lb", "cfgs": [{"wb": False, "tol": rng.choice([8.6, 8.6, INF])}], "calls": [{"b": 0, "fresh": False, "tokens": tokens, "w": w} for w in ws]}
        if i % 100 == 70 and size[-1] >= 30:   # large measures: sums above 2^24, that single precision does not hold
            tokens = [cp(rng.choice(WORDS)) for _ in range(rng.choice([40, 60]))]
            longest = max(map(len, tokens))
            cfg2 = {"wb": False, "tol": INF, "scale": rng.choice([99991, 77777, 33333])}
            yield {"op": "lb", "cfgs": [cfg2], "calls": [{"b": 0, "fresh": False, "tokens": tokens, "w": w} for w in rng.sample(range(longest, longest + 20), 3)]}
        if rng.random() < .01:
            yield {"op": "lb", "cfgs": [cfg], "calls": [{"b": 0, "fresh": False, "tokens": [], "w": w} for w in (0, 1, 10)]}


def trace(judged, n=(400, 5000), **kw):
    def run(ctx, name):
        sts = ctx.replaying or list(paragraphs(ctx.rng(name), ctx.scale(*n), **kw))
        recs = judge(ctx, name, sts, judged)
        ctx.sample(*[{k: r[k] for k in ("tokens", "w", "c", "lines", "err")} for r in recs[:2]])
        return outcome(recs)
    return run


# --- paragraphs for which a change of the rules changes the result
def choice(judged):
    def run(ctx, name):
        sts = ctx.replaying
        extra = {}
        if sts is None:
            jobs = [("%s/%d/%d" % (ctx.prop, ctx.seed, i), ctx.scale(6000, 40000), ctx.scale(2, 25)) for i in range(8)]
            with multiprocessing.Pool(8) as pool:
                found = sum(pool.map(perturb.search, jobs), [])
            sts = [x for x, _ in found]
            extra = {"variants": len(perturb.VARIANTS), "variants_told_apart": len({v for _, n in found for v in n})}
        recs = judge(ctx, name, sts, judged)
        return dict(outcome(recs), **extra)
    return run
