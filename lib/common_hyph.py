"""C11, C12, C13: hyphenation."""
import json, os, re
import vf

LANGS = [("en", "ushyphmax", ["en", "en-US"]), ("gb", "hyph-en-gb", ["en-GB"]), ("fr", "hyph-fr", ["fr", "fr-FR"]),
         ("de", "hyph-de-1996", ["de"]), ("es", "hyph-es", ["es"])]
cp = lambda s: [ord(c) for c in s]


def read_pattern(p):
    l, v, pend = [], [], 0
    for c in p:
        if c.isdigit():
            pend = int(c)
        else:
            l.append(ord(c))
            v.append(pend)
            pend = 0
    if p[-1:].isdigit():
        v.append(pend)
    return {"l": l, "v": v}


def read_exception(e):
    l, v, pend = [], [], 0
    for c in e:
        if c == "-":
            pend = 1
        else:
            l.append(ord(c))
            v.append(pend)
            pend = 0
    return {"l": l, "v": v}


def h(letters):
    r = 0
    for c in letters:
        r = (r * 31 + c) % 4096
    return r


def dict_of(pats, excs):
    b = [[] for _ in range(4096)]
    for p in pats:
        x = read_pattern(p)
        b[h(x["l"])].append(x)
    return {"pats": b, "exc": [read_exception(e) for e in excs], "maxlen": max([len(x["l"]) for y in b for x in y] or [0])}


def write_dicts(ctx, dicts):
    """dicts: list of (patterns, exceptions); returns the environment for TLC"""
    ctx.n += 1
    a, b = os.path.join(ctx.tmp, "dicts%d" % ctx.n), os.path.join(ctx.tmp, "raws%d" % ctx.n)
    with open(a, "w") as f, open(b, "w") as g:
        for p, e in dicts:
            f.write(json.dumps(dict_of(p, e)) + "\n")
            g.write(json.dumps({"pats": [cp(x) for x in p], "exc": [cp(x) for x in e]}) + "\n")
    return {"VF_DICTS": a, "VF_RAWS": b}


def languages():
    res = []
    for _, name, _ in LANGS:
        lines = open(os.path.join(vf.HERE, "data", "patterns", name + ".txt"), encoding="utf-8").read().split("\n")
        res.append(([l for l in lines if l and l[0] != "="], [l[1:] for l in lines if l[:1] == "="]))
    return res


def judge(ctx, name, cases, judged, env, tex=None, chunk=60000):
    """cases: (index of the dictionary, cfg of the driver, settings, word)"""
    groups = {}
    for n, (d, cfg, c, w, s) in enumerate(cases):
        groups.setdefault(json.dumps([d, cfg, s]), []).append(n)
    stimuli = []
    for g, ns in groups.items():
        d, cfg, s = json.loads(g)
        for i in range(0, len(ns), 500):
            stimuli.append(({"op": "hyph", "cfg": cfg, "words": [cases[n][3] for n in ns[i:i + 500]], "str": s}, ns[i:i + 500]))
    out = [None] * len(cases)
    for (st, ns), r in zip(stimuli, ctx.drive(name, [s for s, _ in stimuli], procs=4, tex=tex)):
        for n, x in zip(ns, r["res"]):
            out[n] = x
    low = ctx.drive(name, [{"op": "lower", "words": [c[3] for c in cases]}], tex=tex)[0]["res"]
    recs, single = [], []
    for (d, cfg, c, w, s), x, y in zip(cases, out, low):
        st = {"op": "hyph", "cfg": cfg, "words": [w], "str": s, "d": d, "c": c, "tex": tex}
        if "parts" not in x:
            raise vf.Violation(name, [st], "the call panics: %s" % json.dumps(x))
        recs.append({"d": d, "c": c, "word": w, "low": y["low"], "hyphen": y["hyphen"], "parts": x["parts"]})
        single.append(st)
    ctx.env = env
    ctx.validate(name, "HyphTrace", recs, single, consts={"Judged": '"%s"' % judged}, chunk=chunk)
    return recs


def settings(cfg):
    return {"minLen": cfg.get("minLen", 4), "left": cfg.get("left", 2), "right": cfg.get("right", 2)}


def replay(ctx, name, judged, dicts):
    st = ctx.replaying
    tex = st[0].get("tex")
    env = write_dicts(ctx, dicts if tex is None else [parse_tex(tex[k]) for k in sorted(tex)])
    judge(ctx, name, [(s["d"], s["cfg"], s["c"], s["words"][0], s["str"]) for s in st], judged, env, tex)


# --- tiny dictionaries -----------------------------------------------------------------------------------------------
TINY = [
    (["a1b"], []),
    (["1b", ".a2b", "b1.", "2a1"], []),
    (["a1a", "1a1", "a2a.", ".a1"], ["a-b-a", "b-bb"]),
    (["b3a", "2b1", "ab4a", ".b5", "a1b2a1b"], ["ab", "a-ba-b"]),
    (["1a9", "b8a", "a1b1a", ".ab1a.", "7b"], ["b-a", "aa-a", "ba-b-a"]),
    ([], ["a-a-a-a", "b-b"]),
    (["a0b", "b1b", "b1a1", "1b1b1"], []),
]


def tex_of(dicts, rng=None):
    tex = {}
    for i, (p, e) in enumerate(dicts):
        s = "% a comment\n\\message{Dictionary " + str(i) + "}\n\\patterns{\n"
        line = []
        for x in p:
            line.append(x)
            if rng is None or rng.random() < .6:
                s += " ".join(line) + "\n"
                line = []
        s += " ".join(line) + "\n}\n"
        if e:
            close_same = i % 2 == 0 if rng is None else rng.random() < .5
            s += "\\hyphenation{\n" + "\n".join(e) + ("}\n" if close_same else "\n}\n")
        tex["zz%03d.tex" % i] = s
    return tex


def parse_tex(s):
    pats, excs, cur = [], [], None
    for line in s.split("\n"):
        if line.startswith(("\\patterns{",)):
            cur = pats
        elif line.startswith("\\hyphenation{"):
            cur = excs
        elif not line.startswith(("%", "\\")) and cur is not None:
            cur += line.replace("}", " ").split()
    return pats, [e.lower() for e in excs]


def model(judged):
    def run(ctx, name):
        if ctx.replaying is not None:
            return replay(ctx, name, judged, None)
        env = write_dicts(ctx, TINY)
        tex = tex_of(TINY)
        cases = []
        confs = "{0, 111, 422, 21, 312, 30, 203, 511}"
        ctx.env = env
        runs = [("{97, 98}", ctx.scale(5, 7)), ("{97, 98, 45}", 3), ("{97, 98, 46}", 3)]
        for alpha, n in runs:
            for x in ctx.emit("HyphMC", {"Alphabet": alpha, "MaxLen": n, "Configs": confs}, ["DesignLegal", "DesignExact", "BreaksIncrease"],
                              "CONSTRAINT Emit\nPROPERTIES Monotonic" + (" Terminates" if n < 4 else "")):
                c = x["c"]
                for up in range(3):
                    w = [v - 32 if 97 <= v <= 122 and (up == 1 or up == 2 and i == 0) else v for i, v in enumerate(x["w"])]
                    cases.append((x["d"], dict(c, dict="zz%03d.tex" % (x["d"] - 1)), c, w, False))
        judge(ctx, name, cases, judged, env, tex)
        return {"exhaustive": True, "words_replayed": len(cases), "dictionaries": len(TINY), "alphabets": [list(r) for r in runs]}
    return run


def random_dicts(rng, n):
    dicts = []
    for i in range(n):
        alpha = rng.choice(["ab", "abc", "a\u00e9b", "ab'"])
        pats = {}
        for _ in range(rng.choice([1, 3, 8, 20])):
            k = rng.choice([1, 2, 2, 3, 3, 4, 6] if rng.random() < .93 else [10, 15, 17, 24, 33, 40, 66])
            s = "".join(rng.choice(alpha) for _ in range(k))
            if rng.random() < .25:
                s = "." + s
            if rng.random() < .25:
                s += "."
            p = ""
            for c in s:
                if rng.random() < .45:
                    p += str(rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9]))
                p += c
            if rng.random() < .3 and s[-1] != ".":
                p += str(rng.choice([1, 2, 3]))
            pats[s] = p
        excs = {}
        for _ in range(rng.choice([0, 0, 1, 2, 5])):
            k = rng.choice([1, 2, 3, 4, 5, 8] if rng.random() < .85 else [12, 14, 17, 24, 33, 40, 66, 130])
            s = "".join(rng.choice(alpha) for _ in range(k))
            e = s[0]
            for c in s[1:]:
                e += ("-" if rng.random() < .4 else "") + c
            excs[s] = e
        dicts.append((list(pats.values()), list(excs.values())))
    return dicts


def mixcase(rng, w):
    x = rng.random()
    s = w
    if x < .15:
        s = w.upper()
    elif x < .3:
        s = w[:1].upper() + w[1:]
    elif x < .4:
        s = "".join(c.upper() if rng.random() < .5 else c for c in w)
    return s if len(s) == len(w) else w


def cfg_of(rng):
    c = {}
    if rng.random() < .5:
        c["minLen"] = rng.choice([0, 1, 2, 3, 4, 5, 8] if rng.random() < .85 else [9, 12, 16, 20, 33, 70])
    for side in ("left", "right"):
        if rng.random() < .5:
            c[side] = rng.choice([0, 1, 2, 3, 5] if rng.random() < .85 else [7, 9, 10, 11, 16, 17, 18, 32, 70])
    return c


def tiny(judged):
    """random small dictionaries"""
    def run(ctx, name):
        if ctx.replaying is not None:
            return replay(ctx, name, judged, None)
        rng = ctx.rng(name)
        dicts = random_dicts(rng, ctx.scale(40, 300))
        env, tex = write_dicts(ctx, dicts), tex_of(dicts, rng)
        cases = []
        for i, (pats, excs) in enumerate(dicts):
            alpha = sorted(set(c for p in pats + excs for c in p if c.isalpha() or c == "'")) or ["a"]
            for _ in range(ctx.scale(60, 100)):
                cfg = cfg_of(rng)
                if excs and rng.random() < .5:
                    w = rng.choice(excs).replace("-", "")
                    if rng.random() < .3:
                        w = rng.choice([w + rng.choice(alpha), rng.choice(alpha) + w, w[:-1] or w])
                else:
                    w = "".join(rng.choice(alpha) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20])))
                    long = [f for f in (re.sub(r"\d", "", p) for p in pats) if len(f) > 8]
                    if long and rng.random() < .3:   # a long pattern, at an end of the word or within it
                        f = rng.choice(long)
                        w = ("" if f[0] == "." else w[:len(w) // 2]) + f.strip(".") + ("" if f[-1] == "." else w[len(w) // 2:])
                cases.append((i + 1, dict(cfg, dict="zz%03d.tex" % i), settings(cfg), cp(mixcase(rng, w)), False))
        judge(ctx, name, cases, judged, env, tex)
        return {"words": len(cases), "dictionaries": len(dicts)}
    return run


# --- bundled dictionaries --------------------------------------------------------------------------------------------
def words_of(rng, pats, excs, n):
    frags = [re.sub(r"\d", "", p) for p in pats]
    starts, ends, mids = [f for f in frags if f[0] == "."], [f for f in frags if f[-1] == "."], [f for f in frags if "." not in f]
    letters = "".join(f.strip(".") for f in frags)
    for _ in range(n):
        x = rng.random()
        if x < .45:   # overlapping fragments
            w = rng.choice(starts or mids)[1:] if rng.random() < .3 else rng.choice(mids)
            for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
                f = rng.choice(mids)
                for _ in range(20):   # look for a fragment that overlaps
                    k = min(len(w), rng.choice([1, 2, 2, 3]))
                    if f[:k] == w[-k:]:
                        break
                    f = rng.choice(mids)
                k = next((k for k in (3, 2, 1) if len(w) >= k and len(f) > k and f[:k] == w[-k:]), 0)
                w += f[k:]
            if rng.random() < .3 and ends:
                w += rng.choice(ends).strip(".")
        elif x < .7:
            w = "".join(rng.choice(letters) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20])))
        elif x < .74:
            w = "".join(rng.choice(letters) for _ in range(rng.choice([25, 29, 30, 31, 32, 33, 40, 63, 64, 65, 80, 127, 130, 200, 260, 520])))
        elif x < .84 and excs:
            w = rng.choice(excs).replace("-", "")
            y = rng.random()
            if y < .4:
                w = rng.choice([w + rng.choice(letters), rng.choice(letters) + w, w + "s", w[:-1], w[1:], w + w])
        elif x < .92:
            w = rng.choice(mids) + rng.choice(["'", "\u2019", ".", "1", "9", "\u4e2d", "\u0301", "\U0001f600", "\u0130", "\u00df", "_", "\u03a3"]) + rng.choice(mids)
        else:
            w = rng.choice(mids) + rng.choice(["-", "\u00ad", "\u2010", "\u058a", "\u30fb", "\u2013", "\u2212"]) + rng.choice(mids)
        yield mixcase(rng, w or "a")


def bundled(judged):
    def run(ctx, name):
        langs = languages()
        if ctx.replaying is not None:
            return replay(ctx, name, judged, langs)
        rng = ctx.rng(name)
        env = write_dicts(ctx, langs)
        cases = []
        for i, (pats, excs) in enumerate(langs):
            cfgs = [{}] * 3 + [cfg_of(rng) for _ in range(ctx.scale(5, 30))]
            for w in words_of(rng, pats, excs, ctx.scale(1200, 20000)):
                cfg = rng.choice(cfgs)
                cases.append((i + 1, dict(cfg, lang=rng.choice(LANGS[i][2]), tag=rng.random() < .5), settings(cfg), cp(w), rng.random() < .2))
        recs = judge(ctx, name, cases, judged, env)
        ctx.sample(*recs[:3])
        return {"words": len(cases), "languages": len(langs)}
    return run
