"""Selection of paragraphs for C01-C04: those for which a change of the rules changes the result.

A sketch of the rules of spec/LineBreak.tla, with variants. It only selects inputs: a paragraph is kept when a variant, taken
instead of the rules, would choose lines that the rules do not allow, or that cost more. The specification judges the lines."""
import random
import struct
INF = float("inf")


class Rules:
    """the rules; variants redefine some of them"""
    line, soft, hard, mark = 10, None, 200, 400

    def __init__(self, **kw):
        self.__dict__.update(kw)

    tol = staticmethod(lambda d, c: 10 * d <= 6 * c["tol10"])
    hyphen = staticmethod(lambda c: c["hy"])
    wide = staticmethod(lambda c: c["W"])
    fits = staticmethod(lambda w, W: w <= W)
    cls = staticmethod(lambda d: 1 if d <= 3 else 2 if d <= 6 else 3)
    fit = staticmethod(lambda a, b, first: 200 if abs(a - b) > 1 else 0)
    flagged = staticmethod(lambda a, b, c: c["flag"] if a in FLAGS and b in FLAGS else 0)
    cost = staticmethod(lambda x, pen, line: (line + x + pen) ** 2)
    bad = staticmethod(lambda r: 100 * r ** 3)
    last = staticmethod(lambda d: 0)
    keep = staticmethod(lambda rows: rows)
    active = staticmethod(lambda rows, j: rows)
    add = staticmethod(lambda a, b: a + b)
    first = 1
    last_class = staticmethod(lambda k: k)
    last_cost = staticmethod(lambda x: x)
    closes = staticmethod(lambda d, joint: False)
    lines = INF
    penalty = staticmethod(lambda c, joint: {"soft": c["hpen"], "hard": 200, "mark": 400}.get(joint, 0))


FLAGS = ("soft", "hard", "mark", "end")
TRUE = Rules()


def worst_only(rows):
    return {min(rows, key=lambda k: rows[k][0]): min(rows.values(), key=lambda x: x[0])} if rows else rows


VARIANTS = {
    "tolerance strict": dict(tol=lambda d, c: 10 * d < 6 * c["tol10"]),
    "tolerance rounded": dict(tol=lambda d, c: 10 * d <= 6 * c["tol10"] + 10),
    "tolerance at most 10": dict(tol=lambda d, c: 10 * d <= 6 * min(c["tol10"], 100)),
    "no tolerance": dict(tol=lambda d, c: True),
    "hyphen of width 0": dict(hyphen=lambda c: 0),
    "hyphen not scaled": dict(hyphen=lambda c: c["hy0"]),
    "hyphen like a space": dict(hyphen=lambda c: c["sp"] if c["hy"] else 0),
    "hyphen counted when not shown": dict(hyphen=lambda c: c["hyw"]),
    "hyphen twice": dict(hyphen=lambda c: 2 * c["hy"]),
    "strictly shorter": dict(fits=lambda w, W: w < W),
    "one too long": dict(fits=lambda w, W: w <= W + 1),
    "width one more": dict(wide=lambda c: c["W"] + 1),
    "class bound .5": dict(cls=lambda d: 1 if d < 3 else 2 if d <= 6 else 3),
    "class bound 1": dict(cls=lambda d: 1 if d <= 3 else 2 if d < 6 else 3),
    "two classes": dict(cls=lambda d: 1 if d <= 3 else 3),
    "no fitness": dict(fit=lambda a, b, first: 0),
    "fitness of neighbours": dict(fit=lambda a, b, first: 200 if a != b else 0),
    "fitness when looser": dict(fit=lambda a, b, first: 200 if b - a > 1 else 0),
    "fitness when tighter": dict(fit=lambda a, b, first: 200 if a - b > 1 else 0),
    "fitness not at the start": dict(fit=lambda a, b, first: 200 if abs(a - b) > 1 and not first else 0),
    "fitness 100": dict(fit=lambda a, b, first: 100 if abs(a - b) > 1 else 0),
    "fitness 3000": dict(fit=lambda a, b, first: 3000 if abs(a - b) > 1 else 0),
    "no flagged": dict(flagged=lambda a, b, c: 0),
    "flagged not at the end": dict(flagged=lambda a, b, c: c["flag"] if a in FLAGS and b in FLAGS[:3] else 0),
    "flagged soft only": dict(flagged=lambda a, b, c: c["flag"] if a == b == "soft" else 0),
    "flagged same": dict(flagged=lambda a, b, c: c["flag"] if a in FLAGS and a == b else 0),
    "flagged without marks": dict(flagged=lambda a, b, c: c["flag"] if a in ("soft", "hard") and b in ("soft", "hard", "end") else 0),
    "flagged either": dict(flagged=lambda a, b, c: c["flag"] if a in FLAGS or b in FLAGS else 0),
    "flagged 3000": dict(flagged=lambda a, b, c: 3000 if a in FLAGS and b in FLAGS else 0),
    "tex": dict(cost=lambda x, pen, line: (line + x) ** 2 + pen ** 2),
    "no square": dict(cost=lambda x, pen, line: line + x + pen),
    "line 0": dict(line=0),
    "line 100": dict(line=100),
    "squared ratio": dict(bad=lambda r: 100 * r ** 2),
    "ratio at most 1": dict(bad=lambda r: 100 * min(r, 1) ** 3),
    "badness at most 10000": dict(bad=lambda r: min(100 * r ** 3, 10000)),
    "badness truncated": dict(bad=lambda r: int(100 * r ** 3)),
    "last line like others": dict(last=lambda d: d),
    "last line penalty": dict(last=lambda d: d / 10),
    "no penalties": dict(penalty=lambda c, joint: 0),
    "marks like hyphens": dict(penalty=lambda c, joint: 200 if joint in ("hard", "mark") else c["hpen"] if joint == "soft" else 0),
    "soft 300": dict(penalty=lambda c, joint: {"soft": 300, "hard": 200, "mark": 400}.get(joint, 0)),
    "soft like hard": dict(penalty=lambda c, joint: {"soft": 200, "hard": 200, "mark": 400}.get(joint, 0)),
    "hard like soft": dict(penalty=lambda c, joint: {"soft": c["hpen"], "hard": c["hpen"], "mark": 400}.get(joint, 0)),
    "no breaks after marks": dict(penalty=lambda c, joint: {"soft": c["hpen"], "hard": 200, "mark": INF}.get(joint, 0)),
    "no breaks after hyphens": dict(penalty=lambda c, joint: {"soft": c["hpen"], "hard": INF, "mark": 400}.get(joint, 0)),
    "no hyphenation": dict(penalty=lambda c, joint: {"soft": INF, "hard": 200, "mark": 400}.get(joint, 0)),
    "large penalties forbid": dict(penalty=lambda c, joint: {"soft": c["hpen"] if c["hpen"] < 2000 else INF, "hard": 200, "mark": 400}.get(joint, 0)),
    "perfect line": dict(closes=lambda d, joint: d == 0),
    "perfect line at a flagged break": dict(closes=lambda d, joint: d == 0 and joint in FLAGS),
    "perfect line at a space": dict(closes=lambda d, joint: d == 0 and joint == "space"),
    "best class only": dict(keep=worst_only),
    "single precision": dict(add=lambda a, b: struct.unpack("f", struct.pack("f", a + b))[0]),
    "single precision badness": dict(bad=lambda r: struct.unpack("f", struct.pack("f", 100 * struct.unpack("f", struct.pack("f", r))[0] ** 3))[0]),
    "totals rounded": dict(add=lambda a, b: round(a + b)),
    "totals of at most 1e6": dict(add=lambda a, b: min(a + b, 1e6)),
    "ratio in hundredths": dict(bad=lambda r: 100 * (round(r * 100) / 100) ** 3),
    "last line free": dict(last_cost=lambda x: 0),
    "last line without flags": dict(last_cost=lambda x: 100),
    "last line in the second class": dict(last_class=lambda k: 2),
    "last line in the third class": dict(last_class=lambda k: 3),
    "hard and mark exchanged": dict(penalty=lambda c, joint: {"soft": c["hpen"], "hard": 400, "mark": 200}.get(joint, 0)),
    "penalties halved": dict(penalty=lambda c, joint: {"soft": c["hpen"] / 2, "hard": 100, "mark": 200}.get(joint, 0)),
    "penalties outside": dict(cost=lambda x, pen, line: (line + x) ** 2 + pen),
    "line outside": dict(cost=lambda x, pen, line: line ** 2 + (x + pen) ** 2),
    "badness 99": dict(bad=lambda r: 99 * r ** 3),
    "badness 110": dict(bad=lambda r: 110 * r ** 3),
    "stretch 5": dict(bad=lambda r: 100 * (r * 6 / 5) ** 3),
    "line 11": dict(line=11),
    "mark 390": dict(penalty=lambda c, joint: {"soft": c["hpen"], "hard": 200, "mark": 390}.get(joint, 0)),
    "hard 210": dict(penalty=lambda c, joint: {"soft": c["hpen"], "hard": 210, "mark": 400}.get(joint, 0)),
    "flagged 99 percent": dict(flagged=lambda a, b, c: c["flag"] * .99 if a in FLAGS and b in FLAGS else 0),
    "fitness 190": dict(fit=lambda a, b, first: 190 if abs(a - b) > 1 else 0),
    "fitness 201": dict(fit=lambda a, b, first: 201 if abs(a - b) > 1 else 0),
    "flagged 101 percent": dict(flagged=lambda a, b, c: c["flag"] * 1.01 if a in FLAGS and b in FLAGS else 0),
    "hard 201": dict(penalty=lambda c, joint: {"soft": c["hpen"], "hard": 201, "mark": 400}.get(joint, 0)),
    "mark 401": dict(penalty=lambda c, joint: {"soft": c["hpen"], "hard": 200, "mark": 401}.get(joint, 0)),
    "starts in the second class": dict(first=2),
    "starts in any class": dict(fit=lambda a, b, first: 0 if first else 200 if abs(a - b) > 1 else 0),
    "flagged like the hyphen": dict(flagged=lambda a, b, c: c["hpen"] if a in FLAGS and b in FLAGS else 0),
    "flagged 100": dict(flagged=lambda a, b, c: 100 if a in FLAGS and b in FLAGS else 0),
    "flagged not after marks": dict(flagged=lambda a, b, c: c["flag"] if a in ("soft", "hard") and b in FLAGS else 0),
    "4 active breaks, the latest": dict(active=lambda rows, j: {i: rows[i] for i in sorted(rows)[-4:]}),
    "4 active breaks, the best": dict(active=lambda rows, j: {i: rows[i] for i in sorted(rows, key=lambda i: min(v[0] for v in rows[i].values()))[:4]}),
    "10 pieces back": dict(active=lambda rows, j: {i: rows[i] for i in rows if j - i <= 10}),
    "at most 3 lines": dict(lines=3),
    "at most 9 lines": dict(lines=9),
}
VARIANTS = {k: Rules(**v) for k, v in VARIANTS.items()}


def pieces(tokens, c):
    """[(text, joint)] for tokens of letters, '.' and '-'"""
    out = []
    for n, t in enumerate(tokens):
        chunks, cur = [], ""
        for r in t:
            if r == ".":
                chunks += [cur, "."] if cur else ["."]
                cur = ""
            else:
                cur += r
        chunks += [cur] if cur else []
        for s in chunks:
            if s == ".":
                out.append([s, "mark"])
            elif not c["wb"] or len(s) <= 4:
                out.append([s, "none"])
            else:
                word = ""
                for r in s + "-":
                    if r != "-":
                        word += r
                        continue
                    for k in range(0, len(word), c["every"]):
                        out.append([word[k:k + c["every"]], "soft" if k + c["every"] < len(word) else "none"])
                    word = ""
                    out.append(["-", "hard"])
                out.pop()
        out[-1][1] = "space" if n < len(tokens) - 1 else "end"
    return out


def layout(ps, m, sp):
    left, right, x = [], [], 0
    for i, (t, joint) in enumerate(ps):
        if i and ps[i - 1][1] == "space":
            x += sp
        left.append(x)
        x += sum(m.get(r, m[""]) for r in t)
        right.append(x)
    return left, right


def natural(left, right, ps, hy, i, j):
    return right[j - 1] - left[i] + (hy if ps[j - 1][1] == "soft" else 0)


def joint_before(ps, i):
    return ps[i - 1][1] if i else "start"


def line_cost(r, c, ps, d, i, j):
    a, b = joint_before(ps, i), ps[j - 1][1]
    d = r.last(d) if b == "end" else d
    x, k = r.cost(r.bad(d / 6), r.penalty(c, b), r.line) + (r.flagged(a, b, c) if i else 0), r.cls(d)
    return (r.last_cost(x), r.last_class(k)) if b == "end" else (x, k)


def solve(r, c, ps, left, right):
    """(cost, breaks) according to the rules r; None when there is no way"""
    hy, W = r.hyphen(c), r.wide(c)
    rows, closed = {0: {r.first: (0, ())}}, set()
    for j in range(1, len(ps) + 1):
        if ps[j - 1][1] == "none" or r.penalty(c, ps[j - 1][1]) == INF:
            continue
        row = {}
        for i, before in rows.items():
            w = natural(left, right, ps, hy, i, j)
            if i in closed or not r.fits(w, W) or not (ps[j - 1][1] == "end" or r.tol(W - w, c)):
                continue
            if r.closes(W - w, ps[j - 1][1]):
                closed.add(i)
            x, k = line_cost(r, c, ps, W - w, i, j)
            for kk, (y, br) in before.items():
                if len(br) >= r.lines:
                    continue
                z = r.add(x + r.fit(kk, k, i == 0), y)
                if k not in row or z < row[k][0]:
                    row[k] = (z, br + (j,))
        if row:
            rows[j] = r.keep(row)
            rows = r.active(rows, j)
    return min(rows[len(ps)].values(), key=lambda x: x[0]) if len(ps) in rows else None


def price(c, ps, left, right, breaks):
    """cost of some lines according to the rules; None if they are not allowed"""
    s, i, k = 0, 0, 1
    for j in breaks:
        w = natural(left, right, ps, c["hy"], i, j)
        if w > c["W"] or not (ps[j - 1][1] == "end" or TRUE.tol(c["W"] - w, c)):
            return None
        x, kk = line_cost(TRUE, c, ps, c["W"] - w, i, j)
        s += x + TRUE.fit(k, kk, i == 0)
        i, k = j, kk
    return s


def candidate(rng):
    marks = [""] * 8 + [".", "-"] if rng.random() < .6 else [""]
    word = lambda: "".join(rng.choice("abcde") + rng.choice(marks) for _ in range(rng.choice([1, 2, 3, 3, 4, 5, 6, 7, 8, 10])))
    tokens = [word() for _ in range(rng.choice([2, 2, 3, 3, 4, 5, 6] if len(marks) > 1 else [3, 5, 7, 9]))]
    scale = rng.choice([1, 1, 1, 1, 1, 1, 2, 3, 10])
    hm, sm, dm = rng.choice([1, 1, 1, 1, 1, 2, 3, 0]), rng.choice([1, 1, 1, 1, 2]), rng.choice([1, 1, 1, 0, 2])
    hpen = rng.choice([300, 300, 0, 1, 5, 20, 60, 100, 190, 2500, 9999])
    render = rng.random() < .85
    c = {"tol10": rng.choice([5, 10, 20, 86, 86, 86, 110, 150, 1000]), "wb": rng.random() < .95, "hpen": hpen, "flag": 100 if hpen == 300 else hpen,
         "every": rng.choice([1, 2, 2, 3, 4]), "sp": sm * scale, "hyw": hm * scale, "hy": hm * scale if render else 0, "hy0": hm if render else 0,
         "render": render, "scale": scale, "table": {"-": hm, " ": sm, ".": dm}}
    ps = pieces(tokens, c)
    m = {"-": hm * scale, " ": sm * scale, ".": dm * scale, "": scale}
    left, right = layout(ps, m, sm * scale)
    width = rng.randrange(1, 16) if rng.random() < .8 else max(1, right[-1] // scale - rng.randrange(4))
    c["W"] = width * scale
    if rng.random() < .3:   # some lines have to be loose: large totals
        width = rng.randrange(8, 25)
        tokens = [rng.choice("abcde") * rng.choice([1, 2, 3, 3, 4, width // 2, width - 1, width, width]) for _ in range(rng.choice([4, 6, 8, 10, 12]))]
        c.update(tol10=rng.choice([86, 150, 1000]), wb=False, W=width * scale)
        ps = pieces(tokens, c)
        left, right = layout(ps, m, sm * scale)
    return tokens, width, c, ps, left, right


def killed(c, ps, left, right, names):
    """variants that this paragraph tells from the rules"""
    best = solve(TRUE, c, ps, left, right)
    res = []
    for name in names:
        r = VARIANTS[name]
        x = solve(r, c, ps, left, right)
        if best is None or x is None:
            if (best is None) != (x is None):
                res.append(name)
            continue
        y = price(c, ps, left, right, x[1])
        if y is None or y > best[0] * (1 + 3e-12) + 2e-3:
            res.append(name)
    return res


def with_penalty(c, h):
    return dict(c, hpen=h, flag=100 if h == 300 else h)


def tied(c, ps, left, right):
    """penalties next to the one from which other breaks are chosen: the totals of two choices are close"""
    breaks = lambda h: (solve(TRUE, with_penalty(c, h), ps, left, right) or (0, None))[1]
    lo, hi = 0, 6000
    x = breaks(lo)
    if x is None or x == breaks(hi):
        return []
    while hi - lo > 1:
        h = (lo + hi) // 2
        lo, hi = (h, hi) if breaks(h) == x else (lo, h)
    return [with_penalty(c, h) for h in (lo, hi)]


def search(args):
    """n paragraphs are tried: [(stimulus, variants)]"""
    seed, n, quota = args
    rng = random.Random(seed)
    count, out, wanted = dict.fromkeys(VARIANTS, 0), [], list(VARIANTS)
    for _ in range(n):
        tokens, width, c, ps, left, right = candidate(rng)
        if len(ps) > 30:
            continue
        tries = [c]
        if rng.random() < .5 and any(j == "soft" for _, j in ps):
            tries += tied(c, ps, left, right)
        for c in tries:
            names = killed(c, ps, left, right, wanted)
            if not names:
                continue
            for x in names:
                count[x] += 1
                if count[x] == quota:
                    wanted.remove(x)
            cfg = {"tol": c["tol10"] / 10, "wb": c["wb"], "hyph": "every", "every": c["every"], "render": c["render"], "meas": "table", "table": c["table"], "unit": 1}
            if c["scale"] != 1:
                cfg["scale"] = c["scale"]
            if c["hpen"] != 300:
                cfg["hpen"] = c["hpen"]
            out.append(({"op": "lb", "cfgs": [cfg], "calls": [{"b": 0, "fresh": False, "tokens": [[ord(r) for r in t] for t in tokens], "w": width}]}, names))
    return out
