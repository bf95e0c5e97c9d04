"""C19, C20: widths."""
import itertools, json, vf

def cfgs():
    out = [{}]
    for ea, skip, amb in itertools.product([None, False, True], [None, False, True], [None, 0, 1, 2, 3, 7, 9, 16, 100]):
        c = {}
        if ea is not None: c["ea"] = ea
        if skip is not None: c["skip"] = skip
        if amb is not None: c["amb"] = amb
        if c not in out: out.append(c)
    return out

REPS = [0, 9, 0x41, 0x7F, 0xA1, 0xA4, 0xAD, 0xB7, 0xE9, 0x2E9, 0x300, 0x301, 0x391, 0x483, 0x1100, 0x200B, 0x2010, 0x2026, 0x20A9, 0x231A, 0x2328, 0x2600,
        0x2614, 0x2764, 0x27E6, 0x2E3A, 0x2E3B, 0x3000, 0x3099, 0x4E2D, 0xAC00, 0xD7FF, 0xE000, 0xF8FF, 0xFE20, 0xFF01, 0xFF65, 0xFFFD, 0xFFFE, 0x1F004, 0x1F300,
        0x1F321, 0x1F3FB, 0x1F600, 0x20000, 0x3FFFD, 0xE0100, 0xF0000, 0x10FFFD, 0x10FFFF, 0xD800, 0x110000, -1, 0x7FFFFFFF, -0x7FFFFFFF]


def rnd_rune(rng):
    x = rng.random()
    if x < .4: return rng.choice(REPS)
    if x < .6: return rng.randrange(0x20, 0x500)
    if x < .8: return rng.randrange(0x2000, 0x3300)
    if x < .9: return rng.randrange(0x1F000, 0x1FB00)
    return rng.randrange(-5, 0x110005)


def model(ctx, name):
    if ctx.replaying is not None:
        recs = ctx.drive(name, ctx.replaying)
        vf.expect_equal(ctx, name, ctx.replaying, [s["expect"] for s in ctx.replaying], [r["res"] for r in recs])
        return
    consts = {"Runes": "{%s}" % ", ".join(str(r) for r in REPS if r >= 0), "Calls": 2}
    edges = ctx.emit("WidthMC", consts, ["DefaultAmongFour"], "PROPERTIES HistoryFree\nACTION_CONSTRAINT Emit", view="View")
    seen = {json.dumps([e["s"], e["a"]], sort_keys=True): e for e in edges}
    groups = {}
    for e in seen.values():
        groups.setdefault((e["s"], json.dumps(e["a"]["cfg"])), []).append(e)
    wks = []
    cs = sorted({k[1] for k in groups})
    for c1 in cs:  # the first call of the process has each of the configurations
        first = groups[(False, c1)]
        w = list(first)
        for c2 in cs:
            w += groups.get((True, c2), groups.get((False, c2)))
        wks.append(w + first)
    stimuli = [{"op": "width", "ops": [e["a"] for e in w]} for w in wks]
    recs = ctx.drive(name, stimuli, procs=len(stimuli))
    for w, s, r in zip(wks, stimuli, recs):
        for i, e in enumerate(w):
            if r["res"][i] != e["r"]:
                raise vf.Violation(name, [dict(s, ops=s["ops"][:i + 1], expect=[x["r"] for x in w[:i + 1]])], "call %d: %s: the model gives %s, the code %s" % (i + 1, e["a"], e["r"], r["res"][i]))
    ctx.traces += len(wks)
    return {"transitions_replayed": len(seen), "processes": len(wks)}


MATES = [0xFE0F, 0xFE0E, 0x200D, 0x301, 0x20E3, 0x1F3FB, 0x1F1E6, 0x1F468, 0x2764, 0x1161, 0x11A8, 0xAC00, 0x4E2D, 0x3099, 0x94D, 0xE0061, 0xD, 0xA, 9, 8, 27, 0x61, 0x2E3B, 0xA1]


def neighbours(ctx, name, cs):
    """texts made of any rune, and of a given rune before or after it"""
    rng = ctx.rng(name + "/mates")
    some = lambda: rng.choice([{"ea": True}, {"ea": True, "skip": True}, {}] + cs)
    out = [{"op": "rle", "from": -3, "to": 0x110003, "what": "twice", "cfg": c} for c in ({}, {"ea": True})]
    for m in MATES[:6]:
        out += [{"op": "rle", "from": -3, "to": 0x110003, "what": "around", "cfg": c, key: [m]} for key in ("pre", "post") for c in ({}, {"ea": True}, {"ea": True, "skip": True})]
    for m in MATES:
        for what in ("around", "strings"):
            for key in ("pre", "post"):
                if what == "around" or ctx.thorough or rng.random() < .3:
                    out.append({"op": "rle", "from": -3, "to": 0x110003, "what": what, "cfg": some(), key: [m]})
    return out


CLUSTERS = ["\u2764\ufe0f", "\u0031\ufe0f\u20e3", "\U0001f468\u200d\U0001f469\u200d\U0001f467", "\U0001f44d\U0001f3fd", "\U0001f1eb\U0001f1f7", "\u1112\u1161\u11ab", "e\u0301\u0301",
            "\u0915\u094d\u0937", "\r\n", "\u30ab\u3099", "\U0001f3f4\U000e0067\U000e007f", "\u2600\ufe0e", "\u0e01\u0e33", "\ufeffa", "\x1b[31mx\x1b[0m"]


def allrunes(what):
    def run(ctx, name):
        cs = cfgs()
        rng = ctx.rng(name + "/wide")
        if not ctx.thorough:
            base = [{}, {"ea": True}, {"ea": False, "amb": 1}, {"ea": True, "skip": True}, {"ea": True, "amb": 1}, {"ea": True, "skip": True, "amb": 3}, {"skip": True}, {"ea": True, "amb": rng.choice([4, 5, 9, 17])}, {"ea": True, "amb": rng.choice([64, 100, 256, 1000])}]
            cs = base + ctx.rng(name).sample(cs, 2)
        st = ctx.replaying or [{"op": "rle", "from": -3, "to": 0x110003, "what": what, "cfg": c} for c in cs] + (
            [{"op": "rle", "from": -3, "to": 0x110003, "what": "ambiguous", "cfg": {}}] if what == "width" else neighbours(ctx, name, cs))
        recs = ctx.drive(name, st, procs=8)
        flat, src = [], []
        for s, r in zip(st, recs):
            for a, b, w in r["runs"]:
                flat.append({"kind": "run", "what": s["what"], "cfg": s["cfg"], "from": a, "to": b, "w": w, "pre": s.get("pre", []), "post": s.get("post", [])})
                src.append(s)
        ctx.validate(name, "WidthTrace", flat, src, chunk=100000)
        ctx.sample(flat[40])
        return {"configurations": len(st), "runes_per_configuration": 0x110007, "runs": len(flat), "exhaustive": True}
    return run


def histories(ctx, name):
    rng = ctx.rng(name)
    cs = cfgs()
    st = ctx.replaying or [{"op": "width", "ops": [{"r": rnd_rune(rng), "cfg": rng.choice(cs)} for _ in range(rng.randrange(1, 60))]} for _ in range(ctx.scale(48, 600))]
    recs = ctx.drive(name, st, procs=16)
    recs = [{"kind": "session", "ops": s["ops"], "res": r["res"]} for s, r in zip(st, recs)]
    ctx.validate(name, "WidthTrace", recs, st)
    return {"sessions": len(st), "calls": sum(len(s["ops"]) for s in st)}


def texts(ctx, name):
    rng = ctx.rng(name)
    cs = cfgs()
    st = ctx.replaying
    if st is None:
        st = []
        for _ in range(ctx.scale(1500, 20000)):
            ln = rng.choice([0, 1, 2, 3, 10, 50]) if rng.random() < .98 else rng.choice([130, 260, 600, 1100, 4100, 9000])
            s = {"op": "widths", "cfg": rng.choice(cs) if rng.random() < .8 else {}}
            if rng.random() < .4:
                b = b"".join(chr(r).encode("utf-8", "surrogatepass") if 0 <= r < 0x110000 else b"\xff" for r in (rnd_rune(rng) for _ in range(ln)))
                b = bytearray(b)
                while b and rng.random() < .3:
                    b[rng.randrange(len(b))] = rng.randrange(256)
                s["bytes"] = list(b)
            else:
                s["in"] = [rnd_rune(rng) for _ in range(ln)]
                while s["in"] and rng.random() < .3:
                    s["in"] += [ord(c) for c in rng.choice(CLUSTERS)] if rng.random() < .7 else s["in"][-1:]
                    if rng.random() < .3:
                        rng.shuffle(s["in"])
            st.append(s)
    recs = ctx.drive(name, st)
    recs = [{"kind": "text", "in": r["in"], "cfg": s["cfg"], "obs": {"w": r["w"]}} for s, r in zip(st, recs)]
    ctx.validate(name, "WidthTrace", recs, st)
    ctx.sample(recs[3] if len(recs) > 3 else recs[0])
    return {"texts": len(st)}
