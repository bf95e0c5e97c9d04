"""C09, C10: stripping of ANSI sequences."""
import vf

E = 27


def record(s, r):
    return {"in": s["in"], "pieces": r["pieces"]}


def judge(ctx, name, st, inv, chunk=30000):
    recs = [record(s, r) for s, r in zip(st, ctx.drive(name, st, procs=4))]
    ctx.validate(name, "AnsiTrace", recs, st, invariants=[inv], chunk=chunk)
    return recs


def model(inv):
    def run(ctx, name):
        st = ctx.replaying
        extra = {}
        if st is None:
            ins = []
            runs = [("{27, 91, 48, 49, 59, 109, 115, 75, 97}", ctx.scale(4, 5), "FALSE"), ("{27, 91, 48, 51, 58, 109, 108, 1635}", ctx.scale(4, 5), "TRUE")]
            atoms = "{2000001, 2000002, 2000003, 2000004, 2000005, 97, 27, %s}"
            runs.append((atoms % "2000006", 3, "FALSE"))
            runs.append((atoms % "2000007, 2000008, 2000009", 4 if ctx.thorough else 3, "FALSE"))
            if ctx.thorough:
                runs += [("{27, 91, 109, 49, 48, 97}", 7, "FALSE"), ("{48, 49, 59, 109, 27}", 7, "TRUE")]
            for alpha, n, csi in runs:
                res = ctx.emit("AnsiMC", {"Alphabet": alpha, "MaxLen": n, "CSI": csi}, ["SoFar", "DesignLossless", "DesignClassified"],
                               "ACTION_CONSTRAINT Emit" + ("\nPROPERTIES Terminates" if n < 4 else ""))
                ins += res
            extra = {"alphabets": [list(r) for r in runs], "exhaustive": True}
            st = [{"op": "ansi", "in": i} for i in ins]
        judge(ctx, name, st, inv)
        return dict(extra, inputs_replayed=len(st))
    return run


def seq(rng):
    x = rng.random()
    num = lambda: rng.choice(["", "", "0", "00", "000", "1", "3", "31", "38", "255", "007", "0000", "1234", "12345", "\u0663", "3\u0661", "\uff11"]) if rng.random() < .5 else str(rng.randrange(300))
    n = rng.choice([1, 1, 1, 1, 1, 2, 3, 5, 8]) if rng.random() < .99 else rng.choice([12, 17, 33, 70, 140])
    if n > 8 and rng.random() < .8:
        num = lambda: rng.choice(["", "0", "3", "38", "255", "007"])
    params = num()
    for _ in range(n - 1):
        params += rng.choice(";;:") + num()
    key = rng.choice(["m", "m", "m", "s", "u", "h", "l", "K", "~", "A", "J", "?", " ", "\u00e9", "]", "[", "\x00"])
    s = "\x1b[" + params + key
    if x < .15:
        s = s[:rng.randrange(1, len(s))]
    elif x < .2:
        i = rng.randrange(len(s))
        s = s[:i] + rng.choice(["\x1b", "[", ";", "m", "9", "x"]) + s[i:]
    return s


def gen(rng, n):
    out = []
    for k in range(n):
        s = ""
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 12]) if k % 80 else rng.choice([20, 40, 70, 160, 300])):
            x = rng.random()
            if x < .55:
                s += seq(rng)
            elif x < .9:
                s += "".join(rng.choice("abcdefghij mK0;[su \u00e9\u4e2d\U0001f600") for _ in range(rng.choice([1, 1, 2, 3, 10]) if rng.random() < .995 else rng.choice([70, 260, 600])))
            else:
                s += rng.choice(["\x1b", "\x1b\x1b", "\x1b]", "[", "\x1b[", "\x9b31m"])
        if k % 400 == 7:
            s = "".join(rng.choice(["x", "", ""]) + rng.choice(["\x1b[31m", "\x1b[0m", "\x1b[4h", "\x1b[K"]) for _ in range(rng.choice([100, 300])))
        r = [ord(c) for c in s]
        if rng.random() < .05:
            r.insert(rng.randrange(len(r) + 1), rng.choice([0xD800, 0x110000, -1, 0xFFFD]))
        out.append({"op": "ansi", "in": r})
    return out


def trace(inv):
    def run(ctx, name):
        st = ctx.replaying or gen(ctx.rng(name), ctx.scale(4000, 60000))
        recs = judge(ctx, name, st, inv)
        ctx.sample(*recs[:2])
        return {"inputs": len(st)}
    return run


def parts(inv):
    return [("model", model(inv)), ("trace", trace(inv))]
