"""C30: the width tables generated from the files of Unicode hold what these files say."""
import json, os, re, subprocess, unicodedata
from concurrent.futures import ThreadPoolExecutor
import vf
from common_hyph import cp
from p_c19 import c as widths

RUNES = vf.REPO + "/terminal/runes/"
KINDS = ["combining", "doublewidth", "ambiguous", "narrow", "neutral", "emoji"]
OLD = "package runes\n\n// the tables of a previous run\n"


def build(ctx):
    exe = os.path.join(ctx.tmp, "tables")
    if not os.path.exists(exe):
        files = ["build_tables.go"]
        for f in sorted(os.listdir(RUNES)):   # what go generate runs
            if f.endswith(".go"):
                m = re.search(r"^//go:generate go run ((?:\S+\.go ?)+)$", open(RUNES + f, encoding="utf-8").read(), re.M)
                if m:
                    files = m.group(1).split()
        ov = os.path.join(ctx.tmp, "tables.json")
        json.dump({"Replace": {RUNES + "zz_verif_inject.go": vf.HERE + "/driver/ucd/inject.go"}}, open(ov, "w"))
        p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; cd %s && go build -overlay %s -o %s %s zz_verif_inject.go" % (RUNES, ov, exe, " ".join(files))],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if p.returncode != 0:
            raise vf.CheckError("the generator does not build: " + p.stdout.decode(errors="replace")[-2000:])
    return exe


def generate(ctx, cases):
    """Runs the generator on each case, in a directory of its own. case: {east, emoji: texts; fault}"""
    exe = build(ctx)
    ctx.n += 1
    top = os.path.join(ctx.tmp, "ucd%d" % ctx.n)

    def one(i):
        c = cases[i]
        d = "%s/%d" % (top, i)
        os.makedirs(d + "/ucd")
        for n, t in (("EastAsianWidth.txt", c["east"]), ("emoji-data.txt", c["emoji"])):
            with open(d + "/ucd/" + n, "w", encoding="utf-8") as f:
                f.write(t)
        out = d + "/runes_tables.go"
        if c.get("fault") == "write":
            os.symlink("/dev/full", out)
        else:
            with open(out, "w") as f:
                f.write(OLD + "// and more\n" * 3000)
        try:
            p = subprocess.run([exe], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=dict(os.environ, VERIF_FAULT=c.get("fault") or ""))
            rc, err = p.returncode, p.stdout.decode(errors="replace")[-500:]
        except subprocess.TimeoutExpired:
            rc, err = -1, "does not terminate (60 s)"
        return rc, err, out

    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, range(len(cases))))


def lines_of(text):
    return [cp(l) for l in text.split("\n")[:-1]]


def run(ctx, name, cases):
    ran = generate(ctx, cases)
    read = ctx.drive(name, [{"op": "tables", "files": [out for _, _, out in ran if not os.path.islink(out)]}])[0]["res"]
    read = iter(read)
    recs = []
    none = {k: [] for k in KINDS}
    for c, (rc, err, out) in zip(cases, ran):
        t = {"tables": none} if os.path.islink(out) else next(read)
        fault = c.get("fault") or "none"
        kept = not os.path.islink(out) and open(out, "rb").read().startswith(OLD.encode())
        if rc == 0 and ("err" in t or t.get("package", "runes") != "runes"):
            raise vf.Violation(name, [c], "the generated file is not good: %s" % t)
        if rc == 0 and fault == "write":
            raise vf.Violation(name, [c], "the tables could not be written, and the generator does not fail")
        recs.append({"east": lines_of(c["east"]), "emoji": lines_of(c["emoji"]), "failed": rc != 0, "fault": fault if fault in ("none", "write") else "fetch", "kept": kept, "err": err,
                     "tables": {k: t.get("tables", {}).get(k, []) for k in KINDS}})
    ctx.validate(name, "UcdTrace", recs, cases, chunk=20000)
    return recs, ran


def text(lines):
    return "".join("".join(map(chr, l)) + "\n" for l in lines)


def model(ctx, name):
    if ctx.replaying is not None:
        return run(ctx, name, ctx.replaying)
    inv = ["Exact", "Searchable", "Found", "Classified"]
    ms, consts = [], []
    for k in ({"MaxLines": 2, "MaxEmoji": 0, "Classes": '{"W", "F", "A", "H", "N", "Na"}'}, {"MaxLines": 3, "MaxEmoji": 0, "Classes": ctx.scale('{"W", "N"}', '{"W", "F", "A"}')},
              {"MaxLines": 0, "MaxEmoji": ctx.scale(3, 4), "Classes": '{"W"}'}, {"MaxLines": 1, "MaxEmoji": 1, "Classes": '{"W", "Na"}'}):
        ms += ctx.emit("UcdMC", k, inv, "CONSTRAINT Emit")
        consts.append(k)
    ms = [json.loads(x) for x in sorted({json.dumps(m) for m in ms})]
    most = ctx.scale(2500, 12000)
    some = ms if len(ms) <= most else ctx.rng(name).sample(ms, most)
    recs, _ = run(ctx, name, [{"east": text(m["east"]), "emoji": text(m["emoji"])} for m in some])
    ctx.sample(recs[-1])
    return {"pairs_of_files": len(some), "of": len(ms), "constants": consts, "exhaustive": len(some) == len(ms)}


PROPS = ["Emoji", "Emoji_Presentation", "Emoji_Modifier", "Emoji_Modifier_Base", "Emoji_Component"]
GC = ["Cc", "Zs", "Mn", "Lo", "So", "Po", "Sm"]


def interval(lo, hi):
    return "%04X" % lo if lo == hi else "%04X..%04X" % (lo, hi)


def random_case(rng):
    def intervals(n, points):
        at = rng.choice(points)
        for _ in range(n):
            lo = at + rng.choice([0, 0, 0, 1, 2, 15, 16, 300])
            hi = lo + rng.choice([0, 0, 0, 1, 2, 15, 255, 6000])
            if hi > 0x10FFFF:
                return
            yield lo, hi
            at = hi + 1
            if rng.random() < .05:
                at = max(at, rng.choice(points))

    def noise(out):
        while rng.random() < .15:
            out.append(rng.choice(["", "# COMBINING", "# 0020;W x", "# @missing: 0000..10FFFF; W", "#", "# Extended_Pictographic=No", "# ================================================", "#%s" % ("x" * rng.choice([80, 5000]))]))
    n = rng.choice([0, 1, 2, 5, 20, 60] if rng.random() < .95 else [400, 900])
    east, emoji = [], []
    classes = rng.choice([["W", "F", "A", "H", "N", "Na"], ["W", "N"], ["Na", "N", "A"], ["W", "F"], ["H", "F"], ["A"], ["Na"]])
    noise(east)
    for lo, hi in intervals(n, [0, 0x20, 0x2FE, 0xFFE0, 0x1F000, 0x10FF00]):
        comb = rng.random() < .3
        com = "# " + rng.choice(GC) + "  " + ("   [%d] " % (hi - lo + 1) if hi > lo else "       ") + (rng.choice(["COMBINING %s", "%s..COMBINING X", "COMBINING ACUTE..%s", "LATIN COMBINING %s"]) if comb else rng.choice(["%s", "SPACE %s", "COMBININ %s", "COMBINED %s", "W;%s", "combining %s", "0041;W %s"])) % rng.choice(["A", "GRAVE", "LETTER W", "<control-0000>", "\u00e9"])
        east.append(interval(lo, hi) + ";" + rng.choice(classes) + rng.choice([" ", "  ", "   "]) + com)
        noise(east)
    props = rng.choice([1, .5, .1])
    noise(emoji)
    for lo, hi in intervals(rng.choice([0, 1, 3, 20, 80]), [0x23, 0xA9, 0x203C, 0x1F000, 0x1FAF0, 0x10FF00]):
        if lo <= 0xFF <= hi + 1:   # the files have nothing there
            continue
        emoji.append(interval(lo, hi).ljust(rng.choice([5, 14, 20])) + " ; " + ("Extended_Pictographic" if rng.random() < props else rng.choice(PROPS).ljust(20)) + rng.choice(["#", " #", "   #"]) + " E0.6   [%d] (%s)    watch..hourglass done" % (hi - lo + 1, rng.choice(["\u231a..\u231b", "\u00a9\ufe0f", "x"])))
        noise(emoji)
    return {"east": "".join(l + "\n" for l in east), "emoji": "".join(l + "\n" for l in emoji)}


def trace(ctx, name):
    cases = ctx.replaying
    if cases is None:
        rng = ctx.rng(name)
        cases = [random_case(rng) for _ in range(ctx.scale(400, 4000))]
    recs, _ = run(ctx, name, cases)
    return {"pairs_of_files": len(cases), "lines": sum(len(r["east"]) + len(r["emoji"]) for r in recs)}


def errors(ctx, name):
    cases = ctx.replaying
    if cases is None:
        rng = ctx.rng(name)
        cases = []
        for f in ("EastAsianWidth.txt", "emoji-data.txt"):
            for what in ["refuse", "status=404", "status=500", "status=503", "status=301", "status=204", "status=403"] + ["cut"] * ctx.scale(20, 200):
                c = random_case(rng)
                while len(c["east"]) < 200 or len(c["emoji"]) < 200:
                    c = random_case(rng)
                if what == "cut":
                    size = len((c["east"] if f[0] == "E" else c["emoji"]).encode())
                    what = "cut=%d" % rng.choice([0, size, rng.randrange(size), rng.randrange(size)])
                cases.append(dict(c, fault=what + ":" + f))
        for i in range(3):
            cases.append(dict(random_case(rng), fault="write"))
        for i in range(ctx.scale(6, 40)):   # a line too long to be read: fail, or read it
            c = random_case(rng)
            k = rng.choice(["east", "emoji"])
            ls = c[k].split("\n")[:-1]
            ls.insert(rng.randrange(len(ls) + 1), "#" + "x" * rng.choice([65534, 65536, 200000]))
            cases.append(dict(c, **{k: "".join(l + "\n" for l in ls), "fault": "long"}))
    recs, _ = run(ctx, name, cases)
    return {"runs": len(cases), "failed": sum(r["failed"] for r in recs)}


def published():
    """the files of Unicode, as far as what is known here tells"""
    data = json.load(open(vf.HERE + "/data/width.json"))
    east, last = ["# EastAsianWidth-15.0.0.txt", "#", "# @missing: 0000..10FFFF; N", ""], None
    runs = []
    for r in range(0x110000):
        ch = chr(r)
        n = unicodedata.name(ch, "")
        k = (unicodedata.east_asian_width(ch), unicodedata.category(ch), "")
        if k[1] == "Cn" and k[0] == "N":
            last = None
            continue
        if k == last:
            runs[-1][1] = r
        else:
            runs.append([r, r, k, n])
            last = k
    for lo, hi, (w, gc, _), n in runs:
        east.append("%s;%s # %s  %s%s" % (interval(lo, hi), w.ljust(2) if w != "N" else "N ", gc, "   [%d] " % (hi - lo + 1) if hi > lo else "       ", n if lo == hi else n + ".." + unicodedata.name(chr(hi), "")))
    emoji = ["# emoji-data.txt", "# Version: 15.0", ""]
    emoji += ["%s ; Emoji                # E0.0   [1] (x)       number sign" % interval(a, b).ljust(13) for a, b in ((0x23, 0x23), (0x2A, 0x2A), (0x30, 0x39), (0xA9, 0xA9))]
    emoji += ["00A9          ; Extended_Pictographic# E0.6   [1] (x)       copyright", "00AE          ; Extended_Pictographic# E0.6   [1] (x)       registered"]
    emoji += ["%s ; Extended_Pictographic# E0.0   [%d] (x)       MAHJONG TILE" % (interval(a, b).ljust(13), b - a + 1) for a, b in data["emoji"]]
    return {"east": "".join(l + "\n" for l in east), "emoji": "".join(l + "\n" for l in emoji)}


def unicode15(ctx, name):
    """the published files: the tables generated from them, and the library built with these tables"""
    if unicodedata.unidata_version != "15.0.0":
        return {"skipped": "Python has Unicode " + unicodedata.unidata_version}
    c = published()
    recs, ran = run(ctx, name, [c])
    if recs[0]["failed"]:
        return
    ctx.over = {RUNES + "runes_tables.go": ran[0][2]}
    try:
        st = [{"op": "rle", "from": -3, "to": 0x110003, "what": "width", "cfg": k} for k in ({}, {"ea": True}, {"ea": True, "amb": 1}, {"ea": True, "skip": True})]
        st += [{"op": "rle", "from": -3, "to": 0x110003, "what": "ambiguous", "cfg": {}}]
        obs = ctx.drive(name, st, procs=5)
    finally:
        ctx.over = {}
    flat = [{"kind": "run", "what": s["what"], "cfg": s["cfg"], "from": a, "to": b, "w": w, "pre": [], "post": []} for s, r in zip(st, obs) for a, b, w in r["runs"]]
    ctx.validate(name, "WidthTrace", flat, [c] * len(flat), chunk=100000)
    return {"lines": len(recs[0]["east"]) + len(recs[0]["emoji"]), "runs": len(flat)}


PARTS = [("model", model), ("trace", trace), ("errors", errors), ("unicode15", unicode15)]
