"""C27: pattern files are loaded completely, or not at all."""
import glob, itertools, json, os
import vf
from common_hyph import cp

WORDS = [list(w) for n in range(1, 5) for w in itertools.product([97, 98], repeat=n)]
MISSING = ["", ".", "..", "/", "zzzz", "zz99999", "ZZ100.TEX", "zz100.tex ", " zz100.tex", "./", "languages", "tex", "hyph-fr", "hyph-fr.tex.txt", "*.tex", "hyph-it.tex", "\x00", "k.tex", "0.tex"]
DIRS = {"k.tex/inner.tex": "a1b\n", "0.tex/inner.txt": "a1b\n"}   # directories are no pattern files


NAMES = ["a", "B", "Y", "en", "hyphen", "hyph-zz", "hyph-a", "hyph", "00", "m-n", "m", "m1", "m.n", "ushyph", "zy", "z"]


def named(i):
    """names in no particular order"""
    return NAMES[i] + ".tex" if i < len(NAMES) else "zz%03d.tex" % i


def bundled():
    return sorted(os.path.basename(p) for p in glob.glob(vf.LANGDIR + "*.tex"))


def text_of(lines, eol, last):
    s = eol.join("".join(map(chr, x)) for x in lines)
    return s + eol if last and lines else s


def run(ctx, name, files, words, missing, stim=None):
    """files: {name: (lines, text)}"""
    st = {"op": "load", "names": sorted(files) + missing + sorted(files)[::-1] + missing, "words": words}
    tex = dict(DIRS, **{n: t for n, (_, t) in files.items()})
    res = ctx.drive(name, [st], tex=tex)[0]
    recs, single = [], []
    for n, r in zip(st["names"], res["res"]):
        x = dict(r, name=cp(n), what="missing", lines=[], words=words, long=False)
        one = {"names": [n], "words": words, "files": {n: files[n]} if n in files else {}, "missing": [n] if n in missing else []}
        if n in files:
            x["what"], x["lines"] = "file", files[n][0]
            x["long"] = any(len(l) > 60000 for l in files[n][0])
            if x["long"]:
                x["lines"] = [l if len(l) < 60000 else [37] for l in x["lines"]]   # they are comments
        recs.append(x)
        single.append(one)
    everything = [n for n in set(files) | set(bundled())]
    recs.append({"what": "list", "name": [], "lines": [cp(n) for n in everything], "listed": res["listed"]})
    single.append({"names": [], "words": [], "files": {n: files[n] for n in sorted(files)[:50]}, "missing": []})
    ctx.validate(name, "LoadTrace", recs, single, chunk=20000)
    return recs


def replay(ctx, name):
    for s in ctx.replaying:
        run(ctx, name, s["files"], s["words"], s["missing"])


def model(ctx, name):
    if ctx.replaying is not None:
        return replay(ctx, name)
    k = {"MaxLines": ctx.scale(3, 4)}
    ms = ctx.emit("LoadMC", k, ["Complete", "Named"], "PROPERTIES Grows\nCONSTRAINT Emit")
    files = {}
    rng = ctx.rng(name)
    most = ctx.scale(2500, 9000)
    some = ms if len(ms) <= most else rng.sample(ms, most)
    for i, m in enumerate(some):
        files[named(i)] = (m["lines"], text_of(m["lines"], "\r\n" if i % 7 == 3 else "\n", i % 3 != 1))
    recs = run(ctx, name, files, WORDS, MISSING)
    ctx.sample({k: v for k, v in recs[-3].items() if k != "words"})
    return {"files": len(files), "of": len(ms), "words": len(WORDS), "constants": k, "exhaustive": len(some) == len(ms)}


def random_file(rng, long, big=False):
    alpha = rng.choice(["ab", "abc", "a\u00e9b", "ab'"]) if not big else "abcd'"
    lines, seen, exc, far = [], set(), set(), []
    L = lambda s: lines.append(cp(s))

    def noise():
        while rng.random() < .4:
            L(rng.choice(["", "% comment a1b", "%", "\\endinput", "\\message", "}", "\\patterns{", "\\ hyphenation{", "%}"]))
            if long and rng.random() < .3:
                L("%" + "x" * rng.choice([60000, 65534, 65535, 65536, 70000, 200000]))
    noise()
    for _ in range(rng.choice([0, 1, 1, 2])):
        L("\\message{" + rng.choice(["", "}", "Some patterns}", "\u00e9tude {x} 1}", "a\tb  c}", "\\hyphenation{"]))
        noise()
    L("\\patterns{ % a comment") if rng.random() < .8 else None
    for at in range(rng.choice([0, 1, 4, 12]) if not big else rng.choice([40, 150])):
        line = []
        for _ in range(rng.choice([1, 1, 2, 5] if not big or at % 20 != 1 else [150, 700] if at > 1 else [900])):
            s = ("." if rng.random() < .2 else "") + "".join(rng.choice(alpha) for _ in range(rng.choice(([1, 2, 2, 3, 5] if not big else [4, 5, 6, 7]) if rng.random() < .95 else [12, 20, 35])))
            s += "." if rng.random() < .2 else ""
            if s in seen:
                continue
            seen.add(s)
            if len(s) > 10:
                far.append(s.strip("."))
            p = "".join((str(rng.randrange(10)) if rng.random() < .5 else "") + c for c in s)
            if s[-1] != "." and rng.random() < .3:
                p += str(rng.randrange(10))
            line.append(p)
        if line:
            L(rng.choice(["", " ", "\t"]) + rng.choice([" ", "  ", "\t"]).join(line) + rng.choice(["", " "]))
        noise()
    if rng.random() < .1:
        L("\\message{late}")
    if rng.random() < .7 or big:
        L("\\hyphenation{" + rng.choice(["", " % comment"]))
        for _ in range(rng.choice([0, 1, 2, 5]) if not big else rng.choice([60, 130])):
            w = "".join(rng.choice(alpha) for _ in range(rng.choice(([1, 2, 3, 4, 6] if not big else [5, 6, 7]) if rng.random() < .9 else [14, 22, 40])))
            if w in exc:
                continue
            exc.add(w)
            e = w[0] + "".join(("-" if rng.random() < .4 else "") + c for c in w[1:])
            L(e + ("}" if rng.random() < .15 else ""))
            while rng.random() < .2:
                L(rng.choice(["", "% x-y", "}"]))
        if rng.random() < .6:
            L("}")
    return lines, alpha, exc, far


def trace(ctx, name):
    if ctx.replaying is not None:
        return replay(ctx, name)
    rng = ctx.rng(name)
    files, words = {}, []
    for i in range(ctx.scale(300, 3000)):
        lines, alpha, exc, far = random_file(rng, i % 12 == 0)
        files[named(i)] = (lines, text_of(lines, rng.choice(["\n", "\n", "\r\n"]), rng.random() < .8))
        words += [cp(w) for w in sorted(exc) + far]
        words += [cp("".join(rng.choice(alpha) for _ in range(rng.choice([2, 3, 5, 9])))) for _ in range(2)]
    words = [list(x) for x in sorted({tuple(w) for w in words})]
    words = [w for w in words if len(w) > 10] + rng.sample(words, min(len(words), 120))
    run(ctx, name, files, words, MISSING)
    # large files
    large, some = {}, set()
    for i in range(ctx.scale(3, 20)):
        lines, alpha, exc, far = random_file(rng, False, True)
        large[named(i)] = (lines, text_of(lines, "\n", True))
        ps = ["".join(c for c in p if c.isalpha() or c == "'") for l in lines if l[:1] not in ([92], [37], [125]) for p in "".join(map(chr, l)).split()]
        some |= set(rng.sample(sorted(exc), 12)) | set(far[:3]) | {"".join(rng.sample(ps, 2)) for _ in range(12)} | set(ps[-3:])
        size = max(map(len, lines))
    run(ctx, name, large, [cp(w) for w in sorted(some)], [])
    return {"files": len(files) + len(large), "words": len(words), "lines_of_the_last_large_file": len(lines), "longest": size}


PARTS = [("model", model), ("trace", trace)]
