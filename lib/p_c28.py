"""C28: the files generated from TeX sources hold the entries of the sources."""
import os, subprocess
import vf
from common_hyph import cp
from p_c27 import WORDS, text_of

FILES = ["hyph-de-1996", "hyph-en-gb", "hyph-es", "hyph-fr", "ushyphmax"]


def generate(ctx, sources, full=()):
    """Runs the generator of /repo in a scratch directory. sources: {file name: bytes}; full: the files which cannot be written"""
    ctx.n += 1
    d = os.path.join(ctx.tmp, "gen%d" % ctx.n)
    os.makedirs(d + "/tex")
    for n, s in sources.items():
        open(d + "/tex/" + n, "wb").write(s)
    for n in full:
        os.symlink("/dev/full", os.path.join(d, n))
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; cd %s && go build -o %s/strip %s/strip_comments.go && cd %s && exec ../strip" % (vf.REPO, ctx.tmp, vf.LANGDIR.rstrip("/"), d)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if not os.path.exists(ctx.tmp + "/strip"):
        raise vf.CheckError("the generator does not build: " + p.stdout.decode(errors="replace")[-2000:])
    out = {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d)) if f != "tex" and f not in full}
    return p.returncode, p.stdout.decode(errors="replace")[-2000:], out


def lines_of(b):
    ls = b.decode("utf-8").replace("\r\n", "\n").split("\n")
    return [cp(x) for x in (ls[:-1] if ls[-1] == "" else ls)]


def run(ctx, name, files, words):
    """files: {name: (lines, text)}"""
    rc, err, out = generate(ctx, {n: t.encode() for n, (_, t) in files.items()})
    if rc != 0 or set(out) != set(files):
        raise vf.Violation(name, [{"files": files, "words": words}], "the generator ends with %s: %s; not written: %s; written: %s" % (rc, err, sorted(set(files) - set(out))[:5], sorted(set(out) - set(files))[:5]))
    st = {"op": "load", "names": sorted(files), "words": words}
    res = ctx.drive(name, [st], tex={n: t.decode("utf-8") for n, t in out.items()})[0]["res"]
    recs, single = [], []
    for n, r in zip(st["names"], res):
        recs.append(dict(r, name=cp(n), what="file", lines=files[n][0], words=words, file=[]))
        single.append({"files": {n: files[n]}, "words": words})
    ctx.validate(name, "TexTrace", recs, single, chunk=20000)
    return recs


def replay(ctx, name):
    for s in ctx.replaying:
        if "bundled" in s:
            return bundled(ctx, name)
        if "full" in s:
            failing(ctx, name, [s])
        else:
            run(ctx, name, s["files"], s["words"])


def model(ctx, name):
    if ctx.replaying is not None:
        return replay(ctx, name)
    k = {"MaxLines": ctx.scale(5, 6)}
    ms = ctx.emit("TexMC", k, ["Faithful"], "CONSTRAINT Emit")
    rng = ctx.rng(name)
    most = ctx.scale(2500, 8000)
    short = [m for m in ms if len(m["lines"]) <= 3]
    some = ms if len(ms) <= most else short[:most // 2] + rng.sample(ms, most // 2)
    files = {"zz%03d.tex" % i: (m["lines"], text_of(m["lines"], "\r\n" if i % 7 == 3 else "\n", i % 3 != 1)) for i, m in enumerate(some)}
    recs = run(ctx, name, files, WORDS)
    ctx.sample({k: v for k, v in recs[-1].items() if k != "words"})
    return {"sources": len(files), "of": len(ms), "constants": k, "exhaustive": len(some) == len(ms)}


def random_source(rng, big=False):
    alpha = rng.choice(["ab", "abc", "a\u00e9b", "ab'"]) if not big else "abcd'"
    lines, seen, exc = [], set(), set()
    blank = lambda: rng.choice(["", "", "", " ", "  ", "\t", " \t "])
    tail = lambda: blank() + (rng.choice(["%", "% a1b", "%%", "% {x} % y", "% \\patterns{", "%}", "%\u00e9"]) if rng.random() < .3 else "")

    def noise():
        while rng.random() < .4:
            lines.append(rng.choice(["", "% comment a1b", "%", " % x1y", "\t", "%}", "%\\hyphenation{", "%" + "a" * rng.choice([10, 3000])]))
    noise()
    if rng.random() < .5:
        lines.append("\\message{" + rng.choice(["", "}", "Some patterns}", "\u00e9tude {x} 1}"]) + rng.choice(["", " ", "% no", " % no"]))
        noise()
    for _ in range(rng.choice([0, 0, 1])):
        lines.append(rng.choice(["\\lccode`\\'=`\\'", "\\begingroup", "  \\endgroup"]) + tail())
        noise()
    lines.append(blank() + "\\patterns{" + tail())
    for at in range(rng.choice([0, 1, 4, 12]) if not big else rng.choice([40, 150])):
        line = []
        for _ in range(rng.choice([1, 1, 2, 5] if not big or at % 20 != 1 else [150, 700] if at > 1 else [900])):
            s = ("." if rng.random() < .2 else "") + "".join(rng.choice(alpha) for _ in range(rng.choice(([1, 2, 2, 3, 5] if not big else [4, 5, 6, 7]) if rng.random() < .95 else [12, 20, 35])))
            s += "." if rng.random() < .2 else ""
            if s in seen:
                continue
            seen.add(s)
            p = "".join((str(rng.randrange(10)) if rng.random() < .5 else "") + c for c in s)
            if s[-1] != "." and rng.random() < .3:
                p += str(rng.randrange(10))
            line.append(p)
        if line:
            lines.append(blank() + rng.choice([" ", "  ", "\t"]).join(line) + tail())
        noise()
    lines.append(blank() + "}" + tail())
    noise()
    if rng.random() < .7 or big:
        lines.append("\\hyphenation{" + tail())
        ws = []
        for _ in range(rng.choice([0, 1, 2, 5]) if not big else rng.choice([60, 130])):
            w = "".join(rng.choice(alpha) for _ in range(rng.choice(([1, 2, 3, 4, 6] if not big else [5, 6, 7]) if rng.random() < .9 else [14, 22, 40])))
            if w not in exc:
                exc.add(w)
                ws.append(w[0] + "".join(("-" if rng.random() < .4 else "") + c for c in w[1:]))
        for i, e in enumerate(ws):
            noise()
            last = i == len(ws) - 1 and rng.random() < .3
            lines.append(blank() + e + ("}" if last else "") + tail())
        if not ws or not last:
            lines.append(blank() + "}" + tail())
        noise()
        if rng.random() < .3:
            lines.append("\\endinput" + tail())
    return [cp(x) for x in lines], alpha, exc


def trace(ctx, name):
    if ctx.replaying is not None:
        return replay(ctx, name)
    rng = ctx.rng(name)
    files, words = {}, set()
    for i in range(ctx.scale(300, 3000)):
        lines, alpha, exc = random_source(rng)
        files["zz%03d.tex" % i] = (lines, text_of(lines, rng.choice(["\n", "\n", "\r\n"]), rng.random() < .8))
        words |= exc | {"".join(rng.choice(alpha) for _ in range(rng.choice([2, 3, 5, 9]))) for _ in range(2)}
    words = [cp(w) for w in rng.sample(sorted(words), min(len(words), 120))]
    run(ctx, name, files, words)
    large, some = {}, set()
    for i in range(ctx.scale(3, 20)):
        lines, alpha, exc = random_source(rng, True)
        large["zz%03d.tex" % i] = (lines, text_of(lines, "\n", True))
        ps = ["".join(c for c in p if c.isalpha() or c == "'") for l in lines if 37 not in l[:2] and l[:1] != [92] for p in "".join(map(chr, l)).split("%")[0].split()]
        ps = [p for p in ps if p]
        some |= set(rng.sample(sorted(exc), 12)) | {p for p in ps if len(p) > 10 and rng.random() < .1} | {"".join(rng.sample(ps, 2)) for _ in range(12)} | set(ps[-3:])
        size = max(map(len, lines))
    run(ctx, name, large, [cp(w) for w in sorted(some)])
    return {"sources": len(files) + len(large), "words": len(words), "lines_of_the_last_large_source": len(lines), "longest": size}


def failing(ctx, name, cases):
    """sources which may not be readable (long lines), files which cannot be written: the generator fails, or does its work"""
    recs, single = [], []
    for s in cases:
        rc, err, out = generate(ctx, {n: x[1].encode() for n, x in s["files"].items()}, s["full"])
        names = sorted(s["files"])
        res = [{"err": True, "parts": [], "id": []}] * len(names)
        if rc == 0 and set(out) == set(names):
            res = ctx.drive(name, [{"op": "load", "names": names, "words": s["words"]}], tex={n: t.decode("utf-8") for n, t in out.items()})[0]["res"]
        for n, r in zip(names, res):
            recs.append(dict(r, name=cp(n), what="failing", failed=rc != 0, lines=s["files"][n][0], words=s["words"], file=[]))
            single.append(s)
    ctx.validate(name, "TexTrace", recs, single, chunk=20000)
    return recs


def errors(ctx, name):
    cases = ctx.replaying
    if cases is None:
        cases = []
        rng = ctx.rng(name)
        for i in range(ctx.scale(12, 60)):
            files, words = {}, set()
            for k in range(rng.choice([1, 1, 3])):
                lines, alpha, exc = random_source(rng)
                lines = [cp("\\patterns{"), cp(alpha[0] + "1" + alpha[1]), cp("}")] if not exc else lines
                files["zz%03d.tex" % k] = (lines, text_of(lines, "\n", True))
                words |= exc | {alpha[:2] * 2}
            full = []
            n = rng.choice(sorted(files))
            if i % 3 == 0:
                full = [n]
            else:   # a comment of any length, alone or after an entry: the specification does not care
                lines = files[n][0]
                at = rng.randrange(len(lines) + 1)
                after = i % 3 == 2 and 0 < at and 37 not in lines[at - 1]
                long = "%" + "x" * rng.choice([65534, 65535, 65536, 70000, 200000])
                text = ["".join(map(chr, l)) for l in lines]
                if after:
                    text[at - 1] += " " + long
                else:
                    text.insert(at, long)
                files[n] = (lines, "\n".join(text) + "\n")
            cases.append({"files": files, "words": [cp(w) for w in sorted(words)], "full": full})
    recs = failing(ctx, name, cases)
    return {"runs": len(cases), "failed": sum(r["failed"] for r in recs)}


def bundled(ctx, name):
    """the embedded files, and what the generator makes of the sources today"""
    sources = {f + ".tex": open(vf.LANGDIR + "tex/" + f + ".tex", "rb").read() for f in FILES}
    rc, err, out = generate(ctx, sources)
    if rc != 0 or set(out) != set(sources):
        raise vf.Violation(name, [{"bundled": True}], "the generator ends with %s: %s; written: %s" % (rc, err, sorted(out)))
    recs = []
    for f in sorted(sources):
        for g in (open(vf.LANGDIR + f, "rb").read(), out[f]):
            recs.append({"what": "bundled", "name": cp(f), "lines": lines_of(sources[f]), "file": lines_of(g), "words": [], "parts": [], "id": [], "err": False})
    ctx.validate(name, "TexTrace", recs, [{"bundled": True}] * len(recs))
    return {"files": len(recs), "lines": sum(len(r["lines"]) for r in recs)}


PARTS = [("model", model), ("trace", trace), ("bundled", bundled), ("errors", errors)]
