"""C12: patterns."""
import os, re
import vf
from common_hyph import *


def audit(ctx, name):
    """the dictionaries used by the specification are those of the pattern files"""
    if ctx.replaying is not None:
        return
    env = write_dicts(ctx, languages())
    kind, out = ctx.tlc("HyphDict", "SPECIFICATION Spec\nINVARIANT Audit\n", env=env)
    if kind != "ok":
        raise vf.CheckError(out[-3000:])
    return {"patterns": sum(len(p) for p, _ in languages()), "exhaustive": True}


def every(ctx, name):
    """each pattern of each language, in a word where it occurs"""
    langs = languages()
    if ctx.replaying is not None:
        return replay(ctx, name, "patterns", langs)
    rng = ctx.rng(name)
    env = write_dicts(ctx, langs)
    cases = []
    for i, (pats, _) in enumerate(langs):
        c = {"minLen": 0, "left": 0, "right": 0}
        frags = [re.sub(r"\d", "", p) for p in pats]
        mids = [f for f in frags if "." not in f]
        for f in frags:
            w = f.strip(".")
            if f[0] != ".":
                w = rng.choice(mids)[-rng.choice([1, 2, 3]):] + w
            if f[-1] != ".":
                w += rng.choice(mids)[:rng.choice([1, 2, 3])]
            cases.append((i + 1, dict(c, lang=LANGS[i][2][0]), c, cp(w), False))
    judge(ctx, name, cases, "patterns", env)
    return {"words": len(cases), "exhaustive": "all patterns"}


PARTS = [("audit", audit), ("model", model("patterns")), ("tiny", tiny("patterns")), ("every", every), ("bundled", bundled("patterns"))]
