"""C13: exceptions."""
import itertools
from common_hyph import *


def every(ctx, name):
    """all exceptions of the bundled languages, in many letter cases and with all limits, and their neighbours"""
    langs = languages()
    if ctx.replaying is not None:
        return replay(ctx, name, "exceptions", langs)
    rng = ctx.rng(name)
    env = write_dicts(ctx, langs)
    cases = []
    for i, (pats, excs) in enumerate(langs):
        for e in excs:
            w = e.replace("-", "")
            forms = {w, w.upper(), w.capitalize(), w[:-1] + w[-1].upper(), w.swapcase()}
            for k in range(len(w)):
                forms.add(w[:k] + w[k].upper() + w[k + 1:])
            for _ in range(ctx.scale(4, 60)):
                forms.add("".join(c.upper() if rng.random() < .5 else c for c in w))
            near = {w + "s", "s" + w, w[1:], w[:-1], w + w, w + ".", "." + w, w.upper() + "S"} | {w[:k] + rng.choice("aeiourst") + w[k + 1:] for k in range(len(w))}
            for f in sorted(forms | near):
                for cfg in [{}, {"minLen": 0, "left": rng.randrange(6), "right": rng.randrange(6)}] + (
                        [{"minLen": m, "left": l, "right": r} for m in (0, 20) for l in range(5) for r in range(5)] if ctx.thorough else []):
                    cases.append((i + 1, dict(cfg, lang=LANGS[i][2][0]), settings(cfg), cp(f), rng.random() < .2))
    recs = judge(ctx, name, cases, "exceptions", env)
    ctx.sample(*recs[:3])
    return {"words": len(cases), "exhaustive": "all bundled exceptions"}


PARTS = [("model", model("exceptions")), ("tiny", tiny("exceptions")), ("every", every)]
