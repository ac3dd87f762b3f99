"""argument layouts: every layout is read as documented, mistakes are refused"""
import scatter as sc
from space import Space, call


def run(ctx):
    sp = Space(ctx)
    cases = []
    n = ctx.size(700, 6000)
    ps = {L: sp.phys_for(L, n, lambda p: p["size"] in ("small", "mid") and p["special"] == "none") for L in (1, 2, 3)}
    for s in sp.structs(n, lambda s: s["mistake"] == "none" or ctx.rng.random() < .9):
        c = call(ctx.rng, dict(s, nmax=s["nmax"] or 3), ctx.rng.choice(ps[s["L"]]), "coef")
        if c is not None:
            cases.append(dict(calls=[sc.record(c)], note=c["note"]))
    ctx.judge("TraceScatter", cases)
