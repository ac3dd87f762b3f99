"""cross sections, efficiencies, per-multipole parts, spectrum axes"""
import scatter as sc
from space import Space, call


def run(ctx):
    sp = Space(ctx)
    cases = []
    for s, p in sp.pick(ctx.size(220, 2200), lambda s: s["mistake"] == "none"):
        c = call(ctx.rng, s, p, "cs")
        if c is not None:
            cases.append(dict(calls=[sc.record(c)], note=c["note"]))
    ctx.judge("TraceScatter", cases)
