"""angular scattering"""
import math
import scatter as sc
from space import Space, call


def angles(rng):
    t = [0.0, math.pi, math.pi / 2, rng.uniform(0, math.pi), rng.uniform(0, math.pi), rng.uniform(-3, 0), rng.uniform(math.pi, 7), 1e-6, 2 * math.pi]
    rng.shuffle(t)
    return t[:rng.choice([1, 2, 4, 7])]


def run(ctx):
    sp = Space(ctx)
    cases = []
    for s, p in sp.pick(ctx.size(220, 2200), lambda s: s["mistake"] == "none"):
        c = call(ctx.rng, s, p, "ang", theta=sc.f64(angles(ctx.rng)))
        if c is not None:
            cases.append(dict(calls=[sc.record(c)], note=dict(c["note"], theta=c["theta"].tolist())))
    ctx.judge("TraceScatter", cases)
