"""scattering (and internal) coefficients"""
import scatter as sc
from space import Space, call


def run(ctx):
    sp = Space(ctx)
    cases = []
    for s, p in sp.pick(ctx.size(260, 2500), lambda s: s["mistake"] == "none", lambda p: True):
        c = call(ctx.rng, s, p, "coef")
        if c is None:
            continue
        if s["backend"] != "pena" and ctx.rng.random() < .7:
            c["internal"] = True
        cases.append(dict(calls=[sc.record(c)], note=c["note"]))
    ctx.judge("TraceScatter", cases)
