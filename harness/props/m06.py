"""conservation laws between the outputs"""
import math
import numpy as np
import scatter as sc
from space import Space, call

LOSSLESS = {"diel", "low", "matched", "high"}


def run(ctx):
    sp = Space(ctx)
    cases = []
    for s, p in sp.pick(ctx.size(150, 1500), lambda s: s["mistake"] == "none" and s["np"] * s["nk"] <= 4,
                        lambda p: "gain" not in p["mats"] or ctx.rng.random() < .1):
        c = call(ctx.rng, s, p, "coef")
        if c is None:
            continue
        if ctx.rng.random() < .3:
            c["eps"] = c["eps"].real + 0j
        a = sc.record(c)
        if not a["obs"]["ok"]:
            continue
        n = int(c["nmax"] or sc.run(c)["n_max"])
        m = n + 2
        mu = np.polynomial.legendre.leggauss(m)[0]
        th = [0.0, math.pi] + np.arccos(mu).tolist()
        b = sc.record(dict(c, op="cs"))
        d = sc.record(dict(c, op="ang", theta=sc.f64(th)))
        e = c["eps"]
        rel = dict(op="energy", coef=1, cs=2, ang=3, m=m, passive=int(bool((e.imag >= 0).all())), lossless=int(bool((e.imag == 0).all() and (e.real > 0).all())))
        cases.append(dict(calls=[dict(a, free=1), dict(b, free=1), dict(d, free=1), rel], note=c["note"]))
    ctx.judge("TraceScatter", cases)
