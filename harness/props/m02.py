"""near fields"""
import scatter as sc
from space import Space, call, point_set


def run(ctx):
    sp = Space(ctx)
    cases = []
    for s, p in sp.pick(ctx.size(150, 1500), lambda s: s["mistake"] == "none", lambda p: p["size"] != "huge"):
        c = call(ctx.rng, s, p, "near")
        if c is None:
            continue
        P = point_set(ctx.rng, c["_info"], 2 if s["np"] * s["nk"] > 3 else 5)
        c["probe"] = sc.f64(P)
        c["e0"] = ctx.rng.choice([1, 1, 2.5, -1.5 + 0.5j])
        cases.append(dict(calls=[sc.record(c)], note=dict(c["note"], probe=P, e0=str(c["e0"]))))
    ctx.judge("TraceScatter", cases)
