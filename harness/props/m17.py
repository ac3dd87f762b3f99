"""automatic truncation: the documented order, and enough of them"""
import math
import torch
import scatter as sc
import mk
from lib import arr
from pymiediff import helper
from pymiediff import multishell as ms
from props import m08
from space import Space, cover, opacity


def criterion_cases(ctx, pools, n):
    """recorded n_max of calls, and of the helper functions up to size parameters of 1e4"""
    rng, cases = ctx.rng, []
    for i in range(n):
        L = rng.choice([1, 2, 3])
        np_, nk = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
        info = mk.spheres(rng, pools[L], np_, nk)
        solver = "pena" if L == 3 or opacity(info)[1] > 3 else rng.choice(["pena", "torch", "scipy"])
        c = mk.request(info, {}, "coef", solver)
        d = dict(sc.describe(c), obs=dict(ok=1))
        o = sc.run(c)
        calls = [d, dict(op="trunc", i=1, rule="pena" if solver == "pena" else "wiscombe", n=int(o["n_max"])),
                 dict(op="trunc", i=1, rule="pena" if solver == "pena" else "wiscombe", n=int(o["a_n"].shape[0]))]
        d["free"] = 1
        # the helpers, for sizes that would take too long to evaluate
        f = 10 ** rng.uniform(-2, 2.3)
        if rng.random() < .35:                            # near the range boundaries 8 and 4200
            x = rng.choice([8, 8, 4200]) * (1 + rng.choice([0, 1, -1]) * 10 ** rng.uniform(-8, -1))
            f = x / max(k * r[-1] * info["host"] for k in info["ks"] for r in info["rs"])
        big = dict(info, rs=[[q * f for q in r] for r in info["rs"]])
        cb = mk.request(big, {}, "coef", "pena")
        k0, r, e, v = cb["k"].reshape(1, -1), cb["r"], cb["eps"], cb["env"].reshape(1, -1)
        ka = r[:, -1:] * k0 * torch.sqrt(v)
        calls += [dict(sc.describe(cb), obs=dict(ok=1), free=1),
                  dict(op="trunc", i=4, rule="pena", n=int(helper.get_truncution_criteroin_pena2009(k0, r, e, v))),
                  dict(op="trunc", i=4, rule="wiscombe", n=int(helper.get_truncution_criteroin_wiscombe(ka)))]
        cases.append(dict(calls=calls, note=dict(phys=info["phys"], solver=solver, scale=f)))
    return cases


def run(ctx):
    rng = ctx.rng
    sp = Space(ctx, call=False)
    n = ctx.size(150, 2500)
    pools = {L: sp.phys_for(L, 3 * n) for L in (1, 2, 3)}
    cases = criterion_cases(ctx, pools, ctx.size(150, 1500))
    space = sorted(ctx.model("OptSpace"), key=str)
    space = [s for s in space if s["steps"] == ["order"] and s["a"]["prec"] == "double"]
    pools = {L: sp.phys_for(L, 3 * n, lambda p: "matched" not in p["mats"] and p["size"] != "huge") for L in (1, 2, 3)}
    F = dict(m08.F, orders=lambda s: (s["a"]["order"], s["b"]["order"], s["a"]["op"]))
    cases += [mk.case(rng, s, pools[s["a"]["L"]]) for s in cover(rng, rng.sample(space, min(len(space), 12 * n)), n, F)]
    ctx.judge("TraceScatter", [c for c in cases if c])
