"""a batched call equals the separate calls"""
import math
import torch
import pymiediff as pmd
import scatter as sc
from space import Space, cover, opacity, point_set, sphere


def sel(t, ix, dim):
    return t.index_select(dim, torch.tensor([i - 1 for i in ix]))


def run(ctx):
    rng = ctx.rng
    sp = Space(ctx, call=False)
    space = sorted(ctx.model("BatchSpace", "BatchSpace3" if ctx.thorough else "BatchSpace"), key=str)
    n = ctx.size(130, 1500)
    feats = dict(op=lambda s: s["b"]["op"], np=lambda s: s["b"]["np"], nk=lambda s: s["b"]["nk"], nt=lambda s: s["b"]["nt"], L=lambda s: s["b"]["L"],
                 api=lambda s: s["b"]["api"], pm=lambda s: tuple(s["pm"]), wm=lambda s: tuple(s["wm"]), tm=lambda s: tuple(s["tm"]))
    items = cover(rng, rng.sample(space, min(len(space), 8 * n)), n, feats)
    pools = {L: sp.phys_for(L, 3 * n, lambda p: p["size"] != "huge" and p["special"] == "none" and "matched" not in p["mats"]) for L in (1, 2, 3)}
    cases = []
    for s in items:
        b, L = s["b"], s["b"]["L"]
        ph = [rng.choice(pools[L]) for _ in range(b["np"])]
        ph = [dict(q, host=ph[0]["host"]) for q in ph]
        ks = None
        rs, es = [], []
        for q in ph:
            r, e, host, ks = sphere(rng, q, b["nk"], ks)
            rs.append(r)
            es.append(e)
        info = dict(rs=rs, es=es, host=host, ks=ks)
        backend = "pena" if L == 3 or opacity(info)[1] > 3 else rng.choice(["pena", "pena", "torch", "scipy", "torch/ratios"])
        nmax = rng.choice([0, b["np"], b["nk"], b["nt"], 4])
        k, r, e = sc.f64(ks), sc.f64(rs), sc.c128(es)
        hv = sc.f64([host ** 2 * (1 + .05 * i) for i in range(b["nk"])]) if rng.random() < .5 else sc.f64(host ** 2)
        if b["api"] == "pt":
            hv = sc.f64(host ** 2)
        full = dict(op=b["op"], solver=backend, nmax=nmax, k=k, r=r, eps=e, env=hv)
        part = dict(full, k=sel(k, s["wm"], 0), r=sel(r, s["pm"], 0), eps=sel(sel(e, s["pm"], 0), s["wm"], 2), env=sel(hv, s["wm"], 0) if hv.ndim else hv)
        if b["op"] == "ang":
            full["theta"] = sc.f64([rng.uniform(0, math.pi) for _ in range(b["nt"])])
            part["theta"] = sel(full["theta"], s["tm"], 0)
        if b["op"] == "near":
            P = point_set(rng, info, b["nt"])
            while len(P) < b["nt"]:
                P += point_set(rng, info, 1)
            full["probe"] = sc.f64(P[:b["nt"]])
            part["probe"] = sel(full["probe"], s["tm"], 0)
        if b["api"] == "pt":
            for c in (full, part):
                c["api"] = "pt"
                c["acc"] = "d" if host == 1 else "m"
                c["particle"] = pmd.Particle(r_layers=c["r"][0], eps_layers=c["eps"][0], mat_env=host)
                c["r"], c["eps"] = c["r"][0], c["eps"][0]
        calls = [dict(sc.record(full), free=1), dict(sc.record(part), free=1)]
        for c in calls:
            if rng.random() < .4:
                del c["free"]
        # automatic orders are those of the whole batch: the sums differ by what they omit
        calls.append(dict(op="rel", kind="batch" if nmax else "equal", i=1, j=2, pm=s["pm"], wm=s["wm"], tm=s["tm"], lg=8 if nmax else 3 if b["op"] == "near" else 4))
        if b["op"] == "cs":                       # (absorption may be a difference of equal numbers: judged on its own)
            calls[-1]["names"] = [f"{q}_{t}{m}" for q in ("cs", "q") for t in ("ext", "sca") for m in ("", "_multipoles")]
        cases.append(dict(calls=calls, note=dict(s, phys=ph, backend=backend, nmax=nmax)))
    ctx.judge("TraceScatter", cases)
