"""gradients of the results against exact central differences of the specification"""
import math
import torch
import pymiediff as pmd
import scatter as sc
import mk
from lib import arr
from space import Space, cover, opacity, point_set

F = dict(a=lambda s: (s["op"], s["solver"], s["L"]), b=lambda s: (s["np"], s["nk"], s["el"], s["api"]), c=lambda s: tuple(s["wrt"]),
         d=lambda s: (s["op"], s["order"], s["api"]), e=lambda s: (s["op"], tuple(s["wrt"])))
ARGS = ("k", "r", "eps", "env", "theta", "probe")
CS = [(f"{p}_{t}{m}", i + 1, int(p == "q"), int(m != "")) for p in ("cs", "q") for i, t in enumerate(("ext", "sca", "abs")) for m in ("", "_multipoles")]


def full_shape(q, c, N):
    np_, nk = c["r"].reshape(-1, c["r"].shape[-1]).shape[0], c["k"].numel()
    if c["op"] == "coef":
        return (N, np_, nk)
    if c["op"] == "ang":
        return (np_, nk, len(c["theta"]))
    if c["op"] == "near":
        return (np_, nk, len(c["probe"]), 3)
    return (1, np_, nk) if q == "cs_geo" else (2, N, np_, nk) if q.endswith("_multipoles") else (np_, nk)


def weights(gen, v, like, prev=1e-3):
    """random weights that let every entry count (sizes: those of `like`)"""
    a = like.detach().abs()
    w = torch.randn(v.shape, dtype=torch.float64, generator=gen) / (a + prev * a.max() + 1e-60)
    if v.is_complex():
        w = w * torch.exp(2j * math.pi * torch.rand(v.shape, dtype=torch.float64, generator=gen))
    return w


def record(rng, c, wrt, names):
    """c: request with plain arguments"""
    gen = torch.Generator().manual_seed(rng.randrange(2 ** 31))
    d = dict(sc.describe(c), op="grad", of=c["op"], wrt=list(wrt), internal=int(bool(c.get("internal"))))
    plain = {f: torch.as_tensor(c[f]) for f in ARGS if f in c}
    live = dict(c)
    for f in wrt:
        live[f] = plain[f].detach().clone().requires_grad_(True)
    if c.get("api") == "pt":
        live["particle"] = pmd.Particle(r_layers=live["r"], eps_layers=live["eps"], mat_env=c["host"])
    try:
        out = sc.run(live)
        N = c.get("nmax") or int(out["n_max"] if "n_max" in out else sc.run(dict(live, op="coef"))["n_max"])
        d["N"] = N
        loss, outs = 0, []
        for q in names:
            v = out[q]
            sh = full_shape(q, c, N)
            w = weights(gen, v.reshape(sh), out[q.replace("abs", "ext")].reshape(sh))   # (absorption: a difference, maybe zero)
            loss = loss + (w.conj() * v.reshape(sh)).real.sum()
            o = dict(q=q, w=arr(w))
            for n, i, eff, mult in CS:
                if n == q:
                    o.update(i=i, eff=eff, mult=mult)
            outs.append(o)
        g = torch.autograd.grad(loss, [live[f] for f in wrt], allow_unused=True)
        d.update(ok=1, outs=outs)
        d["grad"] = {f: arr(x if x is not None else torch.zeros_like(plain[f])) for f, x in zip(wrt, g)}
        d["dir"] = {}
        for f, t in plain.items():
            if f not in wrt:
                z = torch.zeros_like(t)
            elif f == "theta":
                z = torch.randn(t.shape, dtype=torch.float64, generator=gen)
            elif f == "probe":
                z = torch.randn(t.shape, dtype=torch.float64, generator=gen) * t.norm(dim=-1, keepdim=True)
            else:
                z = t * torch.randn(t.shape, dtype=t.dtype, generator=gen)
            d["dir"][f] = arr(z)
    except Exception as e:
        d.update(ok=0, err=(type(e).__name__ + ": " + str(e))[:200])
    return d


def request(rng, s, pool):
    op = "coef" if s["op"] == "internal" else s["op"]
    for _ in range(40):
        info = mk.spheres(rng, pool, s["np"], s["nk"])
        if s["el"] == "1LK":                              # one material for all particles
            info["es"] = [info["es"][0]] * s["np"]
        if s["el"] == "PL":                               # no dispersion
            info["es"] = [[[row[0]] * s["nk"] for row in e] for e in info["es"]]
        if s["solver"] == "pena" or opacity(info)[1] <= 2.5:
            break
    else:
        return None
    if s["api"] == "pt":
        info["host"] = rng.choice([1, 1, 1.33, 1.5])
        info.pop("envs", None)
    x = max(k * r[-1] * info["host"] for k in info["ks"] for r in info["rs"])
    extra = {}
    if op == "ang":
        extra = dict(theta=[rng.uniform(0, 3.14) for _ in range(2)])
    if op == "near":
        P = [p for p in point_set(rng, info, 6) if .02 < min(info["ks"]) * math.hypot(*p) and 1e-3 * info["rs"][0][-1] < math.hypot(*p) < 200 * info["rs"][0][-1] and math.hypot(*p[:2]) > 1e-3 * math.hypot(*p)]
        if not P:
            return None
        extra = dict(probe=P[:2], e0=complex(rng.uniform(-2, 2), rng.uniform(-2, 2)))
    nmax = {"auto": 0, "few": rng.randint(1, 3), "more": int(x + 4.05 * x ** (1 / 3) + 4)}[s["order"]]
    c = mk.request(info, extra, op, s["solver"], nmax=nmax)
    if op == "coef" and s["op"] == "internal":
        c["internal"] = 1
    if s["el"] == "PL":
        c["eps"] = c["eps"][:, :, 0].clone()
    elif s["el"] == "1LK":
        c["eps"] = c["eps"][:1].clone()
    if s["api"] == "pt":
        c.update(api="pt", r=c["r"][0], eps=c["eps"][0], host=info["host"])
        env = torch.tensor(info["host"] ** 2, dtype=torch.float32).double()
        c["env"] = env
    return c, info


def names_for(rng, s, c, L):
    op = s["op"]
    if op == "internal":
        return ["c_n", "d_n"] + (["f_n", "g_n", "v_n", "w_n"] if L == 2 else [])
    if op == "coef":
        return ["a_n", "b_n"]
    if op == "cs":
        return rng.sample([q[0] for q in CS] + ["cs_geo"], 4)
    if op == "ang":
        return rng.sample(["S1", "S2", "i_per", "i_par", "i_unpol", "pol_degree"], 3)
    return rng.sample(["E_s", "H_s", "E_t", "H_t"], 2) + rng.sample(["E_i", "H_i"], 1)


def run(ctx):
    rng = ctx.rng
    sp = Space(ctx, call=False)
    n = ctx.size(220, 2500)
    space = sorted(ctx.model("GradSpace"), key=str)
    pools = {L: sp.phys_for(L, 3 * n, lambda p: "matched" not in p["mats"] and p["size"] not in ("huge", "tiny") and p["special"] == "none") for L in (1, 2, 3)}
    cases = []
    for s in cover(rng, rng.sample(space, min(len(space), 10 * n)), n, F):
        q = request(rng, s, pools[s["L"]])
        if q:
            c, info = q
            wrt = sorted(s["wrt"])
            d = record(rng, c, wrt, names_for(rng, s, c, s["L"]))
            cases.append(dict(calls=[d], note=dict(s, phys=info["phys"])))
    ctx.judge("TraceGrad", cases)
