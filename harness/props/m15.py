"""gradients are independent of history: sessions of graphs, separate and accumulated gradients"""
import torch
import pymiediff as pmd
import scatter as sc
import sessions as se
import mk
from lib import arr
from props import m14
from space import Space, cover, opacity

F = dict(a=lambda s: tuple(h["do"] for h in s["hist"]), b=lambda s: tuple((h["do"], h.get("i"), h.get("q")) for h in s["hist"]))
LG = 9


class Request:
    """one differentiable request: arguments, what is asked, weights"""
    def __init__(self, rng, base, op, api, solver, nmax, entry=None):
        self.c = dict(base, op=op, solver=solver, nmax=nmax)
        for f in ("theta", "probe"):
            if (op, f) not in (("ang", "theta"), ("near", "probe")):
                self.c.pop(f, None)
        self.api, self.seed = api, rng.randrange(2 ** 31)
        self.names = {"coef": ["a_n", "b_n"], "cs": ["q_ext", "cs_sca", "q_sca_multipoles"], "ang": ["S1", "i_unpol"], "near": ["E_s", "H_t"]}[op]

    def run(self, leaves):
        c = dict(self.c, **leaves)
        if self.api == "pt":
            c.update(api="pt", particle=pmd.Particle(r_layers=c["r"][0], eps_layers=c["eps"][0], mat_env=1.0))
        out = sc.run(c)
        return {q: out[q] for q in self.names}

    def loss(self, out):
        gen = torch.Generator().manual_seed(self.seed)
        return sum((m14.weights(gen, out[q], out[q]).conj() * out[q]).real.sum() for q in self.names)


def build(rng, pools):
    L = rng.choice([1, 2, 3])
    solver = "pena" if L == 3 else rng.choice(["pena", "torch", "scipy"])
    api = rng.choice(["ms", "ms", "pt"])
    np_ = 1 if api == "pt" else rng.choice([1, 2])
    for _ in range(60):
        info = mk.spheres(rng, pools[L], np_, rng.choice([1, 2]))
        if opacity(info)[1] <= 2.5 or solver == "pena":
            break
    else:
        solver = "pena"
    if api == "pt":
        info.pop("envs", None)
        info["host"] = 1
    R = max(q[-1] for q in info["rs"])
    ops = [rng.choice(["coef", "cs", "ang", "near"]) for _ in range(2)]
    base = mk.request(info, {}, "coef", solver)
    base["theta"] = torch.tensor([rng.uniform(.1, 3) for _ in range(2)], dtype=torch.float64)
    base["probe"] = torch.tensor([[.3 * R, 1.4 * R, 1.2 * R]], dtype=torch.float64)
    base["e0"] = 1.0
    reqs = [Request(rng, base, op, api, solver, rng.choice([0, 3])) for op in ops]
    leaves = {f: base[f] for f in ("k", "r", "eps")}
    return reqs, leaves, dict(ops=ops, api=api, solver=solver, L=L, phys=info["phys"])


def live(leaves):
    return {f: v.detach().clone().requires_grad_(True) for f, v in leaves.items()}


def session(rng, s, pools):
    reqs, leaves, note = build(rng, pools)
    ev = []
    try:
        # separate, fresh calculations
        fresh, plain = [], []
        for q in reqs:
            lv = live(leaves)
            out = q.run(lv)
            fresh.append(torch.autograd.grad(q.loss(out), list(lv.values()), allow_unused=True))
            plain.append({f: arr(v) for f, v in q.run(leaves).items()})
        fresh = [[torch.zeros_like(v) if g is None else g for g, v in zip(gs, leaves.values())] for gs in fresh]
        shared = live(leaves)
        graphs, count = [], [0, 0]
        for h in s["hist"]:
            if h["do"] == "forward":
                q = h["q"] - 1
                out = reqs[q].run(shared)
                for f, v in out.items():
                    ev.append(se.equal("value with gradients: " + f, plain[q][f], v, 11))
                graphs.append((q, reqs[q].loss(out)))
            elif h["do"] == "plain":
                with torch.no_grad() if rng.random() < .5 else torch.enable_grad():
                    out = reqs[h["q"] - 1].run({f: v.detach() for f, v in shared.items()})
                for f, v in out.items():
                    ev.append(se.equal("value without gradients: " + f, plain[h["q"] - 1][f], v, 11))
            elif h["do"] in ("single", "joint"):
                ids = [h["i"] - 1] + ([h["j"] - 1] if "j" in h else [])
                g = torch.autograd.grad(sum(graphs[i][1] for i in ids), list(shared.values()), retain_graph=True, allow_unused=True)
                for n, (f, x) in enumerate(zip(shared, g)):
                    want = sum(fresh[graphs[i][0]][n] for i in ids)
                    ev.append(se.equal(f"{h['do']} gradient for {f}", want, torch.zeros_like(want) if x is None else x, LG))
            elif h["do"] == "backward":
                graphs[h["i"] - 1][1].backward(retain_graph=True)
                for n, (f, x) in enumerate(shared.items()):
                    want = sum(m * fresh[q][n] for q, m in enumerate(h["leaf"]))
                    ev.append(se.equal(f"accumulated gradient for {f}", want, torch.zeros_like(want) if x.grad is None else x.grad, LG))
            elif h["do"] == "zero":
                for v in shared.values():
                    v.grad = None
        # the gradient of one entry depends on its own parameters only
        c = reqs[0].c
        if leaves["r"].shape[0] == 2 and reqs[0].api == "ms" and c["nmax"]:
            lv = live(leaves)
            out = reqs[0].run(lv)
            p = rng.choice([0, 1])
            q = reqs[0].names[0]
            v = out[q][:, p] if q == "a_n" else out[q][p]
            w = torch.randn(v.shape, dtype=v.dtype, generator=torch.Generator().manual_seed(5))
            g = torch.autograd.grad((w.conj() * v).real.sum(), [lv["r"], lv["eps"]], allow_unused=True)
            one = live(dict(leaves, r=leaves["r"][p:p + 1], eps=leaves["eps"][p:p + 1]))
            v1 = reqs[0].run(one)[q]
            v1 = v1[:, 0] if q == "a_n" else v1[0]
            g1 = torch.autograd.grad((w.conj() * v1).real.sum(), [one["r"], one["eps"]], allow_unused=True)
            for f, x, y in zip(("r", "eps"), g, g1):
                y = torch.zeros_like(one[f]) if y is None else y
                want = torch.zeros_like(lv[f])
                want[p:p + 1] = y
                ev.append(se.equal(f"entry gradient for {f}", want, torch.zeros_like(want) if x is None else x, 8))
        ev.append(dict(op="ok", ok=1))
    except Exception as ex:
        ev.append(dict(op="ok", ok=0, err=(type(ex).__name__ + ": " + str(ex))[:200]))
    return dict(calls=ev, note=dict(s, **note))


def run(ctx):
    rng = ctx.rng
    sp = Space(ctx, call=False)
    space = sorted(ctx.model("GradSession"), key=str)
    space = [s for s in space if any(h["do"] in ("single", "joint", "backward") for h in s["hist"])]
    n = ctx.size(220, 4000)
    keep = lambda p: "matched" not in p["mats"] and p["size"] not in ("huge", "tiny") and p["special"] == "none"
    pools = {L: sp.phys_for(L, n, keep) for L in (1, 2, 3)}
    items = cover(rng, rng.sample(space, min(len(space), 8 * n)), n, F)
    ctx.judge("TraceSession", [session(rng, s, pools) for s in items])
