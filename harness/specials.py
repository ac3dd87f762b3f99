"""evaluations of the special functions, drawn from FnSpace and recorded for TraceSpecial"""
import cmath, math
import torch
from lib import arr
from pymiediff import special as sp
from space import cover

CD, F64 = torch.complex128, torch.float64
ORD = dict(one=[1], few=[2, 3, 4, 5, 7], many=[10, 14, 19, 25, 33])


def modulus(rng, size, N):
    return {"tiny": lambda: 10 ** rng.uniform(-5, -1.5), "small": lambda: rng.uniform(.05, .9), "mid": lambda: rng.uniform(1, 9),
            "turning": lambda: (N + .5) * rng.uniform(.75, 1.3), "large": lambda: rng.uniform(1.5, 5) * (N + 8)}[size]()


def argument(rng, st, N):
    a = modulus(rng, st["size"], N)
    p = st["phase"]
    if p == "real":
        return complex(a)
    if p == "opaque":
        return cmath.rect(min(a, 90), rng.uniform(.5, 1.5))
    im = min(a * rng.uniform(.01, .6), 2.9)
    return complex(math.sqrt(max(a * a - im * im, 0)), im if p == "lossy" else -im)


def draw(rng, st):
    """order and arguments of one evaluation"""
    N = rng.choice(ORD[st["order"]])
    n = 1 if st["shape"] == "scalar" else rng.choice([2, 3]) if st["shape"] == "vector" else 4
    zs = [argument(rng, st, N) for _ in range(n)]
    if n > 1 and rng.random() < .4:                     # very different arguments in one call
        zs[-1] = argument(rng, dict(st, size=rng.choice(["small", "mid", "large"])), N)
    z = torch.tensor(zs, dtype=CD)
    if st["phase"] == "real" and st["fn"] not in ("log", "ratio") and rng.random() < .5 and st["impl"] == "scipy":
        z = z.real.clone()
    sh = {"scalar": rng.choice([(), (1,)]), "vector": (n,), "matrix": (2, 2)}[st["shape"]]
    return N, z.reshape(sh)


J = dict(scipy=sp.sph_jn, recurrence=sp.sph_jn_torch_via_rec, ratios=sp.sph_jn_torch)
Y = dict(scipy=sp.sph_yn, torch=sp.sph_yn_torch)
H = dict(scipy=sp.sph_h1n, torch=sp.sph_h1n_torch)
RIC = dict(psi=dict(scipy=sp.psi, torch=sp.psi_torch), chi=dict(scipy=sp.chi, torch=sp.chi_torch), xi=dict(scipy=sp.xi, torch=sp.xi_torch))
DER = dict(j=sp.sph_jn_der, y=sp.sph_yn_der, h=sp.sph_h1n_der)


def evaluate(st, N, z, order):
    """[(meaning, tensor)] of one evaluation"""
    f, i = st["fn"], st["impl"]
    if f in ("j", "y", "h"):
        v = dict(j=J, y=Y, h=H)[f][i](order, z)
        out = [(f, v)]
        if i == "scipy":
            out.append(("d" + f, DER[f](order, z)))
        if N >= 1:
            out.append(("d" + f, sp.f_der(order, z, v)))
        return out
    if f in RIC:
        v, d = RIC[f][i](order, z)
        return [(f, v), ("d" + f, d)]
    D1 = sp.pena_D1_n(order, z)
    D3 = sp.pena_D3_n(order, z, D1)
    psi, xi = sp.pena_psi_zeta_n(order, z, D1, D3)
    return [("D1", D1), ("D3", D3), ("psi", psi), ("xi", xi)]


def evaluation(rng, st, grads=True):
    N, z0 = draw(rng, st)
    # the functions that turn a sequence into its derivative need two orders
    order = torch.tensor(N) if rng.random() < .3 else N
    c = dict(op="fn", N=N, z=arr(z0), outs=[], grads=[])
    z = z0.clone().requires_grad_(grads)
    keep = z.detach().clone()
    try:
        outs = evaluate(st, N, z, order)
        for q, v in outs:
            c["outs"].append(dict(q=q, v=arr(v)))
        c["ok"] = 1
        if grads:
            for q, v in outs:
                if q[0] == "d" or not v.requires_grad or v.shape[0] != N + 1:
                    continue
                n = rng.choice([0, N, rng.randint(0, N)])
                g, = torch.autograd.grad(v[n].real.sum(), z, retain_graph=True)
                if torch.isfinite(v[n].detach().abs()).all() and 1e-90 < v[n].detach().abs().min() and v[n].detach().abs().max() < 1e90:
                    c["grads"].append(dict(q=q, n=n, v=arr(g)))
        assert torch.equal(keep, z.detach())
    except Exception as e:
        c.update(ok=0, err=repr(e)[:200])
    return dict(calls=[c], note=dict(st, N=N, z=str(z0.tolist())))




def ratio(rng, st):
    N, z1 = draw(rng, st)
    z1 = z1.reshape(-1).to(CD)
    t = torch.tensor([rng.choice([1.0000001, 1.01, rng.uniform(1.05, 3)]) for _ in z1], dtype=F64)
    z2 = z1 * t
    m = z1 / z1.abs() * rng.uniform(.5, 4)
    c = dict(op="ratio", N=N, z=arr(z1), z2=arr(z2))
    try:
        D = [sp.pena_D1_n(N, z1), sp.pena_D1_n(N, z2)]
        D += [sp.pena_D3_n(N, z1, D[0]), sp.pena_D3_n(N, z2, D[1])]
        c.update(ok=1, outs=[dict(q="Q", v=arr(sp.pena_Q_n(N, z1, z2, z1 / m, z2 / m, *D)))])
    except Exception as e:
        c.update(ok=0, err=repr(e)[:200])
    return dict(calls=[c], note=dict(st, N=N, z=str(z1.tolist())))


def angle(rng, kind):
    s = rng.choice([0, 1])
    return {"generic": lambda: rng.uniform(.05, 3.09), "ends": lambda: [0., math.pi][s], "equator": lambda: math.pi / 2,
            "near ends": lambda: abs([0, math.pi][s] - 10 ** rng.uniform(-8, -2))}[kind]()


def pitau(rng, st):
    N = rng.choice(ORD[st["order"]] + ([60] if st["order"] == "many" else []))
    n = dict(scalar=1, vector=3, matrix=4)[st["shape"]]
    mu = torch.tensor([math.cos(angle(rng, st["angle"])) for _ in range(n)], dtype=F64)
    mu = mu.reshape(dict(scalar=(1,), vector=(3,), matrix=(2, 2))[st["shape"]])
    c = dict(op="pitau", N=N, z=arr(mu))
    try:
        p, t = sp.pi_tau(torch.tensor(N) if rng.random() < .3 else N, mu)
        c.update(ok=1, outs=[dict(q="pi", v=arr(p)), dict(q="tau", v=arr(t))])
    except Exception as e:
        c.update(ok=0, err=repr(e)[:200])
    return dict(calls=[c], note=dict(st, N=N, mu=mu.tolist()))


def vsh(rng, st):
    kind = int(st["fn"][3])
    N = rng.choice(dict(one=[1], few=[2, 3, 4], many=[8, 11])[st["order"]])
    npart, nk, nr = rng.choice([(1, 1, 2), (2, 1, 1), (1, 2, 2), (2, 2, 1)])
    k = torch.tensor([rng.uniform(.005, .02) for _ in range(nk)], dtype=F64)
    nm = torch.empty(npart, nk, dtype=CD)
    target = [[argument(rng, st, N) for _ in range(nk)] for _ in range(npart)]
    r = torch.tensor([abs(target[0][0]) / float(k[0]) / 1.4 * rng.uniform(.8, 1.2) for _ in range(nr)], dtype=F64)
    for i in range(npart):
        for j in range(nk):
            a = target[i][j]
            nm[i, j] = a / abs(a) * rng.uniform(1, 1.6)
            if st["phase"] in ("lossy", "gain"):       # attenuation within the reach of the solver
                top = float(k.max() * r.max())
                nm[i, j] = complex(nm[i, j].real, max(-2.9, min(2.9, nm[i, j].imag * top)) / top)
    th = torch.tensor([angle(rng, st["angle"]) for _ in range(nr)], dtype=F64)
    ph = torch.tensor([rng.choice([0., rng.uniform(-3.1, 6.2), math.pi / 2, math.pi]) for _ in range(nr)], dtype=F64)
    c = dict(op="vsh", N=N, kind=kind, k=arr(k), nm=arr(nm), r=arr(r), theta=arr(th), phi=arr(ph))
    v = lambda a: a.reshape(1, 1, 1, nr, 1)
    try:
        f = sp.vsh_pena if st["impl"] == "pena" else sp.vsh
        out = f(N, k.reshape(1, 1, nk, 1, 1), nm.reshape(1, npart, nk, 1, 1), v(r), v(th), v(ph), kind=kind)
        c.update(ok=1, outs=[dict(q=q, v=arr(o)) for q, o in zip(("Mo", "Me", "No", "Ne"), out)])
    except Exception as e:
        c.update(ok=0, err=repr(e)[:200])
    return dict(calls=[c], note=dict(st, N=N, k=k.tolist(), n=str(nm.tolist()), r=r.tolist(), theta=th.tolist(), phi=ph.tolist()))


def one(rng, st):
    f = st["fn"]
    return pitau(rng, st) if f == "pitau" else vsh(rng, st) if f[:3] == "vsh" else ratio(rng, st) if f == "ratio" else evaluation(rng, st)


FEAT = dict(kind=lambda s: (s["fn"], s["impl"], s["order"], s.get("size"), s.get("phase")),
            angle=lambda s: (s["fn"], s.get("angle"), s.get("size")), shape=lambda s: (s["fn"], s["impl"], s["shape"]))


def run(ctx, family, quick, thorough):
    space = sorted(ctx.model("FnSpace", "FnSpace_" + family), key=str)
    n = ctx.size(quick, thorough)
    space = cover(ctx.rng, ctx.rng.sample(space, min(len(space), 8 * n)), n, FEAT)
    if ctx.thorough:                                    # every state several times, with other arguments
        space = space * (n // len(space) + 1)
    ctx.judge("TraceSpecial", [one(ctx.rng, s) for s in space])
