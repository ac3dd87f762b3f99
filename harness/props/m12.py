"""calls are pure: sessions of requests, repeats and overwritten results"""
import copy
import torch
import pymiediff as pmd
from pymiediff import materials
import scatter as sc
import sessions as se
from lib import arr
from space import cover

F = dict(a=lambda s: tuple(h.get("on", h["do"]) for h in s["hist"]), b=lambda s: tuple(h.get("op", h["do"]) for h in s["hist"]),
         c=lambda s: tuple((h["do"], h.get("op"), h.get("arg"), h.get("i")) for h in s["hist"]))


def file_of(rng):
    return rng.choice([lambda: se.table_file(rng, with_k=rng.random() < .5, rows=25), lambda: se.sellmeier_file(rng)])()


def world(rng):
    """materials and particles; definitions for the judge, objects for the library"""
    defs, mats = [], []

    def add(d, m):
        defs.append(d)
        mats.append(m)
        return len(defs)
    kind = rng.choice(["file", "file", "const"])
    if kind == "file":
        p, d = file_of(rng)
        shared = add(d, materials.MatDatabase("m", yaml_file=p))
    else:
        z = complex(round(rng.uniform(2, 9), 3), round(rng.uniform(0, 2), 3))
        shared = add(dict(kind="const", eps=se.num(z)), materials.MatConstant(z))
    z = complex(round(rng.uniform(1.5, 6), 3), rng.choice([0, .3]))
    other = add(dict(kind="const", eps=se.num(z)), materials.MatConstant(z))
    n = rng.choice([1.0, 1.33, 1.5])
    env = add(dict(kind="index", n=se.num(n)), n)
    parts, objs = [], []
    for m in rng.choice([([shared], [shared, other]), ([shared, other], [other, shared]), ([shared, other], [shared])]):
        r = sorted(round(rng.uniform(15, 150), 2) for _ in m)
        if len(r) == 2:
            r[1] = r[0] + round(rng.uniform(5, 60), 2)
        rt = torch.tensor(r, dtype=torch.float64)
        parts.append(dict(r=arr(rt), mats=m, env=env))
        objs.append(pmd.Particle(r_layers=rt, mat_layers=[mats[i - 1] for i in m], mat_env=n))
    return defs, mats, parts, objs, n


def stored(objs):
    """everything a particle and its materials hold (apart from lookup tables)"""
    out = {}
    for i, p in enumerate(objs):
        out[f"p{i+1}.r_layers"] = p.r_layers
        for j, m in enumerate(p.mat_layers + [p.mat_env]):
            for a in ("eps_scalar", "wl_dat", "eps_dat"):
                if isinstance(getattr(m, a, None), torch.Tensor):
                    out[f"p{i+1}.material{j+1}.{a}"] = getattr(m, a)
    return out


def spoil(res):
    with torch.no_grad():
        for v in res.values():
            if isinstance(v, torch.Tensor):
                try:
                    v.mul_(-2).add_(5)
                except RuntimeError:                      # (an expanded view cannot be written)
                    pass


def session(rng, s):
    defs, mats, parts, objs, n = world(rng)
    nk = rng.choice([1, 2, 3])
    args, fn = [], {}
    lossy = any(d["kind"] == "table" for d in defs)
    for a in (1, 2):
        wl = [rng.uniform(320, 1500) for _ in range(nk)]
        if a == 2 and rng.random() < .5:                 # nearly the same wavelengths
            wl = [2 * torch.pi / float(q) * rng.choice([1 + 1e-4, 1 - 3e-4]) for q in args[0]["k"]]
        R = max(float(o.r_layers[-1]) for o in objs)
        args.append(dict(k=2 * torch.pi / torch.tensor(wl, dtype=torch.float64),
                         theta=torch.tensor([rng.uniform(0, 3.1) for _ in range(2)], dtype=torch.float64),
                         probe=torch.tensor([[rng.uniform(1, 2) * R, R, rng.uniform(-2, 2) * R], [0.3 * R * rng.random(), .2 * R, .1 * R]], dtype=torch.float64)))
    fnc = dict(r=torch.tensor([[30., 70.], [40., 90.]], dtype=torch.float64), eps=torch.tensor([[4 + .2j, 2.2], [2, 6 + 1j]], dtype=torch.complex128),
               env=torch.tensor(1.7, dtype=torch.float64))
    solver = {t: "pena" if lossy or rng.random() < .6 else rng.choice(["torch", "scipy"]) for t in ("p1", "p2", "fn")}
    nmax = rng.choice([0, 0, 3])
    events, kept, first = [], [], {}
    hold = {k: v.detach().clone() for k, v in stored(objs).items()}
    given = dict([(f"{q}{i+1}", a[q]) for i, a in enumerate(args) for q in a] + [("fn " + q, v) for q, v in fnc.items()])
    givenold = {k: v.clone() for k, v in given.items()}
    # the permittivities, read from materials of their own
    for i, m in enumerate(mats):
        m2 = copy.deepcopy(m) if not isinstance(m, float) else materials.MatConstant(m ** 2)
        for a in args:
            e, _ = se.evaluate(None, i + 1, m2, 2 * torch.pi / a["k"])
            events.append(e)

    def request(h):
        a = args[h["arg"] - 1]
        c = dict(op=h["op"], solver=solver[h["on"]], k=a["k"], nmax=nmax)
        if h["op"] == "ang":
            c["theta"] = a["theta"]
        if h["op"] == "near":
            c["probe"] = a["probe"]
        if h["on"] == "fn":
            c.update(fnc)
        else:
            c.update(api="pt", particle=objs[int(h["on"][1]) - 1])
        return c
    for h in s["hist"]:
        if h["do"] == "write":
            spoil(kept[h["i"] - 1]["res"])
            kept[h["i"] - 1]["own"] = False
            continue
        c = request(h)
        ev, res = se.ok(sc.run, c)
        events.append(ev)
        if res is None:
            return dict(calls=events, mats=defs, parts=parts, note=s)
        q = (h["on"], h["op"], h["arg"])
        snap = {f: arr(v) for f, v in res.items() if isinstance(v, torch.Tensor)}
        if q in first:
            for f in snap:
                events.append(se.equal(f"repeated {q}: {f}", first[q][f], snap[f], 11))
        else:
            first[q] = snap
            if h["on"] != "fn" and rng.random() < .12:
                events.append(se.particle_call(int(h["on"][1]), c["particle"], c))
        kept.append(dict(res=res, snap=snap, own=True, q=q))
    for x in kept:
        if x["own"]:
            for f, v in x["snap"].items():
                events.append(se.equal(f"kept result {x['q']}: {f}", v, x["res"][f]))
    for k, v in given.items():
        events.append(se.equal("argument " + k, givenold[k], v))
    for k, v in stored(objs).items():
        events.append(se.equal("stored " + k, hold[k], v))
    return dict(calls=events, mats=defs, parts=parts, note=dict(s, n=n, solver=solver, nk=nk))


def run(ctx):
    rng = ctx.rng
    space = sorted(ctx.model("Session"), key=str)
    n = ctx.size(400, 6000)
    items = cover(rng, rng.sample(space, min(len(space), 8 * n)), n, F)
    ctx.judge("TraceSession", [session(rng, s) for s in items])
