"""physically equal descriptions"""
import cmath, math
import torch
import pymiediff as pmd
import scatter as sc
from space import HOST, SIZE, cover, material, opacity, point_set
from props.m05 import angles

OPS = ("coef", "cs", "ang", "near")


def describe(rng, d, form, v, op, nmax, solver):
    """one call for the description d (ranks and materials) in the given form"""
    r = [v["rad"][k] for k, _ in d]
    eps = [v["eps"][m] for _, m in d]
    nk = len(v["k"])
    c = dict(op=op, solver=solver, nmax=nmax, k=sc.f64(v["k"]), env=sc.f64(v["host"] ** 2))
    layered = dict(r=sc.f64(r), eps=sc.c128(eps))
    if op == "ang":
        c["theta"] = sc.f64(v["theta"])
    if op == "near":
        c["probe"] = sc.f64(v["probe"])
        c["e0"] = v["e0"]
    if form in ("legacy", "coreshell"):
        shape = (lambda e: sc.c128([e] * nk)) if nk > 1 else rng.choice([lambda e: sc.c128(e), lambda e: sc.c128([e]), lambda e: sc.c128([[e]])])
        c.update(rc=sc.f64(r[0]), ec=shape(eps[0]), api="cs" if form == "coreshell" else "ms")
        if len(r) == 2:
            c.update(rs=sc.f64(r[1]), es=shape(eps[1]))
        return c
    c.update(layered)
    if form == "layers":
        return c
    c["api"] = "pt"
    if v["host"] != 1:
        c["acc"] = "m"
    env = v["host"]
    if form == "particle eps":
        c["particle"] = pmd.Particle(r_layers=c["r"], eps_layers=c["eps"], mat_env=env)
        return c
    c["acc"] = "m"
    mat = lambda e: pmd.materials.MatConstant(e)
    if form == "particle mats":
        c["particle"] = pmd.Particle(r_layers=c["r"], mat_layers=[mat(e) for e in eps], mat_env=env)
        return c
    if form == "particle scalar":
        mat = lambda e: cmath.sqrt(e) if e.imag or e.real < 0 else math.sqrt(e.real)
    kw = dict(r_core=c["r"][0], mat_core=mat(eps[0]))
    if len(r) == 2:
        kw.update(r_shell=c["r"][1], mat_shell=mat(eps[1]))
    c["particle"] = pmd.Particle(mat_env=env, **kw)
    return c


def values(rng, size, host, nk):
    k = [2 * math.pi / rng.uniform(250, 1500) for _ in range(nk)]
    x = math.exp(rng.uniform(*map(math.log, SIZE[size])))
    rout = x / (max(k) * host)
    f = sorted(rng.uniform(.15, 1) for _ in range(5))
    f = [a + .02 * i for i, a in enumerate(f)]
    rad = {i + 1: rout * a / f[-1] for i, a in enumerate(f)}
    cls = rng.sample(["diel", "high", "metal", "absorb", "low"], 2)
    eps = {0: complex(host ** 2), 1: material(rng, cls[0], host), 2: material(rng, cls[1], host)}
    info = dict(rs=[[rad[i] for i in range(1, 6)]])
    return dict(k=k, host=host, rad=rad, eps=eps, theta=angles(rng), probe=point_set(rng, info, 3), e0=rng.choice([1, 2 - 1j])), cls


def run(ctx):
    rng = ctx.rng
    space = sorted(ctx.model("EquivSpace"), key=str)
    feats = dict(form=lambda s: s["form"], n=lambda s: len(s["d"]), steps=lambda s: tuple(s["steps"]), host=lambda s: s["host"], n0=lambda s: len(s["d0"]),
                 size=lambda s: s["size"], op=lambda s: s["op"])
    n = ctx.size(150, 1500)
    items = [dict(s, size=rng.choice(["tiny", "small", "mid", "mid", "wave", "large"]), op=rng.choice(OPS)) for s in rng.sample(space, min(len(space), 6 * n))]
    cases = []
    for s in cover(rng, items, n, feats):
        v, cls = values(rng, s["size"], 1.0 if s["host"] == "vacuum" else rng.choice([1.33, 1.5, 2.25]), rng.choice([1, 1, 2]))
        nmax = rng.choice([0, 3, 5]) if s["op"] != "near" else 0     # inside a coat the incident wave is a series
        solver = "pena"
        if len(s["d"]) <= 2 and rng.random() < .5:
            im = max(k * abs(cmath.sqrt(e).imag) * max(v["rad"].values()) for k in v["k"] for e in v["eps"].values())
            if im <= 3:
                solver = rng.choice(["torch", "scipy", "torch/ratios"])
        a = describe(rng, s["d0"], "layers", v, s["op"], nmax, solver)
        b = describe(rng, s["d"], s["form"], v, s["op"], nmax, solver)
        note = dict(s, materials=cls, values={k: str(q) for k, q in v.items()}, solver=solver, nmax=nmax)
        calls = [sc.record(a), sc.record(b)]
        nt = len(v["theta"]) if s["op"] == "ang" else len(v["probe"]) if s["op"] == "near" else 1
        # single precision inputs, or cross sections that nearly vanish: each judged on its own
        if b.get("acc") == "m" or s["op"] == "cs" and s["size"] in ("tiny", "small"):
            cases.append(dict(calls=calls, note=note))
            continue
        calls.append(dict(op="rel", kind="equal", i=1, j=2, pm=[1], wm=list(range(1, len(v["k"]) + 1)), tm=list(range(1, nt + 1)), lg=3 if s["op"] == "near" else 4))
        if s["op"] == "near":
            calls[-1]["names"] = ["E_t", "H_t", "E_i", "H_i"]
        if s["op"] == "cs":                       # efficiencies refer to the outermost radius; absorption may vanish
            calls[-1]["names"] = ["cs_ext", "cs_sca", "cs_ext_multipoles", "cs_sca_multipoles"]
        cases.append(dict(calls=calls, note=note))
    ctx.judge("TraceScatter", cases)
