"""results and gradients of extreme requests are finite numbers"""
import cmath, math
import torch
import scatter as sc
from lib import arr
from space import Space, cover, opacity


def build(rng, s):
    X = set(s["ext"])
    nk, np_ = rng.choice([1, 2]), rng.choice([1, 2])
    L = 1 if X & {"x=pi"} else rng.choice([1, 2]) if s["solver"] != "pena" else rng.choice([1, 2, 3])
    if X & {"film", "tiny core", "equal layers"}:
        L = max(L, 2)
    if "many layers" in X:
        L = rng.randint(6, 10)
    if "mixed sizes" in X:
        np_ = rng.choice([2, 3])
    ks = [2 * math.pi / rng.uniform(300, 1200) for _ in range(nk)]
    if "spectrum wide" in X:
        ks = [2 * math.pi / 200, 2 * math.pi / 2e4] + ([2 * math.pi / 1e6] if rng.random() < .5 else [])
        rng.shuffle(ks)
    nk = len(ks)
    host = rng.choice([1.0, 1.0, 1.33, 2.0])
    xs = [10 ** rng.uniform(-.5, 1) for _ in range(np_)]
    if "mixed sizes" in X:
        xs[0], xs[1] = 10 ** rng.uniform(-3, -1), 10 ** rng.uniform(1, 1.7)
    if "dust" in X:
        xs = [10 ** rng.uniform(-4, -2) for _ in xs]
        if "mixed sizes" in X:
            xs[1] *= 100
    if "giant" in X:
        hi = 2.3 if s["op"] == "near" or X & {"many layers", "spectrum wide"} else 3
        xs[-1] = 10 ** rng.uniform(1.8, hi)
    e = {"opaque": lambda: complex(rng.uniform(-120, 10), rng.uniform(5, 60)), "metal": lambda: complex(-rng.uniform(1, 60), rng.uniform(.1, 4)),
         "gain": lambda: complex(rng.uniform(2, 9), -rng.uniform(1e-4, .2)), "low index": lambda: rng.uniform(.01, .6) + 0j,
         "high index": lambda: rng.uniform(25, 80) + 0j, "matched": lambda: host ** 2 * (1 + rng.choice([0, 1e-12, 1e-6])) + 0j}
    special = [q for q in X if q in e]
    plain = lambda: complex(rng.uniform(1.5, 12), rng.choice([0, 0, rng.uniform(0, .1)]))
    pick = lambda: e[special[0]]() if special and rng.random() < .7 else plain()
    es, rs = [], []
    for p in range(np_):
        R = xs[p] / (max(ks) * host)
        if "film" in X:
            f = sorted(rng.uniform(.3, .9) for _ in range(L - 2)) + [1 - 10 ** rng.uniform(-6, -3), 1]
        elif "tiny core" in X:
            f = [10 ** rng.uniform(-6, -2)] + sorted(rng.uniform(.2, .95) for _ in range(L - 2)) + [1]
        else:
            f = [(l + rng.uniform(.3, 1)) / L for l in range(L - 1)] + [1]
        r = [R * q for q in f]
        ee = [[pick()] * nk for _ in range(L)]
        if special:
            ee[rng.randrange(L)] = [e[special[0]]()] * nk
        if "equal layers" in X:
            ee[1] = list(ee[0])
        if "x=pi" in X:
            m = rng.choice([1.5, 2.0, 1.0 if "matched" in X else 1.25])
            ee[0] = [m * m + 0j] * nk
            r = [max(1, round(xs[p])) * math.pi / max(ks) / m]
        rs.append(r)
        es.append(ee)
    info = dict(rs=rs, es=es, host=host, ks=ks)
    nmax = 0
    if "many orders" in X:
        nmax = int(max(xs) + 30 + rng.uniform(20, 80)) if "giant" not in X else int(max(xs)) + 60
    if "one order" in X:
        nmax = 1
    leaf = dict(k=sc.f64(ks), r=sc.f64(rs), eps=sc.c128(es), env=sc.f64(host ** 2))
    c = dict(op=s["op"], solver=s["solver"], nmax=nmax, **leaf)
    if s["op"] == "ang":
        c["theta"] = sc.f64([0, math.pi, 0., math.pi] if "forward backward" in X else [rng.uniform(0, math.pi) for _ in range(3)])
    if s["op"] == "near":
        R = max(q[-1] for q in rs)
        small = min(q[-1] for q in rs)
        d = lambda f: [q * f for q in rng.choice([[.6, -.8, 0], [0, .6, .8], [.48, .6, .64]])]
        P = [d(small * .45), d(R * 1.4), d(R * .7), d(small * .05)]
        if "at centre" in X:
            P = [[0, 0, 0], d(1e-9 * R), d(1e-3 * R), d(small * .9)]
        if "far away" in X:
            P = [d(100 * R), d(1e4 * R), d(R * 1e5), d(R * 1.01)]
        if "on axis" in X:
            P = [[0, 0, q * R] for q in (.2, -.3, 1.5, -2)] + [[0, .5 * R, 0], [-.5 * R, 0, 0]]
        c["probe"] = sc.f64(P)
        c["e0"] = 1
    return c, info, X


def observe(c, X):
    """the recorded call, with the gradients of the sum of squares of its results"""
    leaves = {q: c[q].clone().requires_grad_(True) for q in ("k", "r", "eps")}
    names = list(sc.KEYS[c["op"]])
    d = sc.describe(c)
    try:
        o = sc.run(dict(c, **leaves))
        # the degree of polarisation divides by the intensity (zero for a matched sphere)
        names = [q for q in names if q in o and q not in ("n_max", "pol_degree", "k0", "wavelength")]
        v = {q: arr(o[q]) for q in names}
        # (not abs()**2: torch's derivative of abs is NaN at complex denormal numbers)
        loss = sum((o[q].real ** 2 + o[q].imag ** 2 if o[q].is_complex() else o[q] ** 2).sum()
                   for q in names if not q.endswith("_i"))
        if "at centre" not in X:                          # (the position angles have no derivative there)
            g = torch.autograd.grad(loss, list(leaves.values()), allow_unused=True)
            for q, t in zip(leaves, g):
                if t is not None:
                    v["grad " + q] = arr(t)
        d["obs"] = dict(ok=1, v=v, names=sorted(v))
    except Exception as ex:
        d["obs"] = dict(ok=0, err=(type(ex).__name__ + ": " + str(ex))[:200])
    return d


def one(c, X, judged, note):
    d = observe(c, X)
    if judged and d["obs"]["ok"]:
        d["obs"]["v"]["n_max"] = arr(int(sc.run(dict(c, op="coef"))["n_max"]))
        if c["op"] == "cs":
            o = sc.run(c)
            d["obs"]["v"].update(k0=arr(o["k0"]), wavelength=arr(o["wavelength"]))
    else:
        d["free"] = 1
    return dict(calls=[d, dict(op="finite", i=1)], note=note)


def run(ctx):
    rng = ctx.rng
    space = sorted(ctx.model("ExtremeSpace"), key=str)
    for s in space:
        s["ext"] = sorted(s["ext"])
    n = ctx.size(int(__import__("os").environ.get("NN","260")), 4000)
    feats = dict(op=lambda s: s["op"], solver=lambda s: s["solver"])
    for q in sorted({q for s in space for q in s["ext"]}):
        feats[q] = lambda s, q=q: q in s["ext"]
    todo = []
    for s in cover(rng, rng.sample(space, min(len(space), 12 * n)), n, feats):
        for _ in range(30):
            c, info, X = build(rng, s)
            # (inside of a sphere the fields are products of exp(+-|Im z|))
            if opacity(info)[1] <= (3 if s["solver"] != "pena" else 300 if s["op"] == "near" else 1e9):
                break
        else:
            continue
        x = max(k * r[-1] * info["host"] for k in info["ks"] for r in info["rs"])
        plain = len(c["r"][0]) <= 3 and x < 25 and not X & {"mixed sizes", "many orders", "film", "far away", "opaque", "matched"}
        todo.append((c, X, plain and rng.random() < .2 and s["op"] in ("coef", "cs"),
                     dict(s, r=info["rs"], eps=str(info["es"]), k=info["ks"], host=info["host"], nmax=c["nmax"])))
    cases = ctx.pmap(one, todo)
    ctx.judge("TraceScatter", cases)
