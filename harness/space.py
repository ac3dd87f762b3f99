"""From abstract scenarios (exported by the TLA+ models) to concrete calls."""
import cmath, math, random
import torch
import scatter as sc

SIZE = dict(tiny=(1e-3, .03), small=(.03, .5), mid=(.5, 3.), wave=(3., 8.), large=(8., 20.), huge=(20., 60.))
HOST = dict(vacuum=1.0, water=1.33, glass=1.5, dense=2.25)


def material(rng, cls, host):
    return dict(diel=lambda: complex(rng.uniform(1.5, 5)),
                high=lambda: complex(rng.uniform(9, 16), rng.choice([0, 0, rng.uniform(0, .2)])),
                metal=lambda: complex(rng.uniform(-20, -2), rng.uniform(.2, 3)),
                absorb=lambda: complex(rng.uniform(2, 6), rng.uniform(.2, 4)),
                low=lambda: complex(rng.uniform(.1, .9), rng.choice([0, rng.uniform(0, .1)])),
                gain=lambda: complex(rng.uniform(2, 4), -rng.uniform(.01, .1)),
                matched=lambda: complex(host * host))[cls]()


def radii(rng, phys, L):
    """layer radii relative to the outer one"""
    if L == 1:
        return [1.0]
    if phys["shape"] == "thin shell":
        f = sorted(rng.uniform(.3, .9) for _ in range(L - 2)) + [1 - 10 ** rng.uniform(-3, -1.5), 1.0]
    elif phys["shape"] == "tiny core":
        f = [10 ** rng.uniform(-3, -1)] + sorted(rng.uniform(.2, .95) for _ in range(L - 2)) + [1.0]
    else:
        f = sorted(rng.uniform(.25, .95) for _ in range(L - 1)) + [1.0]
    for i in range(1, L):                       # strictly increasing, with some distance
        if f[i] - f[i - 1] < 5e-4 and i < L - 1:
            f[i] = f[i - 1] + 5e-4
    return f


def sphere(rng, phys, nk=1, k=None):
    """radii (L), permittivities [L][nk], host index, wavenumbers (nk)"""
    host = HOST[phys["host"]]
    L = len(phys["mats"])
    if k is None:
        ks = [2 * math.pi / rng.uniform(250, 1500) for _ in range(nk)]
    else:
        ks = k
    lo, hi = SIZE[phys["size"]]
    x = math.exp(rng.uniform(math.log(lo), math.log(hi)))
    rout = x / (max(ks) * host)
    f = radii(rng, phys, L)
    eps = []
    for m in phys["mats"]:
        e0 = material(rng, m, host)
        row = [e0]
        for w in range(1, nk):
            # dispersion: another value, the one before, or nearly so
            u = rng.random()
            row.append(e0 if m == "matched" else row[-1] if u < .2 else row[-1] * (1 + rng.uniform(-4e-3, 4e-3)) if u < .45
                       else material(rng, m, host))
        eps.append(row)
    if phys["special"] == "same layers":
        i = rng.randrange(1, L)
        eps[i] = list(eps[i - 1])
    r = [rout * q for q in f]
    if phys["special"] == "x=pi":              # m k r a multiple of pi at the first wavelength
        m = math.sqrt(eps[0][0].real)
        j = max(1, round(m * ks[0] * r[0] / math.pi))
        r = [j * math.pi / (ks[0] * m)]
    if phys["special"] == "inner x=pi":
        e = eps[0][0]
        if e.imag == 0 and e.real > 0:
            m = math.sqrt(e.real)
            j = max(1, round(m * ks[0] * r[0] / math.pi))
            s = j * math.pi / (ks[0] * m) / r[0]
            if s < 10:
                r = [q * s for q in r]
    return r, eps, host, ks


def merge(rng, struct, phys):
    """one call's numbers: r [np][L], eps [np][L][nk], host, k [nk] in the layout of `struct`"""
    np_, nk, L = struct["np"], struct["nk"], struct["L"]
    r0, e0, host, ks = sphere(rng, phys, nk)
    rs, es = [r0], [e0]
    plain = dict(phys, special="none")
    for _ in range(np_ - 1):
        rr, ee, _, _ = sphere(rng, plain, nk, ks)
        rs.append(rr)
        es.append(ee)
    el = struct["el"]
    shared_p = el in ("L", "LK", "1LK", "1L1")          # same for every particle
    shared_k = el in ("L", "PL", "PL1", "1L1")          # same for every wavelength
    for p in range(np_):
        for l in range(L):
            for w in range(nk):
                es[p][l][w] = e0[l][0 if shared_k else w] if shared_p else es[p][l][0 if shared_k else w]
    return rs, es, host, ks


def shaped(flat, sh, dt):
    return torch.tensor(flat, dtype=dt).reshape(sh)


def fill(flat, n):
    """repeat / cut a list to n entries (for arrays of a wrong shape)"""
    return [flat[i % len(flat)] for i in range(n)]


def hosts(rng, h2, nk):
    """permittivity of a host with strong, weak or late dispersion"""
    d, i0 = rng.choice([(.07, 0), (.003, 0), (.05, 1), (-1e-3, 0)])
    return [h2 * (1 + d * max(0, i - i0)) for i in range(nk)]


def arrays(rng, struct, phys, varhost=None):
    """keyword values k, r, eps, env of a call"""
    rs, es, host, ks = merge(rng, struct, phys)
    np_, nk, L = struct["np"], struct["nk"], struct["L"]
    el = struct["el"]
    n = lambda sh: math.prod(sh)
    out = {}
    out["k"] = shaped(fill(ks, n(struct["ksh"])), struct["ksh"], torch.float64)
    h2 = host * host                                  # permittivity of the host
    hv = [h2] if struct["vl"] != "K" else hosts(rng, h2, nk)
    out["env"] = shaped(fill(hv, n(struct["vsh"])), struct["vsh"], torch.float64)
    mis = struct["mistake"]
    rf = [q for row in rs for q in row]
    if mis == "r swapped":
        rf[-1] = rf[-2] * .7
    if mis == "r equal":
        rf[-1] = rf[-2]
    if mis not in ("no r", "no geometry"):
        out["r"] = shaped(rf, struct["rsh"], torch.float64)
    P = range(1 if el in ("L", "LK", "1LK", "1L1") else np_)
    W = range(1 if el in ("L", "PL", "PL1", "1L1") else nk)
    ef = [es[p][l][w] for p in P for l in range(L) for w in W]
    if mis not in ("no eps", "no geometry"):
        out["eps"] = shaped(fill(ef, n(struct["esh"])), struct["esh"], torch.complex128)
    return out, dict(rs=rs, es=es, host=host, ks=ks)


def opacity(info):
    """(damping of the shells, largest damping of any argument)"""
    tau = im = 0
    for r, e in zip(info["rs"], info["es"]):
        for w, k in enumerate(info["ks"]):
            t = 0
            for l in range(len(r)):
                q = k * abs(cmath.sqrt(e[l][w]).imag)
                im = max(im, q * r[l])
                if l + 1 < len(r):
                    im = max(im, k * abs(cmath.sqrt(e[l + 1][w]).imag) * r[l])
                if l:
                    t += q * (r[l] - r[l - 1])
            tau = max(tau, t)
    return tau, im


def cover(rng, items, n, feats):
    """up to n items: first those that cover new pairs of feature values, then random ones"""
    items = list(items)
    rng.shuffle(items)
    seen, out, rest = set(), [], []
    for it in items:
        v = [(f, feats[f](it)) for f in feats]
        pairs = {(a, b) for i, a in enumerate(v) for b in v[:i]} - seen
        if pairs and len(out) < n:
            seen |= pairs
            out.append(it)
        else:
            rest.append(it)
        if len(out) >= n:
            break
    return out + rest[:n - len(out)]


STRUCT_F = {f: (lambda it, f=f: it[f]) for f in ("backend", "L", "np", "nk", "el", "vl", "kl", "nmax", "mistake")}
PHYS_F = dict(size=lambda p: p["size"], host=lambda p: p["host"], L=lambda p: len(p["mats"]), core=lambda p: p["mats"][0],
              outer=lambda p: p["mats"][-1], shape=lambda p: p["shape"], special=lambda p: p["special"])


class Space:
    """the exported scenario models of one check run"""
    def __init__(self, ctx, call=True, phys=True):
        self.ctx = ctx
        self.rng = ctx.rng
        self.calls = sorted(ctx.model("CallSpace"), key=lambda c: str(sorted(c.items()))) if call else []
        self.phys = sorted(ctx.model("PhysSpace"), key=lambda c: str(sorted(c.items()))) if phys else []
        self.byL = {}
        for p in self.phys:
            self.byL.setdefault(len(p["mats"]), []).append(p)

    def structs(self, n, keep=lambda s: True):
        return cover(self.rng, [s for s in self.calls if keep(s)], n, STRUCT_F)

    def phys_for(self, L, n, keep=lambda p: True):
        return cover(self.rng, [p for p in self.byL[L] if keep(p)], n, PHYS_F)

    def pick(self, n, skeep=lambda s: True, pkeep=lambda p: True):
        """n (struct, phys) pairs, both covering"""
        ss = self.structs(n, skeep)
        pools = {}
        for L in (1, 2, 3):
            want = sum(s["L"] == L for s in ss)
            pools[L] = self.phys_for(L, want, pkeep) if want else []
            self.rng.shuffle(pools[L])
        return [(s, pools[s["L"]].pop()) for s in ss]


def call(rng, struct, phys, op, api="ms", **kw):
    """a concrete call, or None when the situation is outside the accuracy domain of the backend"""
    a, info = arrays(rng, struct, phys)
    c = dict(op=op, api=api, solver=struct["backend"], nmax=struct["nmax"], **a, **kw)
    tau, im = opacity(info)
    if struct["mistake"] == "none":
        if struct["backend"] != "pena" and im > 3:
            return None
    c["note"] = dict(backend=struct["backend"], nmax=struct["nmax"], L=struct["L"], np=struct["np"], nk=struct["nk"], r=struct["rl"],
                     eps=struct["el"], env=struct["vl"], k0=struct["kl"], mistake=struct["mistake"], **phys)
    c["_info"] = info
    return c


def point_set(rng, info, n):
    """probe positions inside, outside, near the centre, far away, on the axes"""
    P = []
    r = info["rs"][0]
    rout = max(q[-1] for q in info["rs"])
    fs = [0, 1e-4, 1e-2] + [rng.uniform(.05, .98) for _ in range(3)] + [1.001, 1.3, 3, 30, 1000]
    rng.shuffle(fs)
    for f in fs[:n]:
        v = [rng.gauss(0, 1) for _ in range(3)]
        if rng.random() < .3:
            v = rng.choice([[0, 0, 1], [0, 0, -1], [1, 0, 0], [0, -1, 0], [1, 1, 0], [0, 1, 1e-9]])
        s = math.sqrt(sum(q * q for q in v))
        P.append([q / s * rout * f for q in v])
    # keep clear of every interface of every particle
    out = []
    for p in P:
        d = math.sqrt(sum(q * q for q in p))
        if all(abs(d / q - 1) > 1e-4 for rr in info["rs"] for q in rr):
            out.append(p)
    return out or [[0., 0., 2 * rout + rng.random() * rout]]
