"""Concrete requests for the abstract ones of OptSpace.tla."""
import math
import scatter as sc
from space import hosts, material, opacity, point_set, sphere

UNIT = {"1": 1.0, "2^-30": 2.0 ** -30, "2^10": 1024.0, "1e-9": 1e-9, "1e3": 1e3, "1e6": 1e6}


def spheres(rng, pool, np_, nk):
    """np_ spheres in one host"""
    host, ks, rs, es = None, None, [], []
    ph = [rng.choice(pool) for _ in range(np_)]
    ph = [dict(q, host=ph[0]["host"]) for q in ph]
    for q in ph:
        r, e, host, ks = sphere(rng, q, nk, ks)
        rs.append(r)
        es.append(e)
    info = dict(rs=rs, es=es, host=host, ks=ks, phys=ph)
    if nk > 1 and rng.random() < .5:
        info["envs"] = hosts(rng, host * host, nk)
    return info


def probe(rng, info, op):
    from props.m05 import angles
    if op == "ang":
        return dict(theta=angles(rng)[:3])
    if op == "near":
        return dict(probe=point_set(rng, info, 4), e0=complex(rng.uniform(-2, 2), rng.uniform(-2, 2)))
    return {}


def request(info, extra, op, solver="pena", prec="double", unit="1", host="given", nmax=0, perm=None):
    """the call that asks for `op` of the spheres `info` with these options"""
    u = UNIT[unit]
    k = [q / u for q in info["ks"]]
    e = info["es"]
    env = info.get("envs") or info["host"] ** 2
    if host == "relative":
        v = env if isinstance(env, list) else [env] * len(k)
        k = [q * math.sqrt(x) for q, x in zip(k, v)]
        e = [[[y / x for y, x in zip(row, v)] for row in s] for s in e]
        env = 1.0
    c = dict(op=op, solver=solver, nmax=nmax, k=sc.f64(k), r=sc.f64([[q * u for q in r] for r in info["rs"]]),
             eps=sc.c128(e), env=sc.f64(env))
    if prec == "single":
        c["prec"] = "single"
        c["acc"] = "s"
    if "theta" in extra:
        c["theta"] = sc.f64(extra["theta"])
    if "probe" in extra:
        c["probe"] = sc.f64([[q * u for q in p] for p in extra["probe"]])
        c["e0"] = extra["e0"]
    return c


def ident(c, op):
    n = c["r"].shape[0]
    nt = len(c["theta"]) if op == "ang" else len(c["probe"]) if op == "near" else 1
    return dict(pm=list(range(1, n + 1)), wm=list(range(1, c["k"].numel() + 1)), tm=list(range(1, nt + 1)))


CS_NAMES = [f"{q}_{t}{m}" for q in ("cs", "q") for t in ("ext", "sca") for m in ("", "_multipoles")]


def orders(name, x, rng):
    """number of orders for size parameter x (largest of the call)"""
    need = int(x + 4.05 * x ** (1 / 3) + 2)
    return {"auto": 0, "few": rng.randint(1, 4), "more": need + 6, "many": need + 12}[name]


def case(rng, s, pool, judged=.15):
    """the two requests of an OptSpace step, and the relation of their results"""
    a, b = s["a"], s["b"]
    op = a["op"]
    single = "single" in (a["prec"], b["prec"])
    if single:                                            # float32 cannot hold the functions of small spheres
        pool = [q for q in pool if q["size"] in ("mid", "wave")]
        if op == "near" or "many" in (a["order"], b["order"]):
            pool = [q for q in pool if q["size"] == "wave"]
    for _ in range(40):
        info = spheres(rng, pool, a["np"], a["nk"])
        if (a["solver"] == b["solver"] == "pena" and "single" not in (a["prec"], b["prec"])) or opacity(info)[1] <= 3:
            break
    else:
        return None
    if a["host"] != b["host"] and op == "near":
        info.pop("envs", None)                            # (one factor between the H fields)
    x = max(k * r[-1] * info["host"] for k in info["ks"] for r in info["rs"])
    extra = probe(rng, info, op)
    na = orders(a["order"], x, rng)
    nb = na if a["order"] == b["order"] else orders(b["order"], x, rng)
    sums = op != "coef"
    if sums and a["order"] != b["order"] and "few" in (a["order"], b["order"]):
        return None                                       # a truncated sum is another number
    if sums and not na and a["solver"] != b["solver"]:
        na = nb = orders("more", x, rng)                  # every solver has its own automatic order
    ca = request(info, extra, op, a["solver"], a["prec"], a["unit"], a["host"], na)
    cb = request(info, extra, op, b["solver"], b["prec"], b["unit"], b["host"], nb)
    s_ = UNIT[a["unit"]] / UNIT[b["unit"]]
    h = 1.0
    if a["host"] != b["host"]:
        h = info["host"] if a["host"] == "given" else 1 / info["host"]
    lg = 8 if a["solver"] == "pena" else 6
    if a["solver"] != b["solver"] or "torch/ratios" in (a["solver"], b["solver"]):
        lg = 6
    if any(q["size"] == "tiny" for q in info["phys"]):
        lg = min(lg, 6)                                   # (b_n ~ x^5 is a difference of numbers ~ x^3)
    if op in ("ang", "near"):
        lg = 5
    if na != nb or not na:
        lg = min(lg, 5 if op != "near" else 3) if sums else lg
    if single:
        lg = 2
    rel = dict(op="rel", kind="equal", i=1, j=2, lg=lg, s=sc.num(s_), h=sc.num(h), **ident(cb, op))
    if op == "cs":
        rel["names"] = CS_NAMES
    calls = [sc.record(ca), sc.record(cb)]
    for c in calls:
        if rng.random() > judged or single:
            c["free"] = 1
    return dict(calls=calls + [rel], note=dict(a=a, b=b, phys=info["phys"]))
