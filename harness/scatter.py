"""Perform one scattering call on the real library and record it for the trace specs."""
import torch
import pymiediff as pmd
from pymiediff import multishell as ms
from pymiediff import coreshell
from lib import arr, num

F64, C128 = torch.float64, torch.complex128
KEYS = {
    "coef": ("a_n", "b_n", "n_max"),
    "cs": tuple(f"{q}_{t}{m}" for q in ("cs", "q") for t in ("ext", "sca", "abs") for m in ("", "_multipoles"))
          + ("cs_geo", "n_max", "k0", "wavelength"),
    "ang": ("S1", "S2", "i_per", "i_par", "i_unpol", "pol_degree", "k0", "wavelength"),
    "near": ("E_i", "H_i", "E_s", "H_s", "E_t", "H_t"),
}
INTERNAL = ("c_n", "d_n", "f_n", "g_n", "v_n", "w_n")
MS = dict(coef=ms.mie_coefficients, cs=ms.cross_sections, ang=ms.angular_scattering, near=ms.nearfields)
CSM = dict(coef=coreshell.mie_coefficients, cs=coreshell.cross_sections, ang=coreshell.angular_scattering, near=coreshell.nearfields)
PT = dict(coef="get_mie_coefficients", cs="get_cross_sections", ang="get_angular_scattering", near="get_nearfields")


def f64(x):
    return torch.as_tensor(x, dtype=F64)


def c128(x):
    return torch.as_tensor(x, dtype=C128)


def solver(c):
    b, _, j = c.get("solver", "pena").partition("/")
    kw = dict(backend=b)
    if j:
        kw["which_jn"] = j
    if c.get("prec"):
        kw["precision"] = c["prec"]
    if c.get("nmax"):
        kw["n_max"] = c["nmax"]
    return kw


def geometry(c):
    """keyword arguments describing the spheres for the multishell functions"""
    g = {}
    for src, dst in (("r", "r_layers"), ("eps", "eps_layers"), ("rc", "r_c"), ("rs", "r_s"), ("ec", "eps_c"), ("es", "eps_s")):
        if src in c:
            g[dst] = c[src]
    if "env" in c:
        g["eps_env"] = c["env"]
    return g


def run(c, want_grad=None):
    """c: python-side call; returns (function result dict)"""
    kw = solver(c)
    op = c["op"]
    if op == "coef" and c.get("internal"):
        kw["return_internal"] = True
    if op == "near" and "e0" in c:
        kw["E_0"] = c["e0"]
    pos = {"ang": ("theta",), "near": ("probe",)}.get(op, ())
    extra = [c[p] for p in pos]
    if c.get("api", "ms") == "cs":
        return CSM[op](c["k"], *extra, **geometry(c), **kw)
    if c.get("api", "ms") == "ms":
        return MS[op](c["k"], *extra, **geometry(c), **kw)
    return getattr(c["particle"], PT[op])(c["k"], *extra, **kw)


def describe(c):
    """JSON form of the arguments"""
    d = dict(op=c["op"], api=c.get("api", "ms"), nmax=c.get("nmax") or 0, backend=c.get("solver", "pena").partition("/")[0],
             k=arr(c["k"]), env=arr(c.get("env", 1.0)), acc=c.get("acc", "d"))
    for f in ("r", "eps", "rc", "rs", "ec", "es", "theta", "probe"):
        if f in c:
            d[f] = arr(c[f])
    if c.get("internal"):
        d["internal"] = 1
    if c["op"] == "near":
        z = complex(c.get("e0", 1))
        d["e0"] = num(z)
    for f in ("mats", "menv", "note"):
        if f in c:
            d[f] = c[f]
    return d


def record(c):
    d = describe(c)
    try:
        o = run(c)
        keys = KEYS[c["op"]] + (INTERNAL if c.get("internal") else ())
        obs = dict(ok=1, v={q: arr(o[q]) for q in keys if q in o})
        if c["op"] in ("ang", "near"):
            nm = c.get("nmax")
            if not nm:
                cc = {k: v for k, v in c.items() if k not in ("theta", "probe", "e0")}
                cc["op"] = "coef"
                nm = int(run(cc)["n_max"])
            obs["v_nmax"] = nm
    except MemoryError:
        raise
    except Exception as ex:
        obs = dict(ok=0, err=(type(ex).__name__ + ": " + str(ex))[:200])
    d["obs"] = obs
    return d
