"""recording sessions: materials and particles by definition, and the events observed on them"""
import math, os, tempfile
import torch
import pymiediff as pmd
from pymiediff import materials
import scatter as sc
from lib import arr, dy, num

SPEED = 2 * math.pi


def key(wl):
    """wavelengths are told apart in single precision"""
    return [dy(x) for x in torch.as_tensor(wl, dtype=torch.float64).reshape(-1).to(torch.float32).tolist()]


_dir = None


def folder():
    global _dir
    if _dir is None:
        import lib
        _dir = tempfile.mkdtemp(prefix="mats_", dir=lib.scratch())
    return _dir


def digits(rng, lo, hi, n=4):
    return f"{rng.uniform(lo, hi):.{n}f}"


def table_file(rng, rows=None, name=None, with_k=True, spread=None):
    """a refractiveindex.info file with tabulated data; returns (path, definition)"""
    rows = rows or rng.choice([2, 3, 5, 9, 25])
    lo, hi = spread or (0.25, 1.6)
    wl = sorted({f"{rng.uniform(lo, hi):.4f}" for _ in range(rows)}, key=float)
    while len(wl) < 2:
        wl = [wl[0], f"{float(wl[0]) + .01:.4f}"]
    n = [digits(rng, .2, 4) for _ in wl]
    k = [digits(rng, 0, 5) if with_k else "0" for _ in wl]
    lines = "\n".join(f"        {a} {b}{' ' + c if with_k else ''}" for a, b, c in zip(wl, n, k))
    text = f"REFERENCES: \"none\"\nDATA:\n  - type: tabulated {'nk' if with_k else 'n'}\n    data: |\n{lines}\n"
    path = os.path.join(folder(), (name or f"t{rng.randrange(10 ** 9)}") + ".yml")
    open(path, "w").write(text)
    return path, dict(kind="table", wl=arr([1000 * float(x) for x in wl]), n=arr([float(x) for x in n]), k=arr([float(x) for x in k]))


def sellmeier_file(rng, name=None):
    c = [digits(rng, 0, .4)]
    for _ in range(rng.randint(1, 3)):
        c += [digits(rng, .1, 2.5), digits(rng, .01, .17)]
    lo, hi = "0.22", "2.5"
    text = f"REFERENCES: \"none\"\nDATA:\n  - type: formula 1\n    wavelength_range: {lo} {hi}\n    coefficients: {' '.join(c)}\n"
    path = os.path.join(folder(), (name or f"s{rng.randrange(10 ** 9)}") + ".yml")
    open(path, "w").write(text)
    return path, dict(kind="sell", coef=arr([float(x) for x in c]))


def evaluate(m, idx, mat, wl, form="plain", what=None):
    """event: material idx evaluated at wl (number or tensor); returns (event, result)"""
    t = torch.as_tensor(wl, dtype=torch.float64) if not isinstance(wl, torch.Tensor) else wl
    e = dict(op="mat", m=idx, wl=arr(t.detach().double()), keys=key(t.detach()))
    try:
        r = mat.get_epsilon(wl)
        e.update(ok=1, obs=arr(r))
        return e, r
    except Exception as ex:
        e.update(ok=0, err=(type(ex).__name__ + ": " + str(ex))[:200])
        return e, None


def equal(what, a, b, lg=99):
    a, b = [x if isinstance(x, dict) else arr(x) for x in (a, b)]
    return dict(op="equal", what=what, a=a, b=b, lg=lg)


def ok(f, *a, **kw):
    try:
        return dict(op="ok", ok=1), f(*a, **kw)
    except Exception as ex:
        return dict(op="ok", ok=0, err=(type(ex).__name__ + ": " + str(ex))[:200]), None


def refuse(what, f):
    try:
        f()
        return dict(op="refuse", what=what, ok=1)
    except Exception:
        return dict(op="refuse", what=what, ok=0)


def particle_call(pidx, part, c):
    """event: the particle asked for what request c says (op, k, solver, ...)"""
    c = dict(c, api="pt", particle=part, acc="m")
    e = sc.record(c)
    e["kind"], e["op"], e["p"] = e["op"], "call", pidx
    e["keys"] = key(2 * math.pi / c["k"])
    return e
