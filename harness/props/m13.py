"""the lookup table of a material is transparent"""
import torch
from pymiediff import materials
import sessions as se
from lib import arr
from space import cover

F = dict(a=lambda s: (s["world"], str(s["prep"])), b=lambda s: tuple(h["do"] + h.get("form", "") for h in s["hist"]),
         c=lambda s: tuple((h.get("m"), tuple(h.get("ws", ()))) for h in s["hist"]))


def wavelengths(rng):
    """three wavelengths, the last two close together (distinct in single precision)"""
    a, b = rng.uniform(260, 1500), rng.uniform(260, 1500)
    d = rng.choice([5e-4, 2e-3, .02, .3, .5, 1.1])
    return [round(x) if rng.random() < .3 else x for x in (a, b)] + [0], d


def history(rng, s):
    (w, d) = wavelengths(rng)
    w[2] = w[1] + d
    mk = (lambda: se.table_file(rng, rows=rng.choice([5, 25, 60]))) if rng.random() < .6 else (lambda: se.sellmeier_file(rng))
    f1 = mk()
    f2 = f1 if s["world"] == "twin" else rng.choice([se.table_file, se.sellmeier_file])(rng)
    files = [f1, f2]
    events, mats = [], []
    for m in (0, 1):
        ws = [w[i - 1] for i in s["prep"][m]]
        kw = dict(init_lookup_wavelengths=rng.choice([torch.tensor(ws, dtype=torch.float32), ws, torch.tensor(ws, dtype=torch.float64)])) if ws else {}
        ev, mat = se.ok(materials.MatDatabase, "m", yaml_file=files[m][0], **kw)
        if mat is None:
            return dict(calls=[ev], mats=[x[1] for x in files], note=dict(s, w=w))
        mats.append(mat)
    last = None
    for h in s["hist"] + [dict(do="eval", m=m, form="batch", ws=[3, 2, 1]) for m in (1, 2)]:
        if h["do"] == "spoil":
            with torch.no_grad():
                if last is not None and not last.requires_grad:
                    last.mul_(-3).add_(7)
            continue
        m, ws = h["m"], [w[i - 1] for i in h["ws"]]
        if h["form"] == "float":
            x = ws[0]
        elif h["form"] == "grad":
            x = torch.tensor(ws if len(ws) > 1 else ws[0], dtype=torch.float64, requires_grad=True)
        else:
            dt = rng.choice([torch.float32, torch.float64])
            x = torch.tensor(ws, dtype=dt)
            if h["form"] == "tensor":
                x = rng.choice([x, x[0], x.reshape(1, 1)])
        e, last = se.evaluate(None, m, mats[m - 1], x)
        events.append(e)
        if h["form"] == "grad" and last is not None:
            # the gradient is that of a fresh material
            fresh = materials.MatDatabase("m", yaml_file=files[m - 1][0])
            ev, g = se.ok(lambda: torch.autograd.grad(last.real.sum(), x, retain_graph=True)[0])
            events.append(ev)
            y = x.detach().clone().requires_grad_(True)
            ev, g0 = se.ok(lambda: torch.autograd.grad(fresh.get_epsilon(y).real.sum(), y)[0])
            events.append(ev)
            if g is not None and g0 is not None:
                events.append(se.equal("gradient of the permittivity", g0, g, 5))
        elif last is not None and rng.random() < .15 and h["form"] != "grad":
            # evaluated without gradients first: a later evaluation with gradients still has one
            y = torch.tensor(ws, dtype=torch.float64, requires_grad=True)
            ev, g = se.ok(lambda: torch.autograd.grad(mats[m - 1].get_epsilon(y).real.sum(), y)[0])
            events.append(ev)
            if g is not None:
                fresh = materials.MatDatabase("m", yaml_file=files[m - 1][0])
                g0 = torch.autograd.grad(fresh.get_epsilon(y).real.sum(), y)[0]
                events.append(se.equal("gradient of the permittivity", g0, g, 5))
    return dict(calls=events, mats=[x[1] for x in files], note=dict(s, w=w))


def run(ctx):
    rng = ctx.rng
    space = sorted(ctx.model("MatCache"), key=str)
    n = ctx.size(700, 8000)
    ctx.judge("TraceSession", [history(rng, s) for s in cover(rng, rng.sample(space, min(len(space), 6 * n)), n, F)])
