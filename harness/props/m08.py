"""units and hosts: the results scale as the equations do"""
import mk
from space import Space, cover

F = dict(op=lambda s: s["a"]["op"], L=lambda s: s["a"]["L"], np=lambda s: s["a"]["np"], nk=lambda s: s["a"]["nk"], solver=lambda s: s["a"]["solver"],
         unit=lambda s: s["b"]["unit"], order=lambda s: s["a"]["order"], host=lambda s: (s["a"]["host"], s["b"]["host"]), step=lambda s: tuple(s["steps"]))


def run(ctx, keep=None, single=False):
    keep = keep or (lambda s: set(s["steps"]) & {"unit", "host"} and not set(s["steps"]) - {"unit", "host"})
    rng = ctx.rng
    sp = Space(ctx, call=False)
    space = sorted(ctx.model("OptSpace", "OptSpace2"), key=str) + sorted(ctx.model("OptSpace"), key=str)
    space = [s for s in space if keep(s)]
    n = ctx.size(150, 2500)
    # index matched layers scatter (almost) nothing: no scale to compare with
    big = ("huge",) if not single else ("huge", "large")
    pools = {L: sp.phys_for(L, 3 * n, lambda p: p["size"] not in big and "matched" not in p["mats"]) for L in (1, 2, 3)}
    cases = [mk.case(rng, s, pools[s["a"]["L"]]) for s in cover(rng, rng.sample(space, min(len(space), 12 * n)), n, F)]
    ctx.judge("TraceScatter", [c for c in cases if c])
