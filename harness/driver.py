"""Runs the check of one property: python driver.py <id>."""
import importlib, json, os, random, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib


class Ctx:
    """What one run of a check accumulates."""
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(f"{self.seed}:{pid}")
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.models = {}          # exhaustively explored models: name -> distinct states
        self.samples = []
        self.violations = []      # (text, case)
        self.known = {k: w for p, k, w in lib.known_findings() if p == pid}
        self.assumptions = []

    def size(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- TLC runs -------------------------------------------------------
    def model(self, spec, cfg=None, env=None, **kw):
        """explore a specification exhaustively; its invariants must hold; returns the exported lines"""
        r = lib.tlc(spec, cfg, env=env, **kw)
        if r["rc"] != 0 or not r["states"]:
            raise lib.MachineryError(f"model {spec}: {lib.errors(r['out'])}")
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.models[cfg or spec] = r["states"]
        return r["lines"]

    def judge(self, spec, cases, env=None, fmt=None, key="calls", **kw):
        """check recorded cases against a trace specification"""
        import tempfile
        cases = [c for c in cases if c[key]]
        if not cases:
            return []
        path = os.path.join(lib.scratch(), f"trace_{len(self.models)}_{self.traces}.json")
        clean = lib.strip(cases)
        with open(path, "w") as f:
            json.dump(clean, f)
        want = sum(len(c[key]) + 1 for c in clean)
        r = lib.tlc(spec, env={"TRACE": path, **(env or {})}, timeout=kw.pop("timeout", 3000 if self.thorough else 650),
                    enough=4, **kw)
        os.unlink(path)
        if not r["stopped"] and (r["rc"] != 0 or r["states"] != want):
            keep = os.path.join(lib.BUILD, f"broken_{self.pid}.json")
            json.dump(clean, open(keep, "w"))
            raise lib.MachineryError(f"judge {spec}: rc={r['rc']} states={r['states']} expected={want} ({keep})\n{lib.errors(r['out'])}")
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.traces += len(cases)
        self.events += sum(len(c[key]) for c in cases)
        for c in self.rng.sample(cases, min(2, len(cases))):
            if len(self.samples) < 6:
                self.samples.append(c.get("note") or lib.brief(c))
        bad = {}
        for x in r["lines"]:
            bad.setdefault(x["case"], []).append(x)
        for i in sorted(bad):
            self.violation(cases[i - 1], bad[i], spec)
        return bad

    def violation(self, case, verdicts, spec):
        k = case.get("key")
        if k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {self.known[k]}")
            return
        self.violations.append(dict(case=case, verdicts=verdicts, spec=spec))

    def pmap(self, fn, items):
        """fn of every item, in worker processes (the library is called there)"""
        import multiprocessing as mp
        from concurrent.futures import ProcessPoolExecutor
        # (an executor, unlike a Pool, reports a worker that was ended)
        with ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp.get_context("fork")) as pool:
            return [f.result() for f in [pool.submit(fn, *item) for item in items]]

    def fail(self, what, case=None):
        self.violation(case or {}, [what], "harness")

    # -- result ---------------------------------------------------------
    def finish(self, level):
        replay = None
        if self.violations:
            d = os.path.join(lib.BUILD, "replay")
            os.makedirs(d, exist_ok=True)
            replay = os.path.join(d, f"{self.pid}.json")
            json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, violations=self.violations[:20]), open(replay, "w"), default=str)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                events_validated=self.events, models=self.models, samples=self.samples or ["none"]),
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(lib.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(lib.VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for v in self.violations[:8]:
            print(json.dumps(dict(note=v["case"].get("note"), verdicts=v["verdicts"]), default=str)[:1500])
        if self.violations:
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        print(f"ok {self.pid}: {self.traces} traces, {self.events} events, {self.states} states, {ev['wall_s']} s")
        return 0


def main():
    pid = sys.argv[1]
    try:
        import torch
        torch.set_num_threads(1)
        torch.manual_seed(0)
        mod = importlib.import_module("props." + pid.lower())
        ctx = Ctx(pid)
        mod.run(ctx)
        code = ctx.finish(getattr(mod, "LEVEL", "model_checking"))
    except Exception:
        traceback.print_exc(limit=-3)
        print(f"check {pid}: machinery error")
        code = 2
    sys.stdout.flush()
    sys.exit(code)


main()
