"""Shared harness: exact encoding of observations, TLC runs, verdicts, evidence."""
import threading
import json, math, os, random, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
CP = ":".join([os.path.join(BUILD, "cls"), "/opt/veriftools/tla/tla2tools.jar",
               "/opt/veriftools/tla/CommunityModules-deps.jar"])


def dy(x):
    """exact dyadic of a double"""
    x = float(x)
    if x != x:
        return [9, 0, 0, 0]
    if x in (math.inf, -math.inf):
        return [8 if x > 0 else -8, 0, 0, 0]
    if x == 0:
        return [0, 0, 0, 0]
    m, e = math.frexp(abs(x))
    m = int(m * 2 ** 53)
    return [1 if x > 0 else -1, m >> 27, m & ((1 << 27) - 1), e - 53]


def num(z):
    return dy(z.real) + dy(z.imag) if isinstance(z, complex) else dy(z)


def arr(t):
    """array (torch / numpy / nested list / scalar) -> recorded array"""
    import torch, numpy as np
    if isinstance(t, torch.Tensor):
        t = t.detach().resolve_conj().resolve_neg().cpu().numpy()
    a = np.asarray(t)
    if a.dtype == object:
        raise TypeError("object array")
    c = np.iscomplexobj(a)
    flat = a.reshape(-1)
    d = [dy(z.real) + dy(z.imag) for z in flat] if c else [dy(z) for z in flat]
    return dict(sh=list(a.shape), c=int(c), d=d)


class MachineryError(Exception):
    pass


def tlc(spec, cfg=None, env=None, workers=8, timeout=800, enough=0, args=(), xss="512m", heap="20g", jvm=()):
    meta = tempfile.mkdtemp(prefix="tlc_", dir=scratch())
    cmd = ["java", "-Xss" + xss, "-Xmx" + heap, "-XX:+UseParallelGC", *jvm, "-cp", CP, "-DTLA-Library=" + SPEC + ":" + os.path.join(BUILD, "pure"),
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, (cfg or spec) + ".cfg"), *args, os.path.join(SPEC, spec + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    # the lines are read as they come: after `enough` reported failures the rest is not awaited
    lines, out, stopped = [], [], False
    p = subprocess.Popen(cmd, env=e, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    timer = threading.Timer(timeout, p.kill)
    timer.start()
    try:
        for x in p.stdout:
            if x.startswith('"@@'):
                lines.append(parse_line(x))
                if enough and len(lines) >= enough:
                    stopped = True
                    p.kill()
            else:
                out.append(x)
        p.wait()
    finally:
        timer.cancel()
        p.kill()
        shutil.rmtree(meta, ignore_errors=True)
    if p.returncode == -9 and not stopped:
        out.append("Error: TLC ended (time or memory)\n")
        stopped = bool(enough and lines)
    out = "".join(out)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return dict(rc=p.returncode, out=out, states=int(m.group(2)) if m else 0, transitions=int(m.group(1)) if m else 0,
                lines=lines, stopped=stopped)


def parse_line(x):
    return json.loads(json.loads(x)[2:])


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif_")
        import atexit
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def known_findings():
    """lines `finding: property=<id> key=<case key> <what fails>` of the known-findings file"""
    out = []
    for ln in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln)
        if m:
            out.append(m.groups())
    return out


def strip(x):
    """drop what the trace specifications do not read"""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k not in ("note", "key") and not k.startswith("_")}
    if isinstance(x, (list, tuple)):
        return [strip(v) for v in x]
    return x


def brief(c):
    s = json.dumps(c, default=str)
    return s if len(s) < 600 else s[:600] + "..."


def errors(out):
    """the error part of TLC's output, briefly"""
    i = out.find("Error")
    lines = [x for x in out[max(i, 0):].splitlines() if not x.startswith('"@@')]
    return "\n".join([x[:300] for x in lines[:14]])
