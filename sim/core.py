"""Isolation, oracle and comparison.

Every execution of the code under test happens in its own forked process, so
that nothing one run leaves behind can reach another.  The expected outcome of
an operation is what a process that did nothing else returns for it.
"""
import json
import os
import pickle
import select
import signal
import sys
import time

import numpy as np



class HarnessError(Exception):
    """The simulator itself failed: neither pass nor violation."""


FORKS = {"n": 0}


def fork_call(fn, arg, timeout=120.0):
    """fn(arg) in a forked process; returns its result."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    FORKS["n"] += 1
    if pid == 0:
        code = 1
        try:
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 2)
            os.dup2(dn, 1)
            out = fn(arg)
            data = pickle.dumps(out, protocol=5)
            code = 0
        except BaseException as e:
            import traceback
            data = pickle.dumps({"harness": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())})
        try:
            mv = memoryview(data)
            while mv:
                n = os.write(w, mv)
                mv = mv[n:]
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + timeout
    ok = True
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                ok = False
                os.kill(pid, signal.SIGKILL)
                break
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
        _, st = os.waitpid(pid, 0)
    if not ok:
        raise TimeoutError("simulated run used more than %.0f s of real time" % timeout)
    data = b"".join(chunks)
    if not data:
        return {"died": st}
    out = pickle.loads(data)
    if isinstance(out, dict) and "harness" in out:
        raise HarnessError(out["harness"])
    return out


def execute(prog, timeout=45.0):
    """Run a program in its own process.

    If that takes too long in real time, the run is repeated with every source
    line traced, so that the step budget and not the clock decides.
    """
    from . import world
    if "phases" in prog:
        return execute_phases(prog, timeout)
    try:
        r = fork_call(world.run_program, prog, timeout)
    except TimeoutError:
        return fork_call(world.run_program, dict(prog, trace=1), timeout * 6)
    for wait in (1.0, 5.0):
        if r.get("died") != signal.SIGKILL:
            break
        # somebody else ended the process (memory of the machine): not its doing
        time.sleep(wait)
        r = fork_call(world.run_program, prog, timeout)
    if r.get("died") == signal.SIGKILL:
        raise HarnessError("simulated processes are killed from outside")
    if "died" in r and coarse(prog) is not None:
        # the profiling hook of the interpreter is not to be blamed on the package
        return fork_call(world.run_program, coarse(prog), timeout)
    return r


def coarse(prog):
    """The program without instants inside of lines, if it has any."""
    plan = prog.get("plan") or {}
    w = plan.get("walk")
    s = plan.get("switches", ())
    if not (w and w.get("fine")) and not any("@" in x["loc"] for x in s):
        return None
    plan = dict(plan, switches=[dict(x, loc=x["loc"].split("@")[0]) for x in s])
    if w:
        plan["walk"] = {k: v for k, v in w.items() if k != "fine"}
    return dict(prog, plan=plan)


def execute_phases(prog, timeout):
    """Programs executed one after another in separate processes; files survive."""
    files = {}
    out = []
    for p in prog["phases"]:
        r = execute(dict(p, files=files), timeout)
        out.append(r)
        if "died" in r:
            break
        files = r["files"]
    return {"phases": out}


class Oracle:
    """Outcomes of operations in processes that did nothing else (cached)."""

    def __init__(self):
        self.cache = {}
        self.profiles = {}
        self.evals = 0

    def get(self, ops):
        """ops: derivation, the last one is judged -> {"out", "fatal", "all"}."""
        key = json.dumps(ops, sort_keys=True)
        v = self.cache.get(key)
        if v is None:
            v = self.cache[key] = self._run(ops, False)
        return v

    def profile(self, ops):
        """Source lines, tensor operations and diagnostics writes of the last operation."""
        key = json.dumps(ops, sort_keys=True)
        v = self.profiles.get(key)
        if v is None:
            v = self._run(ops, True)
            self.cache.setdefault(key, v)
            v = self.profiles[key] = v["profile"]
        return v

    def _run(self, ops, profile):
        prog = {"setup": [], "tasks": [ops], "profile": profile}
        r = execute(prog)
        self.evals += 1
        none = {"loc": {}, "aten": 0, "err": 0}
        if "died" in r:
            return {"out": {"err": "ProcessDied"}, "profile": none, "fatal": "died"}
        if r["fatal"] is not None:
            return {"out": {"err": "Hang"}, "profile": none, "fatal": r["fatal"]}
        return {"out": r["hist"][-1]["out"], "text": r["hist"][-1]["text"],
                "profile": r["profile"][(0, len(ops) - 1)] if profile else None, "fatal": None,
                "all": [h["out"] for h in r["hist"]]}


# -------------------------------------------------------------- comparison
TOL = {"float64": (1e-9, 1e-11), "complex128": (1e-9, 1e-11),
       "float32": (3e-4, 1e-5), "complex64": (3e-4, 1e-5)}


def close(a, b, factor=1.0):
    """Same shape, dtype and (up to rounding) values; returns a reason or None."""
    if a.shape != b.shape:
        return "shape %s instead of %s" % (a.shape, b.shape)
    if a.dtype != b.dtype:
        return "dtype %s instead of %s" % (a.dtype, b.dtype)
    if a.size == 0:
        return None
    if a.dtype.kind not in "fc":
        return None if np.array_equal(a, b) else "differs"
    rt, at = TOL[str(a.dtype)]
    with np.errstate(all="ignore"):
        na, nb = ~np.isfinite(a), ~np.isfinite(b)
        if na.any() or nb.any():
            if not np.array_equal(na, nb):
                return "non-finite values differ"
            a = np.where(na, 0, a)
            b = np.where(nb, 0, b)
        scale = float(np.abs(b).max())
        d = float(np.abs(a - b).max())
        if d > factor * (rt * scale + at):
            return "differs by %.3g (scale %.3g)" % (d, scale)
    return None


def same(a, b, path="", factor=1.0):
    """Compare normal forms; None or a reason."""
    ka, kb = next(iter(a)), next(iter(b))
    if ka != kb:
        return "%s: kind %s instead of %s" % (path or "result", _k(a), _k(b))
    va, vb = a[ka], b[kb]
    if ka in ("T", "N"):
        r = close(va, vb, factor)
        return None if r is None else "%s %s" % (path or "result", r)
    if ka == "v":
        if isinstance(va, float) and isinstance(vb, float):
            if va == vb or abs(va - vb) <= 1e-9 * max(1.0, abs(vb)) or (va != va and vb != vb):
                return None
        elif va == vb:
            return None
        return "%s is %r instead of %r" % (path or "result", va, vb)
    if ka == "D":
        if sorted(va) != sorted(vb):
            return "%s keys %s instead of %s" % (path or "result", sorted(va), sorted(vb))
        for k in vb:
            r = same(va[k], vb[k], path + "." + str(k), factor)
            if r:
                return r
        return None
    if len(va) != len(vb):
        return "%s has %d entries instead of %d" % (path or "result", len(va), len(vb))
    for i, (x, y) in enumerate(zip(va, vb)):
        r = same(x, y, "%s[%d]" % (path, i), factor)
        if r:
            return r
    return None


def _k(a):
    k = next(iter(a))
    return {"T": "tensor", "D": "dict", "L": "list", "P": "tuple", "W": "detail tuple", "N": "array"}.get(k, k)


def same_outcome(got, want, factor=1.0):
    """Compare outcomes {"ok": ...} or {"err": class}."""
    if "err" in want:
        if "err" not in got:
            return "returned a result instead of raising %s" % want["err"]
        if got["err"] != want["err"]:
            return "raised %s instead of %s" % (got["err"], want["err"])
        return None
    if "err" in got:
        return "raised %s" % got["err"]
    w = want["ok"]
    if isinstance(w, dict) and "outcomes" in w:
        g = got["ok"].get("outcomes") if isinstance(got["ok"], dict) else None
        if g is None:
            return "forked process died"
        for i, (x, y) in enumerate(zip(g, w["outcomes"])):
            r = same_outcome(x, y, factor)
            if r:
                return "forked op %d %s" % (i, r)
        return None
    return same(got["ok"], w, "", factor)


def tensors(n):
    """All arrays of a normal form in order."""
    k = next(iter(n))
    v = n[k]
    if k in ("T", "N"):
        return [v]
    if k == "D":
        return [t for kk in sorted(v) for t in tensors(v[kk])]
    if k in ("L", "P", "W"):
        return [t for e in v for t in tensors(e)]
    return []


def struct(n):
    """Shape structure (world.make_coefs format) of normalised coefficients."""
    k = next(iter(n))
    out = []
    for e in n[k]:
        kk = next(iter(e))
        if kk == "T":
            out.append(list(e["T"].shape))
        elif kk == "D":
            out.append({"d": {q: list(t["T"].shape) for q, t in e["D"].items()}})
        else:
            out.append({"t3": [list(t["T"].shape) for t in e[kk]]})
    return out
