"""Search over seeds: workers, violation handling, minimisation, replay, evidence."""
import json
import mmap
import os
import pickle
import random
import select
import struct
import subprocess
import sys
import time
import traceback
import zlib

from . import boot, checks, core, gen
from .judge import Judge

WORKERS = 8


def crc(x):
    return zlib.crc32(json.dumps(x, sort_keys=True).encode())


def parts(prog):
    return prog["phases"] if "phases" in prog else [prog]


def results(res):
    return res["phases"] if "phases" in res else [res]


DIGESTS = False


def digest(prog, res):
    """Checksum of everything observable in a run: program, events, outcomes."""
    h = crc(prog)
    for r in results(res):
        if "died" in r:
            h = zlib.crc32(b"died", h)
            continue
        rows = [(x["task"], x["i"], x["inv"], x["ret"], x["out"], x.get("changed"), x.get("amb")) for x in r["hist"]]
        h = zlib.crc32(pickle.dumps((_plain(rows), r["trail"], r["log"], r["fired"], r["steps"], r["observed"], r["fatal"])), h)
    return h


def _plain(x):
    if isinstance(x, dict):
        return repr([(k, _plain(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return repr([_plain(e) for e in x])
    if hasattr(x, "tobytes"):
        return "%s%s%08x" % (x.dtype, x.shape, zlib.crc32(x.tobytes()))
    return repr(x)


class Stats:
    def __init__(self):
        self.c = {}
        self.sets = {}
        self.samples = []
        self.notes = []
        self.digests = [] if DIGESTS else None

    def add(self, k, n=1):
        self.c[k] = self.c.get(k, 0) + n

    def see(self, k, v):
        self.sets.setdefault(k, set()).add(v)

    def merge(self, o):
        for k, v in o.c.items():
            self.add(k, v)
        for k, v in o.sets.items():
            self.sets.setdefault(k, set()).update(v)
        self.samples += o.samples
        self.notes += o.notes
        if o.digests:
            self.digests = (self.digests or []) + o.digests

    def record(self, pid, i, prog, res):
        self.add("runs")
        if self.digests is not None:
            self.digests.append((i, digest(prog, res)))
        ok = res["phases"] if "phases" in res else [res]
        sw = fl = ops = 0
        trail = 0
        for p, r in zip(parts(prog), ok):
            if "died" in r:
                continue
            self.add("events", r["steps"])
            self.add("observations", r["observed"])
            sw += len(r["log"])
            trail = zlib.crc32(str((r["trail"], [(f["task"], f["op"], f["kind"], f["exc"], f.get("loc"), f["n"]) for f in r["fired"]],
                                    [(h["task"], h["i"]) for h in r["hist"]])).encode(), trail)
            for f in r["fired"]:
                fl += 1
                self.add("fault %s %s" % (f["kind"], f["exc"]))
                self.see("fault points", zlib.crc32(str((f["kind"], f.get("loc"), f["exc"], f["n"] if f["kind"] != "line" else 0)).encode()))
            for s in r["log"]:
                self.see("preemption points", zlib.crc32(s["loc"].encode()))
            for h in r["hist"]:
                t = p["tasks"] + [p.get("after", [])]
                self.add("op " + t[h["task"]][h["i"]]["op"])
                ops += 1
                self.add("errors" if "err" in h["out"] else "results")
            if len(p["tasks"]) > 1:
                self.add("concurrent runs")
        self.add("ops", ops)
        self.add("switches", sw)
        if len(ok) > 1:
            self.add("process restarts", len(ok) - 1)
        h = zlib.crc32(str(trail).encode(), crc(prog))
        self.see("executions", h)
        self.see("interleavings", trail)
        need = {"C04": sw, "C09": sw, "C03": fl, "C08": fl, "C14": fl + len(ok) - 1}.get(pid, ops >= 2)
        if need:
            self.see("nontrivial", h)
        if len(self.samples) < 2 and need and random.Random(h).random() < 0.05:
            self.samples.append({"run": i, "program": prog, "realised_switches": [s for r in ok for s in r.get("log", [])][:6],
                                 "fired": [f for r in ok for f in r.get("fired", [])]})


def run_one(pid, prog, oracle):
    for p in parts(prog):
        for k, v in checks.ALL[pid].flags.items():
            p[k] = v
    res = core.execute(prog)
    try:
        v = Judge(oracle).judge(prog, res)
    except (core.HarnessError, TimeoutError, MemoryError, OSError):
        raise
    except Exception as e:
        at = traceback.extract_tb(e.__traceback__)[-1]
        v = [{"op": None, "form": 1, "why": "result of a form the reference does not have (%s: %s at %s:%d)" % (
            type(e).__name__, e, os.path.basename(at.filename), at.lineno)}]
    return res, v


def worker(pid, seed, k, nw, limit, deadline, shared, out):
    """Runs blocks k, k+nw, ...; sends (stats, violations, error)."""
    chk = checks.ALL[pid]()
    st = Stats()
    viol = []
    err = None
    try:
        block = k
        while True:
            if block * chk.block >= limit or time.monotonic() > deadline:
                break
            if block * chk.block > struct.unpack("q", shared[:8])[0]:
                break
            oracle = core.Oracle()
            try:
                u = chk.universe(gen.rng("u", pid, seed, block), oracle)
            except (core.HarnessError, TimeoutError, MemoryError, OSError):
                raise
            except Exception:
                # without these runs; too many of them are an error (see main)
                st.add("runs not generated", chk.block)
                st.notes[:] = st.notes[:2] + [traceback.format_exc()]
                block += nw
                continue
            for j in range(chk.block):
                i = block * chk.block + j
                if i >= limit or time.monotonic() > deadline or i > struct.unpack("q", shared[:8])[0]:
                    break
                try:
                    prog = chk.make(gen.rng("p", pid, seed, i), gen.rng("s", pid, seed, i), oracle, u)
                except (core.HarnessError, TimeoutError, MemoryError, OSError):
                    raise
                except Exception:
                    st.add("runs not generated")
                    st.notes[:] = st.notes[:2] + [traceback.format_exc()]
                    continue
                # the run is identified by the JSON text of its program
                prog = json.loads(json.dumps(prog))
                res, v = run_one(pid, prog, oracle)
                st.record(pid, i, prog, res)
                if v:
                    viol.append((i, prog, v))
                    if i < struct.unpack("q", shared[:8])[0]:
                        shared[:8] = struct.pack("q", i)
                    break
            st.add("pristine evaluations", oracle.evals)
            if viol:
                break
            block += nw
        st.c["forks"] = core.FORKS["n"]
    except BaseException as e:
        err = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())
    data = pickle.dumps((st, viol, err))
    with os.fdopen(out, "wb") as f:
        f.write(data)


def search(pid, seed, limit, seconds, nw=WORKERS):
    """Returns (stats, violations sorted by run, errors)."""
    shared = mmap.mmap(-1, 8)
    shared[:8] = struct.pack("q", 1 << 60)
    deadline = time.monotonic() + seconds
    procs = []
    for k in range(nw):
        r, w = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            try:
                os.close(r)
                worker(pid, seed, k, nw, limit, deadline, shared, w)
            finally:
                os._exit(0)
        os.close(w)
        procs.append((pid_, r))
    total, viol, errs = Stats(), [], []
    bufs = {r: b"" for _, r in procs}
    openr = set(bufs)
    while openr:
        for r in select.select(list(openr), [], [])[0]:
            b = os.read(r, 1 << 20)
            if b:
                bufs[r] += b
            else:
                openr.discard(r)
                os.close(r)
    for p, r in procs:
        os.waitpid(p, 0)
        if not bufs[r]:
            errs.append("a worker died")
            continue
        st, v, e = pickle.loads(bufs[r])
        total.merge(st)
        viol += v
        if e:
            errs.append(e)
    viol.sort(key=lambda t: t[0])
    return total, viol, errs


# --------------------------------------------------------------- minimise
def _explicit(prog, res):
    """The same run with its realised switches written out."""
    out = json.loads(json.dumps(prog))
    for p, r in zip(parts(out), results(res)):
        plan = p.get("plan") or {}
        if "walk" in plan and "died" not in r:
            plan.pop("walk")
            plan["switches"] = [s for s in r["log"] if s["loc"] != "lock"]
        if "faults" in plan and "died" not in r:
            plan["faults"] = [f for f in r["fired"]]
    return out


def _compact(prog):
    """Remove placeholders and renumber."""
    out = json.loads(json.dumps(prog))
    for p in parts(out):
        maps = []
        for t, ops in enumerate(p["tasks"]):
            m, keep = {}, []
            for i, op in enumerate(ops):
                if op["op"] != "nop":
                    m[i] = len(keep)
                    keep.append(op)
            p["tasks"][t] = keep
            maps.append(m)
        plan = p.get("plan") or {}
        for key in ("switches", "faults"):
            if key in plan:
                v = []
                for e in plan[key]:
                    if e["op"] in maps[e["task"]]:
                        v.append(dict(e, op=maps[e["task"]][e["op"]]))
                plan[key] = v
    return out


def minimise(pid, prog, oracle, seconds=45.0):
    """Greedy reduction of operations, tasks, switches and faults."""
    end = time.monotonic() + seconds
    trials = 0
    form = None  # whether the violation is a malformed result; a reduced program has to fail the same way

    def bad(q):
        nonlocal trials
        if time.monotonic() > end:
            return False
        trials += 1
        try:
            v = run_one(pid, json.loads(json.dumps(q)), oracle)[1]
            return bool(v) and (form is None or form == any(x.get("form") for x in v))
        except Exception:
            return False

    try:
        res, v = run_one(pid, prog, oracle)
        form = any(x.get("form") for x in v)
        q = _explicit(prog, res)
        if bad(q):
            prog = q
    except Exception:
        pass

    def attempt(edit):
        nonlocal prog
        q = json.loads(json.dumps(prog))
        if edit(q) is False:
            return False
        if bad(q):
            prog = q
            return True
        return False

    for n in range(len(parts(prog))):
        def lists(p):
            plan = p.get("plan") or {}
            return [plan[k] for k in ("switches", "faults") if k in plan]

        # plan entries: chunks first
        for which in range(2):
            size = None
            while True:
                ls = lists(parts(prog)[n])
                if which >= len(ls) or not ls[which]:
                    break
                size = len(ls[which]) if size is None else size // 2
                if size < 1:
                    break
                a = 0
                while a < len(lists(parts(prog)[n])[which]):
                    def cut(q, a=a, size=size):
                        del lists(parts(q)[n])[which][a:a + size]
                    if not attempt(cut):
                        a += size
        # operations
        for t in range(len(parts(prog)[n]["tasks"])):
            cnt = len(parts(prog)[n]["tasks"][t])
            size = max(1, cnt // 2)
            while True:
                for a in range(max(0, ((cnt - 1) // size) * size), -1, -size):
                    def cut(q, a=a, size=size):
                        ops = parts(q)[n]["tasks"][t]
                        idx = [i for i in range(a, min(cnt, a + size)) if ops[i]["op"] != "nop"]
                        if not idx:
                            return False
                        for i in idx:
                            ops[i] = {"op": "nop"}
                    attempt(cut)
                if size == 1:
                    break
                size //= 2
        for i in reversed(range(len(parts(prog)[n].get("setup") or []))):
            def cut(q, i=i):
                del parts(q)[n]["setup"][i]
            attempt(cut)
        for i in reversed(range(len(parts(prog)[n].get("after") or []))):
            def cut(q, i=i):
                del parts(q)[n]["after"][i]
            attempt(cut)
    q = _compact(prog)
    if bad(q) or time.monotonic() > end:
        try:
            if run_one(pid, json.loads(json.dumps(q)), oracle)[1]:
                prog = q
        except Exception:
            pass
    return prog, trials


# ------------------------------------------------------------------ replay
def trail_of(res):
    return [r.get("trail") for r in results(res)]


def write_replay(pid, seed, run, prog, original, trials):
    oracle = core.Oracle()
    res, v = run_one(pid, prog, oracle)
    if not v:
        prog = original
        res, v = run_one(pid, prog, oracle)
    if not v:
        return None, None
    d = os.path.join(boot.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%d-run%d.json" % (pid, seed, run))
    what = [{k: x for k, x in e.items() if k in ("why", "op", "task", "i", "phase", "text", "at")} for e in v[:4]]
    with open(path, "w") as f:
        json.dump({
            "property": pid, "seed": seed, "run": run, "hashseed": os.environ.get("PYTHONHASHSEED"),
            "violation": what, "program": prog, "trail": trail_of(res),
            "realised_switches": [r.get("log") for r in results(res)],
            "fired_faults": [r.get("fired") for r in results(res)],
            "minimisation_trials": trials, "original_program": original,
        }, f, indent=1, default=str)
    return path, what


def replay(path):
    with open(path) as f:
        d = json.load(f)
    res, v = run_one(d["property"], d["program"], core.Oracle())
    if v and v[0]["why"] == d["violation"][0]["why"] and trail_of(res) == d["trail"]:
        print("reproduced exactly: %s" % v[0]["why"])
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    if v:
        print("a violation, but not the recorded one: %s" % v[0]["why"])
        return 1
    print("not reproduced on this tree")
    return 0


# ---------------------------------------------------------------- evidence
REAL = ["all of src/ptwt (unmodified, no hooks)", "PyTorch (CPU kernels, autograd, sparse, serialisation)", "PyWavelets", "NumPy", "SciPy"]
STUB = ["thread scheduling (real threads, one baton held by the simulator)", "lock constructors reached from ptwt (scheduler aware)",
        "standard error stream (records, fails on demand)", "checkpoint store (in memory, generations, torn writes)"]


def evidence(pid, tier, seed, st, wall, nviol, extra):
    c = st.c
    runs = c.get("runs", 0)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(st.sets.get("nontrivial", ())),
        "rule": RULES[pid],
        "samples": st.samples[:3],
        "runs_not_generated": c.get("runs not generated", 0),
        "runs_per_hour_each_of_its_own_seed": int(runs / max(wall, 1e-6) * 3600),
        "simulated_time": "%d scheduler events (source lines of ptwt and operation boundaries); ptwt has no clock or timer" % c.get("events", 0),
        "operations": {k[3:]: v for k, v in sorted(c.items()) if k.startswith("op ")},
        "operations_ended_with_result": c.get("results", 0),
        "operations_ended_with_error": c.get("errors", 0),
        "faults_injected": {k[6:]: v for k, v in sorted(c.items()) if k.startswith("fault ")},
        "distinct_fault_points": len(st.sets.get("fault points", ())),
        "process_restarts": c.get("process restarts", 0),
        "preemptions": c.get("switches", 0),
        "concurrent_runs": c.get("concurrent runs", 0),
        "distinct_preemption_points": len(st.sets.get("preemption points", ())),
        "distinct_interleavings": len(st.sets.get("interleavings", ())),
        "interleaving_measure": "checksum of the sequence of switches (task, operation, source line, occurrence), fired faults and completions",
        "distinct_executions": len(st.sets.get("executions", ())),
        "input_observations_inside_calls": c.get("observations", 0),
        "pristine_process_evaluations": c.get("pristine evaluations", 0),
        "processes_forked": c.get("forks", 0),
        "components_real": REAL,
        "components_stubbed": STUB,
    }
    cov.update(extra)
    d = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": [
            "the single call performed alone in a new process is the reference, except where an absolute oracle is stated in DESIGN.md",
            "preemption and interrupts occur at source line boundaries of ptwt; C code of PyTorch is atomic",
            "CPU only; one intra-op thread",
        ],
        "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    p = os.path.join(boot.VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1, default=str)
    os.replace(p + ".tmp", p)


_H = "Runs are histories drawn by a generator seeded with (VERIF_SEED, property, run index) over universes of adversarially related " \
     "specifications (neighbouring, transposed and equal-product sizes, both precisions, level None and too large, layouts, batches). "
RULES = {
    "C01": _H + "Non-trivial: at least two operations, different from all other runs.",
    "C02": _H + "Round trips through shared long-lived objects, functions and packet trees on 1-3 threads. Non-trivial: at least two trips.",
    "C03": _H + "1-3 faults at location-fair instants. Non-trivial: at least one fault fired.",
    "C04": _H + "2-3 threads share objects under targeted preemptions or a seeded random walk. Non-trivial: at least one realised preemption.",
    "C05": _H + "Calls, failed calls, operator reads and edits. Non-trivial: at least two operations.",
    "C06": _H + "Tree explorations. Non-trivial: at least two tree operations.",
    "C07": _H + "Explorations, leaf edits, reconstructions. Non-trivial: at least two tree operations.",
    "C08": _H + "Tree operations with 1-3 faults. Non-trivial: at least one fault fired.",
    "C09": _H + "2-3 reader threads on one tree. Non-trivial: at least one realised preemption.",
    "C10": _H + "Functional calls with mutable wavelets, tensors and scales on 1-3 threads. Non-trivial: at least two operations.",
    "C11": _H + "All argument kinds as live objects, observed at seeded instants inside calls. Non-trivial: at least two operations.",
    "C12": _H + "Settings changed before or, by another thread, inside calls. Non-trivial: at least two operations.",
    "C13": _H + "Forward and backward passes in mixed order and gradient modes. Non-trivial: at least two operations.",
    "C14": _H + "Training with crashes, torn checkpoints and restarts in the same or a new process. Non-trivial: at least one fault or restart.",
    "C15": _H + "Snapshots and forked workers at all points of a history. Non-trivial: at least two operations.",
    "C16": _H + "Results kept, overwritten and rechecked, inputs overwritten. Non-trivial: at least two operations.",
}


def self_test(seed):
    """Every kind of run executes, and twice the same."""
    global DIGESTS
    DIGESTS = True
    bad = 0
    for pid in sorted(checks.ALL):
        runs = []
        for nw in (1, 2):
            st, v, e = search(pid, seed, 4, 120.0, nw)
            runs.append(sorted(st.digests or []))
            bad += bool(e) or bool(st.notes)
        if runs[0] != runs[1] or not runs[0]:
            print("%s: two executions of the same seeds differ" % pid)
            bad += 1
    print("self test: %s" % ("failed" if bad else "ok"))
    return 2 if bad else 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=WORKERS)
    ap.add_argument("--trails", help="write a digest per run to this file")
    ap.add_argument("--self-test", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        boot.boot()
        return replay(a.replay)
    if a.self_test:
        boot.boot()
        return self_test(a.seed)
    global DIGESTS
    DIGESTS = bool(a.trails)
    pid = a.property
    t0 = time.monotonic()
    boot.boot()
    chk = checks.ALL[pid]
    limit, seconds = chk.thorough if a.tier == "thorough" else chk.quick
    limit = a.runs or limit
    seconds = a.seconds or seconds
    st, viol, errs = search(pid, a.seed, limit, seconds, a.workers)
    wall = time.monotonic() - t0
    status = 0
    extra = {}
    if viol:
        run, prog, v = viol[0]
        small, trials = minimise(pid, prog, core.Oracle())
        path, what = write_replay(pid, a.seed, run, small, prog, trials)
        if path is None:
            print("harness error: run %d violated the property once but not again: %s" % (run, v[0]["why"]))
            status = 2
        else:
            again = subprocess.run([sys.executable, os.path.join(boot.VERIF, "check.py"), "--replay", path],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print("run %d: %s" % (run, json.dumps(what[0], default=str)))
            print("replay in a new process: %s" % again.stdout.strip().splitlines()[0] if again.stdout else "replay printed nothing")
            extra["violation"] = what
            print("VIOLATION property=%s replay=%s" % (pid, path))
            status = 1
    elif not errs and 4 * st.c.get("runs not generated", 0) > st.c.get("runs", 0):
        print("harness error: %d runs could not be generated:\n%s" % (st.c.get("runs not generated", 0), "\n".join(st.notes[:2])))
        status = 2
    elif errs:
        print("harness error:\n" + "\n".join(errs[:3]))
        status = 2
    if a.trails:
        with open(a.trails, "w") as f:
            f.writelines("%d %08x\n" % d for d in sorted(st.digests or []))
    evidence(pid, "thorough" if a.tier == "thorough" else "quick", a.seed, st, wall, len(viol), extra)
    c = st.c
    print("%s %s seed=%d: %d runs, %d operations, %d preemptions, %d faults, %d distinct non-trivial, %.1f s" % (
        pid, a.tier, a.seed, c.get("runs", 0), c.get("ops", 0), c.get("switches", 0),
        sum(v for k, v in c.items() if k.startswith("fault ")), len(st.sets.get("nontrivial", ())), wall))
    return status
