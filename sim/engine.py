"""The simulator: one process, one baton, every switch and fault decided by a plan.

A *program* (see world.py) has a set-up part and one or more client tasks.
Each task is a real thread, but only the holder of the baton runs.  The baton
can change hands at

* every source line executed inside the package under test (sys.settrace),
* in fine plans also inside such a line, whenever a function it called returns
  (sys.setprofile; there the interpreter looks for requests of other threads),
* every boundary between two operations of a task,
* every wait for a lock created by the package under test, and
* the end of a task,

and it changes hands only where the plan (or the plan's seeded generator) says
so.  Faults are injected at the same points (asynchronous interrupts), at the
n-th tensor operation of an operation (allocation failure, through
torch.utils._python_dispatch) and at writes to the diagnostic stream.

A location is "file:line" or "file:line@offset" and an instant is (task, op index, location,
occurrence), so a plan stays meaningful when other operations are removed.
"""
import dis
import random
import sys
import threading
import time
import zlib

from . import boot

ACTIVE = None  # the running Scheduler, if any

STEP_BUDGET = 2_000_000
OBSERVATIONS = 150  # inside the calls of one run


def untrace():
    sys.settrace(None)
    sys.setprofile(None)


class StepBudget(BaseException):
    """The bounded-liveness limit: far more steps than any finished run needs."""


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedMemoryError(MemoryError):
    pass


_CALLS = {}
_STARTS = {}


def start_of(code, lasti):
    """Offset of the instruction a position belongs to (it may be in its inline cache)."""
    m = _STARTS.get(id(code))
    if m is None:
        m, cur = [], 0
        at = {ins.offset for ins in dis.get_instructions(code)}
        for i in range(0, len(code.co_code), 2):
            if i in at:
                cur = i
            m.append(cur)
        m.append(code)  # lives on, so that its id stays its own
        _STARTS[id(code)] = m
    return m[lasti // 2]


def calls(code):
    """{offset: line} of the instructions that call, or may call, a function."""
    v = _CALLS.get(code)
    if v is None:
        v = {}
        line = code.co_firstlineno
        for ins in dis.get_instructions(code):
            if ins.starts_line is not None:
                line = ins.starts_line
            if ins.opname.startswith("CALL"):
                v[ins.offset] = line
        _CALLS[code] = v
    return v


class SimStream:
    """Stand-in for sys.stderr: records, and fails when the plan says so."""

    def __init__(self):
        self.text = 0
        self.writes = 0
        self.hook = None

    def write(self, s):
        self.writes += 1
        h = self.hook
        if h is not None:
            h()
        self.text += len(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    encoding = "utf-8"


class Task:
    def __init__(self, tid, body):
        self.tid = tid
        self.body = body
        self.sem = boot.REAL_LOCK()
        self.sem.acquire()
        self.done = False
        self.blocked = None
        self.op = -1
        self.occ = {}
        self.aten = 0
        self.thread = None


class Scheduler:
    """Runs tasks under a plan.

    plan keys:
      order     task ids, first runs first
      switches  [{task, op, loc, n, to}]
      walk      {seed, p}: seeded random switching instead of a list
      observe   {seed, p}: seeded instants at which the observer looks at the inputs
      faults    [{task, op, kind, exc, loc, n}]; kind line|aten|stderr
    """

    def __init__(self, plan, stderr):
        self.plan = plan
        self.stderr = stderr
        self.tasks = []
        self.current = None
        self.seq = 0
        self.log = []  # realised switches
        self.fired = []  # realised faults
        self.steps = 0
        self.prefix = boot.REPO_SRC
        self.plen = len(boot.REPO_SRC) + len("/ptwt/")
        self.switches = {}
        for s in plan.get("switches", ()):
            self.switches[(s["task"], s["op"], s["loc"], s["n"])] = s["to"]
        self.line_faults = {}
        self.aten_faults = {}
        self.err_faults = {}
        for f in plan.get("faults", ()):
            k = (f["task"], f["op"])
            if f["kind"] == "line":
                self.line_faults.setdefault(k, {})[(f["loc"], f["n"])] = f
            elif f["kind"] == "aten":
                self.aten_faults.setdefault(k, {})[f["n"]] = f
            else:
                self.err_faults.setdefault(k, {})[f["n"]] = f
        w = plan.get("walk")
        self.walk = random.Random(w["seed"]) if w else None
        self.walk_p = w["p"] if w else 0.0
        self.main = boot.REAL_LOCK()
        self.main.acquire()
        self.observer = None  # called at realised preemptions
        self.profile = None  # {(task, op): {"loc": {..}, "aten": n, "err": n}}
        self.trail = 0  # running hash of the event sequence
        self.fatal = None
        self.ident = threading.get_ident()
        self.real_wait = 0
        # operations to trace: all of them, or those the plan names an instant of
        self.trace_all = bool(plan.get("walk") or plan.get("observe") or plan.get("trace"))
        self.trace_ops = {(x["task"], x["op"]) for x in plan.get("switches", ())}
        self.trace_ops |= set(self.line_faults)
        self.fine = bool(w and w.get("fine")) or any("@" in x["loc"] for x in plan.get("switches", ()))
        self.points = 0
        self._err_n = 0
        o = plan.get("observe")
        self.obs = random.Random(o["seed"]) if o else None
        self.obs_p = o["p"] if o else 0.0
        self.observed = 0

    # ------------------------------------------------------------ tracing
    def _global_trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(self.prefix):
            return self._make_local(fn[self.plen:])
        return None

    def _profile(self, frame, event, arg):
        """Return to a line of the package under test from a function it called."""
        if event == "return":
            frame = frame.f_back
            if frame is None:
                return
        elif event != "c_return":
            return
        fn = frame.f_code.co_filename
        if fn.startswith(self.prefix):
            self.point("%s:%d@%d" % (fn[self.plen:], frame.f_lineno, start_of(frame.f_code, frame.f_lasti)))

    def _make_local(self, rel):
        def local(frame, event, arg):
            if event == "line":
                self.point(rel + ":" + str(frame.f_lineno))
            return local
        return local

    def point(self, loc):
        """A schedule and fault point in the running task."""
        t = self.tasks[self.current]
        if t.op < 0:
            return
        occ = t.occ
        n = occ.get(loc, 0) + 1
        occ[loc] = n
        self.points += 1
        if "@" not in loc:
            self.steps += 1
        if self.steps > STEP_BUDGET:
            raise StepBudget("more than %d steps" % STEP_BUDGET)
        if self.profile is not None:
            return
        if self.obs is not None and self.obs.random() < self.obs_p:
            self._observe()
        f = self.line_faults.get((t.tid, t.op))
        if f:
            f = f.get((loc, n))
            if f:
                self._fire(f)
        to = self.switches.get((t.tid, t.op, loc, n)) if self.switches else None
        if to is None and self.walk is not None and self.walk.random() < self.walk_p:
            c = [x.tid for x in self.tasks if not x.done and x.tid != t.tid and x.blocked is None]
            if c:
                to = self.walk.choice(c)
        if to is not None and to < len(self.tasks):
            u = self.tasks[to]
            if u is not t and not u.done and u.blocked is None:
                self._switch(t, u, loc, n)

    def _observe(self):
        if self.observed < OBSERVATIONS:
            self.observed += 1
            self.observer()

    def _fire(self, f):
        self.fired.append(dict(f))
        e = f["exc"]
        if e == "KeyboardInterrupt":
            raise InjectedInterrupt("injected")
        if e == "MemoryError":
            raise InjectedMemoryError("injected")
        if e == "OOM":
            import torch
            raise torch.OutOfMemoryError("injected: allocation failed")
        if e == "ENOSPC":
            raise OSError(28, "No space left on device")
        if e == "EPIPE":
            raise BrokenPipeError(32, "Broken pipe")
        raise AssertionError(e)

    def _switch(self, a, b, loc, n):
        self.log.append({"task": a.tid, "op": a.op, "loc": loc, "n": n, "to": b.tid})
        self.trail = zlib.crc32(("%d.%d.%s.%d.%d" % (a.tid, a.op, loc, n, b.tid)).encode(), self.trail)
        if self.observer is not None:
            self._observe()
        self.current = b.tid
        b.sem.release()
        a.sem.acquire()
        if self.fatal is not None:
            raise self.fatal

    # ---------------------------------------------------------------- locks
    def mine(self, ident):
        """Whether a thread is the one that runs the current task."""
        if self.current is None:
            return False
        t = self.tasks[self.current].thread
        return (t.ident if t is not None else self.ident) == ident

    def foreign(self):
        """Whether there are threads that are not simulated (for a limited time)."""
        own = [x.thread for x in self.tasks]
        self.real_wait += 1
        return self.real_wait < 50000 and any(
            x.ident != self.ident and not any(x is y for y in own) for x in threading.enumerate())

    def wait_lock(self, lock, timeout):
        t = self.tasks[self.current]
        t.blocked = lock
        c = [x for x in self.tasks if not x.done and x is not t
             and (x.blocked is None or not x.blocked.locked())]
        if not c:
            t.blocked = None
            if timeout is not None and timeout >= 0:
                return False  # simulated time passes
            if self.foreign():
                # only threads that are not simulated can release it
                time.sleep(0.0005)
                return True
            self.fatal = boot.SimDeadlock("all tasks wait for locks")
            raise self.fatal
        u = c[0]
        u.blocked = None
        self._switch(t, u, "lock", len(self.log))
        t.blocked = None
        return True

    # ------------------------------------------------------------ operations
    def begin(self, i):
        t = self.tasks[self.current]
        t.op = i
        t.occ = {}
        t.aten = 0
        self._err_n = 0
        self.seq += 1
        s = self.seq
        self.point("op")
        return s

    def end(self):
        t = self.tasks[self.current]
        if self.profile is not None:
            self.profile[(t.tid, t.op)] = {"loc": dict(t.occ), "aten": t.aten, "err": self._err_n}
        t.op = -1
        self.seq += 1
        return self.seq

    def tracing(self, on):
        t = self.tasks[self.current]
        if on and (self.trace_all or (t.tid, t.op) in self.trace_ops):
            if self.fine:
                sys.setprofile(self._profile)
            sys.settrace(self._global_trace)
        else:
            untrace()

    def wants_aten(self, tid, i):
        return self.profile is not None or (tid, i) in self.aten_faults

    def aten_point(self):
        t = self.tasks[self.current]
        t.aten += 1
        f = self.aten_faults.get((t.tid, t.op))
        if f and t.aten in f:
            self._fire(f[t.aten])

    def stderr_point(self):
        if self.current is None:
            return
        t = self.tasks[self.current]
        self._err_n += 1
        f = self.err_faults.get((t.tid, t.op))
        if f and self._err_n in f:
            self._fire(f[self._err_n])

    # ---------------------------------------------------------------- running
    def run(self, bodies):
        """Run one body per task to completion (each body takes this scheduler)."""
        global ACTIVE
        ACTIVE = self
        self.stderr.hook = self.stderr_point
        self.tasks = [Task(i, b) for i, b in enumerate(bodies)]
        try:
            if len(self.tasks) == 1:
                self.current = 0
                self.tasks[0].body(self)
                self.tasks[0].done = True
                return
            for t in self.tasks:
                t.thread = threading.Thread(target=self._main_of, args=(t,), daemon=True)
                t.thread.start()
            first = self._next(None)
            self.current = first.tid
            first.sem.release()
            self.main.acquire()
        finally:
            ACTIVE = None
            self.current = None
            self.stderr.hook = None
        if self.fatal is not None:
            raise self.fatal

    def _next(self, after):
        order = [i for i in self.plan.get("order", ()) if i < len(self.tasks)]
        order += [t.tid for t in self.tasks if t.tid not in order]
        for i in order:
            t = self.tasks[i]
            if not t.done and (t.blocked is None or not t.blocked.locked()):
                return t
        return None

    def _main_of(self, t):
        t.sem.acquire()
        try:
            if self.fatal is None:
                t.body(self)
        except BaseException as e:  # harness level: bodies catch what operations raise
            if self.fatal is None:
                self.fatal = e
        finally:
            untrace()
            t.done = True
            t.op = -1
            u = self._next(t)
            if u is not None:
                u.blocked = None
                self.current = u.tid
                u.sem.release()
            else:
                left = [x for x in self.tasks if not x.done]
                if self.fatal is None and left and self.foreign():
                    left[0].blocked = None
                    self.current = left[0].tid
                    left[0].sem.release()
                    return
                if self.fatal is None and left:
                    self.fatal = boot.SimDeadlock("all remaining tasks wait for locks")
                    for x in self.tasks:
                        if not x.done:
                            self.current = x.tid
                            x.sem.release()
                            return
                self.main.release()


def aten_mode(sched):
    from torch.utils._python_dispatch import TorchDispatchMode

    class _Mode(TorchDispatchMode):
        def __torch_dispatch__(self, func, types, args=(), kwargs=None):
            sched.aten_point()
            return func(*args, **(kwargs or {}))

    return _Mode()
