"""One generator of runs per property: universe(r, oracle) and program(r, oracle, U)."""
from itertools import product

from . import gen
from .gen import (PADS, Fns, Matrix, derivations, place, sample_fault, schedule, size_family, tensor,
                  wavelet)
from .packetmodel import Model, Refused, Unknown

MKINDS = ["dec1", "rec1", "dec1", "rec1", "dec2", "rec2", "dec2", "rec2", "dec3", "rec3"]


def call_op(r, slot, x, gm=0.12):
    op = {"op": "call", "slot": slot, "x": x}
    if r.random() < gm:
        op["gm"] = r.choice(["nograd", "inf"])
    return op


def how(r):
    """A way to overwrite a tensor in place."""
    h = r.choice([None, None, "np", "data"])
    return {"how": h} if h else {}


def new_op(slot, o):
    return {"op": "new", "slot": slot, "spec": o["spec"], "wav": o["wav"]}


def reuse(r, op, slot, last):
    """Sometimes the data is the caller's one tensor, overwritten before each transform.

    last: {slot: specification of the previous data}
    """
    if slot in last and r.random() < 0.7 or r.random() < 0.25:
        x = dict(op["x"])
        if slot in last and r.random() < 0.8:
            x = dict(last[slot], seed=r.randrange(6))
        x.pop("lay", None)
        op = dict(op, buf="b_" + slot, x=x, **how(r))
        last[slot] = x
    return op


def twins(r, o, items):
    """Two threads in the same function with arguments that differ in their contents only."""
    its = r.sample(items, min(len(items), r.choice([1, 1, 2])))
    tasks = []
    for t in range(2):
        ops = []
        for _ in range(r.choice([1, 2, 3])):
            it = r.choice(its)
            if "x" in it:
                x = {k: v for k, v in it["x"].items() if k not in ("lay", "kind")}
                it = dict(it, x=dict(x, seed=r.randrange(8)))
            ops.append(it)
        tasks.append(ops)
    p = {"setup": [], "tasks": tasks}
    p["plan"] = schedule(r, o, p)
    return p


def related(r, items):
    """A pick biased to few neighbours, so that revisits and alternations are frequent."""
    k = min(len(items), r.choice([2, 3, len(items)]))
    return items[:k] if r.random() < 0.3 else r.sample(items, k)


class Check:
    block = 24  # runs sharing a universe
    quick = (6000, 55.0)  # runs, seconds
    thorough = (60000, 540.0)
    flags = {}
    spread = 0.0  # share of the single task histories that several threads carry out

    def universe(self, r, o):
        raise NotImplementedError

    def program(self, r, o, u):
        raise NotImplementedError

    def make(self, r, q, o, u):
        """A program; q decides on its threads."""
        p = self.program(r, o, u)
        if len(p.get("tasks", ())) == 1 and "walk" not in (p.get("plan") or {}) and q.random() < self.spread:
            p = spread(q, p)
        return p


def spread(r, p):
    """The same history, its operations one after another but by two threads."""
    ops = p["tasks"][0]
    tasks, at, t = [[], []], [], 0
    for op in ops:
        if r.random() < 0.35:
            t = 1 - t
        at.append((t, len(tasks[t])))
        tasks[t].append(op)
    if not tasks[1]:
        return p
    where = {a: g for g, a in enumerate(at)}
    plan = dict(p.get("plan") or {})
    plan["faults"] = [dict(f, task=at[f["op"]][0], op=at[f["op"]][1]) for f in plan.get("faults", ())]
    # each thread gives way before an operation that is not the next one
    plan["switches"] = [{"task": t, "op": i, "loc": "op", "n": 1, "to": 1 - t}
                        for g, (t, i) in enumerate(at) if i and where[(t, i - 1)] != g - 1]
    plan["order"] = [at[0][0], 1 - at[0][0]]
    return dict(p, tasks=tasks, plan=plan)


# ---------------------------------------------------------------- C01, C03
class C01(Check):
    spread = 0.12
    def universe(self, r, o):
        m = Matrix(r, o, nobj=3, ninp=6)
        m.noise = [f for f in Fns(r, o, n=3, kinds=["wavedec", "wavedec2", "cba", "waverec"]).items]
        m.many = self.lasting(r, m) if r.random() < 0.15 else None
        return m

    @staticmethod
    def lasting(r, m):
        """An object that meets far more kinds of input than it can be expected to remember."""
        x = m.make(r.choice(["dec1", "dec1", "dec2", "dec3", "rec1"]), 8, False, True)
        if x["kind"].startswith("dec") and x["in"]:
            dim = int(x["kind"][3])
            lo, hi = (4, 8) if gen.slow(x["kind"], x["spec"]["kw"]) else {1: (6, 48), 2: (4, 12), 3: (4, 7)}[dim]
            x["in"] = [tensor(r, place(r, [r.randint(lo, hi) for _ in range(dim)], x["ax"])) for _ in range(20)]
        return x if len(x["in"]) > 3 else None

    @staticmethod
    def last(r, x):
        ops = []
        ins = list(x["in"])
        r.shuffle(ins)
        for i in range(r.choice([24, 36, 50])):
            # new inputs in turn, recent ones and the first ones again
            q = r.random()
            z = ins[i % len(ins)] if q < 0.6 else ins[max(0, i - r.randint(1, 4)) % len(ins)] if q < 0.8 else r.choice(ins[:3])
            ops.append(call_op(r, "o", z, 0.05))
        return {"setup": [new_op("o", x)], "tasks": [ops]}

    def program(self, r, o, u):
        if u.many and r.random() < 0.25:
            return self.last(r, u.many)
        objs = r.sample(u.objs, r.choice([1, 1, 2, 3]))
        objs = [x for x in objs if x["in"]] or [x for x in u.objs if x["in"]]
        live = {}
        setup = []
        for i, x in enumerate(objs):
            for j in range(r.choice([1, 1, 2])):
                s = "o%d%d" % (i, j)
                live[s] = x
                setup.append(new_op(s, x))
        picks = {s: related(r, x["in"]) for s, x in live.items()}
        ops = []
        fill = {}
        for _ in range(r.choice([4, 6, 8, 12, 18])):
            s = r.choice(sorted(live))
            x = live[s]
            q = r.random()
            if q < 0.78:
                ops.append(call_op(r, s, r.choice(picks[s])))
            elif q < 0.86 and x["bad"]:
                ops.append(call_op(r, s, r.choice(x["bad"])))
            elif q < 0.91:
                ops.append({"op": "drop", "slot": s})
                ops.append(new_op(s, x))
            elif q < 0.96:
                # the same tensor object, refilled or not, as input
                sl = "t_" + s
                xi = r.choice(picks[s])
                if sl not in fill:
                    ops.append({"op": "ten" if "t" in xi else "coef", "slot": sl, "x": xi})
                    fill[sl] = xi
                else:
                    seed = r.randrange(5, 9)
                    xi = fill[sl]
                    ops.append(dict({"op": "fill", "slot": sl, **how(r)}, **({"dt": xi["dt"], "seed": seed} if "t" in xi else
                                                                   {"x": dict(xi, seed=seed)})))
                ops.append(call_op(r, s, {"ref": sl}))
            elif u.noise:
                ops.append(r.choice(u.noise))
        return {"setup": setup, "tasks": [ops]}


class C03(C01):
    spread = 0.2

    @staticmethod
    def retries(r, o, u):
        """Calls that fail are repeated, as they are or with other data or sizes."""
        x = r.choice([x for x in u.objs if x["in"]])
        setup = [new_op("o0", x)]
        picks = related(r, x["in"])
        ops, at = [], []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            op = call_op(r, "o0", r.choice(picks), 0.08)
            at.append(len(ops))
            ops.append(op)
            if r.random() < 0.25:
                at.append(len(ops))
                ops.append(dict(op))
            again = {k: v for k, v in op.items() if k != "gm"}
            if r.random() < 0.4:
                again["x"] = dict(op["x"], seed=r.randrange(4))
            ops.append(again)
            if r.random() < 0.4:
                ops.append(call_op(r, "o0", r.choice(picks), 0.08))
        ops.append(call_op(r, "o0", r.choice(picks), 0.08))
        p = {"setup": setup, "tasks": [ops]}
        d = derivations(p, o)
        fs = []
        for i in at:
            ks = ["line", "aten", "stderr"]
            if ops[i].get("gm") == "inf":
                ks.remove("line")
            f = d[0][i] and sample_fault(r, o, p, d, 0, i, ks)
            if f:
                fs.append(f)
        p["plan"] = {"faults": fs}
        return p

    def program(self, r, o, u):
        if r.random() < 0.4:
            return self.retries(r, o, u)
        p = C01.program(self, r, o, u)
        add_faults(r, o, p, r.choice([1, 1, 2, 3]))
        return p


def add_faults(r, o, p, k, kinds=("line", "aten", "stderr"), only=gen.DISTURB):
    d = derivations(p, o)
    fs = []
    for _ in range(k):
        t = r.randrange(len(p["tasks"]))
        c = [i for i, op in enumerate(p["tasks"][t]) if op["op"] in only and d[t][i]]
        if not c:
            continue
        i = r.choice(c)
        ks = list(kinds)
        if p["tasks"][t][i].get("gm") == "inf" and "line" in ks:
            ks.remove("line")
        f = sample_fault(r, o, p, d, t, i, ks)
        if f is not None:
            fs.append(f)
    p.setdefault("plan", {})["faults"] = fs
    return d


# --------------------------------------------------------------------- C04
class C04(Check):
    def universe(self, r, o):
        return Matrix(r, o, nobj=3, ninp=5, bad=True)

    @staticmethod
    def repeated(r, o, u):
        """A call that finds everything prepared is preempted by calls that prepare other things."""
        x = r.choice([x for x in u.objs if len(x["in"]) > 1])
        new = new_op("o0", x)
        a, b = r.sample(x["in"], 2)
        if a == b:
            return None
        call = {"op": "call", "slot": "o0", "x": a}
        p = {"setup": [new, call], "tasks": [[dict(call, x=dict(a, seed=r.randrange(4)))], [dict(call, x=b)]]}
        if r.random() < 0.3:
            p["tasks"].append([dict(call, x=r.choice(x["in"]))])
        if r.random() < 0.3:
            p["tasks"][0].append(dict(call, x=r.choice([a, b])))
        prof = o.profile([new, call, call])
        sw = []
        for j in range(r.choice([1, 1, 2])):
            loc, n = gen.pick_point(r, prof["loc"], r.random() < 0.6)
            if loc is None:
                return None
            sw.append({"task": 0, "op": 0, "loc": loc, "n": n, "to": r.randint(1, len(p["tasks"]) - 1)})
        p["plan"] = {"order": list(range(len(p["tasks"]))), "switches": sw}
        return p

    def program(self, r, o, u):
        if r.random() < 0.2:
            p = self.repeated(r, o, u) if any(len(x["in"]) > 1 for x in u.objs) else None
            if p is not None:
                return p
        objs = [x for x in r.sample(u.objs, r.choice([1, 1, 1, 2])) if x["in"]] or [x for x in u.objs if x["in"]]
        setup = [new_op("o%d" % i, x) for i, x in enumerate(objs)]
        picks = [related(r, x["in"]) for x in objs]
        tasks = []
        for t in range(r.choice([2, 2, 2, 3])):
            ops = []
            for _ in range(r.choice([1, 1, 2, 3])):
                i = r.randrange(len(objs))
                pool = picks[i] if r.random() < 0.92 or not objs[i]["bad"] else objs[i]["bad"]
                ops.append(call_op(r, "o%d" % i, r.choice(pool), 0.08))
            tasks.append(ops)
        if r.random() < 0.35:
            i = r.randrange(len(objs))
            setup.append({"op": "call", "slot": "o%d" % i, "x": r.choice(picks[i])})
        p = {"setup": setup, "tasks": tasks}
        p["plan"] = schedule(r, o, p)
        return p


# --------------------------------------------------------------------- C05
class C05(Check):
    spread = 0.12
    def universe(self, r, o):
        m = Matrix(r, o, nobj=0)
        for _ in range(3):
            kind = r.choice(["dec1", "rec1", "dec1", "rec1", "dec2", "rec2"])
            x = self.obj(r, o, m, kind)
            if x["in"]:
                m.objs.append(x)
        if not m.objs:
            m.objs.append(m.make("dec1", 5, True, True))
        return m

    def obj(self, r, o, m, kind):
        x = m.make(kind, 5, True, True)
        if kind[3] == "2" and r.random() < 0.85:
            x["spec"]["kw"]["separable"] = False
            if r.random() < 0.7:
                x["spec"]["kw"].pop("orthogonalization", None)
            if kind == "rec2":  # shapes do not depend on separability
                pass
        # unbatched inputs of even, dyadic sizes so that operators exist
        if r.random() < 0.75:
            dim = int(kind[3])
            x["spec"]["kw"].pop("axis", None)
            x["spec"]["kw"].pop("axes", None)
            x["ax"] = None
            ins = []
            small = gen.slow(kind, x["spec"]["kw"])
            base = [r.choice([8, 12, 16, 24] if dim == 1 else [4, 6, 8] if small else [8, 12, 16]) for _ in range(dim)]
            for _ in range(5):
                b = list(base)
                q = r.random()
                if q < 0.4:
                    r.shuffle(b)
                elif q < 0.7:
                    b[r.randrange(dim)] = r.choice([8, 12, 16, 20, 24] if dim == 1 else [4, 6, 8] if small else [8, 10, 12, 16])
                t = tensor(r, b if r.random() < 0.7 else [2] + b)
                if kind.startswith("dec"):
                    ins.append(t)
                    continue
                out = o.get([{"op": "new", "slot": "o", "spec": {"kind": "dec" + kind[3], "level": r.choice([1, 2, 2, 3]),
                                                                 "kw": {"separable": False} if dim == 2 else {}}, "wav": x["wav"]},
                             {"op": "call", "slot": "o", "x": dict(t, dt="f64", seed=0, lay="c")}])["out"]
                if "err" not in out:
                    from . import core
                    ins.append({"co": core.struct(out["ok"]), "dt": t["dt"], "seed": t["seed"], "cont": "list"})
            x["in"] = ins
            x["bad"] = m.bad(kind, ins)
        return x

    def program(self, r, o, u):
        x = r.choice([x for x in u.objs if x["in"]])
        setup = [new_op("o0", x)]
        picks = related(r, x["in"])
        nt = r.choice([1, 1, 1, 2])
        cycle = nt == 1 and r.random() < 0.3
        tasks = []
        for t in range(nt):
            ops = []
            n = 0
            if cycle:
                # operators after every call or two, sizes and precisions in turn
                gaps = r.choice([(1,), (2,), (1, 2, 3)])
                for _ in range(r.choice([4, 6, 8])):
                    ops += [call_op(r, "o0", r.choice(x["in"])) for _ in range(r.choice(gaps))]
                    ops.append({"op": "prop", "slot": "o0"})
            for _ in range(0 if cycle else r.choice([2, 3, 5, 8]) if nt == 1 else r.choice([2, 3])):
                q = r.random()
                if q < 0.5:
                    ops.append(call_op(r, "o0", r.choice(picks)))
                elif q < 0.6 and x["bad"]:
                    ops.append(call_op(r, "o0", r.choice(x["bad"])))
                elif q < 0.9:
                    n += 1
                    ops.append({"op": "prop", "slot": "o0", "save": "m%d_%d" % (t, n)})
                elif n:
                    ops.append({"op": "prop_edit", "res": "m%d_%d" % (t, n)})
            ops.append({"op": "prop", "slot": "o0"})
            tasks.append(ops)
        p = {"setup": setup, "tasks": tasks}
        if nt > 1:
            p["plan"] = schedule(r, o, p)
        elif r.random() < 0.3:
            add_faults(r, o, p, r.choice([1, 2]), only=("call",))
        return p


# --------------------------------------------------------------------- C02
class C02(Check):
    spread = 0.1
    block = 16

    def universe(self, r, o):
        u = {"pairs": [], "ft": [], "pk": []}
        for _ in range(3):
            dim = r.choice([1, 1, 2, 2, 3])
            w = wavelet(r)
            dspec, ax = gen.matrix_spec(r, "dec%d" % dim)
            rspec = dict(dspec, kind="rec%d" % dim, kw={k: v for k, v in dspec["kw"].items() if k != "odd_coeff_padding_mode"})
            fam = size_family(r, dim, gen.slow("dec%d" % dim, dspec["kw"]))
            ins = [tensor(r, place(r, r.choice(fam), ax)) for _ in range(5)]
            ins += [dict(x, dt="f32" if x["dt"] == "f64" else "f64") for x in ins[:2]]
            axx = ax if ax is not None else list(range(-dim, 0))
            u["pairs"].append({"wav": w, "d": dspec, "r": rspec, "in": ins, "ax": axx})
        f = Fns(r, o, n=0)
        u["ft"] = [f.pairs() for _ in range(5)]
        u["ft"] += f.family(5, r.choice(u["ft"]))[1:]
        for _ in range(2):
            kind = r.choice(["wp1", "wp1", "wp2"])
            spec, w, ax = packet_spec(r, kind)
            fam = packet_sizes(r, kind, spec)
            mx = 3 if kind == "wp1" else 2
            u["pk"].append({"kind": kind, "spec": spec, "wav": w, "ax": ax,
                            "in": [(tensor(r, place(r, r.choice(fam), ax_list(kind, ax))), r.randint(1, mx)) for _ in range(4)]})
        return u

    def program(self, r, o, u):
        nt = r.choice([1, 1, 2, 3])
        if r.random() < 0.15:
            return twins(r, o, u["ft"])
        if r.random() < 0.08:
            it = r.choice(u["ft"])
            return {"setup": [], "tasks": [gen.sweep(r, it if it["f"] == "swt" or r.random() < 0.3 else dict(it, kw=dict(it["kw"], level=r.choice([2, 2, 3]))))]}
        setup, trips = [], []
        pr = r.sample(u["pairs"], r.choice([1, 2]))
        for i, p in enumerate(pr):
            setup.append({"op": "new", "slot": "d%d" % i, "spec": p["d"], "wav": p["wav"]})
            setup.append({"op": "new", "slot": "r%d" % i, "spec": p["r"], "wav": p["wav"]})
            for x in related(r, p["in"]):
                trips.append({"op": "trip", "dec": "d%d" % i, "rec": "r%d" % i, "x": x, "ax": p["ax"]})
        tasks = []
        pk = r.choice(u["pk"])
        for t in range(nt):
            ops = []
            setup.append({"op": "new", "slot": "p%d" % t, "spec": pk["spec"], "wav": pk["wav"]})
            for _ in range(r.choice([2, 3, 5]) if nt > 1 else r.choice([3, 5, 8])):
                q = r.random()
                if q < 0.55:
                    ops.append(r.choice(trips))
                elif q < 0.85:
                    ops.append(r.choice(u["ft"]))
                else:
                    x, lv = r.choice(pk["in"])
                    ops.append({"op": "pk_ptrip", "slot": "p%d" % t, "kind": pk["kind"], "x": x, "maxlevel": lv,
                                "ax": ax_list(pk["kind"], pk["ax"]) or ([-1] if pk["kind"] == "wp1" else [-2, -1])})
            tasks.append(ops)
        p = {"setup": setup, "tasks": tasks}
        if nt > 1:
            p["plan"] = schedule(r, o, p)
        if r.random() < 0.3:
            plan = p.get("plan", {})
            add_faults(r, o, p, 1, only=("trip", "ftrip"))
            p["plan"] = dict(plan, **p["plan"])
        return p


# ------------------------------------------------------------ packet trees
def ax_list(kind, ax):
    return ax


def packet_spec(r, kind, mode=None, boundary=2, separable=0.3):
    mode = mode or r.choice(["boundary"] * boundary + PADS)
    kw = {"mode": mode}
    ax = None
    if kind == "wp1":
        if r.random() < 0.25:
            ax = [r.choice([0, 1, -2, -1])]
            kw["axis"] = ax[0]
    else:
        if r.random() < 0.25:
            ax = r.choice([[0, 1], [1, 0], [-1, -2], [-3, -1], [-1, -3]])
            kw["axes"] = ax
        q = r.random()
        if q < separable:
            kw["separable"] = True
        elif q < separable + 0.2:
            kw["separable"] = False
    spec = dict({"kind": kind, "kw": kw}, **gen.listed(r, kw))
    if mode == "boundary" and r.random() < 0.3:
        kw["orthogonalization"] = "gramschmidt"
        if r.random() < 0.2:
            spec["dep"] = 1
    w = wavelet(r, ortho=True)
    if w.get("base") in ("db3", "sym4", "coif1") and r.random() < 0.6:
        w = dict(w, base=r.choice(["haar", "db2"]))
    return spec, w, ax


def packet_sizes(r, kind, spec):
    if kind == "wp1":
        base = r.choice([8, 12, 16, 18, 20, 24, 31, 32])
        if r.random() < 0.1:
            base = r.choice([40, 47, 64, 65, 100])
        return [[base], [base + 1], [base - 1], [r.choice([16, 24, 32])], [base + 2]]
    if gen.slow(kind, spec["kw"]):
        a, b = r.choice([4, 6, 8]), r.choice([4, 5, 6, 7, 8])
        return [[a, b], [b, a], [8, 6], [6, 8], [4, 8]]
    hi = 12 if spec["kw"]["mode"] == "boundary" and not spec["kw"].get("separable") else 16
    a, b = r.randint(6, hi), r.randint(6, hi)
    if r.random() < 0.5:
        a, b = a - a % 2, b - b % 2
    out = [[a, b], [b, a], [min(hi, a + 1), b], [a, max(6, b - 1)], [8, 12], [12, 8]]
    return out


def del_op(r, slot, k):
    return dict({"op": "pk_del", "slot": slot, "key": k}, **({"how": "pop"} if r.random() < 0.25 else {}))


class Packets(Check):
    block = 16
    buffers = False
    deep2 = 3  # deepest 2d tree
    kinds = ["wp1", "wp1", "wp2"]
    boundary = 2  # weight of the boundary mode
    separable = 0.3

    def universe(self, r, o):
        u = []
        for _ in range(2):
            kind = r.choice(self.kinds)
            spec, w, ax = packet_spec(r, kind, boundary=self.boundary, separable=self.separable)
            fam = packet_sizes(r, kind, spec)
            ins = [tensor(r, place(r, r.choice(fam), ax, [r.choice([1, 2])] * r.choice([0, 1]) if ax is None else None))
                   for _ in range(4)]
            ins.append(dict(ins[0], dt="f32" if ins[0]["dt"] == "f64" else "f64"))
            u.append({"kind": kind, "spec": spec, "wav": w, "ax": ax, "in": ins})
            if len(u) == 1 and r.random() < 0.5:
                u.append(self.sibling(r, u[0]))
                break
        return u

    @staticmethod
    def sibling(r, pk):
        """A tree that differs from another one in a single argument and gets the same data."""
        spec = dict(pk["spec"], kw=dict(pk["spec"]["kw"]))
        kw, w = spec["kw"], pk["wav"]
        q = r.choice(["wav", "wav", "mode", "orth", "sep"])
        if q == "wav":
            n = gen.dlen(w) // 2
            if "lat" in w:
                w = dict(w, lat=(w["lat"] + r.randint(1, 5)) % 6)
            else:
                w = {"k": "custom", "lat": r.randrange(6), "stages": n, "name": w["base"]}
        elif q == "mode":
            kw["mode"] = r.choice([v for v in ["boundary"] + PADS if v != kw["mode"]])
        elif q == "sep" and pk["kind"] == "wp2":
            kw["separable"] = not kw.get("separable", False)
        else:
            kw["orthogonalization"] = "qr" if kw.get("orthogonalization") == "gramschmidt" else "gramschmidt"
        if gen.slow(pk["kind"], kw):
            kw.pop("orthogonalization", None)
        return dict(pk, spec=spec, wav=w)

    def create(self, r, pk, m, slot="p", lv=None):
        """Operations that create a tree and give it data, in one of the two ways."""
        op, x = self.transform(r, pk, m, slot, lv)
        if r.random() < 0.3:
            op = {k: v for k, v in op.items() if k != "pos"}
            return [dict(op, op="pk_new", spec=pk["spec"], wav=pk["wav"])], x
        return [new_op(slot, pk), op], x

    def levels(self, r, pk):
        """Node names asked for, and the returned list edited."""
        op = {"op": "pk_levels", "kind": pk["kind"], "level": r.choice([0, 1, 1, 2, 2, 3]), "edit": r.choice(["clear", "rev", None])}
        if pk["kind"] == "wp2":
            op["level"] = r.choice([1, 1, 2])
            op["f"] = r.choice(["get_level", "get_natural_order", "get_natural_order", "get_freq_order"])
        if op.get("f", "get_level") == "get_level" and r.random() < 0.6:
            op["order"] = r.choice(["freq", "natural"])
        return op

    def items(self, r, slot="p"):
        return {"op": "pk_items", "slot": slot, "how": r.choice(["items", "iter", "dict", "get"])}

    def start(self, o, pk):
        m = Model(o, pk["kind"], pk["spec"]["kw"], pk["wav"], gen.dlen(pk["wav"]))
        m.last = {}
        return m

    def maxlevel(self, r, kind):
        if kind == "wp1":
            return r.choice([1, 2, 2, 3, 3, 4] * 3 + [5, 6])
        return r.choice([1, 2, 2, self.deep2])

    def transform(self, r, pk, m, slot="p", lv=None):
        from . import world
        x = r.choice(pk["in"])
        op = {"op": "pk_transform", "slot": slot, "x": x}
        if lv is not None or r.random() < 0.85:
            op["maxlevel"] = lv if lv is not None else self.maxlevel(r, pk["kind"])
            if r.random() < 0.3:
                op["pos"] = 1
        if self.buffers:
            op = reuse(r, op, slot, m.last)
            x = op["x"]
        m.transform(world.make_tensor(x).numpy(), x["dt"], op.get("maxlevel"))
        return op, x

    @staticmethod
    def sweep(r, pk):
        """The same tree specification for data of neighbouring sizes."""
        x = r.choice(pk["in"])
        t = x["t"]
        ax = [a % len(t) for a in pk["ax"] or ([-1] if pk["kind"] == "wp1" else [-2, -1])]
        slow = gen.slow(pk["kind"], pk["spec"]["kw"])
        out = []
        for i in range(5):
            s = list(t)
            for a in ax if r.random() < 0.5 else [r.choice(ax)]:
                s[a] += i if not slow else -(i // 2)
            if min(s) > 0:
                out.append(dict(x, t=s))
        r.shuffle(out)
        return dict(pk, **{"in": out})

    def edit_op(self, r, m, slot="p"):
        """A leaf coefficient changed in place."""
        c = []
        for k in m.leaf_keys():
            if k and k in m.sure and k not in [z[:-1] for z in m.maybe]:
                try:
                    m.value(k)
                    c.append(k)
                except Unknown:
                    pass
        if not c:
            return None
        k, f = r.choice(c), r.choice([0.0, -2.0, 1.5])
        m.set(k, m.value(k) * f)
        return {"op": "pk_edit", "slot": slot, "key": k, "c": f, **how(r)}

    def key(self, r, m, lo=0, leaf=False):
        n = m.maxlevel if leaf else r.randint(min(lo, m.maxlevel), m.maxlevel)
        n = min(n, 6 if m.kind == "wp1" else 3)
        return "".join(r.choice(m.ch) for _ in range(n))

    def set_op(self, r, m, x, slot="p", leaf=None):
        """An assignment that leaves no doubt about other nodes."""
        for _ in range(6):
            k = self.key(r, m, 1, leaf if leaf is not None else r.random() < 0.6)
            if not k or any(q != k and q.startswith(k) for q in m.maybe):
                continue
            try:
                v = m.value(k)
            except Unknown:
                continue
            y = {"t": list(v.shape), "dt": x["dt"], "seed": r.randrange(10, 14)}
            m.set(k, v * 0)
            op = {"op": "pk_set", "slot": slot, "key": k, "x": y}
            if r.random() < 0.2:
                op["how"] = r.choice(["update", "update", "or"])
            return op
        return None

    def get_op(self, r, m, key, slot="p"):
        try:
            m.get(key)
        except (Refused, Unknown):
            m.tried(key)
        return {"op": "pk_get", "slot": slot, "key": key}

    def explore(self, r, pk, m, n, x, edits=True, slot="p", bad=0.06, retrans=0.1):
        ops = []
        for _ in range(n):
            q = r.random()
            if q < 0.6:
                ops.append(self.get_op(r, m, self.key(r, m), slot))
            elif q < 0.72:
                ks = [self.key(r, m) for _ in range(r.randint(1, 4))]
                for k in ks:
                    self.get_op(r, m, k)
                op = {"op": "pk_init", "slot": slot, "keys": ks}
                if r.random() < 0.5:
                    op["iter"] = 1
                ops.append(op)
            elif q < 0.72 + bad:
                k = r.choice([m.ch[0] * (m.maxlevel + 1), "x", m.ch[0] + "q", "a" * (m.maxlevel + 2), "z" * max(1, m.maxlevel)])
                if r.random() < 0.5:
                    ops.append({"op": "pk_get", "slot": slot, "key": k})
                else:
                    ops.append(self.refused_init(r, m, slot, k))
            elif q < 0.9 and edits:
                if r.random() < 0.7:
                    op = self.set_op(r, m, x, slot)
                    if op:
                        ops.append(op)
                else:
                    c = sorted(k for k in m.sure if k)
                    if c:
                        k = r.choice(c)
                        m.delete(k)
                        ops.append(del_op(r, slot, k))
            elif r.random() < retrans * 6:
                op, x = self.transform(r, pk, m, slot)
                ops.append(op)
            else:
                ops.append(self.get_op(r, m, self.key(r, m), slot))
        return ops, x

    def refused_init(self, r, m, slot, bad):
        """Initialisation that is rejected because of one of its keys."""
        ks = [self.key(r, m) for _ in range(r.choice([0, 1, 2]))]
        for k in ks:
            m.tried(k)
        ks.insert(r.randint(0, len(ks)), bad)
        return {"op": "pk_init", "slot": slot, "keys": ks, **({"iter": 1} if r.random() < 0.5 else {})}

    def leaves(self, r, m, slot="p"):
        ks = m.leaf_keys()
        r.shuffle(ks)
        for k in ks:
            self.get_op(r, m, k)
        q = r.random()
        if q < 0.5:
            return [{"op": "pk_init", "slot": slot, "keys": ks}]
        if q < 0.75:
            return [{"op": "pk_init", "slot": slot, "keys": ks[:len(ks) // 2]}] + \
                [{"op": "pk_get", "slot": slot, "key": k} for k in ks[len(ks) // 2:]]
        ps = sorted({k[:-1] + m.ch[0] for k in ks})
        r.shuffle(ps)
        return [{"op": "pk_get", "slot": slot, "key": k} for k in ps]

    def read_all(self, r, m, slot="p", inner=True, most=8):
        ks = ["".join(p) for lv in range(0 if inner else m.maxlevel, m.maxlevel + 1) for p in product(m.ch, repeat=lv)]
        if len(ks) > most:
            ks = [""] * inner + r.sample(ks, most)
        r.shuffle(ks)
        return [self.get_op(r, m, k, slot) for k in ks]

    def rec(self, m, slot="p"):
        try:
            m.reconstruct()
        except (Refused, Unknown):
            pass
        return {"op": "pk_rec", "slot": slot}


class C06(Packets):
    spread = 0.08
    buffers = True

    def program(self, r, o, u):
        if r.random() < 0.35:
            # two trees side by side
            a, b = self.one(r, o, r.choice(u), "p"), self.one(r, o, r.choice(u), "q")
            ops = []
            while a or b:
                z = a if (r.random() < len(a) / (len(a) + len(b))) else b
                n = r.choice([1, 1, 2, 4])
                ops += z[:n]
                del z[:n]
            return {"setup": [], "tasks": [ops]}
        return {"setup": [], "tasks": [self.one(r, o, r.choice(u), "p")]}

    def one(self, r, o, pk, slot):
        m = self.start(o, pk)
        if r.random() < 0.1:
            # many sizes, some of them again
            pk = self.sweep(r, pk)
            ops, x = self.create(r, pk, m, slot)
            for _ in range(r.choice([4, 6, 8])):
                ops += self.read_all(r, m, slot, most=r.choice([2, 4]))
                op, x = self.transform(r, pk, m, slot)
                ops.append(op)
            return ops + self.read_all(r, m, slot, most=5)
        if r.random() < 0.1:
            ops = [new_op(slot, pk), {"op": "pk_get", "slot": slot, "key": r.choice(["", "a"])}]
            op, x = self.transform(r, pk, m, slot)
            ops.append(op)
        else:
            ops, x = self.create(r, pk, m, slot)
        if r.random() < 0.25:
            # another size first: the per-size transforms of the object exist already
            o2, x = self.explore(r, pk, m, r.randint(1, 4), x, edits=False, slot=slot)
            ops += o2
            op, x = self.transform(r, pk, m, slot)
            ops.append(op)
        n = r.choice([5, 8, 12, 16])
        o2, x = self.explore(r, pk, m, n if r.random() < 0.96 else 50, x, slot=slot)
        ops += o2
        if r.random() < 0.1:
            ops.append(self.levels(r, pk))
        if r.random() < 0.3:
            ops.append(self.items(r, slot))
        ops += self.read_all(r, m, slot, most=5)
        return ops


class C07(Packets):
    spread = 0.08
    buffers = True
    deep2 = 2

    def program(self, r, o, u):
        pk = first = r.choice(u)
        m = self.start(o, pk)
        ops = []
        turns = r.choice([1, 1, 2])
        few = r.random() < 0.1
        if few:
            # many sizes, some of them again
            pk, turns = self.sweep(r, pk), r.choice([4, 6])
        for _ in range(turns):
            lv = min(self.maxlevel(r, pk["kind"]), 2 if few else 3)
            op, x = self.transform(r, pk, m, lv=lv)
            ops.append(op)
            if r.random() < 0.3:
                o2, x = self.explore(r, pk, m, r.randint(1, 4), x, retrans=0, bad=0)
                ops += o2
            q = r.random()
            if q < 0.12:
                ops.append(self.rec(m))  # leaves absent
            if r.random() < 0.15:
                ops.append(self.levels(r, pk))
            ops += self.leaves(r, m)
            for _ in range(r.choice([1, 1, 2])):
                for _ in range(r.choice([0, 1, 1, 2, 4])):
                    op = self.set_op(r, m, x, leaf=True) if r.random() < 0.65 else self.edit_op(r, m)
                    if op:
                        ops.append(op)
                if r.random() < 0.1:
                    k = r.choice(m.leaf_keys())
                    if k:
                        m.delete(k)
                        ops.append(del_op(r, "p", k))
                ops.append(self.rec(m))
                if r.random() < 0.15:
                    ops.append(self.levels(r, pk))
                if r.random() < 0.3:
                    ops.append(self.items(r))
                ops += self.read_all(r, m, most=7)
        if len(u) > 1 and r.random() < 0.3:
            # another tree of the process in between
            pk = r.choice(u)
            m = self.start(o, pk)
            o2, x = self.create(r, pk, m, "q", lv=min(self.maxlevel(r, pk["kind"]), 2))
            o2 += self.leaves(r, m, "q")
            e = self.set_op(r, m, x, "q", leaf=True)
            o2 += ([e] if e else []) + [self.rec(m, "q")] + self.read_all(r, m, "q", most=3)
            i = r.randint(0, len(ops))
            ops = ops[:i] + o2 + ops[i:]
        return {"setup": [new_op("p", first)], "tasks": [ops]}


class C08(Packets):
    spread = 0.2
    buffers = True

    def program(self, r, o, u):
        pk = r.choice(u)
        m = self.start(o, pk)
        ops = []
        lv = min(self.maxlevel(r, pk["kind"]), 3)
        op, x = self.transform(r, pk, m, lv=lv)
        ops.append(op)
        o2, x = self.explore(r, pk, m, r.randint(1, 5), x, retrans=0)
        ops += o2
        q = r.random()
        if q < 0.35:
            ops.append(self.bad(r, pk) if q < 0.2 else self.refused_init(r, m, "p", r.choice(["x", m.ch[0] * (m.maxlevel + 1)])))
        if q < 0.6:
            ops += self.leaves(r, m)
            op = self.set_op(r, m, x, leaf=True)
            if op:
                ops.append(op)
            ops.append({"op": "pk_rec", "slot": "p"})
            ops += self.read_all(r, m, inner=False, most=3)
            ops.append(self.rec(m))
        else:
            o2, x = self.explore(r, pk, m, r.randint(2, 6), x)
            ops += o2
        ops += self.read_all(r, m, most=6)
        if r.random() < 0.3:
            ops.append(self.bad(r, pk) if r.random() < 0.5 else self.refused_init(r, m, "p", r.choice(["x", m.ch[0] * (m.maxlevel + 1)])))
            ops += self.read_all(r, m, most=3)
        if r.random() < 0.25:
            op, x = self.transform(r, pk, m, lv=lv)
            ops += [op] + self.read_all(r, m, most=4)
        p = {"setup": [new_op("p", pk)], "tasks": [ops]}
        # faults inside tree operations; locations come from a run of the same
        # program in a process of its own
        from . import core
        res = core.execute(dict(p, profile=True))
        fs = []
        if "died" not in res and not res["fatal"]:
            c = [i for i, op in enumerate(ops) if op["op"] in ("pk_get", "pk_init", "pk_rec", "pk_transform")]
            c = [i for i in c if len(res["profile"][(0, i)]["loc"]) > 12 or r.random() < 0.2]
            for _ in range(r.choice([1, 1, 2, 3])):
                if not c:
                    break
                i = r.choice(c)
                kinds = ["line", "aten"]
                f = gen.fault_from_profile(r, res["profile"][(0, i)], 0, i, kinds)
                if f:
                    fs.append(f)
        p["plan"] = {"faults": fs}
        return p

    def bad(self, r, pk):
        c = ["scalar", "str", "none"]
        if pk["kind"] == "wp2" or (pk["ax"] and pk["ax"][0] in (1, -2)):
            c.append("vec")
        return {"op": "pk_bad", "slot": "p", "bad": r.choice(c)}


class C09(Packets):
    kinds = ["wp1", "wp2"]
    boundary = 6
    separable = 0.5

    def program(self, r, o, u):
        pk = r.choice(u)
        m = self.start(o, pk)
        lv = min(self.maxlevel(r, pk["kind"]), 3)
        if r.random() < 0.4:
            lv = 3
        setup = [new_op("p", pk)]
        for _ in range(r.choice([0, 0, 1, 2])):
            op, x = self.transform(r, pk, m)
            setup.append(op)
            setup.append(self.get_op(r, m, self.key(r, m, 1)))
        op, x = self.transform(r, pk, m, lv=lv)
        setup.append(op)
        if r.random() < 0.3:
            setup.append(self.get_op(r, m, self.key(r, m)))
        tasks = []
        near = [self.key(r, m, 1) for _ in range(2)]
        cousins = None
        if lv > 1 and r.random() < 0.4:
            # nodes of one level with parents that are present already
            n = r.choice([2, min(lv, 3)])
            setup.append({"op": "pk_init", "slot": "p", "keys": ["".join(q) for q in product(m.ch, repeat=n - 1)]})
            for k in setup[-1]["keys"]:
                self.get_op(r, m, k)
            cousins = ["".join(q) for q in product(m.ch, repeat=n)]
            r.shuffle(cousins)
        for t in range(r.choice([2, 2, 3])):
            ops = []
            for _ in range(r.choice([1, 2, 3])):
                k = r.choice(near) if r.random() < 0.6 else self.key(r, m, 1)
                if r.random() < 0.5:
                    k = k[:-1] + r.choice(m.ch)
                if cousins:
                    k = cousins.pop() if cousins and r.random() < 0.8 else k
                    if len(k) < lv and r.random() < 0.4:
                        k += r.choice(m.ch)  # of another size
                if r.random() < 0.8:
                    ops.append({"op": "pk_get", "slot": "p", "key": k})
                else:
                    ops.append({"op": "pk_init", "slot": "p", "keys": [k, self.key(r, m, 1)]})
            tasks.append(ops)
        p = {"setup": setup, "tasks": tasks}
        from . import core
        nt = len(tasks)
        order = list(range(nt))
        r.shuffle(order)
        plan = {"order": order}
        if r.random() < 0.6:
            res = core.execute(dict(p, profile=True))
            sw = []
            deep = r.random() < 0.3
            if "died" not in res and not res["fatal"]:
                c = sorted(res["profile"])
                for j in range(r.choice([1, 1, 2, 2, 3])):
                    t, i = r.choice([q for q in c if j or q[0] == order[0]] or c)
                    # a reader that comes first does the work: look at the longest one
                    pr = max((res["profile"][q] for q in c), key=lambda a: len(a["loc"])) if r.random() < 0.5 \
                        else res["profile"][(t, i)]
                    # the state shared by readers belongs to the tree
                    locs = sorted(pr["loc"])
                    own = [y for y in locs if y.startswith("packets.py")]
                    rd = [y for y in locs if gen.reads(y)] if deep and r.random() < 0.4 else ()
                    loc = r.choice(rd) if rd else gen.pick_loc(r, own if own and r.random() < 0.6 else locs, 0.5)
                    n = pr["loc"][loc]
                    if deep:
                        loc = gen.fine(r, loc)
                    sw.append({"task": t, "op": i, "loc": loc, "n": r.randint(1, n), "to": r.choice([y for y in range(nt) if y != t])})
            plan["switches"] = sw
        else:
            plan["walk"] = {"seed": r.randrange(1 << 30), "p": r.choice([0.003, 0.01, 0.03, 0.1])}
            if r.random() < 0.3:
                plan["walk"].update(fine=1, p=plan["walk"]["p"] / 4)
        p["plan"] = plan
        # what the tree holds afterwards
        tasks_after = self.read_all(r, m, most=4)
        p["after"] = tasks_after
        return p


# --------------------------------------------------------------------- C10
class C10(Check):
    spread = 0.1
    def universe(self, r, o):
        u = {"f": Fns(r, o, n=8), "mut": [], "cw": []}
        u["fam"] = u["f"].family(r.choice([4, 6]))
        u["sp"] = [gen.sparse_item(r) for _ in range(4)]
        u["sweep"] = self.sweep(r, u["f"]) if r.random() < 0.5 else []
        u["many"] = Fns(r, o, n=24).items if r.random() < 0.12 else None
        f = u["f"]
        u["bad"] = f.bad(3)
        for _ in range(2):
            dt = "f64"
            specs = [wavelet(r, mutable=True, dt=dt)]
            k = specs[0]["k"]
            st = gen.dlen(specs[0]) // 2
            specs += [{"k": k, "lat": i, "stages": st, "dt": dt} for i in r.sample(range(6), 2)]
            its = []
            while len(its) < 4:
                it = f.make(r.choice(["wavedec", "wavedec2", "waverec", "swt", "iswt", "fswavedec2", "wavedec3", "waverec2"]), specs[0])
                if it is not None:
                    it = dict(it)
                    it["x"] = dict(it["x"], dt="f64")
                    it.pop("wav")
                    its.append(it)
            u["mut"].append({"specs": specs, "items": its})
        base = r.choice(["cmor1.5-1.0", "gaus2", "mexh", "shan1.5-1.0"])
        u["cw"].append({"specs": [{"k": "cont", "base": base, "attr": {"lower_bound": -a, "upper_bound": a}} for a in (4.0, 5.0, 8.0)]})
        k = r.choice(["shan", "cmor"])
        u["cw"].append({"specs": [{"k": k, "base": k + "1.5-1.0", "par": [a, b]} for a, b in ((0.9, 1.0), (1.3, 0.8), (1.1, 1.2))]})
        for c in u["cw"]:
            c["items"] = [{k: v for k, v in f.cwt("f64", {"x": 1}).items() if k != "wav"} for _ in range(3)]
        return u

    @staticmethod
    def sweep(r, f):
        """Analyses of neighbouring sizes and the syntheses of their coefficients."""
        name = r.choice(["wavedec", "wavedec", "wavedec2", "fswavedec2", "wavedec3", "swt"])
        it = f.make(name)
        if it is None:
            return []
        kw = it["kw"]
        if name != "swt" and r.random() < 0.6:
            kw["level"] = r.choice([2, 2, 3])
        ax = [kw["axis"]] if "axis" in kw else kw.get("axes")
        its = gen.sweep(r, dict(it, ax=ax))
        g = {"swt": "iswt"}.get(name, name.replace("dec", "rec"))
        out = []
        for an in its:
            an = {k: v for k, v in an.items() if k != "ax"}
            out += [v for v in (an if r.random() < 0.3 else None, f.synthesis(g, an)) if v]
        return out

    def program(self, r, o, u):
        nt = r.choice([1, 1, 2, 3])
        if u["sweep"] and r.random() < 0.1:
            return {"setup": [], "tasks": [r.sample(u["sweep"], len(u["sweep"]))]}
        if r.random() < 0.15:
            return twins(r, o, u["f"].items + [dict(it, wav=c["specs"][0]) for c in u["mut"] + u["cw"] for it in c["items"]])
        setup, tasks = [], []
        if u["many"] and r.random() < 0.2:
            # far more kinds of calls than can be expected to be remembered
            its = r.sample(u["many"], len(u["many"]))
            return {"setup": [], "tasks": [[its[i % len(its)] if r.random() < 0.7 else r.choice(its[:4])
                                            for i in range(r.choice([30, 45]))]]}
        for t in range(nt):
            ops = []
            pool = related(r, u["f"].items if r.random() < 0.6 else u["fam"])
            muts = []
            for j, mu in enumerate(r.sample(u["mut"] + u["cw"], r.choice([0, 1, 1, 2]))):
                s = "w%d_%d" % (t, j)
                setup.append({"op": "wav", "slot": s, "spec": r.choice(mu["specs"])})
                muts.append((s, mu))
            tens = {}
            for _ in range(r.choice([2, 3, 4, 6]) if nt > 1 else r.choice([4, 6, 10, 14])):
                q = r.random()
                if muts and q < 0.35:
                    s, mu = r.choice(muts)
                    ops.append(dict(r.choice(mu["items"]), wav={"ref": s}))
                elif muts and q < 0.55:
                    s, mu = r.choice(muts)
                    ops.append({"op": "wset", "slot": s, "spec": r.choice(mu["specs"]), **how(r)})
                    ops.append(dict(r.choice(mu["items"]), wav={"ref": s}))
                elif q < 0.75:
                    z = r.random()
                    it = dict(r.choice(pool if z < 0.78 else u["sp"] if z < 0.88 else u["bad"]))
                    if r.random() < 0.1:
                        it["gm"] = "nograd"
                    ops.append(it)
                else:
                    # one tensor object overwritten between calls
                    it = dict(r.choice(pool))
                    if "x" not in it:
                        continue
                    s = "t%d_%d" % (t, pool.index(r.choice(pool)) % 3)
                    if s not in tens:
                        setup.append({"op": "ten" if "t" in it["x"] else "coef", "slot": s, "x": it["x"]})
                        tens[s] = dict(it)
                    else:
                        it = dict(tens[s])
                        seed = r.randrange(5, 9)
                        x = it["x"]
                        ops.append(dict({"op": "fill", "slot": s, **how(r)}, **({"dt": x["dt"], "seed": seed} if "t" in x else
                                                                      {"x": dict(x, seed=seed)})))
                    it["x"] = {"ref": s}
                    if it["f"] == "cwt" and r.random() < 0.7:
                        it = dict(it, kw={k: v for k, v in it["kw"].items()})
                        sc = "s%d_%s" % (t, s)
                        if sc not in tens:
                            np_ = 1 if r.random() < 0.6 else 0
                            tens[sc] = len(it["kw"]["scales"])
                            setup.append({"op": "ten", "slot": sc, "x": dict({"vals": [float(v) for v in it["kw"]["scales"]]}, **({"np": 1} if np_ else {}))})
                        else:
                            ops.append({"op": "fill", "slot": sc, **how(r), "vals": sorted(r.sample([1.5, 2.5, 3.5, 4.5, 6.0, 7.5], tens[sc]))})
                        it["sk"] = "ref"
                        it["sc"] = sc
                    ops.append(it)
            tasks.append(ops)
        p = {"setup": setup, "tasks": tasks}
        plan = schedule(r, o, p) if nt > 1 else {}
        if r.random() < 0.3:
            add_faults(r, o, p, 1, only=("fn",))
            plan = dict(plan, **p["plan"])
        p["plan"] = plan
        return p


# --------------------------------------------------------------------- C11
class C11(Check):
    spread = 0.1
    flags = {"inputs": True}
    block = 16

    def universe(self, r, o):
        m = Matrix(r, o, nobj=3, ninp=4, bad=True)
        m.f = Fns(r, o, n=8)
        m.f.items += [gen.sparse_item(r) for _ in range(2)]
        m.pk = C06().universe(r, o)
        mut = wavelet(r, mutable=True)
        m.mut = []
        while len(m.mut) < 3:
            it = m.f.make(r.choice(["wavedec", "waverec", "wavedec2", "swt", "iswt", "wavedec3", "fswavedec2", "fswaverec2"]), mut)
            if it:
                m.mut.append(dict(it, x=dict(it["x"], dt="f64")))
        k = r.choice(["shan", "cmor"])
        m.mut.append(m.f.cwt("f64", {"k": k, "base": k + "1.5-1.0"}))
        m.fbad = m.f.bad(3)
        return m

    def program(self, r, o, u):
        setup, ops = [], []
        n = [0]

        def hold(x):
            """Make the argument a live object of the caller."""
            n[0] += 1
            co = "co" in x
            s = ("c%d" if co else "t%d") % n[0]
            x = dict(x)
            if not co and "t" in x and r.random() < 0.1 and len(x["t"]) > 1 and x["dt"] != "i64":
                x["lay"] = "e"
            if "ts" not in x and x["dt"] != "i64" and r.random() < 0.12 and x.get("lay", "c") == "c":
                x["rg"] = 1
            setup.append({"op": "coef" if co else "ten", "slot": s, "x": x})
            return {"ref": s}

        def holdw(w):
            n[0] += 1
            s = "w%d" % n[0]
            setup.append({"op": "wav", "slot": s, "spec": w})
            return {"ref": s}

        for _ in range(r.choice([1, 2, 3, 4])):
            q = r.random()
            if q < 0.35:
                x = r.choice([z for z in u.objs if z["in"]])
                s = "o%d" % n[0]
                setup.append({"op": "new", "slot": s, "spec": x["spec"], "wav": holdw(x["wav"])})
                a = hold(r.choice(x["in"] if r.random() < 0.85 or not x["bad"] else x["bad"]))
                for _ in range(r.choice([1, 2])):
                    ops.append(call_op(r, s, a))
                if r.random() < 0.3 and x["kind"][3] in "12":
                    ops.append({"op": "prop", "slot": s})
            elif q < 0.8:
                it = dict(r.choice(u.f.items + u.mut if r.random() < 0.85 else u.fbad))
                if "x" in it:
                    it["x"] = hold(it["x"])
                it["wav"] = holdw(it["wav"])
                if it["f"] == "cwt":
                    n[0] += 1
                    sc = "s%d" % n[0]
                    setup.append({"op": "ten", "slot": sc, "x": dict({"vals": it["kw"]["scales"]}, **r.choice([{"np": 1}, {"np": 1}, {}, {}, {"ls": 1}]))})
                    it["sk"], it["sc"] = "ref", sc
                ops.append(it)
            else:
                pk = r.choice(u.pk)
                h = Packets()
                m = h.start(o, pk)
                s = "p%d" % n[0]
                setup.append({"op": "new", "slot": s, "spec": pk["spec"], "wav": holdw(pk["wav"])})
                op, x = h.transform(r, pk, m, s, lv=min(2, h.maxlevel(r, pk["kind"])))
                op["x"] = hold(op["x"])
                ops.append(op)
                ops += h.leaves(r, m, s)
                for _ in range(r.choice([0, 1, 2])):
                    e = h.set_op(r, m, x, s, leaf=True)
                    if e:
                        e["x"] = hold(e["x"])
                        ops.append(e)
                if r.random() < 0.7:
                    ops.append(h.rec(m, s))
                    ops.append({"op": "pk_get", "slot": s, "key": ""})
        p = {"setup": setup, "tasks": [ops]}
        plan = {}
        if r.random() < 0.6:
            plan["observe"] = {"seed": r.randrange(1 << 30), "p": r.choice([0.002, 0.01, 0.05])}
        if r.random() < 0.4:
            add_faults(r, o, p, r.choice([1, 2]), only=("call", "fn", "prop"))
            plan = dict(plan, **p["plan"])
        p["plan"] = plan
        return p


# --------------------------------------------------------------------- C12
class C12(Check):
    def universe(self, r, o):
        m = Matrix(r, o, nobj=3, ninp=4, bad=True)
        m.f = Fns(r, o, n=9)
        m.f.items += [gen.sparse_item(r) for _ in range(3)]
        m.pk = C06().universe(r, o)
        m.loss = [wavelet(r, mutable=True, dt=r.choice(["f64", "f32"])) for _ in range(2)]
        m.loss = [w if w["k"] not in ("tuple", "duck") else dict(w, k="soft") for w in m.loss]
        m.fbad = m.f.bad(4)
        m.fcw = []
        for k in ("shan", "cmor"):
            m.fcw += [m.f.cwt("f64", {"k": k, "base": k + "1.5-1.0"}) for _ in range(2)]
        return m

    def program(self, r, o, u):
        p = self.plain(r, o, u)
        dev = r.choice([0, 0, 0.3, 0.7])
        for ops in [p["setup"]] + p["tasks"]:
            for j, op in enumerate(ops):
                if op["op"] in ("call", "fn", "new") and "gm" not in op and r.random() < dev:
                    ops[j] = dict(op, gm="dev")
        return p

    def plain(self, r, o, u):
        mid = r.random() < 0.45
        if r.random() < 0.2:
            # two callers that enter and leave in turn
            p = twins(r, o, u.f.items + u.fcw + u.fbad)
            p["ambient"] = "local"
            p["after"] = [{"op": "amb_probe"}]
            return p
        setup, ops = [], []
        amb = r.choice(["f64", "f64", "f16", "seed", "seed2", "npraise", "npignore", "det", "nograd", "f64"])
        for i in range(r.choice([1, 2, 3, 4])):
            q = r.random()
            if q < 0.4:
                x = r.choice([z for z in u.objs if z["in"]])
                s = "o%d" % i
                (ops if r.random() < 0.3 else setup).append(new_op(s, x))
                ops.append(call_op(r, s, r.choice(x["in"] if r.random() < 0.85 or not x["bad"] else x["bad"])))
                if r.random() < 0.4 and x["kind"][3] in "12":
                    ops.append({"op": "prop", "slot": s})
            elif q < 0.8:
                ops.append(r.choice(u.f.items if r.random() < 0.75 else u.fbad))
            elif q < 0.9:
                s = "l%d" % i
                setup.append({"op": "wav", "slot": s, "spec": r.choice(u.loss)})
                ops.append({"op": "loss", "slot": s})
            else:
                pk = r.choice(u.pk)
                h = Packets()
                m = h.start(o, pk)
                s = "p%d" % i
                (ops if r.random() < 0.3 else setup).append(new_op(s, pk))
                op, x = h.transform(r, pk, m, s, lv=min(2, h.maxlevel(r, pk["kind"])))
                ops.append(op)
                ops += h.leaves(r, m, s)
                ops.append(h.rec(m, s))
                ops.append(h.get_op(r, m, "", s))
        if not mid:
            k = r.random()
            if k < 0.6:
                ops.insert(r.randint(0, len(ops)), {"op": "amb", "set": amb})
                if r.random() < 0.3:
                    ops.insert(r.randint(0, len(ops)), {"op": "amb", "set": {"f64": "f32", "nograd": "grad"}.get(amb, "seed2")})
            p = {"setup": setup, "tasks": [ops], "ambient": True}
            if r.random() < 0.4:
                add_faults(r, o, p, r.choice([1, 2]), only=("call", "fn", "prop"))
            return p
        # another thread changes a process wide setting in the middle of a call
        flips = []
        for _ in range(r.choice([1, 1, 2, 3])):
            flips.append({"op": "amb", "set": r.choice(["f64", "f16", "f64", "seed2", "det"])})
            if r.random() < 0.5:
                flips.append({"op": "amb", "set": r.choice(["f32", "nodet"])})
        p = {"setup": setup, "tasks": [ops, flips], "ambient": "local"}
        d = derivations(p, o)
        plan = {"order": [0, 1]}
        if r.random() < 0.7:
            plan["switches"] = gen.sample_switches(r, o, {"tasks": p["tasks"]}, [d[0], [None] * len(flips)], 4)
            for s in plan["switches"]:
                s["to"] = 1
            # after each setting change the call goes on
            for i in range(1, len(flips)):
                plan["switches"].append({"task": 1, "op": i, "loc": "op", "n": 1, "to": 0})
        else:
            plan["walk"] = {"seed": r.randrange(1 << 30), "p": r.choice([0.01, 0.05])}
        p["plan"] = plan
        return p


# --------------------------------------------------------------------- C13
class C13(Check):
    spread = 0.12
    def universe(self, r, o):
        m = Matrix(r, o, nobj=3, ninp=4, bad=True)
        f = Fns(r, o, n=5, kinds=["wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3", "swt", "cwt",
                                  "waverec", "waverec2", "iswt", "fswaverec2", "waverec3"])
        m.f = f.items
        m.fam = f.family(5)
        m.pk = C06().universe(r, o)
        # functions of a learnable wavelet that lives on
        f = Fns(r, o, n=0)
        m.learn = []
        for _ in range(2):
            w = wavelet(r, mutable=True)
            if w["k"] in ("tuple", "duck"):
                w = dict(w, k=r.choice(["product", "soft"]))
            its = []
            while len(its) < 3:
                it = f.make(r.choice(["wavedec", "wavedec2", "waverec", "swt", "iswt", "waverec2", "fswavedec2"]), w)
                if it:
                    its.append(it)
            m.learn.append((w, [{k: v for k, v in dict(it, x=dict(it["x"], dt="f64")).items() if k != "wav"} for it in its]))
        m.lfam = [(w, f.family(5, dict(r.choice(its), wav=w))) for w, its in m.learn]
        k = r.choice(["shan", "cmor"])
        w = {"k": k, "base": k + "1.5-1.0", "par": [1.3, 0.8]}
        m.learn.append((w, [{k: v for k, v in f.cwt("f64", w).items() if k != "wav"} for _ in range(2)]))
        return m

    @staticmethod
    def forward(it, s, r=None, learn=False):
        x = it["x"]
        if r is not None and r.random() < 0.4:
            x = dict(x, seed=r.randrange(4))
        # gradients of the wavelet only
        plain = learn and r is not None and r.random() < 0.5
        if "co" in x:
            return dict(it, op="fwdco", x=x if plain else dict(x, rg=1), save=s)
        return dict(it, op="fwd", x=x, save=s, **({"plain": 1} if plain else {}))

    def functions(self, r, o, u):
        """Forward passes of closely related calls, differentiated in any order."""
        ops, open_, setup = [], [], []
        learn = r.random() < 0.5
        fam = u.fam
        if learn:
            lw, fam = r.choice(u.lfam)
            if r.random() < 0.5:
                setup = [{"op": "wav", "slot": "l", "spec": lw}]
                fam = [dict(it, wav={"ref": "l"}) if it["wav"] == lw else it for it in fam]
        for i in range(r.choice([2, 3, 4, 5])):
            if r.random() < 0.3:
                ops.append(dict(r.choice(fam), **({"gm": "nograd"} if r.random() < 0.5 else {})))
            ops.append(self.forward(r.choice(fam), "g%d" % i, r, learn))
            open_.append("g%d" % i)
            if r.random() < 0.2:
                ops.append({"op": "bwd", "res": open_.pop(r.randrange(len(open_))), "seed": r.randrange(3)})
        r.shuffle(open_)
        for s in open_:
            ops.append(dict({"op": "bwd", "res": s, "seed": r.randrange(3)}, **({"sq": 1} if r.random() < 0.3 else {})))
        return {"setup": setup, "tasks": [ops]}

    def program(self, r, o, u):
        if r.random() < 0.3:
            return self.functions(r, o, u)
        setup = []
        objs = [x for x in r.sample(u.objs, r.choice([1, 2])) if x["in"]] or [x for x in u.objs if x["in"]]
        for i, x in enumerate(objs):
            setup.append(new_op("o%d" % i, x))
        pk = r.choice(u.pk)
        setup.append(new_op("p", pk))
        for j in range(len(setup)):
            if r.random() < 0.3:
                setup[j] = dict(setup[j], gm=r.choice(["nograd", "nograd", "inf"]))
        picks = [related(r, x["in"]) for x in objs]
        ops = []
        open_ = []
        n = 0
        lw, lits = r.choice(u.learn)
        setup.append({"op": "wav", "slot": "l", "spec": lw})
        for _ in range(r.choice([4, 6, 9, 13])):
            q = r.random()
            i = r.randrange(len(objs))
            if q < 0.07:
                ops.append(dict(r.choice(lits), wav={"ref": "l"}, gm=r.choice(["nograd", "nograd", "inf"])))
            elif q < 0.25:
                op = call_op(r, "o%d" % i, r.choice(picks[i]), 0.7)
                ops.append(op)
            elif q < 0.32 and objs[i]["bad"]:
                ops.append(call_op(r, "o%d" % i, r.choice(objs[i]["bad"]), 0.3))
            elif q < 0.7:
                n += 1
                s = "g%d" % n
                z = r.random()
                if z < 0.6:
                    x = r.choice(picks[i])
                    if "co" in x:
                        ops.append({"op": "fwdco", "slot": "o%d" % i, "x": dict(x, rg=1, lay="c"), "save": s})
                    else:
                        ops.append({"op": "fwd", "slot": "o%d" % i, "x": x, "save": s})
                elif z < 0.85:
                    live = r.random() < 0.5
                    it = dict(r.choice(lits), wav={"ref": "l"}) if live else r.choice(u.f)
                    ops.append(self.forward(it, s, r, live))
                else:
                    ch = "ad" if pk["kind"] == "wp1" else "ahvd"
                    lv = r.choice([1, 2])
                    ops.append({"op": "fwd", "slot": "p", "x": r.choice(pk["in"]), "maxlevel": lv, "save": s,
                                "pk": ["".join(r.choice(ch) for _ in range(r.randint(1, lv))) for _ in range(2)]})
                open_.append(s)
            elif open_:
                s = r.choice(open_)
                op = {"op": "bwd", "res": s, "seed": r.randrange(3)}
                if r.random() < 0.3:
                    op["sq"] = 1
                if r.random() < 0.4:
                    op["retain"] = 1
                else:
                    open_.remove(s)
                ops.append(op)
        for s in open_:
            ops.append({"op": "bwd", "res": s, "seed": 0})
        p = {"setup": setup, "tasks": [ops]}
        if r.random() < 0.3:
            add_faults(r, o, p, 1, only=("call", "fwd", "fwdco"))
        return p


# --------------------------------------------------------------------- C14
class C14(Check):
    block = 10
    quick = (3000, 55.0)

    def universe(self, r, o):
        out = []
        for _ in range(2):
            dt = r.choice(["f64", "f64", "f32"])
            model = r.choice(["dec", "trip", "dec2", "swt", "pk", "cwt", "cwt"])
            cfg = {"opt": r.choice(["sgd", "adam", "sgd"]), "lr": r.choice([0.01, 0.003]), "seed": r.randrange(4), "dt": dt,
                   "model": model}
            if cfg["opt"] == "sgd" and r.random() < 0.6:
                cfg["mom"] = 0.9
            if model == "cwt":
                k = r.choice(["shan", "cmor"])
                ws = [{"k": k, "base": k + "1.5-1.0"}, {"k": k, "base": k + "1.5-1.0", "par": [1.3, 0.8]}]
                cfg.update(shape=[1, 16], dt="f64", scales=[1.0, 2.5])
            else:
                k = r.choice(["product", "soft"])
                st = r.choice([1, 2, 3])
                ws = [{"k": k, "lat": i, "stages": st, "dt": dt, "scale": [1.1, 0.9, 1.05, 0.95]} for i in r.sample(range(6), 2)]
                cfg.update(mode=r.choice(PADS), level=r.choice([1, 2]), orth=r.random() < 0.5)
                cfg["shape"] = [2, 12, 8] if model == "dec2" else [2, 16]
            out.append({"ws": ws, "cfg": cfg})
        # the same learning task in the other precision
        x = r.choice(out)
        if r.random() < 0.5 and x["cfg"]["model"] != "cwt":
            dt = "f32" if x["cfg"]["dt"] == "f64" else "f64"
            out.append({"ws": [dict(w, dt=dt) for w in x["ws"]], "cfg": dict(x["cfg"], dt=dt)})
        return out

    @staticmethod
    def sibling(r, phases, c):
        """Another wavelet is learned in the same processes."""
        for ops in phases:
            if r.random() < 0.2:
                continue
            ms = [{"op": "tr_new", "slot": "m", "wav": r.choice(c["ws"]), "cfg": c["cfg"]}]
            ms += [{"op": r.choice(["tr_step", "tr_step", "tr_eval"]), "slot": "m"} for _ in range(r.choice([1, 1, 2, 3]))]
            at = sorted(r.choice([0, 0, r.randint(0, len(ops))]) for _ in ms)
            for i, op in reversed(list(zip(at, ms))):
                ops.insert(i, op)

    def program(self, r, o, u):
        c = r.choice(u)
        new = {"op": "tr_new", "slot": "l", "wav": c["ws"][0], "cfg": c["cfg"]}
        other = dict(new, wav=c["ws"][1])
        phases = []
        cur = [new]
        n = 0  # steps done for sure
        f = {"op": "tr_save", "slot": "l", "file": "f"}
        cur.append(f)
        for _ in range(r.choice([2, 3, 4])):
            for _ in range(r.choice([0, 1, 1, 2])):
                cur.append({"op": "tr_step", "slot": "l"})
                n += 1
                if r.random() < 0.4:
                    cur.append(dict(f))
                if r.random() < 0.3:
                    cur.append({"op": "tr_eval", "slot": "l"})
            if n > 6:
                break
            q = r.random()
            if q < 0.3:
                # the process dies in a step or while writing a checkpoint
                if r.random() < 0.5:
                    cur.append(dict(f, torn=r.choice([0.02, 0.3, 0.7, 0.98])))
                else:
                    cur.append({"op": "tr_step", "slot": "l", "crash": 1})
                phases.append(cur)
                cur = [r.choice([new, other]), {"op": "tr_load", "slot": "l", "file": "f"}]
                if r.random() < 0.3:
                    cur[-1]["how"] = r.choice(["assign", "replace", "data"])
                if r.random() < 0.3:
                    cur.insert(1, {"op": "tr_eval", "slot": "l"})
            elif q < 0.6:
                # an interrupted step; the live object is rolled back
                if r.random() < 0.7:
                    cur.append({"op": "tr_step", "slot": "l", "crash": 1})
                if r.random() < 0.3:
                    cur.append(dict(f, torn=r.choice([0.1, 0.9])))
                if r.random() < 0.4:
                    cur.append({"op": "drop", "slot": "l"})
                    cur.append(r.choice([new, other]))
                cur.append({"op": "tr_load", "slot": "l", "file": "f"})
                if r.random() < 0.5:
                    cur[-1]["how"] = r.choice(["assign", "replace", "data"])
            if r.random() < 0.5:
                cur.append({"op": "tr_eval", "slot": "l"})
        cur.append({"op": "tr_step", "slot": "l"})
        cur.append({"op": "tr_eval", "slot": "l"})
        phases.append(cur)
        if r.random() < 0.3:
            self.sibling(r, phases, r.choice([x for x in u if x is not c]))
        # instants of the crashes
        prof = o.profile([dict(new, slot="t"), {"op": "tr_step", "slot": "t"}])
        ph = []
        for ops in phases:
            fs = []
            for i, op in enumerate(ops):
                if op.get("crash"):
                    fl = gen.fault_from_profile(r, prof, 0, i, ["line", "aten"])
                    if fl:
                        fs.append(fl)
            ph.append({"setup": [], "tasks": [[{k: v for k, v in op.items() if k != "crash"} for op in ops]], "plan": {"faults": fs}})
        return {"phases": ph}


# --------------------------------------------------------------------- C15
class C15(Packets):
    block = 16

    def universe(self, r, o):
        m = Matrix(r, o, nobj=3, ninp=4, bad=False)
        m.pk = Packets.universe(self, r, o)
        f = Fns(r, o, n=0)
        m.wav = []
        for _ in range(2):
            specs = [wavelet(r, mutable=True)]
            st = gen.dlen(specs[0]) // 2
            specs += [{"k": specs[0]["k"], "lat": i, "stages": st, "dt": "f64"} for i in r.sample(range(6), 2)]
            its = []
            while len(its) < 3:
                it = f.make(r.choice(["wavedec", "wavedec2", "waverec", "swt"]), specs[0])
                if it:
                    its.append({k: v for k, v in dict(it, x=dict(it["x"], dt="f64")).items() if k != "wav"})
            m.wav.append({"specs": specs, "items": its})
        k = r.choice(["shan", "cmor"])
        m.wav.append({"specs": [{"k": k, "base": k + "1.5-1.0", "par": [a, b]} for a, b in ((0.9, 1.0), (1.3, 0.8))],
                      "items": [{a: b for a, b in f.cwt("f64", {"x": 1}).items() if a != "wav"} for _ in range(2)]})
        return m

    def program(self, r, o, u):
        q = r.random()
        if q < 0.4:
            x = r.choice([z for z in u.objs if z["in"]])
            picks = related(r, x["in"])

            def act(s):
                z = r.random()
                if z < 0.8 or x["kind"][3] == "3":
                    return call_op(r, s, r.choice(picks))
                return {"op": "prop", "slot": s}
            ops = [new_op("a", x)]
            hows = ["pickle", "torch", "deep", "copy"]
        elif q < 0.7:
            return self.packets(r, o, u)
        else:
            x = r.choice(u.wav)

            def act(s):
                if r.random() < 0.4:
                    return {"op": "wset", "slot": s, "spec": r.choice(x["specs"]), **how(r)}
                return dict(r.choice(x["items"]), wav={"ref": s})
            ops = [{"op": "wav", "slot": "a", "spec": r.choice(x["specs"])}]
            hows = ["pickle", "torch", "deep"]
        live = ["a"]
        for _ in range(r.choice([0, 1, 2, 3])):
            ops.append(act("a"))
        for i in range(r.choice([1, 1, 2])):
            n = "b%d" % i
            ops.append({"op": "snap", "src": r.choice(live), "slot": n, "how": r.choice(hows)})
            live.append(n)
            for _ in range(r.choice([2, 3, 5])):
                s = r.choice(live)
                if r.random() < 0.2:
                    ops.append({"op": "forkdo", "ops": [act(s) for _ in range(2)]})
                else:
                    ops.append(act(s))
        if r.random() > 0.3:
            return {"setup": [], "tasks": [ops]}
        # snapshots restored in a new process, which may have done something else
        second = []
        for s in r.sample(live, r.choice([1, min(2, len(live))])):
            out, inn = self.store(r, s)
            ops.append(out)
            if r.random() < 0.3:
                ops.append(act(s))
            second.append(inn)
        names = [op["slot"] for op in second]
        if r.random() < 0.5:
            # another object of that process, often the first one as well but of other filters
            z = dict(ops[0], slot="z")
            if q < 0.4 and r.random() < 0.75:
                z = new_op("z", u.sibling(x, False))
            first = [z, *[act("z") for _ in range(r.choice([1, 2]))]]
            if r.random() < 0.5:
                first.append({"op": "snap", "src": "z", "slot": "y", "how": r.choice(hows)})
            second = first + second
            if r.random() < 0.4:
                second.append(act("z"))
        for _ in range(r.choice([2, 3, 5])):
            second.append(act(r.choice(names)))
            if r.random() < 0.15:
                second.append({"op": "snap", "src": r.choice(names), "slot": "y", "how": r.choice(hows)})
                second.append(act("y"))
        return {"phases": [{"setup": [], "tasks": [ops]}, {"setup": [], "tasks": [second]}]}

    @staticmethod
    def store(r, s):
        """Operations that store a snapshot and restore it in a later process."""
        w = r.choice(["pickle", "pickle", "torch"])
        out = {"op": "snap_out", "src": s, "file": s, "how": w}
        if w == "pickle" and r.random() < 0.5:
            out["proto"] = r.choice([2, 3, 4, 5])
        return out, {"op": "snap_in", "slot": s, "file": s, "how": w}

    def packets(self, r, o, u):
        pk = r.choice(u.pk)
        ms = {"a": self.start(o, pk)}
        ops = [new_op("a", pk)]
        op, x = self.transform(r, pk, ms["a"], "a", lv=min(3, self.maxlevel(r, pk["kind"])))
        ops.append(op)
        xs = {"a": x}
        own = {"a": 0}  # trees of one number may hold the same tensors
        o2, xs["a"] = self.explore(r, pk, ms["a"], r.choice([0, 2, 4]), x, slot="a")
        ops += o2
        for i in range(r.choice([1, 1, 2])):
            n = "b%d" % i
            src = r.choice(sorted(ms))
            ops.append({"op": "snap", "src": src, "slot": n, "how": r.choice(["pickle", "torch", "deep", "method", "copy", "deep"])})
            own[n] = own[src] if ops[-1]["how"] in ("method", "copy") else len(own)
            ms[n] = ms[src].clone()
            xs[n] = xs[src]
            for _ in range(r.choice([2, 3])):
                s = r.choice(sorted(ms))
                z = r.random()
                if z < 0.15:
                    m2 = ms[s].clone()
                    o2, _ = self.explore(r, pk, m2, 2, xs[s], slot=s)
                    if o2:
                        ops.append({"op": "forkdo", "ops": o2})
                elif z < 0.35 and ms[s].maxlevel <= 3:
                    ops += self.leaves(r, ms[s], s)
                    e = self.set_op(r, ms[s], xs[s], s, leaf=True)
                    if e:
                        ops.append(e)
                    ops.append(self.rec(ms[s], s))
                    ops.append(self.get_op(r, ms[s], "", s))
                elif z < 0.6 and list(own.values()).count(own[s]) == 1:
                    # a coefficient of one tree edited in place
                    ops += self.read_all(r, ms[s], s, most=2)
                    e = self.edit_op(r, ms[s], s)
                    if e:
                        ops.append(e)
                        ops += [self.get_op(r, ms[t], e["key"], t) for t in sorted(ms)]
                else:
                    o2, xs[s] = self.explore(r, pk, ms[s], r.choice([2, 4]), xs[s], slot=s)
                    ops += o2
        for s in sorted(ms):
            ops += self.read_all(r, ms[s], s, most=3)
        if r.random() > 0.3:
            return {"setup": [], "tasks": [ops]}
        second = []
        if r.random() < 0.4:
            pz = self.sibling(r, pk) if r.random() < 0.5 else pk
            m = self.start(o, pz)
            second += self.create(r, pz, m, "z")[0] + self.read_all(r, m, "z", most=2)
            if r.random() < 0.4:
                second.append({"op": "snap", "src": "z", "slot": "y", "how": r.choice(["pickle", "deep", "method", "copy"])})
        names = r.sample(sorted(ms), r.choice([1, min(2, len(ms))]))
        for s in names:
            out, inn = self.store(r, s)
            ops.append(out)
            second.append(inn)
        for _ in range(r.choice([1, 2, 3])):
            s = r.choice(names)
            if r.random() < 0.3 and ms[s].maxlevel <= 3:
                second += self.leaves(r, ms[s], s) + [self.rec(ms[s], s)]
            elif r.random() < 0.25:
                e = self.edit_op(r, ms[s], s)
                second += [e] if e else []
            else:
                o2, xs[s] = self.explore(r, pk, ms[s], r.choice([1, 2, 4]), xs[s], slot=s)
                second += o2
            second += self.read_all(r, ms[s], s, most=3)
        return {"phases": [{"setup": [], "tasks": [ops]}, {"setup": [], "tasks": [second]}]}


# --------------------------------------------------------------------- C16
class C16(Check):
    spread = 0.1
    flags = {"inputs": True}

    def universe(self, r, o):
        m = Matrix(r, o, nobj=3, ninp=4, bad=False)
        for x in m.objs:
            # level 0 results are the input itself
            x["in"] = [i for i in x["in"] if self.deep(o, x, i)]
        m.f = [it for it in Fns(r, o, n=8).items if self.deepf(o, it)]
        m.pk = Packets().universe(r, o)
        return m

    @staticmethod
    def deep(o, x, i):
        out = o.get([new_op("o", x), {"op": "call", "slot": "o", "x": i}])["out"]
        if "err" in out:
            return False
        if x["kind"].startswith("dec"):
            return len(out["ok"][next(iter(out["ok"]))]) > 1
        return len(i["co"]) > 1

    @staticmethod
    def deepf(o, it):
        out = o.get([it])["out"]
        if "err" in out:
            return False
        if it["f"] in ("cwt",) or it["f"].startswith("cb"):
            return True
        if "co" in it["x"]:
            return len(it["x"]["co"]) > 1
        return len(out["ok"][next(iter(out["ok"]))]) > 1

    def program(self, r, o, u):
        objs = [x for x in u.objs if x["in"]]
        if r.random() < 0.2:
            return self.packets(r, o, r.choice(u.pk))
        objs = r.sample(objs, min(len(objs), 2))
        setup = [new_op("o%d" % i, x) for i, x in enumerate(objs)]
        nt = r.choice([1, 1, 1, 2])
        tasks = []
        picks = [related(r, x["in"]) for x in objs]
        fpick = related(r, u.f) if u.f else []
        for t in range(nt):
            ops, kept = [], []
            ins = {}
            n = 0
            for _ in range(r.choice([4, 6, 9, 13]) if nt == 1 else r.choice([3, 5])):
                q = r.random()
                if q < 0.5 or not kept:
                    n += 1
                    s = "k%d_%d" % (t, n)
                    if objs and (r.random() < 0.5 or not fpick):
                        i = r.randrange(len(objs))
                        op = {"op": "call", "slot": "o%d" % i, "x": r.choice(picks[i]), "save": s}
                    elif fpick:
                        op = dict(r.choice(fpick), save=s)
                    else:
                        continue
                    if "x" in op and r.random() < 0.5:
                        key = repr(sorted(op["x"].items()))
                        sl = ins.get(key)
                        if sl is None:
                            sl = ins[key] = ("c" if "co" in op["x"] else "t") + "%d_%d" % (t, n)
                            setup.append({"op": "coef" if "co" in op["x"] else "ten", "slot": sl, "x": op["x"]})
                        op["x"] = {"ref": sl}
                    ops.append(op)
                    kept.append(s)
                elif q < 0.7:
                    op = {"op": "scribble", "res": r.choice(kept), "val": r.choice([-77.0, 1e6, 0.5])}
                    cw = [e for e in ops if e.get("save") == op["res"] and e.get("f") == "cwt"]
                    if r.random() < 0.6:
                        op["which"] = r.randrange(12)
                    if r.random() < 0.4:
                        op["one"] = r.randint(1, 9)
                    if r.random() < (0.6 if cw else 0.12):
                        op["container"] = 1
                        if cw and r.random() < 0.5:
                            ops.append(op)
                            op = {k: v for k, v in cw[0].items() if k != "save"}
                    ops.append(op)
                elif q < 0.8 and ins:
                    key = r.choice(sorted(ins))
                    sl = ins[key]
                    x = [e["x"] for e in setup if e.get("slot") == sl and "x" in e][0]
                    seed = r.randrange(5, 9)
                    ops.append(dict({"op": "fill", "slot": sl, **how(r)}, **({"dt": x["dt"], "seed": seed} if "t" in x else
                                                                   {"x": dict(x, seed=seed)})))
                else:
                    ops.append({"op": "recheck", "res": r.choice(kept)})
            for s in kept:
                ops.append({"op": "recheck", "res": s})
            tasks.append(ops)
        p = {"setup": setup, "tasks": tasks}
        if nt > 1:
            p["plan"] = schedule(r, o, p)
        return p


    def packets(self, r, o, pk):
        """Coefficients read from a tree and kept.

        Overwriting one in place edits that node of the tree (leaves only, so
        that what other nodes hold stays determined); no other one may follow.
        """
        h = Packets()
        m = h.start(o, pk)
        lv = min(h.maxlevel(r, pk["kind"]), 3)
        ops, x = h.create(r, pk, m, "p", lv)
        kept = {}
        seen = set()  # reading a node again returns the same tensor
        n = 0
        for _ in range(r.choice([1, 2, 3])):
            todo = h.leaves(r, m, "p")
            keys = m.leaf_keys()
            ops += todo
            if r.random() < 0.25:
                lv_ = h.levels(r, pk)
                ops += [lv_, {k: v for k, v in lv_.items() if k != "edit"}]
            for k in r.sample(keys, min(len(keys), r.choice([1, 2, 4]))) + ([r.choice(keys)[:-1]] if lv > 1 else []):
                if k in seen:
                    continue
                seen.add(k)
                n += 1
                s = "k%d" % n
                ops.append({"op": "pk_get", "slot": "p", "key": k, "save": s})
                kept[s] = (k, len(ops))
            for _ in range(r.choice([0, 1, 2])):
                s = r.choice(sorted(kept))
                if r.random() < 0.5:
                    ops.append({"op": "recheck", "res": s})
            e = h.set_op(r, m, x, "p", leaf=True) if r.random() < 0.5 else None
            if e:
                ops.append(e)
            q = r.random()
            if q < 0.4:
                ops.append(h.rec(m, "p"))
                ops.append({"op": "pk_get", "slot": "p", "key": ""})
            elif q < 0.7:
                op, x = h.transform(r, pk, m, "p", lv)
                ops.append(op)
                seen.clear()
            else:
                seen.clear()
                # results of an earlier tree are nobody else's now
                op, x = h.transform(r, pk, m, "p", lv)
                ops.append(op)
                for s in r.sample(sorted(kept), min(len(kept), 2)):
                    if kept[s][0]:
                        ops.append({"op": "scribble", "res": s, "val": -77.0})
                ops += h.read_all(r, m, "p", most=3)
            for s in sorted(kept):
                ops.append({"op": "recheck", "res": s})
        ops += h.read_all(r, m, "p", most=4)
        return {"setup": [], "tasks": [ops]}


ALL = {c.__name__: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16)}
