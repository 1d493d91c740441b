"""Decides a recorded run: symbolic replay of its operations against the oracle.

The symbolic state says what every slot holds in terms of specifications, so
that the minimal derivation of an operation (create the object, perform this
one operation) can be executed in a process that did nothing else.
"""
import copy

import numpy as np
import pywt

from . import core
from .packetmodel import Model, Refused, Unknown

OBJ = ("dec1", "rec1", "dec2", "rec2", "dec3", "rec3")
NDT = {"f32": "float32", "f64": "float64"}


def dec_len(w):
    if "lat" in w:
        return 2 * w["stages"]
    return pywt.Wavelet(w["base"]).dec_len


class Sym:
    """Symbolic state of one run (program order within tasks)."""

    def __init__(self, oracle):
        self.o = oracle
        self.s = {}
        self.res = {}  # saved results: derivation
        self.resval = {}  # expected present value of saved results
        self.files = {}

    # ------------------------------------------------------------- resolve
    def wav(self, w):
        return self.s[w["ref"]]["spec"] if "ref" in w else w

    def x(self, x):
        """-> (derivation prefix, resolved argument)."""
        if "ref" in x:
            return [], self.s[x["ref"]]["x"]
        if "res" in x:
            return self.res[x["res"]], x
        return [], x

    def new_ops(self, slot, name):
        e = self.s[slot]
        return [{"op": "new", "slot": name, "spec": e["spec"], "wav": e["wav"]}]

    def derive(self, op):
        """Operations of the minimal derivation; the last one is judged."""
        k = op["op"]
        o = dict(op)
        if o.get("gm") == "dev":  # the default device does not matter
            del o["gm"]
        pre = []
        if "x" in o and k not in ("ten", "coef", "fill"):
            p, o["x"] = self.x(o["x"])
            pre += p
        if "wav" in o:
            o["wav"] = self.wav(o["wav"])
        if k == "fn" and o.get("sk") == "ref":
            pre += [{"op": "ten", "slot": "sc", "x": self.s[o["sc"]]["x"]}]
            o["sc"] = "sc"
        if k in ("call", "prop", "fwd", "fwdco") and "slot" in o:
            n = "o%d" % len(pre)
            pre += self.new_ops(o["slot"], n)
            o["slot"] = n
        elif k == "trip":
            pre += self.new_ops(o["dec"], "d") + self.new_ops(o["rec"], "r")
            o["dec"], o["rec"] = "d", "r"
        elif k == "pk_ptrip":
            pre += self.new_ops(o["slot"], "p")
            o["slot"] = "p"
        elif k == "bwd":
            pre += self.res[o["res"]]
        elif k == "new":
            o["slot"] = "o"
        elif k in ("tr_step", "tr_eval"):
            e = self.s[o["slot"]]
            pre += [{"op": "tr_new", "slot": "t", "wav": e["wav"], "cfg": e["cfg"]}]
            pre += [{"op": "tr_step", "slot": "t"}] * e["n"]
            o["slot"] = "t"
        elif k == "loss":
            pre += [{"op": "wav", "slot": "w", "spec": self.s[o["slot"]]["spec"]}]
            o["slot"] = "w"
        return pre + [o]

    def model_of(self, slot):
        return self.s[slot]["model"]

    # ------------------------------------------------- effect of operations
    def apply(self, op):
        """Symbolic effect of an undisturbed operation (before or after judging it)."""
        k = op["op"]
        if k == "wav":
            self.s[op["slot"]] = {"spec": op["spec"]}
        elif k == "wset":
            e = self.s[op["slot"]]
            e["spec"] = self._wset(e["spec"], op["spec"])
        elif k in ("ten", "coef"):
            self.s[op["slot"]] = {"x": op["x"]}
        elif k == "fill":
            e = self.s[op["slot"]]
            x = dict(e["x"])
            if "vals" in x:
                x["vals"] = op["vals"]
            elif "t" in x:
                x["seed"] = op["seed"]
                x["kind"] = op.get("kind", "n")
            else:
                x["seed"] = op["x"]["seed"]
                x["kind"] = op["x"].get("kind", "n")
            e["x"] = x
        elif k == "new":
            w = self.wav(op["wav"])
            e = {"spec": op["spec"], "wav": w}
            if op["spec"]["kind"] in ("wp1", "wp2"):
                e["model"] = Model(self.o, op["spec"]["kind"], op["spec"].get("kw", {}), w, dec_len(w))
            self.s[op["slot"]] = e
        elif k == "snap":
            e = self.s.get(op["src"])
            if e is not None:
                n = dict(e)
                if "model" in e:
                    n["model"] = e["model"].clone()
                if "hist" in e:
                    n["hist"] = list(e["hist"])
                self.s[op["slot"]] = n
        elif k == "pk_transform":
            m = self.s[op["slot"]]["model"]
            _, x = self.x(op["x"])
            from . import world
            m.transform(world.make_tensor(x).detach().numpy(), NDT[x["dt"]], op.get("maxlevel"))
        elif k in ("pk_get", "pk_init"):
            m = self.s[op["slot"]]["model"]
            for key in op.get("keys", [op.get("key")]):
                try:
                    m.get(key)
                except (Refused, Unknown):
                    pass
        elif k == "drop":
            self.s.pop(op["slot"], None)
        elif k == "tr_new":
            self.s[op["slot"]] = {"wav": self.wav(op["wav"]), "cfg": op["cfg"], "n": 0, "spec": self.wav(op["wav"])}
        if "save" in op and k not in ("prop",):
            try:
                self.res[op["save"]] = self.derive(op)
            except KeyError:
                pass

    @staticmethod
    def _wset(old, new):
        if old["k"] == "cont":
            o = dict(old)
            o["attr"] = dict(old.get("attr") or {}, **new["attr"])
            return o
        o = dict(new)
        return o


class Judge:
    def __init__(self, oracle):
        self.o = oracle

    def judge(self, prog, res):
        """List of violations [{op, why, ...}] of a run."""
        sym = Sym(self.o)
        if "phases" in prog:
            V = []
            for n, (p, r) in enumerate(zip(prog["phases"], res["phases"])):
                sym.s, sym.res, sym.resval = {}, {}, {}
                for v in self._one_process(sym, p, r):
                    V.append(dict(v, phase=n))
            return V
        return self._one_process(sym, prog, res)

    def _one_process(self, sym, prog, res):
        if "died" in res:
            return [{"op": None, "why": "process died with status %s" % res["died"]}]
        V = []
        if res["fatal"]:
            V.append({"op": None, "why": "does not end: " + res["fatal"]})
        for op in prog.get("setup", ()):
            sym.apply(op)
        faulted = {(f["task"], f["op"]) for f in res["fired"]}
        self.deferred = []
        tasks = prog["tasks"] + [prog.get("after", [])]
        for h in res["hist"]:
            op = tasks[h["task"]][h["i"]]
            f = (h["task"], h["i"]) in faulted
            at = {"task": h["task"], "i": h["i"], "op": op, "text": h["text"]}
            why = self.one(sym, op, h, f)
            if callable(why):
                self.deferred.append((why, at))
                why = None
            if why:
                V.append(dict(at, why=why))
            if h.get("changed"):
                V.append(dict(at, why="input %s modified" % ", ".join(h["changed"])))
            if h.get("amb"):
                V.append(dict(at, why="setting %s changed" % ", ".join(h["amb"])))
        for fn, at in self.deferred:
            why = fn()
            if why:
                V.append(dict(at, why=why))
        for b in res.get("bad_inputs", ()):
            V.append({"op": None, "why": "input %s modified while a call was running" % b["name"], "at": b})
        return V

    # ------------------------------------------------------------ one op
    def one(self, sym, op, h, faulted):
        k = op["op"]
        got = h["out"]
        err = got.get("err")
        fn = getattr(self, "j_" + k, None)
        if fn is not None:
            return fn(sym, op, h, faulted)
        if k in ("call", "fn", "fwd", "fwdco", "bwd", "loss", "prop", "forkdo"):
            raise AssertionError(k)
        # plain bookkeeping operations
        if err and not faulted:
            if k == "new":
                want = self.o.get(sym.derive(op))["out"]
                if "err" in want:
                    return None if want["err"] == err else "raised %s instead of %s" % (err, want["err"])
            return "%s raised %s" % (k, err)
        if not err:
            sym.apply(op)
        return None

    def _pristine(self, sym, op, h, faulted, factor=1.0):
        try:
            d = sym.derive(op)
        except KeyError:
            return None  # refers to something a failed operation did not create
        got = h["out"]
        if faulted and "err" in got:
            return None
        want = self.o.get(d)
        if want["fatal"]:
            return "does not end in a process that did nothing else: " + want["fatal"]
        w = want["out"]
        if any("err" in a for a in want.get("all", [])[:-1]):
            return None  # derivation impossible
        return core.same_outcome(got, w, factor)

    def j_call(self, sym, op, h, faulted):
        if op["slot"] not in sym.s:
            return None
        why = self._pristine(sym, op, h, faulted)
        ok = "err" not in h["out"]
        d = sym.derive(op)
        sym.s[op["slot"]].setdefault("hist", []).append((h["inv"], h["ret"], ok, d, faulted))
        self._saved(sym, op, h)
        return why

    def _saved(self, sym, op, h):
        if "save" not in op:
            return
        if "err" in h["out"]:
            sym.res.pop(op["save"], None)
            sym.resval.pop(op["save"], None)
            return
        sym.res[op["save"]] = sym.derive(op)
        sym.resval[op["save"]] = [np.array(t, copy=True) for t in _only_t(h["out"]["ok"])]

    def j_fn(self, sym, op, h, faulted):
        why = self._pristine(sym, op, h, faulted)
        self._saved(sym, op, h)
        return why

    j_fwd = j_fn
    j_fwdco = j_fn

    def j_bwd(self, sym, op, h, faulted):
        if op["res"] not in sym.res:
            return None
        return self._pristine(sym, op, h, faulted, 20.0)

    def j_loss(self, sym, op, h, faulted):
        return self._pristine(sym, op, h, faulted)

    # operators
    def j_prop(self, sym, op, h, faulted):
        e = sym.s.get(op["slot"])
        if e is None:
            return None
        got = h["out"]
        if faulted and "err" in got:
            return None
        d = sym.derive(op)
        # calls that overlap this read are known only once the whole run is seen
        return lambda: self._prop(e.get("hist", []), op, h, d)

    def _prop(self, hist, op, h, d):
        got = h["out"]
        pre = [c for c in hist if c[0] < h["ret"]]
        fixed = [c for c in pre if c[2] and c[1] < h["inv"]]
        last = max((c[0] for c in fixed), default=float("-inf"))
        # a call that ended before a completed later call began is overwritten
        cand = [c for c in pre if c[1] > last]
        wants = [self._prop_after(op, c) for c in cand]
        if not fixed:
            wants.append(self.o.get(d)["out"])
        reasons = []
        for w in wants:
            r = core.same_outcome(got, w)
            if r is None:
                reasons = []
                break
            reasons.append(r)
        if reasons:
            return "operator is not that of the latest call: " + reasons[0]
        if len(cand) == 1 and cand[0][2] and "ok" in got:
            return self._operator_applies(cand[0], got)
        return None

    def _prop_after(self, op, c):
        d = list(c[3])
        last = dict(d[-1])
        last.pop("save", None)
        slot = last["slot"]
        return self.o.get(d[:-1] + [last, {"op": "prop", "slot": slot}])["out"]

    def _operator_applies(self, c, got):
        """operator @ flattened argument == flattened result of the latest call."""
        d = c[3]
        kind = [o for o in d if o["op"] == "new"][-1]["spec"]
        if kind.get("kw", {}).get("axis") is not None or kind.get("kw", {}).get("axes") is not None:
            return None
        x = d[-1]["x"]
        if "res" in x:
            return None
        m = got["ok"]["T"]
        out = self.o.get(d)["out"]
        if "err" in out:
            return None
        from . import world
        nd = 1 if kind["kind"].endswith("1") else 2
        if "co" in x:
            arrs = [t.detach().numpy() for t in world.leaves(world.make_coefs(x))]
        else:
            arrs = [world.make_tensor(x).detach().numpy()]
        outs = core.tensors(out["ok"])
        if any(a.ndim != nd for a in arrs + outs):
            return None
        fl = lambda v: np.concatenate([a.T.reshape(-1) for a in v])  # noqa: E731
        a, b = fl(arrs), fl(outs)
        if m.shape != (b.size, a.size):
            return None
        r = core.close((m @ a).astype(m.dtype), b.astype(m.dtype), 50.0)
        return None if r is None else "operator times input is not the result of the call: " + r

    def j_prop_edit(self, sym, op, h, faulted):
        return "editing an operator raised %s" % h["out"]["err"] if "err" in h["out"] and not faulted else None

    # round trips
    def j_trip(self, sym, op, h, faulted):
        got = h["out"]
        if op.get("dec") not in sym.s and op["op"] == "trip":
            return None
        if "err" in got:
            if faulted:
                return None
            want = self.o.get(sym.derive(op))["out"]
            if "err" in want and want["err"] == got["err"] and not op.get("must"):
                return None
            return "round trip raised %s" % got["err"]
        x, r = [t["T"] for t in got["ok"]["L"]]
        return restored(x, r, op.get("ax"))

    j_ftrip = j_trip
    j_pk_ptrip = j_trip

    # results kept by the caller
    def j_recheck(self, sym, op, h, faulted):
        want = sym.resval.get(op["res"])
        if want is None:
            return None
        if "err" in h["out"]:
            return "reading a kept result raised %s" % h["out"]["err"]
        got = _only_t(h["out"]["ok"])
        if len(got) != len(want):
            return "a kept result changed its structure"
        for i, (a, b) in enumerate(zip(got, want)):
            if a.shape != b.shape or a.dtype != b.dtype or not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
                return "a kept result changed (entry %d)" % i
        return None

    def j_scribble(self, sym, op, h, faulted):
        if op["res"] not in sym.resval:
            return None
        if "err" in h["out"]:
            return "overwriting a returned tensor raised %s" % h["out"]["err"]
        v = sym.resval[op["res"]]
        if op.get("container"):
            sym.resval.pop(op["res"])
            return None
        for i, t in enumerate(v):
            if op.get("which") is None or i == op["which"] % max(1, len(v)):
                if op.get("one") and t.size:
                    t[tuple(op["one"] % n for n in t.shape)] = op.get("val", -77.0)
                else:
                    t[...] = op.get("val", -77.0)
        return None

    # snapshots
    def j_snap(self, sym, op, h, faulted):
        if op["src"] not in sym.s:
            return None
        if "err" in h["out"]:
            return "%s snapshot raised %s" % (op["how"], h["out"]["err"])
        sym.apply(op)
        return None

    @staticmethod
    def _clone(e):
        n = dict(e)
        if "model" in e:
            n["model"] = e["model"].clone()
        if "hist" in e:
            n["hist"] = list(e["hist"])
        return n

    def j_snap_out(self, sym, op, h, faulted):
        if op["src"] not in sym.s:
            return None
        if "err" in h["out"]:
            return "%s snapshot raised %s" % (op["how"], h["out"]["err"])
        e = self._clone(sym.s[op["src"]])
        # what happened lies before everything of a later process
        e["hist"] = [(a - 1e9, b - 1e9) + tuple(rest) for a, b, *rest in e.get("hist", ())]
        sym.files[op["file"]] = e
        return None

    def j_snap_in(self, sym, op, h, faulted):
        if op["file"] not in sym.files:
            return None
        if "err" in h["out"]:
            return "restoring a %s snapshot in a new process raised %s" % (op["how"], h["out"]["err"])
        sym.s[op["slot"]] = self._clone(sym.files[op["file"]])
        return None

    def j_forkdo(self, sym, op, h, faulted):
        if "err" in h["out"]:
            return "forking raised %s" % h["out"]["err"]
        got = h["out"]["ok"]["outcomes"]
        if got is None:
            return "a forked worker died"
        sub = copy.copy(sym)
        sub.s = {k: (dict(v, model=v["model"].clone()) if "model" in v else dict(v)) for k, v in sym.s.items()}
        sub.res = dict(sym.res)
        sub.resval = dict(sym.resval)
        for k, v in sub.s.items():
            if "hist" in v:
                v["hist"] = list(v["hist"])
        t = h["inv"]
        for i, (o, g) in enumerate(zip(op["ops"], got)):
            t += 1e-6
            why = self.one(sub, o, {"out": g, "text": "", "inv": t, "ret": t + 5e-7, "task": 0, "i": i}, False)
            why = why() if callable(why) else why
            if why:
                return "in a forked worker, op %d %s: %s" % (i, o["op"], why)
        return None

    # packet trees
    def _model(self, sym, op):
        e = sym.s.get(op["slot"])
        return e.get("model") if e else None

    def j_pk_transform(self, sym, op, h, faulted):
        m = self._model(sym, op)
        if m is None:
            return None
        got = h["out"]
        if "err" in got:
            if faulted:
                m.transform_failed()
                return None
            return "transform raised %s" % got["err"]
        _, x = sym.x(op["x"])
        from . import world
        a = world.make_tensor(x).detach().numpy()
        lv = m.transform(a, NDT[x["dt"]], op.get("maxlevel"))
        g = got["ok"]["D"]
        if g["self"]["v"] is not True:
            return "transform does not return the object"
        if g["maxlevel"]["v"] != lv:
            return "maximum level %r instead of %r" % (g["maxlevel"]["v"], lv)
        return None

    def j_pk_new(self, sym, op, h, faulted):
        if "err" in h["out"]:
            sym.s.pop(op["slot"], None)
            return None if faulted else "creating a tree raised %s" % h["out"]["err"]
        sym.apply(dict(op, op="new"))
        return self.j_pk_transform(sym, op, h, faulted)

    def j_pk_levels(self, sym, op, h, faulted):
        return self._pristine(sym, {k: v for k, v in op.items() if k != "edit"}, h, faulted)

    def j_pk_items(self, sym, op, h, faulted):
        m = self._model(sym, op)
        if m is None or m.lost or m.maxlevel is None:
            return None
        if "err" in h["out"]:
            return None if faulted else "reading the tree as a mapping raised %s" % h["out"]["err"]
        got = {k[2:]: v for k, v in h["out"]["ok"]["D"].items()}
        for k in sorted(got):
            try:
                why = self._node(m.clone(), k, got[k]["T"])
            except (Refused, Unknown):
                continue
            if why:
                return why
        return None

    def j_amb_probe(self, sym, op, h, faulted):
        if "err" in h["out"]:
            return "reading the settings raised %s" % h["out"]["err"]
        d = [v["v"] for v in h["out"]["ok"]["L"]]
        return "settings left changed: " + ", ".join(d) if d else None

    def j_pk_bad(self, sym, op, h, faulted):
        m = self._model(sym, op)
        if m is None:
            return None
        if "err" not in h["out"]:
            m.transform_failed()
            return "transform accepted invalid data"
        return None

    def _node(self, m, key, arr):
        v = m.get(key)
        if m.dtype and str(arr.dtype) != m.dtype:
            return "node '%s' has dtype %s instead of %s" % (key, arr.dtype, m.dtype)
        r = core.close(arr, v.astype(arr.dtype), 20.0)
        return None if r is None else "node '%s' %s" % (key, r)

    def j_pk_get(self, sym, op, h, faulted):
        m = self._model(sym, op)
        if m is None:
            return None
        got = h["out"]
        key = op["key"]
        if "err" in got:
            if faulted:
                m.tried(key)
                return None
            try:
                m.get(key)
            except Refused as e:
                return None if got["err"] == str(e) else "raised %s instead of %s" % (got["err"], e)
            except Unknown:
                m.tried(key)
                return None
            return "reading node '%s' raised %s" % (key, got["err"])
        try:
            why = self._node(m, key, got["ok"]["T"])
        except Refused as e:
            return "reading node '%s' did not raise %s" % (key, e)
        except Unknown:
            m.tried(key)
            return None
        if "save" in op:
            sym.resval[op["save"]] = [np.array(got["ok"]["T"], copy=True)]
        return why

    def j_pk_init(self, sym, op, h, faulted):
        m = self._model(sym, op)
        if m is None:
            return None
        got = h["out"]
        if faulted and "err" in got:
            for k in op["keys"]:
                m.tried(k)
            return None
        was = m.clone()
        for i, k in enumerate(op["keys"]):
            try:
                m.get(k)
            except Refused as e:
                # the keys before it may or may not be present now
                m.sure, m.maybe = was.sure, was.maybe
                for kk in op["keys"][:i]:
                    m.tried(kk)
                if "err" not in got:
                    return "initialising '%s' did not raise %s" % (k, e)
                return None if got["err"] == str(e) else "raised %s instead of %s" % (got["err"], e)
            except Unknown:
                for kk in op["keys"]:
                    m.tried(kk)
                return None
        return "initialising nodes raised %s" % got["err"] if "err" in got else None

    def j_pk_set(self, sym, op, h, faulted):
        m = self._model(sym, op)
        if m is None:
            return None
        if "err" in h["out"]:
            return None if faulted else "assigning a node raised %s" % h["out"]["err"]
        from . import world
        if not m.lost:
            m.set(op["key"], world.make_tensor(sym.x(op["x"])[1]).detach().numpy())
        return None

    def j_pk_edit(self, sym, op, h, faulted):
        m = self._model(sym, op)
        if m is None:
            return None
        if "err" in h["out"]:
            return None if faulted else "editing a coefficient in place raised %s" % h["out"]["err"]
        if h["out"]["ok"]["v"] is not True or m.lost or m.maxlevel is None:
            return None
        try:
            m.set(op["key"], m.value(op["key"]) * op["c"])
        except Unknown:
            m.set(op["key"], np.zeros(1))
            m.pin[op["key"]] = None
        return None

    def j_pk_del(self, sym, op, h, faulted):
        m = self._model(sym, op)
        if m is None:
            return None
        known = m.delete(op["key"])
        if op.get("how") == "pop" and known is not True:
            m.tried(op["key"])  # reads the node first
        if known is True and "err" in h["out"] and not faulted:
            return "deleting a present node raised %s" % h["out"]["err"]
        if known is False and "err" not in h["out"]:
            return None
        return None

    def j_pk_rec(self, sym, op, h, faulted):
        m = self._model(sym, op)
        if m is None:
            return None
        got = h["out"]
        if faulted and "err" in got:
            m.reconstruct_failed()
            return None
        if m.maxlevel is None and not m.lost:
            return None
        try:
            m.reconstruct()
        except Refused as e:
            if "err" not in got:
                return "reconstruct accepted a tree without all leaves"
            return None if got["err"] == str(e) else "raised %s instead of %s" % (got["err"], e)
        except Unknown:
            return None
        if "err" in got:
            return "reconstruct raised %s" % got["err"]
        if got["ok"]["D"]["self"]["v"] is not True:
            return "reconstruct does not return the object"
        return None

    # learning
    def j_tr_new(self, sym, op, h, faulted):
        if "err" in h["out"]:
            return None if faulted else "creating a learner raised %s" % h["out"]["err"]
        sym.apply(op)
        return None

    def j_tr_step(self, sym, op, h, faulted):
        e = sym.s.get(op["slot"])
        if e is None:
            return None
        got = h["out"]
        if "err" in got and faulted:
            e["n"] = None
            return None
        if e["n"] is None:
            return None
        why = self._pristine(sym, op, h, faulted, 200.0)
        e["n"] = e["n"] + 1 if "err" not in got else None
        return why

    def j_tr_eval(self, sym, op, h, faulted):
        e = sym.s.get(op["slot"])
        if e is None or e["n"] is None:
            return None
        return self._pristine(sym, op, h, faulted, 200.0)

    def j_tr_save(self, sym, op, h, faulted):
        e = sym.s.get(op["slot"])
        if e is None or "err" in h["out"]:
            if e is not None and not faulted and "err" in h["out"]:
                return "saving a checkpoint raised %s" % h["out"]["err"]
            return None
        g = sym.files.setdefault(op["file"], [])
        g.append(("torn",) if op.get("torn") is not None else (e["wav"], e["cfg"], e["n"]))
        del g[:-2]
        return None

    def j_tr_load(self, sym, op, h, faulted):
        e = sym.s.get(op["slot"])
        if e is None:
            return None
        if "err" in h["out"]:
            e["n"] = None
            return None if faulted else "restoring a checkpoint raised %s" % h["out"]["err"]
        for g in reversed(sym.files.get(op["file"], [])):
            if g[0] != "torn":
                e["wav"], e["n"] = g[0], g[2]
                break
        return None


def _only_t(n):
    k = next(iter(n))
    v = n[k]
    if k == "T":
        return [v]
    if k == "D":
        return [t for kk in sorted(v) for t in _only_t(v[kk])]
    if k in ("L", "P", "W"):
        return [t for e in v for t in _only_t(e)]
    return []


def restored(x, r, axes=None):
    """The reconstruction is the signal, up to one trailing sample of odd lengths."""
    if x.dtype != r.dtype:
        return "restored signal has dtype %s instead of %s" % (r.dtype, x.dtype)
    if x.ndim != r.ndim:
        return "restored signal has shape %s instead of %s" % (r.shape, x.shape)
    ax = [a % x.ndim for a in (axes if axes is not None else [-1])]
    for i in range(x.ndim):
        extra = r.shape[i] - x.shape[i]
        if extra and not (extra == 1 and i in ax and x.shape[i] % 2):
            return "restored signal has shape %s instead of %s" % (r.shape, x.shape)
    r = r[tuple(slice(0, n) for n in x.shape)]
    d = float(np.abs(r.astype(np.float64) - x.astype(np.float64)).max()) if x.size else 0.0
    scale = float(np.abs(x).max()) if x.size else 0.0
    tol = (1e-7 if x.dtype == np.float64 else 2e-3) * (scale + 1e-3)
    if not d <= tol:
        return "restored signal differs by %.3g (scale %.3g)" % (d, scale)
    return None
