"""Executable reference model of a wavelet packet tree.

The model is a dictionary of pinned nodes; every other node is one single level
step away from its parent.  The single level steps are matrices obtained by
transforming unit vectors in processes that did nothing else, applied here with
numpy along the transformed axes; nothing is cached lazily and nothing of
ptwt.packets is used.
"""
from itertools import product

import numpy as np
import pywt


class Unknown(Exception):
    """The properties do not determine this value."""


class Refused(Exception):
    """The operation must raise an error of this class."""


class Steps:
    """Single level analysis and synthesis matrices for one wavelet and mode."""

    def __init__(self, oracle, wav, mode, orth):
        self.o, self.wav, self.mode, self.orth = oracle, wav, mode, orth
        self.dt = "f64"  # rounding may change how boundary filters are completed

    def _mats(self, ops):
        from . import core
        out = self.o.get(ops)["out"]
        if "err" in out:
            raise Unknown("single step not available: " + out["err"])
        return [t.astype(np.float64) for t in core.tensors(out["ok"])]

    def ana1(self, n):
        """[low, high] matrices (m, n)."""
        x = {"eye": n, "dt": self.dt}
        if self.mode == "boundary":
            ops = [{"op": "new", "slot": "o", "spec": {"kind": "dec1", "level": 1, "kw": {"orthogonalization": self.orth}},
                    "wav": self.wav}, {"op": "call", "slot": "o", "x": x}]
        else:
            ops = [{"op": "fn", "f": "wavedec", "wav": self.wav, "x": x, "kw": {"level": 1, "mode": self.mode}}]
        m = self._mats(ops)
        if len(m) != 2:
            raise Unknown("size too small for a level")
        return [a.T for a in m]

    def syn1(self, m):
        out = []
        for w in (0, 1):
            x = {"eyeco": m, "n": 2, "which": w, "dt": self.dt}
            if self.mode == "boundary":
                ops = [{"op": "new", "slot": "o", "spec": {"kind": "rec1", "kw": {"orthogonalization": self.orth}},
                        "wav": self.wav}, {"op": "call", "slot": "o", "x": x}]
            else:
                ops = [{"op": "fn", "f": "waverec", "wav": self.wav, "x": x}]
            out.append(self._mats(ops)[0].T)
        return out

    def ana2(self, n):
        """Joint (non separable) boundary matrices on row-major images."""
        ops = [{"op": "new", "slot": "o", "spec": {"kind": "dec2", "level": 1, "kw": {
            "orthogonalization": self.orth, "separable": False}}, "wav": self.wav},
            {"op": "call", "slot": "o", "x": {"eye": list(n), "dt": self.dt}}]
        m = self._mats(ops)
        if len(m) != 4:
            raise Unknown("size too small for a level")
        return m  # each (n0*n1, m0, m1)

    def syn2(self, m):
        out = []
        for w in range(4):
            ops = [{"op": "new", "slot": "o", "spec": {"kind": "rec2", "kw": {
                "orthogonalization": self.orth, "separable": False}}, "wav": self.wav},
                {"op": "call", "slot": "o", "x": {"eyeco": list(m), "n": 4, "which": w, "dt": self.dt}}]
            out.append(self._mats(ops)[0])
        return out


def along(mat, a, axis):
    return np.moveaxis(np.tensordot(mat, a, axes=([1], [axis])), 0, axis)


class Model:
    """kind wp1|wp2; spec kw as given to the constructor."""

    def __init__(self, oracle, kind, kw, wav, dec_len):
        self.kind = kind
        self.mode = kw.get("mode", "reflect")
        self.sep = kw.get("separable", False)
        self.steps = Steps(oracle, wav, self.mode, kw.get("orthogonalization", "qr"))
        if kind == "wp1":
            ax = kw.get("axis")
            self.axes = (ax if ax is not None else -1,)
        else:
            ax = kw.get("axes")
            self.axes = tuple(ax) if ax is not None else (-2, -1)
        self.ch = "ad" if kind == "wp1" else "ahvd"
        self.dec_len = dec_len
        self.maxlevel = None
        self.lost = False  # between two trees after an interrupted transform
        self.reset()

    def reset(self):
        self.dtype = None
        self.pin = {}  # key -> array (float64) or None if not determined
        self.sure = set()  # keys present for sure
        self.maybe = set()  # keys that may be present
        self.memo = {}

    def clone(self):
        m = Model.__new__(Model)
        m.__dict__.update(self.__dict__)
        m.pin = dict(self.pin)
        m.sure = set(self.sure)
        m.maybe = set(self.maybe)
        m.memo = {}
        return m

    # ------------------------------------------------------- single steps
    def _axes(self, nd):
        return [a % nd for a in self.axes]

    def ana(self, a):
        ax = self._axes(a.ndim)
        if self.kind == "wp1":
            lo, hi = self.steps.ana1(a.shape[ax[0]])
            return {"a": along(lo, a, ax[0]), "d": along(hi, a, ax[0])}
        n = (a.shape[ax[0]], a.shape[ax[1]])
        if self.mode == "boundary" and min(n) < self.dec_len:
            raise Unknown("size too small for a level")
        if self.mode == "boundary" and not self.sep:
            out = {}
            ms = self.steps.ana2(n)
            b = np.moveaxis(a, ax, (-2, -1))
            f = b.reshape(b.shape[:-2] + (n[0] * n[1],))
            for c, m in zip("ahvd", ms):
                r = np.tensordot(f, m, axes=([f.ndim - 1], [0]))
                out[c] = np.moveaxis(r, (-2, -1), ax)
            return out
        r, c = self.steps.ana1(n[0]), self.steps.ana1(n[1])
        # names of the sub-bands: which axis is filtered high
        hv = {"a": (0, 0), "h": (0, 1), "v": (1, 0), "d": (1, 1)} if self.sep else \
            {"a": (0, 0), "h": (1, 0), "v": (0, 1), "d": (1, 1)}
        return {k: along(c[j], along(r[i], a, ax[0]), ax[1]) for k, (i, j) in hv.items()}

    def syn(self, ch):
        a = ch["a"]
        ax = self._axes(a.ndim)
        shapes = {v.shape for v in ch.values()}
        if len(shapes) != 1:
            raise Unknown("sub-bands of different shapes")
        if self.kind == "wp1":
            lo, hi = self.steps.syn1(a.shape[ax[0]])
            return along(lo, ch["a"], ax[0]) + along(hi, ch["d"], ax[0])
        m = (a.shape[ax[0]], a.shape[ax[1]])
        if self.mode == "boundary" and not self.sep:
            tot = 0
            for c, s in zip("ahvd", self.steps.syn2(m)):
                b = np.moveaxis(ch[c], ax, (-2, -1))
                f = b.reshape(b.shape[:-2] + (m[0] * m[1],))
                tot = tot + np.tensordot(f, s, axes=([f.ndim - 1], [0]))
            return np.moveaxis(tot, (-2, -1), ax)
        r, c = self.steps.syn1(m[0]), self.steps.syn1(m[1])
        hv = {"a": (0, 0), "h": (0, 1), "v": (1, 0), "d": (1, 1)} if self.sep else \
            {"a": (0, 0), "h": (1, 0), "v": (0, 1), "d": (1, 1)}
        return sum(along(c[j], along(r[i], ch[k], ax[0]), ax[1]) for k, (i, j) in hv.items())

    # ------------------------------------------------------------ the tree
    def value(self, key):
        """Expected coefficient of a node."""
        if key in self.pin:
            if self.pin[key] is None:
                raise Unknown(key)
            return self.pin[key]
        if key == "":
            raise Unknown("no root")
        if key not in self.memo:
            for k, v in self.ana(self.value(key[:-1])).items():
                self.memo[key[:-1] + k] = v
        return self.memo[key]

    def transform(self, a, dtype, maxlevel):
        self.reset()
        self.lost = False
        self.dtype = dtype
        dtype = {"float32": "f32", "float64": "f64"}.get(dtype, dtype)
        if dtype in ("f32", "f64") and dtype != self.steps.dt:
            self.steps = Steps(self.steps.o, self.steps.wav, self.steps.mode, self.steps.orth)
            self.steps.dt = dtype
        a = np.asarray(a, dtype=np.float64)
        self.pin[""] = a
        self.sure.add("")
        self.maybe.add("")
        if maxlevel is None:
            n = min(a.shape[x] for x in self._axes(a.ndim))
            maxlevel = pywt.dwt_max_level(n, self.dec_len)
        self.maxlevel = maxlevel
        return maxlevel

    def _touch(self, key, sure):
        for i in range(len(key)):
            for c in self.ch:
                k = key[:i] + c
                self.maybe.add(k)
                if sure:
                    self.sure.add(k)

    def get(self, key):
        """Reading a node: array, Refused or Unknown."""
        if self.lost:
            raise Unknown("tree between two transformations")
        if self.maxlevel is None:
            raise Refused("ValueError")
        if key not in self.sure:
            if len(key) > self.maxlevel:
                if key in self.maybe:
                    raise Unknown(key)
                raise Refused("KeyError")
            if any(c not in self.ch for c in key):
                raise Refused("ValueError")
        v = self.value(key)
        self._present(key)
        return v

    def _present(self, key):
        """The node has been read."""
        if key in self.sure:
            return
        if key not in self.maybe:
            # surely absent before: its parent was expanded
            self._present(key[:-1])
            for c in self.ch:
                self.sure.add(key[:-1] + c)
                self.maybe.add(key[:-1] + c)
            return
        # a disturbed operation may have stored it, without its siblings
        self.sure.add(key)
        self._touch(key, False)

    def tried(self, key):
        """A read of key failed or its end is not known."""
        if self.maxlevel is not None and len(key) <= self.maxlevel:
            self._touch(key, False)

    def set(self, key, a):
        for k in list(self.maybe):
            if k != key and k.startswith(key) and k not in self.pin:
                # computed from the old value or not yet computed: undetermined
                self.pin[k] = None
        self.memo = {}
        self.pin[key] = np.asarray(a, dtype=np.float64)
        self.sure.add(key)
        self.maybe.add(key)

    def delete(self, key):
        """Returns whether the key was surely present (None: not determined)."""
        if self.lost:
            return None
        known = True if key in self.sure else (None if key in self.maybe else False)
        if known is False:
            return False
        if known is True and key != "":
            if key in self.pin:
                # its descendants were computed from it or are pinned themselves
                for k in list(self.maybe):
                    if k != key and k.startswith(key) and k not in self.pin:
                        self.pin[k] = None
            self.pin.pop(key, None)
        elif key in self.pin:
            self.pin[key] = None
        self.sure.discard(key)
        self.maybe.discard(key)
        self.memo = {}
        return known

    def leaf_keys(self):
        return ["".join(p) for p in product(self.ch, repeat=self.maxlevel)]

    def reconstruct(self):
        """All leaves present -> new inner nodes; Refused if one is absent."""
        if self.lost:
            raise Unknown("tree between two transformations")
        if self.maxlevel is None:
            raise Unknown("not initialised")
        leaves = self.leaf_keys()
        if any(k not in self.maybe for k in leaves):
            self._undetermine_inner()
            raise Refused("KeyError")
        if any(k not in self.sure for k in leaves):
            self._undetermine_inner()
            raise Unknown("leaf may be absent")
        old = {}
        for lv in range(self.maxlevel):
            for p in product(self.ch, repeat=lv):
                k = "".join(p)
                try:
                    old[k] = self.value(k)
                except Unknown:
                    old[k] = None
        cur = {}
        for k in leaves:
            try:
                cur[k] = self.value(k)
            except Unknown:
                cur[k] = None
        for lv in reversed(range(self.maxlevel)):
            for p in product(self.ch, repeat=lv):
                k = "".join(p)
                ch = {c: cur[k + c] for c in self.ch}
                if any(v is None for v in ch.values()):
                    cur[k] = None
                    continue
                try:
                    v = self.syn(ch)
                except Unknown:
                    cur[k] = None
                    continue
                if lv > 0:
                    if old[k] is None:
                        cur[k] = None
                        continue
                    for x in self._axes(v.ndim):
                        if v.shape[x] == old[k].shape[x] + 1:
                            v = np.take(v, range(v.shape[x] - 1), axis=x)
                    if v.shape != old[k].shape:
                        v = None
                cur[k] = v
        self.memo = {}
        self.pin.update(cur)
        self.sure.update(cur)
        self.maybe.update(cur)

    def _undetermine_inner(self):
        leaves = {}
        for k in self.leaf_keys():
            if k in self.maybe:
                try:
                    leaves[k] = self.value(k)
                except Unknown:
                    leaves[k] = None
            else:
                leaves[k] = None
        self.memo = {}
        for lv in range(self.maxlevel):
            for p in product(self.ch, repeat=lv):
                self.pin["".join(p)] = None
        self.pin.update(leaves)

    def reconstruct_failed(self):
        """A disturbed reconstruct: inner nodes are old or new, leaves are kept."""
        if not self.lost and self.maxlevel is not None:
            self._undetermine_inner()

    def transform_failed(self):
        self.lost = True
