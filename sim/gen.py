"""Seeded generators of programs: universes of specifications and histories over them."""
import copy
import json
import math
import random

from . import core
from .judge import Sym, dec_len

PADS = ["reflect", "zero", "constant", "periodic", "symmetric"]
ORTHO = ["haar", "db2", "db3", "sym4", "coif1"]


def rng(*parts):
    return random.Random("/".join(str(p) for p in parts))


def wavelet(r, ortho=True, custom=0.35, mutable=False, dt="f64"):
    """A discrete wavelet specification."""
    q = r.random()
    if mutable:
        k = r.choice(["tuple", "product", "soft", "duck"])
        if q < 0.6:
            return {"k": k, "lat": r.randrange(6), "stages": r.choice([1, 2, 3]), "dt": dt}
        return {"k": k, "base": r.choice(["haar", "db2", "db3"]), "dt": dt}
    if q < custom:
        return {"k": r.choice(["custom", "custom", "custom", "duck"]), "lat": r.randrange(6), "stages": r.choice([1, 2, 2, 3]),
                "name": r.choice(["custom", "custom", "db2", "haar"])}
    names = ["haar", "db2", "db2", "db3", "sym4", "coif1"] + ([] if ortho else ["bior2.2", "rbio1.3", "bior1.3", "bior3.1"])
    if r.random() < 0.15:
        names = ["db4", "db5", "sym5", "coif2", "db1", "sym2"] + ([] if ortho else ["bior4.4", "bior3.5", "rbio2.4", "rbio3.3", "bior1.5", "db8"])
    return {"k": r.choice(["name", "pywt"]), "base": r.choice(names)}


def near(r, n, lo, hi, even=False):
    """A size adversarially related to n."""
    m = r.choice([n, n + 1, n - 1, n + 2, 2 * n, n // 2, n - 2, n + 4, r.randint(lo, hi)])
    m = min(hi, max(lo, m))
    if even:
        m += m % 2
    return m


def batch(r, dims):
    """Batch axes: mostly few and small, at times many entries or many axes."""
    b = [r.choice([1, 2, 3]) for _ in range(r.choice([0, 0, 1, 1, 2]))]
    n = 1
    for d in dims:
        n *= d
    q = r.random()
    if q < 0.05 and n <= 400:
        b = [r.choice([4, 5, 8, 16, 17, 33, 70])] + b[1:]
    elif q < 0.09:
        b = [r.choice([1, 2]) for _ in range(r.choice([3, 4]))]
    return b


def place(r, dims, axes, extra=None):
    """Shape having sizes dims along axes (last axes if None), plus batch axes."""
    nd = len(dims)
    if axes is None:
        b = extra if extra is not None else batch(r, dims)
        return b + list(dims)
    need = max([a + 1 if a >= 0 else -a for a in axes] + [nd])
    total = max(need, nd + (len(extra) if extra is not None else r.choice([0, 1])))
    shape = [r.choice([1, 2, 3]) for _ in range(total)]
    for a, d in zip(axes, dims):
        shape[a] = d
    return shape


def axes_for(r, dim, p=0.3):
    """An axis argument: None or a choice valid from a sufficient number of dimensions."""
    if r.random() > p:
        return None
    if dim == 1:
        return [r.choice([0, 1, -2, -1])]
    pool = {2: [[0, 1], [1, 0], [-3, -1], [-1, -2], [-1, -3], [1, 2], [-2, -1]],
            3: [[0, 1, 2], [2, 0, 1], [-1, -2, -3], [-4, -2, -1], [-3, -1, -2]]}[dim]
    return r.choice(pool)


def listed(r, kw):
    """Axes given as a list that belongs to the caller."""
    return {"axl": 1} if "axes" in kw and r.random() < 0.35 else {}


def akw(dim, axes):
    if axes is None:
        return {}
    return {"axis": axes[0]} if dim == 1 else {"axes": axes}


def tensor(r, shape, dt=None, seed=None, lay=None):
    x = {"t": list(shape), "dt": dt or r.choice(["f64", "f64", "f32"]),
         "seed": seed if seed is not None else r.randrange(4)}
    lay = lay or r.choice(["c", "c", "c", "t", "s", "o", "c", "c", "c", "t", "s", "o", "e"])
    if lay != "c" and not (lay == "e" and len(shape) < 2):
        x["lay"] = lay
    if r.random() < 0.15:
        x["kind"] = r.choice(["i", "b", "p"])
    return x


SIZES = {1: (6, 40), 2: (4, 18), 3: (4, 9)}
LARGE = {1: (60, 270), 2: (18, 28), 3: (9, 13)}


def slow(kind, kw):
    """Row by row orthogonalisation of a matrix that acts on whole images."""
    return (kw.get("orthogonalization") == "gramschmidt" and kw.get("mode", "boundary") == "boundary"
            and kind[-1] == "2" and not kw.get("separable", kind != "wp2"))


def size_family(r, dim, small=False, big=False):
    """Adversarially related size tuples: neighbours, transposes, equal products or sums."""
    lo, hi = SIZES[dim] if not small else (4, 8)
    if big:
        lo, hi = 62, 140
    elif not small and r.random() < 0.05:
        lo, hi = LARGE[dim]
    base = [r.randint(lo, hi) for _ in range(dim)]
    if r.random() < 0.5:
        base = [b + b % 2 for b in base]
    fam = [base]
    for _ in range(6):
        b = list(r.choice(fam))
        q = r.random()
        if q < 0.3 and dim > 1:
            r.shuffle(b)
        elif q < 0.45 and dim > 1:
            i, j = r.sample(range(dim), 2)
            if b[i] % 2 == 0 and b[j] * 2 <= hi and b[i] // 2 >= lo:
                b[i], b[j] = b[i] // 2, b[j] * 2
            else:
                d = r.choice([1, 2])
                b[i], b[j] = max(lo, b[i] - d), min(hi, b[j] + d)
        else:
            i = r.randrange(dim)
            b[i] = near(r, b[i], lo, hi)
        fam.append(b)
    return fam


def matrix_spec(r, kind, level=None):
    dim = int(kind[3])
    ax = axes_for(r, dim)
    kw = akw(dim, ax)
    if r.random() < 0.35:
        kw["orthogonalization"] = r.choice(["qr", "gramschmidt"])
    if dim == 2 and r.random() < 0.5:
        kw["separable"] = r.random() < 0.5
    spec = dict({"kind": kind, "kw": kw}, **listed(r, kw))
    if "orthogonalization" in kw and r.random() < 0.2:
        spec["dep"] = 1
    if kind.startswith("dec"):
        if dim < 3 and r.random() < 0.5:
            kw["odd_coeff_padding_mode"] = r.choice(PADS)
        elif dim == 3 and r.random() < 0.5:
            kw["odd_coeff_padding_mode"] = r.choice(PADS)
        spec["level"] = level if level is not None else r.choice([None, 1, 1, 2, 2, 3, 5])
    return spec, ax


WIDE_WAVELETS = ["db4", "db6", "db8", "sym3", "sym5", "sym8", "coif2", "coif3", "bior1.5", "bior2.4", "bior2.8", "bior3.3",
                 "bior3.7", "bior4.4", "bior5.5", "bior6.8", "rbio1.5", "rbio2.2", "rbio2.6", "rbio4.4", "rbio5.5", "rbio6.8"]


class Matrix:
    """A universe of matrix transform objects and inputs for them."""

    def __init__(self, r, oracle, nobj=3, ninp=6, kinds=None, bad=True, ortho=True):
        self.r, self.o = r, oracle
        self.objs = []
        kinds = kinds or ["dec1", "rec1", "dec1", "rec1", "dec2", "rec2", "dec2", "rec2", "dec3", "rec3"]
        # large signals, for which an implementation may proceed in other ways
        big = nobj > 1 and r.random() < 0.1
        for i in range(nobj):
            if i and (big or r.random() < 0.45):
                self.objs.append(self.sibling(r.choice(self.objs), bad))
            elif big:
                self.objs.append(self.make(r.choice(["dec1", "dec1", "rec1"]), 3, bad, ortho, True))
            else:
                self.objs.append(self.make(r.choice(kinds), ninp, bad, ortho))
        if nobj and not any(x["in"] for x in self.objs):
            self.objs.append(self.make("dec1", ninp, bad, ortho))

    def sibling(self, x, bad):
        """An object that differs from another one in a single argument and gets the same inputs."""
        r = self.r
        kind, spec, w = x["kind"], x["spec"], x["wav"]
        kw = dict(spec["kw"])
        new = dict(spec, kw=kw)
        dec = kind.startswith("dec")
        q = r.choice(["wav", "wav", "wav", "orth", "level" if dec else "wav", "pad" if dec else "orth",
                      "sep" if kind[3] == "2" else "wav", "axes", "inputs"])
        if q == "wav":
            n = dec_len(w) // 2
            if "lat" in w:
                w = dict(w, lat=(w["lat"] + r.randint(1, 5)) % 6)
            elif r.random() < 0.5:
                # other filters that go by the same name
                w = {"k": "custom", "lat": r.randrange(6), "stages": n, "name": w["base"]}
            else:
                w = {"k": w["k"], "base": {1: "haar", 2: "sym2", 3: "coif1", 4: "sym4", 5: "sym5", 6: "coif2"}.get(n, w["base"])}
        elif q == "orth":
            kw["orthogonalization"] = "qr" if kw.get("orthogonalization") == "gramschmidt" else "gramschmidt"
            if slow(kind, kw):
                kw.pop("orthogonalization")
        elif q == "level":
            new["level"] = r.choice([v for v in (None, 1, 2, 3) if v != spec["level"]])
        elif q == "pad":
            kw["odd_coeff_padding_mode"] = r.choice([v for v in PADS if v != kw.get("odd_coeff_padding_mode", "zero")])
        elif q == "sep":
            kw["separable"] = not kw.get("separable", True)
            if slow(kind, kw):
                kw.pop("orthogonalization")
        elif q == "axes":
            a = kw.get("axes")
            if a is not None:
                kw["axes"] = r.choice([a[::-1], a[1:] + a[:1]])
            elif kind[3] == "1":
                kw["axis"] = r.choice([-2, 0, -1])
            elif kind[3] == "2":
                kw["axes"] = [-1, -2]
            else:
                kw["axes"] = r.choice([[-1, -2, -3], [-2, -3, -1]])
        ins = list(x["in"])
        if q == "inputs" or r.random() < 0.3:
            # the same object arguments, independent object; some inputs of its own
            for i in range(len(ins)):
                if r.random() < 0.3:
                    ins[i] = dict(ins[i], seed=r.randrange(4, 8))
        return {"kind": kind, "spec": new, "wav": w, "ax": kw.get("axes", [kw["axis"]] if "axis" in kw else None),
                "in": ins, "bad": list(x["bad"])}

    def make(self, kind, ninp, bad, ortho, big=False):
        r = self.r
        dim = int(kind[3])
        w = wavelet(r, ortho or dim > 0)
        spec, ax = matrix_spec(r, kind)
        fam = size_family(r, dim, slow(kind, spec["kw"]), big)
        inputs = []
        if kind.startswith("dec"):
            for _ in range(ninp):
                inputs.append(tensor(r, place(r, r.choice(fam), ax)))
        else:
            # coefficients of analyses of related sizes and differing levels
            for _ in range(ninp):
                dspec = {"kind": "dec" + kind[3], "level": r.choice([1, 1, 2, 2, 3, None]),
                         "kw": {k: v for k, v in spec["kw"].items() if k != "odd_coeff_padding_mode"}}
                x = tensor(r, place(r, r.choice(fam), ax), dt="f64", seed=0)
                out = self.o.get([{"op": "new", "slot": "o", "spec": dspec, "wav": w},
                                  {"op": "call", "slot": "o", "x": x}])["out"]
                if "err" in out:
                    continue
                inputs.append({"co": core.struct(out["ok"]), "dt": r.choice(["f64", "f64", "f32"]),
                               "seed": r.randrange(4), "cont": r.choice(["list", "tuple"])})
                if r.random() < 0.15:
                    inputs[-1]["lay"] = "t"
        # the same shapes in the other precision are the most similar inputs
        for x in list(inputs[:2]):
            inputs.append(dict(x, dt="f32" if x["dt"] == "f64" else "f64"))
        nbad = []
        if bad:
            nbad = self.bad(kind, inputs)
        return {"kind": kind, "spec": spec, "wav": w, "ax": ax, "in": inputs, "bad": nbad}

    def bad(self, kind, inputs):
        r = self.r
        out = []
        for x in inputs[:3]:
            if "t" in x:
                out.append(dict(x, dt="i64"))
                if len(x["t"]) > 1:
                    out.append(dict(x, t=x["t"][:int(kind[3]) - 1] if kind[3] != "1" else []))
            else:
                out.append(dict(x, mix=1))
                co = list(x["co"])
                if isinstance(co[-1], list):
                    out.append(dict(x, co=co[:-1] + [co[-1][:-1] + [co[-1][-1] + 1]]))
                elif "t3" in co[-1]:
                    t3 = [list(s) for s in co[-1]["t3"]]
                    t3[r.randrange(3)][-1] += 1
                    out.append(dict(x, co=co[:-1] + [{"t3": t3}]))
                else:
                    d = {k: list(s) for k, s in co[-1]["d"].items()}
                    d[sorted(d)[0]][-1] += 1
                    out.append(dict(x, co=co[:-1] + [{"d": d}]))
        return out


class Fns:
    """A universe of functional calls."""

    def __init__(self, r, oracle, n=8, kinds=None, mutable=True):
        self.r, self.o = r, oracle
        self.items = []
        self.an = {}  # analysis that gave the coefficients of a synthesis
        # two custom wavelets of one name
        self.same = [{"k": "custom", "lat": r.randrange(3), "stages": 2, "name": "custom"},
                     {"k": "custom", "lat": 3 + r.randrange(3), "stages": 2, "name": "custom"},
                     {"k": "custom", "lat": 3 + r.randrange(3), "stages": r.choice([1, 3]), "name": "custom"}]
        kinds = kinds or ["wavedec", "waverec", "wavedec2", "waverec2", "wavedec3", "waverec3", "fswavedec2",
                          "fswaverec2", "fswavedec3", "fswaverec3", "swt", "iswt", "cwt", "cba"]
        while len(self.items) < n:
            f = r.choice(kinds)
            it = self.vary(r.choice(self.items)) if self.items and r.random() < 0.4 else self.make(f)
            if it is not None:
                self.items.append(it)

    def family(self, n, first=None):
        """Calls of one function, each of which differs from another one in a single argument."""
        out = [first or self.r.choice(self.items)]
        for _ in range(4 * n):
            it = self.vary(self.r.choice(out))
            if it is not None and it not in out:
                out.append(it)
            if len(out) >= n:
                break
        return out

    def vary(self, it):
        """A call that differs from another one in a single argument."""
        r = self.r
        it = copy.deepcopy(it)
        f, w, kw, x = it["f"], it["wav"], it["kw"], it.get("x")
        what = ["wav", "wav", "dt"]
        if f == "cwt":
            what += ["prec", "scales", "period", "shape", "seed"]
        elif f.startswith("cb"):
            what += ["size", "orth"]
        elif "t" in x:
            what += ["level", "shape", "shape", "axes", "seed"] + (["mode"] if "mode" in kw else [])
        else:
            what += ["seed", "axes", "cont", "an", "an", "an"]
        if it["op"] == "ftrip":
            what = [q for q in what if q != "axes"]
        q = r.choice(what)
        if q == "an":
            # coefficients of another analysis
            an = self.an.get(self.key(it))
            an = an and self.vary(an)
            return an and self.synthesis(f, an)
        if q == "wav":
            if f == "cwt":
                return dict(it, wav=self.cwt("f64")["wav"])
            n = dec_len(w) // 2
            z = r.random()
            if "lat" in w:
                w = dict(w, lat=(w["lat"] + r.randint(1, 5)) % 6)
            elif z < 0.3:
                w = {"k": "custom", "lat": r.randrange(6), "stages": n, "name": w["base"]}
            elif z < 0.7 or x is None or "t" not in x:
                w = {"k": w["k"], "base": {1: "haar", 2: "sym2", 3: "coif1", 4: "sym4", 5: "sym5", 6: "coif2"}.get(n, w["base"])}
            else:
                w = self.wav("f64")
            return dict(it, wav=w)
        if q == "dt":
            (kw if f.startswith("cb") else x)["dt"] = "f32" if (kw if f.startswith("cb") else x).get("dt", "f64") == "f64" else "f64"
        elif q == "prec":
            kw["precision"] = r.choice([v for v in (5, 6, 7, 8) if v != kw["precision"]])
        elif q == "scales":
            kw["scales"] = [v + r.choice([1, 1, 2]) for v in kw["scales"]]
        elif q == "period":
            kw["sampling_period"] = r.choice([0.5, 2.0, 0.1, 4.0])
        elif q == "seed":
            x["seed"] = (x.get("seed", 0) + r.randint(1, 3)) % 8
        elif q == "level":
            kw["level"] = r.choice([v for v in (None, 1, 2, 3) if v != kw["level"]])
            if f == "swt" and kw["level"] and any(v % 2 ** kw["level"] for v in x["t"]):
                return None
        elif q == "mode":
            kw["mode"] = r.choice([v for v in PADS if v != kw["mode"]])
        elif q == "shape":
            t = list(x["t"])
            if not t:
                return None
            i = r.randrange(len(t))
            t[i] += r.choice([1, 2, -1, -2, t[i]]) * (8 if f == "swt" else 1)
            if r.random() < 0.2:
                t = [r.choice([1, 2])] + t
            if min(t) < 1 or max(t) > 300 or math.prod(t) > 6000:
                return None
            x["t"] = t
        elif q == "axes":
            a = kw.get("axes")
            nd = len(x["t"] if "t" in x else x["co"][0])
            if a is not None:
                kw["axes"] = r.choice([a[::-1], a[1:] + a[:1]])
            elif "axis" in kw or f in ("wavedec", "waverec", "swt", "iswt"):
                kw["axis"] = r.choice([-2, 0, -1] if nd > 1 else [0, -1])
            else:
                n = int(f[-1])
                kw["axes"] = r.choice([list(range(-1, -n - 1, -1)), [-n + 1, -n] + list(range(-n + 2, 0))])
        elif q == "cont":
            x["cont"] = "list" if x.get("cont") == "tuple" else "tuple"
        elif q == "size":
            k = r.choice([k for k in ("length", "height", "width") if k in kw])
            kw[k] += r.choice([2, -2])
            if kw[k] < 4 or kw[k] > (8 if k != "length" and "orthogonalization" in kw else 24):
                return None
        elif q == "orth":
            if "orthogonalization" in kw:
                kw.pop("orthogonalization")
                it.pop("dep", None)
            elif max(kw.get("height", 0), kw.get("width", 0)) <= 8:
                kw["orthogonalization"] = "gramschmidt"
        return it

    def wav(self, dt):
        r = self.r
        q = r.random()
        if q < 0.35:
            return r.choice(self.same)
        return wavelet(r, ortho=False, custom=0.2)

    def make(self, f, wav=None):
        r = self.r
        dt = r.choice(["f64", "f64", "f32"])
        w = wav or self.wav(dt)
        if f == "cwt":
            return self.cwt(dt)
        if f == "cba":
            f = r.choice(["cba", "cbs", "cba2", "cbs2"])
            w = wavelet(r) if r.random() < 0.6 else r.choice(self.same)
            if f.endswith("2"):
                kw = {"height": 2 * r.randint(4, 6), "width": 2 * r.randint(4, 6), "dt": dt}
            else:
                kw = {"length": 2 * r.randint(4, 12), "dt": dt}
            if r.random() < 0.3:
                kw["orthogonalization"] = "gramschmidt"
                if "height" in kw:
                    kw["height"], kw["width"] = 2 * r.randint(2, 4), 2 * r.randint(2, 4)
            return dict({"op": "fn", "f": f, "wav": w, "kw": kw}, **({"dep": 1} if r.random() < 0.3 else {}))
        if f in ("swt", "iswt"):
            lv = r.choice([1, 2, 3, None])
            n = r.choice([8, 16, 24]) if lv is None else 2 ** lv * r.randint(2, 5)
            ax = axes_for(r, 1)
            shape = place(r, [n], ax)
            x = tensor(r, shape, dt)
            kw = dict(akw(1, ax))
            an = dict(kw, level=lv)
            an = {"op": "fn", "f": "swt", "x": x, "wav": w, "kw": an}
        else:
            dim = 1 if f[-1] not in "23" else int(f[-1])
            ax = axes_for(r, dim)
            dims = [r.randint(*(LARGE if r.random() < 0.05 else SIZES)[dim]) for _ in range(dim)]
            if r.random() < 0.4:
                dims = [d + d % 2 for d in dims]
            shape = place(r, dims, ax)
            kw = akw(dim, ax)
            an = {"op": "fn", "f": f.replace("rec", "dec"), "x": tensor(r, shape, dt), "wav": w,
                  "kw": dict(kw, level=r.choice([None, 1, 1, 2, 2, 3]), mode=r.choice(PADS))}
        if f in ("waverec", "waverec2", "waverec3", "fswaverec2", "fswaverec3", "iswt"):
            return self.synthesis(f, an)
        return dict(an, **listed(r, an["kw"]))

    def synthesis(self, f, an):
        """The synthesis call for the coefficients of an analysis."""
        r = self.r
        out = self.o.get([dict({k: v for k, v in an.items() if k != "axl"}, x=dict(an["x"], dt="f64"))])["out"]
        if "err" in out:
            return None
        co = {"co": core.struct(out["ok"]), "dt": an["x"]["dt"], "seed": r.randrange(4), "cont": r.choice(["list", "tuple"])}
        if "t3" in (co["co"][-1] if isinstance(co["co"][-1], dict) else {}) and r.random() < 0.3:
            co["plain"] = 1
        kw = {k: v for k, v in an["kw"].items() if k in ("axis", "axes")}
        it = dict({"op": "fn", "f": f, "x": co, "wav": an["wav"], "kw": kw}, **listed(r, kw))
        self.an[self.key(it)] = an
        return it

    @staticmethod
    def key(it):
        return json.dumps([it["f"], it["x"]["co"], it["wav"]])

    def cwt(self, dt, wav=None):
        r = self.r
        q = r.random()
        if wav is None:
            if q < 0.5:
                wav = {"k": "cont", "base": r.choice(["cmor1.5-1.0", "gaus2", "mexh", "shan1.5-1.0", "morl", "fbsp1-1.5-1.0"])}
                if r.random() < 0.4:
                    wav["attr"] = {"lower_bound": -r.choice([4.0, 6.0]), "upper_bound": r.choice([4.0, 6.0])}
                if wav["base"].startswith(("cmor", "shan")) and r.random() < 0.5:
                    wav.setdefault("attr", {})["bandwidth_frequency"] = r.choice([0.7, 2.5])
            elif q < 0.65:
                wav = {"k": "name", "base": r.choice(["mexh", "gaus1", "cmor1.5-1.0", "morl"])}
            elif q < 0.7:
                wav = {"k": r.choice(["name", "pywt"]), "base": r.choice(["db2", "haar", "sym4"])}
            else:
                k = r.choice(["shan", "cmor"])
                wav = {"k": k, "base": k + "1.5-1.0"}
                if r.random() < 0.5:
                    wav["par"] = [r.choice([0.8, 1.1]), r.choice([0.9, 1.3])]
                if r.random() < 0.3:
                    wav["attr"] = {"lower_bound": -r.choice([4.0, 6.0]), "upper_bound": r.choice([4.0, 6.0])}
        shape = [r.choice([16, 24, 33])] if r.random() < 0.5 else [r.choice([1, 2]), r.choice([16, 24, 33])]
        q = r.random()
        if q < 0.08:
            shape = [2, r.choice([1, 3]), r.choice([16, 24])]
        elif q < 0.14:
            shape = shape[:-1] + [r.choice([1, 2, 5, 64, 100])]
        x = tensor(r, shape, dt)
        sc = sorted(r.sample([1.0, 2.0, 3.0, 4.0, 5.5], r.randint(1, 3)))
        if r.random() < 0.2:
            sc = r.sample([0.7, 1.0, 2.0, 3.0, 5.5, 8.0, 11.0, 16.0], r.randint(1, 4))  # in any order
            if r.random() < 0.3:
                sc.append(sc[0])
        kw = {"scales": sc, "precision": r.choice([6, 7] * 5 + [5, 8, 9])}
        if r.random() < 0.4:
            kw["sampling_period"] = r.choice([0.5, 2.0, 1, 0.1, 1.0])
        sk = r.choice(["np", "np", "t", "scalar"] * 3 + ["list", "tuple", "int", "int"])
        if sk == "int":
            kw["scales"] = [max(1, int(v)) for v in sc]
        return {"op": "fn", "f": "cwt", "x": x, "wav": wav, "kw": kw, "sk": sk}

    def bad(self, n=3):
        """Calls that are rejected, in some way and at some point."""
        r = self.r
        out = []
        items = [it for it in self.items if "x" in it and "ts" not in it["x"]] + [self.make("cwt")]
        for _ in range(n):
            it = r.choice(items)
            kw = dict(it["kw"])
            if it["f"] == "cwt":
                q = r.choice(["x", "scale", "empty", "period", "wav", "prec"])
                if q == "x":
                    out.append(dict(it, x=dict(it["x"], dt="i64")))
                elif q == "wav":
                    out.append(dict(it, wav={"k": "name", "base": r.choice(["bior2.2", "rbio1.3"])}))
                else:
                    kw.update({"scale": {"scales": kw["scales"] + [1e-3]}, "empty": {"scales": []}, "period": {"sampling_period": None},
                               "prec": {"precision": "x"}}[q])
                    out.append(dict(it, kw=kw, sk="np"))
            elif "co" in it["x"]:
                q = r.random()
                co = list(it["x"]["co"])
                if q < 0.4 and len(co) > 1:
                    out.append(dict(it, x=dict(it["x"], mix=1)))
                elif q < 0.8 and isinstance(co[-1], list) and co[-1]:
                    out.append(dict(it, x=dict(it["x"], co=co[:-1] + [co[-1][:-1] + [co[-1][-1] + 3]])))
                else:
                    kw.update({"axis": 17} if it["f"] in ("waverec", "iswt") else {"axes": [0, 0, 0][:int(it["f"][-1])]})
                    out.append(dict(it, kw=kw))
            else:
                q = r.random()
                if q < 0.35:
                    out.append(dict(it, x=dict(it["x"], dt="i64")))
                elif q < 0.6 and "mode" in kw:
                    out.append(dict(it, kw=dict(kw, mode="nonsense")))
                else:
                    kw.update({"axis": 17} if it["f"] in ("wavedec", "swt") else {"axes": [0, 0, 0][:int(it["f"][-1])]})
                    out.append(dict(it, kw=kw))
        return out

    WIDE = {1: (2, 70), 2: (2, 26), 3: (2, 12)}

    def pairs(self, f=None):
        """A round trip item."""
        r = self.r
        f = f or r.choice(["wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3", "swt"])
        while True:
            w = wavelet(r, ortho=False)
            if r.random() < 0.3:
                w = {"k": r.choice(["name", "pywt"]), "base": r.choice(WIDE_WAVELETS)}
            it = self.make(f, w)
            if it is not None:
                break
        if f != "swt" and r.random() < 0.5:
            # sizes down to and far beyond the filter length, more batch axes, more levels
            dim = 1 if f[-1] not in "23" else int(f[-1])
            ax = axes_for(r, dim)
            dims = [r.randint(*self.WIDE[dim]) for _ in range(dim)]
            b = [r.choice([1, 2, 3]) for _ in range(r.choice([0, 1, 2, 3]))] if ax is None else None
            kw = dict(it["kw"], level=r.choice([None, 1, 2, 3, 4, 5]))
            kw.pop("axis", None)
            kw.pop("axes", None)
            it = dict(it, x=dict(it["x"], t=place(r, dims, ax, b)), kw=dict(kw, **akw(dim, ax)))
        g = f.replace("dec", "rec") if f != "swt" else "iswt"
        kw = it["kw"]
        ax = [kw["axis"]] if "axis" in kw else kw.get("axes")
        if ax is None:
            ax = list(range(-(1 if f[-1] not in "23" else int(f[-1])), 0))
        return dict(it, op="ftrip", g=g, ax=ax)


def sweep(r, it, n=6):
    """The same call for neighbouring sizes, in any order and repeatedly."""
    step = 8 if it["f"] == "swt" else 1
    t = it["x"]["t"]
    ax = [a % len(t) for a in it.get("ax") or [len(t) - 1]]
    out = []
    for i in range(n):
        s = list(t)
        for a in ax if r.random() < 0.5 else ax[:1]:
            s[a] += i * step
        out.append(dict(it, x=dict(it["x"], t=s)))
    r.shuffle(out)
    return out + [r.choice(out) for _ in range(2)]


def sparse_item(r, bad=False):
    """A call of a sparse matrix helper."""
    dt = r.choice(["f64", "f64", "f32"])

    def sp(n, m, p=None):
        x = {"t": [n, m], "dt": dt, "seed": r.randrange(4), "sp": p or r.choice([0.0, 0.2, 0.5, 0.5, 1.0])}
        if r.random() < 0.2:
            x["unc"] = 1
        return x

    f = r.choice(["sparse_kron", "cat_sparse_identity_matrix", "sparse_diag", "sparse_replace_row", "construct_conv_matrix",
                  "construct_conv2d_matrix", "construct_strided_conv_matrix", "construct_strided_conv2d_matrix", "batch_mm"])
    n, m = r.randint(2, 6), r.randint(2, 6)
    kw = {}
    if f == "sparse_kron":
        ts = [sp(n, m), sp(r.randint(1, 4), r.randint(1, 4))]
    elif f == "cat_sparse_identity_matrix":
        ts, kw = [sp(n, n, 1.0)], {"new_length": n + r.choice([0, 1, 2, 5, -1])}
    elif f == "sparse_diag":
        ts, kw = [tensor(r, [n], dt)], {"col_offset": r.randint(-3, 3), "rows": r.randint(2, 8), "cols": r.randint(2, 8)}
    elif f == "sparse_replace_row":
        ts, kw = [sp(n, n), sp(1, n + (r.random() < 0.1))], {"row_index": r.randrange(n)}
    elif f == "batch_mm":
        ts = [sp(n, m), tensor(r, [r.randint(1, 4), m + (r.random() < 0.1), r.randint(1, 4)], dt)]
    else:
        two = "2d" in f
        ts = [tensor(r, [r.randint(2, 5)] * (2 if two else 1), dt, lay="c")]
        kw = {"input_rows": r.randint(4, 9), "mode": r.choice(["full", "same", "valid", "sameshift"])}
        if two:
            kw["input_columns"] = r.randint(4, 9)
            if f == "construct_conv2d_matrix" and r.random() < 0.3:
                kw["fully_sparse"] = False
        if "strided" in f and r.random() < 0.4:
            kw["stride"] = r.choice([1, 2, 3])
    return {"op": "fn", "f": f, "x": {"ts": ts, "dt": dt}, "wav": {"k": "name", "base": "haar"}, "kw": kw}


# ------------------------------------------------------------ plans
def derivations(prog, oracle):
    """Derivation of every operation of a program (tasks in turn)."""
    sym = Sym(oracle)
    for op in prog.get("setup", ()):
        sym.apply(op)
    out = []
    for ops in prog["tasks"]:
        row = []
        for op in ops:
            try:
                row.append(sym.derive(op))
            except KeyError:
                row.append(None)
            try:
                sym.apply(op)
            except KeyError:
                pass
        out.append(row)
    return out


DISTURB = ("call", "fn", "trip", "ftrip", "prop", "fwd", "fwdco", "bwd", "pk_ptrip", "tr_step", "tr_eval", "loss")


def profile_of(oracle, d):
    return oracle.profile(d) if d else None


def sample_fault(r, oracle, prog, derivs, tid, i, kinds):
    """A fault at a location-fair instant of one operation."""
    p = profile_of(oracle, derivs[tid][i])
    if p is None:
        return None
    return fault_from_profile(r, p, tid, i, kinds)


_FRAGILE = {}


def fragile(loc):
    """Lines at which no Python program can be safe against an asynchronous exception.

    Between the end of a with body and the call of __exit__, between acquiring
    something and the try that releases it, and inside clean-up code, CPython
    offers no protection; an interrupt there is not a fault a library can meet.
    """
    import ast
    from . import boot
    rel, _, line = loc.rpartition(":")
    if rel not in _FRAGILE:
        lines = set()
        try:
            with open(boot.REPO_SRC + "/ptwt/" + rel) as f:
                tree = ast.parse(f.read())
            for n in ast.walk(tree):
                if isinstance(n, (ast.With, ast.AsyncWith)):
                    lines.update(range(n.lineno, n.body[0].lineno))
                elif isinstance(n, ast.FunctionDef) and n.name in ("__enter__", "__exit__", "__del__"):
                    lines.update(range(n.lineno, n.end_lineno + 1))
                elif isinstance(n, ast.Try):
                    lines.update(range(n.lineno, n.body[0].lineno))
                    for part in n.handlers + n.finalbody:
                        lines.update(range(part.lineno, part.end_lineno + 1))
        except (OSError, SyntaxError):
            pass
        _FRAGILE[rel] = lines
    return line.isdigit() and int(line) in _FRAGILE[rel]


_HOT = {}
MUTATORS = {"append", "extend", "add", "update", "pop", "popitem", "clear", "remove", "insert", "setdefault", "discard",
            "move_to_end", "reverse", "sort", "appendleft", "popleft", "acquire", "release", "wait", "set"}


def hot(loc):
    """Lines at or just after a statement that changes state other code can see.

    Only a preference of the search: most schedules and faults that matter
    separate such a statement from what was tested before or follows it.
    """
    import ast
    from . import boot
    rel, _, line = loc.rpartition(":")
    if rel not in _HOT:
        lines = set()
        try:
            with open(boot.REPO_SRC + "/ptwt/" + rel) as f:
                tree = ast.parse(f.read())
            for fn in ast.walk(tree):
                if not isinstance(fn, ast.FunctionDef):
                    continue
                shared = {n for g in ast.walk(fn) if isinstance(g, (ast.Global, ast.Nonlocal)) for n in g.names}
                starts = sorted({n.lineno for n in ast.walk(fn) if isinstance(n, ast.stmt)})
                for n in ast.walk(fn):
                    if not isinstance(n, ast.stmt):
                        continue
                    ts = []
                    if isinstance(n, (ast.Assign, ast.Delete)):
                        ts = n.targets
                    elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
                        ts = [n.target]
                    flat = [e for t in ts for e in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts)]
                    w = any(isinstance(e, (ast.Attribute, ast.Subscript)) or isinstance(e, ast.Name) and e.id in shared for e in flat)
                    if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Return)):
                        for c in ast.walk(n):
                            if isinstance(c, ast.Call) and (
                                    isinstance(c.func, ast.Attribute) and (
                                        c.func.attr in MUTATORS or c.func.attr.endswith("_") and not c.func.attr.endswith("__"))
                                    or any(k.arg == "out" for k in c.keywords)):
                                w = True
                    if w:
                        lines.add(n.lineno)
                        lines.update([x for x in starts if x > n.lineno][:2])
        except (OSError, SyntaxError):
            pass
        _HOT[rel] = lines
    return line.isdigit() and int(line) in _HOT[rel]


_READS = {}


def reads(loc):
    """Lines with a call that read an attribute which some function stores after creation."""
    import ast
    from . import boot
    rel, _, line = loc.rpartition(":")
    if rel not in _READS:
        lines = set()
        try:
            with open(boot.REPO_SRC + "/ptwt/" + rel) as f:
                tree = ast.parse(f.read())
            fns = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]
            stored = {a.attr for f in fns if f.name != "__init__" for a in ast.walk(f)
                      if isinstance(a, ast.Attribute) and not isinstance(a.ctx, ast.Load)}
            for f in fns:
                for n in ast.walk(f):
                    if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.For, ast.While, ast.With, ast.Try)):
                        head = n.test if isinstance(n, ast.If) else n
                        sub = list(ast.walk(head))
                        if any(isinstance(a, ast.Attribute) and a.attr in stored for a in sub) and any(isinstance(a, ast.Call) for a in sub):
                            lines.update(a.lineno for a in sub if isinstance(a, ast.Call))
        except (OSError, SyntaxError):
            pass
        _READS[rel] = lines
    return line.isdigit() and int(line) in _READS[rel]


def pick_loc(r, locs, p=0.4):
    h = [x for x in locs if hot(x)]
    return r.choice(h) if h and r.random() < p else r.choice(locs)


def fault_from_profile(r, p, tid, i, kinds):
    kinds = [k for k in kinds if (k == "line" and p["loc"]) or (k == "aten" and p["aten"]) or (k == "stderr" and p["err"])]
    if not kinds:
        return None
    k = r.choice(kinds)
    if "stderr" in kinds and r.random() < 0.5:
        k = "stderr"
    if k == "line":
        locs = sorted(x for x in p["loc"] if x != "op" and not fragile(x))
        if not locs:
            return None
        loc = pick_loc(r, locs)
        n = p["loc"][loc]
        n = r.choice([1, n, r.randint(1, n)])
        return {"task": tid, "op": i, "kind": "line", "exc": r.choice(["KeyboardInterrupt", "MemoryError"]), "loc": loc, "n": n}
    if k == "aten":
        return {"task": tid, "op": i, "kind": "aten", "exc": "OOM", "n": r.randint(1, p["aten"])}
    return {"task": tid, "op": i, "kind": "stderr", "exc": r.choice(["ENOSPC", "EPIPE"]), "n": r.randint(1, p["err"])}


_FINE = {}


def fine(r, loc):
    """An instant inside a line, when one of its calls returns (or the line itself)."""
    import types
    from . import boot, engine
    rel, _, line = loc.rpartition(":")
    if rel not in _FINE:
        at = {}
        try:
            name = boot.REPO_SRC + "/ptwt/" + rel
            with open(name) as f:
                todo = [compile(f.read(), name, "exec")]
            while todo:
                c = todo.pop()
                for off, ln in engine.calls(c).items():
                    at.setdefault(ln, set()).add(off)
                todo += [x for x in c.co_consts if isinstance(x, types.CodeType)]
        except (OSError, SyntaxError):
            pass
        _FINE[rel] = {ln: sorted(v) for ln, v in at.items()}
    c = _FINE[rel].get(int(line)) if line.isdigit() else None
    return "%s@%d" % (loc, r.choice(c)) if c else loc


def pick_point(r, prof, deep):
    """A location met by an operation, and one of its occurrences."""
    locs = sorted(prof)
    if not locs:
        return None, 0
    rd = [x for x in locs if reads(x)] if deep and r.random() < 0.4 else ()
    loc = r.choice(rd) if rd else pick_loc(r, locs)
    n = prof[loc]
    if deep:
        loc = fine(r, loc)
    return loc, r.choice([1, n, r.randint(1, n)])


def sample_switches(r, oracle, prog, derivs, k, first=None):
    """k preemptions at location-fair instants."""
    out = []
    deep = r.random() < 0.3
    nt = len(prog["tasks"])
    for j in range(k):
        # the task that starts is the one that can be preempted for sure
        t = first if first is not None and j == 0 and r.random() < 0.8 else r.randrange(nt)
        c = [i for i, d in enumerate(derivs[t]) if d and prog["tasks"][t][i]["op"] in DISTURB]
        if not c:
            continue
        i = r.choice(c)
        p = profile_of(oracle, derivs[t][i])
        loc, n = pick_point(r, p["loc"], deep)
        if loc is None:
            continue
        out.append({"task": t, "op": i, "loc": loc, "n": n,
                    "to": r.choice([x for x in range(nt) if x != t])})
    return out


def schedule(r, oracle, prog, derivs=None):
    """A plan for a program of several tasks."""
    nt = len(prog["tasks"])
    order = list(range(nt))
    r.shuffle(order)
    plan = {"order": order}
    q = r.random()
    if q < 0.65:
        plan["switches"] = sample_switches(r, oracle, prog, derivs or derivations(prog, oracle), r.choice([1, 1, 2, 2, 3, 4]),
                                           order[0])
    else:
        plan["walk"] = {"seed": r.randrange(1 << 30), "p": r.choice([0.003, 0.01, 0.03, 0.1, 0.3])}
        if r.random() < 0.3:
            plan["walk"].update(fine=1, p=plan["walk"]["p"] / 4)
    return plan


def dlen(w):
    return dec_len(w)
