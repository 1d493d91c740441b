"""Programs: JSON data describing set-up and client operations, and their execution.

Only the code under test and torch do numeric work here; this module turns
specifications into tensors, wavelets and objects, performs operations and
normalises what they return or raise.
"""
import copy
import io
import os
import pickle
import random
import sys
import threading
import zlib

import numpy as np
import pywt
import torch

import ptwt
import ptwt.continuous_transform as ctm
import ptwt.wavelets_learnable as wlm
from ptwt.constants import WaveletDetailTuple2d, WaveletTensorTuple

from . import boot, engine

DT = {"f32": torch.float32, "f64": torch.float64, "i64": torch.int64}
NDT = {"f32": np.float32, "f64": np.float64, "i64": np.int64}


# ------------------------------------------------------------------ content
def content(shape, dt, seed, kind="n"):
    """Deterministic array content for a seed."""
    g = np.random.default_rng([int(seed), 77])
    a = g.standard_normal(shape)
    if kind == "i":
        a = np.round(4 * a)
    elif kind == "b":
        a = a * 1000.0
    elif kind == "p":
        a = a + 10.0
    return a.astype(NDT[dt])


def make_tensor(x):
    """x: {"t": shape, "dt", "seed", "lay", "kind", "rg"} or {"eye": n | [n, m], "dt"}."""
    if "ts" in x:
        return [make_tensor(e) for e in x["ts"]]
    if "eye" in x:
        e = x["eye"]
        if isinstance(e, list):
            return torch.eye(e[0] * e[1], dtype=DT[x["dt"]]).reshape(e[0] * e[1], e[0], e[1])
        return torch.eye(e, dtype=DT[x["dt"]])
    if "vals" in x:
        return np.array(x["vals"]) if x.get("np") else list(x["vals"]) if x.get("ls") else torch.tensor(x["vals"], dtype=torch.float64)
    shape = x["t"]
    a = content(shape, x["dt"], x["seed"], x.get("kind", "n"))
    if "sp" in x:
        # a sparse matrix with the given share of entries
        keep = np.random.default_rng([int(x["seed"]), 99]).random(shape) < x["sp"]
        t = torch.from_numpy(np.where(keep, a, 0.0).astype(a.dtype)).to_sparse()
        if x.get("unc"):
            # entries given in two parts, which torch adds up when asked to
            i, v = t.indices(), t.values()
            t = torch.sparse_coo_tensor(torch.cat([i, i], 1), torch.cat([v * 0.25, v * 0.75]), t.shape)
        return t
    lay = x.get("lay", "c")
    t = torch.from_numpy(np.ascontiguousarray(a))
    if lay == "t" and t.ndim >= 2:
        t = t.transpose(0, -1).contiguous().transpose(0, -1)
    elif lay == "s" and t.ndim >= 1:
        big = torch.full(list(t.shape[:-1]) + [2 * t.shape[-1] + 1], 7.5, dtype=t.dtype)
        v = big[..., 1::2]
        v.copy_(t)
        t = v
    elif lay == "o":
        buf = torch.full([t.numel() + 3], 7.5, dtype=t.dtype)
        v = buf[3:].view(t.shape)
        v.copy_(t)
        t = v
    elif lay == "e" and t.ndim >= 2:
        t = t[:1].expand(t.shape)
    if x.get("rg"):
        t.requires_grad_()
    return t


def make_coefs(c):
    """c: {"co": struct, "dt", "seed", "cont"}; struct entries: shape | {"t3"} | {"d"}."""
    out = []
    k = 0
    if "eyeco" in c:
        e, n = make_tensor({"eye": c["eyeco"], "dt": c["dt"]}), c["n"]
        v = [e if i == c["which"] else torch.zeros_like(e) for i in range(n)]
        return v if n == 2 else (v[0], WaveletDetailTuple2d(*v[1:]))
    seed = c["seed"]

    def leaf(shape):
        nonlocal k
        k += 1
        t = torch.from_numpy(content(shape, c["dt"], seed * 131 + k, c.get("kind", "n")))
        if c.get("mix") and k == 2:
            t = t.to(torch.float32 if c["dt"] == "f64" else torch.float64)
        if c.get("lay") == "t" and t.ndim >= 2:
            t = t.transpose(0, -1).contiguous().transpose(0, -1)
        if c.get("rg"):
            t.requires_grad_()
        return t

    for e in c["co"]:
        if isinstance(e, dict) and "t3" in e:
            v = [leaf(s) for s in e["t3"]]
            out.append(tuple(v) if c.get("plain") else WaveletDetailTuple2d(*v))
        elif isinstance(e, dict):
            out.append({kk: leaf(s) for kk, s in e["d"].items()})
        else:
            out.append(leaf(e))
    return out if c.get("cont", "list") == "list" else tuple(out)


def struct_of(c):
    """Shape structure of coefficients."""
    out = []
    for e in c:
        if isinstance(e, dict):
            out.append({"d": {k: list(v.shape) for k, v in e.items()}})
        elif isinstance(e, tuple):
            out.append({"t3": [list(v.shape) for v in e]})
        else:
            out.append(list(e.shape))
    return out


def lattice_filters(seed, stages):
    """A random orthogonal two-channel filter bank of length 2*stages."""
    r = random.Random("filt%d" % seed)
    ang = [r.uniform(0, 2 * np.pi) for _ in range(stages - 1)]
    ang.append(np.pi / 4 - sum(ang))  # low pass sums to sqrt 2
    # polyphase lattice: E(z) = R(a_n) D(z) ... D(z) R(a_0)
    e0, e1 = np.array([np.cos(ang[0])]), np.array([np.sin(ang[0])])
    f0, f1 = np.array([-np.sin(ang[0])]), np.array([np.cos(ang[0])])
    for a in ang[1:]:
        c, s = np.cos(a), np.sin(a)
        g0, g1 = np.append(e0, 0.0), np.append(e1, 0.0)
        d0, d1 = np.append(0.0, f0), np.append(0.0, f1)
        e0, e1, f0, f1 = c * g0 + s * d0, c * g1 + s * d1, -s * g0 + c * d0, -s * g1 + c * d1
    lo = np.empty(2 * len(e0))
    lo[0::2], lo[1::2] = e0, e1
    n = len(lo)
    rec_lo = lo
    rec_hi = np.array([(-1) ** k * lo[n - 1 - k] for k in range(n)])
    return rec_lo[::-1], rec_hi[::-1], rec_lo, rec_hi


def filters_of(w):
    """Filter arrays of a wavelet specification."""
    if "lat" in w:
        return [np.array(f) for f in lattice_filters(w["lat"], w["stages"])]
    return [np.array(f) for f in pywt.Wavelet(w["base"]).filter_bank]


class Duck:
    """A wavelet of the caller's own class, with filters that can be changed."""

    def __init__(self, name, bank):
        self.name = name
        self.dec_lo, self.dec_hi, self.rec_lo, self.rec_hi = [[float(v) for v in f] for f in bank]

    @property
    def dec_len(self):
        return len(self.dec_lo)

    @property
    def rec_len(self):
        return len(self.rec_lo)

    @property
    def filter_bank(self):
        return self.dec_lo, self.dec_hi, self.rec_lo, self.rec_hi

    def __len__(self):
        return len(self.dec_lo)

    def __str__(self):
        return "Wavelet " + self.name


def make_wavelet(w):
    """Specification -> wavelet argument.

    {"k": "name"|"pywt"|"custom"|"duck"|"tuple"|"product"|"soft"|"cont"|"shan"|"cmor", ...}
    """
    k = w["k"]
    if k == "name":
        return w["base"]
    if k == "pywt":
        return pywt.Wavelet(w["base"])
    if k == "cont":
        c = pywt.ContinuousWavelet(w["base"])
        for a, v in (w.get("attr") or {}).items():
            setattr(c, a, v)
        return c
    if k in ("shan", "cmor"):
        cls = ctm._ShannonWavelet if k == "shan" else ctm._ComplexMorletWavelet
        o = cls(w["base"])
        if "par" in w:
            with torch.no_grad():
                o.bandwidth_par.copy_(torch.tensor(w["par"][0], dtype=torch.float64))
                o.center_par.copy_(torch.tensor(w["par"][1], dtype=torch.float64))
        for a, v in (w.get("attr") or {}).items():
            setattr(o, a, v)
        return o
    fb = filters_of(w)
    if k == "custom":
        return pywt.Wavelet(w.get("name", "custom"), filter_bank=[list(map(float, f)) for f in fb])
    if k == "duck":
        return Duck(w.get("name", "custom"), fb)
    ts = [torch.tensor(np.ascontiguousarray(f), dtype=DT[w["dt"]]) for f in fb]
    if "scale" in w:
        ts = [t * s for t, s in zip(ts, w["scale"])]
    if k == "tuple":
        return WaveletTensorTuple(*ts)
    if k == "product":
        return wlm.ProductFilter(*ts)
    if k == "soft":
        return wlm.SoftOrthogonalWavelet(*ts)
    raise AssertionError(k)


def put(t, v, how=None):
    """Overwrite a tensor in place, in one of the ways a caller has.

    Only the first of them is counted by PyTorch's version counter.
    """
    v = v.detach().to(t.dtype)
    if t.ndim and t.stride(0) == 0 and t.shape[0] > 1:
        t, v = t[:1], v[:1]  # a batch of one repeated entry
    with torch.no_grad():
        if how == "np":
            t.detach().numpy()[...] = v.numpy()
        elif how == "data":
            t.data.copy_(v)
        else:
            t.copy_(v)


def set_wavelet(obj, w, how=None):
    """Overwrite a live wavelet's parameters in place with those of w."""
    if w["k"] == "cont":
        for a, v in w["attr"].items():
            setattr(obj, a, v)
        return
    new = make_wavelet(w)
    if w["k"] == "duck":
        for a, b in zip(obj.filter_bank, new.filter_bank):
            a[:] = b
        return
    for a, v in (w.get("attr") or {}).items():
        setattr(obj, a, v)
    for a, b in zip(obj, new) if w["k"] == "tuple" else zip(obj.parameters(), new.parameters()):
        put(a, b, how)


MATRIX = {
    "dec1": ptwt.MatrixWavedec, "rec1": ptwt.MatrixWaverec,
    "dec2": ptwt.MatrixWavedec2, "rec2": ptwt.MatrixWaverec2,
    "dec3": ptwt.MatrixWavedec3, "rec3": ptwt.MatrixWaverec3,
}


def new_object(spec, wav, kw):
    kind = spec["kind"]
    if spec.get("dep") and "orthogonalization" in kw:
        # by its deprecated name
        kw["boundary" if kind in MATRIX else "boundary_orthogonalization"] = kw.pop("orthogonalization")
    if kind in MATRIX:
        if kind.startswith("dec"):
            return MATRIX[kind](wav, spec.get("level"), **kw)
        return MATRIX[kind](wav, **kw)
    if kind == "wp1":
        return ptwt.WaveletPacket(None, wav, **kw)
    if kind == "wp2":
        return ptwt.WaveletPacket2D(None, wav, **kw)
    raise AssertionError(kind)


FUNCS = {
    "wavedec": ptwt.wavedec, "waverec": ptwt.waverec,
    "wavedec2": ptwt.wavedec2, "waverec2": ptwt.waverec2,
    "wavedec3": ptwt.wavedec3, "waverec3": ptwt.waverec3,
    "fswavedec2": ptwt.fswavedec2, "fswaverec2": ptwt.fswaverec2,
    "fswavedec3": ptwt.fswavedec3, "fswaverec3": ptwt.fswaverec3,
    "swt": ptwt.swt, "iswt": ptwt.iswt,
}


def _cba(x, wavelet, **kw):
    from ptwt.matmul_transform import construct_boundary_a
    return construct_boundary_a(wavelet, **kw).to_dense()


def _cbs(x, wavelet, **kw):
    from ptwt.matmul_transform import construct_boundary_s
    return construct_boundary_s(wavelet, **kw).to_dense()


def _cba2(x, wavelet, **kw):
    from ptwt.matmul_transform_2 import construct_boundary_a2
    return construct_boundary_a2(wavelet, **kw).to_dense()


def _cbs2(x, wavelet, **kw):
    from ptwt.matmul_transform_2 import construct_boundary_s2
    return construct_boundary_s2(wavelet, **kw).to_dense()


def _sp(name):
    def f(x, wavelet, **kw):
        from ptwt import sparse_math
        fn = getattr(sparse_math, name)
        if "row_index" in kw:
            x = [x[0], kw.pop("row_index"), x[1]]
        return fn(*x, **kw)
    return f


SPARSE = {n: _sp(n) for n in ("sparse_kron", "cat_sparse_identity_matrix", "sparse_diag", "sparse_replace_row",
                              "construct_conv_matrix", "construct_conv2d_matrix", "construct_strided_conv_matrix",
                              "construct_strided_conv2d_matrix", "batch_mm")}
BUILDERS = {"cba": _cba, "cbs": _cbs, "cba2": _cba2, "cbs2": _cbs2}


# ------------------------------------------------------------- normal form
def norm(v):
    """Result -> plain data with numpy leaves."""
    if isinstance(v, torch.Tensor):
        d = v.detach()
        if d.is_sparse:
            d = d.to_dense()
        if d.is_conj():
            d = d.resolve_conj()
        return {"T": np.array(d.cpu().numpy(), copy=True), "rg": bool(v.requires_grad)}
    if isinstance(v, np.ndarray):
        return {"N": np.array(v, copy=True)}
    if isinstance(v, (np.floating, np.integer)):
        return {"v": v.item()}
    if isinstance(v, dict):
        return {"D": {k: norm(v[k]) for k in sorted(v)}}
    if isinstance(v, WaveletDetailTuple2d):
        return {"W": [norm(e) for e in v]}
    if isinstance(v, tuple):
        return {"P": [norm(e) for e in v]}
    if isinstance(v, list):
        return {"L": [norm(e) for e in v]}
    return {"v": v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)}


def leaves(v):
    """All tensors in a nested result."""
    if isinstance(v, torch.Tensor):
        return [v]
    if isinstance(v, dict):
        return [t for k in sorted(v) for t in leaves(v[k])]
    if isinstance(v, (list, tuple)):
        return [t for e in v for t in leaves(e)]
    return []


def err_name(e):
    for c in type(e).__mro__:
        if c.__module__ in ("builtins", "torch", "torch._C", "torch.cuda") or c.__module__.startswith("torch"):
            return c.__name__
    return type(e).__name__


def tensor_bytes(t):
    d = t.detach()
    if d.is_sparse:
        d = d.to_dense()
    return d.resolve_conj().resolve_neg().numpy().tobytes()


def raw_crc(st):
    """Checksum of a whole storage, beyond what the tensor shows of it."""
    n = st.nbytes()
    if not n:
        return 0
    import ctypes
    return zlib.crc32((ctypes.c_char * n).from_address(st.data_ptr()))


def fingerprint(v):
    """Content, identity and metadata of an argument (for 'inputs are never modified')."""
    if isinstance(v, torch.nn.Module):
        return ("M", tuple((n, fingerprint(p)) for n, p in v.named_parameters()),
                tuple(sorted((k, repr(x) if isinstance(x, (int, float, str, bool, torch.dtype)) else len(x) if isinstance(x, dict) else 0)
                             for k, x in v.__dict__.items() if not k.startswith("__"))),
                getattr(v, "lower_bound", None), getattr(v, "upper_bound", None))
    if isinstance(v, torch.Tensor) and v.is_sparse:
        return ("S", id(v), tuple(v.shape), str(v.dtype), v.requires_grad, v.is_coalesced(), v._nnz(),
                fingerprint(v._indices().detach())[2:], fingerprint(v._values().detach())[2:])
    if isinstance(v, torch.Tensor):
        st = v.untyped_storage()
        return ("T", id(v), zlib.crc32(tensor_bytes(v)), tuple(v.shape), tuple(v.stride()),
                v.storage_offset(), str(v.dtype), v.requires_grad, v.is_leaf, id(v.grad) if v.is_leaf and v.grad is not None else None,
                st.data_ptr(), st.nbytes(), raw_crc(st),
                v.is_conj(), v.is_neg(), tuple(sorted(v.__dict__)), len(v._backward_hooks or ()), v.retains_grad)
    if isinstance(v, np.ndarray):
        return ("N", id(v), zlib.crc32(v.tobytes()), v.shape, v.strides, v.dtype.str, v.flags.writeable)
    if isinstance(v, dict):
        return ("D", id(v), tuple((k, id(x), fingerprint(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, id(v), tuple((id(x), fingerprint(x)) for x in v))
    if isinstance(v, pywt.Wavelet):
        return ("W", id(v), v.name, tuple(map(tuple, v.filter_bank)), v.dec_len, v.rec_len)
    if isinstance(v, Duck):
        return ("K", id(v), v.name, tuple(tuple(f) for f in v.filter_bank), tuple(sorted(v.__dict__)))
    if isinstance(v, pywt.ContinuousWavelet):
        return ("C", id(v), v.name, v.lower_bound, v.upper_bound, v.center_frequency,
                v.bandwidth_frequency, v.fbsp_order, v.complex_cwt)
    return ("v", repr(v))


# ------------------------------------------------------------------ ambient
LOCAL = ("grad", "inference", "autocast", "np_err", "flush", "modes", "autograd_threads")  # belong to a thread


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def ambient_state():
    """Process and thread wide settings."""
    import gc
    import locale
    import logging
    import signal
    import warnings
    ns = np.random.get_state()
    d = {
        "torch_rng": zlib.crc32(torch.random.get_rng_state().numpy().tobytes()),
        "numpy_rng": zlib.crc32(ns[1].tobytes()) ^ ns[2],
        "python_rng": zlib.crc32(repr(random.getstate()).encode()),
        "default_dtype": str(torch.get_default_dtype()),
        "grad": torch.is_grad_enabled(),
        "inference": torch.is_inference_mode_enabled(),
        "anomaly": torch.is_anomaly_enabled(),
        "deterministic": torch.are_deterministic_algorithms_enabled(),
        "det_warn": torch.is_deterministic_algorithms_warn_only_enabled(),
        "threads": torch.get_num_threads(),
        "autocast": torch.is_autocast_enabled("cpu"),
        "matmul": torch.get_float32_matmul_precision(),
        "mkldnn": torch.backends.mkldnn.enabled,
        "backends": (torch.backends.cudnn.enabled, torch.backends.cudnn.benchmark, torch.backends.cudnn.deterministic,
                     torch.backends.cuda.matmul.allow_tf32, torch.backends.cudnn.allow_tf32,
                     torch.backends.opt_einsum.enabled, torch.utils.deterministic.fill_uninitialized_memory),
        "np_errcall": repr(np.geterrcall()),
        "hooks": id(sys.displayhook) ^ id(sys.unraisablehook) ^ id(threading.excepthook),
        "anomaly_nan": torch.is_anomaly_check_nan_enabled(),
        "warn_always": torch.is_warn_always_enabled(),
        "modes": (torch._C._len_torch_dispatch_stack(), torch._C._len_torch_function_stack()),
        "autograd_threads": torch._C._is_multithreading_enabled(),
        # flush to zero has no query: a subnormal number tells
        "flush": float(np.float64(5e-324) * np.float64(1.0)) != 0.0,
        "gc": (gc.isenabled(), gc.get_threshold()),
        "logging": (logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable),
        "umask": _umask(),
        "device": str(torch.get_default_device()),
        "np_err": tuple(sorted(np.geterr().items())),
        "np_print": repr(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
        "torch_print": repr(torch._tensor_str.PRINT_OPTS),
        "filters": zlib.crc32(repr([(f[0], getattr(f[1], "pattern", f[1]), f[2].__name__,
                                     getattr(f[3], "pattern", f[3]), f[4]) for f in warnings.filters]).encode()),
        "showwarning": id(warnings.showwarning),
        "stderr": id(sys.stderr), "stdout": id(sys.stdout), "stdin": id(sys.stdin),
        "excepthook": id(sys.excepthook),
        "reclimit": sys.getrecursionlimit(),
        "switch": sys.getswitchinterval(),
        "environ": zlib.crc32(repr(sorted(os.environ.items())).encode()),
        "cwd": os.getcwd(),
        "sigint": repr(signal.getsignal(signal.SIGINT)),
        "locale": locale.setlocale(locale.LC_ALL),
        "path": tuple(sys.path),
        "sparse_check": torch.sparse.check_sparse_tensor_invariants.is_enabled(),
    }
    return d


AMBIENT = {
    "f64": lambda: torch.set_default_dtype(torch.float64),
    "f32": lambda: torch.set_default_dtype(torch.float32),
    "f16": lambda: torch.set_default_dtype(torch.float16),
    "seed": lambda: (torch.manual_seed(5), np.random.seed(5), random.seed(5)),
    "seed2": lambda: (torch.manual_seed(99), np.random.seed(99), random.seed(99)),
    "npraise": lambda: np.seterr(all="raise", under="ignore"),
    "npignore": lambda: np.seterr(all="ignore"),
    "det": lambda: torch.use_deterministic_algorithms(True, warn_only=True),
    "nodet": lambda: torch.use_deterministic_algorithms(False),
    "nograd": lambda: torch._C._set_grad_enabled(False),
    "grad": lambda: torch._C._set_grad_enabled(True),
    "sparsecheck": lambda: torch.sparse.check_sparse_tensor_invariants.enable(),
    "nosparsecheck": lambda: torch.sparse.check_sparse_tensor_invariants.disable(),
}


class World:
    """Live objects of one run and the meaning of each operation."""

    def __init__(self, sched):
        self.s = {}
        self.sched = sched
        self.results = {}
        self.files = {}
        self.axes = {}  # the caller's axes lists, one for each value

    def wav(self, w):
        return self.s[w["ref"]] if "ref" in w else make_wavelet(w)

    def arg(self, x):
        if "ref" in x:
            return self.s[x["ref"]]
        if "res" in x:
            v = self.results[x["res"]]
            for p in x.get("path", ()):
                v = v[p]
            return v
        if "co" in x or "eyeco" in x:
            return make_coefs(x)
        return make_tensor(x)

    # each op_* returns the value to record
    def do(self, op):
        return getattr(self, "op_" + op["op"])(op)

    def op_nop(self, op):
        pass

    def op_wav(self, op):
        self.s[op["slot"]] = make_wavelet(op["spec"])

    def op_wset(self, op):
        set_wavelet(self.s[op["slot"]], op["spec"], op.get("how"))

    def op_ten(self, op):
        self.s[op["slot"]] = make_tensor(op["x"])

    def op_coef(self, op):
        self.s[op["slot"]] = make_coefs(op["x"])

    def op_fill(self, op):
        t = self.s[op["slot"]]
        how = op.get("how")
        if "vals" in op:
            if isinstance(t, np.ndarray):
                t[...] = np.array(op["vals"])
            else:
                put(t, torch.tensor(op["vals"], dtype=t.dtype), how)
        elif isinstance(t, torch.Tensor):
            put(t, torch.from_numpy(content(list(t.shape), op["dt"], op["seed"], op.get("kind", "n"))), how)
        else:
            new = make_coefs(op["x"])
            for a, b in zip(leaves(t), leaves(new)):
                put(a, b, how)

    def kw(self, spec):
        """Keyword arguments; an axes argument is a tuple or the caller's own list."""
        kw = dict(spec.get("kw", {}))
        a = kw.get("axes")
        if isinstance(a, list):
            kw["axes"] = self.axes.setdefault(tuple(a), list(a)) if spec.get("axl") else tuple(a)
        return kw

    def op_new(self, op):
        w, kw = self.wav(op["wav"]), self.kw(op["spec"])
        with self._gm(op):
            self.s[op["slot"]] = new_object(op["spec"], w, kw)

    def op_drop(self, op):
        self.s.pop(op["slot"], None)

    def _gm(self, op):
        gm = op.get("gm")
        if gm == "nograd":
            return torch.no_grad()
        if gm == "inf":
            return torch.inference_mode()
        if gm == "dev":  # tensors made without a device would have no data
            return torch.device("meta")
        import contextlib
        return contextlib.nullcontext()

    def op_call(self, op):
        x = self.arg(op["x"])
        o = self.s[op["slot"]]
        with self._gm(op):
            r = o(x)
        if "save" in op:
            self.results[op["save"]] = r
        return r

    def op_prop(self, op):
        o = self.s[op["slot"]]
        name = "sparse_fwt_operator" if hasattr(type(o), "sparse_fwt_operator") else "sparse_ifwt_operator"
        m = getattr(o, name)
        if "save" in op:
            self.results[op["save"]] = m
        d = m.to_dense()
        return d

    def op_prop_edit(self, op):
        """Scale a previously read operator in place."""
        m = self.results.get(op["res"])
        if m is not None:
            with torch.no_grad():
                if m.is_sparse:
                    m._values().mul_(3.0)
                else:
                    m.mul_(3.0)

    def _fn(self, op, x, w):
        kw = self.kw(op)
        f = op["f"]
        if f == "cwt":
            sc = kw.pop("scales")
            sk = op.get("sk", "np")
            if sk == "np":
                sc = np.array(sc)
            elif sk == "t":
                sc = torch.tensor(sc, dtype=torch.float64, device="cpu")
            elif sk == "ref":
                sc = self.s[op["sc"]]
            elif sk == "scalar":
                sc = sc[0]
            elif sk == "tuple":
                sc = tuple(sc)
            elif sk == "int":
                sc = np.array(sc, dtype=np.int64)
            return ptwt.cwt(x, sc, w, **kw)
        if f in BUILDERS:
            kw["dtype"] = DT[kw.pop("dt")]
            if op.get("dep") and "orthogonalization" in kw:
                kw["boundary"] = kw.pop("orthogonalization")
            return BUILDERS[f](x, w, device="cpu", **kw)
        if f in SPARSE:
            return SPARSE[f](x, w, **kw)
        return FUNCS[f](x, w, **kw)

    def op_fn(self, op):
        x = self.arg(op["x"]) if "x" in op else None
        w = self.wav(op["wav"])
        with self._gm(op):
            r = self._fn(op, x, w)
        if "save" in op:
            self.results[op["save"]] = r
        return r

    # round trips: analysis, synthesis, difference to the input
    def op_trip(self, op):
        x = self.arg(op["x"])
        c = self.s[op["dec"]](x)
        r = self.s[op["rec"]](c)
        return [x, r]

    def op_ftrip(self, op):
        x = self.arg(op["x"])
        w = self.wav(op["wav"])
        c = self._fn(op, x, w)
        kw = {k: v for k, v in op.get("kw", {}).items() if k in ("axis", "axes")}
        r = self._fn(dict(op, f=op["g"], kw=kw), c, w)
        return [x, r]

    # results kept by the caller
    def op_recheck(self, op):
        v = self.results[op["res"]]
        return v

    def op_scribble(self, op):
        """Overwrite tensors of a kept result in place (or one of them)."""
        v = self.results.get(op["res"])
        ls = leaves(v) if v is not None else []
        which = op.get("which")
        with torch.no_grad():
            for i, t in enumerate(ls):
                if which is None or i == which % max(1, len(ls)):
                    if t.is_inference():
                        continue
                    t = t.detach()
                    if op.get("one") and t.numel():
                        t = t[tuple(op["one"] % n for n in t.shape)]  # a single entry of it
                    t.fill_(op.get("val", -77.0))
        if op.get("container"):
            if isinstance(v, list) and len(v) > 1:
                v[0] = None
            elif isinstance(v, tuple):
                for e in v:
                    if isinstance(e, dict):
                        e.clear()
                    elif isinstance(e, np.ndarray):
                        e[...] = -5

    # gradients
    def op_fwd(self, op):
        """Forward pass with a differentiable input; keeps the graph."""
        x = self.arg(op["x"]).detach()
        if not op.get("plain"):
            x.requires_grad_()
        xs = x
        if "slot" in op:
            o = self.s[op["slot"]]
            if op.get("pk"):
                o.transform(x, op.get("maxlevel"))
                r = [o[k] for k in op["pk"]]
            else:
                r = o(x)
        else:
            w = self.wav(op["wav"])
            r = self._fn(op, x, w)
            if isinstance(w, torch.nn.Module):
                xs = ([] if op.get("plain") else [x]) + list(w.parameters())
        self.results[op["save"]] = (xs, r)
        return [t.detach() for t in leaves(r)]

    def op_fwdco(self, op):
        """Forward pass of a synthesis with differentiable coefficients."""
        c = self.arg(op["x"])
        xs = leaves(c)
        if "slot" in op:
            r = self.s[op["slot"]](c)
        else:
            w = self.wav(op["wav"])
            r = self._fn(op, c, w)
            if isinstance(w, torch.nn.Module):
                xs = [t for t in xs if t.requires_grad] + list(w.parameters())
        self.results[op["save"]] = (xs, r)
        return r.detach()

    def op_bwd(self, op):
        x, r = self.results[op["res"]]
        xs = x if isinstance(x, list) else [x]
        tot = 0.0
        for i, t in enumerate(leaves(r)):
            wt = torch.from_numpy(content(list(t.shape), "f64", op["seed"] * 17 + i))
            if t.is_complex():
                tot = tot + (t.real * wt.to(t.real.dtype)).sum() + (t.imag * wt.to(t.real.dtype)).sum()
            else:
                tot = tot + (t * wt.to(t.dtype)).sum()
            if op.get("sq"):
                tot = tot + (t.abs() ** 2).sum()
        g = torch.autograd.grad(tot, xs, retain_graph=bool(op.get("retain")), allow_unused=True)
        return [e if e is not None else None for e in g]

    # snapshots
    def op_snap(self, op):
        o = self.s[op["src"]]
        how = op["how"]
        if how == "pickle":
            n = pickle.loads(pickle.dumps(o))
        elif how == "torch":
            b = io.BytesIO()
            torch.save(o, b)
            b.seek(0)
            n = torch.load(b, weights_only=False)
        elif how == "deep":
            n = copy.deepcopy(o)
        elif how == "copy":
            n = copy.copy(o)
        elif how == "method":
            n = o.copy()
        else:
            raise AssertionError(how)
        self.s[op["slot"]] = n

    def op_snap_out(self, op):
        """Store a snapshot where a later process finds it."""
        o = self.s[op["src"]]
        if op["how"] == "torch":
            b = io.BytesIO()
            torch.save(o, b)
            self.files[op["file"]] = b.getvalue()
        else:
            self.files[op["file"]] = pickle.dumps(o, protocol=op.get("proto"))

    def op_snap_in(self, op):
        data = self.files[op["file"]]
        if op["how"] == "torch":
            self.s[op["slot"]] = torch.load(io.BytesIO(data), weights_only=False)
        else:
            self.s[op["slot"]] = pickle.loads(data)

    def op_forkdo(self, op):
        """Perform operations in a forked worker; returns what they return."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                engine.untrace()
                out = [outcome(self, o)[0] for o in op["ops"]]
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        return {"__outcomes__": pickle.loads(data)} if data else {"__outcomes__": None}

    # ambient
    def op_amb_probe(self, op):
        """Settings that differ from those before the run."""
        now = ambient_state()
        return sorted(k for k in now if now[k] != self.ambient0[k])

    def op_amb(self, op):
        AMBIENT[op["set"]]()

    # packet trees
    def buffer(self, op):
        """The data: a new tensor, or the caller's one tensor with new contents."""
        if "buf" not in op:
            return self.arg(op["x"])
        x = make_tensor(op["x"])
        t = self.s.get(op["buf"])
        if t is None or t.shape != x.shape or t.dtype != x.dtype:
            t = self.s[op["buf"]] = x
        else:
            put(t, x, op.get("how"))
        return t

    def op_pk_edit(self, op):
        """Scale a coefficient the tree holds in place."""
        o = self.s[op["slot"]]
        if op["key"] not in o:
            return False
        t = o[op["key"]]
        put(t, t * op["c"], op.get("how"))
        return True

    def op_pk_transform(self, op):
        o = self.s[op["slot"]]
        x = self.buffer(op)
        r = o.transform(x, op["maxlevel"]) if op.get("pos") else o.transform(x, maxlevel=op.get("maxlevel"))
        return {"self": r is o, "maxlevel": o.maxlevel}

    def op_pk_new(self, op):
        """A tree created with its data."""
        spec, w = op["spec"], self.wav(op["wav"])
        kw = dict(self.kw(spec), maxlevel=op.get("maxlevel"))
        cls = ptwt.WaveletPacket if spec["kind"] == "wp1" else ptwt.WaveletPacket2D
        if spec.get("dep") and "orthogonalization" in kw:
            kw["boundary_orthogonalization"] = kw.pop("orthogonalization")
        o = self.s[op["slot"]] = cls(self.buffer(op), w, **kw)
        return {"self": True, "maxlevel": o.maxlevel}

    def op_pk_levels(self, op):
        """Node names of a level; the list belongs to the caller."""
        cls = ptwt.WaveletPacket if op["kind"] == "wp1" else ptwt.WaveletPacket2D
        v = getattr(cls, op.get("f", "get_level"))(op["level"], *([op["order"]] if "order" in op else []))
        r = copy.deepcopy(v)
        if op.get("edit") == "clear":
            v.clear()
        elif op.get("edit") == "rev":
            v.reverse()
            if isinstance(v[0], list):
                v[0].pop()
        return r

    def op_pk_items(self, op):
        """All coefficients the tree holds, read as a mapping."""
        o = self.s[op["slot"]]
        how = op.get("how", "items")
        if how == "items":
            return {"k_" + k: v for k, v in o.items()}
        if how == "iter":
            return {"k_" + k: o[k] for k in list(o)}
        if how == "dict":
            return {"k_" + k: v for k, v in dict(o).items()}
        return {"k_" + k: o.get(k) for k in list(o.keys()) if k in o}

    def op_pk_bad(self, op):
        o = self.s[op["slot"]]
        bad = {"scalar": lambda: torch.tensor(1.0), "str": lambda: "nonsense", "none": lambda: None,
               "vec": lambda: torch.ones(7)}[op["bad"]]()
        o.transform(bad)

    def op_pk_get(self, op):
        r = self.s[op["slot"]][op["key"]]
        if "save" in op:
            self.results[op["save"]] = r
        return r

    def op_pk_init(self, op):
        ks = list(op["keys"])
        self.s[op["slot"]].initialize(iter(ks) if op.get("iter") else ks)
        if ks != op["keys"]:
            raise AssertionError("key collection modified")

    def op_pk_set(self, op):
        o = self.s[op["slot"]]
        v = self.arg(op["x"])
        how = op.get("how")
        if how == "update":
            o.update({op["key"]: v})
        elif how == "or":
            o |= {op["key"]: v}
        else:
            o[op["key"]] = v

    def op_pk_del(self, op):
        o = self.s[op["slot"]]
        if op.get("how") == "pop":
            o.pop(op["key"])
        else:
            del o[op["key"]]

    def op_pk_rec(self, op):
        o = self.s[op["slot"]]
        r = o.reconstruct()
        return {"self": r is o}

    def op_pk_ptrip(self, op):
        """Unmodified tree: read all leaves, reconstruct, return the root."""
        o = self.s[op["slot"]]
        x = self.arg(op["x"])
        o.transform(x, op["maxlevel"])
        from itertools import product
        ch = "ad" if op["kind"] == "wp1" else "ahvd"
        o.initialize(["".join(p) for p in product(ch, repeat=op["maxlevel"])])
        o.reconstruct()
        return [x, o[""]]

    # learning
    def op_tr_new(self, op):
        self.s[op["slot"]] = Trainer(self.wav(op["wav"]), op["cfg"])

    def op_tr_step(self, op):
        t = self.s[op["slot"]]
        return t.step()

    def op_tr_save(self, op):
        t = self.s[op["slot"]]
        blob = t.checkpoint()
        # the store writes a new generation and keeps the previous one; a torn
        # write leaves a prefix, detected by its checksum at restart
        torn = op.get("torn")
        gens = self.files.setdefault(op["file"], [])
        data = zlib.crc32(blob).to_bytes(4, "big") + blob
        if torn is not None:
            data = data[: max(1, int(len(data) * torn))]
        gens.append(data)
        del gens[:-2]

    def op_tr_load(self, op):
        gens = self.files.get(op["file"], [])
        for data in reversed(gens):
            if len(data) > 4 and zlib.crc32(data[4:]).to_bytes(4, "big") == data[:4]:
                t = self.s[op["slot"]]
                t.restore(data[4:], op.get("how"))
                return {"step": t.n}
        return {"step": None}

    def op_tr_eval(self, op):
        return self.s[op["slot"]].evaluate()

    def op_loss(self, op):
        w = self.s[op["slot"]]
        return [w.wavelet_loss(), w.alias_cancellation_loss()[0], w.perfect_reconstruction_loss()[0],
                w.pf_alias_cancellation_loss()[0]] + (
            [w.rec_lo_orthogonality_loss(), w.filt_bank_orthogonality_loss()]
            if hasattr(w, "rec_lo_orthogonality_loss") else [])


class Trainer:
    """Client code that learns a wavelet (its durable state is a checkpoint)."""

    def __init__(self, wav, cfg):
        self.w = wav
        self.cfg = cfg
        self._optimiser()
        self.n = 0

    def _optimiser(self):
        ps = list(self.w.parameters())
        cfg = self.cfg
        if cfg["opt"] == "adam":
            self.opt = torch.optim.Adam(ps, lr=cfg["lr"])
        else:
            self.opt = torch.optim.SGD(ps, lr=cfg["lr"], momentum=cfg.get("mom", 0.0))

    def _data(self, n):
        return torch.from_numpy(content(self.cfg["shape"], self.cfg["dt"], self.cfg["seed"] * 1009 + n))

    def _loss(self, x):
        c = self.cfg
        if c["model"] == "cwt":
            out, _ = ptwt.cwt(x, np.array(c["scales"]), self.w, precision=6)
            return (out.abs() ** 2).mean()
        loss = self.w.wavelet_loss()
        if c["model"] == "dec":
            co = ptwt.wavedec(x, self.w, mode=c["mode"], level=c["level"])
            loss = loss + sum(e.abs().mean() for e in co[1:])
        elif c["model"] == "trip":
            co = ptwt.wavedec(x, self.w, mode=c["mode"], level=c["level"])
            r = ptwt.waverec(co, self.w)[..., : x.shape[-1]]
            loss = loss + ((r - x) ** 2).mean() + 0.1 * co[-1].abs().mean()
        elif c["model"] == "dec2":
            co = ptwt.wavedec2(x, self.w, mode=c["mode"], level=c["level"])
            loss = loss + sum(e.abs().mean() for t in co[1:] for e in t)
        elif c["model"] == "swt":
            co = ptwt.swt(x, self.w, level=c["level"])
            loss = loss + sum(e.abs().mean() for e in co[1:])
        elif c["model"] == "pk":
            wp = ptwt.WaveletPacket(x, self.w, mode=c["mode"], maxlevel=c["level"])
            loss = loss + sum(wp[k].abs().mean() for k in wp.get_level(c["level"]))
        if c.get("orth") and hasattr(self.w, "rec_lo_orthogonality_loss"):
            loss = loss + self.w.rec_lo_orthogonality_loss()
        return loss

    def step(self):
        self.opt.zero_grad()
        loss = self._loss(self._data(self.n))
        loss.backward()
        self.opt.step()
        self.n += 1
        return {"n": self.n, "loss": loss.detach(), "p": [p.detach().clone() for p in self.w.parameters()]}

    def evaluate(self):
        with torch.no_grad():
            return [self._loss(self._data(4242))] + [p.detach().clone() for p in self.w.parameters()]

    def checkpoint(self):
        b = io.BytesIO()
        torch.save({"n": self.n, "w": self.w.state_dict(), "o": self.opt.state_dict()}, b)
        return b.getvalue()

    def restore(self, blob, how=None):
        d = torch.load(io.BytesIO(blob), weights_only=False)
        if how == "assign":
            self.w.load_state_dict(d["w"], assign=True)
        elif how == "replace":
            for n, p in list(self.w.named_parameters()):
                setattr(self.w, n, torch.nn.Parameter(d["w"][n].clone()))
        elif how == "data":
            for n, p in self.w.named_parameters():
                p.data = d["w"][n].clone()
        else:
            self.w.load_state_dict(d["w"])
        if how:
            self._optimiser()
        self.opt.load_state_dict(d["o"])
        self.n = d["n"]


FATAL = (engine.StepBudget, boot.SimDeadlock)


def outcome(world, op, sched=None, tid=0, i=0):
    """Execute one operation; returns (normal form, error text)."""
    mode = None
    if sched is not None and sched.wants_aten(tid, i):
        mode = engine.aten_mode(sched)
    try:
        if sched is not None:
            sched.tracing(True)
        try:
            if mode is not None:
                with mode:
                    v = world.do(op)
            else:
                v = world.do(op)
        finally:
            engine.untrace()
    except FATAL:
        raise
    except BaseException as e:  # recorded as the operation's outcome
        if isinstance(e, (SystemExit, GeneratorExit)):
            raise
        inj = isinstance(e, (engine.InjectedInterrupt, engine.InjectedMemoryError)) or "injected" in str(e)
        return {"err": err_name(e), "inj": inj}, "%s: %s" % (type(e).__name__, str(e)[:300])
    if isinstance(v, dict) and "__outcomes__" in v:
        return {"ok": {"outcomes": v["__outcomes__"]}}, ""
    return {"ok": norm(v)}, ""


def run_program(prog):
    """Execute a program; returns the recorded history (plain data)."""
    err = engine.SimStream()
    sys.stderr = err
    plan = dict(prog.get("plan") or {})
    plan["trace"] = bool(plan.get("trace") or prog.get("profile") or prog.get("trace"))
    sched = engine.Scheduler(plan, err)
    if prog.get("profile"):
        sched.profile = {}
    w = World(sched)
    w.files = dict(prog.get("files") or {})
    check_inputs = prog.get("inputs")
    check_amb = prog.get("ambient")
    if check_amb:
        w.ambient0 = ambient_state()
    hist = []
    for op in prog.get("setup", ()):
        outcome(w, op)  # a failing one shows in the operations that use its result
    bad_inputs = []
    watched = {}
    if check_inputs:
        for name in sorted(w.s):
            if name[0] in "twcs":
                watched[name] = (w.s[name], fingerprint(w.s[name]))

        def observe():
            for name, (v, fp) in watched.items():
                if len(bad_inputs) < 5 and fingerprint(v) != fp:
                    bad_inputs.append({"name": name})
        sched.observer = observe

    def body_of(tid, ops):
        def body(s):
            for i, op in enumerate(ops):
                if check_amb and op["op"] != "amb":
                    before = ambient_state()
                inv = s.begin(i)
                out, text = outcome(w, op, s, tid, i)
                ret = s.end()
                h = {"task": tid, "i": i, "inv": inv, "ret": ret, "out": out, "text": text}
                if check_amb and op["op"] != "amb":
                    after = ambient_state()
                    diff = sorted(k for k in (LOCAL if check_amb == "local" else before) if before[k] != after[k])
                    if diff:
                        h["amb"] = diff
                if check_inputs:
                    for a, v in w.axes.items():
                        if tuple(v) != a:
                            h.setdefault("changed", []).append("axes %s" % (a,))
                            v[:] = a
                    for name, (v, fp) in list(watched.items()):
                        new = fingerprint(v)
                        if new != fp:
                            if not (op["op"] in ("fill", "wset") and op["slot"] == name):
                                h.setdefault("changed", []).append(name)
                            watched[name] = (v, new)
                hist.append(h)
        return body

    fatal = None
    nt = len(prog["tasks"])
    try:
        sched.run([body_of(t, ops) for t, ops in enumerate(prog["tasks"])])
        if prog.get("after"):
            for i, op in enumerate(prog["after"]):
                out, text = outcome(w, op)
                hist.append({"task": nt, "i": i, "inv": sched.seq + 1, "ret": sched.seq + 2, "out": out, "text": text})
                sched.seq += 2
    except FATAL as e:
        fatal = "%s: %s" % (type(e).__name__, e)
    return {
        "hist": hist, "fatal": fatal, "log": sched.log, "fired": sched.fired, "steps": sched.steps,
        "trail": sched.trail, "profile": sched.profile, "stderr": err.writes, "bad_inputs": bad_inputs,
        "observed": sched.observed, "files": w.files,
    }
