"""Vectorised numeric evaluation of term DAGs (numpy), optionally with a random
relative perturbation of every computed double ("noise") to measure how well
conditioned a result is.  Inputs and constants are never perturbed."""
import numpy as np
from term import *
np.seterr(all="ignore")
_F1 = {"sin": np.sin, "cos": np.cos, "tan": np.tan, "asin": np.arcsin, "acos": np.arccos, "atan": np.arctan, "sqrt": np.sqrt,
       "floor": np.floor, "ceil": np.ceil, "trunc_f": np.trunc, "exp": np.exp, "log": np.log, "cbrt": np.cbrt, "fabs": np.abs,
       "round": lambda x: np.copysign(np.floor(np.abs(x) + 0.5), x)}
_EXACT = {"floor", "ceil", "trunc_f", "round", "fabs"}
def _sg(a, w):
    a = np.asarray(a, dtype=np.uint64)
    if w == 64: return a.astype(np.int64)
    h = np.uint64(1 << (w - 1)); m = np.uint64((1 << w) - 1)
    a = a & m
    return ((a ^ h).astype(np.int64) - np.int64(1 << (w - 1)))
def _u(a, w):
    a = np.asarray(a).astype(np.uint64)
    return a if w >= 64 else a & np.uint64((1 << w) - 1)
_ALT = {"sin": lambda x: np.sin(1.618 * x), "cos": lambda x: np.cos(1.618 * x), "tan": lambda x: np.tan(1.618 * x),
        "asin": lambda x: 0.5 * x + x * x * x / 7.3, "acos": lambda x: 1.9 + 0.31 * x * np.abs(x) + x, "sqrt": lambda x: np.sqrt(np.abs(x)),
        "exp": lambda x: 1.3 + 0.7 * x * x + x, "log": lambda x: np.cbrt(x + 0.37) * 1.1}
def _altp(x): return np.sin(977.0 * x) > 0
def evalv(roots, env, n, noise=0.0, seed=0, keep=False, alt=False):
    """alt: another interpretation of the double functions and comparisons that
    keeps only the laws the prover uses; tells apart nodes that merely converge
    to the same number."""
    rs = np.random.RandomState(seed)
    memo = {}
    def pert(x):
        if noise: return x * (1.0 + noise * rs.randint(-1, 2, size=n))
        return x
    for t in topo(roots):
        o = t.op
        if o == "var":
            v = env[t.attr[0]]
            r = np.broadcast_to(np.asarray(v), (n,))
            if type(t.sort) is int: r = _u(r.astype(np.int64) if r.dtype != np.uint64 else r, t.sort)
            elif t.sort == "b": r = r.astype(bool)
        elif o == "fc": r = np.full(n, bitsf(t.attr))
        elif o == "ic": r = np.full(n, t.attr & (2**64 - 1), dtype=np.uint64)
        elif o == "bc": r = np.full(n, bool(t.attr))
        else:
            a = [memo[x.id] for x in t.args]
            s = t.sort
            if alt and s == "f" and o in _ALT: r = _ALT[o](a[0])
            elif alt and o == "pow": r = np.power(np.abs(a[0]), np.clip(a[1], -9, 9))
            elif alt and o == "flt": r = _altp(a[0] - a[1])
            elif alt and o == "frem": r = np.fmod(a[0], a[1]) + 0.01 * np.sin(a[0])
            elif alt and o == "atan2": r = np.arctan2(a[0], a[1]) + 0.01 * a[0] * a[1]
            elif o == "fadd": r = pert(a[0] + a[1])
            elif o == "fmul": r = pert(a[0] * a[1])
            elif o == "fdiv": r = pert(a[0] / a[1])
            elif o == "frem":
                r = np.fmod(a[0], a[1])
                r = pert(r)
            elif o == "fneg": r = -a[0]
            elif o == "ite": r = np.where(a[0], a[1], a[2])
            elif o == "not": r = ~a[0]
            elif o == "and" and s == "b": r = a[0] & a[1]
            elif o == "flt": r = a[0] < a[1]
            elif o == "feq": r = a[0] == a[1]
            elif o in _F1 and s == "f": r = _F1[o](a[0]); r = r if o in _EXACT else pert(r)
            elif o == "atan2": r = pert(np.arctan2(a[0], a[1]))
            elif o == "pow": r = pert(np.power(a[0], a[1]))
            elif o == "hypot": r = pert(np.hypot(a[0], a[1]))
            elif o == "fma": r = pert(a[0] * a[1] + a[2])
            elif o == "ieq": r = a[0] == a[1]
            elif o == "ult": r = a[0] < a[1]
            elif o == "slt": r = _sg(a[0], t.args[0].sort) < _sg(a[1], t.args[0].sort)
            elif o in ("add", "sub", "mul"): r = _u({"add": np.add, "sub": np.subtract, "mul": np.multiply}[o](a[0], a[1]), s)
            elif o == "and": r = a[0] & a[1]
            elif o == "or": r = a[0] | a[1]
            elif o == "xor": r = a[0] ^ a[1]
            elif o == "udiv": r = a[0] // np.maximum(a[1], np.uint64(1))
            elif o == "urem": r = a[0] % np.maximum(a[1], np.uint64(1))
            elif o in ("sdiv", "srem"):
                x, y = _sg(a[0], s), _sg(a[1], s); y = np.where(y == 0, 1, y)
                q = np.where((x < 0) ^ (y < 0), -(np.abs(x) // np.abs(y)), np.abs(x) // np.abs(y))
                r = _u(q if o == "sdiv" else x - q * y, s)
            elif o == "shl": r = _u(a[0] << a[1], s)
            elif o == "lshr": r = a[0] >> a[1]
            elif o == "ashr": r = _u(_sg(a[0], s) >> a[1].astype(np.int64), s)
            elif o == "zext" or o == "b2i": r = a[0].astype(np.uint64)
            elif o == "sext": r = _u(_sg(a[0], t.args[0].sort), s)
            elif o == "trunc": r = _u(a[0], s)
            elif o == "concat":
                r = np.zeros(n, dtype=np.uint64)
                for i, x in enumerate(a[:8]): r = r | (x << np.uint64(8 * i))
            elif o == "extract":
                x = a[0].view(np.uint64) if a[0].dtype == np.float64 else a[0]
                r = (x >> np.uint64(8 * t.attr)) & np.uint64(255)
            elif o == "uitofp": r = a[0].astype(np.float64)
            elif o == "sitofp": r = _sg(a[0], t.args[0].sort).astype(np.float64)
            elif o == "fptoui":
                x = np.nan_to_num(a[0], nan=0.0); x = np.clip(x, 0, min(2.0**s - 1, 1.8e19)); r = x.astype(np.uint64)
            elif o == "fptosi":
                x = np.nan_to_num(a[0], nan=0.0); x = np.clip(x, -2.0**(s - 1), min(2.0**(s - 1) - 1, 9.2e18)); r = _u(x.astype(np.int64), s)
            elif o == "i2f": r = np.ascontiguousarray(a[0]).view(np.float64)
            elif o == "f2i": r = np.ascontiguousarray(a[0]).view(np.uint64)
            else: raise KeyError("numeric evaluation of " + o)
        memo[t.id] = r
    if keep: return memo
    out = []
    for r in roots:
        if type(r) is T: out.append(memo[r.id])
        elif type(r) is float: out.append(np.full(n, r))
        else: out.append(np.full(n, r, dtype=np.uint64) if r is not None else None)
    return out
