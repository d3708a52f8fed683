"""Builds the harness from /repo's current tree and runs its entry points, symbolically and natively."""
import os, subprocess, time, fcntl, sys
import numpy as np
import llir, sym, native
from term import *
from fields import FIELDS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
NF = len(FIELDS)
ELS = "epoch bstar ecco argpo inclo mo no nodeo".split()

class BuildError(Exception): pass
def build():
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR=BUILD, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["cargo", "rustc", "--offline", "--quiet", "--", "--emit=llvm-ir"], cwd=os.path.join(ROOT, "harness"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError(r.stdout[-3000:])
    d = os.path.join(BUILD, "debug")
    return os.path.join(d, "deps", "h.ll"), os.path.join(d, "libh.so")

class Env:
    def __init__(self):
        t = time.time()
        self.ll, self.so = build()
        self.build_s = time.time() - t
        self.native = native.Native(self.so)
        self._mod = None
    @property
    def mod(self):
        if self._mod is None: self._mod = llir.Module(self.ll)
        return self._mod

def outcome(ex, outs):
    if len(outs) != 1: raise sym.Unsupported("%d outcomes" % len(outs))
    return outs[0][0]

class Run:
    """Result of one symbolic run: .out (terms), .ex, .pc"""
    pass

def run_vec(env, fn, names, nout, bound=64, ints=(), merge=True, setup=None):
    """fn(in: *f64, out: *f64) with symbolic inputs names."""
    ex = sym.Ex(env.mod, merge=True, loop_bound=bound)
    if setup: setup(ex)
    st = sym.State()
    a = ex.new(st, 8 * len(names)); o = ex.new(st, 8 * nout)
    for i, n in enumerate(names): ex.store(st, a + 8 * i, "d", var(n, "f") if type(n) is str else n)
    outs = ex.call("@" + fn, [a, o], st)
    r = Run(); r.ex = ex
    if outs:
        s = outcome(ex, outs)
        r.out = [ex.load(s, o + 8 * i, "d") for i in range(nout)]; r.pc = s.pc
    else: r.out = None; r.pc = (0,)
    return r

KNAMES = "error epochyr isimp init opsmode method".split()
def run_sgp4(env, deep, nsteps, fields=None, kvals=None):
    ex = sym.Ex(env.mod, merge=True, loop_bound=64)
    ex.bounds = [("dspace", nsteps + 1)]
    st = sym.State()
    f = ex.new(st, 8 * NF); k = ex.new(st, 48); o = ex.new(st, 48); c = ex.new(st, 16)
    for i, n in enumerate(FIELDS): ex.store(st, f + 8 * i, "d", (fields or {}).get(n, var(n, "f")))
    kv = dict(error=var("error", 64, (0, 255)), epochyr=var("epochyr", 64, (0, 99)), isimp=var("isimp", 64, (0, 1)), init=1, opsmode=var("opsmode", 64, (0, 2)), method=int(deep))
    if kvals: kv.update(kvals)
    for i, n in enumerate(KNAMES): ex.store(st, k + 8 * i, 64, kv[n])
    for i in range(6): ex.store(st, o + 8 * i, "d", 0.0)
    outs = ex.call("@h_sgp4", [f, k, var("tsince", "f"), o, c], st)
    return _rec_out(ex, outs, f, k, o, c)
def _rec_out(ex, outs, f, k, o, c):
    r = Run(); r.ex = ex
    s = outcome(ex, outs)
    r.out = [ex.load(s, o + 8 * i, "d") for i in range(6)]
    r.f = {n: ex.load(s, f + 8 * i, "d") for i, n in enumerate(FIELDS)}
    r.k = {n: ex.load(s, k + 8 * i, 64) for i, n in enumerate(KNAMES)}
    r.variant, r.code = ex.load(s, c, 64), ex.load(s, c + 8, 64)
    r.pc = s.pc
    return r
def run_init(env, stub=True, oracle=0):
    """sgp4init on a record with arbitrary old contents; the propagation it ends
    with is cut (its outcome is a free choice) when stub is set."""
    ex = sym.Ex(env.mod, merge=True, loop_bound=64)
    st = sym.State()
    e = ex.new(st, 64); f = ex.new(st, 8 * NF); k = ex.new(st, 48); o = ex.new(st, 48); c = ex.new(st, 16)
    for i, n in enumerate(ELS): ex.store(st, e + 8 * i, "d", var("el." + n, "f"))
    for i, n in enumerate(FIELDS): ex.store(st, f + 8 * i, "d", var("old." + n, "f"))
    for i, n in enumerate(KNAMES):
        ex.store(st, k + 8 * i, 64, var("old." + n, 64, {"error": (0, 255), "epochyr": (0, 99), "isimp": (0, 1), "init": (0, 1), "opsmode": (0, 2), "method": (0, 1)}[n]))
    for i in range(6): ex.store(st, o + 8 * i, "d", 0.0)
    if stub:
        def h(ex, st, a, rt):
            ex.events.append(("sgp4", st.pc, a[-1]))
            return ex.dispatch(st, "@stub_sgp4", a, rt)
        ex.intercepts.append((r"^satellite::propogation::sgp4::sgp4$", h))
        ex.intercepts.append((r"oracle_sgp4", lambda ex, st, a, rt: oracle))
    else: ex.bounds = [("dspace", 2)]
    ex.bounds = ex.bounds + [("stub_", 200)]
    outs = ex.call("@h_sgp4init", [e, var("opsmode", 64, (0, 2)), f, k, o, c], st)
    return _rec_out(ex, outs, f, k, o, c)

# ------------------------------------------------------------ native records
def nat_init(env, el, mode, old=None):
    """el: 8 floats. -> (f list, k list, out, c) or ("panic", msg)"""
    f0, k0 = old or ([0.0] * NF, [0, 80, 0, 1, 2, 0])
    r = env.native.call("h_sgp4init", ("d", list(map(float, el))), int(mode), ("d", f0), ("q", k0), ("d", [0.0] * 6), ("q", [0, 0]))
    if type(r) is tuple: return r
    return r[1], r[2], r[3], r[4]
def nat_sgp4(env, f, k, t):
    r = env.native.call("h_sgp4", ("d", f), ("q", k), float(t), ("d", [0.0] * 6), ("q", [0, 0]))
    if type(r) is tuple: return r
    return r[0], r[1], r[2], r[3]      # f k out c

def sample_elements(n, kind, seed=1):
    """kind: 'near' 'deep' ; plausible element sets over the whole documented domain."""
    rs = np.random.RandomState(seed)
    E = np.zeros((n, 8))
    E[:, 0] = rs.uniform(2556.0, 38715.0, n)              # days since 1950: 1957..2056
    E[:, 1] = np.where(rs.rand(n) < 0.1, 0.0, rs.choice([-1, 1, 1, 1], n) * 10 ** rs.uniform(-7, -1, n))
    ecc = np.where(rs.rand(n) < 0.4, 10 ** rs.uniform(-7, -1, n), rs.uniform(0, 0.95, n))
    ecc = np.where(rs.rand(n) < 0.05, 0.0, ecc)
    inc = rs.uniform(0, np.pi, n)
    u = rs.rand(n)
    inc = np.where(u < 0.2, rs.uniform(0, 0.25, n), inc)
    inc = np.where((u > 0.2) & (u < 0.25), np.pi - rs.uniform(0, 0.06, n), inc)
    inc = np.where((u > 0.25) & (u < 0.28), rs.uniform(0, 0.06, n), inc)
    ang = rs.uniform(0, 2 * np.pi, (n, 3))
    if kind == "near":
        # choose perigee height then mean motion from (a,e)
        ecc = np.minimum(ecc, 0.45)
        hp = np.where(rs.rand(n) < 0.5, rs.uniform(60, 260, n), rs.uniform(200, 3000, n))
        a = (1 + hp / 6378.137) / (1 - ecc)
        no = 0.0743669161 / a ** 1.5
        lim = 2 * np.pi / 224.0
        no = np.where(no < lim, rs.uniform(lim, 0.075, n), no)
    else:
        no = rs.uniform(0.0005, 2 * np.pi / 226.0, n)
        v = rs.rand(n)
        no = np.where(v < 0.3, rs.uniform(0.0034, 0.0053, n), no)
        no = np.where((v >= 0.3) & (v < 0.65), rs.uniform(0.0082, 0.0093, n), no)
        half = (v >= 0.3) & (v < 0.6)
        amax = 1 - 1.02 / (0.0743669161 / no) ** (2 / 3)
        ecc = np.where(half, rs.uniform(0.45, 0.9, n), ecc)
        ecc = np.where(rs.rand(n) < 0.8, np.minimum(ecc, np.maximum(amax, 0.0)), ecc)
    E[:, 2], E[:, 3], E[:, 4], E[:, 5], E[:, 6], E[:, 7] = ecc, ang[:, 0], inc, ang[:, 1], no, ang[:, 2]
    return E
