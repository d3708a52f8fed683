"""Checks of the numeric properties (propagation, frames, angles)."""
import math, time
import numpy as np, z3
from term import *
import runs, ref, sym, conf, smt, num
from ref import V, R
from fields import FIELDS
from nprop import *

NUMBERS = "numbers only: no NaN or infinity among the inputs and intermediate values; equality up to rounding means real-number equality of the two formulas (relative 1e-11 per term), the sign of zero is ignored"
ELS = runs.ELS
PI = math.pi

class RecDom(Dom):
    """Elements, operation mode and time(s); records come from the compiled initialisation."""
    def __init__(self, env, deep, tmax, nt=1):
        self.E, self.deep, self.tmax, self.nt = env, deep, tmax, nt
        self.names = ["el." + e for e in ELS] + ["opsmode"] + ["t%d" % i for i in range(nt)]
        lim = 2 * PI / 225
        self.lo = [2556, -0.1, 0.0, 0, 0, 0, 0.0005 if deep else lim, 0, 0] + [-tmax] * nt
        self.hi = [38715, 0.1, 0.95 if deep else 0.5, 2 * PI, PI, 2 * PI, lim if deep else 0.0745, 2 * PI, 2] + [tmax] * nt
        self.discrete = (8,)
        if not deep: self.reach = [((9,), 0, 3)]
        self.special = {"el.ecco": [0.0, 1e-4, 0.5, 0.65, 0.7, 0.715], "el.inclo": [0.0, PI, 0.2, PI / 2], "el.bstar": [0.0], "opsmode": [0, 1, 2], "el.mo": [0.0], "el.argpo": [0.0], "el.nodeo": [0.0]}
        for i in range(nt): self.special["t%d" % i] = [0.0, 720.0, -720.0, 1440.0, -1440.0, 719.0, 721.0, -719.0, -721.0]
    def sample(self, n, seed):
        rs = np.random.RandomState(seed)
        E = runs.sample_elements(n, "deep" if self.deep else "near", seed)
        t = rs.uniform(-1, 1, (n, self.nt)) * self.tmax
        t = np.where(rs.rand(n, self.nt) < 0.3, rs.uniform(-1500, 1500, (n, self.nt)), t)
        t = np.where(rs.rand(n, self.nt) < 0.1, rs.choice([-1, 1], (n, self.nt)) * 10 ** rs.uniform(-3, math.log10(self.tmax), (n, self.nt)), t)
        return np.hstack([E, rs.randint(0, 3, (n, 1)), np.clip(t, -self.tmax, self.tmax)])
    def inits(self, X):
        return self.E.native.many([("h_sgp4init", ("d", [float(v) for v in x[:8]]), int(x[8]), ("d", [0.0] * runs.NF), ("q", [0, 80, 0, 1, 2, 0]), ("d", [0.0] * 6), ("q", [0, 0])) for x in X])
    def prior(self, x): return 0       # the record's error field before the call
    def tweak(self, x, f): return f
    def good(self, r): return type(r) is not tuple and r[4][0] == 0 and r[2][5] == int(self.deep)
    def env(self, X):
        I = self.inits(X)
        ok = np.array([self.good(r) for r in I])
        z = [0.0] * runs.NF
        F = np.array([self.tweak(x, r[1]) if o else z for x, r, o in zip(X, I, ok)]); K = np.array([r[2] if o else [0] * 6 for r, o in zip(I, ok)])
        e = {n: F[:, i] for i, n in enumerate(FIELDS)}
        for i, n in enumerate(runs.KNAMES): e[n] = K[:, i]
        e["error"] = np.array([self.prior(x) for x in X])
        ok &= np.isfinite(F).all(axis=1)
        for i in range(self.nt): e["t%d" % i] = X[:, 9 + i]
        e["tsince"] = X[:, 9]
        return e, ok
    def native(self, X):
        I = self.inits(X)
        c = [("h_sgp4", ("d", self.tweak(x, r[1])), ("q", [self.prior(x)] + r[2][1:]), float(x[9]), ("d", [0.0] * 6), ("q", [0, 0])) if self.good(r) else ("h_codes", ("q", [0] * 5)) for r, x in zip(I, X)]
        out = []
        for r, q in zip(I, self.E.native.many(c)):
            if not self.good(r): out.append({})
            elif type(q) is tuple: out.append(q)
            else: out.append(self.result(q))
        return out
    def result(self, q):
        f, k, o, c = q
        d = {"rx": o[0], "ry": o[1], "rz": o[2], "vx": o[3], "vy": o[4], "vz": o[5], "variant": c[0], "code": c[1], "error field": k[0]}
        d["inside"] = int(c[0] == 0 and math.hypot(*o[:3]) < 6378.137 * (1 - 1e-9))
        return d

IREZ = {"irez": lambda rs, n: rs.choice([0., 1., 2.], n)}
def prop_run(ctx, deep, nsteps):
    """(impl run or None, reference)"""
    m = icmp("eq", var("opsmode", 64, (0, 2)), 0, 64)
    rec = R({k: V(var(k, "f")) for k in FIELDS})
    if deep: rec.atime = V(0.0)
    x = ref.sgp4(rec, var("isimp", 64, (0, 1)), V(var("tsince", "f")), deep, m, nsteps)
    try:
        s = runs.run_sgp4(ctx.env, deep, nsteps, fields={"atime": 0.0} if deep else None)
        ctx.used(s.ex)
    except (sym.Unsupported, KeyError, TypeError, AttributeError, IndexError, SyntaxError, RecursionError) as e:
        ctx.notes.append("encoding failed: %s %s" % (type(e).__name__, str(e)[:200])); s = None
    return s, x
def steps(ctx, quick, deepest): return deepest if ctx.thorough() else quick
def tmax(deep, ns): return 720.0 * (ns + 0.99) if deep else 50000.0

OUTS = ["rx", "ry", "rz", "vx", "vy", "vz"]
def conf_prop(ctx, deep, ns=0):
    s, x = prop_run(ctx, deep, ns)
    ok = icmp("eq", x.err, 0, 64)
    dom = RecDom(ctx.env, deep, tmax(deep, ns))
    ctx.bounds.update({"Newton iterations": "10 (the code's own limit, unwinding checked)", "loop bound": 64})
    if deep: ctx.bounds["integrator steps"] = "%d whole 720-min steps each way, |t| < %d min" % (ns, 720 * (ns + 1))
    ctx.assume += [NUMBERS, "record fields arbitrary numbers; irez any number" + (", atime = 0 (holds after initialisation and after every propagation: C15, C10)" if deep else "")]
    o = s.out if s else [None] * 6
    pairs = [Pair(n, a, b.v, "f", "r" if i < 3 else "v", when=ok) for i, (n, a, b) in enumerate(zip(OUTS, o, x.pos + x.vel))]
    vac(ctx, "successful propagation", list(s.pc) + [x.inb, ok] if s else [])
    conform(ctx, "deep-space propagation, %d steps" % ns if deep else "near-Earth propagation", [x.inb], pairs, dom, impl_pre=s.pc if s else (), spec=IREZ if deep else None, maxs=4000)
    sample(ctx, dom)
def vac(ctx, what, conds):
    """The assumptions are satisfiable together (no obligation holds vacuously)."""
    if not conds: return
    u = smt.UF(); s = z3.Solver(); s.set("timeout", 10000)
    for c in conds: s.add(u(c, "b"))
    r = smt.check(s, "vacuity")
    ctx.witness.append({"what": what, "answer": r})
    if r == "unsat": ctx.open("vacuity: " + what, "assumptions are contradictory")
def sample(ctx, dom):
    X = dom.sample(3, 9)
    for x, r in zip(X, dom.native(X)): ctx.samples.append({"input": {n: float(v) for n, v in zip(dom.names, x)}, "native": r})

def C14(ctx): conf_prop(ctx, 0)
def C16(ctx):
    for ns in (8, steps(ctx, 40, 80)):       # few steps first: a difference is found sooner
        conf_prop(ctx, 1, ns)
        if ctx.viol: break

def C11(ctx):
    for deep, ns in ((0, 0), (1, 3), (1, steps(ctx, 20, 60))):
        s, x = prop_run(ctx, deep, ns)
        dom = RecDom(ctx.env, deep, tmax(deep, ns))
        lab = "deep-space propagation, %d steps" % ns if deep else "near-Earth propagation"
        prs = [Pair("variant", s.variant if s else None, x.err, 64), Pair("code", s.code if s else None, x.err, 64),
               Pair("error field", s.k["error"] if s else None, x.err, 64)]
        if s:
            for e in ((1, 2, 4, 6, 3) if deep else (1, 2, 4, 6)): vac(ctx, "%s error %d" % (lab, e), list(s.pc) + [x.inb, icmp("eq", x.err, e, 64)])
        conform(ctx, lab, [x.inb], prs, ErrDom(ctx.env, deep, tmax(deep, ns)), impl_pre=s.pc if s else (), spec=IREZ if deep else None)
        sample(ctx, dom)
        if ctx.viol: break
    ctx.bounds["integrator steps"] = "%d" % ns
    ctx.assume += [NUMBERS]
    # the numeric codes
    r = ctx.env.native.call("h_codes", ("q", [0] * 5))
    try:
        ex = sym.Ex(ctx.env.mod); st = sym.State(); c = ex.new(st, 40)
        s1 = runs.outcome(ex, ex.call("@h_codes", [c], st)); ctx.used(ex)
        got = [ex.load(s1, c + 8 * i, 64) for i in range(5)]
        u = smt.UF(); so = z3.Solver(); so.add(z3.Or([u(g, 64) != w for g, w in zip(got, (1, 2, 3, 4, 6))]))
        q = smt.check(so, "codes")
        if q == "unsat": ctx.ok("numeric codes 1 2 3 4 6")
        elif type(r) is not tuple and r[0] != [1, 2, 3, 4, 6]: ctx.bad("numeric codes", {}, r[0], [1, 2, 3, 4, 6])
        else: ctx.open("numeric codes", "solver: " + q)
    except sym.Unsupported as e:
        if type(r) is tuple or r[0] != [1, 2, 3, 4, 6]: ctx.bad("numeric codes", {}, r, [1, 2, 3, 4, 6])
        else: ctx.open("numeric codes", str(e))
    # initialisation reports the outcome of propagating to epoch
    oc = var("outcome", 64, (0, 6))
    m = icmp("eq", var("opsmode", 64, (0, 2)), 0, 64)
    try:
        s = runs.run_init(ctx.env, True, oracle=oc); ctx.used(s.ex)
        u = smt.UF(); pre = [u(p, "b") for p in s.pc] + [u(oc, 64) != 5]
        for nm, cond in (("initialisation returns the outcome of its propagation to epoch", z3.Or(u(s.variant, 64) != u(oc, 64), u(s.code, 64) != u(oc, 64))),
                         ("initialisation has no panic or endless loop", z3.Or([z3.And([u(c, "b") for c in p[0]] or [z3.BoolVal(True)]) for p in s.ex.panics + s.ex.unwound] or [z3.BoolVal(False)])),
                         ("initialisation propagates to time 0 exactly once", z3.BoolVal(not (len(s.ex.events) == 1 and s.ex.events[0][2] == 0.0)))):
            so = z3.Solver(); so.set("timeout", 20000)
            for p in (pre if "outcome" in nm else []): so.add(p)
            so.add(cond)
            q = smt.check(so, "init-outcome")
            if q == "unsat": ctx.ok(nm)
            else: init_search(ctx, nm)
    except sym.Unsupported as e:
        ctx.notes.append(str(e)); init_search(ctx, "initialisation outcome")
class ErrDom(RecDom):
    """Wider inputs: decaying and degenerate orbits; records that have failed before."""
    def tweak(self, x, f):             # mean motions that no successful initialisation leaves behind
        k = int(abs(x[9]) * 4096) % 32
        if k > 1: return f
        f = list(f); f[FIELDS.index("no")] = (0.0, -0.01)[k]
        return f
    def prior(self, x): return (0, 0, 1, 6)[int(abs(x[9]) * 1024) % 4]
    def sample(self, n, seed):
        X = RecDom.sample(self, n, seed)
        rs = np.random.RandomState(seed + 1)
        k = rs.rand(n) < 0.5
        X[:, 1] = np.where(k, rs.choice([-1, 1], n) * 10 ** rs.uniform(-3, 1, n), X[:, 1])
        X[:, 9] = np.where(rs.rand(n) < 0.3, rs.choice([-1, 1], n) * 10 ** rs.uniform(1, math.log10(self.tmax), n), X[:, 9])
        return X
def init_ref(deep):
    el = R({k: V(var("el." + k, "f")) for k in ELS})
    m = icmp("eq", var("opsmode", 64, (0, 2)), 0, 64)
    return el, m, ref.sgp4init(el, m, deep)
def init_search(ctx, name):
    """Native initialisation outcome against the reference's propagation to epoch."""
    for deep in (0, 1):
        el, m, (r, isimp, isdeep) = init_ref(deep)
        rr = R({k: r.get(k, V(0.0)) for k in FIELDS})
        x = ref.sgp4(rr, isimp, V(0.0), deep, m, 0)
        dom = InitDom(ctx.env, deep, wide=True)
        prs = [Pair("variant", None, x.err, 64), Pair("code", None, x.err, 64), Pair("error field", None, x.err, 64)]
        S = Search(ctx, [isdeep if deep else bnot(isdeep)], prs, dom, REL)
        v = S.test(dom.sample(4000, 31)) or S.test(S.specials()) or S.boundaries(None, 41, time.time() + 40)
        if v: ctx.bad(name, *v[1:]); return
    ctx.open(name, "not decided")

class InitDom(Dom):
    def __init__(self, env, deep, wide=False):
        self.E, self.deep, self.wide = env, deep, wide
        q = RecDom(env, deep, 1.0)
        self.names = q.names[:9]; self.lo, self.hi = q.lo[:9], q.hi[:9]; self.discrete = (8,); self.special = {k: v for k, v in q.special.items() if k in self.names}
        self.lo[6], self.hi[6] = (0.0005, 0.0295) if deep else (0.0265, 0.0745)
        self.rd = q
        rs = np.random.RandomState(4)
        self.oldf = [float(v) for v in rs.uniform(0.3, 1.9, runs.NF)]
    def sample(self, n, seed):
        X = self.rd.sample(n, seed)[:, :9]
        if self.wide:
            rs = np.random.RandomState(seed + 2)
            X[:, 1] = np.where(rs.rand(n) < 0.3, 10 ** rs.uniform(-2, 1, n), X[:, 1])
        return X
    def env(self, X):
        e = {n: X[:, i] for i, n in enumerate(self.names)}
        O = [self.old(x) for x in X]
        for i, n in enumerate(FIELDS): e["old." + n] = np.array([o[0][i] for o in O])
        for i, n in enumerate(runs.KNAMES): e["old." + n] = np.array([o[1][i] for o in O])
        e["outcome"] = np.zeros(len(X), dtype=int)
        return e, np.ones(len(X), dtype=bool)
    def old(self, x):
        """What the record holds before it is initialised, some function of the input."""
        h = int(abs(x[3]) * 1e7) % 1000003
        f = [[1.0, -1.0, 0.0, 40.0][h // 8 % 4] * v for v in self.oldf]
        return f, [[0, 1, 4, 6][h // 64 % 4], [80, 19][h // 2 % 2], h // 16 % 2, h % 2, h % 3, h // 4 % 2]
    def native(self, X):
        I = self.E.native.many([("h_sgp4init", ("d", [float(v) for v in x[:8]]), int(x[8]), ("d", o[0]), ("q", o[1]), ("d", [0.0] * 6), ("q", [0, 0])) for x in X for o in (self.old(x),)])
        out = []
        for r in I:
            if type(r) is tuple: out.append(r); continue
            d = dict(zip(FIELDS, r[1]))
            d.update(isimp=r[2][2], method=r[2][5], variant=r[4][0], code=r[4][1]); d["error field"] = r[2][0]; d["operation mode"] = r[2][4]
            out.append(d)
        return out

SKIP_DEEP = {"aycof", "con41", "x1mth2", "x7thm1", "xlcof", "t"}     # recomputed by every deep-space propagation before use
def conf_init(ctx, deep):
    el, m, (r, isimp, isdeep) = init_ref(deep)
    dom = InitDom(ctx.env, deep)
    try:
        s = runs.run_init(ctx.env, True); ctx.used(s.ex)
        vac(ctx, "deep-space elements" if deep else "near-Earth elements", list(s.pc) + [isdeep if deep else bnot(isdeep)])
    except (sym.Unsupported, KeyError, TypeError, AttributeError, IndexError, SyntaxError, RecursionError) as e:
        ctx.notes.append("encoding failed: %s %s" % (type(e).__name__, str(e)[:200])); s = None
    names = ref.NEAR0 + ref.DEEP0 + ["bstar", "ecco", "argpo", "inclo", "mo", "nodeo", "no"]
    prs = [Pair(k, s.f[k] if s else None, r[k].v, "f", floor=1e-12 if k in ("omgcof", "xmcof") else 1e-300) for k in names if not (deep and k in SKIP_DEEP)]
    prs.append(Pair("isimp", s.k["isimp"] if s else None, isimp, 64))
    lab = "deep-space initialisation" if deep else "near-Earth initialisation"
    ell = bnot((1.0 - el.ecco * el.ecco) < 0.0)          # eccentricity of an ellipse
    conform(ctx, lab, [isdeep if deep else bnot(isdeep), ell], prs, dom, impl_pre=s.pc if s else (), n=200)
    both = InitDom(ctx.env, deep)
    both.lo[6], both.hi[6] = 0.0005, 0.0745
    conform(ctx, lab, [ell], [Pair("method", s.k["method"] if s else None, ite(isdeep, 1, 0, 64), 64), Pair("operation mode", s.k["opsmode"] if s else None, var("opsmode", 64, (0, 2)), 64)],
            both, impl_pre=s.pc if s else ())
    ctx.bounds["loops"] = "none unbounded; bound 64"
    ctx.assume += [NUMBERS, "old record contents and elements arbitrary numbers, eccentricity at most 1; the propagation to epoch that ends initialisation is cut here (C11 covers its outcome)"]
    sample2(ctx, dom)
def sample2(ctx, dom):
    X = dom.sample(2, 9)
    for x, r in zip(X, dom.native(X)):
        ctx.samples.append({"input": {n: float(v) for n, v in zip(dom.names, x)}, "native": {k: r[k] for k in ("no", "gsto", "mdot", "method")} if type(r) is dict and "no" in r else r})
def C13(ctx): conf_init(ctx, 0)
def C15(ctx): conf_init(ctx, 1)

# ---------------------------------------------------------------------- C10
class HistDom(RecDom):
    """result at t0 on a fresh record against the result at t0 after propagating to t1, t2."""
    W = ()
    def env(self, X):
        e, ok = RecDom.env(self, X)
        I = self.inits(X)
        c = [("h_sgp4", ("d", r[1]), ("q", r[2]), float(x[10]), ("d", [0.0] * 6), ("q", [0, 0])) if self.good(r) else ("h_codes", ("q", [0] * 5)) for r, x in zip(I, X)]
        A = self.E.native.many(c)
        for n in self.W:
            if n in FIELDS: e["w." + n] = np.array([a[0][FIELDS.index(n)] if o and type(a) is not tuple else 0.0 for a, o in zip(A, ok)])
            else: e["w." + n] = np.array([a[1][runs.KNAMES.index(n)] if o and type(a) is not tuple else 0 for a, o in zip(A, ok)])
        return e, ok
    def hist(self, x, r, ts):
        f, k = r[1], r[2]
        for t in ts:
            q = self.E.native.call("h_sgp4", ("d", f), ("q", k), float(t), ("d", [0.0] * 6), ("q", [0, 0]))
            if type(q) is tuple: return q
            f, k = q[0], q[1]
        return q
def hist_search(ctx, deep, ns, secs):
    """Concrete histories against a fresh record."""
    dom = HistDom(ctx.env, deep, tmax(deep, ns), nt=3)
    T0 = time.time(); seed = 500
    while time.time() - T0 < secs:
        seed += 1
        X = dom.sample(150, seed)
        if seed % 2: X[:, 1] *= np.where(np.random.RandomState(seed).rand(len(X)) < 0.5, 100.0, 1.0)
        I = dom.inits(X)
        for x, r in zip(X, I):
            if not dom.good(r): continue
            for ts, tq in (((x[10],), x[9]), ((x[10], x[11]), x[9]), ((x[10] * 40, x[11]), x[9]), ((0.0,), x[9]), ((x[9],), x[9]), ((x[9] + 1.0,), x[9]), ((-x[9],), x[9]), ((x[10],), 0.0), ((x[10] * 40,), 0.0), ((x[11],), 1e-3 * x[9])):
                a, b = dom.hist(x, r, [tq]), dom.hist(x, r, list(ts) + [tq])
                if type(a) is tuple: continue
                d = {n: float(v) for n, v in zip(dom.names, x)}; d["history"] = [float(t) for t in ts] + [float(tq)]
                if type(b) is tuple: return d, b, a[2]
                if a[3][:2] != b[3][:2]: return d, {"status": b[3]}, {"status": a[3]}
                if a[3][0] == 0:
                    sc = max(abs(v) for v in a[2][:3]); sv = max(abs(v) for v in a[2][3:])
                    if any(not abs(u - v) <= 1e-10 * w for u, v, w in zip(a[2], b[2], [sc] * 3 + [sv] * 3)): return d, b[2], a[2]
                if b[1][5] != r[2][5] or b[1][2] != r[2][2] or b[1][4] != r[2][4]: return d, {"flags": b[1]}, {"flags": r[2]}
                for n in ELEMENTS:
                    i = FIELDS.index(n)
                    if b[0][i] != r[1][i]: return d, {n: b[0][i]}, {n: r[1][i]}
    return None
ELEMENTS = "epochdays ndot nddot bstar inclo nodeo ecco mo no a argpo alta altp jdsatepoch".split()
def C10(ctx):
    for deep in (0, 1):
        ns = steps(ctx, 40, 200) if deep else 0
        lab = "deep-space" if deep else "near-Earth"
        s, x = prop_run(ctx, deep, ns)
        if s is None:
            v = hist_search(ctx, deep, ns, 60)
            if v: ctx.bad(lab + " history", *v)
            else: ctx.open(lab + " history", "the implementation could not be encoded")
            continue
        out = [(n, a, "f") for n, a in zip(OUTS, s.out)] + [("variant", s.variant, 64), ("code", s.code, 64), ("path", conj(s.pc), "b")]
        W = [n for n in FIELDS if s.f[n] is not var(n, "f") and not (deep and n == "atime" and s.f[n] == 0.0)]
        kv = {"error": (0, 255), "epochyr": (0, 99), "isimp": (0, 1), "opsmode": (0, 2)}
        WK = [n for n in kv if s.k[n] is not var(n, 64, kv[n])]
        # decide by the solver which fields really change
        u = smt.UF()
        base = [u(p, "b") for p in s.pc]
        def differs(a, b, so):
            z = z3.Solver(); z.set("timeout", 20000)
            for p in base: z.add(p)
            z.add(u(a, so) != u(b, so))
            return smt.check(z, "frame") != "unsat"
        # error is rewritten by every call; code of the outcome, decided in C11
        W = [n for n in W if differs(s.f[n], var(n, "f"), "f")]
        WK = [n for n in WK if differs(s.k[n], var(n, 64, kv[n]), 64)]
        for n in FIELDS:
            if n not in W and n in ELEMENTS: ctx.ok("%s: %s unchanged" % (lab, n))
        fail = [n for n in W if n in ELEMENTS] + [n for n in WK if n != "error"]
        if deep:   # the induction hypothesis: the integrator clock starts, and stays, at the epoch
            if s.f["atime"] != 0.0 and differs(s.f["atime"], 0.0, "f"): fail.append("integrator clock")
            else: ctx.ok(lab + ": integrator clock stays at the epoch")
        for n, want in (("method", int(deep)), ("init", 1)):
            if s.k[n] != want and differs(s.k[n], want, 64): fail.append(n)
            else: ctx.ok("%s: %s unchanged" % (lab, n))
        ctx.notes.append("%s: fields a propagation may change: %s" % (lab, W + WK))
        # outputs do not depend on the changed fields
        sub = {}
        for n in W: sub[var(n, "f").id] = var("w." + n, "f")
        for n in WK: sub[var(n, 64, kv[n]).id] = var("w." + n, 64, kv[n])
        out2 = subst([a for _, a, _ in out], sub)
        vac(ctx, lab + " propagation", list(s.pc))
        for (n, a, so), b in zip(out, out2):
            z = z3.Solver(); z.set("timeout", 20000)
            z.add(u(a, so) != u(b, so))
            q = smt.check(z, "independence")
            if q == "unsat": ctx.ok("%s: %s independent of %s" % (lab, n, "/".join(W + WK)))
            else: fail.append("result " + n)
        if fail:
            v = hist_search(ctx, deep, ns, 60)
            if v: ctx.bad("%s: history" % lab, *v)
            else: ctx.open("%s: %s" % (lab, fail), "not decided by the solver; no concrete history found")
        dom = RecDom(ctx.env, deep, tmax(deep, ns)); sample(ctx, dom)
    ctx.bounds["history"] = "any length, by induction on one propagation from an arbitrary record (near-Earth: unconditionally; deep space: atime = 0 as initialised, preserved)"
    ctx.bounds["integrator steps"] = ns
    ctx.assume += [NUMBERS]
def subst(roots, sub):
    memo = {}
    out = []
    for t in topo([r for r in roots if type(r) is T]):
        if t.id in sub: memo[t.id] = sub[t.id]
        elif not t.args: memo[t.id] = t
        else:
            a = [memo[x.id] for x in t.args]
            memo[t.id] = t if all(p is q for p, q in zip(a, t.args)) else wrap(rebuild(t, [unwrap(x) for x in a]), t.sort)
    return [unwrap(memo[r.id]) if type(r) is T else r for r in roots]

# ---------------------------------------------------------------------- C12
def C12(ctx):
    RE2 = 6378.137 ** 2
    for deep in (0, 1):
        ns = steps(ctx, 40, 200) if deep else 0
        lab = "deep-space" if deep else "near-Earth"
        s, x = prop_run(ctx, deep, ns)
        dom = ErrDom(ctx.env, deep, tmax(deep, ns))
        done = False
        if s:
            # (1) what the code returns, on success, is a unit vector times a radius that passed the decay test
            okc = icmp("eq", s.variant, 0, 64)
            S = V(s.out[0]) * V(s.out[0]) + V(s.out[1]) * V(s.out[1]) + V(s.out[2]) * V(s.out[2])
            vac(ctx, lab + " success", list(s.pc) + [okc])
            done = radius(ctx, lab, s, okc, dom, x)
        if not done:
            a = b2i64(band(icmp("eq", s.variant, 0, 64), (V(s.out[0]) * V(s.out[0]) + V(s.out[1]) * V(s.out[1]) + V(s.out[2]) * V(s.out[2])) < RE2 * (1 - 2e-9))) if s else None
            v = find(ctx, lab, [x.inb], [Pair("inside", a, 0, 64)], dom, None)
            if v: ctx.bad("%s: radius" % lab, v[1], "success with a position inside the Earth's radius", "radius >= 6378.137 km")
            else: ctx.open("%s: radius" % lab, "not decided")
        sample(ctx, dom)
    ctx.bounds["integrator steps"] = ns
    ctx.assume += [NUMBERS]
def b2i64(c): return ite(c, 1, 0, 64)
def radius(ctx, lab, s, okc, dom, x):
    """Find a node m with the tests m < 1 on the failure path, such that the
    position is m * RE times a unit vector (proved by polynomial identity with
    sin^2+cos^2 = 1), and prove success implies not m < 1."""
    RE = 6378.137
    # resolve the success branch of the outputs
    u = smt.UF()
    so = z3.Solver(); so.set("timeout", 20000)
    for p in s.pc: so.add(u(p, "b"))
    so.add(u(okc, "b"))
    out = []
    for o in s.out[:3]:
        o = wrap(o, "f")
        while o.op == "ite":
            so.push(); so.add(u(o.args[0], "b")); a = smt.check(so, "success-branch"); so.pop()
            so.push(); so.add(z3.Not(u(o.args[0], "b"))); b = smt.check(so, "success-branch"); so.pop()
            if a == "unsat": o = o.args[2]
            elif b == "unsat": o = o.args[1]
            else: break
        out.append(o)
    Sq = wrap(fadd(fadd(fmul(unwrap(out[0]), unwrap(out[0])), fmul(unwrap(out[1]), unwrap(out[1]))), fmul(unwrap(out[2]), unwrap(out[2]))), "f")
    cands = []
    for t in topo([r for r in [s.variant] + list(s.pc) if type(r) is T]):
        if t.op == "flt" and t.args[1].op == "fc" and abs(bitsf(t.args[1].attr) - 1.0) < 1e-9: cands.append((t, t.args[0]))
    for t, m in reversed(cands):
        so.push(); so.add(u(t, "b")); q = smt.check(so, "decay-guard"); so.pop()
        if q != "unsat": continue
        want = wrap(fmul(fmul(unwrap(m), unwrap(m)), RE * RE), "f")
        C = Trig()
        try: ok = C.identity(Sq, want, m)
        except conf.Blowup: ok = False
        if ok:
            ctx.ok("%s: success implies not (m < 1)" % lab, "unsat")
            ctx.ok("%s: |position|^2 = (m * 6378.137)^2" % lab, "unsat (linear arithmetic over monomials)")
            return True
    return False
class Trig(conf.Conf):
    """Polynomial identity modulo sin^2 + cos^2 = 1, with chosen nodes opaque."""
    def identity(self, a, b, *opaque):
        self.op = set(o.id for o in opaque)
        stop = {}
        # replace opaque nodes by variables, then everything below sin/cos/.. is opaque already
        sub = {o.id: var("opq%d" % o.id, "f") for o in opaque}
        # the arguments of trigonometric functions are opaque too
        A, B = subst([a, b], sub)
        return self.prove_poly(wrap(A, "f"), wrap(B, "f"), share=False)

# ---------------------------------------------------------------- small helpers
def vrun(ctx, fn, names, outs, bound=64):
    try:
        r = runs.run_vec(ctx.env, fn, names, len(outs), bound)
        ctx.used(r.ex)
        if r.out is None: raise sym.Unsupported("no path returns within %d loop rounds" % bound)
        return r
    except (sym.Unsupported, KeyError, TypeError, AttributeError, IndexError, SyntaxError, RecursionError) as e:
        ctx.notes.append("encoding failed: %s: %s %s" % (fn, type(e).__name__, str(e)[:200])); return None
def W(n): return V(var(n, "f"))
def vconf(ctx, label, r, outs, refs, dom, pre=(), groups=None, floor=1e-300, **kw):
    o = r.out if r else [None] * len(outs)
    prs = [Pair(n, a, V(b).v, "f", groups, floor) for n, a, b in zip(outs, o, refs)]
    conform(ctx, label, list(pre), prs, dom, impl_pre=r.pc if r else (), **kw)
    X = dom.sample(2, 9)
    for x, q in zip(X, dom.native(X)): ctx.samples.append({"function": dom.fn, "input": {n: float(v) for n, v in zip(dom.names, x)}, "native": q})
    return prs

def poly_ok(ctx, name, a, b, kind="unsat (linear arithmetic over monomials)"):
    """identity of two terms over the reals with sin^2+cos^2=1"""
    C = Trig()
    try: ok = C.prove_poly(wrap(V(a).v, "f"), wrap(V(b).v, "f"), share=False)
    except conf.Blowup: ok = False
    if ok: ctx.ok(name, kind)
    return ok

class Axioms(conf.RealEnc):
    """Reals plus ranges of the library functions: atan2, asin, frem, sqrt, sin, cos, fabs."""
    def __init__(self): conf.RealEnc.__init__(self, None, None, None, cut=False)
    def __call__(self, v, sort="f"):
        v = wrap(v, sort)
        for t in topo([v]):
            if t.op in ("atan2", "asin", "frem", "sqrt", "sin", "cos") and t.id not in self.memo:
                for a in t.args: conf.RealEnc.__call__(self, a)
                x = z3.Real("n%d" % t.id); self.memo[t.id] = x
                g = [self.memo[a.id] for a in t.args]
                pi = smt.rv(PI); h = smt.rv(PI / 2)
                if t.op == "atan2": self.side += [x >= -pi, x <= pi, z3.Implies(g[1] >= 0, z3.And(x >= -h, x <= h)), z3.Implies(g[0] > 0, x >= 0), z3.Implies(g[0] < 0, x <= 0)]
                elif t.op == "asin": self.side += [x >= -h, x <= h]
                elif t.op in ("sin", "cos"): self.side += [x >= -1, x <= 1]
                elif t.op == "sqrt": self.side += [x >= 0]
                elif t.op == "frem" and t.args[1].op == "fc" and bitsf(t.args[1].attr) > 0:
                    self.side += [x < g[1], x > -g[1], z3.Implies(g[0] >= 0, x >= 0), z3.Implies(g[0] <= 0, x <= 0)]
        return conf.RealEnc.__call__(self, v)
def decide(ctx, name, assume, claim_neg, enc, kind="real-range", timeout=20000):
    """claim holds iff assume & side & claim_neg is unsat"""
    s = z3.Solver(); s.set("timeout", timeout)
    for c in enc.side + assume: s.add(c)
    s.add(claim_neg)
    q = smt.check(s, kind)
    if q == "unsat": ctx.ok(name); return True
    if q == "sat":
        try: MODELS[name] = (s.model(), enc)
        except z3.Z3Exception: pass
    return False
MODELS = {}          # counterexample candidates of undecided claims, replayed by scan()
def model_point(name, names):
    if name not in MODELS: return None
    m, e = MODELS[name]
    row = []
    for n in names:
        z = e.memo.get(var(n, "f").id)
        v = m.eval(z, model_completion=True) if z is not None else None
        try: row.append(float(v.as_fraction()) if z3.is_rational_value(v) else float(v.approx(30).as_fraction()) if v is not None else 0.0)
        except Exception: row.append(0.0)
    return row

class PSearch(Search):
    """Native search for a violated predicate: samples, special values, and
    both sides of every branch condition of the encoded implementation."""
    def __init__(self, ctx, dom, terms, pred):
        Search.__init__(self, ctx, [], [Pair("p", t, t, "f") for t in terms], dom, 0.0); self.pred = pred
    def test(self, X, chain=False):
        if X is None: return None
        X = X[:20000]
        for x, r in zip(X, self.dom.native(X)):
            if type(r) is tuple or not self.pred(x, r): return x, r
        return None
def scan(ctx, name, dom, pred, want, seeds=(1, 2, 3), n=3000, extra=None, terms=()):
    """Native search with a semantic predicate pred(x, result) -> True if fine."""
    S = PSearch(ctx, dom, [t for t in terms if type(t) is T and t.sort == "f"] , pred)
    v = None
    mp = model_point(name, dom.names)
    if mp is not None: v = S.test(np.array([mp]))
    for sd in seeds:
        if v: break
        X = dom.sample(n, 900 + sd)
        if extra is not None and sd == seeds[0]: X = np.vstack([extra, X])
        v = S.test(X)
        if not v and not terms: v = S.test(S.chains(400 + sd))
    if not v and S.pairs:
        v = S.test(S.specials())
        for sd in (1, 2):
            if not v: v = S.boundaries(None, 700 + sd, time.time() + 40)
    if v:
        ctx.bad(name, {k: float(q) for k, q in zip(dom.names, v[0])}, v[1], want); return True
    ctx.open(name, "not decided by the solver; no concrete violation found")
    return False

# ---------------------------------------------------------------------- C09
def C09(ctx):
    r = vrun(ctx, "h_gstime", ["jd"], ["gst"])
    dom = VecDom(ctx.env, "h_gstime", ["jd"], ["gst"], [2400000.0], [2500000.0], {"jd": [2451545.0]})
    g = ref.gstime(W("jd"))
    # near the wrap the two results may sit on either side of the turn: compare on the circle
    class D(VecDom):
        def native(self, X):
            return [q if type(q) is tuple else {"cos": math.cos(q["gst"]), "sin": math.sin(q["gst"]), "gst": q["gst"]} for q in VecDom.native(self, X)]
    cd = D(ctx.env, "h_gstime", ["jd"], ["gst"], [2400000.0], [2500000.0], {"jd": [2451545.0]})
    circ(ctx, "sidereal time", r, g, cd, "gst")
    rangecheck(ctx, "sidereal time in [0, 2 pi]", r, dom, "gst", 0.0, 2 * PI)
    import checks_cal
    checks_cal.gst_dt(ctx)
    ctx.bounds["Julian date"] = "any number (search for counterexamples: 2400000..2500000)"
    ctx.assume += [NUMBERS, "remainder: |x % c| < c with the sign of x"]
def circ(ctx, label, r, g, dom, out, pre=()):
    a = V(r.out[dom.outs.index(out)]) if r else None
    q = [Pair(out, a.v if a else None, g.v, "f", floor=1.0)]
    bad = conform(ctx, label, list(pre), q, dom, impl_pre=r.pc if r else (), search=False) if r else [out]
    if bad:
        prs = [Pair("cos", ref.cos(a).v if a else None, ref.cos(g).v, "f", "g", 1.0), Pair("sin", ref.sin(a).v if a else None, ref.sin(g).v, "f", "g", 1.0)]
        v = find(ctx, label, list(pre), prs, dom, None)
        if v: ctx.bad("%s: %s" % (label, out), v[1], {v[0]: v[2]}, {v[0]: v[3]})
        else: ctx.open("%s: %s" % (label, out), "not decided")
def rangecheck(ctx, name, r, dom, out, lo, hi, pre=None, eps=0.0):
    done = False
    if r:
        try:
            e = Axioms(); x = e(r.out[dom.outs.index(out)])
            ps = [e(p, "b") for p in r.pc] + ([e(p, "b") for p in pre] if pre else [])
            done = decide(ctx, name, ps, z3.Or(x < smt.rv(lo - eps), x > smt.rv(hi + eps)), e)
        except conf.Blowup: pass
    if not done: scan(ctx, name, dom, lambda x, q: lo - eps <= q[out] <= hi + eps, "[%r, %r]" % (lo, hi), terms=r.out if r else ())

# ---------------------------------------------------------------------- C17
def rvec(rs, n, k, a=2, b=5): return rs.normal(size=(n, k)) * 10 ** rs.uniform(a, b, (n, 1))
def C17(ctx):
    I, O = ["x", "y", "z", "g"], ["ox", "oy", "oz"]
    def gen(rs, n): return np.hstack([rvec(rs, n, 3), rs.uniform(-7, 7, (n, 1))])
    X = [W(n) for n in I]
    def d(fn): return VecDom(ctx.env, fn, I, O, [-1e5] * 3 + [-7.0], [1e5] * 3 + [7.0], {"g": [0.0, PI, PI / 2], "x": [0.0], "y": [0.0], "z": [0.0]}, gen, reach=[((0, 1, 2), -12, 12), ((3,), -9, 3)])
    a = vrun(ctx, "h_ecf_to_eci", I, O); b = vrun(ctx, "h_eci_to_ecf", I, O)
    vconf(ctx, "ecf_to_eci", a, O, ref.ecf_to_eci(*X), d("h_ecf_to_eci"), groups="v")
    vconf(ctx, "eci_to_ecf", b, O, ref.eci_to_ecf(*X), d("h_eci_to_ecf"), groups="v")
    if a and b:
        for nm, f, h in (("eci(ecf(v))", b, a), ("ecf(eci(v))", a, b)):
            sub = {var(I[i], "f").id: wrap(f.out[i], "f") for i in range(3)}
            o = subst(h.out, sub)
            for i in range(3):
                if not poly_ok(ctx, "%s = v: %s" % (nm, I[i]), o[i], X[i]): scan2(ctx, "%s = v: %s" % (nm, I[i]), d, gen)
        for nm, f in (("ecf_to_eci", a), ("eci_to_ecf", b)):
            S = V(0.0); Q = V(0.0)
            for i in range(3): S = S + V(f.out[i]) * V(f.out[i]); Q = Q + X[i] * X[i]
            if not poly_ok(ctx, nm + " keeps length", S, Q): scan2(ctx, nm + " keeps length", d, gen)
    ctx.bounds["inputs"] = "all vectors and angles"
    ctx.assume += [NUMBERS]
def scan2(ctx, name, d, gen):
    A, B = d("h_ecf_to_eci"), d("h_eci_to_ecf")
    X = gen(np.random.RandomState(3), 3000)
    for F, G in ((A, B), (B, A)):
        Y = F.native(X)
        for x, y in zip(X, Y):
            if type(y) is tuple: ctx.bad(name, list(x), y, "a vector"); return
        Z = G.native(np.array([[y["ox"], y["oy"], y["oz"], x[3]] for x, y in zip(X, Y)]))
        for x, y, z in zip(X, Y, Z):
            s = np.abs(x[:3]).max() * 1e-11
            if type(z) is tuple or max(abs(z[k] - x[i]) for i, k in enumerate(("ox", "oy", "oz"))) > s or abs(math.hypot(*y.values()) - math.hypot(*x[:3])) > s:
                ctx.bad(name, list(x), (y, z), "inverse rotation"); return
    ctx.open(name, "not decided by the solver; no concrete violation found")

# ---------------------------------------------------------------------- C18
def ggeo(rs, n): return np.column_stack([rs.uniform(-PI, PI, n), rs.uniform(-1.57, 1.57, n), np.where(rs.rand(n) < 0.5, rs.uniform(-1, 2000, n), rs.uniform(-10, 42000, n))])
def gpos(rs, n):
    g = ggeo(rs, n)
    g[:, 2] = np.where(rs.rand(n) < 0.2, rs.uniform(-100, 0, n), g[:, 2])
    out = []
    for lon, lat, h in g:
        N = 6378.137 / math.sqrt(1 - ref.E284 * math.sin(lat) ** 2)
        out.append([(N + h) * math.cos(lat) * math.cos(lon), (N + h) * math.cos(lat) * math.sin(lon), (N * (1 - ref.E284) + h) * math.sin(lat)])
    return np.hstack([np.array(out), rs.uniform(0, 2 * PI, (n, 1))])
GI, GO = ["x", "y", "z", "g"], ["lon", "lat", "h"]
class GeoDom(VecDom):
    def native(self, X):
        out = []
        for x, q in zip(X, VecDom.native(self, X)):
            if type(q) is not tuple:
                N = 6378.137 / math.sqrt(1 - ref.E284 * math.sin(q["lat"]) ** 2)
                r = (N + q["h"]) * math.cos(q["lat"]); z = (N * (1 - ref.E284) + q["h"]) * math.sin(q["lat"])
                e = math.hypot(r - math.hypot(x[0], x[1]), z - x[2])
                q["solves the geodetic equations"] = int(e <= 1e-6)
            out.append(q)
        return out
def geodom(ctx): return GeoDom(ctx.env, "h_eci_to_geo", GI, GO, [-5e4] * 3 + [0.0], [5e4] * 3 + [2 * PI], {"z": [0.0], "y": [0.0], "g": [0.0, PI]}, gpos)
def C18(ctx):
    I, O = ["lon", "lat", "h"], ["x", "y", "z"]
    a = vrun(ctx, "h_geo_to_ecf", I, O)
    vconf(ctx, "geodetic to Earth-fixed", a, O, ref.geo_to_ecf(*[W(n) for n in I]),
          VecDom(ctx.env, "h_geo_to_ecf", I, O, [-PI, -PI / 2, -100.0], [PI, PI / 2, 42000.0], {"lat": [0.0, PI / 2, -PI / 2], "h": [0.0], "lon": [0.0, PI]}, ggeo, reach=[((2,), -6, 9), ((0,), -9, 0)]), groups="v")
    b = vrun(ctx, "h_eci_to_geo", GI, GO)
    dom = geodom(ctx)
    _, lat, h = ref.eci_to_geo(*[W(n) for n in GI])
    prs = [Pair("lat", b.out[1] if b else None, lat.v), Pair("h", b.out[2] if b else None, h.v)]
    bad = conform(ctx, "position to geodetic", [], prs, dom, impl_pre=[], search=False) if b else ["lat", "h"]
    if bad:
        def rt(la, hh):
            q = ref.geo_to_ecf(V(0.0), la, hh)
            dr, dz = q[0] - ref.sqrt(W("x") * W("x") + W("y") * W("y")), q[2] - W("z")
            return (dr * dr + dz * dz) < V(1e-12)
        prs = [Pair("solves the geodetic equations", b2i64(rt(V(b.out[1]), V(b.out[2]))) if b else None, 1, 64)]
        far = bnot(W("x") * W("x") + W("y") * W("y") < V(100.0))
        v = find(ctx, "position to geodetic", [rt(lat, h), far], prs, dom, None)
        if v: ctx.bad("position to geodetic: " + ",".join(bad), v[1], dom.native(np.array([[v[1][n] for n in GI]]))[0], "latitude and height of the same point")
        else: ctx.open("position to geodetic: " + ",".join(bad), "not decided")
    # the reference iteration itself: a fixed point of the iteration solves the geodetic equations
    L, z, r = W("L"), W("z"), W("r")
    s, c = ref.sin(L), ref.cos(L)
    n = ref.A84 / ref.sqrt(1.0 - ref.E284 * (s * s))
    hh = r / c - n
    poly_ok(ctx, "a fixed point reproduces the distance from the axis", (n + hh) * c, r)
    # z + n e2 sin L = r tan L  (fixed point)  =>  z = (n (1-e2) + h) sin L
    poly_ok(ctx, "a fixed point reproduces z", (n * (1.0 - ref.E284) + hh) * s, r * s / c - n * ref.E284 * s)
    ctx.bounds["iteration"] = "20 steps, as in the code (unwinding checked)"
    ctx.bounds["longitude loops"] = "see C19"
    ctx.assume += [NUMBERS, "convergence of the 20-step iteration to its fixed point is not decided by the solver (a property of the published iteration, contraction factor about e^2 = 0.0067)"]

# ---------------------------------------------------------------------- C19
def C19(ctx):
    b = vrun(ctx, "h_eci_to_geo", GI, GO, bound=40)
    dom = geodom(ctx)
    ang = V(0.0)
    if b:
        e = Axioms()
        g = z3.And
        done = {}
        try:
            G = e(var("g", "f")); lon = e(b.out[0]); at = e(ref.atan2(W("y"), W("x")).v)
            dom0 = [G >= 0, G <= smt.rv(2 * PI)]
            pcs = [e(p, "b") for p in b.pc]
            vacz(ctx, "position and sidereal angle", dom0 + pcs + e.side)
            un = [z3.And([e(c, "b") for c in p[0]]) for p in b.ex.unwound + b.ex.panics]
            done["loops"] = decide(ctx, "wrapping loops end within 40 turns, no panic", dom0, z3.Or(un) if un else z3.BoolVal(False), e)
            eps = smt.rv(1e-9)
            done["range"] = decide(ctx, "longitude in [-pi, pi]", dom0 + pcs, z3.Or(lon > smt.rv(PI) + eps, lon < -smt.rv(PI) - eps), e)
            tp = smt.rv(2 * PI)
            dd = lon - (at - G)
            done["cong"] = decide(ctx, "longitude = right ascension - angle mod one turn", dom0 + pcs,
                                  z3.And([z3.Or(dd - k * tp > eps, dd - k * tp < -eps) for k in range(-3, 4)]), e)
        except conf.Blowup: pass
    for k, nm, pred in (("loops", "wrapping loops end", lambda x, q: True),
                        ("range", "longitude in [-pi, pi]", lambda x, q: -PI - 1e-9 <= q["lon"] <= PI + 1e-9),
                        ("cong", "longitude = right ascension - angle mod one turn", lambda x, q: abs(math.remainder(q["lon"] - (math.atan2(x[1], x[0]) - x[3]), 2 * PI)) < 1e-9)):
        if not (b and done.get(k)): scan(ctx, nm, dom, pred, nm, extra=geoedges(), terms=b.out[:2] if b else ())
    ok = False
    if b:
        ok = signs(ctx, b, "latitude has the sign of z")
    if not ok: scan(ctx, "latitude has the sign of z", dom, lambda x, q: (q["lat"] > 0) == (x[2] > 0) and (q["lat"] < 0) == (x[2] < 0), "sign of z", extra=geoedges(), terms=b.out[:2] if b else ())
    ok = False
    if b:
        try:
            e = Axioms(); la = e(b.out[1])
            ok = decide(ctx, "latitude in [-pi/2, pi/2]", [e(p, "b") for p in b.pc], z3.Or(la > smt.rv(PI / 2), la < smt.rv(-PI / 2)), e)
        except conf.Blowup: pass
    if not ok: scan(ctx, "latitude in [-pi/2, pi/2]", dom, lambda x, q: abs(q["lat"]) <= PI / 2, "[-pi/2, pi/2]", extra=geoedges(), terms=b.out[:2] if b else ())
    X = dom.sample(2, 9)
    for x, q in zip(X, dom.native(X)): ctx.samples.append({"input": list(map(float, x)), "native": q})
    ctx.bounds["sidereal angle"] = "[0, 2 pi]"; ctx.bounds["iteration"] = "20 steps (unwinding checked)"
    ctx.assume += [NUMBERS, "atan2 in [-pi, pi], in [-pi/2, pi/2] when the second argument is not negative, with the sign of the first argument; sin has the sign of its argument on [-pi/2, pi/2]"]
def geoedges():
    out = []
    for az in np.linspace(-PI, PI, 33):
        for g in np.linspace(0, 2 * PI, 33):
            for z in (-3000.0, 0.0, 5000.0): out.append([7000 * math.cos(az), 7000 * math.sin(az), z, g])
    return np.array(out)
def vacz(ctx, what, cs):
    s = z3.Solver(); s.set("timeout", 10000)
    for c in cs: s.add(c)
    q = smt.check(s, "vacuity"); ctx.witness.append({"what": what, "answer": q})
    if q == "unsat": ctx.open("vacuity: " + what, "assumptions are contradictory")
def signs(ctx, b, name):
    """Sign abstraction: every node a sign in {-1,0,1}, sign rules of the operations as constraints."""
    sg, side, half = {}, [], {}
    def S(t): return sg[t.id]
    for t in topo([x for x in [b.out[1]] + list(b.pc) if type(x) is T] + [var("z", "f")]):
        if t.sort != "f": continue
        x = z3.Int("s%d" % t.id); sg[t.id] = x
        side += [x >= -1, x <= 1]
        o, a = t.op, t.args
        h = False
        if o == "fc": side.append(x == (bitsf(t.attr) > 0) - (bitsf(t.attr) < 0))
        elif o == "fneg": side.append(x == -S(a[0]))
        elif o in ("fmul",): side.append(x == z3.If(S(a[0]) == 0, 0, z3.If(S(a[0]) == S(a[1]), z3.If(S(a[0]) == 0, 0, 1), z3.If(S(a[1]) == 0, 0, -1))) if a[0] is not a[1] else x == z3.If(S(a[0]) == 0, 0, 1))
        elif o == "fdiv": side.append(x == z3.If(S(a[0]) == 0, 0, z3.If(S(a[0]) == S(a[1]), 1, -1)))
        elif o == "fadd": side += [z3.Implies(S(a[0]) == S(a[1]), x == S(a[0])), z3.Implies(S(a[0]) == 0, x == S(a[1])), z3.Implies(S(a[1]) == 0, x == S(a[0]))]
        elif o == "sqrt": side.append(x >= 0); side.append(z3.Implies(S(a[0]) > 0, x > 0))
        elif o == "atan2":
            side.append(z3.Implies(S(a[1]) >= 0, x == S(a[0])))
            half[t.id] = S(a[1]) >= 0
        elif o == "sin" and a[0].id in half: side.append(z3.Implies(half[a[0].id], x == S(a[0])))
        elif o == "ite": pass
    # 1 - E2 sin^2 > 0 : linear fact about the sine's square
    e = Axioms()
    for t in topo([x for x in [b.out[1]] if type(x) is T]):
        if t.op == "sqrt":
            p = e(t.args[0])
            for n in topo([t.args[0]]):
                if n.op in ("sin", "cos"): 
                    q = e.memo.get(n.id)
                    if q is not None: e.side.append(q * q <= 1)
            z = z3.Solver(); z.set("timeout", 3000)
            for c in e.side: z.add(c)
            z.add(p <= 0)
            if smt.check(z, "radicand") == "unsat": side.append(sg[t.args[0].id] == 1)
    z = z3.Solver(); z.set("timeout", 20000)
    for c in side: z.add(c)
    lat = b.out[1]
    if type(lat) is not T: return False
    z.add(sg[lat.id] != sg[var("z", "f").id])
    q = smt.check(z, "sign")
    if q == "unsat": ctx.ok(name, "unsat (sign abstraction)"); return True
    return False

# ---------------------------------------------------------------------- C20
def C20(ctx):
    I, O = ["lon", "lat", "h", "x", "y", "z"], ["s", "e", "u"]
    def gen(rs, n): return np.hstack([ggeo(rs, n), rvec(rs, n, 3)])
    dom = VecDom(ctx.env, "h_topo", I, O, [-PI, -PI / 2, -10.0] + [-5e4] * 3, [PI, PI / 2, 10.0] + [5e4] * 3, {"lat": [0.0, PI / 2, -PI / 2], "lon": [0.0, PI, -PI]}, gen, reach=[((3, 4, 5), -9, 9), ((2,), -6, 5)])
    r = vrun(ctx, "h_topo", I, O)
    X = [W(n) for n in I]
    vconf(ctx, "topocentric", r, O, ref.topocentric(X[0], X[1], X[2], X[3:]), dom, groups="v", floor=1.0)
    if r:
        obs = ref.geo_to_ecf(*X[:3])
        S = V(0.0); Q = V(0.0)
        for i in range(3):
            S = S + V(r.out[i]) * V(r.out[i]); d = X[3 + i] - obs[i]; Q = Q + d * d
        d1 = poly_ok(ctx, "distance is preserved", S, Q)
        up = ref.geo_to_ecf(X[0], X[1], W("h2"))
        o = subst(r.out, {var(n, "f").id: wrap(up[i].v, "f") for i, n in enumerate(("x", "y", "z"))})
        d2 = all([poly_ok(ctx, "straight above: " + nm, a, w) for nm, a, w in zip(O, o, (V(0.0), V(0.0), W("h2") - X[2]))])
        if not (d1 and d2): topo_scan(ctx, dom)
    else: topo_scan(ctx, dom)
    ctx.bounds["inputs"] = "all observers and positions"; ctx.assume += [NUMBERS]
def topo_scan(ctx, dom):
    def pred(x, q):
        o = geo_np(x[0], x[1], x[2]); d = math.dist(o, x[3:])
        return abs(math.sqrt(q["s"] ** 2 + q["e"] ** 2 + q["u"] ** 2) - d) <= 1e-9 * (d + 6400)
    scan(ctx, "distance is preserved", dom, pred, "distance between observer and satellite")
def near(rs, n):
    """Observers and positions from right beside them to far away."""
    G, X = ggeo(rs, n), rvec(rs, n, 3)
    return np.hstack([G, np.where(rs.rand(n, 1) < 0.4, np.array([geo_np(*g) for g in G[:, :3]]) + rvec(rs, n, 3, -4, 3), X)])
def geo_np(lon, lat, h):
    N = 6378.137 / math.sqrt(1 - ref.E284 * math.sin(lat) ** 2)
    return [(N + h) * math.cos(lat) * math.cos(lon), (N + h) * math.cos(lat) * math.sin(lon), (N * (1 - ref.E284) + h) * math.sin(lat)]

# ---------------------------------------------------------------------- C21
def C21(ctx):
    O = ["az", "el", "rng"]
    class D(VecDom):
        def native(self, X):
            out = VecDom.native(self, X)
            for q in out:
                if type(q) is not tuple: q["cos"], q["sin"] = math.cos(q["az"]), math.sin(q["az"])
            return out
    def mk(fn, I, gen, lo, hi, sp): return D(ctx.env, fn, I, O, lo, hi, sp, gen, reach=[((0, 1, 2), 0, 12)] if fn == 'h_look' else [((3, 4, 5), 0, 8)])
    for fn, I, gen, lo, hi, sp, X in (
        ("h_look", ["s", "e", "u"], lambda rs, n: axes(rs, rvec(rs, n, 3, -5, 5)), [-5e4] * 3, [5e4] * 3, {"s": [0.0], "e": [0.0], "u": [0.0]}, None),
        ("h_ecf_look", ["lon", "lat", "h", "x", "y", "z"], near, [-PI, -PI / 2, -10.0] + [-5e4] * 3, [PI, PI / 2, 10.0] + [5e4] * 3, {"lat": [0.0, PI / 2], "lon": [0.0]}, None)):
        r = vrun(ctx, fn, I, O); dom = mk(fn, I, gen, lo, hi, sp)
        P = [W(n) for n in I]
        t = P if fn == "h_look" else ref.topocentric(P[0], P[1], P[2], P[3:])
        az, el, rg = ref.look(*t)
        nz = ref.V(1e-6) < rg
        circ(ctx, fn[2:] + " azimuth", r, az, dom, "az", [nz])
        prs = [Pair("el", r.out[1] if r else None, el.v, "f", floor=1.0), Pair("rng", r.out[2] if r else None, rg.v)]
        conform(ctx, fn[2:], [nz], prs, dom, impl_pre=r.pc if r else ())
        rangecheck(ctx, fn[2:] + ": azimuth in [0, 2 pi]", r, dom, "az", 0.0, 2 * PI)
        rangecheck(ctx, fn[2:] + ": elevation in [-pi/2, pi/2]", r, dom, "el", -PI / 2, PI / 2)
        Y = dom.sample(2, 9)
        for x, q in zip(Y, dom.native(Y)): ctx.samples.append({"function": fn, "input": list(map(float, x)), "native": q})
    ctx.bounds["inputs"] = "all vectors longer than 1e-6 km"; ctx.assume += [NUMBERS, "atan2 in [-pi, pi], asin in [-pi/2, pi/2]"]
def axes(rs, X):
    for i in range(3):
        k = rs.rand(len(X)) < 0.05
        X[k, i] = 0.0
    X[(X == 0).all(axis=1)] = 1.0
    return X

# ---------------------------------------------------------------------- C22
def C22(ctx):
    H = PI / 2
    scale = {"d": 180.0 / PI, "r": PI / 180.0}
    fns = [("h_rad2deg", "d", None), ("h_deg2rad", "r", None), ("h_deg_lat", "d", H), ("h_deg_long", "d", PI), ("h_rad_lat", "r", 90.0), ("h_rad_long", "r", 180.0)]
    R_ = {}
    for fn, k, lim in fns:
        b = lim or 1e6
        dom = VecDom(ctx.env, fn, ["x"], ["o"], [-b], [b], {"x": [0.0, b, -b] if lim else [0.0]}, lambda rs, n, b=b: (rs.uniform(-b, b, (n, 1)) * np.where(rs.rand(n, 1) < 0.1, 10 ** rs.uniform(-9, 0, (n, 1)), 1.0)), reach=[] if lim else [((0,), -20, 60)])
        r = vrun(ctx, fn, ["x"], ["o"]); R_[fn] = r
        x = W("x")
        inside = band(x >= -lim, x <= lim) if lim else 1
        if lim:
            done = False
            if r:
                e = conf.RealEnc(cut=False)
                try:
                    ins = e(wrap(inside, "b")); pc = e(wrap(conj(r.pc), "b"))
                    pan = z3.Or([e(wrap(conj(p[0]), "b")) for p in r.ex.panics] or [z3.BoolVal(False)])
                    un = z3.Or([e(wrap(conj(p[0]), "b")) for p in r.ex.unwound] or [z3.BoolVal(False)])
                    done = decide(ctx, fn[2:] + ": returns inside the closed range", [], z3.And(ins, z3.Or(z3.Not(pc), pan, un)), e) and \
                        decide(ctx, fn[2:] + ": panics outside the range", [], z3.And(z3.Not(ins), z3.Or(pc, z3.Not(pan))), e)
                    vacz(ctx, fn[2:] + " inside", [ins, pc]); vacz(ctx, fn[2:] + " outside", [z3.Not(ins), pan])
                except conf.Blowup: pass
            if not done: guard_scan(ctx, fn, lim)
        o = r.out if r and r.out else [None]
        if o[0] is None: conform(ctx, fn[2:] + " scaling", [inside] if lim else [], [Pair("o", None, (x * scale[k]).v)], dom)
        else: conform(ctx, fn[2:] + " scaling", [inside] if lim else [], [Pair("o", o[0], (x * scale[k]).v)], dom, impl_pre=r.pc)
    a, b = R_["h_rad2deg"], R_["h_deg2rad"]
    if a and b and a.out and b.out:
        for nm, f, g in (("deg2rad(rad2deg(x)) = x", a, b), ("rad2deg(deg2rad(x)) = x", b, a)):
            o = subst(g.out, {var("x", "f").id: wrap(f.out[0], "f")})
            if not poly_ok(ctx, nm, o[0], W("x")):
                d1 = VecDom(ctx.env, "h_rad2deg" if f is a else "h_deg2rad", ["x"], ["o"], [-1e3], [1e3]); d2 = VecDom(ctx.env, "h_deg2rad" if f is a else "h_rad2deg", ["x"], ["o"], [-1e3], [1e3])
                X = d1.sample(1000, 1); Y = d1.native(X)
                Z = d2.native(np.array([[y["o"]] for y in Y])) if not any(type(y) is tuple for y in Y) else Y
                j = [i for i in range(len(X)) if type(Z[i]) is tuple or abs(Z[i]["o"] - X[i][0]) > 1e-11 * abs(X[i][0])]
                if j: ctx.bad(nm, {"x": float(X[j[0]][0])}, Z[j[0]], float(X[j[0]][0]))
                else: ctx.open(nm, "not decided")
    ctx.bounds["inputs"] = "all finite angles; comparisons exact"; ctx.assume += [NUMBERS]
def guard_scan(ctx, fn, lim):
    vals = []
    for v in (lim, -lim, 0.0, lim / 2, -lim / 2, 2 * lim, -2 * lim, 4 * lim, -4 * lim, 1e9, -1e9):
        vals += [v, np.nextafter(v, 1e300), np.nextafter(v, -1e300), v * (1 + 1e-9), v * (1 - 1e-9), v * 1.01, v * 0.99]
    rs = np.random.RandomState(1)
    vals += list(rs.uniform(-lim, lim, 400)) + list(rs.uniform(1, 3, 30) * lim * rs.choice([-1, 1], 30))
    for v in vals:
        q = ctx.env.native.call(fn, ("d", [float(v)]), ("d", [0.0]))
        if (type(q) is tuple) != (abs(v) > lim):
            ctx.bad(fn[2:] + ": range guard", {"x": float(v)}, "panic" if type(q) is tuple else q[1][0], "panic" if abs(v) > lim else "a value"); return
    ctx.open(fn[2:] + ": range guard", "not decided")

# ---------------------------------------------------------------------- C23
def C23(ctx):
    I = ["x1", "y1", "z1", "x2", "y2", "z2"]; O = ["ax", "ay", "az", "sx", "sy", "sz", "range"]
    X = [W(n) for n in I]
    r = vrun(ctx, "h_vec", I, O)
    refs = [X[i] + X[3 + i] for i in range(3)] + [X[i] - X[3 + i] for i in range(3)] + [ref.dist(X[:3], X[3:])]
    dom = VecDom(ctx.env, "h_vec", I, O, [-5e4] * 6, [5e4] * 6, {"x1": [0.0], "z2": [0.0]}, lambda rs, n: np.hstack([rvec(rs, n, 3), rvec(rs, n, 3)]), reach=[((0, 1, 2), -9, 20), ((3, 4, 5), -9, 20)])
    vconf(ctx, "vectors", r, O, refs, dom, floor=1.0)
    I = ["lx", "ly", "lz", "px", "py", "pz", "vx", "vy", "vz"]
    X = [W(n) for n in I]
    r = vrun(ctx, "h_doppler", I, ["f"])
    dom = VecDom(ctx.env, "h_doppler", I, ["f"], [-5e4] * 6 + [-10.0] * 3, [5e4] * 6 + [10.0] * 3, {"vx": [0.0]}, lambda rs, n: np.hstack([rvec(rs, n, 3), rvec(rs, n, 3), rs.normal(size=(n, 3)) * 5]), reach=[((6, 7, 8), -9, 5), ((3, 4, 5), -3, 5)])
    vconf(ctx, "Doppler factor", r, ["f"], [ref.doppler(X[:3], X[3:6], X[6:])], dom, tol=4e-15)
    if r:
        o = subst(r.out, {var(n, "f").id: wrap(0.0, "f") for n in ("vx", "vy", "vz")})
        done = V(o[0]).v == 1.0
        if not done:
            e = Axioms()
            try: done = decide(ctx, "factor is one at rest", [], e(o[0]) != 1, e)
            except conf.Blowup: done = False
        else: ctx.ok("factor is one at rest", "simplification")
        if not done:
            D = VecDom(ctx.env, "h_doppler", I, ["f"], [-5e4] * 6 + [0.0] * 3, [5e4] * 6 + [0.0] * 3)
            scan(ctx, "factor is one at rest", D, lambda x, q: abs(q["f"] - 1) < 1e-12, 1.0)
    ctx.bounds["inputs"] = "all vectors"; ctx.assume += [NUMBERS]
