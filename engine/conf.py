"""Equality of two term DAGs for all inputs ("implementation = reference").

1. sweep: nodes of both DAGs that agree on sample points are candidate pairs;
   each pair is decided by a solver query over its local cone (shared nodes are
   free variables), and only proven pairs are identified.
2. the outputs are compared under the precondition by z3 with every double
   operation uninterpreted; unsat = equal for every value.
"""
import time, itertools
import numpy as np, z3
from fractions import Fraction
from term import *
import smt, num

LIN_TOL = Fraction(1, 10**11)
class Blowup(Exception): pass

# ---------------------------------------------------------- rational functions
class Poly:
    """dict monomial (sorted tuple of (leaf id, exponent)) -> Fraction"""
    __slots__ = ("d",)
    def __init__(s, d): s.d = d
    @staticmethod
    def const(c): return Poly({(): Fraction(c)} if c else {})
    @staticmethod
    def leaf(i): return Poly({((i, 1),): Fraction(1)})
def padd(a, b, k=1):
    d = dict(a.d)
    for m, c in b.d.items():
        v = d.get(m, 0) + k * c
        if v: d[m] = v
        else: d.pop(m, None)
    return Poly(d)
def pmul(a, b, red):
    if len(a.d) * len(b.d) > 40000: raise Blowup()
    d = {}
    for m, c in a.d.items():
        for n, e in b.d.items():
            x = dict(m)
            for i, k in n: x[i] = x.get(i, 0) + k
            x = tuple(sorted(x.items()))
            v = d.get(x, 0) + c * e
            d[x] = v
    d = {m: c for m, c in d.items() if c}
    p = Poly(d)
    # cos^2 -> 1 - sin^2 ; sqrt^2 -> argument
    for i, r in red.items():
        while any(k >= 2 for m in p.d for j, k in m if j == i):
            q = Poly({}); rest = {}
            for m, c in p.d.items():
                e = dict(m)
                if e.get(i, 0) >= 2:
                    e[i] -= 2
                    if not e[i]: del e[i]
                    q = padd(q, pmul(Poly({tuple(sorted(e.items())): c}), r, {}))
                else: rest[m] = c
            p = padd(Poly(rest), q)
    if len(p.d) > 3000: raise Blowup()
    return p

ARITH = {"fadd", "fmul", "fdiv", "fneg", "fc"}
def cone(t, memo):
    r = memo.get(t.id)
    if r is None:
        r = set(x.id for x in topo([t]))
        memo[t.id] = r
    return r

class Conf:
    def __init__(self, deadline=None, tag=""):
        self.cones = {}
        self.rep = {}
        self.canon = {}           # node id -> representative node
        self.merged = 0; self.failed = 0; self.how = {}
        self.deadline = deadline
        self.qtimeout = 3000; self.slow = 0
        self.unmatched = []; self.verbose = False; self.points = 0
    def late(self): return self.deadline and time.time() > self.deadline
    # ------------------------------------------------------------- sweeping
    def sweep(self, ra, rb, env, n, altenv=None):
        """ra, rb: roots of the two DAGs; env: n sample points."""
        ra = [r for r in ra if type(r) is T]; rb = [r for r in rb if type(r) is T]
        roots = ra + rb
        ia, ib = set(t.id for t in topo(ra)), set(t.id for t in topo(rb))
        side = {}
        vals = num.evalv(roots, env, n, keep=True)
        alt = num.evalv(roots, altenv, 24, keep=True, alt=True) if altenv is not None else None
        # points at which everything is a number
        good = np.ones(n, dtype=bool)
        for t in topo(roots):
            if t.sort == "f": good &= np.isfinite(vals[t.id])
        self.points = int(good.sum())
        if self.points >= 8:
            vals = {k: v[good] for k, v in vals.items()}; n = self.points
        if alt is not None: vals = {k: np.concatenate([v, alt[k]]) for k, v in vals.items()}; n += 24
        sigF, nodF, sigB, nodB = [], [], {}, {}
        M = np.zeros((64, n)); used = 0
        for t in topo(roots):
            if not t.args:
                self.rep[t.id] = t; self.canon.setdefault(t.id, t); isnew = True
                N = t
                if t.op in ("fc", "ic", "bc"): 
                    continue
            else:
                v = rebuild(t, [unwrap(self.rep[a.id]) for a in t.args])
                N = wrap(v, t.sort)
                c = self.canon.get(N.id)
                if c is not None: self.rep[t.id] = c; continue
                if isc(N): self.rep[t.id] = N; self.canon[N.id] = N; continue
            x = vals[t.id]
            cand = []
            if t.sort != "f" and t.op not in ("flt", "feq"):
                self.canon[N.id] = N; self.rep[t.id] = N; continue
            if t.sort == "f":
                k = x
                neg = False
                if used:
                    with np.errstate(all="ignore"):
                        d = np.abs(M[:used] - k)
                        ok = (d <= 1e-9 * np.abs(k) + 1e-300) | (np.isnan(M[:used]) & np.isnan(k)) | (M[:used] == k)
                        good = np.nonzero(ok.all(axis=1))[0]
                    cand = [nodF[i] for i in good][:6]
                    if t.args and not cand and not np.all(k == 0):
                        ok = (np.abs(M[:used] + k) <= 1e-9 * np.abs(k) + 1e-300)
                        good = np.nonzero(ok.all(axis=1))[0]
                        cand = [wrap(fneg(nodF[i]), "f") for i in good][:3]
            else:
                key = (t.sort, x.tobytes())
                cand = list(reversed(nodB.get(key, [])))[:4] if t.args else []
            sd = (1 if t.id in ia else 0) | (2 if t.id in ib else 0)
            cand = [c for c in cand if side.get((fneg(c) if c.op == "fneg" else c).id, 3) | sd == 3]
            side[N.id] = sd
            got = None
            if cand and not self.late():
                for c in cand:
                    if c is N: got = c; break
                    if self.prove(N, c): got = c; break
                if got is None:
                    self.failed += 1
                    if self.verbose: print("FAIL", sd, show(N, 6)[:500], "|||", show(cand[0], 6)[:500])
                else: self.merged += 1
            if got is not None:
                self.canon[N.id] = got; self.rep[t.id] = got
                continue
            self.canon[N.id] = N; self.rep[t.id] = N
            if t.sort == "f":
                if used == len(M): M = np.vstack([M, np.zeros_like(M)])
                M[used] = x; used += 1
                nodF.append(N)
            else: nodB.setdefault((t.sort, x.tobytes()), []).append(N)
    def r(self, t):
        return unwrap(self.rep[t.id]) if type(t) is T else t
    # ------------------------------------------------------ local equality
    def prove(self, a, b):
        if a.sort == "f":
            try:
                if self.prove_poly(a, b): return True
            except Blowup: pass
            has_ite = any(x.op == "ite" for x in self.local(a, b))
            if not has_ite: return False
        return self.prove_real(a, b)
    def local(self, a, b):
        ca, cb = cone(a, self.cones), cone(b, self.cones)
        common = ca & cb
        return [t for t in topo([a, b]) if t.id not in common]
    def prove_poly(self, a, b, share=True):
        ca, cb = cone(a, self.cones), cone(b, self.cones)
        common = ca & cb if share else set()
        if share: loc = [t for t in topo([a, b]) if t.id not in common]
        else:                       # nodes above the leaves
            loc, seen, st = [], set(), [a, b]
            while st:
                t = st.pop()
                if t.id in seen: continue
                seen.add(t.id); loc.append(t)
                if t.op in ARITH: st.extend(t.args)
                elif t.op == "ite" and t.sort == "f": st.extend(t.args[1:])
        if len(loc) > 400: return False
        conds = []
        for t in loc:
            if t.op == "ite" and t.sort == "f" and t.args[0] not in conds: conds.append(t.args[0])
        if len(conds) > 4: return False
        # sin/cos pairs among the leaves
        leaves = {}
        def isleaf(t): return (t.id in common and t.op != "fc") or (t.op not in ARITH and not (t.op == "ite" and t.sort == "f"))
        def poly(t, asg, memo, red):
            order = []
            st = [(t, 0)]
            while st:
                x, d = st.pop()
                if x.id in memo: continue
                if isleaf(x):
                    memo[x.id] = (Poly.leaf(x.id), Poly.const(1)); leaves[x.id] = x
                    continue
                if x.op == "fc":
                    v = bitsf(x.attr)
                    if v != v or v in (float("inf"), float("-inf")): raise Blowup()
                    memo[x.id] = (Poly.const(Fraction(v)), Poly.const(1)); continue
                if x.op == "ite":
                    y = x.args[1] if asg[x.args[0].id] else x.args[2]
                    if y.id in memo: memo[x.id] = memo[y.id]
                    else: st.append((x, 1)); st.append((y, 0))
                    continue
                miss = [y for y in x.args if y.id not in memo]
                if miss:
                    st.append((x, 1)); st.extend((y, 0) for y in miss); continue
                A = memo[x.args[0].id]
                if x.op == "fneg": memo[x.id] = (Poly({m: -c for m, c in A[0].d.items()}), A[1]); continue
                B = memo[x.args[1].id]
                if x.op == "fadd":
                    if A[1].d == B[1].d: memo[x.id] = (padd(A[0], B[0]), A[1])
                    else: memo[x.id] = (padd(pmul(A[0], B[1], red), pmul(B[0], A[1], red)), pmul(A[1], B[1], red))
                elif x.op == "fmul": memo[x.id] = (pmul(A[0], B[0], red), pmul(A[1], B[1], red))
                elif x.op == "fdiv":
                    if len(B[0].d) == 1 and () in B[0].d:
                        c = B[0].d[()]
                        memo[x.id] = (Poly({m: k / c for m, k in pmul(A[0], B[1], red).d.items()}), A[1])
                    else: memo[x.id] = (pmul(A[0], B[1], red), pmul(A[1], B[0], red))
            return memo[t.id]
        def reds():
            red = {}
            sins = {x.args[0].id: x.id for x in leaves.values() if x.op == "sin"}
            for x in leaves.values():
                if x.op == "cos" and x.args[0].id in sins:
                    s = sins[x.args[0].id]
                    red[x.id] = Poly({(): Fraction(1), ((s, 2),): Fraction(-1)})
                if x.op == "sqrt" and x.args[0].id in leaves: red[x.id] = Poly.leaf(x.args[0].id)
            return red
        for bits in itertools.product((0, 1), repeat=len(conds)):
            asg = {c.id: v for c, v in zip(conds, bits)}
            if any(asg.get(c.args[0].id) == asg[c.id] for c in conds if c.op == "not"): continue
            P, Q = poly(a, asg, {}, {}), poly(b, asg, {}, {})
            red = reds()
            if red: P, Q = poly(a, asg, {}, red), poly(b, asg, {}, red)
            if P[1].d == Q[1].d: X, Y = P[0], Q[0]
            else: X, Y = pmul(P[0], Q[1], red), pmul(Q[0], P[1], red)
            if not self.lin_equal(X, Y): return False
        self.how["rational"] = self.how.get("rational", 0) + 1
        return True
    def lin_equal(self, X, Y):
        """z3 (linear reals): is |X - Y| <= tol * sum |monomial| for all values of the monomials?"""
        ms = set(X.d) | set(Y.d)
        if len(ms) > 600: raise Blowup()
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", self.qtimeout)
        diff, mag = [], []
        for i, m in enumerate(ms):
            x, y = X.d.get(m, Fraction(0)), Y.d.get(m, Fraction(0))
            p, q = z3.Real("p%d" % i), z3.Real("q%d" % i)      # monomial = p - q, p,q >= 0
            s.add(p >= 0, q >= 0)
            if x != y: diff.append(z3.RealVal(x - y) * (p - q))
            mag.append(z3.RealVal(max(abs(x), abs(y))) * (p + q))
        if not diff:
            diff = [z3.RealVal(0)]
        d = z3.Sum(diff); g = z3.RealVal(LIN_TOL) * z3.Sum(mag)
        s.add(z3.Or(d > g, -d > g))
        return smt.check(s, "local-linear") == "unsat"
    def prove_real(self, a, b):
        e = RealEnc(self, a, b)
        s = z3.Solver(); s.set("timeout", self.qtimeout)
        try: x, y = e(a), e(b)
        except Blowup: return False
        for c in e.side: s.add(c)
        s.add(x != y)
        if (smt.check(s, "local-real") if e.n < 25 else smt.hard(s, "local-real", self.qtimeout / 1000 + 1)) == "unsat":
            self.how["real"] = self.how.get("real", 0) + 1
            return True
        return False
    # ------------------------------------------------------------ final query
    def query(self, pre, pairs, kind="output-uf"):
        """pairs: [(name, a, b, sort)]; returns names not proven."""
        u = smt.UF()
        bad = []
        P = [u(self.r(p), "b") for p in pre]
        for name, a, b, sort in pairs:
            A, B = self.r(a), self.r(b)
            s = z3.Solver(); s.set("timeout", 20000)
            for p in P: s.add(p)
            s.add(u(A, sort) != u(B, sort))
            same = type(A) is type(B) and (A is B if type(A) is T else A == B)
            r = smt.check(s, kind) if same else smt.hard(s, kind, 20 if self.slow < 2 else 3)
            if r == "unsat": continue
            if r == "unknown": self.slow += 1
            # reals with the precondition as context
            AA, BB = wrap(A, sort), wrap(B, sort)
            ok = False
            if not self.late():
                e = RealEnc(self, AA, BB, cut=False)
                s = z3.Solver(); s.set("timeout", 5000)
                try:
                    x, y = e(AA), e(BB)
                    ps = [e(wrap(self.r(p), "b")) for p in pre]
                    for c in e.side: s.add(c)
                    for p in ps: s.add(p)
                    s.add(x != y)
                    r = smt.hard(s, "output-real", 6 if self.slow < 4 else 2)
                    if r == "unknown": self.slow += 1
                    ok = r == "unsat"
                except Blowup: pass
            if not ok: bad.append(name)
        return bad

def altenv(roots, seed=11, n=24, spec=None):
    """Independent random values for every variable."""
    rs = np.random.RandomState(seed)
    e = {}
    for t in topo([r for r in roots if type(r) is T]):
        if t.op != "var": continue
        nm = t.attr[0]
        if t.sort == "f": e[nm] = rs.uniform(0.2, 1.7, n) * rs.choice([-1, 1], n)
        elif t.sort == "b": e[nm] = rs.rand(n) < 0.5
        else:
            lo, hi = rng(t)
            e[nm] = rs.randint(lo, min(hi, lo + 1000) + 1, n)
    if spec: e.update({k: f(rs, n) for k, f in spec.items() if k in e})
    return e

class RealEnc:
    """Doubles as reals; add/mul/div/abs/compare interpreted, other double
    functions are free values (one per canonical node)."""
    def __init__(self, conf=None, a=None, b=None, cut=True):
        self.memo = {}; self.side = []
        self.common = set()
        if cut and conf is not None: self.common = cone(a, conf.cones) & cone(b, conf.cones)
        self.n = 0
    def __call__(self, v):
        todo = [v]
        # expand only below non-leaf nodes
        st = [(v, 0)]
        while st:
            t, d = st.pop()
            if t.id in self.memo: continue
            if t.id in self.common and not isc(t) or not self.interp(t):
                self.memo[t.id] = z3.Const("n%d" % t.id, z3.RealSort() if t.sort == "f" else z3.BoolSort() if t.sort == "b" else z3.BitVecSort(t.sort))
                if type(t.sort) is int and rng(t) != (0, (1 << t.sort) - 1):
                    self.side.append(z3.ULE(self.memo[t.id], rng(t)[1])); self.side.append(z3.UGE(self.memo[t.id], rng(t)[0]))
                continue
            if d == 0:
                st.append((t, 1))
                for a in t.args: st.append((a, 0))
            else:
                self.n += 1
                if self.n > 3000: raise Blowup()
                self.memo[t.id] = self.node(t, [self.memo[a.id] for a in t.args])
        return self.memo[v.id]
    def interp(self, t):
        o = t.op
        if o == "var": return False
        if t.sort == "f": return o in ("fadd", "fmul", "fdiv", "fneg", "fabs", "ite", "fc")
        if o in ("flt", "feq"): return True
        return all(a.sort != "f" for a in t.args)
    def node(self, t, a):
        o = t.op
        if o == "fc":
            v = bitsf(t.attr)
            if v != v or abs(v) == float("inf"): raise Blowup()
            return smt.rv(v)
        if o == "fadd": return a[0] + a[1]
        if o == "fmul": return a[0] * a[1]
        if o == "fneg": return -a[0]
        if o == "fdiv":
            if t.args[1].op == "fc": return a[0] / a[1]
            q = z3.Real("q%d" % t.id)
            self.side.append(q * a[1] == a[0]); self.side.append(a[1] != 0)
            return q
        if o == "fabs": return z3.If(a[0] < 0, -a[0], a[0])
        if o == "flt": return a[0] < a[1]
        if o == "feq": return a[0] == a[1]
        r = smt.intnode(t, a)
        if r is None: raise Blowup()
        return r
