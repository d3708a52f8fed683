"""Conformance obligations of numeric code: solver decision first; where an
equality is not proven, a concrete input that breaks it is looked for (samples,
special values, both sides of every branch condition) and confirmed against the
compiled code before it is reported."""
import time
import numpy as np
from term import *
import num, conf, smt, sym

REL = 1e-10
NOISE = 4e-16
BIG = 4e-11
class Dom:
    """Input space: points are rows of floats."""
    names, lo, hi = [], [], []
    special = {}
    discrete = ()
    reach = ()           # [(columns, lowest, highest power of ten)]: scales beyond those of sample()
    def sample(self, n, seed): raise NotImplementedError
    def env(self, X): return {nm: X[:, i] for i, nm in enumerate(self.names)}, np.ones(len(X), dtype=bool)
    def native(self, X): raise NotImplementedError      # -> list of dict name->value | ("panic", msg)

class VecDom(Dom):
    """fn(in, out) entry points."""
    def __init__(self, env, fn, names, outs, lo, hi, special=None, gen=None, post=None, reach=()):
        self.reach = reach
        self.E, self.fn, self.names, self.outs, self.lo, self.hi = env, fn, names, outs, lo, hi
        self.special = special or {}; self.gen = gen; self.post = post
    def sample(self, n, seed):
        rs = np.random.RandomState(seed)
        if self.gen: return self.gen(rs, n)
        return np.array(self.lo) + rs.rand(n, len(self.names)) * (np.array(self.hi) - np.array(self.lo))
    def native(self, X):
        r = self.E.native.many([(self.fn, ("d", [float(v) for v in x]), ("d", [0.0] * len(self.outs))) for x in X])
        return [x if type(x) is tuple else dict(zip(self.outs, x[1])) for x in r]

class Pair:
    def __init__(self, name, a, b, sort="f", group=None, floor=1e-300, when=None):
        self.name, self.a, self.b, self.sort, self.group, self.floor, self.when = name, a, b, sort, group or name, floor, when
        # when: further condition under which the pair must agree

def _roots(ps): return [p for p in ps if type(p) is T]

def conform(ctx, label, pre, pairs, dom, impl_pre=(), spec=None, n=200, alt=True, search=True, tol=REL, maxs=4000):
    """pre: conditions on the input (reference side) under which pairs must agree;
    impl_pre: path condition of the implementation run (no panic, within loop bounds).
    Returns names not proven."""
    pairs = list(pairs)
    if any(p.a is None for p in pairs):
        return _blind(ctx, label, pre, pairs, dom, tol, maxs)
    g = conj(impl_pre)
    if type(g) is T: pairs.append(Pair("no panic, loops within bounds", g, 1, "b"))
    X = dom.sample(n, 5)
    env, ok = dom.env(X)
    env = {k: v[ok] for k, v in env.items()}; m = int(ok.sum())
    a = [p.a for p in pairs] + list(impl_pre)
    b = [p.b for p in pairs] + list(pre) + [p.when for p in pairs if p.when is not None]
    bad = [p.name for p in pairs]
    C = None
    for mode in ((1, 0) if alt else (0,)):
        if ctx.left() < 20: break
        C = conf.Conf(deadline=time.time() + max(20, ctx.left() * 0.35)); C.qtimeout = 500
        ae = conf.altenv(a + b, spec=spec) if mode else None
        C.sweep(a, b, env, m, ae)
        bad = []
        for w in set(p.when for p in pairs):
            P = list(pre) + ([w] if w is not None else [])
            bad += C.query(P + list(impl_pre), [(p.name, p.a, p.b, p.sort) for p in pairs if p.when is w and not (p.a is g and p.b == 1)])
            bad += C.query(P, [(p.name, p.a, p.b, p.sort) for p in pairs if p.when is w and p.a is g and p.b == 1])
        ctx.notes.append("%s: %d shared nodes identified by solver (%s), sweep mode %d, %d sample points" % (label, C.merged, C.how, mode, C.points))
        if not bad: break
    for p in pairs:
        if p.name not in bad: ctx.ok("%s: %s" % (label, p.name))
    if bad and search:
        v = find(ctx, label, pre, [p for p in pairs if p.name in bad], dom, C, tol, maxs)
        if v: ctx.bad("%s: %s" % (label, v[0]), *v[1:])
        for x in bad:
            if not v or x != v[0]: ctx.open("%s: %s" % (label, x), "equality not decided by the solver; no concrete difference found")
    return bad

def _blind(ctx, label, pre, pairs, dom, tol, maxs):
    v = find(ctx, label, pre, pairs, dom, None, tol, maxs)
    if v: ctx.bad("%s: %s" % (label, v[0]), *v[1:])
    else: ctx.open(label, "the implementation could not be encoded")
    return [p.name for p in pairs]

def find(ctx, label, pre, pairs, dom, C, tol=REL, maxs=4000):
    """-> (name, input, got, want) confirmed natively, or None"""
    T0 = time.time()
    lim = max(15, min(150, ctx.left() * 0.5))
    S = Search(ctx, pre, pairs, dom, tol)
    v = S.test(dom.sample(maxs, 101))
    if v: return v
    v = S.test(S.specials())
    if v: return v
    for k in range(2):
        v = S.test(S.widened(maxs, 501 + k))
        if v: return v
    if S.blind:
        for k in range(4):
            v = S.test(S.chains(400 + k), True)
            if v: return v
    v = S.strict(C, T0 + lim)
    if v: return v
    for k in range(3):
        if time.time() - T0 > lim: break
        v = S.boundaries(C, 200 + k, T0 + lim)
        if v: return v
        v = S.test(dom.sample(maxs, 300 + k))
        if v: return v
    return None

class Search:
    def __init__(self, ctx, pre, pairs, dom, tol):
        self.ctx, self.pre, self.pairs, self.dom, self.tol = ctx, pre, pairs, dom, tol
        self.blind = any(p.a is None for p in pairs)      # no symbolic implementation: native only
    def _eval(self, X, noise=0.0, seed=0):
        env, ok = self.dom.env(X)
        n = len(X)
        W = [p.when if p.when is not None else 1 for p in self.pairs]
        roots = [p.b for p in self.pairs] + W + list(self.pre) + ([] if self.blind else [p.a for p in self.pairs])
        conv = []
        kinds = [p.sort for p in self.pairs] + ["b"] * (len(W) + len(self.pre)) + ([] if self.blind else [p.sort for p in self.pairs])
        vals = num.evalv(_roots(roots), env, n, noise=noise, seed=seed)
        it = iter(vals)
        for r, k in zip(roots, kinds):
            if type(r) is T: conv.append(next(it))
            else: conv.append(np.full(n, r, dtype=float if k == "f" else bool if k == "b" else np.uint64))
        k = len(self.pairs)
        B, W, P = conv[:k], conv[k:2 * k], conv[2 * k:2 * k + len(self.pre)]
        A = conv[2 * k + len(self.pre):] or None
        for p in P: ok = ok & p
        return A, B, [w & ok for w in W], ok
    def scales(self, B):
        g = {}
        for p, b in zip(self.pairs, B):
            if p.sort != "f": continue
            x = np.abs(np.nan_to_num(b, nan=0, posinf=0, neginf=0))
            g[p.group] = np.maximum(g.get(p.group, p.floor), x)
        return [g.get(p.group) for p in self.pairs]
    def chains(self, seed, n=600):
        """Successive similar inputs, for code that may remember earlier calls: each row
        shares some coordinates with, or is close to, the row before it."""
        d = self.dom
        X = d.sample(n, seed); Y = d.sample(n, seed + 50)
        rs = np.random.RandomState(seed)
        C = np.array([i for i in range(X.shape[1]) if i not in d.discrete])
        for i in range(1, n):
            if i % 3 == 0: continue                       # a fresh start
            x = X[i - 1].copy()
            k = rs.choice(C, rs.randint(1, min(3, len(C)) + 1), replace=False)
            u = rs.rand()
            if u < 0.4: x[k] = Y[i][k]
            elif u < 0.7: x[k] = x[k] * (1 + rs.choice([-1, 1]) * 10.0 ** rs.uniform(-10, -1))
            else: x[k] = x[k] + rs.choice([-1, 1]) * 10.0 ** rs.uniform(-9, 0)
            X[i] = np.clip(x, np.minimum(d.lo, X[i - 1]), np.maximum(d.hi, X[i - 1])) if len(d.lo) == len(x) else x
        return X
    def test(self, X, chain=False):
        if X is None or not len(X): return None
        A, B, W, ok = self._eval(X)
        if self.blind: A = self.nat(X, B)
        sc = self.scales(B)
        best = []
        for i, p in enumerate(self.pairs):
            with np.errstate(all="ignore"):
                if p.sort == "f":
                    fin = np.isfinite(B[i])
                    d = np.where(np.isfinite(A[i]), np.abs(A[i] - B[i]) / (sc[i]), 1e9)
                    d = np.where(fin & W[i], d, 0.0)
                    c = np.nonzero(d > self.tol)[0]
                    c = c[np.argsort(-d[c])][:20]
                else: c = np.nonzero((A[i] != B[i]) & W[i])[0][:20]
            best += list(c)
        best = list(dict.fromkeys(best))[:120]
        if chain and best:                                # with the calls that went before
            for j in sorted(best)[:12]:
                Z = X[max(0, j - 3):j + 1]
                v = self.confirm(Z)
                if v: return v[0], dict(v[1], calls=[self.describe(z) for z in Z]), v[2], v[3]
            return None
        return self.confirm(X[best]) if best else None
    def nat(self, X, B):
        r = self.dom.native(X)
        out = []
        for i, p in enumerate(self.pairs):
            if p.sort == "f": out.append(np.array([np.nan if type(x) is tuple else x.get(p.name, np.nan) for x in r]))
            else: out.append(np.array([2**63 if type(x) is tuple else int(x.get(p.name, 2**63)) & (2**64 - 1) for x in r], dtype=np.uint64))
        return out
    def confirm(self, X):
        A0, B0, W0, ok0 = self._eval(X)
        n = len(X)
        dev = [np.zeros(n) for _ in self.pairs]
        deva = [np.zeros(n) for _ in self.pairs]; big = [np.zeros(n) for _ in self.pairs]
        stable = [w.copy() for w in W0]
        if not self.blind:
            for s in range(24):
                A = self._eval(X, BIG, 2000 + s)[0]
                for i, p in enumerate(self.pairs):
                    if p.sort == "f": big[i] = np.fmax(big[i], np.nan_to_num(np.abs(A[i] - A0[i]), nan=0.0))
        for s in range(24):
            A, B, W, ok = self._eval(X, NOISE, 1000 + s)
            for i, p in enumerate(self.pairs):
                stable[i] &= W[i]
                if p.sort == "f":
                    dev[i] = np.fmax(dev[i], np.nan_to_num(np.abs(B[i] - B0[i]), nan=np.inf))
                    if A: deva[i] = np.fmax(deva[i], np.nan_to_num(np.abs(A[i] - A0[i]), nan=0.0))
                else:
                    stable[i] &= B[i] == B0[i]
        N = self.dom.native(X)
        sc = self.scales(B0)
        for i, p in enumerate(self.pairs):
            if p.sort != "f" or self.blind: continue
            # rounding amplified by the implementation counts; a jump of the
            # implementation where the reference is smooth does not
            jump = (deva[i] > 1e-6 * sc[i]) & (deva[i] > 0.3 * big[i]) & (dev[i] < 1e-9 * sc[i])
            dev[i] = np.where(jump, dev[i], np.fmax(dev[i], deva[i]))
        for j in range(n):
            for i, p in enumerate(self.pairs):
                if not stable[i][j]: continue
                x = N[j]
                if type(x) is tuple:
                    return p.name, self.describe(X[j]), "panic: " + str(x[1])[:200], float(B0[i][j]) if p.sort == "f" else int(B0[i][j])
                if p.name not in x: continue
                v = x[p.name]
                if p.sort == "f":
                    if not np.isfinite(B0[i][j]): continue
                    lim = self.tol * sc[i][j] + 200 * dev[i][j]
                    if not np.isfinite(v) or abs(v - B0[i][j]) > lim:
                        if np.isfinite(lim): return p.name, self.describe(X[j]), v, float(B0[i][j])
                elif int(v) & (2**64 - 1) != int(B0[i][j]): return p.name, self.describe(X[j]), v, int(B0[i][j])
        return None
    def describe(self, x): return {n: float(v) for n, v in zip(self.dom.names, x)}
    def specials(self):
        d = self.dom
        base = d.sample(12, 77)
        out = []
        consts = set()
        for t in topo(_roots([p.a for p in self.pairs] + [p.b for p in self.pairs])):
            if t.op in ("flt", "feq"):
                for x in t.args:
                    if x.op == "fc": consts.add(bitsf(x.attr))
        wide = [i for w in d.reach for i in w[0]]
        far = set(s * v for c in consts if np.isfinite(c) for r in (abs(c), np.sqrt(abs(c))) for v in (r, r * 1.001, r * 0.999, r * 3) for s in (1, -1)) if wide else ()
        for i, nm in enumerate(d.names):
            if i in wide:
                for v in far:
                    b = base.copy(); b[:, i] = v; out.append(b)
            if i in d.discrete: vals = d.special.get(nm, [])
            else:
                vals = list(d.special.get(nm, [])) + [c for c in consts if d.lo[i] <= c <= d.hi[i]] + [-c for c in consts if d.lo[i] <= -c <= d.hi[i]]
                vals = [w for v in set(vals) for w in ((v, np.nextafter(v, np.inf), np.nextafter(v, -np.inf), v * (1 + 1e-7), v * (1 - 1e-7)) if v else (0.0, 1e-150, -1e-150))]
            for v in vals:
                b = base.copy(); b[:, i] = v; out.append(b)
        return np.vstack(out)[:20000] if out else None
    def widened(self, n, seed):
        d = self.dom
        if not d.reach: return None
        X = d.sample(n, seed); rs = np.random.RandomState(seed)
        for cols, a, b in d.reach: X[:, list(cols)] *= np.where(rs.rand(n) < 0.8, 10.0 ** rs.uniform(a, b, n), 1.0)[:, None]
        return X
    def atoms(self, C):
        r = _roots([p.a for p in self.pairs] + [p.b for p in self.pairs])
        ats = [t for t in topo(r) if t.op in ("flt", "feq")]
        if C is not None and not self.blind:
            A = set(C.rep[t.id].id for t in topo(_roots([p.a for p in self.pairs])) if t.op in ("flt", "feq") and t.id in C.rep)
            B = set(C.rep[t.id].id for t in topo(_roots([p.b for p in self.pairs])) if t.op in ("flt", "feq") and t.id in C.rep)
            un = [t for t in ats if t.id in C.rep and C.rep[t.id].id in (A ^ B)]
            ats = un + [t for t in ats if t not in set(un)]
        return ats[:160]
    def strict(self, C, until):
        """Comparisons of operands the solver identified in both codes, strict in one and not in the
        other: the difference is at equality of the operands.  Points are looked for where they are
        equal as doubles, in both; there the decisions count as they are, noise aside."""
        if C is None or self.blind: return None
        def keyed(roots):
            r = {}
            for t in topo(_roots(roots)):
                if t.op == "flt" and all(x.id in C.rep for x in t.args): r[tuple(C.rep[x.id].id for x in t.args)] = t
            return r
        A, B = keyed([p.a for p in self.pairs]), keyed([p.b for p in self.pairs])
        cand = [(t, B[k[::-1]]) for k, t in A.items() if k not in B and k[::-1] in B and k[::-1] not in A]
        if not cand: return None
        d = self.dom
        # the reference with the implementation's own terms in the place of those proven equal to
        # them, so that both compare the same doubles
        own = {}
        for t in topo(_roots([p.a for p in self.pairs])):
            if t.id in C.rep: own.setdefault(C.rep[t.id].id, t)
        memo = {}
        for t in topo(_roots([p.b for p in self.pairs] + list(self.pre) + [p.when for p in self.pairs])):
            if t.id in C.rep and C.rep[t.id].id in own: memo[t.id] = unwrap(own[C.rep[t.id].id])
            elif not t.args: memo[t.id] = unwrap(t)
            else: memo[t.id] = rebuild(t, [memo[x.id] for x in t.args])
        def hyb(t): return memo[t.id] if type(t) is T else t
        self = Search(self.ctx, [hyb(p) for p in self.pre], [Pair(p.name, p.a, hyb(p.b), p.sort, p.group, p.floor, hyb(p.when) if p.when is not None else None) for p in self.pairs], d, self.tol)
        ops = [x for t, b in cand for x in t.args]
        def equal(X):
            env, ok = d.env(X)
            v = num.evalv(ops, env, len(X))
            e = np.zeros(len(X), dtype=bool)
            for i in range(len(cand)): e |= v[2 * i] == v[2 * i + 1]
            return e & ok, [v[2 * i] - v[2 * i + 1] for i in range(len(cand))], ok
        base = d.sample(40, 61)
        M = 17
        for i, nm in enumerate(d.names):
            if i in d.discrete: continue
            V = np.linspace(d.lo[i], d.hi[i], M)
            X = np.repeat(base, M, axis=0); X[:, i] = np.tile(V, len(base))
            _, D, ok = equal(X)
            lo, hi, K = [], [], []
            o = ok.reshape(len(base), M)
            for k, v in enumerate(D):
                s = np.sign(v).reshape(len(base), M)
                for b, j in np.argwhere((s[:, 1:] != s[:, :-1]) & o[:, 1:] & o[:, :-1])[:60]:
                    lo.append(X[b * M + j]); hi.append(X[b * M + j + 1]); K.append(k)
            if not lo: continue
            lo, hi, K = np.array(lo), np.array(hi), np.array(K); idx = np.arange(len(K))
            sl = np.sign(np.array(equal(lo)[1])[K, idx])
            for it in range(70):
                m = (lo + hi) / 2
                same = (np.sign(np.array(equal(m)[1])[K, idx]) == sl)[:, None]
                lo = np.where(same, m, lo); hi = np.where(same, hi, m)
                if it % 8 == 0 and time.time() > until: break
            Z = [lo, hi]
            for q in (lo, hi):
                for s in (np.inf, -np.inf):
                    r = q
                    for _ in range(4): r = r.copy(); r[:, i] = np.nextafter(r[:, i], s); Z.append(r)
            Z = np.vstack(Z); Z = Z[equal(Z)[0]][:400]
            if len(Z):
                a, b, w, ok = self._eval(Z)
                sc = self.scales(b)
                for j, (x, z) in enumerate(zip(d.native(Z), Z)):
                    for n, p in enumerate(self.pairs):
                        if not w[n][j] or (type(x) is not tuple and p.name not in x): continue
                        if p.sort == "f":
                            if not np.isfinite(b[n][j]): continue
                            if type(x) is not tuple and abs(x[p.name] - b[n][j]) <= 1e-6 * sc[n][j]: continue
                        elif type(x) is not tuple and int(x[p.name]) & (2**64 - 1) == int(b[n][j]): continue
                        if p.sort != "f" and type(x) is not tuple and int(x[p.name]) & (2**64 - 1) != int(a[n][j]): continue
                        return p.name, self.describe(z), "panic: " + str(x[1])[:200] if type(x) is tuple else x[p.name], float(b[n][j]) if p.sort == "f" else int(b[n][j])
            if time.time() > until: break
        return None
    def boundaries(self, C, seed, until):
        d = self.dom
        ats = self.atoms(C)
        if not ats: return None
        base = d.sample(10, seed)
        br = []           # (lo point, hi point, atom index)
        M = 33
        for i, nm in enumerate(d.names):
            if i in d.discrete: continue
            V = np.linspace(d.lo[i], d.hi[i], M)
            Xs = np.repeat(base, M, axis=0); Xs[:, i] = np.tile(V, len(base))
            env, ok = d.env(Xs)
            vals = num.evalv(ats, env, len(Xs))
            for k, v in enumerate(vals):
                v = v.reshape(len(base), M); o = ok.reshape(len(base), M)
                fl = np.argwhere((v[:, 1:] != v[:, :-1]) & o[:, 1:] & o[:, :-1])
                for b, j in fl[:3]: br.append((Xs[b * M + j].copy(), Xs[b * M + j + 1].copy(), k))
            if time.time() > until: break
        if not br: return None
        br = br[:1500]
        L = np.array([b[0] for b in br]); H = np.array([b[1] for b in br]); K = np.array([b[2] for b in br])
        idx = np.arange(len(br))
        def at(X):
            env, ok = d.env(X)
            v = np.array(num.evalv(ats, env, len(X)))
            return v[K, idx]
        vl = at(L)
        for it in range(62):
            Mi = (L + H) / 2
            vm = at(Mi)
            s = (vm == vl)[:, None]
            L = np.where(s, Mi, L); H = np.where(s, H, Mi)
            if it % 8 == 0 and time.time() > until: break
        out = [L, H]
        w = np.array(d.hi) - np.array(d.lo)
        dirn = np.sign(np.array([b[1] - b[0] for b in br])) * w
        for e in (1e-14, 1e-11, 1e-9, 1e-7, 1e-5, 1e-3):
            out += [L - e * dirn, H + e * dirn]
        for X in out:
            v = self.test(np.clip(X, d.lo, d.hi))
            if v: return v
        return None
