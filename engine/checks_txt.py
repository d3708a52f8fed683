"""Checks of the element-set reader (C01 - C06)."""
import math, re, time, random
import numpy as np, z3
from fractions import Fraction as Q
from term import *
import pool, runs, sym, smt, conf, lira, text, tle, num
from lira import Lira
from fields import FIELDS
from nprop import *
from checks_cal import ERR

def b2(bs, val):
    """bytes with every symbolic byte replaced by val(name, lo, hi)"""
    return bytes(b if type(b) is not T else val(b.attr[0], *rng(b)) for b in bs)
def lval(m):
    return lambda n, lo, hi: min(max(lira.num(m, z3.Int(n)), lo), hi)
def uval(m):
    def g(n, lo, hi):
        v = m.eval(z3.BitVec("v_" + n, 8), model_completion=True).as_long()
        return v if lo <= v <= hi else lo
    return g
def nat_two(env, fn, l1, l2):
    """native result of a two-line parse: dict, or ("panic", msg)"""
    r = env.native.call(fn, ("b", l1), len(l1), ("b", l2), len(l2), ("d", [0.0] * runs.NF), ("q", [0] * 6), ("q", [0] * 6), ("q", [0] * 9))
    return res(r)
def nat_one(env, bs):
    return res(env.native.call("h_parse", ("b", bs), len(bs), ("d", [0.0] * runs.NF), ("q", [0] * 6), ("q", [0] * 6), ("q", [0] * 9)))
def res(r):
    if type(r) is tuple: return r
    f, k = r[-5], r[-4]
    d = r[-1]
    if "err" in d: return {"err": d["err"]}
    o = dict(zip(FIELDS, f)); o["epochyr"] = k[1]; o.update(d); o["k"] = k
    return o
VAL = ["epochdays", "ndot", "nddot", "bstar", "inclo", "nodeo", "ecco", "argpo", "mo", "no"]
def near(g, w, tol=1e-12):
    return g == w or (math.isfinite(g) and abs(g - w) <= tol * abs(w))
def kepler(r):
    a = (r["no"] * 13.446851082044981) ** (-2 / 3)
    return dict(a=a, alta=a * (1 + r["ecco"]) - 1, altp=a * (1 - r["ecco"]) - 1)
def read_bad(ctx, l1, l2):
    """native reading of well-formed lines against the exact reference -> None | (input, got, want)"""
    inp = {"line1": l1.decode("latin1"), "line2": l2.decode("latin1")}
    w = tle.read(l1.decode("latin1"), l2.decode("latin1"))
    g = nat_two(ctx.env, "h_parse_satrec", l1, l2)
    if type(g) is tuple: return inp, g, "a record"
    if "err" in g: return inp, g, "a record"
    if g["satnum"].decode("latin1") != w["satnum"]: return inp, {"satnum": g["satnum"]}, {"satnum": w["satnum"]}
    if g["epochyr"] != w["epochyr"]: return inp, {"epochyr": g["epochyr"]}, {"epochyr": w["epochyr"]}
    for n in VAL:
        if not near(g[n], w[n]): return inp, {n: g[n]}, {n: w[n]}
    if w["no"] > 0:
        for n, v in kepler(w).items():
            if abs(g[n] - v) > 1e-10 * (1 + abs(v)): return inp, {n: g[n]}, {n: v}
    return None
def init_bad(ctx, l1, l2):
    """the record twoline2satrec returns against sgp4init on the elements read"""
    inp = {"line1": l1.decode("latin1"), "line2": l2.decode("latin1")}
    p = nat_two(ctx.env, "h_parse_satrec", l1, l2); t = nat_two(ctx.env, "h_twoline", l1, l2)
    if type(p) is tuple or "err" in p: return None
    f = [p[n] for n in FIELDS]
    el = [p["jdsatepoch"] - 2433281.5] + [p[n] for n in ("bstar", "ecco", "argpo", "inclo", "mo", "no", "nodeo")]
    r = ctx.env.native.call("h_sgp4init", ("d", el), 1, ("d", f), ("q", p["k"]), ("d", [0.0] * 6), ("q", [0, 0]))
    if type(r) is tuple: return None
    c = r[4]
    if type(t) is tuple: return inp, t, "as sgp4init on the elements: %s" % c
    if c[0]:
        if t.get("err", {}).get("variant") != 4 or t["err"]["nested"] != c[0]: return inp, t, "initialisation error %d" % c[0]
        return None
    if "err" in t: return inp, t, "a record"
    w = dict(zip(FIELDS, r[1]))
    for n in FIELDS:
        if n != "gsto" and not (near(t[n], w[n], 1e-9) or abs(t[n] - w[n]) < 1e-30 or (t[n] != t[n] and w[n] != w[n])): return inp, {n: t[n]}, {n: w[n]}
    if abs(math.remainder(t["gsto"] - w["gsto"], 2 * math.pi)) > 1e-6: return inp, {"gsto": t["gsto"]}, {"gsto": w["gsto"]}
    return None
# reader runs with the propagator's initialisation cut at its interface
def cut_init(ex, oc):
    rec = []
    def orc(ex, st, a, rt):
        n = a[5]
        e = dict(zip("epoch bstar ecco argpo inclo mo no nodeo".split(), [ex.load(st, a[0] + 8 * i, "d") for i in range(8)]))
        f = dict(zip(FIELDS, [ex.load(st, a[2] + 8 * i, "d") for i in range(runs.NF)]))
        k = [ex.load(st, a[3] + 8 * i, 64) for i in range(6)]
        rec.append(dict(pc=st.pc, el=e, f=f, k=k, mode=a[1], satn=text.string(ex, st, a[4], n)))
        return oc
    ex.intercepts.insert(0, (r"^satellite::propogation::sgp4init::sgp4init$", lambda ex, st, a, rt: ex.dispatch(st, "@stub_sgp4init", a, rt)))
    ex.intercepts.insert(0, (r"oracle_init", orc))
    ex.bounds = ex.bounds + [("stub_", 200)]
    return rec

def dom_conds(L, B):
    """a well-formed line's numbers are in their physical range"""
    c = []
    def fld(n):
        l, a, b = tle.COL[n]; bs = B[l][a:b]
        i = 0
        while bs[i] == 32: i += 1
        j = len(bs)
        while bs[j - 1] == 32: j -= 1
        return bs[i:j]
    d = {}
    for n in ("epochdays", "ndot", "inclo", "nodeo", "argpo", "mo", "no"): d[n] = L(text.dec(text.structure(fld(n))))
    d["ecco"] = L(text.dec((False, [], B[1][26:33], False, [])))
    for n in ("nddot", "bstar"):
        l, a, b = tle.COL[n]; bs = B[l][a:b]
        d[n] = L(text.dec((bs[0] == 45, [], bs[1:6], bs[6] == 45, bs[7:8])))
    yr = fld("epochyr")
    y = sum([(L(b, 8) - 48) * 10 ** (len(yr) - 1 - i) for i, b in enumerate(yr)], z3.IntVal(0))
    d["epochyr"] = y
    leap = z3.If(y % 4 == 0, 367, 366)
    c = [d["epochdays"] >= 1, d["epochdays"] < leap, d["inclo"] <= 180, d["nodeo"] < 360, d["argpo"] < 360, d["mo"] < 360, d["no"] > z3.Q(1, 100), d["no"] < 18]
    return d, c
UNIT = dict(epochdays=Q(1), ndot=1 / (Q(tle.XPDOTP) * 1440), nddot=1 / (Q(tle.XPDOTP) * 1440 * 1440), bstar=Q(1), ecco=Q(1), no=1 / Q(tle.XPDOTP),
            inclo=Q(tle.D2R), nodeo=Q(tle.D2R), argpo=Q(tle.D2R), mo=Q(tle.D2R))
def differs(g, w, rel=Q(1, 10**12)):
    """|g - w| > rel |w|"""
    r = z3.Q(rel.numerator, rel.denominator)
    return z3.Or(z3.And(w >= 0, z3.Or(g - w > r * w, w - g > r * w)), z3.And(w < 0, z3.Or(g - w > -r * w, w - g > -r * w)))
class Ask:
    """queries over one run; replay(l1, l2) confirms a model natively"""
    def __init__(self, ctx, L, B, base, replay): self.ctx, self.L, self.B, self.base, self.replay = ctx, L, B, base, replay
    def __call__(self, name, neg, extra=()):
        """True proven / None violated / False open"""
        s = z3.Solver(); s.set("timeout", 20000)
        for c in self.base: s.add(c)
        for c in extra: s.add(c)
        s.add(neg)
        for c in self.L.side: s.add(c)
        for k in range(3):
            r = smt.check(s, "reader-value")
            if r == "unsat": return k == 0
            if r != "sat": return False
            m = s.model()
            ls = [b2(b, lval(m)) for b in self.B]
            v = self.replay(*ls)
            if v: self.ctx.bad(name, *v); return None
            s.add(z3.Or([z3.Int(b.attr[0]) != m.eval(z3.Int(b.attr[0]), model_completion=True) for l in self.B for b in l if type(b) is T][:40]))
        return False
def C02(ctx):
    n = 24 if ctx.thorough() else 12
    names = ["accepted, no panic", "satnum", "epochyr"] + VAL + ["initialised with the elements read", "initialisation error passed through"]
    state = {k: True for k in names}
    kep = []
    def mark(k, v):
        if v is None: state[k] = None
        elif v is False and state[k]: state[k] = False
    def replay(a, b): return read_bad(ctx, a, b) or init_bad(ctx, a, b)
    failed = 0
    for k in range(n):
        if ctx.left() < 60 and k >= 6: break
        if failed >= 2 or ctx.viol or ctx.left() < 120: 
            for x in names: mark(x, False)
            break
        lay = tle.layouts(k); B = tle.instantiate(tle.pad(lay, None))
        tag = "layout %d" % k
        for fn in ("h_parse_satrec", "h_twoline"):
            try:
                ex = text.setup(ctx.env, deadline=60)
                oc = var("outcome", 64, (0, 6)) if k < 2 else 0
                rec = cut_init(ex, oc)
                outs = text.run_two(ex, fn, *B)
                ctx.used(ex)
                L = Lira()
                for l in B:
                    for b in l: L(b, 8)
                ref, dom = dom_conds(L, B)
                ask = Ask(ctx, L, B, dom, replay)
                if k == 0 and fn == "h_twoline":
                    s = z3.Solver()
                    for c in dom + L.side: s.add(c)
                    ctx.witness.append({"what": "a well-formed element set", "answer": smt.check(s, "vacuity")})
                    ctx.samples.append({"layout": tle.pad(lay, None), "paths": len(outs), "bstar": show(ex.load(outs[0].st, outs[0].f + 8 * FIELDS.index("bstar"), "d"), 5)})
                def P(pc): return [L(p, "b") for p in pc]
                for p in ex.panics: mark(names[0], ask("%s: %s" % (names[0], fn), z3.BoolVal(True), P(p[0])))
                for p in ex.unwound + ex.faults: mark(names[0], ask("%s: %s" % (names[0], fn), z3.BoolVal(True), P(p[0])))
                if not outs: raise sym.Unsupported("no outcome")
                for o in outs:
                    if type(o.e[0]) is T: raise sym.Unsupported("symbolic outcome")
                    if o.e[0]:
                        if o.e[0] == 4 and fn == "h_twoline":      # the initialisation failed: same error
                            mark(names[-1], ask(names[-1], z3.And(z3.Or(L(oc, 64) != L(o.e[7], 64), L(oc, 64) == 0), L(oc, 64) != 5) if type(oc) is T else z3.BoolVal(True), P(o.pc)))
                        else: mark(names[0], ask(names[0], z3.BoolVal(True), P(o.pc)))
                        continue
                    if fn == "h_twoline":
                        if type(oc) is T: mark(names[-1], ask(names[-1], L(oc, 64) != 0, P(o.pc)))
                        continue
                    g = {x: ex.load(o.st, o.f + 8 * i, "d") for i, x in enumerate(FIELDS)}
                    values(ctx, ex, L, ask, ref, g, ex.load(o.st, o.k + 8, 64), text.string(ex, o.st, ex.load(o.st, o.s, 64), ex.load(o.st, o.s + 8, 64)), B, mark, P(o.pc))
                    if k in (0, 1): kep.append((g, B))
                if fn == "h_twoline":
                    if not rec: mark(names[-2], False)
                    for r in rec:
                        values(ctx, ex, L, ask, ref, r["f"], r["k"][1], None, B, mark, P(r["pc"]))
                        for x, v in r["el"].items():
                            w = fsub(r["f"]["jdsatepoch"], 2433281.5) if x == "epoch" else r["f"][x]
                            if v is w: mark(names[-2], True)
                            elif x == "epoch":
                                d = L(v) - L(w); mark(names[-2], ask("%s: %s" % (names[-2], x), z3.Or(d > z3.Q(1, 10**9), d < z3.Q(-1, 10**9)), P(r["pc"])))
                            else: mark(names[-2], ask("%s: %s" % (names[-2], x), differs(L(v), L(w)), P(r["pc"])))
            except ERR as e:
                ctx.notes.append("%s %s: %s %s" % (tag, fn, type(e).__name__, str(e)[:200]))
                failed += 1
                for x in names: mark(x, False)
    for x in names:
        if state[x] is True: ctx.ok(x)
    # anything not decided: concrete lines
    if any(v is False for v in state.values()) and not ctx.viol:
        v = read_search(ctx, replay)
        if v: ctx.bad("reading of well-formed lines", *v)
        for x in names:
            if state[x] is False: ctx.open(x, "not decided by the solver; no concrete difference found")
    kepler_check(ctx, kep)
    ctx.bounds["layouts"] = "%d column layouts covering every variant of %s; every digit and every byte outside the fields symbolic" % (n, {k: v for k, v in tle.VARIANTS.items()})
    ctx.assume += ["the compiler's own parsing of a decimal text to f64 returns the value of the text (to rounding)", "values of a well-formed line lie in their physical ranges (day of year in the year, angles below a turn, mean motion between 0.01 and 18 rev/day)",
                   "doubles as reals in unit conversions", "sgp4init is cut at its interface (C13, C15 decide it)"]
def values(ctx, ex, L, ask, ref, g, yr, sat, B, mark, pc):
    for x in VAL:
        u = UNIT[x]
        mark(x, ask("field " + x, differs(L(g[x]), ref[x] * z3.Q(u.numerator, u.denominator)), ()))
    mark("epochyr", ask("field epochyr", L(yr, 64) != ref["epochyr"], pc))
    if sat is not None:
        bs = B[0][2:7]
        while bs[0] == 32: bs = bs[1:]
        while bs[-1] == 32: bs = bs[:-1]
        if len(sat) != len(bs): mark("satnum", ask("satnum", z3.BoolVal(True), pc))
        else: mark("satnum", ask("satnum", z3.Or([L(a, 8) != L(b, 8) for a, b in zip(sat, bs) if a is not b] or [z3.BoolVal(False)]), pc))
def rand_lines(rs, k):
    t = tle.pad(tle.layouts(k), None)
    while True:
        out = []
        for s in t:
            out.append("".join(rs.choice("0123456789") if ch == "9" else rs.choice("ABCXYZ019") if ch == "#" else rs.choice(" A0z.-") if ch == "?" else ch for ch in s))
        out[1] = out[1][:2] + out[0][2:7] + out[1][7:]
        try: r = tle.read(*out)
        except Exception: continue
        y = r["epochyr"]
        if 1 <= r["epochdays"] < (367 if y % 4 == 0 else 366) and r["inclo"] <= math.pi and max(r["nodeo"], r["argpo"], r["mo"]) < 2 * math.pi and 0.01 / tle.XPDOTP < r["no"] < 18 / tle.XPDOTP:
            return [x.encode() for x in out]
def read_search(ctx, replay):
    rs = random.Random(4)
    t0 = time.time()
    for j in range(3000):
        k = j % 12
        ls = rand_lines(rs, k)
        v = replay(*ls)
        if v: return v
        for _ in range(2):                                # the same lines with other numbers in some fields
            n = rand_lines(rs, k); ls = [bytearray(l) for l in ls]
            for (x, a, b) in rs.sample(list(REGION.values()), rs.choice([1, 2, 6])):
                if (x, a) not in ((0, 18), (0, 20)): ls[x][a:b] = n[x][a:b]
            ls = [bytes(l) for l in ls]
            v = replay(*ls)
            if v: return v
        if time.time() - t0 > 60 or ctx.left() < 20: break
    return None
class ReadDom(Dom):
    """mean motion and eccentricity, printed into element lines"""
    names, lo, hi = ["no", "ecco"], [0.02, 0.0], [17.9, 0.9999]
    def __init__(self, ctx): self.ctx = ctx
    def sample(self, n, seed):
        rs = np.random.RandomState(seed)
        return np.stack([rs.uniform(0.02, 17.9, n), rs.uniform(0, 0.9999, n)], 1)
    def rd(self, X): return np.round(X[:, 0], 8), np.round(X[:, 1], 7)
    def env(self, X):
        a, b = self.rd(X)
        return {"val.no": a, "val.ecco": b}, np.ones(len(X), dtype=bool)
    def native(self, X):
        out = []
        for a, b in zip(*self.rd(X)):
            l1 = b"1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995"
            l2 = ("2 25544  51.6446  50.5941 %07d 117.0184 328.1109 %11.8f162461" % (round(b * 1e7), a)).encode()
            r = nat_two(self.ctx.env, "h_parse_satrec", l1, l2)
            out.append(r if type(r) is tuple else r if "err" not in r else ("panic", str(r)))
        return out
def kepler_check(ctx, kep):
    no, ec = var("val.no", "f"), var("val.ecco", "f")
    n = fmul(no, float(1 / Q(tle.XPDOTP)))
    a = ffun("pow", fmul(n, 13.446851082044981), -2 / 3)
    want = dict(a=a, alta=fsub(fmul(a, fadd(1.0, ec)), 1.0), altp=fsub(fmul(a, fsub(1.0, ec)), 1.0))
    if not kep:
        conform(ctx, "Kepler's law", (), [Pair(x, None, want[x]) for x in want], ReadDom(ctx)); return
    import term
    g, B = kep[0]
    def key(n):
        l, a, b = tle.COL[n]; bs = B[l][a:b]
        while bs[0] == 32: bs = bs[1:]
        while bs[-1] == 32: bs = bs[:-1]
        return text.dec(text.structure(bs)) if n == "no" else text.dec((False, [], bs, False, []))
    m = {key("no").id: no, key("ecco").id: ec}
    got = term.subst([wrap(g[x], "f") for x in want], m)
    if any(t.op == "dec" or (t.op == "var" and not t.attr[0].startswith("val.")) for t in topo([t for t in got if type(t) is T])): got = [None] * 3
    pairs = [Pair(x, unwrap(y) if y is not None else None, want[x], "f", x, 1.0 if x != "a" else 1e-300) for x, y in zip(want, got)]
    conform(ctx, "Kepler's law", (flt(0.0, no), bnot(flt(ec, 0.0)), flt(ec, 1.0)), pairs, ReadDom(ctx))

# ------------------------------------------------------------------- C06
from checks_cal import jd_day, jd_py, vacz
L2 = b"2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461"
def epoch_line(yy, day12): return ("1 25544U 98067A   %s%s  .00001292  00000-0  28282-4 0  9995" % (yy, day12)).encode()
def epoch_bad(ctx, l1):
    """native Julian date of an element line with a valid epoch -> None | (input, got, want)"""
    s = l1.decode(); yy = int(s[18:20]); d = Q(s[20:32].strip())
    Y = yy + (1900 if yy >= 57 else 2000)
    if not 1 <= d < (367 if Y % 4 == 0 else 366): return None
    want = jd_py(Y, 1, 1) + d - 1
    inp = {"epoch columns": s[18:32]}
    g = nat_two(ctx.env, "h_parse_satrec", l1, L2)
    if type(g) is tuple or "err" in g: return inp, g, float(want)
    j = g["jdsatepoch"]
    if not math.isfinite(j) or abs(Q(j) - want) > Q(1, 10**9): return inp, j, float(want)
    return None
def C06(ctx):
    nm = "Julian date of the epoch"
    import term
    state = True
    for yt, dt in (("99", "999.99999999"), (" 9", " 99.99999999"), ("99", "  9.99999999"), ("99", "999.99999   "), ("99", " 99.999999  ")):
        name = "%s: columns '%s%s'" % (nm, yt, dt)
        done = False
        try:
            t = epoch_line(yt, dt).decode()
            B = [[var("a.%d" % i, 8, (48, 57)) if 18 <= i < 32 and ch == "9" else ord(ch) for i, ch in enumerate(t)], list(L2)]
            ex = text.setup(ctx.env, deadline=60)
            outs = text.run_two(ex, "h_parse_satrec", *B); ctx.used(ex)
            ip = [b for b in B[0][20:32] if b != 32]
            day = text.dec(text.structure(ip))
            L = Lira()
            for b in B[0]: L(b, 8)
            D = L(day)
            yr = [L(b, 8) - 48 for b in B[0][18:20] if b != 32]
            y = yr[0] * 10 + yr[1] if len(yr) == 2 else yr[0]
            Y = y + z3.If(y >= 57, 1900, 2000)
            dom = L.side + [D >= 1, D < z3.If(Y % 4 == 0, 367, 366)]
            vacz(ctx, name, dom)
            # the day as one real number: the digits only matter through it
            DV = z3.Real("day"); M = Lira(); M.give("day", DV)
            for b in B[0]: M(b, 8)
            base = M.side + [DV >= 1, DV < z3.If(Y % 4 == 0, 367, 366)]
            def sub(v, so): return term.subst([wrap(v, so)], {day.id: var("day", "f")})[0]
            def rep(m):
                d = lira.num(m, DV); w, k = len(dt.strip()), len(dt.strip().split(".")[1])
                bs = b2(B[0], lval(m)).decode()
                for x in (d, d + Q(1, 10**k), d - Q(1, 10**k)):
                    r = int(x * 10**k + Q(1, 2))
                    s = "%d.%0*d" % (r // 10**k, k, r % 10**k)
                    if len(s) > w: continue
                    v = epoch_bad(ctx, (bs[:20] + (" " * (w - len(s)) + s).rjust(len(dt.rstrip())).ljust(12) + bs[32:]).encode())
                    if v: return v
                return None
            done = True
            def ask(neg, pc):
                s = z3.Solver(); s.set("timeout", 60000)
                for c in base + [M(sub(p, "b"), "b") for p in pc]: s.add(c)
                s.add(neg)
                for c in M.side: s.add(c)
                for k in range(6):
                    r = smt.check(s, "epoch")
                    if r == "unsat": return k == 0
                    if r != "sat": return False
                    m = s.model(); v = rep(m)
                    if v: ctx.bad(nm, *v); return None
                    s.add(z3.ToInt(DV) != z3.ToInt(m.eval(DV, model_completion=True)))
                return False
            for p in ex.panics + ex.unwound + ex.faults:
                if done: done = ask(z3.BoolVal(True), p[0])
            for o in outs:
                if done is not True: break
                if o.e[0]: done = ask(z3.BoolVal(True), o.pc); continue
                j = M(sub(ex.load(o.st, o.f + 8 * FIELDS.index("jdsatepoch"), "d"), "f"))
                d = j - (jd_day(Y, z3.IntVal(1), z3.IntVal(1)) + DV - 1)
                done = ask(z3.Or(d > z3.Q(1, 10**10), d < z3.Q(-1, 10**10)), o.pc)
            if not outs: done = False
        except ERR as e:
            ctx.notes.append("%s: %s %s" % (name, type(e).__name__, str(e)[:200])); done = False
        if done is None: return
        if done: ctx.ok(name)
        else:
            state = False; ctx.open(name, "not decided by the solver")
    if not state: epoch_search(ctx, nm)
    ctx.bounds["epochs"] = "all 100 two-digit years, every day-of-year value 1 <= d < 366 (367 in leap years) as a real number, five column layouts"
    ctx.assume += [ "doubles as reals in the calendar arithmetic", "the compiler's own parsing of a decimal text to f64 returns the value of the text (to rounding)"]
    for yy, d in (("00", "060.50000000"), ("56", "366.99999999"), ("57", "001.00000000")): ctx.samples.append({"epoch": yy + d, "native jd": nat_two(ctx.env, "h_parse_satrec", epoch_line(yy, d), L2).get("jdsatepoch")})
def epoch_search(ctx, nm):
    t0 = time.time()
    rs = random.Random(9)
    for yy in range(100):
        n = 366 if yy % 4 == 0 else 365
        for d in range(1, n + 1):
            for fr in ((0, 99999999) if d in (1, 31, 32, 59, 60, 61, 90, 91, n) else (rs.randrange(10**8),)):
                for t in ("%03d.%08d" % (d, fr), ("%d.%08d" % (d, fr)).rjust(12)) if d in (1, 59, 60, 61, n) else ("%03d.%08d" % (d, fr),):
                    v = epoch_bad(ctx, epoch_line("%02d" % yy, t))
                    if v: ctx.bad(nm, *v); return
        if time.time() - t0 > 100: return

# ------------------------------------------------------------------- C03
# reported fields in reading order: name -> (variant, line, low, high); 3 = compound (no columns)
ERRS = dict([("epochyr", (2, 0, 18, 20)), ("epochdays", (1, 0, 20, 32)), ("ndot", (1, 0, 33, 43)), ("nndot frac", (2, 0, 44, 50)), ("nndot", (3, 0, 44, 52)),
             ("bstar frac", (2, 0, 54, 59)), ("bstr", (3, 0, 53, 61)), ("inclo", (1, 1, 8, 16)), ("nodeo", (1, 1, 17, 25)), ("ecco", (3, 1, 26, 33)),
             ("argpo", (1, 1, 34, 42)), ("mo", (1, 1, 43, 51)), ("no", (1, 1, 52, 63))])
ORDER = list(ERRS)
REGION = dict(epochyr=(0, 18, 20), epochdays=(0, 20, 32), ndot=(0, 33, 43), nddot=(0, 44, 52), bstar=(0, 53, 61), inclo=(1, 8, 16), nodeo=(1, 17, 25),
              ecco=(1, 26, 33), argpo=(1, 34, 42), mo=(1, 43, 51), no=(1, 52, 63))
def reject_accept(B):
    """per reported field: (must be rejected, is certainly a number); texts in between may go either way"""
    R, V = {}, {}
    def cols(l, a, b): return B[l][a:b]
    for n, (v, l, a, b) in ERRS.items():
        if len(B[l]) <= a: R[n], V[n] = 1, 0; continue
        if len(B[l]) < b: R[n], V[n] = 0, 0; continue          # partly missing
        bs = cols(l, a, b)
        if n in ("nndot", "bstr"):
            if n == "nndot": man, sg, ex = bs[0:6], None, bs[6:8]
            else: man, sg, ex = bs[1:6], bs[0], bs[6:8]
            r = bnot(text.padded(ex, "int"))
            strict = conj([text.isdig(b) for b in bs[1:6]] + [text.inset(bs[0], (32, 43, 45)), text.inset(ex[0], (43, 45)), text.isdig(ex[1])])
            if sg is not None: r = bor(r, bnot(text.inset(sg, tuple(b" +-.0123456789"))))
            R[n], V[n] = r, strict
        elif n == "ecco": R[n], V[n] = bnot(text.padded(bs, "f64e")) if False else ecc_reject(bs), conj([text.isdig(b) for b in bs])
        elif v == 2: R[n], V[n] = bnot(text.padded(bs, "int")), text.padded(bs, "digits")
        else: R[n], V[n] = bor(bnot(text.padded(bs, "f64")), text.overflows(bs)), text.padded(bs, "plain")
    return R, V
def ecc_reject(bs):
    """no digits at all, or anything that is not a digit, a blank or an exponent mark with its sign"""
    ok = conj([disj([text.isdig(b), text.inset(b, (9, 10, 11, 12, 13, 32, 43, 45, 69, 101))]) for b in bs])
    return bnot(band(ok, disj([text.isdig(b) for b in bs])))
def concrete(l1, l2):
    R, V = reject_accept([list(l1), list(l2)])
    return {k for k, v in R.items() if v}, {k for k, v in V.items() if v}
def before(g, n):
    """field g is read before the field reported as n (parts of one field do not count against each other)"""
    same = {"bstr": ("bstar frac",), "nndot": ("nndot frac",)}
    return ORDER.index(g) < ORDER.index(n) and g not in same.get(n, ())
def reject_bad(ctx, l1, l2):
    R, V = concrete(l1, l2)
    if not R: return None
    first = next(n for n in ORDER if n in R)
    inp = {"line1": l1.decode("latin1"), "line2": l2.decode("latin1")}
    want = {"error in field": first, "fields that are not numbers": sorted(R)}
    for fn in ("h_parse_satrec", "h_twoline"):
        g = nat_two(ctx.env, fn, l1, l2)
        if type(g) is tuple: return inp, g, want
        if "err" not in g: return inp, {k: g[k] for k in VAL}, want
        e = g["err"]; n = e.get("field", b"").decode("latin1")
        if n == "satnum" and (len(l1) < 7): continue
        if n not in ERRS or any(before(r, n) for r in R) or n in V or ERRS[n][0] != e["variant"]: return inp, e, want
        v, l, a, b = ERRS[n]
        if n in ("bstr", "nndot") and n not in R: 
            m = "bstar frac" if n == "bstr" else "nndot frac"
            if m in R: return inp, e, want
        if v != 3:
            if (e["low"], e["high"]) != (a, b): return inp, e, "columns %d-%d" % (a, b)
            tx = (l1, l2)[l][a:b]
            if len((l1, l2)[l]) >= b and e["text"] != tx: return inp, e, tx
    return None
L1 = b"1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995"
def open_lines(regs, lo=32, hi=126, others=False):
    """the standard lines with the named regions made of arbitrary bytes"""
    B = [list(L1), list(L2)]
    for l, a, b in regs:
        for i in range(a, b): B[l][i] = var("%s.%d" % ("ab"[l], i), 8, (lo, hi))
    if others:
        for l in (0, 1):
            used = set(i for (x, a, b) in REGION.values() if x == l for i in range(a, b))
            for i in range(len(B[l])):
                if i > 6 and i not in used: B[l][i] = var("%s.%d" % ("ab"[l], i), 8, (32, 126))
    return B
def C03(ctx):
    runs_ = [("every field of visible characters", open_lines(REGION.values(), 48, 126, True), 120)]
    runs_ += [("field %s of printable characters" % n, open_lines([r]), 150) for n, r in REGION.items()]
    N = list(REGION)
    prs = [(a, b) for i, a in enumerate(N) for b in N[i + 1:]] if ctx.thorough() else list(zip(N, N[1:]))
    runs_ += [("fields %s and %s of printable characters" % (a, b), mix(a, b), 240) for a, b in prs]
    cuts = [set([n for (x, a, b) in REGION.values() if x == l for n in (a, a + 1, b - 1)] + [0, 1, 2, 5, 7, 8]) for l in (0, 1)]
    for l in (0, 1):
        for n in sorted(cuts[l]):
            B = open_lines([]); B[l] = B[l][:n]
            runs_.append(("line %d of %d characters" % (l + 1, n), B, 30))
        if l == 0:
            B = open_lines([]); B = [[], []]; runs_.append(("empty lines", B, 30))
    for n, (l, a, b) in REGION.items():
        inside = [p for p in range(a, b - 1) if (n, p) not in (("bstar", 53), ("bstar", 58), ("nddot", 49))]      # not across columns read separately
        for p in inside:
            B = open_lines([REGION[n]]); B[l][p:p + 2] = [var("u.0", 8, (0xC3, 0xDF)), var("u.1", 8, (0x80, 0xBF))]
            runs_.append(("field %s with a two-byte character at column %d" % (n, p), B, 60))
    jobs = []
    for tag, B, lim in runs_:
        jobs.append((tag, B, lim, "h_parse_satrec"))
        if tag.startswith(("every", "field", "empty")):
            jobs.append((tag + ", initialised as well", B, lim, "h_twoline"))
    undone = jobs_undone(ctx, jobs, lambda ctx, *a: reject_run(ctx, *a))
    if undone is None: return
    if undone:
        v = reject_search(ctx)
        if v: ctx.bad("malformed fields are rejected", *v)
        else:
            for t in undone: ctx.open(t, "not decided by the solver; no concrete difference found")
    ctx.bounds["texts"] = "one field at a time of arbitrary printable ASCII, %s pairs of fields, and all fields at once of arbitrary bytes 0x30-0x7e (everything else of the lines arbitrary printable); each field with an arbitrary two-byte character at every place inside it; lines cut at and inside every field; through the reader and, for whole lines, through initialisation" % ("all" if ctx.thorough() else "adjacent")
    ctx.assume += ["f64::from_str accepts exactly the documented grammar; an exponent of 400 or more on a non-zero mantissa overflows, smaller three-digit exponents may or may not"]
    for l in (L1[:33] + b"    nan   " + L1[43:], L1[:20] + b"12x.83761025" + L1[32:]): ctx.samples.append({"line1": l, "native": nat_two(ctx.env, "h_parse_satrec", l, L2)})
def jobs_undone(ctx, jobs, fn, keep=45):
    """runs the jobs in parallel; the tags of those not decided, None after a violation"""
    def one(ctx, *j):
        if ctx.left() < keep: ctx.notes.append("not run: " + j[0]); return False
        return fn(ctx, *j)
    undone = []
    for j, r in zip(jobs, pool.run(ctx, jobs, one)):
        if r is None: return None
        if r: ctx.ok(j[0])
        else: undone.append(j[0])
    return undone
def mix(a, b):
    B = open_lines([REGION[a]]); C = open_lines([REGION[b]], 48, 126)
    return [[y if type(y) is T else x for x, y in zip(p, q)] for p, q in zip(B, C)]
def reject_run(ctx, tag, B, lim, fn="h_parse_satrec"):
    nm = "malformed fields are rejected"
    try:
        ex = text.setup(ctx.env, deadline=lim)
        if fn == "h_twoline": cut_init(ex, 0)
        outs = text.run_two(ex, fn, *B); ctx.used(ex)
        R, V = reject_accept(B)
        anyR = disj(list(R.values()))
        u = ex.feas.u
        s = z3.Solver(); s.set("timeout", 20000)
        okall = True
        def ask(pc, neg):
            nonlocal okall
            neg = neg if type(neg) is T else int(bool(neg))
            if type(neg) is not T and not neg: return True
            s.push()
            try:
                for p in pc: s.add(u(p, "b"))
                s.add(u(wrap(neg, "b"), "b"))
                for k in range(4):
                    r = smt.check(s, "reject")
                    if r == "unsat":
                        if k: okall = False
                        return True
                    if r != "sat": okall = False; return True
                    m = s.model(); ls = [b2(b, uval(m)) for b in B]
                    v = reject_bad(ctx, *ls)
                    if v: ctx.bad(nm, *v); return False
                    sy = [b for l in B for b in l if type(b) is T]
                    if not sy: break
                    s.add(z3.Or([u(wrap(b, 8)) != m.eval(u(wrap(b, 8)), model_completion=True) for b in sy]))
                okall = False; return True
            finally: s.pop()
        if type(anyR) is T:
            x = z3.Solver(); x.add(u(anyR, "b")); w = smt.check(x, "vacuity")
            ctx.witness.append({"what": tag + ": a malformed field", "answer": w})
        for p in ex.panics + ex.unwound + ex.faults:
            if not ask(p[0], anyR): return None
        if not outs: return False
        ctx.notes.append("%s: %d paths, %d instructions" % (tag, len(outs), ex.steps))
        for o in outs:
            if type(o.e[0]) is T: raise sym.Unsupported("symbolic outcome")
            if not o.e[0]:
                if not ask(o.pc, anyR): return None
                continue
            n = None
            if o.e[0] in (1, 2, 3): n = bytes(text.string(ex, o.st, o.e[1], o.e[2])).decode("latin1")
            if n == "satnum" and len(B[0]) < 7: continue
            if n not in ERRS or ERRS[n][0] != o.e[0]:
                if not ask(o.pc, anyR): return None
                continue
            early = disj([R[g] for g in ORDER if before(g, n)])
            if not ask(o.pc, band(anyR, bor(early, V[n]))): return None
            if n in ("bstr", "nndot"):
                if not ask(o.pc, band(bnot(R[n]), R["bstar frac" if n == "bstr" else "nndot frac"])): return None
            v, l, a, b = ERRS[n]
            if v != 3:
                if (o.e[3], o.e[4]) != (a, b):
                    if not ask(o.pc, anyR): return None
                elif len(B[l]) >= b:
                    t = text.string(ex, o.st, o.e[5], o.e[6])
                    w = B[l][a:b]
                    d = 1 if len(t) != len(w) else bnot(conj([icmp("eq", x, y, 8) for x, y in zip(t, w)]))
                    if not ask(o.pc, band(anyR, d)): return None
        return okall
    except ERR as e:
        ctx.notes.append("%s: %s %s" % (tag, type(e).__name__, str(e)[:200])); return False
JUNK = ["nan", "NaN", "inf", "-inf", "infinity", "1e999", "", "-", ".", "+.", "1.2.3", "12a", "0x1", "1_0", "--1", "1,5", "1 2", "e5", "1e", "\t1", "1e+", "*"]
def reject_search(ctx):
    rs = random.Random(7); t0 = time.time()
    N = list(REGION)
    for j in range(12000):
        B = [bytearray(L1), bytearray(L2)]
        for n in rs.sample(N, 1 if j % 3 else 2):
            l, a, b = REGION[n]; w = b - a
            u = rs.random()
            if u < 0.45:
                t = rs.choice(JUNK)[:w]; t = rs.choice([t.ljust(w), t.rjust(w), t.center(w)])
            elif u < 0.8:
                t = bytearray(B[l][a:b]); t[rs.randrange(w)] = rs.randrange(32, 127); t = t.decode()
            else: t = "".join(chr(rs.randrange(32, 127)) for _ in range(w))
            B[l][a:b] = t.encode()
        if j % 10 == 0: l = rs.randrange(2); B[l] = B[l][:rs.randrange(70)]
        v = reject_bad(ctx, bytes(B[0]), bytes(B[1]))
        if v: return v
        if time.time() - t0 > 60 or ctx.left() < 15: break
    return None

# ------------------------------------------------- C04, C05: texts of several lines
WSB = (9, 10, 11, 12, 13, 32)
def blank(bs): return all(b in WSB for b in bs)
class Text:
    """a text made of lines; a symbolic byte is never a line feed"""
    def __init__(self): self.bs = []; self.n = 0; self.pre = []; self.lines = []
    def sym(self, lo=32, hi=126):
        self.n += 1
        return var("t.%d" % self.n, 8, (lo, hi))
    def add(self, kind, parts, end="\n"):
        """parts: bytes | ('s', n) n printable bytes | ('v', n) visible | ('w', n) blanks | ('d',) a line number 0-9"""
        a = len(self.bs)
        for p in parts:
            if type(p) is bytes: self.bs += list(p); continue
            k, m = p
            if k == "u":    # one character of m bytes, not white space
                self.n += 1; w = [var("t.%d.%d" % (self.n, i), 8, {0: {2: (0xC3, 0xDF), 3: (0xE3, 0xEF), 4: (0xF1, 0xF3)}[m]}.get(i, (0x80, 0xBF))) for i in range(m)]
                if m == 3: self.pre += [disj([icmp("ult", w[0], 0xED, 8), icmp("ult", 0xED, w[0], 8), icmp("ult", w[1], 0xA0, 8)]),
                                        disj([bnot(icmp("eq", w[0], 0xE3, 8)), bnot(icmp("eq", w[1], 0x80, 8)), bnot(icmp("eq", w[2], 0x80, 8))])]
                self.bs += w; continue
            for _ in range(m):
                b = self.sym(*{"s": (32, 126), "v": (33, 126), "w": (9, 32)}[k])
                if k == "w": self.pre.append(text.inset(b, (9, 11, 12, 13, 32)))
                self.bs.append(b)
        self.lines.append((kind, a, len(self.bs)))
        self.bs += list(end.encode())
def trimmed(bs, a, b):
    while a < b and bs[a] in WSB: a += 1
    while b > a and bs[b - 1] in WSB: b -= 1
    return a, b
def trim_cond(B, bs, a, b):
    """the trimmed extent of B[a:b] is the same as that of the concrete bytes bs"""
    s, e = trimmed(bs, a, b)
    if s == e: return conj([text.inset(x, WSB) for x in B[a:b]])
    c = [text.inset(x, WSB) for x in B[a:s] + B[e:b]] + [bnot(text.inset(B[s], WSB)), bnot(text.inset(B[e - 1], WSB))]
    return conj(c)
def name_of(B, bs, a, b):
    """(condition, extent) of the name on the line; extent None: not specified (blank before the marker or no name after it)"""
    c = [trim_cond(B, bs, a, b)]
    s, e = trimmed(bs, a, b)
    if s != a: return conj(c), None
    mark = bs[a:a + 2] == [48, 32]
    m = conj([icmp("eq", x, y, 8) for x, y in zip(B[a:a + 2], (48, 32))]) if b - a >= 2 else 0
    c.append(m if mark else bnot(m))
    if mark:
        c.append(trim_cond(B, bs, a + 2, b)); s, e = trimmed(bs, a + 2, b)
        if s == e: return conj(c), None
    return conj(c), (s, e)
def cut_twoline(ex, fixed=None, lax=False):
    """twoline2satrec cut at its interface: arguments recorded, either outcome possible for a 1/2 pair of lines, an error otherwise"""
    def orc(ex, st, a, rt):
        if any(type(x) is T for x in a): raise sym.Unsupported("symbolic line extent")
        k = len(st.info or ())
        l = [ex.bytes_at(st, a[0], a[1]), ex.bytes_at(st, a[2], a[3])]
        pair = band(icmp("eq", l[0][0], 49, 8), icmp("eq", l[1][0], 50, 8)) if a[1] and a[3] else 0
        out = []
        good = var("good.%d" % k, "b")
        if fixed and k < len(fixed) and fixed[k] is not None: good = fixed[k]
        if lax: pair = 1
        s = text.with_cond(ex, st, band(pair, good))
        if s is not None: s.info = (s.info or ()) + ((l[0], l[1], True),); out.append((s, k))
        s = text.with_cond(ex, st, bnot(band(pair, good)))
        if s is not None: s.info = (s.info or ()) + ((l[0], l[1], False),); out.append((s, (1 << 64) - 1 - k))
        return out
    ex.intercepts.insert(0, (r"^satellite::io::twoline2satrec$", lambda ex, st, a, rt: ex.dispatch(st, "@stub_twoline2satrec", a, rt)))
    ex.intercepts.insert(0, (r"oracle_twoline", orc))
    ex.bounds = ex.bounds + [("stub_", 200)]
def strip(l):
    l = list(l)
    while l and l[-1] in (13, 32, 9): l.pop()
    return l
def same(a, b):
    """byte sequences equal, trailing blanks aside"""
    a, b = strip(a), strip(b)
    if len(a) != len(b): return 0
    return conj([icmp("eq", x, y, 8) for x, y in zip(a, b)])

def single_expect(bs):
    """reference for one element set, on concrete bytes: ('count',) ('check',) or ('two', line, line, name line or None)"""
    ls = []; a = 0
    for i in range(len(bs) + 1):
        if i == len(bs) or bs[i] == 10:
            if not blank(bs[a:i]): ls.append((a, i))
            a = i + 1
    if len(ls) not in (2, 3): return ("count",)
    e = ls[-2:]
    if bs[e[0][0]] != 49 or bs[e[1][0]] != 50: return ("check",)
    return ("two", e[0], e[1], ls[0] if len(ls) == 3 else None)
def single_cond(B, bs):
    """condition under which symbolic bytes B have the line structure of the concrete bytes bs"""
    c = []; a = 0; ls = []
    for i in range(len(bs) + 1):
        if i == len(bs) or bs[i] == 10:
            if type(B[i] if i < len(bs) else 0) is T: c.append(icmp("eq", B[i], 10, 8))
            if blank(bs[a:i]): c.append(conj([text.inset(x, WSB) for x in B[a:i]]))
            else: c.append(bnot(conj([text.inset(x, WSB) for x in B[a:i]]))); ls.append((a, i))
            a = i + 1
        elif type(B[i]) is T: c.append(bnot(icmp("eq", B[i], 10, 8)))
    if len(ls) in (2, 3):
        ok = band(icmp("eq", B[ls[-2][0]], 49, 8), icmp("eq", B[ls[-1][0]], 50, 8))
        c.append(ok if single_expect(bs)[0] == "two" else bnot(ok))
    return conj(c)
def single_bad(ctx, bs):
    """native parse of a text against the reference, also with the element lines filled in"""
    for t in (bs, inflate(bs)):
        v = t is not None and single_bad1(ctx, bytes(t))
        if v: return v
    return None
def inflate(bs):
    x = single_expect(list(bs))
    if x[0] == "count": return None
    out = bytes(bs); ls = []
    ls = [i for i, l in enumerate(out.split(b"\n")) if not blank(l)]
    p = out.split(b"\n")
    for i, L in zip(ls[-2:], (L1, L2)):
        tail = b"\r" if p[i].endswith(b"\r") else b""
        p[i] = p[i][:1] + L[1:] + tail
    return b"\n".join(p)
def single_bad1(ctx, bs):
    x = single_expect(list(bs)); g = nat_one(ctx.env, bs)
    inp = {"text": bs.decode("utf8", "replace")}
    if type(g) is tuple: return inp, g, "a record or an error"
    v = g["err"]["variant"] if "err" in g else 0
    if x[0] != "two":
        w = 6 if x[0] == "count" else 5
        return None if v == w else (inp, g.get("err", "a record"), {"count": "bad line count", "check": "failed line check"}[x[0]])
    w = nat_two(ctx.env, "h_twoline", bytes(strip(bs[x[1][0]:x[1][1]])), bytes(strip(bs[x[2][0]:x[2][1]])))
    if type(w) is tuple: return None
    if "err" in w or "err" in g:
        if g.get("err", {}).get("variant") != w.get("err", {}).get("variant") or g.get("err", {}).get("nested") != w.get("err", {}).get("nested") or g.get("err", {}).get("field") != w.get("err", {}).get("field"):
            return inp, g.get("err", "a record"), w.get("err", "a record")
        return None
    for n in FIELDS + ["satnum", "epochyr"]:
        if g[n] != w[n] and not (g[n] != g[n] and w[n] != w[n]): return inp, {n: g[n]}, {n: w[n]}
    if x[3] is None: return None if g["name"] is None else (inp, {"name": g["name"]}, {"name": None})
    c, e = name_of(list(bs), list(bs), *x[3])
    if e is None: return None
    nm = bs[e[0]:e[1]]
    return None if g["name"] == nm else (inp, {"name": g["name"]}, {"name": nm})
def line_run(ctx, tag, t, fn, expect, judge, replay, lim=60):
    """every path: split by line structure of models, the outcome compared by the solver.  True/False/None"""
    try:
        ex = text.setup(ctx.env, pre=t.pre, deadline=lim)
        cut_twoline(ex, getattr(t, "fixed", None))
        if getattr(t, "fixed", None): ex.bounds = [("stub_", 200), ("", 4000)]
        outs = text.run_one(ex, fn, t.bs) if fn == "h_parse" else run_multi(ex, t.bs, len(getattr(t, 'entries', ())) + 8)
        ctx.used(ex)
        u = ex.feas.u; okall = True
        s = z3.Solver(); s.set("timeout", 20000)
        for p in t.pre: s.add(u(p, "b"))
        def conc(m): return [b if type(b) is not T else uval(m)(b.attr[0], *rng(b)) for b in t.bs]
        def confirm(pc, neg):
            nonlocal okall
            neg = neg if type(neg) is T else int(bool(neg))
            if type(neg) is not T and not neg: return True
            s.push()
            try:
                for p in pc: s.add(u(p, "b"))
                s.add(u(wrap(neg, "b"), "b"))
                for k in range(3):
                    r = smt.check(s, "lines")
                    if r == "unsat":
                        if k: okall = False
                        return True
                    if r != "sat": okall = False; return True
                    m = s.model(); cb = conc(m); v = replay(ctx, bytes(cb))
                    if v: ctx.bad(tag.split(":")[0], *v); return False
                    sy = [b for b in t.bs if type(b) is T]
                    if not sy: break
                    s.add(z3.Or([u(b) != m.eval(u(b), model_completion=True) for b in sy]))
                okall = False; return True
            finally: s.pop()
        for p in ex.panics + ex.unwound + ex.faults:
            if not confirm(p[0], 1): return None
        npath = 0
        for o in outs:
            s.push()
            for p in o.pc: s.add(u(p, "b"))
            try:
                for k in range(60):
                    r = smt.check(s, "structure")
                    if r == "unsat": break
                    if r != "sat": okall = False; break
                    cb = conc(s.model()); npath += 1
                    c, x = expect(t, cb)
                    if type(c) is not T and not c: raise sym.Unsupported("structure condition")
                    bad = judge(ex, o, t, x)
                    if not confirm(o.pc + ((c,) if type(c) is T else ()), bad): return None
                    s.add(u(wrap(bnot(c), "b"), "b"))
                else: okall = False
            finally: s.pop()
        if not outs: return False
        ctx.notes.append("%s: %d paths, %d line structures, %d instructions" % (tag, len(outs), npath, ex.steps))
        return okall
    except ERR as e:
        ctx.notes.append("%s: %s %s" % (tag, type(e).__name__, str(e)[:200])); return False
def c05_expect(t, cb):
    x = single_expect(cb); c = single_cond(t.bs, cb)
    if x[0] == "two" and x[3]:
        c2, e = name_of(t.bs, cb, *x[3]); return band(c, c2), x + (e,)
    return c, x
def c05_judge(ex, o, t, x):
    """condition that the outcome of path o is not the expected one"""
    v = o.e[0]; calls = o.st.info or ()
    if type(v) is T: raise sym.Unsupported("symbolic outcome")
    if x[0] == "count": return int(v != 6)
    if x[0] == "check": return int(v != 5)
    if len(calls) != 1: return 1
    a, b, good = calls[0]
    w = band(same(a, t.bs[x[1][0]:x[1][1]]), same(b, t.bs[x[2][0]:x[2][1]]))
    if not good:
        return bnot(w) if v == 4 and o.e[7] == 2 else 1
    if v != 0: return 1
    tag = ex.load(o.st, o.f + 8 * FIELDS.index("bstar"), "d")
    if tag != 0.0: return 1
    has = ex.load(o.st, o.s + 32, 64)
    if x[3] is None: return bnot(w) if has == 0 else 1
    if x[4] is None: return bnot(w)
    if has != 1: return 1
    nm = text.string(ex, o.st, ex.load(o.st, o.s + 16, 64), ex.load(o.st, o.s + 24, 64))
    e = t.bs[x[4][0]:x[4][1]]
    if len(nm) != len(e): return 1
    return bnot(band(w, conj([icmp("eq", p, q, 8) for p, q in zip(nm, e)])))
E1, E2 = ("v", 1), ("v", 1)
def c05_texts(thorough):
    out = []
    def mk(tag, lines, end="\n", last=True):
        t = Text()
        for i, (k, p) in enumerate(lines): t.add(k, p, end if last or i + 1 < len(lines) else "")
        out.append((tag, t))
    el = [("v", 1), b" 25544", ("v", 1)]
    nm = lambda n: [("s", n)]
    for end in ("\n", "\r\n"):
        for last in (True, False):
            x = "%s%s" % ("CRLF" if len(end) > 1 else "LF", "" if last else ", no final line end")
            mk("two lines, " + x, [("1", el), ("2", el)], end, last)
            mk("name and two lines, " + x, [("n", nm(4)), ("1", el), ("2", el)], end, last)
    mk("long name", [("n", nm(7)), ("1", el), ("2", el)])
    mk("name of 25 characters", [("n", [("v", 2), b"ABCDEFGHIJKLMNOPQRSTU", ("s", 2)]), ("1", el), ("2", el)])
    mk("name of 69 characters", [("n", [("s", 2), b"X" * 65, ("s", 2)]), ("1", el), ("2", el)])
    mk("accented name", [("n", [("s", 2), "ÑÁ é".encode(), ("s", 2)]), ("1", el), ("2", el)])
    for m in (2, 3, 4):
        mk("name starting with a %d-byte character" % m, [("n", [("u", m), b"AB"]), ("1", el), ("2", el)])
        mk("name ending with a %d-byte character" % m, [("n", [b"0 AB", ("u", m)]), ("1", el), ("2", el)])
    for k in range(4):
        b = ("b", [("w", 2)]); e = ("b", [b""])
        L = [("n", nm(2)), ("1", el), ("2", el)]
        mk("blank lines %d" % k, L[:k] + [b, e] + L[k:], "\n", k % 2 == 0)
        L = [("1", el), ("2", el)]
        if k < 3: mk("blank lines between two lines %d" % k, [e] + L[:k] + [b] + L[k:], "\r\n", k % 2 == 1)
    mk("no text", [("b", [b""])], "", False); mk("only blanks", [("b", [("w", 2)]), ("b", [("w", 1)])])
    mk("one line", [("1", el)]); mk("four lines", [("n", nm(1)), ("1", el), ("2", el), ("x", [("s", 1)])]); mk("five lines", [("1", el)] * 5)
    mk("six lines", [("n", nm(1)), ("1", el), ("2", el)] * 2)
    def free(n):
        t = Text(); t.bs = [var("t.%d" % i, 8, (9, 126)) for i in range(n)]
        # control characters other than white space are left out
        t.pre = [bnot(text.between(b, 14, 31)) for b in t.bs]
        out.append(("any text of %d characters" % n, t))
    for n in range(1, 9 if thorough else 7): free(n)
    return out
def C05(ctx):
    undone = jobs_undone(ctx, [("parse: " + tag, t) for tag, t in c05_texts(ctx.thorough())][::-1],
        lambda ctx, tag, t: line_run(ctx, tag, t, "h_parse", c05_expect, c05_judge, single_bad, 400 if ctx.thorough() else 60))
    if undone is None: return
    if undone:
        v = single_search(ctx)
        if v: ctx.bad("parse", *v)
        else:
            for x in undone: ctx.open(x, "not decided by the solver; no concrete difference found")
    ctx.bounds["texts"] = "every text of 1 to %d ASCII characters (control characters other than white space left out), and listed line layouts of up to six lines with symbolic contents" % (8 if ctx.thorough() else 6)
    ctx.assume += ["twoline2satrec cut at its interface: any record or error for a pair of lines starting with 1 and 2 (C02, C03 decide it)", "line text handed on is compared up to trailing blanks"]
    for x in (b"0 ISS\n" + L1 + b"\n" + L2, L2 + b"\n" + L1): 
        g = nat_one(ctx.env, x); ctx.samples.append({"text": x[:20], "native": str(g.get("name", g.get("err")))})
NAMES = [b"ISS", b"0 ISS (ZARYA)", b"0", b"0ABC", b"00 X", b"X" * 25, b"0 " + b"Y" * 23, b" " * 3 + b"PAD  ", "Ñandú 7".encode(), b"1 FOO", b"2 BAR", b"A" * 69, b"0  SPACED OUT ", b"0 0 X", b"-"]
def single_search(ctx):
    rs = random.Random(3); t0 = time.time()
    for j in range(3000):
        ls = []
        n = rs.choice([1, 2, 2, 2, 3, 3, 3, 3, 4, 5])
        pool = {1: [L1], 2: [L1, L2], 3: [rs.choice(NAMES), L1, L2], 4: [rs.choice(NAMES), L1, L2, L1], 5: [L1, L2, L1, L2, L1]}[n]
        if rs.random() < 0.3: rs.shuffle(pool)
        for l in pool:
            while rs.random() < 0.2: ls.append(rs.choice([b"", b"  ", b"\t", b"\r"]))
            if rs.random() < 0.08: l = rs.choice([b"3", b"x", b" "]) + l[1:]
            ls.append(l)
        while rs.random() < 0.3: ls.append(b"")
        x = rs.choice([b"\n", b"\r\n"]).join(ls)
        v = single_bad1(ctx, x)
        if v: return v
        if time.time() - t0 > 60 or ctx.left() < 15: break
    return None

# ------------------------------------------------------------------- C04
def run_multi(ex, bs, K=12):
    """[outcome] of a batch: records (name or None, tag) and errors"""
    st = sym.State(); p, n = text.put(ex, st, bs)
    cnt = ex.new(st, 16); s = ex.new(st, 48 * K); b = ex.new(st, 8 * K); e = ex.new(st, 72 * K)
    outs = []
    for s1, _ in ex.call("@h_multi", [p, n, cnt, s, b, e], st):
        o = text.Out(); o.st = s1; o.pc = s1.pc; o.ex = ex
        nr, ne = ex.load(s1, cnt, 64), ex.load(s1, cnt + 8, 64)
        if type(nr) is T or type(ne) is T: raise sym.Unsupported("symbolic number of outcomes")
        o.recs = []
        for i in range(nr):
            q = s + 48 * i
            h = ex.load(s1, q + 32, 64)
            if type(h) is T: raise sym.Unsupported("symbolic presence of a name")
            o.recs.append((text.string(ex, s1, ex.load(s1, q + 16, 64), ex.load(s1, q + 24, 64)) if h else None, ex.load(s1, b + 8 * i, "d")))
        o.errs = [dict(variant=ex.load(s1, e + 72 * i, 64), nested=ex.load(s1, e + 72 * i + 56, 64), index=ex.load(s1, e + 72 * i + 64, 64)) for i in range(ne)]
        outs.append(o)
    return outs
class Batch(Text):
    """entries: (first line's index among the non-blank lines, name extent or None, (line, line) or None if incomplete)"""
    def __init__(self): Text.__init__(self); self.entries = []; self.k = 0
    def line(self, kind, parts, end="\n"):
        self.add(kind, parts, end); self.k += 1
        return self.lines[-1][1:]
    def entry(self, name, end="\n", l1=(b"1 25", ("v", 1)), l2=(b"2 25", ("v", 1)), between=()):
        i = self.k
        nm = self.line("n", name, end) if name is not None else None
        for x in between: self.add("b", x, end)
        a = self.line("1", l1, end); b = self.line("2", l2, end)
        self.entries.append((i, nm, (a, b)))
    def tail(self, parts, end="\n"):
        """trailing incomplete entry of one or two lines"""
        i = self.k
        for p in parts: self.line("t", p, end)
        self.entries.append((i, None, None))
def c04_expect(t, cb):
    c = []; x = []
    for i, nm, ls in t.entries:
        e = None
        if nm:
            # names are not blank, do not start with white space and are not themselves an element line of the batch
            c2, e = name_of(t.bs, cb, *nm); c.append(c2)
        x.append((i, nm, ls, e))
    return conj(c), x
def c04_judge(ex, o, t, x):
    calls = list(o.st.info or ()); bad = []
    recs, errs = list(o.recs), list(o.errs)
    good = {k: g for k, (a, b, g) in enumerate(calls)}
    k = 0; ri = ei = 0
    for i, nm, ls, e in x:
        if ls is None:      # exactly one error, wherever it comes from
            while k < len(calls) and not any(a2 == 1 for a2 in ()):
                k += 1
            if ei >= len(errs) or errs[ei]["variant"] != 7 or errs[ei]["index"] != i: return 1
            ei += 1; continue
        if k >= len(calls): return 1
        a, b, g = calls[k]
        bad.append(bnot(band(same(a, t.bs[ls[0][0]:ls[0][1]]), same(b, t.bs[ls[1][0]:ls[1][1]]))))
        if g:
            if ri >= len(recs): return 1
            n, tag = recs[ri]; ri += 1
            if tag != float(k): return 1
            if nm is None:
                if n is not None: return 1
            elif e is not None:
                if n is None or len(n) != e[1] - e[0]: return 1
                bad.append(bnot(conj([icmp("eq", p, q, 8) for p, q in zip(n, t.bs[e[0]:e[1]])])))
        else:
            if ei >= len(errs) or errs[ei]["variant"] != 7 or errs[ei]["index"] != i or errs[ei]["nested"] != 4: return 1
            ei += 1
        k += 1
    if ri != len(recs) or ei != len(errs): return 1
    return disj(bad) if bad else 0
def batch_bad(t):
    """native replay of a batch: each element line filled in, as a good or as a bad set, in every combination tried"""
    def go(ctx, cb):
        n = sum(1 for e in t.entries if e[2])
        if getattr(t, "fixed", None): masks = [sum(1 << j for j, g in enumerate(t.fixed) if g != 0)]
        else: masks = range(1 << n) if n <= 3 else (0, (1 << n) - 1, 1, 1 << (n - 1), 5)
        for mask in masks:
            for bad in (bad_decay, bad_field, bad_raw):
                for twin in (False, True):
                    v = batch_bad1(ctx, fill(t, cb, mask, bad, twin))
                    if v: return v
                if mask == (1 << n) - 1: break
        return None
    return go
def bad_field(a, b): return a, b[:8] + b"  x1.644" + b[16:]
def bad_decay(a, b): return a, b[:26] + b"9999999" + b[33:]
def bad_raw(a, b): return None
def bad_cut(a, b): return a[:9], b
def fill(t, cb, mask, bad, twin=False):
    """[(name line or None, line 1, line 2) or (lines,)] and the text"""
    out = b""; last = 0; sp = []; j = 0
    ents = []
    for i, nm, ls in t.entries:
        if ls:
            a, b = L1, L2
            if not twin: a = a[:2] + b"%05d" % (10000 + j) + a[7:]
            if not mask >> j & 1:
                x = bad(a, b)
                if x is None:       # the lines of the text itself
                    a, b = (bytes(strip(cb[p:q])) for p, q in ls)
                else: a, b = x
            cr = b"\r" if bytes(cb[ls[0][0]:ls[0][1]]).endswith(b"\r") else b""
            sp += [(ls[0], a + cr), (ls[1], b + cr)]; j += 1
            ents.append((i, bytes(cb[nm[0]:nm[1]]) if nm else None, a, b))
        else: ents.append((i, None, None, None))
    cb = bytes(cb)
    for (s, e), x in sp: out += cb[last:s] + x; last = e
    return out + cb[last:], ents
def batch_bad1(ctx, te):
    bs, ents = te
    K = len(ents) + 4
    r = ctx.env.native.call("h_multi", ("b", bs), len(bs), ("q", [0, 0]), ("q", [0] * 6 * 3 * K), ("d", [0.0] * 3 * K), ("q", [0] * 9 * 3 * K))
    inp = {"text": bs.decode("utf8", "replace")}
    if type(r) is tuple: return inp, r, "a record or an error for each entry"
    s = r[-1]; cnt = r[1]
    recs, errs, ids = [], [], []
    for i, nm, a, b in ents:
        if a is None: errs.append((i, None)); continue
        w = nat_two(ctx.env, "h_twoline", a, b)
        if type(w) is tuple: return None
        if "err" in w: errs.append((i, w["err"]["variant"]))
        else:
            if nm is None: recs.append((None, w["bstar"], w["satnum"]))
            else:
                c, e = name_of(list(nm), list(nm), 0, len(nm))
                recs.append((nm[e[0]:e[1]] if e else Ellipsis, w["bstar"], w["satnum"]))
    got = {"names": s["names"], "errors": [(e["index"], e["nested"]) for e in s["errs"]]}
    want = {"names": [x[0] for x in recs], "errors": errs}
    ok = cnt[0] == len(recs) and cnt[1] == len(errs) and all(w is Ellipsis or g == w for g, w in zip(s["names"], want["names"]))
    ok = ok and s.get("satnums", [x[2] for x in recs]) == [x[2] for x in recs]
    ok = ok and all(e["variant"] == 7 and e["index"] == i and (v is None or e["nested"] == v) for e, (i, v) in zip(s["errs"], errs))
    return None if ok else (inp, got, want)
def c04_texts(thorough):
    out = []
    SN = {0: [("s", 2)], 1: [("s", 3)], 2: [("s", 4)]}
    FIX = [[b"0 SAT A"], [b"B-2 DEB "], [b"0 1 X"], [b"X" * 25]]
    def mk(tag, seq, sy, tail=None, end="\n", last=True, blanks=0, w=2):
        t = Batch()
        if blanks & 1: t.add("b", [("w", 1)], end); t.add("b", [b""], end)
        for j, named in enumerate(seq):
            t.entry((SN[w] if j == sy else FIX[j % 4]) if named else None, end, between=[[("w", 2)]] if blanks & 2 else ())
            if blanks & 4: t.add("b", [b""], end); t.add("b", [("w", 1), b" "], end)
        if tail is not None: t.tail(tail, end)
        if not last:
            while t.bs and t.bs[-1] in (10, 13): t.bs.pop()
        out.append((tag, t))
    el1 = [b"1 25", ("v", 1)]
    tails = [None, [[("s", 2)]], [el1], [[b"0 ", ("v", 2)], el1], [[("s", 1), b"AT"], el1]]
    n = 0
    for ln in (1, 2, 3, 4):
        for q in range(1 << ln):
            seq = [q >> j & 1 for j in range(ln)]
            for ti, tl in enumerate(tails):
                n += 1
                if ln == 4 and ti and not thorough and (q + ti) % 3: continue
                sy = [j for j in range(ln) if seq[j]]
                sy = sy[n % len(sy)] if sy else -1
                w = (2 if ln == 1 else 1) if thorough or ln < 4 else 0
                mk("sets %s%s" % (" ".join("named" if x else "unnamed" for x in seq), "" if tl is None else ", incomplete end %d" % ti), seq, sy if not (ti and ln == 3) and (ln < 4 or not ti) else -1,
                   tl, "\r\n" if n % 3 == 0 else "\n", n % 2 == 0, n % 8 if ln < 3 else 0, w)
    for k in range(3):
        for m in (2, 3, 4)[k:k + 1] if not thorough else (2, 3, 4):
            for q, nm in enumerate(([("u", m), b"AB"], [b"AB", ("u", m)], [b"0 ", ("u", m), b" ", ("u", m)])):
                if q != k and not thorough: continue
                t = Batch(); t.entry(None); t.entry(nm); t.entry([b"NEXT"]); out.append(("name with a %d-byte character %d" % (m, q + 1) + ("" if k == 0 else ", %d" % k), t))
    for tag, fx, sh in (("good", lambda j: 1, 0), ("failing", lambda j: 0, 1), ("mixed", lambda j: j * 7 % 3 > 0, 2)):
        N = 130; t = Batch()
        for j in range(N): t.entry([b"SAT %d" % j] if (j + sh) % 3 else None, l1=(b"1 25544",), l2=(b"2 25544",))
        t.tail([[b"0 END"], [b"1 25544"]]); t.fixed = [None if j in (100,) else int(fx(j)) for j in range(N)]
        out.append(("%d sets, %s" % (N, tag), t))
    for tag, nm in (("25 characters", [("v", 1), b"ABCDEFGHIJKLMNOPQRSTUV", ("s", 2)]), ("69 characters", [("v", 1), b"X" * 66, ("s", 2)]), ("accents", [("v", 2), "ÑÁ é".encode(), ("s", 1)]),
                    ("marker and long name", [b"0 ", ("s", 2), b"LONGER NAME OF SATELLITE", ("s", 1)]), ("six characters", [("s", 6)])):
        for f in (0, 1):
            t = Batch()
            if f: t.entry(None)
            t.entry(nm); t.entry(None if f else [b"NEXT"])
            out.append(("name of %s%s" % (tag, ", second" if f else ""), t))
    for q in range(32): mk("five sets %d" % q, [q >> j & 1 for j in range(5)], -1, tails[q % 5], last=q % 2 == 0)
    for q in range(64) if thorough else (0, 63, 21, 42, 38, 51): mk("six sets %d" % q, [q >> j & 1 for j in range(6)], -1, tails[q // 2 % 5] if thorough else None, "\r\n" if q % 3 == 0 else "\n")
    if thorough:
        for q in (0, 255, 85, 170, 204, 240, 15, 1, 128, 77): mk("eight sets %d" % q, [q >> j & 1 for j in range(8)], -1, None)
    t = Batch(); t.add("b", [b""]); t.add("b", [("w", 2)]); out.append(("no entries", t))
    t = Batch(); t.tail([[("v", 1), ("s", 2)]]); out.append(("a single line", t))
    return out
def c04_pre(t):
    """scope of the property: name lines are not blank and a name line is not the start of a 1/2 pair"""
    for i, nm, ls in t.entries:
        if nm and any(type(b) is T for b in t.bs[nm[0]:nm[1]]):
            t.pre.append(bnot(conj([text.inset(b, WSB) for b in t.bs[nm[0]:nm[1]]])))
    ends = [e for e in t.entries if e[2] is None]
    for k, a, b in t.lines:
        if k == "t" and any(type(x) is T for x in t.bs[a:b]): t.pre.append(bnot(conj([text.inset(x, WSB) for x in t.bs[a:b]])))
def C04(ctx):
    def one(ctx, tag, t):
        c04_pre(t)
        return line_run(ctx, tag, t, "h_multi", c04_expect, c04_judge, batch_bad(t), 60)
    undone = jobs_undone(ctx, [("batch: " + tag, t) for tag, t in c04_texts(ctx.thorough())][::-1], one)
    if undone is None: return
    if undone:
        v = batch_search(ctx)
        if v: ctx.bad("batch", *v)
        else:
            for x in undone: ctx.open(x, "not decided by the solver; no concrete difference found")
    ctx.bounds["texts"] = "every sequence of up to %s named and unnamed sets, with and without a trailing incomplete entry of one or two lines, blank lines of arbitrary white space, LF and CRLF; name bytes (of one name at a time) and the outcome of every set symbolic" % ("6 (and ten of 8)" if ctx.thorough() else "5 (and six of 6)")
    ctx.assume += ["element lines carry their line numbers ('1 ', '2 '); a line is a name otherwise", "twoline2satrec cut at its interface: any record or error for a pair of lines starting with 1 and 2, an error for any other pair (C02, C03 decide it)",
                   "a name with blanks before the marker, or empty after it, is left unspecified"]
    rs = random.Random(2); te = rand_batch(rs)
    r = ctx.env.native.call("h_multi", ("b", te[0]), len(te[0]), ("q", [0, 0]), ("q", [0] * 600), ("d", [0.0] * 100), ("q", [0] * 900))
    ctx.samples.append({"entries": [str(e[:2]) for e in te[1]], "native": r[1], "names": [str(x) for x in r[-1]["names"]]})
def rand_batch(rs):
    t = Batch(); end = rs.choice(["\n", "\r\n"])
    for j in range(rs.choice([1, 2, 2, 3, 4, 6]) if rs.random() < 0.98 else 130):
        while rs.random() < 0.2: t.add("b", [rs.choice([b"", b"  ", b"\t"])], end)
        nm = rs.choice(NAMES) if rs.random() < 0.6 else None
        if nm is not None and blank(nm): nm = b"Q"
        t.entry([nm] if nm is not None else None, end, (b"1 x",), (b"2 x",), [[b" "]] if rs.random() < 0.1 else ())
    if rs.random() < 0.3: t.tail(rs.choice([[[b"0 TAIL"]], [[L1]], [[b"TAIL"], [L1]], [[b"0 T"], [L1]]]), end)
    n = sum(1 for e in t.entries if e[2])
    mask = rs.getrandbits(n) | (rs.getrandbits(n) if rs.random() < 0.5 else 0)
    return fill(t, t.bs, mask if rs.random() < 0.8 else 0, rs.choice([bad_field, bad_decay, bad_raw, bad_cut]), rs.random() < 0.3)
def batch_search(ctx):
    rs = random.Random(12); t0 = time.time()
    for j in range(2500):
        v = batch_bad1(ctx, rand_batch(rs))
        if v: return v
        if time.time() - t0 > 60 or ctx.left() < 15: break
    return None
