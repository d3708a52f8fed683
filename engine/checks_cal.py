"""Checks of the calendar properties (C06, C07, C08 and the date-time part of C09)."""
import math, re, time, datetime
import numpy as np, z3
from fractions import Fraction as Q
from term import *
import runs, sym, smt, conf, ref, lira
from lira import Lira
from fields import FIELDS
from nprop import *

REALS = "doubles as reals (no rounding) in the calendar arithmetic"
TOL = Q(1, 10**9)                       # days: about twice the spacing of doubles at today's Julian dates
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
def cum(M, leap):
    """days before month M (z3 Int)"""
    e = z3.IntVal(0); s = 0
    for i in range(1, 12):
        s += LEN[i - 1]
        e = z3.If(M > i, z3.IntVal(s) + (z3.If(leap, 1, 0) if i >= 2 else 0), e)
    return e
def mlen(M, leap):
    e = z3.IntVal(31)
    for i in range(12): e = z3.If(M == i + 1, z3.IntVal(LEN[i]) + (z3.If(leap, 1, 0) if i == 1 else 0), e)
    return e
def jd_day(Y, M, D):
    """Julian date of 0h on a civil date, 1901..2099"""
    return z3.ToReal(365 * (Y - 1901) + (Y - 1901) / 4 + cum(M, Y % 4 == 0) + D - 1) + z3.Q(4830771, 2)
def jd_py(Y, M, D, h=0, mi=0, s=0, frac=0):
    d = datetime.date(int(Y), int(M), int(D)).toordinal() - datetime.date(1901, 1, 1).toordinal()
    return Q(4830771, 2) + d + (Q(h) + (Q(mi) + (Q(s) + Q(frac)) / 60) / 60) / 24
class Civil:
    """a civil date and time as integer unknowns"""
    def __init__(self):
        for n in "Y M D h m s ns".split(): setattr(self, n, z3.Int("dt_" + n))
        lp = self.Y % 4 == 0
        self.dom = [self.Y >= 1901, self.Y <= 2099, self.M >= 1, self.M <= 12, self.D >= 1, self.D <= mlen(self.M, lp),
                    self.h >= 0, self.h <= 23, self.m >= 0, self.m <= 59, self.s >= 0, self.s <= 59, self.ns >= 0, self.ns <= 999999999]
        self.jd = jd_day(self.Y, self.M, self.D) + (z3.ToReal(self.h * 3600 + self.m * 60 + self.s) + z3.ToReal(self.ns) / 1000000000) / 86400
    def give(self, L):
        fl = z3.Int("dt_flags")
        for n in "Y M D h m s ns".split(): L.give("dt." + n, getattr(self, n))
        o = cum(self.M, self.Y % 4 == 0) + self.D
        L.give("dt.yof", self.Y * 8192 + o * 16 + fl); L.side += [fl >= 0, fl <= 15]
        L.give("dt.secs", self.h * 3600 + self.m * 60 + self.s); L.give("dt.frac", self.ns)
    def values(self, m): return [lira.num(m, getattr(self, n)) for n in "Y M D h m s ns".split()]
RNG = {"Y": (1901, 2099), "M": (1, 12), "D": (1, 31), "h": (0, 23), "m": (0, 59), "s": (0, 59), "ns": (0, 999999999),
       "yof": (1901 << 13, (2100 << 13) - 1), "secs": (0, 86399), "frac": (0, 999999999)}
def dv(n): return var("dt." + n, 32, RNG[n])
def layout(env):
    """offsets of (yof, secs, frac) in a DateTime<Utc>, read off two concrete values"""
    r = env.native.call("mk_date", ("q", [2001, 2, 3, 1, 2, 3, 777]), ("q", [0, 0]))
    import struct
    w = struct.unpack("<4i", struct.pack("<2q", *r[1]))
    off = {}
    for i, x in enumerate(w[:3]):
        if x == 3723: off["secs"] = 4 * i
        elif x == 777: off["frac"] = 4 * i
        elif x >> 13 == 2001: off["yof"] = 4 * i
    if len(off) != 3: raise sym.Unsupported("layout of DateTime")
    return off
def dates(ex, env):
    """symbolic date: mk_date writes it, the field accessors of chrono read it"""
    off = layout(env)
    def mk(ex, st, a, rt):
        for k, o in off.items(): ex.store(st, a[1] + o, 32, dv(k))
        return None
    t0 = min(off["secs"], off["frac"])
    def acc(field, base):
        def h(ex, st, a, rt):
            kind = "yof" if field in "YMD" else "frac" if field == "ns" else "secs"
            p = a[0]
            v = ex.load(st, ibin("add", p, {"DateTime": off, "NaiveDateTime": off, "NaiveDate": {"yof": 0}, "NaiveTime": {k: off[k] - t0 for k in ("secs", "frac")}}[base][kind], 64), 32)
            if v is not dv(kind): raise sym.Unsupported("field of a derived date")
            return dv(field)
        return h
    ex.intercepts.append((r"^mk_date$|^@mk_date$", mk))
    for nm, f in (("year", "Y"), ("month", "M"), ("day", "D"), ("hour", "h"), ("minute", "m"), ("second", "s"), ("nanosecond", "ns")):
        tr = "Datelike" if f in "YMD" else "Timelike"
        for base in ("DateTime", "NaiveDateTime", "NaiveDate", "NaiveTime"):
            ex.intercepts.append((r"^<chrono::(\w+::)*%s(<.*>)? as chrono::traits::%s>::%s$" % (base, tr, nm), acc(f, base)))

def solve(ctx, name, conds, neg, replay, kind="calendar", timeout=60000, tries=6, block=None):
    """unsat of conds & neg: holds.  sat: the model is replayed; replay(model) returns None or (input, got, want)."""
    s = z3.Solver(); s.set("timeout", timeout)
    for c in conds: s.add(c)
    s.add(neg)
    for k in range(tries):
        r = smt.check(s, kind)
        if r == "unsat":
            if k == 0: ctx.ok(name); return True
            break
        if r != "sat": break
        m = s.model()
        v = replay(m)
        if v: ctx.bad(name, *v); return None
        if block is None: break
        s.add(block(m))
    return False
def vacz(ctx, what, cs):
    s = z3.Solver(); s.set("timeout", 20000)
    for c in cs: s.add(c)
    q = smt.check(s, "vacuity"); ctx.witness.append({"what": what, "answer": q})
    if q == "unsat": ctx.open("vacuity: " + what, "assumptions are contradictory")
ERR = (sym.Unsupported, KeyError, TypeError, AttributeError, IndexError, SyntaxError, RecursionError, conf.Blowup)

# ------------------------------------------------------------------- C07
def rdate(rs):
    o = datetime.date(1901, 1, 1).toordinal()
    d = datetime.date.fromordinal(o + rs.randint(0, datetime.date(2099, 12, 31).toordinal() - o + 1))
    return [d.year, d.month, d.day, rs.randint(0, 24), rs.randint(0, 60), rs.randint(0, 60), rs.randint(0, 10**9)]
def edge_dates():
    out = []
    for Y in list(range(1901, 2100, 7)) + [1904, 1956, 1957, 1999, 2000, 2001, 2004, 2056, 2057, 2096, 2099]:
        for M in range(1, 13):
            n = (datetime.date(Y + M // 12, M % 12 + 1, 1) - datetime.date(Y, M, 1)).days if (Y, M) != (2099, 12) else 31
            for D in (1, 2, 15, n - 1, n): out.append([Y, M, D])
    return out
def jd_cases(rs, n):
    out = [d + [rs.randint(0, 24), rs.randint(0, 60), rs.randint(0, 60), rs.randint(0, 10**9)] for d in edge_dates()]
    out += [d[:3] + [23, 59, 59, 999999999] for d in out[:400]] + [d[:3] + [0, 0, 0, 0] for d in out[:400]]
    out += [rdate(rs) for _ in range(n)]
    for d in [rdate(rs) for _ in range(n // 8)]:          # one after another, differing in one or two fields
        out.append(d)
        for _ in range(3): d = vary(rs, d); out.append(d)
    return out
def vary(rs, d):
    d = list(d); e = rdate(rs)
    for k in rs.choice(7, rs.randint(1, 3), replace=False): d[k] = min(e[k], 28) if k == 2 else e[k]
    d[2] = min(d[2], 28)
    return d
def jday_native(ctx, fn, d):
    if fn == "h_jday": return ctx.env.native.call(fn, ("d", [float(x) for x in d[:6]] + [d[6] / 1e6]), ("d", [0.0]))
    return ctx.env.native.call(fn, ("q", [int(x) for x in d]), ("d", [0.0]))
def jday_bad(ctx, fn, d):
    q = jday_native(ctx, fn, d)
    want = jd_py(*d[:6], Q(d[6], 10**9))
    if type(q) is tuple: return d, q, float(want)
    if not math.isfinite(q[1][0]) or abs(Q(q[1][0]) - want) > Q(2, 10**9): return d, q[1][0], float(want)
    return None
def jday_search(ctx, fn, name):
    cs = jd_cases(np.random.RandomState(5), 6000)
    for d in cs:
        v = jday_bad(ctx, fn, d)
        if v: ctx.bad(name, dict(zip("year month day hour minute second nanosecond".split(), v[0])), v[1], v[2]); return
    ctx.open(name, "not decided by the solver; no concrete difference found")
def C07(ctx):
    # civil date and time -> Julian date
    c = Civil()
    N = "year month day hour minute second".split()
    nm = "jday equals the Julian date of the civil date and time"
    done = False
    try:
        r = runs.run_vec(ctx.env, "h_jday", ["y", "mo", "d", "h", "mi", "s", "ms"], 1); ctx.used(r.ex)
        L = Lira()
        for v, e in zip(["y", "mo", "d"], (c.Y, c.M, c.D)): L.give(v, z3.ToReal(e))
        for v, e in zip(["h", "mi"], (c.h, c.m)): L.give(v, z3.ToReal(e))
        S, MS = z3.Real("sec"), z3.Real("msec")
        L.give("s", S); L.give("ms", MS)
        out = L(r.out[0])
        dom = c.dom + [S >= 0, S < 60, MS >= 0, MS < 1000]
        want = jd_day(c.Y, c.M, c.D) + (z3.ToReal(c.h * 3600 + c.m * 60) + S + MS / 1000) / 86400
        vacz(ctx, "a civil date", dom)
        def rep(m):
            d = c.values(m)[:5]; s, ms = float(lira.num(m, S)), float(lira.num(m, MS))
            q = ctx.env.native.call("h_jday", ("d", [float(x) for x in d] + [s, ms]), ("d", [0.0]))
            w = jd_py(*d, Q(s), Q(ms) / 1000)
            if type(q) is tuple: return dict(zip(N + ["msec"], d + [s, ms])), q, float(w)
            if abs(Q(q[1][0]) - w) > Q(2, 10**9): return dict(zip(N + ["msec"], d + [s, ms])), q[1][0], float(w)
        done = tolerant(ctx, nm, dom + L.side + [L(p, "b") for p in r.pc], out - want, rep)
        if done and r.pc: done = solve(ctx, "jday never panics", dom + L.side, z3.Not(z3.And([L(p, "b") for p in r.pc])), lambda m: None)
    except ERR as e: ctx.notes.append("jday: %s %s" % (type(e).__name__, str(e)[:200]))
    if done is False: jday_search(ctx, "h_jday", nm)
    # date-time value -> Julian date
    nm = "jday_datetime equals the Julian date of the instant"
    done = False
    try:
        r = run_dt(ctx, "h_jday_dt"); L = Lira(); c.give(L)
        out = L(r.out[0]); dom = c.dom
        def rep(m):
            v = jday_bad(ctx, "h_jday_dt", c.values(m))
            return v and (dict(zip(N + ["nanosecond"], v[0])), v[1], v[2])
        done = tolerant(ctx, nm, dom + L.side + [L(p, "b") for p in r.pc], out - c.jd, rep)
        if done and r.pc: done = solve(ctx, "jday_datetime never panics", dom + L.side, z3.Not(z3.And([L(p, "b") for p in r.pc])), lambda m: None)
    except ERR as e: ctx.notes.append("jday_datetime: %s %s" % (type(e).__name__, str(e)[:200]))
    if done is False: jday_search(ctx, "h_jday_dt", nm)
    # day of year -> civil date
    mdhms(ctx)
    ctx.bounds["dates"] = "every date and time 1901-01-01 .. 2099-12-31, to the nanosecond; every day-of-year value as a real number"
    ctx.assume += [REALS, "chrono's accessors return the fields of the civil date (date-time values enter as symbolic fields, no leap seconds)"]
    for d in ([2000, 1, 1, 12, 0, 0, 0], [2099, 12, 31, 23, 59, 59, 999999999]): ctx.samples.append({"input": d, "native": jday_native(ctx, "h_jday_dt", d)})
def tolerant(ctx, name, conds, diff, rep, tol=TOL):
    t = z3.Q(tol.numerator, tol.denominator)
    # far-off values first: their replay is beyond doubt
    a = solve(ctx, name, conds, z3.Or(diff > t, diff < -t), rep, tries=1)
    if a is False:
        b = z3.Q(1, 10**6)
        s = z3.Solver(); s.set("timeout", 30000)
        for c in conds: s.add(c)
        s.add(z3.Or(diff > b, diff < -b))
        if smt.check(s, "calendar") == "sat":
            v = rep(s.model())
            if v: ctx.bad(name, *v); return None
    return a
def run_dt(ctx, fn):
    ex = sym.Ex(ctx.env.mod, merge=True, loop_bound=64)
    dates(ex, ctx.env)
    st = sym.State(); d = ex.new(st, 56); o = ex.new(st, 8)
    outs = ex.call("@" + fn, [d, o], st)
    ctx.used(ex)
    r = runs.Run(); r.ex = ex
    s = runs.outcome(ex, outs); r.out = [ex.load(s, o, "d")]; r.pc = s.pc
    return r
MO = ["month", "day", "hour", "minute", "second"]
def mdhms_bad(ctx, Y, d):
    """native days2mdhms against the calendar -> None or (got, want)"""
    q = ctx.env.native.call("h_days2mdhms", int(Y), float(d), ("d", [0.0] * 5))
    t = Q(d) - 1
    day = datetime.date(Y, 1, 1) + datetime.timedelta(days=int(t // 1))
    f = (t % 1) * 24; h = f // 1; f = (f % 1) * 60; mi = f // 1; s = (f % 1) * 60
    want = [day.month, day.day, int(h), int(mi), float(s)]
    if type(q) is tuple: return q, want
    g = q[0]
    if not all(math.isfinite(x) for x in g): return g, want
    ok = all(x == math.floor(x) for x in g[:4]) and 0 <= g[2] <= 23 and 0 <= g[3] <= 59 and 0 <= g[4] < 60 and 1 <= g[0] <= 12
    if ok:
        try: v = jd_py(Y, g[0], g[1], g[2], g[3], Q(g[4]))
        except ValueError: ok = False
        else: ok = abs(v - jd_py(Y, 1, 1) - t) <= Q(1, 10**9) / 10
    return None if ok else (g, want)
def mdhms_search(ctx, name):
    rs = np.random.RandomState(8)
    for Y in list(range(1901, 2100)):
        n = 366 if Y % 4 == 0 else 365
        ds = list(rs.uniform(1, n + 1, 12))
        if Y in (1901, 1904, 1957, 1999, 2000, 2001, 2003, 2004, 2019, 2020, 2056, 2057, 2099) :
            ds += [float(k) for k in range(1, n + 1)] + [k + 0.99999999 for k in range(1, n + 1)] + [k + j / 1440 for k in (1, 59, 60, 61, 366 if n == 366 else 365) for j in range(0, 1440, 7)]
        for d in ds:
            v = mdhms_bad(ctx, Y, d)
            if v: ctx.bad(name, {"year": Y, "day of year": d}, *v); return
    ctx.open(name, "not decided by the solver; no concrete difference found")
def mdhms(ctx):
    nm = "days2mdhms gives the civil date and time of the instant"
    done = False
    try:
        ex = sym.Ex(ctx.env.mod, merge=True, loop_bound=64)
        st = sym.State(); o = ex.new(st, 40)
        outs = ex.call("@h_days2mdhms", [var("year", 64, (1901, 2099)), var("days", "f"), o], st)
        ctx.used(ex)
        s = runs.outcome(ex, outs)
        L = Lira()
        mo, da, h, mi, se = [L(ex.load(s, o + 8 * i, "d")) for i in range(5)]
        Y, d = L(var("year", 64, (1901, 2099)), 64), L(var("days", "f"))
        leap = Y % 4 == 0
        dom = [d >= 1, d < z3.If(leap, 367, 366)] + L.side
        pc = [L(p, "b") for p in s.pc]
        vacz(ctx, "a day of year", dom + pc)
        def rep(m):
            y, x = lira.num(m, Y), float(lira.num(m, d))
            if not 1 <= x < (367 if y % 4 == 0 else 366): return None
            v = mdhms_bad(ctx, y, x)
            return v and ({"year": y, "day of year": x},) + v
        I, K = z3.ToInt(mo), z3.ToInt(da)
        bl = lambda m: z3.ToInt(d) != z3.ToInt(m.eval(d, model_completion=True))
        parts = [("no panic, loops end", z3.Not(z3.And(pc)) if pc else z3.BoolVal(False), []),
                 ("components are whole numbers in range", z3.Or(mo != z3.ToReal(I), I < 1, I > 12, da != z3.ToReal(K), K < 1, K > mlen(I, leap), h != z3.ToReal(z3.ToInt(h)), h < 0, h > 23,
                        mi != z3.ToReal(z3.ToInt(mi)), mi < 0, mi > 59, se < 0, se >= 60), pc),
                 ("instant", z3.Or(z3.ToReal(cum(I, leap) + K) + (h + (mi + se / 60) / 60) / 24 - d > z3.Q(1, 10**11), z3.ToReal(cum(I, leap) + K) + (h + (mi + se / 60) / 60) / 24 - d < z3.Q(-1, 10**11)), pc)]
        done = True
        for n, neg, pre in parts:
            a = solve(ctx, "%s: %s" % (nm, n), dom + pre, neg, rep, block=bl)
            if a is None: done = None; break
            if a is False: done = False
    except ERR as e: ctx.notes.append("days2mdhms: %s %s" % (type(e).__name__, str(e)[:200]))
    if done is False: mdhms_search(ctx, nm)

# ------------------------------------------------------------------- C08
def propdt_run(ctx):
    ex = sym.Ex(ctx.env.mod, merge=True, loop_bound=64)
    ex.bounds = [("stub_", 200)]
    dates(ex, ctx.env)
    st = sym.State()
    f = ex.new(st, 8 * runs.NF); k = ex.new(st, 48); o = ex.new(st, 48); c = ex.new(st, 16); d = ex.new(st, 56)
    for i, n in enumerate(FIELDS): ex.store(st, f + 8 * i, "d", var(n, "f"))
    kr = {"error": (0, 255), "epochyr": (0, 99), "isimp": (0, 1), "init": (0, 1), "opsmode": (0, 2), "method": (0, 1)}
    for i, n in enumerate(runs.KNAMES): ex.store(st, k + 8 * i, 64, var(n, 64, kr[n]))
    for i in range(6): ex.store(st, o + 8 * i, "d", 0.0)
    oc = var("outcome", 64, (0, 6))
    def orc(ex, st, a, rt):
        ex.events.append((st.pc, [ex.load(st, a[0] + 8 * i, "d") for i in range(runs.NF)], [ex.load(st, a[1] + 8 * i, 64) for i in range(6)], a[2]))
        for i in range(6): ex.store(st, a[3] + 8 * i, "d", var("res%d" % i, "f"))
        return oc
    ex.intercepts.append((r"^satellite::propogation::sgp4::sgp4$", lambda ex, st, a, rt: ex.dispatch(st, "@stub_sgp4", a, rt)))
    ex.intercepts.append((r"oracle_sgp4", orc))
    outs = ex.call("@h_propdt", [f, k, d, o, c], st)
    ctx.used(ex)
    s = runs.outcome(ex, outs)
    r = runs.Run(); r.ex = ex; r.pc = s.pc
    r.f = [ex.load(s, f + 8 * i, "d") for i in range(runs.NF)]; r.k = [ex.load(s, k + 8 * i, 64) for i in range(6)]
    r.o = [ex.load(s, o + 8 * i, "d") for i in range(6)]; r.v, r.code = ex.load(s, c, 64), ex.load(s, c + 8, 64)
    r.oc = oc; r.kr = kr
    return r
def C08(ctx):
    c = Civil()
    ok = False
    try:
        r = propdt_run(ctx)
        if len(r.ex.events) != 1: raise sym.Unsupported("%d propagations" % len(r.ex.events))
        pc, F, K, t = r.ex.events[0]
        L = Lira(); c.give(L)
        ep = z3.Real("jdsatepoch")
        dom = c.dom + [ep >= 2430000, ep <= 2490000]
        want = (c.jd - ep) * 1440
        vacz(ctx, "a date and a record", dom + L.side)
        def rep(m): return prop_bad(ctx, c.values(m), float(lira.num(m, ep)))
        ok = tolerant(ctx, "elapsed minutes", dom + [L(p, "b") for p in pc] + L.side, L(t) - want, rep, Q(1, 10**6))
        if ok:
            ok = solve(ctx, "always propagates, no panic", dom + L.side, z3.Not(z3.And([L(p, "b") for p in tuple(pc) + tuple(r.pc)] or [z3.BoolVal(True)])), lambda m: None)
            u = smt.UF()
            def same(nm, l):
                s = z3.Solver(); s.set("timeout", 20000)
                for p in r.pc: s.add(u(p, "b"))
                s.add(u(r.oc, 64) != 5)
                s.add(z3.Or([u(a, so) != u(b, so) for a, b, so in l]))
                q = smt.check(s, "frame")
                if q == "unsat": ctx.ok(nm); return True
                return False
            ok = bool(ok) & same("the propagated record is the caller's", [(a, var(n, "f"), "f") for n, a in zip(FIELDS, F) if n != "t"] + [(a, var(n, 64, r.kr[n]), 64) for n, a in zip(runs.KNAMES, K) if n != "error"])
            ok &= same("the caller's record is unchanged", [(a, var(n, "f"), "f") for n, a in zip(FIELDS, r.f)] + [(a, var(n, 64, r.kr[n]), 64) for n, a in zip(runs.KNAMES, r.k)])
            z0 = icmp("eq", r.oc, 0, 64)
            ok &= same("the outcome is passed through", [(r.v, r.oc, 64), (r.code, r.oc, 64)] + [(a, ite(z0, var("res%d" % i, "f"), 0.0, "f"), "f") for i, a in enumerate(r.o)])
    except ERR as e: ctx.notes.append("propogate_datetime: %s %s" % (type(e).__name__, str(e)[:200]))
    if ok is False: prop_search(ctx)
    ctx.bounds["dates"] = "1901-01-01 .. 2099-12-31 to the nanosecond, any record epoch between JD 2430000 and 2490000"
    ctx.assume += [REALS, "chrono's accessors return the fields of the civil date; the propagator is cut at its interface (its behaviour: C10-C16)"]
    rs = np.random.RandomState(3)
    ctx.samples.append(prop_cmp(ctx, *prop_case(rs))[0])
_recs = []
def records(ctx):
    if not _recs:
        for kind in ("near", "deep"):
            for el in runs.sample_elements(30, kind, 21):
                for m in (0, 1):
                    r = runs.nat_init(ctx.env, el, m)
                    if type(r) is tuple and r[0] == "panic": continue
                    if r[3][0] == 0: _recs.append((r[0], r[1]))
    return _recs
def prop_case(rs): return rdate(rs), None, rs.randint(0, 10**6)
def prop_cmp(ctx, d, ep, i):
    """native propogate_datetime against native propagation by the elapsed minutes"""
    R = records(ctx)
    f, k = R[i % len(R)]; f = list(f); k = list(k)
    d = [int(x) for x in d]
    want = jd_py(*d[:6], Q(d[6], 10**9))
    if ep is None: ep = float(want) + [0.0, 1e-3, -0.37, 3.1, -20.0, 0.00002, 400.0][i % 7]
    f[FIELDS.index("jdsatepoch")] = ep
    t = float((want - Q(ep)) * 1440)
    a = ctx.env.native.call("h_propdt", ("d", f), ("q", k), ("q", [int(x) for x in d]), ("d", [0.0] * 6), ("q", [0, 0]))
    b = ctx.env.native.call("h_sgp4", ("d", f), ("q", k), t, ("d", [0.0] * 6), ("q", [0, 0]))
    inp = {"date": d, "jdsatepoch": ep, "minutes": t, "inclo": f[FIELDS.index("inclo")], "no": f[FIELDS.index("no")], "ecco": f[FIELDS.index("ecco")]}
    if type(b) is tuple: return {"input": inp}, None
    if type(a) is tuple: return {"input": inp}, (inp, a, b[2])
    a = a[:2] + a[3:]                  # without the date
    if a[0] != f or a[1] != k: return {"input": inp}, (inp, "the caller's record changed", "record unchanged")
    bad = None
    near = [ctx.env.native.call("h_sgp4", ("d", f), ("q", k), t + e, ("d", [0.0] * 6), ("q", [0, 0])) for e in (-3e-6, 3e-6)]    # the rounding of a Julian date
    if any(type(x) is tuple or x[3] != b[3] for x in near): pass
    elif a[3] != b[3]: bad = (inp, {"status": a[3]}, {"status": b[3]})
    elif a[3][0] == 0:
        for i in (0, 3):
            p, q = a[2][i:i + 3], b[2][i:i + 3]
            if not math.dist(p, q) <= 2 * max(math.dist(x[2][i:i + 3], q) for x in near) + 1e-6 * math.hypot(*q): bad = (inp, a[2], b[2])
    return {"input": inp, "native": a[2], "status": a[3]}, bad
def prop_bad(ctx, d, ep):
    for i in range(0, len(records(ctx)), 3):
        v = prop_cmp(ctx, d, ep, i)[1]
        if v: return v
    return None
def prop_search(ctx):
    nm = "propagating to a date-time"
    rs = np.random.RandomState(17)
    for j in range(4000):
        if j % 4 < 2: d, ep, i = prop_case(rs)
        elif j % 4 == 2: d = vary(rs, d)
        else: i = rs.randint(0, 10**6)
        if j % 3 == 0: d[6] = rs.choice([0, 999999999, 500000000, 1, 1000000])
        v = prop_cmp(ctx, d, ep, i)[1]
        if v: ctx.bad(nm, *v); return
    ctx.open(nm, "not decided by the solver; no concrete difference found")

# -------------------------------------------------- date-time part of C09
def gst_dt(ctx):
    nm = "sidereal time of a date-time is that of its Julian date"
    c = Civil(); done = False
    try:
        a = run_dt(ctx, "h_gstime_dt"); j = run_dt(ctx, "h_jday_dt")
        g = runs.run_vec(ctx.env, "h_gstime", ["jd"], 1)
        want = term_subst(g.out, {var("jd", "f").id: wrap(j.out[0], "f")})[0]
        u = smt.UF(); s = z3.Solver(); s.set("timeout", 20000)
        s.add(u(a.out[0], "f") != u(want, "f"))
        if smt.check(s, "output-uf") == "unsat":
            L = Lira(); c.give(L)
            def rep(m): return gst_bad(ctx, c.values(m))
            done = tolerant(ctx, nm, c.dom + L.side + [L(p, "b") for p in a.pc], L(j.out[0]) - c.jd, rep)
    except ERR as e: ctx.notes.append("gstime_datetime: %s %s" % (type(e).__name__, str(e)[:200]))
    if done is False:
        for d in jd_cases(np.random.RandomState(6), 4000):
            v = gst_bad(ctx, d)
            if v: ctx.bad(nm, *v); return
        ctx.open(nm, "not decided by the solver; no concrete difference found")
    ctx.assume += [REALS, "chrono's accessors return the fields of the civil date"]
def term_subst(roots, m):
    import term
    return term.subst(roots, {k: unwrap(v) for k, v in m.items()})
def gst_py(jd):
    T = (jd - Q(2451545)) / 36525
    s = Q("67310.54841") + (Q(876600 * 3600) + Q("8640184.812866")) * T + Q("0.093104") * T * T - Q("6.2e-6") * T ** 3
    return float((s / 240 % 360)) * math.pi / 180
def gst_bad(ctx, d):
    q = ctx.env.native.call("h_gstime_dt", ("q", [int(x) for x in d]), ("d", [0.0]))
    w = gst_py(jd_py(*d[:6], Q(d[6], 10**9)))
    inp = dict(zip("year month day hour minute second nanosecond".split(), d))
    if type(q) is tuple: return inp, q, w
    g = q[1][0]
    if not (0 <= g <= 2 * math.pi) or abs(math.remainder(g - w, 2 * math.pi)) > 1e-7: return inp, g, w
    return None
