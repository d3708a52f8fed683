"""Symbolic execution of text code (fork mode): symbolic bytes, exact decimal
values for parsed numbers, feasibility by z3 over the byte constraints."""
import re, time, z3
from term import *
import sym, smt, runs, llir
from conf import Blowup

WS = (9, 10, 11, 12, 13, 32)
def inset(b, vals):
    """b (8-bit) is one of vals"""
    return disj([icmp("eq", b, v, 8) for v in vals])
def between(b, lo, hi): return band(icmp("ule", lo, b, 8), icmp("ule", b, hi, 8))
def isdig(b): return between(b, 48, 57)
def cls(b):
    """'d' digit, an int for a concrete byte, None if undetermined"""
    lo, hi = rng(b)
    if lo == hi: return lo if not 48 <= lo <= 57 else "d"
    if 48 <= lo and hi <= 57: return "d"
    return None

class Feas:
    """path feasibility, with z3's answers cached"""
    def __init__(self, pre=()):
        self.u = smt.UF(); self.cache = {}; self.s = z3.Solver(); self.s.set("timeout", 5000)
        for p in pre: self.s.add(self.u(p, "b"))
        self.stack = []
    def __call__(self, pc):
        pc = tuple(p for p in pc if type(p) is T or not p)
        if any(type(p) is not T for p in pc): return False
        k = tuple(p.id for p in pc)
        r = self.cache.get(k)
        if r is None:
            n = 0
            while n < len(self.stack) and n < len(k) and self.stack[n] == k[n]: n += 1
            while len(self.stack) > n: self.s.pop(); self.stack.pop()
            for p in pc[n:]:
                self.s.push(); self.s.add(self.u(p, "b")); self.stack.append(p.id)
            r = smt.check(self.s, "path-feasible") != "unsat"
            self.cache[k] = r
        return r

def with_cond(ex, st, c):
    s = ex._assume(st.fork(), c)
    if s is None: return None
    if type(c) is T and not ex.feas(s.pc): return None
    return s

# --------------------------------------------------------------- allocation
def _size(ex, n):
    if type(n) is T: n = rng(n)[1]
    if n > 1 << 20: raise sym.Unsupported("large allocation")
    return n
def alloc(ex, st, a, rt): return ex.new(st, _size(ex, a[0]))
def realloc(ex, st, a, rt):
    p = ex.new(st, _size(ex, a[3]))
    if type(a[1]) is T: raise sym.Unsupported("symbolic reallocation")
    ex.memcpy(st, p, a[0], min(a[1], a[3])); return p

# --------------------------------------------------------------------- trim
def wide_ws(bs, i):
    """[(length, condition)]: a white space character starts at i (valid UTF-8)"""
    r = [(1, inset(bs[i], WS))]
    if i + 1 < len(bs): r.append((2, band(icmp("eq", bs[i], 0xc2, 8), inset(bs[i + 1], (0x85, 0xa0)))))
    if i + 2 < len(bs):
        def seq(a, b, c): return conj([icmp("eq", bs[i], a, 8), icmp("eq", bs[i + 1], b, 8), c])
        r.append((3, disj([seq(0xe1, 0x9a, icmp("eq", bs[i + 2], 0x80, 8)), seq(0xe2, 0x81, icmp("eq", bs[i + 2], 0x9f, 8)), seq(0xe3, 0x80, icmp("eq", bs[i + 2], 0x80, 8)),
                           seq(0xe2, 0x80, bor(between(bs[i + 2], 0x80, 0x8a), inset(bs[i + 2], (0xa8, 0xa9, 0xaf))))])))
    return r
def blank_ext(bs):
    """(P, S): P[i] the first i bytes are white space characters, S[j] those from j on"""
    n = len(bs); W = [wide_ws(bs, i) for i in range(n)]
    P = [1] + [0] * n; S = [0] * n + [1]
    for i in range(n):
        for k, c in W[i]: P[i + k] = bor(P[i + k], band(P[i], c))
    for i in range(n - 1, -1, -1): S[i] = disj([band(c, S[i + k]) for k, c in W[i]])
    return P, S, W
def wide(ex, st, p, bs, start, end):
    """trim of possibly non-ASCII text: one outcome per extent of the white space at its ends"""
    n = len(bs); P, S, W = blank_ext(bs); out = []
    E = [0] * (n + 1)             # a white space character ends at j
    for i in range(n):
        for k, c in W[i]: E[i + k] = bor(E[i + k], c)
    def nows(i): return bnot(disj([c for k, c in W[i]]))
    x = with_cond(ex, st, P[n])
    if x is not None: out.append((x, (p + n if start else p, 0)))
    for i in range(n) if start else (0,):
        a = with_cond(ex, st, band(P[i], nows(i)) if start else bnot(P[n]))
        if a is None: continue
        for j in range(n, i, -1) if end else (n,):
            b = with_cond(ex, a, band(S[j], bnot(E[j])) if end else 1)
            if b is not None: out.append((b, (p + i, j - i)))
    return out
def utf8(bs):
    """the bytes are valid UTF-8"""
    cur = {0: 1}
    cont = [between(b, 0x80, 0xbf) for b in bs]
    for i, b in enumerate(bs):
        nx = {}
        def go(s, c):
            if type(c) is T or c: nx[s] = bor(nx.get(s, 0), c)
        for s, c in cur.items():
            if s == 0:
                go(0, band(c, icmp("ult", b, 0x80, 8))); go(1, band(c, between(b, 0xc2, 0xdf)))
                go(4, band(c, icmp("eq", b, 0xe0, 8))); go(2, band(c, bor(between(b, 0xe1, 0xec), between(b, 0xee, 0xef)))); go(5, band(c, icmp("eq", b, 0xed, 8)))
                go(6, band(c, icmp("eq", b, 0xf0, 8))); go(3, band(c, between(b, 0xf1, 0xf3))); go(7, band(c, icmp("eq", b, 0xf4, 8)))
            elif s < 4: go(s - 1, band(c, cont[i]))
            elif s == 4: go(1, band(c, between(b, 0xa0, 0xbf)))
            elif s == 5: go(1, band(c, between(b, 0x80, 0x9f)))
            elif s == 6: go(2, band(c, between(b, 0x90, 0xbf)))
            else: go(2, band(c, between(b, 0x80, 0x8f)))
        cur = nx
    return cur.get(0, 0)
def trim(start, end):
    def h(ex, st, a, rt):
        p, n = a[0], a[1]
        if type(n) is T or type(p) is T: raise sym.Unsupported("trim of symbolic extent")
        if n == 0: return (p, 0)
        bs = ex.bytes_at(st, p, n)
        if any(rng(b)[1] >= 128 for b in bs): return wide(ex, st, p, bs, start, end)
        ws = [inset(b, WS) for b in bs]
        out = []
        def tail(s, i):
            if not end: out.append((s, (p + i, n - i))); return
            for j in range(n, i, -1):
                if j - 1 == i and start: out.append((s, (p + i, j - i))); return      # first byte is known not to be blank
                x = with_cond(ex, s, bnot(ws[j - 1]))
                if x is not None: out.append((x, (p + i, j - i)))
                s = with_cond(ex, s, ws[j - 1])
                if s is None: return
            out.append((s, (p + i, 0)))
        s = st
        if not start: tail(s.fork(), 0); return out
        for i in range(n):
            x = with_cond(ex, s, bnot(ws[i]))
            if x is not None: tail(x, i)
            s = with_cond(ex, s, ws[i])
            if s is None: return out
        out.append((s, (p + n, 0)))
        return out
    return h

# ------------------------------------------------------------ decimal numbers
def f64_valid(bs):
    """Rust's grammar of f64::from_str over ASCII bytes of known length, and 'is a number' (not inf/nan)"""
    n = len(bs)
    sg = [inset(b, (43, 45)) for b in bs]; dg = [isdig(b) for b in bs]; dot = [icmp("eq", b, 46, 8) for b in bs]; ee = [inset(b, (69, 101)) for b in bs]
    # states: 0 start 1 signed 2 int digits 3 dot without digits 4 fraction (some digit seen) 5 e 6 e sign 7 exponent digits
    cur = {0: 1}
    for i in range(n):
        nx = {}
        def go(s, c):
            if type(c) is T or c: nx[s] = bor(nx.get(s, 0), c)
        for s, c in cur.items():
            if s == 0: go(1, band(c, sg[i]))
            if s in (0, 1): go(2, band(c, dg[i])); go(3, band(c, dot[i]))
            if s == 2: go(2, band(c, dg[i])); go(4, band(c, dot[i])); go(5, band(c, ee[i]))
            if s in (3, 4): go(4, band(c, dg[i]))
            if s == 4: go(5, band(c, ee[i]))
            if s == 5: go(6, band(c, sg[i]))
            if s in (5, 6, 7): go(7, band(c, dg[i]))
        cur = nx
    num = disj([cur.get(s, 0) for s in (2, 4, 7)])
    def word(w, off):
        if n != off + len(w): return 0
        return conj([inset(bs[off + k], (ord(c), ord(c.upper()))) for k, c in enumerate(w)])
    w = 0
    for x in ("nan", "inf", "infinity"):
        w = bor(w, word(x, 0))
        if n: w = bor(w, band(sg[0], word(x, 1)))
    return num, w
def int_valid(bs):
    n = len(bs)
    if n == 0: return 0
    rest = conj([isdig(b) for b in bs[1:]])
    return band(rest, bor(isdig(bs[0]), inset(bs[0], (43, 45)) if n > 1 else 0))
def overflows(bs):
    """a number text (possibly blank padded) that is certainly beyond the range of f64: some non-zero digit, exponent of 400 or more"""
    n = len(bs); out = []
    for i in range(1, n - 3):
        nz = disj([between(b, 49, 57) for b in bs[:i]])
        for sg in (0, 1):
            k = i + 1 + sg
            for j in range(k + 3, n + 1):
                c = [inset(bs[i], (69, 101)), between(bs[k], 52, 57), nz] + [isdig(b) for b in bs[k + 1:j]] + [inset(b, WS) for b in bs[j:]]
                if sg: c.append(icmp("eq", bs[i + 1], 43, 8))
                out.append(conj(c))
    return disj(out) if out else 0
def padded(bs, kind):
    """blank-padded number texts: 'f64' Rust's real grammar, 'plain' sign digits point digits, 'int' sign digits, 'digits'"""
    ws = [inset(b, WS) for b in bs]; sg = [inset(b, (43, 45)) for b in bs]; dg = [isdig(b) for b in bs]
    dot = [icmp("eq", b, 46, 8) for b in bs]; ee = [inset(b, (69, 101)) for b in bs]
    cur = {0: 1}; real = kind in ("f64", "plain")
    for i in range(len(bs)):
        nx = {}
        def go(s, c):
            if type(c) is T or c: nx[s] = bor(nx.get(s, 0), c)
        for s, c in cur.items():
            if s == 0: go(0, band(c, ws[i]))
            if s == 0 and kind != "digits": go(1, band(c, sg[i]))
            if s in (0, 1, 2): go(2, band(c, dg[i]))
            if real:
                if s in (0, 1): go(3, band(c, dot[i]))
                if s == 2: go(4, band(c, dot[i]))
                if s in (3, 4): go(4, band(c, dg[i]))
            if kind == "f64":
                if s in (2, 4): go(5, band(c, ee[i]))
                if s == 5: go(6, band(c, sg[i]))
                if s in (5, 6, 7): go(7, band(c, dg[i]))
            if s in (2, 4, 7, 8): go(8, band(c, ws[i]))
        cur = nx
    return disj([cur.get(s, 0) for s in (2, 4, 7, 8)])
def structure(bs):
    """(neg, int digits, frac digits, exp neg, exp digits) if the class of every byte is determined, else None"""
    c = [cls(b) for b in bs]
    if any(x is None for x in c) or not bs: return None
    s = "".join("d" if x == "d" else chr(x) for x in c)
    m = re.fullmatch(r"([+-]?)(d*)(\.(d*))?([eE]([+-]?)(d+))?", s)
    if not m or not (m.group(2) or m.group(4)): return False
    i = len(m.group(1))
    ip = bs[i:i + len(m.group(2))]; i += len(ip)
    fp = []
    if m.group(3) is not None: fp = bs[i + 1:i + 1 + len(m.group(4))]; i += 1 + len(fp)
    xp = []
    if m.group(5) is not None: xp = bs[len(bs) - len(m.group(7)):]
    return (m.group(1) == "-", ip, fp, m.group(6) == "-", xp)
def dec(st):
    neg, ip, fp, xn, xp = st
    ds = [wrap(b, 8) for b in ip + fp + xp]
    v = mk("dec", tuple(ds), "f", (len(ip), len(fp), xn, len(xp)))
    return fneg(v) if neg else v
def dec_expr(t, a):
    """z3 real of a dec node; a: z3 ints of the byte arguments"""
    ni, nf, xn, nx = t.attr
    m = z3.RealVal(0)
    for k in range(ni): m = m + z3.ToReal(a[k] - 48) * z3.RealVal(10 ** (ni - 1 - k))
    for k in range(nf): m = m + z3.ToReal(a[ni + k] - 48) * z3.Q(1, 10 ** (k + 1))
    if nx == 0: return m
    if nx > 2: raise Blowup()
    e = sum([(a[ni + nf + k] - 48) * 10 ** (nx - 1 - k) for k in range(nx)], z3.IntVal(0))
    r = m
    for x in range(1, 10 ** nx): r = z3.If(e == x, m * (z3.Q(1, 10 ** x) if xn else z3.RealVal(10 ** x)), r)
    return r
class Nums:
    """parsed f64 texts of one run"""
    def __init__(self): self.vals = {}
    def from_str(self, ex, st, a, rt):
        o, p, n = a
        if type(n) is T or type(p) is T: raise sym.Unsupported("number text of symbolic extent")
        bs = ex.bytes_at(st, p, n)
        def ok(s, v):
            ex.store(s, o, 8, 0); ex.store(s, o + 8, "d", v); return s
        def err(s):
            ex.store(s, o, 8, 1); ex.store(s, o + 1, 8, 1 if n else 0); return s
        if not any(type(b) is T for b in bs):
            try: t = bytes(bs).decode()
            except UnicodeDecodeError: return [(err(st.fork()), None)]
            if re.fullmatch(r"[+-]?((\d+\.?\d*|\.\d+)([eE][+-]?\d+)?|inf|infinity|nan)", t, re.I | re.A): return [(ok(st.fork(), float(t)), None)]
            return [(err(st.fork()), None)]
        g = structure(bs)
        if g: return [(ok(st.fork(), dec(g)), None)]
        if g is False:
            w = f64_valid(bs)
            if type(w[1]) is not T and not w[1]: return [(err(st.fork()), None)]
        num, w = f64_valid(bs)
        v = mk("strval", tuple(wrap(b, 8) for b in bs), "f")
        self.vals[v.id] = (num, w)
        out = []
        s = with_cond(ex, st, bor(num, w))
        if s is not None: out.append((ok(s, v), None))
        s = with_cond(ex, st, bnot(bor(num, w)))
        if s is not None: out.append((err(s), None))
        return out
    def finite(self, kind):
        def h(ex, st, a, rt):
            x = a[0]
            if type(x) is float:
                import math
                return int({"is_finite": math.isfinite, "is_nan": math.isnan, "is_infinite": math.isinf}[kind](x))
            while type(x) is T and x.op in ("fneg", "fabs"): x = x.args[0]
            if type(x) is T and x.id in self.vals:
                bs = [unwrap(b) for b in x.args]
                num, w = self.vals[x.id]
                nan = disj([inset(bs[-1], (78, 110)) if len(bs) >= 3 else 0, 0])
                nan = band(w, band(nan, inset(bs[-3], (78, 110)) if len(bs) >= 3 else 0))
                big = self.overflow(x)
                if kind == "is_finite": return band(num, bnot(big))
                if kind == "is_nan": return nan
                return bor(band(w, bnot(nan)), band(num, big))
            return 1 if kind == "is_finite" else 0
        return h
    def overflow(self, x):
        """an exponent of three or more digits may overflow: left open"""
        bs = [unwrap(b) for b in x.args]
        c = disj([conj([inset(bs[i], (69, 101))] + [bor(isdig(b), inset(b, (43, 45))) for b in bs[i + 1:]]) for i in range(1, len(bs) - 3)]) if len(bs) > 4 else 0
        if type(c) is not T and not c: return 0
        return band(c, bor(var("overflow!%d" % x.id, "b"), overflows(bs)))
def libcheck(ex, rx, env): pass

def memchr(rev):
    def h(ex, st, a, rt):
        c, p, n = a
        if type(n) is T or type(p) is T or type(c) is T: raise sym.Unsupported("memchr of symbolic extent")
        out = []; s = st
        for i in (reversed(range(n)) if rev else range(n)):
            e = icmp("eq", ex.load(s, p + i, 8), c, 8)
            x = with_cond(ex, s, e)
            if x is not None: out.append((x, (1, i)))
            s = with_cond(ex, s, bnot(e))
            if s is None: return out
        out.append((s.fork(), (0, 0)))
        return out
    return h

def str_searcher(ex, st, a, rt):
    """StrSearcher::new, with the byte-set prefilter of the search made to admit every byte (it only skips
    positions that cannot match, so the search finds the same matches)"""
    outs = ex.call(ex.cur, a, st)
    if len(a) == 5 and type(a[4]) is not T and 0 < a[4] < 64:
        for s, _ in outs:
            nb = ex.bytes_at(s, a[3], a[4])
            if any(type(b) is T for b in nb): continue
            w = 0
            for b in nb: w |= 1 << (b & 63)
            o = ex.obj(s, a[0] >> 32, True); base = (a[0] & 0xffffffff) - llir.OFF
            at = [k for k, (n, v) in o.cells.items() if base <= k < base + 104 and n == 8 and type(v) is int and v == w]
            if len(at) == 1: o.cells[at[0]] = (8, (1 << 64) - 1)
    return outs

def setup(env, bound=400, pre=(), deadline=120):
    ex = sym.Ex(env.mod, merge=False, loop_bound=bound)
    ex.feas = Feas(pre)
    ex.pre = tuple(pre)
    ex.nums = Nums()
    ex.deadline = time.time() + deadline
    ex.mergefns = re.compile(r"^satellite::ext::")
    I = ex.intercepts
    I.append((r"__rust_alloc$|__rust_alloc_zeroed$", alloc)); I.append((r"__rust_realloc$", realloc))
    I.append((r"__rust_dealloc$|__rust_no_alloc_shim", lambda *a: None))
    for nm, s, e in (("trim", 1, 1), ("trim_start", 1, 0), ("trim_end", 0, 1)):
        h = trim(s, e)
        def g(ex, st, a, rt, h=h, nm=nm):
            r = h(ex, st, a, rt)
            return r if type(r) is list else [(st, r)]
        I.append((r"^<str>::%s$" % nm, g))
    I.append((r"^<f64 as core::str::traits::FromStr>::from_str$|^<str>::parse::<f64>$", ex.nums.from_str))
    for k in ("is_finite", "is_nan", "is_infinite"): I.append((r"^<f64>::%s$" % k, ex.nums.finite(k)))
    I.append((r"^<core::str::pattern::StrSearcher>::new$", str_searcher))
    I.append((r"^core::slice::memchr::memchr(_aligned|_naive)?$", memchr(False)))
    I.append((r"^core::slice::memchr::memrchr$", memchr(True)))
    return ex

def put(ex, st, bs): return (ex.put_bytes(st, list(bs)) if bs else ex.new(st, 1)), len(bs)
class Out: pass
def run_two(ex, fn, b1, b2):
    """fn(l1, l2) -> [Out]"""
    st = sym.State(); st.pc = ()
    p, n = put(ex, st, b1); q, m = put(ex, st, b2)
    return _run(ex, fn, st, [p, n, q, m])
def run_one(ex, fn, bs):
    st = sym.State(); p, n = put(ex, st, bs)
    return _run(ex, fn, st, [p, n])
def _run(ex, fn, st, a):
    f = ex.new(st, 8 * runs.NF); k = ex.new(st, 48); s = ex.new(st, 48); e = ex.new(st, 72)
    outs = []
    for s1, _ in ex.call("@" + fn, a + [f, k, s, e], st):
        o = Out(); o.st = s1; o.pc = s1.pc; o.ex = ex
        o.e = [ex.load(s1, e + 8 * i, 64) for i in range(9)]
        o.f = f; o.k = k; o.s = s
        outs.append(o)
    return outs
def string(ex, st, p, n):
    if type(n) is T: raise sym.Unsupported("symbolic string length")
    return ex.bytes_at(st, p, n) if n else []
