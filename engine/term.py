"""Hash-consed terms.

Sorts: 'f' (IEEE double), 'b' (bool), int n (n-bit machine integer).
Concrete values are plain Python values outside terms: int for integers and
pointers, 0/1 for booleans, float for doubles; inside terms they are 'fc'/'ic'
constant nodes.  All simplifications are exact for IEEE doubles except where
the comment says "numbers" (assumes no NaN and ignores the sign of zero).
"""
import math, struct, sys
sys.setrecursionlimit(100000)

class T:
    __slots__ = ("id", "op", "args", "sort", "attr", "_rng")
    def __repr__(self):
        return show(self, 4)
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        return self is o

_tab = {}
_all = []
def mk(op, args, sort, attr=None):
    key = (op, sort, attr) + tuple([a.id for a in args])
    t = _tab.get(key)
    if t is None:
        t = T()
        t.id = len(_all); t.op = op; t.args = tuple(args); t.sort = sort; t.attr = attr; t._rng = None
        _tab[key] = t
        _all.append(t)
    return t

def fbits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]
def bitsf(b):
    return struct.unpack("<d", struct.pack("<Q", b & (2**64 - 1)))[0]

def var(name, sort, rng=None):
    return mk("var", (), sort, (name, rng))
_fresh = [0]
def fresh(prefix, sort, rng=None):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), sort, rng)
def fc(x):
    return mk("fc", (), "f", fbits(x))
def ic(v, w):
    return mk("ic", (), w, v & ((1 << w) - 1))
TRUE = mk("bc", (), "b", 1)
FALSE = mk("bc", (), "b", 0)
def wrap(v, sort):
    """Concrete value -> node of that sort."""
    if type(v) is T:
        if v.sort != sort:
            if sort == "f" and type(v.sort) is int: return wrap(i2f(v), "f")
            if v.sort == "f" and sort == 64: return wrap(f2i(v), 64)
            if sort == 1 and v.sort == "b": return v
            if sort == "b" and v.sort == 1: return v
            raise TypeError("sort mismatch %s %s" % (v.sort, sort))
        return v
    if sort == "f":
        if type(v) is int: return fc(bitsf(v))
        return fc(v)
    if sort == "b":
        return TRUE if v else FALSE
    if type(v) is float: return ic(fbits(v), sort)
    return ic(v, sort)
def unwrap(t):
    """Node -> concrete value where constant."""
    if t.op == "fc": return bitsf(t.attr)
    if t.op in ("ic", "bc"): return t.attr
    return t
def isc(t):
    return t.op in ("fc", "ic", "bc")

def show(t, d=6):
    if type(t) is not T: return repr(t)
    if t.op == "var": return t.attr[0]
    if t.op == "fc": return repr(bitsf(t.attr))
    if t.op == "ic": return "%d" % t.attr
    if t.op == "bc": return "true" if t.attr else "false"
    if d <= 0: return "#%d" % t.id
    return "(%s%s %s)" % (t.op, "" if t.attr is None else ":" + str(t.attr), " ".join(show(a, d - 1) for a in t.args))

# ------------------------------------------------------------------ booleans
def bnot(a):
    if type(a) is not T: return 0 if a else 1
    if a.op == "not": return a.args[0]
    if a.op == "bc": return 1 - a.attr
    return mk("not", (a,), "b")
def band(a, b):
    if type(a) is not T: return b if a else 0
    if type(b) is not T: return a if b else 0
    if a is b: return a
    if bnot(a) is b: return 0
    # absorption
    if a.op == "and" and (b in a.args): return a
    if b.op == "and" and (a in b.args): return b
    if a.id > b.id: a, b = b, a
    return mk("and", (a, b), "b")
def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))
def bxor(a, b):
    return bite(a, bnot(b), b)
def biff(a, b):
    return bite(a, b, bnot(b))
def bite(c, a, b):
    if type(c) is not T: return a if c else b
    if type(a) is not T:
        return bor(c, b) if a else band(bnot(c), b)
    if type(b) is not T:
        return bor(bnot(c), a) if b else band(c, a)
    if a is b: return a
    if c.op == "not": c, a, b = c.args[0], b, a
    if a is c: return bor(c, b)
    if b is c: return band(c, a)
    return mk("ite", (c, a, b), "b")
def conj(l):
    r = 1
    for x in l: r = band(r, x)
    return r
def disj(l):
    r = 0
    for x in l: r = bor(r, x)
    return r

# ----------------------------------------------------------------------- ite
UNDEF = "<undef>"
def sort_of(v, hint=None):
    if type(v) is T: return v.sort
    if type(v) is float: return "f"
    return hint
def ite(c, a, b, sort):
    if type(c) is not T: return a if c else b
    if a is b: return a
    if a is UNDEF: return b
    if b is UNDEF: return a
    if type(a) is tuple or type(b) is tuple:
        if type(a) is tuple and type(b) is tuple and len(a) == len(b):
            return tuple(ite(c, x, y, None) for x, y in zip(a, b))
        raise TypeError("aggregate ite")
    if type(a) is not T and type(b) is not T and type(a) is type(b):
        if type(a) is float:
            if fbits(a) == fbits(b): return a
        elif a == b: return a
    if sort is None:
        sort = sort_of(a) or sort_of(b)
        if sort is None: sort = 64
    if sort == "b" or sort == 1:
        return bite(c, a, b)
    if c.op == "not": c, a, b = c.args[0], b, a
    A, B = wrap(a, sort), wrap(b, sort)
    if A is B: return unwrap(A)
    if A.op == "ite" and A.args[0] is c: A = A.args[1]
    if B.op == "ite" and B.args[0] is c: B = B.args[2]
    if A is B: return unwrap(A)
    # ite(c, a, ite(d, a, b)) = ite(c|d, a, b)
    if B.op == "ite" and B.args[1] is A:
        return ite(bor(c, B.args[0]), unwrap(A), unwrap(B.args[2]), sort)
    if B.op == "ite" and B.args[2] is A:
        return ite(bor(c, bnot(B.args[0])), unwrap(A), unwrap(B.args[1]), sort)
    return mk("ite", (c, A, B), sort)

# ------------------------------------------------------------------ integers
def _m(w): return (1 << w) - 1
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

def rng(v, w=64):
    """Unsigned value range of an integer."""
    if type(v) is not T: return (v, v)
    if v._rng is not None: return v._rng
    r = _range(v)
    v._rng = r
    return r
def _range(v):
    w = v.sort
    if w == "b": return (0, 1)
    full = (0, _m(w))
    o = v.op
    if o == "ic": return (v.attr, v.attr)
    if o == "var": return v.attr[1] or full
    if o == "ite":
        a, b = rng(v.args[1]), rng(v.args[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if o == "zext":
        return rng(v.args[0])
    if o == "b2i": return (0, 1)
    if o == "trunc":
        a = rng(v.args[0])
        return a if a[1] <= _m(w) else full
    if o == "add":
        a, b = rng(v.args[0]), rng(v.args[1])
        s = (a[0] + b[0], a[1] + b[1])
        if s[1] <= _m(w): return s
        if s[0] > _m(w): return (s[0] - 1 - _m(w), s[1] - 1 - _m(w))
        return full
    if o == "sub":
        a, b = rng(v.args[0]), rng(v.args[1])
        s = (a[0] - b[1], a[1] - b[0])
        return s if s[0] >= 0 else full
    if o == "mul":
        a, b = rng(v.args[0]), rng(v.args[1])
        s = (a[0] * b[0], a[1] * b[1])
        return s if s[1] <= _m(w) else full
    if o == "and":
        a, b = rng(v.args[0]), rng(v.args[1])
        return (0, min(a[1], b[1]))
    if o == "or" or o == "xor":
        a, b = rng(v.args[0]), rng(v.args[1])
        n = max(a[1], b[1]).bit_length()
        return (0 if o == "xor" else max(a[0], b[0]), (1 << n) - 1)
    if o == "udiv":
        a, b = rng(v.args[0]), rng(v.args[1])
        if b[0] > 0: return (a[0] // b[1], a[1] // b[0])
        return full
    if o == "urem":
        a, b = rng(v.args[0]), rng(v.args[1])
        if b[0] > 0: return (0, min(a[1], b[1] - 1))
        return full
    if o == "lshr":
        a, b = rng(v.args[0]), rng(v.args[1])
        return (a[0] >> min(b[1], w), a[1] >> min(b[0], w))
    if o == "shl":
        a, b = rng(v.args[0]), rng(v.args[1])
        if b[1] < w and (a[1] << b[1]) <= _m(w): return (a[0] << b[0], a[1] << b[1])
        return full
    if o == "extract":
        return (0, _m(w))
    return full

def nonneg(v, w):
    r = rng(v)
    return r[1] < (1 << (w - 1))

def _iconst(op, a, b, w):
    if op == "add": return (a + b) & _m(w)
    if op == "sub": return (a - b) & _m(w)
    if op == "mul": return (a * b) & _m(w)
    if op == "and": return a & b
    if op == "or": return a | b
    if op == "xor": return a ^ b
    if op == "udiv": return a // b
    if op == "urem": return a % b
    if op == "sdiv":
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & _m(w)
    if op == "srem":
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & _m(w)
    if op == "shl": return (a << b) & _m(w) if b < w else 0
    if op == "lshr": return a >> b if b < w else 0
    if op == "ashr": return (sgn(a, w) >> min(b, w - 1)) & _m(w)
    raise KeyError(op)

def ibin(op, a, b, w):
    ca, cb = type(a) is not T, type(b) is not T
    if a is UNDEF or b is UNDEF: return UNDEF
    if w == 1:
        if op == "and": return band(a, b)
        if op == "or": return bor(a, b)
        if op in ("xor", "add", "sub"): return bxor(a, b)
        if op == "mul": return band(a, b)
    if ca and cb:
        if op in ("udiv", "urem", "sdiv", "srem") and b == 0: return UNDEF
        return _iconst(op, a, b, w)
    if cb:
        if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"): return a
        if b == 0 and op in ("mul", "and"): return 0
        if b == 1 and op in ("mul", "udiv", "sdiv"): return a
        if b == _m(w) and op == "and": return a
        if op == "sub": return ibin("add", a, (-b) & _m(w), w)
        if op == "and" and (b & (b + 1)) == 0 and rng(a)[1] <= b: return a
        if op == "urem" and rng(a)[1] < b: return a
        if op == "udiv" and rng(a)[1] < b: return 0
        if op == "sdiv" and nonneg(a, w) and not b >> (w - 1): op = "udiv"
        if op == "srem" and nonneg(a, w) and not b >> (w - 1): op = "urem"
        if op == "shl" and b < w and w <= 64: return ibin("mul", a, 1 << b, w)
        if op == "lshr" and b < w: return ibin("udiv", a, 1 << b, w)
        if op == "add" and a.op == "add" and a.args[1].op == "ic":
            return ibin("add", unwrap(a.args[0]), (a.args[1].attr + b) & _m(w), w)
        if op == "xor" and b == _m(w) and a.op == "xor" and a.args[1].op == "ic" and a.args[1].attr == b: return unwrap(a.args[0])
        if a.op == "ite" and (isc(a.args[1]) and isc(a.args[2])):
            return ite(a.args[0], ibin(op, unwrap(a.args[1]), b, w), ibin(op, unwrap(a.args[2]), b, w), w)
    if ca:
        if op in ("add", "mul", "and", "or", "xor"): return ibin(op, b, a, w)
        if a == 0 and op in ("udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr"): return 0
    A, B = wrap(a, w), wrap(b, w)
    if A is B:
        if op in ("sub", "xor"): return 0
        if op in ("and", "or"): return a
    if op in ("add", "mul", "and", "or", "xor") and B.op != "ic" and A.id > B.id:
        A, B = B, A
    return mk(op, (A, B), w)

_NEG = {"ne": "eq", "ugt": "ule", "uge": "ult", "sgt": "sle", "sge": "slt"}
def icmp(pred, a, b, w):
    if a is UNDEF or b is UNDEF: return UNDEF
    if pred in _NEG: return bnot(icmp(_NEG[pred], a, b, w))
    ca, cb = type(a) is not T, type(b) is not T
    if ca and type(a) is float: a = fbits(a)
    if cb and type(b) is float: b = fbits(b)
    if not ca and a.sort == "f": a = f2i(a)
    if not cb and b.sort == "f": b = f2i(b)
    if w == 1:
        if pred == "eq": return biff(a, b)
        if pred == "ult" or pred == "sle": return band(bnot(a), b) if pred == "ult" else bor(a, bnot(b))
        if pred == "ule" or pred == "slt": return bor(bnot(a), b) if pred == "ule" else band(a, bnot(b))
    if ca and cb:
        if pred == "eq": return int(a == b)
        if pred == "ult": return int(a < b)
        if pred == "ule": return int(a <= b)
        if pred == "slt": return int(sgn(a, w) < sgn(b, w))
        if pred == "sle": return int(sgn(a, w) <= sgn(b, w))
    if pred in ("slt", "sle") and nonneg(a, w) and nonneg(b, w):
        pred = "ult" if pred == "slt" else "ule"
    # push through ite with a constant arm
    if cb and not ca and a.op == "ite" and (isc(a.args[1]) or isc(a.args[2])):
        return bite(a.args[0], icmp(pred, unwrap(a.args[1]), b, w), icmp(pred, unwrap(a.args[2]), b, w))
    if ca and not cb and b.op == "ite" and (isc(b.args[1]) or isc(b.args[2])):
        return bite(b.args[0], icmp(pred, a, unwrap(b.args[1]), w), icmp(pred, a, unwrap(b.args[2]), w))
    ra, rb = rng(a), rng(b)
    if pred == "eq":
        if ra[1] < rb[0] or rb[1] < ra[0]: return 0
        if a is b: return 1
        if cb and a.op == "b2i": return a.args[0] if b == 1 else (bnot(a.args[0]) if b == 0 else 0)
        if cb and a.op == "zext":
            iw = a.args[0].sort
            return icmp("eq", unwrap(a.args[0]), b, iw) if b <= _m(iw) else 0
        if cb and a.op == "add" and a.args[1].op == "ic":
            return icmp("eq", unwrap(a.args[0]), (b - a.args[1].attr) & _m(w), w)
        A, B = wrap(a, w), wrap(b, w)
        if A.id > B.id: A, B = B, A
        return mk("ieq", (A, B), "b")
    if pred == "ult":
        if ra[1] < rb[0]: return 1
        if ra[0] >= rb[1]: return 0
        if not ca and a.op == "zext" and cb and b <= _m(a.args[0].sort): return icmp("ult", unwrap(a.args[0]), b, a.args[0].sort)
        return mk("ult", (wrap(a, w), wrap(b, w)), "b")
    if pred == "ule":
        return bnot(icmp("ult", b, a, w))
    if pred == "slt":
        if a is b: return 0
        if cb and b == 0 and nonneg(a, w): return 0
        # signed compare of a value whose range does not straddle the sign bit
        h = 1 << (w - 1)
        def sr(r):
            if r[1] < h: return r
            if r[0] >= h: return (r[0] - 2 * h, r[1] - 2 * h)
            return None
        x, y = sr(ra), sr(rb)
        if x and y:
            if x[1] < y[0]: return 1
            if x[0] >= y[1]: return 0
        return mk("slt", (wrap(a, w), wrap(b, w)), "b")
    if pred == "sle":
        return bnot(icmp("slt", b, a, w))
    raise KeyError(pred)

def zext(a, fw, tw):
    if a is UNDEF: return UNDEF
    if type(a) is not T: return a
    if fw == 1:
        return ite(a, 1, 0, tw) if a.op == "bc" else mk("b2i", (a,), tw)
    if a.op == "zext": return mk("zext", a.args, tw)
    if a.op == "b2i": return mk("b2i", a.args, tw)
    if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
        return ite(a.args[0], a.args[1].attr, a.args[2].attr, tw)
    return mk("zext", (a,), tw)
def sext(a, fw, tw):
    if a is UNDEF: return UNDEF
    if type(a) is not T: return sgn(a, fw) & _m(tw)
    if fw == 1: return ite(a, _m(tw), 0, tw)
    if nonneg(a, fw): return zext(a, fw, tw)
    return mk("sext", (a,), tw)
def trunc(a, fw, tw):
    if a is UNDEF: return UNDEF
    if type(a) is not T: return a & _m(tw)
    if tw == 1:
        if a.op == "b2i": return a.args[0]
        if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
            return bite(a.args[0], a.args[1].attr & 1, a.args[2].attr & 1)
        return bnot(icmp("eq", ibin("and", a, 1, fw), 0, fw))
    if a.op == "zext" and a.args[0].sort == tw: return unwrap(a.args[0])
    if a.op == "zext" and a.args[0].sort < tw: return zext(unwrap(a.args[0]), a.args[0].sort, tw)
    if a.op == "zext": return trunc(unwrap(a.args[0]), a.args[0].sort, tw)
    if a.op == "b2i": return mk("b2i", a.args, tw)
    if a.op == "ite" and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], trunc(unwrap(a.args[1]), fw, tw), trunc(unwrap(a.args[2]), fw, tw), tw)
    if a.op == "concat":   # bytes, least significant first
        n = tw // 8
        if tw % 8 == 0: return concat([unwrap(x) for x in a.args[:n]])
    return mk("trunc", (a,), tw)
def concat(bs):
    """Little-endian byte list -> integer of 8*len bits."""
    if len(bs) == 1: return bs[0]
    if any(b is UNDEF for b in bs): return UNDEF
    if all(type(b) is not T for b in bs):
        r = 0
        for i, b in enumerate(bs): r |= b << (8 * i)
        return r
    if all(type(b) is T and b.op == "extract" and b.args[0] is bs[0].args[0] and b.attr == i for i, b in enumerate(bs) ) and \
            (bs[0].args[0].sort == 8 * len(bs) or (bs[0].args[0].sort == "f" and len(bs) == 8)):
        s = bs[0].args[0]
        return s
    if all(b == 0 for b in bs[1:] if type(b) is not T) and all(type(b) is not T for b in bs[1:]):
        return zext(bs[0], 8, 8 * len(bs))
    return mk("concat", [wrap(b, 8) for b in bs], 8 * len(bs))
def byte_of(v, i, size):
    """i-th byte (little endian) of a size-byte value."""
    if v is UNDEF: return UNDEF
    if type(v) is float: v = fbits(v)
    if type(v) is not T: return (v >> (8 * i)) & 255
    if v.sort == "b": v = zext(v, 1, 8)
    if size == 1: return v
    if v.op == "concat": return unwrap(v.args[i])
    if v.op == "ite": return ite(v.args[0], byte_of(unwrap(v.args[1]), i, size), byte_of(unwrap(v.args[2]), i, size), 8)
    if v.op in ("zext", "b2i"):
        if v.op == "b2i": return mk("b2i", v.args, 8) if i == 0 else 0
        n = v.args[0].sort // 8
        return byte_of(unwrap(v.args[0]), i, n) if i < n else 0
    if v.sort != "f" and rng(v)[1] < (1 << (8 * i)): return 0
    return mk("extract", (v,), 8, i)

# -------------------------------------------------------------------- doubles
def _sb(t):
    """(negated?, base) with base positive-constant or non-fneg."""
    if t.op == "fneg": return True, t.args[0]
    if t.op == "fc" and (t.attr >> 63): return True, mk("fc", (), "f", t.attr & (2**63 - 1))
    return False, t
def fneg(a):
    if a is UNDEF: return UNDEF
    if type(a) is not T: return -a
    if a.op == "fneg": return a.args[0]
    if a.op == "fc": return -bitsf(a.attr)
    return mk("fneg", (a,), "f")
def _neg(t):
    r = fneg(t)
    return wrap(r, "f")
def _w(a):
    return a if type(a) is T and a.sort == "f" else wrap(a, "f")
def fadd(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if type(a) is float and type(b) is float: return a + b
    if type(a) is float and a == 0.0: return b       # numbers
    if type(b) is float and b == 0.0: return a       # numbers
    A, B = _w(a), _w(b)
    sa, xa = _sb(A); sb, xb = _sb(B)
    if xa is xb:
        if sa != sb: return 0.0                       # numbers
        r = fmul(2.0, unwrap(xa))
        return fneg(r) if sa else r
    if xa.id > xb.id: sa, xa, sb, xb = sb, xb, sa, xa
    r = mk("fadd", (xa, _neg(xb) if sa != sb else xb), "f")
    return fneg(r) if sa else r
def fsub(a, b):
    if type(a) is float and type(b) is float: return a - b
    return fadd(a, fneg(b))
def fmul(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if type(a) is float and type(b) is float: return a * b
    A, B = _w(a), _w(b)
    sa, xa = _sb(A); sb, xb = _sb(B)
    s = sa != sb
    one = fc(1.0)
    if xa is one: r = unwrap(xb)
    elif xb is one: r = unwrap(xa)
    else:
        if xa.op == "fc" and xa.attr == 0 or xb.op == "fc" and xb.attr == 0: return 0.0   # numbers, finite
        if xa.id > xb.id: xa, xb = xb, xa
        r = mk("fmul", (xa, xb), "f")
    return fneg(r) if s else r
def fdiv(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if type(a) is float and type(b) is float:
        if b == 0.0:
            if a != a or a == 0.0: return float("nan")
            return math.copysign(float("inf"), a) * math.copysign(1.0, b)
        return a / b
    A, B = _w(a), _w(b)
    sa, xa = _sb(A); sb, xb = _sb(B)
    if xb is fc(1.0): r = unwrap(xa)
    else: r = mk("fdiv", (xa, xb), "f")
    return fneg(r) if sa != sb else r
def frem(a, b):
    if type(a) is float and type(b) is float:
        return math.fmod(a, b) if b != 0 and not math.isinf(a) else float("nan")
    A, B = _w(a), _w(b)
    sa, xa = _sb(A); sb, xb = _sb(B)      # fmod is odd in a, even in b
    r = mk("frem", (xa, xb), "f")
    return fneg(r) if sa else r
def _guard(f):
    def g(*x):
        try: return f(*x)
        except (ValueError, OverflowError, ZeroDivisionError): return float("nan")
    return g
def _pow(x, y):
    try: return math.pow(x, y)
    except OverflowError: return float("inf")
    except (ValueError, ZeroDivisionError): return float("inf") if x == 0 else float("nan")
CFUN = {"sin": _guard(math.sin), "cos": _guard(math.cos), "tan": _guard(math.tan), "asin": _guard(math.asin), "acos": _guard(math.acos),
        "atan": math.atan, "atan2": math.atan2, "sqrt": _guard(math.sqrt), "floor": _guard(lambda x: float(math.floor(x))),
        "ceil": _guard(lambda x: float(math.ceil(x))), "trunc_f": _guard(lambda x: float(math.trunc(x))), "pow": _pow,
        "exp": _guard(math.exp), "log": _guard(math.log), "hypot": math.hypot, "round": _guard(lambda x: math.copysign(math.floor(abs(x) + 0.5), x)), "cbrt": _guard(lambda x: math.copysign(abs(x) ** (1 / 3), x))}
def ffun(name, *args):
    if any(a is UNDEF for a in args): return UNDEF
    if all(type(a) is float for a in args): return CFUN[name](*args)
    if name == "pow" and type(args[1]) is float:
        e = args[1]
        if e == 2.0: return fmul(args[0], args[0])
        if e == 1.0: return args[0]
        if e == 0.0: return 1.0
        if e == 3.0: return fmul(args[0], fmul(args[0], args[0]))
        if e == 0.5: return ffun("sqrt", args[0])
        if e == -1.0: return fdiv(1.0, args[0])
    A = [_w(a) for a in args]
    if name in ("sin", "tan", "asin", "atan"):
        s, x = _sb(A[0])
        r = mk(name, (x,), "f")
        return fneg(r) if s else r
    if name == "cos":
        s, x = _sb(A[0])
        return mk("cos", (x,), "f")
    if name == "atan2":          # odd in its first argument
        s, x = _sb(A[0])
        r = mk("atan2", (x, A[1]), "f")
        return fneg(r) if s else r
    return mk(name, A, "f")
def powi(x, n):
    if n < 0: return fdiv(1.0, powi(x, -n))
    r = None
    while n:
        if n & 1: r = x if r is None else fmul(r, x)
        n >>= 1
        if n: x = fmul(x, x)
    return 1.0 if r is None else r
def fabs_(a):
    if type(a) is float: return abs(a)
    s, x = _sb(_w(a))
    if x.op in ("fabs", "sqrt"): return x
    return mk("fabs", (x,), "f")
def flt(a, b):
    """a < b, over numbers."""
    if a is UNDEF or b is UNDEF: return UNDEF
    if type(a) is float and type(b) is float: return int(a < b)
    A, B = _w(a), _w(b)
    if A is B: return 0
    if type(a) is float and math.isinf(a): return int(a < 0)      # numbers are finite
    if type(b) is float and math.isinf(b): return int(b > 0)
    sa, xa = _sb(A); sb, xb = _sb(B)
    if sa and sb: A, B = xb, xa
    elif sa and B.op == "fc": A, B = _neg(B), xa
    elif sb and A.op == "fc": A, B = xb, _neg(A)
    elif sa and xb.op == "fc" and not xa.op == "fc": A, B = _neg(B), xa
    elif sb and xa.op == "fc" and not xb.op == "fc": A, B = xb, _neg(A)
    if A.op == "fabs" and B.op == "fc" and bitsf(B.attr) <= 0.0: return 0
    if A.op == "ite" and isc(A.args[1]) and isc(A.args[2]):
        return bite(A.args[0], flt(unwrap(A.args[1]), unwrap(B)), flt(unwrap(A.args[2]), unwrap(B)))
    if B.op == "ite" and isc(B.args[1]) and isc(B.args[2]):
        return bite(B.args[0], flt(unwrap(A), unwrap(B.args[1])), flt(unwrap(A), unwrap(B.args[2])))
    return mk("flt", (A, B), "b")
def feq(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if type(a) is float and type(b) is float: return int(a == b)
    A, B = _w(a), _w(b)
    if A is B: return 1
    if type(a) is float and math.isinf(a) or type(b) is float and math.isinf(b): return 0
    sa, xa = _sb(A); sb, xb = _sb(B)
    if sa and (sb or B.op == "fc"): A, B = xa, _neg(B)
    elif sb and A.op == "fc": A, B = _neg(A), xb
    if A.op == "ite" and isc(A.args[1]) and isc(A.args[2]):
        return bite(A.args[0], feq(unwrap(A.args[1]), unwrap(B)), feq(unwrap(A.args[2]), unwrap(B)))
    if B.op == "ite" and isc(B.args[1]) and isc(B.args[2]):
        return bite(B.args[0], feq(unwrap(A), unwrap(B.args[1])), feq(unwrap(A), unwrap(B.args[2])))
    if A.id > B.id: A, B = B, A
    return mk("feq", (A, B), "b")
OPAQUE = [False]        # comparisons of symbolic doubles are free choices (covers NaN)
def fcmp(p, a, b):
    if OPAQUE[0] and (type(a) is T or type(b) is T) and p not in ("true", "false"):
        return var("fcmp!%s!%s!%s" % (p, a.id if type(a) is T else a, b.id if type(b) is T else b), "b")
    if p in ("ogt", "ugt"): return flt(b, a)
    if p in ("olt", "ult"): return flt(a, b)
    if p in ("oge", "uge"): return bnot(flt(a, b))
    if p in ("ole", "ule"): return bnot(flt(b, a))
    if p in ("oeq", "ueq"): return feq(a, b)
    if p in ("one", "une"): return bnot(feq(a, b))
    if p in ("uno", "ord"):
        r = [x for x in (a, b) if type(x) is float and x != x]
        n = 1 if r else 0
        if not n:
            for x in (a, b):
                if type(x) is T and NANHOOK[0] is not None: n = bor(n, NANHOOK[0](x))
        return n if p == "uno" else bnot(n)
    if p == "true": return 1
    if p == "false": return 0
    raise KeyError(p)
NANHOOK = [None]
def i2f(v):
    if v is UNDEF: return UNDEF
    if type(v) is float: return v
    if type(v) is not T: return bitsf(v)
    if v.sort == "f": return v
    if v.op == "f2i": return v.args[0]
    if v.op == "ite": return ite(v.args[0], i2f(unwrap(v.args[1])), i2f(unwrap(v.args[2])), "f")
    return mk("i2f", (v,), "f")
def f2i(v):
    if v is UNDEF: return UNDEF
    if type(v) is float: return fbits(v)
    if type(v) is not T: return v
    if v.sort != "f": return v
    if v.op == "i2f": return v.args[0]
    if v.op == "ite": return ite(v.args[0], f2i(unwrap(v.args[1])), f2i(unwrap(v.args[2])), 64)
    return mk("f2i", (v,), 64)
def int2fp(v, w, signed):
    if v is UNDEF: return UNDEF
    if type(v) is not T: return float(sgn(v, w) if signed else v)
    if not signed or nonneg(v, w):
        if v.op == "ite" and isc(v.args[1]) and isc(v.args[2]):
            return ite(v.args[0], int2fp(v.args[1].attr, w, signed), int2fp(v.args[2].attr, w, signed), "f")
        if v.op == "zext": v = v.args[0]
        return mk("uitofp", (v,), "f")
    return mk("sitofp", (v,), "f")
def fp2int(v, w, signed):
    if v is UNDEF: return UNDEF
    if type(v) is float:
        if v != v: return 0
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, _m(w))
        x = lo if v == float("-inf") else hi if v == float("inf") else int(v)
        return min(max(x, lo), hi) & _m(w)
    if v.op == "uitofp" and v.args[0].sort <= 53 and v.args[0].sort <= w:
        return zext(unwrap(v.args[0]), v.args[0].sort, w) if v.args[0].sort < w else unwrap(v.args[0])
    return mk("fptosi" if signed else "fptoui", (v,), w)

# ------------------------------------------------------------------ utilities
def topo(roots):
    """Nodes reachable from roots, arguments first."""
    seen, out = set(), []
    st = [r for r in roots if type(r) is T]
    st = [(r, False) for r in st]
    while st:
        t, done = st.pop()
        if done:
            out.append(t); continue
        if t.id in seen: continue
        seen.add(t.id)
        st.append((t, True))
        for a in t.args:
            if a.id not in seen: st.append((a, False))
    return out
def subst(roots, m):
    """Rebuild terms with node map m (dict id -> value)."""
    memo = dict(m)
    for t in topo(roots):
        if t.id in memo: continue
        if not t.args: memo[t.id] = unwrap(t); continue
        memo[t.id] = rebuild(t, [memo[a.id] for a in t.args])
    return [memo[r.id] if type(r) is T else r for r in roots]
def rebuild(t, a):
    o = t.op
    if o == "not": return bnot(a[0])
    if o == "and": return band(a[0], a[1])
    if o == "ite": return ite(a[0], a[1], a[2], t.sort)
    if o == "fadd": return fadd(*a)
    if o == "fmul": return fmul(*a)
    if o == "fdiv": return fdiv(*a)
    if o == "frem": return frem(*a)
    if o == "fneg": return fneg(a[0])
    if o == "fabs": return fabs_(a[0])
    if o == "flt": return flt(*a)
    if o == "feq": return feq(*a)
    if o in CFUN and t.sort == "f": return ffun(o, *a)
    if o in ("add", "sub", "mul", "and", "or", "xor", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr"): return ibin(o, a[0], a[1], t.sort)
    if o == "ieq": return icmp("eq", a[0], a[1], t.args[0].sort)
    if o == "ult": return icmp("ult", a[0], a[1], t.args[0].sort)
    if o == "slt": return icmp("slt", a[0], a[1], t.args[0].sort)
    if o == "zext": return zext(a[0], t.args[0].sort, t.sort)
    if o == "sext": return sext(a[0], t.args[0].sort, t.sort)
    if o == "trunc": return trunc(a[0], t.args[0].sort, t.sort)
    if o == "b2i": return zext(a[0], 1, t.sort)
    if o == "concat": return concat(a)
    if o == "extract": return byte_of(a[0], t.attr, 8 if t.args[0].sort == "f" else t.args[0].sort // 8)
    if o == "uitofp": return int2fp(a[0], t.args[0].sort, False)
    if o == "sitofp": return int2fp(a[0], t.args[0].sort, True)
    if o == "fptoui": return fp2int(a[0], t.sort, False)
    if o == "fptosi": return fp2int(a[0], t.sort, True)
    if o == "i2f": return i2f(a[0])
    if o == "f2i": return f2i(a[0])
    return mk(o, [wrap(x, y.sort) for x, y in zip(a, t.args)], t.sort, t.attr)
def evaluate(roots, env):
    """Concrete evaluation; env: var name -> value."""
    memo = {}
    for t in topo(roots):
        if t.op == "var": memo[t.id] = env[t.attr[0]]
        elif not t.args: memo[t.id] = unwrap(t)
        else:
            a = [memo[x.id] for x in t.args]
            o = t.op
            if o == "ite": memo[t.id] = a[1] if a[0] else a[2]
            elif o == "not": memo[t.id] = 0 if a[0] else 1
            elif o == "and" and t.sort == "b": memo[t.id] = 1 if a[0] and a[1] else 0
            elif o == "flt": memo[t.id] = int(a[0] < a[1])
            elif o == "fadd": memo[t.id] = a[0] + a[1]
            elif o == "fmul": memo[t.id] = a[0] * a[1]
            elif o == "fneg": memo[t.id] = -a[0]
            else: memo[t.id] = rebuild(t, a)
    return [memo[r.id] if type(r) is T else r for r in roots]
