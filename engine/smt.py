"""Encodings of terms for z3 and query bookkeeping."""
import os, time, select, signal, z3
from fractions import Fraction
from term import *

class Stats:
    def __init__(self):
        self.n = 0; self.t = 0.0; self.res = {}; self.kinds = {}; self.log = []
    def add(self, kind, r, dt):
        self.n += 1; self.t += dt
        self.res[r] = self.res.get(r, 0) + 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
STATS = Stats()
def check(s, kind):
    t = time.time()
    try: r = str(s.check())
    except z3.Z3Exception as e: r = "error"
    STATS.add(kind, r, time.time() - t)
    return r

def hard(s, kind, secs):
    """check() in a forked child that is killed after secs (z3's own timeout
    does not cover its preprocessing)."""
    t = time.time()
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try: os.close(rd); os.write(wr, str(s.check()).encode())
        finally: os._exit(0)
    os.close(wr)
    r = "unknown"
    if select.select([rd], [], [], secs)[0]: r = os.read(rd, 100).decode() or "error"
    os.close(rd)
    try: os.kill(pid, signal.SIGKILL)
    except ProcessLookupError: pass
    os.waitpid(pid, 0)
    STATS.add(kind, r, time.time() - t)
    return r

FS = z3.DeclareSort("Double")
class UF:
    """Doubles as an uninterpreted sort, every double operation an uninterpreted
    function: unsat means equal for every double arithmetic with the usual
    rules used when building terms (commutativity, exact negation)."""
    def __init__(self): self.memo = {}; self.fn = {}
    def sort(self, s): return FS if s == "f" else z3.BoolSort() if s == "b" else z3.BitVecSort(s)
    def fun(self, n, *sg):
        k = (n,) + tuple(str(x) for x in sg)
        if k not in self.fn: self.fn[k] = z3.Function("%s_%d" % (n, len(self.fn)), *sg)
        return self.fn[k]
    def __call__(self, v, sort=None):
        if type(v) is not T: v = wrap(v, sort)
        for t in topo([v]):
            if t.id not in self.memo: self.memo[t.id] = self.node(t, [self.memo[a.id] for a in t.args])
        return self.memo[v.id]
    def node(self, t, a):
        o, s = t.op, t.sort
        if o == "var":
            c = z3.Const("v_" + t.attr[0], self.sort(s))
            if type(s) is int and t.attr[1]:      # a value of the stated range
                lo, hi = t.attr[1]
                c = z3.If(z3.And(z3.ULE(c, hi), z3.UGE(c, lo)), c, z3.BitVecVal(lo, s))
            return c
        if o == "fc": return z3.Const("c_%016x" % t.attr, FS)
        r = intnode(t, a)
        if r is not None: return r
        return self.fun("%s_%s" % (o, t.attr), *([self.sort(x.sort) for x in t.args] + [self.sort(s)]))(*a)

def intnode(t, a):
    """Booleans and bit-vectors; None if the node involves doubles."""
    o, s = t.op, t.sort
    if o == "bc": return z3.BoolVal(bool(t.attr))
    if o == "ic": return z3.BitVecVal(t.attr, s)
    if o == "not": return z3.Not(a[0])
    if o == "and" and s == "b": return z3.And(a[0], a[1])
    if o == "ite": return z3.If(a[0], a[1], a[2])
    if o == "ieq": return a[0] == a[1]
    if o == "ult": return z3.ULT(a[0], a[1])
    if o == "slt": return a[0] < a[1]
    if type(s) is int and t.args and all(type(x.sort) is int for x in t.args):
        if o == "add": return a[0] + a[1]
        if o == "sub": return a[0] - a[1]
        if o == "mul": return a[0] * a[1]
        if o == "and": return a[0] & a[1]
        if o == "or": return a[0] | a[1]
        if o == "xor": return a[0] ^ a[1]
        if o == "udiv": return z3.UDiv(a[0], a[1])
        if o == "urem": return z3.URem(a[0], a[1])
        if o == "sdiv": return a[0] / a[1]
        if o == "srem": return z3.SRem(a[0], a[1])
        if o == "shl": return a[0] << a[1]
        if o == "lshr": return z3.LShR(a[0], a[1])
        if o == "ashr": return a[0] >> a[1]
        if o == "zext": return z3.ZeroExt(s - t.args[0].sort, a[0])
        if o == "sext": return z3.SignExt(s - t.args[0].sort, a[0])
        if o == "trunc": return z3.Extract(s - 1, 0, a[0])
        if o == "concat": return z3.Concat(*reversed(a))
        if o == "extract": return z3.Extract(8 * t.attr + 7, 8 * t.attr, a[0])
    if o == "b2i": return z3.If(a[0], z3.BitVecVal(1, s), z3.BitVecVal(0, s))
    return None

def rv(x):
    f = Fraction(x)
    return z3.RealVal(f)
