"""Terms over mixed integer/real arithmetic: machine integers as mathematical
integers (wrap-around made explicit), doubles as reals, floor/truncation by to_int."""
import z3
from fractions import Fraction
from term import *
import smt
from conf import Blowup

class Lira:
    def __init__(self): self.memo = {}; self.side = []; self.given = {}
    def give(self, name, e): self.given[name] = e
    def __call__(self, v, sort="f"):
        v = wrap(v, sort)
        for t in topo([v]):
            if t.id not in self.memo: self.memo[t.id] = self.node(t, [self.memo[a.id] for a in t.args])
        return self.memo[v.id]
    def sg(self, x, t):
        w = t.sort
        return x if nonneg(t, w) else z3.If(x >= 1 << (w - 1), x - (1 << w), x)
    def un(self, x, w): return z3.If(x < 0, x + (1 << w), x)
    def node(self, t, a):
        o, s = t.op, t.sort
        if o == "var":
            n = t.attr[0]
            if n in self.given: return self.given[n]
            if s == "b": return z3.Bool(n)
            if s == "f": return z3.Real(n)
            x = z3.Int(n); lo, hi = t.attr[1] or (0, (1 << s) - 1)
            self.side += [x >= lo, x <= hi]
            return x
        if o == "fc":
            v = bitsf(t.attr)
            if v != v or abs(v) == float("inf"): raise Blowup()
            return z3.RealVal(Fraction(v))
        if o == "ic": return z3.IntVal(t.attr)
        if o == "bc": return z3.BoolVal(bool(t.attr))
        if o == "not": return z3.Not(a[0])
        if o == "ite": return z3.If(a[0], a[1], a[2])
        if s == "b":
            if o == "and": return z3.And(a[0], a[1])
            if o in ("flt", "ult"): return a[0] < a[1]
            if o in ("feq", "ieq"): return a[0] == a[1]
            if o == "slt": return self.sg(a[0], t.args[0]) < self.sg(a[1], t.args[1])
            raise Blowup()
        if s == "f":
            if o == "fadd": return a[0] + a[1]
            if o == "fneg": return -a[0]
            if o == "fmul":
                if not any(x.op == "fc" for x in t.args): raise Blowup()
                return a[0] * a[1]
            if o == "fdiv":
                if t.args[1].op != "fc" or bitsf(t.args[1].attr) == 0: raise Blowup()
                return a[0] / a[1]
            if o == "fabs": return z3.If(a[0] < 0, -a[0], a[0])
            if o == "floor": return z3.ToReal(z3.ToInt(a[0]))
            if o == "ceil": return -z3.ToReal(z3.ToInt(-a[0]))
            if o == "trunc_f": return z3.ToReal(z3.If(a[0] >= 0, z3.ToInt(a[0]), -z3.ToInt(-a[0])))
            if o == "round": return z3.ToReal(z3.If(a[0] >= 0, z3.ToInt(a[0] + z3.Q(1, 2)), -z3.ToInt(z3.Q(1, 2) - a[0])))
            if o == "frem" and t.args[1].op == "fc" and bitsf(t.args[1].attr) > 0:
                q = a[0] / a[1]
                return a[0] - a[1] * z3.ToReal(z3.If(q >= 0, z3.ToInt(q), -z3.ToInt(-q)))
            if o == "dec":
                import text
                return text.dec_expr(t, a)
            if o == "uitofp": return z3.ToReal(a[0])
            if o == "sitofp": return z3.ToReal(self.sg(a[0], t.args[0]))
            raise Blowup()
        w = s; M = 1 << w
        A = t.args
        k = A[1].attr if len(A) > 1 and A[1].op == "ic" else None
        if o == "add":
            if rng(A[0])[1] + rng(A[1])[1] < M: return a[0] + a[1]
            x = a[0] + a[1]; return z3.If(x >= M, x - M, x)
        if o == "sub": return self.un(a[0] - a[1], w)
        if o == "mul":
            if rng(A[0])[1] * rng(A[1])[1] < M and (k is not None or A[0].op == "ic"): return a[0] * a[1]
            if k is not None: return (a[0] * k) % M
            raise Blowup()
        if o == "udiv" and k: return a[0] / a[1]
        if o == "urem" and k: return a[0] % a[1]
        if o in ("sdiv", "srem") and k and k < M // 2:
            x = self.sg(a[0], A[0])
            q = z3.If(x >= 0, x / k, -((-x) / k))
            return self.un(q, w) if o == "sdiv" else self.un(x - k * q, w)
        if o == "ashr" and k is not None and k < w: return self.un(self.sg(a[0], A[0]) / (1 << k), w)
        if o == "and" and k is not None and k:
            j = (k & -k).bit_length() - 1; m = k >> j
            if m & (m + 1) == 0: return ((a[0] / (1 << j)) % (m + 1)) * (1 << j)
        if o == "or":
            for i in (0, 1):
                x, y = A[i], A[1 - i]
                if x.op == "mul" and x.args[1].op == "ic":
                    c = x.args[1].attr
                    if c & -c > rng(y)[1]: return a[0] + a[1]
        if o == "zext": return a[0]
        if o == "sext": return self.un(self.sg(a[0], A[0]), w)
        if o == "trunc": return a[0] % M if rng(A[0])[1] >= M else a[0]
        if o == "b2i": return z3.If(a[0], z3.IntVal(1), z3.IntVal(0))
        if o == "fptoui":
            return z3.If(a[0] <= 0, z3.IntVal(0), z3.If(a[0] >= M - 1, z3.IntVal(M - 1), z3.ToInt(a[0])))
        if o == "fptosi":
            x = z3.If(a[0] >= 0, z3.ToInt(a[0]), -z3.ToInt(-a[0]))
            H = M // 2
            return self.un(z3.If(x >= H, z3.IntVal(H - 1), z3.If(x < -H, z3.IntVal(-H), x)), w)
        raise Blowup()
def num(m, e):
    """model value as Fraction/int"""
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v): return v.as_long()
    if z3.is_algebraic_value(v): v = v.approx(30)
    return Fraction(v.numerator_as_long(), v.denominator_as_long())
