"""Symbolic executor for LLVM IR.

Two modes:
 merge  states reaching the same block are joined with ite (straight numeric code)
 fork   every feasible path is followed on its own (text code); branch
        feasibility is decided by z3 over the integer part of the path condition
"""
import re, time
import llir
from llir import tsize, addr, GBASE, FBASE, OFF
from term import *
import term as TM

class Unsupported(Exception): pass
class Stateful(Unsupported): pass      # the code keeps state outside its arguments
class Infeasible(Exception): pass

def sort_t(t):
    if t == "p": return 64
    if t == "d": return "f"
    if t == 1: return "b"
    return t

class Obj:
    __slots__ = ("size", "cells", "owner", "ro")
    def __init__(self, size, owner=None):
        self.size = size; self.cells = {}; self.owner = owner; self.ro = False
    def copy(self, owner):
        o = Obj(self.size, owner); o.cells = dict(self.cells); o.ro = self.ro
        return o

class State:
    __slots__ = ("mem", "pc", "info")
    def __init__(self):
        self.mem = {}; self.pc = (); self.info = None
    def fork(self):
        s = State(); s.mem = dict(self.mem); s.pc = self.pc; s.info = self.info
        return s

MASK64 = (1 << 64) - 1

class Ex:
    def __init__(self, mod, merge=True, loop_bound=64, feas=None):
        self.m = mod; self.merge = merge; self.loop_bound = loop_bound
        self.bounds = []            # [(regex on function name, bound)]
        self.nobj = 0
        self.panics, self.unwound, self.events, self.faults = [], [], [], []
        self.intercepts = []        # [(regex, handler)]
        self.icache = {}
        self.redirect = {}
        self.encoded = set()        # functions executed
        self.steps = 0; self.paths = 0
        self.feas = feas            # feasibility oracle: (pc tuple) -> bool
        self.stack = []
        self.deadline = None
        self.mergefns = None        # functions run in merge mode although this is fork mode
        self.unwind_total = 0
        self.max_paths = None
    # -------------------------------------------------------------- memory
    def new(self, st, size):
        self.nobj += 1
        st.mem[self.nobj] = Obj(size, st)
        return addr(self.nobj)
    def obj(self, st, i, write=False):
        o = st.mem.get(i)
        if o is None:
            if GBASE <= i < FBASE:
                t, v = self.m.ginit(i)
                o = Obj(tsize(t))
                if v is None: raise Unsupported("external global " + self.m.gname[i])
                if not self.m.gconst(i): raise Stateful("state kept between calls: " + self.m.gname[i])
                self._put(o, 0, t, v)
                st.mem[i] = o
            else: raise Unsupported("dangling object %x" % i)
        if write and o.owner is not st:
            o = o.copy(st); st.mem[i] = o
        return o
    def _put(self, o, off, t, v):
        if type(t) is tuple:
            if t[0] == "v" and t[2] == 1: raise Unsupported("store of bit vector")
            for i, x in enumerate(v): self._put(o, off + llir.foffset(t, i), llir.ftype(t, i), x)
        else: self._store(o, off, tsize(t), v if t != 1 else zext(v, 1, 8))
    def _split(self, o, lo, hi):
        """Break cells overlapping [lo,hi) that are not inside it into bytes; drop the ones inside."""
        c = o.cells
        for a in range(lo - 15, hi):
            e = c.get(a)
            if e is None: continue
            n, v = e
            if a + n <= lo: continue
            del c[a]
            if a < lo or a + n > hi:
                for i in range(n):
                    if not lo <= a + i < hi: c[a + i] = (1, byte_of(v, i, n))
    def _store(self, o, off, n, v):
        c = o.cells
        e = c.get(off)
        if e is None or e[0] != n: self._split(o, off, off + n)
        c[off] = (n, v)
    def _load(self, o, off, n):
        e = o.cells.get(off)
        if e is not None and e[0] == n: return e[1]
        bs = []
        for a in range(off, off + n):
            x = UNDEF
            for b in range(a, a - 16, -1):
                e = o.cells.get(b)
                if e is not None:
                    if b + e[0] > a: x = byte_of(e[1], a - b, e[0])
                    break
            bs.append(x)
        if n > 1 and all(b is UNDEF for b in bs): return UNDEF
        return concat(bs)
    def resolve(self, st, a, n, what):
        """[(cond, objid, offset)] covering every possible target of address a."""
        if type(a) is not T:
            if a is UNDEF: raise Unsupported("undef address")
            return [(1, a >> 32, (a & 0xffffffff) - OFF)]
        if a.op == "ite":
            r = []
            for c, x in ((a.args[0], a.args[1]), (bnot(a.args[0]), a.args[2])):
                for c2, o, f in self.resolve(st, unwrap(x), n, what): r.append((band(c, c2), o, f))
            return r
        lo, hi = rng(a)
        if lo >> 32 != hi >> 32:
            if a.op == "add" and a.args[0].op == "ite":
                t = a.args[0]
                b = unwrap(a.args[1])
                return self.resolve(st, ite(t.args[0], ibin("add", unwrap(t.args[1]), b, 64), ibin("add", unwrap(t.args[2]), b, 64), 64), n, what)
            # base + symbolic offset of unknown range: find a constant base
            base = self._base(a)
            if base is None: raise Unsupported("symbolic address " + show(a))
            i = base >> 32
            o = self.obj(st, i)
            size = o.size
            if type(size) is T: size = rng(size)[1]
            lo, hi = addr(i), addr(i, size - n)
        i = lo >> 32
        o = self.obj(st, i)
        size = o.size
        if type(size) is T: size = rng(size)[1]
        b = addr(i)
        lo2, hi2 = max(lo, b), min(hi, b + size - n)
        if (lo2, hi2) != (lo, hi):
            bad = bnot(band(icmp("ule", lo2, a, 64), icmp("ule", a, hi2, 64))) if hi2 >= lo2 else 1
            if self.feas is not None and self.feas(st.pc + (bad,)):
                self.faults.append((st.pc + (bad,), "out-of-bounds " + what, tuple(self.stack)))
        if hi2 - lo2 > 4096: raise Unsupported("wide symbolic address")
        r = []
        for x in range(lo2, hi2 + 1):
            c = icmp("eq", a, x, 64)
            if type(c) is T or c: r.append((c, i, x - b))
        if self.feas is not None and len(r) > 1:
            r = [x for x in r if type(x[0]) is not T or self.feas(st.pc + (x[0],))]
        return r
    def _base(self, a):
        if type(a) is not T: return a if a >> 32 else None
        if a.op == "ic": return a.attr if a.attr >> 32 else None
        if a.op in ("add",):
            for x in a.args:
                r = self._base(x)
                if r is not None: return r
        return None
    def load(self, st, a, t):
        if type(t) is tuple:
            if t[0] == "v" and t[2] == 1: raise Unsupported("load of bit vector")
            n = t[1] if t[0] in ("a", "v") else len(t[1])
            return tuple(self.load(st, ibin("add", a, llir.foffset(t, i), 64), llir.ftype(t, i)) for i in range(n))
        n = tsize(t)
        r = None
        rs = self.resolve(st, a, n, "read")
        if not rs: raise Infeasible()
        for c, i, off in reversed(rs):
            o = self.obj(st, i)
            if type(o.size) is not T and not 0 <= off <= o.size - n:
                if len(rs) == 1:
                    self.faults.append((st.pc, "out-of-bounds read %d of %d" % (off, o.size), tuple(self.stack)))
                    raise Infeasible()
                continue
            v = self._conv(self._load(o, off, n), t)
            r = v if r is None else ite(c, v, r, sort_t(t))
        return r
    def _conv(self, v, t):
        if v is UNDEF: return v
        if t == "d":
            return i2f(v)
        if t == "f":
            if type(v) is float: return v
            raise Unsupported("float load")
        if type(v) is float: v = fbits(v)
        if type(v) is T and v.sort == "f": v = f2i(v)
        if t == 1: return trunc(v, 8, 1)
        if type(v) is T and v.sort == "b": v = zext(v, 1, t)
        return v
    def store(self, st, a, t, v):
        if type(t) is tuple:
            if t[0] == "v" and t[2] == 1: raise Unsupported("store of bit vector")
            for i, x in enumerate(v): self.store(st, ibin("add", a, llir.foffset(t, i), 64), llir.ftype(t, i), x)
            return
        n = tsize(t)
        if t == 1: v = zext(v, 1, 8)
        rs = self.resolve(st, a, n, "write")
        if len(rs) == 1:
            _, i, off = rs[0]
            o = self.obj(st, i, True)
            if type(o.size) is not T and not 0 <= off <= o.size - n:
                self.faults.append((st.pc, "out-of-bounds write", tuple(self.stack)))
                raise Infeasible()
            self._store(o, off, n, v)
        else:
            for c, i, off in rs:
                o = self.obj(st, i, True)
                if type(o.size) is not T and not 0 <= off <= o.size - n: continue
                old = self._load(o, off, n)
                s = "f" if t == "d" else 8 * n
                if t == "d": old = i2f(old)
                self._store(o, off, n, ite(c, v, old, s))
    def memcpy(self, st, d, s, n, move=False):
        if type(n) is T: raise Unsupported("symbolic memcpy length")
        if n == 0: return
        rs = self.resolve(st, s, 1, "copy")
        rd = self.resolve(st, d, 1, "copy")
        if len(rs) != 1 or len(rd) != 1:
            for i in range(n):
                self.store(st, ibin("add", d, i, 64), 8, self.load(st, ibin("add", s, i, 64), 8))
            return
        so = self.obj(st, rs[0][1]); soff = rs[0][2]
        items = []
        todo = []
        for a, (k, v) in so.cells.items():
            if a + k <= soff or a >= soff + n: continue
            if a >= soff and a + k <= soff + n: items.append((a - soff, k, v))
            else:
                for i in range(k):
                    if soff <= a + i < soff + n: items.append((a + i - soff, 1, byte_of(v, i, k)))
        do = self.obj(st, rd[0][1], True); doff = rd[0][2]
        for o, off in ((so, soff), (do, doff)):
            if type(o.size) is not T and (off < 0 or off + n > o.size):
                self.faults.append((st.pc, "out-of-bounds copy", tuple(self.stack))); raise Infeasible()
        if n > 64:
            for a in [a for a, (k, v) in do.cells.items() if a >= doff and a + k <= doff + n]: del do.cells[a]
            self._split(do, doff, doff + 1); self._split(do, doff + n - 1, doff + n)
        else: self._split(do, doff, doff + n)
        for a, k, v in items: do.cells[doff + a] = (k, v)
    def memset(self, st, d, b, n):
        if type(n) is T: raise Unsupported("symbolic memset length")
        if n == 0: return
        (c, i, off), = self.resolve(st, d, 1, "set")
        o = self.obj(st, i, True)
        a = off
        while a < off + n:
            if type(b) is not T and b is not UNDEF and a % 8 == 0 and a + 8 <= off + n:
                self._store(o, a, 8, int.from_bytes(bytes([b]) * 8, "little")); a += 8
            else: self._store(o, a, 1, b); a += 1
    def bytes_at(self, st, p, n):
        return [self.load(st, ibin("add", p, i, 64), 8) for i in range(n)]
    def put_bytes(self, st, bs):
        p = self.new(st, len(bs))
        for i, b in enumerate(bs): self.store(st, p + i, 8, b)
        return p
    # --------------------------------------------------------------- merging
    def merge_states(self, l):
        """l: [(state, regs)] -> (state, regs); rt gives register types."""
        l = list(l)
        while len(l) > 1:
            # the two that split last
            best = None
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    p, q = l[i][0].pc, l[j][0].pc
                    k = 0
                    while k < len(p) and k < len(q) and p[k] is q[k]: k += 1
                    if best is None or k > best[0]: best = (k, i, j)
            _, i, j = best
            b = l.pop(j); a = l.pop(i)
            l.insert(i, self._merge2(a, b))
        return l[0]
    def _merge2(self, A, B):
        (sa, ra, rt), (sb, rb, _) = A, B
        pa, pb = sa.pc, sb.pc
        i = 0
        while i < len(pa) and i < len(pb) and pa[i] is pb[i]: i += 1
        ca, cb = conj(pa[i:]), conj(pb[i:])
        j = bor(ca, cb)
        st = State()
        st.info = sa.info
        st.pc = pa[:i] + ((j,) if type(j) is T else ())
        # discriminating condition: the simpler of the two
        cond = ca
        sb_ = set(pb[i:])
        for p in pa[i:]:
            if type(p) is T and bnot(p) in sb_: cond = p; break
        for k in set(sa.mem) | set(sb.mem):
            x, y = sa.mem.get(k), sb.mem.get(k)
            if x is y or y is None: st.mem[k] = x
            elif x is None: st.mem[k] = y
            else: st.mem[k] = self._merge_obj(cond, x, y, st)
        regs = {}
        for k in ra:
            if k in rb:
                x, y = ra[k], rb[k]
                regs[k] = x if x is y else self._ite(cond, x, y, rt.get(k))
        return st, regs, rt
    def _ite(self, c, x, y, t):
        if type(t) is tuple:
            n = t[1] if t[0] in ("a", "v") else len(t[1])
            if x is UNDEF or y is UNDEF: return y if x is UNDEF else x
            return tuple(self._ite(c, x[i], y[i], llir.ftype(t, i)) for i in range(n))
        return ite(c, x, y, sort_t(t))
    def _merge_obj(self, c, x, y, st):
        if x.cells is y.cells: return x
        o = Obj(x.size, st); o.ro = x.ro
        cx, cy = x.cells, y.cells
        if cx.keys() != cy.keys() or any(cx[k][0] != cy[k][0] for k in cx):
            x, y = x.copy(None), y.copy(None)
            cx, cy = x.cells, y.cells
            for k in sorted(set(cx) | set(cy)):
                ex, ey = cx.get(k), cy.get(k)
                if ex and ey and ex[0] == ey[0]: continue
                # align layouts: cells missing on one side are read from it
                n = min(e[0] for e in (ex, ey) if e)
                for ob, e in ((x, ex), (y, ey)):
                    if e and e[0] == n: continue
                    v = self._load(ob, k, n)
                    self._split(ob, k, k + n)
                    ob.cells[k] = (n, v)
            ks = set(cx) | set(cy)
            for k in ks:
                if k not in cx or k not in cy or cx[k][0] != cy[k][0]:
                    # give up on sharing: bytes
                    bx = {}; 
                    for ob in (x, y):
                        for a in list(ob.cells):
                            n, v = ob.cells[a]
                            if n > 1:
                                del ob.cells[a]
                                for i in range(n): ob.cells[a + i] = (1, byte_of(v, i, n))
                    for a in set(cx) | set(cy):
                        cx.setdefault(a, (1, UNDEF)); cy.setdefault(a, (1, UNDEF))
                    break
        for k, (n, v) in cx.items():
            w = cy[k][1]
            if v is w: o.cells[k] = (n, v); continue
            s = 8 * n
            if n == 8 and any((type(z) is T and z.sort == "f") or type(z) is float for z in (v, w)): s = "f"
            if type(v) is T and v.sort == "b": v = zext(v, 1, s)
            if type(w) is T and w.sort == "b": w = zext(w, 1, s)
            o.cells[k] = (n, ite(c, v, w, s))
        return o
    # ------------------------------------------------------------- execution
    def call(self, name, args, st):
        """Run a defined function; returns [(state, value)]."""
        f = self.m.func(name)
        self.encoded.add(f.dem if f.dem != name else name)
        if len(self.stack) > 150: raise Unsupported("recursion")
        self.stack.append(f.dem)
        try:
            if not self.merge and self.mergefns and self.mergefns.search(f.dem):
                keep = (len(self.panics), len(self.unwound), len(self.events), len(self.faults))
                self.merge = True
                try: return self._run(f, args, st.fork())
                except (Unsupported, TypeError):
                    for l, n in zip((self.panics, self.unwound, self.events, self.faults), keep): del l[n:]
                finally: self.merge = False
            return self._run(f, args, st)
        finally: self.stack.pop()
    def bound_for(self, f):
        for r, b in self.bounds:
            if re.search(r, f.dem): return b
        return self.loop_bound
    def _run(self, f, args, st):
        regs = dict(zip(f.params, args))
        self.allocas_stack = getattr(self, "allocas_stack", [])
        outs = []
        base = self.nobj
        if self.merge: self._run_merge(f, regs, st, outs)
        else: self._run_fork(f, regs, st, outs)
        return outs
    def _finish(self, f, st, allocas):
        for i in allocas: st.mem.pop(i, None)
    def _edge(self, f, st, regs, b, s):
        """Registers on entry to s from b (phis done)."""
        blk = f.blocks[s]
        if blk[0][0] == "phi":
            new = {}
            for ins in blk:
                if ins[0] != "phi": break
                v = ins[3][b]
                new[ins[1]] = regs.get(v, UNDEF) if type(v) is str else v[0]
            lv = f.live[s]
            r = {k: v for k, v in regs.items() if k in lv}
            r.update(new)
            return r
        lv = f.live[s]
        return {k: v for k, v in regs.items() if k in lv}
    def _run_merge(self, f, regs, st, outs):
        pend, held, count = {}, {}, {}
        rank, loops = f.rank, f.loops
        entry = f.order[0]
        pend[entry] = [(st, regs, f.rt)]
        rets, allocas = [], []
        bound = self.bound_for(f)
        while pend or held:
            cand = min(pend, key=rank.__getitem__) if pend else None
            # a held loop head may run once its loop body has drained
            hs = [h for h in held if not any(b in loops[h] for b in pend) and not any(g != h and g in loops[h] and rank[g] > rank[h] for g in held)]
            hsel = min(hs, key=rank.__getitem__) if hs else None
            if hsel is not None and (cand is None or rank[hsel] < rank[cand]):
                b = hsel; l = held.pop(b)
                count[b] = count.get(b, 0) + 1
                if count[b] > bound:
                    for s, r, _ in l: self.unwound.append((s.pc, f.dem, b, bound))
                    continue
            else:
                if cand is None: raise Unsupported("scheduling")
                b = cand; l = pend.pop(b)
                if b in loops: count[b] = 0
            s, r, _ = self.merge_states(l)
            for (kind, s2, r2, nb) in self._block(f, s, dict(r), b, 0, allocas):
                if kind == "ret": rets.append((s2, {"r": r2}, {"r": nb}))
                else:
                    (held if (b, nb) in f.backedges else pend).setdefault(nb, []).append((s2, r2, f.rt))
        if rets:
            s, r, _ = self.merge_states(rets)
            self._finish(f, s, allocas)
            outs.append((s, r["r"]))
    def _run_fork(self, f, regs, st, outs):
        entry = f.order[0]
        bound = self.bound_for(f)
        work = [(st, regs, entry, 0, {}, ())]
        while work:
            s, r, b, i, cnt, allo = work.pop()
            allocas = list(allo)
            for res in self._block(f, s, dict(r), b, i, allocas):
                kind, s2, r2, nb = res[:4]
                if kind == "ret":
                    self._finish(f, s2, allocas)
                    outs.append((s2, r2))
                elif kind == "cont":     # after a call with several outcomes: resume at index nb
                    work.append((s2, r2, b, nb, cnt, tuple(allocas)))
                else:
                    c2 = cnt
                    if (b, nb) in f.backedges:
                        c2 = dict(cnt); c2[nb] = c2.get(nb, 0) + 1
                        if c2[nb] > bound:
                            self.unwound.append((s2.pc, f.dem, nb, bound)); continue
                    elif nb in f.loops:
                        c2 = dict(cnt); c2[nb] = 0
                    work.append((s2, r2, nb, 0, c2, tuple(allocas)))
            if self.deadline and time.time() > self.deadline: raise Unsupported("time limit")
    def val(self, regs, o):
        return regs[o] if type(o) is str else o[0]
    def _assume(self, st, c):
        if type(c) is not T: return st if c else None
        for p in st.pc:
            if p is c: return st
        n = bnot(c)
        for p in st.pc:
            if p is n: return None
        st.pc = st.pc + (c,)
        return st
    def _refine(self, st, regs, c):
        """Under assumption c, ite(c, x, y) held in registers or memory is x."""
        n = bnot(c)
        def go(v):
            while type(v) is T and v.op == "ite":
                if v.args[0] is c: v = unwrap(v.args[1])
                elif v.args[0] is n: v = unwrap(v.args[2])
                else: break
            return v
        for k, v in regs.items():
            if type(v) is T and v.op == "ite": regs[k] = go(v)
        for k in list(st.mem):
            o = st.mem[k]
            if k >= GBASE: continue
            for a, (sz, v) in o.cells.items():
                if type(v) is T and v.op == "ite" and (v.args[0] is c or v.args[0] is n): break
            else: continue
            o = self.obj(st, k, True)
            for a, (sz, v) in list(o.cells.items()): o.cells[a] = (sz, go(v))
    def _block(self, f, st, regs, b, start, allocas):
        """Runs block b from instruction start; yields (kind, state, regs, next)."""
        blk = f.blocks[b]
        for ix in range(start, len(blk)):
            ins = blk[ix]
            o = ins[0]
            self.steps += 1
            if o == "phi": continue
            try:
                if o == "cbr":
                    c = self.val(regs, ins[1])
                    if c is UNDEF: raise Unsupported("branch on undef in " + f.dem)
                    if type(c) is not T:
                        t = ins[2] if c else ins[3]
                        return [("go", st, self._edge(f, st, regs, b, t), t)]
                    out = []
                    for cc, t in ((c, ins[2]), (bnot(c), ins[3])):
                        s2 = self._assume(st.fork(), cc)
                        if s2 is None: continue
                        if not self.merge and not self.feas(s2.pc): continue
                        r2 = self._edge(f, s2, regs, b, t)
                        if self.merge: self._refine(s2, r2, cc)
                        out.append(("go", s2, r2, t))
                    if not self.merge and len(out) == 2: self.paths += 1
                    return out
                if o == "br":
                    return [("go", st, self._edge(f, st, regs, b, ins[1]), ins[1])]
                if o == "switch":
                    v = self.val(regs, ins[2])
                    if v is UNDEF: raise Unsupported("switch on undef")
                    if type(v) is not T:
                        t = ins[3]
                        for k, l in ins[4]:
                            if k == v: t = l; break
                        return [("go", st, self._edge(f, st, regs, b, t), t)]
                    out, rest = [], 1
                    for k, l in ins[4]:
                        c = icmp("eq", v, k, ins[1])
                        s2 = self._assume(st.fork(), c)
                        if s2 is not None and (self.merge or type(c) is not T or self.feas(s2.pc)):
                            out.append(("go", s2, self._edge(f, s2, regs, b, l), l))
                        rest = band(rest, bnot(c))
                    s2 = self._assume(st.fork(), rest)
                    if s2 is not None and f.blocks[ins[3]][0][0] != "unreachable" and (self.merge or type(rest) is not T or self.feas(s2.pc)):
                        out.append(("go", s2, self._edge(f, s2, regs, b, ins[3]), ins[3]))
                    return out
                if o == "ret":
                    return [("ret", st, self.val(regs, ins[2]) if ins[2] is not None else None, ins[1])]
                if o == "unreachable":
                    return []
                if o == "call":
                    outs = self.do_call(f, st, regs, ins)
                    if ins[7]:   # invoke
                        res = []
                        for s2, v in outs:
                            r2 = dict(regs)
                            if ins[1]: r2[ins[1]] = v
                            res.append(("go", s2, self._edge(f, s2, r2, b, ins[7]), ins[7]))
                        return res
                    if len(outs) == 1:
                        st, v = outs[0]
                        if ins[1]: regs[ins[1]] = v
                        continue
                    if not outs: return []
                    res = []
                    for s2, v in outs:
                        r2 = dict(regs)
                        if ins[1]: r2[ins[1]] = v
                        res.append(("cont", s2, r2, ix + 1))
                    if self.merge:
                        raise Unsupported("several outcomes in merge mode")
                    return res
                self.simple(st, regs, ins, allocas)
            except Infeasible:
                return []
        raise Unsupported("fell off block")
    def simple(self, st, regs, ins, allocas):
        o = ins[0]; val = self.val
        if o == "load": regs[ins[1]] = self.load(st, val(regs, ins[3]), ins[2])
        elif o == "store": self.store(st, val(regs, ins[3]), ins[1], val(regs, ins[2]))
        elif o == "gep":
            a = val(regs, ins[2])
            if ins[3]: a = ibin("add", a, ins[3] & MASK64, 64)
            for r, w, sz in ins[4]:
                v = val(regs, r)
                if w != 64: v = sext(v, w, 64)
                a = ibin("add", a, ibin("mul", v, sz, 64), 64)
            regs[ins[1]] = a
        elif o == "alloca":
            n = val(regs, ins[3])
            p = self.new(st, ins[2] * n)
            allocas.append(p >> 32)
            regs[ins[1]] = p
        elif o == "ibin":
            t = ins[3]; a, b = val(regs, ins[4]), val(regs, ins[5])
            if type(t) is tuple: regs[ins[1]] = tuple(ibin(ins[2], x, y, t[2]) for x, y in zip(a, b))
            else: regs[ins[1]] = ibin(ins[2], a, b, t)
        elif o == "fbin":
            a, b = val(regs, ins[4]), val(regs, ins[5])
            fn = {"fadd": fadd, "fsub": fsub, "fmul": fmul, "fdiv": fdiv, "frem": frem}[ins[2]]
            regs[ins[1]] = tuple(fn(x, y) for x, y in zip(a, b)) if type(a) is tuple else fn(a, b)
        elif o == "fneg":
            regs[ins[1]] = fneg(val(regs, ins[3]))
        elif o == "icmp":
            t = ins[3]; a, b = val(regs, ins[4]), val(regs, ins[5])
            if type(t) is tuple:
                w = sort_t(t[2])
                regs[ins[1]] = tuple(icmp(ins[2], x, y, w) for x, y in zip(a, b))
            else: regs[ins[1]] = icmp(ins[2], a, b, 64 if t == "p" else t)
        elif o == "fcmp":
            regs[ins[1]] = fcmp(ins[2], val(regs, ins[4]), val(regs, ins[5]))
        elif o == "cast":
            a = val(regs, ins[4]); t, tt = ins[3], ins[5]
            if type(t) is tuple and type(tt) is tuple and t[1] == tt[1]:
                regs[ins[1]] = tuple(self.cast(ins[2], x, t[2], tt[2]) for x in a)
            elif type(t) is tuple or type(tt) is tuple:
                regs[ins[1]] = self.vcast(a, t, tt)
            else: regs[ins[1]] = self.cast(ins[2], a, t, tt)
        elif o == "select":
            c, a, b = val(regs, ins[3]), val(regs, ins[4]), val(regs, ins[5])
            if c is UNDEF: raise Unsupported("select on undef")
            if type(c) is tuple:
                regs[ins[1]] = tuple(self._ite(z, x, y, ins[2][2]) for z, x, y in zip(c, a, b))
            else: regs[ins[1]] = self._ite(c, a, b, ins[2]) if type(c) is T else (a if c else b)
        elif o == "copy": regs[ins[1]] = val(regs, ins[2])
        elif o == "extractvalue":
            v = val(regs, ins[2])
            for i in ins[3]: v = UNDEF if v is UNDEF else v[i]
            regs[ins[1]] = v
        elif o == "insertvalue":
            v = val(regs, ins[2])
            if v is UNDEF: v = llir.undef(ins[5])
            regs[ins[1]] = self._ins(v, ins[4], val(regs, ins[3]))
        elif o == "extractelement":
            v = val(regs, ins[2]); i = val(regs, ins[3])
            regs[ins[1]] = v[i]
        elif o == "insertelement":
            v = list(val(regs, ins[2])) if val(regs, ins[2]) is not UNDEF else [UNDEF] * ins[5][1]
            v[val(regs, ins[4])] = val(regs, ins[3]); regs[ins[1]] = tuple(v)
        elif o == "shuffle":
            a, b, m = val(regs, ins[3]), val(regs, ins[4]), val(regs, ins[5])
            n = ins[2][1]
            if a is UNDEF: a = (UNDEF,) * n
            if b is UNDEF: b = (UNDEF,) * n
            ab = tuple(a) + tuple(b)
            regs[ins[1]] = tuple(UNDEF if i is UNDEF else ab[i] for i in m)
        elif o == "nop": pass
        elif o == "armw":
            a = val(regs, ins[4]); old = self.load(st, a, ins[3]); v = val(regs, ins[5])
            if ins[2] == "xchg": n = v
            elif ins[2] in ("add", "sub", "and", "or", "xor"): n = ibin(ins[2], old, v, ins[3])
            else: raise Unsupported("atomicrmw " + ins[2])
            self.store(st, a, ins[3], n); regs[ins[1]] = old
        else: raise Unsupported("instruction " + o)
    def _ins(self, v, ix, e):
        if not ix: return e
        l = list(v); l[ix[0]] = self._ins(l[ix[0]], ix[1:], e)
        return tuple(l)
    def vcast(self, a, t, tt):
        if type(t) is tuple and t[2] == 1 and type(tt) is int:
            r = 0
            for i, x in enumerate(a): r = ibin("or", r, ibin("shl", zext(x, 1, tt), i, tt), tt)
            return r
        if type(t) is tuple and type(tt) is int:
            bs = []
            for x in a:
                n = tsize(t[2])
                bs += [byte_of(x, i, n) for i in range(n)]
            return concat(bs)
        raise Unsupported("vector bitcast")
    def cast(self, op, a, t, tt):
        if a is UNDEF: return UNDEF
        if op == "zext": return zext(a, t, tt)
        if op == "sext": return sext(a, t, tt)
        if op == "trunc": return trunc(a, t, tt)
        if op in ("ptrtoint", "inttoptr"):
            if op == "ptrtoint" and tt != 64: return trunc(a, 64, tt)
            return a
        if op == "bitcast":
            if tt == "d": return i2f(a)
            if t == "d": return f2i(a)
            return a
        if op == "uitofp": return int2fp(a, t, False)
        if op == "sitofp": return int2fp(a, t, True)
        if op == "fptoui": return fp2int(a, tt, False)
        if op == "fptosi": return fp2int(a, tt, True)
        if op in ("fpext",): return a
        raise Unsupported("cast " + op)
    # ----------------------------------------------------------------- calls
    def do_call(self, f, st, regs, ins):
        _, dest, rt, callee, args, ats, noret, nxt = ins
        if callee[0] == "g": name = callee[1]
        else:
            a = regs[callee[1]]
            if type(a) is T: raise Unsupported("symbolic callee")
            name = self.m.fname.get(a >> 32)
            if name is None: raise Unsupported("indirect call target")
        av = [self.val(regs, x) if t != "metadata" else 0 for x, t in zip(args, ats)]
        return self.dispatch(st, name, av, rt, ats, noret)
    def dispatch(self, st, name, av, rt=None, ats=None, noret=False):
        if name.startswith("@llvm."):
            return [(st, self.intrinsic(st, name[6:], av, rt))]
        h = self.icache.get(name, 0)
        if h == 0:
            h = None
            dem = self.m.dem.get(name, name)
            for r, fn in self.intercepts:
                if re.search(r, dem) or re.search(r, name): h = fn; break
            self.icache[name] = h
        if h is not None:
            self.cur = name
            r = h(self, st, av, rt)
            return r if type(r) is list else [(st, r)]
        if name in LIBM and name not in self.m.defs:
            return [(st, ffun(LIBM[name], *av))]
        if noret or self._noreturn(name):
            self.panics.append((st.pc, self.m.dem.get(name, name), tuple(self.stack), st))
            return []
        r = self.redirect.get(name)
        if r: name = r
        if name in self.m.defs: return self.call(name, av, st)
        h = EXTERNS.get(name)
        if h: 
            r = h(self, st, av, rt)
            return r if type(r) is list else [(st, r)]
        raise Unsupported("external function " + name)
    def _noreturn(self, name):
        s = self.m.decls.get(name)
        if s is None:
            i = self.m.defs.get(name)
            if i is None: return False
            s = self.m.text[i:self.m.text.index("\n", i)]
        if " noreturn" in s: return True
        return any("noreturn" in self.m.attr.get(a, "") for a in re.findall(r"#\d+", s[s.index(name):]))
    def intrinsic(self, st, n, a, rt):
        b = n.split(".")[0]
        if b in ("lifetime", "assume", "experimental", "dbg", "prefetch", "invariant", "var"): return None
        if n.startswith("memcpy") or n.startswith("memmove"): self.memcpy(st, a[0], a[1], a[2]); return None
        if n.startswith("memset"): self.memset(st, a[0], a[1], a[2]); return None
        w = int(n.rsplit(".i", 1)[1].split(".")[0]) if ".i" in n and n.rsplit(".i", 1)[1].split(".")[0].isdigit() else None
        if b in ("sin", "cos", "tan", "sqrt", "pow", "floor", "exp", "log", "ceil", "atan2", "asin", "acos", "atan"): return ffun(b, *a)
        if b == "trunc" : return ffun("trunc_f", *a)
        if b in ("round",): return ffun("round", *a)
        if b == "fabs": return fabs_(a[0])
        if b == "copysign":
            return ite(flt(a[1], 0.0), fneg(fabs_(a[0])), fabs_(a[0]), "f")
        if b in ("minnum", "minimumnum"): return ite(flt(a[0], a[1]), a[0], a[1], "f")
        if b in ("maxnum", "maximumnum"): return ite(flt(a[1], a[0]), a[0], a[1], "f")
        if b == "fmuladd": return fadd(fmul(a[0], a[1]), a[2])
        if b == "fma": return ffun("fma", *a) if any(type(x) is T for x in a) else a[0] * a[1] + a[2]
        if b == "powi":
            if type(a[1]) is T: raise Unsupported("symbolic powi")
            return powi(a[0], sgn(a[1], 32))
        if n.startswith("fptoui.sat"): return fp2int(a[0], int(n.split(".")[2][1:]), False)
        if n.startswith("fptosi.sat"): return fp2int(a[0], int(n.split(".")[2][1:]), True)
        if b == "umin": return self._ite(icmp("ult", a[0], a[1], w), a[0], a[1], w)
        if b == "umax": return self._ite(icmp("ult", a[0], a[1], w), a[1], a[0], w)
        if b == "smin": return self._ite(icmp("slt", a[0], a[1], w), a[0], a[1], w)
        if b == "smax": return self._ite(icmp("slt", a[0], a[1], w), a[1], a[0], w)
        if ".with.overflow" in n:
            return ovf(n[0], n[1:4], a[0], a[1], w)
        if n.startswith("usub.sat"): return self._ite(icmp("ult", a[0], a[1], w), 0, ibin("sub", a[0], a[1], w), w)
        if n.startswith("uadd.sat"):
            r, o = ovf("u", "add", a[0], a[1], w); return self._ite(o, (1 << w) - 1, r, w)
        if b == "abs":
            return self._ite(icmp("slt", a[0], 0, w), ibin("sub", 0, a[0], w), a[0], w)
        if b == "fshl" and type(a[2]) is not T:
            k = a[2] % w
            return a[0] if k == 0 else ibin("or", ibin("shl", a[0], k, w), ibin("lshr", a[1], w - k, w), w)
        if b == "bitreverse":
            r = 0
            for i in range(w):
                x = ibin("and", ibin("lshr", a[0], i, w), 1, w)
                r = ibin("or", r, ibin("shl", x, w - 1 - i, w), w)
            return r
        if b in ("cttz", "ctlz", "ctpop", "bswap"):
            v = a[0]
            if type(v) is not T:
                if b == "cttz": return w if v == 0 else (v & -v).bit_length() - 1
                if b == "ctlz": return w - v.bit_length()
                if b == "ctpop": return bin(v).count("1")
                return int.from_bytes(v.to_bytes(w // 8, "little"), "big")
            if b == "bswap": return concat([byte_of(v, i, w // 8) for i in reversed(range(w // 8))])
            r = w
            if b == "cttz":
                for i in reversed(range(w)): r = ite(bnot(icmp("eq", ibin("and", v, 1 << i, w), 0, w)), i, r, w)
                return r
            if b == "ctlz":
                for i in range(w): r = ite(bnot(icmp("eq", ibin("and", v, 1 << i, w), 0, w)), w - 1 - i, r, w)
                return r
            r = 0
            for i in range(w): r = ibin("add", r, ibin("and", ibin("lshr", v, i, w), 1, w), w)
            return r
        if n.startswith("ucmp") or n.startswith("scmp"):
            p = "u" if n[0] == "u" else "s"
            aw = int(n.split(".")[2][1:]); rw = int(n.split(".")[1][1:])
            return self._ite(icmp(p + "lt", a[0], a[1], aw), (1 << rw) - 1, self._ite(icmp("eq", a[0], a[1], aw), 0, 1, rw), rw)
        if n.startswith("vector.reduce.and"): return conj(a[0])
        if n.startswith("vector.reduce.or"): return disj(a[0])
        if n.startswith("is.constant"): return 0
        if b == "threadlocal": return a[0]
        if b == "trap":
            self.panics.append((st.pc, "trap", tuple(self.stack), st)); raise Infeasible()
        raise Unsupported("intrinsic " + n)

def ovf(s, op, a, b, w):
    r = ibin(op, a, b, w)
    if type(a) is not T and type(b) is not T:
        x, y = (sgn(a, w), sgn(b, w)) if s == "s" else (a, b)
        v = {"add": x + y, "sub": x - y, "mul": x * y}[op]
        v2 = sgn(r, w) if s == "s" else r
        return (r, int(v != v2))
    ra, rb = rng(a), rng(b)
    if s == "u":
        if op == "add":
            if ra[1] + rb[1] <= (1 << w) - 1: return (r, 0)
            return (r, icmp("ult", r, a, w))
        if op == "sub": return (r, icmp("ult", a, b, w))
        if ra[1] * rb[1] <= (1 << w) - 1: return (r, 0)
    else:
        if nonneg(a, w) and nonneg(b, w):
            m = (1 << (w - 1)) - 1
            if op == "add" and ra[1] + rb[1] <= m: return (r, 0)
            if op == "sub": return (r, 0)
            if op == "mul" and ra[1] * rb[1] <= m: return (r, 0)
        if op in ("add", "sub"):
            A, B = sext(a, w, w + 1), sext(b, w, w + 1)
            R = ibin(op, A, B, w + 1)
            return (r, bnot(icmp("eq", R, sext(r, w, w + 1), w + 1)))
    ext = sext if s == "s" else zext
    A, B = ext(a, w, 2 * w), ext(b, w, 2 * w)
    return (r, bnot(icmp("eq", ibin(op, A, B, 2 * w), ext(r, w, 2 * w), 2 * w)))

LIBM = {"@" + n: n for n in ("sin", "cos", "tan", "asin", "acos", "atan", "atan2", "pow", "exp", "log", "sqrt", "floor", "ceil", "hypot", "cbrt", "round")}
LIBM["@fmod"] = "frem"
def _bcmp(ex, st, a, rt):
    n = a[2]
    if type(n) is T: raise Unsupported("symbolic bcmp length")
    d = 1
    for i in range(n):
        d = band(d, icmp("eq", ex.load(st, ibin("add", a[0], i, 64), 8), ex.load(st, ibin("add", a[1], i, 64), 8), 8))
    return ite(d, 0, 1, 32) if type(d) is T else (0 if d else 1)
def _memcmp(ex, st, a, rt):
    n = a[2]
    if type(n) is T: raise Unsupported("symbolic memcmp length")
    r = 0
    for i in reversed(range(n)):
        x, y = ex.load(st, ibin("add", a[0], i, 64), 8), ex.load(st, ibin("add", a[1], i, 64), 8)
        r = ite(icmp("eq", x, y, 8), r, ite(icmp("ult", x, y, 8), 0xffffffff, 1, 32), 32)
    return r
EXTERNS = {"@bcmp": _bcmp, "@memcmp": _memcmp}
