"""Lazy parser for textual LLVM IR: functions become lists of blocks of
instruction tuples, globals become byte images, both on first use."""
import re, struct, bisect
from term import UNDEF, bitsf

TOK = re.compile(r'''\s*(?:
  (?P<s>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%(?:"[^"]*"|[-\w.$]+))
 |(?P<glob>@(?:"[^"]*"|[-\w.$]+))
 |(?P<meta>![\w."]*)
 |(?P<attr>\#\d+)
 |(?P<hex>f?0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<inf>[+-](?:inf|qnan|nan|snan)(?:\(0x[0-9A-Fa-f]+\))?)
 |(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 |(?P<word>[a-zA-Z_][\w.]*)
 |(?P<p>\.\.\.|<\{|\}>|[\[\](){}<>,=*:|])
)''', re.X)

GBASE, FBASE = 0x10000000, 0x40000000
OFF = 0x10000          # every object starts at this offset inside its 4 GB slot
def addr(objid, off=0): return (objid << 32) + OFF + off

def tokens(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "": break
            raise SyntaxError("token: " + s[i:i + 60])
        i = m.end()
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out

# types: int n (iN), 'p', 'd' (double), 'f' (float), 'v', ('a',n,t), ('s',(t..),packed), ('v',n,t)
def tsize(t):
    if type(t) is int: return (t + 7) // 8 if t <= 64 else 16 * ((t + 127) // 128)
    if t == "p" or t == "d": return 8
    if t == "f": return 4
    if t[0] == "a": return t[1] * tsize(t[2])
    if t[0] == "v": return max(1, t[1] * (1 if t[2] == 1 else tsize(t[2]) * 8) // 8)
    if t[0] == "s":
        o = 0
        for x in t[1]:
            if not t[2]: o = -(-o // talign(x)) * talign(x)
            o += tsize(x)
        if not t[2]: o = -(-o // talign(t)) * talign(t)
        return o
    raise KeyError(t)
def talign(t):
    if type(t) is int:
        return 16 if t > 64 else 1 << max(0, (tsize(t) - 1).bit_length())
    if t in ("p", "d"): return 8
    if t == "f": return 4
    if t[0] == "a": return talign(t[2])
    if t[0] == "v": return tsize(t)
    if t[0] == "s": return 1 if t[2] else max([talign(x) for x in t[1]] or [1])
def foffset(t, i):
    if t[0] in ("a", "v"): return i * tsize(t[2])
    o = 0
    for j, x in enumerate(t[1]):
        if not t[2]: o = -(-o // talign(x)) * talign(x)
        if j == i: return o
        o += tsize(x)
    raise IndexError
def ftype(t, i):
    return t[2] if t[0] in ("a", "v") else t[1][i]
def zero(t):
    if type(t) is int or t == "p": return 0
    if t in ("d", "f"): return 0.0
    if t[0] in ("a", "v"): return (zero(t[2]),) * t[1]
    return tuple(zero(x) for x in t[1])
def undef(t):
    if type(t) is tuple:
        if t[0] in ("a", "v"): return (undef(t[2]),) * t[1]
        return tuple(undef(x) for x in t[1])
    return UNDEF

ATTRW = set("noundef nonnull readonly readnone writeonly writable noalias nocapture signext zeroext inreg nofree returned noinline inbounds nuw nsw exact disjoint samesign nneg nusw immarg dead_on_unwind allocptr allocalign nest swiftself inrange volatile unordered monotonic acquire release acq_rel seq_cst weak fast nnan ninf nsz arcp contract afn reassoc unnamed_addr local_unnamed_addr noundef dso_local fastcc ccc coldcc tail musttail notail dead_on_return".split())
ATTRP = set("align dereferenceable dereferenceable_or_null sret byval captures range initializes memory elementtype nofpclass preallocated inalloca byref syncscope alignstack addrspace".split())

class P:
    """Token cursor."""
    def __init__(self, mod, s):
        self.m = mod; self.t = tokens(s); self.i = 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else (None, None)
    def next(self):
        r = self.t[self.i]; self.i += 1; return r
    def eat(self, v):
        if self.peek()[1] == v: self.i += 1; return True
        return False
    def need(self, v):
        k, x = self.next()
        if x != v: raise SyntaxError("expected %s got %s in %s" % (v, x, self.t))
    def attrs(self):
        while True:
            k, v = self.peek()
            if k == "word" and v in ATTRW: self.i += 1
            elif k == "word" and v in ATTRP:
                self.i += 1
                if self.peek()[1] == "(": self.parens()
                elif self.peek()[0] == "num": self.i += 1
            elif k == "s": # string attribute "x"="y"
                self.i += 1
                if self.eat("="): self.i += 1
            else: return
    def parens(self):
        d = 0
        while True:
            k, v = self.next()
            if v == "(": d += 1
            elif v == ")":
                d -= 1
                if d == 0: return
    def type(self):
        k, v = self.next()
        if k == "word":
            if v[0] == "i" and v[1:].isdigit(): t = int(v[1:])
            elif v == "ptr":
                t = "p"
                if self.peek()[1] == "addrspace": self.attrs()
            elif v == "double": t = "d"
            elif v == "float": t = "f"
            elif v == "half": t = 16
            elif v == "void": t = "v"
            elif v in ("label", "metadata"): t = v
            else: raise SyntaxError("type " + v)
        elif k == "loc":
            t = self.m.named_type(v)
        elif v == "[":
            n = int(self.next()[1]); self.need("x"); e = self.type(); self.need("]"); t = ("a", n, e)
        elif v == "<":
            n = int(self.next()[1]); self.need("x"); e = self.type(); self.need(">"); t = ("v", n, e)
        elif v in ("{", "<{"):
            l = []
            end = "}" if v == "{" else "}>"
            while not self.eat(end):
                l.append(self.type()); self.eat(",")
            t = ("s", tuple(l), v == "<{")
        else: raise SyntaxError("type %s" % v)
        if self.peek()[1] == "(" and t in ("v",): pass
        return t
    def const(self, t):
        """Constant of type t as a concrete value."""
        k, v = self.next()
        if k == "inf": return float(v[0] + ("inf" if "inf" in v else "nan"))
        if k == "num":
            if t in ("d", "f"): return float(v)
            if "." in v: return struct.unpack("<H", struct.pack("<e", float(v)))[0]
            return int(v) & ((1 << t) - 1)
        if k == "hex":
            if v[0] == "f": v = v[1:]
            if t == "f": return bitsf(int(v, 16)) if len(v) == 18 else struct.unpack("<f", struct.pack("<I", int(v, 16)))[0]
            return bitsf(int(v, 16)) if t == "d" else int(v, 16)
        if k == "glob": return self.m.gaddr(v)
        if k == "s": # c"..."
            b = unesc(v[2:-1])
            return tuple(b)
        if k == "word":
            if v == "true": return 1
            if v == "false": return 0
            if v in ("null",): return 0
            if v in ("undef", "poison"): return undef(t)
            if v in ("zeroinitializer", "none"): return zero(t)
            if v == "splat":
                self.need("("); et = self.type(); x = self.const(et); self.need(")")
                return (x,) * t[1]
            if v == "getelementptr":
                self.attrs(); self.need("(")
                bt = self.type(); self.need(",")
                self.type(); base = self.const("p")
                off, cur, first = 0, bt, True
                while self.eat(","):
                    self.attrs()
                    it = self.type(); ix = self.const(it)
                    if ix >> (it - 1): ix -= 1 << it
                    if first: off += ix * tsize(bt); first = False
                    else: off += foffset(cur, ix); cur = ftype(cur, ix)
                self.need(")")
                return (base + off) & (2**64 - 1)
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext"):
                self.need("("); st = self.type(); x = self.const(st); self.need("to"); tt = self.type(); self.need(")")
                if type(tt) is int: x &= (1 << tt) - 1
                return x
            if v in ("sub", "add"):
                self.attrs(); self.need("("); st = self.type(); x = self.const(st); self.need(","); self.type(); y = self.const(st); self.need(")")
                return (x - y if v == "sub" else x + y) & ((1 << st) - 1)
            raise SyntaxError("const " + v)
        if v in ("{", "<{", "[", "<"):
            end = {"{": "}", "<{": "}>", "[": "]", "<": ">"}[v]
            l = []
            while not self.eat(end):
                et = self.type(); l.append(self.const(et)); self.eat(",")
            return tuple(l)
        raise SyntaxError("const %s %s" % (k, v))
    def val(self, t):
        """Operand: (reg name) str or 1-tuple constant."""
        k, v = self.peek()
        if k == "loc": self.i += 1; return v[1:].strip('"')
        return (self.const(t),)
    def tval(self):
        t = self.type(); self.attrs()
        if t == "metadata":
            self.skip_meta(); return t, (0,)
        return t, self.val(t)
    def skip_meta(self):
        d = 0
        while self.i < len(self.t):
            v = self.peek()[1]
            if d == 0 and v in (",", ")"): return
            if v in ("(", "{"): d += 1
            if v in (")", "}"): d -= 1
            self.i += 1
    def label(self):
        self.need("label"); return self.next()[1][1:].strip('"')

def unesc(s):
    out, i = bytearray(), 0
    b = s.encode("latin1")
    while i < len(b):
        if b[i] == 92:
            if b[i + 1] == 92: out.append(92); i += 2
            else: out.append(int(b[i + 1:i + 3], 16)); i += 3
        else: out.append(b[i]); i += 1
    return bytes(out)

class Func:
    __slots__ = ("name", "params", "ptypes", "blocks", "order", "ret", "loops", "rank", "dem", "live", "backedges", "rt")

class Module:
    def __init__(self, path):
        self.text = open(path, encoding="latin1").read()
        self.defs, self.gl, self.types, self.attr, self.decls, self.dem = {}, {}, {}, {}, {}, {}
        self.tcache = {}
        for m in re.finditer(r'^define [^\n]*?(@(?:"[^"]*"|[-\w.$]+))\(', self.text, re.M):
            self.defs[m.group(1)] = m.start()
        for m in re.finditer(r'^declare [^\n]*?(@(?:"[^"]*"|[-\w.$]+))\([^\n]*', self.text, re.M):
            self.decls[m.group(1)] = m.group(0)
        for m in re.finditer(r'^(@(?:"[^"]*"|[-\w.$]+)) = ([^\n]*)', self.text, re.M):
            self.gl[m.group(1)] = m.group(2)
        for m in re.finditer(r'^(%(?:"[^"]*"|[-\w.$]+)) = type ([^\n]*)', self.text, re.M):
            self.types[m.group(1)] = m.group(2)
        for m in re.finditer(r'^attributes (#\d+) = \{([^\n]*)\}', self.text, re.M):
            self.attr[m.group(1)] = m.group(2)
        # demangled names, from the comments rustc leaves before calls
        for m in re.finditer(r'^; (?:call|invoke) ([^\n]*)\n[^\n@]*(@(?:"[^"]*"|[-\w.$]+))\(', self.text, re.M):
            self.dem.setdefault(m.group(2), m.group(1))
        self.gid, self.gname, self.fid, self.fname = {}, {}, {}, {}
        self.funcs = {}
    def named_type(self, n):
        if n not in self.tcache: self.tcache[n] = P(self, self.types[n]).type()
        return self.tcache[n]
    def gaddr(self, name):
        """Address of a global or function."""
        if name in self.gl:
            if name not in self.gid:
                i = GBASE + len(self.gid); self.gid[name] = i; self.gname[i] = name
            return addr(self.gid[name])
        if name in self.defs or name in self.decls:
            if name not in self.fid:
                i = FBASE + len(self.fid); self.fid[name] = i; self.fname[i] = name
            return addr(self.fid[name])
        raise KeyError(name)
    def ginit(self, i):
        """(type, value or None if external) of a global."""
        s = self.gl[self.gname[i]]
        p = P(self, re.sub(r', (align \d+|!.*|section .*|comdat.*).*$', '', s))
        ext = False
        while True:
            k, v = p.peek()
            if k == "word" and v in ("private", "internal", "constant", "global", "unnamed_addr", "local_unnamed_addr", "dso_local", "hidden", "external", "thread_local", "linkonce_odr", "weak", "weak_odr", "alias", "externally_initialized", "default", "protected", "extern_weak"):
                p.i += 1
                if v in ("external", "extern_weak"): ext = True
                if v == "thread_local" and p.peek()[1] == "(": p.parens()
            else: break
        t = p.type()
        return t, (None if ext else p.const(t))
    def gconst(self, i):
        """a constant, or an allocator marker of the runtime"""
        s = self.gl[self.gname[i]]
        return re.search(r'(^|\s)constant\s', s) is not None or "__rust_no_alloc_shim" in self.gname[i]
    def func(self, name):
        if name in self.funcs: return self.funcs[name]
        s = self.defs[name]
        e = self.text.index("\n}\n", s)
        f = self._parse(name, self.text[s:e])
        self.funcs[name] = f
        return f
    def _parse(self, name, text):
        lines = text.split("\n")
        head = lines[0]
        f = Func(); f.name = name; f.dem = self.dem.get(name, name)
        p = P(self, head[head.index(name + "(") + len(name):head.rindex("{")])
        p.need("(")
        f.params, f.ptypes = [], []
        while not p.eat(")"):
            t = p.type(); p.attrs()
            k, v = p.peek()
            if k == "loc": p.i += 1; nm = v[1:].strip('"')
            else: nm = str(len(f.params))
            f.params.append(nm); f.ptypes.append(t); p.eat(",")
        f.blocks, f.order = {}, []
        cur, lab = [], None
        # entry label: explicit, or the number after the unnamed parameters
        n = len([x for x in f.params if x.isdigit()])
        i = 1
        while i < len(lines):
            l = lines[i]; i += 1
            if not l.strip(): continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if m:
                lab = m.group(1).strip('"'); cur = []; f.blocks[lab] = cur; f.order.append(lab); continue
            if l.startswith(";"): continue
            if lab is None:
                lab = str(n); cur = []; f.blocks[lab] = cur; f.order.append(lab)
            if re.match(r'^  switch .*\[$', l):
                while "]" not in lines[i]: l += " " + lines[i]; i += 1
                l += " " + lines[i]; i += 1
            elif re.match(r'^  (%\S+ = )?(tail |musttail )?invoke ', l):
                l += " " + lines[i]; i += 1
            elif " landingpad " in l:
                while i < len(lines) and re.match(r'^\s+(cleanup|catch|filter)', lines[i]): i += 1
            c = l.find(" ;")
            cur.append(self._inst(l))
        self._rtypes(f)
        self._cfg(f)
        return f
    def _inst(self, line):
        p = P(self, line)
        dest = None
        if p.peek()[0] == "loc" and p.t[1][1] == "=":
            dest = p.next()[1][1:].strip('"'); p.i += 1
        k, op = p.next()
        if op in ("tail", "musttail", "notail"): k, op = p.next()
        if op == "alloca":
            t = p.type()
            n = (1,)
            if p.eat(",") and p.peek()[1] != "align":
                _, n = p.tval()
            return ("alloca", dest, tsize(t), n)
        if op == "load":
            p.attrs()
            at = p.eat("atomic"); p.attrs()
            t = p.type(); p.need(","); _, a = p.tval()
            return ("load", dest, t, a)
        if op == "store":
            p.attrs(); p.eat("atomic"); p.attrs()
            t, v = p.tval(); p.need(","); _, a = p.tval()
            return ("store", t, v, a)
        if op == "getelementptr":
            p.attrs()
            bt = p.type(); p.need(","); _, base = p.tval()
            const, dyn, cur, first = 0, [], bt, True
            while p.eat(","):
                if p.peek()[0] == "meta": break
                it, ix = p.tval()
                sz = tsize(bt) if first else None
                if type(ix) is tuple:
                    v = ix[0]
                    if v >> (it - 1): v -= 1 << it
                    if first: const += v * sz
                    else: const += foffset(cur, v)
                else:
                    if not first: sz = tsize(cur[2])
                    dyn.append((ix, it, sz))
                if not first: cur = ftype(cur, ix[0] if type(ix) is tuple else 0)
                first = False
            return ("gep", dest, base, const, tuple(dyn))
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            p.attrs(); t, a = p.tval(); p.need(","); b = p.val(t)
            return ("ibin", dest, op, t, a, b)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            p.attrs(); t, a = p.tval(); p.need(","); b = p.val(t)
            return ("fbin", dest, op, t, a, b)
        if op == "fneg":
            p.attrs(); t, a = p.tval(); return ("fneg", dest, t, a)
        if op == "icmp":
            p.attrs(); pr = p.next()[1]; p.attrs(); t, a = p.tval(); p.need(","); b = p.val(t)
            return ("icmp", dest, pr, t, a, b)
        if op == "fcmp":
            p.attrs(); pr = p.next()[1]; t, a = p.tval(); p.need(","); b = p.val(t)
            return ("fcmp", dest, pr, t, a, b)
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc"):
            p.attrs(); t, a = p.tval(); p.need("to"); tt = p.type()
            return ("cast", dest, op, t, a, tt)
        if op == "freeze":
            t, a = p.tval(); return ("copy", dest, a, t)
        if op == "select":
            p.attrs(); ct, c = p.tval(); p.need(","); t, a = p.tval(); p.need(","); _, b = p.tval()
            return ("select", dest, t, c, a, b, ct)
        if op == "phi":
            p.attrs(); t = p.type(); l = []
            while p.eat("["):
                v = p.val(t); p.need(","); b = p.next()[1][1:].strip('"'); p.need("]"); l.append((b, v))
                if not p.eat(","): break
            return ("phi", dest, t, dict(l))
        if op == "extractvalue":
            t, a = p.tval(); ix = []
            while p.eat(","):
                if p.peek()[0] != "num": break
                ix.append(int(p.next()[1]))
            et = t
            for i in ix: et = ftype(et, i)
            return ("extractvalue", dest, a, ix, et)
        if op == "insertvalue":
            t, a = p.tval(); p.need(","); et, e = p.tval(); ix = []
            while p.eat(","):
                if p.peek()[0] != "num": break
                ix.append(int(p.next()[1]))
            return ("insertvalue", dest, a, e, ix, t)
        if op == "extractelement":
            t, a = p.tval(); p.need(","); _, i = p.tval(); return ("extractelement", dest, a, i, t[2])
        if op == "insertelement":
            t, a = p.tval(); p.need(","); _, e = p.tval(); p.need(","); _, i = p.tval(); return ("insertelement", dest, a, e, i, t)
        if op == "shufflevector":
            t, a = p.tval(); p.need(","); _, b = p.tval(); p.need(","); mt, m = p.tval(); return ("shuffle", dest, t, a, b, m)
        if op == "br":
            if p.peek()[1] == "label": return ("br", p.label())
            _, c = p.tval(); p.need(","); a = p.label(); p.need(","); b = p.label()
            return ("cbr", c, a, b)
        if op == "switch":
            t, v = p.tval(); p.need(","); d = p.label(); p.need("["); cs = []
            while not p.eat("]"):
                ct = p.type(); c = p.const(ct); p.need(","); cs.append((c, p.label()))
            return ("switch", t, v, d, cs)
        if op == "ret":
            if p.peek()[1] == "void": return ("ret", "v", None)
            t, v = p.tval(); return ("ret", t, v)
        if op == "unreachable": return ("unreachable",)
        if op == "resume": return ("unreachable",)
        if op == "landingpad": return ("copy", dest, ((UNDEF, UNDEF),), ("s", ("p", 32), False))
        if op == "fence": return ("nop",)
        if op in ("call", "invoke"):
            p.attrs(); rt = p.type(); 
            if p.peek()[1] == "(":  # vararg function type
                p.parens()
            p.attrs()
            k, v = p.next()
            if k == "glob": callee = ("g", v)
            elif k == "word" and v == "asm": return ("asm", dest)
            elif k == "loc": callee = ("r", v[1:].strip('"'))
            else: raise SyntaxError("callee " + line)
            p.need("("); args, ats = [], []
            while not p.eat(")"):
                t = p.type(); p.attrs()
                if t == "metadata": p.skip_meta(); args.append((0,)); ats.append(t)
                else: args.append(p.val(t)); ats.append(t)
                p.eat(",")
            noret = False
            while p.peek()[0] == "attr":
                if "noreturn" in self.attr.get(p.peek()[1], ""): noret = True
                p.i += 1
            nxt = None
            if op == "invoke":
                while p.peek()[1] != "to": p.i += 1
                p.i += 1; nxt = p.label()
            return ("call", dest, rt, callee, args, ats, noret, nxt)
        if op == "atomicrmw":
            p.attrs(); o = p.next()[1]; _, a = p.tval(); p.need(","); t, v = p.tval()
            return ("armw", dest, o, t, a, v)
        if op == "cmpxchg":
            p.attrs(); p.eat("weak"); p.attrs(); _, a = p.tval(); p.need(","); t, c = p.tval(); p.need(","); _, n = p.tval()
            return ("cmpxchg", dest, t, a, c, n)
        raise SyntaxError("op %s: %s" % (op, line))
    def _rtypes(self, f):
        rt = dict(zip(f.params, f.ptypes))
        for b in f.order:
            for i in f.blocks[b]:
                o = i[0]
                if o in ("alloca", "gep"): rt[i[1]] = "p"
                elif o in ("load", "fneg", "phi", "call", "select"): rt[i[1]] = i[2]
                elif o in ("ibin", "fbin"): rt[i[1]] = i[3]
                elif o in ("icmp", "fcmp"): rt[i[1]] = ("v", i[3][1], 1) if type(i[3]) is tuple else 1
                elif o == "cast": rt[i[1]] = i[5]
                elif o == "copy": rt[i[1]] = i[3]
                elif o == "extractvalue": rt[i[1]] = i[4]
                elif o in ("insertvalue", "insertelement"): rt[i[1]] = i[5]
                elif o == "extractelement": rt[i[1]] = i[4]
                elif o == "shuffle": rt[i[1]] = i[2]
                elif o == "armw": rt[i[1]] = i[3]
                elif o == "cmpxchg": rt[i[1]] = ("s", (i[2], 1), False)
        f.rt = rt
    # ------------------------------------------------------------ control flow
    def _cfg(self, f):
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            if t[0] == "br": s = [t[1]]
            elif t[0] == "cbr": s = [t[2], t[3]]
            elif t[0] == "switch": s = [t[3]] + [c[1] for c in t[4]]
            elif t[0] == "call" and t[7]: s = [t[7]]
            else: s = []
            succ[b] = list(dict.fromkeys(s))
        # WTO-like ranking: order in which blocks are drained; loop bodies contiguous
        entry = f.order[0]
        f.backedges = set(); f.loops = {}
        order = []
        def sccs(nodes, entry_nodes):
            """Tarjan restricted to nodes; SCCs in topological order."""
            idx, low, onst, st, out, cnt = {}, {}, set(), [], [], [0]
            for root in entry_nodes:
                if root in idx: continue
                work = [(root, iter([x for x in succ[root] if x in nodes and (root, x) not in f.backedges]))]
                idx[root] = low[root] = cnt[0]; cnt[0] += 1; st.append(root); onst.add(root)
                while work:
                    v, it = work[-1]
                    for w in it:
                        if w not in idx:
                            idx[w] = low[w] = cnt[0]; cnt[0] += 1; st.append(w); onst.add(w)
                            work.append((w, iter([x for x in succ[w] if x in nodes and (w, x) not in f.backedges])))
                            break
                        elif w in onst: low[v] = min(low[v], idx[w])
                    else:
                        work.pop()
                        if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                        if low[v] == idx[v]:
                            c = []
                            while True:
                                w = st.pop(); onst.discard(w); c.append(w)
                                if w == v: break
                            out.append(c)
            out.reverse()
            return out
        def go(nodes, entries):
            for c in sccs(nodes, entries):
                if len(c) == 1 and c[0] not in [x for x in succ[c[0]] if (c[0], x) not in f.backedges]:
                    order.append(c[0]); continue
                cs = set(c)
                # head: entered from outside, first in textual order
                heads = [h for h in c if h == entry or any(h in succ[b] for b in f.order if b not in cs)]
                head = min(heads or c, key=f.order.index)
                f.loops[head] = cs
                for b in c:
                    if head in succ[b]: f.backedges.add((b, head))
                go(cs, [head] + [x for x in c if x != head])
        go(set(f.order), [entry])
        f.rank = {b: i for i, b in enumerate(order)}
        # liveness of registers at block entry
        use, de = {}, {}
        phiuse = {}
        for b in f.order:
            u, d = set(), set()
            for ins in f.blocks[b]:
                if ins[0] == "phi":
                    for pb, v in ins[3].items():
                        if type(v) is str: phiuse.setdefault(pb, set()).add(v)
                    d.add(ins[1]); continue
                for x in operands(ins):
                    if x not in d: u.add(x)
                if ins[0] not in ("store", "br", "cbr", "switch", "ret", "unreachable", "nop") and ins[1]: d.add(ins[1])
            use[b], de[b] = u, d
        live = {b: set(use[b]) for b in f.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set(phiuse.get(b, ()))
                for s in succ[b]: o |= live[s]
                n = use[b] | (o - de[b])
                if n != live[b]: live[b] = n; ch = True
        # values needed on entry including those its phis read
        f.live = {}
        for b in f.order:
            l = set(live[b])
            for ins in f.blocks[b]:
                if ins[0] != "phi": break
                for v in ins[3].values():
                    if type(v) is str: l.add(v)
            f.live[b] = l

def operands(ins):
    o = ins[0]
    if o == "alloca": c = [ins[3]]
    elif o == "load": c = [ins[3]]
    elif o == "store": c = [ins[2], ins[3]]
    elif o == "gep": c = [ins[2]] + [d[0] for d in ins[4]]
    elif o in ("ibin", "fbin", "icmp", "fcmp"): c = [ins[4], ins[5]]
    elif o == "fneg": c = [ins[3]]
    elif o == "cast": c = [ins[4]]
    elif o == "copy": c = [ins[2]]
    elif o == "select": c = [ins[3], ins[4], ins[5]]
    elif o == "extractvalue": c = [ins[2]]
    elif o == "insertvalue": c = [ins[2], ins[3]]
    elif o == "extractelement": c = [ins[2], ins[3]]
    elif o == "insertelement": c = [ins[2], ins[3], ins[4]]
    elif o == "shuffle": c = [ins[3], ins[4], ins[5]]
    elif o == "cbr": c = [ins[1]]
    elif o == "switch": c = [ins[2]]
    elif o == "ret": c = [ins[2]]
    elif o == "call": c = list(ins[4]) + ([ins[3][1]] if ins[3][0] == "r" else [])
    elif o == "armw": c = [ins[4], ins[5]]
    elif o == "cmpxchg": c = [ins[3], ins[4], ins[5]]
    else: c = []
    return [x for x in c if type(x) is str]
