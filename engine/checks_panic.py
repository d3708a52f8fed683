"""C01: parsing arbitrary text never panics."""
import time, random
import z3
from term import *
import runs, sym, smt, text, tle, pool
import checks_txt as X
from checks_txt import L1, L2, REGION, uval, b2, nat_two, nat_one, Text, Batch
from checks_cal import ERR

def valid(bs):
    try: bytes(bs).decode(); return True
    except UnicodeDecodeError: return False
def pair_bad(ctx, l1, l2):
    """the real readers on a pair of lines: a panic or an endless loop"""
    if not (valid(l1) and valid(l2)): return None
    for fn in ("h_parse_satrec", "h_twoline"):
        r = nat_two(ctx.env, fn, bytes(l1), bytes(l2))
        if type(r) is tuple: return {"call": fn[2:], "line1": bytes(l1).decode(), "line2": bytes(l2).decode()}, r, "a record or an error"
    return None
def multi(ctx, bs):
    K = bs.count(b"\n") + 2
    return ctx.env.native.call("h_multi", ("b", bs), len(bs), ("q", [0, 0]), ("q", [0] * 6 * K), ("d", [0.0] * K), ("q", [0] * 9 * K))
def text_bad(ctx, bs):
    bs = bytes(bs)
    if not valid(bs): return None
    for nm, r in (("parse", nat_one(ctx.env, bs)), ("parse_multiple", multi(ctx, bs))):
        if type(r) is tuple: return {"call": nm, "text": bs.decode()}, r, "a record or an error"
    return None
def window(l, a, b, n=None):
    """the standard lines with bytes a..b of line l arbitrary; cut after n bytes"""
    B = [list(L1), list(L2)]
    B[l] = B[l][:n] if n is not None else B[l]
    b = min(b, len(B[l])); a = max(a, 0)
    for i in range(a, b): B[l][i] = var("%s.%d" % ("ab"[l], i), 8, (0, 255))
    return B, [text.utf8(B[l][a:b])]
def panic_run(ctx, tag, fn, B, pre, lim, replay):
    """no path reaches a panic, an out-of-bounds access or an unbounded loop"""
    try:
        ex = text.setup(ctx.env, pre=[p for p in pre if type(p) is T], deadline=lim)
        if fn in ("h_parse", "h_multi"): X.cut_twoline(ex, None, True)
        if fn == "h_twoline": X.cut_init(ex, 0)
        ex.bounds = [("stub_", 200)] if fn != "h_parse_satrec" else ex.bounds
        if fn == "h_parse": outs = text.run_one(ex, fn, B)
        elif fn == "h_multi": outs = X.run_multi(ex, B)
        else: outs = text.run_two(ex, fn, *B)
        ctx.used(ex)
        u = ex.feas.u; ok = bool(outs)
        L = [B] if fn in ("h_parse", "h_multi") else B
        s = z3.Solver(); s.set("timeout", 20000)
        for p in ex.pre: s.add(u(p, "b"))
        bad = ex.panics + ex.unwound + ex.faults
        if bad:
            # one query first: does any of these conditions have a solution?
            for p in bad:
                s.push()
                try:
                    for c in p[0]:
                        if type(c) is T: s.add(u(c, "b"))
                        elif not c: s.add(z3.BoolVal(False))
                    for k in range(3):
                        r = smt.check(s, "panic")
                        if r == "unsat":
                            if k: ok = False
                            break
                        if r != "sat": ok = False; break
                        m = s.model(); v = replay(ctx, *[b2(b, uval(m)) for b in L])
                        if v: ctx.bad("parsing never panics", *v); return None
                        sy = [b for l in L for b in l if type(b) is T]
                        if not sy: ok = False; break
                        s.add(z3.Or([u(wrap(b, 8)) != m.eval(u(wrap(b, 8)), model_completion=True) for b in sy]))
                    else: ok = False
                    if not ok: ctx.notes.append("%s: %s" % (tag, str(p[1])[:120])); break
                finally: s.pop()
        else:
            r = smt.check(s, "paths") if ex.pre else "sat"
            ctx.witness.append({"what": tag + ": inputs exist", "answer": r}) if len(ctx.witness) < 40 else None
        ctx.npaths += len(outs)
        return ok
    except ERR as e:
        ctx.notes.append("%s: %s %s" % (tag, type(e).__name__, str(e)[:200])); return False
UNITS = [b"\xc3\xa9", b"\xe2\x80\x83", b"\xf0\x9f\x9b\xb0", b"\xc2\xa0", b"\xcc\x81"]
NUMS = ["", "-", "+", ".", "nan", "inf", "-inf", "1e308", "1e999", "-9e99", "1e-300", "9" * 20, "-" + "9" * 20, "0", "-0", "1.", "-1.5", "366.5", "367", "0.0", "1e5"]
def crash_search(ctx, lim=70):
    """directed native inputs"""
    t0 = time.time()
    def go():
        for l in (0, 1):
            for n in range(70):
                yield 2, (L1[:n] if l == 0 else L1, L2[:n] if l == 1 else L2)
        for u in UNITS:
            for l in (0, 1):
                for p in range(69):
                    for q in (p + 1, p + len(u)):
                        A = [L1, L2]; A[l] = A[l][:p] + u + A[l][q:]; yield 2, tuple(A)
        for l, a, b in list(REGION.values()) + [(0, 2, 7), (0, 9, 17), (0, 7, 8), (0, 62, 63), (0, 64, 68), (0, 68, 69), (1, 2, 7), (1, 63, 68), (1, 68, 69)]:
            for t in NUMS + ["A", "Z9999", "I0000", "%", "0x1F", "1 2"]:
                w = b - a; t = t.encode()[:w]
                for x in (t.ljust(w), t.rjust(w)):
                    A = [L1, L2]; A[l] = A[l][:a] + x + A[l][b:]; yield 2, tuple(A)
        for yy in ("00", "56", "57", "99", " 1", "-9", "+5"):
            for d in ("  0.00000000", "366.99999999", "367.00000000", "999.99999999", "-99.99999999", "1e300       "):
                yield 2, (L1[:18] + yy.encode() + d.encode() + L1[32:], L2)
        for no in (" 0.00000000", "99.99999999", " 1.00273790", " 2.00561923", "-1.00000000", "17.99999999"):
            for e in (b"0000000", b"9999999", b"7000000"):
                yield 2, (L1, L2[:26] + e + L2[33:52] + no.encode() + L2[63:])
        nm = [b"", b" ", b"0", b"0 ", b"00", b"\xc3\xa9", b"0\xc3\xa9", b"0 \xc3\xa9", b"\xe3\x80\x80", b"A", b"\xf0\x9f\x9b\xb0 SAT", b"0\t", b"0\xc2\xa0X", b"X" * 200]
        lines = nm + [L1, L2, b"1", b"2", b"1 ", b"2 "] + [L1[:k] for k in (7, 20, 40, 68)] + [L2[:k] for k in (7, 30, 62)] + [L1 + b"\r", L2 + b" extra"]
        for a in lines:
            yield 1, a
            for b in lines:
                yield 1, a + b"\n" + b; yield 1, a + b"\n" + b + b"\n"
        rs = random.Random(5)
        for j in range(6000): yield 1, rs.choice([b"\n", b"\r\n", b"\n\n"]).join(rs.choice(lines) for _ in range(rs.choice([3, 3, 4, 5, 6, 7])))
        for j in range(20000):
            A = [bytearray(L1), bytearray(L2)]
            for k in range(rs.randrange(1, 4)):
                l = rs.randrange(2); p = rs.randrange(len(A[l]) or 1)
                u = rs.random()
                if u < 0.3: A[l][p:p + rs.choice([1, 2, 3])] = rs.choice(UNITS)
                elif u < 0.5: A[l] = A[l][:p]
                else: A[l][p:p + 1] = bytes([rs.randrange(128)])
            yield 2, tuple(map(bytes, A))
    for k, x in go():
        v = pair_bad(ctx, *x) if k == 2 else text_bad(ctx, x)
        if v: return v
        if time.time() - t0 > lim or ctx.left() < 10: return None
    return None
def free(n):
    t = Text(); t.bs = [var("t.%d" % i, 8, (0, 255)) for i in range(n)]; t.pre = [text.utf8(t.bs)]
    return t
def lines(parts, end="\n", last=True):
    """parts: byte strings or numbers of arbitrary bytes (not line feeds)"""
    t = Text(); k = 0
    for j, p in enumerate(parts):
        a = len(t.bs)
        for x in p:
            if type(x) is bytes: t.bs += list(x); continue
            w = []
            for _ in range(x): k += 1; w.append(var("t.%d" % k, 8, (0, 255)))
            t.pre += [text.utf8(w)] + [bnot(icmp("eq", b, 10, 8)) for b in w]
            t.bs += w
        if last or j + 1 < len(parts): t.bs += list(end.encode())
    return t
def texts(deep):
    for n in range(1, (7 if deep else 6)): yield "any UTF-8 text of %d bytes" % n, free(n)
    E, F = [b"1 25", 1], [b"2 25", 1]
    for end in ("\n", "\r\n"):
        nm = "" if end == "\n" else ", CRLF"
        yield "two lines" + nm, lines([[3], [3]], end, end == "\n")
        yield "three lines" + nm, lines([[2], [2], [2]], end)
        yield "name and two lines" + nm, lines([[6 if deep else 5], E, F], end)
        yield "name of a marker and two lines" + nm, lines([[b"0", 4], E, F], end, False)
        yield "two lines and an incomplete end" + nm, lines([E, F, [4]], end)
        yield "name, two lines and an incomplete end" + nm, lines([[b"0 X", 2], E, F, [2], [2]], end)
        yield "blank lines" + nm, lines([[3], E, [3], F], end)
    for k in range(0, 132 if deep else 72, 3):
        yield "name with any UTF-8 in bytes %d-%d of it" % (k, k + 4), lines([[b"0 " + b"N" * (k - 2) if k > 1 else b"N" * k, 4], [L1], [L2]])
        yield "name with any UTF-8 in bytes %d-%d of it, text after" % (k, k + 4), lines([[b"N" * k, 4, b"M" * 70], E, F])
    yield "two sets", lines([[b"0 ", 2], E, F, [3], E, F])
    yield "short lines", lines([[b"1"], [b"2"], [2], [b"1"], [b"2"]])
    yield "two sets without names", lines([[1], F, E, [1]], "\n", False)
def init_run(ctx):
    """sgp4init with its propagation to the epoch, every comparison of doubles a free choice (so also for NaN and infinities)"""
    try:
        OPAQUE[0] = True
        r = runs.run_init(ctx.env, False)
        ctx.used(r.ex)
        bad = r.ex.panics + r.ex.unwound + r.ex.faults
        if not bad: return True
        s = z3.Solver(); u = smt.UF()
        s.add(z3.Or([z3.And([u(c, "b") for c in p[0] if type(c) is T]) for p in bad]))
        return smt.check(s, "init-panic") == "unsat"
    except ERR as e:
        ctx.notes.append("initialisation: %s %s" % (type(e).__name__, str(e)[:200])); return False
    finally: OPAQUE[0] = False
def job(ctx, tag, fn, B, pre, rep, lim):
    if ctx.left() < 90: ctx.notes.append("not run: " + tag); return False
    if fn is None: return init_run(ctx)
    t = time.time()
    r = panic_run(ctx, tag, fn, B, pre, lim, rep)
    if time.time() - t > 2: ctx.notes.append("%s: %.1f s" % (tag, time.time() - t))
    return r
def C01(ctx):
    jobs = []
    regs = sorted(REGION.values()) + [(0, 2, 7), (0, 7, 18), (0, 59, 69), (1, 0, 8), (1, 60, 69), (0, 0, 3)]
    m = 3 if ctx.thorough() else 1
    for l, a, b in sorted(regs):
        B, pre = window(l, a - m, b + m)
        jobs.append(("reader: bytes %d-%d of line %d any UTF-8 text" % (a - m, b + m, l + 1), "h_parse_satrec", B, pre, pair_bad, 200))
    jobs.append(("reader: every field of visible characters", "h_parse_satrec", X.open_lines(REGION.values(), 48, 126, True), [], pair_bad, 120))
    jobs.append(("two-line call: every field of visible characters", "h_twoline", X.open_lines(REGION.values(), 48, 126, True), [], pair_bad, 120))
    for l in (0, 1):
        for n in list(range(70)) + [70, 80, 120]:
            if n < 70: B, pre = window(l, n - 3, n, n)
            else:
                B = [list(L1), list(L2)]; w = [var("x.%d" % i, 8, (0, 255)) for i in range(4)]
                B[l] = B[l] + [32] * (n - 69) + w; pre = [text.utf8(w)]
            jobs.append(("reader: line %d of %d bytes" % (l + 1, n), "h_parse_satrec", B, pre, pair_bad, 40))
    for a, b in ((0, 0), (1, 1), (3, 3), (7, 7), (20, 20)):
        B = [[var("a.%d" % i, 8, (0, 255)) for i in range(min(a, 6))] + list(L1[6:a]), [var("b.%d" % i, 8, (0, 255)) for i in range(min(b, 4))] + list(L2[4:b])]
        jobs.append(("reader: lines of %d and %d bytes" % (a, b), "h_parse_satrec", B, [text.utf8(B[0]), text.utf8(B[1])], pair_bad, 40))
    for nm, t in texts(ctx.thorough()):
        for fn in ("h_parse", "h_multi"):
            jobs.append(("%s: %s" % ("parse" if fn == "h_parse" else "parse_multiple", nm), fn, t.bs, t.pre, text_bad, 60))
    jobs.append(("initialisation of any elements ends without a panic", None, None, None, None, 0))
    jobs.reverse()
    undone = []
    for j, r in zip(jobs, pool.run(ctx, jobs, job)):
        if r is None: return
        if r: ctx.ok(j[0])
        else: undone.append(j)
    if undone and len(undone) <= 4 and ctx.left() > 250:      # a query may have been slow on a busy machine
        again = pool.run(ctx, undone, job, 2)
        if None in again: return
        for j, r in zip(undone, again):
            if r: ctx.ok(j[0])
        undone = [j for j, r in zip(undone, again) if not r]
    if undone:
        undone = [j[0] for j in undone]
        v = crash_search(ctx)
        if v: ctx.bad("parsing never panics", *v); return
        for t in undone: ctx.open(t, "not decided by the solver; no concrete panic found")
    ctx.notes.append("%d paths" % ctx.npaths)
    ctx.bounds["reader"] = "two lines in which one field and %d bytes on either side are any valid UTF-8 (every byte of both lines is in some window); all fields at once of arbitrary visible ASCII; each line of every length 0-69, 70, 80 and 120 with its last bytes any UTF-8" % m
    ctx.bounds["texts"] = "every valid UTF-8 text of 1 to %d bytes, and listed layouts of up to six lines with 1-%d arbitrary bytes per line" % (6 if ctx.thorough() else 5, 6 if ctx.thorough() else 5)
    ctx.bounds["initialisation"] = "every element value, including NaN and infinities (comparisons of doubles are free choices)"
    ctx.assume += ["alloc never fails; f64::from_str of the standard library does not panic and accepts its documented grammar; str::trim removes the Unicode White_Space characters",
                   "in parse and parse_multiple the two-line call is cut at its interface (record or error for any pair); it is decided by the reader and initialisation runs",
                   "integer overflow is a panic (checks compiled in)"]
    for x in ((L1[:25], L2), (L1, "é".encode() * 30)): ctx.samples.append({"lines": x, "native": str(nat_two(ctx.env, "h_twoline", *x))[:200]})
