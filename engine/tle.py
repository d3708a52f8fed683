"""Column layout of element lines, symbolic instances of it, and an exact reference reading of concrete lines."""
import re, math
from fractions import Fraction as Q
from term import *
from text import inset, between

# name: (line, first column, end column)
COL = dict(satnum=(0, 2, 7), epochyr=(0, 18, 20), epochdays=(0, 20, 32), ndot=(0, 33, 43), nddot=(0, 44, 52), bstar=(0, 53, 61),
           inclo=(1, 8, 16), nodeo=(1, 17, 25), ecco=(1, 26, 33), argpo=(1, 34, 42), mo=(1, 43, 51), no=(1, 52, 63))
ANG = ["999.9999", " 99.9999", "  9.9999", "   .9999", "99.9999 ", "9.9999  "]
EXPF = [" 99999-9", "-99999-9", "+99999-9", " 99999+9", "-99999+9"]
# templates: 9 stands for any digit, # for any visible character
VARIANTS = dict(satnum=["#####", "  ###", "####", "    #"], epochyr=["99", " 9"],
                epochdays=["999.99999999", " 99.99999999", "  9.99999999", "999.99999   ", "999.9999    "],
                ndot=[" .99999999", "-.99999999", "+.99999999", " 0.9999999", "-0.9999999", "  .9999999"],
                nddot=EXPF, bstar=EXPF[1:] + EXPF[:1], inclo=ANG, nodeo=ANG[1:] + ANG[:1], ecco=["9999999"], argpo=ANG[2:] + ANG[:2], mo=ANG[3:] + ANG[:3],
                no=["99.99999999", " 9.99999999", "99.999999999"[:11], "9.999999999"])
VARIANTS["satnum"][2] = "#### "
def pad(lay, L):
    """line templates of one combination of variants; ? is any printable character outside the fields"""
    t = [list("1 " + "?" * 60 + "0 9999" + "9"), list("2 " + "?" * 61 + "99999" + "9")]
    for n, s in lay.items():
        l, a, b = COL[n]
        assert len(s) == b - a, (n, s)
        t[l][a:b] = list(s)
    for i in (7, 32, 43, 52, 61): t[0][i] = " " if i != 7 else "U"
    for i in (7, 16, 25, 33, 42, 51): t[1][i] = " "
    t[1][2:7] = t[0][2:7]
    return ["".join(t[0]), "".join(t[1])]
def instantiate(tpl, tags=("a", "b")):
    """bytes: concrete or symbolic"""
    out = []
    for l, s in enumerate(tpl):
        r = []
        for i, ch in enumerate(s):
            nm = "%s.%d" % (tags[l], i)
            if ch == "9": r.append(var(nm, 8, (48, 57)))
            elif ch == "#": r.append(var("%s.%d" % (tags[0], i), 8, (33, 126)))      # same catalogue number on both lines
            elif ch == "?": r.append(var(nm, 8, (32, 126)))
            else: r.append(ord(ch))
        out.append(r)
    return out
def layouts(k):
    """the k-th combination: every variant of every field occurs within the first six"""
    r = {}
    for j, (n, v) in enumerate(VARIANTS.items()): r[n] = v[(k + (k // 6) * (j + 1)) % len(v)]
    return r

# --------------------------------------------------- reading concrete lines
D2R = math.pi / 180
XPDOTP = 1440 / (2 * math.pi)
FR = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$", re.A)
def real(s):
    """exact value of a decimal text or None"""
    s = s.strip(" \t\n\v\f\r")
    if not FR.match(s): return None
    m, _, e = s.lower().partition("e")
    if abs(int(e or 0)) > 400:
        return Q(0) if not any(c in "123456789" for c in m) else (Q(0) if int(e) < 0 else None)
    v = Q(m + ("0" if m.endswith(".") else "")) if not m.lstrip("+-").startswith(".") else (-1 if m[0] == "-" else 1) * Q("0" + m.lstrip("+-"))
    v *= Q(10) ** int(e or 0)
    try: f = float(v)
    except OverflowError: return None
    return v if math.isfinite(f) else None
def integer(s):
    s = s.strip(" \t\n\v\f\r")
    return int(s) if re.match(r"[+-]?\d+$", s, re.A) else None
def implied(s):
    """sign, digits, exponent sign, exponent digit with an implied leading point"""
    m = re.match(r"([ +-])(\d{5})([+-])(\d)$", s, re.A)
    return m and Q((m.group(1).strip() or "") + "0." + m.group(2)) * Q(10) ** int(m.group(3) + m.group(4))
def f(l, n): 
    i, a, b = COL[n]; return l[i][a:b]
def read(l1, l2):
    """field values of well-formed lines, in the record's units (floats)"""
    l = (l1, l2); r = {}
    r["satnum"] = f(l, "satnum").strip()
    r["epochyr"] = integer(f(l, "epochyr")); r["epochdays"] = float(real(f(l, "epochdays")))
    r["ndot"] = float(real(f(l, "ndot"))) / (XPDOTP * 1440); r["nddot"] = float(implied(f(l, "nddot"))) / (XPDOTP * 1440 * 1440)
    r["bstar"] = float(implied(f(l, "bstar")))
    for n in ("inclo", "nodeo", "argpo", "mo"): r[n] = float(real(f(l, n))) * D2R
    r["ecco"] = float(Q("0." + f(l, "ecco"))); r["no"] = float(real(f(l, "no"))) / XPDOTP
    return r
