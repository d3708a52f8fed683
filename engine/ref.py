"""Reference models, written from the published descriptions (Spacetrack
Report 3 / Vallado et al. 2006 with WGS-84 constants, IAU-82 sidereal time,
WGS-84 geodesy), over terms: they run symbolically and numerically alike."""
import math
from fractions import Fraction
from term import *

class V:
    __slots__ = ("v",)
    def __init__(s, v): s.v = v.v if type(v) is V else (float(v) if type(v) is int else v)
    def __add__(s, o): return V(fadd(s.v, V(o).v))
    def __radd__(s, o): return V(fadd(V(o).v, s.v))
    def __sub__(s, o): return V(fsub(s.v, V(o).v))
    def __rsub__(s, o): return V(fsub(V(o).v, s.v))
    def __mul__(s, o): return V(fmul(s.v, V(o).v))
    def __rmul__(s, o): return V(fmul(V(o).v, s.v))
    def __truediv__(s, o): return V(fdiv(s.v, V(o).v))
    def __rtruediv__(s, o): return V(fdiv(V(o).v, s.v))
    def __mod__(s, o): return V(frem(s.v, V(o).v))
    def __neg__(s): return V(fneg(s.v))
    def __lt__(s, o): return flt(s.v, V(o).v)
    def __gt__(s, o): return flt(V(o).v, s.v)
    def __le__(s, o): return bnot(flt(V(o).v, s.v))
    def __ge__(s, o): return bnot(flt(s.v, V(o).v))
def eq(a, b): return feq(V(a).v, V(b).v)
def sin(x): return V(ffun("sin", V(x).v))
def cos(x): return V(ffun("cos", V(x).v))
def sqrt(x): return V(ffun("sqrt", V(x).v))
def powf(x, y): return V(ffun("pow", V(x).v, V(y).v))
def atan2(y, x): return V(ffun("atan2", V(y).v, V(x).v))
def floor(x): return V(ffun("floor", V(x).v))
def asin(x): return V(ffun("asin", V(x).v))
def absf(x): return V(fabs_(V(x).v))
def sel(c, a, b): return V(ite(c, V(a).v, V(b).v, "f"))
def seli(c, a, b): return ite(c, a, b, 64)

PI = math.pi
TWO_PI = PI * 2.0
# WGS-84 set
RE = 6378.137
MU = 398600.5
XKE = 60.0 / math.sqrt(RE * RE * RE / MU)
J2, J3, J4 = 0.00108262998905, -0.00000253215306, -0.00000161098761
J3OJ2 = J3 / J2
X2O3 = 2.0 / 3.0

def gstime(jd):
    t = (jd - 2451545.0) / 36525.0
    s = (-6.2e-6 * t * t * t) + (0.093104 * t * t) + ((876600.0 * 3600.0 + 8640184.812866) * t) + 67310.54841
    r = ((s * (PI / 180.0)) / 240.0) % TWO_PI
    return sel(r < 0.0, r + TWO_PI, r)

def gst_old(epoch):
    ts70 = epoch - 7305.0
    ds70 = floor(ts70 + 1.0e-8)
    tfrac = ts70 - ds70
    c1 = 1.72027916940703639e-2
    g = (1.7321343856509374 + c1 * ds70 + (c1 + TWO_PI) * tfrac + ts70 * ts70 * 5.07551419432269442e-15) % TWO_PI
    return sel(g < 0.0, g + TWO_PI, g)

class R(dict):
    __getattr__ = dict.__getitem__
    def __setattr__(s, k, v): s[k] = v

NEAR0 = "aycof con41 cc1 cc4 cc5 d2 d3 d4 delmo eta argpdot omgcof sinmao t t2cof t3cof t4cof t5cof x1mth2 x7thm1 mdot nodedot xlcof xmcof nodecf".split()
DEEP0 = "irez d2201 d2211 d3210 d3222 d4410 d4422 d5220 d5232 d5421 d5433 dedt del1 del2 del3 didt dmdt dnodt domdt e3 ee2 peo pgho pho pinco plo se2 se3 sgh2 sgh3 sgh4 sh2 sh3 si2 si3 sl2 sl3 sl4 gsto xfact xgh2 xgh3 xgh4 xh2 xh3 xi2 xi3 xl2 xl3 xl4 xlamo zmol zmos atime xli xni".split()

def initl(ecco, epoch, inclo, no, mode_a):
    eccsq = ecco * ecco
    omeosq = 1.0 - eccsq
    rteosq = sqrt(omeosq)
    cosio = cos(inclo)
    cosio2 = cosio * cosio
    ak = powf(XKE / no, X2O3)
    d1 = (0.75 * J2 * ((3.0 * cosio2) - 1.0)) / (rteosq * omeosq)
    dp = d1 / (ak * ak)
    adel = ak * (1.0 - (dp * dp) - (dp * ((1.0 / 3.0) + ((134.0 * dp * dp) / 81.0))))
    dp = d1 / (adel * adel)
    no = no / (1.0 + dp)
    ao = powf(XKE / no, X2O3)
    sinio = sin(inclo)
    po = ao * omeosq
    con42 = 1.0 - (5.0 * cosio2)
    con41 = -con42 - cosio2 - cosio2
    gsto = sel(mode_a, gst_old(epoch), gstime(epoch + 2433281.5))
    return R(no=no, ao=ao, con41=con41, con42=con42, cosio=cosio, cosio2=cosio2, eccsq=eccsq, omeosq=omeosq,
             posq=po * po, rp=ao * (1.0 - ecco), rteosq=rteosq, sinio=sinio, gsto=gsto)

def dscom(epoch, ep, argpp, inclp, nodep, np_):
    zes, zel, c1ss, c1l = 0.01675, 0.05490, 2.9864797e-6, 4.7968065e-7
    nm, em = np_, ep
    snodm, cnodm = sin(nodep), cos(nodep)
    sinomm, cosomm = sin(argpp), cos(argpp)
    sinim, cosim = sin(inclp), cos(inclp)
    emsq = em * em
    betasq = 1.0 - emsq
    rtemsq = sqrt(betasq)
    day = epoch + 18261.5
    xnodce = (4.5236020 - (9.2422029e-4 * day)) % TWO_PI
    stem, ctem = sin(xnodce), cos(xnodce)
    zcosil = 0.91375164 - (0.03568096 * ctem)
    zsinil = sqrt(1.0 - (zcosil * zcosil))
    zsinhl = (0.089683511 * stem) / zsinil
    zcoshl = sqrt(1.0 - (zsinhl * zsinhl))
    gam = 5.8351514 + (0.0019443680 * day)
    zx = (0.39785416 * stem) / zsinil
    zy = (zcoshl * ctem) + (0.91744867 * zsinhl * stem)
    zx = atan2(zx, zy)
    zx = zx + (gam - xnodce)
    zcosgl, zsingl = cos(zx), sin(zx)
    xnoi = 1.0 / nm
    def terms(zcosg, zsing, zcosi, zsini, zcosh, zsinh, cc):
        a1 = (zcosg * zcosh) + (zsing * zcosi * zsinh)
        a3 = (-zsing * zcosh) + (zcosg * zcosi * zsinh)
        a7 = (-zcosg * zsinh) + (zsing * zcosi * zcosh)
        a8 = zsing * zsini
        a9 = (zsing * zsinh) + (zcosg * zcosi * zcosh)
        a10 = zcosg * zsini
        a2 = (cosim * a7) + (sinim * a8)
        a4 = (cosim * a9) + (sinim * a10)
        a5 = (-sinim * a7) + (cosim * a8)
        a6 = (-sinim * a9) + (cosim * a10)
        x1 = (a1 * cosomm) + (a2 * sinomm)
        x2 = (a3 * cosomm) + (a4 * sinomm)
        x3 = (-a1 * sinomm) + (a2 * cosomm)
        x4 = (-a3 * sinomm) + (a4 * cosomm)
        x5, x6, x7, x8 = a5 * sinomm, a6 * sinomm, a5 * cosomm, a6 * cosomm
        z31 = (12.0 * x1 * x1) - (3.0 * x3 * x3)
        z32 = (24.0 * x1 * x2) - (6.0 * x3 * x4)
        z33 = (12.0 * x2 * x2) - (3.0 * x4 * x4)
        z1 = (3.0 * ((a1 * a1) + (a2 * a2))) + (z31 * emsq)
        z2 = (6.0 * ((a1 * a3) + (a2 * a4))) + (z32 * emsq)
        z3 = (3.0 * ((a3 * a3) + (a4 * a4))) + (z33 * emsq)
        z11 = (-6.0 * a1 * a5) + (emsq * ((-24.0 * x1 * x7) - (6.0 * x3 * x5)))
        z12 = (-6.0 * ((a1 * a6) + (a3 * a5))) + (emsq * ((-24.0 * ((x2 * x7) + (x1 * x8))) + (-6.0 * ((x3 * x6) + (x4 * x5)))))
        z13 = (-6.0 * a3 * a6) + (emsq * ((-24.0 * x2 * x8) - (6.0 * x4 * x6)))
        z21 = (6.0 * a2 * a5) + (emsq * ((24.0 * x1 * x5) - (6.0 * x3 * x7)))
        z22 = (6.0 * ((a4 * a5) + (a2 * a6))) + (emsq * ((24.0 * ((x2 * x5) + (x1 * x6))) - (6.0 * ((x4 * x7) + (x3 * x8)))))
        z23 = (6.0 * a4 * a6) + (emsq * ((24.0 * x2 * x6) - (6.0 * x4 * x8)))
        z1 = z1 + z1 + (betasq * z31)
        z2 = z2 + z2 + (betasq * z32)
        z3 = z3 + z3 + (betasq * z33)
        s3 = cc * xnoi
        s2 = (-0.5 * s3) / rtemsq
        s4 = s3 * rtemsq
        s1 = -15.0 * em * s4
        s5 = (x1 * x3) + (x2 * x4)
        s6 = (x2 * x3) + (x1 * x4)
        s7 = (x2 * x4) - (x1 * x3)
        return R(s1=s1, s2=s2, s3=s3, s4=s4, s5=s5, s6=s6, s7=s7, z1=z1, z2=z2, z3=z3, z11=z11, z12=z12, z13=z13,
                 z21=z21, z22=z22, z23=z23, z31=z31, z32=z32, z33=z33)
    S = terms(V(0.1945905), V(-0.98088458), V(0.91744867), V(0.39785416), cnodm, snodm, c1ss)
    L = terms(zcosgl, zsingl, zcosil, zsinil, (zcoshl * cnodm) + (zsinhl * snodm), (snodm * zcoshl) - (cnodm * zsinhl), c1l)
    zmol = (4.7199672 + ((0.22997150 * day) - gam)) % TWO_PI
    zmos = (6.2565837 + (0.017201977 * day)) % TWO_PI
    return R(S=S, L=L, sinim=sinim, cosim=cosim, em=em, emsq=emsq, nm=nm, zmol=zmol, zmos=zmos,
             se2=2.0 * S.s1 * S.s6, se3=2.0 * S.s1 * S.s7, si2=2.0 * S.s2 * S.z12, si3=2.0 * S.s2 * (S.z13 - S.z11),
             sl2=-2.0 * S.s3 * S.z2, sl3=-2.0 * S.s3 * (S.z3 - S.z1), sl4=-2.0 * S.s3 * (-21.0 - (9.0 * emsq)) * zes,
             sgh2=2.0 * S.s4 * S.z32, sgh3=2.0 * S.s4 * (S.z33 - S.z31), sgh4=-18.0 * S.s4 * zes,
             sh2=-2.0 * S.s2 * S.z22, sh3=-2.0 * S.s2 * (S.z23 - S.z21),
             ee2=2.0 * L.s1 * L.s6, e3=2.0 * L.s1 * L.s7, xi2=2.0 * L.s2 * L.z12, xi3=2.0 * L.s2 * (L.z13 - L.z11),
             xl2=-2.0 * L.s3 * L.z2, xl3=-2.0 * L.s3 * (L.z3 - L.z1), xl4=-2.0 * L.s3 * (-21.0 - (9.0 * emsq)) * zel,
             xgh2=2.0 * L.s4 * L.z32, xgh3=2.0 * L.s4 * (L.z33 - L.z31), xgh4=-18.0 * L.s4 * zel,
             xh2=-2.0 * L.s2 * L.z22, xh3=-2.0 * L.s2 * (L.z23 - L.z21))

RPTIM = 4.37526908801129966e-3
def dsinit(d, r, inclm, eccsq, xpidot):
    """Secular rates and resonance terms; r: record, d: dscom terms."""
    S, L = d.S, d.L
    znl, zns = 1.5835218e-4, 1.19459e-5
    q22, q31, q33 = 1.7891679e-6, 2.1460748e-6, 2.2123015e-7
    root22, root44, root54, root32, root52 = 1.7891679e-6, 7.3636953e-9, 2.1765803e-9, 3.7393792e-7, 1.1428639e-7
    nm, em, emsq, cosim, sinim = d.nm, d.em, d.emsq, d.cosim, d.sinim
    day1 = band(nm < 0.0052359877, nm > 0.0034906585)
    half = band(band(nm >= 8.26e-3, nm <= 9.24e-3), em >= 0.5)
    irez = sel(half, 2.0, sel(day1, 1.0, 0.0))
    ses = S.s1 * zns * S.s5
    sis = S.s2 * zns * (S.z11 + S.z13)
    sls = -zns * S.s3 * ((S.z1 + S.z3) - 14.0 - (6.0 * emsq))
    sghs = S.s4 * zns * ((S.z31 + S.z33) - 6.0)
    shs = -zns * S.s2 * (S.z21 + S.z23)
    flat = bor(inclm < 5.2359877e-2, inclm > PI - 5.2359877e-2)
    shs = sel(flat, 0.0, shs)
    nz = bnot(eq(sinim, 0.0))
    shs = sel(nz, shs / sinim, shs)
    sgs = sghs - (cosim * shs)
    dedt = ses + (L.s1 * znl * L.s5)
    didt = sis + (L.s2 * znl * (L.z11 + L.z13))
    dmdt = sls - (znl * L.s3 * ((L.z1 + L.z3) - 14.0 - (6.0 * emsq)))
    sghl = L.s4 * znl * ((L.z31 + L.z33) - 6.0)
    shll = sel(flat, 0.0, -znl * L.s2 * (L.z21 + L.z23))
    domdt = sgs + sghl
    dnodt = shs
    domdt = sel(nz, domdt - ((cosim / sinim) * shll), domdt)
    dnodt = sel(nz, dnodt + (shll / sinim), dnodt)
    theta = r.gsto % TWO_PI
    aonv = powf(nm / XKE, X2O3)
    # 12-hour resonance
    cosisq = cosim * cosim
    e, e2 = r.ecco, eccsq
    eoc = e * e2
    def cub(a, b, c, f): return ((a + (b * e)) - (c * e2)) + (f * eoc)
    g201 = -0.306 - ((e - 0.64) * 0.440)
    lo = e <= 0.65
    g211 = sel(lo, (3.616 - (13.2470 * e)) + (16.2900 * e2), cub(-72.099, 331.819, 508.738, 266.724))
    g310 = sel(lo, cub(-19.302, 117.3900, 228.4190, 156.5910), cub(-346.844, 1582.851, 2415.925, 1246.113))
    g322 = sel(lo, cub(-18.9068, 109.7927, 214.6334, 146.5816), cub(-342.585, 1554.908, 2366.899, 1215.972))
    g410 = sel(lo, cub(-41.122, 242.6940, 471.0940, 313.9530), cub(-1052.797, 4758.686, 7193.992, 3651.957))
    g422 = sel(lo, cub(-146.407, 841.8800, 1629.014, 1083.4350), cub(-3581.690, 16178.110, 24462.770, 12422.520))
    g520 = sel(lo, cub(-532.114, 3017.977, 5740.032, 3708.2760),
               sel(e > 0.715, cub(-5149.66, 29936.92, 54087.36, 31324.56), (1464.74 - (4664.75 * e)) + (3763.64 * e2)))
    l7 = e < 0.7
    g533 = sel(l7, cub(-919.22770, 4988.6100, 9064.7700, 5542.21), cub(-37995.780, 161616.52, 229838.20, 109377.94))
    g521 = sel(l7, cub(-822.71072, 4568.6173, 8491.4146, 5337.524), cub(-51752.104, 218913.95, 309468.16, 146349.42))
    g532 = sel(l7, cub(-853.66600, 4690.2500, 8624.7700, 5341.4), cub(-40023.880, 170470.89, 242699.48, 115605.82))
    sini2 = sinim * sinim
    f220 = 0.75 * (1.0 + (2.0 * cosim) + cosisq)
    f221 = 1.5 * sini2
    f321 = 1.875 * sinim * (1.0 - (2.0 * cosim) - (3.0 * cosisq))
    f322 = -1.875 * sinim * ((1.0 + (2.0 * cosim)) - (3.0 * cosisq))
    f441 = 35.0 * sini2 * f220
    f442 = 39.3750 * sini2 * sini2
    f522 = 9.84375 * sinim * ((sini2 * (1.0 - (2.0 * cosim) - (5.0 * cosisq))) + (0.33333333 * (-2.0 + (4.0 * cosim) + (6.0 * cosisq))))
    f523 = sinim * ((4.92187512 * sini2 * ((-2.0 - (4.0 * cosim)) + (10.0 * cosisq))) + (6.56250012 * ((1.0 + (2.0 * cosim)) - (3.0 * cosisq))))
    f542 = 29.53125 * sinim * ((2.0 - (8.0 * cosim)) + (cosisq * (-12.0 + (8.0 * cosim) + (10.0 * cosisq))))
    f543 = 29.53125 * sinim * ((-2.0 - (8.0 * cosim)) + (cosisq * ((12.0 + (8.0 * cosim)) - (10.0 * cosisq))))
    xno2 = nm * nm
    ainv2 = aonv * aonv
    temp1 = 3.0 * xno2 * ainv2
    temp = temp1 * root22
    h = R()
    h.d2201 = temp * f220 * g201
    h.d2211 = temp * f221 * g211
    temp1 = temp1 * aonv
    temp = temp1 * root32
    h.d3210 = temp * f321 * g310
    h.d3222 = temp * f322 * g322
    temp1 = temp1 * aonv
    temp = 2.0 * temp1 * root44
    h.d4410 = temp * f441 * g410
    h.d4422 = temp * f442 * g422
    temp1 = temp1 * aonv
    temp = temp1 * root52
    h.d5220 = temp * f522 * g520
    h.d5232 = temp * f523 * g532
    temp = 2.0 * temp1 * root54
    h.d5421 = temp * f542 * g521
    h.d5433 = temp * f543 * g533
    hxlamo = ((r.mo + r.nodeo + r.nodeo) - (theta + theta)) % TWO_PI
    hxfact = (r.mdot + dmdt + (2.0 * ((r.nodedot + dnodt) - RPTIM))) - r.no
    # 24-hour resonance
    g200 = 1.0 + (emsq * (-2.5 + (0.8125 * emsq)))
    s310 = 1.0 + (2.0 * emsq)
    g300 = 1.0 + (emsq * (-6.0 + (6.60937 * emsq)))
    s220 = 0.75 * (1.0 + cosim) * (1.0 + cosim)
    f311 = (0.9375 * sinim * sinim * (1.0 + (3.0 * cosim))) - (0.75 * (1.0 + cosim))
    f330 = 1.0 + cosim
    f330 = f330 * (1.875 * f330 * f330)
    del1 = 3.0 * nm * nm * aonv * aonv
    del2 = 2.0 * del1 * s220 * g200 * q22
    del3 = 3.0 * del1 * f330 * g300 * q33 * aonv
    del1 = del1 * f311 * s310 * q31 * aonv
    sxlamo = ((r.mo + r.nodeo + r.argpo) - theta) % TWO_PI
    sxfact = (r.mdot + xpidot + dmdt + domdt + dnodt) - (r.no + RPTIM)
    one = band(day1, bnot(half))
    o = R(irez=irez, dedt=dedt, didt=didt, dmdt=dmdt, dnodt=dnodt, domdt=domdt)
    for k in h: o[k] = sel(half, h[k], 0.0)
    o.del1, o.del2, o.del3 = sel(one, del1, 0.0), sel(one, del2, 0.0), sel(one, del3, 0.0)
    o.xlamo = sel(half, hxlamo, sel(one, sxlamo, 0.0))
    o.xfact = sel(half, hxfact, sel(one, sxfact, 0.0))
    o.xli = o.xlamo
    o.xni = sel(bor(half, one), r.no, 0.0)
    o.atime = V(0.0)
    return o

def sgp4init(el, mode_a, deep):
    """el: R(epoch bstar ecco argpo inclo mo no nodeo). deep: None = by period,
    True/False = assume that branch. Returns (record R of floats, isimp)."""
    r = R()
    for k in NEAR0 + DEEP0: r[k] = V(0.0)
    for k in ("bstar", "ecco", "argpo", "inclo", "mo", "nodeo"): r[k] = el[k]
    i = initl(el.ecco, el.epoch, el.inclo, el.no, mode_a)
    r.no, r.con41, r.gsto = i.no, i.con41, i.gsto
    ao, con42, cosio, cosio2, omeosq, sinio, rteosq = i.ao, i.con42, i.cosio, i.cosio2, i.omeosq, i.sinio, i.rteosq
    isimp = seli(i.rp < (220.0 / RE) + 1.0, 1, 0)
    perige = (i.rp - 1.0) * RE
    ss = 78.0 / RE + 1.0
    q = (120.0 - 78.0) / RE
    qzms2t = q * q * q * q
    s2 = sel(perige < 98.0, 20.0, perige - 78.0)
    q24 = (120.0 - s2) / RE
    sfour = sel(perige < 156.0, (s2 / RE) + 1.0, ss)
    qzms24 = sel(perige < 156.0, q24 * q24 * q24 * q24, qzms2t)
    pinvsq = 1.0 / i.posq
    tsi = 1.0 / (ao - sfour)
    r.eta = ao * r.ecco * tsi
    etasq = r.eta * r.eta
    eeta = r.ecco * r.eta
    psisq = absf(1.0 - etasq)
    coef = qzms24 * V(powi(tsi.v, 4))
    coef1 = coef / powf(psisq, 3.5)
    cc2 = coef1 * r.no * ((ao * (1.0 + (1.5 * etasq) + (eeta * (4.0 + etasq))))
          + (((0.375 * J2 * tsi) / psisq) * r.con41 * (8.0 + (3.0 * etasq * (8.0 + etasq)))))
    r.cc1 = r.bstar * cc2
    ecc = r.ecco > 1.0e-4
    cc3 = sel(ecc, (-2.0 * coef * tsi * J3OJ2 * r.no * sinio) / r.ecco, 0.0)
    r.x1mth2 = 1.0 - cosio2
    r.cc4 = 2.0 * r.no * coef1 * ao * omeosq * (((r.eta * (2.0 + (0.5 * etasq))) + (r.ecco * (0.5 + (2.0 * etasq))))
            - (((J2 * tsi) / (ao * psisq)) * ((-3.0 * r.con41 * ((1.0 - (2.0 * eeta)) + (etasq * (1.5 - (0.5 * eeta)))))
               + (0.75 * r.x1mth2 * ((2.0 * etasq) - (eeta * (1.0 + etasq))) * cos(2.0 * r.argpo)))))
    r.cc5 = 2.0 * coef1 * ao * omeosq * (1.0 + (2.75 * (etasq + eeta)) + (eeta * etasq))
    cosio4 = cosio2 * cosio2
    temp1 = 1.5 * J2 * pinvsq * r.no
    temp2 = 0.5 * temp1 * J2 * pinvsq
    temp3 = -0.46875 * J4 * pinvsq * pinvsq * r.no
    r.mdot = r.no + (0.5 * temp1 * rteosq * r.con41) + (0.0625 * temp2 * rteosq * ((13.0 - (78.0 * cosio2)) + (137.0 * cosio4)))
    r.argpdot = (-0.5 * temp1 * con42) + (0.0625 * temp2 * ((7.0 - (114.0 * cosio2)) + (395.0 * cosio4))) \
        + (temp3 * ((3.0 - (36.0 * cosio2)) + (49.0 * cosio4)))
    xhdot1 = -temp1 * cosio
    r.nodedot = xhdot1 + (((0.5 * temp2 * (4.0 - (19.0 * cosio2))) + (2.0 * temp3 * (3.0 - (7.0 * cosio2)))) * cosio)
    xpidot = r.argpdot + r.nodedot
    r.omgcof = r.bstar * cc3 * cos(r.argpo)
    r.xmcof = sel(ecc, (-X2O3 * coef * r.bstar) / eeta, 0.0)
    r.nodecf = 3.5 * omeosq * xhdot1 * r.cc1
    r.t2cof = 1.5 * r.cc1
    num = -0.25 * J3OJ2 * sinio * (3.0 + (5.0 * cosio))
    r.xlcof = sel(absf(cosio + 1.0) > 1.5e-12, num / (1.0 + cosio), num / 1.5e-12)
    r.aycof = -0.5 * J3OJ2 * sinio
    dm = 1.0 + (r.eta * cos(r.mo))
    r.delmo = dm * dm * dm
    r.sinmao = sin(r.mo)
    r.x7thm1 = (7.0 * cosio2) - 1.0
    isdeep = TWO_PI / r.no >= 225.0
    if deep is None: raise NotImplementedError
    if deep:
        isimp = 1
        d = dscom(el.epoch, r.ecco, r.argpo, r.inclo, r.nodeo, r.no)
        for k in "e3 ee2 se2 se3 sgh2 sgh3 sgh4 sh2 sh3 si2 si3 sl2 sl3 sl4 xgh2 xgh3 xgh4 xh2 xh3 xi2 xi3 xl2 xl3 xl4 zmol zmos".split(): r[k] = d[k]
        for k, v in dsinit(d, r, r.inclo, i.eccsq, xpidot).items(): r[k] = v
    else:
        cc1sq = r.cc1 * r.cc1
        d2 = 4.0 * ao * tsi * cc1sq
        temp = (d2 * tsi * r.cc1) / 3.0
        d3 = ((17.0 * ao) + sfour) * temp
        d4 = 0.5 * temp * ao * tsi * ((221.0 * ao) + (31.0 * sfour)) * r.cc1
        full = icmp("eq", isimp, 0, 64)
        r.d2, r.d3, r.d4 = sel(full, d2, 0.0), sel(full, d3, 0.0), sel(full, d4, 0.0)
        r.t3cof = sel(full, d2 + (2.0 * cc1sq), 0.0)
        r.t4cof = sel(full, 0.25 * ((3.0 * d3) + (r.cc1 * ((12.0 * d2) + (10.0 * cc1sq)))), 0.0)
        r.t5cof = sel(full, 0.2 * ((3.0 * d4) + (12.0 * r.cc1 * d3) + (6.0 * d2 * d2) + (15.0 * cc1sq * ((2.0 * d2) + cc1sq))), 0.0)
    return r, isimp, isdeep

def dspace(r, t, em, argpm, inclm, mm, nodem, nsteps):
    """Secular lunar-solar drift and resonance, integrated from epoch in 720-min
    steps, at most nsteps whole steps. Also returns the in-bound condition."""
    theta = (r.gsto + (t * RPTIM)) % TWO_PI
    em = em + r.dedt * t
    inclm = inclm + r.didt * t
    argpm = argpm + r.domdt * t
    nodem = nodem + r.dnodt * t
    mm = mm + r.dmdt * t
    res = bnot(eq(r.irez, 0.0))
    half = eq(r.irez, 2.0)
    syn = eq(r.irez, 1.0)
    delt = sel(t > 0.0, 720.0, -720.0)
    xli, xni, atime = r.xlamo, r.no, V(0.0)
    nm_o = mm_o = None
    fas2, fas4, fas6 = 0.13130908, 2.8843198, 0.37448087
    g22, g32, g44, g52, g54 = 5.7686396, 0.95240898, 1.8014998, 1.0508330, 4.4108898
    outs = []
    for k in range(nsteps + 1):
        xldot = xni + r.xfact
        n1 = (r.del1 * sin(xli - fas2)) + (r.del2 * sin(2.0 * (xli - fas4))) + (r.del3 * sin(3.0 * (xli - fas6)))
        d1 = (r.del1 * cos(xli - fas2)) + (2.0 * r.del2 * cos(2.0 * (xli - fas4))) + (3.0 * r.del3 * cos(3.0 * (xli - fas6)))
        xomi = r.argpo + (r.argpdot * atime)
        x2omi, x2li = xomi + xomi, xli + xli
        a = [(x2omi + xli) - g22, xli - g22, (xomi + xli) - g32, (-xomi + xli) - g32, (x2omi + x2li) - g44, x2li - g44,
             (xomi + xli) - g52, (-xomi + xli) - g52, (xomi + x2li) - g54, (-xomi + x2li) - g54]
        D = [r.d2201, r.d2211, r.d3210, r.d3222, r.d4410, r.d4422, r.d5220, r.d5232, r.d5421, r.d5433]
        n2 = D[0] * sin(a[0])
        for i in range(1, 10): n2 = n2 + (D[i] * sin(a[i]))
        d2 = D[0] * cos(a[0])
        for i in (1, 2, 3, 6, 7): d2 = d2 + (D[i] * cos(a[i]))
        q = D[4] * cos(a[4])
        for i in (5, 8, 9): q = q + (D[i] * cos(a[i]))
        d2 = d2 + (2.0 * q)
        xndt = sel(half, n2, n1)
        xnddt = sel(half, d2 * xldot, d1 * xldot)
        ft = t - atime
        last = absf(t - atime) < 720.0
        outs.append((last, (xni, xli, xndt, xnddt, xldot, ft)))
        xli = xli + ((xldot * delt) + (xndt * 259200.0))
        xni = xni + ((xndt * delt) + (xnddt * 259200.0))
        atime = atime + delt
    fin = outs[-1][1]
    inb = outs[-1][0]
    for last, a in reversed(outs[:-1]):
        fin = tuple(sel(last, x, y) for x, y in zip(a, fin))
        inb = bor(last, inb)
    xni, xli, xndt, xnddt, xldot, ft = fin
    nm = xni + (xndt * ft) + (xnddt * ft * ft * 0.5)
    xl = xli + (xldot * ft) + (xndt * ft * ft * 0.5)
    mmr = sel(syn, (xl - nodem - argpm) + theta, (xl - (2.0 * nodem)) + (2.0 * theta))
    mm = sel(res, mmr, mm)
    nm = sel(res, r.no + (nm - r.no), r.no)
    return em, argpm, inclm, mm, nodem, nm, bor(bnot(res), inb)

def dpper(r, t, ep, inclp, nodep, argpp, mp, mode_a):
    zns, zes, znl, zel = 1.19459e-5, 0.01675, 1.5835218e-4, 0.05490
    def per(zm, ze):
        zf = zm + (2.0 * ze * sin(zm))
        s = sin(zf)
        return s, (0.5 * s * s) - 0.25, -0.5 * s * cos(zf)
    s, f2, f3 = per(r.zmos + (zns * t), zes)
    ses = (r.se2 * f2) + (r.se3 * f3)
    sis = (r.si2 * f2) + (r.si3 * f3)
    sls = (r.sl2 * f2) + (r.sl3 * f3) + (r.sl4 * s)
    sghs = (r.sgh2 * f2) + (r.sgh3 * f3) + (r.sgh4 * s)
    shs = (r.sh2 * f2) + (r.sh3 * f3)
    s, f2, f3 = per(r.zmol + (znl * t), zel)
    sel_ = (r.ee2 * f2) + (r.e3 * f3)
    sil = (r.xi2 * f2) + (r.xi3 * f3)
    sll = (r.xl2 * f2) + (r.xl3 * f3) + (r.xl4 * s)
    sghl = (r.xgh2 * f2) + (r.xgh3 * f3) + (r.xgh4 * s)
    shll = (r.xh2 * f2) + (r.xh3 * f3)
    pe = ses + sel_ - r.peo
    pinc = sis + sil - r.pinco
    pl = sls + sll - r.plo
    pgh = sghs + sghl - r.pgho
    ph = shs + shll - r.pho
    inclp = inclp + pinc
    ep = ep + pe
    sinip, cosip = sin(inclp), cos(inclp)
    direct = inclp >= 0.2
    # direct
    ph1 = ph / sinip
    pgh1 = pgh - (cosip * ph1)
    argp1, node1, mp1 = argpp + pgh1, nodep + ph1, mp + pl
    # Lyddane
    sinop, cosop = sin(nodep), cos(nodep)
    alfdp = (sinip * sinop) + ((ph * cosop) + (pinc * cosip * sinop))
    betdp = (sinip * cosop) + ((-ph * sinop) + (pinc * cosip * cosop))
    n = nodep % TWO_PI
    n = sel(band(n < 0.0, mode_a), n + TWO_PI, n)
    xls = (mp + argpp + (cosip * n)) + ((pl + pgh) - (pinc * n * sinip))
    xnoh = n
    n2 = atan2(alfdp, betdp)
    n2 = sel(band(n2 < 0.0, mode_a), n2 + TWO_PI, n2)
    n2 = sel(absf(xnoh - n2) > PI, sel(n2 < xnoh, n2 + TWO_PI, n2 - TWO_PI), n2)
    mp2 = mp + pl
    argp2 = xls - mp2 - (cosip * n2)
    return ep, inclp, sel(direct, node1, n2), sel(direct, argp1, argp2), sel(direct, mp1, mp2)

def sgp4(r, isimp, t, deep, mode_a, nsteps=3):
    """r: record fields; returns R(err, pos[3], vel[3], inbound, mid-quantities)."""
    vkm = (RE * XKE) / 60.0
    xmdf = r.mo + (r.mdot * t)
    argpdf = r.argpo + (r.argpdot * t)
    nodedf = r.nodeo + (r.nodedot * t)
    t2 = t * t
    nodem = nodedf + (r.nodecf * t2)
    tempa = 1.0 - (r.cc1 * t)
    tempe = r.bstar * r.cc4 * t
    templ = r.t2cof * t2
    simple = icmp("eq", isimp, 1, 64)
    dmt = 1.0 + (r.eta * cos(xmdf))
    temp = (r.omgcof * t) + (r.xmcof * ((dmt * dmt * dmt) - r.delmo))
    t3 = t2 * t
    t4 = t3 * t
    mmf = xmdf + temp
    mm = sel(simple, xmdf, mmf)
    argpm = sel(simple, argpdf, argpdf - temp)
    tempa = sel(simple, tempa, tempa - (r.d2 * t2) - (r.d3 * t3) - (r.d4 * t4))
    tempe = sel(simple, tempe, tempe + (r.bstar * r.cc5 * (sin(mmf) - r.sinmao)))
    templ = sel(simple, templ, templ + (r.t3cof * t3) + (t4 * (r.t4cof + (t * r.t5cof))))
    nm, em, inclm = r.no, r.ecco, r.inclo
    inb = 1
    if deep:
        em, argpm, inclm, mm, nodem, nm, inb = dspace(r, t, em, argpm, inclm, mm, nodem, nsteps)
    e2 = nm <= 0.0
    am = powf(XKE / nm, X2O3) * tempa * tempa
    nm = XKE / powf(am, 1.5)
    em = em - tempe
    e1 = bor(em >= 1.0, em < -0.001)
    em = sel(em < 1.0e-6, 1.0e-6, em)
    mm = mm + (r.no * templ)
    xlm = mm + argpm + nodem
    nodem = nodem % TWO_PI
    argpm = argpm % TWO_PI
    xlm = xlm % TWO_PI
    mm = (xlm - argpm - nodem) % TWO_PI
    ep, xincp, argpp, nodep, mp = em, inclm, argpm, nodem, mm
    e3 = 0
    if deep:
        ep, xincp, nodep, argpp, mp = dpper(r, t, ep, xincp, nodep, argpp, mp, mode_a)
        neg = xincp < 0.0
        xincp = sel(neg, -xincp, xincp)
        nodep = sel(neg, nodep + PI, nodep)
        argpp = sel(neg, argpp - PI, argpp)
        e3 = bor(ep < 0.0, ep > 1.0)
    sinip, cosip = sin(xincp), cos(xincp)
    if deep:
        aycof = -0.5 * J3OJ2 * sinip
        num = -0.25 * J3OJ2 * sinip * (3.0 + (5.0 * cosip))
        xlcof = sel(absf(cosip + 1.0) > 1.5e-12, num / (1.0 + cosip), num / 1.5e-12)
        c2 = cosip * cosip
        con41, x1mth2, x7thm1 = (3.0 * c2) - 1.0, 1.0 - c2, (7.0 * c2) - 1.0
    else: aycof, xlcof, con41, x1mth2, x7thm1 = r.aycof, r.xlcof, r.con41, r.x1mth2, r.x7thm1
    axnl = ep * cos(argpp)
    temp = 1.0 / (am * (1.0 - (ep * ep)))
    aynl = (ep * sin(argpp)) + (temp * aycof)
    xl = mp + argpp + nodep + (temp * xlcof * axnl)
    u = (xl - nodep) % TWO_PI
    eo1 = u
    done = 0
    sineo1 = coseo1 = None
    for k in range(10):
        s, c = sin(eo1), cos(eo1)
        d = 1.0 - (c * axnl) - (s * aynl)
        d = (((u - (aynl * c)) + (axnl * s)) - eo1) / d
        d = sel(absf(d) >= 0.95, sel(d > 0.0, 0.95, -0.95), d)
        sineo1 = s if k == 0 else sel(done, sineo1, s)
        coseo1 = c if k == 0 else sel(done, coseo1, c)
        eo1 = eo1 + d
        done = bor(done, absf(d) < 1.0e-12)
    ecose = (axnl * coseo1) + (aynl * sineo1)
    esine = (axnl * sineo1) - (aynl * coseo1)
    el2 = (axnl * axnl) + (aynl * aynl)
    pl = am * (1.0 - el2)
    e4 = pl < 0.0
    rl = am * (1.0 - ecose)
    rdotl = (sqrt(am) * esine) / rl
    rvdotl = sqrt(pl) / rl
    betal = sqrt(1.0 - el2)
    temp = esine / (1.0 + betal)
    sinu = (am / rl) * (sineo1 - aynl - (axnl * temp))
    cosu = (am / rl) * ((coseo1 - axnl) + (aynl * temp))
    su = atan2(sinu, cosu)
    sin2u = (cosu + cosu) * sinu
    cos2u = 1.0 - (2.0 * sinu * sinu)
    temp = 1.0 / pl
    temp1 = 0.5 * J2 * temp
    temp2 = temp1 * temp
    mrt = (rl * (1.0 - (1.5 * temp2 * betal * con41))) + (0.5 * temp1 * x1mth2 * cos2u)
    su = su - (0.25 * temp2 * x7thm1 * sin2u)
    xnode = nodep + (1.5 * temp2 * cosip * sin2u)
    xinc = xincp + (1.5 * temp2 * cosip * sinip * cos2u)
    mvt = rdotl - ((nm * temp1 * x1mth2 * sin2u) / XKE)
    rvdot = rvdotl + ((nm * temp1 * ((x1mth2 * cos2u) + (1.5 * con41))) / XKE)
    sinsu, cossu = sin(su), cos(su)
    snod, cnod = sin(xnode), cos(xnode)
    sini, cosi = sin(xinc), cos(xinc)
    xmx, xmy = -snod * cosi, cnod * cosi
    ux = (xmx * sinsu) + (cnod * cossu)
    uy = (xmy * sinsu) + (snod * cossu)
    uz = sini * sinsu
    vx = (xmx * cossu) - (cnod * sinsu)
    vy = (xmy * cossu) - (snod * sinsu)
    vz = sini * cossu
    pos = [(mrt * x) * RE for x in (ux, uy, uz)]
    vel = [((mvt * x) + (rvdot * y)) * vkm for x, y in ((ux, vx), (uy, vy), (uz, vz))]
    e6 = mrt < 1.0
    err = seli(e2, 2, seli(e1, 1, seli(e3, 3, seli(e4, 4, seli(e6, 6, 0)))))
    return R(err=err, pos=pos, vel=vel, inb=inb, mrt=mrt, pl=pl, em=em, nm=nm, ep=ep)

# ------------------------------------------------------------ frames, geodesy
A84, B84 = 6378.137, 6356.7523142
F84 = (A84 - B84) / A84
E284 = 2.0 * F84 - F84 * F84
def geo_to_ecf(lon, lat, h):
    s = sin(lat)
    n = A84 / sqrt(1.0 - E284 * (s * s))
    return [(n + h) * cos(lat) * cos(lon), (n + h) * cos(lat) * sin(lon), (n * (1.0 - E284) + h) * s]
def eci_to_geo(x, y, z, g, steps=20):
    """(right ascension - gmst unreduced, latitude, height)"""
    r = sqrt(x * x + y * y)
    lat = atan2(z, r)
    c = V(0.0)
    for _ in range(steps):
        s = sin(lat)
        c = 1.0 / sqrt(1.0 - E284 * (s * s))
        lat = atan2(z + A84 * c * E284 * s, r)
    return atan2(y, x) - g, lat, (r / cos(lat)) - A84 * c
def ecf_to_eci(x, y, z, g): return [x * cos(g) - y * sin(g), x * sin(g) + y * cos(g), z]
def eci_to_ecf(x, y, z, g): return [x * cos(g) + y * sin(g), y * cos(g) - x * sin(g), z]
def topocentric(lon, lat, h, p):
    o = geo_to_ecf(lon, lat, h)
    x, y, z = [a - b for a, b in zip(p, o)]
    sl, cl, sn, cn = sin(lat), cos(lat), sin(lon), cos(lon)
    return [sl * cn * x + sl * sn * y - cl * z, cn * y - sn * x, cl * cn * x + cl * sn * y + sl * z]
def look(s, e, z):
    """azimuth, elevation, range"""
    rg = sqrt(s * s + e * e + z * z)
    return [atan2(-e, s) + PI, asin(z / rg), rg]
CLIGHT = 299792.458
def dist(a, b):
    d = [x - y for x, y in zip(a, b)]
    return sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])
def doppler(loc, pos, vel):
    rr = dist([a + b for a, b in zip(pos, vel)], loc) - dist(pos, loc)
    return 1.0 + absf(rr) / CLIGHT
def jday(y, mo, d, h, mi, s, ms):
    return ((367.0 * y) - floor((7.0 * (y + floor((mo + 9.0) / 12.0))) * 0.25)) + floor((275.0 * mo) / 9.0) + d + 1721013.5 \
        + (((((ms / 60000.0) + (s / 60.0) + mi) / 60.0) + h) / 24.0)
