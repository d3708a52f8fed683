//! C-ABI entry points over the public API of the crate under test, for the
//! symbolic executor (which runs their LLVM IR) and for native replay.
#![allow(clippy::all)]
use chrono::prelude::*;
use satellite::io::*;
use satellite::propogation::dpper::{DpperInit, DpperOpsMode};
use satellite::propogation::initl::InitlMethod;
use satellite::propogation::sgp4::{SGP4Error, SGP4Result};
use satellite::propogation::sgp4init::SGP4InitOptions;
use satellite::{Bearing, Geodedic, TopoCentric, Vec3};

macro_rules! all_fields { ($m:ident, $r:expr, $p:expr) => { $m!($r, $p; epochdays ndot nddot bstar inclo nodeo ecco mo no a argpo alta altp jdsatepoch aycof con41 cc1 cc4 cc5 d2 d3 d4 delmo eta argpdot omgcof sinmao t t2cof t3cof t4cof t5cof x1mth2 x7thm1 mdot nodedot xlcof xmcof nodecf irez d2201 d2211 d3210 d3222 d4410 d4422 d5220 d5232 d5421 d5433 dedt del1 del2 del3 didt dmdt dnodt domdt e3 ee2 peo pgho pho pinco plo se2 se3 sgh2 sgh3 sgh4 sh2 sh3 si2 si3 sl2 sl3 sl4 gsto xfact xgh2 xgh3 xgh4 xh2 xh3 xi2 xi3 xl2 xl3 xl4 xlamo zmol zmos atime xli xni) } }
macro_rules! load_f { ($r:expr, $p:expr; $($f:ident)*) => { let mut i = 0usize; $( $r.$f = *$p.add(i); i += 1; )* let _ = i; } }
macro_rules! store_f { ($r:expr, $p:expr; $($f:ident)*) => { let mut i = 0usize; $( *$p.add(i) = $r.$f; i += 1; )* let _ = i; } }

// integer view of a record: error, epochyr, isimp, init (0=Y 1=N), operationmode (0=A 1=I 2=UNDEFINED), method (0=N 1=D)
unsafe fn load_rec(f: *const f64, k: *const i64) -> Satrec {
    let mut r = Satrec::zero();
    all_fields!(load_f, r, f);
    r.error = *k as u32;
    r.epochyr = *k.add(1);
    r.isimp = *k.add(2);
    r.init = if *k.add(3) == 0 { DpperInit::Y } else { DpperInit::N };
    r.operationmode = mode(*k.add(4));
    r.method = if *k.add(5) == 0 { InitlMethod::N } else { InitlMethod::D };
    r
}
fn mode(k: i64) -> DpperOpsMode {
    if k == 0 { DpperOpsMode::A } else if k == 1 { DpperOpsMode::I } else { DpperOpsMode::UNDEFINED }
}
fn mode_k(m: &DpperOpsMode) -> i64 {
    match m { DpperOpsMode::A => 0, DpperOpsMode::I => 1, DpperOpsMode::UNDEFINED => 2 }
}
unsafe fn store_rec(r: &Satrec, f: *mut f64, k: *mut i64) {
    all_fields!(store_f, r, f);
    *k = r.error as i64;
    *k.add(1) = r.epochyr;
    *k.add(2) = r.isimp;
    *k.add(3) = match r.init { DpperInit::Y => 0, DpperInit::N => 1 };
    *k.add(4) = mode_k(&r.operationmode);
    *k.add(5) = match r.method { InitlMethod::N => 0, InitlMethod::D => 1 };
}
fn err_k(e: &SGP4Error) -> i64 {
    match e {
        SGP4Error::Eccentricty => 1,
        SGP4Error::Nm => 2,
        SGP4Error::Ep => 3,
        SGP4Error::Pl => 4,
        SGP4Error::DecayCondition => 6,
    }
}
// o: rx ry rz vx vy vz ; c: variant (0 = Ok, else documented code of the variant), code()
unsafe fn out_res(r: Result<SGP4Result, SGP4Error>, o: *mut f64, c: *mut i64) {
    match r {
        Ok(r) => {
            *o = r.position.x; *o.add(1) = r.position.y; *o.add(2) = r.position.z;
            *o.add(3) = r.velocity.x; *o.add(4) = r.velocity.y; *o.add(5) = r.velocity.z;
            *c = 0; *c.add(1) = 0;
        }
        Err(e) => { *c = err_k(&e); *c.add(1) = e.code() as i64; }
    }
}
unsafe fn v3(p: *const f64) -> Vec3 { Vec3 { x: *p, y: *p.add(1), z: *p.add(2) } }
unsafe fn out3(v: &Vec3, o: *mut f64) { *o = v.x; *o.add(1) = v.y; *o.add(2) = v.z; }
unsafe fn geo(p: *const f64) -> Geodedic { Geodedic { longitude: *p, latitude: *p.add(1), height: *p.add(2) } }
unsafe fn text<'a>(p: *const u8, n: usize) -> &'a str { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }

// ---------------------------------------------------------------- propagation
// e: epoch bstar ecco argpo inclo mo no nodeo
#[no_mangle]
pub unsafe extern "C" fn h_sgp4init(e: *const f64, m: i64, f: *mut f64, k: *mut i64, o: *mut f64, c: *mut i64) {
    let mut rec = load_rec(f, k);
    let opts = SGP4InitOptions {
        opsmode: mode(m), satn: String::new(), epoch: *e, xbstar: *e.add(1), xecco: *e.add(2), xargpo: *e.add(3),
        xinclo: *e.add(4), xmo: *e.add(5), xno: *e.add(6), xnodeo: *e.add(7),
    };
    let r = satellite::propogation::sgp4init::sgp4init(&mut rec, opts);
    store_rec(&rec, f, k);
    out_res(r, o, c);
    std::mem::forget(rec);
}
#[no_mangle]
pub unsafe extern "C" fn h_sgp4(f: *mut f64, k: *mut i64, t: f64, o: *mut f64, c: *mut i64) {
    let mut rec = load_rec(f, k);
    let r = satellite::propogation::sgp4::sgp4(&mut rec, t);
    store_rec(&rec, f, k);
    out_res(r, o, c);
    std::mem::forget(rec);
}
// result of every error variant's code(): 5 values in the order 1 2 3 4 6
#[no_mangle]
pub unsafe extern "C" fn h_codes(c: *mut i64) {
    *c = SGP4Error::Eccentricty.code() as i64;
    *c.add(1) = SGP4Error::Nm.code() as i64;
    *c.add(2) = SGP4Error::Ep.code() as i64;
    *c.add(3) = SGP4Error::Pl.code() as i64;
    *c.add(4) = SGP4Error::DecayCondition.code() as i64;
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn mk_date(d: *const i64, o: *mut DateTime<Utc>) {
    let n = NaiveDate::from_ymd_opt(*d as i32, *d.add(1) as u32, *d.add(2) as u32).unwrap()
        .and_hms_nano_opt(*d.add(3) as u32, *d.add(4) as u32, *d.add(5) as u32, *d.add(6) as u32).unwrap();
    o.write(DateTime::<Utc>::from_naive_utc_and_offset(n, Utc));
}
unsafe fn date(d: *const i64) -> DateTime<Utc> {
    let mut m = std::mem::MaybeUninit::<DateTime<Utc>>::uninit();
    mk_date(d, m.as_mut_ptr());
    m.assume_init()
}
// d: year month day hour minute second nanosecond
#[no_mangle]
pub unsafe extern "C" fn h_propdt(f: *mut f64, k: *mut i64, d: *const i64, o: *mut f64, c: *mut i64) {
    let rec = load_rec(f, k);
    let r = satellite::propogation::propogate_datetime(&rec, date(d));
    store_rec(&rec, f, k);
    out_res(r, o, c);
    std::mem::forget(rec);
}
#[no_mangle]
pub unsafe extern "C" fn h_gstime(a: *const f64, o: *mut f64) { *o = satellite::propogation::gstime::gstime(*a); }
#[no_mangle]
pub unsafe extern "C" fn h_gstime_dt(d: *const i64, o: *mut f64) { *o = satellite::propogation::gstime::gstime_datetime(date(d)); }
// ------------------------------------------------------------------- calendar
#[no_mangle]
pub unsafe extern "C" fn h_jday(a: *const f64, o: *mut f64) {
    *o = satellite::ext::jday(*a, *a.add(1), *a.add(2), *a.add(3), *a.add(4), *a.add(5), *a.add(6));
}
#[no_mangle]
pub unsafe extern "C" fn h_jday_dt(d: *const i64, o: *mut f64) { *o = satellite::ext::jday_datetime(date(d)); }
#[no_mangle]
pub unsafe extern "C" fn h_days2mdhms(y: u64, d: f64, o: *mut f64) {
    let m = satellite::ext::days2mdhms(y, d);
    *o = m.month; *o.add(1) = m.day; *o.add(2) = m.hour; *o.add(3) = m.minute; *o.add(4) = m.second;
}
// ----------------------------------------------------------------- transforms
#[no_mangle]
pub unsafe extern "C" fn h_rad2deg(a: *const f64, o: *mut f64) { *o = satellite::transforms::radians_to_degrees(*a); }
#[no_mangle]
pub unsafe extern "C" fn h_deg2rad(a: *const f64, o: *mut f64) { *o = satellite::transforms::degrees_to_radians(*a); }
#[no_mangle]
pub unsafe extern "C" fn h_deg_lat(a: *const f64, o: *mut f64) { *o = satellite::transforms::degrees_lat(*a); }
#[no_mangle]
pub unsafe extern "C" fn h_deg_long(a: *const f64, o: *mut f64) { *o = satellite::transforms::degrees_long(*a); }
#[no_mangle]
pub unsafe extern "C" fn h_rad_lat(a: *const f64, o: *mut f64) { *o = satellite::transforms::radians_lat(*a); }
#[no_mangle]
pub unsafe extern "C" fn h_rad_long(a: *const f64, o: *mut f64) { *o = satellite::transforms::radians_long(*a); }
#[no_mangle]
pub unsafe extern "C" fn h_geo_to_ecf(a: *const f64, o: *mut f64) { out3(&satellite::transforms::geodedic_to_ecf(&geo(a)), o); }
#[no_mangle]
pub unsafe extern "C" fn h_eci_to_geo(a: *const f64, o: *mut f64) {
    let g = satellite::transforms::eci_to_geodedic(&v3(a), *a.add(3));
    *o = g.longitude; *o.add(1) = g.latitude; *o.add(2) = g.height;
}
#[no_mangle]
pub unsafe extern "C" fn h_ecf_to_eci(a: *const f64, o: *mut f64) { out3(&satellite::transforms::ecf_to_eci(&v3(a), *a.add(3)), o); }
#[no_mangle]
pub unsafe extern "C" fn h_eci_to_ecf(a: *const f64, o: *mut f64) { out3(&satellite::transforms::eci_to_ecf(&v3(a), *a.add(3)), o); }
#[no_mangle]
pub unsafe extern "C" fn h_topo(a: *const f64, o: *mut f64) {
    let t = satellite::transforms::topocentric(&geo(a), &v3(a.add(3)));
    *o = t.top_s; *o.add(1) = t.top_e; *o.add(2) = t.top_z;
}
unsafe fn out_b(b: &Bearing, o: *mut f64) { *o = b.azimuth; *o.add(1) = b.elevation; *o.add(2) = b.range; }
#[no_mangle]
pub unsafe extern "C" fn h_look(a: *const f64, o: *mut f64) {
    let t = TopoCentric { top_s: *a, top_e: *a.add(1), top_z: *a.add(2) };
    out_b(&satellite::transforms::topocentric_to_look_angles(&t), o);
}
#[no_mangle]
pub unsafe extern "C" fn h_ecf_look(a: *const f64, o: *mut f64) {
    out_b(&satellite::transforms::ecf_to_look_angles(&geo(a), &v3(a.add(3))), o);
}
#[no_mangle]
pub unsafe extern "C" fn h_doppler(a: *const f64, o: *mut f64) {
    *o = satellite::doppler_factor::doppler_factor(v3(a), v3(a.add(3)), v3(a.add(6)));
}
#[no_mangle]
pub unsafe extern "C" fn h_vec(a: *const f64, o: *mut f64) {
    let (p, q) = (v3(a), v3(a.add(3)));
    out3(&p.add(&q), o);
    out3(&p.subtract(&q), o.add(3));
    *o.add(6) = p.range(&q);
}
// ------------------------------------------------------------------------- io
// e: variant, name ptr, name len, low, high, text ptr, text len, nested variant/code, index
// variants: 0 none 1 float 2 int 3 compound 4 sgp4init 5 line check 6 line count 7 multi
unsafe fn out_err(e: &SatrecParseError, o: *mut i64) {
    match e {
        SatrecParseError::FloatParseError(n, l, h, s) => { *o = 1; put(n, s, o); *o.add(3) = *l as i64; *o.add(4) = *h as i64; }
        SatrecParseError::IntParseError(n, l, h, s) => { *o = 2; put(n, s, o); *o.add(3) = *l as i64; *o.add(4) = *h as i64; }
        SatrecParseError::CompoundError(n, s) => { *o = 3; put(n, s, o); }
        SatrecParseError::Sgp4InitError(e) => { *o = 4; *o.add(7) = err_k(e); }
        SatrecParseError::InvalidTLELineCheckFailed => { *o = 5; }
        SatrecParseError::InvalidTLEBadLineCount => { *o = 6; }
        SatrecParseError::SatrecMultiError(i, b) => { *o = 7; *o.add(8) = *i as i64; *o.add(7) = variant(b); }
    }
}
fn variant(e: &SatrecParseError) -> i64 {
    match e {
        SatrecParseError::FloatParseError(..) => 1,
        SatrecParseError::IntParseError(..) => 2,
        SatrecParseError::CompoundError(..) => 3,
        SatrecParseError::Sgp4InitError(_) => 4,
        SatrecParseError::InvalidTLELineCheckFailed => 5,
        SatrecParseError::InvalidTLEBadLineCount => 6,
        SatrecParseError::SatrecMultiError(..) => 7,
    }
}
unsafe fn put(n: &'static str, s: &String, o: *mut i64) {
    *o.add(1) = n.as_ptr() as i64; *o.add(2) = n.len() as i64;
    *o.add(5) = s.as_ptr() as i64; *o.add(6) = s.len() as i64;
}
// s: satnum ptr, len, name ptr (0 if none), len
unsafe fn out_strings(r: &Satrec, s: *mut i64) {
    *s = r.satnum.as_ptr() as i64; *s.add(1) = r.satnum.len() as i64;
    match &r.name {
        Some(n) => { *s.add(2) = n.as_ptr() as i64; *s.add(3) = n.len() as i64; *s.add(4) = 1; }
        None => { *s.add(2) = 0; *s.add(3) = 0; *s.add(4) = 0; }
    }
}
unsafe fn out_parse(r: Result<Satrec, SatrecParseError>, f: *mut f64, k: *mut i64, s: *mut i64, e: *mut i64) {
    match r {
        Ok(rec) => { *e = 0; store_rec(&rec, f, k); out_strings(&rec, s); std::mem::forget(rec); }
        Err(x) => { out_err(&x, e); std::mem::forget(x); }
    }
}
#[no_mangle]
pub unsafe extern "C" fn h_parse_satrec(p: *const u8, n: usize, q: *const u8, m: usize, f: *mut f64, k: *mut i64, s: *mut i64, e: *mut i64) {
    out_parse(parse_satrec(text(p, n), text(q, m)), f, k, s, e)
}
#[no_mangle]
pub unsafe extern "C" fn h_twoline(p: *const u8, n: usize, q: *const u8, m: usize, f: *mut f64, k: *mut i64, s: *mut i64, e: *mut i64) {
    out_parse(twoline2satrec(text(p, n), text(q, m)), f, k, s, e)
}
#[no_mangle]
pub unsafe extern "C" fn h_parse(p: *const u8, n: usize, f: *mut f64, k: *mut i64, s: *mut i64, e: *mut i64) {
    out_parse(parse(text(p, n)), f, k, s, e)
}
// cnt: records, errors; s: 6 per record (5 strings + tag in s[5] = bits of bstar); e: 9 per error
#[no_mangle]
pub unsafe extern "C" fn h_multi(p: *const u8, n: usize, cnt: *mut i64, s: *mut i64, b: *mut f64, e: *mut i64) {
    let (recs, errs) = parse_multiple(text(p, n));
    *cnt = recs.len() as i64;
    *cnt.add(1) = errs.len() as i64;
    let mut i = 0usize;
    while i < recs.len() { out_strings(&recs[i], s.add(6 * i)); *b.add(i) = recs[i].bstar; i += 1; }
    i = 0;
    while i < errs.len() { out_err(&errs[i], e.add(9 * i)); i += 1; }
    std::mem::forget(recs);
    std::mem::forget(errs);
}
// ---------------------------------------------------------------------- stubs
// Bodies the executor may run in place of a callee, to cut a property at that
// interface: the oracle decides the outcome and records the arguments.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn oracle_twoline(_p: *const u8, _n: usize, _q: *const u8, _m: usize) -> i64 { 0 }
#[no_mangle]
#[inline(never)]
pub fn stub_twoline2satrec(a: &str, b: &str) -> Result<Satrec, SatrecParseError> {
    let k = unsafe { oracle_twoline(a.as_ptr(), a.len(), b.as_ptr(), b.len()) };
    if k >= 0 {
        let mut r = Satrec::zero();
        r.bstar = k as f64;
        r.satnum = String::new();
        Ok(r)
    } else {
        Err(SatrecParseError::Sgp4InitError(SGP4Error::Nm))
    }
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn oracle_init(_e: *const f64, _m: i64, _f: *mut f64, _k: *mut i64, _s: *const u8, _n: usize) -> i64 { 0 }
fn sgp4_out(k: i64, o: &[f64; 6]) -> Result<SGP4Result, SGP4Error> {
    match k {
        0 => Ok(SGP4Result { position: Vec3 { x: o[0], y: o[1], z: o[2] }, velocity: Vec3 { x: o[3], y: o[4], z: o[5] } }),
        1 => Err(SGP4Error::Eccentricty),
        2 => Err(SGP4Error::Nm),
        3 => Err(SGP4Error::Ep),
        4 => Err(SGP4Error::Pl),
        _ => Err(SGP4Error::DecayCondition),
    }
}
#[no_mangle]
#[inline(never)]
pub fn stub_sgp4init(r: &mut Satrec, x: SGP4InitOptions) -> Result<SGP4Result, SGP4Error> {
    unsafe {
        let e = [x.epoch, x.xbstar, x.xecco, x.xargpo, x.xinclo, x.xmo, x.xno, x.xnodeo];
        let mut f = [0.0f64; 128];
        let mut k = [0i64; 6];
        store_rec(r, f.as_mut_ptr(), k.as_mut_ptr());
        let c = oracle_init(e.as_ptr(), mode_k(&x.opsmode), f.as_mut_ptr(), k.as_mut_ptr(), x.satn.as_ptr(), x.satn.len());
        std::mem::forget(x);
        sgp4_out(c, &[0.0; 6])
    }
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn oracle_sgp4(_f: *const f64, _k: *const i64, _t: f64, _o: *mut f64) -> i64 { 0 }
#[no_mangle]
#[inline(never)]
pub fn stub_sgp4(r: &mut Satrec, t: f64) -> Result<SGP4Result, SGP4Error> {
    unsafe {
        let mut f = [0.0f64; 128];
        let mut k = [0i64; 6];
        let mut o = [0.0f64; 6];
        store_rec(r, f.as_mut_ptr(), k.as_mut_ptr());
        let c = oracle_sgp4(f.as_ptr(), k.as_ptr(), t, o.as_mut_ptr());
        sgp4_out(c, &o)
    }
}
#[no_mangle]
pub static H_KEEP: (fn(&str, &str) -> Result<Satrec, SatrecParseError>, fn(&mut Satrec, SGP4InitOptions) -> Result<SGP4Result, SGP4Error>, fn(&mut Satrec, f64) -> Result<SGP4Result, SGP4Error>) =
    (stub_twoline2satrec, stub_sgp4init, stub_sgp4);
