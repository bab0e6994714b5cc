//! World I: nodes that compute with the public field, scalar and group types.
//! Each node has registers whose contents are whatever earlier operations left
//! (unnormalised, of high magnitude, scaled by some z, at infinity); it stores
//! them in the compact or byte forms, sends them to other nodes, crashes and
//! goes on from what was stored. Every register is mirrored by the model.
use crate::ctx::Cx;
use crate::gen;
use crate::model::{arith::*, curve, curve::J as MJ, Pt};
use crate::ops;
use crate::plan::Step;
use crate::rng::{mix2, Rng};
use libsecp256k1::curve::{Affine, AffineStorage, ECMultContext, ECMultGenContext, Field, FieldStorage, Jacobian, Scalar, AFFINE_G};
use libsecp256k1::util::{globalz_set_table_gej, odd_multiples_table, set_table_gej_var, AFFINE_INFINITY, JACOBIAN_INFINITY};
use std::cmp::Ordering;

const C18: &[&str] = &["C18"];
const K_FIELD: u8 = 0;
const K_SCALAR: u8 = 1;
const K_GROUP: u8 = 2;
const K_MULT: u8 = 3;
const K_TABLE: u8 = 4;
const K_SAVE: u8 = 5;
const K_CRASH: u8 = 6;
const K_SEND: u8 = 7;
const K_DELIVER: u8 = 8;

pub fn plan(_prop: &str, seed: u64) -> Vec<Step> {
    let mut r = Rng::new(mix2(seed, 9));
    let n = 30 + r.below(120);
    // each run has its own emphasis
    let mut w = [30u32, 14, 16, 1, 1, 5, 2, 4, 5];
    match r.below(5) {
        0 => w[0] *= 4,
        1 => w[1] *= 5,
        2 => w[2] *= 4,
        3 => {
            w[3] = 8;
            w[4] = 4;
        }
        _ => {}
    }
    let mut t = 0;
    (0..n)
        .map(|_| {
            t += 1 + r.log(1000) as u64;
            Step { kind: r.weighted(&w) as u8, at: t, seed: r.u64(), fault: true }
        })
        .collect()
}

#[derive(Clone, Copy)]
struct FR {
    f: Field,
    v: U,
    m: u32,
    norm: bool,
}
#[derive(Clone, Copy)]
struct SR {
    s: Scalar,
    v: U,
}
#[derive(Clone, Copy)]
struct AR {
    a: Affine,
    p: Pt,
}
#[derive(Clone, Copy)]
struct JR {
    j: Jacobian,
    p: Pt,
}
const NF: usize = 6;
const NS: usize = 4;
const NA: usize = 4;
const NJ: usize = 5;
/// a record as stored or sent: what was written and what it means
#[derive(Clone)]
enum Rec {
    FBytes([u8; 32], U),
    FStore(FieldStorage, U),
    SBytes([u8; 32], U),
    AStore(AffineStorage, Pt),
    ABytes([u8; 32], bool, Pt),
}
struct Node {
    f: [FR; NF],
    s: [SR; NS],
    a: [AR; NA],
    j: [JR; NJ],
    disk: Vec<Option<Rec>>,
}
fn fe(v: &U) -> Field {
    let mut f = Field::default();
    let _ = f.set_b32(&v.to_be());
    f
}
fn val(f: &Field) -> U {
    let mut c = *f;
    c.normalize();
    U::from_be(&c.b32())
}
fn aff(p: &Pt) -> Affine {
    match p {
        Pt::A(x, y) => {
            let mut a = Affine::default();
            a.set_xy(&fe(x), &fe(y));
            a
        }
        Pt::Inf => AFFINE_INFINITY,
    }
}
/// what a group element stands for
fn a_pt(a: &Affine) -> Pt {
    if a.infinity {
        Pt::Inf
    } else {
        Pt::A(val(&a.x), val(&a.y))
    }
}
fn j_pt(j: &Jacobian) -> Pt {
    if j.infinity {
        return Pt::Inf;
    }
    let z = val(&j.z);
    if z.is_zero() {
        // no point has these coordinates
        return Pt::A(ZERO, ZERO);
    }
    let zi = finv(&z);
    let zi2 = fsqr(&zi);
    Pt::A(fmul(&val(&j.x), &zi2), fmul(&val(&j.y), &fmul(&zi2, &zi)))
}
fn scl(v: &U) -> Scalar {
    let mut w = [0u32; 8];
    for i in 0..8 {
        w[i] = (v.0[i / 2] >> (32 * (i % 2))) as u32;
    }
    Scalar(w)
}
fn s_val(s: &Scalar) -> U {
    let mut v = [0u64; 4];
    for i in 0..8 {
        v[i / 2] |= (s.0[i] as u64) << (32 * (i % 2));
    }
    U(v)
}
fn fresh() -> Node {
    let z = FR { f: Field::default(), v: ZERO, m: 0, norm: true };
    Node {
        f: [z; NF],
        s: [SR { s: Scalar::default(), v: ZERO }; NS],
        a: [AR { a: AFFINE_G, p: curve::G }; NA],
        j: [JR { j: JACOBIAN_INFINITY, p: Pt::Inf }; NJ],
        disk: vec![None; NF + NS + NA + NJ],
    }
}
/// ten limbs of 26 bits (22 in the last), mostly at their extremes
fn raw_limbs(r: &mut Rng) -> ([u32; 10], U) {
    const PL: [u32; 10] = [0x3fffc2f, 0x3ffffbf, 0x3ffffff, 0x3ffffff, 0x3ffffff, 0x3ffffff, 0x3ffffff, 0x3ffffff, 0x3ffffff, 0x3fffff];
    let mode = r.below(5);
    let mut l = [0u32; 10];
    for i in 0..10 {
        let mask = if i == 9 { 0x3fffff } else { 0x3ffffff };
        l[i] = mask
            & match if mode == 0 { r.below(4) } else if mode == 1 { 3 + r.below(6) } else { r.below(11) } {
                0 | 1 => PL[i],
                2 => PL[i].wrapping_add(1).min(mask),
                3 => PL[i] - 1,
                4 => 0,
                5 => 1,
                6 => mask,
                7 => mask - 1,
                8 => 1 << r.below(26),
                9 => mask ^ (1 << r.below(22)),
                _ => r.u64() as u32,
            };
    }
    (l, limbs_val(&l))
}
fn limbs_val(l: &[u32; 10]) -> U {
    let mut v = ZERO;
    for i in (0..10).rev() {
        for _ in 0..26 {
            v = fadd(&v, &v);
        }
        v = fadd(&v, &U::from_u64(l[i] as u64));
    }
    v
}
fn felem(r: &mut Rng) -> U {
    match r.below(4) {
        0 => raw_limbs(r).1,
        1 => U::from_u64(r.below(8) as u64),
        _ => fred(&gen::any(r)),
    }
}
/// how a value looks to the coverage count
fn fclass(v: &U) -> u64 {
    if v.is_zero() {
        0
    } else if *v < U::from_u64(1 << 20) {
        1
    } else if P.wsub(v) < U::from_u64(1 << 34) {
        2
    } else {
        3 + (v.0.iter().map(|x| x.count_ones()).sum::<u32>() / 52) as u64
    }
}

pub struct World<'a> {
    cx: &'a mut Cx,
    n: Vec<Node>,
    wire: Vec<Rec>,
}
impl<'a> World<'a> {
    fn bad_f(&mut self, op: &str, got: &U, want: &U, args: String) {
        self.cx.fail(C18, "field-wrong", format!("{} gave {} instead of {} ({})", op, got.hex(), want.hex(), args));
    }
    /// a result goes into a register; its value is compared with the model's
    fn put_f(&mut self, n: usize, k: usize, op: &'static str, f: Field, v: U, m: u32, norm: bool, args: impl FnOnce() -> String) {
        let got = match self.cx.lib("field_read", C18, || val(&f)) {
            Some(g) => g,
            None => return,
        };
        self.cx.log(format!("n{} f{} {} -> {}", n, k, op, got.hex()));
        self.cx.st.evals += 1;
        if got != v {
            let a = args();
            self.bad_f(op, &got, &v, a);
            return;
        }
        if norm {
            // a normalised result reads the same without normalising
            let b = self.cx.lib("field_b32", C18, || f.b32());
            self.cx.check(b == Some(v.to_be()), C18, "field-not-normalised", || format!("{} {}", op, v.hex()));
        }
        self.n[n].f[k] = FR { f, v, m, norm };
    }
    fn field(&mut self, n: usize, r: &mut Rng) {
        let (i, j, k) = (r.below(NF), r.below(NF), r.below(NF));
        let a = self.n[n].f[i];
        let b = self.n[n].f[j];
        let op = r.weighted(&[8, 6, 5, 7, 12, 6, 8, 5, 8, 4, 4, 2, 2, 6, 1, 10]);
        self.cx.seen(&[90, op as u64, fclass(&a.v), a.m as u64, a.norm as u64, fclass(&b.v), b.m as u64]);
        let args = || format!("{} magnitude {}, {} magnitude {}", a.v.hex(), a.m, b.v.hex(), b.m);
        match op {
            0 => {
                // set from bytes
                let v = if r.p(1, 4) { gen::any(r) } else { felem(r) };
                let mut f = a.f;
                if let Some(ok) = self.cx.lib("Field::set_b32", C18, || f.set_b32(&v.to_be())) {
                    self.cx.check(ok == (v < P), C18, "field-range", || format!("{} accepted: {}", v.hex(), ok));
                    if ok && v < P {
                        self.put_f(n, k, "set_b32", f, v, 1, true, String::new);
                    }
                }
            }
            1 => {
                // raw limbs
                let (l, v) = raw_limbs(r);
                if let Some(f) = self.cx.lib("Field::new_raw", C18, || Field::new_raw(l[9], l[8], l[7], l[6], l[5], l[4], l[3], l[2], l[1], l[0])) {
                    self.put_f(n, k, "new_raw", f, v, 1, false, || format!("{:x?}", l));
                }
            }
            2 => {
                // constructors of normalised values
                let v = felem(r);
                let w: [u32; 8] = scl(&v).0;
                let small = r.u64() as u32 & 0x3ffffff;
                let how = r.below(4);
                let v = if how >= 2 { U::from_u64(small as u64) } else { v };
                let mut f = a.f;
                let got = self.cx.lib("Field::new", C18, || match how {
                    0 => Field::new(w[7], w[6], w[5], w[4], w[3], w[2], w[1], w[0]),
                    1 => Field::from(FieldStorage::new(w[7], w[6], w[5], w[4], w[3], w[2], w[1], w[0])),
                    2 => Field::from_int(small),
                    _ => {
                        f.set_int(small);
                        f
                    }
                });
                if let Some(f) = got {
                    self.put_f(n, k, "new", f, v, 1, true, || format!("way {} of {}", how, v.hex()));
                }
            }
            3 if a.m + b.m <= 32 => {
                let how = r.below(4);
                if let Some(f) = self.cx.lib("Field::add", C18, || match how {
                    0 => a.f + b.f,
                    1 => &a.f + &b.f,
                    2 => {
                        let mut t = a.f;
                        t += &b.f;
                        t
                    }
                    _ => {
                        let mut t = a.f;
                        t += b.f;
                        t
                    }
                }) {
                    self.put_f(n, k, "add", f, fadd(&a.v, &b.v), a.m + b.m, false, args);
                }
            }
            4 if a.m <= 8 && b.m <= 8 => {
                let how = r.below(5);
                let mut t = self.n[n].f[k].f;
                if let Some(f) = self.cx.lib("Field::mul", C18, || match how {
                    0 => a.f * b.f,
                    1 => &a.f * &b.f,
                    2 => {
                        let mut t = a.f;
                        t *= &b.f;
                        t
                    }
                    3 => {
                        let mut t = a.f;
                        t *= b.f;
                        t
                    }
                    _ => {
                        t.mul_in_place(&a.f, &b.f);
                        t
                    }
                }) {
                    self.put_f(n, k, "mul", f, fmul(&a.v, &b.v), 1, false, args);
                }
            }
            5 if a.m <= 8 => {
                let mut t = self.n[n].f[k].f;
                let how = r.p(1, 2);
                if let Some(f) = self.cx.lib("Field::sqr", C18, || {
                    if how {
                        a.f.sqr()
                    } else {
                        t.sqr_in_place(&a.f);
                        t
                    }
                }) {
                    self.put_f(n, k, "sqr", f, fsqr(&a.v), 1, false, args);
                }
            }
            6 if a.m < 32 => {
                let m = if r.p(3, 4) { a.m } else { a.m + r.below(32 - a.m as usize) as u32 };
                let mut t = self.n[n].f[k].f;
                let how = r.p(1, 2);
                if let Some(f) = self.cx.lib("Field::neg", C18, || {
                    if how {
                        a.f.neg(m)
                    } else {
                        t.neg_in_place(&a.f, m);
                        t
                    }
                }) {
                    self.put_f(n, k, "neg", f, fneg(&a.v), m + 1, false, || format!("{} magnitude {} as {}", a.v.hex(), a.m, m));
                }
            }
            7 => {
                let top = if a.m == 0 { 32 } else { 32 / a.m };
                let c = r.below(top as usize + 1) as u32;
                let mut t = a.f;
                if let Some(f) = self.cx.lib("Field::mul_int", C18, || {
                    t.mul_int(c);
                    t
                }) {
                    self.put_f(n, k, "mul_int", f, fmul(&a.v, &U::from_u64(c as u64)), a.m * c, false, || format!("{} magnitude {} by {}", a.v.hex(), a.m, c));
                }
            }
            8 => {
                let how = r.below(3);
                let mut t = a.f;
                if let Some(f) = self.cx.lib("Field::normalize", C18, || {
                    match how {
                        0 => t.normalize(),
                        1 => t.normalize_var(),
                        _ => t.normalize_weak(),
                    }
                    t
                }) {
                    self.put_f(n, k, ["normalize", "normalize_var", "normalize_weak"][how], f, a.v, 1, how < 2 || a.norm, args);
                }
            }
            9 if a.m <= 8 => {
                let how = r.p(1, 2);
                if let Some(f) = self.cx.lib("Field::inv", C18, || if how { a.f.inv() } else { a.f.inv_var() }) {
                    self.put_f(n, k, "inv", f, finv(&a.v), 1, false, args);
                }
            }
            10 if a.m <= 8 => {
                let want = fsqrt(&a.v);
                if let Some((f, ok)) = self.cx.lib("Field::sqrt", C18, || a.f.sqrt()) {
                    self.cx.check(ok == want.is_some(), C18, "square-root-exists", || format!("{}: {}", a.v.hex(), ok));
                    let q = self.cx.lib("Field::is_quad_var", C18, || a.f.is_quad_var());
                    self.cx.check(q == Some(want.is_some()), C18, "square-root-exists", || format!("is_quad_var {}: {:?}", a.v.hex(), q));
                    // the principal root of the value or of its negation
                    let v = want.or_else(|| fsqrt(&fneg(&a.v))).unwrap_or(ZERO);
                    self.put_f(n, k, "sqrt", f, v, 1, false, args);
                }
            }
            11 => {
                let mut t = a.f;
                let flag = r.p(1, 2);
                if let Some(f) = self.cx.lib("Field::cmov", C18, || {
                    t.cmov(&b.f, flag);
                    t
                }) {
                    let w = if flag { b } else { a };
                    self.put_f(n, k, "cmov", f, w.v, w.m, w.norm, args);
                }
            }
            12 => {
                let mut t = a.f;
                if let Some(f) = self.cx.lib("Field::clear", C18, || {
                    t.clear();
                    t
                }) {
                    self.put_f(n, k, "clear", f, ZERO, 0, true, args);
                }
            }
            13 => {
                // another representation of a value already held: x - y + y, or a multiple of p
                if a.m < 32 && a.m + 1 + b.m <= 32 {
                    if let Some(f) = self.cx.lib("Field::add", C18, || a.f.neg(a.m) + b.f) {
                        self.put_f(n, k, "sub", f, fsub(&b.v, &a.v), a.m + 1 + b.m, false, args);
                    }
                }
                if a.m < 16 {
                    let k2 = (k + 1) % NF;
                    if let Some(f) = self.cx.lib("Field::add", C18, || a.f.neg(a.m) + a.f) {
                        self.put_f(n, k2, "zero", f, ZERO, 2 * a.m + 1, false, args);
                    }
                }
            }
            14 => {
                // storage forms
                let mut c = a.f;
                let flag = r.p(1, 2);
                let mut d = b.f;
                let got = self.cx.lib("FieldStorage", C18, || {
                    c.normalize();
                    d.normalize_var();
                    let mut x: FieldStorage = c.into();
                    let y: FieldStorage = d.into();
                    x.cmov(&y, flag);
                    (Field::from(x), x.0)
                });
                if let Some((f, w)) = got {
                    let v = if flag { b.v } else { a.v };
                    self.cx.check(w == scl(&v).0, C18, "field-storage", || format!("{:x?} for {}", w, v.hex()));
                    self.put_f(n, k, "storage", f, v, 1, true, args);
                }
            }
            _ => {
                // questions
                let z = self.cx.lib("Field::normalizes_to_zero", C18, || (a.f.normalizes_to_zero(), a.f.normalizes_to_zero_var()));
                let w = a.v.is_zero();
                self.cx.check(z == Some((w, w)), C18, "field-question", || format!("is {} (magnitude {}) zero: {:?}", a.v.hex(), a.m, z));
                if a.norm {
                    let q = self.cx.lib("Field::is_odd", C18, || (a.f.is_zero(), a.f.is_odd()));
                    self.cx.check(q == Some((w, a.v.is_odd())), C18, "field-question", || format!("{} zero, odd: {:?}", a.v.hex(), q));
                }
                if a.norm && b.norm {
                    let q = self.cx.lib("Field::cmp_var", C18, || (a.f.cmp_var(&b.f), a.f.cmp(&b.f), a.f.partial_cmp(&b.f)));
                    let o = a.v.cmp(&b.v);
                    self.cx.check(q == Some((o, o, Some(o))), C18, "field-question", || format!("order of {} and {}: {:?}", a.v.hex(), b.v.hex(), q));
                }
                let e = a.v == b.v;
                if a.m <= 1 && b.m <= 30 {
                    let q = self.cx.lib("Field::eq_var", C18, || a.f.eq_var(&b.f));
                    self.cx.check(q == Some(e), C18, "field-question", || format!("{} == {} (magnitude {}): {:?}", a.v.hex(), b.v.hex(), b.m, q));
                }
                let q = self.cx.lib("Field::eq", C18, || (a.f == b.f, b.f == a.f));
                self.cx.check(q == Some((e, e)), C18, "field-question", || {
                    format!("{} (magnitude {}) == {} (magnitude {}): {:?}", a.v.hex(), a.m, b.v.hex(), b.m, q)
                });
            }
        }
    }
    fn put_s(&mut self, n: usize, k: usize, op: &'static str, s: Scalar, v: U, args: impl FnOnce() -> String) {
        let got = s_val(&s);
        self.cx.log(format!("n{} s{} {} -> {}", n, k, op, got.hex()));
        self.cx.check(got == v, C18, "scalar-wrong", || format!("{} gave {} instead of {} ({})", op, got.hex(), v.hex(), args()));
        if got == v {
            self.n[n].s[k] = SR { s, v };
        }
    }
    fn scalar(&mut self, n: usize, r: &mut Rng) {
        let (i, j, k) = (r.below(NS), r.below(NS), r.below(NS));
        let a = self.n[n].s[i];
        let b = self.n[n].s[j];
        let mut t = self.n[n].s[k].s;
        let args = || format!("{}, {}", a.v.hex(), b.v.hex());
        let op = r.weighted(&[10, 8, 10, 5, 3, 6, 4, 4, 4, 1, 8]);
        self.cx.seen(&[91, op as u64, gen::class(&a.v) as u64, gen::class(&b.v) as u64]);
        match op {
            0 => {
                let v = if r.p(1, 2) { gen::any(r) } else { gen::scalar0(r) };
                if let Some(o) = self.cx.lib("Scalar::set_b32", C18, || bool::from(t.set_b32(&v.to_be()))) {
                    self.cx.check(o == (v >= N), C18, "scalar-range", || format!("{} overflows: {}", v.hex(), o));
                    self.put_s(n, k, "set_b32", t, nred(&v), || v.hex());
                }
            }
            1 => {
                let how = r.below(4);
                if let Some(s) = self.cx.lib("Scalar::add", C18, || match how {
                    0 => a.s + b.s,
                    1 => &a.s + &b.s,
                    2 => {
                        let mut t = a.s;
                        t += &b.s;
                        t
                    }
                    _ => {
                        let mut t = a.s;
                        t += b.s;
                        t
                    }
                }) {
                    self.put_s(n, k, "add", s, nadd(&a.v, &b.v), args);
                }
            }
            2 => {
                let how = r.below(5);
                if let Some(s) = self.cx.lib("Scalar::mul", C18, || match how {
                    0 => a.s * b.s,
                    1 => &a.s * &b.s,
                    2 => {
                        let mut t = a.s;
                        t *= &b.s;
                        t
                    }
                    3 => {
                        let mut t = a.s;
                        t *= b.s;
                        t
                    }
                    _ => {
                        t.mul_in_place(&a.s, &b.s);
                        t
                    }
                }) {
                    self.put_s(n, k, "mul", s, nmul(&a.v, &b.v), args);
                }
            }
            3 => {
                let how = r.p(1, 2);
                if let Some(s) = self.cx.lib("Scalar::sqr", C18, || {
                    if how {
                        a.s.sqr()
                    } else {
                        t.sqr_in_place(&a.s);
                        t
                    }
                }) {
                    self.put_s(n, k, "sqr", s, nmul(&a.v, &a.v), args);
                }
            }
            4 => {
                let how = r.below(3);
                if let Some(s) = self.cx.lib("Scalar::inv", C18, || match how {
                    0 => a.s.inv(),
                    1 => a.s.inv_var(),
                    _ => {
                        t.inv_in_place(&a.s);
                        t
                    }
                }) {
                    self.put_s(n, k, "inv", s, ninv(&a.v), args);
                }
            }
            5 => {
                let how = r.below(4);
                let mut want = nneg(&a.v);
                if how == 3 {
                    want = a.v;
                }
                if let Some(s) = self.cx.lib("Scalar::neg", C18, || match how {
                    0 => -a.s,
                    1 => -&a.s,
                    c => {
                        let mut t = a.s;
                        t.cond_neg_assign(((c == 2) as u8).into());
                        t
                    }
                }) {
                    self.put_s(n, k, "neg", s, want, args);
                }
            }
            6 => {
                let c = 1 + r.below(15);
                let mut t = a.s;
                if let Some(low) = self.cx.lib("Scalar::shr_int", C18, || t.shr_int(c)) {
                    let mut v = a.v;
                    for _ in 0..c {
                        v = v.shr1();
                    }
                    let l = (a.v.0[0] & ((1 << c) - 1)) as u32;
                    self.cx.check(low == l, C18, "scalar-wrong", || format!("{} shifted by {} drops {} instead of {}", a.v.hex(), c, low, l));
                    self.put_s(n, k, "shr_int", t, v, || format!("{} by {}", a.v.hex(), c));
                }
            }
            7 => {
                let c = r.below(256);
                let flag = r.p(3, 4);
                let (v, o) = add(&a.v, &U::pow2(c));
                if flag && (o || v >= N) {
                    return;
                }
                let mut t = a.s;
                if self.cx.lib("Scalar::cadd_bit", C18, || t.cadd_bit(c, flag)).is_some() {
                    self.put_s(n, k, "cadd_bit", t, if flag { v } else { a.v }, || format!("{} bit {} {}", a.v.hex(), c, flag));
                }
            }
            8 => {
                // a relation that makes later sums or products special
                let v = match r.below(4) {
                    0 => nneg(&a.v),
                    1 => ninv(&a.v),
                    2 => nsub(&ONE, &a.v),
                    _ => a.v,
                };
                self.put_s(n, k, "set", scl(&v), v, args);
            }
            9 => {
                let c = r.u64() as u32;
                let how = r.below(3);
                if let Some(s) = self.cx.lib("Scalar::from_int", C18, || match how {
                    0 => Scalar::from_int(c),
                    1 => {
                        t.set_int(c);
                        t
                    }
                    _ => {
                        t.clear();
                        t
                    }
                }) {
                    self.put_s(n, k, "from_int", s, if how == 2 { ZERO } else { U::from_u64(c as u64) }, || c.to_string());
                }
            }
            _ => {
                let s = a.s;
                let q = self.cx.lib("Scalar::is_high", C18, || (s.is_zero(), s.is_one(), s.is_high(), s.is_even(), s.b32(), s == b.s));
                let w = (a.v.is_zero(), a.v == ONE, is_high(&a.v), !a.v.is_odd(), a.v.to_be(), a.v == b.v);
                self.cx.check(q == Some(w), C18, "scalar-question", || format!("{}: {:?}", a.v.hex(), q));
                let c = 1 + r.below(31);
                let o = r.below(257 - c);
                let want = (0..c).map(|x| (a.v.bit(o + x) as u32) << x).sum::<u32>();
                let q = self.cx.lib("Scalar::bits_var", C18, || s.bits_var(o, c));
                self.cx.check(q == Some(want), C18, "scalar-question", || format!("{} bits {} at {}: {:?}", a.v.hex(), c, o, q));
                if (o + c - 1) >> 5 == o >> 5 {
                    let q = self.cx.lib("Scalar::bits", C18, || s.bits(o, c));
                    self.cx.check(q == Some(want), C18, "scalar-question", || format!("{} bits {} at {}: {:?}", a.v.hex(), c, o, q));
                }
            }
        }
    }
    fn put_a(&mut self, n: usize, k: usize, op: &'static str, a: Affine, p: Pt, args: impl FnOnce() -> String) {
        let got = match self.cx.lib("affine_read", C18, || a_pt(&a)) {
            Some(g) => g,
            None => return,
        };
        self.cx.log(format!("n{} a{} {} -> {}", n, k, op, ops::ptx(&got)));
        self.cx.check(got == p, C18, "point-wrong", || format!("{} gave {} instead of {} ({})", op, ops::ptx(&got), ops::ptx(&p), args()));
        if got == p {
            self.n[n].a[k] = AR { a, p };
        }
    }
    fn put_j(&mut self, n: usize, k: usize, op: &'static str, j: Jacobian, p: Pt, args: impl FnOnce() -> String) -> bool {
        let got = match self.cx.lib("jacobian_read", C18, || j_pt(&j)) {
            Some(g) => g,
            None => return false,
        };
        self.cx.log(format!("n{} j{} {} -> {}", n, k, op, ops::ptx(&got)));
        self.cx.check(got == p, C18, "point-wrong", || format!("{} gave {} instead of {} ({})", op, ops::ptx(&got), ops::ptx(&p), args()));
        if got == p {
            self.n[n].j[k] = JR { j, p };
        }
        got == p
    }
    /// z of a result against z of the argument and the reported ratio
    fn ratio(&mut self, op: &str, res: &Jacobian, a: &Jacobian, rz: &Field) {
        if res.infinity || a.infinity {
            return;
        }
        if let Some((x, y, z)) = self.cx.lib("field_read", C18, || (val(&res.z), val(&a.z), val(rz))) {
            self.cx.check(x == fmul(&y, &z), C18, "z-ratio", || format!("{}: {} is not {} times {}", op, x.hex(), y.hex(), z.hex()));
        }
    }
    fn group(&mut self, n: usize, r: &mut Rng) {
        let (i, j, k) = (r.below(NJ), r.below(NJ), r.below(NJ));
        let a = self.n[n].j[i];
        let b = self.n[n].j[j];
        let ai = r.below(NA);
        let ak = r.below(NA);
        let g = self.n[n].a[ai];
        let mut t = self.n[n].j[k].j;
        let op = r.weighted(&[8, 6, 6, 8, 3, 8, 8, 8, 6, 4, 5, 4, 2, 4, 4, 2]);
        let rel = |x: &Pt, y: &Pt| -> u64 {
            if *x == Pt::Inf || *y == Pt::Inf {
                0
            } else if x == y {
                1
            } else if *x == curve::pneg(y) {
                2
            } else {
                match (x, y) {
                    (Pt::A(_, u), Pt::A(_, v)) if u == v || *u == fneg(v) => 3,
                    _ => 4,
                }
            }
        };
        self.cx.seen(&[92, op as u64, rel(&a.p, &b.p), rel(&a.p, &g.p), (a.p == Pt::Inf) as u64, (b.p == Pt::Inf) as u64]);
        let args = || format!("{}, {}, affine {}", ops::ptx(&a.p), ops::ptx(&b.p), ops::ptx(&g.p));
        match op {
            0 => {
                // a new point, or one related to a point already held
                let p = if r.p(1, 2) || g.p == Pt::Inf { gen::point(r) } else { gen::related(r, &g.p) };
                let p = if a.p != Pt::Inf && r.p(1, 3) { if r.p(1, 2) { a.p } else { curve::pneg(&a.p) } } else { p };
                let (x, y) = match p {
                    Pt::A(x, y) => (x, y),
                    Pt::Inf => return,
                };
                let how = r.below(6);
                let one = Field::new_raw(0, 0, 0, 0, 0, 0, 0, 0, 0, 1);
                let got = self.cx.lib("Affine::make", C18, || {
                    let mut q = g.a;
                    let mut ok = true;
                    match how {
                        0 => q.set_xy(&fe(&x), &fe(&y)),
                        1 => q = Affine::new(fe(&x) * one, fe(&fneg(&y)).neg(1)),
                        2 => ok = q.set_xo_var(&fe(&x), y.is_odd()),
                        3 => ok = q.set_xo_var(&(fe(&fneg(&x)).neg(1)), y.is_odd()),
                        4 => {
                            q.set_xy(&fe(&fneg(&x)).neg(1), &fe(&y));
                            q.x.normalize_weak();
                        }
                        _ => {
                            let s = AffineStorage::new(fe(&x).into(), fe(&y).into());
                            q = s.into();
                        }
                    }
                    (q, ok)
                });
                if let Some((q, ok)) = got {
                    self.cx.check(ok, C18, "point-wrong", || format!("no point at {}", x.hex()));
                    self.put_a(n, ak, "make", q, p, || format!("way {}", how));
                }
            }
            1 => {
                // an x coordinate that may have no point
                let x = felem(r);
                let odd = r.p(1, 2);
                let quad = r.p(1, 2);
                let mut q = g.a;
                let want = curve::lift_x(&x, odd);
                let high = r.p(1, 2);
                if let Some(ok) = self.cx.lib("Affine::set_xo_var", C18, || {
                    let f = if high { fe(&fneg(&x)).neg(1) } else { fe(&x) };
                    if quad {
                        q.set_xquad(&f)
                    } else {
                        q.set_xo_var(&f, odd)
                    }
                }) {
                    self.cx.check(ok == want.is_some(), C18, "point-exists", || format!("x {}: {}", x.hex(), ok));
                    if let (true, Some(Pt::A(_, y))) = (ok, want) {
                        // the root that is itself a square
                        let y = if quad && fsqrt(&y).is_none() { fneg(&y) } else { y };
                        self.put_a(n, ak, "set_x", q, Pt::A(x, y), || format!("x {} quad {} odd {}", x.hex(), quad, odd));
                    }
                }
            }
            2 => {
                let how = r.below(4);
                let got = self.cx.lib("Jacobian::set_ge", C18, || match how {
                    0 => Jacobian::from_ge(&g.a),
                    1 if !g.a.infinity => Jacobian::new(g.a.x, g.a.y),
                    _ => {
                        t.set_ge(&g.a);
                        t
                    }
                });
                if let Some(q) = got {
                    self.put_j(n, k, "set_ge", q, g.p, args);
                }
            }
            3 => {
                let how = r.below(3);
                if how == 2 && a.p == Pt::Inf {
                    return;
                }
                let mut rz = Field::default();
                let want_rz = r.p(1, 2);
                let got = self.cx.lib("Jacobian::double", C18, || {
                    let o = if want_rz { Some(&mut rz) } else { None };
                    match how {
                        0 => a.j.double_var(o),
                        1 => {
                            t.double_var_in_place(&a.j, o);
                            t
                        }
                        _ => {
                            t.double_nonzero_in_place(&a.j, o);
                            t
                        }
                    }
                });
                if let Some(q) = got {
                    if self.put_j(n, k, "double", q, curve::padd(&a.p, &a.p), args) && want_rz {
                        self.ratio("double", &q, &a.j, &rz);
                    }
                }
            }
            4 => {
                let inf = r.p(1, 2);
                if let Some(q) = self.cx.lib("Jacobian::set_infinity", C18, || {
                    if inf {
                        t.set_infinity();
                        t
                    } else {
                        JACOBIAN_INFINITY
                    }
                }) {
                    self.put_j(n, k, "infinity", q, Pt::Inf, String::new);
                    if r.p(1, 4) {
                        self.put_a(n, ak, "infinity", AFFINE_INFINITY, Pt::Inf, String::new);
                    }
                }
            }
            5 => {
                let want_rz = a.p != Pt::Inf && r.p(1, 2);
                let mut rz = Field::default();
                let how = r.p(1, 2);
                if let Some(q) = self.cx.lib("Jacobian::add_var", C18, || {
                    let o = if want_rz { Some(&mut rz) } else { None };
                    if how {
                        a.j.add_var(&b.j, o)
                    } else {
                        t.add_var_in_place(&a.j, &b.j, o);
                        t
                    }
                }) {
                    if self.put_j(n, k, "add_var", q, curve::padd(&a.p, &b.p), args) && want_rz {
                        self.ratio("add_var", &q, &a.j, &rz);
                    }
                }
            }
            6 if g.p != Pt::Inf => {
                let how = r.p(1, 2);
                if let Some(q) = self.cx.lib("Jacobian::add_ge", C18, || {
                    if how {
                        a.j.add_ge(&g.a)
                    } else {
                        t.add_ge_in_place(&a.j, &g.a);
                        t
                    }
                }) {
                    self.put_j(n, k, "add_ge", q, curve::padd(&a.p, &g.p), args);
                }
            }
            7 => {
                let want_rz = a.p != Pt::Inf && r.p(1, 2);
                let mut rz = Field::default();
                let how = r.p(1, 2);
                if let Some(q) = self.cx.lib("Jacobian::add_ge_var", C18, || {
                    let o = if want_rz { Some(&mut rz) } else { None };
                    if how {
                        a.j.add_ge_var(&g.a, o)
                    } else {
                        t.add_ge_var_in_place(&a.j, &g.a, o);
                        t
                    }
                }) {
                    if self.put_j(n, k, "add_ge_var", q, curve::padd(&a.p, &g.p), args) && want_rz {
                        self.ratio("add_ge_var", &q, &a.j, &rz);
                    }
                }
            }
            8 => {
                // b's coordinates with its z left out, and the inverse of that z
                let how = r.p(1, 2);
                let mut c = a.j;
                let got = self.cx.lib("Jacobian::add_zinv_var", C18, || {
                    let mut x = b.j.x;
                    let mut y = b.j.y;
                    x.normalize_weak();
                    y.normalize_weak();
                    let mut q = Affine::new(x, y);
                    let zi = if b.p == Pt::Inf {
                        q.infinity = true;
                        a.j.z
                    } else {
                        b.j.z.inv_var()
                    };
                    if how {
                        c.add_zinv_var(&q, &zi)
                    } else {
                        t.add_zinv_var_in_place(&a.j, &q, &zi);
                        t
                    }
                });
                if let Some(q) = got {
                    self.put_j(n, k, "add_zinv_var", q, curve::padd(&a.p, &b.p), args);
                }
            }
            9 => {
                let how = r.below(4);
                let got = self.cx.lib("neg", C18, || match how {
                    0 => (Some(a.j.neg()), None),
                    1 => {
                        t.neg_in_place(&a.j);
                        (Some(t), None)
                    }
                    2 => (None, Some(g.a.neg())),
                    _ => {
                        let mut q = AFFINE_G;
                        q.neg_in_place(&g.a);
                        (None, Some(q))
                    }
                });
                match got {
                    Some((Some(q), _)) => {
                        self.put_j(n, k, "neg", q, curve::pneg(&a.p), args);
                    }
                    Some((_, Some(q))) => self.put_a(n, ak, "neg", q, curve::pneg(&g.p), args),
                    _ => {}
                }
            }
            10 => {
                let how = r.below(4);
                let mut q = g.a;
                let got = self.cx.lib("Affine::set_gej", C18, || {
                    match how {
                        0 => q = Affine::from_gej(&a.j),
                        1 => q.set_gej(&a.j),
                        2 => q.set_gej_var(&a.j),
                        _ => q.set_gej_zinv(&a.j, &a.j.z.inv()),
                    }
                    q
                });
                if let Some(mut q) = got {
                    if q.infinity {
                        q = AFFINE_INFINITY;
                    }
                    self.put_a(n, ak, "set_gej", q, a.p, args);
                }
            }
            11 => {
                let v = loop {
                    let v = felem(r);
                    if !v.is_zero() {
                        break v;
                    }
                };
                let mut q = a.j;
                if self.cx.lib("Jacobian::rescale", C18, || q.rescale(&fe(&v))).is_some() {
                    self.put_j(n, k, "rescale", q, a.p, || format!("{} by {}", ops::ptx(&a.p), v.hex()));
                }
            }
            12 => {
                // affine storage with a conditional move
                let b2 = self.n[n].a[ak];
                if g.p == Pt::Inf || b2.p == Pt::Inf {
                    return;
                }
                let flag = r.p(1, 2);
                if let Some(q) = self.cx.lib("AffineStorage", C18, || {
                    let mut x: AffineStorage = g.a.into();
                    let y: AffineStorage = b2.a.into();
                    x.cmov(&y, flag);
                    Affine::from(x)
                }) {
                    self.put_a(n, ak, "storage", q, if flag { b2.p } else { g.p }, args);
                }
            }
            13 => {
                // questions about a jacobian point
                let q = self.cx.lib("Jacobian::has_quad_y_var", C18, || (a.j.is_infinity(), a.j.has_quad_y_var()));
                let quad = match a.p {
                    Pt::A(_, y) => fsqrt(&y).is_some(),
                    Pt::Inf => false,
                };
                self.cx.check(q == Some((a.p == Pt::Inf, quad)), C18, "point-question", || format!("{}: {:?}", ops::ptx(&a.p), q));
                if let Pt::A(x, _) = a.p {
                    let x2 = match (r.below(4), g.p) {
                        (0, Pt::A(y, _)) => y,
                        (1, _) => fred(&x.wadd(&N)),
                        (2, _) => felem(r),
                        _ => x,
                    };
                    let q = self.cx.lib("Jacobian::eq_x_var", C18, || (a.j.eq_x_var(&fe(&x2)), a.j.eq_x_var(&fe(&fneg(&x2)).neg(1))));
                    let e = x == x2;
                    self.cx.check(q == Some((e, e)), C18, "point-question", || format!("x of {} is {}: {:?}", ops::ptx(&a.p), x2.hex(), q));
                }
            }
            14 => {
                // on the curve or not
                let q = self.cx.lib("Affine::is_valid_var", C18, || (g.a.is_infinity(), g.a.is_valid_var()));
                self.cx.check(q == Some((g.p == Pt::Inf, g.p != Pt::Inf)), C18, "point-question", || format!("{}: {:?}", ops::ptx(&g.p), q));
                if let Pt::A(x, y) = g.p {
                    let (x, y) = match r.below(3) {
                        0 => (fadd(&x, &ONE), y),
                        1 => (x, felem(r)),
                        _ => (y, x),
                    };
                    let w = curve::on_curve(&x, &y);
                    let q = self.cx.lib("Affine::is_valid_var", C18, || Affine::new(fe(&x), fe(&y)).is_valid_var());
                    self.cx.check(q == Some(w), C18, "point-question", || format!("({}, {}) on the curve: {:?}", x.hex(), y.hex(), q));
                }
            }
            15 => {
                let mut x = g.a;
                let mut y = a.j;
                let q = self.cx.lib("clear", C18, || {
                    x.clear();
                    y.clear();
                    (val(&x.x), val(&x.y), val(&y.x), val(&y.y), val(&y.z), x.infinity, y.infinity)
                });
                self.cx.check(q == Some((ZERO, ZERO, ZERO, ZERO, ZERO, false, false)), C18, "point-wrong", || "cleared point is not zero".into());
            }
            _ => {}
        }
    }
    /// scalar multiples
    fn mult(&mut self, n: usize, r: &mut Rng, ctx: (&ECMultContext, &ECMultGenContext)) {
        let a = self.n[n].j[r.below(NJ)];
        let g = self.n[n].a[r.below(NA)];
        let s1 = self.n[n].s[r.below(NS)];
        let mut s2 = self.n[n].s[r.below(NS)];
        let k = r.below(NJ);
        let mut t = self.n[n].j[k].j;
        self.cx.seen(&[93, gen::class(&s1.v) as u64, gen::class(&s2.v) as u64, (a.p == curve::G) as u64]);
        match r.below(3) {
            0 if a.p != Pt::Inf => {
                // now and then the two parts cancel
                if a.p == curve::G && r.p(1, 2) {
                    let v = nneg(&s1.v);
                    s2 = SR { s: scl(&v), v };
                }
                if self.cx.lib("ecmult", C18, || ctx.0.ecmult(&mut t, &a.j, &s1.s, &s2.s)).is_some() {
                    let w = curve::lincomb(&s2.v, &s1.v, &a.p);
                    self.put_j(n, k, "ecmult", t, w, || format!("{} {} {}", ops::ptx(&a.p), s1.v.hex(), s2.v.hex()));
                }
            }
            1 if g.p != Pt::Inf => {
                if self.cx.lib("ecmult_const", C18, || ctx.0.ecmult_const(&mut t, &g.a, &s1.s)).is_some() {
                    let w = curve::mul(&s1.v, &g.p);
                    self.put_j(n, k, "ecmult_const", t, w, || format!("{} {}", ops::ptx(&g.p), s1.v.hex()));
                }
            }
            _ => {
                if self.cx.lib("ecmult_gen", C18, || ctx.1.ecmult_gen(&mut t, &s1.s)).is_some() {
                    self.put_j(n, k, "ecmult_gen", t, curve::mulg(&s1.v), || s1.v.hex());
                }
            }
        }
    }
    /// tables of odd multiples
    fn table(&mut self, n: usize, r: &mut Rng) {
        let a = self.n[n].j[r.below(NJ)];
        if a.p == Pt::Inf {
            return;
        }
        let len = 1 + r.below(20);
        let empty = r.p(1, 8);
        self.cx.seen(&[94, len as u64, empty as u64]);
        if empty {
            let mut gz = Field::from_int(5);
            let _ = self.cx.lib("empty_table", C18, || {
                set_table_gej_var(&mut [], &[], &[]);
                globalz_set_table_gej(&mut [], &mut gz, &[], &[]);
            });
        }
        let global = r.p(1, 2);
        let stale = self.n[n].j[r.below(NJ)].j;
        let got = self.cx.lib("odd_multiples_table", C18, || {
            let mut pre = vec![stale; len];
            let mut zr = vec![Field::default(); len];
            odd_multiples_table(&mut pre, &mut zr, &a.j);
            let mut out = vec![AFFINE_INFINITY; len];
            let mut gz = Field::default();
            if global {
                globalz_set_table_gej(&mut out, &mut gz, &pre, &zr);
                let zi = gz.inv();
                let zi2 = zi.sqr();
                for o in out.iter_mut() {
                    o.x *= zi2;
                    o.y *= zi2 * zi;
                }
            } else {
                set_table_gej_var(&mut out, &pre, &zr);
            }
            out
        });
        if let Some(out) = got {
            let d = curve::padd(&a.p, &a.p);
            let mut p = a.p;
            for (i, o) in out.iter().enumerate() {
                let q = match self.cx.lib("affine_read", C18, || a_pt(o)) {
                    Some(q) => q,
                    None => return,
                };
                self.cx.check(q == p, C18, "table-entry-wrong", || format!("entry {} of {} of {} is {} instead of {}", i, len, ops::ptx(&a.p), ops::ptx(&q), ops::ptx(&p)));
                if q != p {
                    return;
                }
                p = curve::padd(&p, &d);
            }
            self.cx.log(format!("n{} table of {} for {}", n, len, ops::ptx(&a.p)));
            let k = r.below(NA);
            let i = r.below(len);
            let p = curve::mul(&U::from_u64(2 * i as u64 + 1), &a.p);
            self.put_a(n, k, "table", out[i], p, String::new);
        }
    }
    /// a register in a form that can be stored or sent
    fn record(&mut self, n: usize, slot: usize, r: &mut Rng) -> Option<Rec> {
        if slot < NF {
            let a = self.n[n].f[slot];
            let var = r.p(1, 2);
            let mut c = a.f;
            return if r.p(1, 2) {
                let b = self.cx.lib("Field::b32", C18, || {
                    if !a.norm {
                        if var { c.normalize_var() } else { c.normalize() }
                    }
                    let mut o = [0xaa; 32];
                    c.fill_b32(&mut o);
                    o
                })?;
                self.cx.check(b == a.v.to_be(), C18, "field-wrong", || format!("{} written as {}", a.v.hex(), hex(&b)));
                Some(Rec::FBytes(b, a.v))
            } else {
                let s: FieldStorage = self.cx.lib("FieldStorage", C18, || {
                    if var { c.normalize_var() } else { c.normalize() }
                    c.into()
                })?;
                self.cx.check(s.0 == scl(&a.v).0, C18, "field-storage", || format!("{:x?} for {}", s.0, a.v.hex()));
                Some(Rec::FStore(s, a.v))
            };
        }
        let slot = slot - NF;
        if slot < NS {
            let a = self.n[n].s[slot];
            let b = self.cx.lib("Scalar::b32", C18, || {
                let mut o = [0x55; 32];
                a.s.fill_b32(&mut o);
                o
            })?;
            self.cx.check(b == a.v.to_be(), C18, "scalar-wrong", || format!("{} written as {}", a.v.hex(), hex(&b)));
            return Some(Rec::SBytes(b, a.v));
        }
        let slot = slot - NS;
        let (a, p) = if slot < NA {
            let a = self.n[n].a[slot];
            (a.a, a.p)
        } else {
            let a = self.n[n].j[slot - NA];
            (self.cx.lib("Affine::from_gej", C18, || Affine::from_gej(&a.j))?, a.p)
        };
        if a.infinity {
            return None;
        }
        if r.p(1, 2) {
            let s: AffineStorage = self.cx.lib("AffineStorage", C18, || a.into())?;
            Some(Rec::AStore(s, p))
        } else {
            let (b, odd) = self.cx.lib("Field::b32", C18, || {
                let mut x = a.x;
                let mut y = a.y;
                x.normalize_var();
                y.normalize();
                (x.b32(), y.is_odd())
            })?;
            Some(Rec::ABytes(b, odd, p))
        }
    }
    fn load(&mut self, n: usize, slot: usize, rec: &Rec, op: &'static str) {
        match rec {
            Rec::FBytes(b, v) => {
                let mut f = Field::default();
                if let Some(ok) = self.cx.lib("Field::set_b32", C18, || f.set_b32(b)) {
                    self.cx.check(ok, C18, "field-range", || format!("stored {} refused", hex(b)));
                    self.put_f(n, slot % NF, op, f, *v, 1, true, || "reloaded bytes".into());
                }
            }
            Rec::FStore(s, v) => {
                let s = *s;
                if let Some(f) = self.cx.lib("Field::from", C18, || Field::from(s)) {
                    self.put_f(n, slot % NF, op, f, *v, 1, true, || "reloaded storage".into());
                }
            }
            Rec::SBytes(b, v) => {
                let mut s = Scalar::default();
                if let Some(o) = self.cx.lib("Scalar::set_b32", C18, || bool::from(s.set_b32(b))) {
                    self.cx.check(!o, C18, "scalar-range", || format!("stored {} overflows", hex(b)));
                    self.put_s(n, slot % NS, op, s, *v, || "reloaded".into());
                }
            }
            Rec::AStore(s, p) => {
                let s = *s;
                if let Some(a) = self.cx.lib("Affine::from", C18, || Affine::from(s)) {
                    self.put_a(n, slot % NA, op, a, *p, || "reloaded storage".into());
                    if slot % 2 == 0 {
                        if let Some(j) = self.cx.lib("Jacobian::from_ge", C18, || Jacobian::from_ge(&a)) {
                            self.put_j(n, slot % NJ, op, j, *p, || "reloaded storage".into());
                        }
                    }
                }
            }
            Rec::ABytes(b, odd, p) => {
                let mut a = Affine::default();
                let mut f = Field::default();
                if let Some(ok) = self.cx.lib("Affine::set_xo_var", C18, || f.set_b32(b) && a.set_xo_var(&f, *odd)) {
                    self.cx.check(ok, C18, "point-exists", || format!("stored x {} refused", hex(b)));
                    self.put_a(n, slot % NA, op, a, *p, || "reloaded x".into());
                    if slot % 2 == 0 {
                        if let Some(j) = self.cx.lib("Jacobian::from_ge", C18, || Jacobian::from_ge(&a)) {
                            self.put_j(n, slot % NJ, op, j, *p, || "reloaded x".into());
                        }
                    }
                }
            }
        }
    }
}

pub fn run(cx: &mut Cx, seed: u64, steps: &[Step]) {
    let mut r0 = Rng::new(mix2(seed, 4));
    let nn = 1 + r0.below(3);
    let own = r0.p(1, 2);
    let e0 = crate::hooks::edges();
    let mut w = World { cx, n: (0..nn).map(|_| fresh()).collect(), wire: vec![] };
    let mut inter = crate::ctx::FNV0;
    for (i, st) in steps.iter().enumerate() {
        if w.cx.viol.is_some() {
            break;
        }
        w.cx.step = i as u64;
        w.cx.now = st.at;
        let mut r = Rng::new(st.seed);
        let n = r.below(nn);
        inter = crate::ctx::fnv(inter, &[st.kind, n as u8]);
        match st.kind {
            K_FIELD => {
                for _ in 0..2 + r.below(8) {
                    w.field(n, &mut r)
                }
            }
            K_SCALAR => {
                for _ in 0..2 + r.below(6) {
                    w.scalar(n, &mut r)
                }
            }
            K_GROUP => {
                for _ in 0..1 + r.below(4) {
                    w.group(n, &mut r)
                }
            }
            K_MULT => {
                let c = ops::contexts(own);
                w.mult(n, &mut r, c)
            }
            K_TABLE => w.table(n, &mut r),
            K_SAVE => {
                // a crash may end the writing after any record
                let all = NF + NS + NA + NJ;
                let torn = st.fault && r.p(1, 4);
                let stop = if torn { r.below(all) } else { all };
                for s in 0..stop {
                    if let Some(rec) = w.record(n, s, &mut r) {
                        w.n[n].disk[s] = Some(rec);
                    }
                }
                w.cx.log(format!("n{} saved {} registers", n, stop));
                if torn {
                    w.cx.fault("crash_while_saving");
                    crash(&mut w, n);
                }
            }
            K_CRASH if st.fault => {
                w.cx.fault("crash");
                crash(&mut w, n);
            }
            K_SEND => {
                let s = r.below(NF + NS + NA + NJ);
                if let Some(rec) = w.record(n, s, &mut r) {
                    if st.fault && r.p(1, 8) {
                        w.cx.fault("net_drop");
                    } else {
                        w.wire.push(rec);
                        if w.wire.len() > 16 {
                            w.wire.remove(0);
                        }
                    }
                }
            }
            K_DELIVER => {
                if !w.wire.is_empty() {
                    let k = if st.fault { r.below(w.wire.len()) } else { 0 };
                    if k > 0 {
                        w.cx.fault("net_reorder");
                    }
                    let rec = w.wire[k].clone();
                    if st.fault && r.p(1, 4) {
                        w.cx.fault("net_duplicate");
                    } else {
                        w.wire.remove(k);
                    }
                    let s = r.below(64);
                    w.load(n, s, &rec, "received");
                }
            }
            _ => {}
        }
    }
    w.cx.st.sim_ns += crate::hooks::edges() - e0;
    w.cx.st.inter.insert(inter);
    let _: Option<(MJ, Ordering)> = None;
}
fn crash(w: &mut World, n: usize) {
    w.cx.log(format!("n{} crashed", n));
    let disk = std::mem::take(&mut w.n[n].disk);
    w.n[n] = fresh();
    for (s, rec) in disk.iter().enumerate() {
        if let Some(rec) = rec {
            let slot = if s < NF {
                s
            } else if s < NF + NS {
                s - NF
            } else if s < NF + NS + NA {
                s - NF - NS
            } else {
                // jacobian registers come back through the affine ones
                s - NF - NS - NA
            };
            w.load(n, slot, rec, "restored");
        }
    }
    w.n[n].disk = disk;
}
