//! Group law of secp256k1, by the textbook formulas.
use super::arith::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Pt {
    Inf,
    A(U, U),
}
use Pt::*;

pub const GX: U = U([0x59F2815B16F81798, 0x029BFCDB2DCE28D9, 0x55A06295CE870B07, 0x79BE667EF9DCBBAC]);
pub const GY: U = U([0x9C47D08FFB10D4B8, 0xFD17B448A6855419, 0x5DA4FBFC0E1108A8, 0x483ADA7726A3C465]);
pub const G: Pt = A(GX, GY);
/// primitive cube root of unity modulo n, and its counterpart modulo p:
/// LAMBDA * (x, y) = (BETA * x, y)
pub const LAMBDA: U = U([0xDF02967C1B23BD72, 0x122E22EA20816678, 0xA5261C028812645A, 0x5363AD4CC05C30E0]);
pub const BETA: U = U([0xC1396C28719501EE, 0x9CF0497512F58995, 0x6E64479EAC3434E9, 0x7AE96A2B657C0710]);

#[derive(Clone, Copy)]
pub struct J {
    pub x: U,
    pub y: U,
    pub z: U, // zero: infinity
}
pub const JINF: J = J { x: ONE, y: ONE, z: ZERO };

impl J {
    pub fn from(p: &Pt) -> J {
        match p {
            Inf => JINF,
            A(x, y) => J { x: *x, y: *y, z: ONE },
        }
    }
    pub fn affine(&self) -> Pt {
        if self.z.is_zero() {
            return Inf;
        }
        let zi = finv(&self.z);
        let z2 = fsqr(&zi);
        A(fmul(&self.x, &z2), fmul(&self.y, &fmul(&z2, &zi)))
    }
    pub fn dbl(&self) -> J {
        if self.z.is_zero() || self.y.is_zero() {
            return JINF;
        }
        let a = fsqr(&self.x);
        let b = fsqr(&self.y);
        let c = fsqr(&b);
        let mut d = fsub(&fsub(&fsqr(&fadd(&self.x, &b)), &a), &c);
        d = fadd(&d, &d);
        let e = fadd(&fadd(&a, &a), &a);
        let f = fsqr(&e);
        let x3 = fsub(&f, &fadd(&d, &d));
        let c2 = fadd(&c, &c);
        let c4 = fadd(&c2, &c2);
        let y3 = fsub(&fmul(&e, &fsub(&d, &x3)), &fadd(&c4, &c4));
        let yz = fmul(&self.y, &self.z);
        J { x: x3, y: y3, z: fadd(&yz, &yz) }
    }
    pub fn add(&self, o: &J) -> J {
        if self.z.is_zero() {
            return *o;
        }
        if o.z.is_zero() {
            return *self;
        }
        let z1 = fsqr(&self.z);
        let z2 = fsqr(&o.z);
        let u1 = fmul(&self.x, &z2);
        let u2 = fmul(&o.x, &z1);
        let s1 = fmul(&self.y, &fmul(&z2, &o.z));
        let s2 = fmul(&o.y, &fmul(&z1, &self.z));
        if u1 == u2 {
            return if s1 == s2 { self.dbl() } else { JINF };
        }
        let h = fsub(&u2, &u1);
        let r = fsub(&s2, &s1);
        let hh = fsqr(&h);
        let hhh = fmul(&hh, &h);
        let v = fmul(&u1, &hh);
        let x3 = fsub(&fsub(&fsqr(&r), &hhh), &fadd(&v, &v));
        let y3 = fsub(&fmul(&r, &fsub(&v, &x3)), &fmul(&s1, &hhh));
        J { x: x3, y: y3, z: fmul(&fmul(&self.z, &o.z), &h) }
    }
}

fn table(p: &Pt) -> [J; 16] {
    let mut t = [JINF; 16];
    t[1] = J::from(p);
    for i in 2..16 {
        t[i] = t[i - 1].add(&t[1]);
    }
    t
}
fn mulj(k: &U, p: &Pt) -> J {
    if *p == Inf || k.is_zero() {
        return JINF;
    }
    let t = table(p);
    let b = k.to_be();
    let mut r = JINF;
    let mut started = false;
    for i in 0..64 {
        if started {
            r = r.dbl().dbl().dbl().dbl();
        }
        let d = if i % 2 == 0 { b[i / 2] >> 4 } else { b[i / 2] & 15 };
        if d != 0 {
            r = r.add(&t[d as usize]);
            started = true;
        }
    }
    r
}
static GTAB: std::sync::OnceLock<Vec<J>> = std::sync::OnceLock::new();
fn gtab() -> &'static Vec<J> {
    GTAB.get_or_init(|| {
        // 64 x 16, affine entries
        let mut v = Vec::new();
        let mut base = G;
        for _ in 0..64 {
            let t = table(&base);
            for e in t.iter() {
                v.push(J::from(&e.affine()));
            }
            base = t[15].add(&t[1]).affine();
        }
        v
    })
}
fn mulgj(k: &U) -> J {
    let t = gtab();
    let b = k.to_be();
    let mut r = JINF;
    for i in 0..64 {
        let by = b[31 - i / 2];
        let d = if i % 2 == 1 { by >> 4 } else { by & 15 };
        if d != 0 {
            r = r.add(&t[i * 16 + d as usize]);
        }
    }
    r
}
/// affine forms of many points with one inversion
pub fn batch(v: &[J]) -> Vec<Pt> {
    let mut pre = Vec::with_capacity(v.len());
    let mut acc = ONE;
    for p in v {
        pre.push(acc);
        if !p.z.is_zero() {
            acc = fmul(&acc, &p.z);
        }
    }
    let mut inv = finv(&acc);
    let mut out = vec![Inf; v.len()];
    for i in (0..v.len()).rev() {
        if v[i].z.is_zero() {
            continue;
        }
        let zi = fmul(&inv, &pre[i]);
        inv = fmul(&inv, &v[i].z);
        let z2 = fsqr(&zi);
        out[i] = A(fmul(&v[i].x, &z2), fmul(&v[i].y, &fmul(&z2, &zi)));
    }
    out
}
/// build the generator table now (so that it is not built inside a measured run)
pub fn warm() {
    gtab();
}
/// table-free generator multiplication, for code that must not touch shared state
pub fn mul_plain(k: &U, p: &Pt) -> Pt {
    mulj(k, p).affine()
}
pub fn mul(k: &U, p: &Pt) -> Pt {
    mulj(k, p).affine()
}
pub fn mulg(k: &U) -> Pt {
    mulgj(k).affine()
}
/// a*G + b*Q
pub fn lincomb(a: &U, b: &U, q: &Pt) -> Pt {
    mulgj(a).add(&mulj(b, q)).affine()
}
pub fn padd(a: &Pt, b: &Pt) -> Pt {
    J::from(a).add(&J::from(b)).affine()
}
pub fn pneg(a: &Pt) -> Pt {
    match a {
        Inf => Inf,
        A(x, y) => A(*x, fneg(y)),
    }
}
pub fn rhs(x: &U) -> U {
    fadd(&fmul(&fsqr(x), x), &U::from_u64(7))
}
pub fn on_curve(x: &U, y: &U) -> bool {
    *x < P && *y < P && fsqr(y) == rhs(x)
}
/// the point with this x and y parity
pub fn lift_x(x: &U, odd: bool) -> Option<Pt> {
    if *x >= P {
        return None;
    }
    let y = fsqrt(&rhs(x))?;
    let y = if y.is_odd() != odd { fneg(&y) } else { y };
    Some(A(*x, y))
}
pub fn compressed(p: &Pt) -> [u8; 33] {
    let mut r = [0u8; 33];
    if let A(x, y) = p {
        r[0] = if y.is_odd() { 3 } else { 2 };
        r[1..].copy_from_slice(&x.to_be());
    }
    r
}
pub fn full(p: &Pt) -> [u8; 65] {
    let mut r = [0u8; 65];
    if let A(x, y) = p {
        r[0] = 4;
        r[1..33].copy_from_slice(&x.to_be());
        r[33..].copy_from_slice(&y.to_be());
    }
    r
}
