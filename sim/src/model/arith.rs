//! 256-bit integers and arithmetic modulo the field prime and the group order.
//! Plain, independent code: shares nothing with the library under test.
use std::cmp::Ordering;

/// little-endian 64-bit limbs
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct U(pub [u64; 4]);

pub const ZERO: U = U([0; 4]);
pub const ONE: U = U([1, 0, 0, 0]);
pub const P: U = U([0xFFFFFFFEFFFFFC2F, !0, !0, !0]);
pub const N: U = U([0xBFD25E8CD0364141, 0xBAAEDCE6AF48A03B, 0xFFFFFFFFFFFFFFFE, !0]);
/// 2^256 - n
const NC: U = U([0x402DA1732FC9BEBF, 0x4551231950B75FC4, 1, 0]);
const PC: u64 = 0x1000003D1;

impl Ord for U {
    fn cmp(&self, o: &U) -> Ordering {
        for i in (0..4).rev() {
            match self.0[i].cmp(&o.0[i]) {
                Ordering::Equal => {}
                x => return x,
            }
        }
        Ordering::Equal
    }
}
impl PartialOrd for U {
    fn partial_cmp(&self, o: &U) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

pub fn add(a: &U, b: &U) -> (U, bool) {
    let mut r = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let t = a.0[i] as u128 + b.0[i] as u128 + c;
        r[i] = t as u64;
        c = t >> 64;
    }
    (U(r), c != 0)
}
pub fn sub(a: &U, b: &U) -> (U, bool) {
    let mut r = [0u64; 4];
    let mut bo = 0i128;
    for i in 0..4 {
        let t = a.0[i] as i128 - b.0[i] as i128 - bo;
        r[i] = t as u64;
        bo = if t < 0 { 1 } else { 0 };
    }
    (U(r), bo != 0)
}
pub fn mul_wide(a: &U, b: &U) -> [u64; 8] {
    let mut r = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let t = a.0[i] as u128 * b.0[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
        r[i + 4] = c as u64;
    }
    r
}

impl U {
    pub fn from_u64(v: u64) -> U {
        U([v, 0, 0, 0])
    }
    pub fn from_be(b: &[u8; 32]) -> U {
        let mut r = [0u64; 4];
        for i in 0..4 {
            let mut v = [0u8; 8];
            v.copy_from_slice(&b[i * 8..i * 8 + 8]);
            r[3 - i] = u64::from_be_bytes(v);
        }
        U(r)
    }
    /// big-endian bytes, at most 32 of them
    pub fn from_be_slice(b: &[u8]) -> U {
        let mut a = [0u8; 32];
        a[32 - b.len()..].copy_from_slice(b);
        U::from_be(&a)
    }
    pub fn to_be(&self) -> [u8; 32] {
        let mut r = [0u8; 32];
        for i in 0..4 {
            r[i * 8..i * 8 + 8].copy_from_slice(&self.0[3 - i].to_be_bytes());
        }
        r
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn is_odd(&self) -> bool {
        self.0[0] & 1 == 1
    }
    pub fn bit(&self, i: usize) -> bool {
        (self.0[i / 64] >> (i % 64)) & 1 == 1
    }
    pub fn shr1(&self) -> U {
        let mut r = [0u64; 4];
        for i in 0..4 {
            r[i] = self.0[i] >> 1 | if i < 3 { self.0[i + 1] << 63 } else { 0 };
        }
        U(r)
    }
    pub fn pow2(k: usize) -> U {
        let mut r = [0u64; 4];
        r[k / 64] = 1 << (k % 64);
        U(r)
    }
    pub fn wadd(&self, o: &U) -> U {
        add(self, o).0
    }
    pub fn wsub(&self, o: &U) -> U {
        sub(self, o).0
    }
    pub fn hex(&self) -> String {
        hex(&self.to_be())
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

// ---- modulo p ----
pub fn fred(a: &U) -> U {
    if *a >= P { a.wsub(&P) } else { *a }
}
pub fn fadd(a: &U, b: &U) -> U {
    let (r, c) = add(a, b);
    if c || r >= P { r.wsub(&P) } else { r }
}
pub fn fsub(a: &U, b: &U) -> U {
    let (r, bo) = sub(a, b);
    if bo { r.wadd(&P) } else { r }
}
pub fn fneg(a: &U) -> U {
    fsub(&ZERO, a)
}
pub fn fmul(a: &U, b: &U) -> U {
    let w = mul_wide(a, b);
    // lo + hi * PC
    let mut r = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let t = w[i] as u128 + w[i + 4] as u128 * PC as u128 + c;
        r[i] = t as u64;
        c = t >> 64;
    }
    // c < 2^34
    let mut k = c * PC as u128;
    for i in 0..4 {
        let t = r[i] as u128 + (k as u64) as u128;
        r[i] = t as u64;
        k = (k >> 64) + (t >> 64);
    }
    if k != 0 {
        // wrapped past 2^256 once more
        return fred(&U(r).wadd(&U::from_u64(PC)));
    }
    fred(&U(r))
}
pub fn fsqr(a: &U) -> U {
    fmul(a, a)
}
pub fn fpow(a: &U, e: &U) -> U {
    let mut r = ONE;
    for i in (0..256).rev() {
        r = fsqr(&r);
        if e.bit(i) {
            r = fmul(&r, a);
        }
    }
    r
}
pub fn finv(a: &U) -> U {
    fpow(a, &P.wsub(&U::from_u64(2)))
}
/// a square root, if there is one
pub fn fsqrt(a: &U) -> Option<U> {
    // (p + 1) / 4
    let e = P.wadd(&ONE).shr1().shr1();
    let r = fpow(a, &e);
    if fsqr(&r) == *a { Some(r) } else { None }
}
/// a cube root, if there is one (p = 7 mod 9)
pub fn fcbrt(a: &U) -> Option<U> {
    // (p + 2) / 9
    let e = div_small(&P.wadd(&U::from_u64(2)), 9);
    let r = fpow(a, &e);
    if fmul(&fsqr(&r), &r) == *a { Some(r) } else { None }
}
pub fn div_small(a: &U, d: u64) -> U {
    let mut r = [0u64; 4];
    let mut rem = 0u128;
    for i in (0..4).rev() {
        let t = rem << 64 | a.0[i] as u128;
        r[i] = (t / d as u128) as u64;
        rem = t % d as u128;
    }
    U(r)
}

// ---- modulo n ----
pub fn nred(a: &U) -> U {
    if *a >= N { a.wsub(&N) } else { *a }
}
pub fn nadd(a: &U, b: &U) -> U {
    let (r, c) = add(a, b);
    if c || r >= N { r.wsub(&N) } else { r }
}
pub fn nsub(a: &U, b: &U) -> U {
    let (r, bo) = sub(a, b);
    if bo { r.wadd(&N) } else { r }
}
pub fn nneg(a: &U) -> U {
    nsub(&ZERO, a)
}
pub fn nmul(a: &U, b: &U) -> U {
    let mut w = mul_wide(a, b);
    loop {
        let hi = U([w[4], w[5], w[6], w[7]]);
        let lo = U([w[0], w[1], w[2], w[3]]);
        if hi.is_zero() {
            let mut r = lo;
            while r >= N {
                r = r.wsub(&N);
            }
            return r;
        }
        w = mul_wide(&hi, &NC);
        let mut c = 0u128;
        for i in 0..8 {
            let t = w[i] as u128 + if i < 4 { lo.0[i] as u128 } else { 0 } + c;
            w[i] = t as u64;
            c = t >> 64;
        }
    }
}
pub fn npow(a: &U, e: &U) -> U {
    let mut r = ONE;
    for i in (0..256).rev() {
        r = nmul(&r, &r);
        if e.bit(i) {
            r = nmul(&r, a);
        }
    }
    r
}
pub fn ninv(a: &U) -> U {
    npow(a, &N.wsub(&U::from_u64(2)))
}
/// (n - 1) / 2
pub fn nhalf() -> U {
    N.shr1()
}
pub fn is_high(a: &U) -> bool {
    *a > nhalf()
}
