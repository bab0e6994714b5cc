//! Generators of the values a simulated deployment works with: mostly boundary
//! values, because uniformly random ones never reach the rare branches.
use crate::model::arith::*;
use crate::model::curve::*;
use crate::rng::Rng;

/// -blind of the generator comb, so that the blinded scalar takes a chosen value
fn gen_blind() -> U {
    let w: [u32; 8] = [2217680822, 850875797, 1046150361, 1330484644, 4015777837, 2466086288, 2052467175, 2084507480];
    let mut r = [0u64; 4];
    for i in 0..4 {
        r[i] = w[2 * i] as u64 | (w[2 * i + 1] as u64) << 32;
    }
    U(r)
}

/// the class of a scalar, for the coverage signature
pub fn class(a: &U) -> u32 {
    if a.is_zero() {
        return 0;
    }
    let small = U::from_u64(64);
    if *a < small {
        return 1;
    }
    if *a >= N {
        return 2;
    }
    if N.wsub(a) < small {
        return 3;
    }
    let h = nhalf();
    let d = if *a > h { a.wsub(&h) } else { h.wsub(a) };
    if d < small {
        return 4 + (*a > h) as u32;
    }
    let ones: u32 = a.0.iter().map(|x| x.count_ones()).sum();
    if ones < 40 {
        6
    } else if ones > 216 {
        7
    } else if is_high(a) {
        8
    } else {
        9
    }
}

/// any 32 bytes
pub fn b32(r: &mut Rng) -> [u8; 32] {
    any(r).to_be()
}

/// any 256-bit value, biased to the boundaries of n and p
pub fn any(r: &mut Rng) -> U {
    match r.below(16) {
        0 => U::from_u64(r.log(1 << 20) as u64),
        1 => N.wadd(&U::from_u64(r.log(1 << 40) as u64)),
        2 => N.wsub(&U::from_u64(r.log(1 << 40) as u64)),
        3 => P.wadd(&U::from_u64(r.log(977) as u64)),
        4 => P.wsub(&U::from_u64(r.log(1 << 40) as u64)),
        5 => ZERO.wsub(&U::from_u64(1 + r.log(1 << 34) as u64)),
        6 => {
            // around n/2
            let d = U::from_u64(r.log(1 << 33) as u64);
            if r.p(1, 2) { nhalf().wadd(&d) } else { nhalf().wsub(&d) }
        }
        7 => {
            let k = r.below(256);
            let d = U::from_u64(r.below(3) as u64);
            match r.below(3) {
                0 => U::pow2(k).wadd(&d),
                1 => U::pow2(k).wsub(&d),
                _ => N.wsub(&U::pow2(k)).wadd(&d),
            }
        }
        8 | 9 => limbs(r),
        10 => runs(r),
        11 => nibbles(r),
        12 => {
            // between n and p
            let span = P.wsub(&N);
            let mut v = U::from_be(&r.b32());
            v.0[3] = 0;
            v.0[2] = r.below(2) as u64;
            N.wadd(&if v < span { v } else { U::from_u64(r.u64()) })
        }
        _ => U::from_be(&r.b32()),
    }
}

/// every 32-bit limb drawn from a small menu, relative to n, n/2 or p
fn limbs(r: &mut Rng) -> U {
    let base = match r.below(4) {
        0 => N,
        1 => nhalf(),
        2 => P,
        _ => U::from_be(&r.b32()),
    };
    let mut o = [0u64; 4];
    let mode = r.below(5);
    let (top, low) = (r.below(8), r.below(3));
    for i in 0..8 {
        let bl = (base.0[i / 2] >> (32 * (i % 2))) as u32;
        if mode == 1 {
            // the order is decided in one limb, and the ones below point anywhere
            let l = if i > top {
                bl
            } else if i == top {
                match r.below(4) {
                    0 => bl.wrapping_add(1),
                    1 => bl.wrapping_sub(1),
                    _ => r.u64() as u32,
                }
            } else {
                match low {
                    0 => r.u64() as u32,
                    1 => [0, 1, bl, bl.wrapping_add(1), bl.wrapping_sub(1), !0][r.below(6)],
                    _ => 0,
                }
            };
            o[i / 2] |= (l as u64) << (32 * (i % 2));
            continue;
        }
        let l = match if mode == 0 { r.below(4) } else { r.below(14) } {
            0 | 1 | 2 => bl,
            3 => bl.wrapping_add(1),
            4 => bl.wrapping_sub(1),
            5 => 0,
            6 => !0,
            7 => 1,
            8 => 0x8000_0000,
            9 => 0x7fff_ffff,
            10 => 0xffff_fffe,
            11 => !bl,
            _ => r.u64() as u32,
        };
        o[i / 2] |= (l as u64) << (32 * (i % 2));
    }
    U(o)
}
/// long runs of equal bits
fn runs(r: &mut Rng) -> U {
    let mut o = [0u64; 4];
    let mut i = 0;
    let mut b = r.below(2) as u64;
    while i < 256 {
        let m = if r.p(1, 2) { 64 } else { 6 };
        let l = 1 + r.below(m);
        for _ in 0..l {
            if i < 256 {
                o[i / 64] |= b << (i % 64);
                i += 1;
            }
        }
        b ^= 1;
    }
    U(o)
}
/// few distinct nibbles
fn nibbles(r: &mut Rng) -> U {
    let a = r.below(16) as u64;
    let b = if r.p(1, 2) { 0 } else { r.below(16) as u64 };
    let den = 2 + r.below(20);
    let mut o = [0u64; 4];
    for i in 0..64 {
        let d = if r.below(den) == 0 { b } else { a };
        o[i / 16] |= d << (4 * (i % 16));
    }
    U(o)
}

/// a scalar in 0..n-1
pub fn scalar0(r: &mut Rng) -> U {
    match r.below(12) {
        0 => nneg(&U::from_u64(r.log(1 << 16) as u64)),
        1 => {
            // multiples of lambda, plus small
            let mut v = LAMBDA;
            if r.p(1, 2) {
                v = nmul(&v, &LAMBDA);
            }
            v = nmul(&v, &U::from_u64(1 + r.below(32) as u64));
            if r.p(1, 2) {
                v = nneg(&v);
            }
            let c = U::from_u64(r.below(64) as u64);
            if r.p(1, 2) { nadd(&v, &c) } else { nsub(&v, &c) }
        }
        2 => {
            // scalars whose blinded form is special
            let v = nred(&any(r));
            nsub(&v, &gen_blind())
        }
        3 => match r.below(3) {
            0 => ninv(&U::from_u64(1 + r.below(64) as u64)),
            // the inverse of a pattern
            _ => {
                let v = nred(&any(r));
                if v.is_zero() { v } else { ninv(&v) }
            }
        },
        4 => {
            // quotients of small numbers
            let a = U::from_u64(1 + r.below(1000) as u64);
            let b = U::from_u64(1 + r.below(1000) as u64);
            let v = nmul(&a, &ninv(&b));
            if r.p(1, 2) { nneg(&v) } else { v }
        }
        _ => {
            let v = any(r);
            if v >= N {
                // keep the pattern; both reductions are interesting
                nred(&v)
            } else {
                v
            }
        }
    }
}
/// a secret key
pub fn key(r: &mut Rng) -> U {
    loop {
        let v = scalar0(r);
        if !v.is_zero() {
            return v;
        }
    }
}
/// small scalars most of the time
pub fn small_key(r: &mut Rng) -> U {
    let v = U::from_u64(1 + r.log(255) as u64);
    if r.p(1, 3) { nneg(&v) } else { v }
}
/// a field element below p with a point above it
pub fn point_x(r: &mut Rng) -> Pt {
    loop {
        let mut x = match r.below(8) {
            0 => U::from_u64(r.log(1 << 20) as u64),
            1 => P.wsub(&U::from_u64(1 + r.log(1 << 34) as u64)),
            2 => N.wadd(&U::from_u64(r.log(1 << 30) as u64)),
            3 => {
                let v = U::pow2(26 * r.below(10)).wadd(&U::from_u64(r.below(4) as u64));
                if r.p(1, 2) { v } else { P.wsub(&v) }
            }
            4 => limb26(r),
            _ => any(r),
        };
        if x >= P {
            x = x.wsub(&P);
        }
        if let Some(p) = lift_x(&x, r.p(1, 2)) {
            return p;
        }
    }
}
/// 26-bit limbs at their extremes (the library's field representation)
fn limb26(r: &mut Rng) -> U {
    let mut v = ZERO;
    for i in 0..10 {
        let l: u64 = match r.below(6) {
            0 => 0,
            1 => 0x3ffffff,
            2 => 1,
            3 => 0x3fffffe,
            4 => 0x2000000,
            _ => r.u64() & 0x3ffffff,
        };
        let l = if i == 9 { l & 0x3fffff } else { l };
        let mut t = U::from_u64(l);
        for _ in 0..26 * i {
            t = t.wadd(&t);
        }
        v = v.wadd(&t);
    }
    v
}
/// a point with a chosen (small or large) y
fn point_y(r: &mut Rng) -> Pt {
    loop {
        let y = match r.below(4) {
            0 => U::from_u64(r.log(1 << 20) as u64),
            1 => P.wsub(&U::from_u64(1 + r.log(1 << 20) as u64)),
            2 => limb26(r),
            _ => any(r),
        };
        let y = fred(&y);
        if y >= P {
            continue;
        }
        let c = fsub(&fsqr(&y), &U::from_u64(7));
        if let Some(x) = fcbrt(&c) {
            if on_curve(&x, &y) {
                let x = match r.below(3) {
                    0 => x,
                    1 => fmul(&x, &BETA),
                    _ => fmul(&fmul(&x, &BETA), &BETA),
                };
                return Pt::A(x, y);
            }
        }
    }
}
/// any point but infinity
pub fn point(r: &mut Rng) -> Pt {
    match r.below(10) {
        0 | 1 | 2 => point_x(r),
        3 | 4 => point_y(r),
        5 => mulg(&small_key(r)),
        6 => {
            // related to the table of odd multiples
            mulg(&U::from_u64(2 * r.below(1 << 14) as u64 + 1))
        }
        _ => mulg(&key(r)),
    }
}
/// a point related to p: the pairs on which addition formulas degenerate
pub fn related(r: &mut Rng, p: &Pt) -> Pt {
    let (x, y) = match p {
        Pt::A(x, y) => (*x, *y),
        Pt::Inf => return G,
    };
    let q = match r.below(7) {
        0 => Pt::A(x, y),
        1 => Pt::A(x, fneg(&y)),
        2 => Pt::A(fmul(&x, &BETA), y),
        3 => Pt::A(fmul(&fmul(&x, &BETA), &BETA), y),
        4 => Pt::A(fmul(&x, &BETA), fneg(&y)),
        5 => Pt::A(fmul(&fmul(&x, &BETA), &BETA), fneg(&y)),
        _ => {
            let d = mul(&U::from_u64(2 + r.below(4) as u64), p);
            if r.p(1, 2) { pneg(&d) } else { d }
        }
    };
    match q {
        Pt::Inf => G,
        q => q,
    }
}
/// message bytes
pub fn msg(r: &mut Rng) -> [u8; 32] {
    b32(r)
}
/// damage bytes in one of the ways a network or a disk can
pub fn damage(r: &mut Rng, b: &mut Vec<u8>, other: &[u8]) -> &'static str {
    match r.below(9) {
        0 if !b.is_empty() => {
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
            "bitflip"
        }
        1 if !b.is_empty() => {
            let i = r.below(b.len());
            b[i] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 2, 0x30, 0x20, 0x21]);
            "byteset"
        }
        2 => {
            let n = r.below(b.len() + 1);
            b.truncate(n);
            "truncate"
        }
        3 => {
            // now and then by so much that a length kept in 8 or 16 bits comes out the same
            let n = match r.below(30) {
                0 => 256,
                1 => 256 * (1 + r.below(4)),
                2 if r.p(1, 6) => 65536,
                _ => 1 + r.log(70),
            };
            let e = if r.p(1, 2) { vec![0u8; n] } else { r.bytes(n) };
            b.extend_from_slice(&e);
            "extend"
        }
        4 if !b.is_empty() => {
            let n = r.below(b.len());
            let m = r.below(other.len() + 1);
            b.truncate(n);
            b.extend_from_slice(&other[m..]);
            "splice"
        }
        5 if !b.is_empty() => {
            let i = r.below(b.len());
            b.remove(i);
            "dropbyte"
        }
        6 => {
            let i = r.below(b.len() + 1);
            b.insert(i, r.u64() as u8);
            "addbyte"
        }
        7 if !b.is_empty() => {
            // torn: a zeroed or garbage tail
            let i = r.below(b.len());
            let z = r.p(1, 2);
            for x in b[i..].iter_mut() {
                *x = if z { 0 } else { r.u64() as u8 };
            }
            "torn"
        }
        _ => {
            let n = b.len();
            *b = r.bytes(n);
            "garbage"
        }
    }
}
