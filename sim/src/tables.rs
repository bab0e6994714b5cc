//! What the precomputed tables must hold, from the model.
use crate::model::{arith::*, curve, Pt};
use libsecp256k1::curve::{Affine, AffineStorage, ECMultContext, ECMultGenContext};

fn raw(a: &AffineStorage) -> [u32; 16] {
    let mut o = [0; 16];
    o[..8].copy_from_slice(&a.x.0);
    o[8..].copy_from_slice(&a.y.0);
    o
}
fn h(mut x: u64, a: &AffineStorage) -> u64 {
    for p in raw(a).chunks(2) {
        x = (x ^ (p[0] as u64 | (p[1] as u64) << 32)).wrapping_mul(0x9E3779B97F4A7C15);
        x ^= x >> 29;
    }
    x
}
pub fn hash_g(c: &ECMultContext) -> u64 {
    c.inspect_raw().iter().fold(1, h)
}
pub fn hash_gen(c: &ECMultGenContext) -> u64 {
    c.inspect_raw().iter().flatten().fold(2, h)
}
pub fn point(a: &AffineStorage) -> Pt {
    let p: Affine = (*a).into();
    let (mut x, mut y) = (p.x, p.y);
    x.normalize();
    y.normalize();
    let (x, y) = (U::from_be(&x.b32()), U::from_be(&y.b32()));
    if p.infinity { Pt::Inf } else { Pt::A(x, y) }
}
/// storage form of a point: eight little-endian words per coordinate
fn words(p: &Pt) -> [u32; 16] {
    let mut o = [0u32; 16];
    if let Pt::A(x, y) = p {
        for i in 0..4 {
            o[2 * i] = x.0[i] as u32;
            o[2 * i + 1] = (x.0[i] >> 32) as u32;
            o[8 + 2 * i] = y.0[i] as u32;
            o[8 + 2 * i + 1] = (y.0[i] >> 32) as u32;
        }
    }
    o
}
pub struct Model {
    pub g: Vec<[u32; 16]>,
    pub gen: Vec<[u32; 16]>,
}
/// the 16384 odd multiples of G; the 64 x 16 comb blinded with the multiples
/// 1, 2, 4, .., 2^62, 1-2^63 of (nothing-up-my-sleeve point) + G
pub fn model() -> Model {
    use curve::J;
    let gp = curve::mulg(&ONE);
    let g = J::from(&gp);
    let g2 = g.dbl();
    let mut v = vec![];
    let mut p = g;
    for _ in 0..16384 {
        v.push(p);
        p = p.add(&g2);
    }
    let mut gen = vec![];
    let nums = curve::lift_x(&U::from_be(b"The scalar for this x is unknown"), false).expect("on the curve");
    let nums = J::from(&nums).add(&g);
    let mut base = g;
    let mut u = nums;
    for j in 0..64 {
        let mut q = u;
        for _ in 0..16 {
            gen.push(q);
            q = q.add(&base);
        }
        for _ in 0..4 {
            base = base.dbl();
        }
        u = u.dbl();
        if j == 62 {
            let a = curve::pneg(&u.affine());
            u = J::from(&a).add(&nums);
        }
    }
    Model { g: curve::batch(&v).iter().map(words).collect(), gen: curve::batch(&gen).iter().map(words).collect() }
}
/// index of the first entry that differs
pub fn diff_g(m: &Model, c: &ECMultContext) -> Option<usize> {
    c.inspect_raw().iter().zip(&m.g).position(|(a, b)| raw(a) != *b)
}
pub fn diff_gen(m: &Model, c: &ECMultGenContext) -> Option<usize> {
    c.inspect_raw().iter().flatten().zip(&m.gen).position(|(a, b)| raw(a) != *b)
}
