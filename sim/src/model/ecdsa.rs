//! ECDSA, key recovery, ECDH and key derivation, straight from their definitions.
use super::arith::*;
use super::curve::*;
use super::hash::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Sig {
    pub r: U,
    pub s: U,
}

/// Sign with the RFC 6979 candidates; `over(i)` replaces candidate i (the fault seam).
pub fn sign(d: &U, m: &U, mut over: impl FnMut(usize) -> Option<[u8; 32]>) -> (Sig, u8, usize) {
    let mut g = Rfc6979::new(&d.to_be(), &m.to_be());
    let mut i = 0;
    loop {
        let c = g.next();
        let c = over(i).unwrap_or(c);
        i += 1;
        let k = U::from_be(&c);
        if k.is_zero() || k >= N {
            continue;
        }
        if let Some((s, id)) = sign_with(d, m, &k) {
            return (s, id, i);
        }
    }
}
pub fn sign_with(d: &U, m: &U, k: &U) -> Option<(Sig, u8)> {
    if let Pt::A(x, y) = mulg(k) {
        let over = x >= N;
        let r = nred(&x);
        if r.is_zero() {
            return None;
        }
        let mut s = nmul(&ninv(k), &nadd(m, &nmul(&r, d)));
        if s.is_zero() {
            return None;
        }
        let mut id = (y.is_odd() as u8) | ((over as u8) << 1);
        if is_high(&s) {
            s = nneg(&s);
            id ^= 1;
        }
        Some((Sig { r, s }, id))
    } else {
        None
    }
}
pub fn verify(m: &U, sg: &Sig, q: &Pt) -> bool {
    if sg.r.is_zero() || sg.s.is_zero() || sg.r >= N || sg.s >= N {
        return false;
    }
    let w = ninv(&sg.s);
    match lincomb(&nmul(m, &w), &nmul(&sg.r, &w), q) {
        Pt::Inf => false,
        Pt::A(x, _) => nred(&x) == sg.r,
    }
}
pub fn recover(m: &U, sg: &Sig, id: u8) -> Option<Pt> {
    if sg.r.is_zero() || sg.s.is_zero() {
        return None;
    }
    let mut x = sg.r;
    if id & 2 != 0 {
        let (v, c) = add(&x, &N);
        if c || v >= P {
            return None;
        }
        x = v;
    }
    let rp = lift_x(&x, id & 1 == 1)?;
    let w = ninv(&sg.r);
    match lincomb(&nneg(&nmul(m, &w)), &nmul(&sg.s, &w), &rp) {
        Pt::Inf => None,
        p => Some(p),
    }
}
