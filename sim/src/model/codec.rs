//! Byte formats: keys, signatures, DER (strict and lax), base64.
use super::arith::*;
use super::curve::*;
use super::ecdsa::Sig;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum E {
    Len,
    Bad,
}
pub fn sec(b: &[u8]) -> Result<U, E> {
    if b.len() != 32 {
        return Err(E::Len);
    }
    let v = U::from_be_slice(b);
    if v.is_zero() || v >= N { Err(E::Bad) } else { Ok(v) }
}
pub fn pk65(b: &[u8]) -> Result<Pt, E> {
    if b.len() != 65 {
        return Err(E::Len);
    }
    if b[0] != 4 && b[0] != 6 && b[0] != 7 {
        return Err(E::Bad);
    }
    let x = U::from_be_slice(&b[1..33]);
    let y = U::from_be_slice(&b[33..]);
    if x >= P || y >= P || !on_curve(&x, &y) {
        return Err(E::Bad);
    }
    if b[0] != 4 && y.is_odd() != (b[0] == 7) {
        return Err(E::Bad);
    }
    Ok(Pt::A(x, y))
}
pub fn pk33(b: &[u8]) -> Result<Pt, E> {
    if b.len() != 33 {
        return Err(E::Len);
    }
    if b[0] != 2 && b[0] != 3 {
        return Err(E::Bad);
    }
    lift_x(&U::from_be_slice(&b[1..]), b[0] == 3).ok_or(E::Bad)
}
/// fmt: 0 none, 1 compressed, 2 full, 3 raw
pub fn pk_slice(b: &[u8], fmt: u8) -> Result<Pt, E> {
    match (b.len(), fmt) {
        (65, 0) | (65, 2) => pk65(b),
        (33, 0) | (33, 1) => pk33(b),
        (64, 0) | (64, 3) => {
            let mut v = vec![4u8];
            v.extend_from_slice(b);
            pk65(&v)
        }
        _ => Err(E::Len),
    }
}
pub fn sig_std(b: &[u8]) -> Result<Sig, E> {
    if b.len() != 64 {
        return Err(E::Len);
    }
    let r = U::from_be_slice(&b[..32]);
    let s = U::from_be_slice(&b[32..]);
    if r >= N || s >= N { Err(E::Bad) } else { Ok(Sig { r, s }) }
}
pub fn sig_over(b: &[u8]) -> Result<Sig, E> {
    if b.len() != 64 {
        return Err(E::Len);
    }
    Ok(Sig { r: nred(&U::from_be_slice(&b[..32])), s: nred(&U::from_be_slice(&b[32..])) })
}
pub fn msg(b: &[u8]) -> Result<U, E> {
    if b.len() != 32 {
        return Err(E::Len);
    }
    Ok(nred(&U::from_be_slice(b)))
}
pub fn sig_bytes(s: &Sig) -> [u8; 64] {
    let mut o = [0u8; 64];
    o[..32].copy_from_slice(&s.r.to_be());
    o[32..].copy_from_slice(&s.s.to_be());
    o
}
pub fn der_int(v: &U) -> Vec<u8> {
    let b = v.to_be();
    let mut i = 0;
    while i < 31 && b[i] == 0 {
        i += 1;
    }
    let mut o = vec![];
    if b[i] & 0x80 != 0 {
        o.push(0);
    }
    o.extend_from_slice(&b[i..]);
    o
}
pub fn sig_der(s: &Sig) -> Vec<u8> {
    let r = der_int(&s.r);
    let t = der_int(&s.s);
    let mut o = vec![0x30, (4 + r.len() + t.len()) as u8, 2, r.len() as u8];
    o.extend_from_slice(&r);
    o.push(2);
    o.push(t.len() as u8);
    o.extend_from_slice(&t);
    o
}

/// One integer as a decoder may understand it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Int {
    Val(U),
    /// negative, or too large
    Out,
}
/// What a DER decoder may answer.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Der {
    /// must decode to exactly this
    Exact(Sig),
    /// must be an error
    Refuse,
    /// an integer lies outside 0..n-1: an error, or a signature with a zero component
    Zeroed,
    /// a component is exactly zero: this value (or, if it is s, an error)
    ZeroVal(Sig),
}
/// DER length in definite, minimal form
fn rd_len(b: &[u8], p: &mut usize) -> Option<usize> {
    let f = *b.get(*p)?;
    *p += 1;
    if f < 0x80 {
        return Some(f as usize);
    }
    let k = (f & 0x7f) as usize;
    if k == 0 || f == 0xff || k > b.len() - *p {
        return None;
    }
    if b[*p] == 0 || k > 8 {
        return None;
    }
    let mut v = 0u128;
    for _ in 0..k {
        v = v << 8 | b[*p] as u128;
        *p += 1;
    }
    if v < 128 || v > (b.len() - *p) as u128 {
        return None;
    }
    Some(v as usize)
}
fn rd_int(b: &[u8], p: &mut usize) -> Option<Int> {
    if *b.get(*p)? != 2 {
        return None;
    }
    *p += 1;
    let l = rd_len(b, p)?;
    if l == 0 || l > b.len() - *p {
        return None;
    }
    let c = &b[*p..*p + l];
    *p += l;
    if c[0] >= 0x80 {
        return Some(Int::Out); // negative
    }
    if l > 1 && c[0] == 0 && c[1] < 0x80 {
        return None; // not the shortest encoding
    }
    let c: Vec<u8> = c.iter().copied().skip_while(|x| *x == 0).collect();
    if c.len() > 32 {
        return Some(Int::Out);
    }
    let v = U::from_be_slice(&c);
    Some(if v >= N { Int::Out } else { Int::Val(v) })
}
fn combine(r: Int, s: Int) -> Der {
    match (r, s) {
        (Int::Val(r), Int::Val(s)) => {
            let sg = Sig { r, s };
            if r.is_zero() || s.is_zero() { Der::ZeroVal(sg) } else { Der::Exact(sg) }
        }
        _ => Der::Zeroed,
    }
}
/// canonical DER: SEQUENCE { INTEGER r, INTEGER s } and nothing else
pub fn der(b: &[u8]) -> Der {
    fn go(b: &[u8]) -> Option<Der> {
        let mut p = 0;
        if *b.first()? != 0x30 {
            return None;
        }
        p += 1;
        let l = rd_len(b, &mut p)?;
        if l != b.len() - p {
            return None;
        }
        let r = rd_int(b, &mut p)?;
        if r == Int::Out {
            // whatever follows: an integer outside 0..n-1 was presented
            return Some(Der::Zeroed);
        }
        let s = rd_int(b, &mut p)?;
        if s == Int::Out {
            return Some(Der::Zeroed);
        }
        if p != b.len() {
            return None;
        }
        Some(combine(r, s))
    }
    go(b).unwrap_or(Der::Refuse)
}
fn lax_int(b: &[u8], p: &mut usize) -> Option<Int> {
    if *b.get(*p)? != 2 {
        return None;
    }
    *p += 1;
    let f = *b.get(*p)?;
    *p += 1;
    let l;
    if f & 0x80 != 0 {
        let mut k = (f - 0x80) as usize;
        if k > b.len() - *p {
            return None;
        }
        while k > 0 && b[*p] == 0 {
            *p += 1;
            k -= 1;
        }
        if k >= 8 {
            return None;
        }
        let mut v = 0usize;
        while k > 0 {
            v = v << 8 | b[*p] as usize;
            *p += 1;
            k -= 1;
        }
        l = v;
    } else {
        l = f as usize;
    }
    if l > b.len() - *p {
        return None;
    }
    let c: Vec<u8> = b[*p..*p + l].iter().copied().skip_while(|x| *x == 0).collect();
    *p += l;
    if c.len() > 32 {
        return Some(Int::Out);
    }
    let v = U::from_be_slice(&c);
    Some(if v >= N { Int::Out } else { Int::Val(v) })
}
/// the rules of ecdsa_signature_parse_der_lax of the C library
pub fn der_lax(b: &[u8]) -> Der {
    fn go(b: &[u8]) -> Option<Der> {
        let mut p = 0;
        if *b.first()? != 0x30 {
            return None;
        }
        p += 1;
        let f = *b.get(p)?;
        p += 1;
        if f & 0x80 != 0 {
            let k = (f - 0x80) as usize;
            if k > b.len() - p {
                return None;
            }
            p += k;
        }
        let r = lax_int(b, &mut p)?;
        if r == Int::Out {
            // whatever follows: an integer outside 0..n-1 was presented
            return Some(Der::Zeroed);
        }
        let s = lax_int(b, &mut p)?;
        if s == Int::Out {
            return Some(Der::Zeroed);
        }
        Some(combine(r, s))
    }
    go(b).unwrap_or(Der::Refuse)
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64enc(d: &[u8]) -> String {
    let mut o = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(B64[(v >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}
/// canonical padded base64 only
pub fn b64dec(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return None;
    }
    let pad = b.iter().rev().take_while(|c| **c == b'=').count();
    if pad > 2 {
        return None;
    }
    let mut o = vec![];
    let body = &b[..b.len() - pad];
    let mut acc = 0u32;
    let mut nb = 0;
    for c in body {
        let v = B64.iter().position(|x| x == c)? as u32;
        acc = acc << 6 | v;
        nb += 6;
        if nb >= 8 {
            nb -= 8;
            o.push((acc >> nb) as u8);
            acc &= (1 << nb) - 1;
        }
    }
    if acc != 0 {
        return None;
    }
    Some(o)
}
