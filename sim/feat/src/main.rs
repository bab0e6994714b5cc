//! The part of the simulation every feature combination can run: nodes that
//! bring their own contexts, with requests damaged on the way. Speaks the same
//! protocol as the simulator's own worker processes.
#[path = "../../src/gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../../src/model/mod.rs"]
#[allow(dead_code)]
mod model;
#[path = "../../src/rng.rs"]
#[allow(dead_code)]
mod rng;

use libsecp256k1 as lib;
use libsecp256k1::curve::{Affine, ECMultContext, ECMultGenContext, Field, Scalar};
use libsecp256k1::{Message, PublicKey, PublicKeyFormat, RecoveryId, SecretKey, SharedSecret, Signature};
use model::arith::{hex, U};
use rng::{mix2, Rng};
use std::convert::TryFrom;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn fnv(mut h: u64, b: &[u8]) -> u64 {
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
const FNV0: u64 = 0xcbf29ce484222325;
fn run_seed(base: u64, prop: &str, world: &str, idx: u64) -> u64 {
    mix2(mix2(base, fnv(fnv(FNV0, prop.as_bytes()), world.as_bytes())), idx)
}
/// keeps what it is fed
#[derive(Clone, Default)]
struct Rec(Vec<u8>);
impl digest::Update for Rec {
    fn update(&mut self, d: impl AsRef<[u8]>) {
        self.0.extend_from_slice(d.as_ref())
    }
}
impl digest::FixedOutput for Rec {
    type OutputSize = digest::consts::U40;
    fn finalize_into(self, out: &mut digest::generic_array::GenericArray<u8, Self::OutputSize>) {
        out.iter_mut().zip(&self.0).for_each(|(a, b)| *a = *b);
        out[39] = self.0.len() as u8;
    }
    fn finalize_into_reset(&mut self, out: &mut digest::generic_array::GenericArray<u8, Self::OutputSize>) {
        self.clone().finalize_into(out);
        self.0.clear()
    }
}
impl digest::Reset for Rec {
    fn reset(&mut self) {
        self.0.clear()
    }
}
struct Src(Vec<u8>, usize);
impl rand::RngCore for Src {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = *self.0.get(self.1).unwrap_or(&7);
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand::CryptoRng for Src {}

struct Node {
    sk: Vec<SecretKey>,
    pk: Vec<PublicKey>,
    sig: Vec<(Signature, u8, usize)>,
    msg: Vec<[u8; 32]>,
    wire: Vec<Vec<u8>>,
}
fn px(k: &PublicKey) -> String {
    hex(&k.serialize_compressed())
}
/// bytes as they arrive
fn arrive(r: &mut Rng, w: &[Vec<u8>]) -> Vec<u8> {
    if w.is_empty() || r.p(1, 12) {
        let n = *r.pick(&[0usize, 1, 32, 33, 64, 65, 70, 72]);
        return r.bytes(n);
    }
    let mut b = r.pick(w).clone();
    if r.p(1, 2) {
        let o = r.pick(w).clone();
        gen::damage(r, &mut b, &o);
    }
    b
}
// the same requests, answered with whatever this configuration offers
#[cfg(any(feature = "static", feature = "lazy"))]
const BUILT_IN: bool = true;
#[cfg(not(any(feature = "static", feature = "lazy")))]
const BUILT_IN: bool = false;
#[cfg(any(feature = "static", feature = "lazy"))]
mod own {
    use super::*;
    pub fn contexts() -> (&'static ECMultContext, &'static ECMultGenContext) {
        (&lib::ECMULT_CONTEXT, &lib::ECMULT_GEN_CONTEXT)
    }
    pub fn public(k: &SecretKey) -> PublicKey {
        PublicKey::from_secret_key(k)
    }
    pub fn verify(m: &Message, s: &Signature, p: &PublicKey) -> bool {
        lib::verify(m, s, p)
    }
    pub fn recover(m: &Message, s: &Signature, i: &RecoveryId) -> Result<PublicKey, lib::Error> {
        lib::recover(m, s, i)
    }
    pub fn exchange(p: &PublicKey, k: &SecretKey) -> Result<SharedSecret<Rec>, lib::Error> {
        SharedSecret::new(p, k)
    }
    pub fn tweak(p: &mut PublicKey, t: &SecretKey, add: bool) -> Result<(), lib::Error> {
        if add { p.tweak_add_assign(t) } else { p.tweak_mul_assign(t) }
    }
}
#[cfg(not(any(feature = "static", feature = "lazy")))]
mod own {
    use super::*;
    pub fn contexts() -> (&'static ECMultContext, &'static ECMultGenContext) {
        unreachable!()
    }
    pub fn public(_: &SecretKey) -> PublicKey {
        unreachable!()
    }
    pub fn verify(_: &Message, _: &Signature, _: &PublicKey) -> bool {
        unreachable!()
    }
    pub fn recover(_: &Message, _: &Signature, _: &RecoveryId) -> Result<PublicKey, lib::Error> {
        unreachable!()
    }
    pub fn exchange(_: &PublicKey, _: &SecretKey) -> Result<SharedSecret<Rec>, lib::Error> {
        unreachable!()
    }
    pub fn tweak(_: &mut PublicKey, _: &SecretKey, _: bool) -> Result<(), lib::Error> {
        unreachable!()
    }
}
/// sign with the library where it can, else with nonces of the model
#[cfg(feature = "hmac")]
fn sign(m: &Message, k: &SecretKey, g: &ECMultGenContext, own: bool) -> (Signature, u8) {
    #[cfg(any(feature = "static", feature = "lazy"))]
    if own {
        let (s, i) = lib::sign(m, k);
        return (s, i.into());
    }
    let _ = own;
    let (s, i) = lib::sign_with_context(m, k, g);
    (s, i.into())
}
#[cfg(not(feature = "hmac"))]
fn sign(m: &Message, k: &SecretKey, g: &ECMultGenContext, _: bool) -> (Signature, u8) {
    let mut d = model::hash::Rfc6979::new(&k.serialize(), &m.serialize());
    loop {
        let mut n = Scalar::default();
        if bool::from(n.set_b32(&d.next())) || n.is_zero() {
            continue;
        }
        if let Ok((r, s, i)) = g.sign_raw(&(*k).into(), &m.0, &n) {
            return (Signature { r, s }, i);
        }
    }
}
fn step(n: &mut Node, kind: usize, r: &mut Rng, cx: &(Box<ECMultContext>, Box<ECMultGenContext>)) -> String {
    let (mut c, mut g) = (&*cx.0, &*cx.1);
    // drawn in every configuration, used where there are built-in contexts
    let (own, passed) = (r.p(1, 3) && BUILT_IN, r.p(1, 3) && BUILT_IN);
    if passed {
        (c, g) = own::contexts();
    }
    let public = |k: &SecretKey| if own { own::public(k) } else { PublicKey::from_secret_key_with_context(k, g) };
    match kind {
        0 => {
            let b = if r.p(1, 6) { gen::any(r).to_be() } else { gen::key(r).to_be() };
            let k = SecretKey::parse(&b);
            if let Ok(k) = &k {
                n.pk.push(public(k));
                n.sk.push(*k);
            }
            format!("key {} {:?}", hex(&b), k.map(|k| hex(&k.serialize())))
        }
        1 => {
            let (k, nn) = (*r.pick(&n.sk), gen::key(r));
            let m = gen::msg(r);
            let mut non = Scalar::default();
            let _ = non.set_b32(&nn.to_be());
            let ms = Message::parse(&m);
            let x = g.sign_raw(&k.into(), &ms.0, &non);
            if let Ok((a, b, id)) = x {
                let s = Signature { r: a, s: b };
                n.msg.push(m);
                n.sig.push((s, id, n.msg.len() - 1));
                n.wire.push(s.serialize().to_vec());
                n.wire.push(s.serialize_der().as_ref().to_vec());
            }
            format!("sign {} {:?}", hex(&m), x.map(|(a, b, i)| (hex(&a.b32()), hex(&b.b32()), i)))
        }
        2 => {
            let (s, _, m) = match n.sig.last() {
                Some(_) => *r.pick(&n.sig),
                None => return "-".into(),
            };
            let p = *r.pick(&n.pk);
            let m = if r.p(1, 5) { gen::msg(r) } else { n.msg[m] };
            format!("verify {} {}", px(&p), {
                let m = Message::parse(&m);
                if own { own::verify(&m, &s, &p) } else { lib::verify_with_context(&m, &s, &p, c) }
            })
        }
        3 => {
            let (s, id, m) = match n.sig.last() {
                Some(_) => *r.pick(&n.sig),
                None => return "-".into(),
            };
            let id = if r.p(1, 3) { r.below(4) as u8 } else { id };
            let (m, i) = (Message::parse(&n.msg[m]), RecoveryId::parse(id).expect("id"));
            let x = if own { own::recover(&m, &s, &i) } else { lib::recover_with_context(&m, &s, &i, c) };
            if let Ok(k) = x {
                n.pk.push(k);
            }
            format!("recover {} {:?}", id, x.map(|k| px(&k)))
        }
        4 => {
            let (p, k) = (*r.pick(&n.pk), *r.pick(&n.sk));
            let x = if own { own::exchange(&p, &k) } else { SharedSecret::<Rec>::new_with_context(&p, &k, c) };
            format!("ecdh {:?}", x.map(|x| hex(x.as_ref())))
        }
        5 => {
            let i = r.below(n.pk.len());
            let t = *r.pick(&n.sk);
            let add = r.p(1, 2);
            let k = &mut n.pk[i];
            let x = match (own, add) {
                (true, _) => own::tweak(k, &t, add),
                (_, true) => k.tweak_add_assign_with_context(&t, c),
                _ => k.tweak_mul_assign_with_context(&t, c),
            };
            format!("tweak key {} {:?} {}", i, x, px(&n.pk[i]))
        }
        6 => {
            let i = r.below(n.sk.len());
            let t = *r.pick(&n.sk);
            let x = if r.p(1, 2) { n.sk[i].tweak_add_assign(&t) } else { n.sk[i].tweak_mul_assign(&t) };
            format!("tweak secret {} {:?} {} inverse {}", i, x, hex(&n.sk[i].serialize()), hex(&n.sk[i].inv().serialize()))
        }
        7 => {
            let v: Vec<PublicKey> = (0..r.below(5)).map(|_| *r.pick(&n.pk)).collect();
            let x = PublicKey::combine(&v);
            format!("combine {} {:?}", v.len(), x.map(|k| px(&k)))
        }
        8 | 9 => {
            let b = arrive(r, &n.wire);
            let f = match r.below(5) {
                0 => Some(PublicKeyFormat::Compressed),
                1 => Some(PublicKeyFormat::Full),
                2 => Some(PublicKeyFormat::Raw),
                _ => None,
            };
            let x = PublicKey::parse_slice(&b, f);
            if let Ok(k) = x {
                n.pk.push(k);
            }
            format!("decode key {} {:?}", hex(&b), x.map(|k| px(&k)))
        }
        10 | 11 => {
            let b = arrive(r, &n.wire);
            let x = match r.below(4) {
                0 => Signature::parse_der(&b),
                1 => Signature::parse_der_lax(&b),
                2 => Signature::parse_standard_slice(&b),
                _ => Signature::parse_overflowing_slice(&b),
            };
            if let (Ok(s), false) = (x, n.msg.is_empty()) {
                let m = r.below(n.msg.len());
                n.sig.push((s, 0, m));
            }
            format!("decode signature {} {:?}", hex(&b), x.map(|s| hex(&s.serialize())))
        }
        12 => {
            let b = arrive(r, &n.wire);
            let e: Vec<String> = [
                SecretKey::parse_slice(&b).map(|k| hex(&k.serialize())),
                Message::parse_slice(&b).map(|k| hex(&k.serialize())),
                RecoveryId::parse(b.first().copied().unwrap_or(9)).map(|i| i.serialize().to_string()),
                RecoveryId::parse_rpc(b.first().copied().unwrap_or(9)).map(|i| i.serialize().to_string()),
            ]
            .iter()
            .map(|x| match x {
                Ok(s) => s.clone(),
                Err(e) => format!("{:?} \"{}\"", e, e),
            })
            .collect();
            format!("decode {} {:?}", hex(&b), e)
        }
        13 => {
            let p = *r.pick(&n.pk);
            n.wire.push(p.serialize().to_vec());
            n.wire.push(p.serialize_compressed().to_vec());
            n.wire.push(p.serialize()[1..].to_vec());
            format!("send {} {:x}", hex(&p.serialize()), n.sk[0])
        }
        14 => {
            let (mut s, _, m) = match n.sig.last() {
                Some(_) => *r.pick(&n.sig),
                None => return "-".into(),
            };
            s.normalize_s();
            n.sig.push((s, 1, m));
            format!("normalize {}", hex(&s.serialize()))
        }
        15 => {
            let mut st = vec![];
            for _ in 0..r.below(3) {
                st.extend_from_slice(&[0xff; 32]);
            }
            st.extend_from_slice(&gen::key(r).to_be());
            let mut s = Src(st, 0);
            let k = SecretKey::random(&mut s);
            format!("random {} {}", hex(&k.serialize()), s.1)
        }
        16 => {
            // objects handed over at the lower level
            let (x, y) = (gen::any(r), gen::any(r));
            let (mut fx, mut fy) = (Field::default(), Field::default());
            let a = fx.set_b32(&x.to_be());
            let b = fy.set_b32(&y.to_be());
            let mut af = Affine::default();
            let c = r.p(1, 3) && a && af.set_xo_var(&fx, r.p(1, 2));
            if !c {
                af.set_xy(&fx, &fy);
            }
            af.x.normalize();
            af.y.normalize();
            let k = if a && b { PublicKey::try_from(af).map(|k| px(&k)) } else { Err(lib::Error::InvalidPublicKey) };
            let mut s = Scalar::default();
            let o = bool::from(s.set_b32(&y.to_be()));
            format!("convert {} {} {:?} {} {:?} {}", a, b, k, o, SecretKey::try_from(s).map(|k| hex(&k.serialize())), s.is_high())
        }
        17 => {
            let k = *r.pick(&n.sk);
            let m = gen::msg(r);
            let (s, id) = sign(&Message::parse(&m), &k, g, own);
            n.msg.push(m);
            n.sig.push((s, id, n.msg.len() - 1));
            n.wire.push(s.serialize().to_vec());
            n.wire.push(s.serialize_der().as_ref().to_vec());
            format!("sign {} {} {}", hex(&m), hex(&s.serialize()), id)
        }
        _ => {
            let k: U = gen::small_key(r);
            let k = SecretKey::parse(&k.to_be());
            if let Ok(k) = k {
                n.pk.push(public(&k));
                n.sk.push(k);
            }
            format!("small key {:?}", k.map(|k| hex(&k.serialize())))
        }
    }
}
fn run(seed: u64, keep: Option<&[usize]>, cx: &(Box<ECMultContext>, Box<ECMultGenContext>), log: bool) -> (u64, usize, Vec<String>) {
    let mut p = Rng::new(mix2(seed, 1));
    let total = 10 + p.below(40);
    let plan: Vec<(usize, u64)> = (0..total).map(|_| (p.below(19), p.u64())).collect();
    let ids: Vec<usize> = match keep {
        None => (0..total).collect(),
        Some(k) => k.iter().copied().filter(|i| *i < total).collect(),
    };
    let mut h = FNV0;
    let mut lines = vec![];
    let mut n = Node { sk: vec![], pk: vec![], sig: vec![], msg: vec![], wire: vec![] };
    let mut r0 = Rng::new(mix2(seed, 2));
    let first = gen::key(&mut r0);
    let k = SecretKey::parse(&first.to_be()).expect("key");
    n.pk.push(PublicKey::from_secret_key_with_context(&k, &cx.1));
    n.sk.push(k);
    for i in ids {
        let (kind, s) = plan[i];
        let mut r = Rng::new(s);
        let t = match catch_unwind(AssertUnwindSafe(|| step(&mut n, kind, &mut r, cx))) {
            Ok(t) => t,
            Err(e) => {
                let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
                format!("PANIC in request {}: {}", kind, m)
            }
        };
        h = fnv(fnv(h, t.as_bytes()), b"\n");
        if log {
            lines.push(format!("step={} {}", i, t));
        }
    }
    (h, total, lines)
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let cx = (ECMultContext::new_boxed(), ECMultGenContext::new_boxed());
    let out = std::io::stdout();
    let mut out = out.lock();
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let p = |i: usize| -> u64 { a[i].parse().unwrap() };
            let (base, start, stride, max, secs) = (p(4), p(5), p(6), p(7), p(8));
            let t0 = std::time::Instant::now();
            let mut i = start;
            let mut runs = 0;
            let mut evals = 0;
            while i < max && t0.elapsed().as_secs() < secs {
                let (h, n, _) = run(run_seed(base, &a[3], &a[2], i), None, &cx, false);
                let _ = writeln!(out, "R {} {:016x} {}\nd {:x}", i, h, n, h);
                let _ = out.flush();
                runs += 1;
                evals += n;
                i += stride;
            }
            let _ = writeln!(out, "s {} {} 0\nZ", runs, evals);
        }
        Some("one") => {
            let keep: Option<Vec<usize>> = if a[5] == "-" { None } else { Some(a[5].split(',').filter_map(|x| x.parse().ok()).collect()) };
            let (h, n, l) = run(u64::from_str_radix(&a[4], 16).unwrap(), keep.as_deref(), &cx, a.get(8).map(|s| s == "1").unwrap_or(false));
            for l in l {
                let _ = writeln!(out, "L {}", l);
            }
            let _ = writeln!(out, "R 0 {:016x} {}\nZ", h, n);
        }
        _ => std::process::exit(2),
    }
}
