//! Single library calls described by a seed, with their whole observable result
//! as text. What one of them returns alone is compared with what it returns
//! among faults and other threads; no model is involved.
#![allow(static_mut_refs)]
use crate::entropy::{EntropyFailure, Source};
use crate::gen;
use crate::hooks;
use crate::model::{arith::*, codec, curve, ecdsa, Pt};
use crate::ops;
use crate::rng::{mix2, Rng};
#[cfg(feature = "full")]
use crate::streams::{FErr, FormatPanic, How, Out, SimDe, SimSer};
use libsecp256k1 as lib;
use libsecp256k1::curve::{Affine, ECMultContext, ECMultGenContext, Scalar};
use libsecp256k1::{Message, PublicKey, PublicKeyFormat, RecoveryId, SecretKey, SharedSecret, Signature};
use std::cell::Cell;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The few values all calls of a run work on, so that callers meet on the same ones.
#[derive(Clone)]
pub struct Pool {
    pub d: Vec<U>,
    pub q: Vec<Pt>,
    pub m: Vec<[u8; 32]>,
    /// key, message, signature, id
    pub sigs: Vec<(usize, usize, ecdsa::Sig, u8)>,
}
pub fn pool(seed: u64) -> Pool {
    let mut r = Rng::new(mix2(seed, 0x9001));
    let nk = 2 + r.below(2);
    let nm = 2;
    let d: Vec<U> = (0..nk).map(|_| gen::key(&mut r)).collect();
    let q = d.iter().map(|d| curve::mulg(d)).collect();
    let m: Vec<[u8; 32]> = (0..nm).map(|_| gen::msg(&mut r)).collect();
    let mut sigs = vec![];
    for i in 0..nk {
        for j in 0..nm {
            let (s, id, _) = ecdsa::sign(&d[i], &nred(&U::from_be(&m[j])), |_| None);
            sigs.push((i, j, s, id));
        }
    }
    Pool { d, q, m, sigs }
}

// ---- components that fail ----
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct DigestFailure(pub u32);
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct FmtPanic(pub u32);
thread_local! {
    /// (where, countdown): 1 Default, 2 update, 3 finalize, 4 call back into the library
    static DFAULT: Cell<(u32, u32)> = Cell::new((0, 0));
    static NESTED: Cell<u32> = Cell::new(0);
}
/// a library call that a component makes when the library calls it
struct Pending {
    left: u32,
    kind: u8,
    seed: u64,
    pool: Pool,
    own: bool,
}
thread_local! {
    static PENDING: std::cell::RefCell<Option<Pending>> = std::cell::RefCell::new(None);
    static INNER: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
}
/// every component the simulator plugs in comes through here when the library uses it
pub fn callback() {
    hooks::point();
    let due = PENDING.with(|p| {
        let mut p = p.borrow_mut();
        match p.as_mut() {
            Some(x) if x.left > 0 => {
                x.left -= 1;
                None
            }
            _ => p.take(),
        }
    });
    if let Some(x) = due {
        let t = call(x.kind, x.seed, &x.pool, x.own);
        INNER.with(|i| *i.borrow_mut() = Some(t));
    }
}
/// fail at the n-th use of a part of the digest: 1 Default, 2 update, 3 finalize
pub fn arm_digest(at: u32, n: u32) {
    DFAULT.with(|d| d.set((at, n)));
}
fn dfault(at: u32) {
    callback();
    let (w, k) = DFAULT.with(|d| d.get());
    if w == at {
        if k == 0 {
            DFAULT.with(|d| d.set((0, 0)));
            std::panic::panic_any(DigestFailure(at));
        }
        DFAULT.with(|d| d.set((w, k - 1)));
    }
    if w == 4 {
        DFAULT.with(|d| d.set((0, 0)));
        // from inside the digest, with the library's call still in progress
        let k = SecretKey::parse(&[1; 32]).unwrap();
        let m = Message::parse(&[9; 32]);
        let (s, i) = lib::sign(&m, &k);
        let p = PublicKey::from_secret_key(&k);
        let ok = lib::verify(&m, &s, &p) && lib::recover(&m, &s, &i).ok() == Some(p);
        let e = SharedSecret::<sha2::Sha256>::new(&p, &k).map(|x| x.as_ref().to_vec()).unwrap_or_default();
        NESTED.with(|n| n.set(if ok { 1 + e[0] as u32 } else { 9999 }));
    }
}
/// SHA-256 with faults
#[derive(Clone)]
pub struct FDigest(sha2::Sha256);
impl Default for FDigest {
    fn default() -> Self {
        dfault(1);
        FDigest(Default::default())
    }
}
impl digest::Update for FDigest {
    fn update(&mut self, d: impl AsRef<[u8]>) {
        dfault(2);
        digest::Update::update(&mut self.0, d)
    }
}
impl digest::FixedOutput for FDigest {
    type OutputSize = digest::consts::U32;
    fn finalize_into(self, out: &mut digest::generic_array::GenericArray<u8, Self::OutputSize>) {
        dfault(3);
        digest::FixedOutput::finalize_into(self.0, out)
    }
    fn finalize_into_reset(&mut self, out: &mut digest::generic_array::GenericArray<u8, Self::OutputSize>) {
        dfault(3);
        digest::FixedOutput::finalize_into_reset(&mut self.0, out)
    }
}
impl digest::Reset for FDigest {
    fn reset(&mut self) {
        digest::Reset::reset(&mut self.0)
    }
}
/// a text sink that fails at a write
pub struct Sink {
    pub out: String,
    pub left: Option<u32>,
    pub panic: bool,
    pub writes: u32,
    pub failed: bool,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        callback();
        self.writes += 1;
        if let Some(k) = self.left {
            if k == 0 {
                self.failed = true;
                if self.panic {
                    self.left = None;
                    std::panic::panic_any(FmtPanic(self.writes));
                }
                return Err(std::fmt::Error);
            }
            self.left = Some(k - 1);
        }
        self.out.push_str(s);
        Ok(())
    }
}

pub const NAMES: [&str; 24] = [
    "sign", "verify", "recover", "pubkey", "ecdh", "ecdh-rec", "tweak-pk-add", "tweak-pk-mul", "tweak-sk", "combine",
    "pk-codec", "sig-codec", "random", "serde", "format", "serde-sim", "digest-fault", "rng-fault", "fmt-fault", "serde-fault",
    "nested-digest", "new-boxed", "nested-rng", "nested",
];
pub const N_PLAIN: u8 = 16;
pub const K_SIMSERDE: u8 = 15;
pub const K_DIGEST: u8 = 16;
pub const K_RNG: u8 = 17;
pub const K_FMT: u8 = 18;
pub const K_SERDE: u8 = 19;
pub const K_NESTD: u8 = 20;
pub const K_BOXED: u8 = 21;
pub const K_NESTR: u8 = 22;
pub const K_NEST: u8 = 23;

pub fn payload(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(x) = e.downcast_ref::<DigestFailure>() {
        return format!("{:?}", x);
    }
    if let Some(x) = e.downcast_ref::<FmtPanic>() {
        return format!("{:?}", x);
    }
    if let Some(x) = e.downcast_ref::<EntropyFailure>() {
        return format!("{:?}", x);
    }
    #[cfg(feature = "full")]
    if let Some(x) = e.downcast_ref::<FormatPanic>() {
        return format!("{:?}", x);
    }
    let m = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    };
    format!("panic \"{}\"", m)
}

fn pkx(k: &PublicKey) -> String {
    hex(&k.serialize_compressed())
}
fn sigx(s: &Signature) -> String {
    hex(&s.serialize())
}
/// a key object made from bytes without any context
fn sk(d: &U) -> SecretKey {
    SecretKey::parse(&d.to_be()).expect("pool key")
}
fn pk(r: &mut Rng, q: &Pt) -> PublicKey {
    match r.below(3) {
        0 => PublicKey::parse(&curve::full(q)).expect("pool point"),
        1 => PublicKey::parse_compressed(&curve::compressed(q)).expect("pool point"),
        _ => PublicKey::parse_slice(&curve::full(q)[1..], Some(PublicKeyFormat::Raw)).expect("pool point"),
    }
}
/// signatures as they would arrive: genuine, or altered
fn signature(r: &mut Rng, p: &Pool) -> (usize, usize, Signature, u8) {
    let (i, mut j, mut s, mut id) = *r.pick(&p.sigs);
    match r.below(8) {
        0 => {
            s.s = nneg(&s.s);
            id ^= 1
        }
        1 => s.r = nadd(&s.r, &ONE),
        2 => id ^= 1 + r.below(3) as u8,
        3 => j = (j + 1) % p.m.len(),
        _ => {}
    }
    (i, j, ops::mk_sig(&s), id)
}

/// One call. `own`: through the caller-created contexts.
pub fn call(kind: u8, seed: u64, p: &Pool, own: bool) -> String {
    match catch_unwind(AssertUnwindSafe(|| call_in(kind, seed, p, own))) {
        Ok(s) => s,
        Err(e) => payload(&*e),
    }
}
fn call_in(kind: u8, seed: u64, p: &Pool, own: bool) -> String {
    let r = &mut Rng::new(mix2(seed, 0xca11));
    let b: Option<(&ECMultContext, &ECMultGenContext)> = if own { ops::boxed() } else { None };
    let i = r.below(p.d.len());
    let j = r.below(p.m.len());
    let k2 = r.below(p.d.len());
    match kind {
        0 => {
            let k = sk(&p.d[i]);
            let m = Message::parse(&p.m[j]);
            let (s, id) = match b {
                Some((_, g)) => lib::sign_with_context(&m, &k, g),
                None => lib::sign(&m, &k),
            };
            format!("{} {}", sigx(&s), id.serialize())
        }
        1 => {
            let (i, j, s, _) = signature(r, p);
            let q = pk(r, &p.q[i]);
            let m = Message::parse(&p.m[j]);
            format!("{}", match b {
                Some((c, _)) => lib::verify_with_context(&m, &s, &q, c),
                None => lib::verify(&m, &s, &q),
            })
        }
        2 => {
            let (_, j, s, id) = signature(r, p);
            let m = Message::parse(&p.m[j]);
            let id = RecoveryId::parse(id & 3).expect("id");
            let x = match b {
                Some((c, _)) => lib::recover_with_context(&m, &s, &id, c),
                None => lib::recover(&m, &s, &id),
            };
            format!("{:?}", x.map(|k| pkx(&k)))
        }
        3 => {
            let k = sk(&p.d[i]);
            pkx(&match b {
                Some((_, g)) => PublicKey::from_secret_key_with_context(&k, g),
                None => PublicKey::from_secret_key(&k),
            })
        }
        4 => {
            let q = pk(r, &p.q[k2]);
            let k = sk(&p.d[i]);
            let x = match b {
                Some((c, _)) => SharedSecret::<FDigest>::new_with_context(&q, &k, c),
                None => SharedSecret::<FDigest>::new(&q, &k),
            };
            format!("{:?}", x.map(|x| hex(x.as_ref())))
        }
        5 => {
            let q = pk(r, &p.q[k2]);
            let k = sk(&p.d[i]);
            let x = match b {
                Some((c, _)) => SharedSecret::<ops::Rec>::new_with_context(&q, &k, c),
                None => SharedSecret::<ops::Rec>::new(&q, &k),
            };
            format!("{:?}", x.map(|x| hex(x.as_ref())))
        }
        6 | 7 => {
            let mut q = pk(r, &p.q[i]);
            let t = sk(&p.d[k2]);
            let x = match (kind, b) {
                (6, Some((c, _))) => q.tweak_add_assign_with_context(&t, c),
                (6, None) => q.tweak_add_assign(&t),
                (_, Some((c, _))) => q.tweak_mul_assign_with_context(&t, c),
                (_, None) => q.tweak_mul_assign(&t),
            };
            format!("{:?} {}", x, pkx(&q))
        }
        8 => {
            let mut k = sk(&p.d[i]);
            let t = sk(&p.d[k2]);
            let a = k.tweak_add_assign(&t);
            let x = hex(&k.serialize());
            let b = k.tweak_mul_assign(&t);
            let y = hex(&k.serialize());
            let z = hex(&k.inv().serialize());
            k.clear();
            format!("{:?} {} {:?} {} {} {:?} {}", a, x, b, y, z, sk(&p.d[i]), k.is_zero())
        }
        9 => {
            let n = 1 + r.below(4);
            let v: Vec<PublicKey> = (0..n)
                .map(|_| {
                    let q = p.q[r.below(p.q.len())];
                    if r.p(1, 4) { pk(r, &curve::pneg(&q)) } else { pk(r, &q) }
                })
                .collect();
            format!("{:?}", PublicKey::combine(&v).map(|k| pkx(&k)))
        }
        10 => {
            let q = pk(r, &p.q[i]);
            let a = q.serialize();
            let c = q.serialize_compressed();
            let x = PublicKey::parse(&a).map(|k| k == q);
            let y = PublicKey::parse_compressed(&c).map(|k| k == q);
            let mut bad = c;
            bad[1 + r.below(32)] ^= 1 << r.below(8);
            let z = PublicKey::parse_compressed(&bad).map(|k| pkx(&k));
            format!("{} {} {:?} {:?} {:?}", hex(&a), hex(&c), x, y, z)
        }
        11 => {
            let (_, _, mut s, _) = signature(r, p);
            let d = s.serialize_der();
            let x = Signature::parse_der(d.as_ref()).map(|t| sigx(&t));
            let y = Signature::parse_der_lax(d.as_ref()).map(|t| sigx(&t));
            let mut bad = d.as_ref().to_vec();
            let n = bad.len();
            bad[r.below(n)] ^= 1 << r.below(8);
            let z = Signature::parse_der(&bad).map(|t| sigx(&t));
            let w = Signature::parse_standard(&s.serialize()).map(|t| sigx(&t));
            s.normalize_s();
            format!("{} {:?} {:?} {:?} {:?} {}", hex(d.as_ref()), x, y, z, w, sigx(&s))
        }
        12 => {
            let mut st = vec![];
            for _ in 0..r.below(3) {
                st.extend_from_slice(&crate::entropy::invalid_draw(r));
            }
            st.extend_from_slice(&p.d[i].to_be());
            let mut s = Source::new(st);
            let k = SecretKey::random(&mut s);
            format!("{} after {} as {:?}", hex(&k.serialize()), s.pos, s.sizes)
        }
        #[cfg(feature = "full")]
        13 => {
            let q = pk(r, &p.q[i]);
            let t = serde_json::to_string(&q).map_err(|e| e.to_string());
            let back = t.as_ref().ok().map(|t| serde_json::from_str::<PublicKey>(t).map(|k| k == q).map_err(|e| e.to_string()));
            let v = bincode::serialize(&q).map_err(|e| e.to_string());
            let back2 = v.as_ref().ok().map(|v| bincode::deserialize::<PublicKey>(v).map(|k| k == q).map_err(|e| e.to_string()));
            format!("{:?} {:?} {:?} {:?}", t, back, v.map(|v| hex(&v)), back2)
        }
        #[cfg(not(feature = "full"))]
        13 => String::new(),
        14 => {
            let mut o = Sink { out: String::new(), left: None, panic: false, writes: 0, failed: false };
            let k = sk(&p.d[i]);
            let _ = write!(o, "{:x} {:?} {:x}", k, k, Into::<Scalar>::into(k));
            let e = lib::Error::TweakOutOfRange;
            let _ = write!(o, " {} {:?} {:?}", e, e, RecoveryId::parse(2));
            let q: Affine = pk(r, &p.q[i]).into();
            let n = o.writes;
            let _ = write!(o, " {} {}", q.is_valid_var(), n);
            o.out
        }
        #[cfg(feature = "full")]
        K_SIMSERDE => {
            let q = pk(r, &p.q[i]);
            let human = r.p(1, 2);
            let mut out: Vec<Out> = vec![];
            let x = serde::Serialize::serialize(&q, SimSer { human, out: &mut out, fail: 0 });
            let full = curve::full(&p.q[k2]);
            let data = if human { codec::b64enc(&full).into_bytes() } else { full.to_vec() };
            let how = if human { How::Str } else { How::Bytes };
            let asked = Default::default();
            let y = <PublicKey as serde::Deserialize>::deserialize(SimDe { human, how, data: &data, fail: 0, asked });
            format!("{:?} {:?} {:?}", x, out, y.map(|k| pkx(&k)))
        }
        #[cfg(not(feature = "full"))]
        K_SIMSERDE => String::new(),
        K_DIGEST => {
            let q = pk(r, &p.q[k2]);
            let k = sk(&p.d[i]);
            let w = 1 + r.below(3) as u32;
            let n = if w == 2 { r.below(2) as u32 } else { 0 };
            let (q0, k0) = (q.serialize(), k.serialize());
            DFAULT.with(|d| d.set((w, n)));
            let x = catch_unwind(AssertUnwindSafe(|| match b {
                Some((c, _)) => SharedSecret::<FDigest>::new_with_context(&q, &k, c),
                None => SharedSecret::<FDigest>::new(&q, &k),
            }));
            let fired = DFAULT.with(|d| d.replace((0, 0))).0 == 0;
            let same = q.serialize() == q0 && k.serialize() == k0;
            verdict(fired, x.map(|x| x.map(|x| hex(x.as_ref()))), same, &format!("{:?}", DigestFailure(w)))
        }
        K_RNG => {
            let mut st = vec![];
            for _ in 0..r.below(3) {
                st.extend_from_slice(&crate::entropy::invalid_draw(r));
            }
            let n = st.len();
            st.extend_from_slice(&p.d[i].to_be());
            let mut s = Source::new(st);
            let f = r.below(n + 32);
            s.fail_at = Some(f);
            let x = catch_unwind(AssertUnwindSafe(|| SecretKey::random(&mut s)));
            let fired = s.fail_at.is_none();
            if s.erred.is_some() {
                return match x {
                    Err(_) => "contained true".into(),
                    Ok(k) if s.drawn_after_error(&k.serialize()) => "contained true".into(),
                    Ok(k) => format!("NOT-CONTAINED: error of the generator at byte {:?} swallowed, key {}", s.erred, hex(&k.serialize())),
                };
            }
            verdict(fired, x.map(|k| hex(&k.serialize())), true, &format!("{:?}", EntropyFailure(f as u64)))
        }
        K_FMT => fmt_fault(r, p, i),
        #[cfg(feature = "full")]
        K_SERDE => {
            let q = pk(r, &p.q[i]);
            let q0 = q.serialize();
            let human = r.p(1, 2);
            if r.p(1, 2) {
                let fail = 1 + r.below(3) as u32;
                let mut out: Vec<Out> = vec![];
                let x = catch_unwind(AssertUnwindSafe(|| serde::Serialize::serialize(&q, SimSer { human, out: &mut out, fail })));
                let same = q.serialize() == q0;
                if fail == 1 {
                    match x {
                        Ok(Err(FErr::Injected(1))) => format!("contained {}", same),
                        x => format!("NOT-CONTAINED: serializer error became {:?}", x.map_err(|e| payload(&*e))),
                    }
                } else {
                    verdict(true, x, same, &format!("{:?}", FormatPanic(fail)))
                }
            } else {
                let fail = 1 + r.below(5) as u32;
                let data = if human { codec::b64enc(&q0).into_bytes() } else { q0.to_vec() };
                let how = if human { How::Str } else { How::Bytes };
                let asked = Default::default();
                let x = catch_unwind(AssertUnwindSafe(|| {
                    <PublicKey as serde::Deserialize>::deserialize(SimDe { human, how, data: &data, fail, asked })
                }));
                match (fail, x) {
                    (1, Ok(Err(FErr::Injected(_)))) | (4, Ok(Err(FErr::Injected(_)))) => "contained true".into(),
                    (2, Err(e)) | (3, Err(e)) | (5, Err(e)) if payload(&*e).starts_with("FormatPanic") => "contained true".into(),
                    (f, x) => format!("NOT-CONTAINED: deserializer fault {} became {:?}", f, x.map_err(|e| payload(&*e))),
                }
            }
        }
        #[cfg(not(feature = "full"))]
        K_SERDE => String::new(),
        K_NESTD => {
            let q = pk(r, &p.q[k2]);
            let k = sk(&p.d[i]);
            NESTED.with(|n| n.set(0));
            DFAULT.with(|d| d.set((4, 0)));
            let x = match b {
                Some((c, _)) => SharedSecret::<FDigest>::new_with_context(&q, &k, c),
                None => SharedSecret::<FDigest>::new(&q, &k),
            };
            DFAULT.with(|d| d.set((0, 0)));
            let y = SharedSecret::<sha2::Sha256>::new(&q, &k);
            let (x, y) = (x.map(|x| hex(x.as_ref())), y.map(|y| hex(y.as_ref())));
            let n = NESTED.with(|n| n.get());
            if x == y && n != 9999 && n != 0 {
                format!("nested {} {:?}", n, x)
            } else {
                format!("NOT-CONTAINED: call from inside the digest: {} {:?} {:?}", n, x, y)
            }
        }
        K_BOXED => {
            // what a call with a context of its own gives, whichever tables are made
            let what = r.below(5);
            let c = if what != 0 && what != 1 { Some(ECMultContext::new_boxed()) } else { None };
            let g = if what != 2 { Some(ECMultGenContext::new_boxed()) } else { None };
            let m = Message::parse(&p.m[j]);
            let k = sk(&p.d[i]);
            let mut t = String::new();
            if let Some(g) = &g {
                let (s, id) = lib::sign_with_context(&m, &k, g);
                t.push_str(&format!("{:016x} {} ", crate::tables::hash_gen(g), sigx(&s)));
                if let Some(c) = &c {
                    t.push_str(&format!("{:?} ", lib::recover_with_context(&m, &s, &id, c).map(|k| pkx(&k))));
                }
            }
            if let Some(c) = &c {
                let q = pk(r, &p.q[k2]);
                let s = SharedSecret::<sha2::Sha256>::new_with_context(&q, &k, c);
                t.push_str(&format!("{:016x} {:?}", crate::tables::hash_g(c), s.map(|x| hex(x.as_ref()))));
            }
            t
        }
        K_NESTR => {
            let mut s = Source::new(p.d[i].to_be().to_vec());
            s.reenter = true;
            let k = SecretKey::random(&mut s);
            if s.nested == Some(true) && k.serialize() == p.d[i].to_be() {
                "nested ok".into()
            } else {
                format!("NOT-CONTAINED: call from inside the generator: {:?} {}", s.nested, hex(&k.serialize()))
            }
        }
        K_NEST => {
            // any call from inside any component, the library's outer call in progress
            let outer = *r.pick(&[4u8, 12, 14, K_SIMSERDE]);
            let inner = match r.below(4) {
                0 => outer,
                1 => [K_DIGEST, K_RNG, K_FMT, K_SERDE][r.below(4)],
                _ => r.below(N_PLAIN as usize) as u8,
            };
            let (so, si) = (r.u64(), r.u64());
            let own2 = r.p(1, 3);
            let x = (call(outer, so, p, own), call(inner, si, p, own2));
            let left = if outer == 14 { r.below(30) } else { r.below(4) } as u32;
            INNER.with(|i| *i.borrow_mut() = None);
            PENDING.with(|q| *q.borrow_mut() = Some(Pending { left, kind: inner, seed: si, pool: p.clone(), own: own2 }));
            let a = call(outer, so, p, own);
            PENDING.with(|q| *q.borrow_mut() = None);
            let b = INNER.with(|i| i.borrow_mut().take());
            if a == x.0 && b.clone().unwrap_or(x.1.clone()) == x.1 && !x.1.starts_with("NOT-CONTAINED") {
                format!("nested {} in {}: {} {:?}", NAMES[inner as usize], NAMES[outer as usize], a, b)
            } else {
                format!(
                    "NOT-CONTAINED: {} called from a component of {}: outer {:?} alone {:?}, inner {:?} alone {:?}",
                    NAMES[inner as usize], NAMES[outer as usize], a, x.0, b, x.1
                )
            }
        }
        k => format!("no call {}", k),
    }
}
/// after an injected panic: did it reach the caller as it was?
fn verdict<T: std::fmt::Debug>(fired: bool, x: Result<T, Box<dyn std::any::Any + Send>>, same: bool, want: &str) -> String {
    match x {
        Ok(v) if !fired => format!("not reached {:?} {}", v, same),
        Ok(v) => format!("NOT-CONTAINED: {} was swallowed, result {:?}", want, v),
        Err(e) => {
            let p = payload(&*e);
            if p == want && same {
                "contained true".into()
            } else {
                format!("NOT-CONTAINED: {} became {}, arguments unchanged: {}", want, p, same)
            }
        }
    }
}
fn fmt_fault(r: &mut Rng, p: &Pool, i: usize) -> String {
    let k = sk(&p.d[i]);
    let s: Scalar = k.into();
    let q = pk(r, &p.q[i]);
    let sg = ops::mk_sig(&p.sigs[0].2);
    let m = Message::parse(&p.m[0]);
    let errs = [
        lib::Error::InvalidSignature, lib::Error::InvalidPublicKey, lib::Error::InvalidSecretKey, lib::Error::InvalidRecoveryId,
        lib::Error::InvalidMessage, lib::Error::InvalidInputLength, lib::Error::TweakOutOfRange, lib::Error::InvalidAffine,
    ];
    let e = *r.pick(&errs);
    let id = RecoveryId::parse(1).expect("id");
    let what = r.below(9);
    let put = |o: &mut Sink| match what {
        0 => write!(o, "{:x}", k),
        1 => write!(o, "{:x}", s),
        2 => write!(o, "{}", e),
        3 => write!(o, "{:?}", e),
        4 => write!(o, "{:?}", k),
        5 => write!(o, "{:?}", q),
        6 => write!(o, "{:?}", sg),
        7 => write!(o, "{:?}", m),
        _ => write!(o, "{:?}", id),
    };
    let mut whole = Sink { out: String::new(), left: None, panic: false, writes: 0, failed: false };
    let a = put(&mut whole);
    let n = whole.writes;
    let mut cut = Sink { out: String::new(), left: Some(r.below(n.max(1) as usize) as u32), panic: r.p(1, 2), writes: 0, failed: false };
    let panics = cut.panic;
    let x = catch_unwind(AssertUnwindSafe(|| put(&mut cut)));
    let ok = match x {
        Ok(Err(_)) => !panics && cut.failed,
        Ok(Ok(())) => !cut.failed,
        Err(e) => panics && payload(&*e) == format!("{:?}", FmtPanic(cut.writes)),
    };
    let mut again = Sink { out: String::new(), left: None, panic: false, writes: 0, failed: false };
    let b = put(&mut again);
    if ok && a.is_ok() && b.is_ok() && whole.out == again.out && whole.out.starts_with(&cut.out) {
        format!("contained true {}", what)
    } else {
        format!(
            "NOT-CONTAINED: text sink failing at write {} (panic {}) of {}: ok {} {:?} {:?} {:?} {:?}",
            cut.writes, panics, what, ok, a, whole.out, cut.out, again.out
        )
    }
}
