//! Library operations as the simulated nodes perform them, each compared with
//! the reference model as it happens.
#![allow(static_mut_refs)]
use crate::ctx::Cx;
use crate::gen;
use crate::model::{self, arith::*, codec, curve, ecdsa, Pt};
use crate::rng::Rng;
use libsecp256k1 as lib;
use libsecp256k1::curve::{Affine, ECMultContext, ECMultGenContext, Field, Scalar};
use libsecp256k1::{Error, Message, PublicKey, PublicKeyFormat, RecoveryId, SecretKey, SharedSecret, Signature};
use std::convert::TryFrom;

// ---- contexts ----
static mut BOXED: Option<(Box<ECMultContext>, Box<ECMultGenContext>)> = None;
pub fn boxed() -> Option<(&'static ECMultContext, &'static ECMultGenContext)> {
    unsafe { BOXED.as_ref().map(|b| (&*b.0, &*b.1)) }
}
/// contexts created by the caller rather than built in
pub fn make_boxed() {
    unsafe {
        if BOXED.is_none() {
            BOXED = Some((ECMultContext::new_boxed(), ECMultGenContext::new_boxed()));
        }
    }
}

/// the caller's contexts, or the built-in ones
pub fn contexts(own: bool) -> (&'static ECMultContext, &'static ECMultGenContext) {
    match (own, boxed()) {
        (true, Some(b)) => b,
        _ => (&lib::ECMULT_CONTEXT, &lib::ECMULT_GEN_CONTEXT),
    }
}

// ---- nonce candidate seam ----
static mut CAND: Vec<[u8; 32]> = Vec::new();
static mut CAND_USED: usize = 0;
fn cand_hook(out: &mut [u8]) {
    unsafe {
        if CAND_USED < CAND.len() {
            out.copy_from_slice(&CAND[CAND_USED]);
        }
        CAND_USED += 1;
    }
}
pub fn inject(c: Vec<[u8; 32]>) {
    unsafe {
        CAND_USED = 0;
        let on = !c.is_empty();
        CAND = c;
        hmac_drbg::SIM_CANDIDATE_HOOK.store(if on { cand_hook as usize } else { 0 }, std::sync::atomic::Ordering::Relaxed);
    }
}
/// how many candidates the library drew while the seam was armed
pub fn injected() -> usize {
    unsafe { CAND_USED }
}

// ---- conversions (not themselves under test) ----
pub fn u_sk(k: &SecretKey) -> U {
    U::from_be(&k.serialize())
}
pub fn pt_pk(k: &PublicKey) -> Pt {
    let b = k.serialize();
    Pt::A(U::from_be_slice(&b[1..33]), U::from_be_slice(&b[33..]))
}
pub fn u_sc(s: &Scalar) -> U {
    U::from_be(&s.b32())
}
pub fn sc(u: &U) -> Scalar {
    let mut s = Scalar::default();
    let _ = s.set_b32(&u.to_be());
    s
}
pub fn sig_of(s: &Signature) -> ecdsa::Sig {
    ecdsa::Sig { r: u_sc(&s.r), s: u_sc(&s.s) }
}
pub fn mk_sig(s: &ecdsa::Sig) -> Signature {
    Signature { r: sc(&s.r), s: sc(&s.s) }
}
pub fn ptx(p: &Pt) -> String {
    match p {
        Pt::Inf => "inf".into(),
        p => hex(&codec_c(p)),
    }
}
fn codec_c(p: &Pt) -> [u8; 33] {
    curve::compressed(p)
}
/// a library public key holding this point, made in one of several ways
pub fn mk_pk(cx: &mut Cx, r: &mut Rng, p: &Pt) -> Option<PublicKey> {
    let how = r.below(4);
    let (x, y) = match p {
        Pt::A(x, y) => (*x, *y),
        Pt::Inf => return None,
    };
    let b = curve::full(p);
    let c = curve::compressed(p);
    let res = cx.lib_raw("mk_pk", &[], || match how {
        0 => PublicKey::parse(&b).ok(),
        1 => PublicKey::parse_compressed(&c).ok(),
        2 => {
            // coordinates that are not normalised: y = -(-y)
            let mut fx = Field::default();
            let mut fy = Field::default();
            let _ = fx.set_b32(&x.to_be());
            let _ = fy.set_b32(&fneg(&y).to_be());
            let fy = fy.neg(1);
            let mut a = Affine::default();
            a.set_xy(&fx, &fy);
            PublicKey::try_from(a).ok()
        }
        _ => PublicKey::parse_slice(&b[1..], Some(PublicKeyFormat::Raw)).ok(),
    });
    match res {
        Ok(Some(k)) => Some(k),
        _ => {
            // whatever way works: this is only preparation
            cx.lib_raw("mk_pk", &[], || PublicKey::parse(&b).or_else(|_| PublicKey::parse_compressed(&c)).ok())
                .ok()
                .flatten()
        }
    }
}
pub fn mk_sk(cx: &mut Cx, d: &U) -> Option<SecretKey> {
    let b = d.to_be();
    cx.lib_raw("mk_sk", &[], || SecretKey::parse(&b).ok()).ok().flatten()
}
pub fn pk_desc(k: &PublicKey) -> String {
    hex(&k.serialize_compressed())
}

// ---- operations with oracles ----

/// public key of a secret key
pub fn pubkey(cx: &mut Cx, sk: &SecretKey, d: &U, own_ctx: bool, props: &[&str]) -> Option<PublicKey> {
    let k = cx.lib("from_secret_key", props, || match (own_ctx, boxed()) {
        (true, Some((_, g))) => PublicKey::from_secret_key_with_context(sk, g),
        _ => PublicKey::from_secret_key(sk),
    })?;
    let got = cx.lib("pk_bytes", props, || pt_pk(&k))?;
    let want = curve::mulg(d);
    cx.log(format!("pubkey -> {}", ptx(&got)));
    cx.seen(&[1, gen::class(d) as u64, own_ctx as u64]);
    cx.check(got == want, props, "pubkey-mismatch", || {
        format!("public key of {} is {} but should be {}", d.hex(), ptx(&got), ptx(&want))
    });
    Some(k)
}

#[derive(Clone, Debug)]
pub struct Signed {
    pub sig: ecdsa::Sig,
    pub id: u8,
    pub lsig: Signature,
    pub lid: RecoveryId,
}
/// Sign, with nonce candidates replaced from the front by `cands`.
pub fn sign(cx: &mut Cx, sk: &SecretKey, d: &U, mb: &[u8; 32], cands: &[[u8; 32]], own_ctx: bool) -> Option<Signed> {
    let props = ["C01", "C02"];
    let m = nred(&U::from_be(mb));
    inject(cands.to_vec());
    let res = cx.lib("sign", &props, || {
        let msg = Message::parse(mb);
        match (own_ctx, boxed()) {
            (true, Some((_, g))) => lib::sign_with_context(&msg, sk, g),
            _ => lib::sign(&msg, sk),
        }
    });
    let drawn = injected();
    inject(vec![]);
    let (ls, li) = res?;
    let sig = sig_of(&ls);
    let id = li.serialize();
    cx.log(format!("sign -> r={} s={} id={}", sig.r.hex(), sig.s.hex(), id));
    let hooked = drawn > 0;
    if hooked {
        for _ in 0..drawn.min(cands.len()) {
            cx.fault("nonce_candidate_replaced");
        }
    }
    let (want, wid, wdrawn) =
        ecdsa::sign(d, &m, |i| if hooked { cands.get(i).copied() } else { None });
    if wdrawn > 1 {
        cx.count("probe:nonce_retry");
    }
    cx.seen(&[2, gen::class(d) as u64, gen::class(&m) as u64, wdrawn.min(6) as u64, gen::class(&sig.s) as u64, own_ctx as u64]);
    cx.check(sig == want && id == wid, &props, "signature-not-rfc6979", || {
        format!(
            "sign(key {}, message {}, candidates replaced {:?}) = (r {}, s {}, id {}) but RFC 6979 gives (r {}, s {}, id {})",
            d.hex(), hex(mb), cands.iter().map(|c| hex(c)).collect::<Vec<_>>(),
            sig.r.hex(), sig.s.hex(), id, want.r.hex(), want.s.hex(), wid
        )
    });
    cx.check(
        !sig.r.is_zero() && !sig.s.is_zero() && !is_high(&sig.s) && id < 4,
        &["C01", "C02"],
        "signature-out-of-range",
        || format!("issued r={} s={} id={}", sig.r.hex(), sig.s.hex(), id),
    );
    raw_sign(cx, d, &m, own_ctx);
    Some(Signed { sig, id, lsig: ls, lid: li })
}
/// the context's own signing step, for nonces the deterministic scheme would hardly ever draw
fn raw_sign(cx: &mut Cx, d: &U, m: &U, own_ctx: bool) {
    let props = ["C01", "C02"];
    let mut r = Rng::new(m.0[0] ^ d.0[1]);
    if !r.p(1, 3) {
        return;
    }
    let k = gen::key(&mut r);
    // sometimes the message for which s is zero, one, n - 1 or next to n / 2
    let (mut m, mut d) = (*m, *d);
    if r.p(1, 3) {
        if let Pt::A(x, _) = curve::mulg(&k) {
            let s = gen::scalar0(&mut r);
            m = nadd(&nmul(&s, &k), &nneg(&nmul(&nred(&x), &d)));
        }
    } else if r.p(1, 4) {
        d = gen::scalar0(&mut r);
    }
    let (sd, sm, sk) = (sc(&d), sc(&m), sc(&k));
    let got = match cx.lib("sign_raw", &props, || contexts(own_ctx).1.sign_raw(&sd, &sm, &sk)) {
        Some(g) => g.ok().map(|(r, s, id)| (ecdsa::Sig { r: u_sc(&r), s: u_sc(&s) }, id)),
        None => return,
    };
    let want = ecdsa::sign_with(&d, &m, &k);
    cx.log(format!("sign_raw -> {:?}", got.as_ref().map(|g| (g.0.r.hex(), g.0.s.hex(), g.1))));
    cx.seen(&[6, gen::class(&d) as u64, gen::class(&m) as u64, gen::class(&k) as u64, want.is_some() as u64]);
    cx.count("probe:sign_raw");
    cx.check(got == want, &props, "raw-signature-wrong", || {
        format!("sign_raw(key {}, message {}, nonce {}) = {:?} but should be {:?}", d.hex(), m.hex(), k.hex(), got, want)
    });
}
/// one delivery in four also goes through the operation on bare scalars and points
fn also_raw(mb: &[u8; 32], s: &ecdsa::Sig) -> bool {
    (mb[31] as u64 ^ s.r.0[0] ^ (s.s.0[0] >> 7)) & 3 == 0
}

pub fn verify(cx: &mut Cx, mb: &[u8; 32], s: &Signature, k: &PublicKey, q: &Pt, own_ctx: bool, props: &[&str]) -> Option<bool> {
    let got = cx.lib("verify", props, || {
        let msg = Message::parse(mb);
        match (own_ctx, boxed()) {
            (true, Some((c, _))) => lib::verify_with_context(&msg, s, k, c),
            _ => lib::verify(&msg, s, k),
        }
    })?;
    let sg = sig_of(s);
    let m = nred(&U::from_be(mb));
    let want = ecdsa::verify(&m, &sg, q);
    cx.log(format!("verify m={} r={} s={} q={} -> {}", hex(mb), sg.r.hex(), sg.s.hex(), ptx(q), got));
    cx.count(if want { "probe:verify_true" } else { "probe:verify_false" });
    cx.seen(&[3, gen::class(&m) as u64, gen::class(&sg.r) as u64, gen::class(&sg.s) as u64, want as u64, own_ctx as u64]);
    cx.check(got == want, props, "verify-mismatch", || {
        format!(
            "verify(message {}, r {}, s {}, key {}) = {} but the ECDSA equation says {}",
            hex(mb), sg.r.hex(), sg.s.hex(), ptx(q), got, want
        )
    });
    if also_raw(mb, &sg) {
        let raw = cx.lib("verify_raw", props, || {
            let a: Affine = (*k).into();
            contexts(own_ctx).0.verify_raw(&s.r, &s.s, &a, &Message::parse(mb).0)
        });
        if let Some(raw) = raw {
            cx.count("probe:verify_raw");
            cx.check(raw == want, props, "raw-verify-mismatch", || {
                format!("verify_raw(r {}, s {}, key {}, message {}) = {}", sg.r.hex(), sg.s.hex(), ptx(q), hex(mb), raw)
            });
        }
    }
    Some(got)
}

pub fn recover(cx: &mut Cx, mb: &[u8; 32], s: &Signature, id: u8, own_ctx: bool, props: &[&str]) -> Option<Result<PublicKey, Error>> {
    let got = cx.lib("recover", props, || {
        let msg = Message::parse(mb);
        let rid = RecoveryId::parse(id).map_err(|_| Error::InvalidRecoveryId)?;
        match (own_ctx, boxed()) {
            (true, Some((c, _))) => lib::recover_with_context(&msg, s, &rid, c),
            _ => lib::recover(&msg, s, &rid),
        }
    })?;
    let sg = sig_of(s);
    let m = nred(&U::from_be(mb));
    let want = ecdsa::recover(&m, &sg, id);
    let gp = match &got {
        Ok(k) => cx.lib("pk_bytes", props, || Some(pt_pk(k)))?,
        Err(_) => None,
    };
    cx.log(format!(
        "recover m={} r={} s={} id={} -> {}",
        hex(mb), sg.r.hex(), sg.s.hex(), id,
        match (&got, &gp) { (Err(e), _) => format!("{:?}", e), (_, Some(p)) => ptx(p), _ => "?".into() }
    ));
    cx.count(if want.is_some() { "probe:recover_ok" } else { "probe:recover_err" });
    if id & 2 != 0 && want.is_some() {
        cx.count("probe:recover_x_above_n");
    }
    cx.seen(&[4, gen::class(&m) as u64, gen::class(&sg.r) as u64, gen::class(&sg.s) as u64, id as u64, want.is_some() as u64]);
    cx.check(gp == want, props, "recover-mismatch", || {
        format!(
            "recover(message {}, r {}, s {}, id {}) = {} but should be {}",
            hex(mb), sg.r.hex(), sg.s.hex(), id,
            gp.as_ref().map(ptx).unwrap_or_else(|| format!("{:?}", got.as_ref().err())),
            want.as_ref().map(ptx).unwrap_or_else(|| "an error".into())
        )
    });
    if id < 4 && also_raw(mb, &sg) {
        let raw = cx.lib("recover_raw", props, || {
            let mut a = contexts(own_ctx).0.recover_raw(&s.r, &s.s, id, &Message::parse(mb).0).ok()?;
            a.x.normalize();
            a.y.normalize();
            Some(if a.is_infinity() { Pt::Inf } else { Pt::A(U::from_be(&a.x.b32()), U::from_be(&a.y.b32())) })
        });
        if let Some(raw) = raw {
            cx.count("probe:recover_raw");
            cx.check(raw == want, props, "raw-recover-mismatch", || {
                format!("recover_raw(r {}, s {}, id {}, message {}) = {:?} but should be {:?}", sg.r.hex(), sg.s.hex(), id, hex(mb), raw.as_ref().map(ptx), want.as_ref().map(ptx))
            });
        }
    }
    if let (Ok(k), true) = (&got, props.contains(&"C04")) {
        let k = *k;
        let ok = cx.lib("verify", props, || lib::verify(&Message::parse(mb), s, &k));
        if let Some(ok) = ok {
            cx.check(ok, props, "recovered-key-does-not-verify", || {
                format!("message {} r {} s {} id {}", hex(mb), sg.r.hex(), sg.s.hex(), id)
            });
        }
    }
    Some(got)
}

/// A digest that records what it is fed.
#[derive(Clone, Default)]
pub struct Rec {
    pub v: Vec<u8>,
}
impl digest::Update for Rec {
    fn update(&mut self, d: impl AsRef<[u8]>) {
        self.v.extend_from_slice(d.as_ref());
    }
}
impl digest::FixedOutput for Rec {
    type OutputSize = digest::consts::U64;
    fn finalize_into(self, out: &mut digest::generic_array::GenericArray<u8, Self::OutputSize>) {
        let mut s = self;
        digest::FixedOutput::finalize_into_reset(&mut s, out)
    }
    fn finalize_into_reset(&mut self, out: &mut digest::generic_array::GenericArray<u8, Self::OutputSize>) {
        for x in out.iter_mut() {
            *x = 0;
        }
        out[0] = self.v.len() as u8;
        for (i, b) in self.v.iter().take(63).enumerate() {
            out[1 + i] = *b;
        }
        self.v.clear();
    }
}
impl digest::Reset for Rec {
    fn reset(&mut self) {
        self.v.clear();
    }
}

pub fn ecdh(cx: &mut Cx, k: &PublicKey, q: &Pt, sk: &SecretKey, d: &U, rec: bool, own_ctx: bool, props: &[&str]) -> Option<Vec<u8>> {
    let got = cx.lib("ecdh", props, || -> Result<Vec<u8>, Error> {
        let c = if own_ctx { boxed() } else { None };
        Ok(if rec {
            match c {
                Some((c, _)) => SharedSecret::<Rec>::new_with_context(k, sk, c)?.as_ref().to_vec(),
                None => SharedSecret::<Rec>::new(k, sk)?.as_ref().to_vec(),
            }
        } else {
            match c {
                Some((c, _)) => SharedSecret::<sha2::Sha256>::new_with_context(k, sk, c)?.as_ref().to_vec(),
                None => SharedSecret::<sha2::Sha256>::new(k, sk)?.as_ref().to_vec(),
            }
        })
    })?;
    let want: Option<Vec<u8>> = if d.is_zero() {
        None
    } else {
        let p = curve::mul(d, q);
        let c = curve::compressed(&p);
        Some(if rec {
            let mut v = vec![0u8; 64];
            v[0] = 33;
            v[1..34].copy_from_slice(&c);
            v
        } else {
            model::hash::sha256(&c).to_vec()
        })
    };
    cx.log(format!("ecdh -> {:?}", got.as_ref().map(|v| hex(v))));
    cx.seen(&[5, gen::class(d) as u64, rec as u64, own_ctx as u64, d.0[0] & 31]);
    let g = got.clone().ok();
    if d.0[0] & 3 == 1 {
        let raw = cx.lib("ecdh_raw", props, || {
            let a: Affine = (*k).into();
            let x: Scalar = (*sk).into();
            let c = contexts(own_ctx).0;
            if rec { c.ecdh_raw::<Rec>(&a, &x).map(|v| v.to_vec()) } else { c.ecdh_raw::<sha2::Sha256>(&a, &x).map(|v| v.to_vec()) }
        });
        if let Some(raw) = raw {
            cx.count("probe:ecdh_raw");
            cx.check(raw == want, props, "raw-ecdh-mismatch", || {
                format!("ecdh_raw of key {} with point {} is {:?}", d.hex(), ptx(q), raw.as_ref().map(|v| hex(v)))
            });
        }
    }
    cx.check(g == want, props, "ecdh-mismatch", || {
        format!(
            "shared secret of key {} with point {} is {:?} but should be {:?}",
            d.hex(), ptx(q), got.as_ref().map(|v| hex(v)), want.as_ref().map(|v| hex(v))
        )
    });
    g
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DOp {
    Add(U),
    Mul(U),
}
/// tweak a secret key; model: Ok(new value) or Err
pub fn tweak_sk(cx: &mut Cx, sk: &mut SecretKey, d: &U, op: &DOp, props: &[&str]) -> Option<U> {
    let (t, want) = match op {
        DOp::Add(t) => (t, nadd(d, t)),
        DOp::Mul(t) => (t, nmul(d, t)),
    };
    let tk = tweak_key(cx, t)?;
    let mut k = *sk;
    let res = cx.lib("tweak_sk", props, || {
        let r = match op {
            DOp::Add(_) => k.tweak_add_assign(&tk),
            DOp::Mul(_) => k.tweak_mul_assign(&tk),
        };
        (r, k)
    });
    let (res, after) = res?;
    let got = u_sk(&after);
    let should_fail = want.is_zero();
    cx.log(format!("tweak_sk {:?} -> {:?} {}", op, res, got.hex()));
    if should_fail {
        cx.count("probe:tweak_sk_refused");
    }
    cx.seen(&[6, matches!(op, DOp::Add(_)) as u64, gen::class(d) as u64, gen::class(t) as u64, should_fail as u64]);
    let ok = if should_fail { res.is_err() && got == *d } else { res.is_ok() && got == want };
    cx.check(ok, props, "tweak-secret-mismatch", || {
        format!("key {} {:?}: {:?}, key now {}, expected {}", d.hex(), op, res, got.hex(),
            if should_fail { "an error and no change".into() } else { want.hex() })
    });
    *sk = after;
    Some(got)
}
/// secret key object for a tweak, zero included (cleared key)
fn tweak_key(cx: &mut Cx, t: &U) -> Option<SecretKey> {
    if t.is_zero() {
        let mut k = mk_sk(cx, &ONE)?;
        k.clear();
        Some(k)
    } else {
        mk_sk(cx, t)
    }
}
pub fn tweak_pk(cx: &mut Cx, k: &mut PublicKey, q: &Pt, op: &DOp, own_ctx: bool, props: &[&str]) -> Option<Pt> {
    let (t, want, bad) = match op {
        DOp::Add(t) => {
            let w = curve::lincomb(t, &ONE, q);
            (t, w, w == Pt::Inf)
        }
        DOp::Mul(t) => (t, curve::mul(t, q), t.is_zero()),
    };
    let tk = tweak_key(cx, t)?;
    let mut kk = *k;
    let (res, after) = cx.lib("tweak_pk", props, || {
        let c = if own_ctx { boxed() } else { None };
        let r = match (op, c) {
            (DOp::Add(_), None) => kk.tweak_add_assign(&tk),
            (DOp::Add(_), Some((c, _))) => kk.tweak_add_assign_with_context(&tk, c),
            (DOp::Mul(_), None) => kk.tweak_mul_assign(&tk),
            (DOp::Mul(_), Some((c, _))) => kk.tweak_mul_assign_with_context(&tk, c),
        };
        (r, kk)
    })?;
    let got = cx.lib("pk_bytes", props, || pt_pk(&after))?;
    cx.log(format!("tweak_pk {:?} -> {:?} {}", op, res, ptx(&got)));
    if bad {
        cx.count("probe:tweak_pk_refused");
    }
    cx.seen(&[7, matches!(op, DOp::Add(_)) as u64, gen::class(t) as u64, bad as u64, own_ctx as u64]);
    let ok = if bad { res.is_err() && got == *q } else { res.is_ok() && got == want };
    cx.check(ok, props, "tweak-public-mismatch", || {
        format!("key {} {:?}: {:?}, key now {}, expected {}", ptx(q), op, res, ptx(&got),
            if bad { "an error and no change".into() } else { ptx(&want) })
    });
    *k = after;
    Some(got)
}
pub fn inv_sk(cx: &mut Cx, sk: &SecretKey, d: &U, props: &[&str]) -> Option<SecretKey> {
    let k = cx.lib("inv", props, || sk.inv())?;
    let got = u_sk(&k);
    let want = ninv(d);
    cx.log(format!("inv -> {}", got.hex()));
    cx.seen(&[8, gen::class(d) as u64]);
    cx.check(got == want, props, "inverse-mismatch", || {
        format!("inverse of {} is {} but should be {}", d.hex(), got.hex(), want.hex())
    });
    Some(k)
}
pub fn combine(cx: &mut Cx, ks: &[PublicKey], qs: &[Pt], props: &[&str]) -> Option<Option<PublicKey>> {
    let res = cx.lib("combine", props, || PublicKey::combine(ks))?;
    let mut want = Pt::Inf;
    for q in qs {
        want = curve::padd(&want, q);
    }
    let got = match &res {
        Ok(k) => {
            let k = *k;
            cx.lib("pk_bytes", props, || pt_pk(&k))?
        }
        Err(_) => Pt::Inf,
    };
    cx.log(format!("combine {} keys -> {} {:?}", ks.len(), ptx(&got), res.as_ref().err()));
    if want == Pt::Inf {
        cx.count("probe:combine_infinity");
    }
    cx.seen(&[9, ks.len() as u64, (want == Pt::Inf) as u64]);
    if ks.len() > 32 {
        cx.count("probe:combine_many");
    }
    let ok = if want == Pt::Inf { res.is_err() } else { res.is_ok() && got == want };
    cx.check(ok, props, "combine-mismatch", || {
        format!("combining {:?} gives {} ({:?}) but should give {}",
            qs.iter().map(ptx).collect::<Vec<_>>(), ptx(&got), res.as_ref().err(), ptx(&want))
    });
    Some(res.ok())
}

// ---- decoders ----
pub const NDEC: usize = 11;
pub const DEC_NAMES: [&str; NDEC] = [
    "sk", "pk65", "pk33", "pk_slice", "sig_std", "sig_over", "der", "der_lax", "msg", "recid", "recid_rpc",
];
#[derive(Clone, Copy, Debug)]
pub enum Obj {
    Sk(SecretKey),
    Pk(PublicKey),
    Sig(Signature),
    Msg(Message),
    Id(RecoveryId),
}
fn fmt_of(f: u8) -> Option<PublicKeyFormat> {
    match f {
        1 => Some(PublicKeyFormat::Compressed),
        2 => Some(PublicKeyFormat::Full),
        3 => Some(PublicKeyFormat::Raw),
        _ => None,
    }
}
/// feed bytes to a decoder; compare with the model; return what it produced
pub fn decode(cx: &mut Cx, which: usize, b: &[u8], fmt: u8, props: &[&str]) -> Option<Obj> {
    let name = DEC_NAMES[which];
    // the fixed-size form of a decoder, where it has one and the length fits
    let array = b.iter().fold(0u8, |a, x| a ^ x) & 1 == 1;
    let a32: Option<[u8; 32]> = if array { <[u8; 32]>::try_from(b).ok() } else { None };
    let a64: Option<[u8; 64]> = if array { <[u8; 64]>::try_from(b).ok() } else { None };
    let res: Result<Obj, Error> = cx.lib("decode", props, || match which {
        0 if a32.is_some() => SecretKey::parse(&a32.unwrap()).map(Obj::Sk),
        4 if a64.is_some() => Signature::parse_standard(&a64.unwrap()).map(Obj::Sig),
        5 if a64.is_some() => Ok(Obj::Sig(Signature::parse_overflowing(&a64.unwrap()))),
        8 if a32.is_some() => Ok(Obj::Msg(Message::parse(&a32.unwrap()))),
        0 => SecretKey::parse_slice(b).map(Obj::Sk),
        1 => {
            if b.len() == 65 {
                let mut a = [0u8; 65];
                a.copy_from_slice(b);
                PublicKey::parse(&a).map(Obj::Pk)
            } else {
                PublicKey::parse_slice(b, Some(PublicKeyFormat::Full)).map(Obj::Pk)
            }
        }
        2 => {
            if b.len() == 33 {
                let mut a = [0u8; 33];
                a.copy_from_slice(b);
                PublicKey::parse_compressed(&a).map(Obj::Pk)
            } else {
                PublicKey::parse_slice(b, Some(PublicKeyFormat::Compressed)).map(Obj::Pk)
            }
        }
        3 => PublicKey::parse_slice(b, fmt_of(fmt)).map(Obj::Pk),
        4 => Signature::parse_standard_slice(b).map(Obj::Sig),
        5 => Signature::parse_overflowing_slice(b).map(Obj::Sig),
        6 => Signature::parse_der(b).map(Obj::Sig),
        7 => Signature::parse_der_lax(b).map(Obj::Sig),
        8 => Message::parse_slice(b).map(Obj::Msg),
        9 => RecoveryId::parse(*b.first().unwrap_or(&0)).map(Obj::Id),
        _ => RecoveryId::parse_rpc(*b.first().unwrap_or(&0)).map(Obj::Id),
    })?;
    let show = |o: &Obj| -> String {
        match o {
            Obj::Sk(k) => u_sk(k).hex(),
            Obj::Pk(k) => hex(&k.serialize()),
            Obj::Sig(s) => hex(&s.serialize()),
            Obj::Msg(m) => hex(&m.serialize()),
            Obj::Id(i) => format!("{}", i.serialize()),
        }
    };
    let shown = cx.lib("show", props, || match &res {
        Ok(o) => show(o),
        Err(e) => format!("{:?}", e),
    })?;
    cx.log(format!("decode {} fmt{} {} -> {}", name, fmt, hex(b), shown));
    // what the model says
    let pk_ok = |want: Result<Pt, codec::E>| -> Result<bool, String> {
        match (&res, want) {
            (Ok(Obj::Pk(k)), Ok(p)) => {
                if pt_pk(k) == p { Ok(true) } else { Err(format!("expected {}", ptx(&p))) }
            }
            (Err(e), Err(codec::E::Len)) => {
                if *e == Error::InvalidInputLength { Ok(false) } else { Err("expected a length error".into()) }
            }
            (Err(e), Err(codec::E::Bad)) => {
                if *e != Error::InvalidInputLength { Ok(false) } else { Err("expected an invalid-key error".into()) }
            }
            (_, Ok(p)) => Err(format!("expected {}", ptx(&p))),
            (_, Err(_)) => Err("expected an error".into()),
        }
    };
    let verdict: Result<bool, String> = match which {
        0 => match (&res, codec::sec(b)) {
            (Ok(Obj::Sk(k)), Ok(v)) if u_sk(k) == v => Ok(true),
            (Err(Error::InvalidInputLength), Err(codec::E::Len)) => Ok(false),
            (Err(e), Err(codec::E::Bad)) if *e != Error::InvalidInputLength => Ok(false),
            (_, w) => Err(format!("expected {:?}", w.map(|v| v.hex()))),
        },
        1 => pk_ok(codec::pk65(b)),
        2 => pk_ok(codec::pk33(b)),
        3 => pk_ok(codec::pk_slice(b, fmt)),
        4 | 5 => {
            let w = if which == 4 { codec::sig_std(b) } else { codec::sig_over(b) };
            match (&res, w) {
                (Ok(Obj::Sig(s)), Ok(v)) if sig_of(s) == v => Ok(true),
                (Err(Error::InvalidInputLength), Err(codec::E::Len)) => Ok(false),
                (Err(e), Err(codec::E::Bad)) if *e != Error::InvalidInputLength => Ok(false),
                (_, w) => Err(format!("expected {:?}", w)),
            }
        }
        6 | 7 => {
            let w = if which == 6 { codec::der(b) } else { codec::der_lax(b) };
            let got = match &res {
                Ok(Obj::Sig(s)) => Some(sig_of(s)),
                _ => None,
            };
            let ok = match (&w, &got) {
                (codec::Der::Exact(s), Some(g)) => s == g,
                (codec::Der::Exact(_), None) => false,
                (codec::Der::Refuse, g) => g.is_none(),
                (codec::Der::Zeroed, Some(g)) => g.r.is_zero() || g.s.is_zero(),
                (codec::Der::ZeroVal(s), g) => Some(*s) == *g || g.is_none() && s.s.is_zero(),
                (codec::Der::Zeroed, None) => true,
            };
            if ok { Ok(got.is_some()) } else { Err(format!("expected {:?}", w)) }
        }
        8 => match (&res, codec::msg(b)) {
            (Ok(Obj::Msg(m)), Ok(v)) if u_sc(&m.0) == v => Ok(true),
            (Err(Error::InvalidInputLength), Err(_)) => Ok(false),
            (_, w) => Err(format!("expected {:?}", w.map(|v| v.hex()))),
        },
        _ => {
            let v = *b.first().unwrap_or(&0);
            let w = if which == 9 { if v < 4 { Some(v) } else { None } } else if (27..31).contains(&v) { Some(v - 27) } else { None };
            match (&res, w) {
                (Ok(Obj::Id(i)), Some(x)) if i.serialize() == x && Into::<u8>::into(*i) == x && Into::<i32>::into(*i) == x as i32 => Ok(true),
                (Err(_), None) => Ok(false),
                (_, w) => Err(format!("expected {:?}", w)),
            }
        }
    };
    cx.seen(&[10, which as u64, (verdict == Ok(true)) as u64, b.len().min(80) as u64, b.first().copied().unwrap_or(0) as u64 & 0x83, fmt as u64]);
    cx.count(if verdict == Ok(true) { "probe:decode_ok" } else { "probe:decode_err" });
    let dn = format!("decoded:{}", name);
    cx.count(&dn);
    cx.check(verdict.is_ok(), props, "decode-mismatch", || {
        format!("{} (format {}) of {} gives {}; {}", name, fmt, hex(b), shown, verdict.clone().unwrap_err())
    });
    // an ill-formed public key must never come out, whatever went in
    if let (Ok(Obj::Pk(k)), true) = (&res, verdict.is_ok()) {
        let a: Affine = (*k).into();
        let bad = a.is_infinity();
        cx.check(!bad, props, "decode-infinity", || format!("{} of {} is infinity", name, hex(b)));
    }
    res.ok()
}

// ---- hostile inputs ----

/// a signature case: message bytes, signature, public key point
pub fn verify_case(r: &mut Rng) -> ([u8; 32], ecdsa::Sig, Pt, &'static str) {
    let bytes = |r: &mut Rng, m: &U| -> [u8; 32] {
        // a message that is equal modulo n may arrive unreduced
        let (v, c) = add(m, &N);
        if !c && r.p(1, 2) { v.to_be() } else { m.to_be() }
    };
    match r.below(12) {
        11 => {
            // all three operands of the two scalar products chosen
            let (rr, t, _) = chosen_r(r);
            let w = gen::key(r);
            let s = ninv(&w);
            let m = gen::scalar0(r);
            let q = curve::mul(&ninv(&rr), &curve::padd(&curve::mul(&s, &t), &curve::pneg(&curve::mulg(&m))));
            if q == Pt::Inf {
                return forge(r, &t, &m, &w);
            }
            let mut sg = ecdsa::Sig { r: rr, s };
            let mut mm = m;
            match r.below(8) {
                0 => mm = nadd(&m, &ONE),
                1 => sg.s = nneg(&s),
                _ => {}
            }
            (bytes(r, &mm), sg, q, "chosen-operands")
        }
        0 | 1 => {
            // honest signature with a special nonce, then perhaps altered
            let d = gen::key(r);
            let q = curve::mulg(&d);
            let m = nred(&gen::any(r));
            let k = gen::key(r);
            let (mut s, _) = match ecdsa::sign_with(&d, &m, &k) {
                Some(x) => x,
                None => (ecdsa::Sig { r: ONE, s: ONE }, 0),
            };
            let mut mm = m;
            let mut qq = q;
            match r.below(9) {
                0 => s.s = nneg(&s.s),
                1 => s.r = nadd(&s.r, &ONE),
                2 => s.s = nadd(&s.s, &ONE),
                3 => mm = nred(&gen::any(r)),
                4 => qq = curve::pneg(&q),
                5 => qq = gen::related(r, &q),
                6 => std::mem::swap(&mut s.r, &mut s.s),
                _ => {}
            }
            (bytes(r, &mm), s, qq, "honest")
        }
        2 | 3 => {
            // existential forgery: choose the two multipliers
            let q = gen::point(r);
            let u1 = if r.p(1, 3) { gen::small_key(r) } else { gen::scalar0(r) };
            let u2 = if r.p(1, 3) { gen::small_key(r) } else { gen::key(r) };
            forge(r, &q, &u1, &u2)
        }
        4 | 5 => {
            // choose the resulting point, derive the key
            let t = gen::point(r);
            let u1 = gen::scalar0(r);
            let u2 = gen::key(r);
            let q = curve::mul(&ninv(&u2), &curve::padd(&t, &curve::pneg(&curve::mulg(&u1))));
            if q == Pt::Inf {
                return forge(r, &t, &u1, &u2);
            }
            let (m, mut s, q, c) = forge(r, &q, &u1, &u2);
            let _ = &mut s;
            (m, s, q, if c == "forged" { "chosen-R" } else { c })
        }
        6 => {
            // x coordinate at or above n, and the wrap r + n >= p
            let x0 = match r.below(3) {
                0 => N.wadd(&U::from_u64(r.log(1 << 30) as u64)),
                1 => P.wsub(&U::from_u64(1 + r.log(1 << 30) as u64)),
                _ => U::from_u64(r.log(1 << 30) as u64),
            };
            let mut x = x0;
            let t = loop {
                if x >= P {
                    x = N;
                }
                if let Some(p) = curve::lift_x(&x, r.p(1, 2)) {
                    break p;
                }
                x = x.wadd(&ONE);
            };
            let u1 = gen::scalar0(r);
            let u2 = gen::key(r);
            let q = curve::mul(&ninv(&u2), &curve::padd(&t, &curve::pneg(&curve::mulg(&u1))));
            if q == Pt::Inf {
                return forge(r, &t, &u1, &u2);
            }
            let mut rr = nred(&x);
            match r.below(4) {
                0 => {
                    // r + n = x + p: must not be taken for x
                    let d = P.wsub(&N);
                    let (v, c) = add(&x, &d);
                    if !c && v < N {
                        rr = v;
                    }
                }
                1 => rr = nadd(&rr, &ONE),
                _ => {}
            }
            if rr.is_zero() {
                rr = ONE;
            }
            // the multipliers stay the same for the altered r
            let s = nmul(&rr, &ninv(&u2));
            let m = nmul(&u1, &s);
            (m.to_be(), ecdsa::Sig { r: rr, s }, q, "x-range")
        }
        7 => {
            // the sum is infinity, or a doubling
            let d = gen::key(r);
            let q = curve::mulg(&d);
            let u2 = gen::key(r);
            let mut u1 = nmul(&u2, &d);
            if r.p(2, 3) {
                u1 = nneg(&u1);
            }
            forge(r, &q, &u1, &u2)
        }
        8 => {
            // small multiples of the generator: table entries collide
            let q = curve::mulg(&gen::small_key(r));
            let u1 = gen::small_key(r);
            let u2 = gen::small_key(r);
            forge(r, &q, &u1, &u2)
        }
        9 => {
            let q = gen::point(r);
            let z = r.below(4);
            let a = if z & 1 == 0 { ZERO } else { gen::scalar0(r) };
            let b = if z & 2 == 0 { ZERO } else { gen::scalar0(r) };
            (gen::msg(r), ecdsa::Sig { r: a, s: b }, q, "zero")
        }
        _ => {
            let q = gen::point(r);
            (gen::msg(r), ecdsa::Sig { r: gen::scalar0(r), s: gen::scalar0(r) }, q, "random")
        }
    }
}
/// a special r with a point above it
fn chosen_r(r: &mut Rng) -> (U, Pt, u8) {
    loop {
        let c = gen::key(r);
        let hi = c < P.wsub(&N) && r.p(1, 2);
        let x = if hi { c.wadd(&N) } else { c };
        let odd = r.p(1, 2);
        if let Some(t) = curve::lift_x(&x, odd) {
            return (c, t, odd as u8 | (hi as u8) << 1);
        }
    }
}
fn forge(r: &mut Rng, q: &Pt, u1: &U, u2: &U) -> ([u8; 32], ecdsa::Sig, Pt, &'static str) {
    let rp = curve::lincomb(u1, u2, q);
    let (rr, c) = match rp {
        Pt::Inf => (gen::key(r), "infinity"),
        Pt::A(x, _) => (nred(&x), "forged"),
    };
    let rr = if rr.is_zero() { ONE } else { rr };
    let s = nmul(&rr, &ninv(u2));
    let m = nmul(u1, &s);
    let (v, ov) = add(&m, &N);
    let mb = if !ov && r.p(1, 2) { v.to_be() } else { m.to_be() };
    (mb, ecdsa::Sig { r: rr, s }, *q, c)
}

/// a recovery case
pub fn recover_case(r: &mut Rng) -> ([u8; 32], ecdsa::Sig, u8, &'static str) {
    match r.below(10) {
        9 => {
            // all operands of the scalar products chosen
            let (rr, _, id) = chosen_r(r);
            let m = gen::scalar0(r);
            (m.to_be(), ecdsa::Sig { r: rr, s: gen::key(r) }, id, "chosen-operands")
        }
        0 | 1 => {
            // chosen ephemeral point
            let t = gen::point(r);
            let (x, y) = match t {
                Pt::A(x, y) => (x, y),
                _ => (GXU, ONE),
            };
            let mut id = y.is_odd() as u8;
            if x >= N {
                id |= 2;
            }
            let rr = nred(&x);
            let s = if r.p(1, 3) { gen::small_key(r) } else { gen::key(r) };
            let m = gen::msg(r);
            if r.p(1, 6) {
                id = r.below(4) as u8;
            }
            (m, ecdsa::Sig { r: rr, s }, id, "chosen-R")
        }
        2 => {
            // r + n around p
            let lim = P.wsub(&N);
            let rr = match r.below(5) {
                0 => lim,
                1 => lim.wsub(&U::from_u64(1 + r.below(40) as u64)),
                2 => lim.wadd(&U::from_u64(r.below(40) as u64)),
                3 => U::from_u64(1 + r.log(1 << 24) as u64),
                _ => {
                    let mut v = lim;
                    v.0[0] = r.u64();
                    v.0[1] = r.u64() % (lim.0[1] + 1);
                    v.0[2] = r.below(2) as u64;
                    v
                }
            };
            (gen::msg(r), ecdsa::Sig { r: rr, s: gen::key(r) }, 2 + r.below(2) as u8, "r-plus-n")
        }
        3 => {
            // the result is infinity: s R = m G
            let k = gen::key(r);
            let rp = curve::mulg(&k);
            if let Pt::A(x, y) = rp {
                let s = gen::key(r);
                let mut m = nmul(&s, &k);
                if r.p(1, 6) {
                    m = nneg(&m);
                }
                return (m.to_be(), ecdsa::Sig { r: nred(&x), s }, y.is_odd() as u8 | ((x >= N) as u8) << 1, "infinity");
            }
            (gen::msg(r), ecdsa::Sig { r: ONE, s: ONE }, 0, "random")
        }
        4 => {
            // small multiples
            let k = gen::small_key(r);
            let rp = curve::mulg(&k);
            if let Pt::A(x, y) = rp {
                // make the two multipliers small
                let a = gen::small_key(r);
                let b = gen::small_key(r);
                let rr = nred(&x);
                let m = nneg(&nmul(&a, &rr));
                let s = nmul(&b, &rr);
                return (m.to_be(), ecdsa::Sig { r: rr, s }, y.is_odd() as u8 ^ r.below(2) as u8, "small");
            }
            (gen::msg(r), ecdsa::Sig { r: ONE, s: ONE }, 0, "random")
        }
        5 => {
            let z = r.below(4);
            let a = if z & 1 == 0 { ZERO } else { gen::scalar0(r) };
            let b = if z & 2 == 0 { ZERO } else { gen::scalar0(r) };
            (gen::msg(r), ecdsa::Sig { r: a, s: b }, r.below(4) as u8, "zero")
        }
        6 | 7 => {
            let d = gen::key(r);
            let m = nred(&gen::any(r));
            let k = gen::key(r);
            match ecdsa::sign_with(&d, &m, &k) {
                Some((mut s, mut id)) => {
                    let mut mb = m.to_be();
                    match r.below(6) {
                        0 => id ^= 1,
                        1 => id ^= 2,
                        2 => {
                            s.s = nneg(&s.s);
                            id ^= 1
                        }
                        3 => mb = gen::msg(r),
                        _ => {}
                    }
                    (mb, s, id, "honest")
                }
                None => (gen::msg(r), ecdsa::Sig { r: ONE, s: ONE }, 0, "random"),
            }
        }
        _ => (gen::msg(r), ecdsa::Sig { r: gen::scalar0(r), s: gen::scalar0(r) }, r.below(4) as u8, "random"),
    }
}
const GXU: U = curve::GX;

/// bytes for a decoder: valid, or damaged, or crafted
pub fn decode_case(r: &mut Rng) -> (usize, Vec<u8>, u8) {
    let which = r.weighted(&[6, 8, 8, 10, 5, 3, 16, 12, 2, 1, 1]);
    let mut fmt = r.below(4) as u8;
    let mut b: Vec<u8> = match which {
        0 => gen::any(r).to_be().to_vec(),
        1 | 2 | 3 => {
            let p = gen::point(r);
            let kind = match which {
                1 => 0,
                2 => 1,
                _ => r.below(3),
            };
            if which == 3 && r.p(3, 4) {
                fmt = *r.pick(&[0u8, match kind { 0 => 2, 1 => 1, _ => 3 }]);
            }
            let mut v = match kind {
                1 => curve::compressed(&p).to_vec(),
                k => {
                    let mut f = curve::full(&p).to_vec();
                    match r.below(8) {
                        0 => f[0] = 6 + (f[64] & 1),
                        1 => f[0] = 7 - (f[64] & 1),
                        2 => {
                            // y of another point, or negated
                            let q = if r.p(1, 2) { gen::related(r, &p) } else { gen::point(r) };
                            f[33..].copy_from_slice(&curve::full(&q)[33..]);
                        }
                        3 => {
                            // a coordinate plus p, where it fits
                            let o = if r.p(1, 2) { 1 } else { 33 };
                            let v = U::from_be_slice(&f[o..o + 32]);
                            let (w, c) = add(&v, &P);
                            if !c {
                                f[o..o + 32].copy_from_slice(&w.to_be());
                            }
                        }
                        4 => {
                            let o = if r.p(1, 2) { 1 } else { 33 };
                            f[o..o + 32].copy_from_slice(&gen::any(r).to_be());
                        }
                        5 => {
                            // y^2 = x^3 + b for another b: an invalid curve
                            if let Pt::A(x, _) = p {
                                let bb = U::from_u64(r.below(16) as u64);
                                let rhs = fadd(&fmul(&fsqr(&x), &x), &bb);
                                if let Some(y) = fsqrt(&rhs) {
                                    f[33..].copy_from_slice(&y.to_be());
                                }
                            }
                        }
                        _ => {}
                    }
                    if k == 2 { f[1..].to_vec() } else { f }
                }
            };
            if kind == 1 && r.p(1, 3) {
                // any x, on the curve or not; or x + p
                let x = if r.p(1, 2) { gen::any(r) } else {
                    let t = gen::point(r);
                    match t { Pt::A(x, _) => x.wadd(&P), _ => ONE }
                };
                v[1..].copy_from_slice(&x.to_be());
            }
            if r.p(1, 8) && !v.is_empty() {
                v[0] = match r.below(4) {
                    0 => v[0] | 1 << r.below(8),
                    1 => r.u64() as u8,
                    _ => r.below(9) as u8,
                };
            }
            v
        }
        4 | 5 => {
            let mut v = gen::any(r).to_be().to_vec();
            v.extend_from_slice(&gen::any(r).to_be());
            v
        }
        6 | 7 => der_case(r, which == 7),
        8 => gen::any(r).to_be().to_vec(),
        9 => vec![if r.p(3, 4) { r.below(8) as u8 } else { r.u64() as u8 }],
        _ => vec![if r.p(3, 4) { 24 + r.below(10) as u8 } else { r.u64() as u8 }],
    };
    if which < 9 && r.p(1, 3) {
        let o = r.bytes(64);
        for _ in 0..1 + r.below(2) {
            gen::damage(r, &mut b, &o);
        }
    }
    (which, b, fmt)
}
fn der_len(r: &mut Rng, n: usize, lax: bool) -> Vec<u8> {
    if n >= 128 && r.p(7, 8) {
        // the shortest long form, or one with zeros in front
        let b: Vec<u8> = (n as u64).to_be_bytes().into_iter().skip_while(|x| *x == 0).collect();
        let k = if lax && r.p(1, 2) { r.log(6) } else { 0 };
        let mut v = vec![0x80 | (b.len() + k) as u8];
        v.extend(vec![0u8; k]);
        v.extend(b);
        return v;
    }
    match r.below(if lax { 5 } else { 14 }) {
        0 => vec![0x81, n as u8],
        1 => vec![0x82, 0, n as u8],
        2 => {
            let k = r.below(10);
            let mut v = vec![0x80 | (k + 1) as u8];
            v.extend(vec![0u8; k]);
            v.push(n as u8);
            v
        }
        3 if r.p(1, 4) => vec![*r.pick(&[0x80u8, 0xff, 0x84, 0x88, 0x89, (n as u8).wrapping_add(1), (n as u8).wrapping_sub(1)])],
        _ => {
            if n < 128 {
                vec![n as u8]
            } else if n < 256 {
                vec![0x81, n as u8]
            } else {
                vec![0x82, (n >> 8) as u8, n as u8]
            }
        }
    }
}
fn der_int(r: &mut Rng, lax: bool) -> Vec<u8> {
    let v = if r.p(2, 3) { gen::scalar0(r) } else { gen::any(r) };
    let mut c = codec::der_int(&v);
    match r.below(12) {
        0 => {
            let n = match r.below(if lax { 40 } else { 400 }) {
                0 => 65500 + r.below(100),
                1..=9 => r.below(600),
                _ => 1 + r.log(40),
            };
            c.splice(0..0, vec![0u8; n]);
        }
        1 => c = vec![],
        2 => {
            // negative
            if c[0] == 0 && c.len() > 1 {
                c.remove(0);
            } else {
                c[0] |= 0x80;
            }
        }
        3 => {
            // too long
            let n = 1 + r.log(120);
            for _ in 0..n {
                c.insert(0, 1 + r.below(0x7f) as u8);
            }
        }
        4 => c = vec![0],
        5 => {
            c.insert(0, 0xff);
        }
        _ => {}
    }
    let mut o = vec![if r.p(1, 20) { r.u64() as u8 } else { 2 }];
    o.extend(der_len(r, c.len(), lax));
    o.extend(c);
    o
}
fn der_case(r: &mut Rng, lax: bool) -> Vec<u8> {
    let mut body = der_int(r, lax);
    if !r.p(1, 30) {
        body.extend(der_int(r, lax));
    }
    if r.p(1, 10) {
        let n = r.log(20);
        body.extend(r.bytes(n));
    }
    let mut o = vec![if r.p(1, 20) { r.u64() as u8 } else { 0x30 }];
    let n = if r.p(1, 12) { (body.len() + r.below(5)).saturating_sub(2) } else { body.len() };
    o.extend(der_len(r, n, lax));
    o.extend(body);
    if r.p(1, 10) {
        let n = 1 + r.log(20);
        o.extend(r.bytes(n));
    }
    o
}

/// candidates the simulated fault hands to the signer before the real ones
pub fn bad_candidates(r: &mut Rng, d: &U, m: &U) -> Vec<[u8; 32]> {
    let mut v = vec![];
    // now and then far more of them than any counter of retries may expect
    let long = r.p(1, 14);
    let n = if long { 7 + r.log(600) } else { 1 + r.log(6) };
    for _ in 0..n {
        v.push(match if long { r.below(4) } else { r.below(7) } {
            0 => [0u8; 32],
            1 => N.to_be(),
            2 => N.wadd(&U::from_u64(r.log(1 << 40) as u64)).to_be(),
            3 => [0xff; 32],
            4 => {
                // above n by a limb pattern
                loop {
                    let x = gen::any(r);
                    if x >= N {
                        break x.to_be();
                    }
                    if r.p(1, 8) {
                        break ZERO.wsub(&ONE).to_be();
                    }
                }
            }
            5 => {
                // boundary but usable: ends the loop here
                gen::key(r).to_be()
            }
            _ => {
                let _ = (d, m);
                [0u8; 32]
            }
        });
    }
    v
}
/// a key, message and nonce for which s = 0
pub fn zero_s_case(r: &mut Rng) -> (U, U, [u8; 32]) {
    loop {
        let d = gen::key(r);
        let k = gen::key(r);
        if let Pt::A(x, _) = curve::mulg(&k) {
            let rr = nred(&x);
            if !rr.is_zero() {
                return (d, nneg(&nmul(&rr, &d)), k.to_be());
            }
        }
    }
}
/// a key, message and nonce for which s (before low-S) is a chosen boundary value
pub fn chosen_s_case(r: &mut Rng) -> (U, U, [u8; 32]) {
    loop {
        let d = gen::key(r);
        let k = gen::key(r);
        let s = gen::key(r);
        if let Pt::A(x, _) = curve::mulg(&k) {
            let rr = nred(&x);
            if !rr.is_zero() {
                return (d, nsub(&nmul(&s, &k), &nmul(&rr, &d)), k.to_be());
            }
        }
    }
}
