//! World D: key generation from an entropy source the simulator controls:
//! stuck, zero, out-of-range, boundary and biased output, and failure (a panic)
//! at any call, with the buffer partly written.
use crate::ctx::Cx;
use crate::gen;
use crate::model::{arith::*, codec, curve};
use crate::ops;
use crate::plan::Step;
use crate::rng::{mix2, Rng};
use libsecp256k1::{Message, PublicKey, SecretKey};

pub fn plan(_prop: &str, seed: u64) -> Vec<Step> {
    let mut r = Rng::new(mix2(seed, 1));
    let n = 6 + r.below(30);
    let mut t = 0;
    (0..n)
        .map(|_| {
            t += r.log(100_000) as u64;
            Step { kind: r.weighted(&[20, 8, 6, 4, 1, 4]) as u8, at: t, seed: r.u64(), fault: true }
        })
        .collect()
}

/// The simulated source: a fixed byte stream, then a fault.
pub struct Source {
    pub stream: Vec<u8>,
    pub pos: usize,
    pub calls: u64,
    /// how many bytes each of the first calls asked for
    pub sizes: Vec<usize>,
    /// panic once this many bytes were delivered
    pub fail_at: Option<usize>,
    /// call back into the library from inside the source
    pub reenter: bool,
    pub nested: Option<bool>,
    /// reported a failure as an error instead (where the caller asks that way)
    pub erred: Option<usize>,
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct EntropyFailure(pub u64);
#[derive(Debug)]
pub struct Overdraw;
impl Source {
    fn take(&mut self, out: &mut [u8]) {
        self.calls += 1;
        if self.sizes.len() < 20 {
            self.sizes.push(out.len());
        }
        crate::calls::callback();
        if self.reenter && self.nested.is_none() {
            self.nested = Some(false);
            let mut inner = Source::new(ONE.to_be().to_vec());
            let k = SecretKey::random(&mut inner);
            let (s, i) = libsecp256k1::sign(&Message::parse(&[7; 32]), &k);
            self.nested = Some(
                k.serialize() == ONE.to_be()
                    && libsecp256k1::recover(&Message::parse(&[7; 32]), &s, &i).ok() == Some(PublicKey::from_secret_key(&k)),
            );
        }
        for o in out.iter_mut() {
            if Some(self.pos) == self.fail_at {
                self.fail_at = None;
                std::panic::panic_any(EntropyFailure(self.pos as u64));
            }
            if self.pos >= self.stream.len() {
                std::panic::panic_any(Overdraw);
            }
            *o = self.stream[self.pos];
            self.pos += 1;
        }
    }
    /// a key that came out although the source had reported an error: all of it
    /// must have been drawn afterwards
    pub fn drawn_after_error(&self, k: &[u8; 32]) -> bool {
        match self.erred {
            None => true,
            Some(e) => self.pos >= e + 32 && self.stream[self.pos - 32..self.pos] == k[..],
        }
    }
    pub fn new(stream: Vec<u8>) -> Source {
        Source { stream, pos: 0, calls: 0, sizes: vec![], fail_at: None, reenter: false, nested: None, erred: None }
    }
}
impl rand::RngCore for Source {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.take(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.take(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.take(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        if let Some(f) = self.fail_at {
            if f >= self.pos && f < self.pos + d.len() {
                // an error after part of the buffer was written
                self.fail_at = None;
                let n = f - self.pos;
                self.take(&mut d[..n]);
                self.erred = Some(self.pos);
                return Err(std::num::NonZeroU32::new(rand::Error::CUSTOM_START + 7).unwrap().into());
            }
        }
        self.take(d);
        Ok(())
    }
}

pub fn invalid_draw(r: &mut Rng) -> [u8; 32] {
    match r.below(8) {
        0 | 1 => [0; 32],
        2 => N.to_be(),
        3 => N.wadd(&U::from_u64(r.log(1 << 40) as u64)).to_be(),
        4 => [0xff; 32],
        5 => {
            // n with one limb raised
            let mut v = N;
            v.0[r.below(2)] |= 1 << r.below(64);
            if v < N { N.to_be() } else { v.to_be() }
        }
        _ => loop {
            let v = gen::any(r);
            if v >= N || v.is_zero() {
                break v.to_be();
            }
            if r.p(1, 6) {
                break P.to_be();
            }
        },
    }
}
fn valid_draw(r: &mut Rng) -> [u8; 32] {
    match r.below(5) {
        0 => ONE.to_be(),
        1 => N.wsub(&ONE).to_be(),
        2 => N.wsub(&U::from_u64(1 + r.log(1 << 40) as u64)).to_be(),
        _ => gen::key(r).to_be(),
    }
}
/// the model: the first valid 32-byte draw and how many draws that takes
fn expected(stream: &[u8], from: usize) -> Option<(U, usize)> {
    let mut p = from;
    while p + 32 <= stream.len() {
        if let Ok(v) = codec::sec(&stream[p..p + 32]) {
            return Some((v, p + 32));
        }
        p += 32;
    }
    None
}

pub fn run(cx: &mut Cx, seed: u64, steps: &[Step]) {
    let _ = seed;
    let mut order = crate::ctx::FNV0;
    for (i, s) in steps.iter().enumerate() {
        if cx.viol.is_some() {
            return;
        }
        cx.step = i as u64;
        cx.now = s.at;
        step(cx, s);
        order = cx.fault_order(order, s.kind);
    }
    cx.st.inter.insert(order);
    cx.st.sim_ns += cx.now * 1000;
}
fn step(cx: &mut Cx, st: &Step) {
    let p = ["C08"];
    let r = &mut Rng::new(st.seed);
    // the stream: groups of bad draws, each ended by a good one
    let groups = 1 + r.below(4);
    let long = st.kind == 4;
    let mut stream = vec![];
    let mut kinds = vec![];
    for g in 0..groups {
        let bad = if !st.fault {
            0
        } else if long && g == 0 {
            2000 + r.below(8000)
        } else {
            r.log(40)
        };
        let stuck = r.p(1, 3);
        let mut d = invalid_draw(r);
        for _ in 0..bad {
            if !stuck {
                d = invalid_draw(r);
            }
            let k = if d == [0; 32] { "entropy_zero" } else if d == N.to_be() { "entropy_equals_n" } else { "entropy_out_of_range" };
            kinds.push(if stuck && bad > 1 { "entropy_stuck" } else { k });
            stream.extend_from_slice(&d);
        }
        // a biased source: low entropy, but valid
        let v = if r.p(1, 4) { U::from_u64(1 + r.below(3) as u64).to_be() } else { valid_draw(r) };
        stream.extend_from_slice(&v);
    }
    // never enough for one draw more than the last good one
    stream.extend_from_slice(&r.bytes(32));
    let mut src = Source::new(stream.clone());
    src.reenter = st.kind == 5;
    if st.kind == 1 && st.fault {
        src.fail_at = Some(r.below(stream.len() - 31));
    }
    for k in &kinds {
        cx.fault(k);
    }
    let fail_at = src.fail_at;
    cx.log(format!("source of {} bytes, fails at {:?}", stream.len(), fail_at));
    cx.seen(&[20, kinds.len() as u64, fail_at.map(|x| x % 64).unwrap_or(99) as u64, groups as u64]);
    let mut pos = 0;
    for _ in 0..groups {
        let (want, wpos) = match expected(&stream, pos) {
            Some(x) => x,
            None => break,
        };
        let fails = fail_at.map(|f| f >= pos && f < wpos).unwrap_or(false);
        let before = src.pos;
        let mut got: Option<SecretKey> = None;
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let k = SecretKey::random(&mut src);
            got = Some(k);
        }));
        cx.count("random");
        match res {
            Ok(()) => {
                let k = got.unwrap();
                let v = ops::u_sk(&k);
                cx.log(format!("random -> {} after {} bytes", v.hex(), src.pos - before));
                if src.erred.is_some() {
                    cx.fault("entropy_source_error");
                    cx.check(src.drawn_after_error(&k.serialize()) && codec::sec(&k.serialize()).is_ok(), &p, "key-despite-failure", || {
                        format!("the source reported an error at byte {:?} but key {} came out", src.erred, v.hex())
                    });
                    return;
                }
                cx.check(!fails, &p, "failure-swallowed", || format!("the source failed at byte {:?} but a key came out", fail_at));
                cx.check(v == want, &p, "random-key-mismatch", || {
                    format!("draws {} gave {} instead of {}", hex(&stream[pos..wpos.min(pos + 320)]), v.hex(), want.hex())
                });
                cx.check(src.pos == wpos, &p, "draws-consumed", || {
                    format!("consumed {} bytes instead of {}", src.pos - before, wpos - before)
                });
                if let Some(ok) = src.nested {
                    cx.fault("entropy_reentrant_call");
                    cx.check(ok, &p, "nested-call", || "a call made from inside the source went wrong".into());
                }
                // the key works
                if !v.is_zero() && v < N && cx.viol.is_none() {
                    let pk = cx.lib("from_secret_key", &p, || ops::pt_pk(&PublicKey::from_secret_key(&k)));
                    if let Some(pk) = pk {
                        cx.check(pk == curve::mulg(&v), &p, "generated-key-unusable", || v.hex());
                    }
                }
                pos = src.pos;
            }
            Err(_) if src.erred.is_some() => {
                cx.fault("entropy_source_error");
                let v = valid_draw(r);
                let mut h = Source::new(v.to_vec());
                let k = cx.lib("random_healthy", &p, || SecretKey::random(&mut h));
                if let Some(k) = k {
                    cx.check(k.serialize() == v, &p, "later-generation", || format!("{} instead of {}", hex(&k.serialize()), hex(&v)));
                }
                return;
            }
            Err(e) => {
                if let Some(f) = e.downcast_ref::<EntropyFailure>() {
                    cx.fault("entropy_source_panic");
                    cx.log(format!("source failed at {}", f.0));
                    cx.check(fails && fail_at == Some(f.0 as usize), &p, "wrong-failure", || format!("{:?}", f));
                    cx.check(got.is_none(), &p, "key-despite-failure", || "a key was returned".into());
                    // a new attempt on a healthy source
                    let v = valid_draw(r);
                    let mut h = Source::new(v.to_vec());
                    let k = cx.lib("random_healthy", &p, || SecretKey::random(&mut h));
                    if let Some(k) = k {
                        cx.check(k.serialize() == v, &p, "later-generation", || format!("{} instead of {}", hex(&k.serialize()), hex(&v)));
                    }
                    // and the interrupted source carries on from where it is
                    let rest = src.pos;
                    if let Some((w, wp)) = expected(&stream, rest) {
                        let k = cx.lib("random_resumed", &p, || SecretKey::random(&mut src));
                        if let Some(k) = k {
                            let v = ops::u_sk(&k);
                            cx.check(v == w && src.pos == wp, &p, "later-generation", || format!("{} instead of {}", v.hex(), w.hex()));
                        }
                        pos = src.pos;
                    } else {
                        break;
                    }
                } else if e.downcast_ref::<Overdraw>().is_some() {
                    cx.log("overdraw".into());
                    cx.check(false, &p, "overdraw", || {
                        format!("kept drawing past the valid key {} (stream {})", want.hex(), hex(&stream[pos..wpos.min(pos + 320)]))
                    });
                    return;
                } else {
                    let m = crate::ctx::LAST_PANIC.with(|p| p.borrow().clone());
                    cx.check(false, &p, "panic", || format!("SecretKey::random panicked: {}", m));
                    return;
                }
            }
        }
    }
}
