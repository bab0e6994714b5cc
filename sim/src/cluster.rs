//! World A: a deployment of signers, verifiers, watch-only replicas and key
//! exchange peers on a simulated network and simulated disks, inside one
//! process, driven by a discrete-event queue. Every node runs the real library.
use crate::ctx::{fnv, Cx, FNV0};
use crate::gen;
use crate::model::{arith::*, codec, curve, ecdsa, hash, Pt};
use crate::ops::{self, DOp, Obj};
use crate::plan::Step;
use crate::rng::{mix2, Rng};
use libsecp256k1::{Message, PublicKey, RecoveryId, SecretKey, Signature};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};

pub const KINDS: [&str; 18] = [
    "provision", "sign", "ecdh", "derive", "combine", "crash", "partition", "store", "verify_attack",
    "recover_attack", "decode_attack", "ecdh_attack", "tweak_local", "sign_special", "partition_heal", "reconfigure",
    "codec", "normalize",
];
const K_PROVISION: u8 = 0;
const K_SIGN: u8 = 1;
const K_ECDH: u8 = 2;
const K_DERIVE: u8 = 3;
const K_COMBINE: u8 = 4;
const K_CRASH: u8 = 5;
const K_PART: u8 = 6;
const K_STORE: u8 = 7;
const K_VATT: u8 = 8;
const K_RATT: u8 = 9;
const K_DATT: u8 = 10;
const K_EATT: u8 = 11;
const K_TWEAK: u8 = 12;
const K_SIGNSP: u8 = 13;
const K_HEAL: u8 = 14;
const K_RECONF: u8 = 15;
const K_CODEC: u8 = 16;
const K_NORM: u8 = 17;

/// how often each kind of step is drawn, per property
fn weights(prop: &str) -> [u32; 18] {
    //       prov sign ecdh der comb crash part store vatt ratt datt eatt twk ssp heal reconf codec norm
    match prop {
        "C01" => [3, 12, 0, 0, 0, 4, 2, 1, 0, 0, 0, 0, 0, 14, 1, 2, 2, 2],
        "C02" => [3, 14, 0, 0, 0, 3, 1, 0, 0, 0, 0, 0, 0, 20, 1, 2, 0, 1],
        "C03" => [2, 3, 0, 0, 0, 1, 1, 0, 30, 0, 0, 0, 0, 1, 0, 1, 0, 2],
        "C04" => [2, 3, 0, 0, 0, 1, 1, 0, 0, 30, 0, 0, 0, 1, 0, 1, 0, 0],
        "C05" => [2, 2, 1, 0, 0, 2, 1, 4, 0, 0, 60, 1, 0, 0, 0, 0, 3, 0],
        "C06" => [4, 3, 0, 2, 3, 6, 1, 10, 0, 2, 4, 0, 4, 1, 1, 2, 24, 2],
        "C09" => [4, 0, 14, 0, 0, 3, 2, 1, 0, 0, 0, 30, 0, 0, 1, 2, 0, 0],
        "C10" => [3, 1, 0, 10, 10, 4, 2, 2, 0, 0, 0, 0, 30, 0, 1, 2, 1, 0],
        _ => [3, 5, 4, 3, 4, 3, 2, 3, 8, 8, 10, 5, 6, 5, 1, 1, 6, 2],
    }
}
pub fn plan(prop: &str, seed: u64) -> Vec<Step> {
    let mut r = Rng::new(mix2(seed, 1));
    let w = weights(prop);
    // swarm: some kinds are switched off for this run
    let mut w2 = w;
    for (i, x) in w2.iter_mut().enumerate() {
        if i != 0 && i != 1 && r.p(1, 5) {
            *x = 0;
        }
    }
    if w2.iter().sum::<u32>() < 8 {
        w2 = w;
    }
    let n = 12 + r.below(34);
    let mut t = 0u64;
    let mut v = vec![];
    for i in 0..n {
        t += r.log(60_000) as u64;
        let kind = if i < 3 { K_PROVISION } else { r.weighted(&w2) as u8 };
        v.push(Step { kind, at: t, seed: r.u64(), fault: true });
    }
    v
}

struct Disk {
    durable: BTreeMap<String, Vec<u8>>,
    pending: Vec<(String, Vec<u8>)>,
}
impl Disk {
    fn put(&mut self, f: &str, b: Vec<u8>) {
        self.pending.push((f.into(), b));
    }
    fn sync(&mut self) {
        for (f, b) in std::mem::take(&mut self.pending) {
            self.durable.insert(f, b);
        }
    }
    fn get(&self, f: &str) -> Option<Vec<u8>> {
        self.pending.iter().rev().find(|x| x.0 == f).map(|x| x.1.clone()).or_else(|| self.durable.get(f).cloned())
    }
    /// what is left after a crash: each write that was not synced survives, is
    /// lost, or is torn
    fn crash(&mut self, r: &mut Rng, cx: &mut Cx) {
        for (f, b) in std::mem::take(&mut self.pending) {
            match r.below(3) {
                0 => cx.fault("disk_lost_write"),
                1 => {
                    cx.fault("disk_torn_write");
                    let mut b = b;
                    let k = r.below(b.len() + 1);
                    let old = self.durable.get(&f).cloned().unwrap_or_default();
                    if r.p(1, 2) {
                        b.truncate(k);
                    } else {
                        for i in k..b.len() {
                            b[i] = *old.get(i).unwrap_or(&0);
                        }
                    }
                    self.durable.insert(f, b);
                }
                _ => {
                    self.durable.insert(f, b);
                }
            }
        }
    }
}
fn frame(kind: u8, b: &[u8]) -> Vec<u8> {
    let mut v = vec![kind, b.len() as u8];
    v.extend_from_slice(b);
    let h = hash::sha256(&v);
    v.extend_from_slice(&h[..4]);
    v
}
fn unframe(v: &[u8]) -> (Option<(u8, Vec<u8>)>, Vec<u8>) {
    if v.len() < 6 {
        return (None, v.to_vec());
    }
    let n = v[1] as usize;
    let raw = v[2..v.len().min(2 + n)].to_vec();
    if v.len() != n + 6 || hash::sha256(&v[..n + 2])[..4] != v[n + 2..] {
        return (None, raw);
    }
    (Some((v[0], raw)), v[2..2 + n].to_vec())
}

// storage kinds
const S_SK: u8 = 0;
const S_SKHEX: u8 = 1;
const S_PK33: u8 = 2;
const S_PK65: u8 = 3;
const S_PK64: u8 = 4;
const S_SIG: u8 = 5;
const S_DER: u8 = 6;

struct Node {
    up: bool,
    sk: BTreeMap<u32, (SecretKey, U)>,
    pk: BTreeMap<u32, (PublicKey, Pt)>,
    disk: Disk,
    own_ctx: bool,
    group: u8,
    crash_after: Option<u32>,
    // derivation replica state per group
    dg: BTreeMap<u32, Replica>,
}
#[derive(Clone)]
struct Replica {
    epoch: u32,
    applied: BTreeSet<u32>,
    sk: Option<(SecretKey, U)>,
    pk: Option<(PublicKey, Pt)>,
    buffer: Vec<(u32, u32)>, // (epoch, op index)
}
struct DGroup {
    ops: Vec<(u32, DOp, bool)>, // epoch, op, must fail
    epoch_size: Vec<u32>,
    members: Vec<(usize, bool)>, // node, holds the secret
    d0: U,
    d: U,
}
struct Msg {
    from: usize,
    to: usize,
    kind: u8,
    slot: u32,
    req: u32,
    body: Vec<u8>,
    altered: bool,
    step: u64,
}
const M_SIGNREQ: u8 = 0;
const M_SIG: u8 = 1;
const M_ACK: u8 = 2;
const M_PUB: u8 = 3;
const M_ECDH: u8 = 4;
const M_DERIVE: u8 = 5;
const M_DACK: u8 = 6;

enum Ev {
    Step(usize),
    Msg(Msg),
    Timer(u32),
    DTimer(u32, u32, usize),
    Restart(usize),
}
struct Req {
    slot: u32,
    client: usize,
    signer: usize,
    m: [u8; 32],
    enc: u8,
    cands: Vec<[u8; 32]>,
    /// receivers that have not accepted yet
    open: BTreeSet<usize>,
    tries: u32,
    step: u64,
}
struct Session {
    peers: [(usize, u32); 2],
    altered: bool,
    secret: [Option<Vec<u8>>; 2],
}
struct Slot {
    owner: usize,
    d: U,
    q: Pt,
}

struct World<'a> {
    cx: &'a mut Cx,
    nodes: Vec<Node>,
    slots: Vec<Slot>,
    reqs: Vec<Req>,
    sess: Vec<Session>,
    groups: Vec<DGroup>,
    q: BinaryHeap<Reverse<(u64, u64, usize)>>,
    evs: Vec<Option<Ev>>,
    seq: u64,
    healed: bool,
    cfg: Cfg,
    steps: &'a [Step],
    mseq: BTreeMap<u64, u64>,
    /// history: (key, message mod n) -> signature; (key, r) -> message
    signed: BTreeMap<(U2, U2), Vec<u8>>,
    nonces: BTreeMap<(U2, U2), U2>,
    dacks: BTreeSet<(u32, u32, usize)>,
}
type U2 = [u64; 4];
#[derive(Clone)]
struct Cfg {
    drop: usize,
    dup: usize,
    corrupt: usize,
    jitter: usize,
    own: usize,
}

pub fn run(cx: &mut Cx, seed: u64, steps: &[Step]) {
    let mut r = Rng::new(mix2(seed, 2));
    let faulty = r.p(4, 5);
    let cfg = Cfg {
        drop: if faulty { *r.pick(&[0, 5, 15, 30]) } else { 0 },
        dup: if faulty { *r.pick(&[0, 5, 20]) } else { 0 },
        corrupt: if faulty { *r.pick(&[0, 5, 20]) } else { 0 },
        jitter: *r.pick(&[1, 50, 2000, 100_000]),
        own: r.below(3),
    };
    let n = 2 + r.below(4);
    let nodes = (0..n)
        .map(|_| Node {
            up: true,
            sk: BTreeMap::new(),
            pk: BTreeMap::new(),
            disk: Disk { durable: BTreeMap::new(), pending: vec![] },
            own_ctx: match cfg.own { 0 => false, 1 => r.p(1, 2), _ => r.p(1, 4) },
            group: 0,
            crash_after: None,
            dg: BTreeMap::new(),
        })
        .collect();
    let mut w = World {
        cx,
        nodes,
        slots: vec![],
        reqs: vec![],
        sess: vec![],
        groups: vec![],
        q: BinaryHeap::new(),
        evs: vec![],
        seq: 0,
        healed: false,
        cfg,
        steps,
        mseq: BTreeMap::new(),
        signed: BTreeMap::new(),
        nonces: BTreeMap::new(),
        dacks: BTreeSet::new(),
    };
    for (i, s) in steps.iter().enumerate() {
        w.at(s.at, Ev::Step(i));
    }
    w.run_all();
    // faults stop: heal everything, restart what is down, let retries finish
    w.healed = true;
    w.cfg = Cfg { drop: 0, dup: 0, corrupt: 0, jitter: 10, own: w.cfg.own };
    let now = w.cx.now;
    for i in 0..w.nodes.len() {
        w.nodes[i].group = 0;
        w.nodes[i].crash_after = None;
        if !w.nodes[i].up {
            w.restart(i);
        }
    }
    for i in 0..w.reqs.len() {
        if !w.reqs[i].open.is_empty() {
            w.reqs[i].tries = 0;
            w.at(now + 1, Ev::Timer(i as u32));
        }
    }
    for g in 0..w.groups.len() {
        for k in 0..w.groups[g].ops.len() {
            for (m, _) in w.groups[g].members.clone() {
                w.at(now + 1, Ev::DTimer(g as u32, k as u32, m));
            }
        }
    }
    w.run_all();
    w.finish();
    let t = w.cx.now;
    w.cx.st.sim_ns += t * 1000;
}

impl<'a> World<'a> {
    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.evs.push(Some(e));
        self.q.push(Reverse((t, self.seq, self.evs.len() - 1)));
    }
    fn run_all(&mut self) {
        let mut n = 0;
        let mut order = FNV0;
        while let Some(Reverse((t, _, i))) = self.q.pop() {
            self.cx.now = self.cx.now.max(t);
            n += 1;
            if n > 6000 || self.cx.viol.is_some() {
                break;
            }
            let e = match self.evs[i].take() {
                Some(e) => e,
                None => continue,
            };
            match e {
                Ev::Step(i) => {
                    order = fnv(order, &[0, self.steps[i].kind]);
                    self.cx.step = i as u64;
                    self.do_step(i)
                }
                Ev::Msg(m) => {
                    order = fnv(order, &[1, m.kind, m.to as u8, m.from as u8]);
                    self.cx.step = m.step;
                    self.deliver(m)
                }
                Ev::Timer(i) => self.timer(i),
                Ev::DTimer(g, k, m) => self.dtimer(g, k, m),
                Ev::Restart(n) => {
                    order = fnv(order, &[2, n as u8]);
                    self.restart(n)
                }
            }
        }
        self.cx.st.inter.insert(order);
    }
    fn srng(&mut self, step: u64) -> Rng {
        let k = self.mseq.entry(step).or_default();
        *k += 1;
        let k = *k;
        let s = self.steps.get(step as usize).map(|s| s.seed).unwrap_or(7);
        Rng::new(mix2(s, 1000 + k))
    }
    fn fault_on(&self, step: u64) -> bool {
        !self.healed && self.steps.get(step as usize).map(|s| s.fault).unwrap_or(true)
    }
    /// hand a message to the simulated network
    fn send(&mut self, step: u64, from: usize, to: usize, kind: u8, slot: u32, req: u32, body: Vec<u8>) {
        let mut r = self.srng(step);
        let on = self.fault_on(step);
        let now = self.cx.now;
        if self.nodes[from].group != self.nodes[to].group {
            self.cx.fault("net_partitioned");
            return;
        }
        if on && r.p(self.cfg.drop, 100) {
            self.cx.fault("net_drop");
            return;
        }
        let mut copies = 1;
        if on && r.p(self.cfg.dup, 100) {
            self.cx.fault("net_duplicate");
            copies = 2;
        }
        for _ in 0..copies {
            let d = 1 + r.log(if on { self.cfg.jitter } else { 10 }) as u64;
            if d > 5000 {
                self.cx.fault("net_delay");
            }
            let mut b = body.clone();
            let mut altered = false;
            if on && r.p(self.cfg.corrupt, 100) && kind != M_SIGNREQ && kind != M_DERIVE && kind != M_ACK && kind != M_DACK {
                let o = r.bytes(64);
                let how = gen::damage(&mut r, &mut b, &o);
                altered = b != body;
                if altered {
                    self.cx.fault(&format!("net_corrupt_{}", how));
                }
            }
            self.at(now + d, Ev::Msg(Msg { from, to, kind, slot, req, body: b, altered, step }));
        }
    }
    /// an action inside a node; returns false if the node dies here
    fn alive(&mut self, n: usize) -> bool {
        if !self.nodes[n].up {
            return false;
        }
        if let Some(k) = self.nodes[n].crash_after {
            if k == 0 {
                self.nodes[n].crash_after = None;
                self.cx.fault("crash_inside_operation");
                self.crash(n);
                return false;
            }
            self.nodes[n].crash_after = Some(k - 1);
        }
        true
    }
    fn crash(&mut self, n: usize) {
        let step = self.cx.step;
        let mut r = self.srng(step);
        self.cx.log(format!("crash node {}", n));
        self.cx.fault("crash");
        let nd = &mut self.nodes[n];
        nd.up = false;
        nd.sk.clear();
        nd.pk.clear();
        nd.dg.clear();
        let mut d = std::mem::replace(&mut nd.disk, Disk { durable: BTreeMap::new(), pending: vec![] });
        d.crash(&mut r, self.cx);
        self.nodes[n].disk = d;
        let now = self.cx.now;
        let back = now + 1 + r.log(40_000) as u64;
        self.at(back, Ev::Restart(n));
    }
    fn restart(&mut self, n: usize) {
        if self.nodes[n].up {
            return;
        }
        self.cx.log(format!("restart node {}", n));
        self.cx.fault("restart");
        self.nodes[n].up = true;
        let files: Vec<(String, Vec<u8>)> =
            self.nodes[n].disk.durable.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        for (f, v) in files {
            let (ok, raw) = unframe(&v);
            match ok {
                Some((k, b)) => {
                    self.load(n, &f, k, &b);
                }
                None => {
                    // a torn record: the decoders meet it anyway
                    self.cx.count("probe:torn_record_decoded");
                    for which in [0usize, 3, 4, 6, 7] {
                        ops::decode(self.cx, which, &raw, 0, &["C05"]);
                    }
                    self.nodes[n].disk.durable.remove(&f);
                }
            }
        }
        // operators re-provision what was lost
        for s in 0..self.slots.len() as u32 {
            let (own, d, q) = {
                let t = &self.slots[s as usize];
                (t.owner, t.d, t.q)
            };
            if own == n && !self.nodes[n].sk.contains_key(&s) {
                if let Some(k) = ops::mk_sk(self.cx, &d) {
                    self.nodes[n].sk.insert(s, (k, d));
                }
            }
            if !self.nodes[n].pk.contains_key(&s) {
                let mut r = Rng::new(mix2(s as u64, n as u64));
                if let Some(k) = ops::mk_pk(self.cx, &mut r, &q) {
                    self.nodes[n].pk.insert(s, (k, q));
                }
            }
        }
        for g in 0..self.groups.len() as u32 {
            if self.groups[g as usize].members.iter().any(|m| m.0 == n) && !self.nodes[n].dg.contains_key(&g) {
                self.dg_init(n, g);
                // everything must be delivered to it again
                self.dacks.retain(|x| !(x.0 == g && x.2 == n));
                let now = self.cx.now;
                for k in 0..self.groups[g as usize].ops.len() {
                    self.at(now + 5, Ev::DTimer(g, k as u32, n));
                }
            }
        }
    }
    /// read one record back and compare it with the truth
    fn load(&mut self, n: usize, f: &str, k: u8, b: &[u8]) {
        let p = ["C06", "C01", "C10", "C09"];
        let (pre, idx) = f.split_once('/').unwrap_or(("", "0"));
        let idx: u32 = idx.split('.').next().unwrap().parse().unwrap_or(0);
        self.cx.count("probe:record_reloaded");
        match pre {
            "sk" | "pk" => {
                if idx as usize >= self.slots.len() {
                    return;
                }
                let (d, q) = (self.slots[idx as usize].d, self.slots[idx as usize].q);
                if pre == "sk" {
                    if let Some(s) = self.load_sk(k, b, &p) {
                        let got = ops::u_sk(&s);
                        self.cx.check(got == d, &p, "reload-mismatch", || {
                            format!("secret key stored as {} came back as {}", d.hex(), got.hex())
                        });
                        self.nodes[n].sk.insert(idx, (s, d));
                    } else {
                        self.cx.fail(&p, "reload-refused", format!("stored secret key {} refused: {}", d.hex(), hex(b)));
                    }
                } else if let Some(s) = self.load_pk(k, b, &p) {
                    let got = ops::pt_pk(&s);
                    self.cx.check(got == q, &p, "reload-mismatch", || {
                        format!("public key stored as {} came back as {}", ops::ptx(&q), ops::ptx(&got))
                    });
                    self.nodes[n].pk.insert(idx, (s, q));
                } else {
                    self.cx.fail(&p, "reload-refused", format!("stored public key {} refused: {}", ops::ptx(&q), hex(b)));
                }
            }
            "sig" => {
                let which = if k == S_DER { 6 } else { 4 };
                let o = ops::decode(self.cx, which, b, 0, &p);
                match o {
                    Some(Obj::Sig(s)) => {
                        let s2 = s;
                        let back = self.cx.lib("sig_encode", &p, || {
                            if k == S_DER { s2.serialize_der().as_ref().to_vec() } else { s2.serialize().to_vec() }
                        });
                        self.cx.check(back.as_deref() == Some(b), &p, "reencode-mismatch", || {
                            format!("signature record {} re-encodes as {:?}", hex(b), back.map(|x| hex(&x)))
                        });
                    }
                    _ => self.cx.fail(&p, "reload-refused", format!("stored signature refused: {}", hex(b))),
                }
            }
            "dg" => self.dg_load(n, idx, k, b),
            _ => {}
        }
    }
    fn load_sk(&mut self, k: u8, b: &[u8], p: &[&str]) -> Option<SecretKey> {
        let raw = if k == S_SKHEX {
            let t = std::str::from_utf8(b).ok()?;
            if t.len() % 2 != 0 {
                return None;
            }
            (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16)).collect::<Result<Vec<u8>, _>>().ok()?
        } else {
            b.to_vec()
        };
        match ops::decode(self.cx, 0, &raw, 0, p)? {
            Obj::Sk(s) => Some(s),
            _ => None,
        }
    }
    fn load_pk(&mut self, k: u8, b: &[u8], p: &[&str]) -> Option<PublicKey> {
        let (which, fmt) = match k {
            S_PK33 => (2, 1),
            S_PK65 => (1, 2),
            S_PK64 => (3, 3),
            _ => (3, 0),
        };
        match ops::decode(self.cx, which, b, fmt, p)? {
            Obj::Pk(s) => Some(s),
            _ => None,
        }
    }
    fn enc_sk(&mut self, s: &SecretKey, hexed: bool, p: &[&str]) -> Option<(u8, Vec<u8>)> {
        let s = *s;
        if hexed {
            let t = self.cx.lib("sk_hex", p, || format!("{:x}", s))?;
            let want = hex(&s.serialize());
            self.cx.check(t == want, &["C06"], "hex-mismatch", || format!("key {} prints as {}", want, t));
            // as the caller's format string may ask for it
            let u = self.cx.lib("sk_hex", p, || match s.serialize()[31] % 4 {
                0 => format!("{:#x}", s),
                1 => format!("{:64x}", s),
                2 => format!("{:064x}", s),
                _ => format!("{:>3x}", s),
            })?;
            let u = u.strip_prefix("0x").unwrap_or(&u).to_string();
            self.cx.check(u == want, &["C06"], "hex-mismatch", || format!("key {} prints as {} with flags", want, u));
            Some((S_SKHEX, t.into_bytes()))
        } else {
            Some((S_SK, self.cx.lib("sk_encode", p, || s.serialize().to_vec())?))
        }
    }
    fn enc_pk(&mut self, k: &PublicKey, kind: u8, p: &[&str]) -> Option<Vec<u8>> {
        let k = *k;
        self.cx.lib("pk_encode", p, || match kind {
            S_PK33 => k.serialize_compressed().to_vec(),
            S_PK65 => k.serialize().to_vec(),
            _ => k.serialize()[1..].to_vec(),
        })
    }

    // ---------------- steps ----------------
    fn do_step(&mut self, i: usize) {
        let st = self.steps[i].clone();
        let mut r = Rng::new(st.seed);
        let nn = self.nodes.len();
        self.cx.log(format!("step {}", KINDS[st.kind as usize]));
        match st.kind {
            K_PROVISION => self.provision(&mut r),
            K_SIGN | K_SIGNSP => self.start_sign(i as u64, &mut r, st.kind == K_SIGNSP, st.fault),
            K_ECDH => self.start_ecdh(i as u64, &mut r, st.fault),
            K_DERIVE => self.start_derive(i as u64, &mut r),
            K_COMBINE => self.do_combine(&mut r),
            K_CRASH => {
                let n = r.below(nn);
                if st.fault && self.nodes[n].up {
                    if r.p(1, 2) {
                        self.nodes[n].crash_after = Some(r.below(8) as u32);
                    } else {
                        self.crash(n);
                    }
                }
            }
            K_PART => {
                if st.fault {
                    self.cx.fault("partition");
                    for n in 0..nn {
                        self.nodes[n].group = r.below(2) as u8;
                    }
                }
            }
            K_HEAL => {
                for n in 0..nn {
                    self.nodes[n].group = 0;
                }
                self.cx.fault("heal");
            }
            K_STORE => self.do_store(&mut r),
            K_RECONF => {
                let n = r.below(nn);
                self.nodes[n].own_ctx = !self.nodes[n].own_ctx;
                self.cx.fault("context_switch");
            }
            K_VATT => {
                for _ in 0..4 {
                    let n = r.below(nn);
                    let own = self.nodes[n].own_ctx;
                    let (mb, s, q, class) = ops::verify_case(&mut r);
                    self.cx.fault(&format!("byzantine_verify_{}", class));
                    if let Some(k) = ops::mk_pk(self.cx, &mut r, &q) {
                        let ls = ops::mk_sig(&s);
                        ops::verify(self.cx, &mb, &ls, &k, &q, own, &["C03"]);
                        if r.p(1, 4) {
                            // replayed later in the same process: no memory
                            ops::verify(self.cx, &mb, &ls, &k, &q, !own, &["C03"]);
                            let hs = ecdsa::Sig { r: s.r, s: nneg(&s.s) };
                            ops::verify(self.cx, &mb, &ops::mk_sig(&hs), &k, &q, own, &["C03"]);
                        }
                    }
                }
            }
            K_RATT => {
                for _ in 0..4 {
                    let n = r.below(nn);
                    let own = self.nodes[n].own_ctx;
                    let (mb, s, id, class) = ops::recover_case(&mut r);
                    self.cx.fault(&format!("byzantine_recover_{}", class));
                    let ls = ops::mk_sig(&s);
                    let res = ops::recover(self.cx, &mb, &ls, id, own, &["C04"]);
                    if let Some(Ok(k)) = res {
                        // a recovered key is stored like any other
                        let q = ops::pt_pk(&k);
                        if r.p(1, 4) {
                            self.round_trip_pk(&k, &q, &mut r);
                        }
                    }
                }
            }
            K_DATT => {
                for _ in 0..12 {
                    let (which, b, fmt) = ops::decode_case(&mut r);
                    self.cx.fault("byzantine_bytes");
                    ops::decode(self.cx, which, &b, fmt, &["C05"]);
                }
                if r.p(1, 2) {
                    self.objects_from_affine(&mut r);
                }
            }
            K_EATT => {
                for _ in 0..4 {
                    let n = r.below(nn);
                    let own = self.nodes[n].own_ctx;
                    let q = gen::point(&mut r);
                    let d = match r.below(6) {
                        0 => U::from_u64(r.log(1 << 16) as u64),
                        1 => gen::small_key(&mut r),
                        _ => gen::scalar0(&mut r),
                    };
                    self.cx.fault("byzantine_key_exchange");
                    if let Some(k) = ops::mk_pk(self.cx, &mut r, &q) {
                        let sk = if d.is_zero() {
                            ops::mk_sk(self.cx, &ONE).map(|mut s| {
                                s.clear();
                                s
                            })
                        } else {
                            ops::mk_sk(self.cx, &d)
                        };
                        if let Some(sk) = sk {
                            ops::ecdh(self.cx, &k, &q, &sk, &d, r.p(2, 3), own, &["C09"]);
                        }
                    }
                }
            }
            K_TWEAK => self.do_tweak(&mut r),
            K_CODEC => self.do_codec(&mut r),
            _ => self.do_normalize(&mut r),
        }
    }
    fn provision(&mut self, r: &mut Rng) {
        let n = r.below(self.nodes.len());
        if !self.nodes[n].up || self.slots.len() > 7 {
            return;
        }
        let d = gen::key(r);
        let p = ["C01", "C10"];
        let sk = match ops::mk_sk(self.cx, &d) {
            Some(s) => s,
            None => return,
        };
        let own = self.nodes[n].own_ctx;
        let q = curve::mulg(&d);
        let slot = self.slots.len() as u32;
        self.slots.push(Slot { owner: n, d, q });
        self.nodes[n].sk.insert(slot, (sk, d));
        if let Some((k, b)) = self.enc_sk(&sk, r.p(1, 2), &["C06", "C01"]) {
            self.nodes[n].disk.put(&format!("sk/{}", slot), frame(k, &b));
        }
        if r.p(3, 4) {
            self.nodes[n].disk.sync();
        }
        let pk = match ops::pubkey(self.cx, &sk, &d, own, &p) {
            Some(k) => k,
            None => return,
        };
        self.nodes[n].pk.insert(slot, (pk, q));
        let kind = *r.pick(&[S_PK33, S_PK65, S_PK64]);
        if let Some(b) = self.enc_pk(&pk, kind, &["C06", "C01"]) {
            let mut body = vec![kind];
            body.extend(b);
            let step = self.cx.step;
            for to in 0..self.nodes.len() {
                if to != n {
                    self.send(step, n, to, M_PUB, slot, 0, body.clone());
                }
            }
        }
    }
    fn start_sign(&mut self, step: u64, r: &mut Rng, special: bool, fault: bool) {
        let mut slot = if self.slots.is_empty() { None } else { Some(r.below(self.slots.len()) as u32) };
        let mut m = gen::msg(r);
        let mut cands = vec![];
        let mut one_shot = None;
        if special {
            match r.below(6) {
                0 => {
                    let (d, mm, k) = ops::zero_s_case(r);
                    cands = vec![k];
                    if r.p(1, 2) {
                        cands.extend(ops::bad_candidates(r, &d, &mm));
                    }
                    one_shot = Some(d);
                    m = mm.to_be();
                }
                1 | 2 => {
                    let (d, mm, k) = ops::chosen_s_case(r);
                    cands = vec![k];
                    one_shot = Some(d);
                    m = mm.to_be();
                }
                3 => {
                    // same message, related keys; same key, related messages
                    if let Some(q) = self.reqs.last() {
                        m = q.m;
                        if r.p(1, 2) {
                            slot = Some(q.slot);
                            let i = r.below(32);
                            m[i] ^= 1 << r.below(8);
                        }
                    }
                }
                _ => {
                    let (d, mm) = (gen::key(r), nred(&U::from_be(&m)));
                    cands = ops::bad_candidates(r, &d, &mm);
                    if r.p(1, 2) {
                        one_shot = Some(d);
                    }
                }
            }
            if !fault {
                cands.clear();
            }
            // a message equal modulo n
            let (v, c) = add(&nred(&U::from_be(&m)), &N);
            if !c && r.p(1, 2) {
                m = v.to_be();
            }
        }
        if let Some(d) = one_shot {
            let n = r.below(self.nodes.len());
            if !self.nodes[n].up {
                return;
            }
            if let Some(sk) = ops::mk_sk(self.cx, &d) {
                let s = self.slots.len() as u32;
                let q = curve::mulg(&d);
                self.slots.push(Slot { owner: n, d, q });
                self.nodes[n].sk.insert(s, (sk, d));
                for k in 0..self.nodes.len() {
                    let mut r2 = Rng::new(r.u64());
                    if let Some(pk) = ops::mk_pk(self.cx, &mut r2, &q) {
                        self.nodes[k].pk.insert(s, (pk, q));
                    }
                }
                slot = Some(s);
            }
        }
        let slot = match slot {
            Some(s) => s,
            None => return,
        };
        let client = r.below(self.nodes.len());
        let signer = self.slots[slot as usize].owner;
        let open: BTreeSet<usize> = (0..self.nodes.len()).filter(|x| *x != signer).collect();
        let id = self.reqs.len() as u32;
        self.reqs.push(Req { slot, client, signer, m, enc: r.below(4) as u8, cands, open, tries: 0, step });
        self.timer(id);
    }
    fn timer(&mut self, i: u32) {
        let (open, tries, client, signer, slot, m, step) = {
            let q = &self.reqs[i as usize];
            (!q.open.is_empty(), q.tries, q.client, q.signer, q.slot, q.m, q.step)
        };
        if !open || tries > 4 {
            return;
        }
        self.reqs[i as usize].tries += 1;
        if tries > 0 {
            self.cx.fault("client_retry");
        }
        self.cx.step = step;
        let now = self.cx.now;
        if self.nodes[client].up {
            if client == signer {
                self.at(now + 1, Ev::Msg(Msg { from: client, to: signer, kind: M_SIGNREQ, slot, req: i, body: m.to_vec(), altered: false, step }));
            } else {
                self.send(step, client, signer, M_SIGNREQ, slot, i, m.to_vec());
            }
        }
        let mut r = self.srng(step);
        self.at(now + 2000 + r.below(20_000) as u64, Ev::Timer(i));
    }
    fn deliver(&mut self, m: Msg) {
        if !self.alive(m.to) {
            self.cx.count("delivered_to_dead_node");
            return;
        }
        match m.kind {
            M_SIGNREQ => self.on_signreq(m),
            M_SIG => self.on_sig(m),
            M_ACK => {
                self.reqs[m.req as usize].open.remove(&m.from);
            }
            M_PUB => {
                let own = ["C06", "C01", "C05"];
                let (k, b) = match m.body.split_first() {
                    Some((k, b)) => (*k, b.to_vec()),
                    None => return,
                };
                let got = self.load_pk(k, &b, if m.altered { &["C05"] } else { &own });
                if let (Some(p), false) = (&got, m.altered) {
                    let q = self.slots[m.slot as usize].q;
                    let g = ops::pt_pk(p);
                    self.cx.check(g == q, &own, "pubkey-transfer", || format!("{} arrived as {}", ops::ptx(&q), ops::ptx(&g)));
                    self.nodes[m.to].pk.insert(m.slot, (*p, q));
                }
                if got.is_none() && !m.altered {
                    self.cx.fail(&["C06", "C01"], "pubkey-refused", format!("{} refused by its decoder", hex(&b)));
                }
            }
            M_ECDH => self.on_ecdh(m),
            M_DERIVE => self.on_derive(m),
            _ => {
                self.dacks.insert((m.slot, m.req, m.from));
            }
        }
    }
    fn on_signreq(&mut self, m: Msg) {
        let n = m.to;
        let (sk, d) = match self.nodes[n].sk.get(&m.slot) {
            Some(x) => *x,
            None => return,
        };
        let (cands, enc) = {
            let q = &self.reqs[m.req as usize];
            (q.cands.clone(), q.enc)
        };
        let mut mb = [0u8; 32];
        mb.copy_from_slice(&m.body);
        let own = self.nodes[n].own_ctx;
        let s = match ops::sign(self.cx, &sk, &d, &mb, &cands, own) {
            Some(s) => s,
            None => return,
        };
        // history oracles: idempotence and nonce freshness
        let mm = nred(&U::from_be(&mb));
        let mut bytes = codec::sig_bytes(&s.sig).to_vec();
        bytes.push(s.id);
        if cands.is_empty() {
            let key = (d.0, mm.0);
            if let Some(old) = self.signed.get(&key) {
                self.cx.count("probe:resigned");
                let same = *old == bytes;
                let old = old.clone();
                self.cx.check(same, &["C02"], "not-idempotent", || {
                    format!("key {} message {} signed as {} and later as {}", d.hex(), mm.hex(), hex(&old), hex(&bytes))
                });
            }
            self.signed.insert(key, bytes.clone());
            if let Some(o) = self.nonces.get(&(d.0, s.sig.r.0)) {
                let o = U(*o);
                self.cx.check(o == mm, &["C02"], "nonce-reuse", || {
                    format!("key {} used r {} for messages {} and {}", d.hex(), s.sig.r.hex(), o.hex(), mm.hex())
                });
            }
            self.nonces.insert((d.0, s.sig.r.0), mm.0);
        }
        // the signer's own check, as C01 states it
        let q = self.slots[m.slot as usize].q;
        let (ls, li) = (s.lsig, s.lid);
        if let Some(k) = ops::pubkey(self.cx, &sk, &d, own, &["C01"]) {
            let ok = self.cx.lib("verify", &["C01"], || libsecp256k1::verify(&Message::parse(&mb), &ls, &k));
            self.cx.check(ok != Some(false), &["C01"], "own-signature-refused", || {
                format!("key {} message {} sig {}", d.hex(), hex(&mb), hex(&bytes))
            });
            let rec = self.cx.lib("recover", &["C01"], || libsecp256k1::recover(&Message::parse(&mb), &ls, &li));
            if let Some(rec) = rec {
                let ok = match &rec {
                    Ok(p) => *p == k && ops::pt_pk(p) == q,
                    Err(_) => false,
                };
                self.cx.check(ok, &["C01"], "own-signature-not-recovered", || {
                    format!("key {} message {} sig {}: {:?}", d.hex(), hex(&mb), hex(&bytes), rec.map(|p| ops::pk_desc(&p)))
                });
            }
        }
        let sb = self.cx.lib("sig_encode", &["C06", "C01"], || match enc {
            0 | 1 => ls.serialize().to_vec(),
            _ => ls.serialize_der().as_ref().to_vec(),
        });
        let sb = match sb {
            Some(b) => b,
            None => return,
        };
        let want = if enc < 2 { codec::sig_bytes(&s.sig).to_vec() } else { codec::sig_der(&s.sig) };
        self.cx.check(sb == want, &["C06"], "signature-encoding", || format!("{} encoded as {} (enc {})", hex(&want), hex(&sb), enc));
        let idb = self.cx.lib("id_encode", &["C06", "C01"], || li.serialize()).unwrap_or(0);
        if !self.alive(n) {
            return;
        }
        self.nodes[n].disk.put(&format!("sig/{}", m.req), frame(if enc < 2 { S_SIG } else { S_DER }, &sb));
        if !self.alive(n) {
            return;
        }
        if enc & 1 == 0 {
            self.nodes[n].disk.sync();
        }
        let mut body = mb.to_vec();
        body.push(idb);
        body.push(enc);
        body.extend(sb);
        let open: Vec<usize> = self.reqs[m.req as usize].open.iter().copied().collect();
        for to in open {
            if !self.alive(n) {
                return;
            }
            self.send(m.step, n, to, M_SIG, m.slot, m.req, body.clone());
        }
    }
    fn on_sig(&mut self, m: Msg) {
        let n = m.to;
        let b = &m.body;
        if b.len() < 34 {
            ops::decode(self.cx, 8, b, 0, &["C05"]);
            return;
        }
        let honest: &[&str] = if m.altered { &["C05"] } else { &["C05", "C06", "C01"] };
        let (mb, id, enc, sb) = (b[..32].to_vec(), b[32], b[33], b[34..].to_vec());
        let mut m32 = [0u8; 32];
        m32.copy_from_slice(&mb);
        ops::decode(self.cx, 8, &mb, 0, honest);
        let which = match enc & 3 {
            0 => 4,
            1 => 5,
            2 => 6,
            _ => 7,
        };
        ops::decode(self.cx, 9, &[id], 0, honest);
        let sig = match ops::decode(self.cx, which, &sb, 0, honest) {
            Some(Obj::Sig(s)) => s,
            _ => {
                if !m.altered {
                    self.cx.fail(&["C01"], "honest-signature-undecodable", format!("{} ({})", hex(&sb), ops::DEC_NAMES[which]));
                }
                return;
            }
        };
        let own = self.nodes[n].own_ctx;
        let (k, q) = match self.nodes[n].pk.get(&m.slot) {
            Some(x) => *x,
            None => {
                // fetched out of band
                let q = self.slots[m.slot as usize].q;
                let mut r = self.srng(m.step);
                match ops::mk_pk(self.cx, &mut r, &q) {
                    Some(k) => (k, q),
                    None => return,
                }
            }
        };
        let vp: &[&str] = if m.altered { &["C03"] } else { &["C03", "C01"] };
        let ok = ops::verify(self.cx, &m32, &sig, &k, &q, own, vp);
        let rp: &[&str] = if m.altered { &["C04"] } else { &["C04", "C01"] };
        let rec = ops::recover(self.cx, &m32, &sig, id & 3, own, rp);
        if !m.altered {
            self.cx.check(ok == Some(true), &["C01"], "honest-signature-refused", || {
                format!("message {} signature {} under {}", hex(&mb), hex(&sb), ops::ptx(&q))
            });
            let same = matches!(&rec, Some(Ok(p)) if *p == k);
            self.cx.check(same, &["C01"], "honest-signature-recovers-other-key", || {
                format!("message {} signature {} id {} under {}: {:?}", hex(&mb), hex(&sb), id, ops::ptx(&q), rec.as_ref().map(|x| x.as_ref().map(ops::pk_desc)))
            });
            if ok == Some(true) && same {
                self.reqs[m.req as usize].open.remove(&n);
                let client = self.reqs[m.req as usize].client;
                if client != n {
                    self.send(m.step, n, client, M_ACK, m.slot, m.req, vec![]);
                }
            }
        } else if ok == Some(true) {
            self.cx.count("probe:altered_but_valid");
        }
    }
    fn start_ecdh(&mut self, step: u64, r: &mut Rng, fault: bool) {
        if self.slots.len() < 2 {
            return;
        }
        let a = r.below(self.slots.len()) as u32;
        let b = r.below(self.slots.len()) as u32;
        let (na, nb) = (self.slots[a as usize].owner, self.slots[b as usize].owner);
        let id = self.sess.len() as u32;
        self.sess.push(Session { peers: [(na, a), (nb, b)], altered: false, secret: [None, None] });
        for (side, (from, to, slot)) in [(na, nb, a), (nb, na, b)].into_iter().enumerate() {
            let pk = match self.nodes[from].pk.get(&slot) {
                Some((k, _)) => *k,
                None => continue,
            };
            let kind = *r.pick(&[S_PK33, S_PK65, S_PK64]);
            if let Some(mut e) = self.enc_pk(&pk, kind, &["C09"]) {
                if fault && r.p(1, 4) {
                    // replaced in transit by another valid key; the honest message may arrive too
                    let honest = ops::pt_pk(&pk);
                    let q = if r.p(2, 3) { gen::related(r, &honest) } else { gen::point(r) };
                    if r.p(2, 3) && from != to {
                        let mut body = vec![kind, side as u8];
                        body.extend(e.clone());
                        self.send(step, from, to, M_ECDH, slot, id, body);
                    }
                    e = match kind {
                        S_PK33 => curve::compressed(&q).to_vec(),
                        S_PK65 => curve::full(&q).to_vec(),
                        _ => curve::full(&q)[1..].to_vec(),
                    };
                    self.sess[id as usize].altered = true;
                    self.cx.fault("mitm_key_swap");
                }
                let mut body = vec![kind, side as u8];
                body.extend(e);
                if from == to {
                    let now = self.cx.now;
                    self.at(now + 1, Ev::Msg(Msg { from, to, kind: M_ECDH, slot, req: id, body, altered: false, step }));
                } else {
                    self.send(step, from, to, M_ECDH, slot, id, body.clone());
                    if r.p(1, 3) {
                        self.send(step, from, to, M_ECDH, slot, id, body);
                    }
                }
            }
        }
    }
    fn on_ecdh(&mut self, m: Msg) {
        if m.body.len() < 2 {
            return;
        }
        let (kind, side) = (m.body[0], (m.body[1] & 1) as usize);
        if m.altered && (kind < S_PK33 || kind > S_PK64) {
            return;
        }
        let e = m.body[2..].to_vec();
        if m.altered {
            self.sess[m.req as usize].altered = true;
        }
        let pk = match self.load_pk(kind, &e, &["C05"]) {
            Some(k) => k,
            None => return,
        };
        let q = ops::pt_pk(&pk);
        // an altered side byte may name the wrong peer: only ours matters
        let (node, slot) = self.sess[m.req as usize].peers[1 - side];
        if node != m.to {
            return;
        }
        let (sk, d) = match self.nodes[m.to].sk.get(&slot) {
            Some(x) => *x,
            None => return,
        };
        let own = self.nodes[m.to].own_ctx;
        let s = match ops::ecdh(self.cx, &pk, &q, &sk, &d, false, own, &["C09"]) {
            Some(s) => s,
            None => return,
        };
        let old = self.sess[m.req as usize].secret[1 - side].clone();
        let altered = self.sess[m.req as usize].altered;
        if let (Some(o), false) = (&old, altered) {
            self.cx.count("probe:ecdh_recomputed");
            self.cx.check(*o == s, &["C09"], "ecdh-unstable", || format!("{} then {}", hex(o), hex(&s)));
        }
        self.sess[m.req as usize].secret[1 - side] = Some(s);
        if let ([Some(a), Some(b)], false) = (self.sess[m.req as usize].secret.clone(), altered) {
            self.cx.count("probe:ecdh_agreed");
            self.cx.check(a == b, &["C09"], "ecdh-disagreement", || format!("{} and {}", hex(&a), hex(&b)));
        }
    }
    // ---- derivation groups ----
    fn start_derive(&mut self, step: u64, r: &mut Rng) {
        let nn = self.nodes.len();
        let extend = !self.groups.is_empty() && r.p(1, 2);
        let g = if extend {
            r.below(self.groups.len())
        } else {
            let d0 = gen::key(r);
            let mut members: Vec<(usize, bool)> = vec![];
            for n in 0..nn {
                if r.p(2, 3) {
                    members.push((n, r.p(1, 2)));
                }
            }
            if !members.iter().any(|m| m.1) {
                members.push((r.below(nn), true));
                members.dedup_by_key(|m| m.0);
            }
            let mut seen = BTreeSet::new();
            members.retain(|m| seen.insert(m.0));
            self.groups.push(DGroup { ops: vec![], epoch_size: vec![], members, d0, d: d0 });
            self.groups.len() - 1
        };
        // one epoch of commuting steps, or a single failing step
        let d = self.groups[g].d;
        let mut ops_: Vec<(DOp, bool)> = vec![];
        match r.below(6) {
            0 => ops_.push((DOp::Add(nneg(&d)), true)),
            1 if r.p(1, 2) => ops_.push((DOp::Mul(ZERO), true)),
            2 | 3 => {
                for _ in 0..1 + r.below(3) {
                    let t = gen::key(r);
                    ops_.push((DOp::Mul(if r.p(1, 4) { nmul(&t, &ninv(&d)) } else { t }), false));
                }
            }
            _ => {
                for _ in 0..1 + r.below(3) {
                    ops_.push((DOp::Add(gen::key(r)), false));
                }
            }
        }
        // no proper order may fail: check every subset of the additions
        if let DOp::Add(_) = ops_[0].0 {
            if !ops_[0].1 {
                for mask in 1..1u32 << ops_.len() {
                    let mut v = d;
                    for (i, (o, _)) in ops_.iter().enumerate() {
                        if let (DOp::Add(t), true) = (o, mask >> i & 1 == 1) {
                            v = nadd(&v, t);
                        }
                    }
                    if v.is_zero() {
                        ops_.truncate(1);
                        let z = match ops_[0].0 {
                            DOp::Add(t) => nadd(&d, &t).is_zero(),
                            _ => false,
                        };
                        ops_[0].1 = z;
                        break;
                    }
                }
            }
        }
        let epoch = self.groups[g].epoch_size.len() as u32;
        self.groups[g].epoch_size.push(ops_.len() as u32);
        for (o, bad) in &ops_ {
            if !bad {
                self.groups[g].d = match o {
                    DOp::Add(t) => nadd(&self.groups[g].d, t),
                    DOp::Mul(t) => nmul(&self.groups[g].d, t),
                };
            } else {
                self.cx.count("probe:failing_step_sent");
            }
            self.groups[g].ops.push((epoch, *o, *bad));
        }
        if !extend {
            for (n, _) in self.groups[g].members.clone() {
                if self.nodes[n].up {
                    self.dg_init(n, g as u32);
                }
            }
        }
        let total = self.groups[g].ops.len();
        let now = self.cx.now;
        let _ = step;
        for k in total - ops_.len()..total {
            for (n, _) in self.groups[g].members.clone() {
                self.at(now + 1 + r.log(3000) as u64, Ev::DTimer(g as u32, k as u32, n));
            }
        }
    }
    fn dg_init(&mut self, n: usize, g: u32) {
        let holds = self.groups[g as usize].members.iter().find(|m| m.0 == n).map(|m| m.1).unwrap_or(false);
        let d0 = self.groups[g as usize].d0;
        let q0 = curve::mulg(&d0);
        let mut rep = Replica { epoch: 0, applied: BTreeSet::new(), sk: None, pk: None, buffer: vec![] };
        if holds {
            rep.sk = ops::mk_sk(self.cx, &d0).map(|s| (s, d0));
        } else {
            let mut r = Rng::new(n as u64 * 77 + g as u64);
            rep.pk = ops::mk_pk(self.cx, &mut r, &q0).map(|k| (k, q0));
        }
        self.nodes[n].dg.insert(g, rep);
    }
    fn dtimer(&mut self, g: u32, k: u32, n: usize) {
        if self.dacks.contains(&(g, k, n)) {
            return;
        }
        let leader = self.groups[g as usize].members[0].0;
        let body = vec![];
        let step = self.cx.step;
        let now = self.cx.now;
        if leader == n {
            self.at(now + 1, Ev::Msg(Msg { from: n, to: n, kind: M_DERIVE, slot: g, req: k, body, altered: false, step }));
        } else {
            self.send(step, leader, n, M_DERIVE, g, k, body);
        }
        if now < 5_000_000_000 {
            let mut r = self.srng(step);
            self.at(now + 3000 + r.below(9000) as u64, Ev::DTimer(g, k, n));
        }
    }
    fn on_derive(&mut self, m: Msg) {
        let (g, k, n) = (m.slot, m.req, m.to);
        if !self.nodes[n].dg.contains_key(&g) {
            self.dg_init(n, g);
        }
        let (epoch, _, _) = self.groups[g as usize].ops[k as usize];
        let rep = self.nodes[n].dg.get_mut(&g).unwrap();
        if rep.applied.contains(&k) {
            self.cx.count("probe:duplicate_step_ignored");
        } else if !rep.buffer.contains(&(epoch, k)) {
            rep.buffer.push((epoch, k));
        }
        // apply what is due, in arrival order
        loop {
            let rep = self.nodes[n].dg.get(&g).unwrap();
            let pos = rep.buffer.iter().position(|b| b.0 == rep.epoch);
            let pos = match pos {
                Some(p) => p,
                None => break,
            };
            let k2 = rep.buffer[pos].1;
            if !self.dg_apply(n, g, k2) {
                return; // died, or cannot continue
            }
            let sizes = self.groups[g as usize].epoch_size.clone();
            let ops_: Vec<u32> = self.groups[g as usize].ops.iter().map(|o| o.0).collect();
            let rep = self.nodes[n].dg.get_mut(&g).unwrap();
            rep.buffer.remove(pos);
            rep.applied.insert(k2);
            let e = rep.epoch;
            let done = rep.applied.iter().filter(|x| ops_[**x as usize] == e).count() as u32;
            if done == sizes[e as usize] {
                rep.epoch += 1;
            }
            self.dg_store(n, g);
            if !self.alive(n) {
                return;
            }
        }
        let applied = self.nodes[n].dg.get(&g).map(|r| r.applied.contains(&k)).unwrap_or(false);
        if applied {
            let leader = self.groups[g as usize].members[0].0;
            if leader == n {
                self.dacks.insert((g, k, n));
            } else {
                self.send(m.step, n, leader, M_DACK, g, k, vec![]);
            }
        }
    }
    fn dg_apply(&mut self, n: usize, g: u32, k: u32) -> bool {
        let (_, op, _) = self.groups[g as usize].ops[k as usize];
        let own = self.nodes[n].own_ctx;
        let p = ["C10"];
        let rep = self.nodes[n].dg.get(&g).unwrap().clone();
        if let Some((mut s, d)) = rep.sk {
            match ops::tweak_sk(self.cx, &mut s, &d, &op, &p) {
                Some(v) => {
                    // keep library and model in step even when they disagree
                    self.nodes[n].dg.get_mut(&g).unwrap().sk = Some((s, v));
                }
                None => return false,
            }
        }
        if let Some((mut s, q)) = rep.pk {
            match ops::tweak_pk(self.cx, &mut s, &q, &op, own, &p) {
                Some(v) => {
                    self.nodes[n].dg.get_mut(&g).unwrap().pk = Some((s, v));
                }
                None => return false,
            }
        }
        true
    }
    fn dg_store(&mut self, n: usize, g: u32) {
        let rep = self.nodes[n].dg.get(&g).unwrap().clone();
        let mut v = vec![rep.epoch as u8, rep.applied.len() as u8];
        v.extend(rep.applied.iter().map(|x| *x as u8));
        let mut kind = S_SK;
        if let Some((s, _)) = rep.sk {
            match self.enc_sk(&s, false, &["C10", "C06"]) {
                Some((_, b)) => v.extend(b),
                None => return,
            }
        }
        if let Some((k, _)) = rep.pk {
            kind = if rep.epoch & 1 == 0 { S_PK33 } else { S_PK65 };
            match self.enc_pk(&k, kind, &["C10", "C06"]) {
                Some(b) => v.extend(b),
                None => return,
            }
        }
        if v.len() > 250 {
            return;
        }
        self.nodes[n].disk.put(&format!("dg/{}", g), frame(kind, &v));
        if !self.alive(n) {
            return;
        }
        self.nodes[n].disk.sync();
    }
    fn dg_load(&mut self, n: usize, g: u32, kind: u8, b: &[u8]) {
        let na = b[1] as usize;
        let applied: BTreeSet<u32> = b[2..2 + na].iter().map(|x| *x as u32).collect();
        let body = b[2 + na..].to_vec();
        let p = ["C06", "C10"];
        // the value this replica must hold: its epoch's operations applied so far
        let mut d = self.groups[g as usize].d0;
        let mut order: Vec<u32> = applied.iter().copied().collect();
        order.sort();
        for k in order {
            let (_, op, bad) = self.groups[g as usize].ops[k as usize];
            if !bad {
                d = match op {
                    DOp::Add(t) => nadd(&d, &t),
                    DOp::Mul(t) => nmul(&d, &t),
                };
            }
        }
        let mut rep = Replica { epoch: b[0] as u32, applied, sk: None, pk: None, buffer: vec![] };
        if kind == S_SK {
            if let Some(s) = self.load_sk(kind, &body, &p) {
                let got = ops::u_sk(&s);
                self.cx.check(got == d, &p, "replica-resume", || format!("secret replica resumed with {} instead of {}", got.hex(), d.hex()));
                rep.sk = Some((s, got));
            } else {
                self.cx.fail(&p, "reload-refused", format!("stored replica key refused: {}", hex(&body)));
                return;
            }
        } else if let Some(k) = self.load_pk(kind, &body, &p) {
            let got = ops::pt_pk(&k);
            let want = curve::mulg(&d);
            self.cx.check(got == want, &p, "replica-resume", || format!("watch replica resumed with {} instead of {}", ops::ptx(&got), ops::ptx(&want)));
            rep.pk = Some((k, got));
        } else {
            self.cx.fail(&p, "reload-refused", format!("stored replica key refused: {}", hex(&body)));
            return;
        }
        self.cx.count("probe:replica_resumed");
        self.nodes[n].dg.insert(g, rep);
    }
    // ---- local histories ----
    fn do_tweak(&mut self, r: &mut Rng) {
        let p = ["C10"];
        let mut d = gen::key(r);
        let mut sk = match ops::mk_sk(self.cx, &d) {
            Some(s) => s,
            None => return,
        };
        let own = r.p(1, 3);
        let mut q = curve::mulg(&d);
        let mut pk = match ops::mk_pk(self.cx, r, &q) {
            Some(k) => k,
            None => return,
        };
        let steps = 2 + r.below(5);
        for _ in 0..steps {
            let op = match r.below(10) {
                0 => DOp::Add(nneg(&d)),
                1 => DOp::Mul(ZERO),
                2 => DOp::Add(d),
                3 => DOp::Mul(ninv(&d)),
                4 => DOp::Add(ZERO),
                5 | 6 => DOp::Add(gen::key(r)),
                7 => {
                    // inversion: only the signer can; the watcher gets the new key
                    if let Some(i) = ops::inv_sk(self.cx, &sk, &d, &p) {
                        sk = i;
                        d = ninv(&d);
                        q = curve::mulg(&d);
                        if let Some(k) = ops::pubkey(self.cx, &sk, &d, own, &p) {
                            pk = k;
                        }
                    }
                    continue;
                }
                // a special factor, or a special product
                _ if r.p(1, 3) => DOp::Mul(nmul(&gen::key(r), &ninv(&d))),
                _ => DOp::Mul(gen::key(r)),
            };
            let a = ops::tweak_sk(self.cx, &mut sk, &d, &op, &p);
            let b = ops::tweak_pk(self.cx, &mut pk, &q, &op, own, &p);
            let (a, b) = match (a, b) {
                (Some(a), Some(b)) => (a, b),
                _ => return,
            };
            if self.cx.viol.is_some() {
                return;
            }
            d = a;
            q = b;
        }
        if let Some(k) = ops::pubkey(self.cx, &sk, &d, own, &p) {
            let same = k == pk;
            self.cx.check(same, &p, "signer-and-watcher-diverge", || {
                format!("signer {} watcher {}", ops::pk_desc(&k), ops::pk_desc(&pk))
            });
            // and once more after storage
            self.round_trip_pk(&pk, &q, r);
        }
        // tweaks of keys nobody knows the secret of
        let q = gen::point(r);
        if let Some(mut k) = ops::mk_pk(self.cx, r, &q) {
            let t = gen::scalar0(r);
            let op = if r.p(1, 2) { DOp::Add(t) } else { DOp::Mul(t) };
            ops::tweak_pk(self.cx, &mut k, &q, &op, own, &p);
        }
    }
    fn do_combine(&mut self, r: &mut Rng) {
        // mostly a few keys, sometimes many
        let n = match r.below(8) {
            0 => (1usize << r.below(8)).wrapping_add(r.below(3)).saturating_sub(1),
            1 => r.below(70),
            2 if r.p(1, 6) => *r.pick(&[256usize, 512, 1000]) - 2 + r.below(5),
            _ => r.log(10),
        };
        let mut qs: Vec<Pt> = vec![];
        // a long list is drawn from few keys
        let pool: Vec<Pt> = if n > 10 { (0..1 + r.log(6)).map(|_| gen::point(r)).collect() } else { vec![] };
        let dens = if n > 200 { 300 } else if n > 10 { 2 + r.below(12) } else { 2 };
        while qs.len() < n {
            let i = qs.len();
            let q = if i > 0 && r.p(1, dens) {
                // related to the sum of the last few, to the running sum, or to a member
                let seg = match r.below(4) {
                    0 => i % (1 << (1 + r.below(6))),
                    1 => 1 + r.below(i),
                    _ => i,
                };
                let base = if r.p(2, 3) {
                    let mut s = Pt::Inf;
                    for q in &qs[i - seg..] {
                        s = curve::padd(&s, q);
                    }
                    s
                } else {
                    *r.pick(&qs)
                };
                if base == Pt::Inf || r.p(1, 2) {
                    gen::related(r, &base)
                } else {
                    curve::pneg(&base)
                }
            } else if n > 10 {
                *r.pick(&pool)
            } else {
                gen::point(r)
            };
            qs.push(q);
        }
        let mut ks = vec![];
        let mut made: Vec<(Pt, PublicKey)> = vec![];
        for q in &qs {
            if n > 200 {
                if let Some((_, k)) = made.iter().find(|m| m.0 == *q) {
                    ks.push(*k);
                    continue;
                }
            }
            match ops::mk_pk(self.cx, r, q) {
                Some(k) => {
                    ks.push(k);
                    made.push((*q, k));
                }
                None => return,
            }
        }
        let p = ["C10"];
        let a = ops::combine(self.cx, &ks, &qs, &p);
        if let Some(Some(k)) = &a {
            let q = ops::pt_pk(k);
            self.round_trip_pk(k, &q, r);
        }
        // the same keys delivered in another order
        for _ in 0..2 {
            let mut ix: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                ix.swap(i, r.below(i + 1));
            }
            let k2: Vec<PublicKey> = ix.iter().map(|i| ks[*i]).collect();
            let q2: Vec<Pt> = ix.iter().map(|i| qs[*i]).collect();
            self.cx.fault("net_reorder_keys");
            let b = ops::combine(self.cx, &k2, &q2, &p);
            if let (Some(a), Some(b)) = (&a, &b) {
                let same = match (a, b) {
                    (Some(x), Some(y)) => x == y,
                    (None, None) => true,
                    _ => false,
                };
                self.cx.check(same, &p, "combine-order", || format!("{:?}", qs.iter().map(ops::ptx).collect::<Vec<_>>()));
            }
        }
    }
    fn do_store(&mut self, r: &mut Rng) {
        let n = r.below(self.nodes.len());
        if !self.nodes[n].up {
            return;
        }
        let pks: Vec<(u32, PublicKey)> = self.nodes[n].pk.iter().map(|(s, k)| (*s, k.0)).collect();
        for (s, k) in pks {
            let kind = *r.pick(&[S_PK33, S_PK65, S_PK64]);
            if let Some(b) = self.enc_pk(&k, kind, &["C06"]) {
                self.nodes[n].disk.put(&format!("pk/{}", s), frame(kind, &b));
            }
            if !self.alive(n) {
                return;
            }
            if r.p(1, 2) {
                self.nodes[n].disk.sync();
            }
        }
        if r.p(1, 3) {
            // read back without a crash
            let f: Vec<String> = self.nodes[n].pk.keys().map(|s| format!("pk/{}", s)).collect();
            for f in f {
                if let Some(v) = self.nodes[n].disk.get(&f) {
                    if let (Some((k, b)), _) = unframe(&v) {
                        self.load(n, &f, k, &b);
                    }
                }
            }
        }
    }
    /// every encoding of a public key decodes to an equal key and re-encodes alike
    fn round_trip_pk(&mut self, k: &PublicKey, q: &Pt, r: &mut Rng) {
        let p = ["C06"];
        let _ = r;
        for kind in [S_PK33, S_PK65, S_PK64] {
            let b = match self.enc_pk(k, kind, &p) {
                Some(b) => b,
                None => return,
            };
            let want = match kind {
                S_PK33 => curve::compressed(q).to_vec(),
                S_PK65 => curve::full(q).to_vec(),
                _ => curve::full(q)[1..].to_vec(),
            };
            self.cx.check(b == want, &p, "pubkey-encoding", || format!("{} encoded as {} (kind {})", ops::ptx(q), hex(&b), kind));
            match self.load_pk(kind, &b, &p) {
                Some(k2) => {
                    let k1 = *k;
                    let eq = self.cx.lib("pk_eq", &p, || (k1 == k2, k2 == k1, k2.serialize() == k1.serialize()));
                    self.cx.check(eq == Some((true, true, true)), &p, "pubkey-not-equal-after-reload", || {
                        format!("{} kind {}: {:?}", ops::ptx(q), kind, eq)
                    });
                }
                None => self.cx.fail(&p, "reload-refused", format!("public key {} refused", hex(&b))),
            }
            // hybrid form of the same key
            if kind == S_PK65 {
                let mut h = b.clone();
                h[0] = 6 + (h[64] & 1);
                if let Some(k2) = self.load_pk(S_PK65, &h, &["C05", "C06"]) {
                    let k1 = *k;
                    let eq = self.cx.lib("pk_eq", &p, || k1 == k2);
                    self.cx.check(eq == Some(true), &p, "hybrid-differs", || hex(&h));
                }
            }
        }
        // different keys stay different
        let o = gen::related(&mut Rng::new(q_seed(q)), q);
        if o != *q {
            let mut r2 = Rng::new(q_seed(q) ^ 1);
            if let Some(k2) = ops::mk_pk(self.cx, &mut r2, &o) {
                let k1 = *k;
                let eq = self.cx.lib("pk_eq", &p, || {
                    (k1 == k2, k1.serialize()[..] == k2.serialize()[..], k1.serialize_compressed()[..] == k2.serialize_compressed()[..])
                });
                self.cx.check(eq == Some((false, false, false)), &p, "different-keys-equal", || {
                    format!("{} and {}: {:?}", ops::ptx(q), ops::ptx(&o), eq)
                });
            }
        }
    }
    fn do_codec(&mut self, r: &mut Rng) {
        let p = ["C06"];
        // secret keys, however produced
        let by_default = r.p(1, 8);
        let d = if by_default { ONE } else { gen::key(r) };
        let made = if by_default { self.cx.lib("SecretKey::default", &p, SecretKey::default) } else { ops::mk_sk(self.cx, &d) };
        if let Some(mut s) = made {
            let mut d = d;
            if r.p(1, 2) {
                let op = if r.p(1, 2) { DOp::Add(gen::key(r)) } else { DOp::Mul(gen::key(r)) };
                if let Some(v) = ops::tweak_sk(self.cx, &mut s, &d, &op, &["C10"]) {
                    d = v;
                }
            }
            for hexed in [false, true] {
                if let Some((k, b)) = self.enc_sk(&s, hexed, &p) {
                    let want = if hexed { d.hex().into_bytes() } else { d.to_be().to_vec() };
                    self.cx.check(b == want, &p, "secret-encoding", || {
                        format!("secret key {} written as {}", d.hex(), if hexed { String::from_utf8_lossy(&b).into() } else { hex(&b) })
                    });
                    match self.load_sk(k, &b, &p) {
                        Some(s2) => {
                            let s1 = s;
                            let eq = self.cx.lib("sk_eq", &p, || s1 == s2 && s2.serialize() == s1.serialize());
                            self.cx.check(eq == Some(true), &p, "secret-not-equal-after-reload", || d.hex());
                        }
                        None => self.cx.fail(&p, "reload-refused", format!("secret key {} refused", hex(&b))),
                    }
                }
            }
            if let Some(k) = ops::pubkey(self.cx, &s, &d, r.p(1, 3), &["C10"]) {
                let q = curve::mulg(&d);
                self.round_trip_pk(&k, &q, r);
            }
        }
        // public keys, however produced
        let q = gen::point(r);
        if let Some(mut k) = ops::mk_pk(self.cx, r, &q) {
            let mut q = q;
            if r.p(1, 2) {
                let op = if r.p(1, 2) { DOp::Add(gen::key(r)) } else { DOp::Mul(gen::key(r)) };
                if let Some(v) = ops::tweak_pk(self.cx, &mut k, &q, &op, r.p(1, 3), &["C10"]) {
                    q = v;
                }
            }
            self.round_trip_pk(&k, &q, r);
        }
        // signatures with non-zero components
        let sg = ecdsa::Sig { r: gen::key(r), s: gen::key(r) };
        let ls = ops::mk_sig(&sg);
        let enc = self.cx.lib("sig_encode", &p, || (ls.serialize().to_vec(), ls.serialize_der().as_ref().to_vec(), ls.serialize_der().len()));
        if let Some((c, der, l)) = enc {
            self.cx.check(c == codec::sig_bytes(&sg).to_vec(), &p, "signature-encoding", || format!("{:?} compact {}", sg, hex(&c)));
            self.cx.check(der == codec::sig_der(&sg) && l == der.len(), &p, "signature-encoding", || {
                format!("{} as DER {} expected {}", hex(&codec::sig_bytes(&sg)), hex(&der), hex(&codec::sig_der(&sg)))
            });
            for (which, b) in [(4usize, &c), (5, &c), (6, &der), (7, &der)] {
                let got = ops::decode(self.cx, which, b, 0, &p);
                let ok = match &got {
                    Some(Obj::Sig(s)) => *s == ls,
                    _ => false,
                };
                self.cx.check(ok, &p, "signature-not-equal-after-reload", || format!("{} via {}", hex(b), ops::DEC_NAMES[which]));
            }
        }
        // messages and recovery ids
        let mb = gen::msg(r);
        let m = self.cx.lib("msg", &p, || {
            let m = Message::parse(&mb);
            let b = m.serialize();
            (b, Message::parse(&b) == m)
        });
        self.cx.check(m == Some((nred(&U::from_be(&mb)).to_be(), true)), &p, "message-round-trip", || hex(&mb));
        let id = r.below(4) as u8;
        let x = self.cx.lib("recid", &p, || {
            let i = RecoveryId::parse(id).ok();
            let j = RecoveryId::parse_rpc(id + 27).ok();
            (i.map(|x| x.serialize()), i == j, i.map(Into::<u8>::into), i.map(Into::<i32>::into))
        });
        self.cx.check(x == Some((Some(id), true, Some(id), Some(id as i32))), &p, "recovery-id-round-trip", || format!("{}: {:?}", id, x));
    }
    /// keys built from raw curve points
    fn objects_from_affine(&mut self, r: &mut Rng) {
        use libsecp256k1::curve::{Affine, Field};
        use std::convert::TryFrom;
        let p = ["C05"];
        let q = gen::point(r);
        if let Pt::A(x, y) = q {
            let (x, y) = match r.below(4) {
                0 => (x, fadd(&y, &ONE)),
                1 => (fred(&gen::any(r)), y),
                _ => (x, y),
            };
            if x >= P || y >= P {
                return;
            }
            let want = on_curve_ok(&x, &y);
            let inf = r.p(1, 6);
            let got = self.cx.lib("try_from_affine", &p, || {
                let mut fx = Field::default();
                let mut fy = Field::default();
                let _ = fx.set_b32(&x.to_be());
                let _ = fy.set_b32(&y.to_be());
                let mut a = Affine::default();
                a.set_xy(&fx, &fy);
                a.infinity = inf;
                PublicKey::try_from(a).is_ok()
            });
            self.cx.check(got == Some(want && !inf), &p, "affine-accepted", || format!("({}, {}) infinity {}: {:?}", x.hex(), y.hex(), inf, got));
        }
        // a scalar as secret key
        let d = gen::scalar0(r);
        let s = ops::sc(&d);
        let got = self.cx.lib("try_from_scalar", &p, || SecretKey::try_from(s).is_ok());
        self.cx.check(got == Some(!d.is_zero()), &p, "scalar-accepted", || d.hex());
    }
    fn do_normalize(&mut self, r: &mut Rng) {
        for _ in 0..6 {
            let sg = ecdsa::Sig { r: gen::key(r), s: gen::scalar0(r) };
            let mut l = ops::mk_sig(&sg);
            let p = ["C01", "C02", "C03", "C06"];
            let got = self.cx.lib("normalize_s", &p, || {
                l.normalize_s();
                l
            });
            if let Some(g) = got {
                let g = ops::sig_of(&g);
                let want = if is_high(&sg.s) { nneg(&sg.s) } else { sg.s };
                self.cx.log(format!("normalize -> {}", g.s.hex()));
                self.cx.check(g.r == sg.r && g.s == want, &p, "low-s-mismatch", || {
                    format!("s {} normalised to {} instead of {}", sg.s.hex(), g.s.hex(), want.hex())
                });
            }
        }
        let _: Option<Signature> = None;
    }
    // ---- end of run ----
    fn finish(&mut self) {
        // liveness: once faults have stopped everything outstanding is accepted
        for i in 0..self.reqs.len() {
            let open: Vec<usize> = self.reqs[i].open.iter().copied().collect();
            let slot = self.reqs[i].slot;
            let m = self.reqs[i].m;
            let has_key = self.nodes[self.reqs[i].signer].sk.contains_key(&slot);
            if has_key {
                self.cx.step = self.reqs[i].step;
                self.cx.check(open.is_empty(), &["C01"], "never-accepted", || {
                    format!("request {} (message {}) still not accepted by nodes {:?} after faults stopped", i, hex(&m), open)
                });
            }
        }
        // replicas of a derivation agree with each other and with the model
        for g in 0..self.groups.len() {
            let total = self.groups[g].ops.len();
            let d = self.groups[g].d;
            let q = curve::mulg(&d);
            for (n, holds) in self.groups[g].members.clone() {
                let rep = match self.nodes[n].dg.get(&(g as u32)) {
                    Some(r) => r.clone(),
                    None => continue,
                };
                if rep.applied.len() != total {
                    self.cx.count("replica_behind_at_end");
                    continue;
                }
                self.cx.count("probe:replica_converged");
                if holds {
                    if let Some((s, _)) = rep.sk {
                        let got = ops::u_sk(&s);
                        self.cx.check(got == d, &["C10"], "replica-diverged", || format!("secret {} expected {}", got.hex(), d.hex()));
                        if let Some(k) = ops::pubkey(self.cx, &s, &got, false, &["C10"]) {
                            let g2 = ops::pt_pk(&k);
                            self.cx.check(g2 == q, &["C10"], "replica-diverged", || format!("public key {} expected {}", ops::ptx(&g2), ops::ptx(&q)));
                        }
                    }
                } else if let Some((k, _)) = rep.pk {
                    let got = ops::pt_pk(&k);
                    self.cx.check(got == q, &["C10"], "replica-diverged", || format!("watcher {} expected {}", ops::ptx(&got), ops::ptx(&q)));
                }
            }
        }
    }
}
fn q_seed(q: &Pt) -> u64 {
    match q {
        Pt::A(x, _) => x.0[0],
        _ => 0,
    }
}
fn on_curve_ok(x: &U, y: &U) -> bool {
    curve::on_curve(x, y)
}
