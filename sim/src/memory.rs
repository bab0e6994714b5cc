//! Two worlds around memory.
//!
//! contexts (C12): a process creates, uses and drops multiplication contexts on
//! a heap the simulator owns: what it hands out is full of old data, it is
//! fenced with red zones, and it may run out at any allocation.
//!
//! erasure (C15): a caller keeps keys in every kind of memory, uses them, clears
//! them; a memory image is taken at later instants.
#![allow(static_mut_refs)]
use crate::calls;
use crate::child;
use crate::ctx::Cx;
use crate::gen;
use crate::hooks;
use crate::model::{arith::*, curve, ecdsa, Pt};
use crate::plan::Step;
use crate::rng::{mix2, Rng};
use crate::tables;
use libsecp256k1 as lib;
use libsecp256k1::curve::{ECMultContext, ECMultGenContext, Scalar};
use libsecp256k1::{Message, PublicKey, RecoveryId, SecretKey, SharedSecret};
use std::panic::{catch_unwind, AssertUnwindSafe};

const C12: &[&str] = &["C12"];
const C15: &[&str] = &["C15"];
static mut MODEL: Option<tables::Model> = None;
const LAZY: bool = cfg!(feature = "lazy");

pub fn prepare_contexts() {
    curve::warm();
    unsafe { MODEL = Some(tables::model()) }
}
fn model() -> &'static tables::Model {
    unsafe { MODEL.as_ref().unwrap() }
}

pub fn plan_contexts(_prop: &str, seed: u64) -> Vec<Step> {
    let mut r = Rng::new(mix2(seed, 1));
    let n = 2 + r.below(5);
    let mut v = vec![];
    for i in 0..n {
        let kind = if i == 0 { *r.pick(&[0u8, 1, 5, 6, 7]) } else { r.weighted(&[4, 5, 4, 6, 3, 5, if LAZY { 4 } else { 2 }, 4]) as u8 };
        v.push(Step { kind, at: r.below(3) as u64, seed: r.u64(), fault: true });
    }
    v
}

struct Live {
    g: Vec<Box<ECMultContext>>,
    gen: Vec<Box<ECMultGenContext>>,
}
fn set_dirt(cx: &mut Cx, r: &mut Rng, on: bool) -> &'static str {
    unsafe {
        if !on {
            hooks::DIRTY = 0;
            return "as it comes";
        }
        let (d, n) = match r.below(5) {
            0 => (0xff, "all ones"),
            1 => (1, "all 01"),
            _ => (r.u64() | 1 << 40, "random"),
        };
        hooks::DIRTY = d;
        cx.fault("heap_memory_full_of_old_data");
        n
    }
}
/// the budget covers both tables with room to spare; beyond it creation does not end
const BUDGET: u64 = 600_000_000;

/// less than the larger table, which is a megabyte
const SMALL_STACK: usize = 960 << 10;
fn with_stack<T: Send + 'static>(small: bool, f: fn() -> T) -> T {
    if small {
        std::thread::Builder::new().stack_size(SMALL_STACK).spawn(f).unwrap().join().unwrap()
    } else {
        f()
    }
}
fn create(cx: &mut Cx, st: &Step, l: &mut Live) {
    let mut r = Rng::new(st.seed);
    let on = st.fault && !r.p(1, 6);
    let d = set_dirt(cx, &mut r, on);
    let rz = st.fault && r.p(2, 3);
    unsafe { hooks::REDZONE = rz }
    // contexts are created in place on the heap just so that little stack is enough
    let small = st.fault && r.p(1, 3);
    if small {
        cx.fault("thread_with_small_stack");
    }
    cx.budget = BUDGET;
    if st.kind == 0 {
        cx.log(format!("create multiplication context, memory {}, red zones {}, small stack {}", d, rz, small));
        if let Some(c) = cx.lib("ECMultContext::new_boxed", C12, || with_stack(small, ECMultContext::new_boxed)) {
            if l.g.len() >= 2 {
                l.g.remove(0);
            }
            l.g.push(c);
            let c = l.g.last().unwrap();
            let bad = tables::diff_g(model(), c);
            cx.check(bad.is_none(), C12, "table-wrong", || format!("entry {:?} of a created multiplication table is wrong (memory {})", bad, d));
            cx.log(format!("table {:016x}", tables::hash_g(c)));
        }
    } else {
        cx.log(format!("create generator context, memory {}, red zones {}, small stack {}", d, rz, small));
        if let Some(c) = cx.lib("ECMultGenContext::new_boxed", C12, || with_stack(small, ECMultGenContext::new_boxed)) {
            if l.gen.len() >= 3 {
                l.gen.remove(0);
            }
            l.gen.push(c);
            let c = l.gen.last().unwrap();
            let bad = tables::diff_gen(model(), c);
            cx.check(bad.is_none(), C12, "table-wrong", || format!("entry {:?} of a created generator table is wrong (memory {})", bad, d));
            cx.log(format!("table {:016x}", tables::hash_gen(c)));
        }
    }
    cx.budget = 0;
    unsafe {
        hooks::DIRTY = 0;
        hooks::REDZONE = false;
    }
    cx.seen(&[80, st.kind as u64, d.len() as u64, rz as u64, l.g.len() as u64, l.gen.len() as u64]);
}
/// a context rebuilt from the raw table another one shows
fn rebuild(cx: &mut Cx, r: &mut Rng, l: &mut Live) {
    if r.p(1, 2) {
        let src = if r.p(1, 3) { None } else { l.g.last() };
        let own = src.is_some();
        let c = cx.lib("ECMultContext::new_from_raw", C12, || unsafe {
            Box::new(match src {
                Some(c) => ECMultContext::new_from_raw(*c.inspect_raw()),
                None => ECMultContext::new_from_raw(*lib::ECMULT_CONTEXT.inspect_raw()),
            })
        });
        if let Some(c) = c {
            cx.log(format!("rebuild multiplication context from {}", if own { "a created one" } else { "the built-in one" }));
            let bad = tables::diff_g(model(), &c);
            cx.check(bad.is_none(), C12, "table-wrong", || format!("entry {:?} of a rebuilt multiplication table is wrong", bad));
            l.g.push(c);
            if l.g.len() > 2 {
                l.g.remove(0);
            }
        }
    } else {
        let src = if r.p(1, 3) { None } else { l.gen.last() };
        let own = src.is_some();
        let c = cx.lib("ECMultGenContext::new_from_raw", C12, || unsafe {
            Box::new(match src {
                Some(c) => ECMultGenContext::new_from_raw(*c.inspect_raw()),
                None => ECMultGenContext::new_from_raw(*lib::ECMULT_GEN_CONTEXT.inspect_raw()),
            })
        });
        if let Some(c) = c {
            cx.log(format!("rebuild generator context from {}", if own { "a created one" } else { "the built-in one" }));
            let bad = tables::diff_gen(model(), &c);
            cx.check(bad.is_none(), C12, "table-wrong", || format!("entry {:?} of a rebuilt generator table is wrong", bad));
            l.gen.push(c);
            if l.gen.len() > 3 {
                l.gen.remove(0);
            }
        }
    }
    cx.seen(&[82, l.g.len() as u64, l.gen.len() as u64]);
    use_ctx(cx, r, l);
}
/// calls through a caller's contexts give what the model says
fn use_ctx(cx: &mut Cx, r: &mut Rng, l: &Live) {
    let p = calls::pool(r.u64());
    let i = r.below(p.d.len());
    let (d, q) = (p.d[i], p.q[i]);
    let k = SecretKey::parse(&d.to_be()).expect("pool key");
    if let Some(c) = l.gen.last() {
        let got = cx.lib("from_secret_key_with_context", C12, || PublicKey::from_secret_key_with_context(&k, c).serialize_compressed());
        if let Some(g) = got {
            cx.check(g == curve::compressed(&q), C12, "context-result", || format!("public key of {} through a created context is {}", d.hex(), hex(&g)));
        }
        let m = &p.m[0];
        let want = ecdsa::sign(&d, &nred(&U::from_be(m)), |_| None);
        let got = cx.lib("sign_with_context", C12, || {
            let (s, id) = lib::sign_with_context(&Message::parse(m), &k, c);
            (s.serialize(), id.serialize())
        });
        if let Some((s, id)) = got {
            let w = crate::ops::mk_sig(&want.0).serialize();
            cx.check(s == w && id == want.1, C12, "context-result", || format!("signature by {} through a created context is {} {}", d.hex(), hex(&s), id));
        }
    }
    if let Some(c) = l.g.last() {
        let (i, j, s, id) = *r.pick(&p.sigs);
        let m = Message::parse(&p.m[j]);
        let sig = crate::ops::mk_sig(&s);
        let pk = PublicKey::parse(&curve::full(&p.q[i])).expect("pool point");
        let other = PublicKey::parse(&curve::full(&p.q[(i + 1) % p.q.len()])).expect("pool point");
        let got = cx.lib("verify_with_context", C12, || {
            (lib::verify_with_context(&m, &sig, &pk, c), lib::verify_with_context(&m, &sig, &other, c))
        });
        if let Some(g) = got {
            cx.check(g == (true, p.q[i] == p.q[(i + 1) % p.q.len()]), C12, "context-result", || format!("verification through a created context gives {:?}", g));
        }
        let got = cx.lib("recover_with_context", C12, || {
            lib::recover_with_context(&m, &sig, &RecoveryId::parse(id).expect("id"), c).map(|k| k.serialize_compressed().to_vec())
        });
        if let Some(g) = got {
            cx.check(g == Ok(curve::compressed(&p.q[i]).to_vec()), C12, "context-result", || format!("recovery through a created context gives {:?}", g));
        }
        let got = cx.lib("SharedSecret::new_with_context", C12, || {
            SharedSecret::<sha2::Sha256>::new_with_context(&pk, &k, c).map(|x| x.as_ref().to_vec())
        });
        let want = {
            use digest::Digest;
            let x: Pt = curve::mul(&d, &p.q[i]);
            sha2::Sha256::digest(&curve::compressed(&x)).to_vec()
        };
        if let Some(g) = got {
            cx.check(g == Ok(want), C12, "context-result", || format!("shared secret through a created context is {:?}", g));
        }
    }
}
/// Memory runs out at the k-th allocation of a creation. The process must end in
/// the standard handler; everything else is a violation.
fn oom(cx: &mut Cx, st: &Step) {
    let mut r = Rng::new(st.seed);
    let lazy_use = LAZY && st.kind == 6;
    let which = r.below(2);
    let k = if r.p(2, 3) { r.below(3) } else { r.below(8) } as i64;
    let all = r.p(1, 2);
    let what = match (lazy_use, which) {
        (false, 0) => "ECMultContext::new_boxed",
        (false, _) => "ECMultGenContext::new_boxed",
        (true, 0) => "first verification",
        (true, _) => "first signature",
    };
    let (d, msg) = (gen::key(&mut r), gen::msg(&mut r));
    let dirt = r.p(1, 2);
    let e = child::fork_run(40, || unsafe {
        let mut fds = [0i32; 2];
        libc::pipe(fds.as_mut_ptr());
        // what the handler prints, to be read by the parent once this process is gone
        let err = hooks::REPORT_FD;
        libc::signal(libc::SIGABRT, libc::SIG_DFL);
        libc::dup2(err as i32, 2);
        hooks::out("\nbegin\n");
        let key = SecretKey::parse(&d.to_be()).expect("key");
        let m = Message::parse(&msg);
        let q = curve::full(&curve::mulg(&d));
        let pk = PublicKey::parse(&q).expect("key");
        let sg = ecdsa::sign(&d, &nred(&U::from_be(&msg)), |_| None);
        let sig = crate::ops::mk_sig(&sg.0);
        hooks::CUR_OP = "out_of_memory";
        hooks::CUR_HIT = true;
        hooks::DIRTY = if dirt { 0x1234_5678_9abc } else { 0 };
        hooks::FAIL_IN = k;
        hooks::FAIL_ALL = all;
        hooks::FAILED = 0;
        hooks::ALLOCS = 0;
        hooks::FAIL_ARMED = st.fault;
        hooks::BUDGET = hooks::EDGES + BUDGET;
        hooks::LIMIT = hooks::BUDGET;
        let x = catch_unwind(AssertUnwindSafe(|| match (lazy_use, which) {
            (false, 0) => (Some(ECMultContext::new_boxed()), None, true),
            (false, _) => (None, Some(ECMultGenContext::new_boxed()), true),
            (true, 0) => (None, None, lib::verify(&m, &sig, &pk)),
            (true, _) => (None, None, lib::sign(&m, &key).0 == sig),
        }));
        hooks::FAIL_ARMED = false;
        hooks::LIMIT = u64::MAX;
        hooks::DIRTY = 0;
        let good = match &x {
            Ok((Some(c), _, _)) => tables::diff_g(model(), c).is_none(),
            Ok((_, Some(c), _)) => tables::diff_gen(model(), c).is_none(),
            Ok((_, _, ok)) => *ok,
            Err(_) => false,
        };
        hooks::out(&format!("\nreturned {} {} {} {}\n", x.is_ok(), good, hooks::FAILED, hooks::ALLOCS));
        0
    });
    let begun = e.out.contains("\nbegin\n");
    let handler = e.out.contains("memory allocation of");
    let ret: Option<Vec<String>> =
        e.out.lines().find_map(|l| l.strip_prefix("returned ").map(|x| x.split(' ').map(|s| s.to_string()).collect()));
    cx.log(format!("{} with allocation {} failing (all {}): {:?} handler {} returned {:?}", what, k, all, e.end, handler, ret));
    cx.seen(&[81, st.kind as u64, which as u64, k as u64, all as u64, dirt as u64, handler as u64]);
    if !begun {
        cx.count("probe:out_of_memory_child_not_started");
        return;
    }
    match (&e.end, ret) {
        (child::End::Signal(libc::SIGABRT), None) if handler => {
            cx.fault("allocation_failure");
            cx.check(true, C12, "-", || String::new());
        }
        (child::End::Exit(0), Some(r)) if r[2] == "0" => {
            // there were fewer allocations than that
            cx.count("probe:allocation_failure_not_reached");
            cx.check(r[0] == "true" && r[1] == "true", C12, "table-wrong", || format!("{} gives a wrong table ({:?})", what, r));
        }
        (child::End::Exit(0), Some(r)) => {
            let m = if r[0] == "true" { "returned a context" } else { "panicked" };
            cx.check(false, C12, "allocation-failure-not-reported", || {
                format!("{} {} although allocation {} failed, instead of ending in the allocation-failure handler", what, m, k)
            });
        }
        (end, _) => {
            let (cl, w) = match child::last_words(&e) {
                Some(('H', ..)) => ("hang", "did not finish".to_string()),
                Some((_, _, _, s)) => ("crash", format!("died of signal {}", s)),
                None => ("crash", format!("ended with {:?}", end)),
            };
            cx.check(false, C12, cl, || format!("{} {} when allocation {} failed, instead of ending in the allocation-failure handler", what, w, k));
        }
    }
}
pub fn run_contexts(cx: &mut Cx, _seed: u64, steps: &[Step]) {
    let end = child::in_child(cx, 40, |cx| {
        let mut l = Live { g: vec![], gen: vec![] };
        for (n, st) in steps.iter().enumerate() {
            cx.step = n as u64;
            let e0 = hooks::edges();
            let mut r = Rng::new(st.seed);
            match st.kind {
                0 | 1 => create(cx, st, &mut l),
                2 => {
                    if r.p(1, 2) && !l.g.is_empty() {
                        let i = r.below(l.g.len());
                        let c = l.g.remove(i);
                        let bad = tables::diff_g(model(), &c);
                        cx.check(bad.is_none(), C12, "table-changed", || format!("entry {:?} changed while the context was in use", bad));
                        drop(c);
                        cx.log("drop multiplication context".into());
                    } else if !l.gen.is_empty() {
                        let i = r.below(l.gen.len());
                        let c = l.gen.remove(i);
                        let bad = tables::diff_gen(model(), &c);
                        cx.check(bad.is_none(), C12, "table-changed", || format!("entry {:?} changed while the context was in use", bad));
                        drop(c);
                        cx.log("drop generator context".into());
                    }
                }
                3 => {
                    cx.log("use the contexts".into());
                    use_ctx(cx, &mut r, &l);
                }
                4 => {
                    // other parts of the program use and release the same memory
                    cx.log("churn the heap".into());
                    let mut v: Vec<Vec<u8>> = vec![];
                    for _ in 0..1 + r.below(6) {
                        let n = *r.pick(&[65536usize, 1 << 20, 4096, 1024 * 96, 700_000]);
                        v.push(vec![r.u64() as u8 | 1; n]);
                    }
                    cx.fault("heap_churn");
                    drop(v);
                }
                7 => rebuild(cx, &mut r, &mut l),
                _ => oom(cx, st),
            }
            cx.st.sim_ns += hooks::edges() - e0;
            cx.check(hooks::redzones_intact(), C12, "out-of-bounds", || {
                "memory outside the allocation of a context was written, or it was released with another size".into()
            });
            if cx.viol.is_some() {
                break;
            }
        }
        // the contexts built in, after all that (in the lazy builds this is their first use, on a dirty heap)
        let mut r = Rng::new(mix2(_seed, 9));
        let d = set_dirt(cx, &mut r, steps.iter().any(|s| s.fault));
        let f = steps.len() + 100;
        let a = cx.lib("builtin_multiplication_context", C12, || tables::diff_g(model(), &libsecp256k1::ECMULT_CONTEXT));
        if let Some(a) = a {
            cx.check(a.is_none(), C12, "table-wrong", || format!("entry {:?} of the built-in multiplication table is wrong (memory {})", a, d));
        }
        let b = cx.lib("builtin_generator_context", C12, || tables::diff_gen(model(), &libsecp256k1::ECMULT_GEN_CONTEXT));
        if let Some(b) = b {
            cx.check(b.is_none(), C12, "table-wrong", || format!("entry {:?} of the built-in generator table is wrong (memory {})", b, d));
        }
        unsafe { hooks::DIRTY = 0 }
        cx.step = f as u64;
        let i = LIVE_OF(&l);
        cx.st.inter.insert(mix2(cx.hash, i));
    });
    match (&end, cx.viol.is_some()) {
        (child::End::Exit(0), _) | (_, true) => {}
        (e, _) => {
            cx.log(format!("process ended: {:?}", e));
            cx.check(false, C12, "crash", || format!("a process creating and using contexts ended with {:?}", e));
        }
    }
}
#[allow(non_snake_case)]
fn LIVE_OF(l: &Live) -> u64 {
    (l.g.len() * 8 + l.gen.len()) as u64
}

// ---- erasure ----
pub fn plan_erasure(_prop: &str, seed: u64) -> Vec<Step> {
    let mut r = Rng::new(mix2(seed, 1));
    let n = 4 + r.below(24);
    (0..n).map(|_| Step { kind: r.below(8) as u8, at: r.below(2) as u64, seed: r.u64(), fault: true }).collect()
}
const N: usize = std::mem::size_of::<SecretKey>();
/// copy memory without the compiler knowing what is read
#[inline(always)]
unsafe fn image(addr: usize, out: *mut u8, n: usize) {
    std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rsi") addr => _, inout("rdi") out => _, options(nostack, preserves_flags));
}
/// does the image show four consecutive bytes of the secret?
fn leaks(secret: &[u8], img: &[u8]) -> bool {
    secret.windows(4).any(|w| w.iter().filter(|b| **b != 0).count() >= 3 && img.windows(4).any(|v| v == w))
}
trait Obj: Sized {
    const NAME: &'static str;
    fn make(d: &U) -> Self;
    fn wipe(&mut self);
    fn zero(&self) -> bool;
}
impl Obj for SecretKey {
    const NAME: &'static str = "secret key";
    #[inline(always)]
    fn make(d: &U) -> Self {
        SecretKey::parse(&d.to_be()).expect("key")
    }
    #[inline(always)]
    fn wipe(&mut self) {
        self.clear()
    }
    fn zero(&self) -> bool {
        let s: Scalar = self.clone().into();
        self.is_zero() && self.serialize() == [0; 32] && s.is_zero()
    }
}
impl Obj for Scalar {
    const NAME: &'static str = "scalar";
    #[inline(always)]
    fn make(d: &U) -> Self {
        let mut s = Scalar::default();
        let _ = s.set_b32(&d.to_be());
        s
    }
    #[inline(always)]
    fn wipe(&mut self) {
        self.clear()
    }
    fn zero(&self) -> bool {
        self.is_zero() && self.b32() == [0; 32]
    }
}
#[inline(always)]
fn opaque<T>(x: T) -> T {
    std::hint::black_box(x)
}
/// what the key is used for before it is cleared
fn history(r: &mut Rng, n: usize, k: &mut SecretKey) -> u64 {
    let mut u = 0;
    for _ in 0..n {
        let w = r.below(10) as u64;
        u = u * 11 + w + 1;
        match w {
            0 => {
                let _ = opaque(lib::sign(&Message::parse(&gen::msg(r)), k));
            }
            1 => {
                let _ = opaque(PublicKey::from_secret_key(k));
            }
            2 | 3 => {
                let q = PublicKey::from_secret_key(&SecretKey::parse(&gen::key(r).to_be()).expect("key"));
                if w == 3 {
                    calls::arm_digest(1 + r.below(3) as u32, 0);
                }
                let _ = catch_unwind(AssertUnwindSafe(|| opaque(SharedSecret::<calls::FDigest>::new(&q, k).is_ok())));
                calls::arm_digest(0, 0);
            }
            4 => {
                let _ = opaque(k.inv());
            }
            5 => {
                let t = SecretKey::parse(&gen::key(r).to_be()).expect("key");
                let _ = opaque(k.tweak_add_assign(&t).is_ok());
            }
            6 => {
                let t = SecretKey::parse(&gen::key(r).to_be()).expect("key");
                let _ = opaque(k.tweak_mul_assign(&t).is_ok());
            }
            7 => {
                let _ = opaque(format!("{:x} {:?}", k, k).len());
            }
            8 => {
                let c = k.clone();
                let _ = opaque(c == *k);
            }
            _ => {
                let _ = opaque(k.serialize());
            }
        }
    }
    u
}
struct Shot {
    addr: usize,
    before: [u8; N],
    after: [u8; N],
    zero: bool,
}
/// a key on the stack of a function that returns right after clearing it
#[inline(never)]
fn on_stack<T: Obj>(d: &U, s: &mut Shot) {
    let mut k = T::make(d);
    s.addr = opaque(&k as *const T as usize);
    unsafe { image(s.addr, s.before.as_mut_ptr(), N) };
    k.wipe();
}
/// the same with the frame still alive
#[inline(never)]
fn on_stack_live<T: Obj>(d: &U, s: &mut Shot) {
    let mut k = T::make(d);
    s.addr = opaque(&k as *const T as usize);
    unsafe { image(s.addr, s.before.as_mut_ptr(), N) };
    k.wipe();
    unsafe { image(s.addr, s.after.as_mut_ptr(), N) };
    s.zero = k.zero();
}
/// on the stack, used, then cleared while the function unwinds from a panic
#[inline(never)]
fn on_stack_used(d: &U, s: &mut Shot, r: &mut Rng, n: usize) -> u64 {
    let mut k = SecretKey::make(d);
    let u = history(r, n, &mut k);
    s.addr = opaque(&k as *const SecretKey as usize);
    unsafe { image(s.addr, s.before.as_mut_ptr(), N) };
    k.wipe();
    u
}
struct Guard(SecretKey);
impl Drop for Guard {
    fn drop(&mut self) {
        self.0.clear()
    }
}
#[inline(never)]
fn unwinding(d: &U, s: &mut Shot, r: &mut Rng, n: usize) -> u64 {
    let mut u = 0;
    let a = &mut *s;
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let mut k = Box::new(Guard(SecretKey::make(d)));
        u = history(r, n, &mut k.0);
        a.addr = opaque(&k.0 as *const SecretKey as usize);
        unsafe {
            image(a.addr, a.before.as_mut_ptr(), N);
            hooks::WATCH = (a.addr, N);
            hooks::WATCH_HIT = 0;
        }
        std::panic::panic_any(calls::DigestFailure(77));
    }));
    u
}
/// on the heap, released right after clearing
#[inline(never)]
fn on_heap<T: Obj>(d: &U, s: &mut Shot) {
    let mut k = Box::new(T::make(d));
    s.addr = opaque(&*k as *const T as usize);
    unsafe {
        image(s.addr, s.before.as_mut_ptr(), N);
        hooks::WATCH = (s.addr, N);
        hooks::WATCH_HIT = 0;
    }
    k.wipe();
}
#[inline(never)]
fn on_heap_used(d: &U, s: &mut Shot, r: &mut Rng, n: usize) -> u64 {
    let mut k = Box::new(SecretKey::make(d));
    let u = history(r, n, &mut k);
    s.addr = opaque(&*k as *const SecretKey as usize);
    unsafe {
        image(s.addr, s.before.as_mut_ptr(), N);
        hooks::WATCH = (s.addr, N);
        hooks::WATCH_HIT = 0;
    }
    k.wipe();
    u
}
static mut STATIC_KEY: Option<SecretKey> = None;

pub fn run_erasure(cx: &mut Cx, _seed: u64, steps: &[Step]) {
    let p = calls::pool(_seed);
    for (n, st) in steps.iter().enumerate() {
        cx.step = n as u64;
        let mut r = Rng::new(st.seed);
        let d = gen::key(&mut r);
        let hist = if st.fault { r.below(5) } else { 0 };
        let sk = st.at == 0;
        let mut s = Shot { addr: 0, before: [0; N], after: [0; N], zero: true };
        unsafe {
            hooks::WATCH = (0, 0);
            hooks::WATCH_HIT = 0;
        }
        let mut used = 0;
        let e0 = hooks::edges();
        let name = if sk || matches!(st.kind, 4..=7) { SecretKey::NAME } else { Scalar::NAME };
        let wher;
        // dead: 0 live object, 1 its frame is gone, 2 its memory was released
        let dead;
        let mut others: Option<String> = None;
        match st.kind {
            0 => {
                wher = "stack of a function that has returned";
                dead = 1;
                if sk {
                    cx.lib("clear", C15, || {
                        on_stack::<SecretKey>(&d, &mut s);
                        unsafe { image(s.addr, s.after.as_mut_ptr(), N) }
                    });
                } else {
                    cx.lib("clear", C15, || {
                        on_stack::<Scalar>(&d, &mut s);
                        unsafe { image(s.addr, s.after.as_mut_ptr(), N) }
                    });
                }
            }
            1 => {
                wher = "stack of a function still running";
                dead = 0;
                cx.lib("clear", C15, || if sk { on_stack_live::<SecretKey>(&d, &mut s) } else { on_stack_live::<Scalar>(&d, &mut s) });
            }
            2 | 3 => {
                wher = "heap, released at once";
                dead = 2;
                cx.lib("clear", C15, || if sk { on_heap::<SecretKey>(&d, &mut s) } else { on_heap::<Scalar>(&d, &mut s) });
            }
            4 => {
                wher = "heap after use, released at once";
                dead = 2;
                cx.lib("clear", C15, || used = on_heap_used(&d, &mut s, &mut r, hist));
            }
            5 => {
                wher = "stack after use, function returned";
                dead = 1;
                cx.lib("clear", C15, || {
                    used = on_stack_used(&d, &mut s, &mut r, hist);
                    unsafe { image(s.addr, s.after.as_mut_ptr(), N) }
                });
            }
            6 => {
                if r.p(1, 2) {
                    wher = "heap, cleared while a panic unwinds";
                    dead = 2;
                    cx.lib("clear", C15, || used = unwinding(&d, &mut s, &mut r, hist));
                    cx.fault("panic_unwinds_past_the_key");
                } else {
                    wher = "static";
                    dead = 0;
                    cx.lib("clear", C15, || unsafe {
                        STATIC_KEY = Some(SecretKey::make(&d));
                        let k = STATIC_KEY.as_mut().unwrap();
                        used = history(&mut r, hist, k);
                        s.addr = opaque(k as *const SecretKey as usize);
                        image(s.addr, s.before.as_mut_ptr(), N);
                        k.clear();
                        image(s.addr, s.after.as_mut_ptr(), N);
                        s.zero = k.zero();
                    });
                }
            }
            _ => {
                wher = "one of several in a vector, seen again after other work";
                dead = 0;
                let m = 2 + r.below(5);
                let i = r.below(m);
                let keys: Vec<U> = (0..m).map(|_| gen::key(&mut r)).collect();
                cx.lib("clear", C15, || {
                    let mut v: Vec<SecretKey> = keys.iter().map(SecretKey::make).collect();
                    used = history(&mut r, hist, &mut v[i]);
                    let copy = v[i].clone();
                    let want = copy.serialize();
                    s.addr = opaque(&v[i] as *const SecretKey as usize);
                    unsafe { image(s.addr, s.before.as_mut_ptr(), N) };
                    v[i].clear();
                    // some time passes
                    for _ in 0..r.below(3) {
                        let _ = opaque(calls::call(r.below(calls::N_PLAIN as usize) as u8, r.u64(), &p, false));
                    }
                    unsafe { image(s.addr, s.after.as_mut_ptr(), N) };
                    s.zero = v[i].zero();
                    if copy.serialize() != want {
                        others = Some(format!("a copy changed from {} to {}", hex(&want), hex(&copy.serialize())));
                    }
                    for (j, k) in v.iter().enumerate() {
                        if j != i && k.serialize() != keys[j].to_be() {
                            others = Some(format!("key {} changed when key {} was cleared", j, i));
                        }
                    }
                });
            }
        }
        cx.st.sim_ns += hooks::edges() - e0;
        if dead == 2 {
            unsafe {
                s.after.copy_from_slice(&hooks::WATCH_IMG[..N]);
                if hooks::WATCH_HIT == 0 {
                    cx.count("probe:release_not_seen");
                    s.after = [0; N];
                }
                hooks::WATCH = (0, 0);
            }
        }
        cx.fault("memory_image_taken");
        cx.log(format!("{} in {}, used {:x}", name, wher, used));
        cx.seen(&[90, st.kind as u64, st.at, used, dead]);
        cx.st.inter.insert(mix2(mix2(st.kind as u64, st.at), used));
        let what = || format!("{} {}: memory {} held {} and after clear {} (history {:x})", name, d.hex(), wher, hex(&s.before), hex(&s.after), used);
        let leak = leaks(&s.before, &s.after);
        cx.check(!leak, C15, "secret-remains", what);
        if dead != 1 {
            cx.check(s.after == [0; N], C15, "not-zero", what);
        }
        cx.check(s.zero, C15, "cleared-key-not-zero", || format!("{} {} in {} does not report zero after clear", name, d.hex(), wher));
        cx.check(others.is_none(), C15, "other-key-affected", || others.clone().unwrap_or_default());
        if cx.viol.is_some() {
            return;
        }
    }
}
