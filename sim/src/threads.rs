//! World B: several caller threads inside one process under a scheduler the
//! simulator owns. They are real threads, but only the one holding the baton
//! runs; the baton moves at library control-flow edges and at single loads and
//! stores, and std's locks and Once block on a simulated futex. A thread may be
//! suspended at any of those points until everybody else is done, or for ever.
#![allow(static_mut_refs)]
use crate::calls::{self, Pool};
use crate::child;
use crate::ctx::{fnv, Cx, FNV0};
use crate::hooks;
use crate::ops;
use crate::plan::Step;
use crate::rng::{mix2, Rng};
use crate::tables;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

const MAX_SWITCHES: u64 = 6000;
pub const LAZY: bool = cfg!(feature = "lazy");

pub fn plan(prop: &str, seed: u64) -> Vec<Step> {
    let mut r = Rng::new(mix2(seed, 1));
    let race = prop == "C12";
    // several callers make contexts of their own at once
    let makers = race && r.p(1, 5);
    // mostly few threads with several calls each, sometimes many threads
    let crowd = r.p(1, 10) && !makers;
    let nt = if crowd { 6 + r.below(if race { 8 } else { NT - 6 }) } else if race { 2 + r.below(3) } else { 2 + r.log(3) };
    let n = if race { nt + r.below(3) } else if crowd { nt + r.below(4) } else { nt + r.below(2 * nt + 2) };
    // swarm: a run concentrates on a few kinds of call
    let all: Vec<u8> = match prop {
        // calls that exist with an explicit context or need none
        "C12" => vec![0, 1, 2, 3, 4, 5, 6, 7, 10],
        "C14" => vec![0, 2, 3, 4, 7, 12, 13, 14, calls::K_SIMSERDE, calls::K_NEST, calls::K_DIGEST, calls::K_RNG, calls::K_FMT, calls::K_SERDE, calls::K_NESTD, calls::K_NESTR],
        _ => {
            let mut v: Vec<u8> = (0..calls::N_PLAIN).collect();
            if r.p(1, 12) {
                v.push(calls::K_BOXED);
            }
            v
        }
    };
    let nk = 1 + r.below(4);
    let kinds: Vec<u8> = (0..nk).map(|_| *r.pick(&all)).collect();
    let same = r.p(1, 4);
    let sseed = r.u64();
    (0..n)
        .map(|i| {
            let at = if i < nt { i } else { r.below(nt) };
            let kind = if makers && (i < 2 || r.p(1, 2)) {
                calls::K_BOXED
            } else if race && i < nt { *r.pick(&[0u8, 1, 2, 3, 4, 5, 7]) } else { *r.pick(&kinds) };
            let s = r.u64();
            // the seed's lower half picks the call's arguments, the upper half its preemptions
            let s = if same { (s & !0xffff_ffff) | (sseed & 0xffff_ffff) } else { s };
            Step { kind, at: at as u64, seed: s, fault: true }
        })
        .collect()
}
fn own_ctx(s: &Step, race: bool) -> bool {
    !race && s.seed & 3 == 0
}
fn arg_seed(s: &Step) -> u64 {
    s.seed & 0xffff_ffff
}

// ---- the scheduler ----
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Blocked(usize),
    BlockedTimed(usize),
    Held,
    Abandoned,
    Done,
}
#[derive(Clone, Copy, Debug)]
enum Rule {
    Straight,
    /// on average every so many events
    Gaps(u32),
    /// at accesses to memory other threads can reach, this often in 16, and sometimes elsewhere
    Shared(u32, u32),
    /// stop at this event, or at this shared access, and let everybody else finish
    Hold(u64, u64),
    Abandon(u64, u64),
}
struct Op {
    kind: u8,
    seed: u64,
    own: bool,
    rule: Rule,
    step: usize,
    result: Option<String>,
}
struct Th {
    st: St,
    ops: Vec<Op>,
    cur: usize,
    in_op: bool,
    ev: u64,
    sh: u64,
    gap: u64,
    woken: bool,
}
struct S {
    th: Vec<Th>,
    r: Rng,
    pool: Pool,
    strict: bool,
    total: u64,
    budget: u64,
    since: u64,
    fair: u64,
    trace: Vec<String>,
    trace_on: bool,
    hash: u64,
    switches: u64,
    preempted: u64,
    held: u64,
    abandoned: u64,
    spurious: u64,
    waits: u64,
    shared_seen: u64,
    verdict: Option<String>,
}
static mut SIM: Option<S> = None;
/// the thread holding the baton; -1: the controlling thread
static mut CUR: i32 = -1;
static BATON: [AtomicU32; NT + 2] = [const { AtomicU32::new(0) }; NT + 2];
const NT: usize = 32;
const MAIN: usize = NT;
const NOBODY: usize = NT + 1;
static mut SHARED: [(usize, usize); 3] = [(0, 0); 3];

fn s() -> &'static mut S {
    unsafe { SIM.as_mut().unwrap() }
}
fn pass(i: usize) {
    BATON[i].store(1, SeqCst);
    unsafe {
        hooks::sys6(202, BATON[i].as_ptr() as i64, 1 | 128, 1, 0, 0, 0);
    }
}
fn await_baton(i: usize) {
    while BATON[i].load(SeqCst) == 0 {
        unsafe {
            hooks::sys6(202, BATON[i].as_ptr() as i64, 0 | 128, 0, 0, 0, 0);
        }
    }
    BATON[i].store(0, SeqCst);
}
fn announce(i: i32) {
    unsafe {
        CUR = i;
        if i >= 0 {
            let t = &s().th[i as usize];
            if let Some(o) = t.ops.get(t.cur) {
                hooks::CUR_OP = calls::NAMES[o.kind as usize];
                hooks::CUR_STEP = o.step as u64;
            }
        }
    }
}
/// give the baton to `to` and wait for it to come back
fn switch(me: usize, to: usize, why: &str) {
    let s = s();
    s.switches += 1;
    s.since = 0;
    let t = &s.th[me];
    let at = (me as u64) << 40 | (t.cur as u64) << 32 | (t.ev >> 6);
    s.hash = fnv(s.hash, &at.to_le_bytes());
    s.hash = fnv(s.hash, &[to as u8]);
    if s.trace_on && s.trace.len() < 400 {
        let k = t.ops.get(t.cur).map(|o| calls::NAMES[o.kind as usize]).unwrap_or("-");
        s.trace.push(format!("thread {} in {} at event {} (shared access {}): {}, thread {} runs", me, k, t.ev, t.sh, why, to));
    }
    if to == me {
        return;
    }
    announce(to as i32);
    pass(to);
    if s.th[me].st != St::Abandoned {
        await_baton(me);
    } else {
        // never resumed
        loop {
            await_baton(me);
        }
    }
}
fn ready(me: usize) -> Vec<usize> {
    (0..s().th.len()).filter(|i| *i != me && s().th[*i].st == St::Ready).collect()
}
fn finish(v: Option<String>) -> ! {
    let s = s();
    if s.verdict.is_none() {
        s.verdict = v;
    }
    announce(-1);
    pass(MAIN);
    loop {
        await_baton(NOBODY);
    }
}
/// the current thread cannot go on: choose another
fn reschedule(me: usize, why: &str) {
    let s = s();
    let rd = ready(me);
    if !rd.is_empty() {
        let to = rd[s.r.below(rd.len())];
        return switch(me, to, why);
    }
    // nobody is ready
    let held: Vec<usize> = (0..s.th.len()).filter(|i| s.th[*i].st == St::Held).collect();
    let blocked: Vec<usize> = (0..s.th.len()).filter(|i| matches!(s.th[*i].st, St::Blocked(_))).collect();
    let timed: Vec<usize> = (0..s.th.len()).filter(|i| matches!(s.th[*i].st, St::BlockedTimed(_))).collect();
    if s.strict && !blocked.is_empty() && (!held.is_empty() || s.th.iter().any(|t| t.st == St::Abandoned)) {
        let b = blocked[0];
        let k = calls::NAMES[s.th[b].ops[s.th[b].cur].kind as usize];
        finish(Some(format!("blocked-by-suspended-thread: thread {} waits inside {} for a thread that is suspended", b, k)));
    }
    if let Some(i) = timed.first() {
        // simulated time jumps to the earliest deadline
        let i = *i;
        s.th[i].st = St::Ready;
        s.th[i].woken = false;
        return switch(me, i, why);
    }
    if !held.is_empty() {
        let i = held[s.r.below(held.len())];
        s.th[i].st = St::Ready;
        return switch(me, i, why);
    }
    if s.th.iter().all(|t| matches!(t.st, St::Done | St::Abandoned)) {
        finish(None);
    }
    if blocked.is_empty() {
        return; // only the current thread is left
    }
    let b = blocked[0];
    let k = calls::NAMES[s.th[b].ops[s.th[b].cur].kind as usize];
    finish(Some(format!("deadlock: thread {} waits inside {} and nobody is left to wake it", b, k)));
}
fn is_shared(a: usize) -> bool {
    unsafe { SHARED.iter().any(|r| a >= r.0 && a < r.1) }
}
fn gap(r: &mut Rng, g: u32) -> u64 {
    1 + r.below(2 * g as usize) as u64
}
fn on_event(kind: u32, addr: usize) {
    let me = unsafe { CUR };
    if me < 0 {
        return;
    }
    let me = me as usize;
    let s = s();
    s.total += 1;
    s.since += 1;
    let t = &mut s.th[me];
    if !t.in_op {
        return;
    }
    t.ev += 1;
    let sh = (kind == 1 || kind == 2) && is_shared(addr);
    if sh {
        t.sh += 1;
        s.shared_seen += 1;
    }
    if s.total > s.budget {
        let k = calls::NAMES[t.ops[t.cur].kind as usize];
        let n = s.th.iter().filter(|t| matches!(t.st, St::Held | St::Abandoned)).count();
        finish(Some(format!("no-progress: thread {} still inside {} after {} events ({} threads suspended)", me, k, s.total, n)));
    }
    let go = match t.ops[t.cur].rule {
        _ if kind == 3 => true,
        // enough switches for one run: the rest goes straight on
        Rule::Gaps(_) | Rule::Shared(..) if s.preempted > MAX_SWITCHES => false,
        Rule::Straight => false,
        Rule::Gaps(g) => {
            t.gap = t.gap.saturating_sub(1);
            if t.gap == 0 || (kind == 4 && s.r.p(1, 3)) {
                t.gap = gap(&mut s.r, g);
                true
            } else {
                false
            }
        }
        Rule::Shared(p, g) => {
            if sh || kind == 4 {
                s.r.p(p as usize, 16)
            } else {
                t.gap = t.gap.saturating_sub(1);
                if t.gap == 0 {
                    t.gap = gap(&mut s.r, g);
                    true
                } else {
                    false
                }
            }
        }
        Rule::Hold(e, n) | Rule::Abandon(e, n) => {
            let ab = matches!(t.ops[t.cur].rule, Rule::Abandon(..));
            let hit = if n > 0 { sh && t.sh == n } else { t.ev == e };
            if hit {
                t.ops[t.cur].rule = Rule::Straight;
                let others = s.th.iter().enumerate().filter(|(i, t)| *i != me && !matches!(t.st, St::Done | St::Abandoned)).count();
                if others > 0 {
                    s.th[me].st = if ab { St::Abandoned } else { St::Held };
                    if ab { s.abandoned += 1 } else { s.held += 1 }
                    reschedule(me, if ab { "abandoned" } else { "stalled" });
                    return;
                }
            }
            false
        }
    };
    if go {
        let rd = ready(me);
        if !rd.is_empty() {
            s.preempted += 1;
            let to = rd[s.r.below(rd.len())];
            switch(me, to, "preempted");
            return;
        }
        if kind == 3 && s.strict == false {
            let held: Vec<usize> = (0..s.th.len()).filter(|i| s.th[*i].st == St::Held).collect();
            if !held.is_empty() {
                s.th[held[0]].st = St::Ready;
                switch(me, held[0], "yielded");
                return;
            }
        }
    }
    if s.since > s.fair {
        // a thread that waits by spinning must let the others run some time
        s.since = 0;
        let mut rd = ready(me);
        if rd.is_empty() && !s.strict {
            rd = (0..s.th.len()).filter(|i| s.th[*i].st == St::Held).collect();
            for i in &rd {
                s.th[*i].st = St::Ready;
            }
        }
        if !rd.is_empty() {
            let to = rd[s.r.below(rd.len())];
            switch(me, to, "time slice used up");
        }
    }
}
unsafe fn futex(n: i64, a: i64, op: i64, v: i64, tmo: i64, _f: i64, _g: i64) -> Option<i64> {
    if n != 202 || CUR < 0 {
        return None;
    }
    let me = CUR as usize;
    let s = s();
    match op & 127 {
        0 | 9 => {
            if std::ptr::read_volatile(a as *const u32) != v as u32 {
                return Some(-11);
            }
            s.waits += 1;
            if s.r.p(1, 8) {
                s.spurious += 1;
                return Some(-4);
            }
            let addr = a as usize;
            s.th[me].st = if tmo != 0 { St::BlockedTimed(addr) } else { St::Blocked(addr) };
            s.th[me].woken = true;
            reschedule(me, "waits");
            let t = &mut self::s().th[me];
            if t.st != St::Ready {
                // came back without a wake-up: only possible when alone
                t.st = St::Ready;
                return Some(-4);
            }
            Some(if t.woken { 0 } else { -110 })
        }
        1 | 10 => {
            let mut k = 0;
            while k < v {
                let w: Vec<usize> = (0..s.th.len())
                    .filter(|i| s.th[*i].st == St::Blocked(a as usize) || s.th[*i].st == St::BlockedTimed(a as usize))
                    .collect();
                if w.is_empty() {
                    break;
                }
                let i = w[s.r.below(w.len())];
                s.th[i].st = St::Ready;
                s.th[i].woken = true;
                k += 1;
            }
            Some(k)
        }
        _ => None,
    }
}
fn body(i: usize) {
    await_baton(i);
    let n = s().th[i].ops.len();
    for k in 0..n {
        {
            let s = s();
            let t = &mut s.th[i];
            t.cur = k;
            t.ev = 0;
            t.sh = 0;
            t.gap = match t.ops[k].rule {
                Rule::Gaps(g) | Rule::Shared(_, g) => gap(&mut s.r, g),
                _ => 0,
            };
        }
        announce(i as i32);
        let (kind, seed, own) = {
            let o = &s().th[i].ops[k];
            (o.kind, o.seed, o.own)
        };
        let pool = s().pool.clone();
        s().th[i].in_op = true;
        let res = calls::call(kind, seed, &pool, own);
        let s = s();
        s.th[i].in_op = false;
        s.th[i].ops[k].result = Some(res);
        if k + 1 < n && s.r.p(1, 2) {
            let rd = ready(i);
            if !rd.is_empty() {
                let to = rd[s.r.below(rd.len())];
                switch(i, to, "finished a call");
            }
        }
    }
    s().th[i].st = St::Done;
    reschedule(i, "finished");
    if s().th.iter().all(|t| matches!(t.st, St::Done | St::Abandoned)) {
        finish(None);
    }
    finish(Some("scheduler: nobody to run".into()));
}
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
fn rule(step: &Step, prop: &str, evs: u64, shs: u64) -> Rule {
    if !step.fault {
        return Rule::Straight;
    }
    let mut r = Rng::new(mix2(step.seed, 5));
    let w: [u32; 5] = match prop {
        "C12" => [3, 5, 6, 6, if LAZY { 0 } else { 2 }],
        _ => [2, 6, 4, 5, 2],
    };
    if step.kind == calls::K_BOXED && r.p(1, 4) && evs > 1 {
        // while the finished table is being written
        return Rule::Hold(evs - r.log(evs as usize - 1) as u64, 0);
    }
    let big = evs.max(2000);
    match r.weighted(&w) {
        0 => Rule::Straight,
        // from a handful of switches to thousands
        1 => Rule::Gaps((big / (1 + r.log(4000) as u64)).clamp(1, 1 << 22) as u32),
        2 => Rule::Shared(*r.pick(&[1, 4, 8, 16]), 1 + r.log(big.min(1 << 22) as usize) as u32),
        k => {
            let by_shared = shs > 0 && r.p(1, 2);
            let n = if by_shared { 1 + if r.p(1, 2) { r.log(shs as usize - 1) } else { r.below(shs as usize) } as u64 } else { 0 };
            let e = if r.p(1, 3) { 1 + r.log(evs.max(2) as usize - 1) as u64 } else { 1 + r.below(evs.max(1) as usize) as u64 };
            if k == 3 { Rule::Hold(e, n) } else { Rule::Abandon(e, n) }
        }
    }
}
/// what each call costs alone, in events and shared accesses
fn counter(kind: u32, addr: usize) {
    unsafe {
        COUNT.0 += 1;
        if (kind == 1 || kind == 2) && is_shared(addr) {
            COUNT.1 += 1;
        }
    }
}
static mut COUNT: (u64, u64) = (0, 0);
static mut MODEL: Option<tables::Model> = None;

pub fn prepare(prop: &str) {
    crate::model::curve::warm();
    unsafe {
        SHARED[0] = (std::ptr::addr_of!(__data_start) as usize, std::ptr::addr_of!(_end) as usize);
        if std::env::var_os("SIM_NOBOXED").is_none() {
            let mut cx = Cx::new("-", false);
            cx.budget = 400_000_000;
            let _ = cx.lib_raw("make_boxed", &[], ops::make_boxed);
            if let Some((c, g)) = ops::boxed() {
                let a = c as *const _ as usize;
                SHARED[1] = (a, a + std::mem::size_of_val(c));
                let a = g as *const _ as usize;
                SHARED[2] = (a, a + std::mem::size_of_val(g));
            }
        }
        if LAZY && prop == "C12" {
            MODEL = Some(tables::model());
        }
    }
}
fn protect() {
    unsafe {
        for (a, b) in [SHARED[1], SHARED[2]] {
            let lo = (a + 4095) & !4095;
            let hi = b & !4095;
            if hi > lo {
                libc::mprotect(lo as *mut _, hi - lo, libc::PROT_READ);
            }
        }
    }
}
struct Solo {
    text: String,
    ev: u64,
    sh: u64,
}
/// every call alone, in a process of its own
fn solo(steps: &[Step], pool: &Pool, race: bool) -> Result<Vec<Solo>, String> {
    let e = child::fork_run(60, || {
        let mut o = String::new();
        for (i, st) in steps.iter().enumerate() {
            unsafe {
                COUNT = (0, 0);
                hooks::CUR_OP = calls::NAMES[st.kind as usize];
                hooks::SCHED = Some(counter);
                hooks::LIMIT = 0;
            }
            let t = calls::call(st.kind, arg_seed(st), pool, own_ctx(st, race) || race);
            unsafe {
                hooks::SCHED = None;
                hooks::LIMIT = u64::MAX;
                o.push_str(&format!("b {} {} {} {}\n", i, COUNT.0, COUNT.1, t.replace('\n', " ")));
            }
        }
        o.push_str("bend\n");
        hooks::out(&o);
        0
    });
    let mut v = vec![];
    let mut end = false;
    for l in e.out.lines() {
        if l == "bend" {
            end = true;
        }
        let p: Vec<&str> = l.splitn(5, ' ').collect();
        if p[0] == "b" && p.len() == 5 {
            v.push(Solo { text: p[4].into(), ev: p[2].parse().unwrap_or(0), sh: p[3].parse().unwrap_or(0) });
        }
    }
    if end && v.len() == steps.len() {
        Ok(v)
    } else {
        Err(format!("{:?} {:?}", e.end, child::last_words(&e)))
    }
}

pub fn run(cx: &mut Cx, seed: u64, steps: &[Step]) {
    let prop = cx.target.clone();
    let props: [&str; 1] = [match prop.as_str() {
        "C12" => "C12",
        "C14" => "C14",
        _ => "C11",
    }];
    let race = props[0] == "C12";
    let pool = calls::pool(seed);
    let base = match solo(steps, &pool, race) {
        Ok(b) => b,
        Err(e) => {
            cx.log(format!("alone: {}", e));
            cx.count("probe:failed_already_alone");
            return;
        }
    };
    if steps.is_empty() {
        return;
    }
    let total: u64 = base.iter().map(|b| b.ev).sum();
    let init = if LAZY { 60_000_000 } else { 0 };
    let longest: u64 = base.iter().map(|b| b.ev).max().unwrap_or(0);
    let nt = steps.iter().map(|s| s.at as usize + 1).max().unwrap().min(NT);
    let mut th: Vec<Th> =
        (0..nt).map(|_| Th { st: St::Ready, ops: vec![], cur: 0, in_op: false, ev: 0, sh: 0, gap: 0, woken: false }).collect();
    for (i, st) in steps.iter().enumerate() {
        let (mut ev, sh) = (base[i].ev, base[i].sh);
        if race && i < nt && st.seed & 0x30000_0000 == 0 {
            // inside the initialisation, most of all near its end
            ev = 50_000_000;
        }
        let rl = rule(st, &prop, ev, sh.max(if race { 12 } else { 0 }));
        cx.log(format!("thread {} call {} rule {:?}", st.at, calls::NAMES[st.kind as usize], rl));
        cx.seen(&[60, st.kind as u64, match rl { Rule::Straight => 0, Rule::Gaps(g) => 100 + (g as u64).ilog2() as u64, Rule::Shared(p, _) => 200 + p as u64, Rule::Hold(e, n) => 1000 + e / 64 + (n << 40), Rule::Abandon(e, n) => (1 << 50) + e / 64 + (n << 40) }, own_ctx(st, race) as u64]);
        th[st.at as usize].ops.push(Op { kind: st.kind, seed: arg_seed(st), own: own_ctx(st, race), rule: rl, step: i, result: None });
    }
    let keep = cx.keep_lines;
    let e_props = props;
    let end = child::fork_run(25, || {
        // one processor: handing over the baton is then a plain context switch
        unsafe {
            let cpu = libc::sched_getcpu();
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            if cpu >= 0 {
                libc::CPU_SET(cpu as usize, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
            }
        }
        let mut c = Cx::new(&prop, keep);
        let before = ctx_hash(LAZY && race);
        protect();
        unsafe {
            SIM = Some(S {
                th,
                r: Rng::new(mix2(seed, 77)),
                pool,
                strict: !race,
                total: 0,
                budget: if nt > 6 { 3 } else { 6 } * total + 3 * init + 4_000_000,
                since: 0,
                fair: if nt > 6 { 2 * longest } else { 2 * total } + init + 300_000,
                trace: vec![],
                trace_on: keep,
                hash: FNV0,
                switches: 0,
                preempted: 0,
                held: 0,
                abandoned: 0,
                spurious: 0,
                waits: 0,
                shared_seen: 0,
                verdict: None,
            });
            hooks::CUR_HIT = true;
            hooks::SYSCALL_HOOK = Some(futex);
        }
        for i in 0..nt {
            std::thread::Builder::new().stack_size(8 << 20).spawn(move || body(i)).unwrap();
        }
        unsafe {
            hooks::SCHED = Some(on_event);
            hooks::LIMIT = 0;
        }
        let first = s().r.below(nt);
        announce(first as i32);
        pass(first);
        await_baton(MAIN);
        unsafe {
            hooks::SCHED = None;
            hooks::LIMIT = u64::MAX;
            hooks::CUR_OP = "-";
            hooks::CUR_HIT = false;
        }
        let s = s();
        for l in std::mem::take(&mut s.trace) {
            c.lines.push(l);
        }
        c.log(format!("{} switches, schedule {:016x}", s.switches, s.hash));
        c.st.inter.insert(s.hash);
        for (n, k) in [
            (s.preempted, "thread_preempted"),
            (s.held, "thread_stalled_until_others_finish"),
            (s.abandoned, "thread_abandoned"),
            (s.spurious, "futex_spurious_wakeup"),
        ] {
            if n > 0 {
                *c.st.faults.entry(k.into()).or_default() += n;
            }
        }
        for (n, k) in [(s.waits, "probe:lock_waits"), (s.shared_seen, "probe:shared_memory_accesses"), (s.total, "probe:scheduling_points")] {
            if n > 0 {
                *c.st.c.entry(k.into()).or_default() += n;
            }
        }
        if let Some(v) = s.verdict.take() {
            let (cl, m) = v.split_once(": ").unwrap_or(("scheduler", &v));
            c.check(false, &e_props, cl, || m.to_string());
        }
        for (i, t) in s.th.iter().enumerate() {
            for o in &t.ops {
                if let Some(res) = &o.result {
                    c.count(calls::NAMES[o.kind as usize]);
                    let b = &base[o.step].text;
                    let res = res.replace('\n', " ");
                    c.log(format!("thread {} {} -> {}", i, calls::NAMES[o.kind as usize], res));
                    c.check(res == *b, &e_props, "result-differs", || {
                        format!("{} by thread {} gives {} but alone it gives {}", calls::NAMES[o.kind as usize], i, res, b)
                    });
                    c.check(!res.starts_with("NOT-CONTAINED"), &e_props, "failure-not-contained", || res.clone());
                }
            }
        }
        // the shared contexts afterwards
        if !(LAZY && race) {
            let after = ctx_hash(false);
            c.check(before == after, &e_props, "context-modified", || format!("context tables {:016x} became {:016x}", before, after));
        } else {
            lazy_tables(&mut c);
        }
        let mut o = String::new();
        child::dump(&c, &mut o);
        hooks::out(&o);
        0
    });
    child::absorb(cx, &end);
    cx.st.sim_ns += total;
    match (&end.end, child::last_words(&end)) {
        (child::End::Exit(0), _) => {}
        (_, Some((k, _, op, code))) => {
            cx.log(format!("process ended: {} {} {}", k, op, code));
            let what = if k == 'H' { "hang" } else { "crash" };
            cx.check(false, &props, what, || format!("{} inside {} (signal {}), though every call works alone", what, op, code));
        }
        (e, None) => {
            cx.log(format!("process ended: {:?}", e));
            cx.check(false, &props, "crash", || format!("process ended with {:?}, though every call works alone", e));
        }
    }
}
/// hash of all contexts that exist before the calls
fn ctx_hash(skip_builtin: bool) -> u64 {
    let mut h = 0;
    if let Some((c, g)) = ops::boxed() {
        h ^= tables::hash_g(c) ^ tables::hash_gen(g).rotate_left(9);
    }
    if !skip_builtin {
        h ^= tables::hash_g(&libsecp256k1::ECMULT_CONTEXT).rotate_left(21) ^ tables::hash_gen(&libsecp256k1::ECMULT_GEN_CONTEXT).rotate_left(33);
    }
    h
}
fn lazy_tables(c: &mut Cx) {
    let m = match unsafe { MODEL.as_ref() } {
        Some(m) => m,
        None => return,
    };
    let a = tables::diff_g(m, &libsecp256k1::ECMULT_CONTEXT);
    c.check(a.is_none(), &["C12"], "table-wrong", || format!("entry {:?} of the lazily created multiplication table is wrong", a));
    let b = tables::diff_gen(m, &libsecp256k1::ECMULT_GEN_CONTEXT);
    c.check(b.is_none(), &["C12"], "table-wrong", || format!("entry {:?} of the lazily created generator table is wrong", b));
}
