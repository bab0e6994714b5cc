//! World E: components the caller plugs in fail - digest, generator, serializer,
//! deserializer, text sink, by error or panic, at any call - in the middle of a
//! history of other calls on the same keys, by the same and by another thread.
//! Every other call must give what it gave before the first failure.
use crate::calls::{self, Pool};
use crate::ctx::Cx;
use crate::plan::Step;
use crate::rng::{mix2, Rng};

const P: [&str; 1] = ["C14"];

pub fn plan(_prop: &str, seed: u64) -> Vec<Step> {
    let mut r = Rng::new(mix2(seed, 1));
    let n = 4 + r.below(16);
    let mut t = 0;
    // swarm: some components stay healthy in this run
    let mut w = [10, 7, 7, 8, 4, 4, 12];
    for x in w.iter_mut() {
        if r.p(1, 4) {
            *x = 0;
        }
    }
    if w.iter().sum::<u32>() == 0 {
        w[0] = 1;
    }
    (0..n)
        .map(|_| {
            t += r.log(50_000) as u64;
            Step { kind: r.weighted(&w) as u8, at: t, seed: r.u64(), fault: true }
        })
        .collect()
}
const FAULTY: [u8; 7] =
    [calls::K_DIGEST, calls::K_RNG, calls::K_FMT, calls::K_SERDE, calls::K_NESTD, calls::K_NESTR, calls::K_NEST];
const FNAME: [&str; 7] = [
    "digest_panic", "entropy_source_panic", "text_sink_failure", "serde_component_failure", "digest_reentrant_call",
    "entropy_reentrant_call", "component_reentrant_call",
];

fn one(cx: &mut Cx, kind: u8, seed: u64, p: &Pool, own: bool, other_thread: bool) -> Option<String> {
    let r = cx.lib_raw(calls::NAMES[kind as usize], &P, || {
        if other_thread {
            std::thread::scope(|s| {
                std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(s, || calls::call(kind, seed, p, own)).unwrap().join().unwrap()
            })
        } else {
            calls::call(kind, seed, p, own)
        }
    });
    r.ok()
}

pub fn run(cx: &mut Cx, seed: u64, steps: &[Step]) {
    let p = calls::pool(seed);
    // the calls around each failure, and what they give on their own
    let mut around = vec![];
    for s in steps {
        let mut r = Rng::new(mix2(s.seed, 2));
        let n = 1 + r.below(3);
        let mut v = vec![];
        for _ in 0..n {
            // the failing component's own path more often than the rest
            let kind = match s.kind {
                0 | 4 if r.p(1, 2) => 4,
                1 | 5 if r.p(1, 2) => 12,
                2 if r.p(1, 2) => 14,
                3 if r.p(1, 2) => *r.pick(&[13, calls::K_SIMSERDE]),
                6 if r.p(1, 2) => *r.pick(&[4, 12, 14, calls::K_SIMSERDE]),
                _ => r.below(calls::N_PLAIN as usize) as u8,
            };
            let (cs, own) = (r.u64(), r.p(1, 3));
            let base = one(cx, kind, cs, &p, own, false);
            v.push((kind, cs, own, r.p(1, 3), base));
        }
        around.push(v);
    }
    for (i, s) in steps.iter().enumerate() {
        if cx.viol.is_some() {
            return;
        }
        cx.step = i as u64;
        cx.now = s.at;
        let own = s.seed & 1 == 1;
        let other = s.seed & 6 == 6;
        if s.fault {
            let k = FAULTY[s.kind as usize];
            let got = one(cx, k, s.seed, &p, own, other);
            let got = got.unwrap_or_else(|| "panic escaped".into());
            cx.log(format!("{} -> {}", calls::NAMES[k as usize], got));
            if !got.starts_with("not reached") {
                cx.fault(FNAME[s.kind as usize]);
            } else {
                cx.count("probe:fault_point_not_reached");
            }
            cx.seen(&[50, s.kind as u64, s.seed % 61, own as u64, other as u64]);
            let ok = got.starts_with("contained true") || got.starts_with("not reached") || got.starts_with("nested") || got.is_empty();
            cx.check(ok, &P, "failure-not-contained", || format!("{}: {}", calls::NAMES[k as usize], got));
        }
        for (kind, cs, own, other, base) in &around[i] {
            let again = one(cx, *kind, *cs, &p, *own, *other);
            cx.log(format!("{} -> {:?}", calls::NAMES[*kind as usize], again));
            cx.seen(&[51, *kind as u64, s.kind as u64, *own as u64, *other as u64]);
            cx.check(again == *base, &P, "later-call-affected", || {
                format!(
                    "{} gives {:?} after the failure of {} but gave {:?} before",
                    calls::NAMES[*kind as usize], again, FNAME[s.kind as usize], base
                )
            });
        }
    }
    cx.step = steps.len() as u64;
    for v in around.iter() {
        for (kind, cs, own, _, base) in v {
            if cx.viol.is_some() {
                return;
            }
            let again = one(cx, *kind, *cs, &p, *own, false);
            cx.check(again == *base, &P, "later-call-affected", || {
                format!("{} gives {:?} at the end but gave {:?} before any failure", calls::NAMES[*kind as usize], again, base)
            });
        }
    }
    cx.st.sim_ns += cx.now * 1000;
}
