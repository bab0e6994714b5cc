//! Deterministic simulation of libsecp256k1 deployments. See /verif/DESIGN.md.
#![allow(static_mut_refs)]
mod calls;
mod child;
mod cluster;
mod components;
mod ctx;
#[cfg(feature = "full")]
mod driver;
mod entropy;
mod gen;
#[cfg(feature = "full")]
mod genio;
#[cfg(feature = "full")]
mod info;
mod hooks;
mod memory;
mod model;
mod ops;
mod plan;
mod registers;
mod rng;
#[cfg(feature = "full")]
mod streams;
mod tables;
mod threads;
mod worlds;

use ctx::Cx;
use plan::Step;
use rng::mix2;

#[global_allocator]
static ALLOC: hooks::SimAlloc = hooks::SimAlloc;

pub fn run_seed(base: u64, prop: &str, world: &str, idx: u64) -> u64 {
    let h = ctx::fnv(ctx::fnv(ctx::FNV0, prop.as_bytes()), world.as_bytes());
    mix2(mix2(base, h), idx)
}

/// run one simulation in this process
fn simulate(world: &str, prop: &str, seed: u64, keep: Option<&[usize]>, nofault: &[usize], log: bool) -> (Cx, usize) {
    let mut steps: Vec<Step> = worlds::plan(world, prop, seed);
    for i in nofault {
        if let Some(s) = steps.get_mut(*i) {
            s.fault = false;
        }
    }
    let n = steps.len();
    if let Some(k) = keep {
        steps = k.iter().filter_map(|i| steps.get(*i).cloned()).collect();
    }
    let mut cx = Cx::new(prop, log);
    cx.log(format!("run world={} prop={} seed={:016x}", world, prop, seed));
    hooks::watchdog(30);
    hooks::clock_begin(seed);
    // the erasure world looks at released memory itself
    let spoil = if world != "erasure" && steps.iter().any(|s| s.fault) { rng::mix2(seed, 31) as u8 & 0x7f } else { 0 };
    if spoil > 0x3f {
        cx.fault("released_memory_overwritten");
        unsafe { hooks::SPOIL = spoil }
    }
    worlds::run(world, &mut cx, seed, &steps);
    unsafe { hooks::SPOIL = 0 }
    if hooks::clock_end() > 0 {
        cx.count("probe:library_read_the_clock");
    }
    cx.st.runs = 1;
    let h = cx.hash;
    cx.log(format!("end {:016x}", h));
    (cx, n)
}

fn nums(s: &str) -> Vec<usize> {
    s.split(',').filter_map(|x| x.parse().ok()).collect()
}

fn emit_stats(st: &ctx::Stats) {
    use std::fmt::Write;
    let mut o = String::new();
    let _ = writeln!(o, "\ns {} {} {}", st.runs, st.evals, st.sim_ns);
    for (k, v) in &st.c {
        let _ = writeln!(o, "c {} {}", k, v);
    }
    for (k, v) in &st.faults {
        let _ = writeln!(o, "f {} {}", k, v);
    }
    for d in &st.distinct {
        let _ = writeln!(o, "d {:x}", d);
    }
    for d in &st.inter {
        let _ = writeln!(o, "i {:x}", d);
    }
    for s in &st.samples {
        let _ = writeln!(o, "x {}", s.replace('\n', " "));
    }
    hooks::out(&o);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        // worker WORLD PROP BASE START STRIDE MAXRUNS SECONDS HASHES
        "worker" => {
            hooks::no_aslr();
            hooks::install_signals();
            ctx::quiet_panics();
            let world = a[2].clone();
            let prop = a[3].clone();
            let p = |i: usize| -> u64 { a[i].parse().unwrap() };
            let (base, start, stride, max, secs, hashes) = (p(4), p(5), p(6), p(7), p(8), p(9));
            worlds::prepare(&world, &prop);
            let t0 = std::time::Instant::now();
            let mut acc = ctx::Stats::default();
            let mut idx = start;
            let mut last = std::time::Instant::now();
            let mut nsamples = 0;
            while idx < max && t0.elapsed().as_secs() < secs {
                let seed = run_seed(base, &prop, &world, idx);
                unsafe { hooks::CUR_RUN = idx }
                let (cx, nsteps) = simulate(&world, &prop, seed, None, &[], nsamples < 1);
                if nsamples < 1 && cx.lines.len() > 3 {
                    nsamples += 1;
                    let l: Vec<String> = cx.lines.iter().take(14).map(|s| s.chars().take(220).collect()).collect();
                    acc.samples.push(format!("seed {:016x}, {} steps: {}", seed, nsteps, l.join(" | ")));
                }
                acc.merge(&cx.st);
                if hashes == 1 {
                    hooks::out(&format!("\nR {} {:016x} {}\n", idx, cx.hash, nsteps));
                }
                if let Some(v) = &cx.viol {
                    emit_stats(&acc);
                    hooks::out(&format!("\nV {} {:016x} {} {}\n", idx, cx.hash, nsteps, v.replace('\n', " ")));
                    acc = ctx::Stats::default();
                    break;
                }
                if last.elapsed().as_secs() >= 4 {
                    last = std::time::Instant::now();
                    emit_stats(&acc);
                    hooks::out(&format!("\nN {}\n", idx + stride));
                    acc = ctx::Stats::default();
                }
                idx += stride;
            }
            if hashes == 1 || acc.runs > 0 {
                let mut o = String::from("\n");
                for c in hooks::covered() {
                    o.push_str(&format!("e {}\n", c));
                }
                hooks::out(&o);
            }
            emit_stats(&acc);
            hooks::out("\nZ\n");
        }
        // one WORLD PROP SEEDHEX KEEP|- NOFAULT|- PRELUDE|- LOG
        "one" => {
            hooks::no_aslr();
            hooks::install_signals();
            ctx::quiet_panics();
            let world = a[2].clone();
            let prop = a[3].clone();
            let seed = u64::from_str_radix(&a[4], 16).unwrap();
            let keep = if a[5] == "-" { None } else { Some(nums(&a[5])) };
            let nofault = nums(&a[6]);
            let log = a.get(8).map(|s| s == "1").unwrap_or(false);
            worlds::prepare(&world, &prop);
            if a[7] != "-" {
                for s in a[7].split(',') {
                    if let Ok(s) = u64::from_str_radix(s, 16) {
                        let (cx, _) = simulate(&world, &prop, s, None, &[], false);
                        if cx.viol.is_some() {
                            break;
                        }
                    }
                }
            }
            unsafe { hooks::CUR_RUN = 0 }
            let (cx, n) = simulate(&world, &prop, seed, keep.as_deref(), &nofault, log);
            if log {
                let mut o = String::from("\n");
                for l in &cx.lines {
                    o.push_str(&format!("L {}\n", l.replace('\n', " ")));
                }
                hooks::out(&o);
            }
            hooks::out(&format!("\nR 0 {:016x} {}\n", cx.hash, n));
            if let Some(v) = &cx.viol {
                hooks::out(&format!("\nV 0 {:016x} {} {}\n", cx.hash, n, v.replace('\n', " ")));
            }
            hooks::out("\nZ\n");
        }
        #[cfg(feature = "full")]
        "drive" => std::process::exit(driver::drive(&a[2], &a[3])),
        #[cfg(feature = "full")]
        "replay" => std::process::exit(driver::replay(&a[2])),
        _ => {
            eprintln!("usage: sim worker|one|drive|replay ...");
            std::process::exit(2)
        }
    }
}
