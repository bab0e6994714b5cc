//! Runs many seeds on all cores, confirms and minimises what they find, writes
//! replay files and evidence.
use crate::info;
use crate::run_seed;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// which build of the simulator a job runs on
pub fn bin(variant: &str) -> PathBuf {
    let root = std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif/sim".into());
    let (dir, prof) = match variant {
        "cov" => ("edges", "release"),
        "chk" => ("edges", "checked"),
        "mem" => ("mem", "release"),
        "plain" => ("none", "release"),
        "plainchk" => ("none", "checked"),
        "lto" => ("none", "lto"),
        "o0" => ("none", "o0"),
        "lazy" => ("lazy", "release"),
        "lazymem" => ("lazymem", "release"),
        "nostd" => ("nostd", "release"),
        "nostdchk" => ("nostd", "checked"),
        v if v.starts_with("f-") => {
            let prof = if v.ends_with("chk") { "checked" } else { "release" };
            return PathBuf::from(format!("{}/target/{}/x86_64-unknown-linux-gnu/{}/feat", root, v, prof));
        }
        v => (v, "release"),
    };
    PathBuf::from(format!("{}/target/{}/x86_64-unknown-linux-gnu/{}/sim", root, dir, prof))
}
fn verif() -> String {
    std::env::var("SIM_VERIF").unwrap_or_else(|_| "/verif".into())
}

#[derive(Default)]
struct Totals {
    runs: u64,
    evals: u64,
    sim_ns: u64,
    c: BTreeMap<String, u64>,
    f: BTreeMap<String, u64>,
    distinct: BTreeSet<u64>,
    inter: BTreeSet<u64>,
    edges: BTreeSet<u64>,
    samples: Vec<String>,
    foreign_crash: u64,
    by_job: BTreeMap<String, u64>,
}
impl Totals {
    fn line(&mut self, job: &str, l: &str) {
        let mut it = l.splitn(3, ' ');
        let k = it.next().unwrap_or("");
        let a = it.next().unwrap_or("");
        let b = it.next().unwrap_or("");
        match k {
            "s" => {
                let n: u64 = a.parse().unwrap_or(0);
                self.runs += n;
                *self.by_job.entry(job.into()).or_default() += n;
                let mut p = b.split(' ');
                self.evals += p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                self.sim_ns += p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            }
            "c" => *self.c.entry(a.into()).or_default() += b.parse::<u64>().unwrap_or(0),
            "f" => *self.f.entry(a.into()).or_default() += b.parse::<u64>().unwrap_or(0),
            "d" => {
                self.distinct.insert(u64::from_str_radix(a, 16).unwrap_or(0));
            }
            "i" => {
                self.inter.insert(u64::from_str_radix(a, 16).unwrap_or(0));
            }
            "e" => {
                self.edges.insert(a.parse().unwrap_or(0));
            }
            "x" => {
                if self.samples.len() < 3 {
                    let mut s = format!("{} {}", a, b);
                    if s.len() > 2600 {
                        let mut n = 2600;
                        while !s.is_char_boundary(n) {
                            n -= 1;
                        }
                        s.truncate(n);
                    }
                    self.samples.push(s);
                }
            }
            _ => {}
        }
    }
}

#[derive(Clone, Debug)]
struct Found {
    world: String,
    variant: String,
    idx: u64,
    start: u64,
    stride: u64,
    class: String,
    msg: String,
}
fn class_of(v: &str) -> String {
    v.split(": ").next().unwrap_or("?").to_string()
}

struct Outcome {
    viol: Option<(String, String)>,
    hash: String,
    nsteps: usize,
    lines: Vec<String>,
    done: bool,
}
#[derive(Clone)]
struct Case {
    world: String,
    variant: String,
    prop: String,
    seed: u64,
    keep: Option<Vec<usize>>,
    nofault: Vec<usize>,
    prelude: Vec<u64>,
}
fn csv<T: ToString>(v: &[T]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn one(c: &Case, log: bool) -> Outcome {
    let keep = match &c.keep {
        None => "-".into(),
        Some(k) => csv(k) + ",",
    };
    let nf = if c.nofault.is_empty() { "-".into() } else { csv(&c.nofault) };
    let pre = if c.prelude.is_empty() {
        "-".into()
    } else {
        c.prelude.iter().map(|x| format!("{:016x}", x)).collect::<Vec<_>>().join(",")
    };
    let mut cmd = Command::new(bin(&c.variant));
    cmd.args(["one", &c.world, &c.prop, &format!("{:016x}", c.seed), &keep, &nf, &pre, if log { "1" } else { "0" }]);
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut o = Outcome { viol: None, hash: String::new(), nsteps: 0, lines: vec![], done: false };
    let mut ch = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot run {:?}: {}", bin(&c.variant), e);
            return o;
        }
    };
    let rd = BufReader::new(ch.stdout.take().unwrap());
    for l in rd.split(b'\n') {
        let l = match l {
            Ok(l) => String::from_utf8_lossy(&l).to_string(),
            Err(_) => break,
        };
        let p: Vec<&str> = l.splitn(5, ' ').collect();
        match p[0] {
            "L" => o.lines.push(l[2.min(l.len())..].to_string()),
            "R" if p.len() >= 4 => {
                o.hash = p[2].into();
                o.nsteps = p[3].parse().unwrap_or(0);
            }
            "V" if p.len() == 5 => o.viol = Some((class_of(p[4]), p[4].into())),
            "H" | "S" if p.len() == 5 => {
                if p[3] == "1" || p[4].starts_with("- ") {
                    let (cl, m) = hs(&p);
                    o.viol = Some((cl, m));
                    o.hash = format!("{} {} {}", p[0], p[2], p[4]);
                }
            }
            "Z" => o.done = true,
            _ => {}
        }
    }
    let _ = ch.wait();
    o
}
fn hs(p: &[&str]) -> (String, String) {
    let (op, code) = p[4].split_once(' ').unwrap_or((p[4], "0"));
    if p[0] == "H" {
        ("hang".into(), format!("hang: {} did not finish within its step budget (step {})", op, p[2]))
    } else {
        ("crash".into(), format!("crash: signal {} inside {} (step {})", code, op, p[2]))
    }
}

pub struct Cfg {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub secs: u64,
    pub workers: u64,
}

fn explore(cfg: &Cfg, job: &info::Job, secs: u64, max: u64, tot: &Arc<Mutex<Totals>>) -> Option<Found> {
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Vec<Found>>> = Arc::new(Mutex::new(vec![]));
    let mut th = vec![];
    let n = cfg.workers;
    for w in 0..n {
        let stop = stop.clone();
        let found = found.clone();
        let tot = tot.clone();
        let (prop, world, variant, base) = (cfg.prop.clone(), job.world.to_string(), job.variant.to_string(), cfg.seed);
        th.push(std::thread::spawn(move || {
            let t0 = Instant::now();
            let mut start = w;
            let mut noboxed = false;
            let mut crashes = 0;
            while !stop.load(Ordering::SeqCst) && start < max && t0.elapsed().as_secs() < secs && crashes < 60 {
                let left = secs - t0.elapsed().as_secs();
                let mut cmd = Command::new(bin(&variant));
                cmd.args(["worker", &world, &prop]);
                for x in [base, start, n, max, left.max(1), 0] {
                    cmd.arg(x.to_string());
                }
                if noboxed {
                    cmd.env("SIM_NOBOXED", "1");
                }
                cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::inherit());
                let mut ch = match cmd.spawn() {
                    Ok(c) => c,
                    Err(e) => {
                        eprintln!("cannot run {:?}: {}", bin(&variant), e);
                        std::process::exit(3);
                    }
                };
                let rd = BufReader::new(ch.stdout.take().unwrap());
                let pid = ch.id() as i32;
                let fin = Arc::new(AtomicBool::new(false));
                let (f2, s2) = (fin.clone(), stop.clone());
                let wd = std::thread::spawn(move || {
                    let t = Instant::now();
                    while !f2.load(Ordering::SeqCst) {
                        std::thread::sleep(Duration::from_millis(30));
                        if s2.load(Ordering::SeqCst) || t.elapsed().as_secs() > left + 90 {
                            unsafe { libc::kill(pid, libc::SIGKILL) };
                            break;
                        }
                    }
                });
                let mut next = start;
                let mut fin_ok = false;
                let jobname = format!("{}@{}", world, variant);
                for l in rd.split(b'\n') {
                    let l = match l {
                        Ok(l) => String::from_utf8_lossy(&l).to_string(),
                        Err(_) => break,
                    };
                    let p: Vec<&str> = l.splitn(5, ' ').collect();
                    match p[0] {
                        "N" if p.len() == 2 => next = p[1].parse().unwrap_or(next),
                        "Z" => fin_ok = true,
                        "V" if p.len() == 5 => {
                            found.lock().unwrap().push(Found {
                                world: world.clone(),
                                variant: variant.clone(),
                                idx: p[1].parse().unwrap_or(0),
                                start,
                                stride: n,
                                class: class_of(p[4]),
                                msg: p[4].into(),
                            });
                            stop.store(true, Ordering::SeqCst);
                        }
                        "H" | "S" if p.len() == 5 => {
                            let idx: u64 = p[1].parse().unwrap_or(0);
                            next = idx + n;
                            if p[4].starts_with("make_boxed") {
                                noboxed = true;
                                next = start;
                            } else if p[3] == "1" || p[4].starts_with("- ") {
                                let (class, msg) = hs(&p);
                                found.lock().unwrap().push(Found {
                                    world: world.clone(),
                                    variant: variant.clone(),
                                    idx,
                                    start,
                                    stride: n,
                                    class,
                                    msg,
                                });
                                stop.store(true, Ordering::SeqCst);
                            } else {
                                tot.lock().unwrap().foreign_crash += 1;
                            }
                        }
                        _ => tot.lock().unwrap().line(&jobname, &l),
                    }
                }
                fin.store(true, Ordering::SeqCst);
                let _ = ch.kill();
                let _ = ch.wait();
                let _ = wd.join();
                if fin_ok {
                    break;
                }
                crashes += 1;
                start = if next > start || noboxed { next } else { start + n };
            }
        }));
    }
    for t in th {
        let _ = t.join();
    }
    let mut f = found.lock().unwrap().clone();
    f.sort_by_key(|f| f.idx);
    f.into_iter().next()
}

/// does this case still show the same class of violation?
fn still(c: &Case, class: &str) -> bool {
    matches!(one(c, false).viol, Some((k, _)) if k == class)
}

/// run candidates in parallel, return the first (lowest) that still fails
fn first_failing(cands: Vec<Case>, class: &str, workers: usize, until: Instant) -> Option<usize> {
    let best = Arc::new(Mutex::new(usize::MAX));
    let next = Arc::new(Mutex::new(0usize));
    let cands = Arc::new(cands);
    let mut th = vec![];
    for _ in 0..workers {
        let (best, next, cands, class) = (best.clone(), next.clone(), cands.clone(), class.to_string());
        th.push(std::thread::spawn(move || loop {
            let i = {
                let mut n = next.lock().unwrap();
                let i = *n;
                *n += 1;
                i
            };
            if i >= cands.len() || Instant::now() > until || *best.lock().unwrap() < i {
                return;
            }
            if still(&cands[i], &class) {
                let mut b = best.lock().unwrap();
                if i < *b {
                    *b = i;
                }
            }
        }));
    }
    for t in th {
        let _ = t.join();
    }
    let b = *best.lock().unwrap();
    if b == usize::MAX { None } else { Some(b) }
}
fn ddmin<T: Clone>(v: &[T], mk: impl Fn(&[T]) -> Case, class: &str, workers: usize, until: Instant) -> Vec<T> {
    let mut cur = v.to_vec();
    let mut n = 2usize;
    while !cur.is_empty() && Instant::now() < until {
        let len = cur.len();
        let n2 = n.min(len);
        let size = len.div_ceil(n2);
        let mut cands = vec![];
        let mut sets = vec![];
        if len == 1 {
            sets.push(vec![]);
        } else {
            for i in 0..n2 {
                let lo = i * size;
                let hi = ((i + 1) * size).min(len);
                if lo >= hi {
                    continue;
                }
                let mut s = cur[..lo].to_vec();
                s.extend_from_slice(&cur[hi..]);
                sets.push(s);
            }
        }
        for s in &sets {
            cands.push(mk(s));
        }
        match first_failing(cands, class, workers, until) {
            Some(i) => {
                cur = sets[i].clone();
                n = n.saturating_sub(1).max(2);
            }
            None => {
                if n2 >= len {
                    break;
                }
                n = (n * 2).min(len);
            }
        }
    }
    cur
}

fn report(cfg: &Cfg, f: &Found) -> String {
    let until = Instant::now() + Duration::from_secs(if cfg.tier == "quick" { 60 } else { 180 });
    let seed = run_seed(cfg.seed, &cfg.prop, &f.world, f.idx);
    let mut c = Case {
        world: f.world.clone(),
        variant: f.variant.clone(),
        prop: cfg.prop.clone(),
        seed,
        keep: None,
        nofault: vec![],
        prelude: vec![],
    };
    let w = cfg.workers as usize;
    let mut class = f.class.clone();
    let mut a = one(&c, false);
    let mut reproduced = true;
    let mut ok = a.viol.is_some();
    if let Some((k, _)) = &a.viol {
        class = k.clone();
    } else {
        // state left behind by earlier runs in the same process
        let mut pre: Vec<u64> = vec![];
        let mut i = f.start;
        while i < f.idx {
            pre.push(run_seed(cfg.seed, &cfg.prop, &f.world, i));
            i += f.stride;
        }
        if pre.len() > 5000 {
            pre.drain(..pre.len() - 5000);
        }
        c.prelude = pre;
        a = one(&c, false);
        if let Some((k, _)) = &a.viol {
            class = k.clone();
            ok = true;
            let base = c.clone();
            c.prelude = ddmin(
                &c.prelude.clone(),
                |s| {
                    let mut x = base.clone();
                    x.prelude = s.to_vec();
                    x
                },
                &class,
                w,
                until,
            );
        }
    }
    if !ok {
        reproduced = false;
    } else {
        let n = a.nsteps.max(64);
        let base = c.clone();
        let all: Vec<usize> = (0..n).collect();
        let keep = ddmin(
            &all,
            |s| {
                let mut x = base.clone();
                x.keep = Some(s.to_vec());
                x
            },
            &class,
            w,
            until,
        );
        let mut k = c.clone();
        k.keep = Some(keep.clone());
        // a subset was seen to fail; the full set is only known to without the list
        if keep.len() < n || still(&k, &class) {
            c = k;
            // switch off the faults that do not matter
            for i in keep {
                if Instant::now() > until {
                    break;
                }
                let mut x = c.clone();
                x.nofault.push(i);
                if still(&x, &class) {
                    c = x;
                }
            }
        }
    }
    let a = one(&c, true);
    let b = one(&c, true);
    let exact = a.hash == b.hash && a.lines == b.lines && a.viol == b.viol;
    let msg = a.viol.clone().map(|v| v.1).unwrap_or_else(|| f.msg.clone());
    let tail: Vec<String> = a.lines.iter().rev().take(200).rev().cloned().collect();
    let v = json!({
        "property": cfg.prop, "mode": "single", "variants": f.variant, "world": f.world,
        "verif_seed": cfg.seed, "run_index": f.idx, "seed": format!("{:016x}", seed),
        "keep": c.keep, "nofault": c.nofault,
        "prelude": c.prelude.iter().map(|x| format!("{:016x}", x)).collect::<Vec<_>>(),
        "class": class, "violation": msg, "event_log_hash": a.hash,
        "reproduced": reproduced, "replay_exact": exact, "trace": tail,
    });
    write_replay(cfg, &v)
}
fn write_replay(cfg: &Cfg, v: &Value) -> String {
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.json", dir, cfg.prop, v["seed"].as_str().unwrap_or("build"));
    let _ = std::fs::write(&path, serde_json::to_string_pretty(v).unwrap());
    println!("  {}", v["violation"].as_str().unwrap_or(""));
    if let Some(t) = v["trace"].as_array() {
        for l in t.iter().rev().take(12).rev() {
            println!("    {}", l.as_str().unwrap_or("").chars().take(300).collect::<String>());
        }
    }
    println!("VIOLATION property={} replay={}", cfg.prop, path);
    path
}

// ---- differential mode: every variant, same seeds, same event log ----
fn hashes(cfg: &Cfg, world: &str, variant: &str, max: u64, secs: u64, workers: u64, tot: &Arc<Mutex<Totals>>) -> BTreeMap<u64, String> {
    let out: Arc<Mutex<BTreeMap<u64, String>>> = Default::default();
    let mut th = vec![];
    for w in 0..workers {
        let (out, tot) = (out.clone(), tot.clone());
        let (prop, world, variant, base) = (cfg.prop.clone(), world.to_string(), variant.to_string(), cfg.seed);
        th.push(std::thread::spawn(move || {
            let mut start = w;
            let t0 = Instant::now();
            let mut tries = 0;
            while start < max && t0.elapsed().as_secs() < secs && tries < 40 {
                tries += 1;
                let mut cmd = Command::new(bin(&variant));
                cmd.args(["worker", &world, &prop]);
                for x in [base, start, workers, max, (secs - t0.elapsed().as_secs()).max(1), 1] {
                    cmd.arg(x.to_string());
                }
                cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::inherit());
                let mut ch = match cmd.spawn() {
                    Ok(c) => c,
                    Err(e) => {
                        eprintln!("cannot run {:?}: {}", bin(&variant), e);
                        std::process::exit(3);
                    }
                };
                let rd = BufReader::new(ch.stdout.take().unwrap());
                let mut fin = false;
                let mut next = start + workers;
                let jobname = format!("{}@{}", world, variant);
                for l in rd.split(b'\n') {
                    let l = match l {
                        Ok(l) => String::from_utf8_lossy(&l).to_string(),
                        Err(_) => break,
                    };
                    let p: Vec<&str> = l.splitn(5, ' ').collect();
                    match p[0] {
                        "R" if p.len() >= 3 => {
                            let i: u64 = p[1].parse().unwrap_or(0);
                            out.lock().unwrap().insert(i, p[2].into());
                            next = i + workers;
                        }
                        "H" | "S" if p.len() == 5 => {
                            let i: u64 = p[1].parse().unwrap_or(0);
                            let mut o = out.lock().unwrap();
                            o.insert(i, format!("{} {} {}", p[0], p[2], p[4]));
                            next = i + workers;
                        }
                        "Z" => fin = true,
                        _ => tot.lock().unwrap().line(&jobname, &l),
                    }
                }
                let _ = ch.wait();
                if fin {
                    break;
                }
                start = next;
            }
        }));
    }
    for t in th {
        let _ = t.join();
    }
    let o = out.lock().unwrap().clone();
    o
}
fn first_diff(a: &[String], b: &[String]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}
fn differential(cfg: &Cfg, world: &str, variants: &[&str], secs: u64, tot: &Arc<Mutex<Totals>>) -> Option<String> {
    // every variant explores the same seeds, side by side
    let per = (cfg.workers as usize / variants.len()).max(1) as u64;
    let all: Vec<BTreeMap<u64, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = variants
            .iter()
            .map(|v| {
                let tot = tot.clone();
                s.spawn(move || hashes(cfg, world, v, u64::MAX / 4, secs, per, &tot))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut compared = 0;
    let mut bad: Option<(u64, usize)> = None;
    for (i, h) in &all[0] {
        for (k, o) in all.iter().enumerate().skip(1) {
            if let Some(g) = o.get(i) {
                compared += 1;
                if g != h && bad.is_none() {
                    bad = Some((*i, k));
                }
            }
        }
    }
    {
        let mut t = tot.lock().unwrap();
        *t.c.entry("probe:event_logs_compared".into()).or_default() += compared;
    }
    let (idx, k) = bad?;
    let seed = run_seed(cfg.seed, &cfg.prop, world, idx);
    let mk = |variant: &str| Case {
        world: world.into(),
        variant: variant.into(),
        prop: cfg.prop.clone(),
        seed,
        keep: None,
        nofault: vec![],
        prelude: vec![],
    };
    let ca = mk(variants[0]);
    let cb = mk(variants[k]);
    let differs = |keep: &[usize], nf: &[usize]| {
        let (mut a, mut b) = (ca.clone(), cb.clone());
        a.keep = Some(keep.to_vec());
        b.keep = Some(keep.to_vec());
        a.nofault = nf.to_vec();
        b.nofault = nf.to_vec();
        let (x, y) = (one(&a, false), one(&b, false));
        x.hash != y.hash || x.done != y.done
    };
    let n = one(&ca, false).nsteps.max(64);
    let until = Instant::now() + Duration::from_secs(60);
    let mut keep: Vec<usize> = (0..n).collect();
    let reproduced = differs(&keep, &[]);
    if reproduced {
        let mut size = keep.len().div_ceil(2);
        while size >= 1 && Instant::now() < until {
            let mut i = 0;
            let mut any = false;
            while i < keep.len() && Instant::now() < until {
                let hi = (i + size).min(keep.len());
                let mut k2 = keep[..i].to_vec();
                k2.extend_from_slice(&keep[hi..]);
                if differs(&k2, &[]) {
                    keep = k2;
                    any = true;
                } else {
                    i = hi;
                }
            }
            if size == 1 {
                if !any {
                    break;
                }
            } else {
                size = size.div_ceil(2);
            }
        }
    }
    let (mut a, mut b) = (ca.clone(), cb.clone());
    a.keep = Some(keep.clone());
    b.keep = Some(keep.clone());
    let (x, y) = (one(&a, true), one(&b, true));
    let d = first_diff(&x.lines, &y.lines);
    let (vx, vy) = (x.viol.clone().map(|v| v.1), y.viol.clone().map(|v| v.1));
    let msg = format!(
        "configurations-differ: builds {} and {} of the same source disagree: {} / {}",
        variants[0],
        variants[k],
        x.lines.get(d).cloned().unwrap_or_else(|| vx.unwrap_or_else(|| "(log ends)".into())),
        y.lines.get(d).cloned().unwrap_or_else(|| vy.unwrap_or_else(|| "(log ends)".into()))
    );
    let v = json!({
        "property": cfg.prop, "mode": "differential", "variants": format!("{} {}", variants[0], variants[k]), "world": world,
        "verif_seed": cfg.seed, "run_index": idx, "seed": format!("{:016x}", seed),
        "keep": keep, "nofault": [], "prelude": [],
        "class": "configurations-differ", "violation": msg, "event_log_hash": format!("{} {}", x.hash, y.hash),
        "reproduced": reproduced, "replay_exact": true,
        "trace": x.lines.iter().take(d + 1).rev().take(60).rev().cloned().collect::<Vec<_>>(),
    });
    Some(write_replay(cfg, &v))
}

/// the same seeds again, in fresh processes, in another order: same event logs?
fn determinism(cfg: &Cfg, job: &info::Job, tot: &Arc<Mutex<Totals>>) -> (u64, u64) {
    let n = if cfg.tier == "quick" { 24 } else { 400 };
    let scrap: Arc<Mutex<Totals>> = Default::default();
    let (a, b) = std::thread::scope(|s| {
        let x = s.spawn(|| hashes(cfg, job.world, job.variant, n, 20, 4, &scrap));
        let y = s.spawn(|| hashes(cfg, job.world, job.variant, n, 20, 3, &scrap));
        (x.join().unwrap(), y.join().unwrap())
    });
    let _ = tot;
    let mut same = 0;
    let mut diff = 0;
    for (i, h) in &a {
        if let Some(g) = b.get(i) {
            if g == h { same += 1 } else {
                eprintln!("nondeterministic run: {} index {} ({} {})", job.world, i, h, g);
                diff += 1
            }
        }
    }
    (same, diff)
}

fn failed_builds() -> Vec<String> {
    std::env::var("SIM_BUILD_FAILED").unwrap_or_default().split_whitespace().map(|s| s.to_string()).collect()
}
fn build_log(v: &str) -> Vec<String> {
    let root = std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif/sim".into());
    let t = std::fs::read(format!("{}/target/log/{}", root, v)).unwrap_or_default();
    String::from_utf8_lossy(&t).lines().filter(|l| !l.trim().is_empty()).take(30).map(|l| l.to_string()).collect()
}
/// a configuration that does not build while the default one does
fn build_failure(cfg: &Cfg, failed: &[String]) -> String {
    let log = build_log(&failed[0]);
    let msg = format!("configuration-does-not-build: {}: {}", failed.join(" "), log.first().cloned().unwrap_or_default());
    println!("  {}", msg);
    let v = json!({
        "property": cfg.prop, "mode": "build", "variants": failed[0], "all_failed": failed,
        "class": "configuration-does-not-build", "violation": msg, "trace": log,
    });
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-build-{}.json", dir, cfg.prop, failed[0]);
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

pub fn drive(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = std::env::var("SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" {
        info::quick_secs(prop)
    } else {
        info::thorough_secs(prop)
    });
    let workers = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let cfg = Cfg { prop: prop.into(), tier: tier.into(), seed, secs, workers };
    let tot: Arc<Mutex<Totals>> = Default::default();
    let mut jobs = info::jobs(prop, tier);
    let failed = failed_builds();
    if prop == "C16" && !failed.is_empty() {
        println!("{}: builds that fail: {}", prop, failed.join(" "));
        let path = build_failure(&cfg, &failed);
        println!("VIOLATION property={} replay={}", prop, path);
        let t = tot.lock().unwrap();
        evidence(&cfg, &t, t0.elapsed().as_secs_f64(), 1, (0, 0), &jobs);
        return 1;
    }
    jobs.retain(|j| !failed.iter().any(|f| f == j.variant));
    if jobs.is_empty() {
        eprintln!("no such check: {}", prop);
        return 2;
    }
    println!("{}: seed {} tier {} for {} s on {} workers", prop, seed, tier, secs, workers);
    let share: u64 = jobs.iter().map(|j| j.share as u64).sum();
    let mut viol = 0;
    let mut det = (0, 0);
    for j in &jobs {
        let s = (secs * j.share as u64 / share).max(2);
        let r = if j.variants.is_empty() {
            let f = explore(&cfg, j, s, u64::MAX / 4, &tot);
            f.map(|f| report(&cfg, &f))
        } else {
            differential(&cfg, j.world, &j.variants, s, &tot)
        };
        if r.is_some() {
            viol = 1;
            break;
        }
        if j.variants.is_empty() {
            let d = determinism(&cfg, j, &tot);
            det = (det.0 + d.0, det.1 + d.1);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let t = tot.lock().unwrap();
    evidence(&cfg, &t, wall, viol, det, &jobs);
    println!(
        "{}: {} runs, {} checks, {} distinct cases, {} distinct schedules, {} violations, {:.1} s",
        prop, t.runs, t.evals, t.distinct.len(), t.inter.len(), viol, wall
    );
    if t.runs == 0 && viol == 0 {
        eprintln!("nothing ran");
        return 2;
    }
    viol
}

fn evidence(cfg: &Cfg, t: &Totals, wall: f64, viol: i32, det: (u64, u64), jobs: &[info::Job]) {
    let i = info::info(&cfg.prop);
    let mut probes = BTreeMap::new();
    let mut ops = BTreeMap::new();
    let mut foreign = BTreeMap::new();
    for (k, v) in &t.c {
        if let Some(x) = k.strip_prefix("probe:") {
            probes.insert(x.to_string(), *v);
        } else if let Some(x) = k.strip_prefix("foreign:") {
            foreign.insert(x.to_string(), *v);
        } else {
            ops.insert(k.clone(), *v);
        }
    }
    let per_h = |n: u64| (n as f64 * 3600.0 / wall.max(0.001)) as u64;
    let v = json!({
        "property": cfg.prop, "tier": cfg.tier, "seed": cfg.seed, "level": "exploration",
        "wall_s": (wall * 10.0).round() / 10.0, "violations": viol,
        "coverage": {
            "evaluations": t.evals,
            "distinct_nontrivial": t.distinct.len(),
            "rule": i.rule,
            "samples": if t.samples.is_empty() { vec!["(no run finished)".to_string()] } else { t.samples.clone() },
            "simulated_runs": t.runs,
            "runs_per_hour": per_h(t.runs),
            "seeds_per_hour": per_h(t.runs),
            "runs_by_world_and_build": t.by_job,
            "simulated_seconds": t.sim_ns as f64 / 1e9,
            "fault_kinds_injected": t.f,
            "faults_injected_total": t.f.values().sum::<u64>(),
            "distinct_schedules": t.inter.len(),
            "distinct_schedules_measure": i.inter,
            "library_control_flow_edges_reached": t.edges.len(),
            "rare_condition_probes": probes,
            "operations": ops,
            "other_properties_oracles_tripped": foreign,
            "runs_lost_to_crashes_outside_this_property": t.foreign_crash,
            "determinism_recheck": { "runs_repeated_in_fresh_processes": det.0 + det.1, "identical_event_logs": det.0, "different": det.1 },
            "components_real": i.real,
            "components_stubbed": i.stub,
            "builds": jobs.iter().map(|j| format!("{}@{}{}", j.world, j.variant, j.variants.join("+"))).collect::<Vec<_>>(),
        },
        "assumptions": i.assume,
    });
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, cfg.prop), serde_json::to_string_pretty(&v).unwrap());
}

pub fn replay(file: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", file);
            return 2;
        }
    };
    let prop = v["property"].as_str().unwrap_or("").to_string();
    let vs: Vec<String> = v["variants"].as_str().unwrap_or("").split(' ').map(|s| s.to_string()).collect();
    let arr = |k: &str| -> Option<Vec<usize>> {
        v[k].as_array().map(|a| a.iter().filter_map(|x| x.as_u64().map(|x| x as usize)).collect())
    };
    let mk = |variant: &str| Case {
        world: v["world"].as_str().unwrap_or("").into(),
        variant: variant.into(),
        prop: prop.clone(),
        seed: u64::from_str_radix(v["seed"].as_str().unwrap_or("0"), 16).unwrap_or(0),
        keep: arr("keep"),
        nofault: arr("nofault").unwrap_or_default(),
        prelude: v["prelude"]
            .as_array()
            .map(|a| a.iter().filter_map(|x| u64::from_str_radix(x.as_str()?, 16).ok()).collect())
            .unwrap_or_default(),
    };
    if v["mode"] == "build" {
        let f = failed_builds();
        if f.contains(&vs[0]) {
            for l in build_log(&vs[0]) {
                println!("  {}", l);
            }
            println!("VIOLATION property={} replay={}", prop, file);
            return 1;
        }
        println!("replay: this configuration builds now");
        return 0;
    }
    if v["mode"] == "differential" {
        let (x, y) = (one(&mk(&vs[0]), true), one(&mk(&vs[1]), true));
        if x.hash == y.hash && x.done == y.done {
            println!("replay: the builds agree now");
            return 0;
        }
        let d = first_diff(&x.lines, &y.lines);
        println!("  {}: {}", vs[0], x.lines.get(d).cloned().unwrap_or_default());
        println!("  {}: {}", vs[1], y.lines.get(d).cloned().unwrap_or_default());
        println!("  event logs {} {}, recorded {}", x.hash, y.hash, v["event_log_hash"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", prop, file);
        return 1;
    }
    let a = one(&mk(&vs[0]), true);
    for l in a.lines.iter().rev().take(30).rev() {
        println!("  {}", l.chars().take(300).collect::<String>());
    }
    match a.viol {
        Some((_, m)) => {
            println!("  {}", m);
            println!(
                "  event log {} ({})",
                a.hash,
                if Some(a.hash.as_str()) == v["event_log_hash"].as_str() { "identical to the recorded one" } else { "differs from the recorded one" }
            );
            println!("VIOLATION property={} replay={}", prop, file);
            1
        }
        None => {
            println!("replay: no violation");
            0
        }
    }
}
