//! World F (C13): the generators of the compile-time tables and the build script
//! that runs them, on a disk that writes short, is interrupted, fills up, fails,
//! or loses its process. Files are real files in a scratch directory; every
//! write call on them goes through the simulator first.
#![allow(static_mut_refs)]
use crate::child;
use crate::ctx::Cx;
use crate::hooks;
use crate::plan::Step;
use crate::rng::{mix2, Rng};
use crate::tables;
use std::fs::File;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[allow(dead_code, unused_imports)]
mod script {
    include!(concat!(env!("OUT_DIR"), "/repo_build.rs"));
}
const C13: &[&str] = &["C13"];
const ECMULT: u8 = 0;
const GENMULT: u8 = 1;
const SCRIPT: u8 = 2;
const NAMES: [&str; 3] = ["ecmult", "genmult", "build-script"];
const FILES: [&str; 2] = ["const.rs", "const_gen.rs"];

struct Clean {
    /// content of const.rs and const_gen.rs after undisturbed runs
    text: [Vec<u8>; 2],
    /// write calls of each generator and of the script
    writes: [u64; 3],
    /// the different things they write (text with its numbers taken out) and how often
    shapes: [Vec<(u64, u64)>; 3],
    problem: Option<String>,
}
static mut CLEAN: Option<Clean> = None;
fn clean() -> &'static Clean {
    unsafe { CLEAN.as_ref().unwrap() }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    /// from write a to write b: this many in 256 are cut short
    Short(u64, u64, u8),
    /// likewise interrupted before anything was written
    Intr(u64, u64, u8),
    /// write n fails with errno, once or from then on
    Fail(u64, i64, bool),
    /// the disk is full after this many bytes
    Full(u64),
    /// write n reports that nothing was written
    Zero(u64),
    /// the process is killed inside write n
    Kill(u64),
    /// the same, at the n-th write of text of this shape
    FailAt(u64, u64, i64, bool),
    ZeroAt(u64, u64),
    KillAt(u64, u64),
    /// writes of text of this shape are cut short, or interrupted first
    ShortAt(u64, u8),
    IntrAt(u64, u8),
}
/// what kind of text this is: the text without its numbers
fn shape(b: &[u8]) -> u64 {
    let mut h = 0;
    let mut dig = false;
    let n = b.len();
    for (i, c) in b.iter().enumerate() {
        if c.is_ascii_digit() {
            if !dig {
                h = mix2(h, 1);
            }
            dig = true;
        } else {
            dig = false;
            // of long pieces the ends will do
            if i < 100 || i + 8 > n {
                h = mix2(h, *c as u64);
            }
        }
    }
    h
}
struct Disk {
    on: bool,
    faults: Vec<Fault>,
    r: Rng,
    writes: u64,
    bytes: u64,
    short: u64,
    intr: u64,
    hard: Option<(u64, i64)>,
    after: u64,
    shaped: bool,
    shapes: Vec<(u64, u64)>,
}
static mut DISK: Disk = Disk {
    on: false,
    faults: vec![],
    r: Rng { s: [0; 4] },
    writes: 0,
    bytes: 0,
    short: 0,
    intr: 0,
    hard: None,
    after: 0,
    shaped: false,
    shapes: vec![],
};

fn regular(fd: i32) -> bool {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        libc::fstat(fd, &mut st) == 0 && st.st_mode & libc::S_IFMT == libc::S_IFREG
    }
}
fn on_write(fd: i32, b: &[u8]) -> Option<i64> {
    let d = unsafe { &mut DISK };
    if !d.on || b.is_empty() || !regular(fd) {
        return None;
    }
    let w = d.writes;
    d.writes += 1;
    if d.hard.is_some() {
        d.after += 1;
        if d.after > 2_000_000 {
            unsafe { hooks::hang() }
        }
    }
    let mut n = b.len();
    // shape of this text, and how many of that shape there were before
    let (mut h, mut nth) = (0, 0);
    if d.shaped {
        h = shape(b);
        match d.shapes.iter().position(|x| x.0 == h) {
            Some(i) => {
                nth = d.shapes[i].1;
                d.shapes[i].1 += 1;
            }
            None if d.shapes.len() < 2000 => d.shapes.push((h, 1)),
            None => {}
        }
    }
    let kill = |d: &mut Disk, n: usize| -> ! {
        unsafe {
            let k = d.r.below(n + 1);
            hooks::sys6(1, fd as i64, b.as_ptr() as i64, k as i64, 0, 0, 0);
            hooks::out(&format!("\nkilled {} {}\n", w, k));
            hooks::exit_now(9);
        }
    };
    for f in &d.faults.clone() {
        match *f {
            Fault::ShortAt(x, p) if x == h && d.r.below(256) < p as usize => {
                let k = 1 + d.r.below(n);
                if k < n {
                    n = k;
                    d.short += 1;
                }
            }
            Fault::IntrAt(x, p) if x == h && d.r.below(256) < p as usize => {
                d.intr += 1;
                return Some(-libc::EINTR as i64);
            }
            Fault::FailAt(x, k, e, ever) if (x == h && k == nth) || (ever && d.hard.is_some()) => {
                d.hard.get_or_insert((w, e));
                return Some(-e);
            }
            Fault::ZeroAt(x, k) if x == h && k == nth => {
                d.hard.get_or_insert((w, 0));
                return Some(0);
            }
            Fault::KillAt(x, k) if x == h && k == nth => kill(d, n),
            Fault::Short(x, y, p) if w >= x && w < y && d.r.below(256) < p as usize => {
                let k = 1 + d.r.below(n);
                if k < n {
                    n = k;
                    d.short += 1;
                }
            }
            Fault::Intr(x, y, p) if w >= x && w < y && d.r.below(256) < p as usize => {
                d.intr += 1;
                return Some(-libc::EINTR as i64);
            }
            Fault::Fail(x, e, ever) if w == x || (ever && w > x) => {
                d.hard.get_or_insert((w, e));
                return Some(-e);
            }
            Fault::Full(lim) => {
                if d.bytes >= lim {
                    d.hard.get_or_insert((w, libc::ENOSPC as i64));
                    return Some(-libc::ENOSPC as i64);
                }
                if d.bytes + n as u64 > lim {
                    n = (lim - d.bytes) as usize;
                    d.short += 1;
                }
            }
            Fault::Zero(x) if w == x => {
                d.hard.get_or_insert((w, 0));
                return Some(0);
            }
            Fault::Kill(x) if w == x => kill(d, n),
            _ => {}
        }
    }
    let r = unsafe { hooks::sys6(1, fd as i64, b.as_ptr() as i64, n as i64, 0, 0, 0) };
    if r > 0 {
        d.bytes += r as u64;
    }
    Some(r)
}

fn scratch() -> String {
    let base = if std::path::Path::new("/dev/shm").is_dir() && std::env::var_os("SIM_SCRATCH").is_none() {
        "/dev/shm".to_string()
    } else {
        std::env::var("SIM_SCRATCH").unwrap_or_else(|_| "/tmp".into())
    };
    format!("{}/simgen.{}", base, unsafe { libc::getpid() })
}
fn remove(dir: &str) {
    for f in FILES {
        let _ = std::fs::remove_file(format!("{}/{}", dir, f));
    }
    let _ = std::fs::remove_dir_all(dir);
}

#[derive(Debug, PartialEq, Clone)]
enum Res {
    Ok,
    Err(String, Option<i32>),
    Panic,
    Killed(u64, u64),
    Died(String),
}
struct Exec {
    res: Res,
    writes: u64,
    short: u64,
    intr: u64,
    hard: Option<(u64, i64)>,
    shapes: Vec<(u64, u64)>,
}
/// one process running a generator or the script, with faults
fn exec(kind: u8, dir: &str, faults: &[Fault], seed: u64, dirt: bool) -> Exec {
    let e = child::fork_run(60, || unsafe {
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::dup2(null, 2);
        DISK.faults = faults.to_vec();
        DISK.r = Rng::new(seed);
        // an undisturbed run records the shapes
        DISK.shaped = faults.is_empty()
            || faults.iter().any(|f| {
                matches!(f, Fault::FailAt(..) | Fault::ZeroAt(..) | Fault::KillAt(..) | Fault::ShortAt(..) | Fault::IntrAt(..))
            });
        DISK.on = true;
        hooks::WRITE_HOOK = Some(on_write);
        hooks::CUR_OP = NAMES[kind as usize];
        hooks::CUR_HIT = true;
        hooks::DIRTY = if dirt { seed | 1 << 50 } else { 0 };
        std::env::set_var("OUT_DIR", dir);
        let x = catch_unwind(AssertUnwindSafe(|| match kind {
            ECMULT | GENMULT => {
                let mut f = File::create(format!("{}/{}", dir, FILES[kind as usize])).expect("scratch file");
                let r = if kind == ECMULT {
                    libsecp256k1_gen_ecmult::generate_to(&mut f)
                } else {
                    libsecp256k1_gen_genmult::generate_to(&mut f)
                };
                r.map_err(|e| (format!("{:?}", e.kind()), e.raw_os_error()))
            }
            _ => {
                let c = std::process::Termination::report(script::main());
                if format!("{:?}", c) == format!("{:?}", std::process::ExitCode::SUCCESS) {
                    Ok(())
                } else {
                    Err(("ExitCode".into(), None))
                }
            }
        }));
        hooks::WRITE_HOOK = None;
        hooks::DIRTY = 0;
        let d = &DISK;
        let r = match x {
            Ok(Ok(())) => "ok - -".to_string(),
            Ok(Err((k, e))) => format!("err {} {}", k, e.unwrap_or(-1)),
            Err(_) => "panic - -".to_string(),
        };
        hooks::out(&format!(
            "\nresult {} {} {} {} {} {}\n",
            r, d.writes, d.short, d.intr, d.hard.map(|h| h.0 as i64).unwrap_or(-1), d.hard.map(|h| h.1).unwrap_or(-1)
        ));
        if faults.is_empty() {
            let v: Vec<String> = d.shapes.iter().map(|x| format!("{}:{}", x.0, x.1)).collect();
            hooks::out(&format!("shapes {}\n", v.join(" ")));
        }
        0
    });
    let mut x = Exec { shapes: vec![], res: Res::Died(format!("{:?} {:?}", e.end, child::last_words(&e))), writes: 0, short: 0, intr: 0, hard: None };
    for l in e.out.lines() {
        let p: Vec<&str> = l.split(' ').collect();
        if p[0] == "killed" && p.len() == 3 {
            x.res = Res::Killed(p[1].parse().unwrap_or(0), p[2].parse().unwrap_or(0));
        }
        if p[0] == "shapes" {
            x.shapes = p[1..].iter().filter_map(|t| t.split_once(':').map(|(a, b)| (a.parse().unwrap_or(0), b.parse().unwrap_or(0)))).collect();
        }
        if p[0] == "result" && p.len() == 9 {
            x.res = match p[1] {
                "ok" => Res::Ok,
                "err" => Res::Err(p[2].into(), p[3].parse().ok().filter(|e| *e >= 0)),
                _ => Res::Panic,
            };
            let n = |i: usize| p[i].parse::<i64>().unwrap_or(-1);
            x.writes = n(4) as u64;
            x.short = n(5) as u64;
            x.intr = n(6) as u64;
            if n(7) >= 0 {
                x.hard = Some((n(7) as u64, n(8)));
            }
        }
    }
    x
}
fn read(dir: &str, i: usize) -> Vec<u8> {
    std::fs::read(format!("{}/{}", dir, FILES[i])).unwrap_or_default()
}
/// the numbers in a generated file and its bracket structure
fn numbers(t: &[u8]) -> (Vec<u32>, Vec<u8>) {
    let mut v = vec![];
    let mut br = vec![];
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        if c.is_ascii_digit() {
            let s = i;
            while i < t.len() && (t[i].is_ascii_alphanumeric() || t[i] == b'_') {
                i += 1;
            }
            let w: String = String::from_utf8_lossy(&t[s..i]).replace('_', "").replace("u32", "");
            let n = if let Some(h) = w.strip_prefix("0x") { u32::from_str_radix(h, 16) } else { w.parse() };
            v.push(n.unwrap_or(0xdeadbeef));
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' {
            while i < t.len() && (t[i].is_ascii_alphanumeric() || t[i] == b'_') {
                i += 1;
            }
            continue;
        }
        if b"[](){}".contains(&c) {
            br.push(c);
        }
        i += 1;
    }
    (v, br)
}
fn balanced(br: &[u8]) -> bool {
    let mut st = vec![];
    for c in br {
        match c {
            b'[' => st.push(b']'),
            b'(' => st.push(b')'),
            b'{' => st.push(b'}'),
            c => {
                if st.pop() != Some(*c) {
                    return false;
                }
            }
        }
    }
    st.is_empty()
}
pub fn prepare() {
    crate::model::curve::warm();
    let dir = scratch();
    remove(&dir);
    let _ = std::fs::create_dir_all(&dir);
    let a = exec(ECMULT, &dir, &[], 1, false);
    let b = exec(GENMULT, &dir, &[], 1, false);
    let text = [read(&dir, 0), read(&dir, 1)];
    let mut problem = None;
    for (x, n) in [(&a, 0), (&b, 1)] {
        if x.res != Res::Ok {
            problem = Some(format!("undisturbed: generator {} gives {:?} on a healthy disk", NAMES[n], x.res));
        }
    }
    let c = exec(SCRIPT, &dir, &[], 1, false);
    if c.res != Res::Ok {
        problem = Some(format!("undisturbed: the build script gives {:?} on a healthy disk", c.res));
    } else if read(&dir, 0) != text[0] || read(&dir, 1) != text[1] {
        problem = Some("undisturbed: the build script writes other tables than the generators".into());
    }
    // what it says: the model's tables
    let m = tables::model();
    let w: [Vec<[u32; 16]>; 2] = [m.g.clone(), m.gen.clone()];
    for i in 0..2 {
        let (v, br) = numbers(&text[i]);
        let mut want: Vec<u32> = vec![];
        for e in &w[i] {
            want.extend(e[..8].iter().rev());
            want.extend(e[8..].iter().rev());
        }
        let open = br.iter().filter(|c| **c == b'[').count();
        if v.len() == want.len() && (v != want || !balanced(&br) || open != [1, 65][i]) {
            let k = v.iter().zip(&want).position(|(a, b)| a != b);
            problem = Some(format!("table-wrong: {} holds a wrong table (number {:?}, {} opening brackets)", FILES[i], k, open));
        } else if v.len() != want.len() && problem.is_none() {
            problem = Some(format!("table-wrong: {} holds {} numbers instead of {}", FILES[i], v.len(), want.len()));
        }
    }
    if let Some(i) = tables::diff_g(&m, &libsecp256k1::ECMULT_CONTEXT) {
        problem = Some(format!("table-wrong: entry {} of the multiplication table compiled from const.rs is wrong", i));
    }
    if let Some(i) = tables::diff_gen(&m, &libsecp256k1::ECMULT_GEN_CONTEXT) {
        problem = Some(format!("table-wrong: entry {} of the generator table compiled from const_gen.rs is wrong", i));
    }
    remove(&dir);
    unsafe { CLEAN = Some(Clean { text, writes: [a.writes, b.writes, c.writes], shapes: [a.shapes, b.shapes, c.shapes], problem }) }
}

pub fn plan(_prop: &str, seed: u64) -> Vec<Step> {
    let mut r = Rng::new(mix2(seed, 1));
    let kind = *r.pick(&[ECMULT, GENMULT, GENMULT, GENMULT, GENMULT, GENMULT, SCRIPT]);
    let n = if kind == ECMULT { 1 } else if kind == SCRIPT { 1 + r.below(2) } else { 1 + r.below(3) };
    (0..n).map(|_| Step { kind, at: 0, seed: r.u64(), fault: true }).collect()
}
fn position(r: &mut Rng, w: u64) -> u64 {
    let w = w.max(1) as usize;
    (match r.below(6) {
        0 => r.log(w - 1),
        1 => w - 1 - r.log(w - 1),
        2 => w - 1,
        _ => r.below(w),
    }) as u64
}
fn faults(r: &mut Rng, kind: u8) -> Vec<Fault> {
    let c = clean();
    let w = c.writes[kind as usize];
    let bytes = match kind {
        SCRIPT => c.text[0].len() + c.text[1].len(),
        k => c.text[k as usize].len(),
    };
    let mut v = vec![];
    // soft faults first
    let span = |r: &mut Rng| {
        let a = if r.p(1, 3) { 0 } else { position(r, w) };
        (a, a + 1 + r.log(4 * w.max(1) as usize) as u64)
    };
    let dens = |r: &mut Rng| *r.pick(&[1u8, 3, 16, 64, 128, 220]);
    // one kind of text, the rare kinds as often as the common ones
    let pick = |r: &mut Rng| -> Option<(u64, u64)> {
        let v = &c.shapes[kind as usize];
        if v.is_empty() || r.p(1, 2) {
            return None;
        }
        let x = *r.pick(v);
        Some((x.0, position(r, x.1)))
    };
    if r.p(2, 3) {
        match pick(r) {
            Some(x) => v.push(Fault::ShortAt(x.0, dens(r))),
            None => {
                let (a, b) = span(r);
                v.push(Fault::Short(a, b, dens(r)));
            }
        }
    }
    if r.p(1, 2) {
        match pick(r) {
            Some(x) => v.push(Fault::IntrAt(x.0, dens(r))),
            None => {
                let (a, b) = span(r);
                v.push(Fault::Intr(a, b, dens(r)));
            }
        }
    }
    let target = pick(r);
    let hard = r.weighted(&[3, 4, 4, 2, if kind == SCRIPT { 8 } else { 1 }]);
    match hard {
        1 => {
            let e = *r.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG, libc::EROFS, libc::EPERM, libc::EAGAIN, libc::EPIPE, libc::ETIMEDOUT, libc::ENOBUFS, libc::ESTALE, libc::ENOMEM]);
            match target {
                Some((h, k)) => v.push(Fault::FailAt(h, k, e as i64, r.p(1, 2))),
                None => v.push(Fault::Fail(position(r, w), e as i64, r.p(1, 2))),
            }
        }
        2 => {
            let b = match r.below(4) {
                0 => bytes - 1 - r.log(bytes - 1),
                1 => bytes - 1,
                _ => r.below(bytes),
            };
            v.push(Fault::Full(b as u64));
        }
        3 => v.push(target.map(|t| Fault::ZeroAt(t.0, t.1)).unwrap_or_else(|| Fault::Zero(position(r, w)))),
        4 => v.push(target.map(|t| Fault::KillAt(t.0, t.1)).unwrap_or_else(|| Fault::Kill(position(r, w)))),
        _ => {}
    }
    v
}
fn kind_of(e: i64) -> String {
    if e == 0 {
        "WriteZero".into()
    } else {
        format!("{:?}", std::io::Error::from_raw_os_error(e as i32).kind())
    }
}
pub fn run(cx: &mut Cx, _seed: u64, steps: &[Step]) {
    let c = clean();
    cx.st.evals += 1;
    if let Some(p) = &c.problem {
        let (cl, m) = p.split_once(": ").unwrap_or(("undisturbed", p));
        cx.log(format!("undisturbed run: {}", p));
        cx.fail(C13, cl, m.into());
        return;
    }
    let dir = scratch();
    remove(&dir);
    let _ = std::fs::create_dir_all(&dir);
    run_in(cx, steps, &dir);
    remove(&dir);
}
fn run_in(cx: &mut Cx, steps: &[Step], dir: &str) {
    let c = clean();
    let mut kind = GENMULT;
    let mut again = false;
    for (n, st) in steps.iter().enumerate() {
        cx.step = n as u64;
        kind = st.kind;
        let mut r = Rng::new(st.seed);
        let fs = if st.fault { faults(&mut r, kind) } else { vec![] };
        let dirt = st.fault && r.p(1, 3);
        if kind == SCRIPT && st.fault && r.p(1, 4) {
            // left over from another version
            for f in FILES {
                let _ = std::fs::write(format!("{}/{}", dir, f), vec![b'x'; r.below(4_000_000)]);
            }
            cx.fault("stale_files_from_an_older_build");
        }
        let x = exec(kind, dir, &fs, r.u64(), dirt);
        cx.log(format!("{} with {:?}: {:?}, {} writes, {} short, {} interrupted, failed {:?}", NAMES[kind as usize], fs, x.res, x.writes, x.short, x.intr, x.hard));
        judge(cx, kind, dir, &x, &fs);
        cx.st.sim_ns += x.writes;
        if matches!(x.res, Res::Killed(..)) {
            cx.fault("process_killed_inside_a_write");
            again = true;
        }
        if cx.viol.is_some() {
            return;
        }
    }
    // faults have stopped: the same again
    if kind == SCRIPT || again {
        let x = exec(kind, dir, &[], 5, false);
        cx.log(format!("{} again, undisturbed: {:?}, {} writes", NAMES[kind as usize], x.res, x.writes));
        judge(cx, kind, dir, &x, &[]);
        cx.check(x.res == Res::Ok, C13, "rerun-fails", || format!("{} run again after faults gives {:?}", NAMES[kind as usize], x.res));
    }
    let _ = c;
}
fn judge(cx: &mut Cx, kind: u8, dir: &str, x: &Exec, fs: &[Fault]) {
    let c = clean();
    let name = NAMES[kind as usize];
    for (n, k) in [(x.short, "short_write"), (x.intr, "interrupted_write")] {
        if n > 0 {
            *cx.st.faults.entry(k.into()).or_default() += n;
        }
    }
    if let Some((_, e)) = x.hard {
        cx.fault(match e as i32 {
            libc::ENOSPC => "disk_full",
            0 => "write_of_nothing",
            _ => "write_error",
        });
    }
    cx.count(name);
    let mut sig = vec![100, kind as u64];
    for f in fs {
        let bucket = |w: u64| w * 64 / c.writes[kind as usize].max(1);
        match *f {
            Fault::Short(a, b, p) => sig.extend([1, bucket(a), bucket(b), p as u64]),
            Fault::Intr(a, b, p) => sig.extend([2, bucket(a), bucket(b), p as u64]),
            Fault::Fail(a, e, v) => sig.extend([3, a, e as u64, v as u64]),
            Fault::Full(b) => sig.extend([4, b]),
            Fault::Zero(a) => sig.extend([5, a]),
            Fault::Kill(a) => sig.extend([6, a]),
            Fault::FailAt(h, k, e, v) => sig.extend([7, h, k, e as u64, v as u64]),
            Fault::ZeroAt(h, k) => sig.extend([8, h, k]),
            Fault::KillAt(h, k) => sig.extend([9, h, k]),
            Fault::ShortAt(h, p) => sig.extend([10, h, p as u64]),
            Fault::IntrAt(h, p) => sig.extend([11, h, p as u64]),
        }
    }
    cx.seen(&sig);
    cx.st.inter.insert(mix2(sig.iter().fold(7, |a, b| mix2(a, *b)), x.writes));
    let range = match kind {
        SCRIPT => 0..2,
        k => k as usize..k as usize + 1,
    };
    let mut wrong = None;
    for i in range {
        let t = read(dir, i);
        if t != c.text[i] {
            let at = t.iter().zip(&c.text[i]).position(|(a, b)| a != b).unwrap_or(t.len().min(c.text[i].len()));
            wrong = Some(format!("{} has {} bytes instead of {} and differs from byte {}", FILES[i], t.len(), c.text[i].len(), at));
        }
    }
    match &x.res {
        Res::Ok => {
            cx.check(wrong.is_none(), C13, "incomplete-but-success", || {
                format!("{} reports success but {} (failed write {:?})", name, wrong.clone().unwrap_or_default(), x.hard)
            });
            // a write of nothing may be tried again
            let failed = x.hard.map(|h| h.1 != 0).unwrap_or(false);
            cx.check(!failed, C13, "failure-not-reported", || {
                format!("{} reports success although write {} failed", name, x.hard.map(|h| h.0).unwrap_or(0))
            });
        }
        Res::Err(k, e) => {
            cx.check(x.hard.is_some(), C13, "spurious-failure", || {
                format!("{} fails with {} {:?} although no write failed ({} short, {} interrupted)", name, k, e, x.short, x.intr)
            });
            if let (Some((_, h)), true) = (x.hard.filter(|h| h.1 != 0), kind != SCRIPT) {
                cx.check(*k == kind_of(h), C13, "other-error", || format!("{} returns {} {:?} for errno {}", name, k, e, h));
            }
        }
        Res::Panic => {
            let ok = kind == SCRIPT && x.hard.is_some();
            cx.check(ok, C13, "panic", || format!("{} panics (failed write {:?})", name, x.hard));
        }
        Res::Killed(..) => {}
        Res::Died(m) => {
            let cl = if m.contains("'H'") { "hang" } else { "crash" };
            cx.check(false, C13, cl, || format!("{} ended with {}", name, m));
        }
    }
}
