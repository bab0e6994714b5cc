//! A simulated process: a forked copy that may be killed, run out of memory or
//! hang without taking the simulator with it.
#![allow(static_mut_refs)]
use crate::ctx::Cx;
use crate::hooks;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    TimedOut,
}
pub struct Ended {
    pub end: End,
    pub out: String,
}
/// Fork, run `f` in the child with its reports going to a pipe, wait.
pub fn fork_run(cpu_secs: i64, f: impl FnOnce() -> i32) -> Ended {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Ended { end: End::TimedOut, out: "pipe".into() };
        }
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            hooks::REPORT_FD = fds[1] as i64;
            // a child outliving its parent helps nobody
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            hooks::watchdog(cpu_secs);
            let c = f();
            hooks::exit_now(c as i64);
        }
        libc::close(fds[1]);
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        let mut timed_out = false;
        let mut waited = 0;
        loop {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, 1000);
            if r == 0 {
                waited += 1;
                if waited > 4 * cpu_secs + 60 {
                    timed_out = true;
                    libc::kill(pid, libc::SIGKILL);
                }
                continue;
            }
            if r < 0 {
                continue;
            }
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let end = if timed_out {
            End::TimedOut
        } else if libc::WIFSIGNALED(st) {
            End::Signal(libc::WTERMSIG(st))
        } else {
            End::Exit(libc::WEXITSTATUS(st))
        };
        Ended { end, out: String::from_utf8_lossy(&out).to_string() }
    }
}

/// Run part of a simulation in a child; its history, verdicts and counters are
/// merged into `cx`.
pub fn in_child(cx: &mut Cx, cpu_secs: i64, f: impl FnOnce(&mut Cx)) -> End {
    let target = cx.target.clone();
    let keep = cx.keep_lines;
    let (step, now) = (cx.step, cx.now);
    let e = fork_run(cpu_secs, || {
        let mut c = Cx::new(&target, keep);
        c.step = step;
        c.now = now;
        f(&mut c);
        let mut o = String::new();
        dump(&c, &mut o);
        hooks::out(&o);
        0
    });
    absorb(cx, &e);
    e.end
}
/// everything a child found out, as lines for its parent
pub fn dump(c: &Cx, o: &mut String) {
    use std::fmt::Write;
    for (k, v) in &c.st.c {
        let _ = writeln!(o, "c {} {}", v, k);
    }
    for (k, v) in &c.st.faults {
        let _ = writeln!(o, "f {} {}", v, k);
    }
    for d in &c.st.distinct {
        let _ = writeln!(o, "d {:x}", d);
    }
    for d in &c.st.inter {
        let _ = writeln!(o, "i {:x}", d);
    }
    let _ = writeln!(o, "s {} {} {:x}", c.st.evals, c.st.sim_ns, c.hash);
    for l in &c.lines {
        let _ = writeln!(o, "l {}", l.replace('\n', " "));
    }
    if let Some(v) = &c.viol {
        let _ = writeln!(o, "v {}", v.replace('\n', " "));
    }
    let cov: Vec<String> = hooks::covered().iter().map(|x| x.to_string()).collect();
    let _ = writeln!(o, "e {}", cov.join(" "));
}
pub fn absorb(cx: &mut Cx, e: &Ended) {
    for l in e.out.lines() {
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "c" | "f" => {
                if let Some((n, name)) = rest.split_once(' ') {
                    let n: u64 = n.parse().unwrap_or(0);
                    let m = if k == "c" { &mut cx.st.c } else { &mut cx.st.faults };
                    *m.entry(name.into()).or_default() += n;
                }
            }
            "d" => {
                if cx.st.distinct.len() < 400_000 {
                    cx.st.distinct.insert(u64::from_str_radix(rest, 16).unwrap_or(0));
                }
            }
            "i" => {
                cx.st.inter.insert(u64::from_str_radix(rest, 16).unwrap_or(0));
            }
            "s" => {
                let p: Vec<&str> = rest.split(' ').collect();
                if p.len() == 3 {
                    cx.st.evals += p[0].parse::<u64>().unwrap_or(0);
                    cx.st.sim_ns += p[1].parse::<u64>().unwrap_or(0);
                    cx.log(format!("child history {}", p[2]));
                }
            }
            "l" => {
                if cx.keep_lines {
                    cx.lines.push(rest.to_string());
                }
            }
            "v" => {
                if cx.viol.is_none() {
                    cx.viol = Some(rest.to_string());
                }
                cx.log(format!("VIOLATION {}", rest));
            }
            "e" => unsafe {
                for x in rest.split(' ') {
                    if let Ok(i) = x.parse::<usize>() {
                        hooks::COV[i & (hooks::COVN - 1)] = 1;
                    }
                }
            },
            _ => {}
        }
    }
}
/// the H or S line a dying child left behind: (kind, step, hit, op, code)
pub fn last_words(e: &Ended) -> Option<(char, bool, String, i32)> {
    for l in e.out.lines() {
        let p: Vec<&str> = l.split(' ').collect();
        if p.len() == 6 && (p[0] == "H" || p[0] == "S") {
            return Some((p[0].chars().next().unwrap(), p[3] == "1", p[4].to_string(), p[5].parse().unwrap_or(0)));
        }
    }
    None
}
