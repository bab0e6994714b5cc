//! Process-level seams: instrumentation callbacks compiled into the library
//! under test, interposed system calls, and the allocator.
//!
//! The library's own source is untouched. The two library crates are compiled
//! with LLVM's SanitizerCoverage pass (see run.sh); it calls the functions
//! below at every control-flow edge and, in the `mem` builds, at every load and
//! store. They are the simulator's clock tick and preemption point.
#![allow(static_mut_refs)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;

pub const COVN: usize = 1 << 16;
pub static mut COV: [u8; COVN] = [0; COVN];
pub static mut NGUARD: u32 = 0;
/// edges executed so far (this process)
pub static mut EDGES: u64 = 0;
/// slow path when EDGES reaches this
pub static mut LIMIT: u64 = u64::MAX;
/// the end of the current operation's budget
pub static mut BUDGET: u64 = u64::MAX;
/// what is running, for crash and hang reports
pub static mut CUR_RUN: u64 = 0;
pub static mut CUR_STEP: u64 = 0;
pub static mut CUR_OP: &str = "-";
pub static mut CUR_HIT: bool = false;
/// scheduler callback (thread world): 0 edge, 1 load, 2 store, 3 yield or sleep,
/// 4 inside a caller's component; address
pub static mut SCHED: Option<fn(u32, usize)> = None;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        NGUARD += 1;
        *p = NGUARD;
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    COV[*g as usize & (COVN - 1)] = 1;
    EDGES += 1;
    if EDGES >= LIMIT {
        slow(0, 0);
    }
}
#[cold]
#[inline(never)]
unsafe fn slow(kind: u32, addr: usize) {
    if let Some(f) = SCHED {
        f(kind, addr);
    } else if EDGES >= BUDGET {
        hang();
    }
}
pub unsafe fn hang() -> ! {
    report('H', 0);
    exit_now(77)
}
macro_rules! memcb {
    ($($l:ident $s:ident;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $l(a: usize) {
            if let Some(f) = SCHED { f(1, a) }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $s(a: usize) {
            if let Some(f) = SCHED { f(2, a) }
        }
    )*};
}
memcb! {
    __sanitizer_cov_load1 __sanitizer_cov_store1;
    __sanitizer_cov_load2 __sanitizer_cov_store2;
    __sanitizer_cov_load4 __sanitizer_cov_store4;
    __sanitizer_cov_load8 __sanitizer_cov_store8;
    __sanitizer_cov_load16 __sanitizer_cov_store16;
}
/// a place outside the library where another thread may get its turn
pub fn point() {
    unsafe {
        if let Some(f) = SCHED {
            f(4, 0)
        }
    }
}
/// In a world with one thread nobody will ever wake a waiter: a wait that would
/// block is a hang.
unsafe fn lone_futex(n: i64, a: i64, b: i64, c: i64, d: i64, _e: i64, _f: i64) -> Option<i64> {
    if n == 202 && (b & 127 == 0 || b & 127 == 9) && CUR_OP != "-" {
        let v = std::ptr::read_volatile(a as *const u32);
        if v == c as u32 && d == 0 {
            hang();
        }
    }
    None
}
pub fn watch_futex() {
    unsafe { SYSCALL_HOOK = Some(lone_futex) }
}
pub fn edges() -> u64 {
    unsafe { EDGES }
}
pub fn covered() -> Vec<u32> {
    unsafe { (0..COVN as u32).filter(|i| COV[*i as usize] != 0).collect() }
}

// ---- raw system calls, so that the interposed names below do not recurse ----
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub unsafe fn errno_ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
pub unsafe fn exit_now(code: i64) -> ! {
    sys6(231, code, 0, 0, 0, 0, 0);
    loop {}
}
/// where reports go: the driver, or the parent of a forked simulation
pub static mut REPORT_FD: i64 = 1;
unsafe fn raw_out(b: &[u8]) {
    sys6(1, REPORT_FD, b.as_ptr() as i64, b.len() as i64, 0, 0, 0);
}
/// one line to the parent, without allocating
pub unsafe fn report(kind: char, code: i32) {
    let mut buf = [0u8; 160];
    let mut n = 0;
    let mut put = |s: &[u8]| {
        for c in s {
            if n < buf.len() - 1 {
                buf[n] = *c;
                n += 1;
            }
        }
    };
    fn num(mut v: u64, out: &mut [u8; 20]) -> usize {
        let mut i = 20;
        loop {
            i -= 1;
            out[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                return i;
            }
        }
    }
    let mut t = [0u8; 20];
    put(&[b'\n', kind as u8, b' ']);
    let i = num(CUR_RUN, &mut t);
    put(&t[i..]);
    put(b" ");
    let i = num(CUR_STEP, &mut t);
    put(&t[i..]);
    put(if CUR_HIT { b" 1 " } else { b" 0 " });
    put(CUR_OP.as_bytes());
    put(b" ");
    let i = num(code as u64, &mut t);
    put(&t[i..]);
    put(b"\n");
    raw_out(&buf[..n]);
}
extern "C" fn on_signal(sig: i32) {
    unsafe {
        if sig == libc::SIGVTALRM {
            // CPU time of one run exhausted: a loop the edge counter cannot see
            hang();
        }
        report('S', sig);
        exit_now(78)
    }
}
/// report the current run before dying from a fault
pub fn install_signals() {
    unsafe {
        let sz = 1 << 16;
        let st = libc::mmap(std::ptr::null_mut(), sz, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: st, ss_flags: 0, ss_size: sz };
        libc::sigaltstack(&ss, std::ptr::null_mut());
        for s in [libc::SIGVTALRM, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_RESETHAND;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}
/// fixed addresses: every process of a seed sees the same ones
pub fn no_aslr() {
    unsafe {
        let cur = libc::personality(0xffffffff);
        if cur >= 0 && cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_ASLR").is_none() {
            if libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
                let args: Vec<std::ffi::CString> =
                    std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
                let mut p: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
                p.push(std::ptr::null());
                std::env::set_var("SIM_ASLR", "off");
                libc::execv(b"/proc/self/exe\0".as_ptr() as *const _, p.as_ptr());
            }
        }
    }
}

// ---- interposed libc entry points ----
/// futex and friends: std's locks and Once end up here
pub static mut SYSCALL_HOOK: Option<unsafe fn(i64, i64, i64, i64, i64, i64, i64) -> Option<i64>> = None;
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if let Some(h) = SYSCALL_HOOK {
        if let Some(r) = h(n, a, b, c, d, e, f) {
            return errno_ret(r);
        }
    }
    if CLOCK_ON && n == 318 {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    errno_ret(sys6(n, a, b, c, d, e, f))
}
// ---- time and the system's randomness ----
/// while a run is simulated the process sees the run's own clock and random bytes
pub static mut CLOCK_ON: bool = false;
static mut CLOCK_RNG: u64 = 0;
static mut CLOCK_MODE: u64 = 0;
static mut MONO: i64 = 0;
static mut REAL: i64 = 0;
pub static mut CLOCK_READS: u64 = 0;
unsafe fn clock_draw() -> u64 {
    CLOCK_RNG = CLOCK_RNG.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = CLOCK_RNG;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
const SEC: i64 = 1_000_000_000;
unsafe fn real_start() -> i64 {
    let r = clock_draw();
    let near = (r >> 8) as i64 % 100;
    match r % 8 {
        0 => near * SEC,                                  // a clock that was never set
        1 => -near * SEC,                                 // before 1970
        2 => (0x7fff_ffff - 50 + near) * SEC,             // the end of 32 bits
        3 => 7_000_000_000 * SEC + near,                  // far ahead
        _ => (1_600_000_000 + (r >> 8) as i64 % 500_000_000) * SEC + near,
    }
}
pub fn clock_begin(seed: u64) {
    unsafe {
        CLOCK_RNG = seed ^ 0x636c_6f63_6b;
        CLOCK_READS = 0;
        CLOCK_MODE = clock_draw() % 5;
        MONO = (clock_draw() % 1_000_000) as i64 * SEC;
        REAL = real_start();
        CLOCK_ON = true;
    }
}
pub fn clock_end() -> u64 {
    unsafe {
        CLOCK_ON = false;
        CLOCK_READS
    }
}
/// the time goes on by what the mode of the run allows: little, not at all, in
/// leaps, or with the wall clock set anew by somebody
unsafe fn clock_read(id: i32) -> i64 {
    CLOCK_READS += 1;
    let r = clock_draw();
    let d = match CLOCK_MODE {
        0 => (r % 1_000_000) as i64,
        1 => 0,
        2 => 1i64 << (r % 58),
        _ => (r % 5_000_000_000) as i64,
    };
    MONO = MONO.saturating_add(d).min(i64::MAX / 4);
    REAL = REAL.saturating_add(d).min(i64::MAX - 1);
    if CLOCK_MODE >= 3 && r >> 60 < 5 {
        REAL = real_start();
    }
    if id == 0 || id == 5 { REAL } else { MONO }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut libc::timespec) -> i32 {
    if !CLOCK_ON {
        return errno_ret(sys6(228, id as i64, t as i64, 0, 0, 0, 0)) as i32;
    }
    let v = clock_read(id);
    (*t).tv_sec = v.div_euclid(SEC);
    (*t).tv_nsec = v.rem_euclid(SEC);
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut libc::timeval, z: *mut u8) -> i32 {
    if !CLOCK_ON || t.is_null() {
        return errno_ret(sys6(96, t as i64, z as i64, 0, 0, 0, 0)) as i32;
    }
    let v = clock_read(0);
    (*t).tv_sec = v.div_euclid(SEC);
    (*t).tv_usec = v.rem_euclid(SEC) / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    if !CLOCK_ON {
        return errno_ret(sys6(201, t as i64, 0, 0, 0, 0, 0));
    }
    let v = clock_read(0).div_euclid(SEC);
    if !t.is_null() {
        *t = v;
    }
    v
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, f: u32) -> isize {
    if !CLOCK_ON {
        return errno_ret(sys6(318, p as i64, n as i64, f as i64, 0, 0, 0)) as isize;
    }
    for i in 0..n {
        *p.add(i) = clock_draw() as u8;
    }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if let Some(f) = SCHED {
        f(3, 0);
        return 0;
    }
    errno_ret(sys6(24, 0, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    if let Some(f) = SCHED {
        f(3, 0);
        return 0;
    }
    errno_ret(sys6(35, a as i64, b as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, fl: i32, a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    if let Some(f) = SCHED {
        f(3, 0);
        return 0;
    }
    -(sys6(230, c as i64, fl as i64, a as i64, b as i64, 0, 0)) as i32
}
/// (fd, bytes) -> Some(result): the simulated disk under a watched descriptor
pub static mut WRITE_HOOK: Option<fn(i32, &[u8]) -> Option<i64>> = None;
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if let Some(h) = WRITE_HOOK {
        if let Some(r) = h(fd, std::slice::from_raw_parts(p, n)) {
            return errno_ret(r) as isize;
        }
    }
    errno_ret(sys6(1, fd as i64, p as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, p: *const u8, n: usize, off: i64) -> isize {
    if WRITE_HOOK.is_some() {
        // positioned: move there, write, move back
        let was = errno_ret(sys6(8, fd as i64, 0, 1, 0, 0, 0));
        if was >= 0 {
            sys6(8, fd as i64, off, 0, 0, 0, 0);
            let r = write(fd, p, n);
            sys6(8, fd as i64, was, 0, 0, 0, 0);
            return r;
        }
    }
    errno_ret(sys6(18, fd as i64, p as i64, n as i64, off, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    if WRITE_HOOK.is_some() {
        // the simulated disk takes the first non-empty piece: a legal short write
        for i in 0..n as usize {
            let e = &*v.add(i);
            if e.iov_len > 0 {
                return write(fd, e.iov_base as *const u8, e.iov_len);
            }
        }
    }
    errno_ret(sys6(20, fd as i64, v as i64, n as i64, 0, 0, 0)) as isize
}
/// called at every fsync/fdatasync/ftruncate/close-like call on a file: errno to return
pub static mut SYNC_HOOK: Option<fn(i32) -> i64> = None;
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    if let Some(h) = SYNC_HOOK {
        let r = h(fd);
        if r != 0 {
            return errno_ret(r) as i32;
        }
    }
    errno_ret(sys6(74, fd as i64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    fsync(fd)
}

// ---- allocator ----
pub struct SimAlloc;
/// memory handed out is filled with this pattern (0: as it comes)
pub static mut DIRTY: u64 = 0;
/// memory given back is written over at once, as by its next owner (0: left as it is)
pub static mut SPOIL: u8 = 0;
/// fail the allocation when this reaches 0 (negative: never)
pub static mut FAIL_IN: i64 = -1;
/// from then on every allocation fails (a full machine) or just the one
pub static mut FAIL_ALL: bool = false;
pub static mut FAIL_ARMED: bool = false;
pub static mut ALLOCS: u64 = 0;
pub static mut FAILED: u64 = 0;
/// memory watched for its content when it is released: (address, length)
pub static mut WATCH: (usize, usize) = (0, 0);
pub static mut WATCH_IMG: [u8; 256] = [0; 256];
pub static mut WATCH_HIT: u32 = 0;
/// red zones around allocations, checked on release
pub static mut REDZONE: bool = false;
pub static mut REDZONE_BROKEN: u32 = 0;
const RZ: usize = 256;

unsafe fn fill(p: *mut u8, n: usize) {
    let mut x = DIRTY;
    for i in 0..n {
        if DIRTY == 0xff {
            *p.add(i) = 0xff;
            continue;
        }
        if DIRTY == 1 {
            *p.add(i) = 1;
            continue;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *p.add(i) = x as u8;
    }
}
unsafe fn should_fail() -> bool {
    if !FAIL_ARMED {
        return false;
    }
    ALLOCS += 1;
    if FAIL_IN == 0 {
        if !FAIL_ALL {
            FAIL_IN = -1;
        }
        FAILED += 1;
        return true;
    }
    if FAIL_IN > 0 {
        FAIL_IN -= 1;
    }
    false
}
/// allocations of at least this size get red zones while REDZONE is on
const RZ_MIN: usize = 4096;
static mut RZ_LIVE: [(usize, usize); 64] = [(0, 0); 64];
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if should_fail() {
            return std::ptr::null_mut();
        }
        if REDZONE && l.size() >= RZ_MIN && l.align() <= RZ {
            if let Some(slot) = RZ_LIVE.iter_mut().find(|s| s.0 == 0) {
                let raw = System.alloc(Layout::from_size_align_unchecked(l.size() + 2 * RZ, RZ));
                if raw.is_null() {
                    return raw;
                }
                for i in 0..RZ {
                    *raw.add(i) = 0xA5;
                    *raw.add(RZ + l.size() + i) = 0xA5;
                }
                let p = raw.add(RZ);
                *slot = (p as usize, l.size());
                if DIRTY != 0 {
                    fill(p, l.size());
                }
                return p;
            }
        }
        let p = System.alloc(l);
        if DIRTY != 0 && !p.is_null() {
            fill(p, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if should_fail() {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if WATCH.1 != 0 && p as usize <= WATCH.0 && WATCH.0 + WATCH.1 <= p as usize + l.size() {
            let n = WATCH.1.min(256);
            for i in 0..n {
                WATCH_IMG[i] = std::ptr::read_volatile((WATCH.0 + i) as *const u8);
            }
            WATCH_HIT += 1;
        }
        if l.size() >= RZ_MIN {
            if let Some(slot) = RZ_LIVE.iter_mut().find(|s| s.0 == p as usize) {
                if slot.1 != l.size() {
                    REDZONE_BROKEN += 1;
                }
                let l = Layout::from_size_align_unchecked(slot.1, l.align());
                for i in 0..RZ {
                    if *p.sub(RZ).add(i) != 0xA5 || *p.add(l.size() + i) != 0xA5 {
                        REDZONE_BROKEN += 1;
                        break;
                    }
                }
                *slot = (0, 0);
                if SPOIL != 0 {
                    std::ptr::write_bytes(p, SPOIL, l.size());
                }
                System.dealloc(p.sub(RZ), Layout::from_size_align_unchecked(l.size() + 2 * RZ, RZ));
                return;
            }
        }
        if SPOIL != 0 {
            std::ptr::write_bytes(p, SPOIL, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if FAIL_ARMED || REDZONE || WATCH.1 != 0 || DIRTY != 0 || SPOIL != 0 {
            // through alloc and dealloc, so that every seam applies
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}
/// check the red zones of live allocations
pub fn redzones_intact() -> bool {
    unsafe {
        for (p, n) in RZ_LIVE.iter() {
            if *p != 0 {
                let p = *p as *const u8;
                for i in 0..RZ {
                    if *p.sub(RZ).add(i) != 0xA5 || *p.add(*n + i) != 0xA5 {
                        return false;
                    }
                }
            }
        }
        REDZONE_BROKEN == 0
    }
}
/// a block of lines to the parent
pub fn out(s: &str) {
    let b = s.as_bytes();
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { sys6(1, REPORT_FD, b[o..].as_ptr() as i64, (b.len() - o) as i64, 0, 0, 0) };
        if n <= 0 {
            unsafe { exit_now(79) }
        }
        o += n as usize;
    }
}

/// CPU seconds the current run may use before it counts as hung
pub fn watchdog(secs: i64) {
    unsafe {
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
        };
        sys6(38, 1, &t as *const _ as i64, 0, 0, 0, 0);
    }
}
