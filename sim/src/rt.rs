//! The process simulator: real OS threads of which exactly one runs at a time. Who runs is
//! decided here, at every intercepted point: instrumented basic blocks / loads / stores of the
//! crate under test, futex calls, allocations, getrandom, sched_yield, sleeps.
#![allow(static_mut_refs)]
use crate::common::{fnv, Rng};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAX_THREADS: usize = 64;
pub const LOG_CAP: usize = 1 << 16;

// ------------------------------------------------------------------ shared result area
#[repr(C)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub blocks: u64,
    pub spurious: u64,
    pub stalls: u64,
    pub allocs: u64,
    pub alloc_fail: u64,
    pub crash: u64,
    pub getrandom: u64,
    pub futex_wait: u64,
    pub futex_wake: u64,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub forced_slices: u64,
    pub sched_hash: u64,
    pub spawned: u64,
    pub state_hash_n: u64,
    pub ops: u64,
    pub rejected: u64,
    pub f: [u64; 32], // scenario fault and probe counters
}

#[repr(C)]
pub struct Shm {
    pub violation_len: u64,
    pub violation: [u8; 4096],
    pub done: u64,
    pub stats: Stats,
    pub log_n: u64,
    pub log: [(u64, u32, u32); LOG_CAP], // (gap, pick, kind 0=preempt 1=block)
    pub sites_n: u64,
    pub sites: [u64; 4096],
    pub world: crate::world::World,
}

pub static mut SHM: *mut Shm = std::ptr::null_mut();
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
pub fn shm_init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHM = p as *mut Shm;
        // code blocks reached by any simulated process of this worker
        let p = libc::mmap(std::ptr::null_mut(), HITS_N, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        COV = p as *mut u8;
    }
}
static mut COV: *mut u8 = std::ptr::null_mut();
pub fn blocks_reached() -> Vec<u64> {
    unsafe { (0..HITS_N).filter(|i| *COV.add(*i) != 0).map(|i| i as u64).collect() }
}

// ------------------------------------------------------------------ configuration of one boot
#[derive(Clone, Debug, PartialEq)]
pub struct SchedCfg {
    pub seed: u64,
    pub quiet: u64,      // mean gap between preemption bursts (steps)
    pub burst: u64,      // preemptions per burst
    pub fine: u64,       // mean gap inside a burst
    pub p_boundary: u64, // /256 chance of switching at an op boundary
    pub p_inside: u64,   // /256 chance of placing a preemption inside an op
    pub w_inside: u64,   // ... within that many steps
    pub spurious: u64,   // /65536 chance per scheduling event of a spurious futex wake-up
    pub p_novel: u64,    // /1024 chance of a preemption when a code site is reached for the 1st, 2nd, 4th, ... time
    pub stall: u64,      // /256 chance that a preempted thread is stalled
    pub stall_len: u64,  // ... for up to that many steps
    pub max_switches: u64,
    pub explicit: Option<(Vec<(u64, u32)>, Vec<u32>)>,
}

impl SchedCfg {
    pub fn none() -> SchedCfg {
        SchedCfg {
            seed: 0,
            quiet: 0,
            burst: 0,
            fine: 1,
            p_boundary: 0,
            p_inside: 0,
            w_inside: 1,
            spurious: 0,
            p_novel: 0,
            stall: 0,
            stall_len: 1,
            max_switches: u64::MAX,
            explicit: None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct BootCfg {
    pub hash_seed: u64,
    pub sched: SchedCfg,
    pub crash_at: u64,      // step at which the process dies (0 = never)
    pub alloc_fail_at: u64, // n-th allocation that returns null (0 = never)
    pub budget: u64,        // step budget
    pub record: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    Blocked { addr: usize, deadline: u64 },
    Done,
}

struct Sim {
    n: usize,
    n0: usize, // the client threads; the others were started by the code under test
    cur: usize,
    st: [St; MAX_THREADS],
    woken: [bool; MAX_THREADS], // true: woken by wake; false: timeout
    cfg: SchedCfg,
    rng: Rng,
    hash_rng: Rng,
    base: u64,
    reload: u64,
    sched_at: u64,
    crash_at: u64,
    slice_at: u64,
    budget: u64,
    last_event: u64,
    burst_left: u64,
    stalled: [u64; MAX_THREADS],
    stalls_left: u64,
    ex_p: usize,
    ex_b: usize,
    allocs: u64,
    alloc_fail_at: u64,
    record: bool,
    nopreempt: u32,
    now_ns: u64,
    clock_rng: Rng,
    wall_back: u64,
    name: fn(usize) -> &'static str,
}
static mut SIM: Option<Sim> = None;
static GO: [AtomicU32; MAX_THREADS] = [const { AtomicU32::new(0) }; MAX_THREADS];
static MAIN_GO: AtomicU32 = AtomicU32::new(0);
static mut COUNT: u64 = u64::MAX;
static mut LAST_SITE: u64 = 0;

thread_local! { static ME: Cell<u32> = const { Cell::new(0) }; }
fn me() -> Option<usize> {
    let v = ME.with(|m| m.get());
    if v == 0 {
        None
    } else {
        Some(v as usize - 1)
    }
}
fn sim() -> &'static mut Sim {
    unsafe { SIM.as_mut().unwrap_unchecked() }
}
const SLICE: u64 = 3_000_000;

// ------------------------------------------------------------------ raw system calls
#[inline(always)]
unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn park(w: &AtomicU32) {
    while w.load(SeqCst) == 0 {
        unsafe { raw6(libc::SYS_futex, w as *const _ as i64, 128, 0, 0, 0, 0) };
    }
    w.store(0, SeqCst);
}
fn unpark(w: &AtomicU32) {
    w.store(1, SeqCst);
    unsafe { raw6(libc::SYS_futex, w as *const _ as i64, 129, 1, 0, 0, 0) };
}
pub fn die(code: i32) -> ! {
    unsafe {
        raw6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}

// ------------------------------------------------------------------ verdicts
pub const EXIT_OK: i32 = 0;
pub const EXIT_VIOLATION: i32 = 42;
pub const EXIT_CRASHED: i32 = 43; // injected crash

pub fn violation(class: &str, text: &str) -> ! {
    let s = shm();
    if me().is_some() {
        // nothing may interrupt the report
        let m = sim();
        m.nopreempt += 1;
        m.crash_at = 0;
        m.budget = u64::MAX / 2;
    }
    let t = format!("{}: {}", class, text);
    let n = t.len().min(s.violation.len());
    s.violation[..n].copy_from_slice(&t.as_bytes()[..n]);
    s.violation_len = n as u64;
    flush_stats();
    die(EXIT_VIOLATION)
}
fn flush_stats() {
    unsafe {
        if SIM.is_some() {
            shm().stats.steps = cur_step();
        }
    }
}

// ------------------------------------------------------------------ stepping
#[inline(always)]
fn hit() {
    unsafe {
        COUNT = COUNT.wrapping_sub(1);
        if COUNT == 0 {
            slow()
        }
    }
}
/// A possible switch in the simulator's own code (inside sinks, between storage accesses).
pub fn yield_point() {
    if me().is_some() {
        hit()
    }
}
pub fn cur_step() -> u64 {
    let s = sim();
    unsafe { s.base + (s.reload - COUNT) }
}
fn rearm() {
    let s = sim();
    let step = cur_step();
    s.base = step;
    let mut t = s.sched_at.min(s.slice_at).min(s.budget);
    if s.crash_at != 0 {
        t = t.min(s.crash_at);
    }
    let d = t.saturating_sub(step).max(1);
    s.reload = d;
    unsafe { COUNT = d };
}
#[cold]
#[inline(never)]
fn slow() {
    if me().is_none() {
        unsafe { COUNT = u64::MAX };
        return;
    }
    let s = sim();
    s.base += s.reload;
    s.reload = 0;
    let step = s.base;
    if s.crash_at != 0 && step >= s.crash_at {
        shm().stats.crash += 1;
        flush_stats0(step);
        die(EXIT_CRASHED);
    }
    if step >= s.budget {
        s.reload = u64::MAX;
        s.base = step;
        unsafe { COUNT = u64::MAX };
        violation("no-progress", &format!("step budget of {} exhausted; {}", s.budget, describe()));
    }
    // make cur_step() valid while deciding
    s.reload = 1 << 40;
    unsafe { COUNT = 1 << 40 };
    let by_sched = step >= s.sched_at;
    let by_slice = step >= s.slice_at;
    if s.nopreempt == 0 && (by_sched || by_slice) {
        if by_slice && !by_sched {
            shm().stats.forced_slices += 1;
        }
        preempt(by_sched);
    } else if s.nopreempt > 0 && (by_sched || by_slice) {
        // retry just after the protected section
        if by_sched {
            s.sched_at = step + 1;
        }
        if by_slice {
            s.slice_at = step + 1;
        }
    }
    rearm();
}
fn flush_stats0(step: u64) {
    shm().stats.steps = step;
}
fn describe() -> String {
    let s = sim();
    let mut o = String::new();
    for i in 0..s.n {
        let d = match s.st[i] {
            St::Ready => "ready".to_string(),
            St::Done => "done".to_string(),
            St::Blocked { .. } => "blocked".to_string(),
        };
        o.push_str(&format!("t{}[{}]={} ", i, (s.name)(i), d));
    }
    o
}
fn next_gap() -> u64 {
    let s = sim();
    if shm().stats.switches >= s.cfg.max_switches {
        return u64::MAX / 4;
    }
    if let Some((p, _)) = &s.cfg.explicit {
        return if s.ex_p < p.len() { p[s.ex_p].0 } else { u64::MAX / 4 };
    }
    if s.burst_left > 0 {
        s.burst_left -= 1;
        1 + s.rng.below(2 * s.cfg.fine)
    } else if s.cfg.quiet == 0 {
        u64::MAX / 4
    } else {
        s.burst_left = s.cfg.burst;
        1 + s.rng.below(2 * s.cfg.quiet)
    }
}
/// Only meaningful for seeded schedules: place a preemption inside the op that starts now.
pub fn op_boundary() {
    let Some(_) = me() else { return };
    let s = sim();
    shm().stats.ops += 1;
    if s.cfg.explicit.is_none() && shm().stats.switches < s.cfg.max_switches {
        let step = cur_step();
        if s.cfg.p_inside > 0 && s.rng.below(256) < s.cfg.p_inside {
            s.sched_at = s.sched_at.min(step + 1 + s.rng.below(s.cfg.w_inside.max(1)));
            rearm();
        } else if s.cfg.p_boundary > 0 && s.rng.below(256) < s.cfg.p_boundary {
            s.sched_at = step + 1;
            rearm();
        }
    }
    hit();
}
/// Run `f` without being preempted (used for the simulator's own bookkeeping).
pub fn atomic<R>(f: impl FnOnce() -> R) -> R {
    if me().is_none() {
        return f();
    }
    sim().nopreempt += 1;
    let r = f();
    sim().nopreempt -= 1;
    r
}

fn now() -> u64 {
    sim().now_ns + cur_step()
}
fn ready_others(buf: &mut [usize; MAX_THREADS]) -> usize {
    let s = sim();
    let mut n = 0;
    let t = now();
    for i in 0..s.n {
        // sleeps and timed waits end as time goes by
        if let St::Blocked { deadline, .. } = s.st[i] {
            if deadline <= t {
                s.st[i] = St::Ready;
                s.woken[i] = false;
            }
        }
    }
    for i in 0..s.n {
        if i != s.cur && s.st[i] == St::Ready {
            buf[n] = i;
            n += 1;
        }
    }
    n
}
fn record(gap: u64, pick: u32, kind: u32) {
    let s = sim();
    let m = shm();
    m.stats.sched_hash = fnv(fnv(m.stats.sched_hash, gap), (pick as u64) << 1 | kind as u64);
    if m.stats.preempts < 4096 && kind == 0 {
        let site = fnv(unsafe { LAST_SITE }, pick as u64);
        if (m.sites_n as usize) < m.sites.len() {
            m.sites[m.sites_n as usize] = site;
            m.sites_n += 1;
        }
    }
    if s.record && (m.log_n as usize) < LOG_CAP {
        m.log[m.log_n as usize] = (gap, pick, kind);
        m.log_n += 1;
    }
}
fn maybe_spurious() {
    let s = sim();
    if s.cfg.spurious == 0 || s.cfg.explicit.is_some() && s.cfg.spurious == 0 {
        return;
    }
    // drawn from its own hash of the schedule so that explicit replays see the same
    let h = fnv(shm().stats.sched_hash, s.cfg.seed ^ shm().stats.switches);
    if h % 65536 < s.cfg.spurious {
        for k in 0..s.n {
            let i = (k + (h >> 32) as usize) % s.n;
            if let St::Blocked { .. } = s.st[i] {
                s.st[i] = St::Ready;
                s.woken[i] = true;
                shm().stats.spurious += 1;
                break;
            }
        }
    }
}
/// One of the runnable threads that are not stalled, as position in the list of all runnable ones.
fn pick_runnable(buf: &[usize], now: u64) -> Option<u32> {
    let s = sim();
    let n = buf.iter().filter(|i| s.stalled[**i] <= now).count() as u64;
    if n == 0 {
        return None;
    }
    let k = s.rng.below(n) as usize;
    (0..buf.len()).filter(|j| s.stalled[buf[*j]] <= now).nth(k).map(|j| j as u32)
}
fn preempt(by_sched: bool) {
    let s = sim();
    let step = s.base;
    let mut buf = [0; MAX_THREADS];
    if s.cfg.explicit.is_none() {
        let n = ready_others(&mut buf);
        if n == 0 && !by_sched || n > 0 && buf[..n].iter().all(|i| s.stalled[*i] > step) {
            // nobody to switch to, or everybody else is stalled: go on; not an event
            if by_sched {
                let g = next_gap();
                s.sched_at = step.saturating_add(g);
            }
            s.slice_at = step + SLICE;
            return;
        }
    }
    maybe_spurious();
    let n = ready_others(&mut buf);
    let gap = step - s.last_event;
    let mut pick = 0u32;
    if let Some((p, _)) = &s.cfg.explicit {
        if by_sched && s.ex_p < p.len() {
            pick = p[s.ex_p].1;
            s.ex_p += 1;
        }
    } else if n > 0 {
        pick = pick_runnable(&buf[..n], step).unwrap_or(0);
        if by_sched && s.stalls_left > 0 && s.cfg.stall > 0 && s.rng.below(256) < s.cfg.stall {
            s.stalls_left -= 1;
            let b = s.rng.below(s.cfg.stall_len.max(2).ilog2() as u64 + 1);
            s.stalled[s.cur] = step + (1 << b);
            shm().stats.stalls += 1;
        }
    }
    s.last_event = step;
    record(gap, pick, 0);
    shm().stats.preempts += 1;
    if n > 0 {
        let to = buf[pick as usize % n];
        switch(to);
    }
    let s = sim();
    // (after a switch back, time has moved on)
    let now = cur_step();
    s.last_event = now;
    let g = next_gap();
    s.sched_at = now.saturating_add(g);
    s.slice_at = slice_end(now);
}
/// Forced slices keep seeded schedules fair; they are part of the recorded decisions, so an
/// explicit schedule needs them only once it is used up.
fn slice_end(now: u64) -> u64 {
    let s = sim();
    match &s.cfg.explicit {
        Some((p, _)) if s.ex_p < p.len() => u64::MAX / 4,
        _ => now + SLICE,
    }
}
fn switch(to: usize) {
    let s = sim();
    let from = s.cur;
    shm().stats.switches += 1;
    s.cur = to;
    // the incoming thread continues with a fresh slice
    let now = cur_step();
    s.slice_at = slice_end(now);
    s.last_event = now;
    let g = next_gap();
    let s = sim();
    s.sched_at = now.saturating_add(g);
    rearm();
    // (once the other thread runs, the slot of a finished one may be taken again)
    let gone = s.st[from] == St::Done;
    unpark(&GO[to]);
    if !gone {
        park(&GO[from]);
    }
}
/// The current thread cannot continue: pick another one.
fn block_switch() {
    let s = sim();
    shm().stats.blocks += 1;
    maybe_spurious();
    loop {
        let mut buf = [0; MAX_THREADS];
        let mut n = ready_others(&mut buf);
        if s.st[s.cur] == St::Ready {
            // (woken spuriously while about to block)
            buf[n] = s.cur;
            n += 1;
        }
        if n > 0 {
            let mut pick = 0u32;
            if let Some((_, b)) = &s.cfg.explicit {
                if s.ex_b < b.len() {
                    pick = b[s.ex_b];
                    s.ex_b += 1;
                }
            } else {
                pick = match pick_runnable(&buf[..n], cur_step()) {
                    Some(p) => p,
                    None => {
                        s.stalled = [0; MAX_THREADS];
                        s.rng.below(n as u64) as u32
                    }
                };
            }
            record(u64::MAX, pick, 1);
            let to = buf[pick as usize % n];
            if to == s.cur {
                return;
            }
            switch(to);
            return;
        }
        // nothing runnable: jump simulated time to the earliest deadline
        let mut best: Option<(u64, usize)> = None;
        for i in 0..s.n {
            if let St::Blocked { deadline, .. } = s.st[i] {
                if deadline != u64::MAX && best.map(|b| deadline < b.0).unwrap_or(true) {
                    best = Some((deadline, i));
                }
            }
        }
        match best {
            Some((t, i)) => {
                s.now_ns += t.saturating_sub(now());
                s.st[i] = St::Ready;
                s.woken[i] = false;
            }
            None => {
                if (0..s.n0).all(|i| s.st[i] == St::Done) {
                    flush_stats();
                    shm().done = 1;
                    unpark(&MAIN_GO);
                    loop {
                        park(&GO[s.cur]);
                    }
                }
                violation("deadlock", &format!("no thread can run: {}", describe()));
            }
        }
    }
}

// ------------------------------------------------------------------ interception
unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
unsafe fn futex(a: i64, op: i64, val: i64, timeout: i64, val3: i64) -> i64 {
    let s = sim();
    let cmd = op & 0x7f;
    let addr = a as *const AtomicU32;
    match cmd {
        0 | 9 => {
            hit();
            if (*addr).load(SeqCst) != val as u32 {
                set_errno(libc::EAGAIN);
                return -1;
            }
            shm().stats.futex_wait += 1;
            let deadline = if timeout == 0 {
                u64::MAX
            } else {
                let ts = &*(timeout as *const libc::timespec);
                let t = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                if cmd == 0 {
                    now().saturating_add(t)
                } else {
                    t
                }
            };
            let i = s.cur;
            s.st[i] = St::Blocked { addr: a as usize, deadline };
            block_switch();
            let s = sim();
            if s.woken[i] {
                0
            } else {
                set_errno(libc::ETIMEDOUT);
                -1
            }
        }
        1 | 10 => {
            let _ = val3;
            let mut k = 0;
            shm().stats.futex_wake += 1;
            for d in 0..s.n {
                // wake order rotates with the waker, FIFO is not promised by futexes
                let i = (s.cur + 1 + d) % s.n;
                if k >= val.max(0) as u64 {
                    break;
                }
                if let St::Blocked { addr, .. } = s.st[i] {
                    if addr == a as usize {
                        s.st[i] = St::Ready;
                        s.woken[i] = true;
                        k += 1;
                    }
                }
            }
            hit();
            k as i64
        }
        _ => {
            set_errno(libc::ENOSYS);
            -1
        }
    }
}
fn fill_random(p: *mut u8, n: usize) {
    shm().stats.getrandom += 1;
    let s = sim();
    for i in 0..n {
        unsafe { *p.add(i) = s.hash_rng.next() as u8 };
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if me().is_some() {
        if n == libc::SYS_futex {
            return futex(a, b, c, d, f);
        }
        if n == libc::SYS_getrandom {
            fill_random(a as *mut u8, b as usize);
            return b;
        }
    }
    let r = raw6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if me().is_some() {
        fill_random(p, n);
        return n as isize;
    }
    let r = raw6(libc::SYS_getrandom, p as i64, n as i64, flags as i64, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        -1
    } else {
        r as isize
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if me().is_some() {
        let step = cur_step();
        sim().slice_at = step + 1;
        rearm();
        hit();
        return 0;
    }
    raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if me().is_some() {
        shm().stats.clock_reads += 1;
        let s = sim();
        // simulated time: 1 ns per step plus jumps to timer deadlines; the clock of each
        // incarnation starts somewhere else (skew), some reads find that time has leapt, and
        // the wall clock is now and then set back
        s.now_ns += 1;
        if s.clock_rng.chance(1, 12) {
            shm().stats.clock_jumps += 1;
            let b = s.clock_rng.below(48);
            s.now_ns += s.clock_rng.below(1 << b);
        }
        let mut t = now();
        if wall(id) {
            if s.clock_rng.chance(1, 12) {
                shm().stats.clock_jumps += 1;
                let b = s.clock_rng.below(48);
                s.wall_back = s.clock_rng.below(1 << b);
            }
            t = reading(id);
        }
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    let r = raw6(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        -1
    } else {
        0
    }
}
fn wall(clock: i32) -> bool {
    clock == libc::CLOCK_REALTIME || clock == libc::CLOCK_REALTIME_COARSE
}
fn reading(clock: i32) -> u64 {
    if wall(clock) {
        (now() + 1_600_000_000_000_000_000).saturating_sub(sim().wall_back)
    } else {
        now()
    }
}
unsafe fn sim_sleep(clock: i32, abs: bool, t: *const libc::timespec) {
    let s = sim();
    let mut d = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
    if abs {
        d = d.saturating_sub(reading(clock));
    }
    let i = s.cur;
    s.st[i] = St::Blocked { addr: usize::MAX, deadline: now().saturating_add(d) };
    block_switch();
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, r: *mut libc::timespec) -> i32 {
    if me().is_some() {
        sim_sleep(libc::CLOCK_MONOTONIC, false, t);
        return 0;
    }
    raw6(libc::SYS_nanosleep, t as i64, r as i64, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    c: i32,
    fl: i32,
    t: *const libc::timespec,
    r: *mut libc::timespec,
) -> i32 {
    if me().is_some() {
        sim_sleep(c, fl & libc::TIMER_ABSTIME != 0, t);
        return 0;
    }
    -raw6(libc::SYS_clock_nanosleep, c as i64, fl as i64, t as i64, r as i64, 0, 0) as i32
}

struct SimAlloc;
unsafe impl std::alloc::GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if alloc_hook() {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if alloc_hook() {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if alloc_hook() {
            return std::ptr::null_mut();
        }
        std::alloc::System.realloc(p, l, n)
    }
}
#[inline(always)]
fn alloc_hook() -> bool {
    if unsafe { SIM.is_none() } || me().is_none() {
        return false;
    }
    let s = sim();
    s.allocs += 1;
    shm().stats.allocs = s.allocs;
    if s.nopreempt == 0 {
        if s.alloc_fail_at != 0 && s.allocs >= s.alloc_fail_at {
            s.alloc_fail_at = 0;
            shm().stats.alloc_fail += 1;
            flush_stats();
            return true;
        }
        hit();
    }
    false
}
#[global_allocator]
static A: SimAlloc = SimAlloc;

// instrumentation callbacks of the crate under test
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    unsafe {
        let mut p = a;
        while p < b {
            if *p == 0 {
                NGUARDS += 1;
                *p = NGUARDS as u32;
            }
            p = p.add(1);
        }
    }
}
pub static mut NGUARDS: u64 = 0;
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    unsafe {
        LAST_SITE = *g as u64;
        if !COV.is_null() {
            *COV.add(*g as usize % HITS_N) = 1;
        }
        let h = &mut HITS[*g as usize % HITS_N];
        *h = h.wrapping_add(1);
        if *h & h.wrapping_sub(1) == 0 {
            novel();
        }
    };
    hit()
}
/// (address, flags) of every instrumented block, in the order of the guards; read by `vsim unreached`
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(a: *const [usize; 2], b: *const [usize; 2]) {
    unsafe {
        if PCS_N > 0 {
            return; // the linker joins the tables of all crates; each crate announces the whole
        }
        let n = b.offset_from(a) as usize;
        for i in 0..n {
            if PCS_N < PCS.len() {
                PCS[PCS_N] = *a.add(i);
                PCS_N += 1;
            }
        }
    }
}
pub static mut PCS: [[usize; 2]; HITS_N] = [[0; 2]; HITS_N];
pub static mut PCS_N: usize = 0;
const HITS_N: usize = 1 << 16;
static mut HITS: [u32; HITS_N] = [0; HITS_N];
/// A site was reached for the first (second, fourth, ...) time in this process: rarely executed
/// code is where steps drawn uniformly over time hardly ever land.
#[cold]
#[inline(never)]
fn novel() {
    if me().is_none() {
        return;
    }
    let s = sim();
    if s.cfg.p_novel == 0 || s.cfg.explicit.is_some() || s.nopreempt > 0 || shm().stats.switches >= s.cfg.max_switches {
        return;
    }
    if s.rng.below(1024) < s.cfg.p_novel {
        // at the site itself or among the next few accesses, which may be straight-line code
        let d = if s.rng.chance(1, 2) { 0 } else { s.rng.below(12) };
        s.sched_at = cur_step() + 1 + d;
        rearm();
    }
}
macro_rules! mem {($($n:ident),*) => {$(
    #[no_mangle] pub extern "C" fn $n(_a: *const u8) { hit() }
)*}}
mem!(
    __sanitizer_cov_load1,
    __sanitizer_cov_load2,
    __sanitizer_cov_load4,
    __sanitizer_cov_load8,
    __sanitizer_cov_load16,
    __sanitizer_cov_store1,
    __sanitizer_cov_store2,
    __sanitizer_cov_store4,
    __sanitizer_cov_store8,
    __sanitizer_cov_store16
);

// ------------------------------------------------------------------ running one boot
pub struct Outcome {
    pub kind: Kind,
    pub text: String,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Ok,
    Crashed,
    AllocAbort,
    Violation,
    Hang,
}

pub fn reset_shm_for_boot() {
    let s = shm();
    s.violation_len = 0;
    s.done = 0;
    s.stats = unsafe { std::mem::zeroed() };
    s.log_n = 0;
    s.sites_n = 0;
}

/// Forks a pristine process, runs `bodies` as simulated threads in it, returns how it ended.
pub fn boot(
    cfg: &BootCfg,
    n: usize,
    body: &dyn Fn(usize),
    name: fn(usize) -> &'static str,
) -> Outcome {
    reset_shm_for_boot();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        child(cfg, n, body, name);
    }
    let mut st = 0i32;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
    }
    let s = shm();
    let text = String::from_utf8_lossy(&s.violation[..s.violation_len as usize]).to_string();
    if libc::WIFEXITED(st) {
        match libc::WEXITSTATUS(st) {
            EXIT_OK if s.done == 1 => Outcome { kind: Kind::Ok, text },
            EXIT_VIOLATION => Outcome { kind: Kind::Violation, text },
            EXIT_CRASHED => Outcome { kind: Kind::Crashed, text },
            c => Outcome {
                kind: Kind::Violation,
                text: format!("process-exit: the simulated process exited by itself with status {}", c),
            },
        }
    } else {
        let sig = libc::WTERMSIG(st);
        if sig == libc::SIGABRT && s.stats.alloc_fail > 0 {
            return Outcome { kind: Kind::AllocAbort, text };
        }
        if sig == libc::SIGALRM || sig == libc::SIGKILL {
            return Outcome {
                kind: Kind::Hang,
                text: "hang: a simulated process made no progress in 100 s of real time".into(),
            };
        }
        Outcome { kind: Kind::Violation, text: format!("process-crash: killed by signal {}", sig) }
    }
}

fn child(cfg: &BootCfg, n: usize, body: &dyn Fn(usize), name: fn(usize) -> &'static str) -> ! {
    assert!(n <= MAX_THREADS && n > 0);
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        for fd in 0..3 {
            libc::dup2(null, fd);
        }
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        libc::alarm(100);
        // one heap: which arena a thread gets would depend on when others really exit
        libc::mallopt(libc::M_ARENA_MAX, 1);
        // nothing the parent did before may count: code of the crate's generic instances can be
        // shared with the simulator's own
        HITS[..=(NGUARDS as usize).min(HITS_N - 1)].fill(0);
        LAST_SITE = 0;
    }
    let mut rng = Rng::new(cfg.sched.seed);
    let first = if let Some((_, b)) = &cfg.sched.explicit {
        b.first().copied().unwrap_or(0) as usize % n
    } else {
        rng.below(n as u64) as usize
    };
    unsafe {
        SIM = Some(Sim {
            n,
            n0: n,
            cur: first,
            st: [St::Ready; MAX_THREADS],
            woken: [false; MAX_THREADS],
            cfg: cfg.sched.clone(),
            rng,
            hash_rng: Rng::new(cfg.hash_seed),
            base: 0,
            reload: u64::MAX / 8,
            sched_at: u64::MAX / 8,
            crash_at: cfg.crash_at,
            slice_at: SLICE,
            budget: cfg.budget,
            last_event: 0,
            burst_left: 0,
            stalled: [0; MAX_THREADS],
            stalls_left: 6,
            ex_p: 0,
            ex_b: 1,
            allocs: 0,
            alloc_fail_at: cfg.alloc_fail_at,
            record: cfg.record,
            nopreempt: 0,
            now_ns: 1_000_000_000 * (1 + cfg.hash_seed % 1_000_000),
            clock_rng: Rng::new(cfg.hash_seed ^ 0x636c6f636b),
            wall_back: 0,
            name,
        });
        COUNT = u64::MAX / 8;
    }
    if cfg.record {
        let m = shm();
        m.log[0] = (u64::MAX, first as u32, 1);
        m.log_n = 1;
    }
    // SAFETY: the process never outlives these threads; it ends with exit_group.
    let body: &'static dyn Fn(usize) = unsafe { std::mem::transmute(body) };
    struct Ptr(&'static dyn Fn(usize));
    unsafe impl Send for Ptr {}
    static READY: AtomicU32 = AtomicU32::new(0);
    for i in 0..n {
        let p = Ptr(body);
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || {
                let p = p;
                READY.fetch_add(1, SeqCst);
                park(&GO[i]);
                ME.with(|m| m.set(i as u32 + 1));
                (p.0)(i);
                let s = sim();
                let _ = s;
                finish(i);
            })
            .expect("thread");
        // one after the other: what std keeps about threads depends on the order they start in
        while READY.load(SeqCst) <= i as u32 {
            std::thread::yield_now();
        }
    }
    {
        let g = next_gap();
        let s = sim();
        s.sched_at = g;
        s.slice_at = slice_end(0);
        rearm();
    }
    unpark(&GO[first]);
    park(&MAIN_GO);
    die(EXIT_OK)
}
fn finish(i: usize) {
    let s = sim();
    s.st[i] = St::Done;
    if (0..s.n0).all(|i| s.st[i] == St::Done) {
        // the process exits, whatever threads of its own are still running
        flush_stats();
        shm().done = 1;
        unpark(&MAIN_GO);
    } else {
        block_switch();
    }
    loop {
        park(&GO[i]);
    }
}

// ------------------------------------------------------------------ threads the code under test starts
type Main = unsafe extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
struct Spawned {
    tid: libc::pthread_t,
    open: bool, // neither joined nor detached by the code under test
    live: bool, // the real thread has not been joined yet
    f: Option<Main>,
    arg: *mut libc::c_void,
}
static mut SPAWNED: [Spawned; MAX_THREADS] = [const { Spawned { tid: 0, open: false, live: false, f: None, arg: std::ptr::null_mut() } }; MAX_THREADS];
const JOIN: usize = usize::MAX - MAX_THREADS;
unsafe fn real(name: &std::ffi::CStr) -> *mut libc::c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr());
    if p.is_null() {
        die(99)
    }
    p
}
fn real_join() -> unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32 {
    unsafe { std::mem::transmute(real(c"pthread_join")) }
}
unsafe extern "C" fn spawned_main(i: *mut libc::c_void) -> *mut libc::c_void {
    let i = i as usize;
    park(&GO[i]);
    ME.with(|m| m.set(i as u32 + 1));
    let (f, arg) = (SPAWNED[i].f.unwrap_unchecked(), SPAWNED[i].arg);
    let r = f(arg);
    let s = sim();
    s.st[i] = St::Done;
    for j in 0..s.n {
        if matches!(s.st[j], St::Blocked { addr, .. } if addr == JOIN + i) {
            s.st[j] = St::Ready;
            s.woken[j] = true;
        }
    }
    block_switch(); // hands over and returns
    ME.with(|m| m.set(0));
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: Main, arg: *mut libc::c_void) -> i32 {
    let create: unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Main, *mut libc::c_void) -> i32 =
        std::mem::transmute(real(c"pthread_create"));
    if me().is_none() {
        return create(t, attr, f, arg);
    }
    let s = sim();
    let i = (s.n0..s.n).find(|i| s.st[*i] == St::Done && !SPAWNED[*i].open).unwrap_or(s.n);
    if i >= MAX_THREADS {
        return libc::EAGAIN;
    }
    if SPAWNED[i].live {
        // Finished in the simulation. Its stack goes back at this point and no other: addresses
        // must not depend on real time (std orders threads by the address of their errno).
        real_join()(SPAWNED[i].tid, std::ptr::null_mut());
    }
    SPAWNED[i] = Spawned { tid: 0, open: true, live: false, f: Some(f), arg };
    GO[i].store(0, SeqCst);
    let e = create(t, attr, spawned_main, i as *mut libc::c_void);
    if e != 0 {
        SPAWNED[i].open = false;
        return e;
    }
    SPAWNED[i].tid = *t;
    SPAWNED[i].live = true;
    s.stalled[i] = 0;
    s.st[i] = St::Ready;
    s.n = s.n.max(i + 1);
    shm().stats.spawned += 1;
    hit();
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut libc::c_void) -> i32 {
    if me().is_some() {
        if let Some(j) = slot(t) {
            while sim().st[j] != St::Done {
                let s = sim();
                let i = s.cur;
                s.st[i] = St::Blocked { addr: JOIN + j, deadline: u64::MAX };
                block_switch();
            }
            SPAWNED[j].open = false;
            SPAWNED[j].live = false;
        }
    }
    real_join()(t, r)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: libc::pthread_t) -> i32 {
    let detach: unsafe extern "C" fn(libc::pthread_t) -> i32 = std::mem::transmute(real(c"pthread_detach"));
    if me().is_some() {
        if let Some(j) = slot(t) {
            SPAWNED[j].open = false;
            return 0; // joined when its slot is used again
        }
    }
    detach(t)
}
unsafe fn slot(t: libc::pthread_t) -> Option<usize> {
    let s = sim();
    (s.n0..s.n).find(|i| SPAWNED[*i].open && SPAWNED[*i].tid == t)
}
pub fn thread_id() -> usize {
    me().unwrap_or(0)
}
