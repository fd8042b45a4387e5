//! Runs one plan: incarnation after incarnation over the same simulated storage.
use crate::common::fnv;
use crate::ops;
use crate::plan::Plan;
use crate::rt::{self, shm, BootCfg, Kind};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

static CUR: [AtomicU32; rt::MAX_THREADS] = [const { AtomicU32::new(u32::MAX) }; rt::MAX_THREADS];
fn cur_name(i: usize) -> &'static str {
    let k = CUR[i].load(Relaxed);
    if k == u32::MAX {
        "not started"
    } else {
        ops::name(k)
    }
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Agg {
    pub runs: u64,
    pub boots: u64,
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub blocks: u64,
    pub spurious: u64,
    pub stalls: u64,
    pub allocs: u64,
    pub alloc_fail: u64,
    pub crash: u64,
    pub getrandom: u64,
    pub futex_wait: u64,
    pub futex_wake: u64,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub spawned: u64,
    pub forced: u64,
    pub ops: u64,
    pub rejected: u64,
    pub f: [u64; 32],
    pub opk: [u64; 64],
    pub max_threads: u64,
}
impl Agg {
    pub fn zero() -> Agg {
        unsafe { std::mem::zeroed() }
    }
    pub fn add(&mut self, o: &Agg) {
        macro_rules! s {($($f:ident),*) => {$(self.$f += o.$f;)*}}
        s!(runs, boots, steps, switches, preempts, blocks, spurious, stalls, allocs, alloc_fail, crash, getrandom, futex_wait, futex_wake, clock_reads, clock_jumps, spawned, forced, ops, rejected);
        for i in 0..32 {
            self.f[i] += o.f[i];
        }
        for i in 0..64 {
            self.opk[i] += o.opk[i];
        }
        self.max_threads = self.max_threads.max(o.max_threads);
    }
}
pub struct RunRes {
    pub bad: Option<String>,
    pub agg: Agg,
    pub logs: Vec<(Vec<(u64, u32)>, Vec<u32>)>,
    pub hash: u64,
    pub nontrivial: bool,
    pub sites: Vec<u64>,
}
pub fn class(t: &str) -> &str {
    t.split(':').next().unwrap_or("")
}
pub fn run_plan(p: &Plan, record: bool) -> RunRes {
    let mut res = RunRes { bad: None, agg: Agg::zero(), logs: vec![], hash: 1, nontrivial: false, sites: vec![] };
    shm().world = unsafe { std::mem::zeroed() };
    res.agg.runs = 1;
    for b in &p.boots {
        let n = b.threads.len();
        if n == 0 {
            res.logs.push((vec![], vec![]));
            continue;
        }
        let cfg = BootCfg {
            hash_seed: b.hash_seed,
            sched: b.sched.clone(),
            crash_at: b.crash_at,
            alloc_fail_at: b.alloc_fail_at,
            budget: crate::gen::budget(b),
            record,
        };
        let body = |i: usize| {
            let mut ctx = ops::Ctx::default();
            for op in &b.threads[i] {
                CUR[i].store(op.k, Relaxed);
                ops::run(op, &mut ctx);
            }
        };
        let out = rt::boot(&cfg, n, &body, cur_name);
        let m = shm();
        let s = &m.stats;
        let a = &mut res.agg;
        a.boots += 1;
        a.steps += s.steps;
        a.switches += s.switches;
        a.preempts += s.preempts;
        a.blocks += s.blocks;
        a.spurious += s.spurious;
        a.stalls += s.stalls;
        a.allocs += s.allocs;
        a.alloc_fail += s.alloc_fail;
        a.crash += s.crash;
        a.getrandom += s.getrandom;
        a.futex_wait += s.futex_wait;
        a.futex_wake += s.futex_wake;
        a.clock_reads += s.clock_reads;
        a.clock_jumps += s.clock_jumps;
        a.spawned += s.spawned;
        a.forced += s.forced_slices;
        a.ops += s.ops;
        a.rejected += s.rejected;
        a.max_threads = a.max_threads.max(n as u64);
        for i in 0..32 {
            a.f[i] += s.f[i];
        }
        for t in &b.threads {
            for op in t {
                a.opk[op.k as usize] += 1;
            }
        }
        for x in [s.sched_hash, s.steps, s.ops, s.allocs, s.rejected, s.futex_wait, out.kind as u64] {
            res.hash = fnv(res.hash, x);
        }
        for x in s.f {
            res.hash = fnv(res.hash, x);
        }
        for c in out.text.bytes() {
            res.hash = fnv(res.hash, c as u64);
        }
        res.nontrivial |= s.switches > 0 || s.crash > 0 || s.alloc_fail > 0 || s.f[..15].iter().any(|x| *x > 0) || s.f[16] > 0;
        res.sites.extend_from_slice(&m.sites[..m.sites_n as usize]);
        if record {
            let (mut pr, mut bl) = (vec![], vec![]);
            for (g, k, kind) in &m.log[..m.log_n as usize] {
                if *kind == 0 {
                    pr.push((*g, *k))
                } else {
                    bl.push(*k)
                }
            }
            res.logs.push((pr, bl));
        }
        match out.kind {
            Kind::Ok => {
                // orderly shutdown: everything is written back
                let w = &mut m.world;
                for e in 0..2 {
                    w.page[e].dur = w.page[e].vol;
                    w.page[e].shd = w.page[e].sh;
                }
                w.recd = w.rec;
                w.msgd = w.msg;
            }
            Kind::Crashed | Kind::AllocAbort => {
                let mut c = [0u64; 32];
                m.world.crash(b.tear_seed, p.property == "C04", &mut c);
                for i in 0..32 {
                    a.f[i] += c[i];
                }
            }
            Kind::Violation | Kind::Hang => {
                res.bad = Some(out.text);
                break;
            }
        }
    }
    shm().world.digest(&mut res.hash);
    res
}
