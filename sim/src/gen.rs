//! Seeded generation of plans, one distribution per property. Every run draws its own knobs
//! (swarm): which operations, how many threads and incarnations, how the scheduler behaves,
//! which faults and where.
use crate::common::{derive, fnv, Rng};
use crate::ops::{self, *};
use crate::plan::{Boot, Op, Plan};
use crate::rt::SchedCfg;

fn mix(prop: &str) -> &'static [(u32, u64)] {
    match prop {
        "C01" => &[(STATIC, 30), (PROTO, 14), (SIZES, 4), (ATTR, 12), (SYNTH, 1), (CONSTS, 4), (MISC, 4), (REJECT, 2), (FETCH, 3), (RENDER, 1)],
        "C02" => &[
            (STATIC, 20), (PROTO, 4), (SIZES, 2), (ATTR, 6), (SYNTH, 1), (CONSTS, 8), (MISC, 3), (REJECT, 14), (ASM, 12), (FETCH, 8),
            (RAW, 4), (PROVE, 4), (TRAP, 6), (FRAME, 6), (RENDER, 5), (AVAIL, 4), (NODE, 1), (DEPLOY, 2), (VERIFY, 2), (READREC, 2),
            (BULK, 2), (WALK, 2), (RECV, 1), (CHAIN, 1),
        ],
        "C03" => &[(ASM, 30), (FETCH, 18), (WALK, 6), (SYNC, 8), (BULK, 14), (CONSTS, 4), (REJECT, 3), (STATIC, 3)],
        "C04" => &[(ASM, 16), (DAMAGE, 24), (EXEC, 14), (PROVE, 14), (RAW, 10), (RAWBULK, 14), (SYNC, 5), (FETCH, 6), (REJECT, 2), (STATIC, 2)],
        "C05" => &[(SYNTH, 8), (NODE, 22), (AVAIL, 24), (ASM, 8), (SIZES, 3), (PROTO, 10), (STATIC, 3), (FETCH, 4)],
        "C06" => &[(TRAP, 26), (TRAPBULK, 14), (FRAME, 26), (FRAMEBULK, 14), (STATIC, 4), (REJECT, 3), (CONSTS, 2)],
        "C07" => &[(RENDER, 40), (RENDERBULK, 16), (STATIC, 3), (REJECT, 3)],
        "C11" => &[
            (DEPLOY, 20), (FINALISE, 10), (VERIFY, 22), (DMGREC, 10), (DMGCODE, 12), (READREC, 12), (RAWREC, 14), (RECSYNC, 8),
            (BIGHASH, 1), (RECBULK, 5),
        ],
        "C12" => &[(SEND, 30), (RECV, 30), (DMGMSG, 14), (MSGSYNC, 6), (WORDBULK, 14), (ABICONSTS, 3), (CHAIN, 6)],
        "C13" => &[(CHAIN, 40), (SLICEBULK, 16), (SEND, 6), (RECV, 6), (DMGMSG, 4)],
        "C14" => &[(TX, 40), (STATIC, 6), (REJECT, 2), (FRAME, 4)],
        "C15" => &[(FABRIC, 40), (STATIC, 5), (CHAIN, 4)],
        _ => panic!("no simulation for {}", prop),
    }
}
fn args(k: u32, r: &mut Rng, long: bool) -> [u64; 5] {
    let z = [0u64; 5];
    match k {
        STATIC => [if r.chance(3, 5) { r.below(13) } else { r.below(NUM_STATICS) }, 0, 0, 0, 0],
        PROTO => [r.below(16), r.below(2), 0, 0, 0],
        SIZES | CONSTS => [r.below(2), 0, 0, 0, 0],
        ATTR => [gen_idx(r) as u64, 0, 0, 0, 0],
        MISC => [r.next() & 0xffff, 0, 0, 0, 0],
        REJECT => [r.below(8), r.next(), 0, 0, 0],
        ASM => {
            let e = r.below(2) as u8;
            let (idx, mi) = gen_instr(r, e);
            let p = mi.cond as u64
                | (mi.r[0] as u64) << 4
                | (mi.r[1] as u64) << 8
                | (mi.r[2] as u64) << 12
                | (mi.r[3] as u64) << 16
                | r.below(2) << 20;
            let slot = if r.chance(1, 2) { r.below(8) } else { r.below(96) };
            [e as u64, slot, idx as u64, p, (mi.imm0 as u64) << 32 | mi.imm1 as u64]
        }
        FETCH => {
            let e = r.below(2);
            let pc = match r.below(4) {
                0 => val(r, if e == 0 { 16 } else { 32 }),
                1 => r.below(8),
                _ => r.below(96),
            };
            [e, pc, 0, 0, 0]
        }
        WALK => {
            let e = r.below(2);
            [e, if r.chance(1, 2) { r.below(96) } else { val(r, if e == 0 { 16 } else { 32 }) }, 1 + r.below(60), r.below(7), 0]
        }
        SYNC => [r.below(2), r.below(24), 1 + r.below(24), 0, 0],
        DAMAGE => [r.below(2), if r.chance(1, 2) { r.below(8) } else { r.below(96) }, r.below(10), r.next(), r.next()],
        EXEC | PROVE => [r.below(2), if r.chance(1, 2) { r.below(8) } else { r.below(96) }, 0, 0, 0],
        RAW => {
            let e = r.below(2) as u8;
            let w = gen_word(r, e);
            [e as u64, (w >> 64) as u64, w as u64, 0, 0]
        }
        BULK | RAWBULK | TRAPBULK | FRAMEBULK | RENDERBULK | WORDBULK | SLICEBULK | RECBULK => {
            let max = match (k, long) {
                (RENDERBULK, false) => 250,
                (RENDERBULK, true) => 1500,
                (_, false) => 1200,
                (_, true) => 10000,
            };
            [r.below(3), r.next(), 0, 1 + r.below(max), *r.pick(&[0, 0, 0, 2, 3, 8, 100])]
        }
        SYNTH => [r.below(2), r.below(16), 0, 0, 0],
        NODE => [r.below(2), r.below(96), if r.chance(1, 2) { 0 } else { gen_idx(r) as u64 }, 0, 0],
        AVAIL => [r.below(17), r.below(2), 0, 0, 0],
        TRAP => {
            let e = r.below(2) as u8;
            let w = gen_word(r, e);
            [e as u64, (w >> 64) as u64, w as u64, r.next() >> 4 | match r.below(16) { 0 => 1 << 60, 1 | 2 => 1 << 61, _ => 0 }, r.below(6)]
        }
        FRAME => {
            let e = r.below(2) as u8;
            let w = gen_word(r, e);
            [e as u64, (w >> 64) as u64, w as u64, r.next(), val(r, 32)]
        }
        RENDER => {
            let what = r.below(3);
            let spec = if r.chance(2, 3) { 0 } else { r.below(6) };
            let w = gen_word(r, (what == 1) as u8);
            [what + 3 * spec, (w >> 64) as u64, w as u64, r.below(10), r.next()]
        }
        DEPLOY => [r.below(4), if r.chance(4, 5) { r.below(5) * 2 } else { r.below(9) }, r.next(), r.below(2), 0],
        FINALISE | VERIFY | READREC | RECSYNC => [r.below(4), 0, 0, 0, 0],
        DMGREC | DMGCODE => [r.below(4), r.below(6), r.next(), 0, 0],
        RAWREC => [r.below(4), r.next(), r.below(256), 0, 0],
        BIGHASH => [r.next(), r.next(), 0, 0, 0],
        SEND => [r.below(12), r.below(crate::msgs::KINDS), r.next(), 0, 0],
        RECV => [r.below(12), r.below(crate::msgs::KINDS), 0, 0, 0],
        DMGMSG => [r.below(12), r.below(8), r.next(), 0, 0],
        TX => [r.next(), 1 + r.below(if long { 20000 } else { 600 }), r.below(8), 0, 0],
        FABRIC => [r.next(), 1 + r.below(if long { 20000 } else { 400 }), 0, 0, 0],
        CHAIN => [r.next(), 1 + r.below(if long { 3000 } else { 200 }), *r.pick(&[0, 1, 4, 16, 64]), 0, 0],
        _ => z,
    }
}
pub fn sched(r: &mut Rng) -> SchedCfg {
    SchedCfg {
        seed: r.next(),
        quiet: *r.pick(&[0, 50, 500, 5_000, 50_000, 500_000, 3_000_000]),
        burst: if r.chance(1, 3) { 0 } else { r.below(21) },
        fine: *r.pick(&[1, 2, 5, 20, 100]),
        p_boundary: *r.pick(&[0, 16, 64, 128, 255]),
        p_inside: *r.pick(&[0, 0, 32, 128]),
        w_inside: *r.pick(&[5, 50, 500, 5_000, 50_000]),
        spurious: *r.pick(&[0, 0, 300, 5000]),
        p_novel: *r.pick(&[0, 0, 1, 4, 16, 64]),
        stall: *r.pick(&[0, 0, 32, 128, 255]),
        stall_len: *r.pick(&[10_000, 1_000_000, 30_000_000]),
        max_switches: 3000,
        explicit: None,
    }
}
fn huge_op(prop: &str, run: u64) -> Option<u32> {
    Some(match prop {
        "C03" => BULK,
        "C04" => RAWBULK,
        "C06" if run % 100 == 25 => TRAPBULK,
        "C06" => FRAMEBULK,
        "C07" => RENDERBULK,
        "C11" => RECBULK,
        "C12" => WORDBULK,
        "C13" => SLICEBULK,
        _ => return None,
    })
}
fn log_uniform(r: &mut Rng, max: u64) -> u64 {
    let bits = 64 - max.leading_zeros() as u64;
    let b = r.below(bits);
    ((1u64 << b) + r.below(1u64 << b)).min(max)
}
fn sweep() -> Vec<Op> {
    let mut v = vec![];
    let mut push = |k: u32, a0: u64, a1: u64| v.push(Op { k, a: [a0, a1, 0, 0, 0] });
    for s in 0..NUM_STATICS {
        push(STATIC, s, 0);
    }
    for i in 0..16 {
        push(PROTO, i, 0);
        push(PROTO, i, 1);
    }
    for i in 0..2 {
        push(SIZES, i, 0);
        push(CONSTS, i, 0);
    }
    for i in 0..10 {
        push(MISC, i, 0);
    }
    v
}
pub fn plan(prop: &str, seed: u64, run: u64) -> Plan {
    let mut h = 0u64;
    for b in prop.bytes() {
        h = fnv(h, b as u64);
    }
    let mut r = Rng::new(derive(seed, h, run));
    let all = mix(prop);
    let mut boots = vec![];
    // swarm: each run uses a random subset of the operations with random emphasis
    let mut weights: Vec<(u32, u64)> = vec![];
    for (k, w) in all {
        let f = *r.pick(&[0u64, 1, 1, 2, 6]);
        if f > 0 {
            weights.push((*k, w * f));
        }
    }
    if weights.is_empty() {
        weights = all.to_vec();
    }
    let total: u64 = weights.iter().map(|x| x.1).sum();
    let nboots = match prop {
        "C02" => *r.pick(&[1u64, 1, 1, 2]),
        "C06" | "C07" | "C13" | "C14" | "C15" => *r.pick(&[1u64, 1, 1, 1, 2]),
        _ => *r.pick(&[1u64, 1, 2, 2, 3, 4]),
    };
    if let (Some(k), true) = (huge_op(prop, run), run % 50 == 25) {
        // one very long undisturbed stretch of requests: state that wears out with use
        // (counters, caches, leaks) shows only after many thousands of them
        let n = match k {
            WORDBULK | SLICEBULK => 1_000_000,
            RECBULK => 100_000,
            RENDERBULK => 150_000,
            _ => 300_000,
        };
        let t = |r: &mut Rng, n: u64| vec![Op { k, a: [2, r.next(), 0, n, 0] }];
        let mut threads = vec![t(&mut r, n)];
        if r.chance(1, 2) {
            threads.push(t(&mut r, 1000));
        }
        boots.push(Boot { hash_seed: r.next(), crash_at: 0, alloc_fail_at: 0, tear_seed: 0, sched: sched(&mut r), threads });
        return Plan { property: prop.to_string(), seed, run, boots };
    }
    let long = run % 61 == 60 && prop != "C02" && prop != "C01";
    let mut echoes: Vec<(u32, u64)> = vec![];
    for b in 0..nboots {
        let nthreads = match prop {
            "C02" => *r.pick(&[2u64, 2, 3, 3, 4, 5, 6, 8, 12]),
            _ => *r.pick(&[1u64, 2, 2, 3, 3, 4, 6]),
        };
        let crowd = !long && r.chance(1, 24);
        let convoy = !long && !crowd && r.chance(1, 20);
        let nthreads = if long {
            nthreads.min(2)
        } else if crowd {
            9 + r.below(7)
        } else {
            nthreads
        };
        let nops = match r.below(8) {
            _ if crowd => *r.pick(&[1, 2, 3, 12, 24]),
            0 | 1 => 1,
            2 | 3 => 1 + r.below(3),
            4 | 5 | 6 => 2 + r.below(8),
            _ => 10 + r.below(30),
        };
        // half of the time all threads meet at the same cold table
        let tables = !["C11", "C12", "C13"].contains(&prop);
        let first = if tables && r.chance(1, 3) { Some(args(STATIC, &mut r, false)) } else { None };
        let mut threads = vec![];
        for _ in 0..nthreads {
            let mut t = vec![];
            if let Some(a) = first {
                if r.chance(3, 4) {
                    t.push(Op { k: STATIC, a });
                }
            }
            let n = if r.chance(1, 2) { nops } else { 1 + r.below(nops) };
            for _ in 0..n {
                let mut x = r.below(total);
                let mut k = weights[0].0;
                for (kk, w) in &weights {
                    if x < *w {
                        k = *kk;
                        break;
                    }
                    x -= w;
                }
                // one in five requests is one made before, here or by another thread or
                // incarnation, with (at most) one thing different
                let same = echoes.iter().filter(|x| x.0 == k).count() as u64;
                let a = if same > 0 && r.chance(1, 5) {
                    let at = r.below(same) as usize;
                    let seed = echoes.iter().filter(|x| x.0 == k).nth(at).unwrap().1;
                    args(k, &mut Rng::twisted(seed, &mut r), long)
                } else {
                    let seed = r.next();
                    echoes.push((k, seed));
                    args(k, &mut Rng::new(seed), long)
                };
                t.push(Op { k, a });
            }
            threads.push(t);
        }
        let mut sc = sched(&mut r);
        if crowd && r.chance(3, 4) {
            // a throng: warm tables, everybody at the same kind of request, and most of the
            // switches in the middle of one
            if let Some(k) = huge_op(prop, run).or(if prop == "C02" { Some(BULK) } else { None }) {
                for t in threads.iter_mut() {
                    if r.chance(3, 4) {
                        *t = vec![Op { k, a: [2, r.next(), 0, 30 + r.below(200), 0] }];
                    }
                }
            }
            sc = SchedCfg { quiet: 0, p_inside: 200, w_inside: *r.pick(&[10, 40, 150, 600]), max_switches: 6000, ..sc };
        }
        if let (true, Some(k)) = (convoy, huge_op(prop, run).or(if prop == "C02" { Some(BULK) } else { None })) {
            // a convoy: everybody makes the same few requests over and over
            let (seed, pool, n) = (r.next(), *r.pick(&[1, 2, 2, 3, 4, 8]), 50 + r.below(400));
            for t in threads.iter_mut() {
                *t = vec![Op { k, a: [2, seed, r.below(10), n, pool] }];
            }
            sc = SchedCfg { quiet: 0, p_inside: 200, w_inside: *r.pick(&[10, 40, 150, 600]), max_switches: 6000, ..sc };
        }
        if ["C01", "C02", "C15"].contains(&prop) && !long && !crowd && !convoy && r.chance(1, 10) {
            // a scramble: many short first uses of different things at once
            let n = 2 + r.below(4);
            threads = (0..n)
                .map(|_| {
                    let mut v: Vec<u64> = (13..NUM_STATICS).collect();
                    for i in (1..v.len()).rev() {
                        v.swap(i, r.below(i as u64 + 1) as usize);
                    }
                    v.into_iter().map(|s| Op { k: STATIC, a: [s, 0, 0, 0, 0] }).collect()
                })
                .collect();
            sc = SchedCfg { quiet: 0, p_inside: 200, w_inside: *r.pick(&[5, 10, 20, 40, 150]), p_novel: *r.pick(&[0, 64, 256, 512]), ..sc };
        }
        let last = b + 1 == nboots;
        let p = if last { 12 } else { 45 };
        let crash_at = if r.chance(p, 100) {
            match r.below(4) {
                _ if !tables => log_uniform(&mut r, 2_000_000),
                0 => 1 + r.below(2_000_000),
                1 => 15_000_000 + r.below(6_000_000),
                _ => log_uniform(&mut r, 30_000_000),
            }
        } else {
            0
        };
        let alloc_fail_at = if r.chance(if last { 4 } else { 12 }, 100) { log_uniform(&mut r, if tables { 60_000 } else { 500 }) } else { 0 };
        boots.push(Boot {
            hash_seed: r.next(),
            crash_at,
            alloc_fail_at,
            tear_seed: r.next(),
            sched: sc,
            threads,
        });
    }
    if prop == "C01" || prop == "C02" && r.chance(1, 8) {
        // what every history must end in: an undisturbed observer of everything
        boots.push(Boot {
            hash_seed: r.next(),
            crash_at: 0,
            alloc_fail_at: 0,
            tear_seed: 0,
            sched: SchedCfg::none(),
            threads: vec![sweep()],
        });
    }
    Plan { property: prop.to_string(), seed, run, boots }
}
/// steps an incarnation may take: generous multiples of what the operations cost
pub fn budget(b: &Boot) -> u64 {
    let mut t = 300_000_000u64;
    for th in &b.threads {
        for op in th {
            t += match op.k {
                ops::SYNTH | ops::NODE | ops::REJECT => 60_000_000,
                ops::BULK | ops::RAWBULK | ops::TRAPBULK | ops::FRAMEBULK => op.a[3].min(1 << 20) * 40_000,
                ops::RENDERBULK => op.a[3].min(1 << 20) * 200_000,
                ops::BIGHASH => 100_000_000,
                ops::PROTO | ops::SIZES | ops::MISC | ops::AVAIL => 20_000_000,
                ops::WALK | ops::CHAIN => 20_000_000,
                ops::TX | ops::FABRIC => 20_000_000 + op.a[1].min(1 << 20) * 40_000,
                ops::RECBULK => op.a[3].min(1 << 20) * 100_000,
                ops::WORDBULK | ops::SLICEBULK => op.a[3].min(1 << 20) * 4_000,
                _ => 5_000_000,
            };
        }
    }
    t
}
