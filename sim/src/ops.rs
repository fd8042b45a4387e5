//! The operations simulated clients perform, each with its oracle.
use crate::common::Rng;
use crate::model::*;
use crate::msgs;
use crate::rt::{self, atomic, shm, yield_point};
use crate::sha::sha256;
use crate::world::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vglue as g;
use zkevm_opcode_defs as z;
use zkevm_opcode_defs::{ISAVersion, OpcodeProps, OpcodeVariantProps};

pub const NAMES: &[&str] = &[
    "static", "proto", "sizes", "attr", "reject", "asm", "fetch", "walk", "sync", "consts",
    "damage", "exec", "prove", "raw", "bulk", "rawbulk", "synth", "node", "avail", "trap",
    "trapbulk", "frame", "framebulk", "render", "renderbulk", "deploy", "finalise", "verify",
    "dmgrec", "dmgcode", "readrec", "rawrec", "bighash", "recsync", "misc", "send", "recv",
    "dmgmsg", "msgsync", "wordbulk", "abiconsts", "chain", "slicebulk", "recbulk", "tx", "fabric",
];
macro_rules! kinds {($($n:ident = $v:expr),*) => {$(pub const $n: u32 = $v;)*}}
kinds!(
    STATIC = 0, PROTO = 1, SIZES = 2, ATTR = 3, REJECT = 4, ASM = 5, FETCH = 6, WALK = 7, SYNC = 8,
    CONSTS = 9, DAMAGE = 10, EXEC = 11, PROVE = 12, RAW = 13, BULK = 14, RAWBULK = 15, SYNTH = 16,
    NODE = 17, AVAIL = 18, TRAP = 19, TRAPBULK = 20, FRAME = 21, FRAMEBULK = 22, RENDER = 23,
    RENDERBULK = 24, DEPLOY = 25, FINALISE = 26, VERIFY = 27, DMGREC = 28, DMGCODE = 29,
    READREC = 30, RAWREC = 31, BIGHASH = 32, RECSYNC = 33, MISC = 34, SEND = 35,
    RECV = 36, DMGMSG = 37, MSGSYNC = 38, WORDBULK = 39, ABICONSTS = 40, CHAIN = 41, SLICEBULK = 42,
    RECBULK = 43, TX = 44, FABRIC = 45
);
pub const NUM_STATICS: u64 = 20;
pub fn name(k: u32) -> &'static str {
    NAMES[k as usize]
}
pub fn kind(n: &str) -> Option<u32> {
    NAMES.iter().position(|x| *x == n).map(|x| x as u32)
}

/// Read-only reference data, prepared before any simulated process is forked.
pub struct Ref {
    pub t: [Vec<MV>; 2],
    pub defined: [u16; 2], // indices 1..=defined are defined
    pub dict: Vec<u64>,
    pub content: bool, // false: only progress and panics are judged (C02)
}
pub static mut REF: *const Ref = std::ptr::null();
pub fn rf() -> &'static Ref {
    unsafe { &*REF }
}
pub fn init_ref(content: bool) {
    let t = [table(0), table(1)];
    let d = |t: &Vec<MV>| (0..2048).rev().find(|i| t[*i] != INVALID).unwrap() as u16;
    let _ = sha256(b"");
    let r = Ref {
        defined: [d(&t[0]), d(&t[1])],
        t,
        dict: crate::common::source_dictionary("/repo/src"),
        content,
    };
    unsafe { REF = Box::leak(Box::new(r)) };
}

pub fn bad(class: &str, text: String) {
    if rf().content {
        rt::violation(class, &text)
    }
}
macro_rules! check {
    ($c:expr, $class:expr, $($a:tt)*) => { if !($c) { bad($class, format!($($a)*)) } };
}

// fault / probe counters (Stats.f)
pub const F_BITFLIP: usize = 5;
pub const F_DAMAGE: usize = 6;
pub const F_SINK_REFUSE: usize = 7;
pub const F_SINK_SHORT: usize = 8;
pub const F_SINK_EINTR: usize = 9;
pub const F_SINK_ZERO: usize = 10;
pub const F_TRAP: usize = 11;
pub const F_REJECT: usize = 12;
pub const F_REC_DAMAGE: usize = 13;
pub const F_CODE_DAMAGE: usize = 14;
pub const F_SYNTH: usize = 15;
pub const F_CASES: usize = 17;
pub const F_UNDEFINED: usize = 18;
pub const F_NONCANON: usize = 19;
pub const F_READ_AFTER_CRASH: usize = 20;
pub const F_VERIFY_OK: usize = 21;
pub const F_VERIFY_FAIL: usize = 22;
pub const F_ILLEGAL: usize = 23;
pub const F_MSG_DAMAGE: usize = 16;
pub const F_SLICE_OK: usize = 24;
pub const F_SLICE_REFUSED: usize = 25;
pub const F_DEREF: usize = 26;
pub const F_DEREF_REFUSED: usize = 27;
pub const F_FRAMES: usize = 30;
pub const F_STIPEND: usize = 31;
pub const FNAMES: [(usize, &str); 32] = [
    (0, "storage.unsynced_write_lost"),
    (1, "storage.unsynced_write_survived"),
    (2, "storage.torn_instruction"),
    (3, "storage.code_cut_by_crash"),
    (4, "storage.record_cut_by_crash"),
    (5, "storage.bit_flip"),
    (6, "storage.other_damage"),
    (7, "sink.refused"),
    (8, "sink.short_write"),
    (9, "sink.eintr"),
    (10, "sink.zero_write"),
    (11, "trap.injected"),
    (12, "request.rejected"),
    (13, "record.damaged"),
    (14, "code.damaged"),
    (15, "probe.tables_synthesised"),
    (16, "message.damaged_duplicated_or_misdelivered"),
    (17, "probe.cases_checked"),
    (18, "probe.undefined_index_read"),
    (19, "probe.noncanonical_word_read"),
    (20, "probe.instruction_read_back"),
    (21, "probe.verification_ok"),
    (22, "probe.verification_failed"),
    (23, "probe.illegal_instruction_recognised"),
    (24, "probe.slice_accepted"),
    (25, "probe.slice_refused"),
    (26, "probe.dereference_allowed"),
    (27, "probe.dereference_refused"),
    (28, "message.unsynced_lost"),
    (29, "message.torn"),
    (30, "probe.frames_opened"),
    (31, "probe.stipend_frames"),
];
pub fn count(i: usize) {
    shm().stats.f[i] += 1;
}

/// per thread state within one incarnation
#[derive(Default)]
pub struct Ctx {
    pub node: [Option<Vec<z::OpcodeVariant>>; 2],
}

fn payload(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}
pub fn run(op: &crate::plan::Op, ctx: &mut Ctx) {
    rt::op_boundary();
    let r = catch_unwind(AssertUnwindSafe(|| exec(op, ctx)));
    if let Err(e) = r {
        rt::violation(
            "panic",
            &format!("a valid request ({} {:?}) panicked: {}", name(op.k), op.a, payload(e)),
        );
    }
}
fn exec(op: &crate::plan::Op, ctx: &mut Ctx) {
    let a = &op.a;
    match op.k {
        STATIC => op_static(a[0]),
        PROTO => op_proto(a[0], a[1]),
        SIZES => op_sizes(a[0]),
        ATTR => op_attr(a[0]),
        REJECT => op_reject(a[0], a[1]),
        ASM => op_asm(a),
        FETCH => op_fetch(enc(a[0]), a[1], true),
        WALK => op_walk(enc(a[0]), a[1], a[2], a[3]),
        SYNC => {
            let e = enc(a[0]);
            yield_point();
            atomic(|| {
                shm().world.page[e as usize].sync(e, a[1] as usize % WORDS, a[2] as usize % (WORDS + 1))
            })
        }
        CONSTS => op_consts(enc(a[0])),
        DAMAGE => op_damage(enc(a[0]), a[1], a[2], a[3], a[4]),
        EXEC => op_exec(enc(a[0]), a[1]),
        PROVE => op_prove(enc(a[0]), a[1]),
        RAW => op_raw(enc(a[0]), w128(a[1], a[2]), true),
        BULK => bulk(a, |r, e| {
            let (idx, mi) = gen_instr(r, e);
            roundtrip(e, idx, &mi);
        }),
        RAWBULK => bulk(a, |r, e| op_raw(e, gen_word(r, e), false)),
        SYNTH => op_synth(a[0], a[1], ctx),
        NODE => op_node(a[0], a[1], a[2], ctx),
        AVAIL => op_avail(a[0], a[1]),
        TRAP => op_trap(enc(a[0]), w128(a[1], a[2]), a[3], a[4]),
        TRAPBULK => bulk(a, |r, e| {
            let w = gen_word(r, e);
            let (x, y) = (r.next(), 1 + r.below(4));
            op_trap(e, w, x, y)
        }),
        FRAME => op_frame(enc(a[0]), w128(a[1], a[2]), a[3], a[4]),
        FRAMEBULK => bulk(a, |r, e| {
            let w = gen_word(r, e);
            let (x, y) = (r.next(), val(r, 32));
            op_frame(e, w, x, y)
        }),
        RENDER => op_render(a[0], w128(a[1], a[2]), a[3], a[4]),
        RENDERBULK => bulk(a, |r, _| {
            let what = r.below(3);
            let spec = if r.chance(2, 3) { 0 } else { r.below(6) };
            let w = gen_word(r, (what == 1) as u8);
            let (x, y) = (r.next(), r.next());
            op_render(what + 3 * spec, w, x, y)
        }),
        DEPLOY => op_deploy(a[0], a[1], a[2], a[3]),
        FINALISE => op_finalise(a[0]),
        VERIFY => op_verify(a[0]),
        DMGREC => op_dmgrec(a[0], a[1], a[2]),
        DMGCODE => op_dmgcode(a[0], a[1], a[2]),
        READREC => op_readrec(a[0]),
        RAWREC => op_rawrec(a),
        BIGHASH => op_bighash(a[0], a[1]),
        RECSYNC => {
            yield_point();
            atomic(|| {
                let i = a[0] as usize % RECS;
                let w = &mut shm().world;
                w.recd[i] = w.rec[i];
            })
        }
        MISC => op_misc(a[0]),
        SEND => msgs::send(a[0], a[1], a[2]),
        RECV => msgs::recv(a[0], a[1]),
        DMGMSG => msgs::damage(a[0], a[1], a[2]),
        MSGSYNC => {
            yield_point();
            atomic(|| shm().world.msgd = shm().world.msg)
        }
        WORDBULK => bulk(a, |r, _| {
            let k = r.below(msgs::KINDS);
            let w = msgs::gen_any(k, r);
            msgs::check_word(k, &w);
        }),
        ABICONSTS => msgs::constants(),
        CHAIN => msgs::chain(a[0], a[1] % 4096, a[2]),
        SLICEBULK => bulk(a, |r, _| msgs::slices(r)),
        TX => crate::vm::tx(a[0], a[1].min(1 << 20), a[2]),
        FABRIC => crate::vm::fabric(a[0], a[1].min(1 << 20)),
        RECBULK => bulk(a, |r, _| {
            let x = [r.below(4), r.next(), r.below(256), 0, 0];
            if r.chance(7, 8) {
                op_rawrec(&x)
            } else {
                small_hash(r)
            }
        }),
        _ => unreachable!(),
    }
}
fn enc(x: u64) -> u8 {
    (x & 1) as u8
}
fn w128(hi: u64, lo: u64) -> u128 {
    (hi as u128) << 64 | lo as u128
}
/// a = [encoding, seed, first, count, pool]: with a pool, only so many different requests
fn bulk(a: &[u64; 5], mut f: impl FnMut(&mut Rng, u8)) {
    for i in a[2]..a[2].saturating_add(a[3]) {
        if i > a[2] {
            rt::op_boundary();
        }
        let i = if a[4] > 0 { crate::common::derive(a[1], 79, i) % a[4] } else { i };
        // one in four requests is an earlier one again with (at most) one thing different
        let mut t = Rng::new(crate::common::derive(a[1], 78, i));
        let mut r = match t.below(8) {
            k @ 0..=1 if i > k => Rng::twisted(crate::common::derive(a[1], 77, i - 1 - k), &mut t),
            _ => Rng::new(crate::common::derive(a[1], 77, i)),
        };
        let e = if a[0] < 2 { a[0] as u8 } else { r.below(2) as u8 };
        f(&mut r, e);
    }
}

// ------------------------------------------------------------------ generators of values
/// interesting values of a field `bits` wide
pub fn val(r: &mut Rng, bits: u32) -> u64 {
    let m = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let v = match r.below(10) {
        0 | 1 | 2 => r.next(),
        3 => r.below(20),
        4 => m.wrapping_sub(r.below(4)),
        5 => 1u64 << r.below(bits as u64),
        6 => (1u64 << r.below(bits as u64)).wrapping_sub(1),
        7 | 8 => {
            let d = &rf().dict;
            if d.is_empty() {
                r.next()
            } else {
                (*r.pick(d)).wrapping_add(r.below(3)).wrapping_sub(1)
            }
        }
        _ => {
            let b = r.below(256);
            b | b << 8 | b << 16 | b << 24 | b << 32
        }
    };
    v & m
}
/// a value that stands in some relation to two others
pub fn related(r: &mut Rng, x: u64, y: u64, bits: u32) -> u64 {
    let m = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let v = match r.below(16) {
        0 | 1 => x,
        2 => x.wrapping_add(1),
        3 => x.wrapping_sub(1),
        4 => !x,
        5 => x.wrapping_neg(),
        6 => x.wrapping_add(y),
        7 => x.wrapping_sub(y),
        8 => x ^ y,
        9 => x << r.below(bits.min(63) as u64),
        10 => (x & m) >> r.below(bits.min(63) as u64),
        11 => x.wrapping_mul(32),
        12 => (x & m).swap_bytes() >> (64 - bits.clamp(1, 64)),
        13 => (x & m).reverse_bits() >> (64 - bits.clamp(1, 64)),
        14 => x & y,
        _ => x | y,
    };
    v & m
}
pub fn gen_idx(r: &mut Rng) -> u16 {
    let d = rf().defined[1] as u64;
    (match r.below(10) {
        0..=5 => 1 + r.below(d),
        6 | 7 => r.below(2048),
        8 => *r.pick(&[0, 1, d, d + 1, 2047, 1024, 1023, d - 1]),
        _ => d - r.below(12),
    }) as u16
        & 0x7ff
}
pub fn gen_instr(r: &mut Rng, e: u8) -> (u16, MI) {
    let mut idx = gen_idx(r);
    if rf().t[1][idx as usize] == INVALID {
        idx = 0;
    }
    let ib = if e == 0 { 16 } else { 32 };
    let mut regs = [0u8; 4];
    match r.below(6) {
        0 => regs = [r.below(16) as u8; 4],
        1 => {}
        _ => {
            for x in regs.iter_mut() {
                *x = r.below(16) as u8
            }
        }
    }
    let imm0 = val(r, ib) as u32;
    let imm1 = match r.below(6) {
        0 => related(r, imm0 as u64, regs[0] as u64 | (regs[1] as u64) << 4 | (regs[2] as u64) << 8, ib) as u32,
        1 => related(r, imm0 as u64, idx as u64, ib) as u32,
        _ => val(r, ib) as u32,
    };
    let cond = r.below(8) as u8;
    (idx, MI { v: rf().t[1][idx as usize], cond, r: regs, imm0, imm1 })
}
/// arbitrary stored bits
pub fn gen_word(r: &mut Rng, e: u8) -> u128 {
    let (_, mi) = gen_instr(r, e);
    let idx = gen_idx(r);
    let mut w = encode(e, idx, &mi);
    let bits = if e == 0 { 64 } else { 128 };
    match r.below(10) {
        0 => w = (r.next() as u128) << 64 | r.next() as u128,
        1 => w |= (r.below(4) as u128) << 11,
        2 => w ^= 1u128 << r.below(bits),
        3 => {
            for _ in 0..r.below(4) {
                w ^= 1u128 << r.below(bits)
            }
        }
        4 => w ^= (val(r, 32) as u128) << (bits - 32),
        _ => {}
    }
    if e == 0 {
        w &= u64::MAX as u128;
    }
    w
}

// ------------------------------------------------------------------ uniform view of both encodings
pub enum D {
    P(g::e8::D),
    T(g::e16::D),
}
macro_rules! both {
    ($d:expr, $x:ident, $m:ident => $e:expr) => {
        match $d {
            D::P($x) => {
                use g::e8 as $m;
                $e
            }
            D::T($x) => {
                use g::e16 as $m;
                $e
            }
        }
    };
}
macro_rules! byenc {
    ($d:expr, $m:ident => $e:expr) => {
        if $d == 0 {
            use g::e8 as $m;
            $e
        } else {
            use g::e16 as $m;
            $e
        }
    };
}
fn build(e: u8, mi: &MI) -> D {
    let v = from_mv(&mi.v);
    let c = CONDS[mi.cond as usize];
    if e == 0 {
        D::P(g::e8::build(v, c, mi.r, mi.imm0 as u64, mi.imm1 as u64))
    } else {
        D::T(g::e16::build(v, c, mi.r, mi.imm0 as u64, mi.imm1 as u64))
    }
}
fn parse(e: u8, w: u128) -> (D, usize) {
    if e == 0 {
        let (d, n) = g::e8::parse(w);
        (D::P(d), n)
    } else {
        let (d, n) = g::e16::parse(w);
        (D::T(d), n)
    }
}
fn view(d: &D) -> MI {
    both!(d, x, m => {
        let (imm0, imm1) = m::imms(x);
        MI {
            v: to_mv(&x.variant),
            cond: cond_idx(&x.condition),
            r: [x.src0_reg_idx, x.src1_reg_idx, x.dst0_reg_idx, x.dst1_reg_idx],
            imm0: imm0 as u32,
            imm1: imm1 as u32,
        }
    })
}
fn int(d: &D) -> u128 {
    both!(d, x, m => m::int(x))
}
fn bytes(d: &D) -> Vec<u8> {
    both!(d, x, m => m::bytes(x).to_vec())
}
fn variant(d: &D) -> z::OpcodeVariant {
    both!(d, x, _m => x.variant)
}
pub fn show(mi: &MI) -> String {
    format!(
        "{}.{} src={:?} dst={:?} flags={},{} cond={} regs={:?} imm={:#x},{:#x}",
        crate::model::NAMES[mi.v.fam as usize],
        SUBNAMES[mi.v.fam as usize][mi.v.sub as usize],
        mi.v.src, mi.v.dst, mi.v.f0, mi.v.f1, COND_NAMES[mi.cond as usize], mi.r, mi.imm0, mi.imm1
    )
}

// ------------------------------------------------------------------ C01: tables
fn op_static(k: u64) {
    let t = &rf().t[1];
    match k % NUM_STATICS {
        0 => {
            let x = g::table();
            check!(x.len() == 2048, "table", "OPCODES_TABLE has {} entries", x.len());
            for i in 0..2048 {
                let m = to_mv(&x[i]);
                check!(m == t[i], "table", "OPCODES_TABLE[{}] is {:?}, ISA says {:?}", i, m, t[i]);
            }
        }
        1 => {
            let x = g::bitmasks();
            check!(x.len() == 2048, "table", "bitmask table has {} entries", x.len());
            for i in 0..2048 {
                let m = bitmask(&t[i]);
                check!(x[i] == m, "table", "property bitmask of index {} is {:#x}, expected {:#x}", i, x[i], m);
            }
        }
        k @ (2 | 3) => {
            let (nm, len) = if k == 2 {
                ("OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP", g::monotonic_len())
            } else {
                ("OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP", g::canonical_len())
            };
            let get = |v: &z::OpcodeVariant| if k == 2 { g::monotonic_get(v) } else { g::canonical_get(v) };
            let want = rf().defined[1] as usize + 1;
            check!(len == want, "table", "{} has {} entries, expected {}", nm, len, want);
            for i in 0..want {
                let got = get(&from_mv(&t[i]));
                check!(got == Some(i), "table", "{} maps {:?} to {:?}, expected {}", nm, t[i], got, i);
                if i % 64 == 0 {
                    yield_point();
                }
            }
            let odd = MV { src: Mode::Reg, dst: Mode::Reg, ..NOP };
            let got = get(&from_mv(&odd));
            check!(got.is_none(), "table", "{} has an entry for a form that is not in the ISA: {:?}", nm, got);
        }
        4 => check!(to_mv(g::nop_variant()) == NOP, "table", "NOP_OPCODE_VARIANT is {:?}", to_mv(g::nop_variant())),
        5 => check!(*g::nop_bits() == bitmask(&NOP), "table", "NOP_BITSPREAD_U64 is {:#x}", g::nop_bits()),
        6 => check!(to_mv(g::panic_variant()) == PANIC, "table", "PANIC_OPCODE_VARIANT is {:?}", to_mv(g::panic_variant())),
        7 => check!(*g::panic_bits() == bitmask(&PANIC), "table", "PANIC_BITSPREAD_U64 is {:#x}", g::panic_bits()),
        8 => {
            let p = g::prototypes();
            check!(p.len() == 16, "table", "OPCODE_PROTOTYPES has {} entries", p.len());
            let mut names: Vec<&str> = p.iter().map(|x| x.name()).collect();
            names.sort();
            names.dedup();
            check!(names.len() == 16, "table", "opcode names are not distinct");
        }
        9 => check!(*g::num_logical() == 16, "table", "NUM_LOGICAL_OPCODES is {}", g::num_logical()),
        10 => check!(*g::num_input() == 6, "table", "NUM_INPUT_VARIANTS is {}", g::num_input()),
        11 => check!(*g::num_output() == 4, "table", "NUM_OUTPUT_VARIANTS is {}", g::num_output()),
        12 => {
            let x = g::prices();
            check!(x.len() == 2048, "table", "price table has {} entries", x.len());
            for i in 0..2048 {
                let m = price(&t[i]);
                check!(x[i] == m, "table", "price of index {} is {}, expected {}", i, x[i], m);
            }
        }
        n => {
            let (nm, a, want): (&str, &z::ethereum_types::Address, u16) = match n {
                13 => ("BOOTLOADER_FORMAL_ADDRESS", g::a_boot(), 0x8001),
                14 => ("DEPLOYER_SYSTEM_CONTRACT_ADDRESS", g::a_deployer(), 0x8002),
                15 => ("NONCE_MANAGER_SYSTEM_CONTRACT_ADDRESS", g::a_nonce(), 0x8003),
                16 => ("KNOWN_CODE_FACTORY_SYSTEM_CONTRACT_ADDRESS", g::a_known(), 0x8004),
                17 => ("KECCAK256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS", g::a_keccak(), 0x8010),
                18 => ("SHA256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS", g::a_sha(), 2),
                _ => ("ECRECOVER_INNER_FUNCTION_PRECOMPILE_FORMAL_ADDRESS", g::a_ecrec(), 1),
            };
            let mut w = [0u8; 20];
            w[18..].copy_from_slice(&want.to_be_bytes());
            check!(a.0 == w, "table", "{} is {:?}", nm, a);
        }
    }
}
fn modes(v: &[z::Operand]) -> Vec<Mode> {
    v.iter().map(to_mode).collect()
}
fn op_proto(i: u64, ver: u64) {
    let i = i as usize % 16;
    let v = (ver & 1) as u8;
    let fam = ORDER[i];
    let p = &g::prototypes()[i];
    describe(fam, 0, v, &**p);
    let data = p.variants_data(ISAVersion(v));
    let got: Vec<(usize, usize, usize)> =
        data.iter().map(|d| (d.variant_idx, d.num_non_exclusive_flags, d.num_used_immediates)).collect();
    let want: Vec<(usize, usize, usize)> = (0..num_subs(fam))
        .map(|s| (s as usize, flags_of(fam, s) as usize, imms_of(fam) as usize))
        .collect();
    check!(got == want, "description", "family {} version {}: variants {:?}, expected {:?}", fam, v, got, want);
    let m = p.max_variant_idx(ISAVersion(v));
    check!(m + 1 == num_subs(fam) as usize, "description", "family {} ({}): max_variant_idx {} but {} variants", fam, crate::model::NAMES[fam as usize], m, num_subs(fam));
    let protos = z::all_opcode_prototypes();
    check!(to_op(&protos[i]) == (fam, 0), "description", "prototype {} is {:?}", i, protos[i]);
    for sub in 0..num_subs(fam) {
        let o = protos[i].materialize_subvariant_from_prototype(sub as usize, &ISAVersion(v));
        check!(to_op(&o) == (fam, sub), "description", "sub-variant {} of family {} materialises as {:?}", sub, fam, o);
        check!(o.variant_idx() == fam as usize, "description", "{:?} has type index {}", o, o.variant_idx());
        check!(o.materialize_subvariant_idx() == sub as usize, "description", "{:?} has sub-variant index {}", o, o.materialize_subvariant_idx());
        let (wi, wo) = operands(fam, sub, v);
        let (gi, go) = (modes(&o.input_operands(ISAVersion(v))), modes(&o.output_operands(ISAVersion(v))));
        check!(gi == wi && go == wo, "description", "{:?} version {}: operands {:?} -> {:?}, expected {:?} -> {:?}", o, v, gi, go, wi, wo);
        let mv = MV { fam, sub, ..INVALID };
        check!(o.ergs_price() == price(&mv), "description", "{:?} costs {}", o, o.ergs_price());
        check!(o.requires_kernel_mode() == kernel(&mv), "description", "{:?} kernel-only: {}", o, o.requires_kernel_mode());
        check!(o.can_be_used_in_static_context() == static_ok(&mv), "description", "{:?} allowed in static context: {}", o, o.can_be_used_in_static_context());
        let mi = matches!(wi.first(), Some(Mode::Full(_)));
        let mo = matches!(wo.first(), Some(Mode::Full(_)));
        check!(o.can_have_src0_from_mem(ISAVersion(v)) == mi, "description", "{:?}: can_have_src0_from_mem is wrong", o);
        check!(o.can_write_dst0_into_memory(ISAVersion(v)) == mo, "description", "{:?}: can_write_dst0_into_memory is wrong", o);
        yield_point();
    }
}
fn describe(fam: u8, sub: u8, v: u8, p: &dyn OpcodeProps) {
    let (wi, wo) = operands(fam, sub, v);
    let (gi, go) = (modes(&p.input_operands(ISAVersion(v))), modes(&p.output_operands(ISAVersion(v))));
    check!(gi == wi && go == wo, "description", "prototype of family {} version {}: operands {:?} -> {:?}", fam, v, gi, go);
    let mv = MV { fam, sub, ..INVALID };
    check!(p.requires_kernel_mode() == kernel(&mv), "description", "prototype of family {}: kernel mode", fam);
    check!(p.can_be_used_in_static_context() == static_ok(&mv), "description", "prototype of family {}: static context", fam);
    check!(p.can_have_src0_from_mem(ISAVersion(v)) == matches!(wi.first(), Some(Mode::Full(_))), "description", "prototype of family {}: src0 from memory", fam);
    check!(p.can_write_dst0_into_memory(ISAVersion(v)) == matches!(wo.first(), Some(Mode::Full(_))), "description", "prototype of family {}: dst0 to memory", fam);
}
fn op_sizes(ver: u64) {
    let v = ISAVersion((ver & 1) as u8);
    let got = [
        z::max_num_variants_for_version(v),
        z::max_num_flags_for_version(v),
        z::total_description_bits_for_version(v),
        z::total_description_bits_rounded_for_version(v),
        z::total_opcode_description_and_aux_bits_for_version(v),
    ];
    check!(got == [10, 2, 38, 48, 51], "description", "property bit layout of version {} is {:?}", v.0, got);
    let (a, f) = (z::ImmMemHandlerFlags::all_variants(), z::RegOrImmFlags::all_variants());
    for (i, x) in a.iter().enumerate() {
        let ok = to_mode(&z::Operand::Full(*x)) == Mode::Full(i as u8)
            && x.variant_index() == i
            && x.encoding_byte() as usize == i
            && x.is_allowed_for_dst() == (i < 4)
            && x.is_memory_used() == (i != 0 && i != 4)
            && z::Operand::Full(*x).variant_idx() == i;
        check!(ok, "description", "addressing mode {:?} is misdescribed", x);
    }
    for (i, x) in [0usize, 4].iter().zip(f.iter()) {
        let ok = x.variant_index() == *i && !x.is_memory_used() && z::Operand::RegOrImm(*x).variant_idx() == *i
            && x.is_allowed_for_dst() == (*i == 0);
        check!(ok, "description", "addressing mode {:?} is misdescribed", x);
    }
}
fn op_attr(i: u64) {
    let i = i as usize % 2048;
    let x = g::table()[i];
    attrs(&x, &rf().t[1][i], i);
}
fn attrs(x: &z::OpcodeVariant, m: &MV, i: usize) {
    check!(to_mv(x) == *m, "table", "index {} reads as {:?}, ISA says {:?}", i, to_mv(x), m);
    check!(x.ergs_price() == price(m), "attribute", "index {} ({:?}) costs {} ergs, expected {}", i, m, x.ergs_price(), price(m));
    check!(x.requires_kernel_mode() == kernel(m), "attribute", "index {} ({:?}): kernel-only is {}", i, m, x.requires_kernel_mode());
    check!(x.can_be_used_in_static_context() == static_ok(m), "attribute", "index {} ({:?}): allowed in static context is {}", i, m, x.can_be_used_in_static_context());
    check!(x.is_explicit_panic() == (m.fam == 0), "attribute", "index {} ({:?}): explicit panic is {}", i, m, x.is_explicit_panic());
    check!(x.swap_operands() == swap(m), "attribute", "index {} ({:?}): swap_operands is {}", i, m, x.swap_operands());
}
fn op_misc(k: u64) {
    match k % 5 {
        0 => {
            let v = k / 5 & 1;
            let s = z::compute_decoding_format(ISAVersion(v as u8));
            // the wording is free; the numbers are the layout of the property bits
            let n: Vec<u64> = s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
            check!(n == [38, 16, 10, 2, 6, 4], "description", "decoding format of version {} is {:?}", v, s);
        }
        4 => {
            // where the flags of an instruction and its privileges are found
            let f = [
                z::SET_FLAGS_FLAG_IDX,
                z::SWAP_OPERANDS_FLAG_IDX_FOR_ARITH_OPCODES,
                z::SWAP_OPERANDS_FLAG_IDX_FOR_PTR_OPCODE,
                z::FAR_CALL_STATIC_FLAG_IDX,
                z::FAR_CALL_SHARD_FLAG_IDX,
                z::UMA_INCREMENT_FLAG_IDX,
                z::FIRST_MESSAGE_FLAG_IDX,
                z::KERNER_MODE_FLAG_IDX,
                z::CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_IDX,
                z::EXPLICIT_PANIC_FLAG_IDX,
            ];
            check!(f == [0, 1, 0, 0, 1, 0, 0, 0, 1, 2], "description", "published flag positions are {:?}", f);
            // and where the fields of an instruction word
            let f = [
                z::OPCODES_TABLE_WIDTH,
                z::CONDITIONAL_BITS_SHIFT,
                z::CONDITIONAL_BITS_WIDTH,
                z::VARIANT_AND_CONDITION_ENCODING_BITS,
                z::REGISTER_INDEX_ENCODING_BITS,
                z::SRC_REGS_SHIFT as usize,
                z::DST_REGS_SHIFT as usize,
                z::RET_TO_LABEL_BIT_IDX,
                z::KERNEL_MODE_FLAG_BITS,
                z::CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_BITS,
                z::EXPLICIT_PANIC_FLAG_BITS,
            ];
            check!(f == [11, 13, 3, 16, 4, 16, 24, 0, 1, 1, 1], "description", "published field positions are {:?}", f);
        }
        1 => {
            for (i, c) in z::ALL_CONDITIONS.iter().enumerate() {
                check!(cond_idx(c) as usize == i && *c as usize == i && c.variant_index() == i && z::Condition::materialize_variant(i) == *c,
                    "description", "condition {} is misnumbered", i);
            }
        }
        2 => {
            let b = (k >> 8) as u8;
            let (l, h) = z::split_as_u4(b);
            check!(l == b & 15 && h == b >> 4 && z::merge_u4(l, h) == b, "description", "register byte {:#x} splits into {} {}", b, l, h);
        }
        _ => {
            let d = z::OpcodeVariant::default();
            let m = MV { src: Mode::Reg, dst: Mode::Reg, ..NOP };
            check!(to_mv(&d) == m, "description", "default variant is {:?}", d);
        }
    }
}

// ------------------------------------------------------------------ C02: rejected requests
fn op_reject(k: u64, x: u64) {
    count(F_REJECT);
    let mut r = Rng::new(x);
    let res = catch_unwind(AssertUnwindSafe(|| match k % 8 {
        0 | 1 | 2 => {
            // an instruction form outside the ISA
            let mut m = rf().t[1][1 + r.below(rf().defined[1] as u64) as usize];
            match r.below(4) {
                0 => m = MV { src: Mode::Reg, dst: Mode::Reg, ..NOP },
                1 => m.dst = Mode::Full(4 + r.below(2) as u8),
                2 => m.src = if matches!(m.src, Mode::Full(_)) { Mode::RI(4) } else { Mode::Full(3) },
                _ => {
                    if flags_of(m.fam, m.sub) < 2 {
                        m.f1 = true
                    } else {
                        m.dst = Mode::RI(0)
                    }
                }
            }
            let mi = MI { v: m, cond: r.below(8) as u8, r: [0; 4], imm0: 0, imm1: 0 };
            let d = build(r.below(2) as u8, &mi);
            if r.chance(1, 2) {
                int(&d);
            } else {
                bytes(&d);
            }
        }
        3 => {
            let _ = z::Condition::materialize_variant(8 + r.below(1 << 20) as usize);
        }
        4 => {
            let _ = z::synthesize_opcode_decoding_tables(r.below(11) as usize, ISAVersion(r.below(2) as u8));
        }
        5 => {
            let _ = if r.chance(1, 2) {
                g::e8::fetch(Default::default(), 4 + r.below(1000))
            } else {
                g::e16::fetch(Default::default(), 2 + r.below(1000))
            };
        }
        6 => {
            let _ = z::all_opcode_prototypes()[r.below(16) as usize]
                .materialize_subvariant_from_prototype(10 + r.below(300) as usize, &ISAVersion(1));
        }
        _ => {
            let _ = z::synthesize_bit_decomposition_table(&[z::OpcodeVariant::default()], ISAVersion(2 + r.below(200) as u8));
        }
    }));
    if res.is_err() {
        shm().stats.rejected += 1;
    }
}

// ------------------------------------------------------------------ C03: programs
fn roundtrip(e: u8, idx: u16, mi: &MI) {
    count(F_CASES);
    let d = build(e, mi);
    let want = encode(e, idx, mi);
    let b = bytes(&d);
    let n = isz(e);
    let wb = &want.to_be_bytes()[16 - n..];
    check!(b == wb, "encoding", "[{}] is written as {:02x?}, the ISA layout is {:02x?}", show(mi), b, wb);
    let i = int(&d);
    check!(i == want, "encoding", "[{}] encodes as {:#x}, the ISA layout is {:#x}", show(mi), i, want);
    let (d2, num) = parse(e, want);
    let got = view(&d2);
    check!(got == *mi, "decoding", "{:#x} was written as [{}] and reads back as [{}]", want, show(mi), show(&got));
    check!(num == idx as usize, "decoding", "{:#x} has index {}, decoder reports {}", want, idx, num);
    let c = byenc!(e, m => m::canonical(want));
    check!(c, "decoding", "{:#x} ([{}]) is reported as non-canonical", want, show(mi));
}
pub fn unpack(a: &[u64; 5]) -> (u8, u16, MI) {
    let e = enc(a[0]);
    let idx = (a[2] % (rf().defined[1] as u64 + 1)) as u16;
    let p = a[3];
    let m = if e == 0 { 0xffff } else { u32::MAX };
    let mi = MI {
        v: rf().t[1][idx as usize],
        cond: (p & 7) as u8,
        r: [(p >> 4 & 15) as u8, (p >> 8 & 15) as u8, (p >> 12 & 15) as u8, (p >> 16 & 15) as u8],
        imm0: (a[4] >> 32) as u32 & m,
        imm1: a[4] as u32 & m,
    };
    (e, idx, mi)
}
fn op_asm(a: &[u64; 5]) {
    let (e, idx, mi) = unpack(a);
    let d = build(e, &mi);
    let by_int = a[3] >> 20 & 1 == 1;
    let b = if by_int { int(&d).to_be_bytes()[16 - isz(e)..].to_vec() } else { bytes(&d) };
    let want = &encode(e, idx, &mi).to_be_bytes()[16 - isz(e)..];
    check!(b == want, "encoding", "[{}] is written as {:02x?}, the ISA layout is {:02x?}", show(&mi), b, want);
    yield_point();
    let slot = a[1] as usize % slots(e);
    let sh = Shadow { set: 1, taint: 0, idx, cond: mi.cond, r: mi.r, imm0: mi.imm0, imm1: mi.imm1 };
    atomic(|| shm().world.page[e as usize].put(e, slot, &b, sh));
}
fn snapshot(e: u8, slot: usize) -> ([u8; 32], Shadow, u128) {
    atomic(|| {
        let p = &shm().world.page[e as usize];
        (p.vol[slot / per_word(e)], p.sh[slot], p.raw(e, slot))
    })
}
/// fetch through the code word, as the VM does
fn fetch_int(e: u8, word: &[u8; 32], sub: u64) -> u128 {
    let w = z::ethereum_types::U256::from_big_endian(word);
    byenc!(e, m => m::fetch(w, sub))
}
fn op_fetch(e: u8, pc: u64, strict: bool) {
    // only the low part of the program counter selects a stored slot; the rest must be kept
    let max = if e == 0 { u16::MAX as u64 } else { u32::MAX as u64 };
    let pc = pc & max;
    let (w, sub) = byenc!(e, m => m::split(pc));
    let n = per_word(e) as u64;
    check!(w == pc / n && sub == pc % n, "addressing", "pc {} splits into word {} position {}", pc, w, sub);
    let slot = (w % WORDS as u64) as usize * n as usize + sub as usize;
    let (word, sh, raw) = snapshot(e, slot);
    yield_point();
    let i = fetch_int(e, &word, sub);
    check!(i == raw, "addressing", "word {:02x?} position {} reads as {:#x}, stored {:#x}", word, sub, i, raw);
    let (d, num) = parse(e, i);
    let got = view(&d);
    if sh.set == 1 && sh.taint == 0 {
        count(F_READ_AFTER_CRASH);
        let want = sh.mi(&rf().t[1]);
        check!(got == want, "meaning", "pc {}: [{}] was stored and [{}] is read", pc, show(&want), show(&got));
        check!(num == sh.idx as usize, "meaning", "pc {}: index {} was stored and {} is reported", pc, sh.idx, num);
        attrs(&variant(&d), &want.v, num);
        if strict {
            let c = byenc!(e, m => m::canonical(i));
            check!(c, "meaning", "pc {}: a word written by the encoder is reported non-canonical", pc);
        }
    } else {
        let (idx, want, _) = decode(e, &rf().t[1], raw);
        check!(got == want && num == idx as usize, "meaning", "pc {}: word {:#x} reads as [{}] index {}, expected [{}] index {}", pc, raw, show(&got), num, show(&want), idx);
    }
}
fn op_walk(e: u8, pc: u64, n: u64, step: u64) {
    let m = if e == 0 { u16::MAX as u64 } else { u32::MAX as u64 };
    let mut pc = pc & m;
    let step = 1 + step % 7;
    for _ in 0..n.min(200) {
        rt::op_boundary();
        op_fetch(e, pc, false);
        let next = byenc!(e, m => m::next_pc(pc, step));
        check!(next == (pc + step) & m, "addressing", "pc {} + {} is {}", pc, step, next);
        let back = byenc!(e, m => m::prev_pc(next, step));
        check!(back == pc, "addressing", "pc {} - {} is {}", next, step, back);
        let wide = next | (pc ^ step) << 32 | (pc & 0xffff) << 16 * (1 + e as u64);
        let low = byenc!(e, m => m::clip(wide));
        check!(low == wide & m, "addressing", "{:#x} clipped to a {}-byte mode's program counter is {:#x}", wide, isz(e), low);
        pc = (pc + step) & m;
    }
}
fn op_consts(e: u8) {
    let z0 = MI { v: NOP, cond: 0, r: [0; 4], imm0: 0, imm1: 0 };
    let idx = |v: &MV| rf().t[1].iter().position(|x| x == v).unwrap() as u16;
    let n = byenc!(e, m => m::nop());
    let want = encode(e, idx(&NOP), &z0);
    check!(n == want, "encoding", "nop_encoding is {:#x}, expected {:#x}", n, want);
    let p = byenc!(e, m => m::exc());
    let want = encode(e, idx(&PANIC), &z0);
    check!(p == want, "encoding", "exception_revert_encoding is {:#x}, expected {:#x}", p, want);
}

// ------------------------------------------------------------------ C04: damage
fn op_damage(e: u8, slot: u64, kind: u64, x: u64, y: u64) {
    let slot = slot as usize % slots(e);
    let n = isz(e);
    let (before, after) = atomic(|| {
        let p = &mut shm().world.page[e as usize];
        let before = p.raw(e, slot);
        let bits = (n * 8) as u64;
        let mask = if e == 0 { u64::MAX as u128 } else { u128::MAX };
        let other = p.raw(e, x as usize % slots(e));
        let after = match kind % 10 {
            0 | 1 | 2 => {
                shm().stats.f[F_BITFLIP] += 1;
                before ^ 1u128 << (x % bits)
            }
            3 => 0,
            4 => {
                let sh = (x % n as u64) * 8;
                (before & !(0xffu128 << sh)) | ((y & 0xff) as u128) << sh
            }
            5 => {
                // misplaced write: the neighbour's bytes land here
                other
            }
            6 => mask,
            7 => w128(x, y) & mask,
            8 => {
                let k = (y % n as u64) * 8;
                let low = if k == 0 { 0 } else { (1u128 << k) - 1 };
                (before & !low) | (other & low)
            }
            _ => (before & !0x7ff) | (x & 0x7ff) as u128,
        };
        shm().stats.f[F_DAMAGE] += (kind % 10 > 2) as u64;
        let keep = p.sh[slot];
        let b = after.to_be_bytes();
        p.put(e, slot, &b[16 - n..], Shadow { taint: keep.taint | (after != before) as u8, ..keep });
        (before, after)
    });
    visible(e, before, after);
}
/// a well-formed word never looks the same as any other word (two words that both carry junk
/// bits may: the verdict "not canonical" is what reveals the damage)
fn visible(e: u8, a: u128, b: u128) {
    if a == b {
        return;
    }
    let f = |w: u128| {
        let (d, n) = parse(e, w);
        (view(&d), n, byenc!(e, m => m::canonical(w)))
    };
    let (x, y) = (f(a), f(b));
    let seen = x != y || !x.2;
    check!(seen, "invisible-damage", "{}-byte words {:#x} and {:#x} read as the same instruction [{}] index {} with the same canonicality {}", isz(e), a, b, show(&x.0), x.1, x.2);
}
fn op_exec(e: u8, slot: u64) {
    let slot = slot as usize % slots(e);
    let (word, _, raw) = snapshot(e, slot);
    yield_point();
    let i = fetch_int(e, &word, (slot % per_word(e)) as u64);
    check!(i == raw, "addressing", "word {:02x?} position {} reads as {:#x}", word, slot % per_word(e), i);
    op_raw(e, raw, false);
}
fn op_raw(e: u8, w: u128, neighbours: bool) {
    let w = if e == 0 { w & u64::MAX as u128 } else { w };
    count(F_CASES);
    let (idx, want, canon) = decode(e, &rf().t[1], w);
    if idx > rf().defined[1] {
        count(F_UNDEFINED)
    }
    if !canon {
        count(F_NONCANON)
    }
    let (d, num) = parse(e, w);
    let got = view(&d);
    check!(got == want, "decoding", "{}-byte word {:#x} reads as [{}], the ISA says [{}]", isz(e), w, show(&got), show(&want));
    check!(num == idx as usize, "decoding", "{:#x} has index {}, decoder reports {}", w, idx, num);
    let c = byenc!(e, m => m::canonical(w));
    check!(c == canon, "canonicality", "{}-byte word {:#x}: canonical is {}, expected {}", isz(e), w, c, canon);
    let v = variant(&d);
    attrs(&v, &want.v, idx as usize);
    let p = g::prices()[num % 2048];
    check!(p == price(&want.v), "attribute", "index {} is charged {}, expected {}", idx, p, price(&want.v));
    agree(&v, num);
    let (hv, hc, hn) = if e == 0 { g::head8(w as u64) } else { g::head16(w) };
    check!(to_mv(&hv) == want.v && cond_idx(&hc) == want.cond && hn == idx as usize, "decoding", "{:#x}: variant and condition read as {:?} {:?} {}", w, hv, hc, hn);
    if neighbours {
        for b in 0..(isz(e) * 8) {
            visible(e, w, w ^ (1u128 << b));
        }
    }
}
/// executor and prover must see the same instruction behind an index
fn agree(v: &z::OpcodeVariant, num: usize) {
    let b = g::bitmasks()[num % 2048];
    let m = to_mv(v);
    check!(b == bitmask(&m), "views-disagree", "index {}: executor sees {:?}, prover sees properties {:#x} instead of {:#x}", num, m, b, bitmask(&m));
    let aux = (b >> 48 & 1 == 1, b >> 49 & 1 == 1, b >> 50 & 1 == 1);
    let ex = (v.requires_kernel_mode(), v.can_be_used_in_static_context(), v.is_explicit_panic());
    check!(aux == ex, "views-disagree", "index {} ({:?}): kernel/static/panic is {:?} for the executor and {:?} for the prover", num, m, ex, aux);
}
fn op_prove(e: u8, slot: u64) {
    let slot = slot as usize % slots(e);
    let (_, _, raw) = snapshot(e, slot);
    yield_point();
    let (idx, want, _) = decode(e, &rf().t[1], raw);
    let (d, num) = parse(e, raw);
    check!(num == idx as usize, "decoding", "{:#x} has index {}, decoder reports {}", raw, idx, num);
    let b = g::bitmasks()[num % 2048];
    check!(b == bitmask(&want.v), "views-disagree", "word {:#x} index {}: property bits {:#x}, expected {:#x}", raw, idx, b, bitmask(&want.v));
    agree(&variant(&d), num);
    if idx > rf().defined[1] {
        let ok = b >> 50 & 1 == 1 && b & 1 == 1;
        check!(ok, "fail-open", "undefined index {} does not force a panic: {:#x}", idx, b);
    }
}

// ------------------------------------------------------------------ C05: versions
fn op_synth(ver: u64, extra: u64, ctx: &mut Ctx) {
    let v = (ver & 1) as usize;
    count(F_SYNTH);
    let bits = 11 + (extra & 1) as usize;
    let legacy = v == 0 && extra >> 1 & 3 == 3;
    let t = if legacy {
        z::synthesize_opcode_decoding_tables_legacy(bits, ISAVersion(0))
    } else {
        z::synthesize_opcode_decoding_tables(bits, ISAVersion(v as u8))
    };
    check!(t.len() == 1 << bits, "version-table", "table of version {} has {} entries", v, t.len());
    for i in 0..t.len() {
        let want = if i < 2048 { rf().t[v][i] } else { INVALID };
        let got = to_mv(&t[i]);
        check!(got == want, "version-table", "version {} index {} is {:?}, expected {:?}", v, i, got, want);
        let p = t[i].ergs_price();
        check!(p == price(&want), "version-table", "version {} index {} costs {}", v, i, p);
        let has = (t[i].swap_operands(), t[i].requires_kernel_mode(), t[i].can_be_used_in_static_context(), t[i].is_explicit_panic());
        let due = (swap(&want), kernel(&want), static_ok(&want), want.fam == 0);
        check!(has == due, "version-table", "version {} index {} ({:?}): swapped/kernel/static/panic is {:?}, expected {:?}", v, i, want, has, due);
    }
    if extra >> 3 & 1 == 1 {
        let b = z::synthesize_bit_decomposition_table(&t, ISAVersion(v as u8));
        check!(b.len() == t.len(), "version-table", "bit table of version {} has {} entries", v, b.len());
        for i in 0..b.len() {
            let want = bitmask(&if i < 2048 { rf().t[v][i] } else { INVALID });
            check!(b[i] == want, "version-table", "version {} index {}: property bits {:#x}, expected {:#x}", v, i, b[i], want);
        }
    }
    ctx.node[v] = Some(t);
    shm().world.versions_seen[v] += 1;
    if let [Some(a), Some(b)] = &ctx.node {
        for i in 0..2048 {
            let (x, y) = (to_mv(&a[i]), to_mv(&b[i]));
            let same = x == y
                || (x.fam, x.sub, x.dst, x.f0, x.f1) == (y.fam, y.sub, y.dst, y.f0, y.f1)
                    && x.src == Mode::Reg
                    && y.src == Mode::RI(0);
            check!(same || x == INVALID, "upgrade", "index {} means {:?} in version 0 and {:?} in version 1", i, x, y);
        }
    }
}
/// a node of version `ver` executes the stored word of `slot` with its own table
fn op_node(ver: u64, slot: u64, raw: u64, ctx: &mut Ctx) {
    let v = (ver & 1) as usize;
    if ctx.node[v].is_none() {
        op_synth(v as u64, 0, ctx);
    }
    let slot = slot as usize % slots(0);
    let (_, _, w) = snapshot(0, slot);
    let idx = if raw > 0 { (raw % 2048) as usize } else { (w & 0x7ff) as usize };
    yield_point();
    let t = ctx.node[v].as_ref().unwrap();
    let got = to_mv(&t[idx]);
    let want = rf().t[v][idx];
    check!(got == want, "upgrade", "on a version {} node index {} means {:?}, expected {:?}", v, idx, got, want);
    if v == 0 && idx > rf().defined[0] as usize {
        check!(t[idx].is_explicit_panic() && t[idx].ergs_price() == u32::MAX, "upgrade", "on a version 0 node index {} is not a panic", idx);
    }
    check!(t[idx].requires_kernel_mode() == kernel(&want) && t[idx].can_be_used_in_static_context() == static_ok(&want), "upgrade", "on a version {} node index {} has wrong privileges", v, idx);
}
fn avail<T: OpcodeVariantProps + Copy>(fam: u8, v: u8, wrap: fn(T) -> z::Opcode) {
    let n = num_subs(fam);
    let ids = |l: Vec<T>| -> Vec<(u8, u8)> { l.into_iter().map(|x| to_op(&wrap(x))).collect() };
    let all: Vec<(u8, u8)> = (0..n).map(|s| (fam, s)).collect();
    let nm = crate::model::NAMES[fam as usize];
    let ver = ISAVersion(v);
    let got = ids(T::all_variants());
    check!(got == all, "availability", "{}: all variants are {:?}", nm, got);
    let got = ids(T::variants_for_version(ver));
    check!(got == all, "availability", "{}: variants reported for version {} are {:?}, expected all {}", nm, v, got, n);
    let got = ids(T::variants_added_in_version(ver));
    let want = if v == 0 { all.clone() } else { vec![] };
    check!(got == want, "availability", "{}: variants added in version {} are {:?}", nm, v, got);
    check!(T::max_variant_idx_for_version(ver) + 1 == n as usize, "availability", "{}: max index in version {} is {}", nm, v, T::max_variant_idx_for_version(ver));
    for (i, x) in T::all_variants().into_iter().enumerate() {
        check!(x.variant_index() == i, "availability", "{} variant {} has position {}", nm, i, x.variant_index());
        check!(x.minimal_version().0 == 0, "availability", "{} variant {} needs version {}", nm, i, x.minimal_version().0);
        check!(x.is_available_for_version(ver), "availability", "{} variant {} of version 0 is not available in version {}", nm, i, v);
        check!(x.is_added_in_version(ver) == (v == 0), "availability", "{} variant {}: added in version {}", nm, i, v);
        check!(x.ergs_price() == price(&MV { fam, sub: i as u8, ..INVALID }), "availability", "{} variant {} costs {}", nm, i, x.ergs_price());
    }
    for i in 0..(n as usize + 3) {
        let got = T::from_variant_index_for_version(i, &ver).map(|x| to_op(&wrap(x)));
        let want = all.get(i).copied();
        check!(got == want, "availability", "{} index {} in version {} is {:?}, expected {:?}", nm, i, v, got, want);
    }
}
fn op_avail(fam: u64, ver: u64) {
    let v = (ver & 1) as u8;
    let f = (fam % 17) as u8;
    use z::Opcode as O;
    match f {
        0 => avail::<z::InvalidOpcode>(f, v, O::Invalid),
        1 => avail::<z::NopOpcode>(f, v, O::Nop),
        2 => avail::<z::AddOpcode>(f, v, O::Add),
        3 => avail::<z::SubOpcode>(f, v, O::Sub),
        4 => avail::<z::MulOpcode>(f, v, O::Mul),
        5 => avail::<z::DivOpcode>(f, v, O::Div),
        6 => avail::<z::JumpOpcode>(f, v, O::Jump),
        7 => avail::<z::ContextOpcode>(f, v, O::Context),
        8 => avail::<z::ShiftOpcode>(f, v, O::Shift),
        9 => avail::<z::BinopOpcode>(f, v, O::Binop),
        10 => avail::<z::PtrOpcode>(f, v, O::Ptr),
        11 => avail::<z::NearCallOpcode>(f, v, O::NearCall),
        12 => avail::<z::LogOpcode>(f, v, O::Log),
        13 => avail::<z::FarCallOpcode>(f, v, O::FarCall),
        14 => avail::<z::RetOpcode>(f, v, O::Ret),
        15 => avail::<z::UMAOpcode>(f, v, O::UMA),
        _ => {
            let got: Vec<u8> =
                ISAVersion::all_backward_compatible_versions(ISAVersion(v)).iter().map(|x| x.0).collect();
            let want: Vec<u8> = (0..=v).collect();
            check!(got == want, "availability", "versions compatible with {} are {:?}", v, got);
            check!(z::DEFAULT_ISA_VERSION.0 == 1, "availability", "default version is {}", z::DEFAULT_ISA_VERSION.0);
        }
    }
}

// ------------------------------------------------------------------ C06: traps
fn check_masked(e: u8, d: &D, nop: bool, imm0: u32, imm1: u32) {
    let v = if nop { NOP } else { PANIC };
    let what = if nop { "nop" } else { "panic" };
    let want = MI { v, cond: 0, r: [0; 4], imm0, imm1 };
    let got = view(d);
    check!(got == want, "mask", "masking into {} gives [{}], expected [{}]", what, show(&got), show(&want));
    let published = if nop { g::nop_variant() } else { g::panic_variant() };
    check!(variant(d) == *published, "mask", "masking into {} gives a variant other than the published constant", what);
    let idx = rf().t[1].iter().position(|x| *x == v).unwrap() as u16;
    let i = int(d);
    check!(i == encode(e, idx, &want), "mask", "the masked {} encodes as {:#x}", what, i);
    let num = g::canonical_get(&variant(d));
    check!(num == Some(idx as usize), "mask", "the masked {} has index {:?}", what, num);
    let bits = if nop { *g::nop_bits() } else { *g::panic_bits() };
    check!(bits == g::bitmasks()[idx as usize] && bits == bitmask(&v), "mask", "property bits of the masked {} are {:#x}", what, bits);
    if imm0 == 0 && imm1 == 0 {
        let c = byenc!(e, m => if nop { m::nop() } else { m::exc() });
        check!(c == i, "mask", "the masked {} differs from the published encoding", what);
    }
}
fn mask(d: &mut D, nop: bool) {
    both!(d, x, m => if nop { m::mask_nop(x) } else { m::mask_panic(x) })
}
fn op_trap(e: u8, w: u128, seq: u64, len: u64) {
    let w = if e == 0 { w & u64::MAX as u128 } else { w };
    count(F_CASES);
    let from_default = seq >> 60 == 1;
    let (mut d, want) = if from_default {
        (if e == 0 { D::P(g::e8::default()) } else { D::T(g::e16::default()) }, None)
    } else if seq >> 61 == 1 {
        // a form that no encoder accepts: operand modes and flags the ISA does not combine
        let (_, mut x, _) = decode(e, &rf().t[1], w);
        let o = &rf().t[1][1 + (seq >> 8) as usize % rf().defined[1] as usize].clone();
        x.v.src = o.src;
        x.v.dst = o.dst;
        x.v.f0 ^= seq >> 40 & 1 == 1;
        x.v.f1 ^= seq >> 41 & 1 == 1;
        (build(e, &x), Some(x))
    } else {
        let (d, _) = parse(e, w);
        (d, Some(decode(e, &rf().t[1], w).1))
    };
    let (i0, i1) = want.map(|x| (x.imm0, x.imm1)).unwrap_or((0, 0));
    if let Some(x) = want {
        let got = view(&d);
        check!(got == x, "decoding", "word {:#x} reads as [{}], expected [{}]", w, show(&got), show(&x));
    }
    for k in 0..(1 + len % 6) {
        yield_point();
        count(F_TRAP);
        let nop = seq >> k & 1 == 1;
        mask(&mut d, nop);
        check_masked(e, &d, nop, i0, i1);
    }
}
/// the VM's pre-execution checks, as a user of the crate writes them
fn op_frame(e: u8, w: u128, frame: u64, ergs: u64) {
    let w = if e == 0 { w & u64::MAX as u128 } else { w };
    count(F_CASES);
    let (kernel_mode, is_static, skip, exception) =
        (frame & 1 == 1, frame & 2 == 2, frame & 12 == 12, frame & 0x70 == 0x70);
    let (idx, want, _) = decode(e, &rf().t[1], w);
    let (mut d, num) = parse(e, w);
    yield_point();
    let v = variant(&d);
    let by_attr = v.is_explicit_panic()
        || v.requires_kernel_mode() && !kernel_mode
        || !v.can_be_used_in_static_context() && is_static;
    let b = g::bitmasks()[num % 2048];
    let by_bits = b >> 50 & 1 == 1 || b >> 48 & 1 == 1 && !kernel_mode || b >> 49 & 1 == 0 && is_static;
    let m = want.v;
    let illegal = m.fam == 0 || kernel(&m) && !kernel_mode || !static_ok(&m) && is_static;
    check!(by_attr == illegal, "privilege", "index {} ({:?}) in a frame kernel={} static={}: illegal={}, recognised={}", idx, m, kernel_mode, is_static, illegal, by_attr);
    check!(by_bits == illegal, "privilege", "index {} ({:?}) in a frame kernel={} static={}: illegal={}, property bits say {}", idx, m, kernel_mode, is_static, illegal, by_bits);
    if illegal {
        count(F_ILLEGAL)
    }
    let p = v.ergs_price();
    let out_of_ergs = p as u64 > ergs;
    check!(out_of_ergs == (price(&m) as u64 > ergs), "privilege", "index {} costs {}, expected {}", idx, p, price(&m));
    check!(m.fam != 0 || p == u32::MAX, "privilege", "the invalid instruction costs only {}", p);
    if illegal || out_of_ergs || exception {
        count(F_TRAP);
        mask(&mut d, false);
        check_masked(e, &d, false, want.imm0, want.imm1);
    } else if skip {
        count(F_TRAP);
        mask(&mut d, true);
        check_masked(e, &d, true, want.imm0, want.imm1);
    } else {
        let got = view(&d);
        check!(got == want, "privilege", "word {:#x} is executed as [{}], expected [{}]", w, show(&got), show(&want));
    }
}

// ------------------------------------------------------------------ C07: rendering
struct Sink {
    got: Vec<u8>,
    kind: u64,
    at: usize,
    rng: Rng,
    refused: bool,
    after: u64,
    calls: usize,
    eintr_left: u32,
}
impl Sink {
    fn new(kind: u64, at: usize, seed: u64) -> Sink {
        Sink { got: vec![], kind, at, rng: Rng::new(seed), refused: false, after: 0, calls: 0, eintr_left: 20 }
    }
    fn refuse(&mut self) {
        self.refused = true;
        count(F_SINK_REFUSE);
    }
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        yield_point();
        if self.refused {
            self.after += 1;
            if self.kind != 3 {
                return Err(std::fmt::Error);
            }
        }
        let b = s.as_bytes();
        self.calls += 1;
        match self.kind {
            1 if !self.refused && self.calls > self.at % 60 => {
                self.refuse();
                return Err(std::fmt::Error);
            }
            2 | 3 if !self.refused && self.got.len() + b.len() > self.at => {
                let n = self.at - self.got.len().min(self.at);
                self.got.extend_from_slice(&b[..n.min(b.len())]);
                self.refuse();
                return Err(std::fmt::Error);
            }
            _ => self.got.extend_from_slice(b),
        }
        Ok(())
    }
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        use std::io::{Error, ErrorKind};
        yield_point();
        if b.is_empty() {
            return Ok(0);
        }
        if self.refused {
            self.after += 1;
            if self.kind != 8 {
                return Err(Error::from(ErrorKind::BrokenPipe));
            }
        }
        self.calls += 1;
        if self.kind == 5 && self.eintr_left > 0 && self.rng.chance(1, 3) {
            self.eintr_left -= 1;
            count(F_SINK_EINTR);
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut n = b.len();
        if self.kind != 9 && n > 1 && self.rng.chance(1, 2) {
            n = 1 + self.rng.below(n as u64 - 1) as usize;
            count(F_SINK_SHORT);
        }
        if self.kind >= 6 && !self.refused {
            let left = self.at - self.got.len().min(self.at);
            if left == 0 {
                self.refuse();
                return match self.kind {
                    6 => {
                        count(F_SINK_ZERO);
                        Ok(0)
                    }
                    9 => Err(Error::from(ErrorKind::WouldBlock)),
                    _ => Err(Error::from_raw_os_error(libc::ENOSPC)),
                };
            }
            n = n.min(left);
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn words(t: &str) -> Vec<String> {
    t.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect()
}
/// `want` occurs in `have` in this order
fn subsequence(have: &[String], want: &[String]) -> bool {
    let mut i = 0;
    for h in have {
        if i < want.len() && *h == want[i] {
            i += 1
        }
    }
    i == want.len()
}
fn mode_words(m: &Mode) -> Vec<String> {
    match m {
        Mode::Reg => vec!["RegOnly".into()],
        Mode::RI(x) => vec!["RegOrImm".into(), FULL_NAMES[*x as usize].into()],
        Mode::Full(x) => vec!["Full".into(), FULL_NAMES[*x as usize].into()],
    }
}
fn check_text(t: &str, mi: &MI, whole: bool) {
    let w = words(t);
    let v = &mi.v;
    let miss = |what: &str| bad("text", format!("the text of [{}] does not name its {}: {:?}", show(mi), what, t));
    let op = vec![
        crate::model::NAMES[v.fam as usize].to_string(),
        SUBNAMES[v.fam as usize][v.sub as usize].to_string(),
    ];
    if !subsequence(&w, &op) {
        miss("opcode")
    }
    // both operand modes; source first
    let mut m = mode_words(&v.src);
    m.extend(mode_words(&v.dst));
    let have: Vec<String> = w
        .iter()
        .filter(|x| ["RegOnly", "RegOrImm", "Full"].contains(&x.as_str()) || FULL_NAMES.contains(&x.as_str()))
        .cloned()
        .collect();
    if have != m {
        miss("operand modes")
    }
    let fl: Vec<String> = w.iter().filter(|x| *x == "true" || *x == "false").cloned().collect();
    if fl != [v.f0.to_string(), v.f1.to_string()] {
        miss("flags")
    }
    if whole {
        let c: Vec<&String> = w.iter().filter(|x| COND_NAMES.contains(&x.as_str())).collect();
        if c != [COND_NAMES[mi.cond as usize]] {
            miss("condition")
        }
        let regs: Vec<String> = w
            .iter()
            .filter(|x| x.len() > 1 && x.starts_with('r') && x[1..].bytes().all(|b| b.is_ascii_digit()))
            .cloned()
            .collect();
        let want: Vec<String> = mi.r.iter().map(|r| format!("r{}", r)).collect();
        if regs != want {
            miss("registers")
        }
        let imms: Vec<u64> =
            w.iter().filter_map(|x| x.strip_prefix("0x")).filter_map(|x| u64::from_str_radix(x, 16).ok()).collect();
        if imms != [mi.imm0 as u64, mi.imm1 as u64] {
            miss("immediates")
        }
    }
}
fn op_render(what: u64, w: u128, kind: u64, param: u64) {
    count(F_CASES);
    // the low part chooses what is rendered, the rest with which format options
    let (what, spec) = (what % 3, what / 3 % 6);
    let e = (what == 1) as u8;
    let w = if e == 0 { w & u64::MAX as u128 } else { w };
    let (_, mi, _) = decode(e, &rf().t[1], w);
    let d = build(e, &mi);
    let to = |f: &mut dyn std::fmt::Write| match &d {
        D::P(x) if what == 0 => g::e8::render(x, f, spec),
        D::T(x) => g::e16::render(x, f, spec),
        D::P(x) => g::render_variant(&x.variant, f, spec),
    };
    let to_io = |f: &mut dyn std::io::Write| match &d {
        D::P(x) if what == 0 => g::e8::render_io(x, f, spec),
        D::T(x) => g::e16::render_io(x, f, spec),
        D::P(x) => g::render_variant_io(&x.variant, f, spec),
    };
    let mut full = Sink::new(0, 0, 0);
    let ok = to(&mut full).is_ok();
    check!(ok, "sink", "rendering [{}] to a sink that accepts everything fails", show(&mi));
    let full = full.got;
    let text = String::from_utf8_lossy(&full).to_string();
    if spec < 4 {
        check_text(&text, &mi, what != 2);
    }
    let kind = kind % 10;
    let mut s = Sink::new(kind, (param % (full.len() as u64 + 2)) as usize, param);
    let ok = if kind < 4 { to(&mut s).is_ok() } else { to_io(&mut s).is_ok() };
    let kn = ["fmt sink", "fmt sink refusing a call", "fmt sink refusing at a byte", "fmt sink refusing once",
        "io sink with short writes", "io sink with EINTR", "io sink writing 0 bytes", "io sink with ENOSPC",
        "io sink failing once", "io sink with EWOULDBLOCK"][kind as usize];
    let delivered = s.got.len() <= full.len() && s.got[..] == full[..s.got.len()];
    check!(delivered, "sink", "{}: delivered bytes {:?} are not a prefix of the text {:?}", kn, String::from_utf8_lossy(&s.got), text);
    if s.refused {
        check!(!ok, "sink", "{}: success was reported after the sink refused byte {} of {} ([{}])", kn, s.got.len(), full.len(), show(&mi));
        check!(s.after == 0, "sink", "{}: {} more writes after the sink refused", kn, s.after);
    } else {
        check!(ok, "sink", "{}: failure was reported though the sink accepted everything", kn);
        check!(s.got == full, "sink", "{}: success was reported after {} of {} bytes", kn, s.got.len(), full.len());
    }
}

// ------------------------------------------------------------------ C11: code records
fn model_record(code: &[[u8; 32]]) -> Option<[u8; 32]> {
    if code.len() % 2 != 1 || code.len() > 65535 {
        return None;
    }
    let mut all = Vec::with_capacity(code.len() * 32);
    for w in code {
        all.extend_from_slice(w);
    }
    let h = sha256(&all);
    let mut r = [0u8; 32];
    r[0] = 1;
    r[2..4].copy_from_slice(&(code.len() as u16).to_be_bytes());
    r[4..].copy_from_slice(&h[4..]);
    Some(r)
}
#[cfg(feature = "codehash")]
fn code_hash(code: &[[u8; 32]]) -> Option<[u8; 32]> {
    let r = g::code_hash(code).ok();
    if code.len() <= 65535 {
        let r16 = g::code_hash16(code).ok();
        check!(r16 == r, "code-hash", "the two encodings disagree on the hash of {} words", code.len());
    }
    r
}
#[cfg(not(feature = "codehash"))]
fn code_hash(code: &[[u8; 32]]) -> Option<[u8; 32]> {
    model_record(code)
}
fn hash_checked(code: &[[u8; 32]]) -> Option<[u8; 32]> {
    let got = code_hash(code);
    let want = model_record(code);
    check!(got == want, "code-hash", "{} words of code: record {:02x?}, expected {:02x?}", code.len(), got, want);
    if let Some(w) = want {
        let mut all = vec![];
        for x in code {
            all.extend_from_slice(x);
        }
        let v = g::vh_new(sha256(&all), code.len() as u16);
        let s = g::vh_ser(v);
        check!(s == Some(w), "code-hash", "record built from a digest is {:02x?}, expected {:02x?}", s, w);
    }
    got
}
fn snap_rec(i: u64) -> Rec {
    atomic(|| shm().world.rec[i as usize % RECS])
}
fn op_deploy(i: u64, n: u64, seed: u64, marker: u64) {
    let n = 1 + n % MAXCODE as u64;
    let mut r = Rng::new(seed);
    let mut code = [[0u8; 32]; MAXCODE];
    for w in code.iter_mut().take(n as usize) {
        match r.below(5) {
            0 => {}
            1 => *w = [0xff; 32],
            _ => {
                for b in w.iter_mut() {
                    *b = r.next() as u8
                }
            }
        }
    }
    let Some(mut rec) = hash_checked(&code[..n as usize]) else { return };
    // who reads it tells code at rest from code that is yet to be constructed by the published markers
    check!(rec[1] == z::ContractCodeSha256::CODE_AT_REST_MARKER, "record", "the record of finished code {:02x?} is not one at rest", rec);
    if marker & 1 == 1 {
        rec[1] = z::ContractCodeSha256::YET_CONSTRUCTED_MARKER;
    }
    yield_point();
    // code first, record later: a crash or another thread may come in between
    atomic(|| {
        let s = &mut shm().world.rec[i as usize % RECS];
        s.n = n;
        s.code = code;
        s.n0 = n;
        s.code0 = code;
        s.has_rec = 0;
    });
    yield_point();
    atomic(|| {
        let s = &mut shm().world.rec[i as usize % RECS];
        if s.n0 == n && s.code0 == code {
            s.rec = rec;
            s.has_rec = 1;
            s.rec_damaged = 0;
        }
    });
}
fn check_read(raw: [u8; 32]) -> Option<g::Vh> {
    count(F_CASES);
    let got = g::vh_read(raw);
    if raw[0] != 1 {
        check!(got.is_none(), "record", "a record of version {} is accepted: {:02x?}", raw[0], raw);
        return None;
    }
    let Some(v) = got else {
        bad("record", format!("a record with the right version is rejected: {:02x?}", raw));
        return None;
    };
    let (len, marker, hash) = g::vh_layout(&v);
    let ok = len == u16::from_be_bytes([raw[2], raw[3]]) && marker == raw[1] && hash[..] == raw[4..];
    check!(ok, "record", "record {:02x?} is reported as length {} marker {} digest {:02x?}", raw, len, marker, hash);
    let s = g::vh_ser(v);
    check!(s == Some(raw), "record", "record {:02x?} serialises as {:02x?}", raw, s);
    let mut rest = raw;
    rest[1] = 0;
    let s = g::vh_stored(v);
    check!(s == Some(rest), "record", "record {:02x?} is stored as {:02x?}", raw, s);
    let (rm, cm) = (z::ContractCodeSha256::CODE_AT_REST_MARKER, z::ContractCodeSha256::YET_CONSTRUCTED_MARKER);
    check!(rest[1] == rm && rest[1] != cm, "record", "the cleared marker is taken for {} (at rest {}, yet to be constructed {})", rest[1], rm, cm);
    Some(v)
}
fn op_readrec(i: u64) {
    let r = snap_rec(i);
    yield_point();
    check_read(r.rec);
}
fn op_rawrec(a: &[u64; 5]) {
    let mut raw = [0u8; 32];
    let mut r = Rng::new(a[1]);
    for b in raw.iter_mut() {
        *b = match r.below(4) {
            0 => 0,
            1 => val(&mut r, 8) as u8,
            _ => r.next() as u8,
        }
    }
    match a[0] % 4 {
        0 => raw[0] = 1,
        1 => raw[0] = a[2] as u8,
        2 => {
            raw[0] = 1;
            raw[1] = a[2] as u8;
        }
        _ => {
            raw[0] = 1;
            raw[2..4].copy_from_slice(&(val(&mut r, 16) as u16).to_be_bytes());
        }
    }
    check_read(raw);
}
fn op_finalise(i: u64) {
    let r = snap_rec(i);
    if r.has_rec == 0 {
        return;
    }
    yield_point();
    if let Some(v) = check_read(r.rec) {
        if let Some(s) = g::vh_stored(v) {
            yield_point();
            atomic(|| {
                let c = &mut shm().world.rec[i as usize % RECS];
                if c.rec == r.rec {
                    c.rec = s;
                }
            });
        }
    }
}
fn op_verify(i: u64) {
    let r = snap_rec(i);
    if r.n == 0 {
        return;
    }
    yield_point();
    let code = &r.code[..r.n as usize % (MAXCODE + 1)];
    let computed = hash_checked(code);
    let Some(v) = check_read(r.rec) else { return };
    let stored = g::vh_stored(v);
    let verdict = computed.is_some() && computed == stored;
    let intact = r.n == r.n0 && r.code[..r.n as usize] == r.code0[..r.n as usize];
    if r.has_rec == 1 && r.rec_damaged == 0 {
        check!(verdict == intact, "verification", "{} words of code, damaged={}: verification says {}", r.n, !intact, verdict);
    }
    count(if verdict { F_VERIFY_OK } else { F_VERIFY_FAIL });
}
fn op_dmgrec(i: u64, kind: u64, x: u64) {
    count(F_REC_DAMAGE);
    atomic(|| {
        let r = &mut shm().world.rec[i as usize % RECS];
        let before = r.rec;
        match kind % 4 {
            0 | 1 => r.rec[(x % 256 / 8) as usize] ^= 1 << (x % 8),
            2 => r.rec[x as usize % 32] = (x >> 8) as u8,
            _ => {
                for b in &mut r.rec[x as usize % 32..] {
                    *b = 0
                }
            }
        }
        if r.rec != before {
            r.rec_damaged = 1
        }
    });
}
fn op_dmgcode(i: u64, kind: u64, x: u64) {
    count(F_CODE_DAMAGE);
    atomic(|| {
        let r = &mut shm().world.rec[i as usize % RECS];
        if r.n == 0 {
            return;
        }
        let w = (x >> 16) as usize % r.n as usize;
        match kind % 6 {
            0 | 1 => r.code[w][(x % 256 / 8) as usize] ^= 1 << (x % 8),
            2 => r.code[w] = [0; 32],
            3 => {
                let o = (x >> 32) as usize % r.n as usize;
                r.code.swap(w, o)
            }
            4 => r.n = 1 + (r.n) % MAXCODE as u64,
            _ => r.n = (r.n - 1).max(1),
        }
    });
}
/// code of a few words, and the same code with one thing changed: different records
fn small_hash(r: &mut Rng) {
    let n = if r.chance(3, 4) { 1 + 2 * r.below(5) } else { r.below(40) } as usize;
    let mut code = vec![[0u8; 32]; n];
    let f = r.below(4);
    for w in code.iter_mut() {
        for b in w.iter_mut() {
            *b = match f {
                0 => 0,
                1 => 0xff,
                2 if r.chance(7, 8) => 0,
                _ => r.next() as u8,
            }
        }
    }
    let a = hash_checked(&code);
    if n > 0 {
        let k = r.below(n as u64) as usize;
        code[k][r.below(32) as usize] ^= 1 << r.below(8);
        let b = hash_checked(&code);
        check!(a.is_none() && b.is_none() || a != b, "verification", "{} words of code with one bit changed have the same record", n);
    }
}
fn op_bighash(sel: u64, seed: u64) {
    let mut q = Rng::new(sel);
    let n = match q.below(4) {
        0 => *q.pick(&[65535usize, 65537, 65536, 32767, 32769, 255, 257, 4095, 65533, 0]),
        1 => q.below(66_000) as usize | (q.below(8) > 0) as usize,
        _ => {
            let b = 3 + q.below(9);
            (q.below(1 << b) + (1 << b)) as usize | (q.below(8) > 0) as usize
        }
    };
    let mut code = vec![[0u8; 32]; n];
    let mut r = Rng::new(seed);
    for w in code.iter_mut() {
        w[(r.next() % 32) as usize] = r.next() as u8;
    }
    hash_checked(&code);
}
