//! A small machine around the crate: what its prices, privileges, masks, register roles, page
//! and timestamp constants, queue bytes and reserved addresses are for. `tx` runs one adversarial
//! transaction (C14), `fabric` one history of calls, returns, traps, queue traffic and memory
//! accesses (C15). Instruction words, decoding, prices, privilege attributes, masks and all
//! constants are the crate's; the machine's rules (how ergs, pages and timestamps are handed out)
//! are the simulator's.
use crate::common::Rng;
use crate::model::*;
use crate::msgs;
use crate::ops::{bad, count, gen_instr, gen_word, rf, val, F_CASES, F_FRAMES, F_ILLEGAL, F_STIPEND, F_TRAP};
use crate::rt::{self, yield_point};
use std::collections::BTreeMap;
use vglue as g;
use z::system_params as sp;
use zkevm_opcode_defs as z;
use zkevm_opcode_defs::OpcodeProps;
macro_rules! check {
    ($c:expr, $class:expr, $($a:tt)*) => { if !($c) { bad($class, format!($($a)*)) } };
}

/// an instruction as the machine sees it after decoding
struct Ins {
    op: (u8, u8),
    full: bool,
    price: u64,
    kernel: bool,
    static_ok: bool,
    flags: [bool; 2],
    desc: String,
}
fn decode_real(enc: u8, w: u128, via_table: bool) -> Ins {
    macro_rules! dec {
        ($m:ident) => {{
            let (d, n) = g::$m::parse(w);
            let v = d.variant;
            let price = if via_table { g::prices().get(n).copied().unwrap_or(0) } else { v.ergs_price() };
            (v, price)
        }};
    }
    let (v, price) = if enc == 0 { dec!(e8) } else { dec!(e16) };
    Ins {
        op: to_op(&v.opcode),
        full: matches!(v.src0_operand_type, z::Operand::Full(_)) || matches!(v.dst0_operand_type, z::Operand::Full(_)),
        price: price as u64,
        kernel: v.requires_kernel_mode(),
        static_ok: v.can_be_used_in_static_context(),
        flags: v.flags,
        desc: format!("{:?}", v.opcode),
    }
}
/// the same word, masked into a panic or nop by the crate
fn masked(enc: u8, w: u128, panic: bool) -> (u8, u8) {
    macro_rules! m {
        ($m:ident) => {{
            let (mut d, _) = g::$m::parse(w);
            if panic {
                g::$m::mask_panic(&mut d)
            } else {
                g::$m::mask_nop(&mut d)
            }
            to_op(&d.variant.opcode)
        }};
    }
    if enc == 0 {
        m!(e8)
    } else {
        m!(e16)
    }
}

// ------------------------------------------------------------------ C14
/// what the proof system needs, in units per circuit instance
const CAP: [u64; 8] = [23000, 260000, 101500, 79000, 88000, 192500, 12100, 118];
const CYCLE: usize = 0;
const RAM: usize = 1;
const DEMUX: usize = 2;
const STSORT: usize = 3;
const EVSORT: usize = 4;
const DESORT: usize = 5;
const DECOMMIT: usize = 6;
const STAPP: usize = 7;
const MAX_L1_MESSAGES: u64 = 512;
const MAX_INITIAL: u64 = 4600;
const MAX_REPEATED: u64 = 7400;
const STIPEND_ZERO_VALUE: u64 = 2300;

fn usage(op: (u8, u8), full: bool) -> [u64; 8] {
    let mut u = [0u64; 8];
    u[CYCLE] = 1;
    u[RAM] = if full { 2 } else { 1 };
    match op {
        (12, 0) => {
            u[DEMUX] = 1;
            u[STSORT] = 1;
        }
        (12, 1) => {
            u[CYCLE] = 2;
            u[DEMUX] = 2;
            u[STSORT] = 2;
        }
        (12, 2) | (12, 3) => {
            u[CYCLE] = 2;
            u[DEMUX] = 2;
            u[EVSORT] = 2;
        }
        (12, 4) => u[DEMUX] = 1,
        (13, _) => {
            u[CYCLE] = 2;
            u[STSORT] = 1;
            u[DESORT] = 1;
        }
        (15, 1) | (15, 3) => {
            u[CYCLE] = 2;
            u[RAM] = 5;
        }
        (15, _) => u[RAM] = 3,
        _ => {}
    }
    u
}
struct Frame {
    ergs: u64,
    stipend: bool, // this frame and all below it live on a transfer stipend
    kernel: bool,
    stat: bool,
}
struct Tx {
    st: Vec<Frame>,
    depth_extra: u64,
    spent: u64,
    used: [u64; 8],
    l1: u64,
    initial: u64,
    repeated: u64,
    pubdata: u64,
    log: Vec<String>,
}
impl Tx {
    fn note(&mut self, s: String) {
        if self.log.len() > 24 {
            self.log.remove(0);
        }
        self.log.push(s);
    }
    fn text(&self) -> String {
        format!("frames {} ergs {:?}; last steps: {}", self.st.len(), self.st.iter().map(|f| f.ergs).collect::<Vec<_>>(), self.log.join(" | "))
    }
    fn pay(&mut self, n: u64) -> bool {
        let f = self.st.last_mut().unwrap();
        if f.ergs < n {
            return false;
        }
        f.ergs -= n;
        self.spent += n;
        true
    }
    fn uses(&mut self, u: &[u64; 8], n: u64) {
        for i in 0..8 {
            self.used[i] += u[i] * n;
        }
    }
    /// frame ends; what it has left goes back to its caller, unless burnt
    fn ret(&mut self, burn: bool) {
        if self.st.len() == 1 {
            let f = &mut self.st[0];
            if burn {
                self.spent += f.ergs;
                f.ergs = 0;
            }
            return;
        }
        let f = self.st.pop().unwrap();
        if burn {
            self.spent += f.ergs;
        }
        let left = if burn { 0 } else { f.ergs };
        let p = self.st.last_mut().unwrap();
        p.ergs += left;
    }
    fn trap(&mut self, why: &str) {
        count(F_TRAP);
        self.note(format!("trap: {}", why));
        self.ret(true);
    }
    fn push(&mut self, pass: u64, f: Frame) {
        let p = self.st.last_mut().unwrap();
        p.ergs -= pass;
        count(F_FRAMES);
        self.st.push(Frame { ergs: pass, ..f });
        self.check_depth(0);
    }
    fn check_depth(&mut self, more: u64) {
        let d = self.st.len() as u64 + self.depth_extra + more;
        check!(
            d <= sp::VM_MAX_STACK_DEPTH as u64,
            "depth",
            "a callstack of {} entries was paid for, the published maximum is {}; {}",
            d, sp::VM_MAX_STACK_DEPTH, self.text()
        );
    }
    fn invariants(&mut self) {
        check!(
            self.l1 <= MAX_L1_MESSAGES,
            "l1_messages",
            "one transaction of at most {} ergs sent {} messages to L1, one circuit takes {}; {}",
            sp::MAX_TX_ERGS_LIMIT, self.l1, MAX_L1_MESSAGES, self.text()
        );
        check!(
            self.initial <= MAX_INITIAL && self.repeated <= MAX_REPEATED,
            "write_hasher",
            "one transaction made {} initial and {} repeated writes with {} bytes of pubdata, one circuit takes {} and {}; {}",
            self.initial, self.repeated, self.pubdata, MAX_INITIAL, MAX_REPEATED, self.text()
        );
        // ergs spent pay for the circuits occupied
        let mut share = 0u128;
        for i in 0..8 {
            share += self.used[i] as u128 * ((sp::ERGS_PER_CIRCUIT as u128) << 40) / CAP[i] as u128;
        }
        check!(
            (self.spent as u128) << 40 >= share,
            "unpaid_circuits",
            "a transaction spent {} ergs and occupied circuits worth {} ergs ({:?} units); {}",
            self.spent, share >> 40, self.used, self.text()
        );
    }
    fn storage_write(&mut self, fresh: bool, n: u64) {
        let top = self.st.last().unwrap();
        if top.stipend {
            let t = self.text();
            bad("reentrancy", format!("a storage write completed in a frame that lives on a transfer stipend; {}", t));
        }
        let b = if fresh { sp::INITIAL_STORAGE_WRITE_PUBDATA_BYTES } else { sp::REPEATED_STORAGE_WRITE_PUBDATA_BYTES } as u64;
        self.produce(if fresh { "initial write" } else { "repeated write" }, b, diff(fresh).len() as u64);
        self.pubdata += b * n;
        if fresh {
            self.initial += n
        } else {
            self.repeated += n
        }
    }
    /// what is published on L1 is what was charged for
    fn produce(&mut self, what: &str, charged: u64, bytes: u64) {
        check!(charged == bytes, "pubdata", "an {} publishes {} bytes and is charged for {}; {}", what, bytes, charged, self.text());
    }
    fn near(&mut self, pass: u64) {
        let f = self.st.last().unwrap();
        let pass = if pass == 0 { f.ergs } else { pass.min(f.ergs) };
        let n = Frame { ergs: 0, stipend: f.stipend, kernel: f.kernel, stat: f.stat };
        self.push(pass, n)
    }
    fn far(&mut self, pass: u64, stipend: bool, kernel: bool, stat: bool) {
        let f = self.st.last().unwrap();
        let most = f.ergs / 64 * 63;
        let n = Frame { ergs: 0, stipend: f.stipend || stipend, kernel, stat: f.stat || stat };
        self.push(pass.min(most), n)
    }
}
/// state diff as it is published: the slot (full key once, a short index afterwards) and the value
fn diff(fresh: bool) -> Vec<u8> {
    let mut v = if fresh { vec![0xaa; 32] } else { 7u64.to_be_bytes().to_vec() };
    v.extend_from_slice(&[0x55; 32]);
    v
}
/// L1 message as it is published: shard, service flag, transaction number, sender, key, value
fn l1_message() -> Vec<u8> {
    let mut v = vec![0u8, 1];
    v.extend_from_slice(&5u16.to_be_bytes());
    v.extend_from_slice(&[0x11; 20]);
    v.extend_from_slice(&[0x22; 32]);
    v.extend_from_slice(&[0x33; 32]);
    v
}
fn pick_form(r: &mut Rng, fam: u8, sub: Option<u8>) -> u16 {
    let t = &rf().t[1];
    let c: Vec<u16> = (1..=rf().defined[1]).filter(|i| t[*i as usize].fam == fam && sub.map_or(true, |s| t[*i as usize].sub == s)).collect();
    *r.pick(&c)
}
fn word_of(enc: u8, idx: u16, cond: u8, r: &mut Rng) -> u128 {
    let i = MI {
        v: rf().t[1][idx as usize],
        cond,
        r: [r.below(16) as u8, r.below(16) as u8, r.below(16) as u8, r.below(16) as u8],
        imm0: r.below(1 << 16) as u32,
        imm1: r.below(1 << 16) as u32,
    };
    encode(enc, idx, &i)
}
/// What the machine charges for `w`: the decoded attribute and the price table must agree.
fn ins(enc: u8, w: u128, r: &mut Rng) -> Ins {
    count(F_CASES);
    let first = r.chance(1, 2);
    let a = decode_real(enc, w, first);
    if r.chance(1, 8) {
        let b = decode_real(enc, w, !first);
        check!(a.price == b.price, "price", "{} costs {} by one path and {} by the other", a.desc, a.price, b.price);
    }
    a
}
/// One instruction of the top frame, repeated up to `rep` times as long as it can be paid for.
fn step(tx: &mut Tx, enc: u8, w: u128, rep: u64, r: &mut Rng) {
    let i = ins(enc, w, r);
    yield_point();
    let flag = r.chance(7, 8); // the condition of a conditional instruction holds
    let cond = (w >> 13) as u8 & 7;
    let (kernel, stat) = tx.st.last().map(|f| (f.kernel, f.stat)).unwrap();
    if tx.log.len() < 4 || rep > 1 {
        tx.note(format!("{} x{} at {}", i.desc, rep, i.price));
    } else {
        tx.note(i.desc.clone());
    }
    // the order of a real machine: price, privileges, condition
    if !tx.pay(i.price) {
        let m = masked(enc, w, true);
        check!(m == (14, 2), "mask", "{} without ergs executed as {:?}", i.desc, m);
        tx.trap("out of ergs");
        return;
    }
    if i.op.0 == 0 || i.kernel && !kernel || !i.static_ok && stat {
        count(F_ILLEGAL);
        let m = masked(enc, w, true);
        check!(m == (14, 2), "mask", "an illegal {} executed as {:?}", i.desc, m);
        tx.trap("illegal");
        return;
    }
    if cond != 0 && !flag {
        let m = masked(enc, w, false);
        check!(m == (1, 0), "mask", "a skipped {} executed as {:?}", i.desc, m);
        tx.uses(&usage((1, 0), true), 1);
        return;
    }
    let u = usage(i.op, i.full);
    tx.uses(&u, 1);
    let call = matches!(i.op.0, 11 | 13 | 14);
    let mut n = 1;
    if !call && rep > 1 && i.price > 0 {
        let mut more = (tx.st.last().unwrap().ergs / i.price).min(rep - 1);
        if i.op == (12, 1) {
            let room = (sp::MAX_PUBDATA_PER_BLOCK as u64).saturating_sub(tx.pubdata);
            more = more.min(room / sp::REPEATED_STORAGE_WRITE_PUBDATA_BYTES.max(1) as u64);
        }
        tx.pay(more * i.price);
        tx.uses(&u, more);
        n += more;
    }
    match i.op {
        (12, 1) => {
            let fresh = r.chance(1, 2);
            let b = if fresh { sp::INITIAL_STORAGE_WRITE_PUBDATA_BYTES } else { sp::REPEATED_STORAGE_WRITE_PUBDATA_BYTES } as u64;
            let room = (sp::MAX_PUBDATA_PER_BLOCK as u64).saturating_sub(tx.pubdata) / b.max(1);
            if room == 0 {
                tx.trap("block is full");
                return;
            }
            tx.storage_write(fresh, n.min(room));
            // the operator charges the tree update of the slot on top
            let _ = tx.pay(sp_app()) && {
                tx.used[STAPP] += 1;
                true
            };
        }
        (12, 2) => {
            tx.produce("L1 message", sp::L1_MESSAGE_PUBDATA_BYTES as u64, l1_message().len() as u64);
            tx.l1 += n
        }
        (12, 4) => precompile(tx, r),
        (11, _) => {
            let want = if r.chance(1, 2) { 0 } else { val(r, 32) };
            // the ergs to pass travel in a near call word
            let mut word = [0u64; 4];
            word[0] = want;
            tx.near(g::near_unpack(word).ergs_passed as u64);
        }
        (13, _) => {
            let words = r.below(2000);
            if !tx.pay(words * z::ERGS_PER_CODE_WORD_DECOMMITTMENT as u64) {
                tx.trap("cannot pay the decommitment");
                return;
            }
            tx.used[DECOMMIT] += words / 2; // a round takes two words
            let want = if r.chance(1, 2) { u32::MAX as u64 } else { val(r, 32) };
            let f = msgs::gen_far_word(want, r);
            let a = g::far_unpack(f);
            let stat = i.flags.get(z::FAR_CALL_STATIC_FLAG_IDX).copied().unwrap_or(false);
            let k = r.chance(1, 3);
            tx.far(a.ergs_passed as u64, false, k, stat);
        }
        (14, s) => tx.ret(s == 2),
        _ => {}
    }
}
fn sp_app() -> u64 {
    z::circuit_prices::STORAGE_APPLICATION_COST_IN_ERGS as u64
}
/// precompile wrappers charge per round on top of the instruction
fn precompile(tx: &mut Tx, r: &mut Rng) {
    let n = 1 + r.below(3000);
    let (price, cap) = *r.pick(&[
        (z::circuit_prices::KECCAK256_CIRCUIT_COST_IN_ERGS as u64, 2050u64),
        (z::circuit_prices::SHA256_CIRCUIT_COST_IN_ERGS as u64, 11500),
        (z::circuit_prices::ECRECOVER_CIRCUIT_COST_IN_ERGS as u64, 72),
    ]);
    if !tx.pay(n * price) {
        tx.trap("cannot pay the precompile");
        return;
    }
    check!(
        price * cap >= sp::ERGS_PER_CIRCUIT as u64,
        "unpaid_circuits",
        "{} rounds of a precompile with {} rounds per circuit were paid with {} ergs",
        n, cap, n * price
    );
}
/// A transfer: zero-value (plain 2300) or with value through the message value simulator.
fn transfer(tx: &mut Tx, r: &mut Rng) -> bool {
    let f = tx.st.last().unwrap();
    if f.kernel && f.stipend {
        return false;
    }
    if r.chance(1, 3) {
        if f.ergs / 64 * 63 < STIPEND_ZERO_VALUE {
            return false;
        }
        tx.note("zero value transfer".into());
        count(F_STIPEND);
        tx.far(STIPEND_ZERO_VALUE - r.below(2), true, false, false);
        return true;
    }
    // the caller adds the simulator's cost to the zero gas of a transfer; the simulator spends at
    // least its minimum; what is left is all the callee gets
    let add = sp::MSG_VALUE_SIMULATOR_ADDITIVE_COST as u64;
    if f.ergs / 64 * 63 < add {
        return false;
    }
    let min = sp::MSG_VALUE_SIMULATOR_MIN_USED_ERGS as u64;
    tx.far(add, false, true, false);
    let used = if r.chance(3, 4) { min } else { min + r.below(4000) };
    if !tx.pay(used) {
        tx.trap("message value simulator out of ergs");
        return false;
    }
    // it moves the value between two balances; their pubdata is prepaid
    let fresh = [r.chance(1, 2), r.chance(1, 2)];
    let published: usize = fresh.iter().map(|f| diff(*f).len()).sum();
    let prepaid = sp::MSG_VALUE_SIMULATOR_PUBDATA_BYTES_TO_PREPAY as usize;
    check!(published <= prepaid, "pubdata", "a value transfer publishes {} bytes of balances and prepays {}; {}", published, prepaid, tx.text());
    let left = tx.st.last().unwrap().ergs;
    tx.note(format!("value transfer, simulator leaves {}", left));
    count(F_STIPEND);
    // the simulator hands all it has left (its own frame keeps nothing)
    let pass = left.min(add);
    tx.push(pass, Frame { ergs: 0, stipend: true, kernel: false, stat: false });
    true
}
pub fn tx(seed: u64, steps: u64, strategy: u64) {
    let mut r = Rng::new(seed);
    let limit = match r.below(4) {
        0 => 1 + r.below(sp::MAX_TX_ERGS_LIMIT as u64),
        _ => sp::MAX_TX_ERGS_LIMIT as u64,
    };
    let mut tx = Tx {
        st: vec![Frame { ergs: limit, stipend: false, kernel: strategy % 8 == 1 || r.chance(1, 2), stat: false }],
        depth_extra: 81, // bootloader frames nobody pays for
        spent: 0,
        used: [0; 8],
        l1: 0,
        initial: 0,
        repeated: 0,
        pubdata: 0,
        log: vec![],
    };
    if strategy % 8 == 3 {
        depth(&mut r);
        return;
    }
    let enc = (seed >> 40) as u8 & 1;
    for _ in 0..steps {
        rt::op_boundary();
        if tx.st.last().unwrap().ergs == 0 && tx.st.len() == 1 {
            break;
        }
        if tx.st.len() > 400 {
            tx.ret(r.chance(1, 2));
        }
        let stip = tx.st.last().unwrap().stipend;
        // what the adversary wants most right now
        let (idx, rep) = match strategy % 8 {
            _ if stip && r.chance(1, 2) => match r.below(6) {
                0..=2 => (pick_form(&mut r, 12, Some(1)), 1),
                3 => (pick_form(&mut r, 11, None), 1),
                4 => (pick_form(&mut r, 13, None), 1),
                _ => (pick_form(&mut r, 14, None), 1),
            },
            1 if r.chance(1, 2) => (pick_form(&mut r, 12, Some(2)), *r.pick(&[1, 7, u32::MAX as u64])),
            2 if r.chance(1, 2) => (pick_form(&mut r, 12, Some(1)), *r.pick(&[1, 100, u32::MAX as u64])),
            4 | 5 if r.chance(1, 2) => {
                if transfer(&mut tx, &mut r) {
                    continue;
                }
                (pick_form(&mut r, 12, Some(1)), 1)
            }
            6 => (1 + r.below(rf().defined[1] as u64) as u16, *r.pick(&[1, 1000, u32::MAX as u64])),
            _ => match r.below(6) {
                0 => {
                    if transfer(&mut tx, &mut r) {
                        continue;
                    }
                    (pick_form(&mut r, 14, None), 1)
                }
                1 => (pick_form(&mut r, 12, None), *r.pick(&[1, 1, 100])),
                2 => (pick_form(&mut r, 11, None), 1),
                3 => (pick_form(&mut r, 13, None), 1),
                4 => (pick_form(&mut r, 14, None), 1),
                _ => (1 + r.below(rf().defined[1] as u64) as u16, *r.pick(&[1, 1, 10000])),
            },
        };
        let w = if r.chance(1, 64) {
            gen_word(&mut r, enc) // anything at all
        } else {
            let cond = if r.chance(3, 4) { 0 } else { r.below(8) as u8 };
            word_of(enc, idx, cond, &mut r)
        };
        step(&mut tx, enc, w, rep, &mut r);
        tx.invariants();
    }
    while tx.st.len() > 1 {
        tx.ret(r.chance(1, 3));
    }
    tx.invariants();
    check!(
        tx.spent + tx.st[0].ergs == limit,
        "conservation",
        "{} ergs went in, {} were spent and {} are left",
        limit, tx.spent, tx.st[0].ergs
    );
}
/// The deepest callstack the initial frame can pay for, mixing near and far calls.
fn depth(r: &mut Rng) {
    let mut ergs = sp::VM_INITIAL_FRAME_ERGS as u64;
    let mut d = 1 + 80u64;
    let enc = r.below(2) as u8;
    let mut path = vec![];
    for _ in 0..1 + r.below(40) {
        let call = if r.chance(3, 4) { 11 } else { 13 };
        let idx = pick_form(r, call, None);
        let w = word_of(enc, idx, 0, r);
        let i = ins(enc, w, r);
        check!(
            i.price >= z::CALL_LIKE_ERGS_COST as u64,
            "depth",
            "{} costs {} ergs, less than a callstack entry ({})",
            i.desc, i.price, z::CALL_LIKE_ERGS_COST
        );
        let p = i.price.max(1);
        let n = if call == 13 { r.below(30) } else { *r.pick(&[1, 100, 1_000_000, u64::MAX]) };
        let mut k = 0;
        if call == 13 {
            while k < n && ergs >= p {
                ergs = (ergs - p) / 64 * 63;
                k += 1;
            }
        } else {
            k = n.min(ergs / p);
            ergs -= k * p;
        }
        d += k;
        path.push(format!("{} x{}", i.desc, k));
        yield_point();
    }
    check!(
        d <= sp::VM_MAX_STACK_DEPTH as u64,
        "depth",
        "a callstack of {} entries was paid for, the published maximum is {}: {}",
        d, sp::VM_MAX_STACK_DEPTH, path.join(", ")
    );
    // the least any entry may cost, all the way down
    let least = (z::CALL_LIKE_ERGS_COST as u64).max(1);
    let d = sp::VM_INITIAL_FRAME_ERGS as u64 / least + 80;
    check!(
        d <= sp::VM_MAX_STACK_DEPTH as u64,
        "depth",
        "80 unpaid entries and entries at {} ergs each reach depth {}, the published maximum is {}",
        least, d, sp::VM_MAX_STACK_DEPTH
    );
}

// ------------------------------------------------------------------ C15
#[derive(Clone, Copy, PartialEq, Debug)]
enum Role {
    Code,
    Calldata,
    Stack,
    Heap,
    Aux,
}
/// the host prepares memory at this time
const HOST_TIME: u64 = 0;
struct Fab {
    owner: BTreeMap<u64, (u64, Role)>,
    mem: BTreeMap<(u64, u64), (u64, u64)>, // (page, cell) -> (value, timestamp)
    next_base: u64,
    next_frame: u64,
    ts: u64,
    last_access: u64,
    any_access: bool,
    log: Vec<String>,
}
struct FFrame {
    id: u64,
    page: [u64; 5],
    regs: Vec<u64>,
    stat: bool,
}
impl Fab {
    fn note(&mut self, s: String) {
        if self.log.len() > 24 {
            self.log.remove(0);
        }
        self.log.push(s);
    }
    fn text(&self) -> String {
        self.log.join(" | ")
    }
    fn own(&mut self, page: u64, id: u64, role: Role) {
        check!(page != z::UNMAPPED_PAGE as u64, "page", "the {:?} page of frame {} is the unmapped page {}; {}", role, id, page, self.text());
        check!(page <= u32::MAX as u64, "page", "the {:?} page of frame {} is number {}; {}", role, id, page, self.text());
        if let Some((o, r)) = self.owner.insert(page, (id, role)) {
            let t = self.text();
            bad("page", format!("page {} is the {:?} of frame {} and the {:?} of frame {}; {}", page, role, id, r, o, t));
        }
    }
    /// one memory query at `off` within the current cycle
    fn at(&mut self, off: u64) -> u64 {
        let t = self.ts + off;
        check!(t <= u32::MAX as u64, "time", "timestamp {} does not fit; {}", t, self.text());
        check!(
            if self.any_access { t >= self.last_access } else { t > HOST_TIME },
            "time",
            "a query of a later step carries timestamp {} after {}; {}",
            t, self.last_access, self.text()
        );
        self.last_access = t;
        self.any_access = true;
        t
    }
    fn write(&mut self, page: u64, cell: u64, v: u64, t: u64) {
        if let Some((_, old)) = self.mem.insert((page, cell), (v, t)) {
            check!(t > old, "time", "cell {} of page {} is written at {} after a write at {}; {}", cell, page, t, old, self.text());
        }
    }
    fn read(&mut self, page: u64, cell: u64) -> u64 {
        self.mem.get(&(page, cell)).map_or(0, |x| x.0)
    }
}
fn off(page: u32) -> u64 {
    (page as u64).wrapping_sub(z::BOOTLOADER_BASE_PAGE as u64)
}
/// addresses under which system contracts are known
fn directory() -> Vec<(&'static str, u64)> {
    vec![
        ("ecrecover", sp::ADDRESS_ECRECOVER as u64),
        ("sha256", sp::ADDRESS_SHA256 as u64),
        ("ripemd160", sp::ADDRESS_RIPEMD160 as u64),
        ("identity", sp::ADDRESS_IDENTITY as u64),
        ("bootloader", sp::ADDRESS_BOOTLOADER as u64),
        ("account code storage", sp::ADDRESS_ACCOUNT_CODE_STORAGE as u64),
        ("nonce holder", sp::ADDRESS_NONCE_HOLDER as u64),
        ("known codes storage", sp::ADDRESS_KNOWN_CODES_STORAGE as u64),
        ("immutable simulator", sp::ADDRESS_IMMUTABLE_SIMULATOR as u64),
        ("contract deployer", sp::ADDRESS_CONTRACT_DEPLOYER as u64),
        ("force deployer", sp::ADDRESS_FORCE_DEPLOYER as u64),
        ("l1 messenger", sp::ADDRESS_L1_MESSENGER as u64),
        ("message value simulator", sp::ADDRESS_MSG_VALUE as u64),
        ("eth token", sp::ADDRESS_ETH_TOKEN as u64),
        ("system context", sp::ADDRESS_SYSTEM_CONTEXT as u64),
        ("bootloader utilities", sp::ADDRESS_BOOTLOADER_UTILITIES as u64),
        ("event writer", sp::ADDRESS_EVENT_WRITER as u64),
        ("keccak256", sp::ADDRESS_KECCAK256 as u64),
    ]
}
/// the formal names the library publishes, and whom they must reach (None: a name of its own)
fn formal(i: u64) -> (&'static str, [u8; 20], u64, &'static [&'static str]) {
    let low = |x: u16| x as u64;
    match i {
        0 => ("BOOTLOADER_FORMAL_ADDRESS", g::a_boot().0, low(sp::BOOTLOADER_FORMAL_ADDRESS_LOW), &["bootloader"]),
        1 => ("NONCE_MANAGER_SYSTEM_CONTRACT_ADDRESS", g::a_nonce().0, sp::ADDRESS_NONCE_HOLDER as u64, &["nonce holder"]),
        2 => ("KNOWN_CODE_FACTORY_SYSTEM_CONTRACT_ADDRESS", g::a_known().0, sp::ADDRESS_KNOWN_CODES_STORAGE as u64, &["known codes storage"]),
        3 => ("KECCAK256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS", g::a_keccak().0, low(sp::KECCAK256_ROUND_FUNCTION_PRECOMPILE_ADDRESS), &["keccak256"]),
        4 => ("SHA256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS", g::a_sha().0, low(sp::SHA256_ROUND_FUNCTION_PRECOMPILE_ADDRESS), &["sha256"]),
        5 => ("ECRECOVER_INNER_FUNCTION_PRECOMPILE_FORMAL_ADDRESS", g::a_ecrec().0, low(sp::ECRECOVER_INNER_FUNCTION_PRECOMPILE_ADDRESS), &["ecrecover"]),
        // where deployments are recorded and looked up
        _ => ("DEPLOYER_SYSTEM_CONTRACT_ADDRESS", g::a_deployer().0, low(sp::DEPLOYER_SYSTEM_CONTRACT_ADDRESS_LOW), &["account code storage", "contract deployer"]),
    }
}
fn route(fab: &Fab, r: &mut Rng) {
    let dir = directory();
    let limit = sp::ADDRESS_UNRESTRICTED_SPACE as u64;
    let (name, a) = if r.chance(1, 2) {
        let (n, full, low, who) = formal(r.below(7));
        let mut v = 0u64;
        for b in &full[12..] {
            v = v << 8 | *b as u64;
        }
        check!(full[..12] == [0; 12], "address", "{} is {:x?}", n, full);
        check!(v == low, "address", "{} is {:#x} as an address and {:#x} as a number", n, v, low);
        let got: Vec<&str> = dir.iter().filter(|x| x.1 == v).map(|x| x.0).collect();
        check!(got.iter().any(|g| who.contains(g)), "address", "a message to {} ({:#x}) reaches {:?}, not {:?}; {}", n, v, got, who, fab.text());
        (n, v)
    } else {
        let (n, a) = *r.pick(&dir);
        (n, a)
    };
    let got: Vec<&str> = dir.iter().filter(|x| x.1 == a).map(|x| x.0).collect();
    check!(got.len() <= 1, "address", "a message to {} ({:#x}) reaches {:?}; {}", name, a, got, fab.text());
    check!(a > 0 && a < limit, "address", "{} lives at {:#x}, outside the kernel space below {:#x}; {}", name, a, limit, fab.text());
    // a user contract is never mistaken for a system contract
    let user = limit + val(r, 60);
    check!(!dir.iter().any(|x| x.1 == user), "address", "user address {:#x} is a system contract", user);
}
/// A logged event travels to its queue by its byte.
fn demux(fab: &Fab, r: &mut Rng) {
    let bytes = [
        ("storage", sp::STORAGE_AUX_BYTE as u64),
        ("events", sp::EVENT_AUX_BYTE as u64),
        ("L1 messages", sp::L1_MESSAGE_AUX_BYTE as u64),
        ("precompiles", sp::PRECOMPILE_AUX_BYTE as u64),
    ];
    let mut queues: Vec<Vec<(usize, u64)>> = vec![vec![]; 4];
    let n = 1 + r.below(20);
    for k in 0..n {
        let kind = r.below(4) as usize;
        let item = (kind, k);
        for (q, (_, b)) in bytes.iter().enumerate() {
            if *b == bytes[kind].1 {
                queues[q].push(item);
            }
        }
    }
    let total: usize = queues.iter().map(|x| x.len()).sum();
    for (q, items) in queues.iter().enumerate() {
        for (kind, k) in items {
            check!(*kind == q, "queue", "item {} for {} arrived at {}; {}", k, bytes[*kind].0, bytes[q].0, fab.text());
        }
    }
    check!(total as u64 == n, "queue", "{} items were sent, {} arrived", n, total);
}
pub fn fabric(seed: u64, steps: u64) {
    let mut r = Rng::new(seed);
    let mut fab = Fab {
        owner: BTreeMap::new(),
        mem: BTreeMap::new(),
        next_base: z::STARTING_BASE_PAGE as u64,
        next_frame: 1,
        ts: z::STARTING_TIMESTAMP as u64,
        last_access: 0,
        any_access: false,
        log: vec![],
    };
    let nregs = z::REGISTERS_COUNT;
    let boot = [
        z::BOOTLOADER_CODE_PAGE as u64,
        z::BOOTLOADER_CALLDATA_PAGE as u64,
        z::BOOTLOADER_STACK_PAGE as u64,
        z::BOOTLOADER_HEAP_PAGE as u64,
        z::BOOTLOADER_AUX_HEAP_PAGE as u64,
    ];
    let roles = [Role::Code, Role::Calldata, Role::Stack, Role::Heap, Role::Aux];
    for (p, role) in boot.iter().zip(roles) {
        fab.own(*p, 0, role);
    }
    // the host loads the bootloader's code, calldata and heap before the first cycle
    for p in [0, 1, 3] {
        for c in 0..1 + r.below(4) {
            fab.mem.insert((boot[p], c), (tag(0, boot[p], c), HOST_TIME));
        }
    }
    let mut st = vec![FFrame { id: 0, page: boot, regs: vec![0; nregs], stat: false }];
    if r.chance(1, 3) {
        // the machine has been running for as long as its ergs allow
        let cheapest = (1..=rf().defined[1]).map(|i| g::prices().get(i as usize).copied().unwrap_or(0)).min().unwrap_or(0).max(1) as u64;
        let cycles = r.below(sp::VM_INITIAL_FRAME_ERGS as u64 / cheapest + 1);
        let cycles = if r.chance(1, 2) { sp::VM_INITIAL_FRAME_ERGS as u64 / cheapest } else { cycles };
        fab.ts += cycles * z::TIME_DELTA_PER_CYCLE as u64;
        let far = pick_form(&mut r, 13, None);
        let far = g::prices().get(far as usize).copied().unwrap_or(0).max(1) as u64;
        fab.next_base += cycles.min(sp::VM_INITIAL_FRAME_ERGS as u64 / far) * z::NEW_MEMORY_PAGES_PER_FAR_CALL as u64;
        fab.note(format!("{} cycles earlier", cycles));
        // the last cycles still have to fit
        let back = steps * z::TIME_DELTA_PER_CYCLE as u64;
        fab.ts = fab.ts.saturating_sub(back).max(z::STARTING_TIMESTAMP as u64);
        fab.next_base = fab.next_base.saturating_sub(steps * z::NEW_MEMORY_PAGES_PER_FAR_CALL as u64).max(z::STARTING_BASE_PAGE as u64);
    }
    let enc = r.below(2) as u8;
    for s in 0..steps {
        rt::op_boundary();
        count(F_CASES);
        // every cycle starts with the instruction fetch
        let code = st.last().unwrap().page[0];
        let t0 = fab.at(0);
        let fetched = fab.read(code, s % 4);
        let id = st.last().unwrap().id;
        check!(fetched == 0 || fetched == tag(id, code, s % 4), "memory", "frame {} fetched {:#x} from its code page {}; {}", id, fetched, code, fab.text());
        match r.below(12) {
            0..=2 => far_call(&mut fab, &mut st, enc, nregs, &mut r),
            3 | 4 => {
                if st.len() > 1 {
                    ret(&mut fab, &mut st, nregs, &mut r);
                } else {
                    end_of_root(&fab, &mut r);
                }
            }
            5 => {
                count(F_TRAP);
                if st.len() > 1 {
                    st.pop();
                    fab.note("trap".into());
                    let f = st.last_mut().unwrap();
                    if let Some(x) = f.regs.get_mut(z::RET_IMPLICIT_RETURNDATA_PARAMS_REGISTER as usize) {
                        *x = 0
                    }
                } else {
                    end_of_root(&fab, &mut r);
                }
            }
            6 => route(&fab, &mut r),
            7 => demux(&fab, &mut r),
            8 => offsets(&fab, &mut r),
            _ => {
                // memory traffic of one instruction: read, up to two queue queries, write
                let f = st.last().unwrap();
                let id = f.id;
                let k = 2 + r.below(3) as usize;
                let page = f.page[k];
                let cell = r.below(6);
                let v = fab.read(page, cell);
                check!(
                    v == 0 || v == tag(id, page, cell),
                    "memory",
                    "frame {} reads {:#x} from cell {} of its {:?} page {}: not its own data; {}",
                    id, v, cell, roles[k], page, fab.text()
                );
                for o in 1..3 {
                    if r.chance(1, 2) {
                        let t = fab.at(o);
                        check!(t > t0, "time", "queue query at {} and fetch at {}", t, t0);
                    }
                }
                let t = fab.at(3);
                fab.write(page, cell, tag(id, page, cell), t);
                let u = fab.read(z::UNMAPPED_PAGE as u64, cell);
                check!(u == 0, "memory", "the unmapped page reads {:#x}; {}", u, fab.text());
            }
        }
        yield_point();
        let before = fab.ts + 3; // the last query a cycle may make
        fab.ts += z::TIME_DELTA_PER_CYCLE as u64;
        check!(fab.ts > before, "time", "the cycle after {} starts at {} although that cycle may still query at {}", fab.ts - z::TIME_DELTA_PER_CYCLE as u64, fab.ts, before);
    }
}
fn tag(id: u64, page: u64, cell: u64) -> u64 {
    1 + (id << 40 ^ page << 8 ^ cell)
}
fn set(fab: &Fab, regs: &mut [u64], role: &str, i: u64, v: u64) {
    match regs.get_mut(i as usize) {
        Some(x) => *x = v,
        None => bad("register", format!("{} is register {} of {}; {}", role, i, regs.len(), fab.text())),
    }
}
fn get(regs: &[u64], i: u64) -> u64 {
    regs.get(i as usize).copied().unwrap_or(0)
}
fn far_call(fab: &mut Fab, st: &mut Vec<FFrame>, enc: u8, nregs: usize, r: &mut Rng) {
    if st.len() > 30 {
        return;
    }
    // flags come from the decoded instruction
    let idx = pick_form(r, 13, None);
    let w = word_of(enc, idx, 0, r);
    let want = rf().t[1][idx as usize];
    let i = decode_real(enc, w, false);
    let stat = i.flags.get(z::FAR_CALL_STATIC_FLAG_IDX).copied();
    let shard = i.flags.get(z::FAR_CALL_SHARD_FLAG_IDX).copied();
    check!(
        i.op.0 == 13 && stat == Some(want.f0) && shard == Some(want.f1),
        "flag",
        "a far call with flags static={} shard={} arrives as {} with static={:?} shard={:?}",
        want.f0, want.f1, i.desc, stat, shard
    );
    let stat = st.last().unwrap().stat || stat == Some(true);
    let t1 = fab.at(1);
    let t2 = fab.at(2);
    check!(t2 > t1, "time", "decommitment at {} before storage read at {}", t2, t1);
    let base = fab.next_base;
    fab.next_base += z::NEW_MEMORY_PAGES_PER_FAR_CALL as u64;
    let id = fab.next_frame;
    fab.next_frame += 1;
    fab.note(format!("far call: frame {} at {}", id, base));
    count(F_FRAMES);
    let p = |x: u32| base.wrapping_add(off(x));
    // calldata is somebody else's page: no page of its own
    let page = [p(z::BOOTLOADER_CODE_PAGE), u64::MAX, p(z::BOOTLOADER_STACK_PAGE), p(z::BOOTLOADER_HEAP_PAGE), p(z::BOOTLOADER_AUX_HEAP_PAGE)];
    for (k, role) in [(0, Role::Code), (2, Role::Stack), (3, Role::Heap), (4, Role::Aux)] {
        fab.own(page[k], id, role);
    }
    // fresh memory is empty
    for k in [0usize, 2, 3, 4] {
        let v = fab.read(page[k], r.below(6));
        check!(v == 0, "memory", "page {} of new frame {} already holds {:#x}; {}", page[k], id, v, fab.text());
    }
    for c in 0..4 {
        let v = tag(id, page[0], c);
        fab.mem.insert((page[0], c), (v, t2));
    }
    // the registers a callee starts with
    let mut regs = vec![0u64; nregs];
    let val_of = |role: u64| 1000 + id * 64 + role;
    let system = r.chance(1, 2);
    let sys: Vec<u64> = z::CALL_SYSTEM_ABI_REGISTERS.map(|x| x as u64).collect();
    let rsv: Vec<u64> = z::CALL_RESERVED_RANGE.map(|x| x as u64).collect();
    let (cd, ctor, imp) = (
        z::CALL_IMPLICIT_CALLDATA_FAT_PTR_REGISTER as u64,
        z::CALL_IMPLICIT_CONSTRUCTOR_MARKER_REGISTER as u64,
        z::CALL_IMPLICIT_PARAMETER_REG_IDX as u64,
    );
    for (k, x) in sys.iter().enumerate() {
        set(fab, &mut regs, "a system call argument", *x, if system { val_of(8 + k as u64) } else { 0 });
    }
    set(fab, &mut regs, "the calldata pointer", cd, val_of(1));
    set(fab, &mut regs, "the constructor marker", ctor, val_of(2));
    for x in &rsv {
        set(fab, &mut regs, "a reserved register", *x, 0);
    }
    set(fab, &mut regs, "the implicit parameter", imp, val_of(3));
    yield_point();
    let f = FFrame { id, page, regs, stat };
    // what the callee finds
    let say = |what: &str, i: u64, got: u64, want: u64, fab: &Fab| {
        check!(got == want, "register", "the callee finds {} instead of {} where {} (register {}) was passed; {}", got, want, what, i, fab.text())
    };
    say("the calldata pointer", cd, get(&f.regs, cd), val_of(1), fab);
    say("the constructor marker", ctor, get(&f.regs, ctor), val_of(2), fab);
    say("the implicit parameter", imp, get(&f.regs, imp), val_of(3), fab);
    for (k, x) in sys.iter().enumerate() {
        say("a system call argument", *x, get(&f.regs, *x), if system { val_of(8 + k as u64) } else { 0 }, fab);
    }
    for x in &rsv {
        say("nothing", *x, get(&f.regs, *x), 0, fab);
    }
    // no register is left without a role: nothing of the caller shines through
    let mut seen = vec![0u32; nregs];
    for x in sys.iter().chain(&rsv).chain(&[cd, ctor, imp]) {
        if let Some(s) = seen.get_mut(*x as usize) {
            *s += 1;
        }
    }
    for (k, s) in seen.iter().enumerate() {
        check!(*s == 1, "register", "register {} has {} roles at a far call", k, s);
    }
    // a state change in a static frame is recognised before it happens
    let (ix, mi) = gen_instr(r, enc);
    let w = encode(enc, ix, &mi);
    let d = decode_real(enc, w, false);
    let m = rf().t[1][ix as usize];
    if f.stat {
        check!(d.static_ok == static_ok(&m), "static", "in a static frame {} counts as permitted: {}", d.desc, d.static_ok);
    }
    st.push(f);
}
fn ret(fab: &mut Fab, st: &mut Vec<FFrame>, nregs: usize, _r: &mut Rng) {
    let f = st.pop().unwrap();
    let v = 500 + f.id;
    fab.note(format!("frame {} returns", f.id));
    let c = st.last_mut().unwrap();
    c.regs = vec![77; nregs];
    let data = z::RET_IMPLICIT_RETURNDATA_PARAMS_REGISTER as u64;
    let rsv = [z::RET_RESERVED_REGISTER_0 as u64, z::RET_RESERVED_REGISTER_1 as u64, z::RET_RESERVED_REGISTER_2 as u64];
    set(fab, &mut c.regs, "the returndata pointer", data, v);
    for x in rsv {
        set(fab, &mut c.regs, "a reserved register", x, 0);
    }
    check!(get(&c.regs, data) == v, "register", "the caller finds {} where frame {} returned {}; {}", get(&c.regs, data), f.id, v, fab.text());
    let mut d = rsv.to_vec();
    d.sort();
    d.dedup();
    check!(d.len() == 3, "register", "the reserved return registers are {:?}", rsv);
    // a later call passes the implicit values in the same places
    check!(data == z::CALL_IMPLICIT_CALLDATA_FAT_PTR_REGISTER as u64, "register", "data arrives in register {} on return and {} on call", data, z::CALL_IMPLICIT_CALLDATA_FAT_PTR_REGISTER);
}
fn end_of_root(fab: &Fab, _r: &mut Rng) {
    let ok = sp::INITIAL_FRAME_SUCCESSFUL_EXIT_PC as u64;
    let eh = sp::INITIAL_FRAME_FORMAL_EH_LOCATION as u64;
    check!(ok != eh, "exit", "the first frame ends at {} whether it succeeds or traps; {}", ok, fab.text());
}
/// the largest offsets the machine lets through still fit its 32-bit arithmetic
fn offsets(fab: &Fab, r: &mut Rng) {
    let max = z::uma::MAX_OFFSET_TO_DEREF;
    let small = |x: &z::ethereum_types::U256| x.0[1] == 0 && x.0[2] == 0 && x.0[3] == 0;
    let o = match r.below(3) {
        0 => max.0[0],
        1 => max.0[0].saturating_add(val(r, 32)),
        _ => val(r, 34),
    };
    check!(small(&max) && max.0[0] == z::uma::MAX_OFFSET_TO_DEREF_LOW_U32 as u64, "offset", "the dereference limit is {:?} and {:#x}", max.0, z::uma::MAX_OFFSET_TO_DEREF_LOW_U32);
    if o <= max.0[0] {
        check!(
            o + 32 <= u32::MAX as u64,
            "offset",
            "a heap access at allowed offset {:#x} ends, or increments its pointer, beyond 32 bits; {}",
            o, fab.text()
        );
    }
    let lim = z::ptr::MAX_OFFSET_FOR_ADD_SUB;
    check!(lim.0[1] == 0 && lim.0[2] == 0 && lim.0[3] == 0, "offset", "pointer offsets up to {:?} are let through", lim.0);
    let n = if r.chance(1, 2) { lim.0[0].wrapping_sub(1) } else { val(r, 34) };
    if n < lim.0[0] {
        check!(n <= u32::MAX as u64, "offset", "adding the allowed offset {:#x} to a pointer loses bits; {}", n, fab.text());
    } else {
        check!(n > u32::MAX as u64, "offset", "adding {:#x} to a pointer is refused although it fits; {}", n, fab.text());
    }
}
