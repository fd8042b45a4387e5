//! The call fabric: the 256-bit words that call frames, the host and the precompile queue hand
//! each other. Messages live in cells of the simulated storage (volatile and durable halves), are
//! sent by one party and read by others, possibly in another thread or incarnation, and can be
//! damaged, duplicated, misdelivered or lost on the way. `chain` is one transaction: a stack of
//! mutually distrusting frames that call, return, trap, do pointer arithmetic and dereference.
use crate::common::Rng;
use crate::ops::{related, bad, count, val, F_CASES, F_DEREF, F_DEREF_REFUSED, F_MSG_DAMAGE, F_SLICE_OK, F_SLICE_REFUSED, F_TRAP};
use crate::rt::{self, atomic, shm, yield_point};
use crate::world::*;
use vglue as g;
use zkevm_opcode_defs as z;
macro_rules! check {
    ($c:expr, $class:expr, $($a:tt)*) => { if !($c) { bad($class, format!($($a)*)) } };
}
pub type W = [u64; 4];
pub const KINDS: u64 = 7;

// ------------------------------------------------------------------ model: bits from:to of a word
fn bits(w: &W, from: usize, n: usize) -> u64 {
    let v = w[from / 64] >> (from % 64);
    if n == 64 {
        v
    } else {
        v & ((1 << n) - 1)
    }
}
fn put(w: &mut W, from: usize, n: usize, v: u64) {
    let m = if n == 64 { u64::MAX } else { ((1u64 << n) - 1) << (from % 64) };
    w[from / 64] = w[from / 64] & !m | (v << (from % 64)) & m;
}
/// (first bit, width) of the fields of each kind of word, in a fixed order
pub fn layout(kind: u64) -> &'static [(usize, usize)] {
    match kind {
        0 => &[(0, 32), (32, 32), (64, 32), (96, 32)], // fat pointer: offset, page, start, length
        1 => &[(0, 32), (32, 32), (64, 32), (96, 32), (192, 32), (224, 8), (232, 8), (240, 8), (248, 8)], // far call: ..., ergs, mode, shard, constructor, system
        2 => &[(0, 32)],                               // near call: ergs
        3 => &[(0, 32), (32, 32), (64, 32), (96, 32), (224, 8)], // return: ..., mode
        4 => &[(0, 32), (32, 32), (64, 32), (96, 32), (192, 64)], // precompile call
        5 => &[(0, 32), (32, 32), (64, 32), (96, 32), (128, 32), (160, 32), (192, 64)], // queued precompile call
        _ => &[(0, 32), (64, 32), (96, 32), (224, 8), (232, 8), (240, 8)], // meta: pubdata price, heap, aux heap, shards
    }
}
fn mode(x: u64) -> u64 {
    if x <= 2 {
        x
    } else {
        0
    }
}
pub fn unpack(kind: u64, w: &W) -> Vec<u64> {
    let mut f: Vec<u64> = layout(kind).iter().map(|(b, n)| bits(w, *b, *n)).collect();
    normalise(kind, &mut f);
    f
}
fn normalise(kind: u64, f: &mut [u64]) {
    match kind {
        1 => {
            f[5] = mode(f[5]);
            f[7] = (f[7] != 0) as u64;
            f[8] = (f[8] != 0) as u64;
        }
        3 => f[4] = mode(f[4]),
        _ => {}
    }
}
fn pack(kind: u64, f: &[u64]) -> W {
    let mut w = [0; 4];
    for ((b, n), v) in layout(kind).iter().zip(f) {
        put(&mut w, *b, *n, *v);
    }
    w
}

// ------------------------------------------------------------------ the real code, in the same terms
fn fat(p: &z::FatPointer) -> [u64; 4] {
    [p.offset as u64, p.memory_page as u64, p.start as u64, p.length as u64]
}
fn to_fat(f: &[u64]) -> z::FatPointer {
    z::FatPointer { offset: f[0] as u32, memory_page: f[1] as u32, start: f[2] as u32, length: f[3] as u32 }
}
fn far_mode(m: z::FarCallForwardPageType) -> u64 {
    match m {
        z::FarCallForwardPageType::UseHeap => 0,
        z::FarCallForwardPageType::ForwardFatPointer => 1,
        z::FarCallForwardPageType::UseAuxHeap => 2,
    }
}
fn ret_mode(m: z::RetForwardPageType) -> u64 {
    match m {
        z::RetForwardPageType::UseHeap => 0,
        z::RetForwardPageType::ForwardFatPointer => 1,
        z::RetForwardPageType::UseAuxHeap => 2,
    }
}
fn real_unpack(kind: u64, w: W) -> Option<Vec<u64>> {
    Some(match kind {
        0 => fat(&g::fat_unpack(w)).to_vec(),
        1 => {
            let a = g::far_unpack(w);
            let mut v = fat(&a.memory_quasi_fat_pointer).to_vec();
            v.extend([a.ergs_passed as u64, far_mode(a.forwarding_mode), a.shard_id as u64, a.constructor_call as u64, a.to_system as u64]);
            v
        }
        2 => vec![g::near_unpack(w).ergs_passed as u64],
        3 => {
            let a = g::ret_unpack(w);
            let mut v = fat(&a.memory_quasi_fat_pointer).to_vec();
            v.push(ret_mode(a.page_forwarding_mode));
            v
        }
        4 => {
            let a = g::pre_unpack(w);
            vec![a.input_memory_offset as u64, a.input_memory_length as u64, a.output_memory_offset as u64, a.output_memory_length as u64, a.per_precompile_interpreted]
        }
        5 => {
            let a = g::inner_unpack(w);
            vec![a.input_memory_offset as u64, a.input_memory_length as u64, a.output_memory_offset as u64, a.output_memory_length as u64, a.memory_page_to_read as u64, a.memory_page_to_write as u64, a.precompile_interpreted_data]
        }
        _ => return None, // read by contracts, not by this crate
    })
}
fn real_pack(kind: u64, f: &[u64]) -> Option<W> {
    match kind {
        0 => Some(g::fat_pack(to_fat(f))),
        5 => Some(g::inner_pack(z::PrecompileCallInnerABI {
            input_memory_offset: f[0] as u32,
            input_memory_length: f[1] as u32,
            output_memory_offset: f[2] as u32,
            output_memory_length: f[3] as u32,
            memory_page_to_read: f[4] as u32,
            memory_page_to_write: f[5] as u32,
            precompile_interpreted_data: f[6],
        })),
        6 => Some(g::meta_pack(z::VmMetaParameters {
            ergs_per_pubdata_byte: f[0] as u32,
            heap_size: f[1] as u32,
            aux_heap_size: f[2] as u32,
            this_shard_id: f[3] as u8,
            caller_shard_id: f[4] as u8,
            code_shard_id: f[5] as u8,
        })),
        // packed by the sender: the pointer half is a fat pointer, the rest is the sender's
        1 | 3 => {
            let mut w = g::fat_pack(to_fat(f));
            for ((b, n), v) in layout(kind).iter().zip(f).skip(4) {
                put(&mut w, *b, *n, *v);
            }
            Some(w)
        }
        _ => None,
    }
}
const KNAMES: [&str; 7] = ["fat pointer", "far call", "near call", "return", "precompile call", "queued precompile call", "meta"];
fn hex(w: &W) -> String {
    format!("{:#018x} {:016x} {:016x} {:016x}", w[3], w[2], w[1], w[0])
}

// ------------------------------------------------------------------ senders and receivers
pub fn gen_fields(kind: u64, r: &mut Rng) -> Vec<u64> {
    let same = r.chance(1, 12);
    let v0 = val(r, 64);
    let mut f: Vec<u64> = layout(kind)
        .iter()
        .map(|(b, n)| {
            let m = if *n == 64 { u64::MAX } else { (1u64 << n) - 1 };
            if same {
                v0 & m
            } else if *b == 224 && kind != 6 && r.chance(3, 4) {
                r.below(4)
            } else if *n == 8 && r.chance(1, 2) {
                r.below(3)
            } else {
                val(r, *n as u32)
            }
        })
        .collect();
    let k = f.len() as u64;
    match r.below(8) {
        // fields that stand in some relation to each other
        0 | 1 => {
            for _ in 0..1 + r.below(2) {
                let (i, x, y) = (r.below(k) as usize, r.below(k) as usize, r.below(k) as usize);
                f[i] = related(r, f[x], f[y], layout(kind)[i].1 as u32);
            }
        }
        // all but one or two empty
        2 => {
            let (x, y) = (r.below(k) as usize, r.below(2 * k) as usize);
            for (i, v) in f.iter_mut().enumerate() {
                if i != x && i != y {
                    *v = 0
                }
            }
        }
        _ => {}
    }
    f
}
pub fn gen_any(kind: u64, r: &mut Rng) -> W {
    let mut w = pack(kind, &gen_fields(kind, r));
    match r.below(6) {
        0 => w = [r.next(), r.next(), r.next(), r.next()],
        1 => w[r.below(4) as usize] ^= 1 << r.below(64),
        2 => w[2] = val(r, 64),
        3 => {
            for _ in 0..r.below(5) {
                w[r.below(4) as usize] ^= 1 << r.below(64)
            }
        }
        _ => {}
    }
    w
}
/// a far call word passing `ergs`
pub fn gen_far_word(ergs: u64, r: &mut Rng) -> W {
    let mut f = gen_fields(1, r);
    f[4] = ergs;
    pack(1, &f)
}
pub fn check_word(kind: u64, w: &W) {
    count(F_CASES);
    let want = unpack(kind, w);
    if let Some(got) = real_unpack(kind, *w) {
        check!(got == want, "unpack", "the {} word {} unpacks to {:x?}, expected {:x?}", KNAMES[kind as usize], hex(w), got, want);
    }
    if kind == 0 || kind >= 5 {
        let again = real_pack(kind, &want).unwrap();
        let expect = pack(kind, &want);
        check!(again == expect, "pack", "{} fields {:x?} pack to {}, expected {}", KNAMES[kind as usize], want, hex(&again), hex(&expect));
    }
    if kind == 5 {
        let again = g::inner_pack(g::inner_unpack(*w));
        check!(again == *w, "repack", "the queued precompile call {} re-packs to {}", hex(w), hex(&again));
    }
}
pub fn send(slot: u64, kind: u64, seed: u64) {
    let (i, kind) = (slot as usize % MSGS, kind % KINDS);
    let f = gen_fields(kind, &mut Rng::new(seed));
    let want = pack(kind, &f);
    let w = match real_pack(kind, &f) {
        Some(w) => {
            check!(w == want, "pack", "{} fields {:x?} pack to {}, expected {}", KNAMES[kind as usize], f, hex(&w), hex(&want));
            w
        }
        None => want,
    };
    yield_point();
    atomic(|| {
        let mut m = Msg { w, kind: kind as u8, set: 1, taint: 0, sent: [0; 9] };
        m.sent[..f.len()].copy_from_slice(&f);
        shm().world.msg[i] = m;
    });
}
pub fn recv(slot: u64, other: u64) {
    let i = slot as usize % MSGS;
    yield_point();
    let m = atomic(|| shm().world.msg[i]);
    check_word(m.kind as u64, &m.w);
    if m.set == 1 && m.taint == 0 {
        let k = m.kind as u64;
        let mut f = m.sent[..layout(k).len()].to_vec();
        normalise(k, &mut f);
        if let Some(got) = real_unpack(k, m.w) {
            check!(got == f, "message", "a {} word sent with fields {:x?} arrived as {:x?}", KNAMES[k as usize], f, got);
        }
    }
    // a word is only bits: whoever reads it as something else gets that reading, always
    check_word(other % KINDS, &m.w);
}
pub fn damage(slot: u64, how: u64, seed: u64) {
    let mut r = Rng::new(seed);
    let i = slot as usize % MSGS;
    yield_point();
    count(F_MSG_DAMAGE);
    atomic(|| {
        let ms = &mut shm().world.msg;
        let j = r.below(MSGS as u64) as usize;
        match how % 8 {
            0 | 1 => {
                ms[i].w[r.below(4) as usize] ^= 1 << r.below(64);
                ms[i].taint = 1
            }
            2 => {
                let b = r.below(32) as usize;
                put(&mut ms[i].w, b * 8, 8, r.below(256));
                ms[i].taint = 1
            }
            3 => {
                let (a, b) = (r.below(4) as usize, r.below(4) as usize);
                ms[i].w.swap(a, b);
                ms[i].taint = 1
            }
            4 => ms[i] = ms[j],                      // duplicated to another receiver
            5 => ms.swap(i, j),                      // reordered
            6 => ms[i].kind = r.below(KINDS) as u8 & 7, // misdelivered: read as another kind
            _ => {
                ms[i].w = [0; 4]; // lost, the cell reads as zero
                ms[i].taint = 1
            }
        }
        if how % 8 == 6 {
            ms[i].kind = (ms[i].kind as u64 % KINDS) as u8;
            ms[i].set = 0;
        }
    });
}
pub fn constants() {
    check!(
        (z::FAR_CALL_FORWARDING_MODE_BYTE_IDX, z::FAR_CALL_SHARD_ID_BYTE_IDX, z::FAR_CALL_CONSTRUCTOR_CALL_BYTE_IDX, z::FAR_CALL_SYSTEM_CALL_BYTE_IDX, z::RET_FORWARDING_MODE_BYTE_IDX)
            == (28, 29, 30, 31, 28),
        "unpack",
        "the published byte positions of the call words moved"
    );
    check!(z::FatPointer::FAT_POINTER_PACKED_WIDTH == 128, "unpack", "a fat pointer is {} bits", z::FatPointer::FAT_POINTER_PACKED_WIDTH);
    for x in 0..=255u8 {
        check!(far_mode(g::mode_far(x)) == mode(x as u64) && g::mode_far(x) as u8 as u64 == mode(x as u64), "unpack", "far call forwarding byte {} reads as {:?}", x, g::mode_far(x));
        check!(ret_mode(g::mode_ret(x)) == mode(x as u64) && g::mode_ret(x) as u8 as u64 == mode(x as u64), "unpack", "return forwarding byte {} reads as {:?}", x, g::mode_ret(x));
    }
}

// ------------------------------------------------------------------ C13: slices along a call chain
fn check_slice(p: &z::FatPointer) {
    count(F_CASES);
    let f = fat(p);
    let over = (f[2] + f[3] > u32::MAX as u64) as u64 * 2;
    for fresh in [false, true] {
        let want = over | (fresh && f[0] != 0) as u64;
        let got = g::fat_validate(*p, fresh);
        check!(got == want, "validate", "slice {:x?} (fresh: {}) has exceptions {:#x}, expected {:#x}", p, fresh, got, want);
    }
    check!(g::fat_in_bounds(p) == (f[0] < f[3]), "validate", "slice {:x?}: in bounds = {}", p, g::fat_in_bounds(p));
    check!(g::fat_as_slice(p) == (f[0] <= f[3]), "validate", "slice {:x?}: forwardable = {}", p, g::fat_as_slice(p));
    check!(g::fat_trivial(p) == (f[0] == 0 && f[3] == 0), "validate", "slice {:x?}: trivial = {}", p, g::fat_trivial(p));
}
pub fn slices(r: &mut Rng) {
    let mut f = gen_fields(0, r);
    let m = u32::MAX as u64;
    match r.below(8) {
        0 => f[3] = (m - f[2]).wrapping_add(r.below(3)).wrapping_sub(1) & m,
        1 => f[0] = f[3].wrapping_add(r.below(3)).wrapping_sub(1) & m,
        2 => f[0] = 0,
        3 => f[3] = 0,
        4 => {
            f[0] = 0;
            f[3] = r.below(2)
        }
        _ => {}
    }
    check_slice(&to_fat(&f));
    yield_point();
    let w = g::fat_pack(to_fat(&f));
    check_slice(&g::fat_unpack(w));
}
#[derive(Clone, Copy)]
struct Reg {
    w: W,
    ptr: bool,
    // what the holder may read through it, in plain integers
    lo: u64,
    hi: u64,
    page: u64,
}
struct Fr {
    base: u64, // base page: base+2 heap, base+3 aux heap
    regs: Vec<Reg>,
}
fn empty_reg() -> Reg {
    let p = g::fat_empty();
    check!(fat(&p) == [0; 4] && g::fat_trivial(&p) && !g::fat_in_bounds(&p), "validate", "the empty slice is {:?}", p);
    Reg { w: g::fat_pack(p), ptr: true, lo: 0, hi: 0, page: 0 }
}
/// Hand-over of a slice at a call or return, as the VM does it with the crate's checks.
/// None: refused.
fn hand_over(fr: &Fr, src: &Reg, p: z::FatPointer, mode: u64) -> Option<Reg> {
    check_slice(&p);
    let mut q = p;
    let (page, lo, hi);
    if mode == 1 {
        if !src.ptr || g::fat_validate(p, false) != 0 || !g::fat_as_slice(&p) {
            count(F_SLICE_REFUSED);
            return None;
        }
        q.start = p.start.wrapping_add(p.offset);
        q.length = p.length.wrapping_sub(p.offset);
        q.offset = 0;
        (page, lo, hi) = (src.page, src.lo, src.hi);
    } else {
        if g::fat_validate(p, true) != 0 {
            count(F_SLICE_REFUSED);
            return None;
        }
        page = fr.base + if mode == 0 { 2 } else { 3 };
        q.memory_page = page as u32;
        (lo, hi) = (p.start as u64, p.start as u64 + p.length as u64);
    }
    count(F_SLICE_OK);
    // never more than the giver had
    let (s, e) = (q.start as u64, q.start as u64 + q.length as u64);
    check!(
        q.length == 0 || q.memory_page as u64 == page && s >= lo && e <= hi && e <= u32::MAX as u64,
        "confinement",
        "a slice of page {} [{:#x},{:#x}) was handed over as {:x?}",
        page, lo, hi, q
    );
    Some(Reg { w: g::fat_pack(q), ptr: true, lo: s, hi: e, page })
}
pub fn chain(seed: u64, steps: u64, hostile: u64) {
    let mut r = Rng::new(seed);
    let mut st = vec![Fr { base: 8, regs: vec![empty_reg()] }];
    let mut next_page = 2048u64;
    for _ in 0..steps {
        rt::op_boundary();
        let fr = st.last_mut().unwrap();
        let ri = r.below(fr.regs.len() as u64) as usize;
        let src = fr.regs[ri];
        match r.below(10) {
            0..=3 => {
                // call or return with a slice
                let call = st.len() < 2 || st.len() < 24 && r.chance(1, 2);
                let fr = st.last().unwrap();
                let kind = if call { 1 } else { 3 };
                let mut src = src;
                let fwd = r.chance(1, 2);
                let mut w;
                if fwd {
                    w = src.w;
                } else {
                    let mut f = gen_fields(0, &mut r);
                    if r.chance(3, 4) {
                        f[0] = 0;
                    }
                    if r.chance(1, 2) {
                        f[2] = r.below(1 << 20);
                        f[3] = r.below(1 << 12);
                    } else if r.chance(1, 3) {
                        f[3] = (u32::MAX as u64 - f[2]).wrapping_add(r.below(3)).wrapping_sub(1) & 0xffff_ffff;
                    }
                    w = pack(0, &f);
                    src = Reg { w, ptr: false, lo: 0, hi: 0, page: 0 };
                }
                put(&mut w, 192, 64, val(&mut r, 64));
                put(&mut w, 224, 8, if r.chance(7, 8) { if fwd { 1 } else { 2 * r.below(2) } } else { r.below(256) });
                if r.below(64) < hostile {
                    // a hostile frame: any bits, but then the tag is gone
                    count(F_MSG_DAMAGE);
                    w[r.below(4) as usize] ^= 1 << r.below(64);
                    if r.chance(1, 2) {
                        w[r.below(2) as usize] = val(&mut r, 64);
                    }
                    src.ptr = false;
                }
                check_word(kind, &w);
                yield_point();
                let (p, m) = if call {
                    let a = g::far_unpack(w);
                    (a.memory_quasi_fat_pointer, far_mode(a.forwarding_mode))
                } else {
                    let a = g::ret_unpack(w);
                    (a.memory_quasi_fat_pointer, ret_mode(a.page_forwarding_mode))
                };
                let got = hand_over(fr, &src, p, m);
                // what had to be decided, in plain integers
                let f = unpack(kind, &w);
                let over = f[2] + f[3] > u32::MAX as u64;
                let ok = !over && if f[if call { 5 } else { 4 }] == 1 { src.ptr && f[0] <= f[3] } else { f[0] == 0 };
                check!(got.is_some() == ok, "handover", "{} {} presenting {:x?}: accepted {}, expected {}", KNAMES[kind as usize], hex(&w), p, got.is_some(), ok);
                if call {
                    if got.is_some() {
                        st.push(Fr { base: next_page, regs: vec![got.unwrap()] });
                        next_page += 8;
                    } else {
                        fr_panic(&mut st, &mut next_page, true);
                    }
                } else {
                    st.pop();
                    let reg = got.unwrap_or_else(empty_reg);
                    let f = st.last_mut().unwrap();
                    f.regs.push(reg);
                }
            }
            4 => {
                // a trap unwinds the frame
                count(F_TRAP);
                fr_panic(&mut st, &mut next_page, false);
            }
            5 | 6 => {
                // pointer arithmetic
                if !src.ptr {
                    continue;
                }
                let mut p = g::fat_unpack(src.w);
                let f = unpack(0, &src.w);
                check!(fat(&p)[..] == f[..], "unpack", "the fat pointer {} unpacks to {:?}", hex(&src.w), p);
                let n = match r.below(4) {
                    0 => p.length.wrapping_add(r.below(3) as u32).wrapping_sub(1),
                    1 => val(&mut r, 32) as u32,
                    _ => r.below(300) as u32,
                };
                let q = match r.below(3) {
                    0 => p.offset.checked_add(n).map(|o| p.offset = o),
                    1 => p.offset.checked_sub(n).map(|o| p.offset = o),
                    _ => p.length.checked_sub(n).map(|l| p.length = l),
                };
                if q.is_none() {
                    fr_panic(&mut st, &mut next_page, false);
                    continue;
                }
                let w = g::fat_pack(p);
                let fr = st.last_mut().unwrap();
                fr.regs[ri].w = w;
                check_slice(&p);
            }
            7 | 8 => {
                // dereference
                if !src.ptr {
                    continue;
                }
                let p = g::fat_unpack(src.w);
                check_slice(&p);
                yield_point();
                if g::fat_in_bounds(&p) {
                    count(F_DEREF);
                    let a = p.start.wrapping_add(p.offset) as u64;
                    check!(
                        p.memory_page as u64 == src.page && a >= src.lo && a < src.hi,
                        "confinement",
                        "a frame may read page {} [{:#x},{:#x}) and read page {} at {:#x} through {:x?}",
                        src.page, src.lo, src.hi, p.memory_page, a, p
                    );
                } else {
                    count(F_DEREF_REFUSED);
                }
            }
            _ => {
                // copy a register (an old pointer is kept and used again later)
                if fr.regs.len() < 6 {
                    fr.regs.push(src)
                } else {
                    fr.regs.remove(0);
                }
            }
        }
    }
}
fn fr_panic(st: &mut Vec<Fr>, _np: &mut u64, callee: bool) {
    if !callee {
        if st.len() > 1 {
            st.pop();
        }
    }
    let f = st.last_mut().unwrap();
    f.regs.push(empty_reg());
    if f.regs.len() > 8 {
        f.regs.remove(0);
    }
}
