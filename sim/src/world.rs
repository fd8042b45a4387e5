//! Simulated storage shared by all incarnations of the simulated process: code pages made of
//! 32-byte words and contract-code records. Every cell has a volatile and a durable half; a
//! crash keeps, per cell written since the last sync, the old, the new or (C04) a torn value.
//! Next to the bytes lives the shadow: what was stored, in the model's terms.
use crate::common::{fnv, Rng};
use crate::model::*;

pub const WORDS: usize = 24;
pub const MAXCODE: usize = 9;
pub const RECS: usize = 4;
pub const MSGS: usize = 12;

#[repr(C)]
#[derive(Clone, Copy, PartialEq)]
pub struct Shadow {
    pub set: u8,   // an instruction was assembled here
    pub taint: u8, // the bytes were damaged since
    pub idx: u16,
    pub cond: u8,
    pub r: [u8; 4],
    pub imm0: u32,
    pub imm1: u32,
}
impl Shadow {
    pub fn mi(&self, t: &[MV]) -> MI {
        MI { v: t[self.idx as usize], cond: self.cond, r: self.r, imm0: self.imm0, imm1: self.imm1 }
    }
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Page {
    pub vol: [[u8; 32]; WORDS],
    pub dur: [[u8; 32]; WORDS],
    pub sh: [Shadow; WORDS * 4],
    pub shd: [Shadow; WORDS * 4],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Rec {
    pub n: u64, // words of code stored, 0 = nothing deployed
    pub code: [[u8; 32]; MAXCODE],
    pub rec: [u8; 32],
    pub has_rec: u8,
    // the code as deployed: what the record promises
    pub n0: u64,
    pub code0: [[u8; 32]; MAXCODE],
    pub rec_damaged: u8,
}
/// a 256-bit word on its way between call frames, host and precompile queue
#[repr(C)]
#[derive(Clone, Copy, PartialEq)]
pub struct Msg {
    pub w: [u64; 4],
    pub kind: u8,
    pub set: u8,
    pub taint: u8,
    pub sent: [u64; 9],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct World {
    pub page: [Page; 2], // 0: 8-byte encoding, 1: 16-byte encoding
    pub rec: [Rec; RECS],
    pub recd: [Rec; RECS],
    pub versions_seen: [u64; 4],
    pub msg: [Msg; MSGS],
    pub msgd: [Msg; MSGS],
}
pub fn isz(enc: u8) -> usize {
    if enc == 0 {
        8
    } else {
        16
    }
}
pub fn per_word(enc: u8) -> usize {
    32 / isz(enc)
}
pub fn slots(enc: u8) -> usize {
    WORDS * per_word(enc)
}
impl Page {
    pub fn put(&mut self, enc: u8, slot: usize, bytes: &[u8], sh: Shadow) {
        let n = isz(enc);
        let (w, o) = (slot / per_word(enc), slot % per_word(enc));
        self.vol[w][o * n..o * n + n].copy_from_slice(&bytes[..n]);
        self.sh[slot] = sh;
    }
    pub fn raw(&self, enc: u8, slot: usize) -> u128 {
        let n = isz(enc);
        let (w, o) = (slot / per_word(enc), slot % per_word(enc));
        let mut v = 0u128;
        for b in &self.vol[w][o * n..o * n + n] {
            v = v << 8 | *b as u128;
        }
        v
    }
    pub fn sync(&mut self, enc: u8, from: usize, n: usize) {
        for k in 0..n {
            let w = (from + k) % WORDS;
            self.dur[w] = self.vol[w];
            for s in 0..per_word(enc) {
                let i = w * per_word(enc) + s;
                self.shd[i] = self.sh[i];
            }
        }
    }
}
impl World {
    /// everything in it, field by field (padding is not state)
    pub fn digest(&self, h: &mut u64) {
        fn bytes(h: &mut u64, b: &[u8]) {
            for c in b.chunks(8) {
                let mut x = [0u8; 8];
                x[..c.len()].copy_from_slice(c);
                *h = fnv(*h, u64::from_le_bytes(x));
            }
        }
        for p in &self.page {
            for w in p.vol.iter().chain(&p.dur) {
                bytes(h, w);
            }
            for s in p.sh.iter().chain(&p.shd) {
                bytes(h, &[s.set, s.taint, s.cond, s.idx as u8, (s.idx >> 8) as u8]);
                bytes(h, &s.r);
                *h = fnv(*h, (s.imm0 as u64) << 32 | s.imm1 as u64);
            }
        }
        for r in self.rec.iter().chain(&self.recd) {
            for w in r.code.iter().chain(&r.code0) {
                bytes(h, w);
            }
            bytes(h, &r.rec);
            for x in [r.n, r.n0, r.has_rec as u64, r.rec_damaged as u64] {
                *h = fnv(*h, x);
            }
        }
        for x in self.versions_seen {
            *h = fnv(*h, x);
        }
        for m in self.msg.iter().chain(&self.msgd) {
            for x in m.w.iter().chain(&m.sent) {
                *h = fnv(*h, *x);
            }
            bytes(h, &[m.kind, m.set, m.taint]);
        }
    }
    /// Power is lost: what was not synced may or may not have reached the disk.
    pub fn crash(&mut self, seed: u64, torn: bool, counters: &mut [u64; 32]) {
        let mut rng = Rng::new(seed);
        for enc in 0..2u8 {
            let p = &mut self.page[enc as usize];
            for slot in 0..slots(enc) {
                let n = isz(enc);
                let (w, o) = (slot / per_word(enc), slot % per_word(enc));
                let differs = p.vol[w][o * n..o * n + n] != p.dur[w][o * n..o * n + n]
                    || p.sh[slot] != p.shd[slot];
                if !differs {
                    continue;
                }
                let kind = rng.below(if torn { 3 } else { 2 });
                match kind {
                    0 => {
                        counters[0] += 1; // lost
                        let d = p.dur[w];
                        p.vol[w][o * n..o * n + n].copy_from_slice(&d[o * n..o * n + n]);
                        p.sh[slot] = p.shd[slot];
                    }
                    1 => counters[1] += 1, // reached the disk after all
                    _ => {
                        counters[2] += 1; // torn
                        let cut = rng.below(n as u64) as usize;
                        let d = p.dur[w];
                        p.vol[w][o * n + cut..o * n + n].copy_from_slice(&d[o * n + cut..o * n + n]);
                        p.sh[slot].taint = 1;
                    }
                }
            }
            p.dur = p.vol;
            p.shd = p.sh;
        }
        for i in 0..RECS {
            // record and code are separate cells: each survives or not on its own
            let d = self.recd[i];
            let v = &mut self.rec[i];
            if rng.chance(1, 2) && (v.n != d.n || v.code != d.code) {
                // code words are lost from some point on
                let cut = rng.below(MAXCODE as u64 + 1) as usize;
                for k in cut..MAXCODE {
                    v.code[k] = d.code[k];
                }
                if cut == 0 {
                    v.n = d.n;
                }
                counters[3] += 1;
            }
            if rng.chance(1, 2) && v.rec != d.rec {
                if rng.chance(1, 3) {
                    let cut = rng.below(32) as usize;
                    v.rec[cut..].copy_from_slice(&d.rec[cut..]);
                    v.rec_damaged = 1;
                } else {
                    v.rec = d.rec;
                    v.has_rec = d.has_rec;
                    v.rec_damaged = 1;
                }
                counters[4] += 1;
            }
            self.recd[i] = self.rec[i];
        }
        for i in 0..MSGS {
            let d = self.msgd[i];
            if self.msg[i] != d {
                match rng.below(3) {
                    0 => {
                        self.msg[i] = d;
                        counters[28] += 1;
                    }
                    1 => {}
                    _ => {
                        let cut = rng.below(4) as usize;
                        self.msg[i].w[cut..].copy_from_slice(&d.w[cut..]);
                        self.msg[i].taint = 1;
                        counters[29] += 1;
                    }
                }
            }
        }
        self.msgd = self.msg;
    }
}
