//! Shared helpers: the one PRNG, hashing, JSON writing.
#![allow(dead_code)]

#[derive(Clone)]
pub struct Rng {
    s: u64,
    /// draws left until one is changed (see `twisted`), and how
    left: u32,
    with: u64,
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng { s: seed ^ 0x9E37_79B9_7F4A_7C15, left: 0, with: 0 }
    }
    /// splitmix64
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let v = mix(self.s);
        if self.left > 0 {
            self.left -= 1;
            if self.left == 0 {
                return v ^ self.with;
            }
        }
        v
    }
    /// the stream of `seed` with one draw changed: what is generated from it differs from what
    /// that seed generates in one respect only (or not at all)
    pub fn twisted(seed: u64, t: &mut Rng) -> Rng {
        let left = match t.below(3) {
            0 => 1 + t.below(4),
            1 => 1 + t.below(12),
            _ => 1 + t.below(30),
        } as u32;
        let with = if t.chance(1, 3) { 1u64 << t.below(64) } else { t.next() };
        Rng { left, with, ..Rng::new(seed) }
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn derive(seed: u64, stream: u64, i: u64) -> u64 {
    mix(mix(seed.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ mix(stream)) ^ i)
}
pub fn fnv(h: u64, x: u64) -> u64 {
    mix((h ^ x).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23))
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Integer literals appearing in the sources under test: extra values the generators may use
/// as operands. They only add inputs; no verdict depends on them.
pub fn source_dictionary(root: &str) -> Vec<u64> {
    let mut files = vec![];
    let mut dirs = vec![std::path::PathBuf::from(root)];
    while let Some(d) = dirs.pop() {
        if let Ok(rd) = std::fs::read_dir(&d) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    dirs.push(p)
                } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                    files.push(p)
                }
            }
        }
    }
    files.sort();
    let mut out = std::collections::BTreeSet::new();
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i].is_ascii_digit()
                && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_'))
            {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                    j += 1
                }
                let mut t: String = text[i..j].replace('_', "").to_lowercase();
                for s in ["usize", "u128", "u64", "u32", "u16", "u8", "i64", "i32"] {
                    if let Some(x) = t.strip_suffix(s) {
                        t = x.to_string();
                        break;
                    }
                }
                let v = if let Some(h) = t.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).ok()
                } else if let Some(h) = t.strip_prefix("0b") {
                    u64::from_str_radix(h, 2).ok()
                } else {
                    t.parse::<u64>().ok()
                };
                if let Some(v) = v {
                    if v > 2 {
                        out.insert(v);
                    }
                }
                i = j;
            } else {
                i += 1
            }
        }
    }
    out.into_iter().collect()
}
