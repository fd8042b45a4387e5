//! SHA-256, written for the oracle of C11 (independent of the sha2 stand-in the crate uses).
pub fn sha256(data: &[u8]) -> [u8; 32] {
    let k = constants();
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab,
        0x5be0cd19,
    ];
    let mut m = data.to_vec();
    let bits = (data.len() as u64) * 8;
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&bits.to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(c[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let a = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let b = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(a).wrapping_add(w[i - 7]).wrapping_add(b);
        }
        let mut s = h;
        for i in 0..64 {
            let e1 = s[4].rotate_right(6) ^ s[4].rotate_right(11) ^ s[4].rotate_right(25);
            let ch = (s[4] & s[5]) ^ (!s[4] & s[6]);
            let t1 = s[7].wrapping_add(e1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let e0 = s[0].rotate_right(2) ^ s[0].rotate_right(13) ^ s[0].rotate_right(22);
            let maj = (s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]);
            let t2 = e0.wrapping_add(maj);
            s = [t1.wrapping_add(t2), s[0], s[1], s[2], s[3].wrapping_add(t1), s[4], s[5], s[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(s[i]);
        }
    }
    let mut o = [0u8; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
/// fractional parts of the cube roots of the first 64 primes, computed with integers
fn constants() -> [u32; 64] {
    static K: std::sync::OnceLock<[u32; 64]> = std::sync::OnceLock::new();
    *K.get_or_init(|| {
        let mut k = [0u32; 64];
        let mut n = 0;
        let mut p: u128 = 2;
        while n < 64 {
            if (2..p).take_while(|d| d * d <= p).all(|d| p % d != 0) {
                // floor(cbrt(p) * 2^32): largest x with x^3 <= p * 2^96
                let target = p << 96; // p < 2^9, fits
                let (mut lo, mut hi) = (0u128, 1u128 << 36);
                while lo + 1 < hi {
                    let mid = (lo + hi) / 2;
                    // mid < 2^36, mid^3 < 2^108
                    if mid * mid * mid <= target {
                        lo = mid
                    } else {
                        hi = mid
                    }
                }
                k[n] = lo as u32;
                n += 1;
            }
            p += 1;
        }
        k
    })
}
#[cfg(test)]
mod t {
    #[test]
    fn abc() {
        assert_eq!(super::sha256(b"abc")[..4], [0xba, 0x78, 0x16, 0xbf]);
    }
}
