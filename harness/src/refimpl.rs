//! Independent reference implementations shared by several monitors.

const fn frac_root(p: u64, cube: bool) -> u32 {
    // floor(frac(p^(1/2 or 1/3)) * 2^32) by integer search.
    let (mut lo, mut hi) = (0u128, 1u128 << 36);
    while lo + 1 < hi {
        let m = (lo + hi) / 2;
        let ok = if cube {
            // m^3 <= p * 2^96; m < 2^36 -> m^3 < 2^108
            m * m * m <= (p as u128) << 96
        } else {
            m * m <= (p as u128) << 64
        };
        if ok { lo = m } else { hi = m }
    }
    lo as u32
}

fn primes() -> [u64; 64] {
    let mut v = [0; 64];
    let (mut n, mut c) = (0, 2u64);
    while n < 64 {
        if (2..c).take_while(|d| d * d <= c).all(|d| c % d != 0) {
            v[n] = c;
            n += 1;
        }
        c += 1;
    }
    v
}

/// SHA-256 per FIPS 180-4, on a complete message. The round constants are
/// derived from primes rather than copied.
pub fn sha256(msg: &[u8]) -> [u8; 32] {
    use std::sync::OnceLock;
    static K: OnceLock<([u32; 64], [u32; 8])> = OnceLock::new();
    let (k, h0) = K.get_or_init(|| {
        let p = primes();
        let mut k = [0; 64];
        let mut h = [0; 8];
        for i in 0..64 {
            k[i] = frac_root(p[i], true);
        }
        for i in 0..8 {
            h[i] = frac_root(p[i], false);
        }
        (k, h)
    });
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u64) * 8).to_be_bytes());
    let mut h = *h0;
    for b in m.chunks(64) {
        let mut w = [0u32; 64];
        for t in 0..64 {
            w[t] = if t < 16 {
                u32::from_be_bytes([b[4 * t], b[4 * t + 1], b[4 * t + 2], b[4 * t + 3]])
            } else {
                let a = w[t - 15];
                let c = w[t - 2];
                let s0 = a.rotate_right(7) ^ a.rotate_right(18) ^ (a >> 3);
                let s1 = c.rotate_right(17) ^ c.rotate_right(19) ^ (c >> 10);
                s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16])
            };
        }
        let mut s = h;
        for t in 0..64 {
            let e = s[4];
            let a = s[0];
            let t1 = s[7]
                .wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25))
                .wrapping_add((e & s[5]) ^ (!e & s[6]))
                .wrapping_add(k[t])
                .wrapping_add(w[t]);
            let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22))
                .wrapping_add((a & s[1]) ^ (a & s[2]) ^ (s[1] & s[2]));
            s = [t1.wrapping_add(t2), s[0], s[1], s[2], s[3].wrapping_add(t1), s[4], s[5], s[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(s[i]);
        }
    }
    let mut o = [0; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}

pub fn hmac_sha256(key: &[u8], msg: &[u8]) -> [u8; 32] {
    let mut k = if key.len() > 64 { sha256(key).to_vec() } else { key.to_vec() };
    k.resize(64, 0);
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend_from_slice(msg);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend_from_slice(&sha256(&i));
    sha256(&o)
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|b| format!("{b:02x}")).collect() }
