//! HMAC-SHA-256: any key, any message, any chunking, reuse.

use harness::*;
use osi::hmac::{Hmac, HmacSha256};

/// A transparent toy hash with a small state and 16-byte chunks, to drive the
/// generic construction with other sizes. Its digest is a function of the
/// entire input.
#[derive(Clone, Default)]
struct Toy(Vec<u8>);

fn toy(v: &[u8]) -> [u8; 5] { refimpl::sha256(v)[..5].try_into().unwrap() }

impl osi::hash::Engine for Toy {
    type Hash = osi::hash::Hash<5>;
    fn is_reset(&self) -> bool { self.0.is_empty() }
    fn reset(&mut self) { self.0.clear() }
    fn push(&mut self, d: &[u8]) { self.0.extend_from_slice(d) }
    fn finalize(&mut self) -> Self::Hash {
        let h = toy(&self.0);
        self.0.clear();
        osi::hash::Hash(h)
    }
}

fn toy_hmac(chunk: usize, key: &[u8], msg: &[u8]) -> [u8; 5] {
    let mut k = if key.len() > chunk { toy(key).to_vec() } else { key.to_vec() };
    k.resize(chunk, 0);
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend_from_slice(msg);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend_from_slice(&toy(&i));
    toy(&o)
}

fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(5) {
        0 => vec![0; n],
        1 => vec![*r.pick(&[0x36u8, 0x5c, 0xff, 0x80]); n],
        2 => {
            let mut v = r.bytes(n);
            let k = r.below(n + 1);
            v[k..].fill(0);
            v
        },
        _ => r.bytes(n),
    }
}

macro_rules! drive {
    ($r:expr, $e:expr, $msg:expr, $trace:expr) => {{
        let (r, e, msg): (&mut Rng, _, &[u8]) = ($r, $e, $msg);
        let mut i = 0;
        while i < msg.len() || r.chance(1, 6) {
            let n = match r.below(5) {
                0 => 0,
                1 => 1,
                2 => r.below(65),
                3 => r.below(200),
                _ => msg.len() - i,
            }
            .min(msg.len() - i);
            let z = msg[i..].iter().take_while(|b| **b == 0).count();
            if (z > 0 || n == 0) && r.bool() {
                let n = n.min(z);
                e.push_zero(n);
                $trace.push(n as u32 | 1 << 31);
                i += n;
            } else {
                e.push(&msg[i..i + n]);
                $trace.push(n as u32);
                i += n;
            }
        }
    }};
}

fn run(cx: &mut Ctx) {
    cx.section("selftest", (1, 1, 1), |_| {
        // RFC 4231 test cases 1, 2 and 6.
        same!(refimpl::hex(&refimpl::hmac_sha256(&[0x0b; 20], b"Hi There")),
            "b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7", "reference");
        same!(refimpl::hex(&refimpl::hmac_sha256(b"Jefe", b"what do ya want for nothing?")),
            "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843", "reference");
        same!(refimpl::hex(&refimpl::hmac_sha256(&[0xaa; 131], b"Test Using Larger Than Block-Size Key - Hash Key First")),
            "60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54", "reference");
        Ok(())
    });
    // Every key length against every message length mod 64 around block borders.
    let n = if cx.thorough() { 600 } else { 300 };
    cx.exhaustive("keys", n, |c| {
        let key = bytes(&mut c.rng, c.idx as usize);
        let mut e = HmacSha256::new(&key);
        for len in 0..=200usize {
            let msg = bytes(&mut c.rng, len);
            let want = refimpl::hmac_sha256(&key, &msg);
            e.push(&msg);
            same!(e.finalize().0, want, "reused engine, key length {}, message length {}", key.len(), len);
            let mut f = HmacSha256::with_engine(&key, Default::default());
            f.push(&msg);
            same!(f.finalize().0, want, "fresh engine, key length {}, message length {}", key.len(), len);
            c.observe(&(key.len(), len));
        }
        c.evals(400);
        c.count("codes", 402);
        Ok(())
    });
    cx.section("histories", (80_000, 400_000, 5), |c| {
        let r = &mut c.rng;
        let n = *r.pick(&[0, 1, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 200, 1000]);
        let n = if r.bool() { n } else { r.below(140) };
        let n = if !cfg!(miri) && r.chance(1, 400) { *r.pick(&[1023usize, 1024, 1025, 4096, 5000, 8192, 65_535, 65_536, 70_000, 1 << 20]) + r.below(2) } else { n };
        let key = bytes(r, n);
        let mut e = HmacSha256::new(&key);
        let mut trace = vec![n as u32];
        let mut codes = 0;
        for _ in 0..r.ops(6) {
            let n = r.len(600);
            let msg = bytes(r, n);
            drive!(r, &mut e, &msg, trace);
            if r.chance(1, 4) {
                e.reset();
                trace.push(1 << 30);
                continue;
            }
            let h = e.finalize();
            let want = refimpl::hmac_sha256(&key, &msg);
            same!(h.0, want, "key {} message {}", show(&key), show(&msg));
            same!(h.to_hex(), refimpl::hex(&want), "hex form");
            codes += 1;
        }
        c.count("codes", codes);
        c.observe(&trace);
        c.sample(|| format!("key length and push sizes {:?}", trace));
        Ok(())
    });
    // Long messages, in one piece, in many, and as zero-fill.
    cx.section("long", (120, 1_500, 0), |c| {
        let r = &mut c.rng;
        let k = if r.chance(1, 8) { *r.pick(&[1024usize, 5000, 65_536, 300_000]) } else { r.below(200) };
        let key = bytes(r, k);
        let n = *r.pick(&[4095usize, 4096, 4097, 8192, 65535, 65536, 65537, 200_000, 1 << 20]) + r.below(3);
        let zero = r.chance(1, 3);
        let msg = if zero { vec![0; n] } else { bytes(r, n) };
        let want = refimpl::hmac_sha256(&key, &msg);
        let mut e = HmacSha256::new(&key);
        if zero { e.push_zero(n) } else { e.push(&msg) }
        same!(e.finalize().0, want, "one piece, key length {k}, message length {n}");
        let mut i = 0;
        let mut pieces = 0u32;
        while i < n {
            let m = if r.bool() { r.range(1, 9000) } else { r.range(1, 64) * 64 }.min(n - i);
            if zero && r.bool() { e.push_zero(m) } else { e.push(&msg[i..i + m]) }
            i += m;
            pieces += 1;
        }
        same!(e.finalize().0, want, "{pieces} pieces, key length {k}, message length {n}");
        c.count("codes", 2);
        c.observe(&(k, n, pieces));
        Ok(())
    });
    // Single pushes of many megabytes.
    if !cx.miri() {
        cx.exhaustive("bulk", if cx.thorough() { 16 } else { 2 }, |c| {
            let r = &mut c.rng;
            let n = (1usize << (24 - c.idx % 2)) + r.below(130);
            let (key, msg) = (r.bytes(20), r.bytes(n));
            let mut e = HmacSha256::new(&key);
            e.push(&msg);
            same!(e.finalize().0, refimpl::hmac_sha256(&key, &msg), "one piece of {n} bytes");
            e.push_zero(n);
            same!(e.finalize().0, refimpl::hmac_sha256(&key, &vec![0; n]), "zero-fill of {n} bytes");
            c.count("codes", 2);
            c.observe(&("bulk", n));
            Ok(())
        });
    }
    // The construction with other chunk and digest sizes.
    cx.section("generic", (20_000, 60_000, 2), |c| {
        let r = &mut c.rng;
        let n = match r.below(4) {
            0 => *r.pick(&[63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 299, 300, 301, 500]),
            1 => r.below(400),
            _ => r.below(40),
        };
        let key = bytes(r, n);
        // Chunks larger than those of the common digests.
        let mut d: Hmac<128, Toy> = Hmac::new(&key);
        let mut f: Hmac<300, Toy> = Hmac::with_engine(&key, Toy::default());
        let mut g: Hmac<5, Toy> = Hmac::new(&key);
        let mut a: Hmac<16, Toy> = Hmac::new(&key);
        let mut b: Hmac<9, Toy> = Hmac::with_engine(&key, Toy::default());
        let mut trace = vec![n as u32];
        for _ in 0..r.range(1, 4) {
            let n = if r.chance(1, 4) { r.below(700) } else { r.below(50) };
            let n = if !cfg!(miri) && r.chance(1, 60) { *r.pick(&[1000usize, 1024, 2000, 4096, 5000, 70_000]) } else { n };
            let msg = if n > 700 && r.bool() { vec![0; n] } else { bytes(r, n) };
            drive!(r, &mut a, &msg, trace);
            drive!(r, &mut b, &msg, trace);
            drive!(r, &mut d, &msg, trace);
            drive!(r, &mut f, &msg, trace);
            drive!(r, &mut g, &msg, trace);
            if r.chance(1, 4) {
                a.reset();
                b.reset();
                d.reset();
                f.reset();
                g.reset();
                continue;
            }
            same!(a.finalize().0, toy_hmac(16, &key, &msg), "chunk 16, key {}", show(&key));
            same!(b.finalize().0, toy_hmac(9, &key, &msg), "chunk 9, key {}", show(&key));
            same!(d.finalize().0, toy_hmac(128, &key, &msg), "chunk 128, key {}", show(&key));
            same!(f.finalize().0, toy_hmac(300, &key, &msg), "chunk 300, key {}", show(&key));
            same!(g.finalize().0, toy_hmac(5, &key, &msg), "chunk 5, key {}", show(&key));
        }
        c.observe(&trace);
        Ok(())
    });
}

fn main() {
    harness::main(
        "C05",
        "A case is one keyed engine history (key length and content, messages, push/zero-fill split, resets); distinct = distinct (key length, push sizes); every case compares codes with an independent HMAC.",
        run,
    );
}
