//! SHA-256: digest, chunking, reuse.

use harness::*;
use osi::hash::sha256::Engine;
use osi::hash::Engine as _;

fn check(h: &osi::hash::Hash<32>, want: &[u8; 32], what: &str) -> R {
    same!(h.as_bytes(), want, "{what}: digest");
    same!(h.0, *want, "{what}: digest field");
    same!(h.to_hex(), refimpl::hex(want), "{what}: hex form");
    Ok(())
}

/// An engine that keeps the data and relies on the trait for zero-filling.
struct Plain(Vec<u8>);
impl osi::hash::Engine for Plain {
    type Hash = osi::hash::Hash<8>;
    fn is_reset(&self) -> bool { self.0.is_empty() }
    fn reset(&mut self) { self.0.clear() }
    fn push(&mut self, d: &[u8]) { self.0.extend_from_slice(d) }
    fn finalize(&mut self) -> Self::Hash {
        let h = (self.0.len() as u64).to_be_bytes();
        self.0.clear();
        osi::hash::Hash(h)
    }
}

fn message(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(6) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| i as u8).collect(),
        3 => vec![0x80; n],
        _ => r.bytes(n),
    }
}

/// Push `msg` in random pieces; zero runs may be pushed as zero-fill.
fn push(r: &mut Rng, e: &mut Engine, msg: &[u8], max: usize, trace: &mut Vec<u32>) {
    let mut i = 0;
    while i < msg.len() || r.chance(1, 8) {
        let n = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => 64 - (i % 64),
            3 => r.below(65),
            4 => r.below(max.max(1)),
            _ => msg.len() - i,
        }
        .min(msg.len() - i);
        let z = msg[i..].iter().take_while(|b| **b == 0).count();
        if z > 0 && r.bool() {
            let n = n.min(z);
            e.push_zero(n);
            trace.push(n as u32 | 1 << 31);
            i += n;
        } else {
            e.push(&msg[i..i + n]);
            trace.push(n as u32);
            i += n;
        }
    }
}

fn run(cx: &mut Ctx) {
    cx.section("selftest", (1, 1, 1), |_| {
        same!(refimpl::hex(&refimpl::sha256(b"abc")),
            "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad", "reference");
        same!(refimpl::hex(&refimpl::sha256(b"")),
            "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", "reference");
        Ok(())
    });
    // Every length, one-shot, zero-fill only, and split at every position mod 64.
    let n = if cx.thorough() { 4200 } else { 1100 };
    cx.exhaustive("lengths", n, |c| {
        let n = c.idx as usize;
        let msg = message(&mut c.rng, n);
        let want = refimpl::sha256(&msg);
        check(&osi::hash::hash::<Engine>(&msg), &want, "one shot")?;
        let mut e = Engine::default();
        ensure!(e.is_reset(), "fresh engine not reset");
        e.push(&msg);
        same!(e.is_reset(), n == 0, "is_reset after pushing {n} bytes");
        check(&e.finalize(), &want, "push")?;
        ensure!(e.is_reset(), "not reset after finalize");
        let zero = refimpl::sha256(&vec![0; n]);
        e.push_zero(n);
        same!(e.is_reset(), n == 0, "is_reset after zero-filling {n} bytes");
        check(&e.finalize(), &zero, "zero-fill of reused engine")?;
        let top = n.min(200);
        for s in 0..=top {
            let mut e = Engine::default();
            e.push(&msg[..s]);
            e.push(&msg[s..]);
            check(&e.finalize(), &want, "two pieces")?;
            let mut m2 = msg.clone();
            m2[s..].fill(0);
            let w2 = refimpl::sha256(&m2);
            e.push(&m2[..s]);
            e.push_zero(n - s);
            check(&e.finalize(), &w2, "data then zero-fill")?;
            m2.copy_from_slice(&msg);
            m2[..s].fill(0);
            let w3 = refimpl::sha256(&m2);
            e.push_zero(s);
            e.push(&m2[s..]);
            check(&e.finalize(), &w3, "zero-fill then data")?;
            c.observe(&("len", n, s));
        }
        c.evals(3 * top as u64);
        c.count("digests", 3 + 3 * top as u64);
        Ok(())
    });
    // Histories: reuse, reset, clone, partial data discarded.
    cx.section("histories", (20_000, 400_000, 6), |c| {
        let r = &mut c.rng;
        let mut e = Engine::default();
        let mut trace = vec![];
        let mut digests = 0;
        for _ in 0..r.ops(5) {
            let n = r.len(700);
            let msg = message(r, n);
            match r.below(5) {
                0 => {
                    push(r, &mut e, &msg, 130, &mut trace);
                    e.reset();
                    ensure!(e.is_reset(), "not reset after reset");
                    trace.push(1 << 30);
                },
                1 => {
                    let s = r.below(n + 1);
                    push(r, &mut e, &msg[..s], 130, &mut trace);
                    let mut f = e.clone();
                    push(r, &mut f, &msg[s..], 130, &mut trace);
                    check(&f.finalize(), &refimpl::sha256(&msg), "cloned engine")?;
                    let n2 = r.len(200);
                    let other = message(r, n2);
                    push(r, &mut e, &other, 130, &mut trace);
                    let mut all = msg[..s].to_vec();
                    all.extend_from_slice(&other);
                    check(&e.finalize(), &refimpl::sha256(&all), "engine after being cloned")?;
                    digests += 2;
                },
                2 => {
                    // through the trait object
                    let d: &mut dyn osi::hash::Engine<Hash = osi::hash::Hash<32>> = &mut e;
                    d.push(&msg);
                    check(&d.finalize(), &refimpl::sha256(&msg), "trait object")?;
                    digests += 1;
                },
                _ => {
                    push(r, &mut e, &msg, 130, &mut trace);
                    same!(e.is_reset(), msg.is_empty(), "is_reset with {} bytes queued", n);
                    check(&e.finalize(), &refimpl::sha256(&msg), "history")?;
                    ensure!(e.is_reset(), "not reset after finalize");
                    digests += 1;
                },
            }
        }
        c.count("digests", digests);
        c.observe(&trace);
        c.sample(|| format!("push sizes {:?}", trace));
        Ok(())
    });
    // Long messages, in one piece, in many, and as zero-fill.
    cx.section("long", (150, 2_000, 0), |c| {
        let r = &mut c.rng;
        let n = *r.pick(&[4095usize, 4096, 4097, 8192, 65535, 65536, 65537, 200_000, 1 << 20]) + r.below(130);
        let msg = message(r, n);
        let want = refimpl::sha256(&msg);
        check(&osi::hash::hash::<Engine>(&msg), &want, "one shot")?;
        let mut e = Engine::default();
        let mut trace = vec![];
        push(r, &mut e, &msg, 20_000, &mut trace);
        check(&e.finalize(), &want, "pieces of a long message")?;
        // Some data, a long zero run, some data.
        let (a, b) = (r.below(200), r.below(200));
        let mut m2 = msg[..a].to_vec();
        m2.resize(a + n, 0);
        m2.extend_from_slice(&msg[n - b..]);
        e.push(&msg[..a]);
        e.push_zero(n);
        e.push(&msg[n - b..]);
        check(&e.finalize(), &refimpl::sha256(&m2), "zero run between data")?;
        c.count("digests", 3);
        c.observe(&trace);
        Ok(())
    });
    // Engines that leave zero-filling to the trait receive every zero.
    cx.section("generic", (3_000, 40_000, 2), |c| {
        let r = &mut c.rng;
        let mut t = Plain(vec![]);
        let mut want = vec![];
        let mut trace = vec![];
        for _ in 0..r.range(1, 6) {
            // Small sizes, powers of two and multiples thereof, and neighbours.
            let n = match r.below(4) {
                0 => r.below(400),
                1 => { let k = if r.chance(1, 20) { 21 } else { 15 }; (1usize << r.below(k)) * r.range(1, 3) },
                2 => *r.pick(&[383, 384, 385, 1000, 5000, 10_000, 12_288]),
                _ => (1usize << r.below(15)) + r.below(3) - 1,
            };
            trace.push(n);
            if r.chance(2, 3) {
                osi::hash::Engine::push_zero(&mut t, n);
                want.resize(want.len() + n, 0);
            } else {
                let d = r.bytes(n);
                osi::hash::Engine::push(&mut t, &d);
                want.extend_from_slice(&d);
            }
        }
        same!(osi::hash::Engine::finalize(&mut t).0, (want.len() as u64).to_be_bytes(), "bytes received for pushes of {trace:?}");
        osi::hash::Engine::push_zero(&mut t, trace[0]);
        ensure!(t.0 == vec![0; trace[0]], "zero-fill of {} bytes", trace[0]);
        let mut t = Plain(vec![]);
        for (i, n) in trace.iter().enumerate() {
            if i % 2 == 0 { osi::hash::Engine::push_zero(&mut t, *n) } else { osi::hash::Engine::push(&mut t, &vec![1; *n]) }
        }
        let want: Vec<u8> = trace.iter().enumerate().flat_map(|(i, n)| vec![(i % 2) as u8; *n]).collect();
        ensure!(t.0 == want, "contents received for pushes of {trace:?}");
        // The hexadecimal form of digests of other sizes.
        let d = r.bytes(64);
        let (a, b, e): ([u8; 1], [u8; 20], [u8; 64]) = (d[..1].try_into().unwrap(), d[..20].try_into().unwrap(), d[..].try_into().unwrap());
        same!(osi::hash::Hash(a).to_hex(), refimpl::hex(&a), "hex form of 1 byte");
        same!(osi::hash::Hash(b).to_hex(), refimpl::hex(&b), "hex form of 20 bytes");
        same!(osi::hash::Hash(e).to_hex(), refimpl::hex(&e), "hex form of 64 bytes");
        same!(osi::hash::Hash([]).to_hex(), "", "hex form of nothing");
        c.observe(&("generic", trace));
        Ok(())
    });
    // Single pushes of many megabytes.
    if !cx.miri() {
        cx.exhaustive("bulk", if cx.thorough() { 24 } else { 3 }, |c| {
            let r = &mut c.rng;
            let n = (1usize << (22 + c.idx % 3)) * r.range(1, 2) + r.below(130);
            let msg = message(r, n);
            let want = refimpl::sha256(&msg);
            let mut e = Engine::default();
            e.push(&msg);
            check(&e.finalize(), &want, "one large piece")?;
            let k = r.below(300);
            e.push(&msg[..k]);
            e.push(&msg[k..]);
            check(&e.finalize(), &want, "one large piece after a small one")?;
            c.count("digests", 2);
            c.observe(&("bulk", n, k));
            Ok(())
        });
    }
    // Message bit lengths that do not fit 32 bits.
    if !cx.miri() {
        let n = if cx.thorough() { BIG.len() } else { 2 };
        cx.exhaustive("huge", n as u64, |c| {
            let (n, want) = BIG[c.idx as usize];
            let mut e = Engine::default();
            let mut left = n;
            let step = if c.idx % 2 == 0 { u64::MAX } else { 1 << 28 };
            while left > 0 {
                let k = left.min(step);
                e.push_zero(k as usize);
                left -= k;
            }
            same!(e.finalize().to_hex(), want, "{n} zero bytes");
            c.count("digests", 1);
            c.observe(&("huge", n));
            Ok(())
        });
    }
}

/// SHA-256 of `n` zero bytes, computed with sha256sum(1).
const BIG: &[(u64, &str)] = &[
    (536870911, "bf7f45d9df691bd277948d7f124b87a9f76e16ddb5d8fb25a49df939798f0a01"),
    (536870912, "9acca8e8c22201155389f65abbf6bc9723edc7384ead80503839f49dcc56d767"),
    (536870967, "ceaa6c09561edc188572c426a24911aec9ae03aff26bc516f30aee86a9cccb1b"),
    (536870976, "51df6411706d1846c60e57890df09562e91bbbc55b92bdd29b5f2062e25868a4"),
    (4294967296, "8479e43911dc45e89f934fe48d01297e16f51d17aa561d4d1c216b1ae0fcddca"),
    (4294967359, "4920d4a84d1ed1b5e8d9eb6c628ea2774c46aff5ff565b9414aac1ee2f379291"),
    
];

fn main() {
    harness::main(
        "C04",
        "A case is one engine history (message lengths, contents, push/zero-fill split, reset, clone); distinct = distinct sequence of push sizes, every case compares at least one digest with an independent SHA-256.",
        run,
    );
}
