//! Random number generators vs. the published algorithms.

use harness::*;
use osi::rng::{Mix64, SplitMix64, Xoshiro256pp};

/// SplitMix as published by Steele, Lea, and Flood.
#[derive(Clone, Copy)]
struct Split { s: u64, g: u64 }
impl Split {
    fn new(s: u64) -> Split { Split { s, g: 0x9e3779b97f4a7c15 } }
    fn seed(&mut self) -> u64 {
        self.s = self.s.wrapping_add(self.g);
        self.s
    }
    fn fmix(z: u64, a: u32, m: u64, b: u32, n: u64) -> u64 {
        let z = (z ^ (z >> a)).wrapping_mul(m);
        (z ^ (z >> b)).wrapping_mul(n)
    }
    fn next64(&mut self) -> u64 {
        let z = Self::fmix(self.seed(), 30, 0xbf58476d1ce4e5b9, 27, 0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn next32(&mut self) -> u32 { (Self::fmix(self.seed(), 33, 0x62a9d9ed799705f5, 28, 0xcb24d0a5c88c35b3) >> 32) as u32 }
    fn split(&mut self) -> Split {
        let s = self.next64();
        let z = Self::fmix(self.seed(), 33, 0xff51afd7ed558ccd, 33, 0xc4ceb9fe1a85ec53);
        let z = (z ^ (z >> 33)) | 1;
        let n = (z ^ (z >> 1)).count_ones();
        Split { s, g: if n < 24 { z ^ 0xaaaaaaaaaaaaaaaa } else { z } }
    }
}

/// xoshiro256++ 1.0 as published by Blackman and Vigna.
type Xo = [u64; 4];
fn xo_next(s: &mut Xo) -> u64 {
    let r = (s[0].wrapping_add(s[3])).rotate_left(23).wrapping_add(s[0]);
    xo_step(s);
    r
}
fn xo_step(s: &mut Xo) {
    let t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = s[3].rotate_left(45);
}

/// The linear step as a bit matrix; column i is the image of bit i. Powers of
/// it give jumps that do not depend on any precomputed polynomial.
type Mat = Vec<Xo>;
fn apply(m: &Mat, v: &Xo) -> Xo {
    let mut r = [0; 4];
    for i in 0..256 {
        if v[i / 64] >> (i % 64) & 1 == 1 {
            for k in 0..4 {
                r[k] ^= m[i][k];
            }
        }
    }
    r
}
fn power(log2: u32) -> Mat {
    let mut m: Mat = (0..256).map(|i| {
        let mut s = [0; 4];
        s[i / 64] = 1 << (i % 64);
        xo_step(&mut s);
        s
    }).collect();
    for _ in 0..log2 {
        m = m.iter().map(|c| apply(&m, c)).collect();
    }
    m
}

fn from_split(m: &mut Split) -> Xo {
    let s = [m.next64(), m.next64(), m.next64(), m.next64()];
    if s == [0; 4] { from_split(&mut Split::new(0)) } else { s }
}

fn seed(r: &mut Rng) -> u64 {
    match r.below(5) {
        // A few steps ahead of, or beyond, a special state.
        4 => r.edge64().wrapping_sub(0x9e3779b97f4a7c15u64.wrapping_mul(r.below(6) as u64)),
        0 => r.edge64(), 1 => r.below(5) as u64, 2 => 0u64.wrapping_sub(r.below(5) as u64), _ => r.u64() }
}

fn run(cx: &mut Ctx) {
    cx.section("mix", (100_000, 5_000_000, 0), |c| {
        let s = seed(&mut c.rng);
        let mut a = Mix64::with_seed(s);
        let mut m = Split::new(s);
        let copy = a;
        let mut trace = vec![];
        let mut splits: Vec<(SplitMix64, Split)> = vec![];
        match c.rng.below(3) {
            0 => splits.push((SplitMix64::with_seed(s), m)),
            1 => splits.push((SplitMix64::from_mix64(a), m)),
            _ => splits.push((SplitMix64::from(a), m)),
        }
        for _ in 0..c.rng.range(4, 24) {
            let op = c.rng.below(6) as u8;
            trace.push(op);
            let k = c.rng.below(splits.len());
            match op {
                0 => same!(a.next64(), m.next64(), "seed {s:#x}, {trace:?}: 64-bit output"),
                1 => same!(a.next32(), m.next32(), "seed {s:#x}, {trace:?}: 32-bit output"),
                2 => splits.push((a.split(), m.split())),
                3 => { let x = &mut splits[k]; same!(x.0.next64(), x.1.next64(), "seed {s:#x}, {trace:?}: 64-bit output of split {k}") },
                4 => { let x = &mut splits[k]; same!(x.0.next32(), x.1.next32(), "seed {s:#x}, {trace:?}: 32-bit output of split {k}") },
                _ => { let x = &mut splits[k]; let n = (x.0.split(), x.1.split()); splits.push(n) },
            }
            c.evals(1);
        }
        for (k, x) in splits.iter_mut().enumerate() {
            same!(x.0.next64(), x.1.next64(), "seed {s:#x}, {trace:?}: final output of split {k}");
        }
        same!(a.next64(), m.next64(), "seed {s:#x}, {trace:?}: final output");
        ensure!(copy == Mix64::with_seed(s), "copies are independent");
        c.count("splits", splits.len() as u64 - 1);
        c.observe(&(s, &trace));
        c.sample(|| format!("seed {s:#x}, operations {trace:?}"));
        Ok(())
    });
    let (j128, j192) = if cx.miri() { (vec![], vec![]) } else { (power(128), power(192)) };
    cx.section("xoshiro", (60_000, 3_000_000, 0), |c| {
        let r = &mut c.rng;
        let (mut a, mut m, what) = match r.below(4) {
            0 => {
                let s = [seed(r), seed(r), seed(r), seed(r)];
                let w = if s == [0; 4] { from_split(&mut Split::new(0)) } else { s };
                (Xoshiro256pp::with_seed(s), w, format!("seed {s:x?}"))
            },
            1 => {
                // Sparse seeds, often all zero.
                let mut s = [0; 4];
                for _ in 0..r.range(1, 2) {
                    s[r.below(4)] = match r.below(4) { 0 => 0, 1 => 1, 2 => r.edge64(), _ => 1 << r.below(64) };
                }
                let w = if s == [0; 4] { from_split(&mut Split::new(0)) } else { s };
                (Xoshiro256pp::with_seed(s), w, format!("seed {s:x?}"))
            },
            2 => {
                let s = seed(r);
                let (mut x, mut y) = (SplitMix64::with_seed(s), Split::new(s));
                if r.bool() {
                    (x, y) = (x.split(), y.split());
                }
                let a = Xoshiro256pp::from_splitmix64(&mut x);
                let w = from_split(&mut y);
                same!(x.next64(), y.next64(), "source generator after deriving from seed {s:#x}");
                (a, w, format!("derived from {s:#x}"))
            },
            _ => {
                let s = seed(r);
                (Xoshiro256pp::from(SplitMix64::with_seed(s)), from_split(&mut Split::new(s)), format!("converted from {s:#x}"))
            },
        };
        let mut trace = vec![];
        for _ in 0..r.range(2, 16) {
            let op = r.below(10) as u8;
            trace.push(op);
            match op {
                0 => { a.jump128(); m = apply(&j128, &m) },
                1 => { a.jump192(); m = apply(&j192, &m) },
                2 => { let b = a.clone(); ensure!(a == b, "clone differs"); },
                _ => same!(a.next64(), xo_next(&mut m), "{what}, {trace:?}: output"),
            }
            c.st.evaluations += 1;
        }
        let mut stuck = true;
        for _ in 0..4 {
            let v = a.next64();
            stuck &= v == 0;
            same!(v, xo_next(&mut m), "{what}, {trace:?}: final output");
        }
        ensure!(!stuck || what.contains("seed"), "{what}: stuck generator");
        c.observe(&(&what, &trace));
        c.sample(|| format!("{what}, {trace:?}"));
        Ok(())
    });
    // Seeds of a single bit.
    cx.exhaustive("bits", if cx.miri() { 0 } else { 256 }, |c| {
        let i = c.idx as usize;
        let mut s = [0; 4];
        s[i / 64] = 1 << (i % 64);
        let mut a = Xoshiro256pp::with_seed(s);
        let mut m = s;
        for k in 0..64 {
            same!(a.next64(), xo_next(&mut m), "output {k} of seed {s:x?}");
        }
        for (w, j) in [(128, &j128), (192, &j192)] {
            let mut a = Xoshiro256pp::with_seed(s);
            if w == 128 { a.jump128() } else { a.jump192() }
            ensure!(a == Xoshiro256pp::with_seed(apply(j, &s)), "jump {w} from seed {s:x?}");
        }
        let z = 1u64 << (i % 64);
        let (mut a, mut b) = (Mix64::with_seed(z), Split::new(z));
        let (mut x, mut y) = (a.split(), b.split());
        for k in 0..16 {
            same!((a.next64(), a.next32()), (b.next64(), b.next32()), "outputs {k} of seed {z:#x}");
            same!((x.next64(), x.next32()), (y.next64(), y.next32()), "outputs {k} of a split of seed {z:#x}");
        }
        c.evals(64 + 2 + 64);
        c.observe(&("bit", i));
        Ok(())
    });
    // The all-zero seed is never stuck.
    cx.section("zero", (4, 4, 0), |c| {
        let mut a = Xoshiro256pp::with_seed([0; 4]);
        let v: Vec<u64> = (0..1000).map(|_| a.next64()).collect();
        let d: std::collections::HashSet<u64> = v.iter().copied().collect();
        ensure!(d.len() > 990, "all-zero seed gives only {} values in 1000", d.len());
        ensure!(a != Xoshiro256pp::with_seed([0; 4]), "state does not advance");
        c.observe(&v);
        Ok(())
    });
    // Long sequences.
    cx.section("long", (16, 64, 0), |c| {
        let s = seed(&mut c.rng);
        let (mut a, mut b) = (SplitMix64::with_seed(s).split(), Split::new(s).split());
        let mut x = Xoshiro256pp::with_seed([s, 1, 2, 3]);
        let mut y = [s, 1, 2, 3];
        for i in 0..100_000 {
            same!(a.next64(), b.next64(), "split output {i} of seed {s:#x}");
            same!(x.next64(), xo_next(&mut y), "shift output {i} of seed {s:#x}");
        }
        c.evals(200_000);
        c.observe(&("long", s));
        Ok(())
    });
}

fn main() {
    harness::main(
        "C13",
        "A case is one seed with a random interleaving of draws, splits and jumps; distinct = distinct (seed, operations).",
        run,
    );
}
