//! Tagged, copyable and identity pointers.

use harness::*;
use osi::cmp::Identity;
use osi::ptr::{NonNull4, Ptr};
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::ptr::NonNull;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
fn hashed<T: Hash + ?Sized>(v: &T) -> Vec<u8> {
    let mut h = Rec::default();
    v.hash(&mut h);
    h.0
}

fn state<T>(v: &NonNull4<T>, p: NonNull<T>, tag: usize, trace: &[u8]) -> R {
    same!(v.ptr(), p, "address after {trace:?}");
    same!(v.meta(), tag, "tag after {trace:?}");
    same!((v.get0(), v.get1()), (tag & 1 != 0, tag & 2 != 0), "tag bits after {trace:?}");
    same!((v.meta_bit(0), v.meta_bit(1)), (tag & 1 != 0, tag & 2 != 0), "tag bits after {trace:?}");
    let w = unsafe { NonNull4::new_unchecked(v.ptr()) };
    same!((w.ptr(), w.meta()), (p, 0), "fresh pointer after {trace:?}");
    Ok(())
}

/// Apply random updates; `next` yields aligned pointers.
fn updates<T>(c: &mut Case, first: NonNull<T>, next: &mut dyn FnMut(&mut Rng) -> NonNull<T>) -> Result<Vec<u8>, String> {
    let Some(mut v) = NonNull4::new(first) else { return Err(format!("aligned address {first:?} refused")) };
    let (mut p, mut tag) = (first, 0usize);
    let mut trace = vec![];
    state(&v, p, tag, &trace)?;
    for _ in 0..c.rng.range(1, 16) {
        let op = c.rng.below(6) as u8;
        trace.push(op);
        match op {
            0 => {
                p = next(&mut c.rng);
                unsafe { v.set_ptr_unchecked(p) };
            },
            1 => {
                let m = match c.rng.below(3) { 0 => c.rng.below(4), 1 => c.rng.edge64() as usize, _ => c.rng.u64() as usize };
                v.set_meta(m);
                tag = m & 3;
            },
            2 => {
                let b = c.rng.below(2) as u8;
                let f = c.rng.bool();
                v.set_meta_bit(b, f);
                tag = tag & !(1 << b) | (f as usize) << b;
            },
            3 => { let f = c.rng.bool(); v.set0(f); tag = tag & !1 | f as usize; },
            4 => { let f = c.rng.bool(); v.set1(f); tag = tag & !2 | (f as usize) << 1; },
            _ => {
                // Bits beyond the tag are ignored.
                let b = c.rng.range(2, usize::BITS as usize - 1) as u8;
                let f = c.rng.bool();
                v.set_meta_bit(b, f);
                ensure!(!v.meta_bit(b), "bit {b} reads as set");
            },
        }
        trace.push(tag as u8);
        state(&v, p, tag, &trace)?;
        c.evals(1);
    }
    Ok(trace)
}

fn run(cx: &mut Ctx) {
    // Tagged pointers into live memory; dereference through them.
    cx.section("tagged", (60_000, 3_000_000, 24), |c| {
        let mut mem: Vec<u32> = (0..8u32).map(|v| v * 0x01010101).collect();
        let base = NonNull::new(mem.as_mut_ptr()).unwrap();
        let first = unsafe { base.add(c.rng.below(8)) };
        let t = updates(c, first, &mut |r| unsafe { base.add(r.below(8)) })?;
        let mut v = NonNull4::new(first).unwrap();
        for tag in 0..4 {
            v.set_meta(tag);
            let k = unsafe { first.offset_from(base) } as u32;
            same!(unsafe { v.ptr().read() }, k * 0x01010101, "load through a tagged pointer");
            unsafe { v.ptr().write(k * 0x01010101) };
        }
        // Equality, order, and hash follow (address, tag).
        let (mut a, mut b) = (NonNull4::new(first).unwrap(), NonNull4::new(unsafe { base.add(c.rng.below(8)) }).unwrap());
        a.set_meta(c.rng.below(4));
        b.set_meta(c.rng.below(4));
        let (ka, kb) = ((a.ptr(), a.meta()), (b.ptr(), b.meta()));
        same!(a == b, ka == kb, "equality of tagged pointers");
        same!(a.cmp(&b), ka.cmp(&kb), "order of tagged pointers");
        if ka == kb {
            same!(hashed(&a), hashed(&b), "hash of tagged pointers");
        }
        c.observe(&t);
        c.sample(|| format!("updates {t:?}"));
        Ok(())
    });
    // Acceptance and updates over the whole address range, never dereferenced.
    cx.section("addresses", (60_000, 3_000_000, 16), |c| {
        let any = |r: &mut Rng| {
            let a = match r.below(4) { 0 => r.below(40), 1 => usize::MAX - r.below(40), 2 => r.edge64() as usize, _ => r.u64() as usize };
            a.max(1)
        };
        let a = any(&mut c.rng);
        let p = NonNull::new(std::ptr::without_provenance_mut::<u8>(a)).unwrap();
        same!(NonNull4::new(p).is_some(), a % 4 == 0, "acceptance of address {a:#x}");
        let al = (a & !3).max(4);
        let p = NonNull::new(std::ptr::without_provenance_mut::<u8>(al)).unwrap();
        let t = updates(c, p, &mut |r| NonNull::new(std::ptr::without_provenance_mut((any(r) & !3).max(4))).unwrap())?;
        c.observe(&(a, t.len()));
        Ok(())
    });
    // Unsized targets keep their metadata.
    cx.section("unsized", (10_000, 200_000, 8), |c| {
        let mem: Vec<u32> = (0..8u32).collect();
        let mut k = c.rng.below(8);
        let mut v = NonNull4::new(NonNull::from(&mem[k..])).unwrap();
        for _ in 0..6 {
            let tag = c.rng.below(4);
            v.set_meta(tag);
            if c.rng.bool() {
                k = c.rng.below(8);
                unsafe { v.set_ptr_unchecked(NonNull::from(&mem[k..])) };
            }
            same!(unsafe { v.ptr().as_ref() }, &mem[k..], "unsized referent");
            same!(v.meta(), tag, "tag of unsized");
        }
        // Unsized targets are accepted by their address only.
        let bytes: Vec<u32> = vec![0; 8];
        let bytes: &[u8] = unsafe { std::slice::from_raw_parts(bytes.as_ptr().cast(), 32) };
        let (at, len) = (c.rng.below(16), c.rng.below(16));
        same!(NonNull4::new(NonNull::from(&bytes[at..at + len])).is_some(), at % 4 == 0, "acceptance of slice {at}+{len}");
        let text = unsafe { std::str::from_utf8_unchecked(&bytes[at..at + len]) };
        same!(NonNull4::new(NonNull::from(text)).is_some(), at % 4 == 0, "acceptance of text {at}+{len}");
        let obj: &dyn std::fmt::Debug = &bytes[at];
        same!(NonNull4::new(NonNull::from(obj)).is_some(), at % 4 == 0, "acceptance of object {at}");
        let s: Box<dyn std::fmt::Display> = Box::new(7u64);
        let mut v = NonNull4::new(NonNull::from(&*s)).unwrap();
        v.set_meta(c.rng.below(4));
        same!(unsafe { v.ptr().as_ref() }.to_string(), "7", "trait object referent");
        c.observe(&("unsized", k));
        Ok(())
    });
    // Copyable pointers.
    cx.section("ptr", (30_000, 1_000_000, 16), |c| {
        let mut mem: Vec<u32> = (0..8).map(|_| c.rng.below(2) as u32).collect();
        let (i, j) = (c.rng.below(8), c.rng.below(8));
        {
            let (a, b) = (Ptr::from_ref(&mem[i]), Ptr::from(&mem[j]));
            same!(a == b, i == j, "equality");
            same!(a.cmp(&b), i.cmp(&j), "order");
            same!(a.partial_cmp(&b), Some(i.cmp(&j)), "partial order");
            same!(hashed(&a), hashed(&(&raw const mem[i])), "hash");
            same!(a.as_ptr() as usize, &raw const mem[i] as usize, "as_ptr");
            same!(a.into_ptr() as usize, &raw const mem[i] as usize, "into_ptr");
            same!(a.as_nonnull(), NonNull::from(&mem[i]), "as_nonnull");
            same!(a.into_nonnull(), NonNull::from(&mem[i]), "into_nonnull");
            same!(NonNull::<u32>::from(a), NonNull::from(&mem[i]), "to NonNull");
            same!(<*const u32>::from(a), &raw const mem[i], "to const pointer");
            same!(<*mut u32>::from(a) as *const u32, &raw const mem[i], "to mut pointer");
            same!(unsafe { (*a.as_ref(), *a.into_ref()) }, (mem[i], mem[i]), "referent");
            let k = a;
            ensure!(k == a && k.clone() == a, "copies are equal");
            same!(format!("{a:?}"), format!("Ptr({:p})", &mem[i]), "debug");
            let s = Ptr::from_ref(&mem[i..]);
            same!(unsafe { s.into_ref() }, &mem[i..], "unsized referent");
            ensure!(s == Ptr::from_ref(&mem[i..]), "unsized equality");
        }
        // Slices that share a start: equality, order and hash agree.
        {
            let cut: Vec<(usize, usize)> = (0..4).map(|_| { let a = c.rng.below(3); (a, c.rng.range(a, 8)) }).collect();
            for (a, b) in &cut {
                for (d, e) in &cut {
                    let (i, j) = (Ptr::from_ref(&mem[*a..*b]), Ptr::from_ref(&mem[*d..*e]));
                    let k = i;
                    ensure!(k == i && i.cmp(&k).is_eq() && hashed(&i) == hashed(&k), "copies of slices are equal");
                    same!(i == j, i.cmp(&j).is_eq(), "equality vs. order of slices {a}..{b} and {d}..{e}");
                    same!(i.partial_cmp(&j), Some(i.cmp(&j)), "partial order of slices {a}..{b} and {d}..{e}");
                    same!(i.cmp(&j), j.cmp(&i).reverse(), "order of slices {a}..{b} and {d}..{e}, swapped");
                    if i == j {
                        same!(hashed(&i), hashed(&j), "hash of equal slices {a}..{b} and {d}..{e}");
                    }
                    ensure!(i == j || (a, b) != (d, e), "a slice differs from itself");
                    if a != d {
                        same!(i.cmp(&j), a.cmp(d), "order of slices with different start");
                    }
                }
            }
        }
        // Mutation through pointers derived from an exclusive borrow.
        let p = unsafe { mem.as_mut_ptr().add(i) };
        let mut a = unsafe { Ptr::from_ptr(p) };
        let b = unsafe { Ptr::new(NonNull::new(p).unwrap()) };
        ensure!(a == b, "constructors agree");
        unsafe { *a.as_mut() = 17 };
        same!(unsafe { *b.as_ref() }, 17, "write through a copy");
        unsafe { *b.into_mut() = 18 };
        same!(unsafe { *a.as_ref() }, 18, "write through a copy");
        same!(mem[i], 18, "write through a copy");
        c.observe(&("ptr", i, j));
        Ok(())
    });
    // Identity of values behind any smart pointer.
    cx.section("identity", (30_000, 1_000_000, 16), |c| {
        let vals: Vec<Rc<u32>> = (0..6).map(|_| Rc::new(c.rng.below(2) as u32)).collect();
        let pick: Vec<usize> = (0..8).map(|_| c.rng.below(6)).collect();
        let ids: Vec<Identity<Rc<u32>>> = pick.iter().map(|k| Identity(vals[*k].clone())).collect();
        let ad = |k: usize| &raw const *vals[k] as usize;
        for (x, i) in pick.iter().zip(&ids) {
            same!(hashed(i), hashed(&(&raw const *vals[*x])), "identity hash");
            for (y, j) in pick.iter().zip(&ids) {
                same!(i == j, x == y, "identity of {x} {y}");
                same!(i.cmp(j), ad(*x).cmp(&ad(*y)), "identity order");
                same!(i.partial_cmp(j), Some(ad(*x).cmp(&ad(*y))), "identity partial order");
            }
        }
        let n: HashSet<usize> = pick.iter().copied().collect();
        same!(ids.iter().collect::<HashSet<_>>().len(), n.len(), "hash set by identity");
        same!(ids.iter().collect::<BTreeSet<_>>().len(), n.len(), "ordered set by identity");
        // Other handle kinds.
        let (x, y) = (5u8, 5u8);
        ensure!(Identity(&x) == Identity(&x) && Identity(&x) != Identity(&y), "reference identity");
        let (x, y) = (Arc::new(String::from("s")), Arc::new(String::from("s")));
        ensure!(Identity(x.clone()) == Identity(x.clone()) && Identity(x.clone()) != Identity(y), "shared identity");
        let b = Identity(Box::new(1.5f64));
        ensure!(b == b && b != b.clone(), "box identity");
        let (s, t) = (String::from("a"), String::from("a"));
        ensure!(Identity(&s[..]) == Identity(&s[..]) && Identity(&s[..]) != Identity(&t[..]), "unsized identity");
        // Slices that share a start: whatever counts as the same, equality,
        // order and hash must agree on it, and a handle equals its copies.
        let mem: Vec<u16> = (0..40).collect();
        let cut: Vec<(usize, usize)> = (0..6).map(|_| { let (a, top) = (c.rng.below(3), *c.rng.pick(&[4, 40])); (a, c.rng.range(a, top)) }).collect();
        for (a, b) in &cut {
            for (d, e) in &cut {
                let (i, j) = (Identity(&mem[*a..*b]), Identity(&mem[*d..*e]));
                same!(i == j, i.cmp(&j).is_eq(), "equality vs. order of slices {a}..{b} and {d}..{e}");
                same!(i.partial_cmp(&j), Some(i.cmp(&j)), "partial order of slices {a}..{b} and {d}..{e}");
                same!(i.cmp(&j), j.cmp(&i).reverse(), "order of slices {a}..{b} and {d}..{e}, swapped");
                if i == j {
                    same!(hashed(&i), hashed(&j), "hash of equal slices {a}..{b} and {d}..{e}");
                }
                ensure!(i == j || (a, b) != (d, e), "a slice differs from itself");
                ensure!(i != j || a == d, "slices with different start are the same");
            }
        }
        c.observe(&("identity", pick));
        Ok(())
    });
}

fn main() {
    harness::main(
        "C11",
        "A case is one pointer with a random update sequence or a set of pointers compared pairwise; distinct = distinct (updates and tags), addresses or picks.",
        run,
    );
}
