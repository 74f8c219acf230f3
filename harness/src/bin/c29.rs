//! FFI pointers: addresses, null, byte order, dereferencing.

use harness::*;
use osi::align::AlignAs;
use osi::ffi::{BigEndian, Integer, LittleEndian, NativeAddress, Pointer};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::mem::{align_of, size_of};
use std::num::*;

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
fn hashed<T: Hash>(v: &T) -> Vec<u8> {
    let mut h = Rec::default();
    v.hash(&mut h);
    h.0
}

fn raw_bytes<T>(v: &T) -> Vec<u8> {
    let n = size_of::<T>();
    let mut r = vec![0u8; n];
    // All types passed here are free of padding.
    unsafe { std::ptr::copy_nonoverlapping((v as *const T).cast::<u8>(), r.as_mut_ptr(), n) };
    r
}

trait Tgt: Sized + Debug + PartialEq + Clone {
    fn make(r: &mut Rng) -> Self;
}
impl Tgt for u8 { fn make(r: &mut Rng) -> Self { r.u8() } }
impl Tgt for u64 { fn make(r: &mut Rng) -> Self { r.u64() } }
impl Tgt for () { fn make(_: &mut Rng) -> Self {} }
impl Tgt for String { fn make(r: &mut Rng) -> Self { r.u16().to_string() } }
#[repr(align(64))]
#[derive(Clone, Debug, PartialEq)]
struct Big([u16; 40]);
impl Tgt for Big { fn make(r: &mut Rng) -> Self { Big([r.u16(); 40]) } }

/// Targets whose alignment exceeds that of a page.
#[repr(align(8192))]
#[derive(Clone, Debug, PartialEq)]
struct Huge(u8);
impl Tgt for Huge { fn make(r: &mut Rng) -> Self { Huge(r.u8()) } }
#[repr(align(131072))]
#[derive(Clone, Debug, PartialEq)]
struct Vast(u8);
impl Tgt for Vast { fn make(r: &mut Rng) -> Self { Vast(r.u8()) } }
#[repr(align(256))]
#[derive(Clone, Debug, PartialEq)]
struct None0([u8; 0]);
impl Tgt for None0 { fn make(_: &mut Rng) -> Self { None0([]) } }

thread_local! {
    /// The addresses one case has exercised.
    static USED: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) };
}

fn address(r: &mut Rng) -> usize {
    let v = match r.below(5) {
        0 => r.below(5) as u64,
        1 => u64::MAX - r.below(3) as u64,
        2 => 1u64 << r.below(64),
        3 => (1u64 << r.below(64)).wrapping_sub(1),
        _ => r.u64(),
    };
    USED.with(|u| u.borrow_mut().push(v as usize));
    v as usize
}

/// The fixed-size integers as wide as addresses of the running platform.
#[cfg(target_pointer_width = "64")]
type Word = u64;
#[cfg(target_pointer_width = "32")]
type Word = u32;
#[cfg(target_pointer_width = "64")]
type NzWord = NonZeroU64;
#[cfg(target_pointer_width = "32")]
type NzWord = NonZeroU32;
const W: usize = size_of::<usize>();

/// Addresses of the running platform.
fn native<A, T: Tgt>(name: &str, r: &mut Rng, align: usize) -> R
where
    A: NativeAddress<T> + Copy + Ord + Hash + Debug + std::fmt::Display,
{
    type P<A, T> = Pointer<A, T>;
    same!(size_of::<P<A, T>>(), W, "{name} size");
    same!(align_of::<P<A, T>>(), align, "{name} alignment");
    let v = address(r);
    let mk: [(&str, Option<P<A, T>>); 5] = [
        ("from_usize", P::<A, T>::from_usize(v)),
        ("trait from_usize", <P<A, T> as NativeAddress<T>>::from_usize(v)),
        ("address", A::from_usize(v).map(P::<A, T>::new)),
        ("try usize", P::<A, T>::try_from(v).ok()),
        ("try ptr", if r.bool() { P::<A, T>::try_from(v as *const T).ok() } else { P::<A, T>::try_from(v as *mut T).ok() }),
    ];
    for (what, p) in &mk {
        let Some(p) = p else {
            same!(v, 0, "{name} refused {v:#x} by {what}");
            continue;
        };
        ensure!(v != 0, "{name} accepted null by {what}");
        same!(p.to_usize(), v, "{name} address by {what}");
        same!(p.into_usize(), v, "{name} address by {what}");
        same!(NativeAddress::<T>::to_usize(p.address()), v, "{name} inner address by {what}");
        same!(NativeAddress::<T>::to_usize(&p.get()), v, "{name} inner copy by {what}");
        same!(NativeAddress::<T>::into_usize(p.into_inner()), v, "{name} inner value by {what}");
        same!(p.as_ptr() as usize, v, "{name} const pointer by {what}");
        same!(p.as_mut_ptr() as usize, v, "{name} mut pointer by {what}");
        same!(NativeAddress::<T>::as_ptr(p) as usize, v, "{name} trait pointer by {what}");
        same!(raw_bytes(p), v.to_ne_bytes().to_vec(), "{name} bytes by {what}");
        same!(p.cast::<u16>().cast::<T>().to_usize(), v, "{name} cast by {what}");
        same!(raw_bytes(&p.cast_into::<u16>()), v.to_ne_bytes().to_vec(), "{name} cast by {what}");
    }
    if v != 0 {
        let p = unsafe { P::<A, T>::from_usize_unchecked(v) };
        same!(p.to_usize(), v, "{name} unchecked address");
        let w = address(r).max(1);
        let w = if r.chance(1, 4) { v } else { w };
        let q = P::<A, T>::from_usize(w).unwrap();
        same!(p == q, v == w, "{name} equality");
        same!(p.cmp(&q), v.cmp(&w), "{name} order of {v:#x} and {w:#x}");
        same!(p.partial_cmp(&q), Some(v.cmp(&w)), "{name} partial order");
        for h in [hashed(&p.cast::<u8>()), hashed(&p.cast::<(u64, u8)>())] {
            same!(h, hashed(&p), "{name} hash after a cast");
        }
        if hashed(&p) == hashed(&q) {
            same!(v, w, "{name} hash is by address");
        }
        if !cfg!(miri) {
            same!(p.to_string(), v.to_string(), "{name} display");
            same!(format!("{p:>25}"), format!("{v:>25}"), "{name} padded display");
            same!(format!("{p:?}"), format!("Pointer({:?})", p.get()), "{name} debug");
        }
        let mut m = p;
        same!(NativeAddress::<T>::to_usize(&m.replace(q.get())), v, "{name} replaced address");
        same!(m.to_usize(), w, "{name} new address");
        m.set(p.get());
        same!(m.to_usize(), v, "{name} set address");
        same!(m.clone().to_usize(), v, "{name} cloned address");
    }
    let d = P::<A, T>::dangling();
    ensure!(d.to_usize() != 0 && d.to_usize() % align_of::<T>() == 0, "{name} dangling address {:#x}", d.to_usize());
    // Live objects.
    let n = r.range(1, 4);
    let mut objs: Vec<T> = (0..n).map(|_| T::make(r)).collect();
    let k = r.below(n);
    let want = objs.clone();
    let at = &raw const objs[k] as usize;
    let p: P<A, T> = P::from(&objs[k]);
    same!(p.to_usize(), at, "{name} address of a reference");
    same!(unsafe { p.as_ref() }, &want[k], "{name} target");
    same!(unsafe { NativeAddress::<T>::as_ref(&p) } as *const T as usize, at, "{name} reference address");
    let p = P::<A, T>::try_from(&raw const objs[k]).map_err(|_| format!("{name} refused a live pointer"))?;
    same!(unsafe { p.as_ref() }, &want[k], "{name} target of pointer");
    let new = T::make(r);
    let p: P<A, T> = P::from(&mut objs[k]);
    *unsafe { p.as_mut() } = new.clone();
    same!(objs[k], new, "{name} target after writing");
    let q = P::<A, T>::try_from(&raw mut objs[k]).map_err(|_| format!("{name} refused a live pointer"))?;
    *unsafe { NativeAddress::<T>::as_mut(&q) } = want[k].clone();
    same!(objs, want, "{name} objects after writing");
    if cfg!(not(miri)) {
        same!(p == q, true, "{name} pointers to one object");
    }
    Ok(())
}

/// Foreign representations: `Raw` is the plain integer behind the address.
macro_rules! foreign {
    ($r:expr, $addr:ty, $raw:ty, $big:expr, $align:expr, $tgt:ty) => {{
        let r: &mut Rng = $r;
        type P = Pointer<$addr, $tgt>;
        let name = stringify!($addr);
        same!(size_of::<P>(), size_of::<$raw>(), "{name} size");
        same!(align_of::<P>(), $align, "{name} alignment");
        let v = address(r) as $raw;
        let bytes = if $big { v.to_be_bytes() } else { v.to_le_bytes() };
        let p = P::from_native(v);
        same!(raw_bytes(&p), bytes.to_vec(), "{name} bytes of {v:#x}");
        same!(p.to_native::<$raw>(), v, "{name} native value");
        same!(p.to_raw::<$raw>(), <$raw>::from_ne_bytes(bytes), "{name} raw value");
        let q = P::from_raw(<$raw>::from_ne_bytes(bytes));
        same!(q.to_native::<$raw>(), v, "{name} native value from raw");
        same!(p == q, true, "{name} equality of {v:#x}");
        same!(p.cast::<u64>().to_native::<$raw>(), v, "{name} cast");
        same!(p.cast_into::<u8>().to_raw::<$raw>(), <$raw>::from_ne_bytes(bytes), "{name} cast");
        let w = address(r) as $raw;
        let o = P::from_native(w);
        same!(p == o, v == w, "{name} equality of {v:#x} and {w:#x}");
        same!(p.cmp(&o), v.cmp(&w), "{name} order of {v:#x} and {w:#x}");
        let mut m = p;
        same!(P::new(m.replace(o.get())).to_native::<$raw>(), v, "{name} replaced");
        same!(m.to_native::<$raw>(), w, "{name} replacement");
        m.set(*p.address());
        same!(m.into_inner() == p.get(), true, "{name} inner");
        if hashed(&p) == hashed(&o) {
            same!(v, w, "{name} hash is by address");
        }
        same!(hashed(&p), hashed(&q), "{name} hash");
        same!(hashed(&p), hashed(&p.cast::<(u64, u8)>()), "{name} hash after a cast");
        if !cfg!(miri) {
            same!(format!("{p:?}"), format!("Pointer({:?})", p.get()), "{name} debug");
            same!(format!("{p}"), format!("{}", p.get()), "{name} display");
        }
        Ok::<(), String>(())
    }};
}

/// Non-zero foreign representations use null as niche.
macro_rules! foreign_nz {
    ($r:expr, $addr:ty, $nz:ty, $raw:ty, $big:expr, $align:expr, $tgt:ty) => {{
        let r: &mut Rng = $r;
        type P = Pointer<$addr, $tgt>;
        let name = stringify!($addr);
        same!(size_of::<P>(), size_of::<$raw>(), "{name} size");
        same!(size_of::<Option<P>>(), size_of::<$raw>(), "{name} optional size");
        same!(align_of::<P>(), $align, "{name} alignment");
        same!(align_of::<Option<P>>(), $align, "{name} optional alignment");
        let v = address(r) as $raw;
        let o: Option<P> = <$nz>::new(v).map(P::from_native);
        let bytes = if $big { v.to_be_bytes() } else { v.to_le_bytes() };
        same!(o.is_none(), v == 0, "{name} null");
        same!(raw_bytes(&o), bytes.to_vec(), "{name} optional bytes of {v:#x}");
        if let Some(p) = o {
            same!(raw_bytes(&p), bytes.to_vec(), "{name} bytes of {v:#x}");
            same!(p.to_native::<$nz>().get(), v, "{name} native value");
            same!(p.to_raw::<$nz>().get(), <$raw>::from_ne_bytes(bytes), "{name} raw value");
            let q = P::from_raw(<$nz>::new(<$raw>::from_ne_bytes(bytes)).unwrap());
            same!(p == q, true, "{name} equality of {v:#x}");
            same!(p.cast::<u64>().to_native::<$nz>().get(), v, "{name} cast");
            let w = (address(r) as $raw).max(1);
            let x = P::from_native(<$nz>::new(w).unwrap());
            same!(p == x, v == w, "{name} equality of {v:#x} and {w:#x}");
            same!(p.cmp(&x), v.cmp(&w), "{name} order of {v:#x} and {w:#x}");
            let mut m = p;
            same!(P::new(m.replace(x.get())).to_native::<$nz>().get(), v, "{name} replaced");
            same!(m.to_native::<$nz>().get(), w, "{name} replacement");
        }
        Ok::<(), String>(())
    }};
}

fn ptr(c: &mut Case) -> R {
    USED.with(|u| u.borrow_mut().clear());
    let r = &mut c.rng;
    let k = if cfg!(miri) { c.idx as usize % 18 } else { r.below(18) };
    fn all<A>(name: &str, r: &mut Rng, align: usize) -> R
    where
        A: NativeAddress<u8> + NativeAddress<u64> + NativeAddress<()> + NativeAddress<String> + NativeAddress<Big> + NativeAddress<Huge> + NativeAddress<Vast> + NativeAddress<None0> + Copy + Ord + Hash + Debug + std::fmt::Display,
    {
        if cfg!(not(miri)) && r.chance(1, 24) {
            return if r.bool() { native::<A, Huge>(name, r, align) } else { native::<A, Vast>(name, r, align) };
        }
        match r.below(6) {
            5 => native::<A, None0>(name, r, align),
            0 => native::<A, u8>(name, r, align),
            1 => native::<A, u64>(name, r, align),
            2 => native::<A, ()>(name, r, align),
            3 => native::<A, String>(name, r, align),
            _ => native::<A, Big>(name, r, align),
        }
    }
    match k {
        0 => all::<usize>("usize", r, W)?,
        1 => all::<NonZeroUsize>("non-zero usize", r, W)?,
        2 => all::<Word>("word", r, W)?,
        3 => all::<NzWord>("non-zero word", r, W)?,
        4 => all::<Integer<Word, AlignAs<4>>>("word align 4", r, 4)?,
        5 => all::<Integer<NzWord, AlignAs<1>>>("non-zero word align 1", r, 1)?,
        6 => all::<Integer<NonZeroUsize, AlignAs<W>>>("non-zero usize, aligned", r, W)?,
        7 => foreign!(r, u64, u64, cfg!(target_endian = "big"), align_of::<u64>(), u8)?,
        8 => foreign!(r, BigEndian<u64>, u64, true, align_of::<u64>(), u64)?,
        9 => foreign!(r, LittleEndian<u32>, u32, false, 4, str)?,
        10 => foreign!(r, Integer<BigEndian<u32>, AlignAs<2>>, u32, true, 2, [u8])?,
        11 => foreign!(r, Integer<LittleEndian<u64>, AlignAs<4>>, u64, false, 4, String)?,
        12 => foreign!(r, BigEndian<u16>, u16, true, 2, u8)?,
        13 => foreign_nz!(r, BigEndian<NonZeroU64>, NonZeroU64, u64, true, align_of::<u64>(), u8)?,
        14 => foreign_nz!(r, LittleEndian<NonZeroU32>, NonZeroU32, u32, false, 4, str)?,
        15 => foreign_nz!(r, osi::ffi::abi::x86_sysv::Addr, NonZeroU32, u32, false, 4, u64)?,
        16 => foreign_nz!(r, osi::ffi::abi::x86_64_sysv::Addr, NonZeroU64, u64, false, 8, u64)?,
        _ => foreign_nz!(r, Integer<BigEndian<NonZeroU16>, AlignAs<1>>, NonZeroU16, u16, true, 1, u64)?,
    }
    let used = USED.with(|u| u.borrow().clone());
    c.observe(&(k, &used));
    c.sample(|| format!("representation {k}, addresses {used:x?}"));
    Ok(())
}

fn run(cx: &mut Ctx) {
    cx.section("pointer", (400_000, 8_000_000, 72), ptr);
}

fn main() {
    harness::main(
        "C29",
        "A case is one address value in one of 18 representations (7 native with 8 target types, 11 foreign), taken through every conversion and operation; distinct = (representation, addresses exercised).",
        run,
    );
}
