//! Raw memory helpers and field access.

use harness::*;
use osi::mem;
use osi::meta;
use std::mem::MaybeUninit as Un;

#[derive(Clone, Copy)]
#[repr(C, align(1))]
struct A1<const N: usize>([Un<u8>; N]);
#[derive(Clone, Copy)]
#[repr(C, align(2))]
struct A2<const N: usize>([Un<u8>; N]);
#[derive(Clone, Copy)]
#[repr(C, align(8))]
struct A8<const N: usize>([Un<u8>; N]);
#[derive(Clone, Copy)]
#[repr(C, align(16))]
struct A16<const N: usize>([Un<u8>; N]);
#[derive(Clone, Copy)]
#[repr(C, align(64))]
struct A64<const N: usize>([Un<u8>; N]);

thread_local! {
    static SEEN: std::cell::RefCell<Vec<(usize, usize, usize)>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// Report the placements seen by this case.
fn seen(c: &mut Case, what: &'static str) {
    for v in SEEN.with(|s| std::mem::take(&mut *s.borrow_mut())) {
        c.observe(&(what, v));
        c.count("placements", 1);
    }
}

/// Place `bytes` as a `T` at a random suitably aligned offset, surrounded by
/// canaries, and run `f` on it.
fn place<T, X>(r: &mut Rng, bytes: &[u8], f: impl FnOnce(&mut T, &mut Rng) -> Result<X, String>) -> Result<X, String> {
    let al = align_of::<T>();
    let off = 64usize.next_multiple_of(al) + al * r.below((128 / al).max(1));
    let total = if size_of::<T>() < 256 { 512 } else { off + size_of::<T>() + 256 };
    let layout = std::alloc::Layout::from_size_align(total, al.max(64)).unwrap();
    struct Area(*mut u8, std::alloc::Layout);
    impl Drop for Area {
        fn drop(&mut self) { unsafe { std::alloc::dealloc(self.0, self.1) } }
    }
    let area = Area(unsafe { std::alloc::alloc(layout) }, layout);
    let base = area.0;
    unsafe { base.write_bytes(0xc3, total) };
    assert!(off + size_of::<T>() <= total && bytes.len() <= size_of::<T>());
    let p = unsafe { base.add(off) };
    unsafe { p.copy_from(bytes.as_ptr(), bytes.len()) };
    let x = f(unsafe { &mut *(p as *mut T) }, r)?;
    let end = off + size_of::<T>();
    let (lo, hi) = if cfg!(miri) { (off - 16, end + 16) } else { (0, total) };
    for (a, b) in [(lo, off), (end, hi)] {
        // SAFETY: within the area, and no other borrow is live.
        let s = unsafe { std::slice::from_raw_parts(base.add(a), b - a) };
        ensure!(s.iter().all(|v| *v == 0xc3), "bytes around the object at {off} changed: {s:x?}");
    }
    SEEN.with(|s| s.borrow_mut().push((size_of::<T>(), al, off)));
    Ok(x)
}

fn lead<T>(v: &T, n: usize) -> Vec<u8> {
    (0..n).map(|i| unsafe { (v as *const T as *const u8).add(i).read() }).collect()
}

/// Copying transmute between two types.
fn tcu<S, D>(r: &mut Rng) -> R {
    let b = r.bytes(size_of::<S>());
    place::<S, ()>(r, &b, |s, _| {
        let d: D = unsafe { mem::transmute_copy_uninit(s) };
        let n = size_of::<S>().min(size_of::<D>());
        let what = (size_of::<S>(), align_of::<S>(), size_of::<D>(), align_of::<D>());
        same!(lead(&d, n), b[..n].to_vec(), "copied bytes for {what:?}");
        same!(lead(s, size_of::<S>()), b, "source bytes for {what:?}");
        Ok(())
    })
}

fn swap<T: Copy>(r: &mut Rng) -> R {
    let b = r.bytes(size_of::<T>());
    place::<T, ()>(r, &b, |s, _| {
        let d: T = unsafe { mem::bswap_copy(s) };
        let mut w = b.clone();
        w.reverse();
        same!(lead(&d, w.len()), w, "swapped bytes for size {}", w.len());
        same!(lead(s, b.len()), b, "source bytes for size {}", w.len());
        let back: T = unsafe { mem::bswap_copy(&d) };
        same!(lead(&back, b.len()), b, "twice swapped bytes");
        Ok(())
    })
}

fn views<T: Copy + PartialEq>(r: &mut Rng) -> R {
    let n = size_of::<T>();
    let b = r.bytes(n);
    place::<T, ()>(r, &b, |s, r| {
        same!(unsafe { mem::as_bytes(s) }, &b[..], "byte view");
        let at = s as *const T as usize;
        same!(unsafe { mem::as_bytes(s) }.as_ptr() as usize, at, "byte view address");
        let nb = r.bytes(n);
        unsafe { mem::as_bytes_mut(s) }.copy_from_slice(&nb);
        same!(lead(s, n), nb, "bytes written through a mutable view");
        same!(unsafe { mem::as_bytes_mut(s) }.len(), n, "mutable view length");
        // Uninitialized aliases.
        let u: &Un<T> = mem::as_uninit(s);
        same!(u.as_ptr() as usize, at, "alias address");
        ensure!(unsafe { mem::assume_init(u) } == &*s, "alias value");
        same!(unsafe { mem::assume_init(u) } as *const T as usize, at, "alias address");
        let arr = [*s, *s, *s];
        let k = r.below(4);
        let us = mem::slice_as_uninit(&arr[..k]);
        same!((us.as_ptr() as usize, us.len()), (arr.as_ptr() as usize, k), "slice alias");
        let is = unsafe { mem::slice_assume_init(us) };
        same!((is.as_ptr() as usize, is.len()), (arr.as_ptr() as usize, k), "slice alias back");
        ensure!(is == &arr[..k], "slice alias values");
        let mut one = Un::new(*s);
        let p = one.as_ptr() as usize;
        let m = unsafe { mem::assume_init_mut(&mut one) };
        same!(m as *mut T as usize, p, "mutable alias address");
        *m = arr[0];
        let mut many = [Un::new(*s); 3];
        let p = many.as_ptr() as usize;
        let m = unsafe { mem::slice_assume_init_mut(&mut many[..k]) };
        same!((m.as_ptr() as usize, m.len()), (p, k), "mutable slice alias");
        m.fill(arr[0]);
        Ok(())
    })
}

fn equal<A, B>(r: &mut Rng) -> R {
    let a = r.bytes(size_of::<A>());
    let mut b = r.bytes(size_of::<B>());
    let n = a.len().min(b.len());
    if r.chance(3, 4) {
        b[..n].copy_from_slice(&a[..n]);
        if n > 0 && r.chance(1, 2) {
            // Anywhere, or close to either end.
            let k = match r.below(4) {
                0 => n - 1,
                1 => 0,
                2 => n - 1 - r.below(n.min(9)),
                _ => r.below(n),
            };
            b[k] ^= 1 << r.below(8);
        }
    }
    place::<A, ()>(r, &a, |x, r| place::<B, ()>(r, &b, |y, _| {
        same!(unsafe { mem::eq(x, y) }, a == b, "byte equality of {} {}", show(&a), show(&b));
        same!(unsafe { mem::eq(y, x) }, a == b, "byte equality of {} {}", show(&b), show(&a));
        ensure!(unsafe { mem::eq(x, x) }, "byte equality with itself");
        Ok(())
    }))
}

trait Fill { fn fill(r: &mut Rng) -> Self; }
macro_rules! fill { ($($t:ty)*) => { $( impl Fill for $t { fn fill(r: &mut Rng) -> $t { r.u64() as $t } } )* } }
fill!(u8 u16 u32 u64 u128 usize i8 i128);
impl<const N: usize> Fill for [u8; N] {
    fn fill(r: &mut Rng) -> Self { [r.u8(); N] }
}

macro_rules! containers {
    ($($name:ident [$($attr:tt)*] { $($f:ident : $t:ty = $n:literal),* })*) => {
        $(
            #[derive(Clone, Copy, Debug, PartialEq)]
            #[$($attr)*]
            struct $name { $($f: $t),* }
            $( unsafe impl meta::Field<{ mem::typed_offset_of!($name, $f, $t) }, $t> for $name {} )*
            #[allow(non_snake_case)]
            fn $name(r: &mut Rng) -> R {
                let mut v = $name { $($f: <$t as Fill>::fill(r)),* };
                let orig = v;
                $({
                    const OFF: usize = mem::typed_offset_of!($name, $f, $t);
                    let true_off = &raw const v.$f as usize - &raw const v as usize;
                    same!(OFF, true_off, "offset of {}.{}", stringify!($name), stringify!($f));
                    same!(meta::field_of::<OFF, $t, $name>(&v) as *const $t, &raw const v.$f, "field reference");
                    same!(*meta::field_of::<OFF, $t, $name>(&v), orig.$f, "field value");
                    let p = &raw mut v;
                    let f = meta::field_of_ptr::<OFF, $t, $name>(p);
                    same!(f as usize, p as usize + OFF, "field pointer");
                    let c = meta::container_of_ptr::<OFF, $t, $name>(f);
                    same!(c, p, "container pointer");
                    same!(unsafe { *f }, orig.$f, "load through the field pointer");
                    unsafe { *f = <$t as Fill>::fill(r) };
                    unsafe { (*c).$f = orig.$f };
                    same!(v, orig, "only the field changes");
                    let n = <$t as Fill>::fill(r);
                    *meta::field_of_mut::<OFF, $t, $name>(&mut v) = n;
                    same!(v.$f, n, "store through the field reference");
                    v.$f = orig.$f;
                    same!(v, orig, "only the field changes");
                    // Pointer arithmetic works on pointers that are never
                    // dereferenced, anywhere in the address space.
                    let a = r.edge64() as usize;
                    let d = std::ptr::without_provenance_mut::<$name>(a);
                    let f = meta::field_of_ptr::<OFF, $t, $name>(d);
                    same!(f as usize, a.wrapping_add(OFF), "field of a dangling pointer");
                    same!(meta::container_of_ptr::<OFF, $t, $name>(f) as usize, a, "container of a dangling pointer");
                })*
                let _ = ($($n,)*);
                Ok(())
            }
        )*
    };
}
containers! {
    C0 [repr(C)] { a: u8 = 0, b: u16 = 1, c: u8 = 2, d: u64 = 3, e: u32 = 4 }
    C1 [repr(Rust)] { a: u8 = 0, b: u64 = 1, c: u16 = 2, d: u128 = 3, e: i8 = 4 }
    C2 [repr(C, align(64))] { a: u32 = 0, b: u8 = 1, c: usize = 2 }
    C3 [repr(C)] { only: i128 = 0 }
    // Offsets that do not fit 8, 12 and 16 bits.
    C4 [repr(C)] { a: u8 = 0, p: [u8; 300] = 1, b: u16 = 2, q: [u8; 4000] = 3, d: u32 = 4, e: u8 = 5 }
    C5 [repr(C)] { a: u8 = 0, p: [u8; 65_000] = 1, b: u64 = 2, q: [u8; 70_000] = 3, d: u8 = 4, e: u128 = 5 }
    C6 [repr(C, align(4096))] { a: u8 = 0, p: [u8; 4096] = 1, b: u32 = 2 }
}

macro_rules! pairs {
    ($f:ident, $r:expr, [$($s:ty),*], $ds:tt) => { $( pairs!(@ $f, $r, $s, $ds); )* };
    (@ $f:ident, $r:expr, $s:ty, [$($d:ty),*]) => { $( $f::<$s, $d>($r)?; )* };
}

fn run(cx: &mut Ctx) {
    cx.section("transmute", (6_000, 300_000, 1), |c| {
        let r = &mut c.rng;
        pairs!(tcu, r, [A1<0>, A1<1>, A1<3>, A1<8>, A2<2>, A2<6>, A8<8>, A8<24>, A64<64>, A64<128>, u8, u16, u32, u64, u128],
            [A1<0>, A1<1>, A1<2>, A1<5>, A1<8>, A2<4>, A8<8>, A8<16>, A64<64>, A64<192>, Un<u16>, Un<u32>, Un<u64>, Un<u128>]);
        c.evals(15 * 14 - 1);
        seen(c, "transmute");
        Ok(())
    });
    cx.section("swap", (20_000, 500_000, 2), |c| {
        let r = &mut c.rng;
        macro_rules! s { ($($t:ty),*) => { $( swap::<$t>(r)?; )* } }
        s!(A1<0>, A1<1>, A1<2>, A1<3>, A1<4>, A1<5>, A1<7>, A1<8>, A1<15>, A1<16>, A1<17>, A1<32>, A1<33>,
            A2<2>, A2<4>, A2<6>, A2<8>, A2<10>, A2<16>, A8<8>, A8<16>, A8<24>, A8<32>, A16<16>, A16<32>, A16<48>, A64<64>,
            u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, [u16; 3], [u8; 6]);
        if !cfg!(miri) {
            s!(A1<64>, A1<100>, A1<127>, A1<128>, A1<129>, A1<255>, A1<256>, A1<257>, A1<1000>, A1<4097>);
            c.evals(10);
        }
        c.evals(38);
        seen(c, "swap");
        Ok(())
    });
    cx.section("views", (20_000, 500_000, 2), |c| {
        let r = &mut c.rng;
        macro_rules! s { ($($t:ty),*) => { $( views::<$t>(r)?; )* } }
        s!(u8, u16, u32, u64, u128, [u8; 0], [u8; 3], [u16; 5], [u64; 2], [u8; 33], ());
        c.evals(10);
        seen(c, "views");
        Ok(())
    });
    cx.section("equal", (10_000, 300_000, 1), |c| {
        let r = &mut c.rng;
        pairs!(equal, r, [A1<0>, A1<1>, A1<3>, A1<8>, A2<4>, A8<16>, u16, u64, [u8; 16]], [A1<0>, A1<1>, A1<3>, A1<4>, A1<8>, A1<16>, A2<2>, u64, u32, u128, ()]);
        c.evals(98);
        seen(c, "equal");
        c.sample(|| "byte equality over 9x11 type pairs".into());
        Ok(())
    });
    cx.section("fields", (20_000, 500_000, 10), |c| {
        let r = &mut c.rng;
        C0(r)?;
        C1(r)?;
        C2(r)?;
        C3(r)?;
        c.evals(14);
        c.count("field accesses", 12);
        Ok(())
    });
    if !cx.miri() {
        large(cx);
    }
}

/// Objects of hundreds to many thousand bytes.
fn large(cx: &mut Ctx) {
    cx.section("large", (600, 12_000, 0), |c| {
        let r = &mut c.rng;
        macro_rules! s { ($f:ident $($t:ty),*) => { $( $f::<$t>(r)?; )* } }
        s!(swap A1<64>, A1<65>, A1<66>, A1<100>, A1<127>, A1<128>, A1<129>, A1<255>, A1<256>, A1<257>, A1<1000>, A1<4095>, A1<4096>,
            A1<4097>, A8<5000>, A1<65_537>, A64<192>, [u64; 600], A2<130>);
        s!(views [u8; 255], [u8; 256], [u8; 5000], [u64; 600], [u8; 66_000], [u16; 129]);
        pairs!(equal, r, [A1<64>, A1<65>, A1<256>, A1<4096>, A1<4100>, A8<5000>, A1<66_000>],
            [A1<64>, A1<65>, A8<256>, A1<255>, A64<4096>, A2<4100>, A1<5000>, A1<66_000>]);
        pairs!(tcu, r, [A1<65>, A1<256>, A1<4097>, A8<5000>, A1<66_000>], [A1<64>, A8<256>, A1<300>, A1<4096>, A64<8192>, A1<66_000>, u8]);
        C4(r)?;
        C5(r)?;
        C6(r)?;
        c.evals(19 + 6 + 56 + 35 + 15 - 1);
        c.count("field accesses", 15);
        seen(c, "large");
        Ok(())
    });
}

fn main() {
    harness::main(
        "C12",
        "A case runs one helper over all its size and alignment combinations with random contents and placement; distinct = distinct (helper, object size, alignment, offset in memory).",
        run,
    );
}
