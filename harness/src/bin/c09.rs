//! FFI integers and packed values: layout and value semantics.

use harness::*;
use osi::align::{AlignAs, AlignNative, AlignOf, Aligned};
use osi::ffi::{Integer, Packed};
use std::cell::RefCell;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::num::*;

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
fn hashed<T: Hash>(v: &T) -> Vec<u8> {
    let mut h = Rec::default();
    v.hash(&mut h);
    h.0
}

thread_local! {
    static LIVE: RefCell<std::collections::BTreeMap<u64, i64>> = RefCell::new(Default::default());
}

/// A heap-owning value that records construction and destruction.
struct D<const N: usize = 2> { id: u64, heap: Box<u64>, pad: [u8; N] }
impl<const N: usize> D<N> {
    fn new(id: u64) -> Self {
        LIVE.with(|l| *l.borrow_mut().entry(id).or_insert(0) += 1);
        D { id, heap: Box::new(!id), pad: [id as u8; N] }
    }
    fn ok(&self) -> bool {
        *self.heap == !self.id && (&raw const self.heap).is_aligned() && self.pad.iter().all(|v| *v == self.id as u8)
    }
}
impl<const N: usize> Default for D<N> {
    fn default() -> Self { D::new(0) }
}
impl<const N: usize> Drop for D<N> {
    fn drop(&mut self) {
        assert!(self.ok(), "dropped value is corrupt or misaligned");
        LIVE.with(|l| *l.borrow_mut().entry(self.id).or_insert(0) -= 1);
    }
}

fn live() -> Vec<(u64, i64)> {
    LIVE.with(|l| l.borrow().iter().filter(|v| *v.1 != 0).map(|v| (*v.0, *v.1)).collect())
}

/// An over-aligned plain value.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(32))]
struct Wide([u8; 40]);
impl Default for Wide {
    fn default() -> Wide { Wide([0; 40]) }
}
impl std::fmt::Display for Wide {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "w{}", self.0[0]) }
}

/// Alignment beyond that of any marker.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(512))]
struct Vast([u8; 40]);
impl Default for Vast {
    fn default() -> Vast { Vast([0; 40]) }
}
impl std::fmt::Display for Vast {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "v{}", self.0[0]) }
}
impl Gen for Vast { fn make(r: &mut Rng) -> Vast { Vast(r.bytes(40).try_into().unwrap()) } }

/// A value of several pages.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Long([u16; 3000]);
impl Default for Long {
    fn default() -> Long { Long([0; 3000]) }
}
impl std::fmt::Display for Long {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "l{}", self.0[0]) }
}
impl Gen for Long {
    fn make(r: &mut Rng) -> Long {
        let mut v = [r.below(2) as u16; 3000];
        v[r.below(3000)] = r.u16();
        v[2999] = r.below(2) as u16;
        Long(v)
    }
}

/// Values without size that still have a destructor.
struct Ghost;
impl Ghost {
    fn new() -> Ghost {
        LIVE.with(|l| *l.borrow_mut().entry(0).or_insert(0) += 1);
        Ghost
    }
}
impl Default for Ghost {
    fn default() -> Ghost { Ghost::new() }
}
impl Drop for Ghost {
    fn drop(&mut self) { LIVE.with(|l| *l.borrow_mut().entry(0).or_insert(0) -= 1) }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Odd(u8, u16, u8);
impl std::fmt::Display for Odd {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "o{}", self.1) }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Zst;
impl std::fmt::Display for Zst {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "z") }
}

trait Gen: Copy + PartialEq + PartialOrd + Debug + std::fmt::Display { fn make(r: &mut Rng) -> Self; }
macro_rules! gen_int { ($($t:ty),*) => { $(impl Gen for $t { fn make(r: &mut Rng) -> $t { ((r.edge64() as u128) << (64 * r.below(2)) | r.edge64() as u128) as $t } })* } }
gen_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Gen for f32 { fn make(r: &mut Rng) -> f32 { *r.pick(&[0.0, -0.0, 1.5, f32::NAN, f32::INFINITY, f32::MIN_POSITIVE, -3e7]) } }
impl Gen for f64 { fn make(r: &mut Rng) -> f64 { *r.pick(&[0.0, -0.0, 1.5, f64::NAN, f64::NEG_INFINITY, f64::MIN_POSITIVE, 1e300]) } }
impl Gen for bool { fn make(r: &mut Rng) -> bool { r.bool() } }
impl Gen for char { fn make(r: &mut Rng) -> char { char::from_u32(r.u32() % 0x110000).unwrap_or('x') } }
impl Gen for Wide { fn make(r: &mut Rng) -> Wide { Wide(r.bytes(40).try_into().unwrap()) } }
impl Gen for Odd { fn make(r: &mut Rng) -> Odd { Odd(r.u8(), r.u16(), r.u8()) } }
impl Gen for Zst { fn make(_: &mut Rng) -> Zst { Zst } }
macro_rules! gen_nz { ($($t:ty, $p:ty);*) => { $(impl Gen for $t { fn make(r: &mut Rng) -> $t { <$t>::new(<$p>::make(r)).unwrap_or(<$t>::MIN) } })* } }
gen_nz!(NonZeroU8, u8; NonZeroU16, u16; NonZeroU32, u32; NonZeroU64, u64; NonZeroU128, u128; NonZeroI16, i16; NonZeroI64, i64);

/// Bit-level identity, also for NaN.
fn bits<T>(v: &T) -> Vec<u8> where T: Gen {
    // Debug output of all used types determines the value, except for the
    // sign of zero, which Debug shows as well.
    format!("{v:?}").into_bytes()
}

fn up(n: usize, a: usize) -> usize { n.div_ceil(a) * a }

fn layout<V: Gen, A: Aligned>(what: &str, want: usize) -> R {
    same!(align_of::<Integer<V, A>>(), want, "alignment of {what}");
    same!(size_of::<Integer<V, A>>(), up(size_of::<V>(), want), "size of {what}");
    same!(align_of::<Packed<V>>(), 1, "alignment of packed {what}");
    same!(size_of::<Packed<V>>(), size_of::<V>(), "size of packed {what}");
    // Niches survive.
    let niche = size_of::<Option<V>>() == size_of::<V>();
    if niche {
        same!(size_of::<Option<Packed<V>>>(), size_of::<V>(), "niche of packed {what}");
        same!(size_of::<Option<Integer<V, A>>>(), size_of::<Integer<V, A>>(), "niche of {what}");
    }
    Ok(())
}

macro_rules! semantics {
    ($name:ident, $w:ty, $label:literal, [$($g:tt)*]) => {
        fn $name<$($g)*>(r: &mut Rng) -> R {
            type T<X> = X;
            let what = std::any::type_name::<T<$w>>();
            let (x, y) = (V::make(r), V::make(r));
            let mut a = <$w>::new(x);
            let b = if r.bool() { <$w>::from(y) } else { <$w>::new(y) };
            same!(bits(&a.get()), bits(&x), "{what} get");
            same!(bits(&unsafe { a.as_ptr().read_unaligned() }), bits(&x), "{what} as_ptr");
            same!(a.as_ptr() as usize, &a as *const _ as usize, "{what} as_ptr address");
            same!(a.as_mut_ptr() as usize, &a as *const _ as usize, "{what} as_mut_ptr address");
            same!(a == b, x == y, "{what} eq {x:?} {y:?}");
            same!(a != b, x != y, "{what} ne {x:?} {y:?}");
            same!(a.partial_cmp(&b), x.partial_cmp(&y), "{what} partial_cmp {x:?} {y:?}");
            same!((a < b, a <= b, a > b, a >= b), (x < y, x <= y, x > y, x >= y), "{what} relations {x:?} {y:?}");
            same!(a == a.clone(), x == x, "{what} clone {x:?}");
            same!(format!("{a:?}"), format!("{}({x:?})", $label), "{what} debug");
            if !cfg!(miri) {
                same!(format!("{a:#?}"), format!("{}(\n    {},\n)", $label, format!("{x:#?}").replace('\n', "\n    ")), "{what} alternate debug");
                same!(format!("{a:>12}|{a:<7.2}|{a:+}"), format!("{x:>12}|{x:<7.2}|{x:+}"), "{what} display flags");
            }
            same!(format!("{a}"), format!("{x}"), "{what} display");
            a.set(y);
            same!(bits(&a.get()), bits(&y), "{what} set");
            same!(bits(&a.replace(x)), bits(&y), "{what} replace returns old");
            same!(bits(&a.get()), bits(&x), "{what} replace stores new");
            unsafe { a.as_mut_ptr().write_unaligned(y) };
            same!(bits(&a.get()), bits(&y), "{what} pointer write");
            same!(bits(&a.into_inner()), bits(&y), "{what} into_inner");
            same!(bits(&b.get()), bits(&y), "{what} other copy unchanged");
            Ok(())
        }
    };
}
semantics!(sem_packed, Packed<V>, "Packed", [V: Gen]);
semantics!(sem_integer, Integer<V, A>, "Integer", [V: Gen, A: Aligned]);

fn sem_ord<V: Gen + Ord + Hash + Default, A: Aligned>(r: &mut Rng) -> R {
    let (x, y) = (V::make(r), V::make(r));
    let (a, b) = (Integer::<V, A>::new(x), Integer::<V, A>::new(y));
    let (p, q) = (Packed::new(x), Packed::new(y));
    same!(a.cmp(&b), x.cmp(&y), "integer cmp {x:?} {y:?}");
    same!(p.cmp(&q), x.cmp(&y), "packed cmp {x:?} {y:?}");
    same!(a.max(b).get(), x.max(y), "integer max");
    same!(p.min(q).get(), x.min(y), "packed min");
    same!(hashed(&a), hashed(&x), "integer hash {x:?}");
    same!(hashed(&p), hashed(&x), "packed hash {x:?}");
    let (mut a, mut p) = (a, p);
    same!((a.take(), p.take()), (x, x), "take returns old");
    same!((a.get(), p.get()), (V::default(), V::default()), "take leaves the default");
    same!((Integer::<V, A>::default().get(), Packed::<V>::default().get()), (V::default(), V::default()), "default");
    // Unaligned placement.
    #[repr(C)]
    struct Holder<V>(u8, Packed<V>, [u8; 3], [Packed<V>; 3]);
    let mut h = Holder(1, Packed::new(x), [2, 3, 4], [Packed::new(y), Packed::new(x), Packed::new(y)]);
    same!(size_of::<Holder<V>>(), 4 + 4 * size_of::<V>(), "packed values leave no gaps");
    h.1.set(y);
    same!(h.3[1].replace(y), x, "replace at odd address");
    same!(h.3[0].take(), y, "take at odd address");
    same!((h.0, h.2), (1, [2, 3, 4]), "neighbours untouched");
    same!((h.1.get(), h.3[0].get(), h.3[1].get(), h.3[2].get()), (y, V::default(), y, y), "unaligned contents");
    same!(hashed(&h.3[2]), hashed(&y), "hash at odd address");
    same!(h.3[1] == h.3[2], true, "compare at odd address");
    Ok(())
}

macro_rules! aligns {
    ($f:ident, $v:ty, $($arg:expr),*) => {{
        $f::<$v, AlignAs<1>>($($arg),*)?;
        $f::<$v, AlignAs<2>>($($arg),*)?;
        $f::<$v, AlignAs<4>>($($arg),*)?;
        $f::<$v, AlignAs<8>>($($arg),*)?;
        $f::<$v, AlignAs<16>>($($arg),*)?;
        $f::<$v, AlignAs<64>>($($arg),*)?;
        $f::<$v, AlignAs<128>>($($arg),*)?;
        $f::<$v, $v>($($arg),*)?;
    }};
}
macro_rules! layouts {
    ($($v:ty),*) => {{ $(
        let n = stringify!($v);
        layout::<$v, AlignAs<1>>(n, 1)?;
        layout::<$v, AlignAs<2>>(n, 2)?;
        layout::<$v, AlignAs<4>>(n, 4)?;
        layout::<$v, AlignAs<8>>(n, 8)?;
        layout::<$v, AlignAs<16>>(n, 16)?;
        layout::<$v, AlignAs<32>>(n, 32)?;
        layout::<$v, AlignAs<64>>(n, 64)?;
        layout::<$v, AlignAs<128>>(n, 128)?;
        layout::<$v, i8>(n, align_of::<i8>())?;
        layout::<$v, i16>(n, align_of::<i16>())?;
        layout::<$v, i32>(n, align_of::<i32>())?;
        layout::<$v, i64>(n, align_of::<i64>())?;
        layout::<$v, i128>(n, align_of::<i128>())?;
        layout::<$v, isize>(n, align_of::<isize>())?;
        layout::<$v, u8>(n, align_of::<u8>())?;
        layout::<$v, u16>(n, align_of::<u16>())?;
        layout::<$v, u32>(n, align_of::<u32>())?;
        layout::<$v, u64>(n, align_of::<u64>())?;
        layout::<$v, u128>(n, align_of::<u128>())?;
        layout::<$v, usize>(n, align_of::<usize>())?;
        layout::<$v, f32>(n, align_of::<f32>())?;
        layout::<$v, f64>(n, align_of::<f64>())?;
        layout::<$v, char>(n, align_of::<char>())?;
        layout::<$v, bool>(n, align_of::<bool>())?;
        layout::<$v, ()>(n, 1)?;
        layout::<$v, [u16; 3]>(n, align_of::<u16>())?;
        layout::<$v, [u64; 0]>(n, align_of::<u64>())?;
        layout::<$v, &u8>(n, align_of::<&u8>())?;
        layout::<$v, &mut u8>(n, align_of::<&u8>())?;
        layout::<$v, *const u128>(n, align_of::<*const u8>())?;
        layout::<$v, *mut u8>(n, align_of::<*const u8>())?;
    )* }};
}

fn markers() -> R {
    macro_rules! m { ($($n:literal $a:ident),*) => { $(
        same!((size_of::<AlignAs<$n>>(), align_of::<AlignAs<$n>>()), (0, $n), "marker {}", $n);
        same!((size_of::<osi::align::$a>(), align_of::<osi::align::$a>()), (0, $n), "marker {}", $n);
        same!(align_of::<AlignOf<AlignAs<$n>>>(), $n, "marker of {}", $n);
    )* } }
    m!(1 Align1, 2 Align2, 4 Align4, 8 Align8, 16 Align16, 32 Align32, 64 Align64, 128 Align128);
    same!(align_of::<AlignNative>(), align_of::<usize>(), "native marker");
    same!(align_of::<AlignOf<u64>>(), align_of::<u64>(), "u64 marker");
    same!(align_of::<AlignOf<str>>(), 1, "str marker");
    same!(align_of::<AlignOf<[u32]>>(), align_of::<u32>(), "slice marker");
    same!(align_of::<osi::align::AlignAny>(), 1, "any marker");
    Ok(())
}

/// Ownership histories of values with destructors.
fn history<A: Aligned, const N: usize>(c: &mut Case) -> R {
    LIVE.with(|l| l.borrow_mut().clear());
    enum Slot<A: Aligned, const N: usize> { P(Packed<D<N>>), I(Integer<D<N>, A>), V(D<N>) }
    let mut next = 1;
    let mut slots: Vec<(Slot<A, N>, u64)> = vec![];
    let mut trace = vec![];
    macro_rules! fresh { () => {{ next += 1; D::<N>::new(next - 1) }} }
    for _ in 0..c.rng.range(1, 14) {
        let op = c.rng.below(8);
        trace.push(op as u8);
        let k = if slots.is_empty() { 0 } else { c.rng.below(slots.len()) };
        match op {
            0 => { let d = fresh!(); let i = d.id; slots.push((Slot::P(Packed::new(d)), i)); },
            1 => { let d = fresh!(); let i = d.id; slots.push((Slot::I(Integer::new(d)), i)); },
            2 => slots.push((Slot::P(Default::default()), 0)),
            3 => { let d = fresh!(); let i = d.id; slots.push((Slot::I(Integer::from(d)), i)); },
            _ if slots.is_empty() => (),
            4 => {
                let d = fresh!();
                let i = d.id;
                match &mut slots[k].0 { Slot::P(p) => p.set(d), Slot::I(p) => p.set(d), Slot::V(p) => *p = d }
                slots[k].1 = i;
            },
            5 => {
                let d = fresh!();
                let i = d.id;
                let old = match &mut slots[k].0 { Slot::P(p) => p.replace(d), Slot::I(p) => p.replace(d), Slot::V(p) => std::mem::replace(p, d) };
                ensure!(old.ok(), "replaced value is corrupt");
                same!(old.id, slots[k].1, "replaced value");
                slots[k].1 = i;
                if c.rng.bool() {
                    let i = old.id;
                    slots.push((Slot::V(old), i));
                }
            },
            6 => {
                let old = match &mut slots[k].0 { Slot::P(p) => p.take(), Slot::I(p) => p.take(), Slot::V(p) => std::mem::take(p) };
                same!(old.id, slots[k].1, "taken value");
                slots[k].1 = 0;
            },
            _ => {
                let (s, id) = slots.swap_remove(k);
                if c.rng.bool() {
                    let d = match s { Slot::P(p) => p.into_inner(), Slot::I(p) => p.into_inner(), Slot::V(p) => p };
                    ensure!(d.ok(), "extracted value is corrupt");
                    same!(d.id, id, "extracted value");
                    let i = d.id;
                    slots.push((if c.rng.bool() { Slot::P(Packed::new(d)) } else { Slot::V(d) }, i));
                }
            },
        }
        let mut want = std::collections::BTreeMap::new();
        for s in &slots {
            *want.entry(s.1).or_insert(0i64) += 1;
        }
        same!(live(), want.into_iter().collect::<Vec<_>>(), "live values after {trace:?}");
        c.evals(1);
    }
    drop(slots);
    same!(live(), vec![], "live values at the end of {trace:?}");
    c.count("constructed", next - 1);
    c.observe(&(N, &trace));
    Ok(())
}

/// Ownership histories of values that have a destructor but no size.
fn ghosts(c: &mut Case) -> R {
    LIVE.with(|l| l.borrow_mut().clear());
    let mut p: Vec<Packed<Ghost>> = vec![];
    let mut i: Vec<Integer<Ghost, AlignAs<8>>> = vec![];
    let mut v: Vec<Ghost> = vec![];
    let mut trace = vec![];
    for _ in 0..c.rng.range(1, 12) {
        let op = c.rng.below(10) as u8;
        trace.push(op);
        match op {
            0 => p.push(Packed::new(Ghost::new())),
            1 => i.push(Integer::new(Ghost::new())),
            2 => { if let Some(x) = p.last_mut() { v.push(x.replace(Ghost::new())) } },
            3 => { if let Some(x) = i.last_mut() { v.push(x.replace(Ghost::new())) } },
            4 => { if let Some(x) = p.last_mut() { x.set(Ghost::new()) } },
            5 => { if let Some(x) = i.last_mut() { x.set(Ghost::new()) } },
            6 => { if let Some(x) = p.last_mut() { v.push(x.take()) } },
            7 => { if let Some(x) = i.last_mut() { v.push(x.take()) } },
            8 => { if let Some(x) = p.pop() { v.push(x.into_inner()) } },
            _ => { if let Some(x) = i.pop() { if c.rng.bool() { v.push(x.into_inner()) } } },
        }
        let n = (p.len() + i.len() + v.len()) as i64;
        same!(live(), if n == 0 { vec![] } else { vec![(0, n)] }, "live values without size after {trace:?}");
        c.evals(1);
    }
    drop((p, i, v));
    same!(live(), vec![], "live values without size at the end of {trace:?}");
    c.observe(&("ghost", trace));
    Ok(())
}

fn run(cx: &mut Ctx) {
    cx.section("ghosts", (5_000, 100_000, 6), ghosts);
    if !cx.miri() {
        cx.section("large", (2_000, 40_000, 0), |c| {
            let r = &mut c.rng;
            sem_packed::<Vast>(r)?;
            sem_ord::<Vast, AlignAs<1>>(r)?;
            sem_ord::<Vast, AlignAs<128>>(r)?;
            sem_integer::<Vast, AlignAs<2>>(r)?;
            layout::<Vast, AlignAs<4>>("over-aligned", 4)?;
            if c.idx % 8 == 0 {
                sem_ord::<Long, AlignAs<1>>(r)?;
                sem_ord::<Long, AlignAs<64>>(r)?;
                sem_packed::<Long>(r)?;
                sem_integer::<Long, AlignAs<8>>(r)?;
            }
            c.observe(&("large", c.idx % 8 == 0));
            Ok(())
        });
    }
    cx.section("layout", (2, 2, 1), |c| {
        markers()?;
        layouts!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool, char,
            NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroI16, NonZeroI64, Wide, Odd, Zst);
        c.count("layouts", 26 * 31);
        c.observe(&"layout");
        Ok(())
    });
    cx.section("values", (30_000, 1_500_000, 26), |c| {
        let k = c.idx % 26;
        macro_rules! v { ($t:ty) => {{
            sem_packed::<$t>(&mut c.rng)?;
            if cfg!(miri) {
                sem_integer::<$t, AlignAs<1>>(&mut c.rng)?;
                sem_integer::<$t, AlignAs<16>>(&mut c.rng)?;
            } else {
                aligns!(sem_integer, $t, &mut c.rng);
            }
        }} }
        macro_rules! o { ($t:ty) => {{
            v!($t);
            sem_ord::<$t, AlignAs<1>>(&mut c.rng)?;
            sem_ord::<$t, AlignAs<8>>(&mut c.rng)?;
        }} }
        macro_rules! w { ($t:ty) => {{
            sem_packed::<$t>(&mut c.rng)?;
            sem_ord::<$t, AlignAs<1>>(&mut c.rng)?;
            sem_ord::<$t, AlignAs<64>>(&mut c.rng)?;
            sem_integer::<$t, AlignAs<2>>(&mut c.rng)?;
        }} }
        match k {
            0 => o!(u8), 1 => o!(u16), 2 => o!(u32), 3 => o!(u64), 4 => o!(u128), 5 => o!(usize),
            6 => o!(i8), 7 => o!(i16), 8 => o!(i32), 9 => o!(i64), 10 => o!(i128), 11 => o!(isize),
            12 => v!(f32), 13 => v!(f64), 14 => o!(bool), 15 => v!(char),
            16 => w!(Wide), 17 => w!(Odd), 18 => w!(Zst),
            19 => { sem_packed::<NonZeroU8>(&mut c.rng)?; sem_integer::<NonZeroU8, AlignAs<4>>(&mut c.rng)? },
            20 => { sem_packed::<NonZeroU16>(&mut c.rng)?; sem_integer::<NonZeroU16, AlignAs<1>>(&mut c.rng)? },
            21 => { sem_packed::<NonZeroU32>(&mut c.rng)?; sem_integer::<NonZeroU32, AlignAs<1>>(&mut c.rng)? },
            22 => { sem_packed::<NonZeroU64>(&mut c.rng)?; sem_integer::<NonZeroU64, AlignAs<2>>(&mut c.rng)? },
            23 => { sem_packed::<NonZeroU128>(&mut c.rng)?; sem_integer::<NonZeroU128, AlignAs<1>>(&mut c.rng)? },
            24 => { sem_packed::<NonZeroI16>(&mut c.rng)?; sem_integer::<NonZeroI16, AlignAs<1>>(&mut c.rng)? },
            _ => { sem_packed::<NonZeroI64>(&mut c.rng)?; sem_integer::<NonZeroI64, AlignAs<4>>(&mut c.rng)? },
        }
        c.observe(&("value", k));
        c.sample(|| format!("value type {k}, all alignments"));
        Ok(())
    });
    cx.section("drops", (20_000, 600_000, 12), |c| match c.idx % 12 {
        0 => history::<AlignAs<1>, 0>(c),
        1 => history::<AlignAs<2>, 2>(c),
        2 => history::<AlignAs<8>, 2>(c),
        3 => history::<AlignAs<64>, 2>(c),
        4 => history::<AlignAs<1>, 9>(c),
        5 => history::<AlignAs<4>, 16>(c),
        6 => history::<AlignAs<16>, 17>(c),
        7 => history::<AlignAs<32>, 48>(c),
        8 => history::<AlignAs<1>, 113>(c),
        9 => history::<AlignAs<8>, 240>(c),
        10 => history::<AlignAs<128>, 1000>(c),
        _ => history::<AlignAs<2>, 4081>(c),
    });
}

fn main() {
    harness::main(
        "C09",
        "A case is one pair of values per value type and alignment, or one ownership history; distinct = distinct value type or operation history.",
        run,
    );
}
