//! Foreign-endian integers: byte order in memory and value semantics.

use harness::*;
use osi::align::AlignAs;
use osi::ffi::{self, BigEndian, Integer, LittleEndian, NativeEndian};
use std::hash::{Hash, Hasher};

/// Records all hashed bytes.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
fn hashed<T: Hash>(v: &T) -> Vec<u8> {
    let mut h = Rec::default();
    v.hash(&mut h);
    h.0
}

fn mem<T>(v: &T) -> Vec<u8> {
    let p = v as *const T as *const u8;
    (0..size_of::<T>()).map(|i| unsafe { p.add(i).read() }).collect()
}

fn cast<T: Copy>(b: &[u8]) -> T {
    assert!(b.len() >= size_of::<T>());
    unsafe { (b.as_ptr() as *const T).read_unaligned() }
}

const ALL: usize = 12;

macro_rules! drive {
    ($name:ident, $prim:ty, $raw:ty, $wrap:expr, $unwrap:expr, $default:expr) => {
        fn $name(c: &mut Case, x: $prim, y: $prim) -> R {
            let wrap: fn($prim) -> $raw = $wrap;
            let unwrap: fn($raw) -> $prim = $unwrap;
            let (nx, ny) = (wrap(x), wrap(y));
            macro_rules! one {
                ($en:ident, $to:ident, $from:ident, $need:expr) => {{
                    let what = concat!(stringify!($en), "<", stringify!($raw), ">");
                    let e = $en::<$raw>::from_native(nx);
                    let f = $en::<$raw>::from_native(ny);
                    same!(size_of_val(&e), size_of::<$raw>(), "{what} size");
                    same!(align_of_val(&e), align_of::<$raw>(), "{what} alignment");
                    same!(mem(&e), x.$to().to_vec(), "{what} bytes of {x}");
                    same!(e.to_native(), nx, "{what} native of {x}");
                    same!(<$en<$raw> as NativeEndian<$raw>>::to_native(e), nx, "{what} trait native of {x}");
                    same!(mem(&<$en<$raw> as NativeEndian<$raw>>::from_native(nx)), x.$to().to_vec(), "{what} trait bytes of {x}");
                    same!(mem(&ffi::from_native::<$en<$raw>, $raw>(nx)), x.$to().to_vec(), "{what} free fn of {x}");
                    same!(ffi::to_native::<$en<$raw>, $raw>(e), nx, "{what} free fn native of {x}");
                    same!(mem(&osi::ffi::abi::native::num::<$en<$raw>, $raw>(nx)), x.$to().to_vec(), "{what} num of {x}");
                    same!(<$en<$raw> as NativeEndian<$raw>>::NEEDS_SWAP, $need, "{what} swap marker");
                    // Raw access is verbatim.
                    let r = $en::<$raw>::from_raw(nx);
                    same!(mem(&r), x.to_ne_bytes().to_vec(), "{what} raw bytes of {x}");
                    same!(r.to_raw(), nx, "{what} raw of {x}");
                    same!(<$en<$raw> as NativeEndian<$raw>>::to_raw(<$en<$raw> as NativeEndian<$raw>>::from_raw(nx)), nx, "{what} trait raw of {x}");
                    same!(ffi::to_raw::<$en<$raw>, $raw>(ffi::from_raw::<$en<$raw>, $raw>(nx)), nx, "{what} free raw of {x}");
                    same!(unwrap(e.to_raw()).to_ne_bytes(), x.$to(), "{what} raw value of {x}");
                    // Memory reinterpretation at an odd address.
                    let mut buf = vec![0xa5u8; 1];
                    buf.extend_from_slice(&x.$to());
                    let m: $en<$raw> = cast(&buf[1..]);
                    same!(m.to_native(), nx, "{what} reinterpreted {x}");
                    same!(unwrap(m.to_native()), <$prim>::$from(buf[1..].try_into().unwrap()), "{what} reinterpreted");
                    // Value semantics.
                    same!(e == f, x == y, "{what} {x} == {y}");
                    same!(e != f, x != y, "{what} {x} != {y}");
                    same!(e.cmp(&f), x.cmp(&y), "{what} {x} cmp {y}");
                    same!(e.partial_cmp(&f), x.partial_cmp(&y), "{what} {x} partial_cmp {y}");
                    same!((e < f, e <= f, e > f, e >= f), (x < y, x <= y, x > y, x >= y), "{what} {x} relations {y}");
                    same!(e.max(f).to_native(), wrap(x.max(y)), "{what} max");
                    same!(hashed(&e), hashed(&nx), "{what} hash of {x}");
                    // Formatting is safe code, and slow to interpret.
                    if !cfg!(miri) {
                        same!(format!("{e}"), format!("{nx}"), "{what} display of {x}");
                        same!(format!("{e:>+45}|{e:<9}|{e:^7}|{e:05}"), format!("{nx:>+45}|{nx:<9}|{nx:^7}|{nx:05}"), "{what} display flags of {x}");
                        same!(format!("{e:?}"), format!("{}({:?})", stringify!($en), e.to_raw()), "{what} debug of {x}");
                    }
                    let k = e;
                    same!(k.clone(), e, "{what} clone of {x}");
                    // Wrapped in under- and over-aligned integers.
                    macro_rules! al { ($n:literal) => {{
                        type I = Integer<$en<$raw>, AlignAs<$n>>;
                        let i = I::from_native(nx);
                        let j = I::from_native(ny);
                        same!(align_of::<I>(), $n, "{what} alignment {}", $n);
                        same!(i.to_native(), nx, "{what} aligned {} native of {x}", $n);
                        same!(mem(&i.get()), x.$to().to_vec(), "{what} aligned {} bytes of {x}", $n);
                        let p = &i as *const I as *const u8;
                        let b: Vec<u8> = (0..size_of::<$raw>()).map(|k| unsafe { p.add(k).read() }).collect();
                        same!(b, x.$to().to_vec(), "{what} aligned {} memory of {x}", $n);
                        same!(I::from_raw(nx).to_raw(), nx, "{what} aligned {} raw of {x}", $n);
                        same!(I::new(e).to_native(), nx, "{what} aligned {} new of {x}", $n);
                        same!((i == j, i.cmp(&j)), (x == y, x.cmp(&y)), "{what} aligned {} compare", $n);
                        same!(hashed(&i), hashed(&nx), "{what} aligned {} hash", $n);
                        if !cfg!(miri) {
                            same!(format!("{i}"), format!("{nx}"), "{what} aligned {} display", $n);
                        }
                    }} }
                    al!(1); al!(2); al!(8); al!(32);
                    ($default)(what)?;
                }};
            }
            one!(BigEndian, to_be_bytes, from_be_bytes, cfg!(target_endian = "little"));
            one!(LittleEndian, to_le_bytes, from_le_bytes, cfg!(target_endian = "big"));
            // Plain primitives are their own native representation.
            same!(<$raw as NativeEndian<$raw>>::NEEDS_SWAP, false, "primitive swap marker");
            same!(<$raw as NativeEndian<$raw>>::from_native(nx), nx, "primitive from_native {x}");
            same!(<$raw as NativeEndian<$raw>>::to_native(nx), nx, "primitive to_native {x}");
            c.evals(2);
            Ok(())
        }
    };
}

macro_rules! both {
    ($n:ident, $nz:ident, $prim:ty, $nzt:ty) => {
        drive!($n, $prim, $prim, |v| v, |v| v, |what: &str| -> R {
            let d = (BigEndian::<$prim>::default(), LittleEndian::<$prim>::default());
            same!((d.0.to_native(), d.1.to_native()), (0, 0), "{what} default");
            Ok(())
        });
        drive!($nz, $prim, $nzt, |v| <$nzt>::new(v).unwrap(), |v| v.get(), |what: &str| -> R {
            same!(size_of::<Option<BigEndian<$nzt>>>(), size_of::<$prim>(), "{what} niche");
            same!(size_of::<Option<LittleEndian<$nzt>>>(), size_of::<$prim>(), "{what} niche");
            Ok(())
        });
    };
}

use std::num::*;
both!(f_i8, z_i8, i8, NonZeroI8);
both!(f_i16, z_i16, i16, NonZeroI16);
both!(f_i32, z_i32, i32, NonZeroI32);
both!(f_i64, z_i64, i64, NonZeroI64);
both!(f_i128, z_i128, i128, NonZeroI128);
both!(f_isize, z_isize, isize, NonZeroIsize);
both!(f_u8, z_u8, u8, NonZeroU8);
both!(f_u16, z_u16, u16, NonZeroU16);
both!(f_u32, z_u32, u32, NonZeroU32);
both!(f_u64, z_u64, u64, NonZeroU64);
both!(f_u128, z_u128, u128, NonZeroU128);
both!(f_usize, z_usize, usize, NonZeroUsize);

fn one(c: &mut Case, ty: usize, a: u128, b: u128) -> R {
    macro_rules! go { ($f:ident, $z:ident, $t:ty) => {{
        let (a, b) = (a as $t, b as $t);
        c.observe(&(ty, a, a.cmp(&b)));
        $f(c, a, b)?;
        if a != 0 && b != 0 {
            $z(c, a, b)?;
        }
    }} }
    match ty {
        0 => go!(f_i8, z_i8, i8),
        1 => go!(f_i16, z_i16, i16),
        2 => go!(f_i32, z_i32, i32),
        3 => go!(f_i64, z_i64, i64),
        4 => go!(f_i128, z_i128, i128),
        5 => go!(f_isize, z_isize, isize),
        6 => go!(f_u8, z_u8, u8),
        7 => go!(f_u16, z_u16, u16),
        8 => go!(f_u32, z_u32, u32),
        9 => go!(f_u64, z_u64, u64),
        10 => go!(f_u128, z_u128, u128),
        _ => go!(f_usize, z_usize, usize),
    }
    Ok(())
}

fn value(r: &mut Rng) -> u128 {
    match r.below(6) {
        0 => r.edge64() as u128,
        1 => r.edge64() as i64 as i128 as u128,
        2 => 1u128 << r.below(128),
        3 => (0xff_u128) << (8 * r.below(16)),
        4 => 0x0102030405060708090a0b0c0d0e0f10,
        _ => (r.u64() as u128) << 64 | r.u64() as u128,
    }
}

fn run(cx: &mut Ctx) {
    cx.section("random", (60_000, 3_000_000, 24), |c| {
        let ty = c.idx as usize % ALL;
        let a = value(&mut c.rng);
        let b = match c.rng.below(4) {
            0 => a,
            1 => a.swap_bytes(),
            2 => a ^ 1u128 << c.rng.below(128),
            _ => value(&mut c.rng),
        };
        c.sample(|| format!("type {ty}: {a:#x} vs {b:#x}"));
        one(c, ty, a, b)
    });
    // All 8-bit pairs, all 16-bit values.
    cx.exhaustive("8bit", 256, |c| {
        for b in 0..256 {
            one(c, 0, c.idx as u128, b)?;
            one(c, 6, c.idx as u128, b)?;
        }
        Ok(())
    });
    cx.exhaustive("16bit", 256, |c| {
        for b in 0..256 {
            let v = (c.idx << 8 | b) as u128;
            one(c, 1, v, v.wrapping_mul(31))?;
            one(c, 7, v, (v as u16).swap_bytes() as u128)?;
        }
        Ok(())
    });
}

fn main() {
    harness::main(
        "C08",
        "A case is one pair of values of one integer type in both byte orders; distinct = distinct (type, value, relation).",
        run,
    );
}
