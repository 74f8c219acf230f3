//! Ownership conversions, one-time references, pin helpers, maybe-owned.

use harness::*;
use osi::convert::{FromDeref, IntoDeref};
use osi::mown::Mown;
use osi::ptr::OnceRef;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::ops::Deref;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
fn hashed<T: Hash + ?Sized>(v: &T) -> Vec<u8> {
    let mut h = Rec::default();
    v.hash(&mut h);
    h.0
}

thread_local! {
    static LIVE: RefCell<BTreeMap<u64, i64>> = RefCell::new(BTreeMap::new());
    static NEXT: std::cell::Cell<u64> = const { std::cell::Cell::new(1) };
}
fn reset() {
    LIVE.with(|l| l.borrow_mut().clear());
    NEXT.with(|n| n.set(1));
}
fn live() -> Vec<(u64, i64)> {
    LIVE.with(|l| l.borrow().iter().filter(|v| *v.1 != 0).map(|v| (*v.0, *v.1)).collect())
}

/// A value that records its destruction.
#[derive(Debug)]
struct D { id: u64, heap: Box<u64> }
impl D {
    fn new() -> D {
        let id = NEXT.with(|n| n.replace(n.get() + 1));
        LIVE.with(|l| *l.borrow_mut().entry(id).or_insert(0) += 1);
        D { id, heap: Box::new(!id) }
    }
}
impl Drop for D {
    fn drop(&mut self) {
        assert!(*self.heap == !self.id, "dropped value is corrupt");
        LIVE.with(|l| *l.borrow_mut().entry(self.id).or_insert(0) -= 1);
    }
}
trait Ided {
    fn ids(&self) -> Vec<u64>;
    /// Write to the value without changing it.
    fn touch(&mut self) {}
}
impl Ided for D {
    fn ids(&self) -> Vec<u64> { assert!(*self.heap == !self.id); vec![self.id] }
    fn touch(&mut self) { self.id = std::hint::black_box(self.id); *self.heap = !self.id }
}
impl<T: Ided> Ided for [T] {
    fn ids(&self) -> Vec<u64> { self.iter().flat_map(|d| d.ids()).collect() }
    fn touch(&mut self) { self.iter_mut().for_each(|d| d.touch()) }
}
impl Ided for str {
    fn ids(&self) -> Vec<u64> { self.bytes().map(|b| b as u64).collect() }
    fn touch(&mut self) { self.make_ascii_lowercase() }
}
/// A zero-sized and an over-aligned target.
struct Zst;
impl Ided for Zst { fn ids(&self) -> Vec<u64> { vec![] } }
#[repr(align(64))]
struct Big(D, #[allow(dead_code)] u8);
impl Ided for Big {
    fn ids(&self) -> Vec<u64> { self.0.ids() }
    fn touch(&mut self) { self.0.touch() }
}

fn addr<T: ?Sized>(v: &T) -> (usize, usize) { (v as *const T as *const u8 as usize, size_of_val(v)) }

/// Look at a one-time reference in all non-consuming ways.
fn look<T: Ided + ?Sized>(o: &OnceRef<'_, T>, a: (usize, usize), ids: &[u64]) -> R {
    same!(addr(o.as_ref()), a, "as_ref address");
    same!(addr(&**o), a, "deref address");
    same!(o.as_ptr() as *const u8 as usize, a.0, "as_ptr address");
    same!(o.as_nonnull().as_ptr() as *const u8 as usize, a.0, "as_nonnull address");
    same!(o.ids(), ids.to_vec(), "referent");
    Ok(())
}

/// Convert to and fro several times, pinned or not.
fn trips<P>(r: &mut Rng, mut p: P, trace: &mut Vec<u8>) -> Result<P, String>
where
    P: IntoDeref + FromDeref + Deref,
    P::Target: Ided,
{
    let a = addr(&*p);
    let ids = p.ids();
    for _ in 0..r.range(1, 4) {
        let k = r.below(4) as u8;
        trace.push(k);
        let before = live();
        let o = if k & 1 == 0 {
            P::into_deref(p)
        } else {
            // SAFETY: never moved out of below.
            let pin = P::pin_into_deref(unsafe { Pin::new_unchecked(p) });
            same!(addr(&*pin), a, "pinned referent address");
            same!(addr(unsafe { osi::pin::as_inner(&pin) }.as_ref()), a, "pin inner address");
            unsafe { Pin::into_inner_unchecked(pin) }
        };
        same!(live(), before, "live values inside a conversion");
        look(&o, a, &ids)?;
        let o = match r.below(4) {
            0 => unsafe { OnceRef::from_nonnull(o.into_nonnull()) },
            1 => unsafe { OnceRef::from_ptr(o.into_ptr()) },
            2 => unsafe { OnceRef::from_ptr(<*mut P::Target>::from(o)) },
            _ => o,
        };
        look(&o, a, &ids)?;
        p = if k & 2 == 0 {
            unsafe { P::from_deref(o) }
        } else {
            let pin = unsafe { P::pin_from_deref(Pin::new_unchecked(o)) };
            same!(addr(&*pin), a, "pinned handle address");
            unsafe { Pin::into_inner_unchecked(pin) }
        };
        same!(live(), before, "live values after a conversion");
        same!(addr(&*p), a, "address after a conversion");
        same!(p.ids(), ids, "referent after a conversion");
    }
    Ok(p)
}

fn ds(r: &mut Rng) -> Vec<D> { (0..r.below(4)).map(|_| D::new()).collect() }

fn unique<T: Ided + ?Sized>(r: &mut Rng, b: Box<T>, trace: &mut Vec<u8>) -> R {
    let mut b = trips(r, b, trace)?;
    b.touch();
    let ids = b.ids();
    let a = addr(&*b);
    trips(r, &*b, trace)?;
    {
        let m = trips(r, &mut *b, trace)?;
        m.touch();
        same!(m.ids(), ids, "mutable reference");
    }
    // References through the explicit constructors.
    look(&OnceRef::from_ref(&*b), a, &ids)?;
    look(&OnceRef::from(&*b), a, &ids)?;
    same!(addr(OnceRef::from_ref(&*b).into_ref()), a, "into_ref");
    same!(<*const T>::from(OnceRef::from_ref(&*b)) as *const u8 as usize, a.0, "raw pointer");
    same!(core::ptr::NonNull::<T>::from(OnceRef::from_ref(&*b)).as_ptr() as *const u8 as usize, a.0, "non-null pointer");
    look(unsafe { osi::pin::as_inner(&OnceRef::pin_from_ref(Pin::new_unchecked(&*b))) }, a, &ids)?;
    {
        let mut o = OnceRef::from_mut(&mut *b);
        same!(addr(unsafe { o.as_mut() }), a, "as_mut");
        unsafe { o.as_mut() }.touch();
        let m = unsafe { o.into_mut() };
        m.touch();
        same!(addr(m), a, "into_mut");
    }
    look(&OnceRef::from(&mut *b), a, &ids)?;
    let pin: Pin<OnceRef<'_, T>> = unsafe { Pin::new_unchecked(&mut *b) }.into();
    look(unsafe { osi::pin::as_inner(&pin) }, a, &ids)?;
    let pin: Pin<OnceRef<'_, T>> = unsafe { Pin::new_unchecked(&*b) }.into();
    look(unsafe { osi::pin::as_inner(&pin) }, a, &ids)?;
    // Whatever is made from an exclusive borrow may be written through.
    unsafe { OnceRef::from(&mut *b).into_mut() }.touch();
    unsafe { OnceRef::from(&mut *b).into_nonnull().as_mut() }.touch();
    unsafe { (*OnceRef::from_mut(&mut *b).as_ptr()).touch() };
    unsafe { Pin::into_inner_unchecked(OnceRef::pin_from_mut(Pin::new_unchecked(&mut *b))).into_mut() }.touch();
    unsafe { Pin::into_inner_unchecked(Pin::<OnceRef<'_, T>>::from(Pin::new_unchecked(&mut *b))).into_mut() }.touch();
    unsafe { osi::ptr::nonnull_from_mut(&mut *b).as_mut() }.touch();
    let p = osi::ptr::nonnull_from_ref(&*b);
    same!(addr(unsafe { p.as_ref() }), a, "nonnull_from_ref");
    same!(unsafe { p.as_ref() }.ids(), ids, "nonnull_from_ref referent");
    {
        let pin = <&mut T>::pin_into_deref(unsafe { Pin::new_unchecked(&mut *b) });
        let pin = unsafe { <&mut T>::pin_from_deref(pin) };
        unsafe { Pin::into_inner_unchecked(pin) }.touch();
    }
    same!(b.ids(), ids, "referent after writes");
    // Pin helpers.
    same!(osi::pin::as_ptr(unsafe { Pin::new_unchecked(&*b) }) as *const u8 as usize, a.0, "pin::as_ptr");
    same!(osi::pin::as_mut_ptr(unsafe { Pin::new_unchecked(&mut *b) }) as *const u8 as usize, a.0, "pin::as_mut_ptr");
    let p = osi::pin::as_mut_ptr(unsafe { Pin::new_unchecked(&mut *b) });
    unsafe { &mut *p }.touch();
    same!(unsafe { &mut *p }.ids(), ids, "pin::as_mut_ptr referent");
    unsafe { osi::ptr::nonnull_from_pin_mut(Pin::new_unchecked(&mut *b)).as_mut() }.touch();
    same!(osi::ptr::nonnull_from_pin_mut(unsafe { Pin::new_unchecked(&mut *b) }).as_ptr() as *const u8 as usize, a.0, "nonnull_from_pin_mut");
    same!(osi::ptr::nonnull_from_pin_ref(unsafe { Pin::new_unchecked(&*b) }).as_ptr() as *const u8 as usize, a.0, "nonnull_from_pin_ref");
    let m = unsafe { osi::pin::map_unchecked(Pin::new_unchecked(&*b), |v| Box::new(v)) };
    same!(addr(&**Pin::into_inner(m)), a, "map_unchecked");
    same!(b.ids(), ids, "referent at the end");
    Ok(())
}

fn shared_rc<T: Ided + ?Sized>(r: &mut Rng, v: Rc<T>, trace: &mut Vec<u8>) -> R {
    let weak = Rc::downgrade(&v);
    let mut all = vec![v];
    let mut more = vec![];
    for _ in 0..r.range(1, 6) {
        let k = r.below(all.len());
        match r.below(6) {
            0 => { let n = all[k].clone(); all.push(n) },
            1 if all.len() > 1 => drop(all.swap_remove(k)),
            4 => { let n = r.below(5); more.extend((0..n).map(|_| Rc::downgrade(&all[k]))) },
            5 => more.truncate(r.below(4)),
            2 => {
                let x = all.swap_remove(k);
                let o = Rc::into_deref(x);
                same!(weak.strong_count(), all.len() + 1, "strong count while converted");
                if let Some(x) = all.first() {
                    same!(Rc::weak_count(x), 1 + more.len(), "weak count while converted");
                }
                all.push(unsafe { Rc::from_deref(o) });
            },
            _ => {
                let x = all.swap_remove(k);
                all.push(trips(r, x, trace)?);
            },
        }
        same!(weak.strong_count(), all.len(), "strong count");
        same!(Rc::weak_count(&all[0]), 1 + more.len(), "weak count");
        ensure!(all.iter().all(|x| Rc::ptr_eq(x, &all[0])), "all handles share one object");
    }
    drop(all);
    ensure!(more.iter().all(|w| w.upgrade().is_none()), "object outlives its handles");
    ensure!(weak.upgrade().is_none(), "object outlives its handles");
    Ok(())
}

fn shared_arc<T: Ided + ?Sized>(r: &mut Rng, v: Arc<T>, trace: &mut Vec<u8>) -> R {
    let weak = Arc::downgrade(&v);
    let mut all = vec![v];
    let mut more = vec![];
    for _ in 0..r.range(1, 6) {
        let k = r.below(all.len());
        match r.below(6) {
            0 => { let n = all[k].clone(); all.push(n) },
            1 if all.len() > 1 => drop(all.swap_remove(k)),
            4 => { let n = r.below(5); more.extend((0..n).map(|_| Arc::downgrade(&all[k]))) },
            5 => more.truncate(r.below(4)),
            2 => {
                let x = all.swap_remove(k);
                let o = Arc::into_deref(x);
                same!(weak.strong_count(), all.len() + 1, "strong count while converted");
                if let Some(x) = all.first() {
                    same!(Arc::weak_count(x), 1 + more.len(), "weak count while converted");
                }
                all.push(unsafe { Arc::from_deref(o) });
            },
            _ => {
                let x = all.swap_remove(k);
                all.push(trips(r, x, trace)?);
            },
        }
        same!(weak.strong_count(), all.len(), "strong count");
        same!(Arc::weak_count(&all[0]), 1 + more.len(), "weak count");
        ensure!(all.iter().all(|x| Arc::ptr_eq(x, &all[0])), "all handles share one object");
    }
    drop(all);
    ensure!(more.iter().all(|w| w.upgrade().is_none()), "object outlives its handles");
    ensure!(weak.upgrade().is_none(), "object outlives its handles");
    Ok(())
}

/// Send an object through a one-time reference to another thread and back.
fn threads(c: &mut Case) -> R {
    let v = Arc::new(c.rng.bytes(16));
    let keep = v.clone();
    let o = Arc::into_deref(v);
    let a = keep.as_ptr() as usize;
    let (o, sum) = std::thread::scope(|s| {
        s.spawn(move || {
            let p = o.as_ptr() as usize;
            let v: Arc<Vec<u8>> = unsafe { Arc::from_deref(o) };
            let k = v.clone();
            drop(k);
            (Arc::into_deref(v), (p, v_sum(&[1])))
        }).join().unwrap()
    });
    same!(sum.1, 1, "thread result");
    let v: Arc<Vec<u8>> = unsafe { Arc::from_deref(o) };
    same!(v.as_ptr() as usize, a, "address across threads");
    same!(Arc::strong_count(&keep), 2, "strong count across threads");
    drop(v);
    same!(Arc::strong_count(&keep), 1, "strong count across threads");
    c.observe(&"threads");
    Ok(())
}
fn v_sum(v: &[u64]) -> u64 { v.iter().sum() }

thread_local! {
    /// Live and cloned ghosts.
    static GHOSTS: std::cell::Cell<(i64, i64)> = const { std::cell::Cell::new((0, 0)) };
}
struct Ghost;
impl Ghost {
    fn new() -> Ghost { GHOSTS.with(|g| g.set((g.get().0 + 1, g.get().1))); Ghost }
}
impl Clone for Ghost {
    fn clone(&self) -> Ghost { GHOSTS.with(|g| g.set((g.get().0, g.get().1 + 1))); Ghost::new() }
}
impl Drop for Ghost {
    fn drop(&mut self) { GHOSTS.with(|g| g.set((g.get().0 - 1, g.get().1))) }
}
impl std::borrow::Borrow<[u8]> for Ghost {
    fn borrow(&self) -> &[u8] { b"xyz" }
}

fn mown(c: &mut Case) -> R {
    let r = &mut c.rng;
    let texts: Vec<String> = (0..2).map(|_| { let n = r.len(5); (0..n).map(|_| *r.pick(&['a', 'b', 'ä', '"', '\n'])).collect() }).collect();
    type M<'a> = Mown<'a, str, String>;
    fn mk(s: &str, owned: bool) -> M<'_> { if owned { M::new_owned(s.to_string()) } else { M::new_borrowed(s) } }
    let (oa, ob) = (r.bool(), r.bool());
    let (a, b) = (mk(&texts[0], oa), mk(&texts[1], ob));
    let (x, y) = (&texts[0][..], &texts[1][..]);
    same!((a.is_owned(), a.is_borrowed()), (oa, !oa), "owned flag");
    same!(M::deref(&a), x, "deref");
    same!(&*b, y, "deref operator");
    if !oa {
        same!((*a).as_ptr(), x.as_ptr(), "borrowed address");
    }
    let t: &[u8] = a.as_ref();
    same!(t, x.as_bytes(), "as_ref");
    same!(a == b, x == y, "eq {x:?} {y:?}");
    same!(a.cmp(&b), x.cmp(y), "cmp {x:?} {y:?}");
    same!(a.partial_cmp(&b), x.partial_cmp(y), "partial_cmp {x:?} {y:?}");
    same!(hashed(&a), hashed(x), "hash {x:?}");
    same!(format!("{a:?}"), format!("Mown::{}({x:?})", if oa { "Owned" } else { "Borrowed" }), "debug");
    let k = a.clone();
    same!(k.is_owned(), oa, "clone keeps kind");
    same!(&*k, x, "clone");
    if !oa {
        same!((*k).as_ptr(), x.as_ptr(), "clone of borrowed keeps the referent");
    }
    drop(a);
    same!(&*k, x, "clone outlives original");
    ensure!(M::default().is_owned() && (*M::default()).is_empty(), "default");
    let f = M::from(x);
    ensure!(f.is_borrowed() && (*f).as_ptr() == x.as_ptr(), "from reference");
    // Other owner kinds with destructors.
    reset();
    {
        let d = D::new();
        let m: Mown<'_, D, Box<D>> = Mown::new_borrowed(&d);
        same!(m.ids(), d.ids(), "borrowed value");
        let o: Mown<'_, D, Box<D>> = Mown::new_owned(Box::new(D::new()));
        let p = &*o as *const D;
        let o2 = o;
        same!(&*o2 as *const D, p, "moving an owner keeps the heap object");
        let rc: Mown<'_, [D], Rc<[D]>> = Mown::new_owned(ds(r).into());
        let rc2 = rc.clone();
        ensure!(std::ptr::eq(&*rc, &*rc2), "shared owner clones share the object");
        let n = rc2.ids().len() as i64;
        same!(live().len() as i64, 2 + n, "live values");
        drop(m);
        same!(live().len() as i64, 2 + n, "dropping a borrow drops nothing");
        drop(o2);
        drop(rc);
        same!(live().len() as i64, 1 + n, "dropping an owner drops its value");
    }
    same!(live(), vec![], "live values at the end");
    // Values that are not equal to themselves.
    let f: Vec<f64> = (0..2).map(|_| *r.pick(&[f64::NAN, 0.0, -0.0, 1.0, f64::INFINITY, f64::NEG_INFINITY])).collect();
    let n: Vec<Mown<'_, f64, f64>> = f.iter().flat_map(|v| [Mown::new_borrowed(v), Mown::new_owned(*v)]).collect();
    for (i, m) in n.iter().enumerate() {
        for (j, o) in n.iter().enumerate() {
            let (v, w) = (f[i / 2], f[j / 2]);
            same!((m == o, m != o), (v == w, v != w), "equality of {v} and {w}");
            same!(m.partial_cmp(o), v.partial_cmp(&w), "partial order of {v} and {w}");
            same!((m < o, m <= o, m > o, m >= o), (v < w, v <= w, v > w, v >= w), "comparison of {v} and {w}");
        }
    }
    // Owners without a size, but with side effects.
    GHOSTS.with(|g| g.set((0, 0)));
    {
        let g: Vec<Mown<'_, [u8], Ghost>> = (0..r.below(4)).map(|k| if k & 1 == 0 { Mown::new_owned(Ghost::new()) } else { Mown::new_borrowed(&b"xyz"[..]) }).collect();
        let own = g.iter().filter(|m| m.is_owned()).count() as i64;
        same!(GHOSTS.with(|g| g.get()), (own, 0), "owners without a size");
        let h = g.clone();
        ensure!(g == h && h.iter().all(|m| **m == b"xyz"[..]), "clones of owners without a size");
        ensure!(g.iter().zip(&h).all(|(a, b)| a.is_owned() == b.is_owned()), "kind of clones");
        same!(GHOSTS.with(|g| g.get()), (own * 2, own), "clones of owners without a size");
        drop(g);
        same!(GHOSTS.with(|g| g.get()), (own, own), "dropped owners without a size");
    }
    same!(GHOSTS.with(|g| g.get()).0, 0, "dropped owners without a size");
    let cmp = x.cmp(y);
    c.observe(&("mown", oa, ob, x.len(), cmp));
    Ok(())
}

fn run(cx: &mut Ctx) {
    cx.section("convert", (60_000, 2_000_000, 80), |c| {
        reset();
        let mut t = vec![];
        let k = c.idx % 16;
        let r = &mut c.rng;
        match k {
            0 => unique(r, Box::new(D::new()), &mut t)?,
            1 => { let v = ds(r).into_boxed_slice(); unique::<[D]>(r, v, &mut t)? },
            2 => unique::<str>(r, "a\u{e4}b".into(), &mut t)?,
            3 => { let b: Box<dyn Ided> = Box::new(D::new()); let b = trips(r, b, &mut t)?; trips(r, &*b, &mut t)?; },
            4 => unique(r, Box::new(Zst), &mut t)?,
            5 => unique(r, Box::new(Big(D::new(), 1)), &mut t)?,
            6 => shared_rc(r, Rc::new(D::new()), &mut t)?,
            7 => { let v: Rc<[D]> = ds(r).into(); shared_rc(r, v, &mut t)? },
            8 => shared_rc::<str>(r, "xyz".into(), &mut t)?,
            9 => { let v: Rc<dyn Ided> = Rc::new(D::new()); trips(r, v, &mut t)?; },
            10 => shared_rc(r, Rc::new(Big(D::new(), 1)), &mut t)?,
            11 => shared_arc(r, Arc::new(D::new()), &mut t)?,
            12 => { let v: Arc<[D]> = ds(r).into(); shared_arc(r, v, &mut t)? },
            13 => shared_arc::<str>(r, "".into(), &mut t)?,
            14 => { let v: Arc<dyn Ided> = Arc::new(D::new()); trips(r, v, &mut t)?; },
            _ => shared_arc(r, Arc::new(Zst), &mut t)?,
        }
        same!(live(), vec![], "live values at the end of kind {k}");
        c.count("conversions", t.len() as u64);
        c.evals(t.len() as u64);
        c.observe(&(k, &t));
        c.sample(|| format!("kind {k}, conversions {t:?}"));
        Ok(())
    });
    cx.section("mown", (20_000, 500_000, 10), mown);
    cx.section("threads", (200, 2_000, 2), threads);
}

fn main() {
    harness::main(
        "C10",
        "A case is one object taken through a random conversion sequence; distinct = distinct (pointer kind and target, sequence).",
        run,
    );
}
