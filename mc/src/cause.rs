//! What a reported error says: refused memory (with the layout that was refused) or a size that
//! cannot be represented; for bounded reads and writes, the kind of the io error.
use crate::vecs::drop_in_sut;
use crate::engine::*;
use crate::ledger::l;
use crate::{ensure, tr};
#[allow(unused_imports)]
use fallible_collections::{FallibleArc, FallibleBox, FallibleRc, FallibleVec, TryBox, TryClone, TryCollect, TryReserveError, TryVec};
use std::convert::TryFrom;

pub enum Er {
    /// the layout in the error is the one refused
    Exact(TryReserveError),
    /// only the kind is promised
    #[allow(dead_code)]
    Kind(TryReserveError),
    #[cfg(feature = "std_io")]
    Io(std::io::Error),
    NA,
}
type R = Result<(), Er>;
fn ex<T>(x: Result<T, TryReserveError>) -> R {
    match x {
        Ok(t) => {
            drop(t);
            Ok(())
        }
        Err(e) => Err(Er::Exact(e)),
    }
}
#[cfg(feature = "unstable")]
fn kind<T>(x: Result<T, TryReserveError>) -> R {
    x.map(|_| ()).map_err(Er::Kind)
}
fn ex2<T>(x: Result<(), (T, TryReserveError)>) -> R {
    x.map_err(|(t, e)| {
        drop(t);
        Er::Exact(e)
    })
}
#[cfg(feature = "std_io")]
fn io<T>(x: std::io::Result<T>) -> R {
    x.map(|_| ()).map_err(Er::Io)
}

pub const OPS: [&str; 44] = [
    "try_reserve", "try_push", "try_push_give_back", "try_insert", "try_append", "try_resize_with", "try_resize_no_copy",
    "try_extend_from_slice_no_copy", "try_with_capacity", "TryVec::reserve", "TryVec::push", "TryVec::resize_with", "TryVec::append",
    "TryVec::extend_from_slice", "TryVec::with_capacity", "TryVec::concat", "Vec::try_clone", "TryVec::try_clone", "TryVec::try_from(slice)",
    "try_collect", "Box::try_new", "TryBox::try_new", "Box::try_clone", "TryBox::try_clone", "Option<Box>::try_clone", "Vec<Vec>::try_clone",
    "try_from_elem", "try_vec!", "Rc::try_new", "Arc::try_new", "tryformat", "TryVec::try_from(&str)", "try_read_up_to", "Take::try_read_to_end",
    "Take::read_into_try_vec", "Write::write", "BTreeMap::try_insert", "Entry::or_try_insert", "BTreeMap::split_off", "BTreeMap::try_clone",
    "BTreeSet::try_insert", "BTreeSet::replace", "BTreeSet::try_split_off", "Rc::try_clone and Arc::try_clone",
];
const SMALL: u32 = 40;
fn arg(w: u32) -> usize {
    if w < 1000 {
        return w as usize;
    }
    let i = isize::MAX as usize;
    match w - 1000 {
        0 => usize::MAX,
        1 => usize::MAX - 1,
        2 => usize::MAX - 3,
        3 => i,
        4 => i + 1,
        5 => i - 1,
        6 => i / 8,
        7 => i / 8 + 1,
        8 => usize::MAX / 8,
        9 => usize::MAX / 8 + 2,
        10 => i / 300,
        11 => i / 300 + 1,
        12 => usize::MAX / 300 + 1,
        13 => 1 << 40,
        14 => (1 << 61) + 1,
        15 => i - 3,
        16 => i - 4,
        n => 1usize << (n - 17 + 12),
    }
}
const HUGE: std::ops::Range<u32> = 1000..1017 + 52;

/// words: [family, op, type, length, spare, argument, fault]; fault 1+2k: only request k, 2+2k: k and all later
pub fn case(w: &[u32]) -> Res {
    match w[2] {
        0 => go::<W<u8>>(w, &|i| W(i as u8)),
        1 => go::<W<u64>>(w, &|i| W(i as u64)),
        2 => go::<W<[u32; 75]>>(w, &|i| W([i as u32; 75])),
        3 => go::<W<()>>(w, &|_| W(())),
        _ => go::<Vec<u16>>(w, &|i| vec![i as u16; 3]),
    }
}
struct W<X>(X);
impl<X: Copy> TryClone for W<X> {
    fn try_clone(&self) -> Result<Self, TryReserveError> {
        Ok(W(self.0))
    }
}
fn go<T: TryClone>(w: &[u32], mk: &dyn Fn(usize) -> T) -> Res {
    let (op, len, spare, n, fault) = (w[1], w[3] as usize, w[4] as usize, arg(w[5]), w[6]);
    let (mode, k) = if fault == 0 { (0, 0) } else { (2 - (fault & 1) as u8, (fault as u64 - 1) / 2) };
    tr!("{} with argument {n} on {len} elements with room for {spare} more, refusing request {k} (mode {mode})", OPS[op as usize]);
    let small = n.min(1000);
    let many = |n: usize| -> Vec<T> { (0..n).map(mk).collect() };
    let build = || {
        let mut v = Vec::with_capacity(len + spare);
        v.extend((0..len).map(mk));
        v
    };
    step();
    macro_rules! run {
        ($s:ident = $setup:expr => $body:expr) => {{
            #[allow(unused_mut)]
            let mut $s = sut(|| $setup);
            let r = sut_fault(mode, k, || $body);
            let first = l().first_refused;
            drop_in_sut($s);
            (r.0, r.1, r.2, first)
        }};
    }
    let b = |x: T| -> Box<T> { Box::new(x) };
    let (res, _nreq, nref, first): (R, u64, u64, (usize, usize)) = match op {
        0 => run!(v = build() => ex(FallibleVec::try_reserve(&mut v, n))),
        1 => run!(s = (build(), Some(mk(9))) => ex(FallibleVec::try_push(&mut s.0, s.1.take().unwrap()))),
        2 => run!(s = (build(), Some(mk(9))) => ex2(s.0.try_push_give_back(s.1.take().unwrap()))),
        3 => run!(s = (build(), Some(mk(9))) => ex2(FallibleVec::try_insert(&mut s.0, small.min(len), s.1.take().unwrap()))),
        4 => run!(s = (build(), many(small)) => ex(s.0.try_append(&mut s.1))),
        5 => run!(s = (build(), many(small)) => ex(s.0.try_resize_with(n, || s.1.pop().unwrap()))),
        6 => run!(s = (build(), Some(mk(9))) => ex(s.0.try_resize_no_copy(n, s.1.take().unwrap()))),
        7 => run!(s = (build(), many(small)) => ex(s.0.try_extend_from_slice_no_copy(&s.1))),
        8 => run!(s = () => { let _ = s; ex(<Vec<T> as FallibleVec<T>>::try_with_capacity(n)) }),
        9 => run!(v = TryVec::from(build()) => ex(v.reserve(n))),
        10 => run!(s = (TryVec::from(build()), Some(mk(9))) => ex(s.0.push(s.1.take().unwrap()))),
        11 => run!(s = (TryVec::from(build()), many(small)) => ex(s.0.resize_with(n, || s.1.pop().unwrap()))),
        12 => run!(s = (TryVec::from(build()), TryVec::from(many(small))) => ex(s.0.append(&mut s.1))),
        13 => run!(s = (TryVec::from(build()), many(small)) => ex(s.0.extend_from_slice(&s.1))),
        14 => run!(s = () => { let _ = s; ex(TryVec::<T>::with_capacity(n)) }),
        15 => run!(s = TryVec::from(vec![TryVec::from(build()), TryVec::from(many(small))]) => ex(s.concat())),
        16 => run!(s = build() => ex(s.try_clone())),
        17 => run!(s = TryVec::from(build()) => ex(s.try_clone())),
        18 => run!(s = build() => ex(TryVec::try_from(&s[..]))),
        19 => run!(s = Some(build()) => ex(TryCollect::try_collect::<Vec<T>>(s.take().unwrap()))),
        20 => run!(s = Some(mk(9)) => ex(<Box<T> as FallibleBox<T>>::try_new(s.take().unwrap()))),
        21 => run!(s = Some(mk(9)) => ex(TryBox::try_new(s.take().unwrap()))),
        22 => run!(s = b(mk(9)) => ex(s.try_clone())),
        23 => run!(s = TryBox::try_new(mk(9)).unwrap() => ex(s.try_clone())),
        24 => run!(s = Some(b(mk(9))) => ex(s.try_clone())),
        25 => run!(s = vec![build(), many(small)] => ex(s.try_clone())),
        #[cfg(feature = "unstable")]
        26 => run!(s = Some(mk(9)) => ex(fallible_collections::vec::try_from_elem(s.take().unwrap(), n))),
        #[cfg(feature = "unstable")]
        27 => run!(s = Some(mk(9)) => ex(fallible_collections::try_vec![s.take().unwrap(); n])),
        #[cfg(feature = "unstable")]
        28 => run!(s = Some(mk(9)) => kind(<std::rc::Rc<T> as FallibleRc<T>>::try_new(s.take().unwrap()))),
        #[cfg(feature = "unstable")]
        29 => run!(s = Some(mk(9)) => kind(<std::sync::Arc<T> as FallibleArc<T>>::try_new(s.take().unwrap()))),
        30 if small == n => {
            let text = "x".repeat(n);
            run!(s = () => { let _ = s; ex(fallible_collections::tryformat!(n, "{text}")) })
        }
        30 => run!(s = () => { let _ = s; ex(fallible_collections::tryformat!(n, "{}{}", 1, "abc")) }),
        31 => run!(s = "y".repeat(small) => ex(TryVec::try_from(&s[..]))),
        #[cfg(feature = "std_io")]
        32 => run!(s = TryVec::from(vec![1u8; len]) => io(fallible_collections::try_read_up_to(&mut &[7u8; 50][..], n as u64, &mut s))),
        #[cfg(feature = "std_io")]
        33 => run!(s = TryVec::from(vec![1u8; len]) => {
            use std::io::Read;
            io(fallible_collections::TryRead::try_read_to_end(&mut (&[7u8; 50][..]).take(n as u64), &mut s))
        }),
        #[cfg(feature = "std_io")]
        34 => run!(s = () => {
            use std::io::Read;
            let _ = s;
            io(fallible_collections::TryRead::read_into_try_vec(&mut (&[7u8; 50][..]).take(n as u64)))
        }),
        #[cfg(feature = "std_io")]
        35 => run!(s = (TryVec::from({ let mut v = Vec::with_capacity(len + spare); v.resize(len, 1u8); v }), vec![2u8; small]) => io(std::io::Write::write(&mut s.0, &s.1))),
        #[cfg(feature = "unstable")]
        36..=42 => {
            use fallible_collections::btree::{BTreeMap, BTreeSet};
            let map = || {
                let mut m = BTreeMap::new();
                for i in 0..len {
                    let _ = m.try_insert(2 * i, mk(i));
                }
                m
            };
            let set = || {
                let mut m = BTreeSet::new();
                for i in 0..len {
                    let _ = m.try_insert(2 * i);
                }
                m
            };
            match op {
                36 => run!(s = (map(), Some(mk(9))) => ex(s.0.try_insert(n, s.1.take().unwrap()))),
                37 => run!(s = (map(), Some(mk(9))) => ex(s.0.try_entry(n).and_then(|e| e.or_try_insert(s.1.take().unwrap()).map(|_| ())))),
                38 => run!(s = map() => ex(s.split_off(&n))),
                39 => run!(s = map() => ex(s.try_clone())),
                40 => run!(s = set() => ex(s.try_insert(n))),
                41 => run!(s = set() => ex(s.replace(n))),
                _ => run!(s = set() => ex(s.try_split_off(&n))),
            }
        }
        43 => run!(s = (std::rc::Rc::new(mk(1)), std::sync::Arc::new(mk(2))) => ex(s.0.try_clone()).and(ex(s.1.try_clone()))),
        _ => (Err(Er::NA), 0, 0, (0, 0)),
    };
    let name = OPS[op as usize];
    let e = match res {
        Err(Er::NA) => return Ok(()),
        Ok(()) => {
            ensure!(nref == 0, "{name}({n}): success although memory was refused");
            return Ok(());
        }
        Err(e) => e,
    };
    nontrivial();
    state(hash64([op as u64, w[2] as u64, nref, n as u64, first.0 as u64]));
    let (t, exact) = match e {
        #[cfg(feature = "std_io")]
        Er::Io(e) => {
            ensure!(e.kind() == std::io::ErrorKind::OutOfMemory, "{name}({n}) on {len} bytes: the failed reservation is reported as {:?}", e.kind());
            drop_in_sut(e);
            return Ok(());
        }
        Er::Exact(e) => (e, true),
        Er::Kind(e) => (e, false),
        Er::NA => unreachable!(),
    };
    let d = format!("{t:?}");
    tr!("-> {d}; {nref} request(s) refused, the first {first:?}");
    let (total, size) = match op {
        0 | 9 => (len.checked_add(n), std::mem::size_of::<T>()),
        5 | 6 | 8 | 11 | 14 | 26 | 27 => (Some(n), std::mem::size_of::<T>()),
        30 => (Some(n), 1),
        _ => (Some(0), 1),
    };
    let fits = total.map_or(false, |t| t.checked_mul(size).map_or(false, |b| b <= isize::MAX as usize));
    if nref == 0 {
        ensure!(d.contains("CapacityOverflow"), "{name}({n}) on {len} elements: nothing was refused, but the error is {d}");
        ensure!(!fits, "{name}({n}) on {len} elements of {size} bytes: reports a capacity overflow, but the size can be represented and no memory was asked for");
        return Ok(());
    }
    ensure!(fits, "{name}({n}) on {len} elements of {size} bytes cannot be represented, yet {} bytes were asked for", first.0);
    ensure!(d.contains("AllocError"), "{name}({n}) on {len} elements: a request for {} bytes was refused, but the error is {d}", first.0);
    if exact {
        let num = |key: &str| -> Option<usize> {
            let s = &d[d.find(key)? + key.len()..];
            s[..s.find(|c: char| !c.is_ascii_digit())?].parse().ok()
        };
        if let (Some(s), Some(a)) = (num("size: "), num("align: ")) {
            ensure!((s, a) == first, "{name}({n}) on {len} elements: a request for {} bytes aligned to {} was refused, but the error says {s} aligned to {a}", first.0, first.1);
        }
    }
    Ok(())
}
pub fn all(e: &Eng, fam: u32) {
    let top: u32 = if e.thorough { 220 } else { SMALL };
    let n0 = e.cases_so_far();
    e.par(top as usize + 1, |len| {
        let len = len as u32;
        for op in 0..36 {
            for ty in 0..5 {
                for spare in [0, 1, 2, 5, 9] {
                    let takes_arg = matches!(op, 0 | 3..=9 | 11..=15 | 25..=27 | 30..=35);
                    let huge = matches!(op, 0 | 5 | 6 | 8 | 9 | 11 | 14 | 26 | 27 | 30 | 32..=34);
                    let zst_ok = !(ty == 3 && matches!(op, 5 | 6 | 11 | 26 | 27));
                    let args = (0..if takes_arg { if e.thorough { 40 } else { 20 } } else { 1 })
                        .chain(if takes_arg { vec![31, 32, 33, 64, 100, 900] } else { vec![] })
                        .chain(if huge && zst_ok { HUGE } else { 0..0 });
                    for a in args {
                        if spare > 0 && matches!(op, 8 | 14..=34) || ty > 0 && op >= 30 || len > 0 && matches!(op, 8 | 14 | 20..=24 | 26..=31 | 34) {
                            continue;
                        }
                        if a >= 1000 && (len > 9 && len % 8 > 1) {
                            continue;
                        }
                        if a >= 1000 && arg(a) < 1 << 31 {
                            // a request that would be met: only refused
                            for f in 1..=2 {
                                if arg(a) > (len + spare) as usize && !matches!(op, 32 | 33) {
                                    e.case(&[fam, op, ty, len, spare, a, f]);
                                }
                            }
                            continue;
                        }
                        e.case(&[fam, op, ty, len, spare, a, 0]);
                        let ks = if matches!(op, 16..=19 | 25 | 15) && ty == 4 { 2 * len + 8 } else if matches!(op, 7 | 13 | 26) && ty == 4 { 8 } else { 4 };
                        for f in 1..=ks.min(60) {
                            e.case(&[fam, op, ty, len, spare, a, f]);
                        }
                    }
                }
            }
        }
    });
    e.section("errors of vectors, boxes, pointers, text and bounded reads", e.cases_so_far() - n0);
    #[cfg(feature = "unstable")]
    {
        let n0 = e.cases_so_far();
        e.par(if e.thorough { 900 } else { 320 }, |len| {
            let len = len as u32;
            for op in 36..43 {
                for ty in [1, 4] {
                    if ty == 4 && op > 39 {
                        continue;
                    }
                    // at the front, in the middle, at the end, and on a key that is there
                    for a in [1, len, len | 1, 2 * len + 1, len & !1] {
                        if a >= 1000 {
                            continue;
                        }
                        for f in 0..=if op == 39 { 20 } else { 10 } {
                            e.case(&[fam, op, ty, len, 0, a, f]);
                        }
                    }
                }
            }
        });
        e.section("errors of B-tree maps and sets", e.cases_so_far() - n0);
    }
}
