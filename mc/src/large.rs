//! Whole-vector operations at sizes far beyond what unit tests use: every size around every power of
//! two, against a closed-form model, with each memory request refused in turn.
use crate::elem::*;
use crate::engine::*;
use crate::misc::log2;
use crate::vecs::*;
use crate::{ensure, tr};
use fallible_collections::{FallibleVec, TryClone, TryCollect, TryReserveError, TryVec};
use std::convert::TryFrom;

/// position-dependent and not periodic in any power of two
fn kk(base: u32, i: usize) -> u32 {
    (base + i as u32 * 7 + (i as u32 >> 8) * 13 + (i as u32 >> 16) * 29) & 0xff_ffff
}
pub const LO: [&str; 28] = [
    "resize", "resize_no_copy", "resize_with", "TryVec::resize_with", "extend_from_slice", "extend_from_slice_no_copy",
    "TryVec::extend_from_slice", "append", "TryVec::append", "try_from_elem", "concat", "Vec::try_clone", "TryVec::try_clone",
    "TryVec::try_from(slice)", "collect", "with_capacity and pushes", "insert in the middle",
    "TryVec::try_from(&str)", "try_vec![list]", "try_vec![element; size]", "concat of many",
    "try_push", "try_push_give_back", "TryVec::push", "try_reserve", "TryVec::reserve", "Write::write", "pop, then push",
];
pub const ALL: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20];
pub const SMALL: &[u32] = &[21, 22, 23, 24, 25, 26, 27];
pub const CLONES: &[u32] = &[11, 12, 13];
pub const COLLECT: &[u32] = &[14];
pub const STARTS: [(usize, usize); 6] = [(0, 0), (3, 8), (1000, 1000), (255, 4096), (65536, 65536), (1, 131072)];

/// one of STARTS, or 100 + 64 * length + spare capacity
fn start(x: u32) -> (usize, usize) {
    if x < 100 {
        STARTS[x as usize]
    } else {
        let (len, spare) = ((x - 100) as usize / 64, (x - 100) as usize % 64);
        (len, len + spare)
    }
}

enum Built<T> {
    Grown,
    New(Vec<T>),
    NA,
}
/// words: [family, op, type, start, size, fault]; fault: 0 none, 1+k only request k refused
pub fn case(w: &[u32]) -> Res {
    match w[2] {
        0 => go::<El>(w),
        1 => go::<u8>(w),
        2 => go::<u64>(w),
        9 => go::<B3>(w),
        10 => go::<B300>(w),
        _ => go::<Zst>(w),
    }
}
fn go<T: Elt>(w: &[u32]) -> Res {
    let (op, n, fault) = (w[1], w[4] as usize, w[5]);
    let (len, cap) = start(w[3]);
    zst_reset();
    tr!("{} with size {n}, {} elements of {} in a vector of capacity {cap}, refusing request {fault}-1", LO[op as usize], len, T::NAME);
    let size = std::mem::size_of::<T>();
    let mut v: Vec<T> = sut(|| {
        let mut v = Vec::with_capacity(cap);
        v.extend((0..len).map(|i| T::mk(kk(1, i))));
        v
    });
    let mut tv: TryVec<T> = TryVec::new();
    let on_tv = matches!(op, 3 | 6 | 8 | 12 | 23 | 25 | 26 | 27);
    if on_tv {
        tv = TryVec::from(std::mem::take(&mut v));
    }
    // the argument: n elements
    let mut arg: Vec<T> = Vec::new();
    let mut parts: Option<TryVec<TryVec<T>>> = None;
    match op {
        4..=8 | 11..=13 | 26 => arg = sut(|| (0..n).map(|i| T::mk(kk(500, i))).collect()),
        10 | 20 => {
            parts = Some(sut(|| {
                let mut cut = vec![n / 3, 0, n - n / 3];
                if op == 20 {
                    // parts of 0, 1, 2, 0, 1, 2, ... elements
                    cut.clear();
                    let mut left = n;
                    while left > 0 {
                        let c = (cut.len() % 3).min(left);
                        cut.push(c);
                        left -= c;
                    }
                }
                let mut at = 0;
                let mut out: Vec<TryVec<T>> = Vec::new();
                for c in cut {
                    out.push(TryVec::from((at..at + c).map(|i| T::mk(kk(500, i))).collect::<Vec<T>>()));
                    at += c;
                }
                TryVec::from(out)
            }))
        }
        _ => {}
    }
    let mut targ: TryVec<T> = TryVec::new();
    if op == 8 || op == 12 {
        targ = TryVec::from(std::mem::take(&mut arg));
    }
    let text: String = if op == 17 { (0..n).map(|i| (kk(500, i) & 0x7f) as u8 as char).collect() } else { String::new() };
    let mut c = 0usize;
    let mut gen = || {
        c += 1;
        T::mk(kk(500, c - 1))
    };
    let mut back: Option<u32> = None;
    let mut off: Vec<u32> = Vec::with_capacity(len);
    let (mode, k) = if fault == 0 { (0, 0) } else { (1, fault as u64 - 1) };
    type R<T> = Result<Built<T>, TryReserveError>;
    let g = |x: Result<(), TryReserveError>| x.map(|_| Built::Grown);
    step();
    let (res, nreq, nref): (R<T>, u64, u64) = sut_fault(mode, k, || match op {
        0 => T::resize_copy(&mut v, n, T::mk(kk(500, 0))).map_or(Ok(Built::NA), g),
        1 => g(v.try_resize_no_copy(n, T::mk(kk(500, 0)))),
        2 => g(v.try_resize_with(n, &mut gen)),
        3 => g(tv.resize_with(n, &mut gen)),
        4 => T::ext_copy(&mut v, &arg).map_or(Ok(Built::NA), g),
        5 => g(v.try_extend_from_slice_no_copy(&arg)),
        6 => g(tv.extend_from_slice(&arg)),
        7 => g(v.try_append(&mut arg)),
        8 => g(tv.append(&mut targ)),
        #[cfg(feature = "unstable")]
        9 => fallible_collections::vec::try_from_elem(T::mk(kk(500, 0)), n).map(Built::New),
        10 | 20 => parts.as_ref().unwrap().concat().map(|x| Built::New(x.into_iter().collect())),
        11 => arg.try_clone().map(Built::New),
        12 => targ.try_clone().map(|x| Built::New(x.into_iter().collect())),
        13 => TryVec::try_from(&arg[..]).map(|x| Built::New(x.into_iter().collect())),
        14 => TryCollect::try_collect::<Vec<T>>((0..n).map(|i| T::mk(kk(500, i)))).map(Built::New),
        15 => {
            let mut o: Vec<T> = match FallibleVec::try_with_capacity(n) {
                Ok(o) => o,
                Err(e) => return Err(e),
            };
            for i in 0..n {
                FallibleVec::try_push(&mut o, T::mk(kk(500, i)))?;
            }
            Ok(Built::New(o))
        }
        16 => {
            let at = n.min(len);
            FallibleVec::try_insert(&mut v, at, T::mk(kk(500, 0))).map_err(|(_, e)| e).map(|_| Built::Grown)
        }
        17 => T::from_text(&text).map_or(Ok(Built::NA), |x| x.map(|x| Built::New(x.into_iter().collect()))),
        #[cfg(feature = "unstable")]
        18 => {
            macro_rules! lists {
                ($($n:literal: $($i:literal)*),*) => {
                    match n {
                        $($n => fallible_collections::try_vec![$(T::mk(kk(500, $i))),*],)*
                        // a trailing comma is allowed
                        _ => fallible_collections::try_vec![T::mk(kk(500, 0)), T::mk(kk(500, 1)),],
                    }
                };
            }
            let x: Result<Vec<T>, TryReserveError> = lists!(1: 0, 3: 0 1 2, 5: 0 1 2 3 4, 6: 0 1 2 3 4 5, 7: 0 1 2 3 4 5 6, 9: 0 1 2 3 4 5 6 7 8);
            x.map(Built::New)
        }
        #[cfg(feature = "unstable")]
        19 => fallible_collections::try_vec![T::mk(kk(500, 0)); n].map(Built::New),
        21 => g(v.try_push(T::mk(kk(500, 0)))),
        22 => match v.try_push_give_back(T::mk(kk(500, 0))) {
            Ok(()) => Ok(Built::Grown),
            Err((x, e)) => {
                back = Some(x.key());
                Err(e)
            }
        },
        23 => g(tv.push(T::mk(kk(500, 0)))),
        24 => g(FallibleVec::try_reserve(&mut v, n)),
        25 => g(tv.reserve(n)),
        26 => match T::write(&mut tv, &arg) {
            None => Ok(Built::NA),
            Some(Ok(())) => Ok(Built::Grown),
            Some(Err(())) => Err(Vec::<u16>::new().try_reserve(usize::MAX).unwrap_err()),
        },
        27 => {
            // up to n elements off, then one on
            for _ in 0..n {
                if let Some(x) = tv.pop() {
                    off.push(x.key());
                }
            }
            g(tv.push(T::mk(kk(500, 0))))
        }
        _ => Ok(Built::NA),
    });
    if let Ok(Built::NA) = res {
        drop_in_sut((v, tv, arg, targ, parts));
        return Ok(());
    }
    let cur: &[T] = if on_tv { &tv } else { &v };
    let name = LO[op as usize];
    let what = |i: usize| kk(500, i);
    let same = |got: &[T], want_len: usize, want: &dyn Fn(usize) -> u32, when: &str| -> Res {
        ensure!(got.len() == want_len, "{name}({n}), {when}: {} elements, expected {want_len}", got.len());
        for (i, e) in got.iter().enumerate() {
            let (a, b) = (e.key(), T::norm(want(i)));
            ensure!(a == b, "{name}({n}), {when}: element {i} is {a}, expected {b}");
        }
        Ok(())
    };
    // requests the operation may make
    let grow_to = match op {
        0..=3 => n,
        4..=8 | 26 => len + n,
        16 | 21 | 22 | 23 => len + 1,
        24 | 25 => len + n,
        27 => len - n.min(len) + 1,
        _ => n,
    };
    let fresh = matches!(op, 9..=15 | 17..=20);
    let room = if size == 0 { usize::MAX } else if fresh { 0 } else { cap };
    let bound = if op == 14 { if size == 0 { 0 } else { log2(n as u64) + 1 } } else { (grow_to > room) as u64 };
    if flag(REQS) {
        ensure!(nreq <= bound, "{name}({n}) on {len} elements in capacity {cap}: {nreq} memory requests, at most {bound} needed");
    }
    match &res {
        Err(_) => {
            nontrivial();
            if flag(CLASS) {
                ensure!(nref > 0, "{name}({n}): error although no memory was refused");
            }
            if flag(ERR_CONTENT) && op == 22 {
                ensure!(back == Some(T::norm(kk(500, 0))), "{name} on {len} elements: gave back {back:?}, not the element passed in");
            }
            if flag(ERR_CONTENT) && !fresh {
                same(cur, if op == 27 { len - n.min(len) } else { len }, &|i| kk(1, i), "after the failure")?;
                if op == 7 {
                    same(&arg, n, &what, "appended vector after the failure")?;
                }
                if op == 8 {
                    same(&targ, n, &what, "appended vector after the failure")?;
                }
            }
        }
        Ok(b) => {
            if flag(CLASS) {
                ensure!(nref == 0, "{name}({n}): success although memory was refused");
            }
            if flag(OK_CONTENT) {
                match b {
                    Built::New(x) => {
                        if op == 9 || op == 19 {
                            same(x, n, &|_| kk(500, 0), "result")?;
                        } else if op == 17 {
                            same(x, n, &|i| kk(500, i) & 0x7f, "result")?;
                        } else {
                            same(x, n, &what, "result")?;
                        }
                        if op == 10 || op == 20 {
                            let mut at = 0;
                            for p in parts.as_ref().unwrap().iter() {
                                same(p, p.len(), &|i| kk(500, at + i), "source")?;
                                at += p.len();
                            }
                        }
                        if op == 11 || op == 13 {
                            same(&arg, n, &what, "source")?;
                        }
                        if op == 12 {
                            same(&targ, n, &what, "source")?;
                        }
                    }
                    _ => match op {
                        0 | 1 => same(cur, n, &|i| if i < len { kk(1, i) } else { kk(500, 0) }, "result")?,
                        2 | 3 => same(cur, n, &|i| if i < len { kk(1, i) } else { kk(500, i - len) }, "result")?,
                        21 | 22 | 23 => same(cur, len + 1, &|i| if i < len { kk(1, i) } else { kk(500, 0) }, "result")?,
                        24 | 25 => {
                            same(cur, len, &|i| kk(1, i), "result")?;
                            if op == 24 {
                                ensure!(v.capacity() - len >= n, "{name}({n}) on {len} elements: room for {} more only", v.capacity() - len);
                            }
                        }
                        27 => {
                            let m = len - n.min(len);
                            ensure!(off.len() == len - m && off.iter().enumerate().all(|(i, x)| *x == T::norm(kk(1, len - 1 - i))), "pop returned {off:?} from {len} elements");
                            same(cur, m + 1, &|i| if i < m { kk(1, i) } else { kk(500, 0) }, "result")?
                        }
                        16 => {
                            let at = n.min(len);
                            same(cur, len + 1, &|i| if i < at { kk(1, i) } else if i == at { kk(500, 0) } else { kk(1, i - 1) }, "result")?
                        }
                        _ => {
                            same(cur, len + n, &|i| if i < len { kk(1, i) } else { kk(500, i - len) }, "result")?;
                            match op {
                                7 => same(&arg, 0, &what, "appended vector")?,
                                8 => same(&targ, 0, &what, "appended vector")?,
                                _ => same(&arg, n, &what, "source")?,
                            }
                        }
                    },
                }
            }
        }
    }
    state(hash64([op as u64, w[2] as u64, w[3] as u64, n as u64, res.is_ok() as u64]));
    if res.is_ok() {
        maximum("elements in the largest vector", grow_to as u64);
    }
    drop_in_sut((v, tv, arg, targ, parts, res.ok()));
    Ok(())
}
/// sizes around every power of two, and around the starting lengths and capacities
fn sizes(thorough: bool) -> Vec<u32> {
    let mut s: Vec<u32> = vec![0, 1, 2, 3, 5, 6, 7, 9, 100, 254, 256, 999, 1000, 1001, 1003, 3841, 4096, 100000];
    let d = if thorough { 3 } else { 1 };
    for p in 5..=(if thorough { 20 } else { 17 }) {
        for x in (1u32 << p) - d..=(1 << p) + d {
            s.push(x);
        }
    }
    s.extend(0..=if thorough { 2100 } else { 300 });
    s.sort();
    s.dedup();
    s
}
pub fn all(e: &Eng, fam: u32, ops: &[u32], faults: bool) {
    let mut cs = Vec::new();
    for n in sizes(e.thorough) {
        for &op in ops {
            for ty in [0, 1, 2, 9, 10, 3] {
                let most = match ty {
                    0 => 4097,
                    10 => 5000,
                    9 | 3 => 70000,
                    _ => u32::MAX,
                };
                if n > most || op == 18 && !matches!(n, 1 | 2 | 3 | 5 | 6 | 7 | 9) || op == 17 && ty != 1 || op == 20 && n > 9000 || (ty == 0 || ty == 3) && matches!(op, 0 | 4) {
                    continue;
                }
                for st in 0..STARTS.len() {
                    let (len, cap) = STARTS[st];
                    if matches!(op, 9..=15 | 17..=20) && st > 0 || (ty == 0 || ty == 10) && (len > 4097 || cap > 4097) {
                        continue;
                    }
                    if n > 5000 && st > 1 && ty != 1 {
                        continue;
                    }
                    let fs: &[u32] = if !faults { &[0] } else if op == 14 { &[0, 1, 2, 3, 5, 9, 12, 15] } else { &[0, 1, 2] };
                    for f in fs {
                        cs.push(vec![fam, op, ty, st as u32, n, *f]);
                    }
                }
            }
        }
    }
    e.all("whole-vector operations around every power of two", cs);
    if ops.len() < 15 {
        return;
    }
    // every length and spare capacity of a middling vector
    let spares: Vec<u32> = if e.thorough { (0..64).collect() } else { (0..=34).collect() };
    let ns: Vec<u32> = if e.thorough { (0..=140).collect() } else { (0..=70).chain([96, 100]).chain(127..=130).collect() };
    let lens = if e.thorough { 70 } else { 50 };
    let n0 = e.cases_so_far();
    e.par(lens * spares.len(), |i| {
        let (len, spare) = ((i / spares.len()) as u32, spares[i % spares.len()]);
        for &op in ops.iter().chain(SMALL) {
            if matches!(op, 9..=15 | 17..=20) {
                continue;
            }
            for &n in &ns {
                if n > 0 && matches!(op, 21..=23) || n > len && op == 27 {
                    continue;
                }
                for ty in [0, 1, 3] {
                    if ty != 1 && matches!(op, 0 | 4 | 26) || ty == 3 && spare > 0 {
                        continue;
                    }
                    for f in 0..if faults { 3 } else { 1 } {
                        e.case(&[fam, op, ty, 100 + 64 * len + spare, n, f]);
                    }
                }
            }
        }
    });
    e.section("whole-vector operations from every length and spare capacity", e.cases_so_far() - n0);
    // one million elements and more, and refused requests for sizes up to what a request can be
    let mut cs = Vec::new();
    for p in 18..32 {
        for n in [(1u32 << p) - 1, 1 << p, (1 << p) + 1] {
            for &op in ops {
                for ty in [1, 2, 10] {
                    for st in 0..3 {
                        if matches!(op, 9 | 15 | 19 | 20) && st > 0 {
                            continue;
                        }
                        if faults && matches!(op, 0 | 1 | 2 | 3 | 9 | 15 | 19) {
                            cs.push(vec![fam, op, ty, st, n, 1]);
                        }
                        if st == 0 && ty == 1 && n == 1 << p && p <= if e.thorough { 24 } else { 21 } && op != 17 && op != 18 && op != 20 {
                            cs.push(vec![fam, op, ty, st, n, 0]);
                        }
                    }
                }
            }
        }
    }
    e.all("whole-vector operations on millions of elements, refused requests for up to 2^32 elements", cs);
}
