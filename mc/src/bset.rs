//! B-tree sets: operation histories, refused requests, panicking and inconsistent comparisons, set algebra.
use crate::elem::*;
use crate::engine::*;
use crate::ledger::l;
use crate::{ensure, tr};
use fallible_collections::btree::BTreeSet;
use std::ops::Bound;

pub type S = BTreeSet<El>;

#[derive(Clone, Copy, PartialEq, Debug)]
struct E {
    k: u32,
    id: u32,
}
struct T {
    s: S,
    md: Vec<E>,
}
#[derive(Clone, Copy, PartialEq)]
enum Arm {
    No,
    Fault(u8, u64),
    Panic(u32, u64),
    Script(u32, u32),
    Refuse(u64),
}

// operations; G at a gap, X at an element
pub const G_INS: u32 = 0;
pub const G_REPL: u32 = 1;
pub const G_REM: u32 = 2;
pub const G_TAKE: u32 = 3;
pub const G_SPL_L: u32 = 4;
pub const G_SPL_R: u32 = 5;
pub const G_EXT: u32 = 6;
pub const G_SPL_APP: u32 = 7;
pub const X_INS: u32 = 16;
pub const X_REPL: u32 = 17;
pub const X_REM: u32 = 18;
pub const X_TAKE: u32 = 19;
pub const X_SPL_L: u32 = 20;
pub const X_SPL_R: u32 = 21;
pub const X_APP: u32 = 22;
pub const W_CLEAR: u32 = 32;
pub const W_CLONE: u32 = 33;
pub const W_COLLECT: u32 = 34;
pub const W_SWAPAPP: u32 = 35;
pub const W_RANGE: u32 = 36;
pub const OPS: &[u32] = &[
    G_INS, G_REPL, G_REM, G_TAKE, G_SPL_L, G_SPL_R, G_EXT, G_SPL_APP, X_INS, X_REPL, X_REM, X_TAKE, X_SPL_L, X_SPL_R, X_APP, W_CLEAR,
    W_CLONE, W_COLLECT, W_SWAPAPP, W_RANGE,
];
fn name(o: u32) -> &'static str {
    match o {
        G_INS => "try_insert new",
        G_REPL => "replace new",
        G_REM => "remove absent",
        G_TAKE => "take absent",
        G_SPL_L | X_SPL_L => "try_split_off, keep left",
        G_SPL_R | X_SPL_R => "try_split_off, keep right",
        G_EXT => "extend",
        G_SPL_APP => "try_split_off and append back",
        X_INS => "try_insert present",
        X_REPL => "replace present",
        X_REM => "remove",
        X_TAKE => "take",
        X_APP => "append with an equal element",
        W_CLEAR => "clear",
        W_CLONE => "clone",
        W_COLLECT => "into_iter.collect",
        W_SWAPAPP => "append into empty",
        W_RANGE => "range",
        _ => "?",
    }
}
fn positions(o: u32, n: usize) -> usize {
    match o {
        0..=15 => n + 1,
        16..=31 => n,
        _ => 1,
    }
}
const STEP: u32 = 64;
fn gapkey(md: &[E], p: usize) -> u32 {
    let lo = if p == 0 { 0 } else { md[p - 1].k };
    let hi = if p < md.len() { md[p].k } else { lo + 2 * STEP };
    (lo + hi) / 2
}
impl T {
    fn ins(&mut self, k: u32) -> Res {
        let x = El::new(k);
        let id = x.id;
        step();
        match sut(|| self.s.try_insert(x)) {
            Ok(true) => {}
            Ok(false) => return Err(format!("try_insert of the new element {k} returned false").into()),
            Err(_) => return Err("try_insert failed although no memory was refused".into()),
        }
        let g = self.md.partition_point(|e| e.k < k);
        self.md.insert(g, E { k, id });
        Ok(())
    }
    fn take(&mut self, k: u32) -> Res {
        let i = self.md.iter().position(|e| e.k == k).unwrap();
        let e = self.md.remove(i);
        step();
        let x = sut(|| self.s.take(&Q(k)));
        ensure!(x.as_ref().map(|x| x.id) == Some(e.id), "take({k}) returned {x:?}, not the stored element");
        Ok(())
    }
    fn dispose(self) {
        let T { s, md: _md } = self;
        sut(|| drop(s));
    }
}
/// builders 0 ascending, 1 descending, 2 evens then odds, 3 by append of alternate elements; trims 0 none, 1 front, 2 back, 3 every other
fn start(w: &[u32]) -> Result<T, Fail> {
    let (b, n, tr, k) = (w[0], w[1], w[2], w[3]);
    let mut t = T { s: sut(S::new), md: vec![] };
    let key = |i: u32| (i + 1) * STEP;
    match b {
        1 => (0..n).rev().try_for_each(|i| t.ins(key(i)))?,
        2 => (0..n).step_by(2).chain((1..n).step_by(2)).try_for_each(|i| t.ins(key(i)))?,
        3 => {
            let mut o = T { s: sut(S::new), md: vec![] };
            for i in 0..n {
                (if i % 2 == 0 { &mut t } else { &mut o }).ins(key(i))?;
            }
            step();
            sut(|| t.s.append(&mut o.s));
            t.md.append(&mut o.md);
            t.md.sort_by_key(|e| e.k);
            ensure!(o.s.is_empty(), "append left elements behind");
        }
        _ => (0..n).try_for_each(|i| t.ins(key(i)))?,
    }
    for j in 0..k.min(n) {
        let l = t.md.len();
        let i = match tr {
            1 => 0,
            2 => l - 1,
            3 => j as usize % l,
            _ => break,
        };
        let k = t.md[i].k;
        t.take(k)?;
    }
    Ok(t)
}
fn call<R>(arm: Arm, f: impl FnOnce() -> R) -> Result<Option<R>, Fail> {
    match arm {
        Arm::No => Ok(Some(sut(f))),
        Arm::Fault(m, k) => Ok(Some(sut_fault(m, k, f).0)),
        Arm::Refuse(k) => {
            l().arm(1, k);
            let x = sut_catch(f);
            l().disarm();
            match x {
                Ok(x) => Ok(Some(x)),
                Err(Caught::Other(_)) if l().nrefused > 0 => Ok(None),
                Err(_) => Err("panicked although no memory was refused".into()),
            }
        }
        Arm::Panic(mask, at) => {
            r().plan_panic(mask, at);
            let x = sut_catch(f);
            r().panic_mask = 0;
            let second = second_fault();
            match x {
                Ok(x) => Ok(Some(x)),
                Err(Caught::Injected) => Ok(None),
                Err(Caught::Other(_)) if second => Ok(None),
                Err(Caught::Other(m)) => Err(format!("panicked by itself: {m}").into()),
            }
        }
        Arm::Script(n, a) => {
            let ans: Vec<u8> = (0..n & 255).map(|i| (a >> (2 * i) & 3) as u8).collect();
            let g = r();
            g.script = ans.as_ptr();
            g.script_len = ans.len();
            g.script_pos = 0;
            g.script_skip = (n >> 8) as usize;
            g.cmp_limit = g.ncmp + 1_000_000;
            let x = sut_catch(f);
            g.script_len = 0;
            g.script = std::ptr::null();
            g.cmp_limit = u64::MAX;
            Ok(x.ok())
        }
    }
}
/// Outcome: Some(true) done, Some(false) reported failure, None panicked
fn apply(t: &mut T, o: u32, p: usize, arm: Arm) -> Result<Option<bool>, Fail> {
    macro_rules! go {
        ($f:expr) => {
            match call(arm, $f)? {
                Some(x) => x,
                None => return Ok(None),
            }
        };
    }
    macro_rules! ok {
        ($r:expr) => {
            match $r {
                Ok(x) => x,
                Err(_) => {
                    ensure!(matches!(arm, Arm::Fault(..) | Arm::Panic(..)) && l().nrefused > 0 || r().clone_failed, "reported an allocation error although no request was refused");
                    return Ok(Some(false));
                }
            }
        };
    }
    let loose = matches!(arm, Arm::Script(..));
    let n = t.md.len();
    tr!("{} at {p} of {n} elements", name(o));
    step();
    let s = &mut t.s;
    let done = Ok(Some(true));
    match o {
        G_INS | X_INS | G_REPL | X_REPL => {
            let there = o == X_INS || o == X_REPL;
            let k = if there { t.md[p].k } else { gapkey(&t.md, p) };
            let x = El::new(k);
            let id = x.id;
            if o == G_INS || o == X_INS {
                let res = go!(|| s.try_insert(x));
                let new = ok!(res);
                if loose {
                    return done;
                }
                ensure!(new == !there, "try_insert of {} element {k} returned {new}", if there { "the present" } else { "the new" });
                if !there {
                    t.md.insert(p, E { k, id });
                }
            } else {
                let res = go!(|| s.replace(x));
                let old = ok!(res);
                if loose {
                    return done;
                }
                ensure!(old.as_ref().map(|x| x.id) == if there { Some(t.md[p].id) } else { None }, "replace({k}) returned {old:?}");
                if there {
                    t.md[p].id = id
                } else {
                    t.md.insert(p, E { k, id })
                }
            }
        }
        G_REM | G_TAKE | X_REM | X_TAKE => {
            let there = o == X_REM || o == X_TAKE;
            let k = if there { t.md[p].k } else { gapkey(&t.md, p) };
            if o == G_REM || o == X_REM {
                let was = go!(|| s.remove(&Q(k)));
                if loose {
                    return done;
                }
                ensure!(was == there, "remove({k}) returned {was}");
            } else {
                let x = go!(|| s.take(&Q(k)));
                if loose {
                    return done;
                }
                ensure!(x.as_ref().map(|x| x.id) == if there { Some(t.md[p].id) } else { None }, "take({k}) returned {x:?}");
            }
            if there {
                t.md.remove(p);
            }
        }
        G_SPL_L | G_SPL_R | X_SPL_L | X_SPL_R | G_SPL_APP => {
            let k = if o == X_SPL_L || o == X_SPL_R { t.md[p].k } else { gapkey(&t.md, p) };
            let res = go!(|| s.try_split_off(&Q(k)));
            let right = ok!(res);
            if loose {
                sut(|| drop(right));
                return done;
            }
            let rmd = t.md.split_off(p);
            check(&t.s, &t.md).map_err(|f| Fail { key: f.key, msg: format!("left part: {}", f.msg) })?;
            let mut right = T { s: right, md: rmd };
            check(&right.s, &right.md).map_err(|f| Fail { key: f.key, msg: format!("right part: {}", f.msg) })?;
            if o == G_SPL_APP {
                sut(|| t.s.append(&mut right.s));
                ensure!(right.s.is_empty(), "append left elements behind");
                t.md.append(&mut right.md);
            } else if o == G_SPL_R || o == X_SPL_R {
                std::mem::swap(t, &mut right);
            }
            right.dispose();
        }
        G_EXT => {
            let ks = [gapkey(&t.md, p), t.md.last().map_or(5, |e| e.k) + 7, t.md.first().map_or(3, |e| e.k)];
            let xs: Vec<El> = ks.iter().map(|k| El::new(*k)).collect();
            let ids: Vec<u32> = xs.iter().map(|x| x.id).collect();
            let [a, b, c]: [El; 3] = xs.try_into().ok().unwrap();
            go!(|| s.extend([a, b, c]));
            if loose {
                return done;
            }
            for (k, id) in ks.into_iter().zip(ids) {
                if let Err(i) = t.md.binary_search_by_key(&k, |e| e.k) {
                    t.md.insert(i, E { k, id })
                }
            }
        }
        X_APP => {
            let mut b = T { s: sut(S::new), md: vec![] };
            b.ins(t.md[p].k)?;
            b.ins(gapkey(&t.md, p))?;
            let bs = &mut b.s;
            let done2 = call(arm, || s.append(bs))?.is_some();
            if !done2 || loose {
                let c = b.s.iter().map(|x| x.check("iteration")).count();
                ensure!(c == b.s.len(), "after a caught panic the appended set counts {} but yields {c}", b.s.len());
                let x = std::mem::take(&mut b.s);
                sut(|| drop(x));
                return if done2 { done } else { Ok(None) };
            }
            ensure!(b.s.is_empty() && b.s.iter().next().is_none(), "append left elements behind");
            for e in b.md {
                match t.md.binary_search_by_key(&e.k, |e| e.k) {
                    Ok(i) => t.md[i] = e,
                    Err(i) => t.md.insert(i, e),
                }
            }
        }
        W_CLEAR => {
            go!(|| s.clear());
            t.md.clear();
        }
        W_CLONE => {
            let c = go!(|| s.clone());
            if loose {
                sut(|| drop(c));
                return done;
            }
            check(&t.s, &t.md)?;
            let mut c = T { s: c, md: vec![] };
            ensure!(c.s.len() == n, "a clone of {n} elements has {}", c.s.len());
            c.md = c.s.iter().map(|x| E { k: x.key, id: x.id }).collect();
            ensure!(c.md.iter().zip(&t.md).all(|(a, b)| a.k == b.k && a.id != b.id) && c.md.len() == n, "a clone differs from its source");
            std::mem::swap(t, &mut c);
            c.dispose();
        }
        W_COLLECT => {
            let c: S = go!(|| std::mem::take(s).into_iter().collect());
            t.s = c;
        }
        W_SWAPAPP => {
            let mut e = S::new();
            let e2 = &mut e;
            go!(|| e2.append(s));
            ensure!(t.s.is_empty() && t.s.iter().next().is_none(), "append left elements behind");
            t.s = e;
        }
        W_RANGE => {
            let md = &t.md;
            let b = go!(|| {
                let mut good = true;
                for i in 0..md.len().min(8) {
                    let a = Q(md[i].k);
                    let z = Q(md[n - 1 - i / 2].k);
                    if a.0 > z.0 {
                        continue;
                    }
                    let mut it = s.range::<Q, _>((Bound::Included(&a), Bound::Included(&z)));
                    let mut c = 0;
                    for j in 0..=n {
                        let x = if j % 2 == 0 { it.next() } else { it.next_back() };
                        let Some(x) = x else { break };
                        x.check("range");
                        c += 1;
                    }
                    good &= c == n - i - i / 2;
                }
                good
            });
            ensure!(b || loose, "range yields the wrong number of elements");
        }
        _ => return Err("harness: unknown set operation".into()),
    }
    done
}
fn check(s: &S, md: &[E]) -> Res {
    let n = md.len();
    ensure!(s.len() == n && s.is_empty() == (n == 0), "len() is {}, expected {n}", s.len());
    let mut it = s.iter();
    for (i, e) in md.iter().enumerate() {
        ensure!(it.len() == n - i, "iter().len() is {} with {} left", it.len(), n - i);
        let x = it.next();
        ensure!(x.map(|x| x.id) == Some(e.id), "element {i} is {x:?}, expected {} (or another object of that value)", e.k);
        x.unwrap().check("iteration");
    }
    ensure!(it.next().is_none(), "iteration yields more than {n} elements");
    ensure!(s.iter().rev().map(|x| x.id).eq(md.iter().rev().map(|e| e.id)), "backward iteration differs");
    ensure!(s.into_iter().map(|x| x.id).eq(md.iter().map(|e| e.id)), "(&set).into_iter differs");
    for e in md {
        ensure!(s.get(&Q(e.k)).map(|x| x.id) == Some(e.id) && s.contains(&Q(e.k)), "get({}) does not find the stored element", e.k);
        ensure!(md.iter().any(|x| x.k == e.k - 1) || !s.contains(&Q(e.k - 1)) && s.get(&Q(e.k - 1)).is_none(), "{} is found although absent", e.k - 1);
    }
    ensure!(!s.contains(&Q(u32::MAX)) && s.get(&Q(0)).is_none(), "an absent element is found");
    Ok(())
}
fn sane(s: &S, sorted: bool) -> Res {
    let mut last = None;
    let mut c = 0;
    for x in s.iter() {
        x.check("iteration");
        ensure!(!sorted || last.map_or(true, |k| k < x.key), "after a caught panic the elements are out of order");
        last = Some(x.key);
        c += 1;
    }
    ensure!(c == s.len() && s.iter().rev().count() == c, "after misbehaving caller code len() is {} but {c} elements are there", s.len());
    Ok(())
}
fn aftermath(t: &mut T, sorted: bool, way: u64) -> Res {
    sane(&t.s, sorted)?;
    r().cmp_limit = r().ncmp + 5_000_000;
    let mut ks: Vec<u32> = t.s.iter().map(|x| x.key).collect();
    match way % 3 {
        0 => ks.reverse(),
        1 => ks.sort_by_key(|k| k.wrapping_mul(0x9E3779B1)),
        _ => {}
    }
    for (i, k) in ks.iter().enumerate() {
        let x = sut(|| t.s.take(&Q(*k)));
        ensure!(x.is_some() || !sorted, "after a caught panic {k} cannot be taken out");
        if let Some(x) = x {
            x.check("removal")
        }
        if i % 5 == 0 {
            sane(&t.s, sorted)?
        }
    }
    let x = El::new(9);
    let _ = sut(|| t.s.try_insert(x));
    sane(&t.s, false)?;
    let s = std::mem::take(&mut t.s);
    sut(|| drop(s));
    Ok(())
}
fn drain(t: &mut T, way: u64) -> Res {
    let mut i = 0;
    while !t.md.is_empty() {
        let n = t.md.len();
        let at = match way % 4 {
            0 => 0,
            1 => n - 1,
            2 => n / 2,
            _ => (i * 7) % n,
        };
        let k = t.md[at].k;
        t.take(k)?;
        i += 1;
        if i % 16 == 3 {
            check(&t.s, &t.md)?
        }
    }
    check(&t.s, &t.md)
}
fn way(w: &[u32]) -> u64 {
    hash64(w.iter().map(|x| *x as u64)) >> 9
}

pub const S_PROG: u32 = 0;
pub const S_OOM: u32 = 1;
pub const S_PANIC: u32 = 2;
pub const S_SCRIPT: u32 = 3;
pub const S_PAIR: u32 = 4;
pub const S_LARGE: u32 = 5;
pub const S_MOD: u32 = 6;
pub const S_ALGP: u32 = 7;
pub const S_INTO: u32 = 8;
pub const S_RANGE: u32 = 9;
pub const S_ITERS: u32 = 10;
pub const S_REFUSE: u32 = 11;

pub fn case(w: &[u32]) -> Res {
    match w[1] {
        S_PROG => {
            // builder n trim k, operations
            let mut t = start(&w[2..6])?;
            for o in &w[6..] {
                apply(&mut t, o & 255, (o >> 8) as usize, Arm::No)?;
                nontrivial();
            }
            check(&t.s, &t.md)?;
            emit(t.md.len() as u64);
            state(hash64(t.md.iter().map(|e| e.k as u64).chain([w[2] as u64])));
            if w.len() > 6 {
                drain(&mut t, way(w))?;
                t.ins(1)?;
            }
            t.dispose();
            Ok(())
        }
        S_OOM => {
            let mut t = start(&w[4..8])?;
            let (o, p) = (w[8] & 255, (w[8] >> 8) as usize);
            let live = r().live;
            let x = apply(&mut t, o, p, Arm::Fault(w[2] as u8, w[3] as u64))?;
            let nref = l().nrefused;
            l().nrefused = 0;
            emit(nref);
            state(way(w));
            if nref > 0 {
                nontrivial();
                ensure!(x == Some(false), "{}: request {} was refused, yet the call reports success", name(o), w[3]);
                ensure!(r().live == live, "after a failed {} {} elements exist, {live} before", name(o), r().live);
                check(&t.s, &t.md).map_err(|f| Fail { key: f.key, msg: format!("after a failed {}: {}", name(o), f.msg) })?;
                let x = apply(&mut t, o, p, Arm::No).map_err(|f| Fail { key: f.key, msg: format!("repeated after a failure: {}", f.msg) })?;
                ensure!(x == Some(true), "repeating the call fails");
            } else {
                ensure!(x == Some(true), "{} failed although no request was refused", name(o));
            }
            check(&t.s, &t.md)?;
            drain(&mut t, way(w))?;
            t.dispose();
            Ok(())
        }
        S_PANIC => {
            let mut t = start(&w[4..8])?;
            let x = apply(&mut t, w[8] & 255, (w[8] >> 8) as usize, Arm::Panic(w[2], w[3] as u64))?;
            let f = r().fired;
            let second = second_fault();
            emit(f as u64 | (second as u64) << 1);
            r().clear_plan();
            l().nrefused = 0;
            state(way(w));
            if f || second {
                nontrivial()
            } else {
                ensure!(x == Some(true), "harness: no panic planned");
                check(&t.s, &t.md)?;
            }
            leak_ok();
            aftermath(&mut t, true, way(w))
        }
        S_REFUSE => {
            let mut t = start(&w[3..7])?;
            let (o, p) = (w[7] & 255, (w[7] >> 8) as usize);
            let x = apply(&mut t, o, p, Arm::Refuse(w[2] as u64))?;
            let nref = l().nrefused;
            l().nrefused = 0;
            emit((nref > 0) as u64);
            state(way(w));
            if nref > 0 {
                nontrivial()
            } else {
                ensure!(x == Some(true), "{} failed although no request was refused", name(o));
            }
            if x == Some(true) {
                check(&t.s, &t.md)?;
            }
            aftermath(&mut t, true, way(w))
        }
        S_SCRIPT => {
            let mut t = start(&w[4..8])?;
            apply(&mut t, w[8] & 255, (w[8] >> 8) as usize, Arm::Script(w[2], w[3]))?;
            if r().script_pos > 0 {
                nontrivial()
            }
            r().clear_plan();
            state(way(w));
            leak_ok();
            aftermath(&mut t, false, way(w))
        }
        S_PAIR => {
            let ks = |m: u32| (0..12).filter(|i| m >> i & 1 == 1).map(|i| 10 * i + 10).collect::<Vec<u32>>();
            algebra(&ks(w[2]), &ks(w[3]), true)
        }
        S_LARGE => {
            // n, small count, positions (half steps: odd = present)
            let n = w[2];
            let big: Vec<u32> = (0..n).map(|i| 2 * i + 2).collect();
            let mut small: Vec<u32> = w[3..].iter().map(|p| p + 1).collect();
            small.sort_unstable();
            small.dedup();
            algebra(&small, &big, n <= 40)?;
            algebra(&big, &small, n <= 40)
        }
        S_MOD => {
            let n = w[2];
            let f = |p: u32, o: u32| (0..n).filter(|i| i % p == o % p).map(|i| i + 1).collect::<Vec<_>>();
            algebra(&f(w[3], w[4]), &f(w[5], w[6]), false)
        }
        S_RANGE => range(&w[2..]),
        S_ITERS => {
            let mut t = start(&w[3..7])?;
            nontrivial();
            state(way(w));
            let full = w[2] == 1;
            let ids: Vec<u32> = t.md.iter().map(|e| e.id).collect();
            let s = &t.s;
            fn len<I: ExactSizeIterator>(i: &I) -> usize {
                i.len()
            }
            crate::bt::lattice(|| s.iter(), |x| x.id, &ids, Some(&len), "set iter", full)?;
            crate::bt::lattice(|| s.into_iter(), |x| x.id, &ids, Some(&len), "(&set).into_iter", full)?;
            crate::bt::lattice(|| s.range::<Q, _>(..), |x| x.id, &ids, None, "set range(..)", full)?;
            let n = ids.len();
            for i in 0..=n {
                let j = (i * 5 + 1) % (n - i + 1);
                let (mut a, mut b) = (s.iter(), s.range::<Q, _>(..));
                for _ in 0..i {
                    a.next();
                    b.next();
                }
                for _ in 0..j {
                    a.next_back();
                    b.next_back();
                }
                let (x, y) = (a.clone(), b.clone());
                let rest = &ids[i..n - j];
                for (what, it) in [("a clone of iter", &mut { x } as &mut dyn Iterator<Item = &El>), ("iter", &mut { a }), ("a clone of range", &mut { y }), ("range", &mut { b })] {
                    ensure!(it.map(|x| x.id).eq(rest.iter().copied()), "{what} differs after {i}+{j} steps");
                }
            }
            t.md.clear();
            t.dispose();
            Ok(())
        }
        S_ALGP => misalgebra(w),
        S_INTO => {
            let mut t = start(&w[4..8])?;
            let (i, j, d) = ((w[2] & 0xffff) as usize, w[3] as usize, w[2] >> 16);
            let s = std::mem::take(&mut t.s);
            let mut it = sut(|| s.into_iter());
            let (mut a, mut z) = (0, t.md.len());
            nontrivial();
            state(way(w));
            for x in 0..i + j {
                ensure!(it.len() == z - a && it.size_hint() == (z - a, Some(z - a)), "into_iter: len() is {} with {} left", it.len(), z - a);
                let front = if x < 2 * i.min(j) { x % 2 == 0 } else { i > j };
                let got = sut(|| if front { it.next() } else { it.next_back() }).map(|x| x.id);
                let exp = if a == z {
                    None
                } else if front {
                    a += 1;
                    Some(t.md[a - 1].id)
                } else {
                    z -= 1;
                    Some(t.md[z].id)
                };
                ensure!(got == exp, "into_iter yields the wrong element after {x} steps");
            }
            ensure!(r().live == z - a, "{} elements exist while {} are left", r().live, z - a);
            let all: Vec<u32> = t.md[a..z].iter().map(|e| e.id).collect();
            let n = all.len();
            let id = |x: Option<El>| {
                let x = x?;
                x.check("consuming iteration");
                Some(x.id)
            };
            let what = crate::bt::INTO_WAYS[d as usize];
            tr!("{n} left, then {what}");
            let bad = match d {
                3 => sut(|| it.count()) != n,
                4 => id(sut(|| it.last())) != all.last().copied(),
                5 => sut(|| it.collect::<Vec<_>>()).into_iter().map(|x| id(Some(x)).unwrap()).ne(all.iter().copied()),
                6 => sut(|| it.rfold(vec![], |mut v, x| {
                    v.push(x);
                    v
                })).into_iter().map(|x| id(Some(x)).unwrap()).ne(all.iter().rev().copied()),
                7 => {
                    let k = n / 3;
                    let mut bad = id(sut(|| it.nth(k))) != all.get(k).copied();
                    if n > k + 1 {
                        let b = (n - k - 1) / 2;
                        bad |= it.len() != n - k - 1 || r().live != n - k - 1;
                        bad |= id(sut(|| it.nth_back(b))) != Some(all[n - 1 - b]);
                        bad |= it.len() != n - k - 2 - b || r().live != n - k - 2 - b;
                    }
                    sut(|| drop(it));
                    bad
                }
                8 | 9 => {
                    let x = id(sut(|| if d == 8 { it.nth(n) } else { it.nth_back(n) }));
                    let bad = x.is_some() || it.len() != 0 || r().live != 0 || it.next().is_some() || it.next_back().is_some();
                    sut(|| drop(it));
                    bad
                }
                _ => {
                    sut(|| drop(it));
                    false
                }
            };
            ensure!(!bad, "into_iter with {n} elements left: {what} gives the wrong result");
            ensure!(r().live == 0, "elements survive the iterator after {what}");
            t.dispose();
            Ok(())
        }
        _ => Err("harness: unknown set case".into()),
    }
}

// ---------------------------------------------------------------- set algebra
fn make(ks: &[u32], desc: bool) -> S {
    let mut s = sut(S::new);
    let mut one = |k: &u32| {
        let x = El::new(*k);
        let new = sut(|| s.try_insert(x));
        assert!(matches!(new, Ok(true)), "try_insert of a new element failed");
    };
    if desc {
        ks.iter().rev().for_each(&mut one)
    } else {
        ks.iter().for_each(&mut one)
    }
    s
}
fn expect(a: &[u32], b: &[u32], op: u32) -> Vec<u32> {
    let ina = |k: &u32| a.binary_search(k).is_ok();
    let inb = |k: &u32| b.binary_search(k).is_ok();
    let mut v: Vec<u32> = match op {
        0 => a.iter().chain(b.iter().filter(|k| !ina(k))).copied().collect(),
        1 => a.iter().filter(|k| inb(k)).copied().collect(),
        2 => a.iter().filter(|k| !inb(k)).copied().collect(),
        _ => a.iter().filter(|k| !inb(k)).chain(b.iter().filter(|k| !ina(k))).copied().collect(),
    };
    v.sort_unstable();
    v
}
const NAMES: [&str; 4] = ["union", "intersection", "difference", "symmetric_difference"];
fn walk<'a, I: Iterator<Item = &'a El> + Clone + std::fmt::Debug>(mk: impl Fn() -> I, want: &[u32], members: &[u32], what: &str, full: bool) -> Res {
    step();
    let mut it = mk();
    let n = want.len();
    for i in 0..=n + 2 {
        let left = n.saturating_sub(i);
        let (lo, hi) = it.size_hint();
        ensure!(
            lo <= left && hi.map_or(true, |h| h >= left),
            "{what}: size_hint() is ({lo}, {hi:?}) with {left} elements left"
        );
        if full || i % 7 == 0 {
            let c = it.clone();
            ensure!(c.map(|x| x.key).eq(want.iter().skip(i).copied()), "{what}: a clone taken after {i} elements continues differently");
            let d = it.clone();
            let _ = format!("{d:?}");
            if full && (n <= 6 || i % 4 == 0) {
                crate::iters::rest(&|| it.clone(), &|x: &El| x.key, &want[i.min(n)..], what)?;
            }
        }
        let got = it.next();
        ensure!(got.map(|x| x.key) == want.get(i).copied(), "{what}: element {i} is {:?}, expected {:?}", got, want.get(i));
        if let Some(x) = got {
            x.check("set algebra");
            ensure!(members.contains(&x.id), "{what}: yields an element of neither set");
        }
    }
    ensure!(mk().count() == n && mk().last().map(|x| x.key) == want.last().copied(), "{what}: count() or last() differ");
    ensure!(mk().map(|x| x.key).min() == want.first().copied() && mk().fold(0, |c, _| c + 1) == n, "{what}: min() or fold() differ");
    for k in 0..n.min(4) {
        let mut it = mk();
        let x = it.nth(k).map(|x| x.key);
        ensure!(x == Some(want[k]) && it.next().map(|x| x.key) == want.get(k + 1).copied(), "{what}: nth({k}) differs");
    }
    Ok(())
}
fn algebra(ka: &[u32], kb: &[u32], full: bool) -> Res {
    for desc in [false, true] {
        if desc && (ka.len() + kb.len() < 12) {
            continue;
        }
        let (a, b) = (make(ka, desc), make(kb, !desc));
        tr!("sets of {} and {} elements: {:?} / {:?}", ka.len(), kb.len(), ka, if kb.len() < 40 { kb } else { &kb[..40] });
        nontrivial();
        state(hash64(ka.iter().map(|k| *k as u64).chain([1 << 40]).chain(kb.iter().map(|k| *k as u64))));
        let ids: Vec<u32> = a.iter().chain(b.iter()).map(|x| x.id).collect();
        let w: Vec<Vec<u32>> = (0..4).map(|o| expect(ka, kb, o)).collect();
        walk(|| a.union(&b), &w[0], &ids, NAMES[0], full)?;
        walk(|| a.intersection(&b), &w[1], &ids, NAMES[1], full)?;
        walk(|| a.difference(&b), &w[2], &ids, NAMES[2], full)?;
        walk(|| a.symmetric_difference(&b), &w[3], &ids, NAMES[3], full)?;
        let ops: [S; 4] = sut(|| [&a | &b, &a & &b, &a - &b, &a ^ &b]);
        for (o, s) in ops.iter().enumerate() {
            ensure!(s.iter().map(|x| x.key).eq(w[o].iter().copied()) && s.len() == w[o].len(), "operator for {} gives {s:?}, expected {:?}", NAMES[o], w[o]);
            ensure!(s.iter().all(|x| !ids.contains(&x.id)), "operator for {} shares an element with its operands", NAMES[o]);
        }
        sut(|| drop(ops));
        ensure!(a.is_subset(&b) == w[2].is_empty(), "is_subset is {}", a.is_subset(&b));
        ensure!(b.is_superset(&a) == w[2].is_empty(), "is_superset is {}", b.is_superset(&a));
        ensure!(b.is_subset(&a) == (w[1].len() == kb.len()) && a.is_superset(&b) == b.is_subset(&a), "is_subset the other way is {}", b.is_subset(&a));
        ensure!(a.is_disjoint(&b) == w[1].is_empty() && b.is_disjoint(&a) == w[1].is_empty(), "is_disjoint is {}", a.is_disjoint(&b));
        ensure!((a == b) == (ka == kb) && a.cmp(&b) == ka.cmp(kb), "comparison of sets differs from that of their elements");
        // the same set on both sides
        ensure!(a.union(&a).count() == ka.len() && a.intersection(&a).count() == ka.len(), "union or intersection with itself");
        ensure!(a.difference(&a).next().is_none() && a.symmetric_difference(&a).next().is_none() && a.is_subset(&a), "difference with itself");
        ensure!(a.iter().chain(b.iter()).map(|x| x.id).eq(ids.iter().copied()), "operands changed");
        sut(|| {
            drop(a);
            drop(b)
        });
    }
    Ok(())
}
/// words: how (0 panic, 1 script), p1, p2, operation, mask a, mask b, multiplier of b: misbehaving comparisons in set algebra
fn misalgebra(w: &[u32]) -> Res {
    let ks = |m: u32, f: u32| (0..8 * f).filter(|i| m >> (i % 8) & 1 == 1).map(|i| 10 * i + 10).collect::<Vec<u32>>();
    let (ka, kb) = (ks(w[6], 1), ks(w[7], w[8]));
    let (a, b) = (make(&ka, false), make(&kb, true));
    let lim = ka.len() + kb.len();
    let arm = match w[2] {
        0 => Arm::Panic(w[3], w[4] as u64),
        1 => Arm::Script(w[3], w[4]),
        _ => Arm::Refuse(w[4] as u64),
    };
    tr!("{:?}: {} elements with {}", ["union", "intersection", "difference", "symmetric_difference", "predicates", "|", "&", "-", "^", "==, cmp"][w[5] as usize], ka.len(), kb.len());
    step();
    let mut made: Option<S> = None;
    let run = |it: &mut dyn Iterator<Item = &El>| {
        let mut c = 0;
        for x in it.take(lim + 1) {
            x.check("set algebra");
            c += 1;
        }
        c
    };
    let out = call(arm, || match w[5] {
        0 => run(&mut a.union(&b)),
        1 => run(&mut a.intersection(&b)),
        2 => run(&mut a.difference(&b)),
        3 => run(&mut a.symmetric_difference(&b)),
        4 => a.is_subset(&b) as usize + b.is_superset(&a) as usize + a.is_disjoint(&b) as usize + b.is_subset(&a) as usize,
        5 => {
            made = Some(&a | &b);
            0
        }
        6 => {
            made = Some(&a & &b);
            0
        }
        7 => {
            made = Some(&a - &b);
            0
        }
        8 => {
            made = Some(&a ^ &b);
            0
        }
        _ => (a == b) as usize + a.cmp(&b).is_le() as usize,
    })?;
    let hit = match w[2] {
        0 => r().fired,
        1 => r().script_pos > 0,
        _ => l().nrefused > 0,
    };
    l().nrefused = 0;
    emit(hit as u64);
    r().clear_plan();
    if w[2] < 2 {
        leak_ok();
    }
    state(way(w));
    if hit {
        nontrivial()
    }
    if let Some(c) = out {
        ensure!(w[5] > 3 || c <= lim, "{} yields more elements than both sets hold", NAMES[w[5] as usize % 4]);
    }
    if let Some(s) = made {
        sane(&s, false)?;
        sut(|| drop(s));
    }
    ensure!(a.iter().map(|x| x.key).eq(ka.iter().copied()) && b.iter().map(|x| x.key).eq(kb.iter().copied()), "operands changed");
    a.iter().chain(b.iter()).for_each(|x| x.check("iteration"));
    sut(|| {
        drop(a);
        drop(b)
    });
    Ok(())
}

// ---------------------------------------------------------------- exploration
fn starts(level: u32) -> Vec<Vec<u32>> {
    let mut v = vec![];
    for n in [0, 1, 2, 5, 10, 11, 12, 17, 23, 40] {
        for b in 0..4 {
            v.push(vec![b, n, 0, 0]);
        }
    }
    if level > 0 {
        for (b, n, t, k) in [(0, 90, 0, 0), (1, 90, 0, 0), (2, 100, 1, 20), (3, 143, 0, 0), (3, 143, 2, 60), (3, 160, 3, 80), (0, 120, 3, 50)] {
            v.push(vec![b, n, t, k]);
        }
    }
    v
}
fn cat(a: &[&[u32]]) -> Vec<u32> {
    a.concat()
}
fn items(ss: &[Vec<u32>], ops: &[u32]) -> Vec<(Vec<u32>, u32)> {
    let mut v = vec![];
    for s in ss {
        let n = (s[1] - s[3]) as usize;
        for o in ops {
            for p in 0..positions(*o, n) {
                v.push((s.clone(), o | (p as u32) << 8));
            }
        }
    }
    v
}
pub fn programs(e: &Eng, fam: u32) {
    let n0 = e.cases_so_far();
    let it = items(&starts(1), OPS);
    let deep = if e.thorough { 40 } else { 12 };
    e.par(it.len(), |i| {
        let (s, o) = &it[i];
        let w = cat(&[&[fam, S_PROG], s, &[*o]]);
        e.take();
        if !e.case(&w) {
            return;
        }
        let n = e.take()[0] as usize;
        if s[1] <= deep {
            for o2 in OPS {
                for q in 0..positions(*o2, n) {
                    if !e.case(&cat(&[&w, &[o2 | (q as u32) << 8]])) {
                        return;
                    }
                }
            }
            e.take();
        }
    });
    e.section("sets: each operation at each position (small sets: each pair of operations), then drained", e.cases_so_far() - n0);
}
pub fn cuts(e: &Eng, fam: u32) {
    let n0 = e.cases_so_far();
    let ops = [G_SPL_L, G_SPL_R, G_SPL_APP, X_SPL_L, X_SPL_R, X_APP, W_SWAPAPP];
    let it = items(&starts(1), &ops);
    let deep = if e.thorough { 60 } else { 23 };
    e.par(it.len(), |i| {
        let (s, o) = &it[i];
        let w = cat(&[&[fam, S_PROG], s, &[*o]]);
        e.take();
        if !e.case(&w) {
            return;
        }
        let n = e.take()[0] as usize;
        if s[1] <= deep {
            for o2 in ops {
                for q in 0..positions(o2, n) {
                    if !e.case(&cat(&[&w, &[o2 | (q as u32) << 8]])) {
                        return;
                    }
                }
            }
            e.take();
        }
    });
    e.section("sets: splits and appends at each position, and each pair of them on small sets", e.cases_so_far() - n0);
}
pub fn ranges(e: &Eng, fam: u32) {
    let mut cs = vec![];
    for s in starts(e.thorough as u32) {
        let n = s[1] - s[3];
        for c in 0..=4 * n + 6 {
            if n <= 24 || c % 5 == 0 {
                cs.push(cat(&[&[fam, S_RANGE, c], &s]));
            }
        }
    }
    e.all("sets: every pair of bounds, every mixture of front and back steps", cs);
    let mut cs = vec![];
    for s in starts(1) {
        cs.push(cat(&[&[fam, S_ITERS, (s[1] <= 40) as u32], &s]));
    }
    e.all("sets: every iterator, every mixture of front and back steps, every way of consuming the rest", cs);
}
/// words: lower bound, start. Bound codes: 0 none, 2k+1 including, 2k+2 excluding half-step k (odd = an element)
fn range(w: &[u32]) -> Res {
    let mut t = start(&w[1..5])?;
    let n = t.md.len();
    let key = |h: u32| if h % 2 == 1 { t.md.get(h as usize / 2).map(|e| e.k) } else { Some(if h == 0 { 1 } else { t.md[h as usize / 2 - 1].k + 1 }) };
    let dec = |c: u32| -> Option<Bound<Q>> {
        Some(match c {
            0 => Bound::Unbounded,
            c if c % 2 == 1 => Bound::Included(Q(key((c - 1) / 2)?)),
            c => Bound::Excluded(Q(key((c - 2) / 2)?)),
        })
    };
    nontrivial();
    state(way(w));
    if w[0] > 0 && (w[0] - 1) / 2 > 2 * n as u32 {
        return Ok(());
    }
    let Some(lo) = dec(w[0]) else { return Ok(()) };
    for c in 0..=4 * n as u32 + 2 {
        let Some(hi) = dec(c) else { continue };
        let v = |b: &Bound<Q>| match b {
            Bound::Included(k) => Some((k.0, false)),
            Bound::Excluded(k) => Some((k.0, true)),
            _ => None,
        };
        if let (Some((a, x)), Some((b, y))) = (v(&lo), v(&hi)) {
            if a > b || a == b && x && y {
                continue;
            }
        }
        step();
        let want: Vec<u32> = t
            .md
            .iter()
            .filter(|e| v(&lo).map_or(true, |(k, x)| if x { e.k > k } else { e.k >= k }) && v(&hi).map_or(true, |(k, x)| if x { e.k < k } else { e.k <= k }))
            .map(|e| e.id)
            .collect();
        let m = want.len();
        if (w[0] + c) % 5 == 0 || n <= 5 {
            let (wr, sr) = (w[0], &t.s);
            crate::bt::lattice(|| sr.range::<Q, _>((dec(wr).unwrap(), dec(c).unwrap())), |x| x.id, &want, None, "set range", false)?;
        }
        let cuts: Vec<usize> = if m <= 24 { (0..=m).collect() } else { vec![0, 1, m / 2, m - 1, m] };
        for f in cuts {
            // f from the front, the rest from the back, taken in turns where possible
            let mut it = t.s.range::<Q, _>((dec(w[0]).unwrap(), dec(c).unwrap()));
            let (mut a, mut z) = (0, m);
            while a < z || a + z < 2 * m {
                if a < f {
                    let x = it.next();
                    ensure!(x.map(|x| x.id) == want.get(a).copied(), "range yields {x:?} as element {a} of {m} from the front");
                    a += 1;
                }
                if z > f {
                    z -= 1;
                    let x = it.next_back();
                    ensure!(x.map(|x| x.id) == Some(want[z]), "range yields {x:?} as element {z} of {m} from the back");
                }
                if a == f && z == f {
                    break;
                }
            }
            let cl = it.clone();
            ensure!(cl.count() == 0 && it.next().is_none() && it.next_back().is_none(), "an exhausted range yields more");
        }
    }
    t.md.clear();
    t.dispose();
    Ok(())
}
pub fn faulted(e: &Eng, fam: u32) {
    let n0 = e.cases_so_far();
    let it = items(&starts(1), &[G_INS, G_REPL, X_INS, X_REPL, G_SPL_L, G_SPL_R, X_SPL_L, X_SPL_R]);
    e.par(it.len(), |i| {
        let (s, o) = &it[i];
        'm: for mode in [1, 2] {
            for k in 0..40 {
                e.take();
                if !e.case(&cat(&[&[fam, S_OOM, mode, k], s, &[*o]])) {
                    return;
                }
                if e.take().first() == Some(&0) {
                    if k == 0 {
                        break 'm;
                    }
                    break;
                }
            }
        }
    });
    e.section("sets: each insertion, replacement and split at each position, each of its requests refused", e.cases_so_far() - n0);
}
/// operations that cannot report refused memory, with each of their requests refused
pub fn refusals(e: &Eng, fam: u32) {
    let n0 = e.cases_so_far();
    let it = items(&starts(1), &[G_EXT, X_APP, W_CLONE, W_COLLECT, W_SWAPAPP]);
    e.par(it.len(), |i| {
        let (s, o) = &it[i];
        for k in 0.. {
            e.take();
            if !e.case(&cat(&[&[fam, S_REFUSE, k], s, &[*o]])) || e.take().first() == Some(&0) {
                break;
            }
        }
    });
    e.section("sets: extend, append, clone and collect, which cannot report it, with each request refused", e.cases_so_far() - n0);
    let n0 = e.cases_so_far();
    e.par(256, |a| {
        for b in 0..256u32 {
            for op in 5..9 {
                for k in 0.. {
                    e.take();
                    if !e.case(&[fam, S_ALGP, 2, 0, k, op, a as u32, b, 1 + b % 4]) || e.take().first() == Some(&0) {
                        break;
                    }
                }
            }
        }
    });
    e.section("sets: operators on every pair of small sets, with each request refused", e.cases_so_far() - n0);
}
pub fn consuming(e: &Eng, fam: u32) {
    let mut cs = vec![];
    for s in starts(1) {
        let n = s[1] - s[3];
        for i in 0..=n + 1 {
            for j in 0..=n + 1 {
                if n <= 23 || i % 9 == 0 || j % 11 == 0 {
                    if i + j <= n + 2 {
                        cs.push(cat(&[&[fam, S_INTO, i, j], &s]));
                        for d in 3..crate::bt::INTO_WAYS.len() as u32 {
                            if n <= 12 || (i + 2 * j) % 7 == d % 7 {
                                cs.push(cat(&[&[fam, S_INTO, i | d << 16, j], &s]));
                            }
                        }
                    }
                }
            }
        }
    }
    e.all("sets: consuming iterators dropped after every number of front and back steps", cs);
}
pub fn misbehaving(e: &Eng, fam: u32) {
    let n0 = e.cases_so_far();
    let it = items(&starts(0), OPS);
    e.par(it.len() * 3, |i| {
        let (s, o) = &it[i / 3];
        for k in 0.. {
            e.take();
            if !e.case(&cat(&[&[fam, S_PANIC, [CMP, CLONE, DROP][i % 3], k], s, &[*o]])) || e.take().first() == Some(&0) {
                break;
            }
        }
    });
    e.section("sets: comparison, clone or destructor panicking at each invocation", e.cases_so_far() - n0);
    let n0 = e.cases_so_far();
    let it = items(&starts(0).into_iter().filter(|s| e.thorough || s[1] % 4 != 1).collect::<Vec<_>>(), OPS);
    e.par(it.len(), |i| {
        let (s, o) = &it[i];
        double(&[DROP], &[1, 2], |m, k| {
            e.take();
            if !e.case(&cat(&[&[fam, S_PANIC, m, k], s, &[*o]])) {
                return None;
            }
            e.take().first().copied()
        });
    });
    e.section("sets: a refused request or clone together with a panicking destructor", e.cases_so_far() - n0);
    let n0 = e.cases_so_far();
    let len = if e.thorough { 6 } else { 4 };
    let it = items(&starts(0).into_iter().filter(|s| s[1] % 4 != 1).collect::<Vec<_>>(), &[G_INS, G_REPL, X_REPL, X_TAKE, G_SPL_L, X_APP, G_EXT, W_RANGE]);
    e.par(it.len(), |i| {
        let (s, o) = &it[i];
        for a in scripts(len) {
            if !e.case(&cat(&[&[fam, S_SCRIPT, len, a], s, &[*o]])) {
                return;
            }
        }
    });
    e.section("sets: every sequence of inconsistent comparison answers at the start of an operation", e.cases_so_far() - n0);
    let n0 = e.cases_so_far();
    let pairs: Vec<(u32, u32, u32)> = [(0u32, 0u32), (0xff, 0xff), (0x55, 0xaa), (0x0f, 0x3c), (0x81, 0xff), (0x01, 0xff), (0xff, 0x10), (0, 0xff), (0xb5, 0x5b)]
        .into_iter()
        .flat_map(|(a, b)| [(a, b, 1), (a, b, 3), (a, b, 20)])
        .collect();
    e.par(pairs.len() * 10, |i| {
        let (a, b, f) = pairs[i / 10];
        let op = (i % 10) as u32;
        for mask in [CMP | EQ, CLONE, DROP] {
            for k in 0..if f == 20 { 60 } else { 400 } {
                e.take();
                if !e.case(&[fam, S_ALGP, 0, mask, k, op, a, b, f]) {
                    return;
                }
                if e.take().first() == Some(&0) {
                    break;
                }
            }
        }
        for skip in if e.thorough { 0..20 } else { 0..6 } {
            for ans in scripts(len) {
                if !e.case(&[fam, S_ALGP, 1, len | skip << 8, ans, op, a, b, f]) {
                    return;
                }
            }
        }
        e.take();
    });
    e.section("set algebra with panicking or inconsistent comparisons", e.cases_so_far() - n0);
}
fn scripts(len: u32) -> impl Iterator<Item = u32> {
    (0..3u32.pow(len)).map(move |mut x| {
        let mut a = 0;
        for j in 0..len {
            a |= (x % 3) << (2 * j);
            x /= 3;
        }
        a
    })
}
pub fn algebras(e: &Eng, fam: u32) {
    let u = if e.thorough { 10 } else { 8 };
    let mut cs = vec![];
    for a in 0..1u32 << u {
        for b in 0..1u32 << u {
            cs.push(vec![fam, S_PAIR, a, b]);
        }
    }
    e.all(&format!("set algebra on every pair of subsets of {u} elements"), cs);
    let mut cs = vec![];
    let big: Vec<u32> = if e.thorough { vec![1, 14, 15, 16, 17, 30, 31, 32, 33, 47, 48, 49, 63, 64, 65, 80, 96, 130] } else { vec![15, 16, 17, 31, 32, 33, 48, 64] };
    for n in big {
        cs.push(vec![fam, S_LARGE, n]);
        for i in 0..=2 * n {
            cs.push(vec![fam, S_LARGE, n, i]);
            for j in i + 1..=2 * n {
                if n <= 33 || e.thorough || (i + j) % 3 == 0 {
                    cs.push(vec![fam, S_LARGE, n, i, j]);
                    if n <= 17 || (i * 7 + j) % 11 == 0 {
                        for k in [j + 1, j + 3, 2 * n - 1, 2 * n] {
                            if k > j && k <= 2 * n {
                                cs.push(vec![fam, S_LARGE, n, i, j, k]);
                            }
                        }
                    }
                }
            }
        }
    }
    e.all("set algebra of up to three elements at every position against a larger set, both ways, around the size ratio where the method changes", cs);
    let mut cs = vec![];
    for n in if e.thorough { vec![200u32, 255, 256, 500, 1000, 2500, 4097, 10000] } else { vec![200, 500, 1000, 2500, 5000] } {
        let parts = if e.thorough { (20000 / n).clamp(2, 40) } else { (2000 / n).clamp(1, 10) };
        let step = (2 * n / parts) | 1;
        let at: Vec<u32> = (0..=2 * n).filter(|i| i % step == 0 || *i < 2 || *i > 2 * n - 2 || (*i as i64 - n as i64).abs() < 2).collect();
        cs.push(vec![fam, S_LARGE, n]);
        for (x, &i) in at.iter().enumerate() {
            cs.push(vec![fam, S_LARGE, n, i]);
            for &j in at[x + 1..].iter().step_by(7) {
                cs.push(vec![fam, S_LARGE, n, i, j]);
            }
            for j in [i + 1, i + 2, 2 * n] {
                if j > i && j <= 2 * n {
                    cs.push(vec![fam, S_LARGE, n, i, j]);
                }
            }
        }
        for p in [2, 15, 16, 17, 100] {
            for q in [1, 2, 5, 16, 40] {
                if e.thorough && n <= 1000 || n <= 500 || (p, q) == (17, 2) || (p, q) == (2, 1) || (p, q) == (100, 16) {
                    cs.push(vec![fam, S_MOD, n, p, 0, q, 1]);
                }
            }
        }
    }
    e.all("set algebra against sets of hundreds and thousands of elements", cs);
    let mut cs = vec![];
    for n in if e.thorough { (10..130).step_by(4).collect::<Vec<u32>>() } else { vec![14, 30, 60, 100] } {
        for p in 1..6 {
            for q in 1..6 {
                for o in 0..q {
                    cs.push(vec![fam, S_MOD, n, p, 0, q, o]);
                }
            }
        }
        for p in [16, 17, 20] {
            for o in 0..p {
                cs.push(vec![fam, S_MOD, n, 1, 0, p, o]);
                cs.push(vec![fam, S_MOD, n, p, o, 2, 1]);
            }
        }
    }
    e.all("set algebra on sets of several nodes with periodic contents", cs);
}
