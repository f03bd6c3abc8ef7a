//! B-tree maps and sets over a grid of key and value sizes and alignments.
use crate::elem::El;
use crate::engine::*;
use crate::ledger::l;
use crate::vecs::*;
use crate::{ensure, tr};
use fallible_collections::btree::{map::Entry, BTreeMap, BTreeSet};
use fallible_collections::TryClone;
use std::ops::Bound;

pub trait G: Elt + Clone + Ord + std::fmt::Debug {}
impl<T: Elt + Clone + Ord + std::fmt::Debug> G for T {}
type Md = Vec<(u32, u32)>;
struct T<K, V> {
    m: BTreeMap<K, V>,
    md: Md,
    nv: u32,
}
fn aligned<X>(x: &X) -> Res {
    ensure!(x as *const X as usize % std::mem::align_of::<X>() == 0, "a reference to {} is not aligned", std::any::type_name::<X>());
    Ok(())
}
fn at<K: G, V: G>(k: &K, v: &V, e: (u32, u32), what: &str) -> Res {
    aligned(k)?;
    aligned(v)?;
    ensure!((k.key(), v.key()) == e, "{what}: ({}, {}) instead of {e:?}", k.key(), v.key());
    Ok(())
}
fn check<K: G, V: G>(m: &BTreeMap<K, V>, md: &Md) -> Res {
    let n = md.len();
    ensure!(m.len() == n && m.is_empty() == (n == 0), "len() is {}, expected {n}", m.len());
    let mut it = m.iter();
    for e in md {
        match it.next() {
            Some((k, v)) => at(k, v, *e, "iteration")?,
            None => return Err("iteration ends early".into()),
        }
    }
    ensure!(it.next().is_none() && it.next_back().is_none(), "iteration does not end");
    let mut it = m.range::<K, _>(..);
    for e in md.iter().rev() {
        match it.next_back() {
            Some((k, v)) => at(k, v, *e, "backward range")?,
            None => return Err("backward range ends early".into()),
        }
    }
    ensure!(it.next().is_none() && it.next_back().is_none(), "range does not end");
    for e in md {
        let v = m.get(&K::mk(e.0));
        ensure!(v.map(|v| v.key()) == Some(e.1), "get({}) gives {:?}, expected {}", e.0, v.map(|v| v.key()), e.1);
        aligned(v.unwrap())?;
    }
    ensure!(m.keys().map(|k| k.key()).eq(md.iter().map(|e| e.0)) && m.values().map(|k| k.key()).eq(md.iter().map(|e| e.1)), "keys() or values() differ");
    Ok(())
}
impl<K: G, V: G> T<K, V> {
    fn new() -> T<K, V> {
        T { m: sut(BTreeMap::new), md: vec![], nv: 7 }
    }
    fn kv(&mut self, k: u32) -> (K, V, (u32, u32)) {
        self.nv += 1;
        (K::mk(k), V::mk(self.nv), (K::norm(k), V::norm(self.nv)))
    }
    fn put(&mut self, e: (u32, u32)) -> Option<(u32, u32)> {
        match self.md.binary_search_by_key(&e.0, |x| x.0) {
            Ok(i) => Some(std::mem::replace(&mut self.md[i], e)),
            Err(i) => {
                self.md.insert(i, e);
                None
            }
        }
    }
    fn ins(&mut self, k: u32) -> Res {
        let (k, v, e) = self.kv(k);
        step();
        let x = sut(|| self.m.try_insert(k, v));
        let old = self.put(e);
        match x {
            Ok(x) => ensure!(x.as_ref().map(|x| x.key()) == old.map(|e| e.1), "try_insert({}) returned {x:?}", e.0),
            Err(_) => return Err("try_insert failed although no request was refused".into()),
        }
        Ok(())
    }
    fn rem(&mut self, k: u32) -> Res {
        let q = K::mk(k);
        step();
        let x = sut(|| self.m.remove(&q));
        let want = match self.md.binary_search_by_key(&K::norm(k), |x| x.0) {
            Ok(i) => Some(self.md.remove(i).1),
            Err(_) => None,
        };
        ensure!(x.as_ref().map(|x| x.key()) == want, "remove({k}) returned {x:?}, expected {want:?}");
        Ok(())
    }
    /// orders: 0 ascending, 1 descending, 2 inside out, 3 by append of alternate halves
    fn build(b: u32, n: u32) -> Result<T<K, V>, Fail> {
        let mut t = T::new();
        match b {
            1 => (0..n).rev().try_for_each(|k| t.ins(k))?,
            2 => (0..n).map(|i| if i % 2 == 0 { n / 2 + i / 2 } else { (n - 1) / 2 - i / 2 }).filter(|k| *k < n).try_for_each(|k| t.ins(k))?,
            3 => {
                let mut o = T::new();
                o.nv = 100;
                for k in 0..n {
                    (if k % 2 == 0 { &mut t } else { &mut o }).ins(k)?;
                }
                let (a, b) = (&mut t.m, &mut o.m);
                step();
                sut(|| a.append(b));
                check(&o.m, &vec![])?;
                for e in o.md {
                    t.put(e);
                }
            }
            _ => (0..n).try_for_each(|k| t.ins(k))?,
        }
        Ok(t)
    }
}
/// every operation, on whatever map: 0 <= o < NOPS
const NOPS: u32 = 22;
fn op<K: G, V: G>(t: &mut T<K, V>, o: u32) -> Res {
    step();
    let n = t.md.len();
    tr!("operation {o} on {n} entries");
    let m = &mut t.m;
    match o {
        0 => check(m, &t.md)?,
        1 => {
            let mut c = 0;
            sut(|| {
                for (k, v) in m.iter_mut() {
                    c += (aligned(k).is_ok() && aligned(v).is_ok()) as usize;
                }
            });
            ensure!(c == n, "iter_mut yields {c} of {n} entries (or misaligned ones)");
            ensure!(sut(|| m.values_mut().map(|v| v.key()).eq(t.md.iter().map(|e| e.1))), "values_mut differs");
        }
        2 => {
            let old = std::mem::take(m);
            let mut it = sut(|| old.into_iter());
            for e in &t.md {
                match sut(|| it.next()) {
                    Some((k, v)) => at(&k, &v, *e, "into_iter")?,
                    None => return Err("into_iter ends early".into()),
                }
            }
            ensure!(sut(|| it.next()).is_none() && sut(|| it.next_back()).is_none(), "into_iter does not end");
            sut(|| drop(it));
            t.md.clear();
        }
        3 => {
            sut(|| m.clear());
            t.md.clear();
        }
        4 => t.ins(5)?,
        5 => t.rem(5)?,
        6 => t.rem(3)?,
        7 => {
            let c = sut(|| m.try_clone());
            let c = match c {
                Ok(c) => c,
                Err(_) => return Err("try_clone failed although no request was refused".into()),
            };
            check(&c, &t.md)?;
            ensure!(c == *m && c.cmp(m).is_eq(), "a clone is not equal");
            let old = std::mem::replace(m, c);
            sut(|| drop(old));
        }
        8 => {
            let c = sut(|| m.clone());
            check(&c, &t.md)?;
            sut(|| drop(c));
        }
        9 | 10 => {
            let k = if o == 9 { 4 } else { 0 };
            let q = K::mk(k);
            let r = match sut(|| m.split_off(&q)) {
                Ok(r) => r,
                Err(_) => return Err("try_split_off failed although no request was refused".into()),
            };
            let p = t.md.partition_point(|e| e.0 < K::norm(k));
            let rm = t.md.split_off(p);
            check(m, &t.md)?;
            check(&r, &rm)?;
            if o == 9 {
                t.md = rm;
                let old = std::mem::replace(m, r);
                sut(|| drop(old));
            } else {
                sut(|| drop(r));
            }
        }
        11 => {
            let mut e = sut(BTreeMap::new);
            sut(|| m.append(&mut e));
            sut(|| e.append(m));
            check(m, &vec![])?;
            t.m = e;
        }
        12 => {
            let mut b = T::<K, V>::new();
            b.nv = t.nv + 40;
            b.ins(5)?;
            b.ins(200)?;
            sut(|| m.append(&mut b.m));
            for e in b.md {
                t.put(e);
            }
        }
        13 => {
            let (k, v, e) = t.kv(9);
            let x = sut(|| match t.m.try_entry(k).ok().unwrap() {
                Entry::Vacant(x) => x.try_insert(v).map(|v| v.key()).ok(),
                Entry::Occupied(x) => Some(x.into_mut().key()),
            });
            match t.md.binary_search_by_key(&e.0, |x| x.0) {
                Ok(i) => ensure!(x == Some(t.md[i].1), "entry({}) is occupied by {x:?}", e.0),
                Err(i) => {
                    ensure!(x == Some(e.1), "entry({}).try_insert gives {x:?}", e.0);
                    t.md.insert(i, e);
                }
            }
        }
        14 => {
            let (k, v, e) = t.kv(9);
            let x = sut(|| t.m.try_entry(k).ok().unwrap().or_try_insert(v).map(|v| v.key()).ok());
            let want = match t.md.binary_search_by_key(&e.0, |x| x.0) {
                Ok(i) => t.md[i].1,
                Err(i) => {
                    t.md.insert(i, e);
                    e.1
                }
            };
            ensure!(x == Some(want), "entry({}).or_try_insert gives {x:?}, expected {want}", e.0);
        }
        15 => {
            let q = K::mk(9);
            let x = sut(|| match m.try_entry(q).ok().unwrap() {
                Entry::Occupied(o) => {
                    let (k, v) = o.remove_entry();
                    Some((k.key(), v.key()))
                }
                _ => None,
            });
            let want = t.md.binary_search_by_key(&K::norm(9), |x| x.0).ok().map(|i| t.md.remove(i));
            ensure!(x == want, "remove_entry gives {x:?}, expected {want:?}");
        }
        16 => {
            let (a, z) = (K::mk(2), K::mk(7));
            let got: Vec<u32> = m.range((Bound::Included(&a), Bound::Included(&z))).map(|e| e.0.key()).collect();
            let want: Vec<u32> = t.md.iter().map(|e| e.0).filter(|k| *k >= K::norm(2) && *k <= K::norm(7)).collect();
            ensure!(got == want, "range gives {got:?}, expected {want:?}");
            let mut c = 0;
            let mut it = m.range_mut((Bound::Included(&a), Bound::Unbounded));
            while let Some((_, v)) = if c % 2 == 0 { it.next() } else { it.next_back() } {
                aligned(v)?;
                c += 1;
            }
            ensure!(c == t.md.iter().filter(|e| e.0 >= K::norm(2)).count(), "range_mut yields {c} entries");
        }
        17 => {
            let x = sut(|| m.get_mut(&K::mk(3)).map(|v| v.key()));
            let want = t.md.iter().find(|e| e.0 == K::norm(3)).map(|e| e.1);
            ensure!(x == want && m.contains_key(&K::mk(3)) == want.is_some(), "get_mut gives {x:?}");
        }
        18 => {
            let s = format!("{m:?}");
            ensure!(s.starts_with('{') && s.ends_with('}'), "prints {s}");
        }
        19 => {
            // iterators dropped half way, from both ends
            let old = std::mem::take(m);
            let mut it = sut(|| old.into_iter());
            let mut left = t.md.clone();
            for i in 0..n / 2 {
                let x = sut(|| if i % 2 == 0 { it.next() } else { it.next_back() });
                let e = if i % 2 == 0 { left.remove(0) } else { left.pop().unwrap() };
                match &x {
                    Some((k, v)) => at(k, v, e, "into_iter")?,
                    None => return Err("into_iter ends early".into()),
                }
            }
            ensure!(it.len() == left.len(), "into_iter().len() is {}", it.len());
            sut(|| drop(it));
            t.md.clear();
        }
        20 => {
            let old = std::mem::take(m);
            t.m = sut(|| old.into_iter().collect());
        }
        _ => {
            let es: Vec<(u32, u32)> = (0..13).map(|i| (K::norm(i * 3), V::norm(i + 60))).collect();
            let v: Vec<(K, V)> = (0..13).map(|i| (K::mk(i * 3), V::mk(i + 60))).collect();
            for (k, v) in v {
                sut(|| m.extend(Some((k, v))));
            }
            for e in es {
                t.put(e);
            }
        }
    }
    Ok(())
}
/// words: family, key type, value type, kind, arguments
fn go<K: G, V: G>(w: &[u32]) -> Res {
    zst_reset();
    let a = |i: usize| w.get(4 + i).copied().unwrap_or(0);
    nontrivial();
    state(hash64(w.iter().map(|x| *x as u64)));
    tr!("map of {} to {}", K::NAME, V::NAME);
    let mut t;
    match w[3] {
        0 => {
            // order, size, then operations
            t = T::<K, V>::build(a(0), a(1))?;
            for o in w.get(6..).unwrap_or(&[]) {
                op(&mut t, *o)?;
                check(&t.m, &t.md)?;
            }
        }
        1 => {
            // build and take everything out again in an order
            t = T::<K, V>::build(a(0), a(1))?;
            check(&t.m, &t.md)?;
            let mut i = 0;
            while !t.md.is_empty() {
                let n = t.md.len();
                let k = t.md[[0, n - 1, n / 2, i * 7 % n][a(2) as usize % 4]].0;
                t.rem(k)?;
                i += 1;
                if i % 8 == 3 {
                    check(&t.m, &t.md)?
                }
            }
            check(&t.m, &t.md)?;
            t.ins(1)?;
        }
        2 => {
            // split at every position and append back
            t = T::<K, V>::build(a(0), a(1))?;
            let n = t.md.len();
            let p = (a(2) as usize).min(n);
            let k = if p < n { t.md[p].0 } else { 250 };
            let q = K::mk(k);
            let mut r = match sut(|| t.m.split_off(&q)) {
                Ok(r) => r,
                Err(_) => return Err("try_split_off failed although no request was refused".into()),
            };
            let cut = t.md.partition_point(|e| e.0 < K::norm(k));
            let rm = t.md.split_off(cut);
            check(&t.m, &t.md)?;
            check(&r, &rm)?;
            let m = &mut t.m;
            sut(|| m.append(&mut r));
            t.md.extend(rm);
            check(&r, &vec![])?;
            check(&t.m, &t.md)?;
        }
        _ => {
            // an insertion or clone with a refused request
            t = T::<K, V>::build(a(0), a(1))?;
            let (mode, f) = (1 + a(3) as u8 % 2, a(3) as u64 / 2);
            let m = &mut t.m;
            if a(2) == 0 {
                let c = sut_fault(mode, f, || m.try_clone()).0;
                let hit = l().nrefused > 0;
                emit(hit as u64);
                l().nrefused = 0;
                match c {
                    Ok(c) => {
                        ensure!(!hit, "try_clone reports success although a request was refused");
                        check(&c, &t.md)?;
                        sut(|| drop(c))
                    }
                    Err(_) => ensure!(hit, "try_clone failed although no request was refused"),
                }
            } else {
                let (k, v, e) = t.kv(a(2) - 1 + 240 * (a(2) % 2));
                let m = &mut t.m;
                let x = sut_fault(mode, f, || m.try_insert(k, v)).0;
                let hit = l().nrefused > 0;
                emit(hit as u64);
                l().nrefused = 0;
                match x {
                    Ok(_) => {
                        ensure!(!hit, "try_insert reports success although a request was refused");
                        t.put(e);
                    }
                    Err(_) => ensure!(hit, "try_insert failed although no request was refused"),
                }
            }
            check(&t.m, &t.md)?;
        }
    }
    check(&t.m, &t.md)?;
    let m = t.m;
    sut(|| drop(m));
    Ok(())
}
fn set<K: G>(w: &[u32]) -> Res {
    nontrivial();
    state(hash64(w.iter().map(|x| *x as u64)));
    let (n, p) = (w[4], w[5]);
    tr!("set of {}, {n} elements", K::NAME);
    let mut s: BTreeSet<K> = sut(BTreeSet::new);
    let mut md: Vec<u32> = vec![];
    let same = |s: &BTreeSet<K>, md: &Vec<u32>| -> Res {
        for x in s {
            aligned(x)?
        }
        ensure!(s.iter().map(|x| x.key()).eq(md.iter().copied()) && s.len() == md.len(), "set holds {s:?}, expected {md:?}");
        ensure!(s.iter().rev().map(|x| x.key()).eq(md.iter().rev().copied()), "backward iteration differs");
        Ok(())
    };
    same(&s, &md)?;
    ensure!(s.range::<K, _>(..).next().is_none() && s.get(&K::mk(1)).is_none(), "an empty set holds something");
    for i in 0..n {
        let k = i * 37 % n.max(1);
        step();
        let x = K::mk(k);
        let new = matches!(sut(|| s.try_insert(x)), Ok(true));
        let k = K::norm(k);
        ensure!(new == !md.contains(&k), "try_insert({k}) reports {new}");
        if new {
            md.push(k);
            md.sort();
        }
    }
    same(&s, &md)?;
    let c = match sut(|| s.clone().try_split_off(&K::mk(p))) {
        Ok(c) => c,
        Err(_) => return Err("try_split_off failed although no request was refused".into()),
    };
    let right: Vec<u32> = md.iter().copied().filter(|k| *k >= K::norm(p)).collect();
    same(&c, &right)?;
    ensure!(s.intersection(&c).map(|x| x.key()).eq(right.iter().copied()), "intersection differs");
    ensure!(s.difference(&c).map(|x| x.key()).eq(md.iter().copied().filter(|k| *k < K::norm(p))), "difference differs");
    ensure!(s.union(&c).count() == md.len() && c.is_subset(&s) && s.is_superset(&c), "union or subset differ");
    let u = sut(|| &s ^ &c);
    same(&u, &md.iter().copied().filter(|k| *k < K::norm(p)).collect())?;
    for k in &right {
        let q = K::mk(*k);
        let x = sut(|| s.take(&q));
        ensure!(x.map(|x| x.key()) == Some(*k), "take({k}) gives something else");
    }
    md.retain(|k| *k < K::norm(p));
    same(&s, &md)?;
    sut(|| {
        drop(c);
        drop(u);
        drop(s)
    });
    Ok(())
}
macro_rules! grid {
    ($([$($n:literal $t:ty),*] x [$($m:literal $u:ty),*]),*) => {
        pub fn case(w: &[u32]) -> Res {
            if w[1] == 0 { return sets(w) }
            grid!(@ w, $([$($n $t),*] x [$($m $u),*]),*);
            Err("harness: unknown pair of types".into())
        }
        fn pairs() -> Vec<(u32, u32)> {
            let mut v = vec![];
            $( for a in [$($n),*] { for b in [$($m),*] { if !v.contains(&(a, b)) { v.push((a, b)) } } } )*
            v
        }
    };
    (@ $w:ident, $([$($n:literal $t:ty),*] x $us:tt),*) => { $( $( grid!(% $w, $n, $t, $us); )* )* };
    (% $w:ident, $n:literal, $t:ty, [$($m:literal $u:ty),*]) => { $( if $w[1] == $n && $w[2] == $m { return go::<$t, $u>($w) } )* };
}
grid! {
    [1 u8, 2 u64, 3 B3, 4 Al16, 5 Al32, 6 Al64, 7 Al128, 8 B300, 9 Unit] x [1 u8, 7 Al128],
    [2 u64, 6 Al64] x [3 B3, 6 Al64, 8 B300, 9 Unit, 10 Unit64, 11 Zst],
    [9 Unit, 10 Unit64, 11 Zst] x [9 Unit, 2 u64],
    [12 B5000, 13 Al4096] x [1 u8],
    [2 u64] x [12 B5000, 13 Al4096],
    [1 u8, 9 Unit, 11 Zst, 7 Al128, 12 B5000, 14 El] x [14 El],
    [14 El] x [1 u8, 9 Unit, 11 Zst, 8 B300, 7 Al128, 12 B5000],
    [1 u8, 14 El] x [15 ElBig, 16 ElAl, 17 Tiny],
    [15 ElBig, 16 ElAl, 17 Tiny] x [1 u8, 9 Unit, 14 El, 17 Tiny]
}
pub fn sets(w: &[u32]) -> Res {
    match w[3] {
        1 => set::<u8>(w),
        3 => set::<B3>(w),
        4 => set::<Al16>(w),
        6 => set::<Al64>(w),
        7 => set::<Al128>(w),
        8 => set::<B300>(w),
        9 => set::<Unit>(w),
        12 => set::<B5000>(w),
        13 => set::<Al4096>(w),
        _ => set::<Zst>(w),
    }
}
/// `drops`: only maps one part of which is recorded when it is created and dropped and the other is not
pub fn all(e: &Eng, fam: u32, drops: bool) {
    let pairs = || -> Vec<(u32, u32)> { pairs().into_iter().filter(|(a, b)| !drops || *a >= 14 || *b >= 14 || *a == 11 || *b == 11).collect() };
    let t = e.thorough;
    let mut cs = vec![];
    let heavy = |a: u32, b: u32| matches!(a, 12 | 13) || matches!(b, 12 | 13);
    for (a, b) in pairs() {
        for s in [(0, 0), (0, 1), (1, 5), (2, 12), (0, 24), (1, 90), (3, 143)] {
            for o in 0..NOPS {
                cs.push(vec![fam, a, b, 0, s.0, s.1, o]);
                for o2 in 0..NOPS {
                    if s.1 < if heavy(a, b) { 2 } else if t { 100 } else { 13 } {
                        cs.push(vec![fam, a, b, 0, s.0, s.1, o, o2]);
                    }
                    if s.1 <= if t && !heavy(a, b) { 5 } else { 0 } && !heavy(a, b) {
                        for o3 in 0..NOPS {
                            cs.push(vec![fam, a, b, 0, s.0, s.1, o, o2, o3]);
                        }
                    }
                }
            }
        }
    }
    e.all("maps of each key and value type: operations (pairs; from empty, triples) on empty, small and large maps", cs);
    let mut cs = vec![];
    for (a, b) in pairs() {
        for order in 0..4 {
            for n in if t { (0..=160).collect::<Vec<u32>>() } else { (0..=26).chain([60, 72, 90, 143, 150]).collect() } {
                if heavy(a, b) && n % 6 != 0 {
                    continue;
                }
                for r in 0..4 {
                    cs.push(vec![fam, a, b, 1, order, n, r]);
                }
                if n <= if t { 60 } else { 26 } || n == 143 || n == 90 {
                    for p in 0..=n {
                        if (p < 30 || p % 5 == 0) && (p % 4 == 0 || !heavy(a, b)) {
                            cs.push(vec![fam, a, b, 2, order, n, p]);
                        }
                    }
                }
            }
        }
    }
    e.all("maps of each key and value type: built in four orders, emptied in four orders, split at each position", cs);
    let n0 = e.cases_so_far();
    let ps = pairs();
    let sizes = [0, 1, 5, 11, 23, 72, 143];
    let few = |a: u32, b: u32, n: u32| heavy(a, b) && n > 11;
    e.par(ps.len() * sizes.len(), |i| {
        let ((a, b), n) = (ps[i / sizes.len()], sizes[i % sizes.len()]);
        for order in 0..if few(a, b, n) { 1 } else { 4 } {
            for what in 0..4 {
                for f in 0..200 {
                    e.take();
                    if !e.case(&[fam, a, b, 3, order, n, what, f]) {
                        return;
                    }
                    if f % 2 == 1 && e.take().first() == Some(&0) {
                        break;
                    }
                }
            }
        }
    });
    e.section("maps of each key and value type: insertion and clone with each request refused", e.cases_so_far() - n0);
    if drops {
        return;
    }
    let mut cs = vec![];
    for ty in [1, 3, 4, 6, 7, 8, 9, 11, 12, 13] {
        for n in if t { (0..=150).collect::<Vec<u32>>() } else { (0..=40).chain([90, 143]).collect() } {
            for p in (0..=n).step_by(if ty < 12 { 1 } else { 7 }) {
                cs.push(vec![fam, 0, 0, ty, n, p]);
            }
        }
    }
    e.all("sets of each element type", cs);
}
