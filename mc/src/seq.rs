//! Maps and sets built from sequences: every short sequence of keys with repetitions, and longer
//! ones in every stride order, through every way of building from an iterator.
use crate::elem::*;
use crate::engine::*;
use crate::{ensure, tr};
use fallible_collections::btree::{map::BTreeMap, set::BTreeSet};

pub const WAYS: u32 = 8;
const WAY: [&str; WAYS as usize] = [
    "collect into a map",
    "extend a map twice",
    "extend a map by reference",
    "try_insert each into a map",
    "collect into a set",
    "extend a set twice",
    "extend a set by reference",
    "try_insert each into a set",
];

/// an iterator that may misstate its length and panic
struct Src<T> {
    v: std::vec::IntoIter<T>,
    hint: u32,
}
impl<T> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        tick(NEXT);
        self.v.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint % 4 {
            0 => self.v.size_hint(),
            1 => (0, None),
            2 => (usize::MAX, Some(usize::MAX)),
            _ => (0, Some(0)),
        }
    }
}
/// what the sequence stands for: per key the position whose key object stays and the one whose value stays
fn model(keys: &[u32]) -> Vec<(u32, usize, usize)> {
    let mut m: Vec<(u32, usize, usize)> = Vec::new();
    for (i, k) in keys.iter().enumerate() {
        match m.iter_mut().find(|e| e.0 == *k) {
            Some(e) => e.2 = i,
            None => m.push((*k, i, i)),
        }
    }
    m.sort();
    m
}
fn build(way: u32, keys: &[u32], pan: u32) -> Res {
    tr!("{}: keys {keys:?}{}", WAY[way as usize], if pan > 0 { format!(", the iterator panics at item {}", pan - 1) } else { String::new() });
    let hint = keys.len() as u32 + keys.iter().sum::<u32>();
    let h = keys.len() / 2;
    step();
    if way == 2 || way == 6 {
        let kv: Vec<(u32, u32)> = keys.iter().enumerate().map(|(i, k)| (*k, i as u32)).collect();
        let md = model(keys);
        if pan > 0 {
            r().plan_panic(NEXT, pan as u64 - 1);
        }
        let mut m: BTreeMap<u32, u32> = BTreeMap::new();
        let mut s: BTreeSet<u32> = BTreeSet::new();
        let refs: Vec<(&u32, &u32)> = kv.iter().map(|e| (&e.0, &e.1)).collect();
        let srefs: Vec<&u32> = kv.iter().map(|e| &e.0).collect();
        let it = Src { v: refs.into_iter(), hint };
        let sit = Src { v: srefs.into_iter(), hint };
        let res = crate::ledger::off(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if way == 2 { m.extend(it) } else { s.extend(sit) })));
        r().panic_mask = 0;
        if res.is_err() {
            ensure!(pan > 0, "{}: unexpected panic", WAY[way as usize]);
            nontrivial();
        }
        // after a panic: what was taken before it
        let md = if res.is_err() { model(&keys[..pan as usize - 1]) } else { md };
        if way == 2 {
            ensure!(m.len() == md.len() && m.iter().map(|e| (*e.0, *e.1)).eq(md.iter().map(|e| (e.0, e.2 as u32))), "{} {keys:?} gives {m:?}", WAY[2]);
        } else {
            ensure!(s.len() == md.len() && s.iter().copied().eq(md.iter().map(|e| e.0)), "{} {keys:?} gives {s:?}", WAY[6]);
        }
        state(hash64([way as u64, keys.iter().fold(7, |h: u64, x| h.wrapping_mul(1009).wrapping_add(*x as u64)), pan as u64]));
        return Ok(());
    }
    let map = way < 4;
    let els: Vec<(El, Option<El>)> = keys.iter().enumerate().map(|(i, k)| (El::new(*k), map.then(|| El::new(0x1000 + i as u32)))).collect();
    let ids: Vec<(u32, u32)> = els.iter().map(|e| (e.0.id, e.1.as_ref().map_or(0, |v| v.id))).collect();
    let mut m: BTreeMap<El, El> = BTreeMap::new();
    let mut s: BTreeSet<El> = BTreeSet::new();
    if pan > 0 {
        r().plan_panic(NEXT, pan as u64 - 1);
    }
    let mut bad = false;
    let res = if map {
        let mut a: Vec<(El, El)> = els.into_iter().map(|(k, v)| (k, v.unwrap())).collect();
        match way {
            0 => {
                let mut it = Src { v: a.into_iter(), hint };
                catch(|| m = (&mut it).collect())
            }
            1 => {
                let b = a.split_off(h);
                let (mut x, mut y) = (Src { v: a.into_iter(), hint }, Src { v: b.into_iter(), hint: hint / 4 });
                catch(|| {
                    m.extend(&mut x);
                    m.extend(&mut y)
                })
            }
            _ => {
                let mut it = Src { v: a.into_iter(), hint };
                catch(|| {
                    for (i, (k, v)) in (&mut it).enumerate() {
                        let had = keys[..i].iter().rposition(|k| *k == keys[i]);
                        match m.try_insert(k, v) {
                            Ok(old) => bad |= old.as_ref().map(|v| v.id) != had.map(|j| ids[j].1),
                            Err(_) => bad = true,
                        }
                    }
                })
            }
        }
    } else {
        let mut a: Vec<El> = els.into_iter().map(|(k, _)| k).collect();
        match way {
            4 => {
                let mut it = Src { v: a.into_iter(), hint };
                catch(|| s = (&mut it).collect())
            }
            5 => {
                let b = a.split_off(h);
                let (mut x, mut y) = (Src { v: a.into_iter(), hint }, Src { v: b.into_iter(), hint: hint / 4 });
                catch(|| {
                    s.extend(&mut x);
                    s.extend(&mut y)
                })
            }
            _ => {
                let mut it = Src { v: a.into_iter(), hint };
                catch(|| {
                    for (i, k) in (&mut it).enumerate() {
                        match s.try_insert(k) {
                            Ok(new) => bad |= new == keys[..i].contains(&keys[i]),
                            Err(_) => bad = true,
                        }
                    }
                })
            }
        }
    };
    r().panic_mask = 0;
    let mut md = model(keys);
    if let Err(injected) = res {
        ensure!(injected && pan > 0, "{} {keys:?}: unexpected panic", WAY[way as usize]);
        nontrivial();
        leak_ok();
        // collecting lost the half-built container with the panic; the others hold what was taken
        let taken = if way == 0 || way == 4 { 0 } else { pan as usize - 1 };
        let taken = if way == 1 || way == 5 { taken - (taken > h) as usize } else { taken };
        md = model(&keys[..taken.min(keys.len())]);
    }
    ensure!(!bad, "{} {keys:?}: try_insert returned something else", WAY[way as usize]);
    let what = WAY[way as usize];
    if map {
        ensure!(m.len() == md.len() && m.is_empty() == md.is_empty(), "{what} {keys:?}: len() is {}, expected {}", m.len(), md.len());
        let got: Vec<_> = m.iter().map(|(k, v)| (k.key, k.id, v.id)).collect();
        let want: Vec<_> = md.iter().map(|e| (e.0, ids[e.1].0, ids[e.2].1)).collect();
        ensure!(got == want, "{what} {keys:?}: holds (key, key object, value object) {got:?}, expected {want:?}");
        for k in 0..*keys.iter().max().unwrap_or(&0) + 2 {
            let e = md.iter().find(|e| e.0 == k);
            let got = sut(|| m.get(&Q(k)).map(|v| v.id));
            ensure!(got == e.map(|e| ids[e.2].1), "{what} {keys:?}: get({k}) gives {got:?}");
            if keys.len() < 5 {
                // indexing panics if and only if the key is absent
                let x = sut_catch(|| m[&Q(k)].id).ok();
                ensure!(x == e.map(|e| ids[e.2].1), "{what} {keys:?}: [{k}] gives {x:?}");
            }
        }
    } else {
        ensure!(s.len() == md.len() && s.is_empty() == md.is_empty(), "{what} {keys:?}: len() is {}, expected {}", s.len(), md.len());
        let got: Vec<_> = s.iter().map(|k| (k.key, k.id)).collect();
        let want: Vec<_> = md.iter().map(|e| (e.0, ids[e.1].0)).collect();
        ensure!(got.iter().map(|e| e.0).eq(want.iter().map(|e| e.0)), "{what} {keys:?}: holds {got:?}, expected {want:?}");
        ensure!(got == want, "{what} {keys:?}: holds (key, key object) {got:?}, expected {want:?}");
        for k in 0..*keys.iter().max().unwrap_or(&0) + 2 {
            ensure!(sut(|| s.contains(&Q(k))) == md.iter().any(|e| e.0 == k), "{what} {keys:?}: contains({k}) is wrong");
        }
    }
    state(hash64([way as u64, keys.iter().fold(7, |h: u64, x| h.wrapping_mul(1009).wrapping_add(*x as u64)), pan as u64]));
    sut(|| drop(m));
    sut(|| drop(s));
    Ok(())
}
/// runs with the crate's memory watched; Err(true) for an injected panic
fn catch(f: impl FnOnce()) -> Result<(), bool> {
    match sut_catch(f) {
        Ok(()) => Ok(()),
        Err(Caught::Injected) => Err(true),
        Err(_) => Err(false),
    }
}
/// words: [family, 0, way, panic, keys..] or [family, 1, way, panic, n, stride, form]
pub fn case(w: &[u32]) -> Res {
    if w[1] == 0 {
        return build(w[2], &w[4..], w[3]);
    }
    nontrivial();
    let (n, s, form) = (w[4], w[5], w[6]);
    let one: Vec<u32> = (0..n).map(|i| i * s % n).collect();
    let keys: Vec<u32> = match form {
        0 => one,
        1 => [&one[..], &one[..]].concat(),
        2 => one.iter().map(|k| k / 2).collect(),
        _ => one.iter().map(|k| 2 * k).chain(one.iter().rev().map(|k| 2 * k + 1)).chain(one.iter().map(|k| k * 3 % (2 * n))).collect(),
    };
    build(w[2], &keys, w[3])
}
pub fn all(e: &Eng, fam: u32, panics: bool) {
    let (depth, k) = if panics { (4, 3) } else if e.thorough { (7, 5) } else { (6, 5) };
    let mut level: Vec<Vec<u32>> = vec![vec![]];
    let mut cs = Vec::new();
    for len in 0..=depth {
        for way in 0..WAYS {
            for t in &level {
                for p in 0..=if panics { len + 2 } else { 0 } {
                    if (p > 0) == panics {
                        cs.push([&[fam, 0, way, p][..], t].concat());
                    }
                }
            }
        }
        level = level.iter().flat_map(|t| (0..k).map(move |c| [&t[..], &[c]].concat())).collect();
    }
    e.all("containers built from every short sequence of keys", cs);
    let mut cs = Vec::new();
    let mut ns: Vec<u32> = (7..=if panics { 14 } else { 30 }).collect();
    if !panics {
        ns.extend([47, 83, 131, 143, 149]);
        if e.thorough {
            ns.extend((31..90).chain([97, 191, 257, 521, 1009]));
        }
    }
    ns.sort();
    ns.dedup();
    for n in ns {
        for s in 1..n {
            if gcd(s, n) == 1 && (n < 100 || s < 40 || s > n - 10) {
                for way in 0..WAYS {
                    for form in 0..4 {
                        if panics {
                            for p in 1..=2 * n + 2 {
                                if form == 1 {
                                    cs.push(vec![fam, 1, way, p, n, s, form]);
                                }
                            }
                        } else {
                            cs.push(vec![fam, 1, way, 0, n, s, form]);
                        }
                    }
                }
            }
        }
    }
    e.all("containers built from sequences in every stride order", cs);
}
fn gcd(a: u32, b: u32) -> u32 {
    if b == 0 { a } else { gcd(b, a % b) }
}
