//! TryHashMap: operation histories, refused requests, failing clones, misbehaving hash and equality.
use crate::elem::*;
use crate::engine::*;
use crate::ledger::l;
use crate::misc::log2;
use crate::{ensure, tr};
use fallible_collections::hashmap::TryHashMap;
use fallible_collections::TryClone;

type M = TryHashMap<El, El>;
#[derive(Clone, Copy, PartialEq, Debug)]
struct En {
    k: u32,
    kid: u32,
    v: u32,
    vid: u32,
}
struct T {
    m: M,
    md: Vec<En>,
    nv: u32,
}
#[derive(Clone, Copy, PartialEq)]
enum Arm {
    No,
    Fault(u8, u64),
    Panic(u32, u64),
    CloneFail(u64),
    /// hash and equality answer inconsistently during the operation
    Lie(u32),
}
pub const INS: u32 = 0; // key (any)
pub const REM: u32 = 1; // key (any)
pub const GET: u32 = 2;
pub const CLONE_T: u32 = 3;
pub const CLONE_DROP: u32 = 4;
pub const INTO: u32 = 5; // consumed entries
pub const REBUILD: u32 = 6;
pub const DEBUG: u32 = 7;
fn name(o: u32) -> &'static str {
    ["insert", "remove", "get", "try_clone, keep the clone", "try_clone, keep the source", "into_iter", "into_iter, insert again", "print"][o as usize & 7]
}
/// the answer of one call under `arm`: None when it panicked
fn call<R>(arm: Arm, f: impl FnOnce() -> R) -> Result<Option<R>, Fail> {
    match arm {
        Arm::No => Ok(Some(sut(f))),
        Arm::Fault(m, k) => Ok(Some(sut_fault(m, k, f).0)),
        Arm::CloneFail(k) => {
            r().plan_clone_fail(k);
            let x = sut(f);
            r().clone_fail_at = u64::MAX;
            Ok(Some(x))
        }
        Arm::Panic(mask, at) => {
            r().plan_panic(mask, at);
            let x = sut_catch(f);
            r().panic_mask = 0;
            let second = second_fault();
            match x {
                Err(Caught::Other(_)) if second => Ok(None),
                Ok(x) => Ok(Some(x)),
                Err(Caught::Injected) => Ok(None),
                Err(Caught::Other(m)) => Err(format!("panicked by itself: {m}").into()),
            }
        }
        Arm::Lie(bits) => {
            r().lie = bits;
            let x = sut_catch(f);
            r().lie = 0;
            Ok(x.ok())
        }
    }
}
impl T {
    fn pos(&self, k: u32) -> Option<usize> {
        self.md.iter().position(|e| e.k == k)
    }
    fn new(n: usize, cap: usize) -> Result<T, Fail> {
        let m = if cap == 0 { sut(M::default) } else { sut(|| M::with_capacity(cap)).map_err(|_| Fail::from("with_capacity failed although no request was refused"))? };
        let mut t = T { m, md: vec![], nv: 1 };
        for i in 0..n {
            t.apply(INS, i as u32, Arm::No)?;
        }
        Ok(t)
    }
    /// Some(true) done, Some(false) reported failure, None panicked
    fn apply(&mut self, o: u32, a: u32, arm: Arm) -> Result<Option<bool>, Fail> {
        macro_rules! go {
            ($f:expr) => {
                match call(arm, $f)? {
                    Some(x) => x,
                    None => return Ok(None),
                }
            };
        }
        let loose = matches!(arm, Arm::Lie(_));
        let refused = |what: &str| -> Res {
            ensure!(l().nrefused > 0 || r().clone_failed, "{what} reported an allocation error although no request was refused");
            Ok(())
        };
        tr!("{} {a} with {} entries", name(o), self.md.len());
        step();
        let m = &mut self.m;
        match o {
            INS => {
                let (k, v) = (El::new(a), El::new(self.nv << 12));
                self.nv += 1;
                let e = En { k: a, kid: k.id, v: v.key, vid: v.id };
                let old = match go!(|| m.insert(k, v)) {
                    Ok(x) => x,
                    Err(_) => {
                        refused("insert")?;
                        return Ok(Some(false));
                    }
                };
                if loose {
                    return Ok(Some(true));
                }
                match self.pos(a) {
                    Some(i) => {
                        ensure!(old.as_ref().map(|x| x.id) == Some(self.md[i].vid), "insert of the present key {a} returned {old:?}, not the previous value");
                        self.md[i].v = e.v;
                        self.md[i].vid = e.vid;
                    }
                    None => {
                        ensure!(old.is_none(), "insert of the new key {a} returned {old:?}");
                        self.md.push(e);
                    }
                }
            }
            REM => {
                let x = go!(|| m.remove(&Q(a)));
                if loose {
                    return Ok(Some(true));
                }
                match self.pos(a) {
                    Some(i) => {
                        ensure!(x.as_ref().map(|x| x.id) == Some(self.md[i].vid), "remove({a}) returned {x:?}, not the stored value");
                        self.md.swap_remove(i);
                    }
                    None => ensure!(x.is_none(), "remove({a}) of an absent key returned {x:?}"),
                }
            }
            GET => {
                let x = go!(|| m.get(&Q(a)).map(|x| x.id));
                if loose {
                    return Ok(Some(true));
                }
                let e = self.pos(a).map(|i| self.md[i].vid);
                ensure!(x == e, "get({a}) gives {x:?}, expected {e:?}");
            }
            CLONE_T | CLONE_DROP => {
                let c = match go!(|| m.try_clone()) {
                    Ok(c) => c,
                    Err(_) => {
                        refused("try_clone")?;
                        return Ok(Some(false));
                    }
                };
                if loose {
                    sut(|| drop(c));
                    return Ok(Some(true));
                }
                let mut cmd = vec![];
                for (k, v) in c.iter() {
                    k.check("iteration over a clone");
                    v.check("iteration over a clone");
                    let i = self.pos(k.key);
                    ensure!(i.map(|i| self.md[i].v) == Some(v.key), "a clone holds ({}, {:#x}), which the source does not", k.key, v.key);
                    ensure!(!self.md.iter().any(|e| e.kid == k.id || e.vid == v.id), "a clone shares an element with its source");
                    cmd.push(En { k: k.key, kid: k.id, v: v.key, vid: v.id });
                }
                ensure!(cmd.len() == self.md.len() && c.len() == cmd.len(), "a clone of {} entries has {} (len() {})", self.md.len(), cmd.len(), c.len());
                check(&self.m, &self.md).map_err(|f| Fail { key: f.key, msg: format!("source after cloning: {}", f.msg) })?;
                if o == CLONE_T {
                    let old = std::mem::replace(&mut self.m, c);
                    self.md = cmd;
                    sut(|| drop(old));
                } else {
                    sut(|| drop(c));
                }
            }
            INTO => {
                let m = std::mem::take(m);
                let md = std::mem::take(&mut self.md);
                let live = r().live - 2 * md.len().min(r().live);
                let mut it = sut(|| m.into_iter());
                let mut seen = vec![];
                for i in 0..a as usize {
                    let (lo, hi) = it.size_hint();
                    ensure!(loose || lo <= md.len() - i && hi.map_or(true, |h| h >= md.len() - i), "into_iter: size_hint() is ({lo}, {hi:?}) with {} left", md.len() - i);
                    let Some(Some((k, v))) = call(arm, || it.next())? else { break };
                    k.check("into_iter");
                    v.check("into_iter");
                    ensure!(loose || md.iter().any(|e| e.kid == k.id && e.vid == v.id) && !seen.contains(&k.id), "into_iter yields ({}, {:#x}), which is not a remaining entry", k.key, v.key);
                    seen.push(k.id);
                }
                ensure!(loose || seen.len() == (a as usize).min(md.len()), "into_iter of {} entries yields only {}", md.len(), seen.len());
                if a as usize == md.len() {
                    ensure!(it.next().is_none(), "into_iter yields more than {} entries", md.len());
                }
                if call(arm, || drop(it))?.is_none() {
                    return Ok(None);
                }
                ensure!(loose || r().live == live, "elements survive the consuming iterator");
            }
            REBUILD => {
                let m = std::mem::take(m);
                let mut it = sut(|| m.into_iter());
                while let Some((k, v)) = go!(|| it.next()) {
                    let old = go!(|| self.m.insert(k, v));
                    let old = match old {
                        Ok(x) => x,
                        Err(_) => {
                            refused("insert")?;
                            return Ok(Some(false));
                        }
                    };
                    ensure!(loose || old.is_none(), "an entry of a consumed map is there twice");
                }
                sut(|| drop(it));
            }
            _ => {
                let s = format!("{:?}", self.m);
                let p = format!("{:#?}", self.m);
                printed(&s, &p, &self.md)?;
            }
        }
        Ok(Some(true))
    }
    fn dispose(self) {
        let T { m, md: _md, .. } = self;
        sut(|| drop(m));
    }
}
/// the text of a map is that of its entries, in iteration order, printed as a map
fn printed(s: &str, p: &str, md: &[En]) -> Res {
    let inner = s.strip_prefix('{').and_then(|s| s.strip_suffix('}'));
    let Some(inner) = inner else { return Err(format!("a map prints as {s}").into()) };
    let mut got: Vec<&str> = if inner.is_empty() { vec![] } else { inner.split(", ").collect() };
    got.sort_unstable();
    let mut want: Vec<String> = md.iter().map(|e| format!("{}: {}", e.k, e.v)).collect();
    want.sort_unstable();
    ensure!(got.iter().copied().eq(want.iter().map(|x| x.as_str())), "a map of {want:?} prints as {s}");
    let mut gp: Vec<&str> = p.lines().map(|x| x.trim().trim_end_matches(',')).filter(|x| *x != "{" && *x != "}" && *x != "{}").collect();
    gp.sort_unstable();
    ensure!(gp.iter().copied().eq(want.iter().map(|x| x.as_str())), "a map of {want:?} prints (alternate) as {p}");
    Ok(())
}
fn check(m: &M, md: &[En]) -> Res {
    let n = md.len();
    ensure!(m.len() == n, "len() is {}, expected {n}", m.len());
    let mut it = m.iter();
    let mut seen: Vec<u32> = vec![];
    for i in 0..n {
        ensure!(it.len() == n - i && it.size_hint() == (n - i, Some(n - i)), "iter().len() is {} with {} left", it.len(), n - i);
        let Some((k, v)) = it.next() else { return Err(format!("iteration ends after {i} of {n} entries").into()) };
        k.check("iteration");
        v.check("iteration");
        let e = md.iter().find(|e| e.kid == k.id);
        ensure!(e.map(|e| (e.k, e.v, e.vid)) == Some((k.key, v.key, v.id)), "iteration yields ({}, {:#x}), which is not an entry with its own key object", k.key, v.key);
        ensure!(!seen.contains(&k.id), "iteration yields the key {} twice", k.key);
        seen.push(k.id);
    }
    ensure!(it.next().is_none(), "iteration yields more than {n} entries");
    for e in md {
        ensure!(m.get(&Q(e.k)).map(|v| v.id) == Some(e.vid), "get({}) does not give the stored value", e.k);
    }
    let top = md.iter().map(|e| e.k + 1).max().unwrap_or(0);
    for k in (0..top.min(12)).chain([top, top + 1]) {
        ensure!(md.iter().any(|e| e.k == k) || m.get(&Q(k)).is_none(), "get({k}) finds something although absent");
    }
    Ok(())
}
fn sane(m: &M) -> Res {
    let mut n = 0;
    for (k, v) in m.iter() {
        k.check("iteration");
        v.check("iteration");
        n += 1;
    }
    ensure!(n == m.len(), "after misbehaving caller code len() is {} but {n} entries are there", m.len());
    Ok(())
}
fn fp(w: &[u32], t: &T) -> u64 {
    let mut s: Vec<u64> = t.md.iter().map(|e| e.k as u64).collect();
    s.sort_unstable();
    hash64(s.into_iter().chain([1 << 33, w[2] as u64, w[1] as u64]))
}
/// words: family, sub, hash, n, removed, capacity, operations
fn start(w: &[u32]) -> Result<T, Fail> {
    r().hash_mode = w[2];
    let mut t = T::new(w[3] as usize, w[5] as usize)?;
    // codes: 0 none; otherwise remove w[4] & 0xff keys and put back w[4] >> 8 others
    for i in 0..w[4] & 255 {
        t.apply(REM, i, Arm::No)?;
    }
    for i in 0..w[4] >> 8 {
        t.apply(INS, 1000 + i, Arm::No)?;
    }
    Ok(t)
}
fn end(mut t: T, w: &[u32]) -> Res {
    check(&t.m, &t.md)?;
    match hash64(w.iter().map(|x| *x as u64)) % 3 {
        0 => {
            let n = t.md.len();
            t.apply(INTO, (n / 2) as u32, Arm::No)?;
        }
        1 => {
            while let Some(e) = t.md.last().copied() {
                t.apply(REM, e.k, Arm::No)?;
            }
            check(&t.m, &t.md)?;
            t.apply(INS, 5, Arm::No)?;
        }
        _ => {}
    }
    t.dispose();
    Ok(())
}
pub const S_PROG: u32 = 0;
pub const S_OOM: u32 = 1;
pub const S_CFAIL: u32 = 2;
pub const S_PANIC: u32 = 3;
pub const S_LIE: u32 = 4;
pub const S_RESERVE: u32 = 5;
pub const S_RUN: u32 = 6;
const S_BIGRES: u32 = 90;
pub const S_HUGE: u32 = 7;
pub const S_CYCLE: u32 = 8;
pub const S_LIFE: u32 = 9;

pub fn case(w: &[u32]) -> Res {
    match w[1] {
        S_PROG => {
            let mut t = start(w)?;
            for o in &w[6..] {
                t.apply(o & 255, o >> 8, Arm::No)?;
                nontrivial();
            }
            state(fp(w, &t));
            emit(t.md.len() as u64);
            end(t, w)
        }
        S_OOM | S_CFAIL => {
            // last two words: mode and k
            let n = w.len();
            let arm = if w[1] == S_OOM { Arm::Fault(w[n - 2] as u8, w[n - 1] as u64) } else { Arm::CloneFail(w[n - 1] as u64) };
            let mut t = start(&w[..6])?;
            for o in &w[6..n - 3] {
                t.apply(o & 255, o >> 8, Arm::No)?;
            }
            let live = r().live;
            let (o, a) = (w[n - 3] & 255, w[n - 3] >> 8);
            let x = t.apply(o, a, arm)?;
            let hit = l().nrefused > 0 || r().clone_failed;
            l().nrefused = 0;
            r().clone_failed = false;
            emit(hit as u64);
            state(fp(w, &t) ^ hit as u64);
            if hit {
                nontrivial();
                ensure!(x == Some(false), "{}: memory was refused, yet the call reports success", name(o));
                ensure!(r().live == live, "after a failed {} {} elements exist, {live} before", name(o), r().live);
                check(&t.m, &t.md).map_err(|f| Fail { key: f.key, msg: format!("after a failed {}: {}", name(o), f.msg) })?;
                let x = t.apply(o, a, Arm::No)?;
                ensure!(x == Some(true), "repeating a failed {} fails", name(o));
            }
            check(&t.m, &t.md)?;
            for i in 0..9 {
                t.apply(INS, 2000 + i, Arm::No)?;
            }
            end(t, w)
        }
        S_PANIC | S_LIE => {
            let n = w.len();
            let arm = if w[1] == S_PANIC { Arm::Panic(w[n - 2], w[n - 1] as u64) } else { Arm::Lie(w[n - 1]) };
            let mut t = start(&w[..6])?;
            let x = t.apply(w[n - 3] & 255, w[n - 3] >> 8, arm)?;
            let second = w[1] == S_PANIC && second_fault();
            let hit = r().fired || second || w[1] == S_LIE;
            emit((r().fired || w[1] == S_LIE) as u64 | (second as u64) << 1);
            r().clear_plan();
            l().nrefused = 0;
            r().hash_mode = w[2];
            state(fp(w, &t) ^ hit as u64);
            if hit {
                nontrivial();
                leak_ok();
            } else {
                ensure!(x == Some(true), "harness: no panic was planned");
                return end(t, w);
            }
            // the map must stay safe to use in every way
            sane(&t.m)?;
            let ks: Vec<u32> = t.m.iter().map(|(k, _)| k.key).collect();
            for k in &ks {
                let _ = t.m.get(&Q(*k)).map(|v| v.check("lookup"));
            }
            for (i, k) in ks.iter().enumerate() {
                if i % 2 == 0 {
                    if let Some(x) = sut(|| t.m.remove(&Q(*k))) {
                        x.check("removal")
                    }
                }
            }
            sane(&t.m)?;
            for k in [0, 7, 3000, 3001, 3002, 3003, 3004, 3005] {
                let (k, v) = (El::new(k), El::new(1));
                let m = &mut t.m;
                let _ = sut(|| m.insert(k, v));
            }
            sane(&t.m)?;
            match sut(|| t.m.try_clone()) {
                Ok(c) => {
                    sane(&c)?;
                    sut(|| drop(c))
                }
                Err(_) => return Err("try_clone failed although no request was refused".into()),
            }
            t.dispose();
            Ok(())
        }
        S_RESERVE => {
            // words: hash, capacity, entries added (<= capacity): no request after the reservation
            let (c, n) = (w[3] as usize, w[4] as usize);
            r().hash_mode = w[2];
            let m = sut(|| M::with_capacity(c)).map_err(|_| Fail::from("with_capacity failed although no request was refused"))?;
            let mut t = T { m, md: vec![], nv: 1 };
            tr!("with_capacity({c}), {n} insertions");
            l().arm(0, 0);
            for i in 0..n {
                t.apply(INS, i as u32, Arm::No)?;
            }
            let q = l().nreq;
            nontrivial();
            state(hash64([c as u64, n as u64, w[2] as u64]));
            ensure!(q == 0, "{n} insertions after with_capacity({c}) made {q} memory requests");
            check(&t.m, &t.md)?;
            l().arm(0, 0);
            for i in 0..n {
                t.apply(REM, i as u32, Arm::No)?;
                t.apply(GET, i as u32, Arm::No)?;
            }
            ensure!(l().nreq == 0, "removals and lookups made {} memory requests", l().nreq);
            t.dispose();
            Ok(())
        }
        S_CYCLE => {
            // words: hash, capacity, cycles: one entry comes and goes (so no slot is ever left marked as
            // deleted, whatever the hash), then the reserved capacity is filled; none of it requests memory
            let (c, n) = (w[3] as usize, w[4] as usize);
            r().hash_mode = w[2];
            let m = sut(|| M::with_capacity(c)).map_err(|_| Fail::from("with_capacity failed although no request was refused"))?;
            let mut t = T { m, md: vec![], nv: 1 };
            tr!("with_capacity({c}), {n} times one insertion and its removal, then {c} insertions");
            l().arm(0, 0);
            for i in 0..n {
                t.apply(INS, 10_000 + i as u32, Arm::No)?;
                t.apply(REM, 10_000 + i as u32, Arm::No)?;
            }
            for i in 0..c {
                t.apply(INS, i as u32, Arm::No)?;
            }
            let q = l().nreq;
            nontrivial();
            state(hash64([c as u64, n as u64, w[2] as u64, 8]));
            ensure!(q == 0, "with_capacity({c}), {n} insertions each followed by its removal, {c} insertions: {q} memory requests");
            check(&t.m, &t.md)?;
            t.dispose();
            Ok(())
        }
        S_RUN => {
            r().hash_mode = w[2];
            let n = w[3] as usize;
            l().arm(0, 0);
            let t = T::new(n, 0)?;
            let q = l().nreq;
            nontrivial();
            state(hash64([n as u64, w[2] as u64]));
            maximum("requests for the longest run", q);
            ensure!(q <= 2 * log2(n as u64) + 4, "{n} insertions made {q} memory requests");
            ensure!(t.m.len() == n, "{n} insertions of new keys give {} entries", t.m.len());
            t.dispose();
            Ok(())
        }
        S_BIGRES => {
            let (c, n) = (w[2] as u64, w[3] as u64);
            tr!("with_capacity({c}), then {n} insertions");
            let mut m: fallible_collections::TryHashMap<u64, u64> =
                sut(|| fallible_collections::TryHashMap::with_capacity(c as usize)).map_err(|_| Fail::from("with_capacity failed although no request was refused"))?;
            nontrivial();
            state(hash64([c, n, 77]));
            let (bad, q, _) = sut_fault(0, 0, || (0..n).find(|i| !matches!(m.insert(i * 3, !i), Ok(None))));
            ensure!(bad.is_none(), "insertion {bad:?} of a new key failed or reports a previous value");
            ensure!(n > c || q == 0, "with_capacity({c}), then {n} insertions made {q} memory requests");
            maximum("entries in the largest hash map", n);
            ensure!(m.len() as u64 == n && (0..n).all(|i| m.get(&(i * 3)) == Some(&!i) && m.get(&(i * 3 + 1)).is_none()), "the map does not hold the {n} entries put in");
            sut(|| drop(m));
            Ok(())
        }
        S_LIFE => life(w),
        S_HUGE => {
            // impossible capacities: a reported error, not a crash
            let c = (usize::MAX >> w[2]).wrapping_sub(w[3] as usize).wrapping_add(1);
            tr!("with_capacity({c:#x})");
            nontrivial();
            state(hash64([c as u64]));
            if w[2] >= 26 {
                // possible ones, refused
                match call(Arm::Fault(2, 0), || M::with_capacity(c))?.unwrap() {
                    Ok(_) => return Err(format!("with_capacity({c:#x}) reports success although its request was refused").into()),
                    Err(_) => return Ok(()),
                }
            }
            match call(Arm::Panic(0, 0), || M::with_capacity(c))?.unwrap() {
                Ok(_) => ensure!(c < 1 << 26, "with_capacity({c:#x}) reports success"),
                Err(_) => ensure!(c >= 1 << 20, "with_capacity({c:#x}) reports failure although no request was refused"),
            }
            Ok(())
        }
        _ => Err("harness: unknown hash map case".into()),
    }
}

fn starts(deep: bool) -> Vec<[u32; 4]> {
    let mut v = vec![];
    let top = if deep { 70 } else { 34 };
    for h in 0..3 {
        for n in 0..=top {
            v.push([h, n, 0, 0]);
            if n > 0 {
                // removals leave marks behind that count towards the growth threshold
                v.push([h, n, n, 0]);
                v.push([h, n, 1 | 1 << 8, 0]);
                v.push([h, n, n / 2 | (n / 2) << 8, 0]);
                v.push([h, n, n / 2, 0]);
                v.push([h, n, n | n << 8, 0]);
            }
            if n % 7 < 2 {
                v.push([h, n, 0, n.max(1)]);
                v.push([h, n, n / 2, 2 * n + 1]);
            }
        }
    }
    v
}
/// words: family, sub, capacity, n, order, mode. A map is filled with n entries and emptied again in some order, with
/// other operations mixed in; every step is compared, the whole map at sixteen points.
fn life(w: &[u32]) -> Res {
    let (cap, n, order, mode) = (w[2] as usize, w[3] as u64, w[4], w[5]);
    tr!("capacity {cap}, {n} insertions, all removed in order {order}, mode {mode}");
    type M64 = fallible_collections::TryHashMap<u64, u64>;
    let mut m: M64 = if cap == 0 { sut(M64::default) } else { sut(|| M64::with_capacity(cap)).map_err(|_| Fail::from("with_capacity failed although no request was refused"))? };
    let key = |i: u64| i * 7 + 3;
    let mut val: Vec<Option<u64>> = vec![None; 2 * n as usize + 2]; // the model: value of key(i)
    let mut len = 0u64;
    let whole = |m: &M64, val: &[Option<u64>], len: u64, what: &str| -> Res {
        ensure!(m.len() as u64 == len, "{what}: len() is {}, expected {len}", m.len());
        let mut c = 0;
        let mut seen = vec![false; val.len()];
        for (k, v) in m.iter() {
            let i = (k.wrapping_sub(3) / 7) as usize;
            ensure!(key(i as u64) == *k && val.get(i) == Some(&Some(*v)) && !seen[i], "{what}: iteration yields ({k}, {v}), which is not there or was yielded before");
            seen[i] = true;
            c += 1;
        }
        ensure!(c == len, "{what}: iteration yields {c} of {len} entries");
        for (i, v) in val.iter().enumerate() {
            ensure!(m.get(&key(i as u64)) == v.as_ref(), "{what}: get({}) is {:?}, expected {v:?}", key(i as u64), m.get(&key(i as u64)));
        }
        Ok(())
    };
    for i in 0..n {
        let x = sut(|| m.insert(key(i), i)).map_err(|_| Fail::from("insert failed although no request was refused"))?;
        ensure!(x.is_none(), "insert of the new key {} returns {x:?}", key(i));
        val[i as usize] = Some(i);
        len += 1;
        ensure!(m.len() as u64 == len && m.get(&key(i)) == Some(&i) && m.get(&key(i / 2)) == Some(&(i / 2)) && m.get(&key(i + 1)).is_none(), "after insertion {i} the map does not hold what was put in");
    }
    whole(&m, &val, len, "after the insertions")?;
    nontrivial();
    let stride = [0, 1, 37, 101][order as usize & 3];
    let at = |s: u64| match order {
        0 => n - 1 - s,
        4 => if s % 2 == 0 { s / 2 } else { n - 1 - s / 2 },
        _ if n % 37 == 0 || n % 101 == 0 => s,
        _ => s * stride % n,
    };
    let every = n / 16 + 1;
    let mut fresh = n;
    for s in 0..n {
        let i = at(s);
        let want = val[i as usize].take();
        let x = sut(|| m.remove(&key(i)));
        ensure!(x == want, "removal {s} (key {}) returns {x:?}, expected {want:?}", key(i));
        len -= 1;
        ensure!(m.len() as u64 == len, "after removal {s} len() is {}, expected {len}", m.len());
        ensure!(m.get(&key(i)).is_none(), "after removal {s} the key {} is still found", key(i));
        let nx = at((s + 1).min(n - 1));
        ensure!(m.get(&key(nx)) == val[nx as usize].as_ref(), "after removal {s} get({}) is {:?}, expected {:?}", key(nx), m.get(&key(nx)), val[nx as usize]);
        match mode {
            1 if s % 3 == 2 => {
                let x = sut(|| m.insert(key(fresh), fresh)).map_err(|_| Fail::from("insert failed although no request was refused"))?;
                ensure!(x.is_none(), "insert of a new key returns {x:?} after removal {s}");
                val[fresh as usize] = Some(fresh);
                fresh += 1;
                len += 1;
            }
            2 => {
                // a key that is absent, then a replacement
                let x = sut(|| m.remove(&key(i)));
                ensure!(x.is_none(), "a second removal of {} returns {x:?}", key(i));
                if s + 1 < n {
                    let old = val[nx as usize];
                    let x = sut(|| m.insert(key(nx), s + 900_000)).map_err(|_| Fail::from("insert failed although no request was refused"))?;
                    ensure!(x == old, "insert of the present key {} returns {x:?}, expected {old:?}", key(nx));
                    val[nx as usize] = Some(s + 900_000);
                }
            }
            _ => {}
        }
        if s % every == 0 || s + 3 > n {
            whole(&m, &val, len, &format!("after removal {s}"))?;
            if mode == 3 {
                let c = sut(|| m.try_clone()).map_err(|_| Fail::from("try_clone failed although no request was refused"))?;
                whole(&c, &val, len, &format!("the clone made after removal {s}"))?;
                let old = std::mem::replace(&mut m, c);
                whole(&old, &val, len, &format!("the original after it was cloned after removal {s}"))?;
                sut(|| drop(old));
            }
        }
    }
    state(hash64(w.iter().map(|x| *x as u64)));
    for i in 0..3 {
        let _ = sut(|| m.insert(key(i), i));
        val[i as usize] = Some(i);
        len += 1;
        if val.len() < 4 {
            break;
        }
    }
    whole(&m, &val, len, "refilled")?;
    sut(|| drop(m));
    Ok(())
}
pub fn lives(e: &Eng, fam: u32) {
    let mut cs = vec![];
    let top = if e.thorough { 2000 } else { 700 };
    for n in (0..top).chain(if e.thorough { vec![1000, 1792, 1793, 3584, 3585, 5000, 8000, 14336, 14337, 30000, 100000] } else { vec![896, 897, 2000, 3584, 3585, 8000, 30000] }) {
        for order in 0..5 {
            for mode in 0..4 {
                for cap in [0, n, 5 * n + 3, 40 * n + 100] {
                    if n < 60 || cap == 0 || (n + order + mode) % 5 == 0 {
                        cs.push(vec![fam, S_LIFE, cap, n, order, mode]);
                    }
                }
            }
        }
    }
    e.all("hash maps filled with every number of entries and emptied again in several orders", cs);
}
/// sizes around the growth thresholds of larger tables (7/8 of a power of two), with a good and a poor hash
fn thresholds(deep: bool) -> Vec<(u32, u32)> {
    let mut v = vec![];
    for p in 6..if deep { 13 } else { 11 } {
        for n in [(7u32 << (p - 3)) - 1, 7 << (p - 3), (7 << (p - 3)) + 1, 1 << p, 5 << (p - 3)] {
            v.push((0, n));
            if p < 9 {
                v.push((1, n));
                v.push((2, n));
            }
        }
    }
    v
}
/// every sequence over a small key set, from empty and from sizes next to the growth thresholds
pub fn programs(e: &Eng, fam: u32, depth: u32) {
    let n0 = e.cases_so_far();
    let ops: Vec<u32> = (0..4).map(|k| INS | k << 8).chain((0..4).map(|k| REM | k << 8)).chain([CLONE_T, REBUILD]).collect();
    let tot = (ops.len() as u32).pow(depth);
    e.par(3 * tot as usize, |i| {
        let mut w = vec![fam, S_PROG, i as u32 % 3, 0, 0, 0];
        let mut x = i as u32 / 3;
        for _ in 0..depth {
            w.push(ops[(x % ops.len() as u32) as usize]);
            x /= ops.len() as u32;
        }
        e.case(&w);
        e.take();
    });
    e.section(&format!("hash maps: every sequence of {depth} operations over four keys, three hash functions"), e.cases_so_far() - n0);
    let n0 = e.cases_so_far();
    let ss = starts(e.thorough);
    let d2 = if e.thorough { 30 } else { 9 };
    e.par(ss.len(), |i| {
        let s = &ss[i];
        let n = s[1];
        let mut ops: Vec<u32> = vec![];
        for k in (0..n.min(8)).chain([n / 2, n, 1000, 5000]) {
            ops.push(INS | k << 8);
            ops.push(REM | k << 8);
        }
        ops.extend([GET | 1 << 8, CLONE_T, CLONE_DROP, REBUILD, DEBUG]);
        ops.sort_unstable();
        ops.dedup();
        let left = n - (s[2] & 255) + (s[2] >> 8);
        for a in 0..=left {
            if !e.case(&[fam, S_PROG, s[0], s[1], s[2], s[3], INTO | a << 8]) {
                return;
            }
            e.take();
        }
        for a in &ops {
            if !e.case(&[fam, S_PROG, s[0], s[1], s[2], s[3], *a]) {
                return;
            }
            e.take();
            if n <= d2 {
                for b in &ops {
                    if !e.case(&[fam, S_PROG, s[0], s[1], s[2], s[3], *a, *b]) {
                        return;
                    }
                    e.take();
                }
            }
        }
    });
    e.section("hash maps: operations around every size up to the fifth growth threshold, with removal marks", e.cases_so_far() - n0);
    let mut cs = vec![];
    for (h, n) in thresholds(e.thorough) {
        for o in [INS | 50000 << 8, INS | (n / 2) << 8, INS | 0, REM | (n - 1) << 8, REM | 50000 << 8, GET | (n / 2) << 8, CLONE_T, CLONE_DROP, REBUILD, DEBUG, INTO | 0, INTO | (n / 2) << 8] {
            for pre in [INS | 60000 << 8, REM | 1 << 8, CLONE_T] {
                cs.push(vec![fam, S_PROG, h, n, 0, 0, pre, o]);
            }
        }
    }
    e.all("hash maps: operations around the sizes at which larger tables grow", cs);
    lives(e, fam);
}
pub fn faulted(e: &Eng, fam: u32) {
    let n0 = e.cases_so_far();
    let ss = starts(e.thorough);
    e.par(ss.len(), |i| {
        let s = &ss[i];
        let n = s[1];
        for o in [INS | 5000 << 8, INS | (n / 2) << 8, INS | 0, CLONE_T, CLONE_DROP] {
            'm: for mode in [1, 2] {
                for k in 0..64 {
                    e.take();
                    if !e.case(&[fam, S_OOM, s[0], s[1], s[2], s[3], o, mode, k]) {
                        return;
                    }
                    if e.take().first() == Some(&0) {
                        if k == 0 {
                            break 'm;
                        }
                        break;
                    }
                }
            }
        }
        // after one more operation
        for p in [REM | 1 << 8, INS | 4000 << 8, CLONE_T] {
            e.take();
            if !e.case(&[fam, S_OOM, s[0], s[1], s[2], s[3], p, INS | 5000 << 8, 2, 0]) {
                return;
            }
        }
        for k in 0.. {
            e.take();
            if !e.case(&[fam, S_CFAIL, s[0], s[1], s[2], s[3], CLONE_T, 0, k]) {
                return;
            }
            if e.take().first() == Some(&0) {
                break;
            }
        }
    });
    e.section("hash maps: insertion and clone at every size with each request refused, clone with each element refusing", e.cases_so_far() - n0);
    let mut cs = vec![];
    for (h, n) in thresholds(e.thorough) {
        for o in [INS | 50000 << 8, INS | (n / 2) << 8, CLONE_T, CLONE_DROP] {
            for mode in [1, 2] {
                for k in 0..2 {
                    cs.push(vec![fam, S_OOM, h, n, 0, 0, o, mode, k]);
                }
            }
        }
        for k in [0, 1, 2, n - 1, n, n + 1, 2 * n - 2, 2 * n - 1, 2 * n] {
            cs.push(vec![fam, S_CFAIL, h, n, 0, 0, CLONE_T, 0, k]);
        }
    }
    e.all("hash maps: the same at the sizes at which larger tables grow", cs);
    let mut cs = vec![];
    for s in 0..44 {
        for d in 0..4 {
            cs.push(vec![fam, S_HUGE, s, d]);
        }
    }
    e.all("hash maps: impossible capacities", cs);
}
pub fn misbehaving(e: &Eng, fam: u32) {
    let n0 = e.cases_so_far();
    let ss: Vec<[u32; 4]> = starts(false).into_iter().filter(|s| e.thorough || s[1] <= 16 || s[1] % 7 == 0).collect();
    e.par(ss.len(), |i| {
        let s = &ss[i];
        let n = s[1];
        for o in [INS | 5000 << 8, INS | (n / 2) << 8, REM | (n / 2) << 8, REM | 5000 << 8, GET | (n / 2) << 8, CLONE_T, CLONE_DROP, INTO | (n / 3) << 8, REBUILD] {
            for mask in [HASH, EQ, CLONE, DROP] {
                for k in 0..400 {
                    e.take();
                    if !e.case(&[fam, S_PANIC, s[0], s[1], s[2], s[3], o, mask, k]) {
                        return;
                    }
                    if e.take().first() == Some(&0) {
                        break;
                    }
                }
            }
            double(&[DROP], &[1, 2], |m, k| {
                e.take();
                if !e.case(&[fam, S_PANIC, s[0], s[1], s[2], s[3], o, m, k]) {
                    return None;
                }
                e.take().first().copied()
            });
            for lie in 1..16 {
                if !e.case(&[fam, S_LIE, s[0], s[1], s[2], s[3], o, 0, lie]) {
                    return;
                }
                e.take();
            }
        }
    });
    e.section("hash maps: hash, equality, clone or destructor panicking at each invocation, or answering inconsistently", e.cases_so_far() - n0);
}
pub fn reservations(e: &Eng, fam: u32) {
    let mut cs = vec![];
    let top = if e.thorough { 300 } else { 130 };
    for h in 0..3 {
        for c in 0..=top {
            for n in [c / 3, c.max(1) - 1, c] {
                cs.push(vec![fam, S_RESERVE, h, c, n]);
            }
            for n in [1, 2, 40] {
                if c > 0 {
                    cs.push(vec![fam, S_CYCLE, h, c, n]);
                }
            }
        }
    }
    let big = if e.thorough { 9000 } else { 1200 };
    for h in 0..2 {
        let mut n = 1;
        while n <= if h == 1 { 300 } else { big } {
            cs.push(vec![fam, S_RUN, h, n]);
            n = if n < 70 { n + 1 } else { n * 6 / 5 };
        }
    }
    for p in 5..if e.thorough { 20 } else { 17 } {
        for c in [(1u32 << p) - 1, 1 << p, (1 << p) + 1, 7 << (p - 3), (7 << (p - 3)) + 1] {
            cs.push(vec![fam, S_BIGRES, c, c]);
            cs.push(vec![fam, S_BIGRES, c / 3, c]);
        }
    }
    for w in 0..60 {
        for d in 0..3 {
            cs.push(vec![fam, S_HUGE, w, d]);
        }
    }
    e.all("hash maps: insertions within a reserved capacity, runs of insertions, impossible capacities", cs);
}
pub fn prints(e: &Eng, fam: u32) {
    let mut cs = vec![];
    for s in starts(e.thorough) {
        cs.push(vec![fam, S_PROG, s[0], s[1], s[2], s[3], DEBUG]);
        for o in [INS | 7000 << 8, REM | 1 << 8, CLONE_T, REBUILD] {
            cs.push(vec![fam, S_PROG, s[0], s[1], s[2], s[3], o, DEBUG]);
        }
    }
    e.all("text of hash maps after each history", cs);
}
