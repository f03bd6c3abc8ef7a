//! B-tree maps: operation histories over positions, exploration of every reachable node arrangement,
//! refused requests, panicking and inconsistent caller code, append/split, iteration and ranges.
//!
//! A history names positions, not keys: `insert at gap g`, `remove entry i`. Keys are assigned afterwards
//! from the final order, with an unused key between any two, so one history stands for every key choice.
use crate::elem::*;
use crate::engine::*;
use crate::ledger::l;
use crate::misc::log2;
use crate::vecs::flag;
use crate::{ensure, tr};
use fallible_collections::btree::map::Entry;
use fallible_collections::btree::BTreeMap;
use fallible_collections::TryClone;
use std::collections::HashMap;
use std::ops::Bound;
use std::sync::Mutex;

pub type M = BTreeMap<El, El>;
pub const BT_COST: u64 = 1 << 8; // judge comparisons, nodes and requests
pub const BT_DRAIN: u64 = 1 << 9; // take the map apart at the end of a history

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Ent {
    pub k: u32,
    pub kid: u32,
    pub v: u32,
    pub vid: u32,
}
pub struct Bt {
    pub m: M,
    pub md: Vec<Ent>,
    pub nv: u32,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Arm {
    No,
    Fault(u8, u64),
    Panic(u32, u64),
    Script(u32, u32),
    /// as Fault(1, k), but the operation has no way to report it and may panic
    Refuse(u64),
}
impl Arm {
    fn script(self) -> bool {
        matches!(self, Arm::Script(..))
    }
}
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum St {
    Done,
    Failed,
    Panicked,
}

// ---------------------------------------------------------------- operations
pub const INS: u32 = 0; // at gap
pub const E_OR: u32 = 1;
pub const E_ORW: u32 = 2;
pub const E_ORD: u32 = 3;
pub const E_VAC: u32 = 4;
pub const E_DROP: u32 = 5;
pub const MISS: u32 = 6;
pub const EXT: u32 = 7;
pub const REM: u32 = 8; // of entry
pub const O_REM: u32 = 9;
pub const O_REMENT: u32 = 10;
pub const REP: u32 = 16;
pub const O_INS: u32 = 17;
pub const GETMUT: u32 = 18;
pub const O_MUT: u32 = 19;
pub const ANDMOD: u32 = 20;
pub const E_OR_X: u32 = 21;
pub const O_GET: u32 = 22;
pub const E_ORW_X: u32 = 23;
pub const E_ORD_X: u32 = 24;
pub const ITERMUT: u32 = 32; // whole map
pub const CLEAR: u32 = 33;
pub const CLONE_T: u32 = 35;
pub const CLONE_C: u32 = 36;
pub const COLLECT: u32 = 37;
pub const SWAPAPP: u32 = 38;
pub const LOOKUP: u32 = 39;
pub const RNG: u32 = 44; // at gap
pub const IDROP: u32 = 45;
pub const SPL_L: u32 = 40; // at gap
pub const SPL_R: u32 = 41;
pub const APP: u32 = 42;
pub const SPL_APP: u32 = 43;
pub const SPL_LX: u32 = 48; // at entry
pub const SPL_RX: u32 = 49;
pub const APPX: u32 = 50;
pub fn op_name(o: u32) -> &'static str {
    match o {
        INS => "try_insert new",
        E_OR => "entry.or_try_insert new",
        E_ORW => "entry.or_try_insert_with new",
        E_ORD => "entry.or_default new",
        E_VAC => "vacant.try_insert",
        E_DROP => "vacant.into_key",
        MISS => "absent-key lookups and remove",
        EXT => "extend",
        REM => "remove",
        O_REM => "occupied.remove",
        O_REMENT => "occupied.remove_entry",
        REP => "try_insert existing",
        O_INS => "occupied.insert",
        GETMUT => "get_mut write",
        O_MUT => "occupied.into_mut write",
        ANDMOD => "and_modify.or_try_insert",
        E_OR_X => "entry.or_try_insert existing",
        O_GET => "occupied.get/get_mut/key",
        E_ORW_X => "entry.or_try_insert_with existing",
        E_ORD_X => "entry.or_default existing",
        ITERMUT => "iter_mut/values_mut write",
        CLEAR => "clear",
        CLONE_T => "try_clone",
        CLONE_C => "clone",
        COLLECT => "into_iter.collect",
        SWAPAPP => "append into empty",
        LOOKUP => "lookups",
        IDROP => "into_iter, dropped after some front steps",
        RNG => "range and range_mut",
        SPL_L => "split_off absent key, keep left",
        SPL_R => "split_off absent key, keep right",
        SPL_LX => "split_off present key, keep left",
        SPL_RX => "split_off present key, keep right",
        APP => "append two",
        APPX => "append with equal key",
        SPL_APP => "split_off and append back",
        _ => "?",
    }
}
pub fn at_gap(o: u32) -> bool {
    o < 8 || (40..48).contains(&o)
}
pub fn at_ent(o: u32) -> bool {
    (8..28).contains(&o) || o >= 48
}
fn new_keys(o: u32) -> usize {
    match o {
        INS..=E_DROP => 1,
        EXT | APP | APPX => 2,
        _ => 0,
    }
}
/// positions at which operation o applies in a map of n entries
pub fn positions(o: u32, n: usize) -> usize {
    if at_gap(o) {
        n + 1
    } else if at_ent(o) {
        n
    } else {
        1
    }
}

/// Assigns keys to a positional history.
struct Sim {
    alive: Vec<u32>,
    order: Vec<u32>,
    next: u32,
}
impl Sim {
    fn fresh(&mut self, g: usize, live: bool) -> u32 {
        let t = self.next;
        self.next += 1;
        let at = if g == 0 { 0 } else { self.order.iter().rposition(|x| *x == self.alive[g - 1]).unwrap() + 1 };
        self.order.insert(at, t);
        if live {
            self.alive.insert(g, t);
        }
        t
    }
}

/// builders: 0 ascending, 1 descending, 2 inside-out, 3 append of alternate keys, 4 append upper half, 5 both ends inwards
pub const NB: u32 = 6;
/// trims: 0 none, 1 front, 2 back, 3 middle, 4 every other, 5 split keep left, 6 split keep right, 7 every third from the back
pub const NT: u32 = 8;

fn build_order(b: u32, n: usize) -> Vec<usize> {
    match b {
        1 => (0..n).rev().collect(),
        2 => {
            let mut v = vec![];
            let (mut a, mut z) = (0, n);
            while a < z {
                v.push(a);
                a += 1;
                if a < z {
                    z -= 1;
                    v.push(z);
                }
            }
            v
        }
        5 => {
            let mut v: Vec<usize> = build_order(2, n);
            v.reverse();
            v
        }
        _ => (0..n).collect(),
    }
}
fn trim_positions(t: u32, n: usize, k: usize) -> Vec<usize> {
    // successive indices into the remaining map
    let mut v = vec![];
    let mut len = n;
    for i in 0..k {
        if len == 0 {
            break;
        }
        v.push(match t {
            1 => 0,
            2 => len - 1,
            3 => len / 2,
            4 => i % len,
            7 => (2 * len / 3 + len - i % len) % len,
            _ => 0,
        });
        len -= 1;
    }
    v
}

pub struct Hist<'a> {
    pub b: u32,
    pub n: usize,
    pub t: u32,
    pub k: usize,
    pub ops: &'a [u32],
}
impl<'a> Hist<'a> {
    pub fn parse(w: &'a [u32]) -> Hist<'a> {
        Hist { b: w[0], n: w[1] as usize, t: w[2], k: w[3] as usize, ops: &w[4..] }
    }
}

impl Bt {
    pub fn new() -> Bt {
        Bt { m: sut(M::new), md: vec![], nv: 0 }
    }
    fn val(&mut self) -> El {
        self.nv += 1;
        El::new(0x100_0000 + self.nv)
    }
    fn ins(&mut self, k: u32) -> Res {
        let (key, v) = (El::new(k), self.val());
        let e = Ent { k, kid: key.id, v: v.key, vid: v.id };
        let g = self.md.partition_point(|x| x.k < k);
        self.md.insert(g, e);
        step();
        match sut(|| self.m.try_insert(key, v)) {
            Ok(None) => Ok(()),
            Ok(Some(_)) => Err(format!("try_insert of the new key {k} returned a previous value").into()),
            Err(_) => Err("try_insert failed although no memory was refused".into()),
        }
    }
}

/// Execute a history. The last operation runs under `arm`; `before` is called just before it.
pub fn replay_hist(h: &Hist, arm: Arm, before: &mut dyn FnMut(&mut Bt) -> Res) -> Result<(Bt, St), Fail> {
    // symbolic pass
    let mut s = Sim { alive: (0..h.n as u32).collect(), order: (0..h.n as u32).collect(), next: h.n as u32 };
    let trims = trim_positions(h.t, h.n, h.k);
    match h.t {
        0 => {}
        5 => s.alive.truncate(h.n - h.k.min(h.n)),
        6 => {
            s.alive.drain(..h.k.min(h.n));
        }
        _ => {
            for i in &trims {
                s.alive.remove(*i);
            }
        }
    }
    let after_seed = s.alive.clone();
    let mut toks: Vec<[u32; 2]> = vec![];
    for w in h.ops {
        let (o, p) = (w & 255, (w >> 8) as usize);
        let n = s.alive.len();
        if (at_gap(o) && p > n) || (at_ent(o) && p >= n) {
            return Err("harness: position out of range".into());
        }
        let mut t = [0; 2];
        match o {
            INS..=E_VAC => t[0] = s.fresh(p, true),
            E_DROP => t[0] = s.fresh(p, false),
            EXT | APP => {
                t[0] = s.fresh(p, true);
                t[1] = s.fresh(s.alive.len(), true);
            }
            APPX => {
                t[0] = s.alive[p];
                t[1] = s.fresh(p, true);
            }
            REM..=O_REMENT => {
                s.alive.remove(p);
            }
            CLEAR | IDROP => s.alive.clear(),
            SPL_L | SPL_LX => s.alive.truncate(p),
            SPL_R | SPL_RX => {
                s.alive.drain(..p);
            }
            _ => {}
        }
        toks.push(t);
    }
    let mut key = vec![0u32; s.next as usize];
    for (i, t) in s.order.iter().enumerate() {
        key[*t as usize] = 2 * i as u32 + 2;
    }
    let maxkey = 2 * s.order.len() as u32 + 2;
    // concrete pass
    let mut t = Bt::new();
    match h.b {
        3 | 4 => {
            let (mut a, mut z) = (Bt::new(), Bt::new());
            for i in 0..h.n {
                let left = if h.b == 3 { i % 2 == 0 } else { i < h.n / 2 };
                (if left { &mut a } else { &mut z }).ins(key[i])?;
            }
            t = a;
            sut(|| t.m.append(&mut z.m));
            step();
            t.md.extend(z.md);
            t.md.sort_by_key(|e| e.k);
            t.nv = h.n as u32;
        }
        b => {
            for i in build_order(b, h.n) {
                t.ins(key[i])?
            }
        }
    }
    match h.t {
        0 => {}
        5 | 6 => {
            let at = if h.t == 5 { h.n - h.k.min(h.n) } else { h.k.min(h.n) };
            let q = if at < h.n { key[at] } else { maxkey };
            let r = sut(|| t.m.split_off(&Q(q)));
            step();
            let Ok(r) = r else { return Err("split_off failed although no memory was refused".into()) };
            if h.t == 5 {
                t.md.truncate(at);
                sut(|| drop(r));
            } else {
                t.md.drain(..at);
                let old = std::mem::replace(&mut t.m, r);
                sut(|| drop(old));
            }
        }
        _ => {
            let mut al: Vec<u32> = (0..h.n as u32).collect();
            for i in trims {
                let k = key[al.remove(i) as usize];
                remove(&mut t, k)?
            }
        }
    }
    ensure!(
        t.m.len() == after_seed.len() && t.md.len() == after_seed.len(),
        "after building and trimming, len() is {} instead of {}",
        t.m.len(),
        after_seed.len()
    );
    let mut st = St::Done;
    for (j, w) in h.ops.iter().enumerate() {
        let last = j + 1 == h.ops.len();
        let (o, p) = (w & 255, (w >> 8) as usize);
        let mut tk = [0; 2];
        for i in 0..new_keys(o) {
            tk[i] = key[toks[j][i] as usize]
        }
        let a = if last { arm } else { Arm::No };
        if last {
            before(&mut t)?;
        }
        tr!("{} at {p} of {} entries{}", op_name(o), t.md.len(), if new_keys(o) > 0 { format!(" (key {})", tk[0]) } else { String::new() });
        step();
        st = apply(&mut t, o, p, tk, a)?;
    }
    if h.ops.is_empty() {
        before(&mut t)?;
    }
    Ok((t, st))
}

fn remove(t: &mut Bt, k: u32) -> Res {
    let i = t.md.iter().position(|e| e.k == k).unwrap();
    let e = t.md.remove(i);
    step();
    let v = sut(|| t.m.remove(&Q(k)));
    match v {
        Some(v) if v.id == e.vid => Ok(()),
        Some(v) => Err(format!("remove({k}) returned value {:#x}, expected {:#x}", v.key, e.v).into()),
        None => Err(format!("remove({k}) found nothing").into()),
    }
}

fn call<R>(arm: Arm, f: impl FnOnce() -> R) -> Result<Option<R>, Fail> {
    match arm {
        Arm::No => Ok(Some(sut(f))),
        Arm::Fault(m, k) => Ok(Some(sut_fault(m, k, f).0)),
        Arm::Refuse(k) => {
            l().arm(1, k);
            let x = sut_catch(f);
            l().disarm();
            match x {
                Ok(x) => Ok(Some(x)),
                Err(Caught::Other(_)) if l().nrefused > 0 => Ok(None),
                Err(_) => Err("panicked although no memory was refused".into()),
            }
        }
        Arm::Panic(mask, at) => {
            r().plan_panic(mask, at);
            let x = sut_catch(f);
            r().panic_mask = 0;
            let second = second_fault();
            match x {
                Ok(x) => Ok(Some(x)),
                Err(Caught::Injected) => Ok(None),
                Err(Caught::Other(_)) if second => Ok(None),
                Err(Caught::Other(m)) => Err(format!("panicked by itself: {m}").into()),
            }
        }
        Arm::Script(n, a) => {
            let ans: Vec<u8> = (0..n & 255).map(|i| (a >> (2 * i) & 3) as u8).collect();
            let g = r();
            g.script = ans.as_ptr();
            g.script_len = ans.len();
            g.script_pos = 0;
            g.script_skip = (n >> 8) as usize;
            g.cmp_limit = g.ncmp + 1_000_000;
            let x = sut_catch(f);
            g.script_len = 0;
            g.script = std::ptr::null();
            g.cmp_limit = u64::MAX;
            match x {
                Ok(x) => Ok(Some(x)),
                Err(Caught::Injected) => Err("harness: injected panic in a scripted call".into()),
                Err(Caught::Other(m)) => {
                    tr!("panicked: {m}");
                    Ok(None)
                }
            }
        }
    }
}
macro_rules! go {
    ($arm:expr, $f:expr) => {
        match call($arm, $f)? {
            Some(x) => x,
            None => return Ok(St::Panicked),
        }
    };
}
macro_rules! ok {
    ($arm:expr, $r:expr) => {
        match $r {
            Ok(x) => x,
            Err(_) => {
                ensure!(
                    matches!($arm, Arm::Fault(..) | Arm::Panic(..)) && l().nrefused > 0 || r().clone_failed,
                    "reported an allocation error although no request was refused"
                );
                return Ok(St::Failed);
            }
        }
    };
}

pub fn apply(t: &mut Bt, o: u32, p: usize, nk: [u32; 2], arm: Arm) -> Result<St, Fail> {
    let n = t.md.len();
    // an answering script makes results meaningless: only memory safety is judged
    let loose = arm.script();
    match o {
        INS | E_OR | E_ORW | E_ORD | E_VAC => {
            let key = El::new(nk[0]);
            let v = if o == E_ORD { None } else { Some(t.val()) };
            let mut e = Ent { k: nk[0], kid: key.id, v: 0, vid: 0 };
            if let Some(v) = &v {
                e.v = v.key;
                e.vid = v.id;
            }
            let m = &mut t.m;
            let (kid, k0) = (key.id, nk[0]);
            let mut mid: Result<(), &str> = Ok(());
            // write through the reference handed out: it must be the entry in the map
            let mark = |v: &mut El| {
                v.key ^= 0x0200_0000;
                (v.key, v.id)
            };
            let res: Result<(u32, u32), _> = match o {
                INS => go!(arm, || m.try_insert(key, v.unwrap()).map(|old| {
                    if old.is_some() {
                        mid = Err("try_insert of a new key returned a previous value")
                    }
                    (e.v, e.vid)
                })),
                E_OR => go!(arm, || m.try_entry(key).and_then(|x| {
                    if x.key().id != kid {
                        mid = Err("Entry::key is not the key passed in")
                    }
                    x.and_modify(|_| mid = Err("and_modify of an absent key called its closure")).or_try_insert(v.unwrap()).map(mark)
                })),
                E_ORW => go!(arm, || m
                    .try_entry(key)
                    .and_then(|x| x.or_try_insert_with(|| {
                        tick(GEN);
                        v.unwrap()
                    }))
                    .map(mark)),
                E_ORD => go!(arm, || m.try_entry(key).and_then(|x| x.or_default()).map(mark)),
                _ => go!(arm, || m.try_entry(key).and_then(|x| match x {
                    Entry::Vacant(x) => {
                        if x.key().id != kid {
                            mid = Err("VacantEntry::key is not the key passed in")
                        }
                        x.try_insert(v.unwrap()).map(mark)
                    }
                    Entry::Occupied(_) => {
                        mid = Err("entry of an absent key is occupied");
                        Ok((0, 0))
                    }
                })),
            };
            let (v, vid) = ok!(arm, res);
            if loose {
                return Ok(St::Done);
            }
            mid?;
            if o == E_ORD {
                ensure!(v == 0xDEF ^ 0x0200_0000, "or_default gave value {v:#x}");
                e.v = v;
                e.vid = vid;
            } else if o != INS {
                e.v ^= 0x0200_0000;
            }
            ensure!((v, vid) == (e.v, e.vid), "{} of key {k0} returned a reference to value {v:#x}, not to the one inserted", op_name(o));
            t.md.insert(p, e);
        }
        E_DROP => {
            let key = El::new(nk[0]);
            let kid = key.id;
            let m = &mut t.m;
            let res = go!(arm, || m.try_entry(key).map(|x| match x {
                Entry::Vacant(x) => Some(x.into_key()),
                Entry::Occupied(_) => None,
            }));
            let k = ok!(arm, res);
            if !loose {
                ensure!(k.as_ref().map(|k| k.id) == Some(kid), "VacantEntry::into_key did not give the key back");
            }
        }
        MISS => {
            let q = Q(if p < n { t.md[p].k - 1 } else { u32::MAX });
            let m = &mut t.m;
            let b = go!(arm, || {
                let a = m.get(&q).is_none() && m.get_mut(&q).is_none() && m.get_key_value(&q).is_none() && !m.contains_key(&q);
                let z = m.remove(&q);
                a && z.is_none()
            });
            ensure!(b || loose, "an absent key was found");
        }
        EXT => {
            let (k1, k2) = (El::new(nk[0]), El::new(nk[1]));
            let (v1, v2) = (t.val(), t.val());
            let (a, b) = (Ent { k: nk[0], kid: k1.id, v: v1.key, vid: v1.id }, Ent { k: nk[1], kid: k2.id, v: v2.key, vid: v2.id });
            let m = &mut t.m;
            go!(arm, || m.extend([(k1, v1), (k2, v2)]));
            if loose {
                return Ok(St::Done);
            }
            t.md.insert(p, a);
            t.md.push(b);
        }
        REM | O_REM | O_REMENT => {
            let e = t.md[p];
            let m = &mut t.m;
            if o == REM {
                let v = go!(arm, || m.remove(&Q(e.k)));
                if loose {
                    return Ok(St::Done);
                }
                ensure!(v.as_ref().map(|v| v.id) == Some(e.vid), "remove returned {:?}, expected value {:#x}", v, e.v);
            } else {
                let key = El::new(e.k);
                let res = go!(arm, || m.try_entry(key).map(|x| match x {
                    Entry::Occupied(x) =>
                        if o == O_REM {
                            Some((e.kid, x.remove()))
                        } else {
                            let (k, v) = x.remove_entry();
                            Some((k.id, v))
                        },
                    Entry::Vacant(_) => None,
                }));
                let x = ok!(arm, res);
                if loose {
                    return Ok(St::Done);
                }
                ensure!(
                    x.as_ref().map(|x| (x.0, x.1.id)) == Some((e.kid, e.vid)),
                    "{} did not return the stored entry of key {}",
                    op_name(o),
                    e.k
                );
            }
            t.md.remove(p);
        }
        REP | O_INS | E_OR_X | E_ORW_X | E_ORD_X | ANDMOD | O_MUT | O_GET | GETMUT => {
            let e = t.md[p];
            let v = t.val();
            let (nv, nvid) = (v.key, v.id);
            let key = El::new(e.k);
            let m = &mut t.m;
            let mut mid: Result<(), &str> = Ok(());
            let mut replaced = false; // the value object is replaced, not only written
            match o {
                REP => {
                    let res = go!(arm, || m.try_insert(key, v));
                    let old = ok!(arm, res);
                    if !loose {
                        ensure!(old.as_ref().map(|v| v.id) == Some(e.vid), "try_insert of a present key returned {old:?} instead of its value");
                    }
                    replaced = true;
                }
                GETMUT => {
                    let done = go!(arm, || {
                        drop(key);
                        match m.get_mut(&Q(e.k)) {
                            Some(x) => {
                                *x = v;
                                true
                            }
                            None => false,
                        }
                    });
                    ensure!(done || loose, "get_mut of a present key found nothing");
                    replaced = true;
                }
                E_OR_X | E_ORW_X | E_ORD_X | ANDMOD => {
                    let res = go!(arm, || m.try_entry(key).and_then(|x| match o {
                        E_OR_X => {
                            if x.key().id != e.kid {
                                mid = Err("Entry::key of an occupied entry is not the stored key")
                            }
                            x.or_try_insert(v)
                        }
                        E_ORD_X => x.or_default(),
                        E_ORW_X => x.or_try_insert_with(|| {
                            mid = Err("or_try_insert_with of a present key called its closure");
                            tick(GEN);
                            v
                        }),
                        _ => x
                            .and_modify(|x| {
                                tick(GEN);
                                x.key += 0x1000_0000
                            })
                            .or_try_insert(v),
                    }).map(|v| {
                        v.key ^= 0x0200_0000;
                        (v.key, v.id)
                    }));
                    let got = ok!(arm, res);
                    if !loose {
                        let want = (if o == ANDMOD { e.v + 0x1000_0000 } else { e.v }) ^ 0x0200_0000;
                        ensure!(got == (want, e.vid), "{} gave value {:#x}, expected the stored {:#x}", op_name(o), got.0, want);
                        t.md[p].v = want;
                    }
                }
                _ => {
                    let res = go!(arm, || m.try_entry(key).map(|x| match x {
                        Entry::Occupied(mut x) => {
                            if x.key().id != e.kid {
                                mid = Err("OccupiedEntry::key is not the stored key")
                            }
                            match o {
                                O_INS => {
                                    let old = x.insert(v);
                                    if old.id != e.vid {
                                        mid = Err("OccupiedEntry::insert did not return the stored value")
                                    }
                                    if x.get().id != nvid {
                                        mid = Err("OccupiedEntry::get after insert is not the new value")
                                    }
                                }
                                O_MUT => {
                                    let x = x.into_mut();
                                    if x.id != e.vid {
                                        mid = Err("OccupiedEntry::into_mut is not the stored value")
                                    }
                                    *x = v;
                                }
                                _ => {
                                    if x.get().id != e.vid || x.get_mut().id != e.vid {
                                        mid = Err("OccupiedEntry::get is not the stored value")
                                    }
                                }
                            }
                        }
                        Entry::Vacant(_) => mid = Err("entry of a present key is vacant"),
                    }));
                    ok!(arm, res);
                    replaced = o != O_GET;
                }
            }
            if loose {
                return Ok(St::Done);
            }
            mid?;
            if replaced {
                t.md[p].v = nv;
                t.md[p].vid = nvid;
            }
        }
        ITERMUT => {
            let m = &mut t.m;
            go!(arm, || {
                for (i, (_, v)) in m.iter_mut().enumerate() {
                    v.key = v.key ^ (i as u32 + 1) << 12
                }
                for (i, v) in m.values_mut().enumerate() {
                    v.key = v.key ^ (i as u32 + 1) << 2
                }
                for (i, (_, v)) in (&mut *m).into_iter().enumerate() {
                    v.key = v.key ^ (i as u32 + 1)
                }
            });
            for (i, e) in t.md.iter_mut().enumerate() {
                let i = i as u32 + 1;
                e.v = e.v ^ i << 12 ^ i << 2 ^ i;
            }
        }
        CLEAR => {
            let m = &mut t.m;
            go!(arm, || m.clear());
            t.md.clear();
        }
        CLONE_T | CLONE_C => {
            let m = &t.m;
            let c = if o == CLONE_T {
                let c = go!(arm, || m.try_clone());
                ok!(arm, c)
            } else {
                go!(arm, || m.clone())
            };
            if loose {
                return Ok(St::Done);
            }
            // the source is unchanged, the copy has the same contents in fresh objects
            check_map(&t.m, &t.md).map_err(|f| Fail { key: f.key, msg: format!("source after cloning: {}", f.msg) })?;
            ensure!(c.len() == n, "the clone has {} entries, the source {n}", c.len());
            let mut md = vec![];
            for ((k, v), e) in c.iter().zip(&t.md) {
                ensure!(k.key == e.k && v.key == e.v, "the clone holds ({},{:#x}) where the source holds ({},{:#x})", k.key, v.key, e.k, e.v);
                ensure!(k.id != e.kid && v.id != e.vid, "the clone shares an element with the source");
                md.push(Ent { k: k.key, kid: k.id, v: v.key, vid: v.id });
            }
            ensure!(md.len() == n, "iterating the clone yields {} of {n} entries", md.len());
            let old = std::mem::replace(&mut t.m, c);
            sut(|| drop(old));
            t.md = md;
        }
        COLLECT => {
            let m = &mut t.m;
            let c: M = go!(arm, || std::mem::take(m).into_iter().collect());
            t.m = c;
        }
        SWAPAPP => {
            let mut fresh = M::new();
            let m = &mut t.m;
            let f = &mut fresh;
            go!(arm, || f.append(m));
            ensure!(t.m.len() == 0 && t.m.iter().next().is_none(), "append left entries behind");
            t.m = fresh;
        }
        LOOKUP => {
            let m = &t.m;
            let md = &t.md;
            let b = go!(arm, || {
                for e in md {
                    let _ = m.get(&Q(e.k));
                    let _ = m.get(&Q(e.k + 1));
                }
                m.range(Q(0)..Q(u32::MAX)).count() == md.len() && m == m && m.cmp(m).is_eq()
            });
            ensure!(b || loose, "lookups differ from the contents");
        }
        IDROP => {
            let m = &mut t.m;
            let c = go!(arm, || {
                let mut it = std::mem::take(m).into_iter();
                let c = (0..p).filter(|_| it.next().is_some()).count();
                drop(it);
                c
            });
            ensure!(c == p, "into_iter yields {c} entries of {p}");
            t.md.clear();
        }
        RNG => {
            let (a, z) = (Q(if p == 0 { 0 } else { t.md[p - 1].k }), Q(if p + 3 < n { t.md[p + 3].k } else { u32::MAX }));
            let (m, md) = (&mut t.m, &t.md);
            let good = go!(arm, || {
                let mut good = true;
                for how in 0..4 {
                    let b = match how {
                        0 => (Bound::Included(&a), Bound::Excluded(&z)),
                        1 => (Bound::Excluded(&a), Bound::Included(&z)),
                        2 => (Bound::Included(&a), Bound::Included(&z)),
                        _ => (Bound::Excluded(&a), Bound::Unbounded),
                    };
                    let want = md.iter().filter(|e| {
                        (if how == 1 || how == 3 { e.k > a.0 } else { e.k >= a.0 })
                            && (how == 3 || if how == 0 { e.k < z.0 } else { e.k <= z.0 })
                    });
                    // front and back in turn, never more steps than there are entries
                    let mut it = m.range_mut::<Q, _>(b);
                    let mut c = 0;
                    for i in 0..=n {
                        let x = if i % 3 == 2 { it.next_back() } else { it.next() };
                        let Some((k, v)) = x else { break };
                        k.check("range");
                        v.check("range");
                        c += 1;
                    }
                    good &= c == want.clone().count();
                    if how == 2 {
                        let it = m.range::<Q, _>(b);
                        for (k, v) in it.take(n + 1) {
                            k.check("range");
                            v.check("range");
                        }
                    }
                }
                good
            });
            ensure!(good || loose, "range yields another number of entries than lie within the bounds");
        }
        SPL_L | SPL_R | SPL_LX | SPL_RX | SPL_APP => {
            let x = o == SPL_LX || o == SPL_RX;
            let q = Q(if p < n { t.md[p].k - !x as u32 } else { u32::MAX });
            let m = &mut t.m;
            let res = go!(arm, || m.split_off(&q));
            let mut right = ok!(arm, res);
            if loose {
                sut(|| drop(right));
                return Ok(St::Done);
            }
            let rmd = t.md.split_off(p);
            check_map(&t.m, &t.md).map_err(|f| Fail { key: f.key, msg: format!("left part after split_off: {}", f.msg) })?;
            check_map(&right, &rmd).map_err(|f| Fail { key: f.key, msg: format!("right part after split_off: {}", f.msg) })?;
            if o == SPL_L || o == SPL_LX {
                sut(|| drop(right));
            } else if o == SPL_APP {
                sut(|| t.m.append(&mut right));
                ensure!(right.is_empty(), "append left entries behind");
                t.md.extend(rmd);
                sut(|| drop(right));
            } else {
                let old = std::mem::replace(&mut t.m, right);
                t.md = rmd;
                sut(|| drop(old));
            }
        }
        APP | APPX => {
            let mut other = Bt::new();
            other.nv = 0x1000 + t.nv;
            t.nv += 2;
            other.ins(nk[0])?;
            other.ins(nk[1])?;
            let (m, om) = (&mut t.m, &mut other.m);
            let done = call(arm, || m.append(om))?.is_some();
            if !done || loose {
                // the other map is still a map
                let mut bad = Ok(());
                if !done {
                    bad = sane(&other.m);
                    sut(|| drop(std::mem::take(&mut other.m)));
                }
                bad?;
                return Ok(if done { St::Done } else { St::Panicked });
            }
            ensure!(other.m.len() == 0 && other.m.iter().next().is_none(), "append left entries behind");
            for e in other.md {
                match t.md.binary_search_by_key(&e.k, |x| x.k) {
                    Ok(i) => t.md[i] = e,
                    Err(i) => t.md.insert(i, e),
                }
            }
        }
        _ => return Err("harness: unknown operation".into()),
    }
    Ok(St::Done)
}

/// The map agrees with the model in every observation.
pub fn check_map(m: &M, md: &[Ent]) -> Res {
    let n = md.len();
    ensure!(m.len() == n, "len() is {}, expected {n}", m.len());
    ensure!(m.is_empty() == (n == 0), "is_empty() is {}", m.is_empty());
    let mut it = m.iter();
    for (i, e) in md.iter().enumerate() {
        let Some((k, v)) = it.next() else { return Err(format!("iteration ends after {i} of {n} entries").into()) };
        k.check("iteration");
        v.check("iteration");
        ensure!(k.key == e.k && v.key == e.v, "entry {i} is ({},{:#x}), expected ({},{:#x})", k.key, v.key, e.k, e.v);
        ensure!(k.id == e.kid, "entry {i} (key {}) holds another key object than the rule says", e.k);
        ensure!(v.id == e.vid, "entry {i} (key {}) holds another value object than expected", e.k);
    }
    ensure!(it.next().is_none(), "iteration yields more than {n} entries");
    let mut it = m.iter();
    for (i, e) in md.iter().enumerate().rev() {
        let Some((k, v)) = it.next_back() else { return Err(format!("backward iteration ends before entry {i}").into()) };
        ensure!(k.id == e.kid && v.id == e.vid, "backward iteration yields {} as entry {i}, expected {}", k.key, e.k);
    }
    ensure!(it.next_back().is_none(), "backward iteration yields more than {n} entries");
    let cost = flag(BT_COST);
    let limit = if cost { 11 * max_levels(n) } else { u64::MAX };
    for (i, e) in md.iter().enumerate() {
        let c0 = r().ncmp;
        let got = m.get(&Q(e.k));
        let c1 = r().ncmp - c0;
        ensure!(got.map(|v| v.id) == Some(e.vid), "get({}) found {:?}, expected {:#x}", e.k, got.map(|v| v.key), e.v);
        ensure!(c1 <= limit, "get of one of {n} entries made {c1} comparisons");
        let gap = if i == 0 { e.k - 1 } else { md[i - 1].k + 1 };
        ensure!(gap == e.k || m.get(&Q(gap)).is_none(), "get({gap}) found something although absent");
        if i == n - 1 {
            ensure!(m.get(&Q(e.k + 1)).is_none(), "get({}) found something although absent", e.k + 1);
        }
    }
    if n == 0 {
        ensure!(m.get(&Q(1)).is_none(), "get found something in an empty map");
    } else {
        let e = &md[n / 2];
        ensure!(m.contains_key(&Q(e.k)) && m[&Q(e.k)].id == e.vid, "contains_key or index disagree with get for {}", e.k);
        ensure!(m.get_key_value(&Q(e.k)).map(|(k, v)| (k.id, v.id)) == Some((e.kid, e.vid)), "get_key_value({}) is not the stored entry", e.k);
    }
    Ok(())
}
/// levels a tree of n entries can have when every node but the root holds at least 4 entries
pub fn max_levels(n: usize) -> u64 {
    let mut lv = 1;
    let mut least = 9usize;
    while n >= least {
        lv += 1;
        least = (least + 1) * 5 - 1;
    }
    lv
}
/// comparisons needed to find that a key is below all others: one per level
pub fn levels(m: &M) -> u64 {
    let c = r().ncmp;
    let _ = m.get(&Q(0));
    r().ncmp - c
}
/// Arrangement of the entries over nodes, seen from outside.
pub fn shape(m: &M) -> (u64, Vec<u8>) {
    let mut bl = l().blocks();
    bl.sort_unstable();
    let mut ord: HashMap<usize, u64> = HashMap::new();
    let mut h: Vec<u64> = vec![bl.len() as u64, m.len() as u64];
    let mut sh = vec![];
    for (k, _) in m.iter() {
        let a = k as *const El as usize;
        let i = bl.partition_point(|b| b.0 <= a);
        let nx = ord.len() as u64;
        let o = *ord.entry(i).or_insert(nx);
        h.push(o);
        sh.push(o as u8);
    }
    (hash64(h), sh)
}
/// Take the map apart in one of five ways, checking each removed value, then the emptied map.
pub fn drain(t: &mut Bt, way: u64) -> Res {
    let mut i = 0;
    while !t.md.is_empty() {
        let n = t.md.len();
        let at = match way % 5 {
            0 => 0,
            1 => n - 1,
            2 => n / 2,
            3 => (i * 7) % n,
            _ => {
                if i % 2 == 0 {
                    0
                } else {
                    n - 1
                }
            }
        };
        let k = t.md[at].k;
        remove(t, k)?;
        i += 1;
        ensure!(t.m.len() == t.md.len(), "len() is {} after removals, expected {}", t.m.len(), t.md.len());
        if i % 16 == 8 {
            check_map(&t.m, &t.md)?;
        }
    }
    ensure!(t.m.iter().next().is_none() && t.m.is_empty(), "an emptied map still yields entries");
    t.ins(2)?;
    check_map(&t.m, &t.md)
}
/// A map of unknown contents is still a usable map: counts agree, every element exists, order holds.
pub fn sane(m: &M) -> Res {
    let mut n = 0;
    for (k, v) in m.iter() {
        k.check("iteration");
        v.check("iteration");
        n += 1;
    }
    ensure!(n == m.len(), "after a caught panic len() is {} but {n} entries are there", m.len());
    let b = m.iter().rev().count();
    ensure!(b == n, "after a caught panic backward iteration yields {b} of {n} entries");
    Ok(())
}
fn way(w: &[u32]) -> u64 {
    hash64(w.iter().map(|x| *x as u64)) >> 7
}

// ---------------------------------------------------------------- cases
pub const S_PROG: u32 = 0;
pub const S_OOM: u32 = 1;
pub const S_PANIC: u32 = 2;
pub const S_SCRIPT: u32 = 3;
pub const S_APPEND: u32 = 4;
pub const S_ITER: u32 = 5;
pub const S_RANGE: u32 = 6;
pub const S_MASKS: u32 = 7;
pub const S_EQ: u32 = 8;
pub const S_SAME: u32 = 40;
pub const S_INTO: u32 = 9;
pub const S_CFAIL: u32 = 10;
pub const S_REFUSE: u32 = 41;
pub const S_BOUNDS: u32 = 42;

pub fn case(w: &[u32]) -> Res {
    match w[1] {
        S_PROG => prog(&w[2..]),
        S_OOM => oom(&w[2..]),
        S_PANIC => panics(&w[2..]),
        S_REFUSE => refused(&w[2..]),
        S_SCRIPT => script(&w[2..]),
        S_BOUNDS => bounds(&w[2..]),
        S_APPEND => append(&w[2..]),
        S_ITER => iter(&w[2..]),
        S_RANGE => range(&w[2..]),
        S_MASKS => masks(&w[2..]),
        S_SAME => same(&w[2..]),
        S_EQ => eq(&w[2..]),
        S_INTO => into(&w[2..]),
        S_CFAIL => cfail(&w[2..]),
        _ => Err("harness: unknown B-tree case".into()),
    }
}

/// words: history; judged after its last operation, then taken apart
fn small(t: &Bt) -> Res {
    let (b, by, n) = (l().live_blocks, l().live_bytes, t.md.len());
    maximum("levels", levels(&t.m));
    ensure!(b <= 1 + n / 4, "{n} entries are held in {b} memory blocks");
    ensure!(by <= 2000 + n * 256, "{n} entries are held in {by} bytes");
    Ok(())
}
fn prog(w: &[u32]) -> Res {
    let h = Hist::parse(w);
    let cost = flag(BT_COST);
    let mut pre = (0u64, 0usize);
    let last = h.ops.last().map(|w| w & 255);
    let (mut t, _) = replay_hist(&h, if cost { Arm::Fault(0, 0) } else { Arm::No }, &mut |t| {
        pre = (levels(&t.m).max(1), l().live_blocks);
        r().ncmp = 0;
        Ok(())
    })?;
    if cost {
        let q = l().nreq;
        match last {
            Some(INS..=E_VAC) => {
                nontrivial();
                ensure!(q <= pre.0 + 1, "one insertion into a tree of {} levels made {q} memory requests", pre.0);
                ensure!(r().ncmp <= 11 * max_levels(t.md.len()), "one insertion into {} entries made {} comparisons", t.md.len(), r().ncmp);
                maximum("requests of one insertion", q);
            }
            Some(REM | MISS | GETMUT | CLEAR) => {
                ensure!(q == 0, "{} made {q} memory requests", op_name(last.unwrap()));
                let per = if last == Some(MISS) { 5 } else { 1 };
                ensure!(r().ncmp <= per * 11 * max_levels(t.md.len() + 1), "{} made {} comparisons", op_name(last.unwrap()), r().ncmp);
            }
            _ => {}
        }
    } else if !h.ops.is_empty() {
        nontrivial()
    }
    check_map(&t.m, &t.md)?;
    if cost {
        small(&t)?;
    }
    let (fp, sh) = shape(&t.m);
    tr!("{} entries over nodes {:?}", t.md.len(), sh);
    state(fp);
    emit(fp);
    emit(t.md.len() as u64);
    if flag(BT_DRAIN) {
        drain(&mut t, way(w))?;
    }
    dispose(t);
    Ok(())
}

/// words: mode, k, history; the k-th request of the last operation is refused
fn oom(w: &[u32]) -> Res {
    let h = Hist::parse(&w[2..]);
    // bit 2: take the map apart after the failure instead of repeating the call
    let (mode, repeat, k) = (w[0] as u8 & 3, w[0] & 4 == 0, w[1] as u64);
    let mut live = (0, 0);
    let (mut t, st) = replay_hist(&h, Arm::Fault(mode, k), &mut |t| {
        live = (r().live, t.md.len());
        Ok(())
    })?;
    let nref = l().nrefused;
    l().nrefused = 0;
    emit(nref);
    let last = *h.ops.last().unwrap();
    let (o, p) = (last & 255, (last >> 8) as usize);
    if nref > 0 {
        nontrivial();
        if crate::vecs::flag(crate::vecs::CLASS) {
            ensure!(st == St::Failed, "{}: request {k} was refused, yet the call reports success", op_name(o));
        }
    } else {
        ensure!(st == St::Done, "{}: no request was refused, yet the call failed", op_name(o));
    }
    tr!("request {k} of {} {}: {:?}", op_name(o), if nref > 0 { "refused" } else { "not made" }, st);
    let what = format!("after a failed {}", op_name(o));
    if st == St::Failed {
        check_map(&t.m, &t.md).map_err(|f| Fail { key: f.key, msg: format!("{what}: {}", f.msg) })?;
        ensure!(r().live == live.0, "{what}: {} elements exist, {} were stored before", r().live, live.0);
        if !repeat {
            drain(&mut t, way(w))?;
            dispose(t);
            return Ok(());
        }
        // the same call with memory available has its normal outcome
        let nk = [if at_ent(o) && new_keys(o) > 0 { t.md[p].k } else { fresh_key(&t, p) }, 0];
        step();
        let s2 = apply(&mut t, o, p, nk, Arm::No).map_err(|f| Fail { key: f.key, msg: format!("repeated {what}: {}", f.msg) })?;
        ensure!(s2 == St::Done, "repeating the call with memory available fails");
        check_map(&t.m, &t.md).map_err(|f| Fail { key: f.key, msg: format!("after repeating it {what}: {}", f.msg) })?;
    } else {
        check_map(&t.m, &t.md)?;
    }
    state(shape(&t.m).0);
    if flag(BT_DRAIN) || st == St::Failed && t.md.len() < 200 {
        drain(&mut t, way(w))?;
    }
    dispose(t);
    Ok(())
}
fn fresh_key(t: &Bt, g: usize) -> u32 {
    // one odd key is free in every gap
    if g < t.md.len() {
        t.md[g].k - 1
    } else {
        t.md.last().map_or(2, |e| e.k + 1)
    }
}

/// words: how (0 fails on the n-th clone, 1 refused request), n, history (its last operation is ignored): try_clone
fn cfail(w: &[u32]) -> Res {
    let h = Hist::parse(&w[2..]);
    let (how, at) = (w[0], w[1] as u64);
    let (mut t, _) = replay_hist(&h, Arm::No, &mut |_| Ok(()))?;
    let live = r().live;
    let blocks = l().live_blocks;
    if how == 0 {
        r().plan_clone_fail(at);
    }
    step();
    let (res, _, nref) = sut_fault(how as u8, at, || t.m.try_clone());
    let hit = if how == 0 { r().clone_failed } else { nref > 0 };
    r().clear_plan();
    emit(hit as u64);
    tr!("try_clone of {} entries, {} {at}: {}", t.md.len(), if how == 0 { "element clone fails at" } else { "refused request" }, if res.is_ok() { "Ok" } else { "Err" });
    match res {
        Ok(c) => {
            ensure!(!hit, "try_clone reports success although an element clone or request failed");
            sut(|| drop(c));
        }
        Err(_) => {
            ensure!(hit, "try_clone failed by itself");
            nontrivial();
        }
    }
    ensure!(r().live == live, "after try_clone {} elements exist, {live} before", r().live);
    ensure!(l().live_blocks == blocks, "after try_clone {} blocks are held, {blocks} before", l().live_blocks);
    check_map(&t.m, &t.md).map_err(|f| Fail { key: f.key, msg: format!("source after a failed try_clone: {}", f.msg) })?;
    if flag(BT_DRAIN) {
        drain(&mut t, way(w))?;
    }
    dispose(t);
    Ok(())
}

/// words: mask, at, history; caller code of a kind in the mask panics at its at-th invocation in the last operation
fn panics(w: &[u32]) -> Res {
    let h = Hist::parse(&w[2..]);
    let (mut t, st) = replay_hist(&h, Arm::Panic(w[0], w[1] as u64), &mut |_| Ok(()))?;
    let fired = r().fired;
    let second = second_fault();
    emit(fired as u64 | (second as u64) << 1);
    r().clear_plan();
    l().nrefused = 0;
    leak_ok();
    let o = h.ops.last().unwrap() & 255;
    if fired && w[0] >> 30 > 0 && !second {
        // the panic came before the second fault: the same as without it
        dispose(t);
        return Ok(());
    }
    if fired || second {
        nontrivial();
        tr!("caller code panicked at invocation {} of {}", w[1], op_name(o));
    } else {
        ensure!(st == St::Done, "harness: no panic planned, outcome {st:?}");
        check_map(&t.m, &t.md)?;
    }
    aftermath(&mut t, way(w), true)
}
/// words: k, history; the k-th request of the last operation, which cannot report it, is refused
fn refused(w: &[u32]) -> Res {
    let h = Hist::parse(&w[1..]);
    let (mut t, st) = replay_hist(&h, Arm::Refuse(w[0] as u64), &mut |_| Ok(()))?;
    let nref = l().nrefused;
    l().nrefused = 0;
    emit((nref > 0) as u64);
    let o = h.ops.last().unwrap() & 255;
    tr!("request {} of {}: {st:?}", w[0], op_name(o));
    if nref == 0 {
        ensure!(st == St::Done, "no request was refused, outcome {st:?}");
    } else {
        nontrivial();
    }
    if st == St::Done {
        check_map(&t.m, &t.md)?;
    }
    aftermath(&mut t, way(w), true)
}
/// words: number of answers, answers (2 bits each), history; comparisons in the last operation give these answers
fn script(w: &[u32]) -> Res {
    let h = Hist::parse(&w[2..]);
    r().script_pos = 0;
    let (mut t, _) = replay_hist(&h, Arm::Script(w[0], w[1]), &mut |_| Ok(()))?;
    let used = r().script_pos;
    emit(used as u64);
    if used > 0 {
        nontrivial()
    }
    r().clear_plan();
    leak_ok();
    tr!("comparisons answered {:?} (0 less, 1 equal, 2 greater) from number {} on, {used} of them used", (0..w[0] & 255).map(|i| w[1] >> (2 * i) & 3).collect::<Vec<_>>(), w[0] >> 8);
    aftermath(&mut t, way(w), false)
}
/// A pair of bounds that answers differently each time it is asked.
struct Fickle<'a> {
    ks: &'a [Q; 2],
    ans: &'a [u8],
    pos: &'a std::cell::Cell<usize>,
}
impl Fickle<'_> {
    fn next(&self) -> Bound<&Q> {
        let i = self.pos.get();
        self.pos.set(i + 1);
        match self.ans.get(i).copied().unwrap_or(4) {
            0 => Bound::Included(&self.ks[0]),
            1 => Bound::Excluded(&self.ks[0]),
            2 => Bound::Included(&self.ks[1]),
            3 => Bound::Excluded(&self.ks[1]),
            _ => Bound::Unbounded,
        }
    }
}
impl std::ops::RangeBounds<Q> for Fickle<'_> {
    fn start_bound(&self) -> Bound<&Q> {
        self.next()
    }
    fn end_bound(&self) -> Bound<&Q> {
        self.next()
    }
}
/// words: two key positions (2 * i: entry i, 2 * i + 1: before it), number of answers, answers in base 5, history;
/// the last two answers take every value. Bounds that contradict themselves must not lead out of the tree.
fn bounds(w: &[u32]) -> Res {
    let h = Hist::parse(&w[4..]);
    let (mut t, _) = replay_hist(&h, Arm::No, &mut |_| Ok(()))?;
    let n = t.md.len();
    let key = |p: u32| match t.md.get(p as usize / 2) {
        Some(e) if p % 2 == 0 => e.k,
        Some(e) => e.k - 1,
        None => u32::MAX,
    };
    let ks = [Q(key(w[0])), Q(key(w[1]))];
    let len = w[2] as usize;
    let mut ans: Vec<u8> = (0..len).map(|i| (w[3] / 5u32.pow(i as u32) % 5) as u8).collect();
    ans.extend([0, 0]);
    leak_ok();
    let pos = std::cell::Cell::new(0);
    let mut panics = 0;
    for tail in 0..25 {
        ans[len] = tail / 5;
        ans[len + 1] = tail % 5;
        for way in 0..4 {
            step();
            pos.set(0);
            let b = Fickle { ks: &ks, ans: &ans, pos: &pos };
            let seen = sut_catch(|| {
                let mut seen = 0;
                if way < 2 {
                    let mut it = t.m.range::<Q, _>(b);
                    while let Some((k, v)) = if way == 0 { it.next() } else { it.next_back() } {
                        k.check("range");
                        v.check("range");
                        seen += 1;
                        if seen > n {
                            break;
                        }
                    }
                } else {
                    let mut it = t.m.range_mut::<Q, _>(b);
                    while let Some((k, v)) = if (seen + way) % 2 == 0 { it.next() } else { it.next_back() } {
                        k.check("range");
                        v.check("range");
                        seen += 1;
                        if seen > n {
                            break;
                        }
                    }
                }
                seen
            });
            match seen {
                Ok(seen) => ensure!(seen <= n, "a range with changing bounds {ans:?} yields more than the {n} entries"),
                Err(Caught::Injected) => return Err("harness: injected panic".into()),
                Err(Caught::Other(_)) => panics += 1,
            }
        }
    }
    tr!("bounds at {} and {}, answers {:?}.. : {panics} of 100 ranges panicked", ks[0].0, ks[1].0, &ans[..len]);
    nontrivial();
    state(hash64([w[0] as u64, w[1] as u64, w[3] as u64, panics, n as u64]));
    check_map(&t.m, &t.md)?;
    dispose(t);
    Ok(())
}
/// bounds that change between questions, at several places of trees of one to three levels
pub fn fickle(e: &Eng, fam: u32) {
    let mut cs = vec![];
    for (s, len) in [([0, 0, 0, 0], 2), ([0, 5, 0, 0], 2), ([0, 23, 0, 0], 4), ([1, 40, 0, 0], 4), ([0, 110, 0, 0], if e.thorough { 6 } else { 4 }), ([3, 200, 3, 60], if e.thorough { 6 } else { 4 })] {
        let n = s[1] - if s[2] > 0 { s[3] } else { 0 };
        let at: Vec<u32> = if n < 20 { (0..=2 * n).step_by(3).collect() } else { vec![0, 1, n - 1, n, n + 9, n + 10, 2 * n - 2, 2 * n] };
        for a in &at {
            for b in &at {
                for x in 0..5u32.pow(len) {
                    cs.push(hist(fam, S_BOUNDS, &[*a, *b, len, x], &s, &[]));
                }
            }
        }
    }
    e.all("maps: ranges whose bounds change between questions", cs);
}
/// After caller code misbehaved: use the map in every way, then drop it.
fn aftermath(t: &mut Bt, way: u64, sorted: bool) -> Res {
    sane(&t.m)?;
    state(shape(&t.m).0);
    r().cmp_limit = r().ncmp + 5_000_000;
    let mut keys: Vec<u32> = t.m.iter().map(|(k, _)| k.key).collect();
    if sorted {
        ensure!(keys.windows(2).all(|w| w[0] < w[1]), "after a caught panic the keys are out of order: {keys:?}");
    }
    // clone, range, lookups
    let c = sut(|| t.m.clone());
    ensure!(c.len() == t.m.len(), "a clone after a caught panic has {} of {} entries", c.len(), t.m.len());
    sut(|| drop(c));
    for k in &keys {
        let g = t.m.get(&Q(*k)).map(|v| v.check("lookup"));
        ensure!(g.is_some() || !sorted, "after a caught panic key {k} is not found");
    }
    match way % 4 {
        0 => {}
        1 => keys.reverse(),
        2 => keys.sort_by_key(|k| k.wrapping_mul(0x9E3779B1)),
        _ => {
            // grow first
            for i in 0..14u32 {
                let (k, v) = (El::new(i * 5 + 1), El::new(i));
                step();
                let _ = sut(|| t.m.try_insert(k, v));
            }
            sane(&t.m)?;
        }
    }
    for (i, k) in keys.iter().enumerate() {
        step();
        let v = sut(|| t.m.remove(&Q(*k)));
        ensure!(v.is_some() || !sorted, "after a caught panic key {k} cannot be removed");
        if let Some(v) = v {
            v.check("removal");
        }
        if i % 4 == 0 {
            sane(&t.m)?
        }
    }
    sane(&t.m)?;
    let (k, v) = (El::new(1), El::new(1));
    let _ = sut(|| t.m.try_insert(k, v));
    sane(&t.m)?;
    let m = std::mem::take(&mut t.m);
    if way % 2 == 0 {
        sut(|| drop(m));
    } else {
        let mut it = m.into_iter();
        sut(|| {
            it.next();
            it.next_back();
        });
        sut(|| drop(it));
    }
    Ok(())
}

// ---------------------------------------------------------------- append
/// patterns: how the keys of the second map lie relative to those of the first
pub const NPAT: u32 = 8;
fn pattern(pat: u32, n: usize, m: usize) -> (Vec<u32>, Vec<u32>) {
    let s = 10u32;
    let a: Vec<u32> = (0..n as u32).map(|i| 1_000_000 + i * s).collect();
    let lo = 1_000_000u32;
    let hi = lo + n as u32 * s;
    let b: Vec<u32> = match pat {
        0 => (0..m as u32).map(|i| hi + i * s).collect(),
        1 => (0..m as u32).map(|i| 100_000 + i * s).collect(),
        2 => (0..m as u32).map(|i| lo + i * s + 5).collect(), // alternately
        3 => (0..m as u32).map(|i| lo + i * s).collect(),     // equal keys first
        4 => (0..m as u32).map(|i| lo + i * s + 5 * (i % 2)).collect(), // every other key equal
        5 => {
            // as a block in the middle
            let mid = lo + (n as u32 / 2) * s;
            (0..m as u32).map(|i| mid * 1 + 1 + i).filter(|_| m < 9).chain((0..m as u32).filter(|_| m >= 9).map(|i| hi - s + 1 + i)).collect()
        }
        6 => (0..m as u32).map(|i| if i % 2 == 0 { 100_000 + i } else { hi + i }).collect(),
        _ => (0..m as u32).map(|i| lo + (n as u32).saturating_sub(m as u32 / 2) * s + i * s).collect(), // overlapping the end
    };
    // odd keys stay free for probes
    let a = a.iter().map(|k| 2 * k).collect();
    let mut b: Vec<u32> = b.iter().map(|k| 2 * k).collect();
    b.sort_unstable();
    b.dedup();
    (a, b)
}
fn build(keys: &[u32], desc: bool) -> Result<Bt, Fail> {
    let mut t = Bt::new();
    if desc {
        for k in keys.iter().rev() {
            t.ins(*k)?
        }
    } else {
        for k in keys {
            t.ins(*k)?
        }
    }
    Ok(t)
}
fn do_append(a: &mut Bt, b: &mut Bt) -> Res {
    step();
    sut(|| a.m.append(&mut b.m));
    check_map(&b.m, &[]).map_err(|f| Fail { key: f.key, msg: format!("the appended map is not empty: {}", f.msg) })?;
    let mut md = Vec::with_capacity(a.md.len() + b.md.len());
    let (mut i, mut j) = (0, 0);
    while i < a.md.len() || j < b.md.len() {
        let ka = a.md.get(i).map_or(u64::MAX, |e| e.k as u64);
        let kb = b.md.get(j).map_or(u64::MAX, |e| e.k as u64);
        if ka < kb {
            md.push(a.md[i]);
            i += 1
        } else {
            if ka == kb {
                i += 1
            }
            md.push(b.md[j]);
            j += 1
        }
    }
    a.md = md;
    b.md.clear();
    check_map(&a.m, &a.md).map_err(|f| Fail { key: f.key, msg: format!("after append: {}", f.msg) })
}
/// words: pattern, n, m, how both were built, follow-up (0 drain; 1 insert at gap x; 2 remove entry x; 3 split at x), x
fn append(w: &[u32]) -> Res {
    let (ka, kb) = pattern(w[0], w[1] as usize, w[2] as usize);
    let mut a = build(&ka, w[3] & 1 == 1)?;
    let mut b = build(&kb, w[3] & 2 == 2)?;
    b.md.iter().for_each(|_| ());
    tr!("append {} entries to {} (pattern {})", kb.len(), ka.len(), w[0]);
    do_append(&mut a, &mut b)?;
    nontrivial();
    if flag(BT_COST) {
        small(&a)?;
    }
    let (fp, sh) = shape(&a.m);
    tr!("nodes {:?}", sh);
    state(fp);
    emit(a.md.len() as u64);
    b.nv = 1 << 20;
    b.ins(7)?;
    let x = w[5] as usize;
    match w[4] {
        1 if x <= a.md.len() => {
            let k = if x < a.md.len() { a.md[x].k - 1 } else { a.md.last().map_or(5, |e| e.k + 1) };
            if a.md.binary_search_by_key(&k, |e| e.k).is_err() {
                a.ins(k)?
            }
        }
        2 if x < a.md.len() => {
            let k = a.md[x].k;
            remove(&mut a, k)?
        }
        3 if x <= a.md.len() => {
            apply(&mut a, SPL_APP, x, [0, 0], Arm::No)?;
        }
        _ => {}
    }
    check_map(&a.m, &a.md).map_err(|f| Fail { key: f.key, msg: format!("follow-up after append: {}", f.msg) })?;
    check_map(&b.m, &b.md).map_err(|f| Fail { key: f.key, msg: format!("appended map, used again: {}", f.msg) })?;
    drain(&mut a, way(w))?;
    dispose(a);
    dispose(b);
    Ok(())
}
/// words: mask a, mask b: append of every pair of small maps (values from the second win), in two orders
fn masks(w: &[u32]) -> Res {
    let ks = |m: u32| (0..16).filter(|i| m >> i & 1 == 1).map(|i| 10 * i + 10).collect::<Vec<u32>>();
    for desc in [false, true] {
        let mut a = build(&ks(w[0]), desc)?;
        let mut b = build(&ks(w[1]), !desc)?;
        tr!("append {:?} to {:?}", ks(w[1]), ks(w[0]));
        do_append(&mut a, &mut b)?;
        if w[0] & w[1] != 0 {
            nontrivial()
        }
        state(shape(&a.m).0);
        b.ins(33)?;
        check_map(&b.m, &b.md)?;
        drain(&mut a, way(w))?;
        dispose(a);
    dispose(b);
    }
    Ok(())
}

// ---------------------------------------------------------------- iteration
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bd {
    Un,
    In(u32),
    Ex(u32),
}
impl Bd {
    fn b(self) -> std::ops::Bound<Q> {
        match self {
            Bd::Un => std::ops::Bound::Unbounded,
            Bd::In(k) => std::ops::Bound::Included(Q(k)),
            Bd::Ex(k) => std::ops::Bound::Excluded(Q(k)),
        }
    }
    fn k(self) -> Option<u32> {
        match self {
            Bd::Un => None,
            Bd::In(k) | Bd::Ex(k) => Some(k),
        }
    }
    fn decode(c: u32) -> Bd {
        match c {
            0 => Bd::Un,
            c if c % 2 == 1 => Bd::In((c - 1) / 2),
            c => Bd::Ex((c - 2) / 2),
        }
    }
}
/// Check a double-ended iterator on every point of the lattice (fronts taken, backs taken).
/// `make` starts it, `want` is the expected sequence of ids.
pub fn lattice<I: DoubleEndedIterator>(
    make: impl Fn() -> I, id: impl Fn(I::Item) -> u32, want: &[u32], exact: Option<&dyn Fn(&I) -> usize>, what: &str, full: bool,
) -> Res
where
    I::Item: Ord,
{
    let n = want.len();
    let run = |order: &mut dyn FnMut(usize) -> bool| -> Res {
        let mut it = make();
        let (mut a, mut z) = (0, n);
        let mut calls = 0;
        while calls < n + 3 {
            if let Some(len) = exact {
                ensure!(len(&it) == z - a, "{what}: len() is {} with {} entries left", len(&it), z - a);
                ensure!(it.size_hint() == (z - a, Some(z - a)), "{what}: size_hint() is {:?} with {} entries left", it.size_hint(), z - a);
            } else {
                let (lo, hi) = it.size_hint();
                ensure!(lo <= z - a && hi.map_or(true, |h| h >= z - a), "{what}: size_hint() is {:?} with {} entries left", it.size_hint(), z - a);
            }
            let front = order(calls);
            calls += 1;
            let got = if front { it.next() } else { it.next_back() }.map(&id);
            let exp = if a < z {
                Some(if front {
                    a += 1;
                    want[a - 1]
                } else {
                    z -= 1;
                    want[z]
                })
            } else {
                None
            };
            if got != exp {
                return Err(format!(
                    "{what}: after {a} front and {} back steps a {} step yields element {:?}, expected {:?}",
                    n - z, if front { "front" } else { "back" }, got, exp
                ).into());
            }
        }
        drop(it);
        Ok(())
    };
    step();
    if full {
        for i in 0..=n + 1 {
            run(&mut |c| c < i)?;
            run(&mut |c| c >= i)?;
        }
    } else {
        run(&mut |_| true)?;
        run(&mut |_| false)?;
        run(&mut |c| c < n / 2)?;
        run(&mut |c| c >= n / 2)?;
    }
    run(&mut |c| c % 2 == 0)?;
    run(&mut |c| c % 3 == 2)?;
    // every other way of consuming it, from points of the lattice
    let cells: Vec<(usize, usize)> = if full && n <= 26 {
        (0..=n).flat_map(|i| [(i, 0), (0, i), (i, (n - i) / 2), ((n - i) / 2, i)]).collect()
    } else {
        vec![(0, 0), (n / 3, n / 4), (n - n / 2, n / 2)]
    };
    for (i, j) in cells {
        let mk = || {
            let mut it = make();
            for _ in 0..i {
                it.next();
            }
            for _ in 0..j {
                it.next_back();
            }
            it
        };
        let what = &format!("{what} after {i} front and {j} back steps");
        crate::iters::rest(&mk, &id, &want[i..n - j], what)?;
        crate::iters::rest_back(&mk, &id, &want[i..n - j], what)?;
    }
    Ok(())
}
/// words: full?, history: every iterator of the map
fn iter(w: &[u32]) -> Res {
    let h = Hist::parse(&w[1..]);
    let (mut t, _) = replay_hist(&h, Arm::No, &mut |_| Ok(()))?;
    let full = w[0] == 1;
    let (fp, sh) = shape(&t.m);
    state(fp);
    emit(fp);
    emit(t.md.len() as u64);
    tr!("all iterators over {} entries in nodes {:?}", t.md.len(), sh);
    nontrivial();
    let kids: Vec<u32> = t.md.iter().map(|e| e.kid).collect();
    let vids: Vec<u32> = t.md.iter().map(|e| e.vid).collect();
    let m = &t.m;
    lattice(|| m.iter(), |(k, _)| k.id, &kids, Some(&xlen), "iter", full)?;
    lattice(|| m.iter(), |(_, v)| v.id, &vids, Some(&xlen), "iter", false)?;
    lattice(|| m.keys(), |k| k.id, &kids, Some(&xlen), "keys", false)?;
    lattice(|| m.values(), |k| k.id, &vids, Some(&xlen), "values", false)?;
    lattice(|| m.into_iter(), |(k, _)| k.id, &kids, Some(&xlen), "(&map).into_iter", false)?;
    lattice(|| m.range::<Q, _>(..), |(_, v)| v.id, &vids, None, "range(..)", full)?;
    // clones of shared iterators go on where the original is; last() and min() agree
    let n = kids.len();
    for i in 0..=n {
        let j = (i * 5 + 1) % (n - i + 1);
        let (mut a, mut b, mut c, mut d) = (m.iter(), m.keys(), m.values(), m.range::<Q, _>(..));
        for _ in 0..i {
            a.next();
            b.next();
            c.next();
            d.next();
        }
        for _ in 0..j {
            a.next_back();
            b.next_back();
            c.next_back();
            d.next_back();
        }
        let (x, y, z, u) = (a.clone(), b.clone(), c.clone(), d.clone());
        let rest = &kids[i..n - j];
        let vrest = &vids[i..n - j];
        ensure!(x.map(|e| e.0.id).eq(rest.iter().copied()), "a clone of iter differs after {i}+{j} steps");
        ensure!(a.map(|e| e.0.id).eq(rest.iter().copied()), "iter differs after being cloned at {i}+{j}");
        ensure!(y.map(|e| e.id).eq(rest.iter().copied()), "a clone of keys differs after {i}+{j} steps");
        ensure!(z.map(|e| e.id).eq(vrest.iter().copied()), "a clone of values differs after {i}+{j} steps");
        ensure!(u.map(|e| e.0.id).eq(rest.iter().copied()), "a clone of range differs after {i}+{j} steps");
        ensure!(b.rev().map(|e| e.id).eq(rest.iter().rev().copied()), "keys backwards differs after {i}+{j}");
        ensure!(c.rev().map(|e| e.id).eq(vrest.iter().rev().copied()), "values backwards differs after {i}+{j}");
        ensure!(d.rev().map(|e| e.0.id).eq(rest.iter().rev().copied()), "range backwards differs after {i}+{j}");
    }
    let p = &t as *const Bt as *mut Bt;
    // exclusive iterators: the closure restarts them from the same map, one at a time
    lattice(|| unsafe { (*p).m.iter_mut() }, |(k, _)| k.id, &kids, Some(&xlen), "iter_mut", full)?;
    lattice(|| unsafe { (*p).m.values_mut() }, |v| v.id, &vids, Some(&xlen), "values_mut", false)?;
    lattice(|| unsafe { (&mut (*p).m).into_iter() }, |(_, v)| v.id, &vids, Some(&xlen), "(&mut map).into_iter", false)?;
    lattice(|| unsafe { (*p).m.range_mut::<Q, _>(..) }, |(_, v)| v.id, &vids, None, "range_mut(..)", full)?;
    // writes reach exactly the visited entries
    for i in 0..=n.min(12) {
        let mut c = 0;
        for (_, v) in t.m.iter_mut().take(i) {
            v.key += 1 << 26;
            c += 1;
        }
        let mut it = t.m.iter_mut();
        for _ in 0..i {
            if let Some((_, v)) = it.next_back() {
                v.key += 1 << 27;
            }
        }
        for j in 0..n {
            if j < i {
                t.md[j].v += 1 << 26;
            }
            if j + i >= n {
                t.md[j].v += 1 << 27;
            }
        }
        ensure!(c == i, "take({i}) of iter_mut visited {c}");
        check_map(&t.m, &t.md).map_err(|f| Fail { key: f.key, msg: format!("after writing through {i} steps of iter_mut: {}", f.msg) })?;
        for j in 0..n {
            if j < i {
                t.md[j].v -= 1 << 26;
            }
            if j + i >= n {
                t.md[j].v -= 1 << 27;
            }
        }
        for ((_, v), e) in t.m.iter_mut().zip(&t.md) {
            v.key = e.v
        }
    }
    dispose(t);
    Ok(())
}
pub const INTO_WAYS: [&str; 10] =
    ["drop", "finish forwards", "finish backwards", "count", "last", "collect", "rfold", "nth and nth_back of a third", "nth past the end", "nth_back past the end"];
/// words: fronts, backs, dispose (0 drop, 1 finish forwards, 2 finish backwards), history: consuming iteration
fn into(w: &[u32]) -> Res {
    let h = Hist::parse(&w[3..]);
    let (mut t, _) = replay_hist(&h, Arm::No, &mut |_| Ok(()))?;
    let n = t.md.len();
    let (i, j) = (w[0] as usize, w[1] as usize);
    emit(n as u64);
    tr!("into_iter over {n} entries: {i} front steps, {j} back steps, then {}", INTO_WAYS[w[2] as usize]);
    nontrivial();
    step();
    state(hash64([n as u64, w[0] as u64, w[1] as u64, shape(&t.m).0]));
    let md = std::mem::take(&mut t.md);
    let mut it = sut(|| std::mem::take(&mut t.m).into_iter());
    let (mut a, mut z) = (0, n);
    let mut take = |it: &mut fallible_collections::btree::map::IntoIter<El, El>, front: bool| -> Res {
        ensure!(it.len() == z - a && it.size_hint() == (z - a, Some(z - a)), "into_iter: len() is {} with {} left", it.len(), z - a);
        let got = sut(|| if front { it.next() } else { it.next_back() });
        let exp = if a < z {
            Some(if front {
                a += 1;
                md[a - 1]
            } else {
                z -= 1;
                md[z]
            })
        } else {
            None
        };
        match (&got, exp) {
            (None, None) => Ok(()),
            (Some((k, v)), Some(e)) if k.id == e.kid && v.id == e.vid => {
                k.check("consuming iteration");
                v.check("consuming iteration");
                Ok(())
            }
            _ => Err(format!("into_iter yields {got:?}, expected {exp:?}").into()),
        }
    };
    // interleaved front and back steps
    let (mut fi, mut bj) = (0, 0);
    while fi < i || bj < j {
        if fi < i {
            fi += 1;
            take(&mut it, true)?
        }
        if bj < j {
            bj += 1;
            take(&mut it, false)?
        }
    }
    if i + j <= n {
        let (a, z) = (i, n - j);
        let got = format!("{it:?}");
        let exp = format!("{:?}", md[a..z].iter().map(|e| (e.k, e.v)).collect::<Vec<_>>());
        ensure!(got == exp, "Debug of into_iter prints {got}, left are {exp}");
    }
    match w[2] {
        1 => {
            for _ in 0..n + 2 {
                take(&mut it, true)?
            }
        }
        2 => {
            for _ in 0..n + 2 {
                take(&mut it, false)?
            }
        }
        0 => {}
        d => {
            let (a, z) = (i.min(n), n - j.min(n - i.min(n)));
            let left = &md[a..z];
            let c = left.len();
            let id = |x: Option<(El, El)>| {
                let x = x?;
                x.0.check("consuming iteration");
                x.1.check("consuming iteration");
                Some((x.0.id, x.1.id))
            };
            let at = |k: usize| left.get(k).map(|e| (e.kid, e.vid));
            let all: Vec<_> = left.iter().map(|e| (e.kid, e.vid)).collect();
            // d = 3.. consume the rest as a whole
            let bad = match d {
                3 => sut(|| it.count()) != c,
                4 => id(sut(|| it.last())) != at(c.wrapping_sub(1)),
                5 => sut(|| it.collect::<Vec<_>>()).into_iter().map(|x| id(Some(x)).unwrap()).ne(all.iter().copied()),
                6 => sut(|| it.rfold(vec![], |mut v, x| {
                    v.push(x);
                    v
                })).into_iter().map(|x| id(Some(x)).unwrap()).ne(all.iter().rev().copied()),
                7 => {
                    // nth and nth_back destroy what they pass over
                    let k = c / 3;
                    let x = id(sut(|| it.nth(k)));
                    let mut bad = x != at(k);
                    if c > k + 1 {
                        let rest = c - k - 1;
                        bad |= it.len() != rest || r().live != 2 * rest;
                        let b = rest / 2;
                        bad |= id(sut(|| it.nth_back(b))) != at(c - 1 - b);
                        bad |= r().live != 2 * (rest - b - 1);
                    }
                    sut(|| drop(it));
                    bad
                }
                8 => {
                    let x = id(sut(|| it.nth(c)));
                    let bad = x.is_some() || it.len() != 0 || r().live != 0 || it.next().is_some() || it.next_back().is_some();
                    sut(|| drop(it));
                    bad
                }
                _ => {
                    let x = id(sut(|| it.nth_back(c)));
                    let bad = x.is_some() || it.len() != 0 || r().live != 0 || it.next().is_some() || it.next_back().is_some();
                    sut(|| drop(it));
                    bad
                }
            };
            ensure!(!bad, "into_iter with {c} entries left: {} gives the wrong result", INTO_WAYS[d as usize]);
            ensure!(r().live == 0, "{} element(s) never destroyed after {}", r().live, INTO_WAYS[d as usize]);
            dispose(t);
            return Ok(());
        }
    }
    let left = it.len();
    ensure!(r().live == 2 * left, "{} elements exist while {left} entries are left to consume", r().live);
    sut(|| drop(it));
    ensure!(r().live == 0, "{} element(s) never destroyed after the iterator was dropped", r().live);
    dispose(t);
    Ok(())
}
/// words: detail, lower bound code, history: every upper bound (code 0 none, 2k+1 including k, 2k+2 excluding k)
fn range(w: &[u32]) -> Res {
    let h = Hist::parse(&w[2..]);
    let (t, _) = replay_hist(&h, Arm::No, &mut |_| Ok(()))?;
    let n = t.md.len();
    emit(t.md.last().map_or(2, |e| e.k) as u64);
    emit(n as u64);
    let top = t.md.last().map_or(2, |e| e.k) + 1;
    let lo = Bd::decode(w[1]);
    if lo.k().map_or(false, |k| k > top) {
        return Ok(());
    }
    tr!("all ranges from {lo:?} over {n} entries in nodes {:?}", shape(&t.m).1);
    state(hash64([shape(&t.m).0, w[1] as u64]));
    nontrivial();
    let p = &t as *const Bt as *mut Bt;
    for c in 0..=2 * top + 2 {
        let hi = Bd::decode(c);
        let bounds = (lo.b(), hi.b());
        let bad = match (lo, hi) {
            (Bd::Ex(a), Bd::Ex(b)) if a == b => true,
            _ => matches!((lo.k(), hi.k()), (Some(a), Some(b)) if a > b),
        };
        if bad {
            // documented to panic; checked near the boundary only, unwinding is slow
            let (a, b) = (lo.k().unwrap(), hi.k().unwrap());
            if a - b <= 1 && n <= 30 {
                let m = &t.m;
                ensure!(sut_catch(|| m.range(bounds).count()).is_err(), "range({lo:?}, {hi:?}) does not panic as documented");
            }
            continue;
        }
        let want: Vec<&Ent> = t
            .md
            .iter()
            .filter(|e| {
                (match lo {
                    Bd::Un => true,
                    Bd::In(k) => e.k >= k,
                    Bd::Ex(k) => e.k > k,
                }) && match hi {
                    Bd::Un => true,
                    Bd::In(k) => e.k <= k,
                    Bd::Ex(k) => e.k < k,
                }
            })
            .collect();
        let kids: Vec<u32> = want.iter().map(|e| e.kid).collect();
        let vids: Vec<u32> = want.iter().map(|e| e.vid).collect();
        let m = &t.m;
        let mk = || (lo.b(), hi.b());
        let det = w[0] > 0;
        lattice(|| m.range(mk()), |(k, _)| k.id, &kids, None, "range", det && n <= 40)
            .map_err(|f| Fail { key: f.key, msg: format!("{} of ({lo:?}, {hi:?})", f.msg) })?;
        if det || c % 5 == w[1] % 5 {
            lattice(|| unsafe { (*p).m.range_mut(mk()) }, |(_, v)| v.id, &vids, None, "range_mut", false)
                .map_err(|f| Fail { key: f.key, msg: format!("{} of ({lo:?}, {hi:?})", f.msg) })?;
            // writes reach exactly the entries in range
            let reached: std::collections::HashSet<u32> = kids.iter().copied().collect();
            for (_, v) in unsafe { (*p).m.range_mut(mk()) } {
                v.key ^= 1 << 30;
            }
            let mut bad = None;
            for (k, v) in unsafe { (*p).m.iter_mut() } {
                let hit = v.key >> 30 & 1 == 1;
                if hit != reached.contains(&k.id) {
                    bad = Some(k.key);
                }
                v.key &= !(1 << 30);
            }
            ensure!(bad.is_none(), "writing through range_mut({lo:?}, {hi:?}) touches the wrong entries (key {})", bad.unwrap());
        }
    }
    dispose(t);
    Ok(())
}

/// words: history: the map it leads to and one built in ascending order from the same entries
fn same(w: &[u32]) -> Res {
    let h = Hist::parse(w);
    let (t, _) = replay_hist(&h, Arm::No, &mut |_| Ok(()))?;
    let n = t.md.len();
    let mk = |skip: usize, chg: usize| {
        let mut m = sut(M::new);
        for (i, e) in t.md.iter().enumerate() {
            if i != skip {
                let (k, v) = (El::new(e.k), El::new(e.v ^ (i == chg) as u32));
                assert!(matches!(sut(|| m.try_insert(k, v)), Ok(None)), "building a map failed");
            }
        }
        m
    };
    let c = mk(n, n);
    let m = &t.m;
    step();
    nontrivial();
    state(shape(m).0);
    tr!("a map of {n} entries in nodes {:?} and one built in ascending order", shape(m).1);
    ensure!(*m == c && c == *m && !(*m != c), "{n} entries reached by a history compare different from the same entries inserted in order");
    ensure!(m.cmp(&c).is_eq() && m.partial_cmp(&c).map_or(false, |o| o.is_eq()), "{n} equal entries do not order as equal");
    ensure!(hash_of(m) == hash_of(&c), "{n} equal entries hash differently");
    ensure!(format!("{m:?}") == format!("{c:?}"), "{n} equal entries print as {m:?} and {c:?}");
    sut(|| drop(c));
    for way in ["try_clone", "clone", "collect", "split and append"] {
        let c: M = match way {
            "try_clone" => match sut(|| m.try_clone()) {
                Ok(c) => c,
                Err(_) => return Err("try_clone failed although no request was refused".into()),
            },
            "clone" => sut(|| m.clone()),
            "collect" => sut(|| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()),
            _ => {
                let mut a = sut(|| m.clone());
                if let Some(e) = t.md.get(n / 2) {
                    let mut b = match sut(|| a.split_off(&Q(e.k))) {
                        Ok(b) => b,
                        Err(_) => return Err("split_off failed although no request was refused".into()),
                    };
                    sut(|| a.append(&mut b));
                    sut(|| drop(b));
                }
                a
            }
        };
        ensure!(*m == c && c == *m && m.cmp(&c).is_eq() && c.partial_cmp(m).map_or(false, |o| o.is_eq()), "{n} entries compare different from the same entries made by {way}");
        ensure!(hash_of(m) == hash_of(&c), "{n} entries hash differently from the same entries made by {way}");
        ensure!(format!("{m:?}") == format!("{c:?}"), "{n} equal entries print as {m:?} and, made by {way}, {c:?}");
        sut(|| drop(c));
    }
    for i in 0..n {
        if n > 14 && i % 4 != 1 {
            continue;
        }
        for x in [mk(i, n), mk(n, i)] {
            ensure!(*m != x && x != *m, "maps that differ at entry {i} of {n} compare equal");
            let seq = |m: &M| m.iter().map(|(k, v)| (k.key, v.key)).collect::<Vec<_>>();
            let want = seq(m).cmp(&seq(&x));
            ensure!(m.cmp(&x) == want && x.cmp(m) == want.reverse(), "maps that differ at entry {i} of {n} order {:?}, their entries {want:?}", m.cmp(&x));
            sut(|| drop(x));
        }
    }
    dispose(t);
    Ok(())
}
// ---------------------------------------------------------------- equality, order, hashing, printing
fn hash_of<T: std::hash::Hash>(t: &T) -> (u64, Vec<u8>) {
    struct Rec(Vec<u8>);
    impl std::hash::Hasher for Rec {
        fn write(&mut self, b: &[u8]) {
            self.0.extend_from_slice(b);
            self.0.push(0xEE);
        }
        fn finish(&self) -> u64 {
            0
        }
    }
    let mut h = Rec(vec![]);
    t.hash(&mut h);
    (h.0.len() as u64, h.0)
}
/// words: nb: two builders/trims over the same n entries (w: n, b1, b2, trim), then a perturbation of one entry
/// two equal maps and sets of several levels, and each entry in turn changed or taken out of one of them
fn eq_big(n: u32, a: BTreeMap<u32, u32>, mut b: BTreeMap<u32, u32>, sa: fallible_collections::btree::BTreeSet<u32>, mut sb: fallible_collections::btree::BTreeSet<u32>) -> Res {
    use std::cmp::Ordering::*;
    let std_m: std::collections::BTreeMap<u32, u32> = a.iter().map(|(k, v)| (*k, *v)).collect();
    ensure!(std_m.len() == n as usize, "harness: wrong contents");
    ensure!(format!("{a:?}") == format!("{std_m:?}") && format!("{b:?}") == format!("{std_m:?}"), "the printed map of {n} entries is not its contents");
    ensure!(format!("{sa:?}") == format!("{sb:?}"), "equal sets of {n} elements print differently");
    for i in (0..n).step_by(if n > 500 { 3 } else { 1 }) {
        let k = 2 * i;
        *b.get_mut(&k).unwrap() += 1;
        ensure!(a != b && !(a == b) && b != a, "maps of {n} entries that differ in the value of entry {i} compare equal");
        ensure!(a.cmp(&b) == Less && b.cmp(&a) == Greater && a.partial_cmp(&b) == Some(Less), "maps of {n} entries, the second with a greater value at entry {i}, order {:?}", a.cmp(&b));
        ensure!(hash_of(&a) != hash_of(&b), "entry {i} of {n} has no influence on the hash");
        let v = b.remove(&k).unwrap();
        let last = i == n - 1;
        let want = if last { Greater } else { Less };
        ensure!(a != b && b != a && a.cmp(&b) == want && b.cmp(&a) == want.reverse(), "maps of {n} entries, the second without entry {i}, compare {:?}", a.cmp(&b));
        // another key in its place: the same length, another order
        b.try_insert(k + 1, v - 1).unwrap();
        ensure!(a != b && b != a && a.cmp(&b) == Less && b.cmp(&a) == Greater, "maps of {n} entries, the second with a greater key at entry {i}, compare {:?}", a.cmp(&b));
        b.remove(&(k + 1));
        b.try_insert(k, v - 1).unwrap();
        ensure!(a == b && a.cmp(&b) == Equal && hash_of(&a) == hash_of(&b), "maps with the same {n} entries differ after entry {i} was taken out and put back");
        sb.remove(&k);
        ensure!(sa != sb && sb != sa && sa.cmp(&sb) == want && sb.cmp(&sa) == want.reverse(), "sets of {n} elements, the second without element {i}, compare {:?}", sa.cmp(&sb));
        sb.try_insert(k + 1).unwrap();
        ensure!(sa != sb && sb != sa && sa.cmp(&sb) == Less && hash_of(&sa) != hash_of(&sb), "sets of {n} elements, the second with a greater element {i}, compare {:?}", sa.cmp(&sb));
        sb.remove(&(k + 1));
        sb.try_insert(k).unwrap();
        ensure!(sa == sb && hash_of(&sa) == hash_of(&sb), "sets with the same {n} elements differ after element {i} was taken out and put back");
        step();
    }
    Ok(())
}
fn eq(w: &[u32]) -> Res {
    type Mi = BTreeMap<u32, u32>;
    type Si = fallible_collections::btree::BTreeSet<u32>;
    let (n, b1, b2) = (w[0], w[1], w[2]);
    let mk = |b: u32, skip: Option<u32>, chg: Option<u32>| -> (Mi, Si) {
        let (mut m, mut s) = (Mi::new(), Si::new());
        let extra = b / 8;
        let put = |m: &mut Mi, s: &mut Si, i: u32| {
            let v = i * 3 + (chg == Some(i)) as u32;
            m.try_insert(i * 2, v).unwrap();
            s.try_insert(i * 2).unwrap();
        };
        match b % 8 {
            0..=2 | 5 => build_order(b % 8, n as usize).into_iter().for_each(|i| put(&mut m, &mut s, i as u32)),
            x => {
                let (mut m2, mut s2) = (Mi::new(), Si::new());
                for i in 0..n {
                    if if x % 2 == 0 { i % 2 == 0 } else { i < n / 2 } {
                        put(&mut m, &mut s, i)
                    } else {
                        put(&mut m2, &mut s2, i)
                    }
                }
                m.append(&mut m2);
                s.append(&mut s2);
            }
        }
        // entries that are added and taken away again change the arrangement only
        for e in 0..extra * 7 {
            m.try_insert(e * 6 + 1, 0).unwrap();
            s.try_insert(e * 6 + 1).unwrap();
        }
        for e in 0..extra * 7 {
            m.remove(&(e * 6 + 1));
            s.remove(&(e * 6 + 1));
        }
        if let Some(i) = skip {
            m.remove(&(i * 2));
            s.remove(&(i * 2));
        }
        (m, s)
    };
    step();
    let (a, sa) = mk(b1, None, None);
    let (b, sb) = mk(b2, None, None);
    state(hash64([n as u64, b1 as u64, b2 as u64]));
    nontrivial();
    tr!("{n} entries built in ways {b1} and {b2}: equality, order, hash and text");
    ensure!(a == b && !(a != b) && sa == sb, "{n} entries built in two ways ({b1},{b2}) compare different");
    ensure!(a.cmp(&b).is_eq() && a.partial_cmp(&b).map_or(false, |o| o.is_eq()) && sa.cmp(&sb).is_eq(), "equal maps do not order as equal");
    ensure!(hash_of(&a) == hash_of(&b) && hash_of(&sa) == hash_of(&sb), "{n} entries built in two ways ({b1},{b2}) hash differently");
    if n > 100 {
        return eq_big(n, a, b, sa, sb);
    }
    let std_m: std::collections::BTreeMap<u32, u32> = a.iter().map(|(k, v)| (*k, *v)).collect();
    ensure!(std_m.len() == n as usize, "harness: wrong contents");
    ensure!(format!("{a:?}") == format!("{std_m:?}") && format!("{b:?}") == format!("{a:?}"), "the printed map is {a:?}, expected {std_m:?}");
    let std_s: std::collections::BTreeSet<u32> = sa.iter().copied().collect();
    ensure!(format!("{sa:?}") == format!("{std_s:?}") && format!("{sb:?}") == format!("{sa:?}"), "the printed set is {sa:?}, expected {std_s:?}");
    ensure!(format!("{a:#?}") == format!("{std_m:#?}"), "alternate printing differs");
    ensure!(format!("{:?}", a.iter()) == format!("{:?}", std_m.iter()), "Debug of iter");
    ensure!(format!("{:?}", a.keys()) == format!("{:?}", std_m.keys()), "Debug of keys");
    ensure!(format!("{:?}", a.values()) == format!("{:?}", std_m.values()), "Debug of values");
    ensure!(format!("{:?}", a.range(3..)) == format!("{:?}", std_m.range(3..)), "Debug of range");
    ensure!(format!("{:?}", sa.iter()) == format!("{:?}", std_s.iter()), "Debug of a set's iter");
    {
        let (mut a, mut std_m) = (mk(b1, None, None).0, std_m.clone());
        for k in 0..=2 * n + 1 {
            ensure!(format!("{:?}", a.range_mut(..k)) == format!("{:?}", std_m.range_mut(..k)), "Debug of range_mut");
            let t = match a.try_entry(k) {
                Ok(e) => format!("{e:?}"),
                Err(_) => return Err("try_entry failed although no request was refused".into()),
            };
            ensure!(t == format!("{:?}", std_m.entry(k)), "the entry of {k} prints {t}");
        }
        // partly consumed iterators print what is left
        let (mut i, mut j) = (a.iter(), std_m.iter());
        for s in 0..=n {
            ensure!(format!("{i:?}") == format!("{j:?}"), "Debug of iter after {s} steps");
            if s % 2 == 0 {
                i.next();
                j.next();
            } else {
                i.next_back();
                j.next_back();
            }
        }
    }
    // every iterator prints what it has left, wherever it stands
    if b1 == b2 {
        let want: Vec<(u32, u32)> = a.iter().map(|(k, v)| (*k, *v)).collect();
        let mut t = mk(b1, None, None);
        for f in 0..=n as usize {
            for b in 0..=n as usize - f {
                if n > 12 && (f * 7 + b) % 5 != 0 && f + b != n as usize {
                    continue;
                }
                let left = &want[f..n as usize - b];
                macro_rules! prints {
                    ($it:expr, $want:expr, $what:literal) => {{
                        let mut i = $it;
                        for k in 0..f.max(b) {
                            if k < f {
                                i.next();
                            }
                            if k < b {
                                i.next_back();
                            }
                        }
                        let (x, y) = (format!("{i:?}"), $want);
                        ensure!(x == y, "{} with {f} of {n} taken in front and {b} behind prints {x}, expected {y}", $what);
                        drop(i);
                    }};
                }
                let (ks, vs): (Vec<u32>, Vec<u32>) = left.iter().copied().unzip();
                prints!(a.iter(), format!("{left:?}"), "iter");
                prints!(a.range(..), format!("{left:?}"), "range");
                prints!(a.keys(), format!("{ks:?}"), "keys");
                prints!(a.values(), format!("{vs:?}"), "values");
                prints!(sa.iter(), format!("Iter({ks:?})"), "a set's iter");
                prints!(t.0.range_mut(..), format!("{left:?}"), "range_mut");
                let (m, s) = mk(b1, None, None);
                prints!(m.into_iter(), format!("{left:?}"), "into_iter");
                drop(s);
            }
        }
        t.0.clear();
    }
    // one entry missing or changed: order is that of the entry sequence
    for i in 0..n {
        let seq = |m: &Mi| m.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>();
        let (c, sc) = mk(b2, Some(i), None);
        let (d, _) = mk(b2, None, Some(i));
        for x in [&c, &d] {
            ensure!(a != *x && *x != a, "maps that differ at entry {i} compare equal");
            ensure!(a.cmp(x) == seq(&a).cmp(&seq(x)) && x.cmp(&a) == seq(x).cmp(&seq(&a)), "order of maps that differ at entry {i} is not that of their entries");
            ensure!(a.partial_cmp(x) == Some(a.cmp(x)) && (a < *x) == (a.cmp(x).is_lt()), "partial order differs from order");
            if n <= 12 || i % 5 == 0 {
                ensure!(format!("{x:?}") != format!("{a:?}"), "maps that differ at entry {i} print alike");
            }
        }
        ensure!(sa != sc && sa.cmp(&sc) == sa.iter().cmp(sc.iter()) && sc.cmp(&sa) == sc.iter().cmp(sa.iter()), "sets that differ at entry {i}");
        ensure!(sa.iter().copied().collect::<Vec<_>>().cmp(&sc.iter().copied().collect::<Vec<_>>()) == sa.cmp(&sc), "order of sets that differ at entry {i} is not that of their elements");
    }
    Ok(())
}

// ---------------------------------------------------------------- exploration
/// Visit every node arrangement reachable with at most nmax entries by insertions and removals,
/// from the given start histories. Returns a history for each.
pub fn bfs(e: &Eng, fam: u32, starts: &[[u32; 4]], ops: &[u32], nmax: usize, cap: usize) -> Vec<(Vec<u32>, usize)> {
    let n0 = e.cases_so_far();
    let seen: Mutex<HashMap<u64, ()>> = Mutex::new(HashMap::new());
    let mut all: Vec<(Vec<u32>, usize)> = vec![];
    let mut front: Vec<(Vec<u32>, usize)> = vec![];
    for s in starts {
        let mut w = vec![fam, S_PROG];
        w.extend(s);
        if !e.case(&w) {
            return all;
        }
        let x = e.take();
        if seen.lock().unwrap().insert(x[0], ()).is_none() {
            front.push((w, x[1] as usize));
        }
    }
    let mut depth = 0;
    while !front.is_empty() && !e.stopped() {
        let found: Mutex<HashMap<u64, (Vec<u32>, usize)>> = Mutex::new(HashMap::new());
        e.par(front.len(), |i| {
            let (w, n) = &front[i];
            let mut local = vec![];
            for &o in ops {
                if o == INS && *n >= nmax {
                    continue;
                }
                for p in 0..positions(o, *n) as u32 {
                    let mut w2 = w.clone();
                    w2.push(o | p << 8);
                    if !e.case(&w2) {
                        return;
                    }
                    let x = e.take();
                    if x[1] as usize <= nmax {
                        local.push((x[0], w2, x[1] as usize));
                    }
                }
            }
            let s = seen.lock().unwrap();
            let mut f = found.lock().unwrap();
            for (fp, w, n) in local {
                if !s.contains_key(&fp) {
                    match f.get_mut(&fp) {
                        Some(x) => {
                            if w < x.0 {
                                x.0 = w
                            }
                        }
                        None => {
                            f.insert(fp, (w, n));
                        }
                    }
                }
            }
        });
        all.append(&mut front);
        let f = found.into_inner().unwrap();
        let mut nf: Vec<(Vec<u32>, usize)> = vec![];
        {
            let mut s = seen.lock().unwrap();
            for (fp, x) in f {
                s.insert(fp, ());
                nf.push(x);
            }
        }
        nf.sort();
        depth += 1;
        if all.len() + nf.len() > cap {
            e.section(&format!("node arrangements: stopped at the cap of {cap} after depth {depth}"), 0);
            all.extend(nf);
            break;
        }
        front = nf;
    }
    let by: Vec<&str> = ops.iter().map(|o| op_name(*o)).collect();
    e.section(&format!("every node arrangement with 0..{nmax} entries, closed under {}: {} arrangements, depth {depth}", by.join(", "), all.len()), e.cases_so_far() - n0);
    all
}
/// deep starting points: (builder, n, trim, k)
pub fn seeds(level: u32) -> Vec<[u32; 4]> {
    let mut v: Vec<[u32; 4]> = vec![];
    // two levels
    for b in 0..NB {
        for n in [0, 1, 10, 11, 12, 17, 23] {
            v.push([b, n, 0, 0]);
        }
    }
    for b in 0..NB {
        for n in [40, 72] {
            v.push([b, n, 0, 0]);
        }
    }
    if level >= 1 {
        // three levels, of several fillings
        for (b, n) in [(0, 90), (1, 90), (2, 90), (5, 90), (3, 143), (3, 144), (3, 160), (4, 150), (3, 200)] {
            v.push([b, n, 0, 0]);
            for t in 1..NT {
                for k in [n / 8, n / 3] {
                    v.push([b, n, t, k]);
                }
                if n > 140 {
                    v.push([b, n, t, n - 55]);
                }
            }
        }
    }
    if level >= 2 {
        for b in 0..NB {
            for n in [90, 120, 143, 155, 170, 200, 290] {
                for t in 0..NT {
                    for k in [n / 10, n / 5, n / 3, n / 2, n - 50] {
                        v.push([b, n, t, k]);
                    }
                }
            }
        }
        v.sort();
        v.dedup();
    }
    v
}
/// three-level trees
pub fn three(deep: bool) -> Vec<[u32; 4]> {
    let s = seeds(1)[54..].to_vec();
    if deep {
        s
    } else {
        s.into_iter().step_by(4).collect()
    }
}
/// trees whose nodes are (nearly) all full: an insertion splits up to the root
pub fn full() -> Vec<[u32; 4]> {
    vec![[3, 11, 0, 0], [3, 143, 0, 0], [3, 142, 0, 0], [4, 143, 0, 0], [3, 144, 0, 0], [3, 1727, 0, 0]]
}
/// four-level trees
pub fn tall() -> Vec<[u32; 4]> {
    vec![[3, 1727, 0, 0], [3, 1728, 0, 0], [3, 1790, 1, 700], [3, 1800, 2, 40], [0, 700, 0, 0], [1, 700, 3, 300]]
}
/// the history of nothing
pub const EMPTY: &[[u32; 4]] = &[[0, 0, 0, 0]];
/// five-level trees
pub fn taller() -> Vec<[u32; 4]> {
    vec![[0, 4200, 0, 0], [0, 4600, 3, 300]]
}
pub const OPS_STEP: &[u32] = &[INS, REM];
/// operations that ask for memory and cannot report a refusal
pub const OPS_PLAIN: &[u32] = &[EXT, APP, APPX, CLONE_C, COLLECT];
/// operations that rearrange nodes
pub const OPS_MOVE: &[u32] = &[INS, REM, SPL_L, SPL_R, SPL_APP, APP, SWAPAPP];
pub const OPS_TALL: &[u32] = &[INS, REM, O_REMENT, REP, SPL_L, SPL_R, SPL_APP, APP];
pub const OPS_INS: &[u32] = &[INS, E_OR, E_ORW, E_ORD, E_VAC];
pub const OPS_CUT: &[u32] = &[SPL_L, SPL_R, APP, SPL_APP, SPL_LX, SPL_RX, APPX, SWAPAPP];
pub const OPS_COST: &[u32] = &[INS, E_OR, MISS, REM, O_REM, REP, O_GET, GETMUT];
pub const OPS_ALL: &[u32] = &[
    INS, E_OR, E_ORW, E_ORD, E_VAC, E_DROP, MISS, EXT, REM, O_REM, O_REMENT, REP, O_INS, GETMUT, O_MUT, ANDMOD, E_OR_X, O_GET,
    E_ORW_X, E_ORD_X, ITERMUT, CLEAR, CLONE_T, CLONE_C, COLLECT, SWAPAPP, RNG, IDROP, SPL_L, SPL_R, APP, SPL_APP, SPL_LX, SPL_RX, APPX,
];

fn hist(fam: u32, sub: u32, pre: &[u32], s: &[u32], ops: &[u32]) -> Vec<u32> {
    let mut w = vec![fam, sub];
    w.extend(pre);
    w.extend(s);
    w.extend(ops);
    w
}
/// size of each start (by replaying it)
fn sizes(e: &Eng, fam: u32, ss: &[Vec<u32>]) -> Vec<usize> {
    let out: Vec<std::sync::atomic::AtomicUsize> = ss.iter().map(|_| Default::default()).collect();
    e.par(ss.len(), |i| {
        e.case(&hist(fam, S_PROG, &[], &ss[i], &[]));
        let x = e.take();
        if x.len() > 1 {
            out[i].store(x[1] as usize, std::sync::atomic::Ordering::SeqCst);
        }
    });
    out.into_iter().map(|x| x.into_inner()).collect()
}
pub fn vecs(s: &[[u32; 4]]) -> Vec<Vec<u32>> {
    s.iter().map(|x| x.to_vec()).collect()
}
/// the histories that lead to each arrangement, as starts for further operations
pub fn starts_of(shapes: &[(Vec<u32>, usize)], min: usize, max: usize) -> Vec<Vec<u32>> {
    shapes.iter().filter(|(_, n)| *n >= min && *n <= max).map(|(w, _)| w[2..].to_vec()).collect()
}
/// every sequence of `depth` operations (each operation at each position) from each start
pub fn around(e: &Eng, fam: u32, starts: &[Vec<u32>], first: &[u32], second: &[u32], stride: usize, name: &str) {
    let n0 = e.cases_so_far();
    let ns = sizes(e, fam, starts);
    let mut items = vec![];
    for (i, s) in starts.iter().enumerate() {
        for o in first {
            for p in 0..positions(*o, ns[i]) {
                if p % stride == 0 || p + 12 > ns[i] || p < 12 {
                    items.push((s, *o, p as u32));
                }
            }
        }
    }
    e.par(items.len(), |i| {
        let (s, o, p) = &items[i];
        let w = hist(fam, S_PROG, &[], s, &[o | p << 8]);
        if !e.case(&w) {
            return;
        }
        let x = e.take();
        let n = x[1] as usize;
        for o2 in second {
            for q in 0..positions(*o2, n) {
                let mut w2 = w.clone();
                w2.push(o2 | (q as u32) << 8);
                if !e.case(&w2) {
                    return;
                }
            }
        }
        e.take();
    });
    e.section(name, e.cases_so_far() - n0);
}
/// each operation at each position, each of its requests refused (that one only, and all from it on)
pub fn faulted(e: &Eng, fam: u32, starts: &[Vec<u32>], ops: &[u32], name: &str) {
    let n0 = e.cases_so_far();
    let ns = sizes(e, fam, starts);
    let mut items = vec![];
    for (i, s) in starts.iter().enumerate() {
        for o in ops {
            for p in 0..positions(*o, ns[i]) {
                // taking a large map apart costs much more than the insertion
                if ns[i] < 1000 || p % 20 == 0 || e.thorough || !flag(BT_DRAIN) {
                    items.push((s, *o, p as u32, ns[i] < 200 || p % 40 == 0));
                }
            }
        }
    }
    e.par(items.len(), |i| {
        let (s, o, p, apart) = &items[i];
        'm: for mode in [1, 2, 5] {
            if mode == 5 && !apart {
                continue;
            }
            for k in 0..64 {
                e.take();
                if !e.case(&hist(fam, S_OOM, &[mode, k], s, &[o | p << 8])) {
                    return;
                }
                if e.take().first() == Some(&0) {
                    if k == 0 {
                        break 'm;
                    }
                    break;
                }
            }
        }
    });
    e.section(name, e.cases_so_far() - n0);
}
pub fn clone_fails(e: &Eng, fam: u32, starts: &[Vec<u32>], name: &str) {
    let n0 = e.cases_so_far();
    e.par(starts.len() * 2, |i| {
        let s = &starts[i / 2];
        for k in 0.. {
            e.take();
            if !e.case(&hist(fam, S_CFAIL, &[i as u32 % 2, k], s, &[])) || e.take().first() == Some(&0) {
                break;
            }
        }
    });
    e.section(name, e.cases_so_far() - n0);
}
/// each operation without an error channel at each position, each of its requests refused
pub fn refusals(e: &Eng, fam: u32, starts: &[Vec<u32>], ops: &[u32], name: &str) {
    let n0 = e.cases_so_far();
    let ns = sizes(e, fam, starts);
    let mut items = vec![];
    for (i, s) in starts.iter().enumerate() {
        for o in ops {
            for p in 0..positions(*o, ns[i]) {
                items.push((s, *o, p as u32));
            }
        }
    }
    e.par(items.len(), |i| {
        let (s, o, p) = &items[i];
        for k in 0.. {
            e.take();
            if !e.case(&hist(fam, S_REFUSE, &[k], s, &[o | p << 8])) || e.take().first() == Some(&0) {
                break;
            }
        }
    });
    e.section(name, e.cases_so_far() - n0);
}
/// each operation at each position, caller code panicking at each of its invocations
pub fn panicking(e: &Eng, fam: u32, starts: &[Vec<u32>], ops: &[u32], masks: &[u32], name: &str) {
    let n0 = e.cases_so_far();
    let ns = sizes(e, fam, starts);
    let mut items = vec![];
    for (i, s) in starts.iter().enumerate() {
        for o in ops {
            for p in 0..positions(*o, ns[i]) {
                for m in masks {
                    items.push((s, *o, p as u32, *m));
                }
            }
        }
    }
    e.par(items.len(), |i| {
        let (s, o, p, m) = &items[i];
        for k in 0.. {
            e.take();
            if !e.case(&hist(fam, S_PANIC, &[*m, k], s, &[o | p << 8])) || e.take().first() == Some(&0) {
                break;
            }
        }
    });
    e.section(name, e.cases_so_far() - n0);
}
/// each operation at each position, a refused request or clone and a panic together
pub fn double_faults(e: &Eng, fam: u32, starts: &[Vec<u32>], ops: &[u32], masks: &[u32], name: &str) {
    let n0 = e.cases_so_far();
    let ns = sizes(e, fam, starts);
    let mut items = vec![];
    for (i, s) in starts.iter().enumerate() {
        for o in ops {
            for p in 0..positions(*o, ns[i]) {
                items.push((s, *o, p as u32));
            }
        }
    }
    e.par(items.len(), |i| {
        let (s, o, p) = &items[i];
        double(masks, &[1, 2], |m, k| {
            e.take();
            if !e.case(&hist(fam, S_PANIC, &[m, k], s, &[o | p << 8])) {
                return None;
            }
            e.take().first().copied()
        });
    });
    e.section(name, e.cases_so_far() - n0);
}
/// each operation at each position, every sequence of up to `len` comparison answers
pub fn scripted(e: &Eng, fam: u32, starts: &[Vec<u32>], ops: &[u32], len: u32, skips: &[u32], name: &str) {
    let n0 = e.cases_so_far();
    let ns = sizes(e, fam, starts);
    let mut items = vec![];
    for (i, s) in starts.iter().enumerate() {
        for o in ops {
            for p in (0..positions(*o, ns[i])).step_by(3) {
                items.push((s, *o, p as u32));
            }
        }
    }
    e.par(items.len(), |i| {
        let (s, o, p) = &items[i];
        for c in 0..3u32.pow(len) * skips.len() as u32 {
            let (c, skip) = (c / skips.len() as u32, skips[c as usize % skips.len()]);
            let mut a = 0;
            let mut x = c;
            for j in 0..len {
                a |= (x % 3) << (2 * j);
                x /= 3;
            }
            e.take();
            if !e.case(&hist(fam, S_SCRIPT, &[len | skip << 8, a], s, &[o | p << 8])) {
                return;
            }
        }
        e.take();
    });
    e.section(name, e.cases_so_far() - n0);
}
pub fn appends(e: &Eng, fam: u32) {
    let big = e.thorough;
    let mut cs = vec![];
    let u = if big { 7 } else { 6 };
    for a in 0..1u32 << u {
        for b in 0..1u32 << u {
            cs.push(vec![fam, S_MASKS, a, b]);
        }
    }
    e.all("append of every pair of maps over a small universe, two build orders", cs);
    let mut cs = vec![];
    let m = if big { 60 } else { 30 };
    for pat in 0..NPAT {
        for n in 0..=m {
            for k in 0..=m {
                for how in 0..4 {
                    cs.push(vec![fam, S_APPEND, pat, n, k, how, 0, 0]);
                }
            }
        }
    }
    e.all("append of n and m entries in every interleaving pattern, then drained", cs);
    let mut cs = vec![];
    let top = if big { 1900 } else { 420 };
    for tot in 0..=top {
        for pat in [0, 2] {
            cs.push(vec![fam, S_APPEND, pat, tot / 2, tot - tot / 2, 0, 0, 0]);
        }
    }
    for tot in [1720, 1726, 1727, 1728, 1729, 1735, 1740, 1750] {
        cs.push(vec![fam, S_APPEND, 2, tot / 2, tot - tot / 2, 0, 0, 0]);
    }
    e.all("append by total size (right-edge repair), then drained", cs);
    let mut cs = vec![];
    let sizes: &[u32] = if big { &[12, 13, 17, 24, 30, 37, 60, 100, 143, 144, 145, 150, 156, 160, 168, 180, 300] } else { &[12, 13, 17, 24, 30, 143, 145, 150, 168] };
    for tot in sizes {
        for f in 1..=3 {
            for x in 0..=*tot {
                cs.push(vec![fam, S_APPEND, 2, tot / 2, tot - tot / 2, 0, f, x]);
                cs.push(vec![fam, S_APPEND, 0, tot - 5, 5, 0, f, x]);
            }
        }
    }
    e.all("append, then an insertion, removal or split at every position, then drained", cs);
}
pub fn iterating(e: &Eng, fam: u32, shapes: &[(Vec<u32>, usize)]) {
    let n0 = e.cases_so_far();
    let big = e.thorough;
    // shapes are S_PROG words: history starts at 2
    e.par(shapes.len(), |i| {
        let (w, n) = &shapes[i];
        if !e.case(&hist(fam, S_ITER, &[(*n <= 40) as u32], &w[2..], &[])) {
            return;
        }
        e.take();
    });
    e.section("every iterator, every mixture of front and back steps, over each arrangement", e.cases_so_far() - n0);
    let n0 = e.cases_so_far();
    let lim = if big { 26 } else { 17 };
    let small: Vec<_> = shapes.iter().filter(|x| x.1 <= lim).collect();
    e.par(small.len(), |i| {
        let (w, n) = small[i];
        let every = if *n <= 14 || big { 1 } else { 2 };
        for c in 0..=(4 * *n as u32 + 8) {
            if (c as usize + i) % every == 0 && !e.case(&hist(fam, S_RANGE, &[1, c], &w[2..], &[])) {
                return;
            }
            e.take();
        }
    });
    e.section("every pair of bounds over each arrangement", e.cases_so_far() - n0);
    let n0 = e.cases_so_far();
    let ss = vecs(&if big { seeds(1) } else { seeds(1).into_iter().step_by(9).collect() });
    let ns = sizes(e, fam, &ss);
    let mut items = vec![];
    for (i, s) in ss.iter().enumerate() {
        items.push(hist(fam, S_ITER, &[(ns[i] <= 40) as u32], s, &[]));
        for c in 0..(4 * ns[i] as u32 + 8) {
            if big || (c as usize + i) % 4 == 0 || ns[i] < 30 {
                items.push(hist(fam, S_RANGE, &[0, c], s, &[]));
            }
        }
    }
    e.par(items.len(), |i| {
        e.case(&items[i]);
        e.take();
    });
    e.section("iterators and bounds over three-level trees", e.cases_so_far() - n0);
    let n0 = e.cases_so_far();
    let mut ss = vecs(&full()[1..]);
    ss.extend(vecs(&tall()));
    let ns = sizes(e, fam, &ss);
    let mut items = vec![];
    for (i, s) in ss.iter().enumerate() {
        items.push(hist(fam, S_ITER, &[0], s, &[]));
        let all = 4 * ns[i] as u32 + 8;
        let step = if ns[i] < 200 { if big { 1 } else { 7 } } else if big { 21 } else { 1 + all / 8 };
        for c in 0..all {
            // the ends, and positions that fall on every kind of place in a node
            if big && (c < 8 || c > all - 8) || ns[i] < 1000 && (c < 3 || c > all - 3) || c % step == 0 {
                items.push(hist(fam, S_RANGE, &[0, c], s, &[]));
            }
        }
    }
    e.par(items.len(), |i| {
        e.case(&items[i]);
        e.take();
    });
    e.section("iterators and bounds over full and four-level trees", e.cases_so_far() - n0);
}
pub fn consuming(e: &Eng, fam: u32, shapes: &[(Vec<u32>, usize)]) {
    let n0 = e.cases_so_far();
    e.par(shapes.len(), |i| {
        let (w, n) = &shapes[i];
        let n = *n as u32;
        let cells: Vec<(u32, u32)> = if n <= 26 {
            (0..=n + 1).flat_map(|a| (0..=n + 1 - a.min(n + 1)).map(move |b| (a, b))).collect()
        } else {
            (0..=n + 1).flat_map(|a| [(a, 0), (0, a), (a, n.saturating_sub(a)), (a / 2, a / 2), (a, (n / 2).min(n + 1 - a))]).collect()
        };
        for (a, b) in cells {
            for d in 0..INTO_WAYS.len() as u32 {
                if (a + b) % 5 != d % 5 && n > 12 && !e.thorough {
                    continue;
                }
                if !e.case(&hist(fam, S_INTO, &[a, b, d], &w[2..], &[])) {
                    return;
                }
                e.take();
            }
        }
    });
    e.section("consuming iterators abandoned after every number of front and back steps", e.cases_so_far() - n0);
}
pub fn equal(e: &Eng, fam: u32) {
    let mut cs = vec![];
    for n in if e.thorough { (0..=90).collect::<Vec<u32>>() } else { (0..=26).chain([40, 75, 90]).collect() } {
        let ways: Vec<u32> = if n <= 26 { vec![0, 1, 2, 3, 4, 5, 8, 9, 13, 16, 18, 20] } else { vec![0, 1, 4, 13, 18] };
        for a in &ways {
            for b in &ways {
                cs.push(vec![fam, S_EQ, n, *a, *b]);
            }
        }
    }
    e.all("maps and sets of n entries built in two ways, and with one entry changed", cs);
    let mut cs = vec![];
    for n in [101, 120, 143, 150, 200, 399, 400, 900, 1727, 1800] {
        for a in [0, 1, 4, 13] {
            for b in [0, 1, 4, 13, 18] {
                cs.push(vec![fam, S_EQ, n, a, b]);
            }
        }
    }
    e.all("maps and sets of three and four levels built in two ways, and with each entry in turn changed, exchanged or missing", cs);
}
pub fn sames(e: &Eng, fam: u32, shapes: &[(Vec<u32>, usize)]) {
    let mut cs: Vec<Vec<u32>> = shapes.iter().map(|s| hist(fam, S_SAME, &[], &s.0[2..], &[])).collect();
    for s in seeds(1).into_iter().chain(full()).filter(|s| s[1] < 1000) {
        cs.push(hist(fam, S_SAME, &[], &s, &[]));
    }
    e.all("each arrangement against the same entries inserted in order, and with one entry missing or changed", cs);
}
pub fn misbehaving(e: &Eng, fam: u32) {
    fickle(e, fam);
    let s0 = vecs(&seeds(0));
    panicking(e, fam, &s0, OPS_ALL, &[CMP, CLONE, DROP, GEN], "maps: caller code panicking at each invocation");
    let s00 = vecs(&seeds(0).into_iter().filter(|s| s[1] <= if e.thorough { 40 } else { 17 }).collect::<Vec<_>>());
    double_faults(e, fam, &s00, OPS_ALL, if e.thorough { &[DROP, CMP, CLONE] } else { &[DROP] }, "maps: a refused request or clone together with a panicking destructor");
    let s1 = vecs(&seeds(1)[54..].iter().copied().step_by(if e.thorough { 1 } else { 6 }).collect::<Vec<_>>());
    panicking(e, fam, &s1, &[REM, APP, SPL_L, SPL_RX, CLONE_T, CLONE_C], &[CMP, CLONE, DROP], "three-level maps: caller code panicking");
    let len = if e.thorough { 7 } else { 5 };
    scripted(e, fam, &s0, &[INS, REM, REP, APP, EXT, SPL_L, SPL_RX, LOOKUP, MISS, E_VAC, O_REMENT, RNG], len, &[0], "maps: inconsistent comparisons, every answer sequence at the start of an operation");
    let late: Vec<u32> = if e.thorough { (1..40).collect() } else { (2..34).step_by(4).collect() };
    scripted(e, fam, &s0, &[APP, EXT, SPL_L, RNG, APPX], if e.thorough { 4 } else { 3 }, &late, "maps: inconsistent comparisons later in an operation");
}
#[allow(dead_code)]
fn _unused() {
    let _ = log2(1);
}
fn xlen<I: ExactSizeIterator>(i: &I) -> usize {
    i.len()
}
fn dispose(t: Bt) {
    let Bt { m, md: _md, nv: _ } = t;
    sut(|| drop(m));
}
