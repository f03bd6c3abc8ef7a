//! try_clone of every supported shape: each small value, each refused request, each element refusing to be cloned.
#![allow(deprecated)]
use crate::elem::*;
use crate::engine::*;
use crate::ledger::{l, off};
use crate::vecs::{Big, Zst};
use crate::{ensure, tr};
#[cfg(feature = "unstable")]
use fallible_collections::btree::BTreeMap;
#[cfg(not(feature = "unstable"))]
use fallible_collections::hashmap::TryHashMap;
use fallible_collections::{TryBox, TryClone, TryVec};
use std::sync::Arc;

/// A sequence of choices, read from the words of the case; past its end every choice is 0.
pub struct Ch<'a> {
    w: &'a [u32],
    pos: usize,
    arity: Vec<u32>,
    auto: u32, // in long containers the contents are not enumerated
    next: u32,
    deep: bool,
}
impl Ch<'_> {
    fn pick(&mut self, n: u32) -> u32 {
        if self.auto > 0 {
            self.next += 1;
            return (self.next * 7 + self.next / 5) % n;
        }
        let x = self.w.get(self.pos).copied().unwrap_or(0).min(n - 1);
        self.pos += 1;
        off(|| self.arity.push(n));
        x
    }
    fn len(&mut self, lens: &[u32]) -> u32 {
        let lens = if self.deep && lens.len() == 5 { &[0, 1, 2, 3, 4, 7, 8, 9, 16, 33][..] } else { lens };
        let n = lens[self.pick(lens.len() as u32) as usize];
        n.min(if self.auto > 0 { 3 } else { n })
    }
    fn many<R>(&mut self, n: u32, f: impl FnOnce(&mut Self) -> R) -> R {
        let long = (n > if self.deep { 3 } else { 2 }) as u32;
        self.auto += long;
        let x = f(self);
        self.auto -= long;
        x
    }
}
#[derive(Default, PartialEq)]
struct View {
    data: Vec<u64>,
    ids: Vec<u32>,
    shared: Vec<usize>,
}
trait Sh: TryClone + Sized {
    fn make(c: &mut Ch) -> Self;
    fn view(&self, v: &mut View);
}
fn view<T: Sh>(x: &T) -> View {
    let mut v = View::default();
    x.view(&mut v);
    v
}
impl Sh for El {
    fn make(c: &mut Ch) -> El {
        El::new(3 + c.pick(2))
    }
    fn view(&self, v: &mut View) {
        self.check("reading");
        v.data.push(self.key as u64);
        v.ids.push(self.id);
    }
}
impl Sh for Zst {
    fn make(_: &mut Ch) -> Zst {
        <Zst as crate::vecs::Elt>::mk(0)
    }
    fn view(&self, v: &mut View) {
        v.data.push(77);
    }
}
impl Sh for Big {
    fn make(c: &mut Ch) -> Big {
        <Big as crate::vecs::Elt>::mk(1 + c.pick(2))
    }
    fn view(&self, v: &mut View) {
        v.data.push(<Big as crate::vecs::Elt>::key(self) as u64);
        if (self as *const Big as usize) % std::mem::align_of::<Big>() != 0 {
            v.data.push(0xBAD);
        }
    }
}
macro_rules! sh_int {
    ($($t:ty)*) => {$(
        impl Sh for $t {
            fn make(c: &mut Ch) -> $t { [0, <$t>::MAX, <$t>::MIN, 1][c.pick(4) as usize] }
            fn view(&self, v: &mut View) { v.data.push(*self as u64) }
        }
    )*};
}
sh_int!(u8 i64);
impl Sh for bool {
    fn make(c: &mut Ch) -> bool {
        c.pick(2) == 1
    }
    fn view(&self, v: &mut View) {
        v.data.push(*self as u64)
    }
}
impl<T: Sh> Sh for Option<T> {
    fn make(c: &mut Ch) -> Self {
        if c.pick(2) == 1 {
            Some(T::make(c))
        } else {
            None
        }
    }
    fn view(&self, v: &mut View) {
        v.data.push(1 << 40 | self.is_some() as u64);
        self.iter().for_each(|x| x.view(v));
    }
}
impl<T: Sh> Sh for Box<T> {
    fn make(c: &mut Ch) -> Self {
        Box::new(T::make(c))
    }
    fn view(&self, v: &mut View) {
        (**self).view(v)
    }
}
impl<T: Sh> Sh for TryBox<T> {
    fn make(c: &mut Ch) -> Self {
        match TryBox::try_new(T::make(c)) {
            Ok(x) => x,
            Err(_) => panic!("building the source failed"),
        }
    }
    fn view(&self, v: &mut View) {
        (**self).view(v)
    }
}
impl<T: Sh> Sh for Arc<T> {
    fn make(c: &mut Ch) -> Self {
        Arc::new(T::make(c))
    }
    fn view(&self, v: &mut View) {
        let n = v.ids.len();
        (**self).view(v);
        v.ids.truncate(n); // the elements behind a shared pointer are shared
        v.shared.push(Arc::as_ptr(self) as *const u8 as usize);
    }
}
/// pointers to values whose size is only known at run time
impl Sh for Arc<[El]> {
    fn make(c: &mut Ch) -> Self {
        Arc::from(Vec::<El>::make(c))
    }
    fn view(&self, v: &mut View) {
        v.data.push(2 << 40 | self.len() as u64);
        self.iter().for_each(|x| v.data.push(x.key as u64));
        v.shared.push(Arc::as_ptr(self) as *const u8 as usize);
    }
}
impl Sh for Arc<str> {
    fn make(c: &mut Ch) -> Self {
        Arc::from(["", "a", "\u{e9}\0b"][c.pick(3) as usize])
    }
    fn view(&self, v: &mut View) {
        v.data.push(2 << 40 | self.len() as u64);
        v.data.extend(self.bytes().map(|b| b as u64));
        v.shared.push(Arc::as_ptr(self) as *const u8 as usize);
    }
}
impl Sh for Arc<dyn std::ops::Deref<Target = El>> {
    fn make(c: &mut Ch) -> Self {
        Arc::new(Box::new(El::make(c)))
    }
    fn view(&self, v: &mut View) {
        v.data.push((***self).key as u64);
        v.shared.push(Arc::as_ptr(self) as *const u8 as usize);
    }
}
impl<T: Sh> Sh for Vec<T> {
    fn make(c: &mut Ch) -> Self {
        let n = c.len(&[0, 1, 2, 5, 19]);
        // spare capacity in the source must not matter
        let mut v = Vec::with_capacity(n as usize + if n == 1 { 6 } else { 0 });
        c.many(n, |c| (0..n).for_each(|_| v.push(T::make(c))));
        v
    }
    fn view(&self, v: &mut View) {
        v.data.push(2 << 40 | self.len() as u64);
        self.iter().for_each(|x| x.view(v));
    }
}
impl<T: Sh> Sh for TryVec<T> {
    fn make(c: &mut Ch) -> Self {
        TryVec::from(Vec::make(c))
    }
    fn view(&self, v: &mut View) {
        v.data.push(2 << 40 | self.len() as u64);
        self.iter().for_each(|x| x.view(v));
    }
}
#[cfg(not(feature = "unstable"))]
impl<V: Sh> Sh for TryHashMap<El, V> {
    fn make(c: &mut Ch) -> Self {
        let n = c.len(&[0, 1, 2, 5, 15]);
        let mut m = TryHashMap::default();
        c.many(n, |c| {
            for i in 0..n {
                if m.insert(El::new(10 * i), V::make(c)).is_err() {
                    panic!("building the source failed")
                }
            }
        });
        m
    }
    fn view(&self, v: &mut View) {
        let mut es: Vec<(&El, &V)> = self.iter().collect();
        es.sort_by_key(|e| e.0.key);
        v.data.push(3 << 40 | self.len() as u64);
        for (k, x) in es {
            k.view(v);
            x.view(v);
        }
    }
}
#[cfg(feature = "unstable")]
impl<V: Sh> Sh for BTreeMap<El, V> {
    fn make(c: &mut Ch) -> Self {
        let n = c.len(&[0, 1, 2, 11, 12, 30, 90]);
        let mut m = BTreeMap::new();
        c.many(n, |c| {
            for i in 0..n {
                if m.try_insert(El::new(10 * i), V::make(c)).is_err() {
                    panic!("building the source failed")
                }
            }
        });
        m
    }
    fn view(&self, v: &mut View) {
        v.data.push(3 << 40 | self.len() as u64);
        for (k, x) in self.iter() {
            k.view(v);
            x.view(v);
        }
    }
}
/// words: family, shape, mode (0 none, 1 and 2 refused request, 3 element refuses), k, choices
fn one<T: Sh>(w: &[u32], name: &str) -> Res {
    let (mode, k) = (w[2] as u8, w[3] as u64);
    let mut c = Ch { w: &w[4..], pos: 0, arity: vec![], auto: 0, next: 0, deep: w[1] >= 100 };
    let src = sut(|| T::make(&mut c));
    let before = view(&src);
    tr!("try_clone of a {name} with contents {:x?}", &before.data[..before.data.len().min(24)]);
    step();
    let (live, blocks) = (r().live, l().live_blocks);
    r().nclone = 0;
    if mode > 3 {
        // caller code panics: the source stays as it was, nothing is used after its end
        leak_ok();
        let k = if mode >= 6 { k & 0x1ff } else { k };
        // modes 6 and 7: a refused request or element together with a panicking destructor
        let second = match mode {
            6 => 1 << 30 | (w[3] >> 9) << 16,
            7 => 2 << 30 | (w[3] >> 9) << 16,
            _ => 0,
        };
        r().plan_panic(if mode == 4 { CLONE } else { DROP | second }, k);
        if mode == 5 {
            // a failing clone makes the half-built value be dropped
            r().plan_clone_fail(k % 7 + 1);
        }
        let x = sut_catch(|| src.try_clone());
        let x = match x {
            Ok(x) => {
                r().panic_mask = 0;
                Some(x)
            }
            Err(Caught::Injected) => None,
            Err(Caught::Other(m)) => return Err(format!("panicked by itself: {m}").into()),
        };
        r().panic_mask = 0;
        let hit = second_fault();
        l().nrefused = 0;
        let fired = r().fired;
        emit(if mode >= 6 { fired as u64 | (hit as u64) << 1 } else { (fired || mode == 5 && k < 40) as u64 });
        off(|| c.arity.iter().for_each(|a| emit(*a as u64)));
        if fired || hit {
            nontrivial()
        }
        ensure!(view(&src) == before, "after a caught panic in try_clone the source is changed");
        if let Some(Ok(c)) = &x {
            ensure!(view(c).data == before.data, "the clone differs from its source");
        }
        sut(|| {
            drop(x);
            drop(src)
        });
        return Ok(());
    }
    let res = match mode {
        0 => sut(|| src.try_clone()),
        3 => {
            r().plan_clone_fail(k);
            let x = sut(|| src.try_clone());
            r().clone_fail_at = u64::MAX;
            x
        }
        m => sut_fault(m, k, || src.try_clone()).0,
    };
    let hit = l().nrefused > 0 || r().clone_failed;
    l().nrefused = 0;
    r().clone_failed = false;
    emit(hit as u64);
    off(|| c.arity.iter().for_each(|a| emit(*a as u64)));
    state(hash64(before.data.iter().copied().chain([w[1] as u64, hit as u64])));
    let good = |cl: &T| -> Res {
        let v = view(cl);
        ensure!(v.data == before.data, "the clone holds {:?}, the source {:?}", v.data, before.data);
        ensure!(v.shared == before.shared, "a shared pointer was cloned to another allocation");
        ensure!(v.ids.iter().all(|i| !before.ids.contains(i)), "the clone shares an element with its source");
        Ok(())
    };
    match res {
        Ok(cl) => {
            ensure!(!hit, "an element or memory was refused, yet try_clone reports success");
            good(&cl)?;
            ensure!(view(&src) == before, "cloning changed the source");
            let v = view(&cl);
            nontrivial();
            if hash64(w.iter().map(|x| *x as u64)) % 2 == 0 {
                sut(|| drop(src));
                ensure!(view(&cl) == v, "the clone changed when its source was dropped");
                sut(|| drop(cl));
            } else {
                // a clone of the clone, and the source outlives both
                match sut(|| cl.try_clone()) {
                    Ok(c2) => {
                        ensure!(view(&c2).data == before.data, "a clone of a clone differs");
                        sut(|| drop(cl));
                        ensure!(view(&c2).data == before.data, "the clone changed when its source was dropped");
                        sut(|| drop(c2));
                    }
                    Err(_) => return Err("cloning a clone failed although memory was available".into()),
                }
                ensure!(view(&src) == before, "the source changed when its clone was dropped");
                sut(|| drop(src));
            }
        }
        Err(_) => {
            ensure!(hit, "try_clone failed although nothing was refused");
            nontrivial();
            ensure!(view(&src) == before, "a failed try_clone changed its source");
            ensure!(r().live == live, "after a failed try_clone {} elements exist, {live} before", r().live);
            ensure!(l().live_blocks == blocks, "a failed try_clone left {} memory blocks behind", l().live_blocks as isize - blocks as isize);
            match sut(|| src.try_clone()) {
                Ok(c) => {
                    good(&c)?;
                    sut(|| drop(c));
                }
                Err(_) => return Err("try_clone repeated after a failure fails again".into()),
            }
            ensure!(view(&src) == before, "cloning changed the source");
            sut(|| drop(src));
        }
    }
    Ok(())
}
fn ints() -> Res {
    macro_rules! all {
        ($($t:ty)*) => {$(
            for x in <$t>::MIN..=<$t>::MAX {
                let (c, q, _) = sut_fault(1, 0, || x.try_clone());
                ensure!(matches!(c, Ok(c) if c == x), "{x}{}.try_clone() gives {c:?}", stringify!($t));
                ensure!(q == 0, "cloning an integer requests memory");
                let c = Some(x).try_clone();
                ensure!(matches!(c, Ok(Some(c)) if c == x), "Some({x}).try_clone() gives {c:?}");
                step();
            }
        )*};
    }
    macro_rules! some {
        ($($t:ty)*) => {$(
            let mut v: Vec<$t> = vec![0, <$t>::MIN, <$t>::MAX];
            for b in 0..<$t>::BITS {
                let p = (1 as $t) << b;
                for d in 0..4 as $t { v.push(p.wrapping_add(d)); v.push(p.wrapping_sub(d)); v.push(!p.wrapping_add(d)); v.push((<$t>::MAX / 3) ^ p); }
            }
            for x in v {
                let (c, q, _) = sut_fault(1, 0, || x.try_clone());
                ensure!(matches!(c, Ok(c) if c == x), "{x}{}.try_clone() gives {c:?}", stringify!($t));
                ensure!(q == 0, "cloning an integer requests memory");
                step();
            }
        )*};
    }
    nontrivial();
    all!(u8 i8 u16 i16);
    some!(u32 i32 u64 i64 usize isize);
    for x in [false, true] {
        ensure!(matches!(x.try_clone(), Ok(c) if c == x), "{x}.try_clone() gives another value");
    }
    ensure!(matches!(None::<u8>.try_clone(), Ok(None)), "None is cloned to something");
    emit(0);
    Ok(())
}
macro_rules! shapes {
    ($($(#[$m:meta])* $n:literal => $t:ty),* $(,)?) => {
        pub const SHAPES: &[u32] = &[$($(#[$m])* $n),*];
        pub fn case(w: &[u32]) -> Res {
            match w[1] % 100 {
                0 => ints(),
                $($(#[$m])* $n => one::<$t>(w, stringify!($t)),)*
                _ => Err("harness: unknown shape".into()),
            }
        }
    };
}
shapes! {
    1 => Option<El>,
    2 => Box<El>,
    3 => TryBox<El>,
    4 => Vec<El>,
    5 => TryVec<El>,
    6 => Arc<El>,
    7 => Option<Option<u8>>,
    8 => Vec<u8>,
    9 => TryVec<i64>,
    10 => Vec<bool>,
    11 => Box<Box<El>>,
    12 => TryBox<TryBox<El>>,
    13 => Option<Box<El>>,
    14 => Vec<Option<El>>,
    15 => Vec<Box<El>>,
    16 => TryVec<TryBox<El>>,
    17 => Vec<Vec<El>>,
    18 => TryVec<TryVec<El>>,
    19 => Box<Vec<El>>,
    20 => TryBox<TryVec<El>>,
    21 => Arc<Vec<El>>,
    22 => Vec<Arc<El>>,
    23 => Option<Arc<Box<El>>>,
    24 => TryVec<Option<TryVec<Box<El>>>>,
    25 => Vec<Zst>,
    26 => TryVec<Big>,
    27 => Box<Zst>,
    28 => TryBox<Big>,
    29 => Option<Vec<Option<Box<El>>>>,
    30 => Arc<[El]>,
    31 => Vec<Arc<str>>,
    32 => Option<Arc<dyn std::ops::Deref<Target = El>>>,
    #[cfg(not(feature = "unstable"))]
    40 => TryHashMap<El, El>,
    #[cfg(not(feature = "unstable"))]
    41 => TryHashMap<El, Vec<El>>,
    #[cfg(not(feature = "unstable"))]
    42 => TryHashMap<El, Box<El>>,
    #[cfg(not(feature = "unstable"))]
    43 => Vec<TryHashMap<El, El>>,
    #[cfg(not(feature = "unstable"))]
    44 => TryHashMap<El, TryHashMap<El, El>>,
    #[cfg(not(feature = "unstable"))]
    45 => TryHashMap<El, Arc<El>>,
    #[cfg(feature = "unstable")]
    50 => BTreeMap<El, El>,
    #[cfg(feature = "unstable")]
    51 => BTreeMap<El, Vec<El>>,
    #[cfg(feature = "unstable")]
    52 => BTreeMap<El, Option<Box<El>>>,
    #[cfg(feature = "unstable")]
    53 => BTreeMap<El, BTreeMap<El, El>>,
    #[cfg(feature = "unstable")]
    54 => TryVec<BTreeMap<El, El>>,
    #[cfg(feature = "unstable")]
    55 => BTreeMap<El, Arc<El>>,
    #[cfg(feature = "unstable")]
    56 => BTreeMap<El, Zst>,
    #[cfg(feature = "unstable")]
    57 => BTreeMap<El, TryVec<TryBox<El>>>,
}
pub fn all(e: &Eng, fam: u32, modes: &[u32]) {
    let n0 = e.cases_so_far();
    let cap = if e.thorough { 60_000 } else { 3_000 };
    e.par(SHAPES.len() + 1, |i| {
        if i == SHAPES.len() {
            e.case(&[fam, 0, 0, 0]);
            e.take();
            return;
        }
        let s = SHAPES[i] + 100 * e.thorough as u32;
        let mut ch: Vec<u32> = vec![];
        for n in 0.. {
            let mut w = vec![fam, s, 0, 0];
            w.extend(&ch);
            e.take();
            if !e.case(&w) {
                return;
            }
            let ar = e.take();
            for &mode in modes {
                if mode >= 6 {
                    if !e.thorough && n > 40 && n % 8 > 0 {
                        continue;
                    }
                    let mut good = true;
                    double(&[0], &[1], |second, k| {
                        w[2] = mode;
                        w[3] = (second >> 16 & 0x3fff) << 9 | k;
                        e.take();
                        good = e.case(&w);
                        if !good {
                            return None;
                        }
                        e.take().first().copied()
                    });
                    if !good {
                        return;
                    }
                    continue;
                }
                for k in 0..400 {
                    w[2] = mode;
                    w[3] = k;
                    e.take();
                    if !e.case(&w) {
                        return;
                    }
                    if e.take().first() == Some(&0) {
                        break;
                    }
                }
            }
            // next value: the last choice that can be raised is raised, those after it start again
            let ar = &ar[1..];
            ch.resize(ar.len(), 0);
            loop {
                match ch.pop() {
                    None => return,
                    Some(x) if (x as u64 + 1) < ar[ch.len()] => {
                        ch.push(x + 1);
                        break;
                    }
                    _ => {}
                }
            }
            if n > cap {
                e.section(&format!("shape {s}: stopped after {cap} values"), 0);
                return;
            }
        }
    });
    e.section(if modes[0] < 4 { "try_clone of each small value of each shape, each request refused, each element refusing" } else { "try_clone of each small value of each shape, element clone or destructor panicking at each invocation" }, e.cases_so_far() - n0);
}
