//! Vec / TryVec programs: every short sequence of operations, against a plain sequence model.
use crate::elem::*;
use crate::engine::*;
use crate::ledger::l;
use crate::{ensure, tr};
use fallible_collections::{FallibleVec, TryClone, TryCollect, TryReserveError, TryVec};
use std::convert::TryFrom;

pub trait Elt: TryClone + std::fmt::Debug + PartialEq + Ord + 'static {
    const NAME: &'static str;
    fn mk(key: u32) -> Self;
    fn key(&self) -> u32;
    fn norm(key: u32) -> u32;
    fn id(&self) -> Option<u32> {
        None
    }
    fn resize_copy(_: &mut Vec<Self>, _: usize, _: Self) -> Option<Result<(), TryReserveError>>
    where
        Self: Sized,
    {
        None
    }
    fn ext_copy(_: &mut Vec<Self>, _: &[Self]) -> Option<Result<(), TryReserveError>>
    where
        Self: Sized,
    {
        None
    }
    fn from_text(_: &str) -> Option<Result<TryVec<Self>, TryReserveError>>
    where
        Self: Sized,
    {
        None
    }
    fn write(_: &mut TryVec<Self>, _: &[Self]) -> Option<Result<(), ()>>
    where
        Self: Sized,
    {
        None
    }
}
impl Elt for El {
    const NAME: &'static str = "El";
    fn mk(key: u32) -> El {
        El::new(key)
    }
    fn key(&self) -> u32 {
        self.check("read");
        self.key
    }
    fn norm(k: u32) -> u32 {
        k
    }
    fn id(&self) -> Option<u32> {
        Some(self.id)
    }
}
macro_rules! copyelt {
    ($t:ty, $n:expr, $mk:expr, $key:expr, $norm:expr, $write:expr, $text:expr) => {
        impl Elt for $t {
            const NAME: &'static str = $n;
            fn mk(k: u32) -> $t {
                ($mk)(k)
            }
            fn key(&self) -> u32 {
                ($key)(self)
            }
            fn norm(k: u32) -> u32 {
                ($norm)(k)
            }
            fn resize_copy(v: &mut Vec<Self>, n: usize, x: Self) -> Option<Result<(), TryReserveError>> {
                Some(FallibleVec::try_resize(v, n, x))
            }
            fn ext_copy(v: &mut Vec<Self>, s: &[Self]) -> Option<Result<(), TryReserveError>> {
                Some(FallibleVec::try_extend_from_slice(v, s))
            }
            fn from_text(s: &str) -> Option<Result<TryVec<Self>, TryReserveError>> {
                ($text)(s)
            }
            fn write(v: &mut TryVec<Self>, s: &[Self]) -> Option<Result<(), ()>> {
                ($write)(v, s)
            }
        }
    };
}
#[cfg(feature = "std_io")]
fn write_u8(v: &mut TryVec<u8>, s: &[u8]) -> Option<Result<(), ()>> {
    use std::io::Write;
    Some(match v.write(s) {
        Ok(n) if n == s.len() => v.flush().map_err(|_| ()),
        Ok(_) => {
            r().err = Some("write reported a wrong count".into());
            Ok(())
        }
        Err(_) => Err(()),
    })
}
#[cfg(not(feature = "std_io"))]
fn write_u8(_: &mut TryVec<u8>, _: &[u8]) -> Option<Result<(), ()>> {
    None
}
copyelt!(u8, "u8", |k| k as u8, |x: &u8| *x as u32, |k| k & 0xff, write_u8, |s| Some(TryVec::try_from(s)));
copyelt!(u64, "u64", |k: u32| (k as u64) << 32 | !k as u64, |x: &u64| {
    if (*x >> 32) as u32 == !(*x as u32) { (*x >> 32) as u32 } else { 0xBAD }
}, |k| k, |_, _| None, |_| None);
macro_rules! sized {
    ($name:ident, $n:expr, $body:ty, $al:literal) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        #[repr(align($al))]
        pub struct $name($body);
        impl TryClone for $name {
            fn try_clone(&self) -> Result<Self, TryReserveError> {
                tick(CLONE);
                let g = r();
                let n = g.nclone;
                g.nclone += 1;
                if n == g.clone_fail_at {
                    g.clone_failed = true;
                    return Err(reserve_error());
                }
                Ok(*self)
            }
        }
        impl $name {
            fn make(k: u32) -> $name {
                let mut s: $name = unsafe { std::mem::zeroed() };
                let n = std::mem::size_of::<$body>();
                let p = &mut s as *mut $name as *mut u8;
                for i in 0..n {
                    unsafe { *p.add(i) = (k as u8).wrapping_add(i as u8).wrapping_add(((i >> 8) as u8).wrapping_mul(37)) };
                }
                s
            }
            fn read(&self) -> u32 {
                let n = std::mem::size_of::<$body>();
                let p = self as *const $name as *const u8;
                if p as usize % $al != 0 {
                    r().err = Some(format!("misaligned reference to {}", $n));
                }
                if n == 0 {
                    return 0;
                }
                let k = unsafe { *p };
                for i in 0..n {
                    if unsafe { *p.add(i) } != k.wrapping_add(i as u8).wrapping_add(((i >> 8) as u8).wrapping_mul(37)) {
                        return 0xBAD;
                    }
                }
                k as u32
            }
        }
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &$name) -> Option<std::cmp::Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $name {
            fn cmp(&self, o: &$name) -> std::cmp::Ordering {
                if std::mem::size_of::<$body>() > 1000 {
                    // comparing very large values looks at their first byte only; reading one looks at all
                    let (a, b) = (self as *const $name as *const u8, o as *const $name as *const u8);
                    return unsafe { (*a).cmp(&*b) };
                }
                self.read().cmp(&o.read())
            }
        }
        copyelt!($name, $n, $name::make, $name::read, |k| if std::mem::size_of::<$body>() == 0 { 0 } else { k & 0xff }, |_, _| None, |_| None);
    };
}
sized!(Big, "Big72", [u8; 72], 8);
sized!(Al64, "Al64", [u8; 64], 64);
sized!(Al16, "Al16x3", [u8; 48], 16);
sized!(Al32, "Al32", [u8; 32], 32);
sized!(Al128, "Al128", [u8; 128], 128);
sized!(B3, "B3", [u8; 3], 1);
sized!(B300, "B300", [u8; 300], 4);
sized!(Unit, "Unit", [u8; 0], 1);
sized!(Unit64, "Unit64", [u8; 0], 64);
sized!(W2, "W2", [u8; 2], 2);
sized!(B5000, "B5000", [u8; 5000], 8);
sized!(Al4096, "Al4096", [u8; 4096], 4096);
sized!(K256, "K256", [u8; 1 << 18], 1);

/// tracked zero-sized element: constructions and destructions are counted
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Zst;
thread_local!(static ZN: std::cell::Cell<(u64,u64)> = const { std::cell::Cell::new((0,0)) });
pub fn zst_reset() {
    ZN.with(|z| z.set((0, 0)))
}
pub fn zst_live() -> i64 {
    ZN.with(|z| z.get().0 as i64 - z.get().1 as i64)
}
impl Zst {
    pub fn new() -> Zst {
        ZN.with(|z| z.set((z.get().0 + 1, z.get().1)));
        Zst
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        ZN.with(|z| z.set((z.get().0, z.get().1 + 1)));
        if zst_live() < 0 && r().err.is_none() {
            crate::ledger::off(|| r().err = Some("zero-sized element destroyed more often than created".into()));
        }
        tick(DROP);
    }
}
impl Clone for Zst {
    fn clone(&self) -> Zst {
        Zst::new()
    }
}
impl TryClone for Zst {
    fn try_clone(&self) -> Result<Self, TryReserveError> {
        tick(CLONE);
        let g = r();
        let n = g.nclone;
        g.nclone += 1;
        if n == g.clone_fail_at {
            g.clone_failed = true;
            return Err(reserve_error());
        }
        Ok(Zst::new())
    }
}
impl Elt for Zst {
    const NAME: &'static str = "Zst";
    fn mk(_: u32) -> Zst {
        Zst::new()
    }
    fn key(&self) -> u32 {
        0
    }
    fn norm(_: u32) -> u32 {
        0
    }
}

/// tracked element of one byte: counted like `Zst`
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Tiny(u8);
impl Tiny {
    fn new(k: u8) -> Tiny {
        ZN.with(|z| z.set((z.get().0 + 1, z.get().1)));
        Tiny(k)
    }
}
impl Drop for Tiny {
    fn drop(&mut self) {
        ZN.with(|z| z.set((z.get().0, z.get().1 + 1)));
        if zst_live() < 0 && r().err.is_none() {
            crate::ledger::off(|| r().err = Some("one-byte element destroyed more often than created".into()));
        }
        tick(DROP);
    }
}
impl Clone for Tiny {
    fn clone(&self) -> Tiny {
        Tiny::new(self.0)
    }
}
impl TryClone for Tiny {
    fn try_clone(&self) -> Result<Self, TryReserveError> {
        tick(CLONE);
        let g = r();
        let n = g.nclone;
        g.nclone += 1;
        if n == g.clone_fail_at {
            g.clone_failed = true;
            return Err(reserve_error());
        }
        Ok(Tiny::new(self.0))
    }
}
impl Elt for Tiny {
    const NAME: &'static str = "Tiny";
    fn mk(k: u32) -> Tiny {
        Tiny::new(k as u8)
    }
    fn key(&self) -> u32 {
        self.0 as u32
    }
    fn norm(k: u32) -> u32 {
        k & 0xff
    }
}
/// `El` within a larger or more strictly aligned value
macro_rules! wrapped {
    ($name:ident, $n:expr, $pad:literal, $al:literal) => {
        #[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
        #[repr(align($al))]
        pub struct $name(El, [u8; $pad]);
        impl Clone for $name {
            fn clone(&self) -> $name {
                $name(self.0.clone(), self.1)
            }
        }
        impl TryClone for $name {
            fn try_clone(&self) -> Result<Self, TryReserveError> {
                Ok($name(self.0.try_clone()?, self.1))
            }
        }
        impl Elt for $name {
            const NAME: &'static str = $n;
            fn mk(k: u32) -> $name {
                $name(El::new(k), [k as u8 ^ 0x5a; $pad])
            }
            fn key(&self) -> u32 {
                self.0.check("read");
                if self as *const $name as usize % $al != 0 {
                    r().err = Some(format!("misaligned reference to {}", $n));
                }
                if self.1 != [self.0.key as u8 ^ 0x5a; $pad] {
                    return 0xBAD;
                }
                self.0.key
            }
            fn norm(k: u32) -> u32 {
                k
            }
            fn id(&self) -> Option<u32> {
                Some(self.0.id)
            }
        }
    };
}
wrapped!(ElBig, "ElBig", 200, 8);
wrapped!(ElAl, "ElAl", 1, 64);

pub const OK_CONTENT: u64 = 1; // contents after success
pub const ERR_CONTENT: u64 = 2; // contents after failure
pub const REQS: u64 = 4; // request counts
pub const CLASS: u64 = 8; // result class
pub static FLAGS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(!0);
pub fn flag(f: u64) -> bool {
    FLAGS.load(std::sync::atomic::Ordering::Relaxed) & f != 0
}

pub enum C<T> {
    V(Vec<T>),
    W(TryVec<T>),
}
impl<T> C<T> {
    fn s(&self) -> &[T] {
        match self {
            C::V(v) => v,
            C::W(w) => w,
        }
    }
}

// operations
pub const PUSH: u32 = 0;
pub const PUSHGB: u32 = 1;
pub const INSERT: u32 = 2;
pub const APPEND: u32 = 3; // arg = other len | spare<<4
pub const RESIZE_WITH: u32 = 4;
pub const RESIZE_NC: u32 = 5;
pub const EXT_NC: u32 = 6;
pub const RESIZE_CP: u32 = 7;
pub const EXT_CP: u32 = 8;
pub const RESERVE: u32 = 9;
pub const POP: u32 = 10;
pub const CLEAR: u32 = 11;
pub const SHRINK: u32 = 12;
pub const TRYCLONE: u32 = 13;
pub const WITHCAP: u32 = 14;
pub const CONCAT: u32 = 15; // arg = lens of three parts, base 4
pub const FROMSLICE: u32 = 16;
pub const ITERS: u32 = 17;
pub const WRITE: u32 = 18;
pub const COMPARE: u32 = 19;
pub const FROM_ELEM: u32 = 20;
pub const MUTATE: u32 = 21;
pub const COLLECT: u32 = 22;
pub const INTOITER: u32 = 23; // arg = taken from the front, then rest collected
pub const OPNAMES: [&str; 24] = [
    "push", "push_give_back", "insert", "append", "resize_with", "resize_no_copy", "extend_from_slice_no_copy",
    "resize", "extend_from_slice", "reserve", "pop", "clear", "shrink", "try_clone", "with_capacity", "concat",
    "try_from(slice)", "iterate", "write", "compare", "try_from_elem", "mutate", "collect", "into_iter",
];
const HUGE: [u32; 5] = [200, 201, 202, 203, 204];
fn is_huge(o: (u32, u32)) -> bool {
    o.0 != CONCAT && o.1 >= 200
}
fn big<T>(a: u32, len: usize) -> usize {
    let sz = std::mem::size_of::<T>().max(1);
    match a {
        200 => usize::MAX,
        201 => isize::MAX as usize / sz + 1,
        202 => usize::MAX - len,
        203 => (usize::MAX - len).saturating_add(1),
        204 => (1usize << 40) / sz,
        a => a as usize,
    }
}

#[derive(Clone, Debug, PartialEq)]
struct M {
    key: u32,
    id: Option<u32>,
}
fn sync<T: Elt>(v: &[T]) -> Vec<M> {
    v.iter().map(|e| M { key: e.key(), id: e.id() }).collect()
}
fn agree<T: Elt>(v: &[T], m: &[M], what: &str) -> Res {
    let keys: Vec<u32> = v.iter().map(|e| e.key()).collect();
    let want: Vec<u32> = m.iter().map(|e| e.key).collect();
    ensure!(keys == want, "{what}: contents {keys:?}, expected {want:?}");
    for (a, b) in v.iter().zip(m) {
        if let (Some(x), Some(y)) = (a.id(), b.id) {
            ensure!(x == y, "{what}: element {} is a different object than the one put in", b.key);
        }
    }
    Ok(())
}
/// capacity as seen by the allocator (None when nothing is allocated)
fn real_cap<T>(c: &C<T>) -> usize {
    if std::mem::size_of::<T>() == 0 {
        return usize::MAX;
    }
    match c {
        C::V(v) => v.capacity(),
        C::W(w) => {
            let p = w.as_slice().as_ptr() as usize;
            l().blocks().iter().find(|b| b.0 == p).map_or(0, |b| b.1 / std::mem::size_of::<T>())
        }
    }
}

/// words: [family, type, api, cap, len, (op, arg, fault, panic)*]
/// fault: 0 none, 1+2k only request k refused, 2+2k all requests from k on, 1000+k clone k fails
pub fn prog(w: &[u32]) -> Res {
    match w[1] {
        0 => run::<El>(w),
        1 => run::<u8>(w),
        2 => run::<u64>(w),
        3 => run::<Zst>(w),
        4 => run::<Big>(w),
        5 => run::<Al64>(w),
        6 => run::<Al16>(w),
        7 => run::<Al32>(w),
        8 => run::<Al128>(w),
        9 => run::<B3>(w),
        10 => run::<B300>(w),
        11 => run::<Unit64>(w),
        12 => run::<B5000>(w),
        13 => run::<Al4096>(w),
        14 => run::<ElBig>(w),
        15 => run::<ElAl>(w),
        16 => run::<Tiny>(w),
        _ => Err("bad type".into()),
    }
}
pub const NTYPES: u32 = 12;

enum Out<T> {
    Ok,
    Err,
    Back(T),
    NA,
    New(C<T>),
    Taken(Vec<T>),
}

fn run<T: Elt>(w: &[u32]) -> Res {
    let (api, cap, len) = (w[2], w[3] as usize, w[4] as usize);
    zst_reset();
    tr!("{} of {}, capacity {cap}, length {len}", if api == 0 { "Vec" } else { "TryVec" }, T::NAME);
    let mut next_key = 1u32;
    let mut fresh = || {
        next_key += 1;
        next_key
    };
    let v: Vec<T> = sut(|| {
        let mut v = Vec::with_capacity(cap.max(len));
        for _ in 0..len {
            v.push(T::mk(fresh()));
        }
        v
    });
    let mut c = if api == 0 { C::V(v) } else { C::W(TryVec::from(v)) };
    let mut m = sync(c.s());
    let zst = std::mem::size_of::<T>() == 0;
    let mut failed_before = false;
    let mut reserved: Option<usize> = None; // promised free slots left
    for op in w[5..].chunks(4) {
        let (o, a, fault, pan) = (op[0], op[1], op[2], op[3]);
        step();
        let n = c.s().len();
        let cap0 = real_cap(&c);
        let before = m.clone();
        // arguments
        let key = fresh();
        let arg = big::<T>(a, n);
        let huge = is_huge((o, a));
        let mut mode = 0;
        let mut k = 0;
        if fault >= 1000 {
            r().plan_clone_fail((fault - 1000) as u64);
        } else if fault > 0 {
            mode = 2 - (fault & 1) as u8;
            k = ((fault - 1) / 2) as u64;
        }
        let exp_panic_op = o == INSERT && arg > n;
        let extra: Vec<T> = match o {
            APPEND => {
                let (q, spare) = ((a & 15) as usize, (a >> 4) as usize);
                sut(|| {
                    let mut v = Vec::with_capacity(q + spare);
                    for _ in 0..q {
                        v.push(T::mk(fresh()));
                    }
                    v
                })
            }
            EXT_NC | EXT_CP | FROMSLICE | WRITE | COLLECT => sut(|| (0..arg).map(|_| T::mk(fresh())).collect()),
            _ => sut(Vec::new),
        };
        let em = sync(&extra);
        let mut other: C<T> = if api == 0 { C::V(extra) } else { C::W(TryVec::from(extra)) };
        let parts: Vec<usize> = if o == CONCAT { (0..3).map(|i| ((a >> (2 * i)) & 3) as usize).collect() } else { vec![] };
        let mut pm: Vec<M> = Vec::new();
        let nested: Option<TryVec<TryVec<T>>> = if o == CONCAT {
            let np = (a >> 6) as usize;
            Some(sut(|| {
                let mut nv: Vec<TryVec<T>> = Vec::new();
                for p in parts.iter().take(np) {
                    let mut iv = Vec::new();
                    for _ in 0..*p {
                        iv.push(T::mk(fresh()));
                    }
                    nv.push(TryVec::from(iv));
                }
                TryVec::from(nv)
            }))
        } else {
            None
        };
        if let Some(nv) = &nested {
            for p in nv.iter() {
                pm.extend(sync(p).into_iter().map(|e| M { key: e.key, id: None }));
            }
        }
        if pan > 0 {
            r().plan_panic(if pan & 1 == 0 { DROP } else { CLONE | GEN | NEXT }, ((pan - 1) / 2) as u64);
        }
        let mut given_id = None;
        let mut gen_keys: Vec<u32> = Vec::new();
        let gen_base = next_key_peek(&mut fresh);
        l().arm(mode, k);
        let res = sut_catch(|| -> Out<T> {
            let q = |x: Result<(), TryReserveError>| if x.is_ok() { Out::Ok } else { Out::Err };
            let new = |x: Result<C<T>, TryReserveError>| x.map_or(Out::Err, Out::New);
            match (o, &mut c) {
                (PUSH, C::V(v)) => {
                    let e = T::mk(key);
                    given_id = e.id();
                    q(FallibleVec::try_push(v, e))
                }
                (PUSH, C::W(v)) => {
                    let e = T::mk(key);
                    given_id = e.id();
                    q(v.push(e))
                }
                (PUSHGB, C::V(v)) => {
                    let e = T::mk(key);
                    given_id = e.id();
                    match v.try_push_give_back(e) {
                        Ok(()) => Out::Ok,
                        Err((e, _)) => Out::Back(e),
                    }
                }
                (INSERT, C::V(v)) => {
                    let e = T::mk(key);
                    given_id = e.id();
                    match FallibleVec::try_insert(v, arg, e) {
                        Ok(()) => Out::Ok,
                        Err((e, _)) => Out::Back(e),
                    }
                }
                (APPEND, C::V(v)) => match &mut other {
                    C::V(x) => q(v.try_append(x)),
                    _ => Out::NA,
                },
                (APPEND, C::W(v)) => match &mut other {
                    C::W(x) => q(v.append(x)),
                    _ => Out::NA,
                },
                (RESIZE_WITH, c) => {
                    let mut i = 0;
                    let f = || {
                        tick(GEN);
                        i += 1;
                        T::mk(gen_base + i)
                    };
                    match c {
                        C::V(v) => q(v.try_resize_with(arg, f)),
                        C::W(v) => q(v.resize_with(arg, f)),
                    }
                }
                (RESIZE_NC, C::V(v)) => q(v.try_resize_no_copy(arg, T::mk(key))),
                (EXT_NC, C::V(v)) => q(v.try_extend_from_slice_no_copy(other.s())),
                (EXT_NC, C::W(v)) => q(v.extend_from_slice(other.s())),
                (RESIZE_CP, C::V(v)) => T::resize_copy(v, arg, T::mk(key)).map_or(Out::NA, q),
                (EXT_CP, C::V(v)) => T::ext_copy(v, other.s()).map_or(Out::NA, q),
                (WRITE, C::W(v)) => match T::write(v, other.s()) {
                    None => Out::NA,
                    Some(Ok(())) => Out::Ok,
                    Some(Err(())) => Out::Err,
                },
                (RESERVE, C::V(v)) => q(FallibleVec::try_reserve(v, arg)),
                (RESERVE, C::W(v)) => q(v.reserve(arg)),
                (POP, C::V(v)) => Out::Taken(v.pop().into_iter().collect()),
                (POP, C::W(v)) => Out::Taken(v.pop().into_iter().collect()),
                (CLEAR, C::V(v)) => {
                    v.clear();
                    Out::Ok
                }
                (CLEAR, C::W(v)) => {
                    v.clear();
                    Out::Ok
                }
                (SHRINK, C::V(v)) => {
                    v.shrink_to_fit();
                    Out::Ok
                }
                (TRYCLONE, C::V(v)) => new(v.try_clone().map(C::V)),
                (TRYCLONE, C::W(v)) => new(v.try_clone().map(C::W)),
                (WITHCAP, C::V(_)) => new(<Vec<T> as FallibleVec<T>>::try_with_capacity(arg).map(C::V)),
                (WITHCAP, C::W(_)) => new(TryVec::<T>::with_capacity(arg).map(C::W)),
                (CONCAT, C::W(_)) => new(nested.as_ref().unwrap().concat().map(C::W)),
                (FROMSLICE, C::W(_)) => new(TryVec::<T>::try_from(other.s()).map(C::W)),
                (COLLECT, C::V(_)) => {
                    let it = match std::mem::replace(&mut other, C::V(Vec::new())) {
                        C::V(x) => x.into_iter().map(|e| {
                            tick(NEXT);
                            e
                        }),
                        _ => unreachable!(),
                    };
                    new(TryCollect::try_collect::<Vec<T>>(it).map(C::V))
                }
                #[cfg(feature = "unstable")]
                (FROM_ELEM, C::V(_)) => new(fallible_collections::vec::try_from_elem(T::mk(key), arg).map(C::V)),
                (INTOITER, c) => {
                    let old = std::mem::replace(c, C::V(Vec::new()));
                    let mut out = Vec::new();
                    match old {
                        C::V(v) => {
                            let mut i = v.into_iter();
                            out.extend(i.by_ref().take(arg));
                            drop(i);
                        }
                        C::W(v) => {
                            let mut i = v.into_iter();
                            out.extend(i.by_ref().take(arg));
                            drop(i);
                            *c = C::W(TryVec::new());
                        }
                    }
                    Out::Taken(out)
                }
                _ => Out::NA,
            }
        });
        let (nreq, nref) = (l().nreq, l().nrefused);
        let panicked = r().fired;
        let clone_failed = r().clone_failed;
        let ncl = r().nclone;
        r().clear_plan();
        gen_keys.clear();
        let desc = || format!("{}({}){}", OPNAMES[o as usize], if huge { format!("{arg:#x}") } else { a.to_string() },
            if fault >= 1000 { format!(" [clone {} fails]", fault - 1000) } else if fault > 0 { format!(" [request {k}{} refused]", if mode == 2 { " and later" } else { "" }) } else { String::new() });
        let failing = nref > 0 || clone_failed;
        if failing || panicked {
            nontrivial();
        }
        let out = match res {
            Ok(x) => x,
            Err(Caught::Injected) => {
                tr!("{} -> caller code panicked", desc());
                // whatever the contents are now, they must be real elements and the vector usable
                leak_ok();
                drop_in_sut(other);
                drop_in_sut(nested);
                m = sync(c.s());
                if let C::V(v) = &c {
                    ensure!(v.len() <= v.capacity(), "length beyond capacity after a panic");
                }
                failed_before = true;
                continue;
            }
            Err(Caught::Other(msg)) => {
                if exp_panic_op && nref == 0 {
                    tr!("{} -> panic, as in std", desc());
                    agree(c.s(), &before, "after an out-of-range insert")?;
                    drop_in_sut(other);
                    continue;
                }
                if o == WITHCAP || true {
                    return Err(format!("{}: panicked: {msg}", desc()).into());
                }
                continue;
            }
        };
        if pan > 0 && matches!(out, Out::Taken(_)) {
            // fallthrough: no panic point reached
        }
        let is_err = matches!(out, Out::Err | Out::Back(_));
        // sizes that no allocator can provide
        let want_total = match o {
            RESERVE => n.checked_add(arg),
            RESIZE_WITH | RESIZE_NC | RESIZE_CP => Some(arg),
            WITHCAP | FROM_ELEM => Some(arg),
            _ => Some(0),
        };
        let impossible = match want_total {
            None => true,
            Some(t) => huge && !zst && t > n,
        };
        tr!("{} -> {}", desc(), if is_err { "Err" } else { "Ok" });
        if matches!(out, Out::NA) {
            drop_in_sut(other);
            drop_in_sut(nested);
            continue;
        }
        if exp_panic_op && !is_err {
            return Err(format!("{}: accepted an index beyond the length {n}", desc()).into());
        }
        if flag(CLASS) {
            if failing || impossible {
                ensure!(is_err, "{}: reported success although {}", desc(),
                    if nref > 0 { "memory was refused" } else if impossible { "the size is impossible" } else { "an element clone failed" });
            } else {
                ensure!(!is_err, "{}: reported an error although nothing was refused", desc());
            }
        }
        if is_err {
            let replaced = matches!(o, TRYCLONE | WITHCAP | CONCAT | FROMSLICE | COLLECT | FROM_ELEM);
            if flag(ERR_CONTENT) {
                if let Out::Back(e) = &out {
                    ensure!(e.key() == T::norm(key), "{}: gave back a different value", desc());
                    ensure!(e.id() == given_id, "{}: gave back a different object", desc());
                }
                if clone_failed && !replaced && nref == 0 {
                    // old elements, then a prefix of the new ones
                    let now = sync(c.s());
                    ensure!(now.len() >= n, "{}: lost elements", desc());
                    agree(&c.s()[..n], &before, &desc())?;
                    let newk: Vec<u32> = match o {
                        RESIZE_NC => vec![T::norm(key); arg.min(n + 64).saturating_sub(n)],
                        _ => em.iter().map(|e| e.key).collect(),
                    };
                    ensure!(now.len() - n <= newk.len(), "{}: too many elements", desc());
                    for (i, e) in now[n..].iter().enumerate() {
                        ensure!(e.key == newk[i], "{}: element {i} after the old ones is {}, expected {}", desc(), e.key, newk[i]);
                    }
                } else {
                    agree(c.s(), &before, &format!("{} failed but changed the vector", desc()))?;
                }
                if o != COLLECT {
                    agree(other.s(), &em, &format!("{} failed but changed its argument", desc()))?;
                }
            }
            m = sync(c.s());
            failed_before = true;
            drop_in_sut(out);
            drop_in_sut(other);
            drop_in_sut(nested);
            if flag(REQS) {
                reserved = None;
            }
            continue;
        }
        // success: what std would do
        let mut want = before.clone();
        let mut newc: Option<C<T>> = None;
        let mut taken: Option<Vec<T>> = None;
        match out {
            Out::New(x) => newc = Some(x),
            Out::Taken(x) => taken = Some(x),
            _ => {}
        }
        let nk = T::norm(key);
        let mut added = 0usize;
        match o {
            PUSH | PUSHGB => {
                want.push(M { key: nk, id: given_id });
                added = 1;
            }
            INSERT => {
                want.insert(arg, M { key: nk, id: given_id });
                added = 1;
            }
            APPEND => {
                added = em.len();
                want.extend(em.iter().cloned());
                if flag(OK_CONTENT) {
                    ensure!(other.s().is_empty(), "append: the other vector is not empty afterwards");
                }
            }
            RESIZE_WITH => {
                if arg <= n {
                    want.truncate(arg)
                } else {
                    added = arg - n;
                    for i in 1..=added {
                        want.push(M { key: T::norm(gen_base + i as u32), id: None });
                    }
                }
            }
            RESIZE_NC | RESIZE_CP => {
                added = arg.saturating_sub(n);
                want.resize(arg, M { key: nk, id: None });
            }
            EXT_NC | EXT_CP | WRITE => {
                added = em.len();
                want.extend(em.iter().map(|e| M { key: e.key, id: None }));
                agree(other.s(), &em, "argument of extend")?;
            }
            POP => {
                let t = taken.as_ref().unwrap();
                let w = want.pop();
                if flag(OK_CONTENT) {
                    ensure!(t.len() == w.is_some() as usize, "pop returned the wrong kind of answer");
                    if let Some(w) = w {
                        agree(t, &[w], "popped element")?;
                    }
                }
            }
            INTOITER => {
                let t = taken.as_ref().unwrap();
                if flag(OK_CONTENT) {
                    agree(t, &want[..arg.min(n)], "into_iter")?;
                }
                want.clear();
            }
            CLEAR => want.clear(),
            SHRINK | RESERVE => {}
            TRYCLONE => want = before.iter().map(|e| M { key: e.key, id: None }).collect(),
            WITHCAP => want.clear(),
            CONCAT => want = pm.clone(),
            FROMSLICE => want = em.iter().map(|e| M { key: e.key, id: None }).collect(),
            COLLECT => want = em.clone(),
            FROM_ELEM => want = vec![M { key: nk, id: None }; arg],
            _ => {}
        }
        if newc.is_some() && matches!(o, TRYCLONE) && flag(OK_CONTENT) {
            agree(c.s(), &before, "source of try_clone")?;
            let nc = newc.as_ref().unwrap();
            if !zst && n > 0 {
                ensure!(nc.s().as_ptr() != c.s().as_ptr(), "try_clone shares storage with its source");
            }
            for (x, y) in nc.s().iter().zip(c.s()) {
                if let (Some(x), Some(y)) = (x.id(), y.id()) {
                    ensure!(x != y, "try_clone duplicated an element bitwise");
                }
            }
        }
        if let Some(nc) = newc {
            let old = std::mem::replace(&mut c, nc);
            drop_in_sut(old);
        }
        if flag(OK_CONTENT) {
            agree(c.s(), &want, &desc())?;
        }
        drop_in_sut(taken);
        drop_in_sut(other);
        drop_in_sut(nested);
        let _ = (ncl, failed_before);
        if flag(REQS) && fault == 0 {
            if matches!(o, PUSH | PUSHGB | INSERT | APPEND | RESIZE_WITH | RESIZE_NC | RESIZE_CP | EXT_NC | EXT_CP | WRITE) && added > 0 && n + added <= cap0 {
                // APPEND counts no request of its own
                ensure!(nreq == 0 || zst && o == INTOITER, "{}: {nreq} memory request(s) although length {n} + {added} fits capacity {cap0}", desc());
                nontrivial();
            }
            if let Some(free) = reserved {
                if added > 0 && added <= free {
                    ensure!(nreq == 0, "{}: {nreq} memory request(s) although {free} more elements had been reserved", desc());
                    nontrivial();
                }
            }
            match o {
                RESERVE => {
                    if n + arg <= cap0 {
                        ensure!(nreq == 0, "reserve({arg}) requested memory although capacity {cap0} suffices for length {n}");
                    }
                    reserved = Some(arg.max(reserved.unwrap_or(0)));
                    if !zst {
                        ensure!(real_cap(&c) >= n + arg, "capacity {} after reserving {arg} at length {n}", real_cap(&c));
                    }
                }
                WITHCAP => {
                    reserved = Some(arg);
                    if let C::V(v) = &c {
                        ensure!(v.capacity() >= arg, "with_capacity({arg}) gave {}", v.capacity());
                    }
                    ensure!(nreq <= 1, "with_capacity made {nreq} requests");
                }
                SHRINK | TRYCLONE | CONCAT | FROMSLICE | COLLECT | FROM_ELEM | INTOITER => reserved = None,
                POP => reserved = reserved.map(|x| x.saturating_add((n > 0) as usize)),
                CLEAR => reserved = reserved.map(|x| x.saturating_add(n)),
                RESIZE_WITH | RESIZE_CP | RESIZE_NC if arg < n => reserved = reserved.map(|x| x.saturating_add(n - arg)),
                _ => reserved = reserved.map(|x| x.saturating_sub(added)).filter(|x| *x > 0),
            }
            if matches!(o, PUSH | PUSHGB | INSERT | APPEND | RESIZE_WITH | RESIZE_NC | EXT_NC | EXT_CP | RESERVE) {
                ensure!(nreq <= 1, "{}: {nreq} memory requests", desc());
            }
        }
        m = sync(c.s());
        state(hash64([w[1] as u64, api as u64, m.len() as u64, real_cap(&c) as u64, reserved.map_or(0, |x| (x as u64).saturating_add(1))]));
        match o {
            ITERS | COMPARE | MUTATE => views(&mut c, &mut m)?,
            _ => {}
        }
    }
    views(&mut c, &mut m)?;
    drop_in_sut(c);
    if [std::any::TypeId::of::<Zst>(), std::any::TypeId::of::<Tiny>()].contains(&std::any::TypeId::of::<T>()) && !LEAKOK.with(|x| x.replace(false)) {
        ensure!(zst_live() == 0 || r().fired, "{} counted element(s) not destroyed", zst_live());
    }
    Ok(())
}
thread_local!(static LEAKOK: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
fn next_key_peek(f: &mut impl FnMut() -> u32) -> u32 {
    let a = f();
    for _ in 0..24 {
        f();
    }
    a
}
pub fn drop_in_sut<X>(x: X) {
    sut(move || drop(x))
}

/// read-only and in-place views of the vector agree with its contents
fn views<T: Elt>(c: &mut C<T>, m: &mut Vec<M>) -> Res {
    if !flag(OK_CONTENT) {
        let _ = sync(c.s());
        return Ok(());
    }
    agree(c.s(), m, "contents")?;
    if let C::W(v) = c {
        ensure!(v.len() == m.len() && v.is_empty() == m.is_empty(), "len/is_empty disagree");
        let mut it = v.iter();
        for i in 0..=m.len() {
            ensure!(it.size_hint() == (m.len() - i, Some(m.len() - i)), "iter size_hint {:?} with {} left", it.size_hint(), m.len() - i);
            match it.next() {
                Some(e) => ensure!(i < m.len() && e.key() == m[i].key, "iter step {i}"),
                None => ensure!(i == m.len(), "iter ended after {i}"),
            }
        }
        ensure!(it.next().is_none(), "iter yields after its end");
        let k: Vec<u32> = (&*v).into_iter().map(|e| e.key()).collect();
        ensure!(k == m.iter().map(|e| e.key).collect::<Vec<_>>(), "&TryVec iteration");
        let mut i = 0;
        let n = m.len();
        let mut im = v.iter_mut();
        ensure!(im.size_hint() == (n, Some(n)), "iter_mut size_hint");
        while let Some(e) = im.next() {
            ensure!(i < n && e.key() == m[i].key, "iter_mut step {i}");
            i += 1;
        }
        ensure!(i == n, "iter_mut ended after {i}");
        drop(im);
        let keys: Vec<u32> = m.iter().map(|e| e.key).collect();
        if n <= 3 || n == 5 {
            crate::iters::rest(&|| v.iter(), &|e: &T| e.key(), &keys, "TryVec iter")?;
            let p: *mut TryVec<T> = v;
            // one at a time
            crate::iters::rest(&|| unsafe { &mut *p }.iter_mut(), &|e: &mut T| e.key(), &keys, "TryVec iter_mut")?;
        }
        agree(v.as_slice(), m, "as_slice")?;
        agree(v.as_mut_slice(), m, "as_mut_slice")?;
        let d1 = format!("{:?}", v);
        let d2 = format!("{:?}", v.as_slice());
        ensure!(d1 == d2, "Debug of TryVec {d1} differs from that of its slice {d2}");
    }
    Ok(())
}

// ---------------------------------------------------------------- enumeration

/// every (operation, argument) within the bound for a vector api
pub fn ops(api: u32, ty: u32, amax: u32, huge: bool) -> Vec<(u32, u32)> {
    let mut v = Vec::new();
    let tracked = matches!(ty, 0 | 3 | 14..=16);
    v.push((PUSH, 0));
    for a in 0..=amax {
        v.push((RESERVE, a));
        v.push((RESIZE_WITH, a));
        v.push((EXT_NC, a));
        if api == 0 {
            v.push((RESIZE_NC, a));
            v.push((INSERT, a));
            if !tracked {
                v.push((RESIZE_CP, a));
                v.push((EXT_CP, a));
            }
        } else if ty == 1 {
            v.push((WRITE, a));
        }
        v.push((WITHCAP, a));
    }
    for q in 0..=amax.min(3) {
        for spare in [0, 2] {
            v.push((APPEND, q | spare << 4));
        }
    }
    v.push((POP, 0));
    v.push((CLEAR, 0));
    v.push((TRYCLONE, 0));
    for a in [0, 1, amax] {
        v.push((INTOITER, a));
        if api == 0 {
            v.push((COLLECT, a));
            v.push((FROM_ELEM, a));
        } else {
            v.push((FROMSLICE, a));
        }
    }
    if api == 0 {
        v.push((PUSHGB, 0));
        v.push((SHRINK, 0));
    } else {
        for parts in [0u32, 1 << 6, 1 << 6 | 2, 2 << 6 | 1 | 2 << 2, 3 << 6 | 2 | 0 << 2 | 1 << 4, 3 << 6 | 0 | 3 << 2 | 1 << 4, 3 << 6] {
            v.push((CONCAT, parts));
        }
    }
    if huge {
        for a in HUGE {
            v.push((RESERVE, a));
            if !(ty == 3 || ty == 11) {
                v.push((WITHCAP, a));
                v.push((RESIZE_WITH, a));
                if api == 0 {
                    v.push((RESIZE_NC, a));
                    if !tracked {
                        v.push((RESIZE_CP, a));
                    }
                    if ty != 12 {
                        v.push((FROM_ELEM, a));
                    }
                }
            }
        }
    }
    v
}
pub fn needs_mem(o: u32) -> bool {
    !matches!(o, POP | CLEAR | SHRINK | INTOITER | ITERS | COMPARE | MUTATE)
}
pub fn clones(o: u32) -> bool {
    matches!(o, RESIZE_NC | EXT_NC | TRYCLONE | CONCAT | FROMSLICE | FROM_ELEM)
}
/// start states: capacity and length
pub fn starts(maxlen: u32, spare: &[u32]) -> Vec<(u32, u32)> {
    let mut v = Vec::new();
    for len in 0..=maxlen {
        for s in spare {
            v.push((len + s, len));
        }
    }
    v
}
/// Programs with no faults up to `depth` operations.
pub fn plain(e: &Eng, fam: u32, tys: &[u32], amax: u32, maxlen: u32, depth: u32) {
    for &ty in tys {
        for api in 0..2 {
            let os = ops(api, ty, amax, false);
            let ss = starts(maxlen, &[0, 1, 2, 4]);
            let n0 = e.cases_so_far();
            let total = ss.len() * os.len();
            e.par(total, |i| {
                let s = ss[i / os.len()];
                let o1 = os[i % os.len()];
                let base = vec![fam, ty, api, s.0, s.1, o1.0, o1.1, 0, 0];
                if depth == 1 {
                    e.case(&base);
                    return;
                }
                for o2 in &os {
                    let mut w = base.clone();
                    w.extend([o2.0, o2.1, 0, 0]);
                    if depth == 2 {
                        e.case(&w);
                    } else {
                        for o3 in &os {
                            let mut w = w.clone();
                            w.extend([o3.0, o3.1, 0, 0]);
                            e.case(&w);
                        }
                    }
                }
            });
            e.section(&format!("programs of {depth} ops, type {ty}, api {api}"), e.cases_so_far() - n0);
        }
    }
}
/// pre-op, faulted op, follow-up op
pub fn faulted(e: &Eng, fam: u32, tys: &[u32], amax: u32, maxlen: u32, pre: bool, post: bool, kmax: u32) {
    for &ty in tys {
        for api in 0..2 {
            let os = ops(api, ty, amax, true);
            let light: Vec<(u32, u32)> = os.iter().copied().filter(|o| o.1 <= 1 || o.1 == amax || o.0 == CONCAT && o.1 > 200).filter(|o| !is_huge(*o)).collect();
            let ss = starts(maxlen, &[0, 1, 3]);
            let n0 = e.cases_so_far();
            let pres: Vec<Option<(u32, u32)>> = if pre { std::iter::once(None).chain(light.iter().map(|x| Some(*x))).collect() } else { vec![None] };
            e.par(ss.len() * os.len(), |i| {
                let s = ss[i / os.len()];
                let o = os[i % os.len()];
                if !needs_mem(o.0) {
                    return;
                }
                let mut faults: Vec<u32> = Vec::new();
                for k in 0..kmax {
                    faults.push(1 + 2 * k);
                    faults.push(2 + 2 * k);
                }
                if is_huge(o) {
                    faults = vec![0];
                } else if clones(o.0) {
                    for k in 0..(amax + maxlen + 1).min(6) {
                        faults.push(1000 + k);
                    }
                }
                for p in &pres {
                    for f in &faults {
                        let mut w = vec![fam, ty, api, s.0, s.1];
                        if let Some(p) = p {
                            w.extend([p.0, p.1, 0, 0]);
                        }
                        w.extend([o.0, o.1, *f, 0]);
                        if !post {
                            e.case(&w);
                            continue;
                        }
                        for q in &light {
                            let mut w = w.clone();
                            w.extend([q.0, q.1, 0, 0]);
                            e.case(&w);
                        }
                    }
                }
            });
            e.section(&format!("refused memory / failing clones, type {ty}, api {api}"), e.cases_so_far() - n0);
        }
    }
}
/// panicking caller code
pub fn panicking(e: &Eng, fam: u32, tys: &[u32], amax: u32, maxlen: u32, kmax: u32) {
    for &ty in tys {
        for api in 0..2 {
            let os = ops(api, ty, amax, false);
            let light: Vec<(u32, u32)> = os.iter().copied().filter(|o| o.1 <= 1 || o.1 == amax).collect();
            let ss = starts(maxlen, &[0, 2]);
            let n0 = e.cases_so_far();
            e.par(ss.len() * os.len(), |i| {
                let s = ss[i / os.len()];
                let o = os[i % os.len()];
                for pan in 1..=2 * kmax {
                    for q in &light {
                        e.case(&[fam, ty, api, s.0, s.1, o.0, o.1, 0, pan, q.0, q.1, 0, 0]);
                    }
                }
                // together with a refused request or a refused element
                for fault in [1, 3, 5, 1000, 1001, 1002, 1003] {
                    if if fault < 1000 { !needs_mem(o.0) } else { !clones(o.0) } {
                        continue;
                    }
                    for pan in (2..=2 * kmax).step_by(2) {
                        for q in [(PUSH, 0), (EXT_NC, 2), (TRYCLONE, 0)] {
                            e.case(&[fam, ty, api, s.0, s.1, o.0, o.1, fault, pan, q.0, q.1, 0, 0]);
                        }
                    }
                }
            });
            e.section(&format!("panicking clone/generator/destructor, type {ty}, api {api}"), e.cases_so_far() - n0);
        }
    }
}
