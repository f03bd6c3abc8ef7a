//! Operations the wrapper types offer through standard traits. Which of these traits a wrapper
//! implements is found out by the compiler (method resolution prefers the first of two impls that
//! applies); every operation that is offered is then executed from every small start state. A trait
//! method that cannot return an error must not ask for memory; one that can must report refusals.
use crate::engine::*;
use crate::{ensure, tr};
#[cfg(not(feature = "unstable"))]
use fallible_collections::TryHashMap;
use fallible_collections::{TryBox, TryVec};
use std::cell::RefCell;
use std::fmt::{Debug, Write as _};
use std::rc::Rc;
use std::sync::Arc;

/// a wrapper, items for it, and a second wrapper
struct P<S, I>(RefCell<Option<(S, Vec<I>, S)>>);
pub enum Did {
    NotOffered,
    /// cannot report failure
    Plain,
    /// returned a result: whether it was Ok
    Said(bool),
}
use Did::*;

macro_rules! probes {
    ($($n:literal $go:ident $yes:ident $no:ident [$($g:tt)*] |$s:ident, $i:ident, $t:ident| $body:expr;)*) => {
        $(
            trait $yes { fn $go(&self) -> Did; }
            trait $no { fn $go(&self) -> Did { NotOffered } }
            impl<S, I> $no for &P<S, I> {}
            impl<S, I> $yes for P<S, I> where $($g)* {
                #[allow(unused_mut, unused_variables, unused_braces)]
                fn $go(&self) -> Did {
                    let (mut $s, $i, mut $t) = self.0.borrow_mut().take().unwrap();
                    $body
                }
            }
        )*
        pub const NAMES: &[&str] = &[$($n),*];
        macro_rules! dispatch {
            ($p:expr, $op:expr) => {{
                let p = $p;
                let fs: &[&dyn Fn() -> Did] = &[$(&|| (&p).$go()),*];
                fs[$op]()
            }};
        }
    };
}
pub trait Pair {
    type A;
    type B;
    fn refs(&self) -> (&Self::A, &Self::B);
}
impl<A, B> Pair for (A, B) {
    type A = A;
    type B = B;
    fn refs(&self) -> (&A, &B) {
        (&self.0, &self.1)
    }
}
struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
probes! {
    "Clone::clone" go_clone CloneY CloneN [S: Clone] |s, i, t| { drop(s.clone()); Plain };
    "Clone::clone_from" go_clonef ClonefY ClonefN [S: Clone] |s, i, t| { s.clone_from(&t); Plain };
    "Default::default" go_default DefaultY DefaultN [S: Default] |s, i, t| { drop(S::default()); Plain };
    "Extend<item>::extend" go_ext ExtY ExtN [S: Extend<I>] |s, i, t| { s.extend(i); Plain };
    "Extend<&item>::extend" go_extr ExtrY ExtrN [S: for<'x> Extend<&'x I>] |s, i, t| { s.extend(i.iter()); Plain };
    "FromIterator<item>::from_iter" go_fi FiY FiN [S: FromIterator<I>] |s, i, t| { drop(i.into_iter().collect::<S>()); Plain };
    "FromIterator<&item>::from_iter" go_fir FirY FirN [S: for<'x> FromIterator<&'x I>] |s, i, t| { drop(i.iter().collect::<S>()); Plain };
    "From<&[item]>" go_fs FsY FsN [S: for<'x> From<&'x [I]>] |s, i, t| { drop(S::from(&i[..])); Plain };
    "From<&mut [item]>" go_fms FmsY FmsN [S: for<'x> From<&'x mut [I]>] |s, i, t| { let mut i = i; drop(S::from(&mut i[..])); Plain };
    "From<[item; 3]>" go_fa FaY FaN [S: From<[I; 3]>] |s, i, t| { if let Ok(a) = <[I; 3]>::try_from(i) { drop(S::from(a)) } Plain };
    "From<&[item; 3]>" go_far FarY FarN [S: for<'x> From<&'x [I; 3]>] |s, i, t| { if let Ok(a) = <[I; 3]>::try_from(i) { drop(S::from(&a)) } Plain };
    "From<Vec<item>>" go_fv FvY FvN [S: From<Vec<I>>] |s, i, t| { drop(S::from(i)); Plain };
    "From<&Vec<item>>" go_fvr FvrY FvrN [S: for<'x> From<&'x Vec<I>>] |s, i, t| { drop(S::from(&i)); Plain };
    "From<&Self>" go_fself FselfY FselfN [S: for<'x> From<&'x S>] |s, i, t| { drop(S::from(&s)); Plain };
    "From<item>" go_f1 F1Y F1N [S: From<I>] |s, i, t| { let mut i = i; if let Some(x) = i.pop() { drop(S::from(x)) } Plain };
    "From<&item>" go_f1r F1rY F1rN [S: for<'x> From<&'x I>] |s, i, t| { if let Some(x) = i.last() { drop(S::from(x)) } Plain };
    "From<Box<[item]>>" go_fb FbY FbN [S: From<Box<[I]>>] |s, i, t| { drop(S::from(Vec::new().into_boxed_slice())); Plain };
    "From<Box<item>>" go_fbx FbxY FbxN [S: From<Box<I>>] |s, i, t| { Plain };
    "From<&str>" go_fstr FstrY FstrN [S: for<'x> From<&'x str>] |s, i, t| { drop(S::from(&"some text"[..i.len()])); Plain };
    "From<String>" go_fstring FstringY FstringN [S: From<String>] |s, i, t| { drop(S::from(String::new())); Plain };
    "Into<Vec<item>>" go_iv IvY IvN [S: Into<Vec<I>>] |s, i, t| { let v: Vec<I> = s.into(); drop(v); Plain };
    "Into<Box<[item]>>" go_ib IbY IbN [S: Into<Box<[I]>>] |s, i, t| { let v: Box<[I]> = s.into(); drop(v); Plain };
    "Into<Rc<[item]>>" go_ir IrY IrN [S: Into<Rc<[I]>>] |s, i, t| { let v: Rc<[I]> = s.into(); drop(v); Plain };
    "Into<Arc<[item]>>" go_ia IaY IaN [S: Into<Arc<[I]>>] |s, i, t| { let v: Arc<[I]> = s.into(); drop(v); Plain };
    "Into<Rc<item>>" go_ir1 Ir1Y Ir1N [S: Into<Rc<I>>] |s, i, t| { let v: Rc<I> = s.into(); drop(v); Plain };
    "Into<Arc<item>>" go_ia1 Ia1Y Ia1N [S: Into<Arc<I>>] |s, i, t| { let v: Arc<I> = s.into(); drop(v); Plain };
    "Add<Self>" go_add AddY AddN [S: std::ops::Add<S>] |s, i, t| { drop(s + t); Plain };
    "AddAssign<Self>" go_adda AddaY AddaN [S: std::ops::AddAssign<S>] |s, i, t| { s += t; Plain };
    "AddAssign<&[item]>" go_adds AddsY AddsN [S: for<'x> std::ops::AddAssign<&'x [I]>] |s, i, t| { s += &i[..]; Plain };
    "IntoIterator" go_ii IiY IiN [S: IntoIterator] |s, i, t| { drop(s.into_iter()); Plain };
    "IntoIterator for &" go_iir IirY IirN [for<'x> &'x S: IntoIterator] |s, i, t| { drop((&s).into_iter()); Plain };
    "IntoIterator for &mut" go_iim IimY IimN [for<'x> &'x mut S: IntoIterator] |s, i, t| { drop((&mut s).into_iter()); Plain };
    "Debug::fmt" go_debug DebugY DebugN [S: Debug] |s, i, t| { Said(write!(Sink(0), "{s:?}").is_ok()) };
    "PartialEq" go_eq EqY EqN [S: PartialEq] |s, i, t| { std::hint::black_box(s == t); Plain };
    "PartialEq<Vec<item>>" go_eqv EqvY EqvN [S: PartialEq<Vec<I>>] |s, i, t| { std::hint::black_box(s == i); Plain };
    "PartialOrd" go_ord OrdY OrdN [S: PartialOrd] |s, i, t| { std::hint::black_box(s < t); Plain };
    "Hash" go_hash HashY HashN [S: std::hash::Hash] |s, i, t| { let mut h = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut h); Plain };
    "fmt::Write" go_fw FwY FwN [S: std::fmt::Write] |s, i, t| { Said(s.write_str(&"other text"[..i.len()]).is_ok()) };
    "io::Write" go_iw IwY IwN [S: std::io::Write] |s, i, t| { Said(s.write_all(&b"more bytes"[..i.len()]).is_ok()) };
    "Extend<(&key, &value)>" go_expr ExprY ExprN [I: Pair, S: for<'x> Extend<(&'x <I as Pair>::A, &'x <I as Pair>::B)>] |s, i, t| { s.extend(i.iter().map(|p| p.refs())); Plain };
    "Extend<Self>" go_exs ExsY ExsN [S: Extend<S>] |s, i, t| { s.extend(Some(t)); Plain };
    "FromIterator<Self>" go_fis FisY FisN [S: FromIterator<S>] |s, i, t| { drop([s, t].into_iter().collect::<S>()); Plain };
    "FromIterator<char>" go_fic FicY FicN [S: FromIterator<char>] |s, i, t| { drop("some text"[..i.len()].chars().collect::<S>()); Plain };
    "Extend<char>" go_exc ExcY ExcN [S: Extend<char>] |s, i, t| { s.extend("some text"[..i.len()].chars()); Plain };
    "Extend<&str>" go_exstr ExstrY ExstrN [S: for<'x> Extend<&'x str>] |s, i, t| { s.extend(["some text"]); Plain };
    "FromStr" go_fromstr FromstrY FromstrN [S: std::str::FromStr] |s, i, t| { Said("some text"[..i.len()].parse::<S>().is_ok()) };
    "From<char>" go_fchar FcharY FcharN [S: From<char>] |s, i, t| { drop(S::from('x')); Plain };
    "From<Cow<[item]>>" go_fcow FcowY FcowN [I: Clone, S: for<'x> From<std::borrow::Cow<'x, [I]>>] |s, i, t| { drop(S::from(std::borrow::Cow::Borrowed(&i[..]))); Plain };
    "From<LinkedList<item>>" go_fll FllY FllN [S: From<std::collections::LinkedList<I>>] |s, i, t| { drop(S::from(std::collections::LinkedList::new())); Plain };
    "From<VecDeque<item>>" go_fvd FvdY FvdN [S: From<std::collections::VecDeque<I>>] |s, i, t| { drop(S::from(std::collections::VecDeque::from(i))); Plain };
    "From<vec::IntoIter<item>>" go_fvi FviY FviN [S: From<std::vec::IntoIter<I>>] |s, i, t| { let mut i = i.into_iter(); i.next(); drop(S::from(i)); Plain };
    "Into<VecDeque<item>>" go_ivd IvdY IvdN [S: Into<std::collections::VecDeque<I>>] |s, i, t| { let v: std::collections::VecDeque<I> = s.into(); drop(v); Plain };
    "Into<BinaryHeap<item>>" go_ibh IbhY IbhN [S: Into<std::collections::BinaryHeap<I>>] |s, i, t| { let v: std::collections::BinaryHeap<I> = s.into(); drop(v); Plain };
    "Into<Box<item>>" go_ibx IbxY IbxN [S: Into<Box<I>>] |s, i, t| { let v: Box<I> = s.into(); drop(v); Plain };
    "Into<std::pin::Pin<Box<item>>>" go_ipin IpinY IpinN [S: Into<std::pin::Pin<Box<I>>>] |s, i, t| { let v: std::pin::Pin<Box<I>> = s.into(); drop(v); Plain };
    "Into<String>" go_istr IstrY IstrN [S: Into<String>] |s, i, t| { let v: String = s.into(); drop(v); Plain };
    "ToOwned" go_own OwnY OwnN [S: ToOwned] |s, i, t| { drop(s.to_owned()); Plain };
    "Sum" go_sum SumY SumN [S: std::iter::Sum<S>] |s, i, t| { drop([s, t].into_iter().sum::<S>()); Plain };
    "BitOr<Self>" go_bor BorY BorN [S: std::ops::BitOr<S>] |s, i, t| { drop(s | t); Plain };
    "BitOrAssign<Self>" go_bora BoraY BoraN [S: std::ops::BitOrAssign<S>] |s, i, t| { s |= t; Plain };
    "Mul<usize>" go_mul MulY MulN [S: std::ops::Mul<usize>] |s, i, t| { drop(s * i.len()); Plain };
    "Deref" go_deref DerefY DerefN [S: std::ops::Deref] |s, i, t| { std::hint::black_box(&*s); Plain };
    "DerefMut" go_derefm DerefmY DerefmN [S: std::ops::DerefMut] |s, i, t| { std::hint::black_box(&mut *s); Plain };
    "AsRef<[item]>" go_ar ArY ArN [S: AsRef<[I]>] |s, i, t| { std::hint::black_box(s.as_ref()); Plain };
    "AsMut<[item]>" go_am AmY AmN [S: AsMut<[I]>] |s, i, t| { std::hint::black_box(s.as_mut()); Plain };
    "Borrow<[item]>" go_bw BwY BwN [S: std::borrow::Borrow<[I]>] |s, i, t| { std::hint::black_box(std::borrow::Borrow::<[I]>::borrow(&s)); Plain };
    "PartialEq<[item]>" go_eqs EqsY EqsN [S: PartialEq<[I]>] |s, i, t| { std::hint::black_box(s == i[..]); Plain };
    "PartialEq<&[item]>" go_eqsr EqsrY EqsrN [S: for<'x> PartialEq<&'x [I]>] |s, i, t| { std::hint::black_box(s == &i[..]); Plain };
    "PartialEq<&str>" go_eqt EqtY EqtN [S: for<'x> PartialEq<&'x str>] |s, i, t| { std::hint::black_box(s == &"some text"[..i.len()]); Plain };
    "PartialEq<item>" go_eqi EqiY EqiN [S: PartialEq<I>] |s, i, t| { if let Some(x) = i.last() { std::hint::black_box(s == *x); } Plain };
    "Ord" go_ord2 Ord2Y Ord2N [S: Ord] |s, i, t| { std::hint::black_box(s.cmp(&t)); Plain };
    "io::Write::write_vectored" go_iwv IwvY IwvN [S: std::io::Write] |s, i, t| { Said(s.write_vectored(&[std::io::IoSlice::new(&b"more bytes"[..i.len()])]).is_ok()) };
    "io::Write::write_fmt" go_iwf IwfY IwfN [S: std::io::Write] |s, i, t| { Said(s.write_fmt(format_args!("{}", &"more bytes"[..i.len()])).is_ok()) };
    "io::Write::flush" go_iwfl IwflY IwflN [S: std::io::Write] |s, i, t| { Said(s.flush().is_ok()) };
    "Display" go_disp DispY DispN [S: std::fmt::Display] |s, i, t| { Said(write!(Sink(0), "{s}").is_ok()) };
    "TryFrom<&str>" go_tfs TfsY TfsN [S: for<'x> TryFrom<&'x str>] |s, i, t| { let r = S::try_from(&"some text"[..i.len()]); let ok = r.is_ok(); drop(r); Said(ok) };
    "TryFrom<&Vec<item>>" go_tfv TfvY TfvN [S: for<'x> TryFrom<&'x Vec<I>>] |s, i, t| { let r = S::try_from(&i); let ok = r.is_ok(); drop(r); Said(ok) };
    "TryFrom<[item; 3]>" go_tf3 Tf3Y Tf3N [S: TryFrom<[I; 3]>] |s, i, t| { match <[I; 3]>::try_from(i) { Ok(a) => Said(S::try_from(a).is_ok()), _ => Plain } };
    "TryFrom<item>" go_tf1 Tf1Y Tf1N [S: TryFrom<I>] |s, i, t| { let mut i = i; match i.pop() { Some(a) => Said(S::try_from(a).is_ok()), _ => Plain } };
    "TryInto<Box<[item]>>" go_tib TibY TibN [S: TryInto<Box<[I]>>] |s, i, t| { let r: Result<Box<[I]>, _> = s.try_into(); Said(r.is_ok()) };
    "TryFrom<&[item]>" go_tf TfY TfN [S: for<'x> TryFrom<&'x [I]>] |s, i, t| { let r = S::try_from(&i[..]); let ok = r.is_ok(); drop(r); Said(ok) };
    "TryClone" go_tc TcY TcN [S: fallible_collections::TryClone] |s, i, t| { Said(s.try_clone().is_ok()) };
}
macro_rules! types {
    ($($n:literal $S:ty, $I:ty, $item:expr, $make:expr;)*) => {
        const TYPES: &[&str] = &[$($n),*];
        fn go(ty: usize, op: usize, len: usize, spare: usize, args: usize, mode: u8) -> (Did, u64, u64) {
            let mut at = 0;
            $(
                if { at += 1; at - 1 == ty } {
                    let item: fn(usize) -> $I = $item;
                    let make: fn(usize, usize, fn(usize) -> $I) -> $S = $make;
                    let p = P::<$S, $I>(RefCell::new(Some(sut(|| (make(len, spare, item), items(args, spare, item), make(len + 1, 0, item))))));
                    return sut_fault(mode, 0, || dispatch!(p, op));
                }
            )*
            let _ = at;
            unreachable!()
        }
    };
}
fn vec_of<I>(n: usize, spare: usize, item: fn(usize) -> I) -> TryVec<I> {
    let mut v = TryVec::with_capacity(n + spare).unwrap();
    for i in 0..n {
        v.push(item(i)).unwrap();
    }
    v
}
fn items<I>(n: usize, spare: usize, item: fn(usize) -> I) -> Vec<I> {
    let mut v = Vec::with_capacity(n + spare);
    v.extend((0..n).map(item));
    v
}
fn text(i: usize) -> String {
    format!("item {i}")
}
fn bytes(i: usize) -> TryVec<u8> {
    vec_of(i % 3, 0, |i| i as u8)
}
#[cfg(not(feature = "unstable"))]
fn map_of<K: Eq + std::hash::Hash, V>(n: usize, spare: usize, item: fn(usize) -> (K, V)) -> TryHashMap<K, V> {
    let mut m = TryHashMap::with_capacity(n + spare).unwrap();
    for i in 0..n {
        let (k, v) = item(i);
        m.insert(k, v).unwrap();
    }
    m
}
#[cfg(feature = "unstable")]
types! {
    "TryVec<u8>" TryVec<u8>, u8, |i| i as u8, vec_of;
    "TryVec<u64>" TryVec<u64>, u64, |i| i as u64, vec_of;
    "TryVec<String>" TryVec<String>, String, text, vec_of;
    "TryVec<TryVec<u8>>" TryVec<TryVec<u8>>, TryVec<u8>, bytes, vec_of;
    "TryBox<u64>" TryBox<u64>, u64, |i| i as u64, |_, _, f| TryBox::try_new(f(1)).unwrap();
    "TryBox<String>" TryBox<String>, String, text, |n, _, f| TryBox::try_new(f(n)).unwrap();
    "TryBox<TryVec<u8>>" TryBox<TryVec<u8>>, TryVec<u8>, bytes, |n, _, f| TryBox::try_new(f(n)).unwrap();
    "TryBox<[u64; 4]>" TryBox<[u64; 4]>, [u64; 4], |i| [i as u64; 4], |n, _, f| TryBox::try_new(f(n)).unwrap();
}
#[cfg(not(feature = "unstable"))]
types! {
    "TryVec<u8>" TryVec<u8>, u8, |i| i as u8, vec_of;
    "TryVec<u64>" TryVec<u64>, u64, |i| i as u64, vec_of;
    "TryVec<String>" TryVec<String>, String, text, vec_of;
    "TryVec<TryVec<u8>>" TryVec<TryVec<u8>>, TryVec<u8>, bytes, vec_of;
    "TryBox<u64>" TryBox<u64>, u64, |i| i as u64, |_, _, f| TryBox::try_new(f(1)).unwrap();
    "TryBox<String>" TryBox<String>, String, text, |n, _, f| TryBox::try_new(f(n)).unwrap();
    "TryBox<TryVec<u8>>" TryBox<TryVec<u8>>, TryVec<u8>, bytes, |n, _, f| TryBox::try_new(f(n)).unwrap();
    "TryBox<[u64; 4]>" TryBox<[u64; 4]>, [u64; 4], |i| [i as u64; 4], |n, _, f| TryBox::try_new(f(n)).unwrap();
    "TryHashMap<u32, u64>" TryHashMap<u32, u64>, (u32, u64), |i| (i as u32, 7), map_of;
    "TryHashMap<String, u8>" TryHashMap<String, u8>, (String, u8), |i| (text(i), 7), map_of;
}
/// words: [family, type, operation, length, spare room, items given, 0 memory available / 2 all refused]
pub fn case(w: &[u32]) -> Res {
    let (ty, op, mode) = (w[1] as usize, w[2] as usize, w[6] as u8);
    let (did, nreq, nref) = go(ty, op, w[3] as usize, w[4] as usize, w[5] as usize, mode);
    let name = format!("{} of {} of {} entries with room for {} more, {} items given", NAMES[op], TYPES[ty], w[3], w[4], w[5]);
    if !matches!(did, NotOffered) {
        state(hash64(w.iter().map(|x| *x as u64).chain([nreq])));
    }
    match did {
        NotOffered => {
            tr!("{name}: not offered");
            count("probes of traits that are not implemented", 1);
        }
        Plain => {
            step();
            nontrivial();
            tr!("{name}: {nreq} memory requests");
            count("executions of offered operations", 1);
            ensure!(nreq == 0, "{name}: made {nreq} memory request(s) whose failure it has no way to report");
        }
        Said(ok) => {
            step();
            nontrivial();
            tr!("{name}: {nreq} memory requests, {nref} refused, ok: {ok}");
            count("executions of offered operations", 1);
            ensure!(ok == (nref == 0), "{name}: {nref} memory requests were refused, yet it reports {}", if ok { "success" } else { "failure" });
        }
    }
    Ok(())
}
pub fn all(e: &Eng, fam: u32) {
    let n = if e.thorough { 20 } else { 7 };
    let mut cs = vec![];
    for ty in 0..TYPES.len() as u32 {
        for op in 0..NAMES.len() as u32 {
            for len in 0..=n {
                for spare in [0, 1, 2, 5, 16] {
                    for args in 0..=n.min(9) {
                        cs.push(vec![fam, ty, op, len, spare, args, 0]);
                        // an operation that cannot report failure is judged by the requests it makes
                        if ["Debug", "fmt::Write", "io::Write", "Try", "FromStr", "Display"].iter().any(|p| NAMES[op as usize].starts_with(p)) {
                            cs.push(vec![fam, ty, op, len, spare, args, 2]);
                        }
                    }
                }
            }
        }
    }
    e.all("operations offered through standard traits, from each small state", cs);
}
