//! Equality and printing of fallible vectors; order of B-tree maps and sets over every pair of small contents.
use crate::elem::*;
use crate::engine::*;
use crate::{ensure, tr};
use fallible_collections::TryVec;

/// contents and spare capacity from one word
fn digits(mut x: u32, base: u32) -> Vec<u32> {
    let mut v = vec![];
    while x > 0 {
        x -= 1;
        v.push(x % base);
        x /= base;
    }
    v
}
fn tv<T>(xs: Vec<T>, spare: usize) -> TryVec<T> {
    let mut t = sut(|| TryVec::with_capacity(xs.len() + spare)).ok().expect("with_capacity");
    for x in xs {
        sut(|| t.push(x)).ok().expect("push");
    }
    t
}
fn forms<T: PartialEq + std::fmt::Debug>(mk: impl Fn(u32) -> T, a: &[u32], b: &[u32], spare: usize) -> Res {
    let xs = || a.iter().map(|x| mk(*x)).collect::<Vec<T>>();
    let ys = || b.iter().map(|x| mk(*x)).collect::<Vec<T>>();
    let (vx, vy) = (xs(), ys());
    let (x, y) = (tv(xs(), spare), tv(ys(), 0));
    let want = vx == vy;
    step();
    ensure!((x == y) == want && (x != y) == !want && (y == x) == want, "vectors {vx:?} and {vy:?} compare {}", x == y);
    ensure!((x == vy) == want && (x != vy) == !want, "a fallible vector {vx:?} and a Vec {vy:?} compare {}", x == vy);
    ensure!((x == &vy[..]) == want && (x != &vy[..]) == !want, "a fallible vector {vx:?} and a slice {vy:?} compare {}", x == &vy[..]);
    ensure!((y == &vx[..]) == want && (y == vx) == want, "comparison is not symmetric");
    ensure!(format!("{x:?}") == format!("{vx:?}") && format!("{x:#?}") == format!("{vx:#?}"), "a fallible vector of {vx:?} prints {x:?}");
    ensure!(format!("{y:3?}") == format!("{vy:3?}") && format!("{x:02x?}") == format!("{vx:02x?}"), "printing ignores the requested format");
    drop((x, y)); // the elements may own harness memory
    Ok(())
}
/// words: family, sub, a, b
pub fn case(w: &[u32]) -> Res {
    nontrivial();
    state(hash64(w.iter().map(|x| *x as u64)));
    match w[1] {
        0 => {
            let (a, b) = (digits(w[2], 3), digits(w[3], 3));
            tr!("fallible vectors of {a:?} and {b:?}");
            let sp = (w[2] + w[3]) as usize % 5;
            forms(El::new, &a, &b, sp)?;
            forms(|k| k as u8, &a, &b, sp)?;
            forms(|k| [1.0f64, f64::NAN, -0.0][k as usize], &a, &b, sp)?;
            forms(|k| [0.0f64, 1.5, -0.0][k as usize], &a, &b, sp)?;
            forms(|k| vec![k; k as usize], &a, &b, sp)?;
            forms(|_| (), &a, &b, sp)
        }
        1 => {
            // bytes against text
            let bytes: Vec<u8> = digits(w[2], 4).iter().map(|d| [b'a', b'b', 0xC3, 0xA9][*d as usize]).collect();
            let texts = ["", "a", "b", "ab", "é", "aé", "éa", "abab", "é", "\u{0}"];
            let t = tv(bytes.clone(), 1);
            for s in texts {
                let want = bytes == s.as_bytes();
                ensure!((t == s) == want && (t != s) == !want, "bytes {bytes:?} and text {s:?} compare {}", t == s);
                step();
            }
            let r: &[u8] = t.as_ref();
            ensure!(r == &bytes[..], "as_ref gives other bytes");
            sut(|| drop(t));
            Ok(())
        }
        3 => long(w[2] as usize, w[3]),
        #[cfg(feature = "unstable")]
        2 => trees(w),
        _ => Err("harness: unknown comparison case".into()),
    }
}
/// two vectors of n equal elements, and each element in turn changed in one of them
fn long(n: usize, kind: u32) -> Res {
    fn go<T: PartialEq + Clone + std::fmt::Debug>(n: usize, mk: impl Fn(u32) -> T) -> Res {
        let xs: Vec<T> = (0..n).map(|i| mk(i as u32 % 100)).collect();
        let x = tv(xs.clone(), 0);
        let mut y = tv(xs.clone(), 3);
        let mut ys = xs.clone();
        ensure!(x == y && x == xs && x == &xs[..], "equal vectors of {n} elements compare different");
        ensure!(format!("{x:?}") == format!("{xs:?}"), "a vector of {n} elements prints other than its contents");
        for i in (0..n).step_by(1 + n / 600) {
            y[i] = mk(100);
            ys[i] = mk(100);
            step();
            ensure!(x != y && !(x == y) && y != x && x != ys && x != &ys[..] && y == ys && y == &ys[..], "vectors of {n} elements that differ in element {i}: comparison");
            if n <= 300 {
                ensure!(format!("{y:?}") == format!("{ys:?}"), "a vector of {n} elements, changed at {i}, prints other than its contents");
            }
            y[i] = mk(i as u32 % 100);
            ys[i] = xs[i].clone();
        }
        if n > 0 {
            let z = tv(xs[..n - 1].to_vec(), 1);
            ensure!(z != x && x != z && x != &xs[..n - 1] && z != xs && x == y, "a vector of {n} elements equals one of one element less");
            drop(z)
        }
        drop((x, y));
        Ok(())
    }
    tr!("fallible vectors of {n} elements, kind {kind}");
    match kind {
        0 => go(n, |k| k as u8),
        1 => go(n, |k| k as u64),
        2 => go(n, |k| vec![k as u8; (k % 3) as usize + 1]),
        _ => {
            let t: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            let mut x = tv(t.as_bytes().to_vec(), 0);
            ensure!(x == t.as_str(), "bytes and the same text of length {n} differ");
            for i in (0..n).step_by(1 + n / 600) {
                x[i] ^= 32;
                ensure!(x != t.as_str() && !(x == t.as_str()), "bytes and a text of length {n} that differ at {i} compare equal");
                x[i] ^= 32;
            }
            if n > 0 {
                ensure!(x != &t[1..] && x != &t[..n - 1], "bytes of length {n} equal a shorter text");
            }
            sut(|| drop(x));
            Ok(())
        }
    }
}
/// every map over four keys and three values (one of them not comparable), against every other
#[cfg(feature = "unstable")]
fn trees(w: &[u32]) -> Res {
    use fallible_collections::btree::{BTreeMap, BTreeSet};
    let ents = |mut x: u32, nan: bool| {
        let mut v: Vec<(u32, f64)> = vec![];
        for k in 0..4 {
            let d = x % 4;
            x /= 4;
            if d > 0 {
                v.push((k, [0.0, 1.0, 2.0, if nan { f64::NAN } else { 3.0 }][d as usize]))
            }
        }
        v
    };
    for nan in [false, true] {
        let (a, b) = (ents(w[2], nan), ents(w[3], nan));
        let mk = |es: &[(u32, f64)], rev: bool| {
            let mut m = BTreeMap::new();
            let mut es = es.to_vec();
            if rev {
                es.reverse()
            }
            es.iter().for_each(|e| assert!(m.try_insert(e.0, e.1).is_ok()));
            m
        };
        let (x, y) = sut(|| (mk(&a, false), mk(&b, true)));
        step();
        tr!("maps of {a:?} and {b:?}");
        ensure!((x == y) == (a == b) && (x != y) == (a != b), "maps of {a:?} and {b:?} compare equal: {}", x == y);
        ensure!(x.partial_cmp(&y) == a.partial_cmp(&b), "maps of {a:?} and {b:?} order {:?}, their entries {:?}", x.partial_cmp(&y), a.partial_cmp(&b));
        ensure!((x < y, x <= y, x > y, x >= y) == (a < b, a <= b, a > b, a >= b), "maps of {a:?} and {b:?}: comparison operators disagree with their entries");
        let im = |es: &[(u32, f64)]| {
            let mut m = BTreeMap::new();
            es.iter().for_each(|e| assert!(m.try_insert(e.0, e.1 as i32).is_ok()));
            m
        };
        let iv = |es: &[(u32, f64)]| es.iter().map(|e| (e.0, e.1 as i32)).collect::<Vec<_>>();
        let (p, q) = sut(|| (im(&a), im(&b)));
        ensure!(p.cmp(&q) == iv(&a).cmp(&iv(&b)) && (p == q) == (iv(&a) == iv(&b)), "maps of {:?} and {:?} order {:?}", iv(&a), iv(&b), p.cmp(&q));
        let sm = |es: &[(u32, f64)]| {
            let mut m = BTreeSet::new();
            es.iter().for_each(|e| assert!(m.try_insert((e.0, e.1 as i32)).is_ok()));
            m
        };
        let (s, t) = sut(|| (sm(&a), sm(&b)));
        ensure!(s.cmp(&t) == iv(&a).cmp(&iv(&b)) && (s == t) == (iv(&a) == iv(&b)) && s.partial_cmp(&t) == Some(s.cmp(&t)), "sets of {:?} and {:?} order {:?}", iv(&a), iv(&b), s.cmp(&t));
        ensure!((s < t, s >= t, s != t) == (iv(&a) < iv(&b), iv(&a) >= iv(&b), iv(&a) != iv(&b)), "set comparison operators disagree with their elements");
        sut(|| {
            drop((x, y, p, q));
            drop((s, t))
        });
    }
    Ok(())
}
pub fn all(e: &Eng, fam: u32) {
    // all sequences of up to l digits in base 3
    let l = if e.thorough { 6 } else { 4 };
    let n: u32 = (0..=l).map(|i| 3u32.pow(i)).sum();
    let mut cs = vec![];
    for a in 0..n {
        for b in 0..n {
            cs.push(vec![fam, 0, a, b]);
        }
    }
    e.all("equality and text of every pair of short fallible vectors (against each other, Vec, slice)", cs);
    let cs = (0..if e.thorough { 5461 } else { 1365 }).map(|a| vec![fam, 1, a, 0]).collect();
    e.all("equality of byte vectors and text", cs);
    let mut cs = vec![];
    let mut ns: Vec<u32> = (5..40).collect();
    for p in 6..=if e.thorough { 17 } else { 13 } {
        ns.extend((1u32 << p) - 1..=(1 << p) + 1);
    }
    for n in ns {
        for kind in 0..4 {
            cs.push(vec![fam, 3, n, kind]);
        }
    }
    e.all("equality and text of longer vectors, with each element in turn changed", cs);
    #[cfg(feature = "unstable")]
    {
        let mut cs = vec![];
        for a in 0..256 {
            for b in 0..256 {
                cs.push(vec![fam, 2, a, b]);
            }
        }
        e.all("order and equality of every pair of maps and sets over four keys and three values", cs);
    }
}
