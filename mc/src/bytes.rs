//! Byte vectors and texts: every short text over an alphabet of awkward characters, every pair of
//! bytes, and every pair of short texts compared.
use crate::engine::*;
use crate::{ensure, tr};
use fallible_collections::{FallibleVec, TryClone, TryCollect, TryVec};
use std::convert::TryFrom;

const CHARS: [char; 12] =
    ['\0', 'a', '\n', ' ', '\r', '\u{7f}', '\u{80}', 'é', '€', '\u{feff}', '\u{10ffff}', '\u{fffd}'];

fn text(w: &[u32]) -> String {
    w.iter().map(|c| CHARS[*c as usize]).collect()
}
fn all_ways(b: &[u8], t: Option<&str>) -> Res {
    let bytes = b.to_vec();
    let same = |what: &str, v: Option<TryVec<u8>>| -> Res {
        step();
        let Some(v) = v else { return Err(format!("{what}({b:?}): failed although no memory was refused").into()) };
        ensure!(v.as_slice() == b && v.len() == b.len(), "{what}({b:?}): holds {:?}", v.as_slice());
        ensure!(v.is_empty() == b.is_empty(), "{what}({b:?}): is_empty() is {}", v.is_empty());
        ensure!(v == bytes && v == b, "{what}({b:?}): not equal to its contents");
        ensure!(AsRef::<[u8]>::as_ref(&v) == b, "{what}({b:?}): as_ref() differs");
        if let Some(t) = t {
            ensure!(v == t, "{what}({t:?}): not equal to the text");
        }
        let d = format!("{v:?}");
        ensure!(d == format!("{b:?}"), "{what}({b:?}): prints {d}");
        sut(|| drop(v));
        Ok(())
    };
    let plain = |what: &str, v: Option<Vec<u8>>| -> Res {
        step();
        ensure!(v.as_deref() == Some(b), "{what}({b:?}): gives {v:?}");
        sut(|| drop(v));
        Ok(())
    };
    if let Some(t) = t {
        same("TryVec::try_from(&str)", sut(|| TryVec::<u8>::try_from(t).ok()))?;
    }
    same("TryVec::try_from(&[u8])", sut(|| TryVec::<u8>::try_from(b).ok()))?;
    same("TryVec::extend_from_slice", sut(|| {
        let mut v = TryVec::default();
        v.extend_from_slice(b).ok().map(|_| v)
    }))?;
    same("TryVec::push", sut(|| {
        let mut v = TryVec::new();
        for x in b {
            v.push(*x).ok()?;
        }
        Some(v)
    }))?;
    same("TryVec::try_clone", sut(|| TryVec::<u8>::try_from(b).ok()?.try_clone().ok()))?;
    same("TryVec::append", sut(|| {
        let mut v = TryVec::<u8>::try_from(&b[..b.len() / 2]).ok()?;
        let mut u = TryVec::<u8>::try_from(&b[b.len() / 2..]).ok()?;
        v.append(&mut u).ok()?;
        u.is_empty().then_some(v)
    }))?;
    same("TryVec::concat", sut(|| {
        let mut vs = TryVec::new();
        for x in b.chunks(2) {
            vs.push(TryVec::<u8>::try_from(x).ok()?).ok()?;
            vs.push(TryVec::default()).ok()?;
        }
        vs.concat().ok()
    }))?;
    #[cfg(feature = "std_io")]
    {
        use fallible_collections::TryRead;
        use std::io::{Read, Write};
        same("write", sut(|| {
            let mut v = TryVec::new();
            (v.write(b).ok()? == b.len()).then_some(())?;
            v.flush().ok()?;
            Some(v)
        }))?;
        same("write_all in pieces", sut(|| {
            let mut v = TryVec::new();
            for x in b.chunks(2) {
                v.write_all(x).ok()?;
            }
            Some(v)
        }))?;
        same("read_into_try_vec", sut(|| b.take(b.len() as u64 + 1).read_into_try_vec().ok()))?;
        same("try_read_to_end", sut(|| {
            let h = b.len() / 2;
            let mut v = TryVec::<u8>::try_from(&b[..h]).ok()?;
            let n = (&b[h..]).take((b.len() - h) as u64).try_read_to_end(&mut v).ok()?;
            (n == b.len() - h).then_some(v)
        }))?;
        same("try_read_up_to", sut(|| {
            let mut v = TryVec::new();
            let n = fallible_collections::try_read_up_to(&mut &b[..], b.len() as u64, &mut v).ok()?;
            (n == b.len()).then_some(v)
        }))?;
    }
    plain("try_extend_from_slice", sut(|| {
        let mut v = Vec::new();
        FallibleVec::try_extend_from_slice(&mut v, b).ok().map(|_| v)
    }))?;
    plain("try_extend_from_slice_no_copy", sut(|| {
        let mut v = Vec::new();
        v.try_extend_from_slice_no_copy(b).ok().map(|_| v)
    }))?;
    plain("Vec::try_clone", sut(|| bytes.try_clone().ok()))?;
    plain("try_collect", sut(|| b.iter().copied().try_collect::<Vec<u8>>().ok()))?;
    plain("try_insert", sut(|| {
        let mut v = Vec::new();
        for x in b.iter().rev() {
            FallibleVec::try_insert(&mut v, 0, *x).ok()?;
        }
        Some(v)
    }))?;
    if let [x, y] = b {
        let n = 3 + (*x as usize + *y as usize) % 3;
        let mut want = vec![*x];
        want.resize(n, *y);
        let r = sut(|| {
            let mut v = vec![*x];
            FallibleVec::try_resize(&mut v, n, *y).ok().map(|_| v)
        });
        ensure!(r.as_deref() == Some(&want[..]), "try_resize([{x}], {n}, {y}): gives {r:?}");
        let r = sut(|| {
            let mut v = vec![*x];
            v.try_resize_no_copy(n, *y).ok().map(|_| v)
        });
        ensure!(r.as_deref() == Some(&want[..]), "try_resize_no_copy([{x}], {n}, {y}): gives {r:?}");
        #[cfg(feature = "unstable")]
        {
            let r = sut(|| fallible_collections::try_vec![*y; n].ok());
            ensure!(r.as_deref().map_or(false, |r| r.len() == n && r.iter().all(|z| z == y)), "try_vec![{y}; {n}]: gives {r:?}");
        }
    }
    Ok(())
}
pub fn case(w: &[u32]) -> Res {
    nontrivial();
    state(hash64([w[1] as u64, w.iter().fold(7, |h: u64, x| h.wrapping_mul(1009).wrapping_add(*x as u64))]));
    match w[1] {
        0 => {
            let t = text(&w[2..]);
            tr!("each way of making a byte vector from {t:?}");
            all_ways(t.as_bytes(), Some(&t))
        }
        1 => {
            tr!("each way of making a byte vector from {:?}", [w[2], w[3]]);
            all_ways(&[w[2] as u8, w[3] as u8], None)
        }
        _ => {
            let n = w[2] as usize;
            let (a, b) = (text(&w[3..3 + n]), text(&w[3 + n..]));
            tr!("compare {a:?} and {b:?}");
            let eq = a == b;
            let (va, vb) = (TryVec::<u8>::from(a.clone().into_bytes()), TryVec::<u8>::from(b.clone().into_bytes()));
            ensure!((va == vb) == eq && (vb == va) == eq, "{a:?} and {b:?}: TryVec == TryVec is {}", va == vb);
            ensure!((va != vb) != eq, "{a:?} and {b:?}: TryVec != TryVec is {}", va != vb);
            ensure!((va == b.as_str()) == eq && (vb == a.as_str()) == eq, "{a:?} and {b:?}: TryVec == &str is {}", va == b.as_str());
            ensure!((va == b.clone().into_bytes()) == eq, "{a:?} and {b:?}: TryVec == Vec is {}", !eq);
            ensure!((va == b.as_bytes()) == eq, "{a:?} and {b:?}: TryVec == &[u8] is {}", !eq);
            ensure!((va.as_slice() == vb.as_slice()) == eq, "{a:?} and {b:?}: slices compare {}", !eq);
            Ok(())
        }
    }
}
pub fn all(e: &Eng, fam: u32) {
    let k = CHARS.len() as u32;
    let mut level: Vec<Vec<u32>> = vec![vec![]];
    let mut texts = Vec::new();
    let mut short = Vec::new();
    for len in 0..=if e.thorough { 5 } else { 4 } {
        texts.extend(level.iter().map(|t| [&[fam, 0][..], t].concat()));
        if len <= 2 {
            short.extend(level.iter().cloned());
        }
        level = level.iter().flat_map(|t| (0..k).map(move |c| [&t[..], &[c]].concat())).collect();
    }
    e.all("every short text over twelve awkward characters, made in each way", texts);
    e.all("every pair of bytes, made in each way", (0..256 * 256).map(|i| vec![fam, 1, i / 256, i % 256]).collect());
    let mut pairs = Vec::new();
    for a in &short {
        for b in &short {
            pairs.push([&[fam, 2, a.len() as u32][..], a, b].concat());
        }
    }
    e.all("every pair of short texts compared", pairs);
}
