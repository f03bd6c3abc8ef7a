//! Vectors of zero-sized elements at the greatest possible length: the only vectors whose length can
//! overflow while memory is left. An operation that would exceed it fails and changes nothing.
use crate::engine::*;
use crate::vecs::*;
use crate::{ensure, tr};
use fallible_collections::{FallibleVec, TryVec};

const NAMES: [&str; 17] = [
    "try_push", "try_push_give_back", "try_insert front", "try_insert back", "try_append", "try_reserve", "try_resize", "try_resize_with",
    "try_resize_no_copy", "try_extend_from_slice", "try_extend_from_slice_no_copy", "TryVec::push", "TryVec::append", "TryVec::reserve",
    "TryVec::resize_with", "TryVec::extend_from_slice", "concat",
];
fn full<T>(n: usize) -> Vec<T> {
    let mut v = Vec::new();
    unsafe { v.set_len(n) };
    v
}
/// words: family, operation, elements below the maximum, elements added, type
pub fn case(w: &[u32]) -> Res {
    if w[4] == 0 {
        go::<Unit>(w)
    } else {
        go::<Unit64>(w)
    }
}
fn go<T: Elt + Copy>(w: &[u32]) -> Res {
    let (op, d, n) = (w[1], w[2] as usize, w[3] as usize);
    let len = usize::MAX - d;
    let name = NAMES[op as usize];
    tr!("{name} adding {n} to a vector of usize::MAX - {d} elements of {}", T::NAME);
    let mut v: Vec<T> = full(len);
    let mut tv: TryVec<T> = TryVec::from(full(len));
    let mut arg: Vec<T> = full(n);
    let mut targ: TryVec<T> = TryVec::from(full(n));
    let one = matches!(op, 0..=3 | 11);
    if one && n != 1 {
        return Ok(());
    }
    let fits = n <= d;
    if matches!(op, 6..=8 | 14) && !fits {
        return Ok(()); // no such length can be asked for
    }
    step();
    let res = sut_catch(|| match op {
        0 => FallibleVec::try_push(&mut v, T::mk(0)).is_ok(),
        1 => v.try_push_give_back(T::mk(0)).is_ok(),
        2 => FallibleVec::try_insert(&mut v, 0, T::mk(0)).is_ok(),
        3 => FallibleVec::try_insert(&mut v, len, T::mk(0)).is_ok(),
        4 => v.try_append(&mut arg).is_ok(),
        5 => FallibleVec::try_reserve(&mut v, n).is_ok(),
        6 => T::resize_copy(&mut v, len + n, T::mk(0)).map_or(true, |x| x.is_ok()),
        7 => v.try_resize_with(len + n, || T::mk(0)).is_ok(),
        8 => v.try_resize_no_copy(len + n, T::mk(0)).is_ok(),
        9 => v.try_extend_from_slice(&arg).is_ok(),
        10 => v.try_extend_from_slice_no_copy(&arg).is_ok(),
        11 => tv.push(T::mk(0)).is_ok(),
        12 => tv.append(&mut targ).is_ok(),
        13 => tv.reserve(n).is_ok(),
        14 => tv.resize_with(len + n, || T::mk(0)).is_ok(),
        15 => tv.extend_from_slice(&arg).is_ok(),
        _ => {
            let parts: TryVec<TryVec<T>> = TryVec::from(if d % 2 == 0 { vec![TryVec::from(full(len)), TryVec::from(full(n))] } else { vec![TryVec::from(full(n)), TryVec::from(full(len))] });
            parts.concat().is_ok()
        }
    });
    let ok = match res {
        Ok(ok) => ok,
        Err(Caught::Injected) => return Err("unexpected injected panic".into()),
        Err(Caught::Other(m)) => return Err(format!("{name} of {n} more elements with usize::MAX - {d} present panicked: {m}").into()),
    };
    nontrivial();
    state(hash64([7, op as u64, d as u64, n as u64, ok as u64]));
    ensure!(ok == fits, "{name} of {n} more elements with usize::MAX - {d} present: success is {ok}");
    let (on_tv, grows) = (op > 10, !matches!(op, 5 | 13 | 16));
    let now = if on_tv { tv.len() } else { v.len() };
    let want = if fits && grows { len + n } else { len };
    ensure!(now == want, "{name} of {n} more elements with usize::MAX - {d} present: usize::MAX - {} elements afterwards", usize::MAX - now);
    let rest = if op == 12 { targ.len() } else { arg.len() };
    ensure!(rest == if fits && matches!(op, 4 | 12) { 0 } else { n }, "{name}: {rest} elements left in the argument of {n}");
    ensure!(crate::ledger::l().live_blocks == 0, "{name} holds memory for zero-sized elements");
    Ok(())
}
pub fn all(e: &Eng, fam: u32) {
    let mut cs = vec![];
    for op in 0..NAMES.len() as u32 {
        for d in 0..5 {
            for n in 0..7 {
                // a concatenation that fits would clone without end
                if op != 16 || n > d {
                    for ty in 0..2 {
                        cs.push(vec![fam, op, d, n, ty]);
                    }
                }
            }
        }
    }
    e.all("zero-sized elements at the greatest possible length", cs);
}
