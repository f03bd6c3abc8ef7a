//! Whatever way an iterator is consumed (nth, last, count, fold, min, ...), it yields what stepping yields.
use crate::engine::*;
use crate::ensure;

/// `mk` gives the iterator with exactly `want` left to yield
pub fn rest<I: Iterator>(mk: &dyn Fn() -> I, id: &dyn Fn(I::Item) -> u32, want: &[u32], what: &str) -> Res
where
    I::Item: Ord,
{
    let n = want.len();
    step();
    let c = mk().count();
    ensure!(c == n, "{what}: count() is {c} with {n} left");
    let x = mk().last().map(id);
    ensure!(x == want.last().copied(), "{what}: last() is {x:?} instead of {:?} with {n} left", want.last());
    let v = mk().fold(vec![], |mut v, x| {
        v.push(id(x));
        v
    });
    ensure!(v == want, "{what}: fold() visits {v:?} instead of {want:?}");
    let mut v = vec![];
    mk().for_each(|x| v.push(id(x)));
    ensure!(v == want, "{what}: for_each() visits {v:?} instead of {want:?}");
    let v: Vec<u32> = mk().collect::<Vec<_>>().into_iter().map(id).collect();
    ensure!(v == want, "{what}: collect() gives {v:?} instead of {want:?}");
    let (x, y) = (mk().min().map(id), mk().collect::<Vec<_>>().into_iter().min().map(id));
    ensure!(x == y, "{what}: min() is {x:?} instead of {y:?}");
    let (x, y) = (mk().max().map(id), mk().collect::<Vec<_>>().into_iter().max().map(id));
    ensure!(x == y, "{what}: max() is {x:?} instead of {y:?}");
    let ks: Vec<usize> = if n <= 12 { (0..n + 2).collect() } else { vec![0, 1, 5, n / 2, n - 1, n, n + 1] };
    for k in ks {
        let mut it = mk();
        let x = it.nth(k).map(id);
        ensure!(x == want.get(k).copied(), "{what}: nth({k}) is {x:?} instead of {:?} with {n} left", want.get(k));
        let left = n.saturating_sub(k + 1);
        let (lo, hi) = it.size_hint();
        ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{what}: size_hint() after nth({k}) is ({lo}, {hi:?}) with {left} left");
        let v: Vec<u32> = it.map(id).collect();
        ensure!(v == want[n - left..], "{what}: after nth({k}) of {n} it goes on with {v:?}");
        // skip() and step_by() stand on nth()
        let v: Vec<u32> = mk().step_by(k + 1).map(id).collect();
        ensure!(v == want.iter().copied().step_by(k + 1).collect::<Vec<_>>(), "{what}: step_by({}) gives {v:?}", k + 1);
    }
    Ok(())
}
pub fn rest_back<I: DoubleEndedIterator>(mk: &dyn Fn() -> I, id: &dyn Fn(I::Item) -> u32, want: &[u32], what: &str) -> Res {
    let n = want.len();
    let mut back = want.to_vec();
    back.reverse();
    let v = mk().rfold(vec![], |mut v, x| {
        v.push(id(x));
        v
    });
    ensure!(v == back, "{what}: rfold() visits {v:?} instead of {back:?}");
    let v: Vec<u32> = mk().rev().map(id).collect();
    ensure!(v == back, "{what}: rev() gives {v:?} instead of {back:?}");
    let x = mk().rev().last().map(id);
    ensure!(x == want.first().copied(), "{what}: rev().last() is {x:?}");
    let ks: Vec<usize> = if n <= 12 { (0..n + 2).collect() } else { vec![0, 1, 5, n / 2, n - 1, n, n + 1] };
    for k in ks {
        let mut it = mk();
        let x = it.nth_back(k).map(id);
        ensure!(x == back.get(k).copied(), "{what}: nth_back({k}) is {x:?} instead of {:?} with {n} left", back.get(k));
        let left = n.saturating_sub(k + 1);
        if k % 2 == 0 {
            let v: Vec<u32> = it.map(id).collect();
            ensure!(v == want[..left], "{what}: after nth_back({k}) of {n} it goes on with {v:?}");
        } else {
            let x = it.nth(1).map(id);
            ensure!(x == want[..left].get(1).copied(), "{what}: nth(1) after nth_back({k}) of {n} is {x:?}");
            let v: Vec<u32> = it.rev().map(id).collect();
            let exp: Vec<u32> = want[..left].iter().skip(2).rev().copied().collect();
            ensure!(v == exp, "{what}: after nth_back({k}) and nth(1) of {n} it goes on with {v:?}");
        }
    }
    Ok(())
}
