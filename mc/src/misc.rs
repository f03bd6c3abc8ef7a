//! Growth runs, fallible collecting, bounded reads, fallible formatting, boxes and shared pointers.
#![allow(deprecated)]
use crate::elem::*;
use crate::engine::*;
use crate::ledger::{l, off};
use crate::vecs::*;
use crate::{ensure, tr};
use fallible_collections::{FallibleArc, FallibleBox, FallibleRc, FallibleVec, TryBox, TryClone, TryCollect, TryVec};
use std::rc::Rc;
use std::sync::Arc;

// ------------------------------------------------------------------ growth
pub fn log2(n: u64) -> u64 {
    64 - n.max(1).leading_zeros() as u64
}
/// words: [family, type, how, N]
pub fn grow(w: &[u32]) -> Res {
    fn go<T: Elt>(w: &[u32]) -> Res {
        let (how, n) = (w[2], w[3] as usize);
        tr!("{n} single additions (way {how}) of {}", T::NAME);
        let mut v: Vec<T> = Vec::new();
        let mut tv: TryVec<T> = TryVec::new();
        let mut ok = true;
        l().arm(0, 0);
        sut(|| {
            if how == 6 {
                match TryCollect::try_collect::<Vec<T>>((0..n).map(|i| T::mk(i as u32))) {
                    Ok(x) => v = x,
                    Err(_) => ok = false,
                }
                return;
            }
            for i in 0..n {
                let e = T::mk(i as u32);
                ok &= match how {
                    0 => FallibleVec::try_push(&mut v, e).is_ok(),
                    1 => v.try_push_give_back(e).is_ok(),
                    2 => {
                        let at = v.len();
                        FallibleVec::try_insert(&mut v, at, e).is_ok()
                    }
                    3 => v.try_extend_from_slice_no_copy(std::slice::from_ref(&e)).is_ok(),
                    4 => tv.push(e).is_ok(),
                    5 => tv.extend_from_slice(std::slice::from_ref(&e)).is_ok(),
                    7 => {
                        let k = v.len() + 1;
                        v.try_resize_no_copy(k, e).is_ok()
                    }
                    8 => {
                        let k = v.len() + 1;
                        let mut e = Some(e);
                        v.try_resize_with(k, || e.take().unwrap()).is_ok()
                    }
                    9 => {
                        let k = tv.len() + 1;
                        let mut e = Some(e);
                        tv.resize_with(k, || e.take().unwrap()).is_ok()
                    }
                    10 => {
                        let mut o = match <Vec<T> as FallibleVec<T>>::try_with_capacity(0) { Ok(o) => o, _ => return };
                        o.extend(Some(e));
                        v.try_append(&mut o).is_ok()
                    }
                    _ => T::ext_copy(&mut v, std::slice::from_ref(&e)).map_or(false, |x| x.is_ok()),
                };
                step();
            }
        });
        let nreq = l().nreq;
        nontrivial();
        ensure!(ok, "an addition failed although memory was available");
        let len = v.len() + tv.len();
        ensure!(len == n, "{len} elements after {n} additions");
        let own = if how == 10 { n as u64 } else { 0 };
        let bound = 2 * log2(n as u64) + 4 + own;
        ensure!(nreq <= bound, "{n} single additions made {nreq} memory requests (bound {bound})");
        maximum("requests for the longest run", nreq.saturating_sub(own));
        state(hash64([w[1] as u64, how as u64, n as u64]));
        drop_in_sut(v);
        drop_in_sut(tv);
        Ok(())
    }
    match w[1] {
        0 => go::<El>(w),
        1 => go::<u8>(w),
        2 => go::<u64>(w),
        3 => go::<Zst>(w),
        4 => go::<Big>(w),
        _ => go::<B300>(w),
    }
}
pub fn grow_all(e: &Eng, fam: u32) {
    let mut cs = Vec::new();
    let top = if e.thorough { 9000 } else { 1500 };
    for ty in 0..6 {
        for how in 0..12 {
            if how == 11 && (ty == 0 || ty == 3) {
                continue;
            }
            let mut n = 1;
            while n <= top {
                cs.push(vec![fam, ty, how, n]);
                n = if n < 70 { n + 1 } else { n * 5 / 4 };
            }
        }
    }
    // buffers far beyond any page or size threshold, in cheap elements
    let tops = if e.thorough { [1u32 << 15, 1 << 17, 1 << 19, 1 << 21] } else { [1 << 14, 1 << 16, 1 << 18, 3 << 18] };
    for how in 0..12 {
        for ty in [1, 2, 0, 4, 5] {
            for n in tops {
                let cap = match ty {
                    1 | 2 => u32::MAX,
                    0 => 1 << 15,
                    _ => 1 << 14,
                };
                if n > cap || (how == 10 && n > 1 << 15) || (how == 11 && ty == 0) {
                    continue;
                }
                cs.push(vec![fam, ty, how, n]);
            }
        }
    }
    e.all("runs of single additions", cs);
}

// ------------------------------------------------------------------ collecting
struct It<T> {
    left: usize,
    next: u32,
    hint: u32,
    n: usize,
    ended: bool,
    revive: bool,
    polls: std::rc::Rc<std::cell::Cell<(u64, u64)>>, // (polls, polls after the end)
    _p: std::marker::PhantomData<T>,
}
impl<T: Elt> Iterator for It<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let (a, b) = self.polls.get();
        self.polls.set((a + 1, b + self.ended as u64));
        tick(NEXT);
        if self.ended && self.revive {
            return Some(T::mk(99));
        }
        if self.left == 0 {
            self.ended = true;
            return None;
        }
        self.left -= 1;
        self.next += 1;
        Some(T::mk(self.next))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.left;
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, Some(n)),
            3 => (0, Some(0)),
            4 => (n + 7, Some(n + 7)),
            5 => (usize::MAX, None),
            6 => (usize::MAX, Some(usize::MAX)),
            7 => (n + 3, Some(1)),
            8 => (isize::MAX as usize, None),
            _ => (n.saturating_sub(1), Some(n.saturating_sub(1))),
        }
    }
}
/// words: [family, type, n, hint, fault(0 none | 1+2k | 2+2k), panic(0|1+k), revive]
pub fn collect(w: &[u32]) -> Res {
    fn go<T: Elt>(w: &[u32]) -> Res {
        let (n, hint, fault, pan) = (w[2] as usize, w[3], w[4], w[5]);
        zst_reset();
        tr!("try_collect of {n} items of {}, hint kind {hint}, fault {fault}, panic {pan}", T::NAME);
        let polls = Rc::new(std::cell::Cell::new((0, 0)));
        let it = It::<T> { left: n, next: 0, hint, n, ended: false, revive: w[6] == 1, polls: polls.clone(), _p: Default::default() };
        let _ = it.n;
        if pan > 0 {
            r().plan_panic(NEXT, pan as u64 - 1);
        }
        if fault > 0 {
            l().arm(2 - (fault & 1) as u8, (fault as u64 - 1) / 2);
        } else {
            l().arm(0, 0);
        }
        step();
        let res = sut_catch(|| if w[1] % 2 == 0 { TryCollect::try_collect::<Vec<T>>(it) } else { <Vec<T> as fallible_collections::TryFromIterator<T>>::try_from_iterator(it) });
        let nref = l().nrefused;
        let nreq = l().nreq;
        r().panic_mask = 0;
        let (p, after) = polls.get();
        state(hash64([w[1] as u64, n as u64, p, nreq, nref]));
        match res {
            Err(Caught::Injected) => {
                leak_ok();
                zst_reset();
                nontrivial();
                tr!("caller code panicked");
            }
            Err(Caught::Other(m)) => return Err(format!("collecting panicked: {m}").into()),
            Ok(Ok(v)) => {
                ensure!(nref == 0, "collected successfully although memory was refused");
                let got: Vec<u32> = v.iter().map(|e| e.key()).collect();
                let want: Vec<u32> = (1..=n as u32).map(T::norm).collect();
                ensure!(got == want, "collected {got:?}, the iterator gave {want:?}");
                ensure!(after == 0, "iterator polled {after} more time(s) after it ended");
                ensure!(p == n as u64 + 1, "iterator polled {p} times for {n} items");
                drop_in_sut(v);
            }
            Ok(Err(_)) => {
                nontrivial();
                ensure!(nref > 0, "error although no memory was refused (hint kind {hint})");
                ensure!(after == 0, "iterator polled after its end");
                ensure!(p <= n as u64, "polling went on although an item could not be stored");
                tr!("Err after {p} items taken");
            }
        }
        ensure!(!matches!(w[1], 3 | 10) || zst_live() == 0 || pan > 0, "{} counted item(s) not destroyed", zst_live());
        Ok(())
    }
    match w[1] {
        0 => go::<El>(w),
        1 => go::<u8>(w),
        2 => go::<u64>(w),
        3 => go::<Zst>(w),
        5 => go::<B5000>(w),
        6 => go::<Al4096>(w),
        7 => go::<Unit64>(w),
        8 => go::<ElBig>(w),
        9 => go::<ElAl>(w),
        10 => go::<Tiny>(w),
        _ => go::<Big>(w),
    }
}
pub fn collect_all(e: &Eng, fam: u32, panics: bool) {
    let mut cs = Vec::new();
    let nmax = if panics { 40 } else if e.thorough { 1100 } else { 300 };
    for ty in 0..11 {
        for n in 0..=if ty < 5 || ty == 10 { nmax } else { nmax / 8 } {
            for hint in 0..10 {
                for rev in 0..2 {
                    if panics {
                        for p in 1..=n + 1 {
                            cs.push(vec![fam, ty, n, hint, 0, p, rev]);
                        }
                    } else {
                        let ks = 2 * (3 + log2(n as u64)) as u32;
                        for f in 0..=ks {
                            cs.push(vec![fam, ty, n, hint, f, 0, rev]);
                        }
                    }
                }
            }
        }
    }
    e.all("iterators collected", cs);
}

// ------------------------------------------------------------------ bounded reads
#[cfg(feature = "std_io")]
pub mod reads {
    use super::*;
    use fallible_collections::{try_read_up_to, TryRead};
    use std::io::{self, Read};
    struct Src {
        script: Vec<u32>,
        pos: usize,
        given: usize,
        data: usize,
        calls: usize,
        maxask: usize, // largest (given + asked)
        ended: bool,
        after_end: usize,
    }
    pub const INTR: u32 = 100;
    pub const FAIL: u32 = 101;
    pub const WBLK: u32 = 102;
    pub const EOF: u32 = 103;
    pub const ALL: u32 = 104;
    /// claims more bytes than it was asked for, by one and by as many as can be said
    pub const OVER: u32 = 105;
    pub const OVERMAX: u32 = 106;
    /// position-dependent and not periodic in 256
    fn byte(i: usize) -> u8 {
        (i + 1 + (i >> 8) * 13 + (i >> 16) * 29) as u8
    }
    impl Read for Src {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            tick(READ);
            self.calls += 1;
            if self.calls > 5000 {
                crate::sys::die_runaway();
            }
            self.maxask = self.maxask.max(self.given + b.len());
            if self.ended {
                self.after_end += 1;
            }
            let a = if self.pos < self.script.len() { self.script[self.pos] } else { ALL };
            self.pos += 1;
            let n = match a {
                INTR => return Err(io::ErrorKind::Interrupted.into()),
                FAIL => return Err(io::ErrorKind::ConnectionReset.into()),
                WBLK => return Err(io::ErrorKind::WouldBlock.into()),
                EOF => 0,
                ALL => usize::MAX,
                OVER | OVERMAX => {
                    self.ended = true;
                    let n = if a == OVER { b.len() + 1 } else { usize::MAX };
                    b.fill(7);
                    return Ok(n);
                }
                n => n as usize,
            };
            let n = n.min(b.len()).min(self.data - self.given);
            for i in 0..n {
                b[i] = byte(self.given + i);
            }
            self.given += n;
            if n == 0 && !b.is_empty() {
                self.ended = true;
            }
            Ok(n)
        }
    }
    /// words: [family, api, buflen, spare, limit, data, fault, panic, script..]; limit >= 90000000: impossible
    pub fn case(w: &[u32]) -> Res {
        let (api, bl, spare, data, fault, pan) = (w[1], w[2] as usize, w[3] as usize, w[5] as usize, w[6], w[7]);
        let limit: u64 = match w[4] {
            90000000 => u64::MAX,
            90000001 => i64::MAX as u64,
            90000002 => 1 << 40,
            // the request is refused although it might be met
            x if x > 90000002 => 1 << (x - 90000003),
            x => x as u64,
        };
        let impossible = w[4] >= 90000000;
        let script = w[8..].to_vec();
        tr!("{}: limit {limit}, source of {data} bytes answering {script:?} (100 interrupted, 101 reset, 102 would-block, 103 end), buffer {bl}+{spare}",
            ["try_read_up_to", "Take::try_read_to_end", "Take::read_into_try_vec"][api as usize]);
        let mut src = Src { script: script.clone(), pos: 0, given: 0, data, calls: 0, maxask: 0, ended: false, after_end: 0 };
        let old: Vec<u8> = (0..bl).map(|i| 200u8.wrapping_add(i as u8)).collect();
        let mut buf: TryVec<u8> = sut(|| {
            let mut v = Vec::with_capacity(bl + spare);
            v.extend_from_slice(&old);
            TryVec::from(v)
        });
        if pan > 0 {
            r().plan_panic(READ, pan as u64 - 1);
        }
        if w[4] > 90000002 {
            l().arm(2, 0);
        } else if fault > 0 {
            l().arm(2 - (fault & 1) as u8, (fault as u64 - 1) / 2);
        } else {
            l().arm(0, 0);
        }
        step();
        let mut take_left = None;
        let res = sut_catch(|| match api {
            0 => try_read_up_to(&mut src, limit, &mut buf),
            1 => {
                let mut t = (&mut src).take(limit);
                let x = t.try_read_to_end(&mut buf);
                take_left = Some(t.limit());
                x
            }
            _ => {
                let mut t = (&mut src).take(limit);
                let x = t.read_into_try_vec();
                take_left = Some(t.limit());
                x.map(|v| {
                    let n = v.len();
                    buf = v;
                    n
                })
            }
        });
        let (nreq, nref) = (l().nreq, l().nrefused);
        let maxreq = l().max_req;
        let fired = r().fired;
        r().panic_mask = 0;
        let oldlen = if api == 2 { 0 } else { bl };
        let cap = if api == 2 { 0 } else { bl + spare };
        if script.iter().any(|a| *a >= OVER) {
            // the source lies about what it delivered: anything but corruption will do
            leak_ok();
            nontrivial();
            state(hash64([api as u64, bl as u64, spare as u64, limit, src.calls as u64, buf.len() as u64]));
            tr!("-> {}", if res.is_err() { "panicked" } else { "returned" });
            let p = buf.as_ptr() as usize;
            let room = l().blocks().iter().find(|b| b.0 == p).map_or(0, |b| b.1);
            ensure!(buf.len() <= room, "length {} beyond the {room} bytes of the buffer after a source claimed too much", buf.len());
            ensure!(api == 2 || buf.len() >= oldlen && buf[..oldlen] == old[..], "earlier buffer contents lost when the source claimed too much");
            drop_in_sut(buf);
            return Ok(());
        }
        // expected behaviour
        let mut given = 0usize;
        let mut err: Option<io::ErrorKind> = None;
        for i in 0.. {
            if given as u64 >= limit {
                break;
            }
            let a = if i < script.len() { script[i] } else { ALL };
            match a {
                INTR => continue,
                FAIL => {
                    err = Some(io::ErrorKind::ConnectionReset);
                    break;
                }
                WBLK => {
                    err = Some(io::ErrorKind::WouldBlock);
                    break;
                }
                EOF => break,
                n => {
                    let n = if n == ALL { usize::MAX } else { n as usize };
                    let m = n.min(data - given).min((limit - given as u64).min(1 << 30) as usize);
                    if m == 0 {
                        break;
                    }
                    given += m;
                }
            }
        }
        let res = match res {
            Err(Caught::Injected) => {
                nontrivial();
                leak_ok();
                let _ = fired;
                tr!("source panicked; buffer now {} bytes", buf.len());
                ensure!(api == 2 || buf.len() >= oldlen && buf[..oldlen] == old[..oldlen], "earlier buffer contents lost when the source panicked");
                let x: u32 = buf.iter().map(|b| *b as u32).sum();
                std::hint::black_box(x);
                drop_in_sut(buf);
                return Ok(());
            }
            Err(Caught::Other(m)) => return Err(format!("bounded read panicked: {m}").into()),
            Ok(x) => x,
        };
        state(hash64([api as u64, bl as u64, spare as u64, given as u64, err.is_some() as u64, nreq, nref]));
        let must_refuse = nref > 0 || impossible;
        if must_refuse {
            nontrivial();
            ensure!(res.is_err(), "bounded read succeeded although its reservation was refused");
            ensure!(src.calls == 0 && src.given == 0, "the source was read although the reservation was refused");
            if api != 2 {
                ensure!(*buf == old[..], "buffer changed although the reservation was refused");
            }
            drop_in_sut(buf);
            return Ok(());
        }
        // memory: one request, for the limit, up front
        let need = oldlen as u64 + limit > cap as u64;
        let errs_alloc = 0;
        ensure!(nreq <= need as u64 + errs_alloc, "{nreq} memory request(s) for one bounded read of limit {limit} (buffer {oldlen} of {cap})");
        ensure!(!need || nreq == 1 && maxreq as u64 >= oldlen as u64 + limit, "reserved {maxreq} bytes for length {oldlen} and limit {limit}");
        ensure!(src.given as u64 <= limit, "took {} bytes from the source, limit {limit}", src.given);
        ensure!(src.maxask as u64 <= limit, "asked the source for bytes up to {}, limit {limit}", src.maxask);
        match &res {
            Ok(n) => {
                ensure!(err.is_none(), "source error was swallowed");
                ensure!(*n == given, "returned {n}, the source gave {given}");
            }
            Err(e) => {
                nontrivial();
                ensure!(err.is_some(), "failed with {e} although the source did not");
                ensure!(e.kind() == err.unwrap(), "source error {:?} was turned into {:?}", err.unwrap(), e.kind());
            }
        }
        ensure!(src.given == given, "consumed {} bytes, expected {given}", src.given);
        if let Some(left) = take_left {
            ensure!(left == limit - given as u64, "Take limit {left} after {given} of {limit} bytes");
        }
        if !(api == 2 && res.is_err()) {
            let mut want: Vec<u8> = old[..oldlen].to_vec();
            want.extend((0..given).map(byte));
            ensure!(buf.len() == want.len(), "buffer of {} bytes, expected {}", buf.len(), want.len());
            for i in 0..want.len() {
                ensure!(buf[i] == want[i], "byte {i} of the buffer is {}, expected {}", buf[i], want[i]);
            }
        }
        drop_in_sut(buf);
        Ok(())
    }
    pub fn all(e: &Eng, fam: u32, panics: bool) {
        let acts: Vec<u32> = vec![1, 2, 5, INTR, FAIL, WBLK, EOF];
        let depth = if e.thorough { 5 } else { 3 };
        let mut scripts: Vec<Vec<u32>> = vec![vec![]];
        let mut last = scripts.clone();
        for _ in 0..depth {
            let mut nx = Vec::new();
            for s in &last {
                for a in &acts {
                    let mut t = s.clone();
                    t.push(*a);
                    nx.push(t);
                }
            }
            scripts.extend(nx.iter().cloned());
            last = nx.into_iter().filter(|s| !matches!(s.last(), Some(&FAIL) | Some(&WBLK) | Some(&EOF))).collect();
        }
        let n0 = e.cases_so_far();
        let bufs: Vec<(u32, u32)> = vec![(0, 0), (0, 1), (0, 4), (0, 40), (1, 0), (3, 0), (3, 2), (5, 35), (31, 0), (32, 1), (33, 64)];
        let limits: Vec<u32> = vec![0, 1, 2, 3, 4, 5, 7, 8, 31, 32, 33, 64, 100];
        let datas: Vec<u32> = vec![0, 1, 2, 3, 4, 5, 6, 8, 31, 32, 33, 34, 64, 65, 120];
        e.par(scripts.len(), |i| {
            let s = &scripts[i];
            for api in 0..3 {
                for (bl, sp) in &bufs {
                    if api == 2 && (*bl, *sp) != (0, 0) {
                        continue;
                    }
                    for lim in &limits {
                        for d in &datas {
                            let mut w = vec![fam, api, *bl, *sp, *lim, *d, 0, 0];
                            w.extend(s);
                            if panics {
                                for p in 1..=(s.len() as u32 + 2).min(4) {
                                    w[7] = p;
                                    e.case(&w);
                                }
                            } else {
                                e.case(&w);
                            }
                        }
                        if !panics && s.len() <= 1 {
                            for f in 1..=4 {
                                let mut w = vec![fam, api, *bl, *sp, *lim, 6, f, 0];
                                w.extend(s);
                                e.case(&w);
                            }
                        }
                    }
                    if !panics && s.len() <= 1 {
                        for lim in (90000000..90000003).chain(90000003 + 11..90000003 + 64) {
                            for f in 0..if lim > 90000002 { 1 } else { 3 } {
                                let mut w = vec![fam, api, *bl, *sp, lim, 6, f, 0];
                                w.extend(s);
                                e.case(&w);
                            }
                        }
                    }
                }
            }
        });
        e.section("read scripts", e.cases_so_far() - n0);
        if panics {
            // sources that lie about how much they delivered
            let mut cs = vec![];
            for over in [OVER, OVERMAX] {
                for pre in [vec![], vec![1], vec![5], vec![INTR], vec![2, 2], vec![5, INTR]] {
                    for (bl, sp) in &bufs {
                        for lim in limits.iter().copied().chain([4096, 10000]) {
                            for api in 0..3 {
                                let mut w = vec![fam, api, *bl, *sp, lim, 20000, 0, 0];
                                w.extend(&pre);
                                w.push(over);
                                cs.push(w);
                            }
                        }
                    }
                }
            }
            e.all("sources claiming more than they were asked for", cs);
        }
        // something happens after every number of bytes, and the source could go on
        if !panics {
            let top = if e.thorough { 300 } else { 140 };
            let n0 = e.cases_so_far();
            e.par(top, |i| {
                let a = i as u32 + 1;
                for x in [INTR, FAIL, WBLK, EOF] {
                    for (bl, sp) in &bufs {
                        for lim in [a - 1, a, a + 1, a + 32, 2 * a, 8192] {
                            for api in 0..3 {
                                if api < 2 || (*bl, *sp) == (0, 0) {
                                    e.case(&[fam, api, *bl, *sp, lim, 20000, 0, 0, a, x]);
                                }
                            }
                        }
                    }
                    for b in 1..=if e.thorough { 140 } else { 40 } {
                        for (bl, sp) in [(0, 0), (3, 2)] {
                            e.case(&[fam, 0, bl, sp, 500, 20000, 0, 0, a, b, x]);
                            e.case(&[fam, 1, bl, sp, a + b + 1, 20000, 0, 0, a, b, x]);
                        }
                    }
                }
            });
            e.section("interruptions, errors and pauses after every number of bytes", e.cases_so_far() - n0);
        }
        // limits around every power of two
        let n0 = e.cases_so_far();
        let mut lims: Vec<u32> = vec![];
        for p in 7..=(if e.thorough { 21 } else { 17 }) {
            lims.extend((1u32 << p) - 1..=(1 << p) + 1);
        }
        let mut scripts: Vec<Vec<u32>> = vec![vec![], vec![INTR]];
        for a in [1, 127, 128, 1000, 4096, 8191] {
            for b in [INTR, FAIL, WBLK, EOF, 5, 4096] {
                scripts.push(vec![a, b]);
            }
        }
        if e.thorough {
            for a in [128, 4096] {
                for b in [128, 4096, 8192] {
                    for c in [INTR, FAIL, WBLK, EOF] {
                        scripts.push(vec![a, b, c]);
                    }
                }
            }
        }
        e.par(lims.len(), |i| {
            let lim = lims[i];
            for s in &scripts {
                for api in 0..3 {
                    for (bl, sp) in [(0, 0), (3, 0), (3, lim - 1), (3, lim), (300, 200), (5000, 0)] {
                        if api == 2 && (bl, sp) != (0, 0) {
                            continue;
                        }
                        for d in [0, 5, lim / 2, lim - 1, lim, lim + 1, lim + 4096] {
                            for f in 0..(if s.is_empty() { 4 } else { 2 }) {
                                let mut w = vec![fam, api, bl, sp, lim, d, if panics { 0 } else { f }, 0];
                                if panics {
                                    if f > s.len() as u32 {
                                        continue;
                                    }
                                    w[7] = f + 1;
                                }
                                w.extend(s);
                                e.case(&w);
                            }
                        }
                    }
                }
            }
        });
        e.section("limits around every power of two", e.cases_so_far() - n0);
    }
}

// ------------------------------------------------------------------ formatting
fn long() -> &'static str {
    static S: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    off(|| S.get_or_init(|| (0..500_000u32).map(|i| (b'a' + ((i * 7 + (i >> 8) * 5 + (i >> 16) * 3) % 26) as u8) as char).collect()))
}
struct Pc<'a>(&'a [u32]);
pub const FMT_ERR: u32 = 9;
impl std::fmt::Display for Pc<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        use std::fmt::Write;
        for p in self.0 {
            tick(FMT);
            match p {
                0 => f.write_str("")?,
                1 => f.write_str("a")?,
                2 => f.write_str("é")?,
                3 => f.write_str("€")?,
                4 => f.write_str("😀")?,
                5 => f.write_str("bcdefghij")?,
                6 => f.write_char('ß')?,
                7 => write!(f, "{:>5}", 42)?,
                8 => f.pad("xy")?,
                // long text: the piece says how many bytes, in one write or in writes of 100 bytes
                10000..=999999 => f.write_str(&long()[..*p as usize - 10000])?,
                1000000.. => {
                    for c in long().as_bytes()[..*p as usize - 1000000].chunks(100) {
                        f.write_str(std::str::from_utf8(c).unwrap())?
                    }
                }
                _ => return Err(std::fmt::Error),
            }
        }
        Ok(())
    }
}
impl std::fmt::Debug for Pc<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_list().entries(self.0.iter()).finish()?;
        std::fmt::Display::fmt(self, f)
    }
}
struct Tick;
impl std::fmt::Display for Tick {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        tick(FMT);
        r().ncmp += 1;
        f.write_str("")
    }
}
fn cut(s: &str) -> String {
    s.chars().take(200).collect()
}
pub const NFORMS: u32 = 24;
/// words: [family, form, cap (relative to the length + 1000; 5000.. impossible), fault, panic, pieces..]
pub fn fmt(w: &[u32]) -> Res {
    let (form, fault, pan) = (w[1], w[3], w[4]);
    let pcs = &w[5..];
    let p = Pc(pcs);
    macro_rules! forms {
        ($m:ident, $cap:tt) => {
            match form {
                0 => $m!($cap, "{}{}", Tick, p),
                1 => $m!($cap, "{}<{}>", Tick, p),
                2 => $m!($cap, "{}{:?}", Tick, p),
                3 => $m!($cap, "{}{:#?}|", Tick, p),
                4 => $m!($cap, "{}{:>9}{:<4}", Tick, 7u8, "q"),
                5 => $m!($cap, "{}{0}{1:08.3}{2:#x}{0}", Tick, 2.5f64, 255),
                6 => $m!($cap, "literal"),
                7 => $m!($cap, ""),
                8 => $m!($cap, "{}{{}}{p}", Tick),
                9 => $m!($cap, "{}{:+}{:e}", Tick, i64::MIN, 1234.5f32),
                10 => $m!($cap, "é€{}", Tick),
                11 => $m!($cap, "{}{:?}", Tick, "tab\t\"q\" é"),
                12 => $m!($cap, "{}{:1$}", Tick, 6),
                13 => $m!($cap, "{}{p:?}{p}{x:*^11}", Tick, x = 'c'),
                14 => $m!($cap, "\0"),
                15 => $m!($cap, "a\0\0"),
                16 => $m!($cap, " \t padded \r\n"),
                17 => $m!($cap, "{{}}"),
                18 => $m!($cap, "\u{feff}é€\u{10ffff}"),
                19 => $m!($cap, "{}", "inlined \0"),
                20 => $m!($cap, "{}", p),
                21 => $m!($cap, "{:.3}{:>5.1}{:?}", "abc\0def", "é€", "\0"),
                22 => $m!($cap, "{}\0", Tick),
                _ => $m!($cap, "a literal of more than the sixty-four bytes that a small buffer might hold, {{with braces}} and é"),
            }
        };
    }
    macro_rules! reference {
        ($c:tt, $($t:tt)*) => { std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| format!($($t)*))) };
    }
    macro_rules! fallible {
        ($c:tt, $($t:tt)*) => { sut_catch(|| fallible_collections::tryformat!($c, $($t)*)) };
    }
    let want: Option<String> = forms!(reference, 0).ok();
    panic_message();
    let len = want.as_ref().map_or(0, |s| s.len());
    let cap: usize = match w[2] {
        5000 => usize::MAX,
        5001 => isize::MAX as usize + 1,
        5002 => 1 << 40,
        // the request is refused although it might be met
        c if c > 5002 => 1 << (c - 5003),
        c => {
            let c = len as i64 + c as i64 - 1000;
            if c < 0 {
                return Ok(());
            }
            c as usize
        }
    };
    let impossible = w[2] >= 5000;
    tr!("tryformat!(cap {cap}, form {form}, pieces {pcs:?}) fault {fault}; format! gives {want:?}");
    r().ncmp = 0;
    if pan > 0 {
        r().plan_panic(FMT, pan as u64 - 1);
    }
    // how much text a failing argument writes first is unknown: refusals are judged for working ones
    if w[2] > 5002 {
        l().arm(2, 0);
    } else if fault > 0 && want.is_some() {
        l().arm(2 - (fault & 1) as u8, (fault as u64 - 1) / 2);
    } else {
        l().arm(0, 0);
    }
    step();
    let got = forms!(fallible, cap);
    let (nreq, nref) = (l().nreq, l().nrefused);
    r().panic_mask = 0;
    state(hash64([form as u64, cap as u64, len as u64, nreq, nref]));
    match got {
        Err(Caught::Injected) => {
            nontrivial();
            leak_ok();
        }
        Err(Caught::Other(m)) => {
            ensure!(want.is_none(), "panicked: {m}");
        }
        Ok(Err(_)) => {
            nontrivial();
            ensure!(nref > 0 || impossible, "error although no memory was refused");
            ensure!(r().ncmp == 0, "arguments were evaluated although the initial request was refused");
            let _ = form;
        }
        Ok(Ok(s)) => {
            ensure!(nref == 0 && !impossible, "succeeded although memory was refused");
            match &want {
                None => return Err("succeeded although a formatting implementation failed".into()),
                Some(t) => ensure!(&s == t, "got {:?}, format! gives {:?} (lengths {}, {})", cut(&s), cut(t), s.len(), t.len()),
            }
            if cap >= len {
                nontrivial();
                ensure!(nreq <= 1, "{nreq} memory requests for text of {len} bytes within capacity {cap}");
                ensure!(nreq == (cap > 0) as u64, "{nreq} requests for capacity {cap}");
            }
            ensure!(s.capacity() >= cap, "capacity {} for stated {cap}", s.capacity());
            drop_in_sut(s);
        }
    }
    Ok(())
}
pub fn fmt_all(e: &Eng, fam: u32, panics: bool) {
    let depth = if e.thorough { 5 } else { 3 };
    let mut scripts: Vec<Vec<u32>> = vec![vec![]];
    let mut last = scripts.clone();
    for _ in 0..depth {
        let mut nx = Vec::new();
        for s in &last {
            for a in 0..=FMT_ERR {
                let mut t = s.clone();
                t.push(a);
                nx.push(t);
            }
        }
        scripts.extend(nx.iter().cloned());
        last = nx.into_iter().filter(|s| *s.last().unwrap() != FMT_ERR).collect();
    }
    let n0 = e.cases_so_far();
    let caps: Vec<u32> = (940..=1004).chain([1009, 1033, 1200]).collect();
    e.par(scripts.len(), |i| {
        let s = &scripts[i];
        for form in 0..NFORMS {
            if s.len() > 2 && matches!(form, 4 | 5 | 6 | 7 | 9 | 10 | 11 | 12) || !s.is_empty() && (14..NFORMS).contains(&form) && form != 20 {
                continue;
            }
            for c in &caps {
                if s.len() > 2 && *c < 990 {
                    continue;
                }
                let mut w = vec![fam, form, *c, 0, 0];
                w.extend(s);
                if panics {
                    if *c < 997 {
                        continue;
                    }
                    for p in 1..=s.len() as u32 + 2 {
                        w[4] = p;
                        e.case(&w);
                    }
                    continue;
                }
                e.case(&w);
                // refusals are judged only where the text fits: beyond that the documentation warns
                if *c >= 1000 {
                    for f in 1..=4 {
                        w[3] = f;
                        e.case(&w);
                    }
                }
            }
            for c in (5000..5003).chain(5003 + 11..5003 + 63) {
                if c > 5002 && s.len() > 1 {
                    break;
                }
                let mut w = vec![fam, form, c, 0, 0];
                w.extend(s);
                if !panics {
                    e.case(&w);
                }
            }
        }
    });
    e.section("format scripts", e.cases_so_far() - n0);
    if panics {
        return;
    }
    let mut cs = Vec::new();
    for p in 7..=(if e.thorough { 18 } else { 17 }) {
        for n in (1u32 << p) - 1..=(1 << p) + 1 {
            for base in [10000, 1000000] {
                for form in [0, 1, 8] {
                    for c in [0, 872, 990, 999, 1000, 1001, 1024, 2000, 2001] {
                        for f in 0..=(if c >= 1000 { 4 } else { 0 }) {
                            cs.push(vec![fam, form, c, f, 0, 2, base + n]);
                        }
                    }
                }
            }
        }
    }
    e.all("long texts", cs);
    let n0 = e.cases_so_far();
    e.par(if e.thorough { 4200 } else { 1100 }, |n| {
        for base in [10000, 1000000] {
            for form in [0, 1, 8] {
                for c in [980, 992, 999, 1000, 1001, 1002, 1005, 1008, 1016, 1032, 1100] {
                    for f in 0..=(if c >= 1000 { 3 } else { 0 }) {
                        e.case(&[fam, form, c, f, 0, 2, base + n as u32]);
                        e.case(&[fam, form, c, f, 0, base + n as u32, 2, 3]);
                    }
                }
            }
        }
    });
    e.section("texts of every length to a thousand", e.cases_so_far() - n0);
}

// ------------------------------------------------------------------ boxes and shared pointers
fn block_of(p: usize) -> Option<(usize, usize)> {
    l().blocks().into_iter().find(|b| p >= b.0 && p < b.0 + b.1.max(1))
}
/// words: [family, kind(0 Box 1 TryBox 2 Rc 3 Arc), type, fault, ops..]
pub fn ptr(w: &[u32]) -> Res {
    match w[2] {
        0 => ptr_t::<El>(w),
        1 => ptr_t::<u8>(w),
        2 => ptr_t::<u64>(w),
        3 => ptr_t::<Zst>(w),
        4 => ptr_t::<Big>(w),
        5 => ptr_t::<Al64>(w),
        6 => ptr_t::<Al16>(w),
        7 => ptr_t::<Al32>(w),
        8 => ptr_t::<Al128>(w),
        9 => ptr_t::<B3>(w),
        10 => ptr_t::<B300>(w),
        11 => ptr_t::<Unit64>(w),
        12 => ptr_t::<W2>(w),
        14 => ptr_t::<B5000>(w),
        15 => ptr_t::<Al4096>(w),
        16 => ptr_t::<K256>(w),
        _ => ptr_t::<Unit>(w),
    }
}
pub const NPT: u32 = 17;
fn ptr_t<T: Elt>(w: &[u32]) -> Res {
    let (kind, fault) = (w[1], w[3]);
    zst_reset();
    let kname = ["Box", "TryBox", "Rc", "Arc"][kind as usize];
    tr!("{kname}<{}>::try_new, fault {fault}", T::NAME);
    let arm = || {
        if fault > 0 {
            l().arm(2 - (fault & 1) as u8, (fault as u64 - 1) / 2);
        } else {
            l().arm(0, 0);
        }
    };
    enum P<T> {
        B(Box<T>),
        T(TryBox<T>),
        R(Rc<T>),
        A(Arc<T>),
    }
    let mut id = None;
    let v0 = T::mk(77);
    if let Some(i) = v0.id() {
        id = Some(i);
    }
    step();
    // a shared pointer whose later requests are refused may abort: observe that from outside
    if kind >= 2 && fault > 0 {
        let ex = crate::sys::forked(
            || {
                arm();
                let x = sut_catch(|| match kind {
                    2 => <Rc<T> as FallibleRc<T>>::try_new(T::mk(7)).is_err(),
                    _ => <Arc<T> as FallibleArc<T>>::try_new(T::mk(7)).is_err(),
                });
                match x {
                    Ok(err) => {
                        if err == (l().nrefused > 0) {
                            0
                        } else {
                            20
                        }
                    }
                    Err(_) => 21,
                }
            },
            60,
        );
        nontrivial();
        let k = (fault - 1) / 2;
        match ex {
            crate::sys::Exit::Code(0) => {}
            other => {
                std::mem::forget(v0);
                leak_ok();
                r().live = 0;
                let what = match other {
                    crate::sys::Exit::Code(20) => "wrong result".to_string(),
                    crate::sys::Exit::Code(21) => "panicked".to_string(),
                    crate::sys::Exit::Code(c) => format!("ended with code {c}"),
                    crate::sys::Exit::Signal(s) => crate::sys::signame(s),
                };
                // identified by the site, the build and how it fails: the second request only
                // (a zero-sized value needs no box, so the Rc block is its first request)
                let first = (std::mem::size_of::<T>() > 0) as u32;
                let only_second = matches!(other, crate::sys::Exit::Signal(6)) && k == first && !cfg!(feature = "unstable");
                if only_second && !flag(CLASS) {
                    return Ok(()); // the abort itself is C01's business
                }
                return Err(Fail {
                    key: if only_second { format!("{}-try_new-request1-abort-stable", kname.to_lowercase()) } else { String::new() },
                    msg: format!("{kname}::try_new with request {k}{} refused: {what}", if fault & 1 == 0 { " and later" } else { "" }),
                });
            }
        }
    }
    arm();
    let res = sut_catch(|| match kind {
        0 => <Box<T> as FallibleBox<T>>::try_new(v0).map(P::B),
        1 => TryBox::try_new(v0).map(P::T),
        2 => <Rc<T> as FallibleRc<T>>::try_new(v0).map(P::R),
        _ => <Arc<T> as FallibleArc<T>>::try_new(v0).map(P::A),
    });
    let (nreq, nref) = (l().nreq, l().nrefused);
    let p = match res {
        Err(Caught::Injected) => return Err("unexpected injected panic".into()),
        Err(Caught::Other(m)) => return Err(format!("{kname}::try_new panicked: {m}").into()),
        Ok(Err(_)) => {
            nontrivial();
            ensure!(nref > 0, "{kname}::try_new failed although nothing was refused");
            if let Some(i) = id {
                ensure!(!r().is_live(i), "{kname}::try_new failed and the value was not destroyed");
            }
            ensure!(zst_live() == 0, "{kname}::try_new failed and the value was not destroyed");
            ensure!(l().live_blocks == 0, "{kname}::try_new failed and kept {} block(s)", l().live_blocks);
            return Ok(());
        }
        Ok(Ok(p)) => p,
    };
    ensure!(nref == 0, "{kname}::try_new succeeded although memory was refused");
    if id.is_some() {
        ensure!(r().is_live(id.unwrap()), "value destroyed while owned");
    }
    let sz = std::mem::size_of::<T>();
    let al = std::mem::align_of::<T>();
    let _ = nreq;
    let check = |t: &T| -> Res {
        let a = t as *const T as usize;
        ensure!(a % al == 0, "{kname}: address {a:#x} is not aligned to {al}");
        ensure!(t.key() == T::norm(77), "{kname}: holds {} instead of the value put in", t.key());
        ensure!(t.id() == id, "{kname}: holds a different object");
        if sz > 0 {
            ensure!(block_of(a).is_some_and(|b| b.1 >= sz && a + sz <= b.0 + b.1), "{kname}: value is not inside one live block");
        }
        Ok(())
    };
    state(hash64(w.iter().map(|x| *x as u64)));
    match p {
        P::B(b) => {
            check(&b)?;
            if sz > 0 {
                ensure!(l().live_blocks == 1, "box holds {} blocks", l().live_blocks);
            } else {
                ensure!(l().live_blocks == 0, "zero-sized box holds memory");
            }
            match w[4] {
                0 => drop_in_sut(b),
                1 => {
                    let x: T = sut(|| *b);
                    ensure!(x.key() == T::norm(77) && x.id() == id, "unboxed value differs");
                    ensure!(l().live_blocks == 0, "memory kept after unboxing");
                    drop_in_sut(x);
                }
                2 => {
                    let raw = Box::into_raw(b);
                    let b = unsafe { Box::from_raw(raw) };
                    check(&b)?;
                    drop_in_sut(b);
                }
                3 => {
                    let mut b = b;
                    sut(|| *b = T::mk(5));
                    ensure!(b.key() == T::norm(5), "assignment through the box lost");
                    if let Some(i) = id {
                        ensure!(!r().is_live(i), "old value not destroyed on assignment");
                    }
                    drop_in_sut(b);
                }
                4 => {
                    let a = sut(|| Arc::<T>::from(b));
                    check(&a)?;
                    drop_in_sut(a);
                }
                5 => {
                    let c = sut(|| b.try_clone());
                    let c = match c {
                        Ok(c) => c,
                        Err(_) => return Err("try_clone failed with memory available".into()),
                    };
                    check(&b)?;
                    ensure!(c.key() == T::norm(77), "clone holds a different value");
                    ensure!(id.is_none() || c.id() != id, "clone is a bitwise duplicate");
                    ensure!(sz == 0 || &*c as *const T != &*b as *const T, "clone shares storage");
                    drop_in_sut(b);
                    ensure!(c.key() == T::norm(77), "clone changed when the source was dropped");
                    drop_in_sut(c);
                }
                _ => {
                    let pin = sut(|| Box::into_pin(b));
                    check(&pin)?;
                    drop_in_sut(pin);
                }
            }
        }
        P::T(b) => {
            check(&b)?;
            match w[4] {
                0 => drop_in_sut(b),
                1 | 2 => {
                    let raw = TryBox::into_raw(b);
                    check(unsafe { &*raw })?;
                    if w[4] == 1 {
                        let b = unsafe { TryBox::from_raw(raw) };
                        check(&b)?;
                        drop_in_sut(b);
                    } else {
                        let b = unsafe { Box::from_raw(raw) };
                        check(&b)?;
                        drop_in_sut(b);
                    }
                }
                3 => {
                    let raw = sut(|| Box::into_raw(Box::new(T::mk(31))));
                    let b2 = unsafe { TryBox::from_raw(raw) };
                    ensure!(b2.key() == T::norm(31), "from_raw holds a different value");
                    drop_in_sut(b2);
                    drop_in_sut(b);
                }
                4 => {
                    let o = Some(b);
                    check(o.as_deref().unwrap())?;
                    drop_in_sut(o);
                }
                _ => {
                    let c = sut(|| b.try_clone());
                    let Ok(c) = c else { return Err("try_clone failed with memory available".into()) };
                    check(&b)?;
                    ensure!(c.key() == T::norm(77), "clone holds a different value");
                    ensure!(id.is_none() || c.id() != id, "clone is a bitwise duplicate");
                    ensure!(sz == 0 || &*c as *const T != &*b as *const T, "clone shares storage");
                    drop_in_sut(b);
                    drop_in_sut(c);
                }
            }
        }
        P::R(p) => {
            check(&p)?;
            ensure!(Rc::strong_count(&p) == 1 && Rc::weak_count(&p) == 0, "fresh Rc has {} strong and {} weak references", Rc::strong_count(&p), Rc::weak_count(&p));
            let mut p = p;
            ensure!(Rc::get_mut(&mut p).is_some(), "fresh Rc is not unique");
            let mut hs: Vec<Rc<T>> = vec![p];
            let mut ws: Vec<std::rc::Weak<T>> = vec![];
            for o in &w[4..] {
                step();
                let (op, i) = (o / 4, (o % 4) as usize);
                if i >= hs.len() {
                    continue;
                }
                match op {
                    0 => hs.push(sut(|| hs[i].clone())),
                    1 => {
                        let h = hs.swap_remove(i);
                        drop_in_sut(h)
                    }
                    2 => {
                        let h = hs.swap_remove(i);
                        match sut(|| Rc::try_unwrap(h)) {
                            Ok(x) => {
                                ensure!(hs.is_empty(), "unwrapped while shared");
                                ensure!(x.key() == T::norm(77) && x.id() == id, "unwrapped a different value");
                                drop_in_sut(x)
                            }
                            Err(h) => {
                                ensure!(!hs.is_empty(), "unique Rc refused to unwrap");
                                hs.push(h)
                            }
                        }
                    }
                    3 => {
                        let n = hs.len();
                        let m = Rc::get_mut(&mut hs[i]).is_some();
                        ensure!(m == (n == 1 && ws.is_empty()), "get_mut {m} with {n} handles");
                    }
                    4 => ws.push(Rc::downgrade(&hs[i])),
                    _ => {
                        let raw = Rc::into_raw(hs.swap_remove(i));
                        hs.push(unsafe { Rc::from_raw(raw) });
                    }
                }
                for h in &hs {
                    check(h)?;
                    ensure!(Rc::strong_count(h) == hs.len(), "strong count {} with {} handles", Rc::strong_count(h), hs.len());
                }
                if hs.is_empty() {
                    for x in &ws {
                        ensure!(x.upgrade().is_none(), "upgraded after the last owner went");
                    }
                    if let Some(i) = id {
                        ensure!(!r().is_live(i), "value outlives its owners");
                    }
                }
            }
            sut(|| hs.clear());
            sut(|| ws.clear());
        }
        P::A(p) => {
            check(&p)?;
            ensure!(Arc::strong_count(&p) == 1 && Arc::weak_count(&p) == 0, "fresh Arc has {} strong and {} weak references", Arc::strong_count(&p), Arc::weak_count(&p));
            let mut p = p;
            ensure!(Arc::get_mut(&mut p).is_some(), "fresh Arc is not unique");
            let mut hs: Vec<Arc<T>> = vec![p];
            let mut ws: Vec<std::sync::Weak<T>> = vec![];
            for o in &w[4..] {
                step();
                let (op, i) = (o / 4, (o % 4) as usize);
                if i >= hs.len() {
                    continue;
                }
                match op {
                    0 => {
                        l().arm(2, 0);
                        let c = sut(|| TryClone::try_clone(&hs[i]));
                        l().disarm();
                        let Ok(c) = c else { return Err("Arc::try_clone failed".into()) };
                        ensure!(Arc::ptr_eq(&c, &hs[i]), "Arc::try_clone made a different allocation");
                        hs.push(c)
                    }
                    1 => {
                        let h = hs.swap_remove(i);
                        drop_in_sut(h)
                    }
                    2 => {
                        let h = hs.swap_remove(i);
                        match sut(|| Arc::try_unwrap(h)) {
                            Ok(x) => {
                                ensure!(hs.is_empty(), "unwrapped while shared");
                                ensure!(x.key() == T::norm(77) && x.id() == id, "unwrapped a different value");
                                drop_in_sut(x)
                            }
                            Err(h) => {
                                ensure!(!hs.is_empty(), "unique Arc refused to unwrap");
                                hs.push(h)
                            }
                        }
                    }
                    3 => {
                        let n = hs.len();
                        let m = Arc::get_mut(&mut hs[i]).is_some();
                        ensure!(m == (n == 1 && ws.is_empty()), "get_mut {m} with {n} handles");
                    }
                    4 => ws.push(Arc::downgrade(&hs[i])),
                    _ => {
                        let raw = Arc::into_raw(hs.swap_remove(i));
                        hs.push(unsafe { Arc::from_raw(raw) });
                    }
                }
                for h in &hs {
                    check(h)?;
                    ensure!(Arc::strong_count(h) == hs.len(), "strong count {} with {} handles", Arc::strong_count(h), hs.len());
                }
                if hs.is_empty() {
                    for x in &ws {
                        ensure!(x.upgrade().is_none(), "upgraded after the last owner went");
                    }
                    if let Some(i) = id {
                        ensure!(!r().is_live(i), "value outlives its owners");
                    }
                }
            }
            sut(|| hs.clear());
            sut(|| ws.clear());
        }
    }
    ensure!(zst_live() == 0, "{} zero-sized value(s) not destroyed", zst_live());
    if let Some(i) = id {
        ensure!(!r().is_live(i), "{kname}: value never destroyed");
    }
    ensure!(l().live_blocks == 0, "{kname}: {} block(s) never released", l().live_blocks);
    off(|| ());
    Ok(())
}
pub fn ptr_all(e: &Eng, fam: u32, deep: u32) {
    let mut cs = Vec::new();
    for ty in 0..NPT {
        for f in 0..=8 {
            for d in 0..7 {
                cs.push(vec![fam, 0, ty, f, d]);
                if d < 6 {
                    cs.push(vec![fam, 1, ty, f, d]);
                }
            }
            if f > 0 {
                cs.push(vec![fam, 2, ty, f]);
                cs.push(vec![fam, 3, ty, f]);
            }
        }
        for kind in 2..4 {
            let mut last: Vec<Vec<u32>> = vec![vec![fam, kind, ty, 0]];
            let d = if ty < 6 { deep } else if ty < 14 { deep - 1 } else { 2.min(deep - 1) };
            for _ in 0..d {
                let mut nx = Vec::new();
                for s in &last {
                    for op in 0..6 {
                        for i in 0..3 {
                            let mut t = s.clone();
                            t.push(op * 4 + i);
                            nx.push(t);
                        }
                    }
                }
                last = nx;
            }
            cs.extend(last);
        }
    }
    e.all("pointers: every disposal, sharing sequence and refused request", cs);
}
