//! Exhaustive case engine: a supervisor forks a worker; the worker runs enumerated cases on all cores;
//! every case is a deterministic function of a vector of words, so it can be replayed alone.
use crate::elem::r;
use crate::ledger::{l, off};
use crate::sys;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;
impl From<String> for Fail {
    fn from(msg: String) -> Fail {
        Fail { key: String::new(), msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Fail {
        Fail { key: String::new(), msg: msg.to_string() }
    }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c { return Err($crate::engine::Fail::from(format!($($a)*))) }
    };
}
/// Trace line, only materialised when a case is being replayed or sampled.
#[macro_export]
macro_rules! tr {
    ($($a:tt)*) => {
        if $crate::engine::tracing() { $crate::engine::trace_line(format!($($a)*)) }
    };
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&Eng),
    pub case: fn(&[u32]) -> Res,
    /// blocks or elements left over at the end of a case count as a violation of this property
    pub leaks: bool,
}

const SLOTS: usize = 32;
const W: usize = 8192;
const OUTCAP: usize = 8 << 20;
#[repr(C)]
struct Slot {
    seq: AtomicU64,
    busy: AtomicU32,
    len: AtomicU32,
    words: [AtomicU32; W],
    /// the cases run before this one: a crash can be the late effect of an earlier case
    ring: [[AtomicU32; RW + 1]; RN],
}
const RW: usize = 200;
const RN: usize = 64;
#[repr(C)]
struct Shared {
    slots: [Slot; SLOTS],
    outlen: AtomicUsize,
    out: [std::sync::atomic::AtomicU8; OUTCAP],
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: u64,
    steps: u64,
    states: HashSet<u64>,
    counters: BTreeMap<&'static str, u64>,
    maxima: BTreeMap<&'static str, u64>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.nontrivial += o.nontrivial;
        self.steps += o.steps;
        self.states.extend(o.states);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_default();
            *e = (*e).max(v);
        }
    }
}
struct Tls {
    slot: usize,
    st: Stats,
    nontrivial: bool,
    trace: Option<Vec<String>>,
    panic_msg: Option<String>,
    pub out: Vec<u64>,
    leak_ok: bool,
}
thread_local! {
    static T: RefCell<Tls> = RefCell::new(Tls { slot: 0, st: Stats::default(), nontrivial: false, trace: None, panic_msg: None, out: Vec::new(), leak_ok: false });
    static TRACING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn t<R>(f: impl FnOnce(&mut Tls) -> R) -> R {
    off(|| T.with(|x| f(&mut x.borrow_mut())))
}
pub fn tracing() -> bool {
    TRACING.with(|x| x.get())
}
static LIVE: AtomicBool = AtomicBool::new(false);
pub fn trace_line(s: String) {
    if LIVE.load(SeqCst) {
        off(|| println!("  {s}"));
        return;
    }
    t(|x| {
        if let Some(v) = &mut x.trace {
            v.push(s)
        }
    })
}
/// one transition of the explored system
pub fn step() {
    t(|x| x.st.steps += 1)
}
/// a state of the explored system was reached
pub fn state(fp: u64) {
    t(|x| {
        x.st.states.insert(fp);
    })
}
pub fn nontrivial() {
    t(|x| x.nontrivial = true)
}
pub fn count(name: &'static str, n: u64) {
    t(|x| *x.st.counters.entry(name).or_default() += n)
}
pub fn maximum(name: &'static str, n: u64) {
    t(|x| {
        let e = x.st.maxima.entry(name).or_default();
        *e = (*e).max(n)
    })
}
/// the current case may leave elements or blocks behind (a caller-supplied panic interrupted it)
pub fn leak_ok() {
    t(|x| x.leak_ok = true)
}
/// pass a number from a case to the enumerator that started it
pub fn emit(v: u64) {
    t(|x| x.out.push(v))
}
pub fn panic_message() -> Option<String> {
    t(|x| x.panic_msg.take())
}

/// Run code under test with the ledger recording.
#[inline]
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    let w = l().set(true);
    let x = f();
    l().set(w);
    x
}
/// As `sut`, with memory refusal armed; returns (result, requests made, requests refused).
pub fn sut_fault<R>(mode: u8, k: u64, f: impl FnOnce() -> R) -> (R, u64, u64) {
    l().arm(mode, k);
    let x = sut(f);
    l().disarm();
    (x, l().nreq, l().nrefused)
}
pub enum Caught {
    Injected,
    Other(String),
}
/// As `sut`, catching panics.
pub fn sut_catch<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    let w = l().set(true);
    let x = catch_unwind(AssertUnwindSafe(f));
    l().disarm();
    let res = match x {
        Ok(v) => Ok(v),
        Err(p) => {
            let inj = p.downcast_ref::<crate::elem::Injected>().is_some();
            drop(p);
            if inj {
                Err(Caught::Injected)
            } else {
                Err(Caught::Other(String::new()))
            }
        }
    };
    l().set(w);
    match res {
        Err(Caught::Other(_)) => Err(Caught::Other(panic_message().unwrap_or("panic".into()))),
        x => x,
    }
}

pub fn hash64(words: impl IntoIterator<Item = u64>) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for w in words {
        h ^= w;
        h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    h ^ (h >> 32)
}

pub struct Eng {
    pub thorough: bool,
    pub only: Option<String>,
    prop: &'static Prop,
    shared: &'static Shared,
    stop: AtomicBool,
    glob: Mutex<Stats>,
    viol: Mutex<Vec<(Vec<u32>, String)>>,
    known_hit: Mutex<BTreeMap<String, (u64, Vec<u32>)>>,
    known: HashSet<String>,
    samples: Mutex<Vec<Vec<u32>>>,
    nsample: AtomicU64,
    sections: Mutex<Vec<(String, u64)>>,
    pub threads: usize,
    at: Mutex<std::time::Instant>,
}

impl Eng {
    pub fn stopped(&self) -> bool {
        self.stop.load(SeqCst)
    }
    /// Run one case to its end; true if it held.
    pub fn case(&self, words: &[u32]) -> bool {
        if self.stopped() {
            return false;
        }
        let s = T.with(|x| x.borrow().slot);
        let slot = &self.shared.slots[s];
        if words.len() > W {
            sys::die("case too long");
        }
        let seq = slot.seq.load(SeqCst) as usize;
        if words.len() <= RW {
            let g = &slot.ring[seq % RN];
            g[0].store(words.len() as u32, std::sync::atomic::Ordering::Relaxed);
            for (i, w) in words.iter().enumerate() {
                g[i + 1].store(*w, std::sync::atomic::Ordering::Relaxed);
            }
        }
        slot.len.store(words.len() as u32, SeqCst);
        for (i, w) in words.iter().enumerate() {
            slot.words[i].store(*w, std::sync::atomic::Ordering::Relaxed);
        }
        slot.busy.store(1, SeqCst);
        slot.seq.fetch_add(1, SeqCst);
        let res = run_case(self.prop, words);
        slot.busy.store(0, SeqCst);
        let n = self.nsample.fetch_add(1, SeqCst);
        if n.is_power_of_two() && n >= 16 || n == 3 {
            self.samples.lock().unwrap().push(words.to_vec());
        }
        match res {
            Ok(()) => true,
            Err(f) => {
                if !f.key.is_empty() && self.known.contains(&f.key) {
                    let mut k = self.known_hit.lock().unwrap();
                    let e = k.entry(f.key).or_insert((0, words.to_vec()));
                    e.0 += 1;
                    return true;
                }
                let mut v = self.viol.lock().unwrap();
                v.push((words.to_vec(), f.msg));
                if v.len() >= 8 || true {
                    self.stop.store(true, SeqCst);
                }
                false
            }
        }
    }
    /// values emitted by the cases run on this thread since the last call
    pub fn take(&self) -> Vec<u64> {
        t(|x| std::mem::take(&mut x.out))
    }
    /// Run f(0..n) on all cores.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let chunk = (n / (self.threads * 64)).clamp(1, 64);
        std::thread::scope(|sc| {
            for s in 0..self.threads {
                let next = &next;
                let f = &f;
                let th = std::thread::Builder::new().stack_size(64 << 20); // large values pass over the stack
                let started = th.spawn_scoped(sc, move || {
                    t(|x| x.slot = s);
                    'o: loop {
                        let a = next.fetch_add(chunk, SeqCst);
                        if a >= n {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            if self.stopped() {
                                break 'o;
                            }
                            f(i);
                        }
                    }
                    let st = t(|x| std::mem::take(&mut x.st));
                    self.glob.lock().unwrap().merge(st);
                    unsafe { l().release_table() };
                });
                started.expect("starting a worker thread failed");
            }
        });
    }
    /// Run all given cases on all cores.
    pub fn all(&self, name: &str, cases: Vec<Vec<u32>>) {
        let n0 = self.nsample.load(SeqCst);
        self.par(cases.len(), |i| {
            self.case(&cases[i]);
        });
        self.section(name, self.nsample.load(SeqCst) - n0);
    }
    pub fn section(&self, name: &str, n: u64) {
        self.sections.lock().unwrap().push((name.to_string(), n));
        if std::env::var("MC_VERBOSE").is_ok() {
            let mut at = self.at.lock().unwrap();
            eprintln!("SECTION {:8.2} s {n:10} cases  {name}", at.elapsed().as_secs_f64());
            *at = std::time::Instant::now();
        }
    }
    pub fn cases_so_far(&self) -> u64 {
        self.nsample.load(SeqCst)
    }
}

/// One case, on the current thread.
pub fn run_case(p: &Prop, words: &[u32]) -> Res {
    r().reset();
    l().reset();
    l().take_err();
    r().err = None;
    t(|x| {
        x.nontrivial = false;
        x.panic_msg = None;
        x.leak_ok = false;
    });
    let res = catch_unwind(AssertUnwindSafe(|| (p.case)(words)));
    l().set(false);
    l().disarm();
    let mut fail: Option<Fail> = match res {
        Ok(Ok(())) => None,
        Ok(Err(f)) => Some(f),
        Err(_) => Some(Fail::from(format!(
            "unexpected panic: {}",
            panic_message().unwrap_or("(injected)".into())
        ))),
    };
    let rerr = r().err.take();
    let live = r().reset();
    let (lb, lby) = l().reset();
    let lerr = l().take_err();
    if fail.is_none() {
        if let Some(e) = rerr {
            fail = Some(e.into());
        } else if let Some(e) = lerr {
            fail = Some(e.into());
        } else if p.leaks && !t(|x| x.leak_ok) {
            if live != 0 {
                fail = Some(format!("{live} element(s) never destroyed").into());
            } else if lb != 0 {
                fail = Some(format!("{lb} block(s) ({lby} bytes) never released").into());
            }
        }
    } else if let Some(f) = &mut fail {
        if let Some(e) = rerr.or(lerr) {
            f.msg = format!("{}; also: {e}", f.msg);
        }
    }
    t(|x| {
        x.st.evals += 1;
        x.st.nontrivial += x.nontrivial as u64;
    });
    match fail {
        None => Ok(()),
        Some(f) => Err(f),
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        l().disarm();
        off(|| {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            let m = match info.location() {
                Some(l) => format!("{m} at {}:{}", l.file(), l.line()),
                None => m,
            };
            t(|x| x.panic_msg = Some(m));
        })
    }));
}

const RUNAWAY: i32 = 77;
pub fn crash_exit(_code: i32) -> ! {
    unsafe { sys::_exit(RUNAWAY) }
}

/// Trace of one case, for samples.
fn traced(p: &Prop, words: &[u32], cap: usize) -> (Res, Vec<String>) {
    t(|x| x.trace = Some(Vec::new()));
    TRACING.with(|x| x.set(true));
    let res = run_case(p, words);
    TRACING.with(|x| x.set(false));
    let mut v = t(|x| x.trace.take().unwrap());
    if v.len() > cap {
        let n = v.len();
        v.truncate(cap);
        v.push(format!("... ({} more steps)", n - cap));
    }
    (res, v)
}

/// exit code of a forked single-case run: 0 held, 10 failed
fn solo(p: &'static Prop, words: &[u32], known: &HashSet<String>) -> Option<String> {
    let e = sys::forked(
        || {
            sys::mute_stderr();
            match run_case(p, words) {
                Ok(()) => 0,
                Err(f) if !f.key.is_empty() && known.contains(&f.key) => 0,
                Err(_) => 10,
            }
        },
        100,
    );
    match e {
        sys::Exit::Code(0) => None,
        sys::Exit::Code(10) => Some("property violated".into()),
        sys::Exit::Code(RUNAWAY) => Some("an operation does not terminate (step bound exceeded)".into()),
        sys::Exit::Code(70) => Some("one bounded case makes more memory requests or elements than any correct run".into()),
        sys::Exit::Code(c) => Some(format!("process ended with code {c}")),
        sys::Exit::Signal(14) => Some("an operation does not terminate".into()),
        sys::Exit::Signal(s) => Some(format!("process killed by {}", sys::signame(s))),
    }
}

pub struct Opts {
    pub thorough: bool,
    pub out: String,
    pub replay_dir: String,
    pub known: HashSet<String>,
    pub config: String,
    pub only: Option<String>,
}

pub fn run(p: &'static Prop, o: &Opts) -> i32 {
    sys::no_core();
    install_hook();
    crate::props::set_flags(p.id);
    let shared: &'static Shared = sys::shared();
    let t0 = std::time::Instant::now();
    let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16)
    });
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        sys::die_with_parent();
        worker(p, o, shared, threads);
    }
    // supervise
    let mut last: Vec<(u64, std::time::Instant)> = vec![(0, t0); SLOTS];
    let end = loop {
        if let Some(e) = sys::try_wait(pid) {
            break Some(e);
        }
        unsafe { sys::usleep(3000) };
        let now = std::time::Instant::now();
        let mut hung = false;
        for s in 0..SLOTS {
            let q = shared.slots[s].seq.load(SeqCst);
            if q != last[s].0 || shared.slots[s].busy.load(SeqCst) == 0 {
                last[s] = (q, now);
            } else if (now - last[s].1).as_secs() > 100 {
                hung = true;
            }
        }
        if hung {
            unsafe { sys::kill(pid, 9) };
            sys::wait(pid);
            break None;
        }
    };
    let mut viol: Vec<(Vec<u32>, String)> = Vec::new();
    let mut body = String::new();
    match end {
        Some(sys::Exit::Code(0)) => {
            let n = shared.outlen.load(SeqCst);
            let bytes: Vec<u8> = (0..n).map(|i| shared.out[i].load(SeqCst)).collect();
            let s = String::from_utf8_lossy(&bytes).into_owned();
            // "V words|msg" lines, then body
            for line in s.lines() {
                if let Some(rest) = line.strip_prefix("V ") {
                    let (w, m) = rest.split_once('|').unwrap();
                    viol.push((
                        w.split_whitespace().map(|x| x.parse().unwrap()).collect(),
                        m.to_string(),
                    ));
                } else {
                    body.push_str(line);
                    body.push('\n');
                }
            }
        }
        other => {
            let why = match other {
                None => "an operation does not terminate".to_string(),
                Some(sys::Exit::Code(RUNAWAY)) => "an operation does not terminate (step bound exceeded)".to_string(),
                Some(sys::Exit::Code(c)) => format!("worker ended with code {c}"),
                Some(sys::Exit::Signal(s)) => format!("process killed by {}", sys::signame(s)),
            };
            if let Some(sys::Exit::Code(101)) = other {
                eprintln!("mc: the enumerator itself panicked");
                return 70;
            }
            if let Some(sys::Exit::Signal(9)) = other {
                eprintln!("mc: worker was killed from outside (memory?)");
                return 70;
            }
            let mut cands = Vec::new();
            for s in 0..SLOTS {
                let sl = &shared.slots[s];
                if sl.busy.load(SeqCst) == 1 {
                    let n = sl.len.load(SeqCst) as usize;
                    cands.push((0..n).map(|i| sl.words[i].load(SeqCst)).collect::<Vec<u32>>());
                }
            }
            for c in &cands {
                if let Some(m) = solo(p, c, &o.known) {
                    viol.push((c.clone(), m));
                }
            }
            if viol.is_empty() {
                'r: for back in 1..RN as u64 {
                    for s in 0..SLOTS {
                        let sl = &shared.slots[s];
                        let q = sl.seq.load(SeqCst);
                        if q < back {
                            continue;
                        }
                        let g = &sl.ring[(q - back) as usize % RN];
                        let n = g[0].load(SeqCst) as usize;
                        if n == 0 {
                            continue;
                        }
                        let c = (1..=n).map(|i| g[i].load(SeqCst)).collect::<Vec<u32>>();
                        if let Some(m) = solo(p, &c, &o.known) {
                            viol.push((c, m));
                            break 'r;
                        }
                    }
                }
            }
            if viol.is_empty() {
                let w = cands.into_iter().next().unwrap_or_default();
                viol.push((w, format!("{why} (did not recur when the running cases were repeated alone)")));
            }
            body = "{}\n".to_string();
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut vjson = Vec::new();
    viol.sort_by_key(|v| (v.0.len(), v.0.clone()));
    if let Some((w, m)) = viol.first() {
        code = 1;
        let mut confirmed = 0;
        for _ in 0..2 {
            if solo(p, w, &o.known).is_some() {
                confirmed += 1;
            }
        }
        let ws = w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        let name = format!("{}-{}-{:08x}.replay", p.id, o.config, hash64(w.iter().map(|x| *x as u64)) as u32);
        let path = format!("{}/{}", o.replay_dir, name);
        let _ = std::fs::create_dir_all(&o.replay_dir);
        let txt = format!(
            "property={}\nconfig={}\nmessage={}\nreplayed={}/2 reproduced\ncase={}\n# python3 /verif/check.py replay {}\n",
            p.id, o.config, m, confirmed, ws, path
        );
        let _ = std::fs::write(&path, txt);
        println!("# config {}: {}", o.config, m);
        println!("VIOLATION property={} replay={}", p.id, path);
        vjson.push(format!("{{\"message\":{},\"replay\":{}}}", jstr(m), jstr(&path)));
    }
    let json = format!(
        "{{\"wall_s\":{:.3},\"violations\":[{}],\"body\":{}}}",
        wall,
        vjson.join(","),
        if body.trim().is_empty() { "{}" } else { body.trim() }
    );
    std::fs::write(&o.out, json).expect("write result");
    code
}

fn worker(p: &'static Prop, o: &Opts, shared: &'static Shared, threads: usize) -> ! {
    sys::mute_stderr_unless(std::env::var("MC_VERBOSE").is_ok());
    let e = Eng {
        thorough: o.thorough,
        only: o.only.clone(),
        prop: p,
        shared,
        stop: AtomicBool::new(false),
        glob: Mutex::new(Stats::default()),
        viol: Mutex::new(vec![]),
        known_hit: Mutex::new(BTreeMap::new()),
        known: o.known.clone(),
        samples: Mutex::new(vec![]),
        nsample: AtomicU64::new(0),
        sections: Mutex::new(vec![]),
        threads,
        at: Mutex::new(std::time::Instant::now()),
    };
    t(|x| x.slot = SLOTS - 1);
    let ok = catch_unwind(AssertUnwindSafe(|| (p.run)(&e)));
    if ok.is_err() {
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("enumerator panicked: {:?}", panic_message());
        }
        unsafe { sys::_exit(101) };
    }
    let own = t(|x| std::mem::take(&mut x.st));
    e.glob.lock().unwrap().merge(own);
    let mut s = String::new();
    for (w, m) in e.viol.lock().unwrap().iter() {
        let ws = w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        s.push_str(&format!("V {ws}|{}\n", m.replace('\n', " / ")));
    }
    let had_violation = !s.is_empty();
    let g = e.glob.lock().unwrap();
    let mut samp = Vec::new();
    if !had_violation {
        let ss = e.samples.lock().unwrap();
        let n = ss.len();
        let mut pick: Vec<usize> = vec![0, n / 3, n / 2, 2 * n / 3, n.saturating_sub(2), n.saturating_sub(1)];
        pick.dedup();
        for i in pick {
            if i < n {
                shared.slots[SLOTS - 1].busy.store(0, SeqCst);
                let (_, lines) = traced(p, &ss[i], 12);
                samp.push(format!(
                    "{{\"case\":[{}],\"trace\":[{}]}}",
                    ss[i].iter().take(64).map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                    lines.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")
                ));
            }
        }
    }
    let ctr: Vec<String> = g.counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let mx: Vec<String> = g.maxima.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let sec: Vec<String> =
        e.sections.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let kh: Vec<String> = e
        .known_hit
        .lock()
        .unwrap()
        .iter()
        .map(|(k, (n, w))| {
            format!(
                "{{\"key\":{},\"times\":{},\"case\":[{}]}}",
                jstr(k),
                n,
                w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    s.push_str(&format!(
        "{{\"evals\":{},\"nontrivial\":{},\"steps\":{},\"states\":{},\"counters\":{{{}}},\"maxima\":{{{}}},\"sections\":{{{}}},\"known\":[{}],\"samples\":[{}]}}\n",
        g.evals, g.nontrivial, g.steps, g.states.len(), ctr.join(","), mx.join(","), sec.join(","), kh.join(","), samp.join(",")
    ));
    let b = s.as_bytes();
    let n = b.len().min(OUTCAP);
    for i in 0..n {
        shared.out[i].store(b[i], std::sync::atomic::Ordering::Relaxed);
    }
    shared.outlen.store(n, SeqCst);
    unsafe { sys::_exit(0) }
}

pub fn replay(p: &'static Prop, words: &[u32]) -> i32 {
    install_hook();
    let e = sys::forked(
        || {
            // print as we go, so that a crash still shows the path to it
            LIVE.store(true, SeqCst);
            let (res, _) = traced(p, words, usize::MAX - 1);
            match res {
                Ok(()) => {
                    println!("held");
                    0
                }
                Err(f) => {
                    println!("FAILED {}: {}", f.key, f.msg);
                    10
                }
            }
        },
        120,
    );
    match e {
        sys::Exit::Code(0) => 0,
        sys::Exit::Code(10) => 1,
        sys::Exit::Code(c) => {
            println!("FAILED: process ended with code {c}");
            1
        }
        sys::Exit::Signal(s) => {
            println!("FAILED: process killed by {}", sys::signame(s));
            1
        }
    }
}
