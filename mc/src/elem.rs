//! Element types with a life-cycle registry, and the plan that makes caller-supplied code misbehave
//! at a chosen invocation.
use crate::ledger::off;
use fallible_collections::{TryClone, TryReserveError};
use std::cell::UnsafeCell;
use std::cmp::Ordering;

pub const CMP: u32 = 1;
pub const CLONE: u32 = 2;
pub const DROP: u32 = 4;
pub const GEN: u32 = 8;
pub const NEXT: u32 = 16;
pub const HASH: u32 = 32;
pub const FMT: u32 = 64;
pub const READ: u32 = 128;
pub const EQ: u32 = 256;

const MAXID: usize = 1 << 18;
const MAGIC: u32 = 0x5EED_CAFE;

pub struct Reg {
    state: *mut u8,
    next: usize,
    pub live: usize,
    pub err: Option<String>,
    pub panic_mask: u32,
    pub panic_at: u64, // fires when the counter of masked ticks reaches this
    pub ticks: u64,
    pub fired: bool,
    pub clone_fail_at: u64, // u64::MAX = never
    pub nclone: u64,
    pub clone_failed: bool,
    pub ncmp: u64,
    pub ndrop: u64,
    pub script: *const u8, // comparator answers: 0 Less, 1 Equal, 2 Greater
    pub script_len: usize,
    pub script_pos: usize,
    pub script_skip: usize,
    pub cmp_limit: u64,
    pub hash_mode: u32, // 0 proper, 1 constant, 2 three values
    pub lie: u32, // hash and equality answer inconsistently in this pattern
    lies: u32,
}
struct Tl(UnsafeCell<Reg>);
thread_local! {
    static R: Tl = const { Tl(UnsafeCell::new(Reg {
        state: std::ptr::null_mut(), next: 0, live: 0, err: None, panic_mask: 0, panic_at: 0, ticks: 0,
        fired: false, clone_fail_at: u64::MAX, nclone: 0, clone_failed: false, ncmp: 0, ndrop: 0,
        script: std::ptr::null(), script_len: 0, script_pos: 0, script_skip: 0, cmp_limit: u64::MAX, hash_mode: 0, lie: 0, lies: 0,
    })) };
}
#[inline(always)]
pub fn r() -> &'static mut Reg {
    R.with(|t| unsafe { &mut *t.0.get() })
}
/// Payload of injected panics.
pub struct Injected;

impl Reg {
    fn flag(&mut self, s: impl FnOnce() -> String) {
        if self.err.is_none() {
            off(|| self.err = Some(s()));
        }
    }
    fn new_id(&mut self) -> u32 {
        if self.state.is_null() {
            off(|| {
                self.state = Box::leak(vec![0u8; MAXID].into_boxed_slice()).as_mut_ptr();
            });
        }
        if self.next >= MAXID {
            crate::sys::die("element registry full (harness limit)");
        }
        let id = self.next;
        self.next += 1;
        self.live += 1;
        unsafe { *self.state.add(id) = 1 };
        id as u32
    }
    pub fn is_live(&self, id: u32) -> bool {
        (id as usize) < self.next && unsafe { *self.state.add(id as usize) == 1 }
    }
    /// End of case: forget everything; returns the number of elements never destroyed.
    pub fn reset(&mut self) -> usize {
        let n = self.live;
        if !self.state.is_null() {
            unsafe { std::ptr::write_bytes(self.state, 0, self.next) };
        }
        self.next = 0;
        self.live = 0;
        self.clear_plan();
        n
    }
    pub fn clear_plan(&mut self) {
        self.panic_mask = 0;
        self.panic_at = 0;
        self.ticks = 0;
        self.fired = false;
        self.clone_fail_at = u64::MAX;
        self.nclone = 0;
        self.clone_failed = false;
        self.ncmp = 0;
        self.ndrop = 0;
        self.script = std::ptr::null();
        self.script_len = 0;
        self.script_pos = 0;
        self.script_skip = 0;
        self.cmp_limit = u64::MAX;
        self.hash_mode = 0;
        self.lie = 0;
        self.lies = 0;
    }
    /// The high half of the mask plans a second fault: from bit 16 on its index, from bit 30 on its kind
    /// (1: a memory request is refused, 2: an element refuses to be cloned).
    pub fn plan_panic(&mut self, mask: u32, at: u64) {
        let k = (mask >> 16 & 0x3fff) as u64;
        match mask >> 30 {
            1 => crate::ledger::l().arm(1, k),
            2 => self.plan_clone_fail(k),
            _ => {}
        }
        let mask = mask & 0xffff;
        self.panic_mask = mask;
        self.panic_at = at;
        self.ticks = 0;
        self.fired = false;
    }
    pub fn plan_clone_fail(&mut self, at: u64) {
        self.clone_fail_at = at;
        self.nclone = 0;
        self.clone_failed = false;
    }
}

/// One invocation of caller-supplied code; panics if the plan says so.
#[inline]
pub fn tick(kind: u32) {
    let g = r();
    if g.panic_mask & kind != 0 {
        let n = g.ticks;
        if kind == DROP && std::thread::panicking() {
            return;
        }
        g.ticks += 1;
        if n == g.panic_at && !std::thread::panicking() {
            g.fired = true;
            let b: Box<dyn std::any::Any + Send> = off(|| Box::new(Injected));
            std::panic::resume_unwind(b);
        }
    }
}

/// The second fault of a planned panic is over; says whether it happened.
pub fn second_fault() -> bool {
    let lg = crate::ledger::l();
    lg.disarm();
    r().clone_fail_at = u64::MAX;
    lg.nrefused > 0 || r().clone_failed
}
/// Enumerates (second fault, panic) pairs: `f(mask, k)` answers Some(bit 0: panicked, bit 1: second fault happened).
pub fn double(masks: &[u32], kinds: &[u32], mut f: impl FnMut(u32, u32) -> Option<u64>) {
    for m in masks {
        for kind in kinds {
            'second: for second in 0..400 {
                for k in 0..400 {
                    match f(m | second << 16 | kind << 30, k) {
                        None => return,
                        Some(x) if x & 1 == 0 => {
                            if x & 2 == 0 {
                                break 'second;
                            }
                            break;
                        }
                        _ => {}
                    }
                }
            }
        }
    }
}

pub fn reserve_error() -> TryReserveError {
    let mut v: Vec<u16> = Vec::new();
    v.try_reserve(usize::MAX).unwrap_err()
}

/// Tracked element: compares by `key`; `id` identifies this very object.
pub struct El {
    pub key: u32,
    pub id: u32,
    magic: u32,
}
impl El {
    pub fn new(key: u32) -> El {
        El { key, id: r().new_id(), magic: MAGIC }
    }
    #[inline]
    pub fn check(&self, what: &str) {
        let g = r();
        if self.magic != MAGIC || !g.is_live(self.id) {
            let (m, id, k) = (self.magic, self.id, self.key);
            g.flag(|| format!("{what} of an element that does not exist (key {k:#x} id {id:#x} magic {m:#x})"));
        }
    }
}
impl Drop for El {
    fn drop(&mut self) {
        let g = r();
        g.ndrop += 1;
        if self.magic != MAGIC || (self.id as usize) >= g.next {
            let (m, id, k) = (self.magic, self.id, self.key);
            g.flag(|| format!("destruction of garbage (key {k:#x} id {id:#x} magic {m:#x})"));
            return;
        }
        let st = unsafe { &mut *g.state.add(self.id as usize) };
        if *st != 1 {
            let k = self.key;
            g.flag(|| format!("element destroyed twice (key {k})"));
            return;
        }
        *st = 2;
        g.live -= 1;
        tick(DROP);
    }
}
impl El {
    fn copy(&self) -> El {
        El::new(self.key)
    }
}
impl TryClone for El {
    fn try_clone(&self) -> Result<Self, TryReserveError> {
        self.check("clone");
        tick(CLONE);
        let g = r();
        let n = g.nclone;
        g.nclone += 1;
        if n == g.clone_fail_at {
            g.clone_failed = true;
            return Err(reserve_error());
        }
        Ok(self.copy())
    }
}
impl Clone for El {
    fn clone(&self) -> El {
        self.check("clone");
        tick(CLONE);
        r().nclone += 1;
        self.copy()
    }
}
impl Default for El {
    fn default() -> El {
        tick(GEN);
        El::new(0xDEF)
    }
}
impl PartialEq for El {
    fn eq(&self, o: &El) -> bool {
        self.check("comparison");
        o.check("comparison");
        tick(EQ);
        eq_keys(self.key, o.key)
    }
}
impl Eq for El {}
impl PartialOrd for El {
    fn partial_cmp(&self, o: &El) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for El {
    fn cmp(&self, o: &El) -> Ordering {
        self.check("comparison");
        o.check("comparison");
        cmp_keys(self.key, o.key)
    }
}
pub fn cmp_keys(a: u32, b: u32) -> Ordering {
    let g = r();
    g.ncmp += 1;
    if g.ncmp > g.cmp_limit {
        crate::sys::die_runaway();
    }
    tick(CMP);
    if g.script_pos < g.script_len {
        if g.script_skip > 0 {
            g.script_skip -= 1;
            return a.cmp(&b);
        }
        let a = unsafe { *g.script.add(g.script_pos) };
        g.script_pos += 1;
        return match a {
            0 => Ordering::Less,
            1 => Ordering::Equal,
            _ => Ordering::Greater,
        };
    }
    a.cmp(&b)
}
fn hash_key<H: std::hash::Hasher>(k: u32, h: &mut H) {
    let g = r();
    let k = match g.hash_mode {
        0 => k,
        1 => 0,
        _ => k % 3,
    };
    if g.lie != 0 {
        let n = g.lies;
        g.lies += 1;
        if g.lie >> (n % 4) & 1 == 1 {
            h.write_u32(k.wrapping_add(n));
            return;
        }
    }
    h.write_u32(k);
}
fn eq_keys(a: u32, b: u32) -> bool {
    let g = r();
    if g.lie != 0 {
        let n = g.lies;
        g.lies += 1;
        if g.lie >> (n % 4) & 1 == 1 {
            return a != b;
        }
    }
    a == b
}
impl std::hash::Hash for El {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.check("hash");
        tick(HASH);
        hash_key(self.key, h)
    }
}
impl std::fmt::Debug for El {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.check("print");
        tick(FMT);
        write!(f, "{}", self.key)
    }
}
/// Borrowed form used for lookups, so that lookups need no tracked object.
#[repr(transparent)]
pub struct Q(pub u32);
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        tick(EQ);
        eq_keys(self.0, o.0)
    }
}
impl Eq for Q {}
impl std::borrow::Borrow<Q> for El {
    fn borrow(&self) -> &Q {
        self.check("lookup");
        unsafe { &*(&self.key as *const u32 as *const Q) }
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        cmp_keys(self.0, o.0)
    }
}
impl std::hash::Hash for Q {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        tick(HASH);
        hash_key(self.0, h)
    }
}
