//! Per-thread allocation ledger: every memory request made by the code under test goes through here.
//!
//! * counts requests and refuses the k-th (or all from the k-th on) when armed;
//! * keeps every freed block in quarantine until the end of the case, filled with 0xDD and
//!   re-checked, so use-after-free reads see garbage and writes are detected;
//! * surrounds every block with canaries; checks size/alignment on release;
//! * `realloc` always moves, so stale pointers are never accidentally valid.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

pub struct Alloc;

#[global_allocator]
static GLOBAL: Alloc = Alloc;

const CAP_BITS: usize = 16;
const CAP: usize = 1 << CAP_BITS;
const CAN: usize = 16;
const HUGE: usize = 1 << 30;

#[derive(Clone, Copy)]
struct Entry {
    ptr: usize,
    size: usize,
    align: usize,
    live: bool,
}

pub struct Ledger {
    on: bool,
    table: *mut Entry,
    used: *mut u32,
    nused: usize,
    pub fault_mode: u8, // 0 none, 1 only k, 2 from k on
    pub fault_k: u64,
    pub nreq: u64, // requests since arm()
    pub nrefused: u64,
    /// size and alignment of the first request refused since arm()
    pub first_refused: (usize, usize),
    pub live_blocks: usize,
    pub live_bytes: usize,
    pub peak_bytes: usize,
    pub max_req: usize,
    pub err: u32,
    pub err_a: usize,
    pub err_b: usize,
}

struct Tl(UnsafeCell<Ledger>);
thread_local! {
    static L: Tl = const { Tl(UnsafeCell::new(Ledger {
        on: false, table: std::ptr::null_mut(), used: std::ptr::null_mut(), nused: 0,
        fault_mode: 0, fault_k: 0, nreq: 0, nrefused: 0, first_refused: (0, 0), live_blocks: 0, live_bytes: 0,
        peak_bytes: 0, max_req: 0, err: 0, err_a: 0, err_b: 0,
    })) };
}

#[inline(always)]
pub fn l() -> &'static mut Ledger {
    L.with(|t| unsafe { &mut *t.0.get() })
}

fn hash(p: usize) -> usize {
    ((p >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15)) >> (64 - CAP_BITS)
}

impl Ledger {
    fn flag(&mut self, code: u32, a: usize, b: usize) {
        if self.err == 0 {
            self.err = code;
            self.err_a = a;
            self.err_b = b;
        }
    }
    fn init(&mut self) {
        if self.table.is_null() {
            unsafe {
                self.table =
                    System.alloc_zeroed(Layout::array::<Entry>(CAP).unwrap()) as *mut Entry;
                self.used = System.alloc_zeroed(Layout::array::<u32>(CAP).unwrap()) as *mut u32;
            }
        }
    }
    fn find(&mut self, p: usize) -> Option<&'static mut Entry> {
        if self.nused == 0 {
            return None;
        }
        let mut i = hash(p);
        loop {
            let e = unsafe { &mut *self.table.add(i) };
            if e.ptr == p {
                return Some(e);
            }
            if e.ptr == 0 {
                return None;
            }
            i = (i + 1) & (CAP - 1);
        }
    }
    fn add(&mut self, p: usize, size: usize, align: usize) {
        let mut i = hash(p);
        loop {
            let e = unsafe { &mut *self.table.add(i) };
            if e.ptr == 0 {
                *e = Entry { ptr: p, size, align, live: true };
                unsafe { *self.used.add(self.nused) = i as u32 };
                self.nused += 1;
                if self.nused > CAP / 4 * 3 {
                    self.flag(7, self.nused, 0);
                    crate::sys::die("ledger table full (harness limit)");
                }
                break;
            }
            i = (i + 1) & (CAP - 1);
        }
        self.live_blocks += 1;
        self.live_bytes += size;
        if self.live_bytes > self.peak_bytes {
            self.peak_bytes = self.live_bytes;
        }
    }
    unsafe fn get(&mut self, size: usize, align: usize) -> *mut u8 {
        if size == 0 || align == 0 || !align.is_power_of_two() || size > isize::MAX as usize {
            self.flag(5, size, align);
        }
        let k = self.nreq;
        self.nreq += 1;
        if size > self.max_req {
            self.max_req = size;
        }
        let refuse = match self.fault_mode {
            1 => k == self.fault_k,
            2 => k >= self.fault_k,
            _ => false,
        };
        let refuse = refuse && !std::thread::panicking();
        if refuse || size > HUGE {
            if self.nrefused == 0 {
                self.first_refused = (size, align);
            }
            self.nrefused += 1;
            return std::ptr::null_mut();
        }
        self.init();
        let lead = if align > CAN { align } else { CAN };
        let raw = System.alloc(Layout::from_size_align_unchecked(lead + size + CAN, lead));
        if raw.is_null() {
            return raw;
        }
        let p = raw.add(lead);
        std::ptr::write_bytes(raw, 0xFB, lead);
        std::ptr::write_bytes(p, 0xA5, size);
        std::ptr::write_bytes(p.add(size), 0xFB, CAN);
        self.add(p as usize, size, align);
        p
    }
    unsafe fn canaries_ok(e: &Entry) -> bool {
        let lead = if e.align > CAN { e.align } else { CAN };
        let p = e.ptr as *const u8;
        for i in 1..=lead.min(CAN) {
            if *p.sub(i) != 0xFB {
                return false;
            }
        }
        for i in 0..CAN {
            if *p.add(e.size + i) != 0xFB {
                return false;
            }
        }
        true
    }
    /// returns true when the pointer was ours
    unsafe fn put(&mut self, p: usize, size: usize, align: usize) -> bool {
        match self.find(p) {
            None => {
                if self.on {
                    self.flag(1, p, size);
                    return true; // never hand an unknown pointer to the system while tracking
                }
                false
            }
            Some(e) => {
                if !e.live {
                    self.flag(2, p, size);
                    return true;
                }
                if e.size != size || e.align != align {
                    self.flag(3, (e.size << 32) | e.align, (size << 32) | align);
                }
                if !Self::canaries_ok(e) {
                    self.flag(4, e.size, e.align);
                }
                e.live = false;
                self.live_blocks -= 1;
                self.live_bytes -= e.size;
                std::ptr::write_bytes(p as *mut u8, 0xDD, e.size);
                true
            }
        }
    }
    /// Arm fault injection and restart the request counter.
    pub fn arm(&mut self, mode: u8, k: u64) {
        self.fault_mode = mode;
        self.fault_k = k;
        self.nreq = 0;
        self.nrefused = 0;
        self.max_req = 0;
    }
    pub fn disarm(&mut self) {
        self.fault_mode = 0;
    }
    /// Live blocks as (address, size), unsorted.
    pub fn blocks(&mut self) -> Vec<(usize, usize)> {
        let was = self.on;
        self.on = false;
        let mut v = Vec::with_capacity(self.live_blocks);
        for i in 0..self.nused {
            let e = unsafe { *self.table.add(*self.used.add(i) as usize) };
            if e.live {
                v.push((e.ptr, e.size));
            }
        }
        self.on = was;
        v
    }
    /// End of case: verifies quarantine and canaries, releases everything, returns leaked blocks.
    pub fn reset(&mut self) -> (usize, usize) {
        self.on = false;
        let leaked = (self.live_blocks, self.live_bytes);
        for i in 0..self.nused {
            unsafe {
                let slot = self.table.add(*self.used.add(i) as usize);
                let e = *slot;
                if !Self::canaries_ok(&e) {
                    self.flag(4, e.size, e.align);
                }
                if !e.live {
                    let p = e.ptr as *const u8;
                    let mut j = 0;
                    while j < e.size {
                        if *p.add(j) != 0xDD {
                            self.flag(6, e.size, j);
                            break;
                        }
                        j += 1;
                    }
                }
                let lead = if e.align > CAN { e.align } else { CAN };
                System.dealloc(
                    (e.ptr as *mut u8).sub(lead),
                    Layout::from_size_align_unchecked(lead + e.size + CAN, lead),
                );
                (*slot).ptr = 0;
            }
        }
        self.nused = 0;
        self.live_blocks = 0;
        self.live_bytes = 0;
        self.peak_bytes = 0;
        self.fault_mode = 0;
        self.nreq = 0;
        self.nrefused = 0;
        leaked
    }
    /// Thread end: give the tables back.
    pub unsafe fn release_table(&mut self) {
        self.reset();
        if !self.table.is_null() {
            System.dealloc(self.table as *mut u8, Layout::array::<Entry>(CAP).unwrap());
            System.dealloc(self.used as *mut u8, Layout::array::<u32>(CAP).unwrap());
            self.table = std::ptr::null_mut();
            self.used = std::ptr::null_mut();
        }
    }
    pub fn take_err(&mut self) -> Option<String> {
        if self.err == 0 {
            return None;
        }
        let (a, b) = (self.err_a, self.err_b);
        let s = match self.err {
            1 => format!("release of a pointer that was never obtained from the allocator (size {b})"),
            2 => format!("block released twice (size {b})"),
            3 => format!(
                "block released with wrong layout: requested size {} align {}, released size {} align {}",
                a >> 32, a & 0xffff_ffff, b >> 32, b & 0xffff_ffff),
            4 => format!("write outside a block of size {a} align {b}"),
            5 => format!("invalid request: size {a} align {b}"),
            6 => format!("write into released block of size {a} at offset {b}"),
            _ => "harness table limit".to_string(),
        };
        self.err = 0;
        Some(s)
    }
    pub fn is_on(&self) -> bool {
        self.on
    }
    pub fn set(&mut self, on: bool) -> bool {
        let w = self.on;
        self.on = on;
        w
    }
}

/// Run harness code inside a callback without the ledger seeing its allocations.
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    let w = l().set(false);
    let r = f();
    l().set(w);
    r
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let l = l();
        if l.on {
            l.get(layout.size(), layout.align())
        } else {
            System.alloc(layout)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let l = l();
        if !l.put(p as usize, layout.size(), layout.align()) {
            System.dealloc(p, layout)
        }
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let l = l();
        if l.on {
            let p = l.get(layout.size(), layout.align());
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, layout.size());
            }
            p
        } else {
            System.alloc_zeroed(layout)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let l = l();
        match l.find(p as usize) {
            Some(e) => {
                if !e.live {
                    l.flag(2, p as usize, layout.size());
                    return std::ptr::null_mut();
                }
                let old = e.size;
                let was = l.on;
                let q = if was {
                    l.get(new_size, layout.align())
                } else {
                    l.on = true;
                    let (m, n) = (l.fault_mode, l.nreq);
                    l.fault_mode = 0;
                    let q = l.get(new_size, layout.align());
                    l.fault_mode = m;
                    l.nreq = n;
                    l.on = was;
                    q
                };
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, old.min(new_size));
                    l.put(p as usize, layout.size(), layout.align());
                }
                q
            }
            None => {
                if l.on {
                    l.flag(1, p as usize, layout.size());
                    return std::ptr::null_mut();
                }
                System.realloc(p, layout, new_size)
            }
        }
    }
}
