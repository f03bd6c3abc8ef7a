//! The handful of libc calls the driver needs (no external crates).
#![allow(non_camel_case_types)]
pub type c_int = i32;
extern "C" {
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub fn usleep(us: u32) -> c_int;
    pub fn alarm(s: u32) -> u32;
    fn mmap(a: *mut u8, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut u8;
    fn signal(sig: c_int, h: usize) -> usize;
    fn setrlimit(res: c_int, lim: *const [u64; 2]) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn open(p: *const u8, flags: c_int, ...) -> c_int;
    fn prctl(op: c_int, ...) -> c_int;
}
pub const SIGS: [(c_int, &str); 6] = [
    (4, "SIGILL"),
    (5, "SIGTRAP"),
    (6, "SIGABRT"),
    (7, "SIGBUS"),
    (8, "SIGFPE"),
    (11, "SIGSEGV"),
];
pub fn shared<T>() -> &'static T {
    unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), 3, 0x21, -1, 0);
        assert!(p as isize != -1, "mmap failed");
        &*(p as *const T)
    }
}
pub fn on_crash(h: extern "C" fn(c_int)) {
    for (s, _) in SIGS {
        unsafe { signal(s, h as usize) };
    }
}
pub fn default_signals() {
    for (s, _) in SIGS {
        unsafe { signal(s, 0) };
    }
}
pub fn no_core() {
    unsafe { setrlimit(4, &[0, 0]) };
}
pub fn die_with_parent() {
    unsafe { prctl(1, 9) };
}
pub fn mute_stderr() {
    unsafe {
        let fd = open(b"/dev/null\0".as_ptr(), 1);
        if fd >= 0 {
            dup2(fd, 2);
        }
    }
}
pub fn mute_stderr_unless(v: bool) {
    if !v {
        mute_stderr()
    }
}
pub fn die(msg: &str) -> ! {
    eprintln!("mc: internal error: {msg}");
    unsafe { _exit(70) }
}
pub fn signame(s: c_int) -> String {
    SIGS.iter().find(|x| x.0 == s).map(|x| x.1.to_string()).unwrap_or(format!("signal {s}"))
}
pub enum Exit {
    Code(i32),
    Signal(i32),
}
pub fn wait(pid: c_int) -> Exit {
    let mut st = 0;
    unsafe { waitpid(pid, &mut st, 0) };
    decode(st)
}
pub fn decode(st: c_int) -> Exit {
    if st & 0x7f == 0 {
        Exit::Code((st >> 8) & 0xff)
    } else {
        Exit::Signal(st & 0x7f)
    }
}
pub fn try_wait(pid: c_int) -> Option<Exit> {
    let mut st = 0;
    let r = unsafe { waitpid(pid, &mut st, 1) };
    if r == pid {
        Some(decode(st))
    } else {
        None
    }
}
/// Run `f` in a forked child (single-threaded caller only); its return value is the exit code.
pub fn forked(f: impl FnOnce() -> i32, secs: u32) -> Exit {
    unsafe {
        let pid = fork();
        if pid < 0 {
            die("fork failed");
        }
        if pid == 0 {
            default_signals();
            alarm(secs);
            let c = f();
            _exit(c);
        }
        wait(pid)
    }
}
/// The code under test exceeded a step bound that no correct execution comes near.
pub fn die_runaway() -> ! {
    crate::engine::crash_exit(1000)
}
