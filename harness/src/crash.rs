//! A case that kills the process (segmentation fault, stack overflow, abort) is a failure of the
//! property like any other: the signal handler writes the replay file naming the case and prints
//! the VIOLATION line. Everything it needs is prepared beforehand; it only formats into a fixed
//! buffer and makes system calls.
use std::cell::Cell;
use std::fmt::Write as _;
use std::sync::OnceLock;

thread_local! {
    static CASE: Cell<u64> = const { Cell::new(u64::MAX) };
}

struct Info {
    prop: &'static str,
    seed: u64,
    tier: &'static str,
    /// replay path up to the case number
    prefix: String,
    evidence: String,
    /// given when a replay file is run again
    replay: Option<String>,
}
static INFO: OnceLock<Info> = OnceLock::new();

pub fn set_case(i: u64) {
    CASE.with(|c| c.set(i));
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn creat(path: *const std::ffi::c_char, mode: u32) -> i32;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn _exit(code: i32) -> !;
}

struct Buf {
    b: [u8; 1500],
    n: usize,
}
impl std::fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let k = s.len().min(self.b.len() - self.n);
        self.b[self.n..self.n + k].copy_from_slice(&s.as_bytes()[..k]);
        self.n += k;
        Ok(())
    }
}
fn buf() -> Buf {
    Buf { b: [0; 1500], n: 0 }
}
fn put(fd: i32, b: &Buf) {
    unsafe { write(fd, b.b.as_ptr() as *const _, b.n) };
}
fn file(path: &Buf, body: &Buf) {
    let fd = unsafe { creat(path.b.as_ptr() as *const _, 0o644) };
    if fd >= 0 {
        put(fd, body);
        unsafe { close(fd) };
    }
}

extern "C" fn on_signal(sig: i32) {
    let Some(info) = INFO.get() else { unsafe { _exit(134) } };
    let case = CASE.with(|c| c.get());
    let mut path = buf();
    match &info.replay {
        Some(p) => {
            let _ = write!(path, "{p}\0");
        }
        None => {
            let _ = write!(path, "{}{}-crash.json\0", info.prefix, case);
            let mut body = buf();
            let _ = write!(
                body,
                "{{\n \"property\": \"{}\",\n \"seed\": {},\n \"tier\": \"{}\",\n \"case\": {},\n \"failure\": \"signal {}\"\n}}\n",
                info.prop, info.seed, info.tier, case, sig
            );
            file(&path, &body);
            let mut ev = buf();
            let _ = write!(ev, "{}\0", info.evidence);
            let mut body = buf();
            let _ = write!(
                body,
                "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": 0\n }},\n \"assumptions\": [],\n \"wall_s\": 0,\n \"violations\": 1\n}}\n",
                info.prop, info.tier, info.seed, case.wrapping_add(1).max(1)
            );
            file(&ev, &body);
        }
    }
    let mut out = buf();
    let _ = write!(out, "\ncase {case}: the process was killed by signal {sig} (crash, stack overflow or abort)\nVIOLATION property={} replay=", info.prop);
    put(1, &out);
    path.n -= 1;
    let _ = path.write_str("\n");
    put(1, &path);
    unsafe { _exit(1) }
}

pub fn install(prop: &'static str, seed: u64, tier: &'static str, replay: Option<String>) {
    let root = crate::run::verif_root();
    let dir = root.join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let _ = INFO.set(Info {
        prop,
        seed,
        tier,
        prefix: format!("{}/{prop}-{seed}-", dir.display()),
        evidence: root.join("evidence").join(format!("{prop}.json")).display().to_string(),
        replay,
    });
    // SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV on the alternate stack
    for sig in [4, 6, 7, 8, 11] {
        let act = SigAction { handler: on_signal as *const () as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
        unsafe { sigaction(sig, &act, std::ptr::null_mut()) };
    }
}
