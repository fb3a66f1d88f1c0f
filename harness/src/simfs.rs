//! The simulated file system and random number source: open, read and close of paths under /simfs/ are
//! answered by simulated sources, everything else goes to the kernel. getrandom (which seeds hash maps)
//! is a function of the seed of the run.
use crate::io::SimReader;
use crate::tape::{Rng, mix};
use libc::{c_char, c_int, c_uint, c_void, size_t, ssize_t};
use std::collections::{HashMap, VecDeque};
use std::ffi::CStr;
use std::io::Read;
use std::sync::Mutex;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering};

static FILES: Mutex<Option<HashMap<String, SimReader>>> = Mutex::new(None);
static FDS: Mutex<Option<HashMap<c_int, SimReader>>> = Mutex::new(None);
/// how many simulated descriptors are open: the fast path for everybody else
static OPEN: AtomicI32 = AtomicI32::new(0);
/// what the next attempts to open a path meet
type Plans = HashMap<Vec<u8>, VecDeque<Result<SimReader, c_int>>>;
static PLANS: Mutex<Option<Plans>> = Mutex::new(None);
/// attempts to open a simulated file for more than reading
static WRITES: AtomicI32 = AtomicI32::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
static SIM_RANDOM: AtomicI32 = AtomicI32::new(0);
/// a file is read on and on without progress: the watchdog ends the run
pub static SPIN: AtomicI32 = AtomicI32::new(0);
static NEXT: AtomicU64 = AtomicU64::new(0);

fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|p| p.into_inner())
}

/// from here on random bytes are a function of this seed
pub fn seed(s: u64) {
    SEED.store(s, Ordering::SeqCst);
    SIM_RANDOM.store(1, Ordering::SeqCst);
    NEXT.store(0, Ordering::SeqCst);
    *lock(&FILES) = None;
    *lock(&PLANS) = None;
    WRITES.store(0, Ordering::SeqCst);
    if OPEN.load(Ordering::SeqCst) > 0 {
        // a run left files open (it is forgotten)
        *lock(&FDS) = None;
        OPEN.store(0, Ordering::SeqCst);
    }
}

/// Puts a file into the simulated file system, returns its path
pub fn add(r: &SimReader, suffix: &str) -> String {
    let n = NEXT.fetch_add(1, Ordering::SeqCst);
    let p = format!("/simfs/f{n}{suffix}");
    lock(&FILES).get_or_insert_with(HashMap::new).insert(p.clone(), r.clone());
    p
}

/// What the next attempts to open this path meet, one after the other; then there is no such file
pub fn plan(path: &[u8], outcomes: Vec<Result<SimReader, c_int>>) {
    lock(&PLANS).get_or_insert_with(HashMap::new).insert(path.to_vec(), outcomes.into());
}

/// open descriptors of simulated files
pub fn open_now() -> i32 {
    OPEN.load(Ordering::SeqCst)
}

/// how often someone wanted to change a simulated file
pub fn writes() -> i32 {
    WRITES.load(Ordering::SeqCst)
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

unsafe fn real_openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { libc::syscall(libc::SYS_openat, dir, path, flags, mode) as c_int }
}

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe {
        if !path.is_null() && CStr::from_ptr(path).to_bytes().starts_with(b"/simfs/") {
            if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0 {
                WRITES.fetch_add(1, Ordering::SeqCst);
                set_errno(libc::EROFS);
                return -1;
            }
            let bytes = CStr::from_ptr(path).to_bytes();
            let planned = lock(&PLANS).as_mut().and_then(|m| m.get_mut(bytes)).map(|q| q.pop_front().unwrap_or(Err(libc::ENOENT)));
            let r = planned.unwrap_or_else(|| {
                let p = String::from_utf8_lossy(bytes).into_owned();
                lock(&FILES).as_ref().and_then(|m| m.get(&p).cloned()).ok_or(libc::ENOENT)
            });
            return match r {
                Err(e) => {
                    set_errno(e);
                    -1
                }
                Ok(r) => {
                    let fd = libc::syscall(libc::SYS_memfd_create, c"simfs".as_ptr(), libc::MFD_CLOEXEC) as c_int;
                    if fd >= 0 {
                        // what stat and friends see
                        let st = r.lock();
                        let len = st.data.len().min(st.end);
                        libc::syscall(libc::SYS_ftruncate, fd, len);
                        drop(st);
                        lock(&FDS).get_or_insert_with(HashMap::new).insert(fd, r);
                        OPEN.fetch_add(1, Ordering::SeqCst);
                    }
                    fd
                }
            };
        }
        real_openat(dir, path, flags, mode)
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { do_open(libc::AT_FDCWD, path, flags, mode) }
}
#[allow(unknown_lints, invalid_runtime_symbol_definitions)]
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { do_open(libc::AT_FDCWD, path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { do_open(dir, path, flags, mode) }
}

fn sim_of(fd: c_int) -> Option<SimReader> {
    if OPEN.load(Ordering::SeqCst) == 0 {
        return None;
    }
    lock(&FDS).as_ref().and_then(|m| m.get(&fd).cloned())
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    unsafe {
        if let Some(mut r) = sim_of(fd) {
            let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
            // nothing may unwind out of a system call
            let res = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.read(b))) {
                Ok(r) => r,
                Err(_) => {
                    SPIN.store(1, Ordering::SeqCst);
                    loop {
                        std::thread::sleep(std::time::Duration::from_secs(1));
                    }
                }
            };
            return match res {
                Ok(k) => k as ssize_t,
                Err(e) => {
                    set_errno(e.raw_os_error().unwrap_or(match e.kind() {
                        std::io::ErrorKind::Interrupted => libc::EINTR,
                        std::io::ErrorKind::WouldBlock => libc::EAGAIN,
                        std::io::ErrorKind::TimedOut => libc::ETIMEDOUT,
                        std::io::ErrorKind::PermissionDenied => libc::EACCES,
                        _ => libc::EIO,
                    }));
                    -1
                }
            };
        }
        libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    unsafe {
        if OPEN.load(Ordering::SeqCst) > 0 {
            let gone = lock(&FDS).as_mut().and_then(|m| m.remove(&fd));
            if gone.is_some() {
                OPEN.fetch_sub(1, Ordering::SeqCst);
            }
        }
        libc::syscall(libc::SYS_close, fd) as c_int
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    unsafe {
        if SIM_RANDOM.load(Ordering::SeqCst) == 0 {
            return libc::syscall(libc::SYS_getrandom, buf, n, flags) as ssize_t;
        }
        // every caller of a run gets the same: independent of the order of threads
        let mut r = Rng(mix(SEED.load(Ordering::SeqCst)));
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        for x in b.iter_mut() {
            *x = r.next() as u8;
        }
        n as ssize_t
    }
}

// what the simulator's own databases do need not survive the machine
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(_fd: c_int) -> c_int {
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(_fd: c_int) -> c_int {
    0
}
