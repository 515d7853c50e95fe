//! What the library asks the system for: the functions of the C library behind `std::env`, `std::fs`,
//! `std::time` and `std::process::id` are defined here, so that the calls of this program come here
//! first. Calls made while a thread watches are counted and noted, and can be answered differently.

use libc::{c_char, c_int, c_long, c_uint, c_void, size_t};
use std::cell::{Cell, RefCell};

thread_local! {
    /// 0: not watched; 1: watched, true answers; n: watched, other answers.
    static MODE: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FIRST: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs `f` while the calls are watched; the number of calls and the first.
pub fn watch<R>(mode: u64, f: impl FnOnce() -> R) -> (R, u64, String) {
    COUNT.set(0);
    FIRST.with(|x| x.borrow_mut().clear());
    MODE.set(mode);
    let r = f();
    MODE.set(0);
    (r, COUNT.get(), FIRST.with(|x| x.borrow().clone()))
}
/// The mode if the call is watched, after noting it.
fn noted(what: &str, arg: *const c_char) -> u64 {
    let Ok(mode) = MODE.try_with(Cell::get) else { return 0 };
    if mode == 0 {
        return 0;
    }
    MODE.set(0);
    // SAFETY: the functions here are given C strings
    let arg = if arg.is_null() { String::new() } else { unsafe { std::ffi::CStr::from_ptr(arg) }.to_string_lossy().into_owned() };
    // of the standard library itself, and of this program
    let own = what == "getenv" && (arg.starts_with("RUST_") || arg.starts_with("CS_"));
    if !own {
        COUNT.set(COUNT.get() + 1);
        FIRST.with(|x| {
            let mut x = x.borrow_mut();
            if x.is_empty() {
                *x = format!("{what}({arg:?})");
            }
        });
    }
    MODE.set(mode);
    if own {
        0
    } else {
        mode
    }
}

extern "C" {
    static mut environ: *mut *mut c_char;
}
const VALUES: [&[u8]; 10] = [b"1\0", b"\0", b"a\0", b"/tmp\0", b"linux/arm64\0", b"true\0", b"0\0", b"b:c\0", b"false\0", b"-1\0"];

#[no_mangle]
unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let mode = noted("getenv", name);
    if mode > 1 {
        return VALUES[mode as usize % VALUES.len()].as_ptr() as *mut c_char;
    }
    let n = libc::strlen(name);
    let mut at = environ;
    while !at.is_null() && !(*at).is_null() {
        if libc::strncmp(*at, name, n) == 0 && *(*at).add(n) == b'=' as c_char {
            return (*at).add(n + 1);
        }
        at = at.add(1);
    }
    std::ptr::null_mut()
}
#[no_mangle]
unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    let mode = noted("statx", path);
    if mode > 1 {
        std::ptr::write_bytes(buf, 0, 1);
        (*buf).stx_mask = mask;
        (*buf).stx_mode = if mode % 2 == 0 { 0o040_755 } else { 0o100_644 };
        (*buf).stx_size = 13;
        (*buf).stx_nlink = 1;
        return 0;
    }
    libc::syscall(libc::SYS_statx, dir as c_long, path, flags as c_long, mask as c_long, buf) as c_int
}
#[no_mangle]
unsafe extern "C" fn access(path: *const c_char, how: c_int) -> c_int {
    if noted("access", path) > 1 {
        return 0;
    }
    libc::syscall(libc::SYS_faccessat, libc::AT_FDCWD as c_long, path, how as c_long) as c_int
}
#[no_mangle]
unsafe extern "C" fn faccessat(dir: c_int, path: *const c_char, how: c_int, flags: c_int) -> c_int {
    if noted("faccessat", path) > 1 {
        return 0;
    }
    libc::syscall(libc::SYS_faccessat2, dir as c_long, path, how as c_long, flags as c_long) as c_int
}
#[no_mangle]
unsafe extern "C" fn open64(path: *const c_char, flags: c_int, perm: c_uint) -> c_int {
    if noted("open", path) > 1 {
        // a file with a little text
        let fd = libc::syscall(libc::SYS_memfd_create, b"other\0".as_ptr(), 0 as c_long) as c_int;
        if fd >= 0 {
            libc::write(fd, b"services: {}\n".as_ptr().cast::<c_void>(), 13);
            libc::lseek(fd, 0, libc::SEEK_SET);
            return fd;
        }
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD as c_long, path, flags as c_long, perm as c_long) as c_int
}
#[no_mangle]
unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if noted("realpath", path) > 1 && out.is_null() {
        return libc::strdup(b"/other/place\0".as_ptr().cast());
    }
    type F = unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char;
    let f = libc::dlsym(libc::RTLD_NEXT, b"realpath\0".as_ptr().cast());
    if f.is_null() {
        return std::ptr::null_mut();
    }
    std::mem::transmute::<*mut c_void, F>(f)(path, out)
}
#[no_mangle]
unsafe extern "C" fn getcwd(buf: *mut c_char, size: size_t) -> *mut c_char {
    if noted("getcwd", std::ptr::null()) > 1 && size > 12 {
        libc::strcpy(buf, b"/other/cwd\0".as_ptr().cast());
        return buf;
    }
    if libc::syscall(libc::SYS_getcwd, buf, size) < 0 {
        return std::ptr::null_mut();
    }
    buf
}
#[no_mangle]
unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, to: *mut libc::timespec) -> c_int {
    let mode = noted("clock_gettime", std::ptr::null());
    let r = libc::syscall(libc::SYS_clock_gettime, clock as c_long, to) as c_int;
    if mode > 1 {
        (*to).tv_sec += 86_400 * 367 * mode as i64 + 12_345;
        (*to).tv_nsec = (mode as i64 * 123_456_789) % 1_000_000_000;
    }
    r
}
#[no_mangle]
unsafe extern "C" fn getpid() -> libc::pid_t {
    let mode = noted("getpid", std::ptr::null());
    let p = libc::syscall(libc::SYS_getpid) as libc::pid_t;
    if mode > 1 {
        return p + mode as libc::pid_t;
    }
    p
}
#[no_mangle]
unsafe extern "C" fn getuid() -> libc::uid_t {
    let mode = noted("getuid", std::ptr::null());
    if mode > 1 {
        return mode as libc::uid_t;
    }
    libc::syscall(libc::SYS_getuid) as libc::uid_t
}

/// Asks everything that is watched; what was answered.
pub fn probe() -> String {
    let env = std::env::var_os("HOME_OF_NOBODY");
    let here = std::path::Path::new("/no/such/place").exists();
    let dir = std::path::Path::new("/no/such/place").is_dir() || std::path::Path::new("/no/such/place").is_file();
    let file = std::fs::read_to_string("/no/such/file").ok();
    let cwd = std::env::current_dir().ok() == Some("/other/cwd".into());
    let real = std::fs::canonicalize("/no/such/place").is_ok();
    let late = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).is_ok_and(|d| d.as_secs() > 10_000_000_000);
    format!("{} {here} {dir} {} {cwd} {real} {late} {}", env.is_some(), file.is_some(), std::process::id() > 0)
}
