//! Virtual time, deterministic randomness and containment for simulation threads.
//!
//! The libc entry points defined here take precedence over libc's own. They behave like the
//! originals except on threads that turned the simulation on.
#![allow(clippy::missing_safety_doc)]
use std::cell::{Cell, RefCell};
use std::ffi::{c_char, c_int, c_long, c_void, CStr, CString};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    /// virtual nanoseconds since the start of the execution
    static VT: Cell<u64> = const { Cell::new(0) };
    static RND: Cell<u64> = const { Cell::new(0) };
    static SIGS: RefCell<Vec<(char, i32, i32)>> = const { RefCell::new(Vec::new()) };
    static KILL: Cell<Option<fn(char, i32, i32)>> = const { Cell::new(None) };
}
static mut SCRATCH: [u8; 256] = [0; 256];

pub fn set_scratch(p: &str) {
    unsafe {
        let b = p.as_bytes();
        assert!(b.len() < 255);
        let s = std::ptr::addr_of_mut!(SCRATCH) as *mut u8;
        std::ptr::copy_nonoverlapping(b.as_ptr(), s, b.len());
        *s.add(b.len()) = 0;
    }
}
fn scratch() -> &'static str {
    unsafe {
        CStr::from_ptr(std::ptr::addr_of!(SCRATCH) as *const c_char)
            .to_str()
            .unwrap_or("")
    }
}

pub fn enable(seed: u64) {
    VT.with(|v| v.set(0));
    RND.with(|v| v.set(seed));
    ON.with(|o| o.set(true));
}
pub fn disable() {
    ON.with(|o| o.set(false));
}
pub fn on() -> bool {
    ON.try_with(|o| o.get()).unwrap_or(false)
}
pub fn vt() -> u64 {
    VT.with(|v| v.get())
}
pub fn advance(ns: u64) {
    VT.with(|v| v.set(v.get() + ns));
}
pub fn set_kill_hook(f: Option<fn(char, i32, i32)>) {
    KILL.with(|k| k.set(f));
}

fn rnd_byte() -> u8 {
    RND.with(|r| {
        let mut x = r.get().wrapping_add(0x9e3779b97f4a7c15);
        r.set(x);
        x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
        (x ^ (x >> 31)) as u8
    })
}

unsafe fn raw6(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
unsafe fn ret(r: c_long) -> c_long {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_getrandom && on() {
        let p = a as *mut u8;
        for i in 0..b as usize {
            *p.add(i) = rnd_byte();
        }
        return b;
    }
    ret(raw6(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    syscall(libc::SYS_getrandom, buf as c_long, len as c_long, flags as c_long, 0, 0, 0) as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if on() {
        let base: u64 = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => 1_800_000_000,
            _ => 1_000,
        };
        let v = vt();
        (*ts).tv_sec = (base + v / 1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = (v % 1_000_000_000) as c_long;
        return 0;
    }
    type F = unsafe extern "C" fn(libc::clockid_t, *mut libc::timespec) -> c_int;
    static REAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let mut p = REAL.load(std::sync::atomic::Ordering::Relaxed);
    if p == 0 {
        p = libc::dlsym(libc::RTLD_NEXT, b"clock_gettime\0".as_ptr() as *const c_char) as usize;
        REAL.store(p, std::sync::atomic::Ordering::Relaxed);
    }
    if p == 0 {
        return ret(raw6(libc::SYS_clock_gettime, clk as c_long, ts as c_long, 0, 0, 0, 0)) as c_int;
    }
    let f: F = std::mem::transmute(p);
    f(clk, ts)
}

#[no_mangle]
pub unsafe extern "C" fn kill(pid: libc::pid_t, sig: c_int) -> c_int {
    if on() {
        if let Some(f) = KILL.with(|k| k.get()) {
            f('k', pid, sig);
        }
        return 0;
    }
    ret(raw6(libc::SYS_kill, pid as c_long, sig as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn killpg(pgrp: libc::pid_t, sig: c_int) -> c_int {
    if on() {
        if let Some(f) = KILL.with(|k| k.get()) {
            f('g', pgrp, sig);
        }
        return 0;
    }
    ret(raw6(libc::SYS_kill, -(pgrp as c_long), sig as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setpgid(pid: libc::pid_t, pgid: libc::pid_t) -> c_int {
    if on() {
        return 0;
    }
    ret(raw6(libc::SYS_setpgid, pid as c_long, pgid as c_long, 0, 0, 0, 0)) as c_int
}

/// Only the worker program calls it, to become the reaper of its descendants.
#[no_mangle]
pub unsafe extern "C" fn prctl(op: c_int, a: libc::c_ulong, b: libc::c_ulong, c: libc::c_ulong, d: libc::c_ulong) -> c_int {
    if on() {
        return 0;
    }
    ret(raw6(libc::SYS_prctl, op as c_long, a as c_long, b as c_long, c as c_long, d as c_long, 0)) as c_int
}

// --- /run/user and /scratch live in the scratch directory of the execution -------------------
unsafe fn redirect(p: *const c_char) -> Option<CString> {
    if !on() || p.is_null() {
        return None;
    }
    let s = CStr::from_ptr(p).to_bytes();
    if s.starts_with(b"/run/") || s.starts_with(b"/scratch/") {
        let mut v = scratch().as_bytes().to_vec();
        v.extend(s.split(|c| *c == b'/').filter(|x| !x.is_empty()).flat_map(|x| {
            let mut y = vec![b'/'];
            y.extend(x);
            y
        }));
        return CString::new(v).ok();
    }
    None
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: libc::mode_t) -> c_int {
    let r = redirect(p);
    let q = r.as_ref().map_or(p, |r| r.as_ptr());
    let x = raw6(libc::SYS_mkdir, q as c_long, mode as c_long, 0, 0, 0, 0);
    if r.is_some() && x == -libc::EEXIST as c_long {
        return 0;
    }
    ret(x) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    crate::hist::fs_point("unlink");
    let r = redirect(p);
    let q = r.as_ref().map_or(p, |r| r.as_ptr());
    ret(raw6(libc::SYS_unlink, q as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> c_int {
    if on() && (*addr).sa_family == libc::AF_UNIX as u16 {
        let un = addr as *const libc::sockaddr_un;
        if let Some(r) = redirect((*un).sun_path.as_ptr()) {
            let mut n: libc::sockaddr_un = std::mem::zeroed();
            n.sun_family = libc::AF_UNIX as u16;
            let b = r.as_bytes();
            if b.len() < n.sun_path.len() {
                for (i, c) in b.iter().enumerate() {
                    n.sun_path[i] = *c as c_char;
                }
                return ret(raw6(
                    libc::SYS_bind,
                    fd as c_long,
                    &n as *const _ as c_long,
                    std::mem::size_of::<libc::sockaddr_un>() as c_long,
                    0,
                    0,
                    0,
                )) as c_int;
            }
        }
    }
    ret(raw6(libc::SYS_bind, fd as c_long, addr as c_long, len as c_long, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    if on() && redirect(p).is_some() {
        // socket directory clean-up: nothing there
        *libc::__errno_location() = libc::ENOENT;
        return std::ptr::null_mut();
    }
    type F = unsafe extern "C" fn(*const c_char) -> *mut libc::DIR;
    let f = libc::dlsym(libc::RTLD_NEXT, b"opendir\0".as_ptr() as *const c_char);
    let f: F = std::mem::transmute(f);
    f(p)
}

// --- file system operations that other processes can observe -----------------------------------
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    crate::hist::fs_point("open");
    ret(raw6(libc::SYS_openat, libc::AT_FDCWD as c_long, p as c_long, (flags | libc::O_LARGEFILE) as c_long, mode as c_long, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    crate::hist::fs_point("flock");
    ret(raw6(libc::SYS_flock, fd as c_long, op as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    crate::hist::fs_point("write");
    crate::faultio::write(fd, b as *const u8, n)
}
pub unsafe fn raw_write(fd: c_int, b: *const u8, n: usize) -> isize {
    ret(raw6(libc::SYS_write, fd as c_long, b as c_long, n as c_long, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    crate::hist::fs_point("close");
    ret(raw6(libc::SYS_close, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: libc::off64_t) -> c_int {
    crate::hist::fs_point("ftruncate");
    ret(raw6(libc::SYS_ftruncate, fd as c_long, n as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    crate::hist::fs_point("rename");
    ret(raw6(libc::SYS_rename, a as c_long, b as c_long, 0, 0, 0, 0)) as c_int
}
