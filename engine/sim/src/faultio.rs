//! Write errors: every write(2) of the crate to the log, to the mirror of the console and to the
//! console itself comes by here, and may be cut short, interrupted or refused.
use crate::sim::{self, Ev};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Io {
    /// only some of the bytes are taken
    Short,
    /// interrupted by a signal before any byte was taken
    Intr,
    /// no space, this time
    Once,
    /// no space, from now on
    Full,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IoPlan {
    pub kinds: Vec<Io>,
    /// how many of them
    pub budget: u32,
    /// log, mirror, console
    pub targets: [bool; 3],
}
struct St {
    plan: IoPlan,
    paths: [String; 2],
    full: [bool; 3],
    left: u32,
    armed: bool,
    screen: Vec<u8>,
}
thread_local! {
    static ST: RefCell<Option<St>> = const { RefCell::new(None) };
}
/// From now on.
pub fn begin(plan: &IoPlan, dir: &str) {
    ST.with(|s| {
        *s.borrow_mut() = Some(St {
            plan: plan.clone(),
            paths: [format!("{dir}/wf.log"), format!("{dir}/log.txt")],
            full: [false; 3],
            left: plan.budget,
            armed: false,
            screen: vec![],
        })
    });
}
/// No more faults. What was shown on the console.
pub fn end() -> Vec<u8> {
    ST.with(|s| s.borrow_mut().take()).map_or(vec![], |s| s.screen)
}
/// Whether something may go wrong now.
pub fn arm(on: bool) {
    ST.with(|s| {
        if let Some(s) = s.borrow_mut().as_mut() {
            s.armed = on;
        }
    });
}
/// The disk has space again, and nothing else goes wrong.
pub fn heal() {
    ST.with(|s| {
        if let Some(s) = s.borrow_mut().as_mut() {
            s.full = [false; 3];
            s.left = 0;
        }
    });
}
fn target(s: &St, fd: i32) -> Option<usize> {
    if fd == 1 {
        return Some(2);
    }
    unsafe {
        let mut a: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut a) != 0 || a.st_mode & libc::S_IFMT != libc::S_IFREG {
            return None;
        }
        for (i, p) in s.paths.iter().enumerate() {
            let mut b: libc::stat = std::mem::zeroed();
            let c = std::ffi::CString::new(p.as_str()).ok()?;
            if libc::stat(c.as_ptr(), &mut b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev {
                return Some(i);
            }
        }
    }
    None
}
unsafe fn real(fd: i32, buf: *const u8, n: usize) -> isize {
    crate::rt::raw_write(fd, buf, n)
}
unsafe fn errno(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}
/// # Safety
/// As write(2).
pub unsafe fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    let on = ST.try_with(|s| s.try_borrow().map_or(false, |s| s.is_some())).unwrap_or(false);
    if !on {
        return real(fd, buf, n);
    }
    let t = ST.with(|s| target(s.borrow().as_ref().unwrap(), fd));
    let Some(t) = t else { return real(fd, buf, n) };
    let (full, kinds) = ST.with(|s| {
        let s = s.borrow();
        let s = s.as_ref().unwrap();
        let k = if s.left > 0 && s.plan.targets[t] && s.armed { s.plan.kinds.clone() } else { vec![] };
        (s.full[t], k)
    });
    let mut kind = None;
    if full {
        return errno(libc::ENOSPC);
    }
    if let (false, Some(sim)) = (kinds.is_empty(), sim::cur()) {
        let c = sim.choose(1 + kinds.len(), true);
        if c > 0 {
            kind = Some(kinds[c - 1]);
            ST.with(|s| s.borrow_mut().as_mut().unwrap().left -= 1);
            sim.record(Ev::Io { target: t, kind: kinds[c - 1], of: n });
        }
    }
    let mut m = n;
    match kind {
        Some(Io::Intr) => return errno(libc::EINTR),
        Some(Io::Once) => return errno(libc::ENOSPC),
        Some(Io::Full) => {
            ST.with(|s| s.borrow_mut().as_mut().unwrap().full[t] = true);
            if n < 2 {
                return errno(libc::ENOSPC);
            }
            m = n / 2;
        }
        Some(Io::Short) => m = (n / 2).max(1),
        None => {}
    }
    if t == 2 {
        // nobody is watching
        let b = std::slice::from_raw_parts(buf, m);
        ST.with(|s| s.borrow_mut().as_mut().unwrap().screen.extend_from_slice(b));
        return m as isize;
    }
    real(fd, buf, m)
}
