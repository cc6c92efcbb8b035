//! nix as seen by the worker program: waiting concerns the simulated children.
pub use nix::*;
pub mod sys {
    pub use nix::sys::*;
    pub mod wait {
        use nix::unistd::Pid;
        pub use nix::sys::wait::*;
        pub fn waitpid<P: Into<Option<Pid>>>(p: P, flags: Option<WaitPidFlag>) -> nix::Result<WaitStatus> {
            let _ = p.into();
            let g = wctl::cur();
            let h = wctl::host().ok_or(nix::errno::Errno::ECHILD)?;
            loop {
                if let Some((pid, st)) = h.reap(g) {
                    return WaitStatus::from_raw(Pid::from_raw(pid), st);
                }
                if h.children(g).is_empty() {
                    return Err(nix::errno::Errno::ECHILD);
                }
                if flags.map_or(false, |f| f.contains(WaitPidFlag::WNOHANG)) {
                    return Ok(WaitStatus::StillAlive);
                }
                wctl::block_sleep(std::time::Duration::from_millis(1));
            }
        }
    }
}
pub mod unistd {
    pub use nix::unistd::*;
    pub fn getpid() -> Pid {
        Pid::from_raw(wctl::with(wctl::cur(), |g| g.pid as i32).unwrap_or(1))
    }
}
