//! The process table as seen by the worker program.
use std::collections::HashMap;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Pid(usize);
pub trait PidExt: Copy {
    fn as_u32(self) -> u32;
    fn from_u32(v: u32) -> Self;
}
impl PidExt for Pid {
    fn as_u32(self) -> u32 {
        self.0 as u32
    }
    fn from_u32(v: u32) -> Self {
        Pid(v as usize)
    }
}
pub struct Process {
    pid: Pid,
    parent: Option<Pid>,
}
pub trait ProcessExt {
    fn parent(&self) -> Option<Pid>;
    fn pid(&self) -> Pid;
}
impl ProcessExt for Process {
    fn parent(&self) -> Option<Pid> {
        self.parent
    }
    fn pid(&self) -> Pid {
        self.pid
    }
}
#[derive(Clone, Copy, Default)]
pub struct ProcessRefreshKind;
impl ProcessRefreshKind {
    pub fn new() -> Self {
        Self
    }
    pub fn everything() -> Self {
        Self
    }
}
#[derive(Clone, Copy, Default)]
pub struct RefreshKind;
impl RefreshKind {
    pub fn new() -> Self {
        Self
    }
    pub fn with_processes(self, _: ProcessRefreshKind) -> Self {
        self
    }
}
pub struct System(HashMap<Pid, Process>);
pub trait SystemExt: Sized {
    fn new_with_specifics(r: RefreshKind) -> Self;
    fn new() -> Self {
        Self::new_with_specifics(RefreshKind)
    }
    fn new_all() -> Self {
        Self::new_with_specifics(RefreshKind)
    }
    fn refresh_processes(&mut self);
    fn processes(&self) -> &HashMap<Pid, Process>;
    fn process(&self, p: Pid) -> Option<&Process> {
        self.processes().get(&p)
    }
}
impl SystemExt for System {
    fn new_with_specifics(_: RefreshKind) -> Self {
        let mut s = System(HashMap::new());
        s.refresh_processes();
        s
    }
    fn refresh_processes(&mut self) {
        self.0.clear();
        let g = wctl::cur();
        let me = Pid(wctl::with(g, |g| g.pid).unwrap_or(1) as usize);
        self.0.insert(me, Process { pid: me, parent: Some(Pid(1)) });
        if let Some(h) = wctl::host() {
            for (p, _) in h.children(g) {
                let p = Pid(p as usize);
                self.0.insert(p, Process { pid: p, parent: Some(me) });
            }
        }
    }
    fn processes(&self) -> &HashMap<Pid, Process> {
        &self.0
    }
}
pub fn get_current_pid() -> Result<Pid, &'static str> {
    wctl::with(wctl::cur(), |g| Pid(g.pid as usize)).ok_or("no process")
}
