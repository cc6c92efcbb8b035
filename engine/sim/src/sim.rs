//! The controller: resolves every choice of an execution, simulates the environment (child
//! processes, provisioner, remote workers, admin clients, signals) and records a trace.
use crate::rt;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::io;
use std::os::unix::process::ExitStatusExt;
use std::pin::Pin;
use std::process::ExitStatus;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::sim::{ChildEnd, Hook, PipeReader, PipeWriter, SimProc, SimSpawn, SpawnReq, StdioKind};

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000 * MS;
pub const NEVER: u64 = u64::MAX / 4;

// ------------------------------------------------------------------------------- scenarios

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Out {
    Exit(i32),
    Signal(i32),
    SpawnFail,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Consume {
    /// takes what is there until it exits
    All,
    /// exits only when it has read to the end
    Eof,
    /// exits without reading; the read end is closed on exit
    None,
    /// closes its end at once
    Close,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Task {
    pub key: String,
    pub deps: Vec<u32>,
    pub affinity: u64,
    pub out: Out,
    /// earliest exit, ms after the start
    pub min_ms: u64,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub fd3: Vec<u8>,
    pub fd_input: Option<(i32, Vec<u8>)>,
    pub consume: Consume,
    pub pre: bool,
    pub post: bool,
    pub display: Option<String>,
    pub extra_args: Vec<String>,
    pub storage_root: u32,
    /// child ignores SIGTERM
    pub ignore_term: bool,
    /// outcome of later runs of the same key, one per further run
    pub later: Vec<Out>,
    /// processes it leaves behind: (life time in ms, ignores SIGTERM)
    #[serde(default)]
    pub leaves: Vec<(u64, bool)>,
    /// the preamble reports an error
    #[serde(default)]
    pub pre_fails: bool,
    /// the order it writes in what does not fit into a pipe: 0: output, errors, values, 1: the
    /// other way round, 2: a little of each in turn
    #[serde(default)]
    pub worder: u8,
}
/// Arguments that are not UTF-8: U+E080 .. U+E0FF stand for the bytes.
pub fn os(s: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut b = vec![];
    for c in s.chars() {
        match c as u32 {
            u @ 0xe080..=0xe0ff => b.push(u as u8),
            _ => b.extend(c.to_string().bytes()),
        }
    }
    std::ffi::OsString::from_vec(b)
}
pub fn un_os(s: &std::ffi::OsStr) -> String {
    use std::os::unix::ffi::OsStrExt;
    let mut r = String::new();
    let mut b = s.as_bytes();
    loop {
        match std::str::from_utf8(b) {
            Ok(v) => return r + v,
            Err(e) => {
                let k = e.valid_up_to();
                r += std::str::from_utf8(&b[..k]).unwrap();
                r.push(char::from_u32(0xe000 + b[k] as u32).unwrap());
                b = &b[k + 1..];
            }
        }
    }
}
pub fn lossy(s: &str) -> String {
    os(s).to_string_lossy().to_string()
}
impl Task {
    /// More than a pipe takes at once, from a process that ends by itself.
    fn writes_much(&self) -> bool {
        matches!(self.out, Out::Exit(_))
            && self.later.is_empty()
            && [&self.stdout, &self.stderr, &self.fd3].iter().any(|d| d.len() > tokio::sim::PIPE_CAP)
    }
    pub fn new(i: usize) -> Task {
        Task {
            key: format!("k{i}"),
            deps: vec![],
            affinity: 1,
            out: Out::Exit(0),
            min_ms: 0,
            stdout: vec![],
            stderr: vec![],
            fd3: vec![],
            fd_input: None,
            consume: Consume::All,
            pre: false,
            post: false,
            display: None,
            extra_args: vec![],
            storage_root: 0,
            ignore_term: false,
            later: vec![],
            leaves: vec![],
            worder: 0,
            pre_fails: false,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Session {
    pub np: i32,
    pub fa: u32,
    pub rerun: bool,
    pub storage_roots: Vec<String>,
    pub tasks: Vec<Task>,
    pub execs: Vec<Exec>,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Exec {
    pub target: Option<u32>,
    pub rate: u32,
    pub prov: Option<Prov>,
    pub acts: Vec<EnvAct>,
    /// only tasks added so far: number of tasks of the session that exist for this execute call
    pub ntasks: Option<usize>,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Prov {
    pub info: Option<String>,
    pub clients: Vec<Client>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Client {
    pub jobid: String,
    pub rt: u32,
    pub msg: String,
    pub at_ms: u64,
    pub ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Txn {
    Mine,
    Last,
    Of(usize),
    Bogus,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Start,
    /// give up waiting for a task after that many ms
    StartDrop(u64),
    Begun,
    Ping,
    Run,
    End(bool),
    /// behave like execgraph-remote for up to n tasks
    Serve(u32),
    Sleep(u64),
    AutoPing(bool),
    Status { etag: u64, timemin: u64, timeout: u64 },
    /// long-poll with the etag of the last reply
    Poll { timemin: u64, timeout: u64 },
    MarkCancel(Vec<String>),
    AdminRate(u32),
    AdminInfo(Option<String>),
    AdminShutdown(bool),
    AdminStatus,
    /// a request that must be refused: path, token ok?, job id header, transaction
    Bad { path: String, token: bool, wrong: u8, jobid: Option<String>, txn: Txn },
    Vanish,
    /// a connection on which a request is begun and not completed for so many ms
    Silent(u64),
    /// the real worker program with these further arguments; so many network faults
    Real(Vec<String>, u32),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Sigint,
    ProvExit(i32),
    /// SIGUSR1 to the worker program of a client
    Usr1(usize),
    /// SIGKILL to it
    WKill(usize),
    /// slurmstepd writes to its error file
    Slurm(usize, String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EnvAct {
    pub at_ms: u64,
    /// only once this many tasks have been started in this execute call
    pub after_starts: u32,
    pub act: Act,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sched {
    pub picks: bool,
    pub early: bool,
    pub points: bool,
    pub selects: bool,
    /// everything that happens at the same time happens at once
    #[serde(default)]
    pub burst: bool,
    /// deviations only from then to then, in ms
    #[serde(default)]
    pub window: Option<(u64, u64)>,
    pub bound: u32,
    pub max_execs: u64,
}
impl Sched {
    pub fn bursts(bound: u32) -> Sched {
        Sched { burst: true, ..Sched::all(bound) }
    }
    pub fn env_only() -> Sched {
        Sched { picks: false, early: false, points: false, selects: false, burst: false, window: None, bound: 0, max_execs: 20_000 }
    }
    pub fn tasks(bound: u32) -> Sched {
        Sched { picks: true, early: true, points: false, selects: true, burst: false, window: None, bound, max_execs: 60_000 }
    }
    pub fn all(bound: u32) -> Sched {
        Sched { picks: true, early: true, points: true, selects: true, burst: false, window: None, bound, max_execs: 60_000 }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub name: String,
    pub sessions: Vec<Session>,
    pub sched: Sched,
    pub seed: u64,
    /// what happens to the log after each session
    #[serde(default)]
    pub cuts: Vec<Cut>,
    #[serde(default)]
    pub hist: Option<crate::hist::Hist>,
    /// watch the size of the files on disk
    #[serde(default)]
    pub disk: bool,
    /// no controller: the worker program talks to a script
    #[serde(default)]
    pub script: Option<Script>,
    /// what goes wrong with writes in the first session
    #[serde(default)]
    pub io: Option<crate::faultio::IoPlan>,
}
/// What a scripted controller does.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Script {
    pub ping_ms: u64,
    /// what may go wrong with a request
    pub kinds: Vec<Fault>,
    /// the job is over at this time: the controller has nothing to do any more
    pub until_ms: u64,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// the request is refused with this status
    Code(u16),
    /// the request does not arrive, the worker is told at once
    Unreachable,
    /// it arrives, the answer does not
    NoReply,
    /// it does not arrive and nobody is told
    BlackHole,
    /// from now on nothing arrives
    Partition,
    /// answered late, by so many ms
    Slow(u64),
}
/// The process was killed: how much of the log survives is a choice.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cut {
    No,
    /// any number of bytes of the session
    Bytes,
    /// any number of bytes, the rest of the file reads as zeros
    Zeros,
    /// around the ends and in the middle of the session's lines
    Lines,
}

// ----------------------------------------------------------------------------------- trace

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ev {
    Session(usize),
    Cut { keep: usize, of: usize },
    /// a write of so many bytes went wrong
    Io { target: usize, kind: crate::faultio::Io, of: usize },
    Added { idx: usize, id: Result<u32, String> },
    ExecStart(usize),
    ExecEnd(Result<(u32, Vec<String>), String>),
    Spawn { pid: u32, idx: usize, key: String, console: bool, stdio: [u8; 3], argv: Vec<String>, kill_on_drop: bool },
    SpawnFail { idx: usize, key: String },
    Exit { pid: u32, key: String, status: i32, read: Option<Vec<u8>> },
    Signal { pid: u32, sig: i32, how: char },
    Killpg(i32),
    Prov { pid: u32, url: String, token: String },
    ProvExit,
    ProvSignal { sig: i32, how: char },
    Act(String),
    /// a task was given the token in its environment
    Secret { idx: usize },
    Handout { client: usize, idx: usize, key: String, txn: u32, argv: Vec<String>, fd_input: Option<(i32, Vec<u8>)>, ping_ms: u64, via: String },
    RunDone { client: usize, idx: usize, key: String, status: i32 },
    Req { client: usize, what: String, txn: u32 },
    Resp { client: usize, what: String, code: u16, txn: u32 },
    Refused { client: usize, what: String },
    Dropped { client: usize },
    Status { client: usize, want: u64, sent: u64, timemin: u64, timeout: u64, reply: StatusView },
    Marked { client: usize, req: Vec<String>, rep: Vec<String> },
    Pre { idx: usize },
    Post { idx: usize, success: u32, runcount: u32, ntasks: u64 },
    Panic { msg: String, loc: String },
    Hang,
    LockLeft(bool),
    /// size of the log and of the console log, just before time moves on
    Disk { log: u64, con: u64 },
    // the worker program
    WStart { client: usize, args: Vec<String> },
    WSpawn { client: usize, pid: u32, idx: usize, key: String, argv: Vec<String>, stdio: [u8; 3], fds: Vec<i32> },
    WSpawnFail { client: usize, idx: usize, key: String },
    /// a child of the worker has ended; what it read from its input
    WDone { client: usize, pid: u32, idx: Option<usize>, status: i32, read: Option<Vec<u8>> },
    WSignal { client: usize, pid: u32, sig: i32, alive: bool },
    WReq { client: usize, what: String, txn: u32, body: serde_json::Value, auth: Option<String>, job: Option<String> },
    WFault { client: usize, what: String, txn: u32, kind: Fault },
    /// the scripted controller's answer
    WResp { client: usize, what: String, txn: u32, code: u16, next: Option<u32> },
    WAct { client: usize, what: String },
    /// the worker program is over; its children that are alive, and those that ended unnoticed
    WExit { client: usize, ok: bool, alive: Vec<u32>, zombies: Vec<u32> },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct StatusView {
    pub queues: Vec<(u64, u32, u32)>,
    pub etag: u64,
    pub total: u32,
    pub unready: u32,
    pub ratelimit: u32,
    pub info: Option<String>,
    #[serde(default)]
    pub avg_ms: u64,
    #[serde(default)]
    pub rate: f64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TEv {
    pub t: u64,
    pub epoch: u32,
    pub ev: Ev,
}
#[derive(Clone, Debug)]
pub struct Choice {
    pub n: u16,
    pub chosen: u16,
    pub free: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AbortWhy {
    Hang,
    Abandoned,
    Diverged,
    TooLong,
}
pub struct Abort(pub AbortWhy);

// ----------------------------------------------------------------------------------- world

struct Proc {
    pid: u32,
    idx: Option<usize>,
    proc: Arc<SimProc>,
    out: Option<PipeWriter>,
    err: Option<PipeWriter>,
    fd3: Option<PipeWriter>,
    input: Option<PipeReader>,
    has_input: bool,
    read: Vec<u8>,
    eof: bool,
    earliest: u64,
    /// how much of its output, errors and values it has written
    wpos: [usize; 3],
    alive: bool,
    run: usize,
    /// the simulated process it is a child of, 0 for the controller
    owner: u32,
    /// left behind by a task: ignores SIGTERM
    leaf: Option<bool>,
    /// waited for by waitpid
    reaped: bool,
}
impl Proc {
    fn prov(&self) -> bool {
        self.idx.is_none() && self.owner == 0
    }
}
/// First id of a simulated process that runs the worker program.
pub const GID0: u32 = 900_000;
#[derive(Default)]
struct ClientSt {
    gate: Option<u64>,
    fired: bool,
    waker: Option<Waker>,
    cur: Option<(u32, usize)>,
    last: u32,
    autoping: bool,
    etag: u64,
}
impl World {
    fn next_pid(&self) -> u32 {
        20_000 + self.procs.len() as u32 + 1000 * (self.sess * 10 + self.exec) as u32
    }
    /// Children of a simulated process that have not been waited for: (index, pid, ended)
    pub fn children(&self, owner: u32) -> Vec<(usize, u32, bool)> {
        self.procs
            .iter()
            .enumerate()
            .filter(|(_, p)| p.owner == owner && !p.reaped && !p.proc.reaped())
            .map(|(i, p)| (i, p.pid, !p.alive))
            .collect()
    }
    pub fn reap(&mut self, i: usize) -> i32 {
        self.procs[i].reaped = true;
        self.procs[i].proc.status().map_or(0, |s| s.into_raw())
    }
    pub fn t0(&self) -> u64 {
        self.exec_t0
    }
    pub fn handed_out(&mut self, key: &str) {
        self.starts += 1;
        *self.runs.entry(key.to_string()).or_insert(0) += 1;
    }
    pub fn set_url(&mut self, u: &str) {
        self.url = u.to_string();
    }
    pub fn url(&self) -> String {
        self.url.clone()
    }
    pub fn set_clients(&mut self, n: usize) {
        self.clients = (0..n).map(|_| ClientSt::default()).collect();
    }
    pub fn autoping(&mut self, ci: usize, on: bool) {
        self.clients[ci].autoping = on;
    }
}
pub struct World {
    url: String,
    pub sc: Arc<Scenario>,
    pub sess: usize,
    pub exec: usize,
    procs: Vec<Proc>,
    clients: Vec<ClientSt>,
    routers: [Option<axum::Router>; 2],
    acts_done: Vec<bool>,
    pub trace: Vec<TEv>,
    pub epoch: u32,
    last_progress: u64,
    token: String,
    starts: u32,
    runs: std::collections::HashMap<String, usize>,
    in_exec: bool,
    exec_t0: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Env {
    Exit(usize),
    Client(usize),
    Act(usize),
}

pub struct Sim {
    plan: Vec<u16>,
    pos: Cell<usize>,
    pub rec: RefCell<Vec<Choice>>,
    sched: Sched,
    pub w: RefCell<World>,
    abort: Cell<Option<AbortWhy>>,
    burst: Cell<u32>,
    in_point: Cell<bool>,
    polls: Cell<u64>,
    spins: Cell<u32>,
    pub npoints: Cell<u64>,
    pub disk_dir: RefCell<Option<String>>,
    pub dir: RefCell<String>,
    disk_last: Cell<(u64, u64)>,
}

thread_local! {
    static SIM: RefCell<Option<Rc<Sim>>> = const { RefCell::new(None) };
}
pub fn cur() -> Option<Rc<Sim>> {
    SIM.try_with(|s| s.borrow().clone()).ok().flatten()
}
pub fn set_cur(s: Option<Rc<Sim>>) {
    SIM.with(|x| *x.borrow_mut() = s);
}
pub fn sim() -> Rc<Sim> {
    cur().expect("no simulation on this thread")
}
pub fn record(ev: Ev) {
    if let Some(s) = cur() {
        s.record(ev);
    }
}

pub fn point_handler(_kind: u8) {
    let Some(s) = cur() else { return };
    if s.in_point.get() || s.abort.get().is_some() || !s.sched.points {
        return;
    }
    s.in_point.set(true);
    s.npoints.set(s.npoints.get() + 1);
    tokio::sim::preempt();
    s.in_point.set(false);
}
pub fn kill_handler(how: char, pid: i32, sig: i32) {
    let Some(s) = cur() else { return };
    if how == 'g' {
        s.record(Ev::Killpg(sig));
        s.killpg(sig);
    } else {
        s.signal(pid as u32, sig, how);
    }
}

impl Sim {
    pub fn new(sc: Arc<Scenario>, plan: Vec<u16>) -> Rc<Sim> {
        let sched = sc.sched.clone();
        Rc::new(Sim {
            plan,
            pos: Cell::new(0),
            rec: RefCell::new(vec![]),
            sched,
            w: RefCell::new(World {
                sc,
                sess: 0,
                exec: 0,
                procs: vec![],
                clients: vec![],
                routers: [None, None],
                acts_done: vec![],
                trace: vec![],
                epoch: 0,
                last_progress: 0,
                token: String::new(),
                url: String::new(),
                starts: 0,
                runs: Default::default(),
                in_exec: false,
                exec_t0: 0,
            }),
            abort: Cell::new(None),
            burst: Cell::new(0),
            in_point: Cell::new(false),
            polls: Cell::new(0),
            spins: Cell::new(0),
            npoints: Cell::new(0),
            disk_dir: RefCell::new(None),
            dir: RefCell::new(String::new()),
            disk_last: Cell::new((0, 0)),
        })
    }
    pub fn aborted(&self) -> Option<AbortWhy> {
        self.abort.get()
    }
    pub fn set_aborted(&self, w: AbortWhy) {
        self.abort.set(Some(w));
    }
    fn do_abort(&self, why: AbortWhy) -> ! {
        self.abort.set(Some(why));
        std::panic::panic_any(Abort(why))
    }
    /// Note the sizes of the files if they have changed.
    pub fn disk(&self) {
        let Some(dir) = self.disk_dir.borrow().clone() else { return };
        let len = |f: &str| std::fs::metadata(format!("{dir}/{f}")).map_or(0, |m| m.len());
        let s = (len("wf.log"), len("log.txt"));
        if self.disk_last.get() != s {
            self.disk_last.set(s);
            let mut w = self.w.borrow_mut();
            let epoch = w.epoch;
            w.trace.push(TEv { t: rt::vt(), epoch, ev: Ev::Disk { log: s.0, con: s.1 } });
        }
    }
    pub fn record(&self, ev: Ev) {
        if self.abort.get().is_some() && !matches!(ev, Ev::Hang) {
            return;
        }
        if let Ok(mut w) = self.w.try_borrow_mut() {
            let t = rt::vt();
            if w.trace.len() > 200_000 {
                self.abort.set(Some(AbortWhy::TooLong));
                return;
            }
            // what goes on for ever is no progress
            if !matches!(&ev, Ev::WReq { what, .. } | Ev::WResp { what, .. } | Ev::Req { what, .. } | Ev::Resp { what, .. } if what == "ping") {
                w.last_progress = t;
            }
            let epoch = w.epoch;
            w.trace.push(TEv { t, epoch, ev });
        }
    }

    pub fn choose(&self, n: usize, free: bool) -> usize {
        if n <= 1 {
            return 0;
        }
        if let (Some((from, to)), false) = (self.sched.window, free) {
            if !(from * MS..to * MS).contains(&rt::vt()) {
                return 0;
            }
        }
        let pos = self.pos.get();
        let c = match self.plan.get(pos) {
            Some(&c) => c as usize,
            None => 0,
        };
        self.pos.set(pos + 1);
        let chosen = if c < n {
            c
        } else {
            self.abort.set(Some(AbortWhy::Diverged));
            0
        };
        self.rec.borrow_mut().push(Choice { n: n as u16, chosen: chosen as u16, free });
        chosen
    }
    fn check(&self) {
        if simhook::abandoned() {
            self.do_abort(AbortWhy::Abandoned);
        }
        if let Some(why) = self.abort.get() {
            std::panic::panic_any(Abort(why));
        }
    }

    // ---- environment events
    fn pending(&self) -> Vec<(Env, u64)> {
        let w = self.w.borrow();
        if !w.in_exec {
            return vec![];
        }
        let mut v = vec![];
        for (i, p) in w.procs.iter().enumerate() {
            if p.alive && !p.prov() {
                let t = p.idx.map(|ix| &w.sc.sessions[w.sess].tasks[ix]);
                if !p.eof && p.input.is_some() && t.map_or(false, |t| t.consume == Consume::Eof && matches!(t.out, Out::Exit(_))) {
                    continue;
                }
                // not before it has written everything
                if t.map_or(false, |t| {
                    t.writes_much()
                        && p.earliest <= rt::vt()
                        && p.wpos != [t.stdout.len(), t.stderr.len(), t.fd3.len()]
                }) {
                    continue;
                }
                v.push((Env::Exit(i), p.earliest));
            }
        }
        for (i, c) in w.clients.iter().enumerate() {
            if let Some(g) = c.gate {
                if !c.fired {
                    v.push((Env::Client(i), g));
                }
            }
        }
        let ex = &w.sc.sessions[w.sess].execs[w.exec];
        for (i, a) in ex.acts.iter().enumerate() {
            if !w.acts_done[i] && w.starts >= a.after_starts {
                // before the call is set up, the signal is not its concern
                if matches!(a.act, Act::Sigint) && rt::vt() == w.exec_t0 && !tokio::sim::signal_listening(libc::SIGINT) {
                    continue;
                }
                if matches!(a.act, Act::ProvExit(_)) && !w.procs.iter().any(|p| p.prov() && p.alive) {
                    continue;
                }
                match a.act {
                    Act::Usr1(c) if !crate::wk::listening(c, libc::SIGUSR1) => continue,
                    Act::WKill(c) | Act::Slurm(c, _) if !crate::wk::running(c) => continue,
                    _ => {}
                }
                v.push((Env::Act(i), w.exec_t0 + a.at_ms * MS));
            }
        }
        v
    }
    fn enabled(&self) -> Vec<Env> {
        let now = rt::vt();
        self.pending().into_iter().filter(|(_, t)| *t <= now).map(|(e, _)| e).collect()
    }
    fn fire(&self, e: Env) {
        match e {
            Env::Exit(i) if self.w.borrow().procs[i].idx.is_none() => {
                self.proc_exit(i, ExitStatus::from_raw(0), None);
            }
            Env::Exit(i) => {
                let (out, t) = {
                    let w = self.w.borrow();
                    let p = &w.procs[i];
                    let t = w.sc.sessions[w.sess].tasks[p.idx.unwrap()].clone();
                    let out = if p.run == 0 {
                        t.out.clone()
                    } else {
                        t.later.get(p.run - 1).cloned().unwrap_or(t.out.clone())
                    };
                    (out, t)
                };
                let st = match out {
                    Out::Exit(c) => ExitStatus::from_raw((c & 0xff) << 8),
                    Out::Signal(s) => ExitStatus::from_raw(s),
                    Out::SpawnFail => ExitStatus::from_raw(255 << 8),
                };
                self.proc_exit(i, st, Some(&t));
            }
            Env::Client(i) => {
                let wk = {
                    let mut w = self.w.borrow_mut();
                    w.clients[i].fired = true;
                    w.clients[i].waker.take()
                };
                if let Some(k) = wk {
                    k.wake();
                }
            }
            Env::Act(i) => {
                let act = {
                    let mut w = self.w.borrow_mut();
                    w.acts_done[i] = true;
                    w.sc.sessions[w.sess].execs[w.exec].acts[i].act.clone()
                };
                match &act {
                    Act::Sigint | Act::ProvExit(_) => self.record(Ev::Act(format!("{act:?}"))),
                    Act::Usr1(c) | Act::WKill(c) | Act::Slurm(c, _) => self.record(Ev::WAct { client: *c, what: format!("{act:?}") }),
                }
                match act {
                    Act::Usr1(c) => crate::wk::usr1(c),
                    Act::WKill(c) => crate::wk::kill(c),
                    Act::Slurm(c, s) => crate::wk::slurm(self, c, &s),
                    Act::Sigint => tokio::sim::raise_signal(libc::SIGINT),
                    Act::ProvExit(c) => {
                        let i = self.w.borrow().procs.iter().position(|p| p.prov() && p.alive);
                        if let Some(i) = i {
                            self.proc_exit(i, ExitStatus::from_raw((c & 0xff) << 8), None);
                        }
                    }
                }
            }
        }
    }
    fn proc_exit(&self, i: usize, st: ExitStatus, t: Option<&Task>) {
        self.drain_input(i);
        let (proc, pipes, wpos, ev) = {
            let mut w = self.w.borrow_mut();
            let p = &mut w.procs[i];
            if !p.alive {
                return;
            }
            p.alive = false;
            let pipes = (p.out.take(), p.err.take(), p.fd3.take(), p.input.take());
            let code = st.code().unwrap_or_else(|| -st.signal().unwrap_or(0));
            let read = p.has_input.then(|| p.read.clone());
            let owner = p.owner;
            let ev = match p.idx {
                idx if owner != 0 => {
                    Ev::WDone { client: (owner - GID0) as usize, pid: p.pid, idx, status: code, read }
                }
                Some(ix) => {
                    let pid = p.pid;
                    Ev::Exit { pid, key: w.sc.sessions[w.sess].tasks[ix].key.clone(), status: code, read }
                }
                None => Ev::ProvExit,
            };
            let p = &w.procs[i];
            (p.proc.clone(), pipes, p.wpos, ev)
        };
        let done = match &ev {
            Ev::WDone { client, idx: Some(idx), status, .. } => Some((*client, *idx, *status)),
            _ => None,
        };
        self.record(ev);
        if let Some((client, idx, status)) = done {
            let (key, leaves) = {
                let w = self.w.borrow();
                let t = &w.sc.sessions[w.sess].tasks[idx];
                (t.key.clone(), t.leaves.clone())
            };
            self.record(Ev::RunDone { client, idx, key, status });
            let mut w = self.w.borrow_mut();
            for (ms, ign) in leaves {
                let pid = w.next_pid();
                let earliest = if ms >= NEVER { NEVER } else { rt::vt() + ms * MS };
                w.procs.push(Proc {
                    pid,
                    idx: None,
                    proc: SimProc::new(pid),
                    out: None,
                    err: None,
                    fd3: None,
                    input: None,
                    has_input: false,
                    read: vec![],
                    eof: false,
                    earliest,
                    wpos: [0; 3],
                    alive: true,
                    run: 0,
                    owner: GID0 + client as u32,
                    leaf: Some(ign),
                    reaped: false,
                });
            }
        }
        if let Some(t) = t {
            let outs = [(&pipes.0, &t.stdout), (&pipes.1, &t.stderr), (&pipes.2, &t.fd3)];
            for ((w, d), pos) in outs.into_iter().zip(wpos) {
                if let (Some(w), true) = (w, pos < d.len()) {
                    w.push(&d[pos..]);
                }
            }
        }
        drop(pipes);
        proc.exit(st);
    }
    /// A process writes what the pipes take; whether it wrote anything.
    fn pump(&self, i: usize) -> bool {
        let mut w = self.w.borrow_mut();
        let w = &mut *w;
        let p = &mut w.procs[i];
        let Some(t) = p.idx.map(|ix| &w.sc.sessions[w.sess].tasks[ix]) else { return false };
        if !p.alive || p.earliest > rt::vt() || !t.writes_much() {
            return false;
        }
        let order = if t.worder == 1 { [2, 1, 0] } else { [0, 1, 2] };
        let chunk = if t.worder == 2 { 4096 } else { usize::MAX };
        let mut any = false;
        loop {
            let mut round = false;
            for k in order {
                let (pipe, d) = [(&p.out, &t.stdout), (&p.err, &t.stderr), (&p.fd3, &t.fd3)][k];
                let left = d.len() - p.wpos[k];
                if left == 0 {
                    continue;
                }
                let n = match pipe {
                    Some(w) if w.has_reader() => w.room().min(left).min(chunk),
                    _ => left,
                };
                if n == 0 {
                    // blocked
                    return any;
                }
                if let Some(w) = pipe {
                    w.push(&d[p.wpos[k]..][..n]);
                }
                p.wpos[k] += n;
                any = true;
                round = true;
                if p.wpos[k] < d.len() && chunk == usize::MAX {
                    return any;
                }
            }
            if !round {
                return any;
            }
        }
    }
    fn drain_input(&self, i: usize) -> bool {
        let (r, mode) = {
            let w = self.w.borrow();
            let p = &w.procs[i];
            let mode = p.idx.map(|ix| w.sc.sessions[w.sess].tasks[ix].consume.clone());
            (p.input.clone(), mode)
        };
        match (r, mode) {
            (Some(r), Some(Consume::All | Consume::Eof)) => {
                let (v, eof) = r.take_available();
                let any = !v.is_empty();
                let mut w = self.w.borrow_mut();
                w.procs[i].read.extend(v);
                w.procs[i].eof |= eof;
                any
            }
            _ => false,
        }
    }
    fn signal(&self, pid: u32, sig: i32, how: char) {
        let found = {
            let w = self.w.borrow();
            w.procs.iter().position(|p| p.pid == pid).map(|i| (i, w.procs[i].idx, w.procs[i].alive))
        };
        if let Some((i, idx, alive)) = found {
            let (owner, ign) = {
                let w = self.w.borrow();
                let p = &w.procs[i];
                (p.owner, p.leaf.unwrap_or(idx.map_or(false, |ix| w.sc.sessions[w.sess].tasks[ix].ignore_term)))
            };
            if owner != 0 {
                self.record(Ev::WSignal { client: (owner - GID0) as usize, pid, sig, alive });
                if alive && !(ign && sig != 9) {
                    self.proc_exit(i, ExitStatus::from_raw(sig), None);
                }
                return;
            }
        }
        match found {
            None => self.record(Ev::Signal { pid, sig, how }),
            Some((i, None, alive)) => {
                self.record(Ev::ProvSignal { sig, how });
                if alive {
                    self.proc_exit(i, ExitStatus::from_raw(sig), None);
                }
            }
            Some((i, Some(ix), alive)) => {
                self.record(Ev::Signal { pid, sig, how });
                let ign = {
                    let w = self.w.borrow();
                    w.sc.sessions[w.sess].tasks[ix].ignore_term
                };
                if alive && !(ign && sig != 9) {
                    self.proc_exit(i, ExitStatus::from_raw(sig), None);
                }
            }
        }
    }
    fn killpg(&self, sig: i32) {
        let v: Vec<u32> = {
            let w = self.w.borrow();
            // the worker programs are in process groups of their own
            w.procs.iter().filter(|p| p.alive && p.owner == 0).map(|p| p.pid).collect()
        };
        for p in v {
            self.signal(p, sig, 'g');
        }
    }

    // ---- life cycle, called by the driver
    /// What the preamble of a task returns.
    pub fn preamble(&self, idx: usize) -> i32 {
        let key = {
            let w = self.w.borrow();
            let t = &w.sc.sessions[w.sess].tasks[idx];
            if !t.pre_fails {
                return 0;
            }
            t.key.clone()
        };
        self.record(Ev::SpawnFail { idx, key });
        let mut w = self.w.borrow_mut();
        w.starts += 1;
        5
    }
    pub fn begin_exec(&self, sess: usize, exec: usize) {
        let mut w = self.w.borrow_mut();
        w.sess = sess;
        w.exec = exec;
        let n = w.sc.sessions[sess].execs[exec].acts.len();
        w.acts_done = vec![false; n];
        w.clients.clear();
        w.routers = [None, None];
        w.starts = 0;
        w.in_exec = true;
        w.exec_t0 = rt::vt();
        w.last_progress = rt::vt();
        drop(w);
        crate::wk::reset();
        hyper::sim::reset();
        axum::sim_capture::start();
    }
    pub fn end_exec(&self) {
        let (r, p) = {
            let mut w = self.w.borrow_mut();
            w.in_exec = false;
            (std::mem::take(&mut w.routers), std::mem::take(&mut w.procs))
        };
        drop(r);
        drop(p);
        crate::wk::reset();
        axum::sim_capture::stop();
    }
    /// Children that are alive: (pid, key).
    pub fn alive(&self) -> Vec<(u32, String)> {
        let w = self.w.borrow();
        w.procs
            .iter()
            .filter(|p| p.alive && p.owner == 0)
            .map(|p| {
                (p.pid, p.idx.map_or("provisioner".to_string(), |i| w.sc.sessions[w.sess].tasks[i].key.clone()))
            })
            .collect()
    }
}

impl Hook for Sim {
    fn pick(&self, n: usize) -> usize {
        self.check();
        self.polls.set(self.polls.get() + 1);
        self.spins.set(0);
        if self.polls.get() > 2_000_000 {
            self.do_abort(AbortWhy::TooLong);
        }
        if !self.sched.picks {
            return 0;
        }
        let env = if self.sched.early { self.enabled() } else { vec![] };
        let c = self.choose(n + env.len(), false);
        if c < n {
            return c;
        }
        self.fire(env[c - n]);
        usize::MAX
    }
    fn preempt(&self, n: usize) -> Option<usize> {
        let b = self.burst.get();
        if b > 0 {
            if n > 0 && b < 200 {
                self.burst.set(b + 1);
                return Some(0);
            }
            self.burst.set(0);
            return None;
        }
        if self.abort.get().is_some() {
            return None;
        }
        let env = if self.sched.early { self.enabled() } else { vec![] };
        // run nothing | one task | all of them until nothing is runnable | an event, then all
        let singles = n;
        let burst = usize::from(n > 0);
        let c = self.choose(1 + singles + burst + env.len(), false);
        if c == 0 {
            None
        } else if c <= singles {
            Some(c - 1)
        } else if c <= singles + burst {
            self.burst.set(1);
            Some(0)
        } else {
            self.fire(env[c - 1 - singles - burst]);
            self.burst.set(1);
            // the event may or may not have made something runnable: ask again with the new count
            if n > 0 {
                return Some(0);
            }
            self.burst.set(0);
            None
        }
    }
    fn idle(&self, next: Option<Duration>) {
        self.check();
        let n = {
            let mut w = self.w.borrow_mut();
            w.epoch += 1;
            w.procs.len()
        };
        let mut any = false;
        for i in 0..n {
            any |= self.drain_input(i);
            any |= self.pump(i);
        }
        if any {
            return;
        }
        let now = rt::vt();
        let pend = self.pending();
        let en: Vec<Env> = pend.iter().filter(|p| p.1 <= now).map(|p| p.0).collect();
        if !en.is_empty() {
            let c = self.choose(en.len(), true);
            self.w.borrow_mut().last_progress = now;
            self.fire(en[c]);
            if self.sched.burst {
                for (i, e) in en.iter().enumerate() {
                    if i != c && self.enabled().contains(e) {
                        self.fire(*e);
                    }
                }
            }
            return;
        }
        let cand = pend.iter().map(|p| p.1).filter(|t| *t < NEVER).min();
        if cand.is_none() {
            let lp = self.w.borrow().last_progress;
            if next.is_none() || now > lp + 100 * SEC {
                self.record(Ev::Hang);
                self.do_abort(AbortWhy::Hang);
            }
        }
        let mut t = next.map(|d| now + d.as_nanos() as u64).unwrap_or(u64::MAX);
        if let Some(c) = cand {
            t = t.min(c);
        }
        self.disk();
        rt::advance(t.max(now + 1) - now);
    }
    fn select(&self, n: u32) -> u32 {
        // a loop around a `select!` may rely on its fairness to come to an end
        let k = self.spins.get() + 1;
        self.spins.set(k);
        if k > 40 {
            if k > 3_000_000 {
                self.do_abort(AbortWhy::TooLong);
            }
            return (k >> 2 ^ k) % n;
        }
        if !self.sched.selects || self.abort.get().is_some() {
            return 0;
        }
        self.choose(n as usize, false) as u32
    }
    fn spawn(&self, req: SpawnReq) -> io::Result<SimSpawn> {
        let prog = req.program.to_string_lossy().to_string();
        let args: Vec<String> = req.args.iter().map(|a| un_os(a)).collect();
        let pid;
        let idx;
        let mut task = None;
        let owner = tokio::sim::group();
        {
            let mut w = self.w.borrow_mut();
            pid = w.next_pid();
            if prog == "/sim/prov" {
                idx = None;
                w.url = args.first().cloned().unwrap_or_default();
                w.token = req
                    .envs
                    .iter()
                    .find(|(k, _)| k == "EXECGRAPH_AUTHORIZATION_TOKEN")
                    .and_then(|(_, v)| v.as_ref().map(|v| v.to_string_lossy().to_string()))
                    .unwrap_or_default();
            } else {
                let key = args.first().cloned().unwrap_or_default();
                let sess = w.sess;
                idx = w.sc.sessions[sess].tasks.iter().position(|t| t.key == key);
                match idx {
                    None => return Err(io::Error::from_raw_os_error(libc::ENOENT)),
                    Some(i) => task = Some(w.sc.sessions[sess].tasks[i].clone()),
                }
                if owner == 0 {
                    w.starts += 1;
                }
            }
        }
        if let Some(idx) = idx {
            let token = self.w.borrow().token.clone();
            let mut env: Vec<String> = if owner != 0 { crate::wk::env(owner) } else { vec![] };
            env.extend(req.envs.iter().filter_map(|(_, v)| v.as_ref()).map(|v| v.to_string_lossy().to_string()));
            let known = |v: &String| !token.is_empty() && *v == token || v == crate::wk::TOKEN;
            if env.iter().any(known) {
                self.record(Ev::Secret { idx });
            }
        }
        let mut run = 0;
        if let Some(t) = &task {
            let mut w = self.w.borrow_mut();
            let r = w.runs.entry(t.key.clone()).or_insert(0);
            if owner == 0 {
                run = *r;
                *r += 1;
            } else {
                // counted when it was handed out
                run = r.saturating_sub(1);
            }
        }
        let sk = |k: StdioKind| match k {
            StdioKind::Null => 0u8,
            StdioKind::Piped => 1,
            StdioKind::Inherit | StdioKind::Unset => 2,
            StdioKind::Other => 3,
        };
        if let Some(t) = &task {
            let out = if run == 0 { &t.out } else { t.later.get(run - 1).unwrap_or(&t.out) };
            if *out == Out::SpawnFail && owner != 0 {
                let client = (owner - GID0) as usize;
                self.record(Ev::WSpawnFail { client, idx: idx.unwrap(), key: t.key.clone() });
                self.record(Ev::RunDone { client, idx: idx.unwrap(), key: t.key.clone(), status: 13 });
                return Err(io::Error::from_raw_os_error(libc::ENOENT));
            }
            if *out == Out::SpawnFail {
                self.record(Ev::SpawnFail { idx: idx.unwrap(), key: t.key.clone() });
                return Err(io::Error::from_raw_os_error(libc::ENOENT));
            }
        }
        let proc = SimProc::new(pid);
        let mk = |k: StdioKind| {
            if k == StdioKind::Piped {
                let (r, w) = tokio::sim::pipe();
                (Some(r), Some(w))
            } else {
                (None, None)
            }
        };
        let (or, ow) = mk(req.stdout);
        let (er, ew) = mk(req.stderr);
        let mut fd3 = None;
        let mut input = None;
        let mut has_input = false;
        for (child, parent) in &req.fds {
            match tokio::sim::inherit_fd(*parent) {
                ChildEnd::W(w) if *child == 3 => fd3 = Some(w),
                ChildEnd::R(r) => {
                    if task.as_ref().and_then(|t| t.fd_input.as_ref()).map(|x| x.0) == Some(*child) {
                        has_input = true;
                        if task.as_ref().map(|t| t.consume.clone()) != Some(Consume::Close) {
                            input = Some(r);
                        }
                    }
                }
                _ => {}
            }
        }
        let ev = match &task {
            Some(t) if owner != 0 => {
                let mut argv = vec![prog.clone()];
                argv.extend(args.clone());
                Ev::WSpawn {
                    client: (owner - GID0) as usize,
                    pid,
                    idx: idx.unwrap(),
                    key: t.key.clone(),
                    argv,
                    stdio: [sk(req.stdin), sk(req.stdout), sk(req.stderr)],
                    fds: req.fds.iter().map(|f| f.0).collect(),
                }
            }
            Some(t) => {
                let mut argv = vec![prog.clone()];
                argv.extend(args.clone());
                Ev::Spawn {
                    pid,
                    idx: idx.unwrap(),
                    key: t.key.clone(),
                    console: sk(req.stdin) == 2,
                    stdio: [sk(req.stdin), sk(req.stdout), sk(req.stderr)],
                    argv,
                    kill_on_drop: req.kill_on_drop,
                }
            }
            None => Ev::Prov {
                pid,
                url: args.first().cloned().unwrap_or_default(),
                token: self.w.borrow().token.clone(),
            },
        };
        self.record(ev);
        let nclients = {
            let mut w = self.w.borrow_mut();
            let min = task.as_ref().map(|t| t.min_ms).unwrap_or(NEVER);
            let earliest = if min >= NEVER { NEVER } else { rt::vt() + min * MS };
            w.procs.push(Proc {
                pid,
                idx,
                proc: proc.clone(),
                out: ow,
                err: ew,
                fd3,
                input,
                has_input,
                read: vec![],
                eof: false,
                earliest,
                wpos: [0; 3],
                alive: true,
                run,
                owner,
                leaf: None,
                reaped: false,
            });
            if idx.is_none() {
                let n = w.sc.sessions[w.sess].execs[w.exec].prov.as_ref().map_or(0, |p| p.clients.len());
                w.clients = (0..n).map(|_| ClientSt::default()).collect();
                n
            } else {
                0
            }
        };
        for ci in 0..nclients {
            tokio::spawn(AssertSend(Box::pin(client_task(ci))));
        }
        Ok(SimSpawn { proc, stdin: None, stdout: or, stderr: er })
    }
    fn kill(&self, pid: u32, sig: i32) {
        self.signal(pid, sig, 'd');
    }
}

// --------------------------------------------------------------------------------- clients

pub struct AssertSend<F>(pub Pin<Box<F>>);
unsafe impl<F> Send for AssertSend<F> {}
impl<F: Future> Future for AssertSend<F> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if cur().is_none() {
            return Poll::Ready(());
        }
        self.0.as_mut().poll(cx).map(|_| ())
    }
}

struct Gate(usize);
impl Future for Gate {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let s = sim();
        let mut w = s.w.borrow_mut();
        let c = &mut w.clients[self.0];
        if c.fired {
            c.fired = false;
            c.gate = None;
            Poll::Ready(())
        } else {
            c.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
impl Drop for Gate {
    fn drop(&mut self) {
        if let Some(s) = cur() {
            if let Ok(mut w) = s.w.try_borrow_mut() {
                if let Some(c) = w.clients.get_mut(self.0) {
                    c.gate = None;
                    c.fired = false;
                }
            }
        }
    }
}
/// Wait until the controller lets the client take its next step.
async fn gate(ci: usize, delay_ms: u64) {
    let t = if delay_ms >= NEVER { NEVER } else { rt::vt() + delay_ms * MS };
    sim().w.borrow_mut().clients[ci].gate = Some(t);
    Gate(ci).await
}

fn router(kind: usize) -> Option<axum::Router> {
    let s = sim();
    for r in axum::sim_capture::take() {
        if let Ok(r) = r.downcast::<axum::Router>() {
            let k = probe(&r);
            s.w.borrow_mut().routers[k] = Some(*r);
        }
    }
    let r = s.w.borrow().routers[kind].clone();
    r
}
/// Which of the two servers is it? Only the admin server knows /ratelimit.
fn probe(r: &axum::Router) -> usize {
    use tower::ServiceExt;
    let was = simhook::is_active();
    simhook::set_active(false);
    let req = http::Request::builder().uri("/ratelimit").body(hyper::Body::empty()).unwrap();
    let mut f = Box::pin(r.clone().oneshot(req));
    let w = futures::task::noop_waker();
    let mut cx = Context::from_waker(&w);
    let code = match f.as_mut().poll(&mut cx) {
        Poll::Ready(Ok(resp)) => resp.status().as_u16(),
        _ => 0,
    };
    simhook::set_active(was);
    usize::from(code == 405)
}

pub struct Reply {
    pub code: u16,
    pub headers: http::HeaderMap,
    pub body: Vec<u8>,
}
pub struct ReqSpec {
    /// further headers
    pub more: Vec<(http::HeaderName, http::HeaderValue)>,
    pub kind: usize,
    pub method: &'static str,
    pub path: String,
    pub token: Option<String>,
    pub jobid: Option<String>,
    pub ctype: Option<&'static str>,
    pub body: Vec<u8>,
}
pub async fn call(q: ReqSpec) -> Option<Reply> {
    use tower::ServiceExt;
    let mut tries = 0;
    let r = loop {
        if hyper::sim::closing(q.kind) {
            return None;
        }
        match router(q.kind) {
            Some(r) => break r,
            None if tries < 50 => {
                tries += 1;
                tokio::time::sleep(Duration::from_millis(5)).await;
            }
            None => return None,
        }
    };
    let mut b = http::Request::builder().method(q.method).uri(q.path.as_str());
    if let Some(t) = &q.token {
        b = b.header("authorization", format!("Bearer {t}"));
    }
    if let Some(j) = &q.jobid {
        b = b.header("X-EXECGRAPH-SLURM-JOB-ID", j);
    }
    if let Some(c) = q.ctype {
        b = b.header("content-type", c);
    }
    for (k, v) in q.more {
        b = b.header(k, v);
    }
    let req = b.body(hyper::Body::from(q.body)).unwrap();
    let guard = hyper::sim::enter(q.kind);
    let resp = r.oneshot(req).await;
    let out = match resp {
        Ok(resp) => {
            let (p, body) = resp.into_parts();
            let body = hyper::body::to_bytes(body).await.map(|b| b.to_vec()).unwrap_or_default();
            Some(Reply { code: p.status.as_u16(), headers: p.headers, body })
        }
        Err(_) => None,
    };
    drop(guard);
    out
}

/// What a worker says its host is called.
pub fn host_of(client: usize) -> String {
    match client % 4 {
        0 => format!("host{client}"),
        1 => format!("Host-{client}.cluster.example.org"),
        2 => format!("r{client}n1.{}", "x".repeat(60)),
        _ => format!("knoten-ü{client}"),
    }
}

/// The process id it reports; 0 is what a worker says that could not start the program.
pub fn pid_of(client: usize) -> u32 {
    match client % 4 {
        1 => 0,
        3 => 4_194_304,
        _ => 30_000 + client as u32,
    }
}

/// Something that is not the token, however close it comes.
fn not_the_token(t: &str, wrong: u8) -> Option<String> {
    let swap = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    let other = |c: char| if c == 'A' { 'B' } else { 'A' };
    let mut cs: Vec<char> = t.chars().collect();
    match wrong {
        0 => return Some("bm9wZQ==".into()),
        1 => return None,
        2 => cs.clear(),
        3 => cs.truncate(1),
        4 => {
            cs.pop();
        }
        5 => cs.push('A'),
        6 => cs.iter_mut().for_each(|c| *c = swap(*c)),
        7 => cs[0] = other(cs[0]),
        8 => {
            let n = cs.iter().rposition(|c| *c != '=').unwrap();
            cs[n] = other(cs[n]);
        }
        9 => cs.truncate(cs.len() / 2),
        10 => {
            cs.remove(0);
        }
        11 => cs.insert(0, 'A'),
        12 => cs.retain(|c| *c != '='),
        13 => cs.reverse(),
        _ => cs.iter_mut().for_each(|c| *c = other(*c)),
    }
    let out: String = cs.into_iter().collect();
    Some(if out == t { format!("{out}A") } else { out })
}

pub fn decode<T: serde::de::DeserializeOwned>(r: &Reply) -> Option<T> {
    let enc = r.headers.get("content-encoding").map(|v| v.to_str().unwrap_or("").to_string());
    let raw = match enc.as_deref() {
        Some("lz4") => {
            let mut v = vec![];
            lzzzz::lz4f::decompress_to_vec(&r.body, &mut v).ok()?;
            v
        }
        None => r.body.clone(),
        _ => return None,
    };
    match r.headers.get("content-type").map(|v| v.to_str().unwrap_or("")) {
        Some("application/postcard") => postcard::from_bytes(&raw).ok(),
        _ => serde_json::from_slice(&raw).ok(),
    }
}

use execgraph::httpinterface as hi;

pub struct Cl {
    pub ci: usize,
    pub spec: Client,
    pub token: String,
}
impl Cl {
    fn req(&self, method: &'static str, path: &str, body: Vec<u8>) -> ReqSpec {
        ReqSpec {
            more: vec![],
            kind: 0,
            method,
            path: path.to_string(),
            token: Some(self.token.clone()),
            jobid: Some(self.spec.jobid.clone()),
            ctype: Some("application/postcard"),
            body,
        }
    }
    fn start_req(&self) -> hi::StartRequest {
        hi::StartRequest { runnertypeid: self.spec.rt, disconnect_error_message: self.spec.msg.clone() }
    }
    fn cur(&self) -> Option<(u32, usize)> {
        sim().w.borrow().clients[self.ci].cur
    }
    pub fn set_cur(&self, c: Option<(u32, usize)>) {
        let s = sim();
        let mut w = s.w.borrow_mut();
        let me = &mut w.clients[self.ci];
        if let Some((t, _)) = me.cur {
            me.last = t;
        }
        me.cur = c;
    }
    pub fn handout(&self, r: hi::StartResponse, via: &str) {
        let argv: Vec<String> = r.cmdline.iter().map(|s| un_os(s)).collect();
        let key = argv.get(1).cloned().unwrap_or_default();
        let s = sim();
        let idx = {
            let mut w = s.w.borrow_mut();
            w.starts += 1;
            *w.runs.entry(key.clone()).or_insert(0) += 1;
            w.sc.sessions[w.sess].tasks.iter().position(|t| t.key == key).unwrap_or(usize::MAX)
        };
        record(Ev::Handout {
            client: self.ci,
            idx,
            key,
            txn: r.transaction_id,
            argv,
            fd_input: r.fd_input,
            ping_ms: r.ping_interval_msecs,
            via: via.to_string(),
        });
        self.set_cur(Some((r.transaction_id, idx)));
        let txn = r.transaction_id;
        let ms = r.ping_interval_msecs;
        let ci = self.ci;
        let auto = sim().w.borrow().clients[ci].autoping;
        if auto {
            let q = self.token.clone();
            let jobid = self.spec.jobid.clone();
            tokio::spawn(AssertSend(Box::pin(async move {
                loop {
                    tokio::time::sleep(Duration::from_millis(ms)).await;
                    let Some(s) = cur() else { return };
                    let ok = {
                        let w = s.w.borrow();
                        w.clients.get(ci).map_or(false, |c| c.autoping && c.cur.map(|c| c.0) == Some(txn))
                    };
                    if !ok {
                        return;
                    }
                    let lp = s.w.borrow().last_progress;
                    record(Ev::Req { client: ci, what: "ping".into(), txn });
                    let r = call(ReqSpec {
                        more: vec![],
                        kind: 0,
                        method: "POST",
                        path: "/ping".into(),
                        token: Some(q.clone()),
                        jobid: Some(jobid.clone()),
                        ctype: Some("application/postcard"),
                        body: postcard::to_allocvec(&hi::Ping { transaction_id: txn }).unwrap(),
                    })
                    .await;
                    s.w.borrow_mut().last_progress = lp;
                    if r.is_none() {
                        return;
                    }
                }
            })));
        }
    }
    async fn start(&self) -> Option<u16> {
        record(Ev::Req { client: self.ci, what: "start".into(), txn: 0 });
        let q = self.req("GET", "/start", postcard::to_allocvec(&self.start_req()).unwrap());
        match call(q).await {
            None => {
                record(Ev::Refused { client: self.ci, what: "start".into() });
                None
            }
            Some(r) => {
                if r.code == 200 {
                    match decode::<hi::StartResponse>(&r) {
                        Some(s) => self.handout(s, "start"),
                        None => record(Ev::Resp { client: self.ci, what: "start-undecodable".into(), code: r.code, txn: 0 }),
                    }
                }
                record(Ev::Resp { client: self.ci, what: "start".into(), code: r.code, txn: 0 });
                Some(r.code)
            }
        }
    }
    async fn simple(&self, what: &str, txn: u32, q: ReqSpec) -> Option<Reply> {
        record(Ev::Req { client: self.ci, what: what.into(), txn });
        match call(q).await {
            None => {
                record(Ev::Refused { client: self.ci, what: what.into() });
                None
            }
            Some(r) => {
                record(Ev::Resp { client: self.ci, what: what.into(), code: r.code, txn });
                Some(r)
            }
        }
    }
    fn begun_req(&self, txn: u32) -> ReqSpec {
        self.req(
            "POST",
            "/begun",
            postcard::to_allocvec(&hi::BegunRequest {
                transaction_id: txn,
                host: host_of(self.ci),
                pid: pid_of(self.ci),
            })
            .unwrap(),
        )
    }
    fn end_req(&self, txn: u32, idx: usize, piggy: bool) -> ReqSpec {
        let s = sim();
        let w = s.w.borrow();
        let t = w.sc.sessions[w.sess].tasks.get(idx);
        let status = t.map_or(0, |t| remote_status(&t.out));
        let body = hi::EndRequest {
            transaction_id: txn,
            status,
            stdout: t.map_or(String::new(), |t| String::from_utf8_lossy(&t.stdout).to_string()),
            stderr: t.map_or(String::new(), |t| String::from_utf8_lossy(&t.stderr).to_string()),
            values: t.map_or(vec![], |t| crate::oracle::parse_values(&t.fd3)),
            start_request: piggy.then(|| self.start_req()),
        };
        self.req("POST", "/end", postcard::to_allocvec(&body).unwrap())
    }
    async fn end(&self, piggy: bool) -> Option<u16> {
        let Some((txn, idx)) = self.cur() else { return Some(0) };
        let q = self.end_req(txn, idx, piggy);
        record(Ev::Req { client: self.ci, what: "end".into(), txn });
        // from here on the worker considers the task done
        match call(q).await {
            None => {
                record(Ev::Refused { client: self.ci, what: "end".into() });
                None
            }
            Some(r) => {
                record(Ev::Resp { client: self.ci, what: "end".into(), code: r.code, txn });
                self.set_cur(None);
                if r.code == 200 {
                    if let Some(e) = decode::<hi::EndResponse>(&r) {
                        if let Some(s) = e.start_response {
                            self.handout(s, "end");
                        }
                    }
                }
                Some(r.code)
            }
        }
    }
    async fn run(&self) {
        let Some((_, idx)) = self.cur() else { return };
        let (ms, key, st) = {
            let s = sim();
            let w = s.w.borrow();
            let t = &w.sc.sessions[w.sess].tasks[idx];
            (t.min_ms, t.key.clone(), remote_status(&t.out))
        };
        gate(self.ci, ms).await;
        record(Ev::RunDone { client: self.ci, idx, key, status: st });
    }
    async fn status(&self, kind: usize, method: &'static str, path: &str, body: Vec<u8>, json: bool, want: (u64, u64, u64)) -> Option<u16> {
        let sent = rt::vt();
        let what = path.trim_start_matches('/').to_string();
        record(Ev::Req { client: self.ci, what: what.clone(), txn: 0 });
        let r = call(ReqSpec {
            more: vec![],
            kind,
            method,
            path: path.into(),
            token: None,
            jobid: None,
            ctype: json.then_some("application/json"),
            body,
        })
        .await;
        match r {
            None => {
                record(Ev::Refused { client: self.ci, what });
                None
            }
            Some(r) => {
                if r.code == 200 {
                    if let Some(s) = decode::<hi::StatusReply>(&r) {
                        let mut queues: Vec<(u64, u32, u32)> =
                            s.queues.iter().map(|(k, v)| (*k, v.num_ready, v.num_inflight)).collect();
                        queues.sort();
                        sim().w.borrow_mut().clients[self.ci].etag = s.etag;
                        record(Ev::Status {
                            client: self.ci,
                            want: want.0,
                            timemin: want.1,
                            timeout: want.2,
                            sent,
                            reply: StatusView {
                                queues,
                                etag: s.etag,
                                total: s.num_total_tasks,
                                unready: s.num_unready_tasks,
                                ratelimit: s.ratelimit,
                                info: s.provisioner_info,
                                rate: s.rate,
                                avg_ms: (s.average_recent_task_runtime as f64 * 1000.0).round() as u64,
                            },
                        });
                    }
                }
                record(Ev::Resp { client: self.ci, what, code: r.code, txn: 0 });
                Some(r.code)
            }
        }
    }
    fn txn(&self, t: &Txn) -> u32 {
        let s = sim();
        let w = s.w.borrow();
        match t {
            Txn::Mine => w.clients[self.ci].cur.map_or(0, |c| c.0),
            Txn::Last => w.clients[self.ci].last,
            Txn::Of(i) => w.clients.get(*i).map_or(0, |c| c.cur.map_or(c.last, |c| c.0)),
            Txn::Bogus => 0xdead_beef,
        }
    }
}
pub fn remote_status(o: &Out) -> i32 {
    match o {
        Out::Exit(c) => *c,
        Out::Signal(s) => -*s,
        Out::SpawnFail => 13,
    }
}

async fn client_task(ci: usize) {
    let (spec, token) = {
        let s = sim();
        let w = s.w.borrow();
        let p = w.sc.sessions[w.sess].execs[w.exec].prov.as_ref().unwrap();
        (p.clients[ci].clone(), w.token.clone())
    };
    let cl = Cl { ci, spec, token };
    sim().w.borrow_mut().clients[ci].autoping = true;
    let mut delay = cl.spec.at_ms;
    for op in cl.spec.ops.clone() {
        if let Op::Sleep(ms) = op {
            delay += ms;
            continue;
        }
        if !matches!(op, Op::Run | Op::AutoPing(_)) {
            gate(ci, delay).await;
            delay = 0;
        }
        let code = match op {
            Op::Sleep(_) => Some(200),
            Op::Start => cl.start().await,
            Op::StartDrop(ms) => {
                tokio::select! {
                    biased;
                    r = cl.start() => r,
                    _ = tokio::time::sleep(Duration::from_millis(ms)) => {
                        record(Ev::Dropped { client: ci });
                        Some(200)
                    }
                }
            }
            Op::Begun => {
                let t = cl.txn(&Txn::Mine);
                cl.simple("begun", t, cl.begun_req(t)).await.map(|r| r.code)
            }
            Op::Ping => {
                let t = cl.txn(&Txn::Mine);
                let b = postcard::to_allocvec(&hi::Ping { transaction_id: t }).unwrap();
                cl.simple("ping", t, cl.req("POST", "/ping", b)).await.map(|r| r.code)
            }
            Op::Run => {
                cl.run().await;
                Some(200)
            }
            Op::End(p) => cl.end(p).await,
            Op::Serve(n) => {
                let mut k = 0;
                let mut first = true;
                loop {
                    if cl.cur().is_none() {
                        if k > 0 {
                            break Some(200);
                        }
                        if !first {
                            gate(ci, 0).await;
                        }
                        match cl.start().await {
                            Some(200) => {}
                            x => break x,
                        }
                    }
                    first = false;
                    gate(ci, 0).await;
                    let t = cl.txn(&Txn::Mine);
                    match cl.simple("begun", t, cl.begun_req(t)).await.map(|r| r.code) {
                        Some(200) => {}
                        x => {
                            cl.set_cur(None);
                            break x;
                        }
                    }
                    cl.run().await;
                    k += 1;
                    match cl.end(k < n).await {
                        Some(200) => {}
                        x => break x,
                    }
                }
            }
            Op::AutoPing(b) => {
                sim().w.borrow_mut().clients[ci].autoping = b;
                Some(200)
            }
            Op::Status { etag, timemin, timeout } => {
                let b = serde_json::to_vec(&hi::StatusRequest { etag, timemin_ms: timemin, timeout_ms: timeout }).unwrap();
                cl.status(0, "GET", "/status", b, true, (etag, timemin, timeout)).await
            }
            Op::Poll { timemin, timeout } => {
                let etag = sim().w.borrow().clients[ci].etag;
                let b = serde_json::to_vec(&hi::StatusRequest { etag, timemin_ms: timemin, timeout_ms: timeout }).unwrap();
                cl.status(0, "GET", "/status", b, true, (etag, timemin, timeout)).await
            }
            Op::MarkCancel(jobids) => {
                let b = serde_json::to_vec(&hi::MarkSlurmJobCancelationRequest { jobids: jobids.clone() }).unwrap();
                let mut q = cl.req("POST", "/mark-slurm-job-cancelation", b);
                q.ctype = Some("application/json");
                record(Ev::Req { client: ci, what: "mark".into(), txn: 0 });
                let r = call(q).await;
                if let Some(r) = &r {
                    if let Some(m) = decode::<hi::MarkSlurmJobCancelationReply>(r) {
                        record(Ev::Marked { client: ci, req: jobids, rep: m.jobids });
                    }
                }
                r.map(|r| r.code)
            }
            Op::AdminRate(n) => {
                let b = serde_json::to_vec(&hi::UpdateRatelimitRequest { per_second: n }).unwrap();
                cl.status(1, "POST", "/ratelimit", b, true, (0, 0, 0)).await
            }
            Op::AdminInfo(s) => {
                let b = serde_json::to_vec(&hi::UpdateRemoteProvisionerInfoRequest { provisioner_info: s }).unwrap();
                cl.status(1, "POST", "/provisioner_info", b, true, (0, 0, 0)).await
            }
            Op::AdminShutdown(soft) => {
                let b = serde_json::to_vec(&hi::ShutdownRequest { username: "admin".into(), soft }).unwrap();
                record(Ev::Act(if soft { "Soft".into() } else { "Hard".into() }));
                cl.status(1, "POST", "/shutdown", b, true, (0, 0, 0)).await
            }
            Op::AdminStatus => cl.status(1, "GET", "/status", vec![], false, (0, 0, 0)).await,
            Op::Bad { path, token, wrong, jobid, txn } => {
                let t = cl.txn(&txn);
                let idx = cl.cur().map_or(usize::MAX, |c| c.1);
                let mut q = match path.as_str() {
                    "/begun" => cl.begun_req(t),
                    "/end" => cl.end_req(t, idx, true),
                    "/ping" => cl.req("POST", "/ping", postcard::to_allocvec(&hi::Ping { transaction_id: t }).unwrap()),
                    "/start" => cl.req("GET", "/start", postcard::to_allocvec(&cl.start_req()).unwrap()),
                    _ => {
                        let mut q = cl.req(
                            "POST",
                            &path,
                            serde_json::to_vec(&hi::MarkSlurmJobCancelationRequest { jobids: vec![cl.spec.jobid.clone()] }).unwrap(),
                        );
                        q.ctype = Some("application/json");
                        q
                    }
                };
                if !token {
                    q.token = not_the_token(&cl.token, wrong);
                }
                q.jobid = jobid;
                let what = format!("bad{path}");
                let r = cl.simple(&what, t, q).await;
                r.map(|r| r.code)
            }
            Op::Real(args, faults) => {
                crate::wk::worker(ci, &cl.spec, &cl.token, &args, faults).await;
                continue;
            }
            Op::Silent(ms) => {
                while router(0).is_none() && !hyper::sim::closing(0) {
                    tokio::time::sleep(Duration::from_millis(5)).await;
                }
                if !hyper::sim::closing(0) {
                    let guard = hyper::sim::enter(0);
                    tokio::time::sleep(Duration::from_millis(ms)).await;
                    drop(guard);
                }
                None
            }
            Op::Vanish => {
                sim().w.borrow_mut().clients[ci].autoping = false;
                return;
            }
        };
        if code.is_none() {
            break;
        }
    }
}
