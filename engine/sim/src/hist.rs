//! Histories of operations on the parts that need no scheduler of tasks: the lock on the log, the
//! reader of the log, and the construction of the graph. Every operation sequence within the
//! bounds is enumerated, and each is executed on the real code next to a reference model.
use crate::driver;
use crate::facts::{self, St, L};
use crate::scen;
use crate::sim::{self, Act, Ev, Scenario, Sched, Sim};
use execgraph::logfile2::{LogEntry, LogFile, LogFileRW, RuncountStatus};
use pyo3::prelude::*;
use pyo3::types::{IntoPyDict, PyDict};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::Cell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Hist {
    /// each thread opens the log, writes so many lines and closes it, so many times; stale lock
    Lock { threads: Vec<Vec<u32>>, stale: bool },
    /// logs over so many keys, so many entries
    Snap { keys: usize, depth: usize },
    /// so many operations on a graph
    Graph { depth: usize, rich: bool },
    /// so many operations on sessions of one log
    Ident { depth: usize },
}
#[derive(Clone, Debug, Default)]
pub struct Verdict {
    pub viols: Vec<(String, String)>,
    pub relevant: bool,
}
impl Verdict {
    fn v(&mut self, kind: &str, msg: String) {
        if self.viols.len() < 10 {
            self.viols.push((kind.into(), msg));
        }
    }
}

pub fn run(h: &Hist, s: &Sim, dir: &str) -> Verdict {
    let r = catch_unwind(AssertUnwindSafe(|| match h {
        Hist::Lock { threads, stale } => lock(s, threads, *stale, dir),
        Hist::Snap { keys, depth } => snap(s, *keys, *depth, dir),
        Hist::Graph { depth, rich } => graph(s, *depth, *rich, dir),
        Hist::Ident { depth } => ident(s, *depth, dir),
    }));
    simhook::set_active(false);
    r.unwrap_or_else(|_| {
        let mut v = Verdict { relevant: true, ..Default::default() };
        let why = s.w.borrow().trace.iter().rev().find_map(|e| match &e.ev {
            Ev::Panic { msg, loc } => Some(format!("{msg} at {loc}")),
            _ => None,
        });
        v.v("panic", why.unwrap_or("panic".into()));
        v
    })
}
fn note(s: &Sim, m: String) {
    s.record(Ev::Act(m));
}

pub fn scenarios(prop: &str, th: bool) -> Vec<Scenario> {
    let mk = |name: String, h: Hist, bound: u32| Scenario {
        name,
        sessions: vec![],
        sched: Sched { max_execs: 50_000_000, bound, ..Sched::env_only() },
        seed: 7,
        cuts: vec![],
        hist: Some(h), disk: false, script: None, io: None,
    };
    let mut v = vec![];
    match prop {
        "C23" => {
            for stale in [false, true] {
                for (n, t, b) in [
                    ("two", vec![vec![1], vec![1]], 4),
                    ("three", vec![vec![1], vec![1], vec![1]], if th { 4 } else { 3 }),
                    ("again", vec![vec![1, 1], vec![1, 1]], if th { 4 } else { 3 }),
                    ("mixed", vec![vec![1, 0], vec![0], vec![1]], if th { 4 } else { 3 }),
                    ("big", vec![vec![200], vec![1, 1]], if th { 4 } else { 3 }),
                    ("four", vec![vec![1], vec![1], vec![1], vec![1]], if th { 3 } else { 2 }),
                ] {
                    v.push(mk(format!("lock:{n} stale{stale} b{b}"), Hist::Lock { threads: t, stale }, b));
                }
            }
        }
        "C24" => {
            v.push(mk("snap:1".into(), Hist::Snap { keys: 1, depth: if th { 15 } else { 12 } }, 0));
            v.push(mk("snap:2".into(), Hist::Snap { keys: 2, depth: if th { 12 } else { 10 } }, 0));
            v.push(mk("snap:3".into(), Hist::Snap { keys: 3, depth: if th { 11 } else { 9 } }, 0));
        }
        "C29" => {
            let d = if th { 6 } else { 5 };
            let mut sc = mk(format!("ident:{d}"), Hist::Ident { depth: d }, 0);
            let mut ts: Vec<sim::Task> = (0..5).map(sim::Task::new).collect();
            ts[4].key = String::new();
            ts[1].out = sim::Out::Exit(1);
            ts[2].out = sim::Out::Exit(1);
            ts[2].later = vec![sim::Out::Exit(0)];
            let mut se = scen::sess(1, ts);
            se.execs = vec![sim::Exec::default(); d + 1];
            sc.sessions = vec![se];
            v.push(sc);
        }
        "C26" => {
            for (n, d, rich) in if th { [("rich", 4, true), ("plain", 6, false)] } else { [("rich", 3, true), ("plain", 4, false)] } {
                let mut sc = mk(format!("graph:{n}{d}"), Hist::Graph { depth: d, rich }, 0);
                let mut ts: Vec<sim::Task> = (0..d).map(sim::Task::new).collect();
                if let Some(t) = ts.get_mut(1) {
                    t.out = sim::Out::Exit(1);
                }
                let mut se = scen::sess(1, ts);
                se.execs = vec![sim::Exec::default(); d + 1];
                sc.sessions = vec![se];
                v.push(sc);
            }
        }
        _ => {}
    }
    v
}

// ------------------------------------------------------------------------------- the lock

thread_local! {
    static BATON: Cell<*const Turn> = const { Cell::new(std::ptr::null()) };
    static ME: Cell<usize> = const { Cell::new(0) };
}
#[derive(Default)]
struct TurnSt {
    /// who may run; usize::MAX: the controller
    turn: usize,
    done: Vec<bool>,
    at: Vec<String>,
}
struct Turn {
    st: Mutex<TurnSt>,
    cv: Condvar,
}
const CONTROLLER: usize = usize::MAX;
impl Turn {
    fn wait(&self, me: usize) {
        let mut g = self.st.lock().unwrap();
        while g.turn != me {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn pass(&self, to: usize, at: Option<(usize, &str)>, done: Option<usize>) {
        let mut g = self.st.lock().unwrap();
        g.turn = to;
        if let Some((i, a)) = at {
            g.at[i] = a.to_string();
        }
        if let Some(i) = done {
            g.done[i] = true;
        }
        drop(g);
        self.cv.notify_all();
    }
}
/// Called before file system operations.
pub fn fs_point(what: &str) {
    let Ok(p) = BATON.try_with(|b| b.get()) else { return };
    if p.is_null() || std::thread::panicking() {
        return;
    }
    // operations of the controller's own bookkeeping are not points
    BATON.with(|b| b.set(std::ptr::null()));
    let t = unsafe { &*p };
    let me = ME.with(|m| m.get());
    t.pass(CONTROLLER, Some((me, what)), None);
    t.wait(me);
    BATON.with(|b| b.set(p));
}

#[derive(Default)]
struct LockSt {
    holders: Vec<usize>,
    /// threads inside new(), or from new() to the end of drop()
    busy: HashSet<usize>,
    /// threads that saw somebody else busy since their new() began
    disturbed: HashSet<usize>,
    /// lines whose writer released the log
    released: Vec<String>,
    closed_by: Vec<usize>,
    v: Verdict,
    log: Vec<String>,
}

fn lock(s: &Sim, threads: &[Vec<u32>], stale: bool, dir: &str) -> Verdict {
    let path = PathBuf::from(format!("{dir}/wf.log"));
    if stale {
        std::fs::write(format!("{dir}/.wrk.lock"), "stale").unwrap();
    }
    let n = threads.len();
    let turn = Arc::new(Turn {
        st: Mutex::new(TurnSt { turn: CONTROLLER, done: vec![false; n], at: vec!["start".into(); n] }),
        cv: Condvar::new(),
    });
    let st = Arc::new(Mutex::new(LockSt::default()));
    let hs: Vec<_> = threads
        .iter()
        .cloned()
        .enumerate()
        .map(|(i, prog)| {
            let (turn, st, path) = (turn.clone(), st.clone(), path.clone());
            std::thread::spawn(move || {
                turn.wait(i);
                ME.with(|m| m.set(i));
                BATON.with(|b| b.set(Arc::as_ptr(&turn)));
                let r = catch_unwind(AssertUnwindSafe(|| locker(i, &prog, &st, &path)));
                BATON.with(|b| b.set(std::ptr::null()));
                if r.is_err() {
                    let mut g = st.lock().unwrap_or_else(|e| e.into_inner());
                    g.v.v("panic", format!("thread {i} panicked"));
                }
                turn.pass(CONTROLLER, None, Some(i));
            })
        })
        .collect();
    let mut last = CONTROLLER;
    let mut steps = 0;
    let mut starved = false;
    loop {
        let mut ready: Vec<usize> = {
            let g = turn.st.lock().unwrap();
            (0..n).filter(|i| !g.done[*i]).collect()
        };
        if ready.is_empty() {
            break;
        }
        steps += 1;
        if steps > 4000 {
            starved = true;
        }
        // the running thread goes on, unless it is preempted
        let same = ready.iter().position(|i| *i == last);
        if let Some(p) = same {
            let x = ready.remove(p);
            ready.insert(0, x);
        }
        let c = if starved { steps % ready.len() } else { s.choose(ready.len(), same.is_none()) };
        last = ready[c];
        turn.pass(last, None, None);
        turn.wait(CONTROLLER);
        if starved && steps > 200_000 {
            // cannot happen without an endless loop in the code; the worker is killed as stuck
            std::thread::sleep(std::time::Duration::from_secs(100));
        }
    }
    for h in hs {
        let _ = h.join();
    }
    let mut g = st.lock().unwrap();
    for l in std::mem::take(&mut g.log) {
        note(s, l);
    }
    let mut v = std::mem::take(&mut g.v);
    v.relevant = true;
    if starved {
        v.v("livelock", "opening or closing the log takes more than 4000 file system operations".into());
    }
    // everything that was written is there, whole and in order
    let lines = driver::read_lines(path.to_str().unwrap());
    let got: Vec<String> = lines.iter().map(|l| facts::parse_line(l).key().to_string()).collect();
    if got != g.released || lines.iter().any(|l| matches!(facts::parse_line(l), L::Bad(_))) {
        v.v("content", format!("the log holds {got:?} after {:?} were written", g.released));
    }
    if let Err(e) = LogFile::<LogFileRW>::new(&path) {
        v.v("stuck", format!("the log cannot be opened when nobody uses it: {e}"));
    }
    v
}
fn locker(i: usize, prog: &[u32], st: &Mutex<LockSt>, path: &PathBuf) {
    for (k, n) in prog.iter().enumerate() {
        {
            let mut g = st.lock().unwrap();
            g.disturbed.remove(&i);
            if !g.busy.is_empty() {
                g.disturbed.insert(i);
            }
            let b: Vec<usize> = g.busy.iter().copied().collect();
            g.disturbed.extend(b);
            g.busy.insert(i);
            g.log.push(format!("{i} opens"));
        }
        let r = LogFile::<LogFileRW>::new(path);
        let mut f = match r {
            Err(e) => {
                let mut g = st.lock().unwrap();
                g.busy.remove(&i);
                g.log.push(format!("{i} refused"));
                if !g.disturbed.contains(&i) {
                    g.v.v("refused", format!("thread {i} cannot open the log although nobody else uses it: {e}"));
                }
                continue;
            }
            Ok(f) => f,
        };
        {
            let mut g = st.lock().unwrap();
            g.log.push(format!("{i} holds"));
            if !g.holders.is_empty() {
                let h = g.holders.clone();
                g.v.v("both", format!("thread {i} opened the log while {h:?} had it open"));
            }
            g.holders.push(i);
            for l in g.released.clone() {
                if f.runcount(&l).is_none() {
                    g.v.v("missed", format!("thread {i} opened the log and does not know of {l}, written before"));
                }
            }
        }
        let mut mine = vec![];
        for j in 0..*n {
            let key = format!("t{i}.{k}.{j}");
            f.write(LogEntry::new_ready(&key, 0, "a command", 0)).unwrap();
            mine.push(key);
        }
        fs_point("work");
        {
            let mut g = st.lock().unwrap();
            g.log.push(format!("{i} closes"));
            g.holders.retain(|h| *h != i);
            g.released.extend(mine);
            g.closed_by.push(i);
        }
        drop(f);
        let mut g = st.lock().unwrap();
        g.busy.remove(&i);
        g.log.push(format!("{i} closed"));
    }
}

// ------------------------------------------------------------------------------- the reader

#[derive(Clone, Debug, PartialEq)]
enum SnapOp {
    Header,
    Ready(usize),
    Started(usize),
    Finished(usize, i32),
    Backref(usize),
}
#[derive(Clone, Copy, Default)]
struct KeySt {
    /// 0 none, 1 ready, 2 started, 3 finished
    st: u8,
    /// mentioned in the latest session
    here: bool,
    rc: u32,
}
fn json(py: Python, v: &PyAny) -> Value {
    let s: String = py.import("json").unwrap().call_method1("dumps", (v,)).unwrap().extract().unwrap();
    serde_json::from_str(&s).unwrap()
}
fn snap(s: &Sim, keys: usize, depth: usize, dir: &str) -> Verdict {
    let mut v = Verdict::default();
    let path = format!("{dir}/wf.log");
    let mut ks = vec![KeySt::default(); keys];
    let mut ops: Vec<SnapOp> = vec![SnapOp::Header];
    let mut f = LogFile::<LogFileRW>::new(&path).unwrap();
    f.write(LogEntry::new_header("wk", vec![PathBuf::from("r")]).unwrap()).unwrap();
    let names: Vec<String> = (0..keys).map(|i| ["a", "b\u{e9}", "c"][i].to_string()).collect();
    while ops.len() < depth {
        let mut alt: Vec<Option<SnapOp>> = vec![None];
        let mut fresh = false;
        for (i, k) in ks.iter().enumerate() {
            // keys that were never used are interchangeable
            if k.st == 0 && k.rc == 0 {
                if fresh {
                    continue;
                }
                fresh = true;
            }
            match k.st {
                // a session starts over with what it did not find finished
                _ if !k.here => {}
                1 => alt.push(Some(SnapOp::Started(i))),
                2 => alt.extend([Some(SnapOp::Finished(i, 0)), Some(SnapOp::Finished(i, 1))]),
                _ => {}
            }
            if k.st == 0 || (!k.here && k.st > 0) {
                alt.push(Some(SnapOp::Ready(i)));
            }
            if k.st == 3 && !k.here {
                alt.push(Some(SnapOp::Backref(i)));
            }
        }
        if ops.last() != Some(&SnapOp::Header) {
            alt.push(Some(SnapOp::Header));
        }
        let c = s.choose(alt.len(), true);
        let Some(op) = alt[c].clone() else { break };
        let e = match &op {
            SnapOp::Header => {
                // a new session: the file is closed and opened again
                drop(f);
                f = LogFile::<LogFileRW>::new(&path).unwrap();
                for k in &mut ks {
                    k.here = false;
                    if k.st == 1 || k.st == 2 {
                        k.rc += u32::from(k.st == 2);
                    }
                }
                LogEntry::new_header("wk", vec![PathBuf::from("r")]).unwrap()
            }
            SnapOp::Ready(i) => {
                if ks[*i].st == 3 {
                    ks[*i].rc += 1;
                }
                ks[*i].st = 1;
                ks[*i].here = true;
                LogEntry::new_ready(&names[*i], ks[*i].rc, "cmd", 0)
            }
            SnapOp::Started(i) => {
                ks[*i].st = 2;
                ks[*i].here = true;
                LogEntry::new_started(&names[*i], "h", 7, "".into())
            }
            SnapOp::Finished(i, x) => {
                ks[*i].st = 3;
                ks[*i].here = true;
                LogEntry::new_finished(&names[*i], *x, vec![HashMap::from([("v".to_string(), "1".to_string())])])
            }
            SnapOp::Backref(i) => {
                ks[*i].here = true;
                LogEntry::new_backref(&names[*i])
            }
        };
        f.write(e).unwrap();
        ops.push(op);
    }
    f.flush().unwrap();
    note(s, format!("{ops:?}"));
    // what was written, and which of it is current
    let lines = driver::read_lines(&path);
    let vals: Vec<Value> = lines.iter().map(|l| serde_json::from_str(l).unwrap_or(Value::Null)).collect();
    let log: Vec<L> = facts::parse_log(&lines);
    if log.len() != ops.len() {
        v.v("written", format!("{} lines in the log after {} entries", log.len(), ops.len()));
        return v;
    }
    let h = ops.iter().rposition(|o| *o == SnapOp::Header).unwrap();
    let backrefs: BTreeSet<String> = log[h..].iter().filter(|l| matches!(l, L::Backref { .. })).map(|l| l.key().to_string()).collect();
    v.relevant = !backrefs.is_empty() || h > 0;
    let mut cur: BTreeSet<usize> = (h..log.len()).filter(|i| !matches!(log[*i], L::Backref { .. })).collect();
    for k in &backrefs {
        let from = (0..h).rev().find(|i| matches!(&log[*i], L::Ready { key, .. } if key == k)).unwrap();
        cur.extend((from..h).filter(|i| log[*i].key() == k && !matches!(log[*i], L::Backref { .. })));
    }
    let curkeys: HashSet<&str> = cur.iter().map(|i| log[*i].key()).filter(|k| !k.is_empty()).collect();
    let old: Vec<usize> = (0..h)
        .filter(|i| !cur.contains(i) && (matches!(log[*i], L::Header { .. }) || !curkeys.contains(log[*i].key())))
        .collect();
    // header of the latest session first, the rest in the order of the file
    let cur_order: Vec<usize> = std::iter::once(h).chain(cur.iter().copied().filter(|i| *i != h)).collect();
    let pick = |ix: &[usize]| Value::Array(ix.iter().map(|i| vals[*i].clone()).collect());
    let (wcur, wold, wall) = (pick(&cur_order), pick(&old), Value::Array(vals.clone()));
    Python::with_gil(|py| {
        #[allow(static_mut_refs)]
        let m = unsafe { driver::MODULE.as_ref().unwrap() };
        let load = |mode: &str| m.call_method1(py, "load_logfile", (path.as_str(), mode)).map(|x| json(py, x.as_ref(py)));
        let want = [("all", wall), ("current", wcur.clone()), ("outdated", wold.clone()), ("current,outdated", Value::Array(vec![wcur, wold]))];
        for (mode, w) in want {
            match load(mode) {
                Ok(g) if g == w => {}
                Ok(g) => v.v("view", format!("after {ops:?} the view '{mode}' is {g}, it should be {w}")),
                Err(e) => v.v("view", format!("after {ops:?} the view '{mode}' fails: {e}")),
            }
        }
        if !v.viols.is_empty() {
            return;
        }
        // a reader meets the last line while it is being written, or what a crash left of it
        let bytes = std::fs::read(&path).unwrap();
        let before = bytes[..bytes.len() - 1].iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
        let (head, last) = bytes.split_at(before);
        let torn = format!("{dir}/torn.log");
        let mut cuts: BTreeSet<usize> = last.iter().enumerate().filter(|(_, b)| **b & 0xC0 == 0x80).map(|(i, _)| i).collect();
        cuts.insert(last.len() - 2);
        if ops.len() <= 4 {
            cuts.extend(1..last.len() - 1);
        }
        let modes = ["all", "current,outdated"];
        let view = |b: &[u8]| -> Vec<Result<Value, String>> {
            std::fs::write(&torn, b).unwrap();
            modes.iter().map(|mode| m.call_method1(py, "load_logfile", (torn.as_str(), *mode)).map(|x| json(py, x.as_ref(py))).map_err(|e| e.to_string())).collect()
        };
        if ops.len() > 1 {
            let (short, long) = (view(head), view(&bytes));
            for c in cuts {
                let part = [head, &last[..c]].concat();
                let resumed = [head, &last[..c], b"\n", last].concat();
                for (what, b, w) in [("a reader", part, &short), ("a reader, after a crash and a resumption,", resumed, &long)] {
                    for ((mode, g), w) in modes.iter().zip(view(&b)).zip(w) {
                        if g != *w {
                            v.v("torn", format!("after {ops:?}, with {c} bytes of the last line written, {what} sees '{mode}' as {g:?}, it should be {w:?}"));
                        }
                    }
                }
            }
            let _ = std::fs::remove_file(&torn);
        }
        if !v.viols.is_empty() {
            return;
        }
        // a log written from the current view says the same about everything in it
        let copy = format!("{dir}/copy");
        std::fs::create_dir_all(&copy).unwrap();
        let copy = format!("{copy}/wf.log");
        let _ = std::fs::remove_file(&copy);
        let c = m.call_method1(py, "load_logfile", (path.as_str(), "current")).unwrap();
        if let Err(e) = m.call_method1(py, "write_logfile", (copy.as_str(), c)) {
            v.v("copy", format!("after {ops:?} the current view cannot be written: {e}"));
            return;
        }
        let g: Vec<Value> = driver::read_lines(&copy).iter().map(|l| serde_json::from_str(l).unwrap_or(Value::Null)).collect();
        let w: Vec<Value> = cur_order.iter().map(|i| vals[*i].clone()).collect();
        if g != w {
            v.v("copy", format!("after {ops:?} the copy of the current view is {g:?}"));
        }
        let l = LogFile::<LogFileRW>::new(&copy).unwrap();
        let st = facts::statuses(&log);
        for k in &names {
            let want = if curkeys.contains(k.as_str()) { st.get(k).map(|x| x.0.clone()) } else { None };
            let got = l.runcount(k).map(|x| match x {
                RuncountStatus::Ready { runcount, .. } => St::Ready(runcount),
                RuncountStatus::Started { runcount, .. } => St::Started(runcount),
                RuncountStatus::Finished { runcount, success, storage_root } => St::Done { rc: runcount, root: storage_root, ok: success },
            });
            if got != want {
                v.v("copy", format!("after {ops:?} the copy says {got:?} of {k}, not {want:?}"));
            }
        }
    });
    drop(f);
    v
}

// ------------------------------------------------------------------------------- the graph

struct RefTask {
    key: String,
    cmd: Vec<String>,
    deps: BTreeSet<usize>,
}
fn graph(s: &Sim, depth: usize, rich: bool, dir: &str) -> Verdict {
    let mut v = Verdict { relevant: true, ..Default::default() };
    let mut tasks: Vec<RefTask> = vec![];
    // how each task ended: by key
    let mut ended: HashMap<usize, bool> = HashMap::new();
    Python::with_gil(|py| {
        #[allow(static_mut_refs)]
        let m = unsafe { driver::MODULE.as_ref().unwrap() };
        let cls = m.getattr(py, "ExecGraph").unwrap();
        let g = cls
            .call1(py, (1, PathBuf::from(format!("{dir}/wf.log")), vec![PathBuf::from("")], 0, py.None(), true))
            .unwrap();
        let mut execs = 0;
        let mut seq: Vec<String> = vec![];
        for step in 0..depth {
            let n = tasks.len();
            // operations: stop, add(key, deps, cmdline), execute(target)
            let mut alt: Vec<(Option<usize>, Vec<u32>, u8, Option<Option<u32>>)> = vec![(None, vec![], 0, None)];
            let nn = n as u32;
            let mut depsets: Vec<Vec<u32>> = vec![vec![], vec![nn]];
            if n > 0 {
                depsets.push(vec![nn - 1]);
                depsets.push(vec![0, nn]);
            }
            if n > 1 {
                depsets.push(vec![0]);
                depsets.push(vec![0, nn - 1]);
            }
            if rich {
                depsets.extend([vec![nn + 1], vec![u32::MAX]]);
                if n > 0 {
                    depsets.push(vec![nn - 1, nn - 1]);
                    depsets.push(vec![0, u32::MAX, 0]);
                }
                if n > 1 {
                    depsets.push(vec![nn - 1, 0, nn - 1]);
                }
            }
            // a new key, or one of those in use
            for k in 0..=n {
                if !rich && k + 1 < n {
                    continue;
                }
                for d in &depsets {
                    alt.push((Some(k), d.clone(), 0, None));
                }
                alt.push((Some(k), vec![], 1, None));
                if rich && n > 0 {
                    alt.push((Some(k), vec![nn - 1], 1, None));
                }
            }
            // with input, on a descriptor that is free or not
            alt.push((Some(n), vec![], 2, None));
            if rich {
                alt.push((Some(n), vec![], 3, None));
            }
            alt.push((None, vec![], 0, Some(None)));
            for t in 0..n {
                alt.push((None, vec![], 0, Some(Some(t as u32))));
            }
            let c = s.choose(alt.len(), true);
            let (key, deps, bad, ex) = alt[c].clone();
            if let Some(k) = key {
                let key = format!("k{k}");
                let cmd: Vec<String> = if bad == 1 { vec![] } else { vec!["/sim/task".into(), key.clone(), format!("s{step}")] };
                let d = PyDict::new(py);
                d.set_item("dependencies", deps.clone()).unwrap();
                if bad > 1 {
                    d.set_item("fd_input", (bad as i32 + 1, pyo3::types::PyBytes::new(py, b"input"))).unwrap();
                }
                let r = g.call_method(py, "add_task", (cmd.clone(), key.as_str()), Some(d)).map(|x| x.extract::<u32>(py).unwrap());
                seq.push(format!("add {key} {deps:?} {}", ["ok", "empty", "input on 3", "input on 4"][bad as usize]));
                let valid = (bad == 0 || bad == 3) && deps.iter().all(|x| (*x as usize) < n);
                let at = tasks.iter().position(|t| t.key == key);
                let r = r.map_err(|e| e.to_string());
                match (at, valid, &r) {
                    (Some(i), _, Ok(x)) if *x as usize == i => {}
                    (Some(_), false, Err(_)) => {}
                    (None, true, Ok(x)) if *x as usize == n => {
                        tasks.push(RefTask { key, cmd, deps: deps.iter().map(|x| *x as usize).collect() });
                    }
                    (None, false, Err(_)) => {}
                    _ => v.v("add", format!("after {seq:?} add_task gave {r:?}")),
                }
            } else if let Some(target) = ex {
                seq.push(format!("execute {target:?}"));
                // what is left to do of what is asked for
                let mut want: BTreeSet<usize> = BTreeSet::new();
                match target {
                    None => want.extend(0..n),
                    Some(t) => {
                        let mut st = vec![t as usize];
                        while let Some(x) = st.pop() {
                            if want.insert(x) {
                                st.extend(tasks[x].deps.iter().copied());
                            }
                        }
                    }
                }
                let mut runs: BTreeSet<usize> = BTreeSet::new();
                let mut okay = ended.clone();
                for i in want {
                    if okay.contains_key(&i) || tasks[i].deps.iter().any(|d| okay.get(d) != Some(&true)) {
                        continue;
                    }
                    runs.insert(i);
                    okay.insert(i, tasks[i].key != "k1");
                }
                s.begin_exec(0, execs);
                simhook::set_active(true);
                let r = g.call_method1(py, "execute", (target, py.None(), py.None(), 0u32));
                simhook::set_active(false);
                s.end_exec();
                execs += 1;
                let r: Result<(u32, Vec<String>), String> = r.map(|x| x.extract(py).unwrap()).map_err(|e| e.to_string());
                let nf = runs.iter().filter(|i| tasks[**i].key == "k1").count() as u32;
                match &r {
                    Ok((f, order)) => {
                        let mut seen: HashSet<usize> = ended.keys().copied().collect();
                        let ix: Vec<usize> = order.iter().filter_map(|k| tasks.iter().position(|t| t.key == *k)).collect();
                        let set: BTreeSet<usize> = ix.iter().copied().collect();
                        let mut in_order = true;
                        for i in &ix {
                            in_order &= tasks[*i].deps.iter().all(|d| seen.contains(d));
                            seen.insert(*i);
                        }
                        if *f != nf || set != runs || ix.len() != order.len() || ix.len() != runs.len() || !in_order {
                            v.v("execute", format!("after {seq:?} execute gave {r:?} where {:?} were to run", runs.iter().map(|i| &tasks[*i].key).collect::<Vec<_>>()));
                        }
                    }
                    Err(_) => v.v("execute", format!("after {seq:?} execute gave {r:?}")),
                }
                ended = okay;
            } else {
                break;
            }
            // what the graph says about itself
            let nt: usize = g.call_method0(py, "ntasks").unwrap().extract(py).unwrap();
            let keys: Vec<String> = g.call_method0(py, "task_keys").unwrap().extract(py).unwrap();
            if nt != tasks.len() || keys != tasks.iter().map(|t| t.key.clone()).collect::<Vec<_>>() {
                v.v("state", format!("after {seq:?} there are {nt} tasks, {keys:?}"));
            }
            for i in 0..tasks.len() + 2 {
                let r = g.call_method1(py, "get_task", (i as u32,));
                let r: Option<(Vec<String>, String, Option<String>)> = r.ok().map(|x| x.extract(py).unwrap());
                let want = tasks.get(i).map(|t| (t.cmd.clone(), t.key.clone(), None));
                if r != want {
                    v.v("state", format!("after {seq:?} task {i} is {r:?}"));
                }
            }
            if !v.viols.is_empty() {
                break;
            }
        }
        note(s, seq.join("; "));
        drop(g);
    });
    let _ = Act::Sigint;
    v
}

// ------------------------------------------------------------------------------- identity

#[derive(Clone, Copy, Debug, PartialEq)]
enum KeyFn {
    None,
    Good,
    Raises,
    NoString,
}
#[derive(Clone, Copy, Debug)]
enum IdOp {
    Stop,
    /// roots, what gives the key, by which path
    Open(usize, KeyFn, usize),
    Close,
    /// a second one while the first is open
    Again(usize),
    /// one task in one of the roots
    Run(usize, u32),
    /// what a killed session may leave behind: ready; started; of the task that is not run otherwise
    Append(u8),
    /// the log is not one this program can continue from
    Spoil(u8),
}
const SPOILS: u8 = 12;
fn roots_of(v: usize) -> Vec<&'static str> {
    match v {
        0 => vec![""],
        1 => vec!["r-$KEY/x", "/abs/$KEY/$KEY"],
        2 => vec!["only"],
        _ => vec![],
    }
}
/// Histories of sessions on one log: who the workflow is and where its results are.
fn ident(s: &Sim, depth: usize, dir: &str) -> Verdict {
    let mut v = Verdict::default();
    let _ = std::fs::remove_dir_all(format!("{dir}/p"));
    let _ = std::fs::remove_file(format!("{dir}/l"));
    std::fs::create_dir_all(format!("{dir}/p")).unwrap();
    std::os::unix::fs::symlink(format!("{dir}/p"), format!("{dir}/l")).unwrap();
    let home = std::env::current_dir().unwrap();
    std::env::set_current_dir(format!("{dir}/p")).unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| ident_in(s, depth, dir, &mut v)));
    simhook::set_active(false);
    std::env::set_current_dir(home).unwrap();
    if let Err(e) = r {
        std::panic::resume_unwind(e);
    }
    v
}
fn ident_in(s: &Sim, depth: usize, dir: &str, v: &mut Verdict) {
    let file = format!("{dir}/p/wf.log");
    let paths = [file.clone(), format!("{dir}/l/wf.log"), "wf.log".to_string()];
    let out = format!("{dir}/q/wf.log");
    std::fs::create_dir_all(format!("{dir}/q")).unwrap();
    let real = std::fs::canonicalize(format!("{dir}/p")).unwrap();
    let names = ["k0", "k1", "k2", "k3", ""];
    // the model
    let mut key: Option<String> = None;
    let mut st: HashMap<&str, St> = HashMap::new();
    let mut runs: HashMap<&str, usize> = HashMap::new();
    let mut calls = 0;
    let mut headers = 0;
    let mut seq: Vec<IdOp> = vec![];
    let mut execs = 0;
    Python::with_gil(|py| {
        #[allow(static_mut_refs)]
        let m = unsafe { driver::MODULE.as_ref().unwrap() };
        let cls = m.getattr(py, "ExecGraph").unwrap();
        let ns = PyDict::new(py);
        py.run(
            "n=[0]\ndef good():\n n[0]+=1\n return 'K\\u00e9%d' % n[0]\ndef raises():\n n[0]+=1\n raise KeyError('no key today')\ndef nostring():\n n[0]+=1\n return 7\n",
            Some(ns),
            Some(ns),
        )
        .unwrap();
        let called = || -> i32 { ns.get_item("n").unwrap().get_item(0).unwrap().extract().unwrap() };
        let open = |roots: &[&str], kf: KeyFn, path: &str| {
            let f: PyObject = match kf {
                KeyFn::None => py.None(),
                KeyFn::Good => ns.get_item("good").unwrap().into(),
                KeyFn::Raises => ns.get_item("raises").unwrap().into(),
                KeyFn::NoString => ns.get_item("nostring").unwrap().into(),
            };
            let roots: Vec<PathBuf> = roots.iter().map(PathBuf::from).collect();
            cls.call1(py, (1, PathBuf::from(path), roots, 0u32, f, true))
        };
        let bytes = || std::fs::read(&file).unwrap_or_default();
        // the open session, and its roots
        let mut g: Option<(PyObject, Vec<PathBuf>, HashSet<&str>)> = None;
        for _ in 0..depth {
            let mut alt = vec![IdOp::Stop];
            match &g {
                None => {
                    for r in 0..4 {
                        // what differs is judged separately: roots or keys or paths
                        alt.push(IdOp::Open(r, KeyFn::Good, 0));
                    }
                    for k in [KeyFn::None, KeyFn::Raises, KeyFn::NoString] {
                        alt.push(IdOp::Open(0, k, 0));
                    }
                    alt.push(IdOp::Open(1, KeyFn::Good, 1));
                    alt.push(IdOp::Open(1, KeyFn::None, 2));
                    if headers > 0 {
                        for a in 0..3 {
                            alt.push(IdOp::Append(a));
                        }
                        for k in 0..SPOILS {
                            alt.push(IdOp::Spoil(k));
                        }
                    }
                }
                Some((_, roots, _)) => {
                    alt.push(IdOp::Close);
                    alt.push(IdOp::Again(0));
                    alt.push(IdOp::Again(1));
                    for k in 0..3 {
                        for r in 0..=roots.len() as u32 {
                            alt.push(IdOp::Run(k, r));
                        }
                    }
                    alt.push(IdOp::Run(4, 0));
                }
            }
            let op = alt[s.choose(alt.len(), true)];
            if matches!(op, IdOp::Stop) {
                break;
            }
            seq.push(op);
            v.relevant |= seq.len() > 2;
            match op {
                IdOp::Stop => {}
                IdOp::Open(r, kf, p) => {
                    let before = bytes();
                    match (open(&roots_of(r), kf, &paths[p]), &key, kf) {
                        (Err(e), None, KeyFn::Raises | KeyFn::NoString) => {
                            calls += 1;
                            if bytes() != before {
                                v.v("touched", format!("{seq:?}: there was no key and the log has changed"));
                            }
                            if kf == KeyFn::Raises && !e.to_string().contains("no key today") {
                                v.v("error", format!("{seq:?}: the error of newkeyfn became {e}"));
                            }
                        }
                        (Err(e), _, _) => v.v("open", format!("{seq:?}: the log cannot be opened: {e}")),
                        (Ok(_), None, KeyFn::Raises | KeyFn::NoString) => v.v("nokey", format!("{seq:?}: opened without a key")),
                        (Ok(o), _, _) => {
                            if key.is_none() {
                                key = Some(if kf == KeyFn::Good {
                                    calls += 1;
                                    format!("K\u{e9}{calls}")
                                } else {
                                    "default-key-value".into()
                                });
                            }
                            let k = key.clone().unwrap();
                            let rs = roots_of(r).iter().map(|x| real.join(x.replace("$KEY", &k))).collect();
                            headers += 1;
                            g = Some((o, rs, HashSet::new()));
                        }
                    }
                    if called() != calls {
                        v.v("calls", format!("{seq:?}: newkeyfn was called {} times, should be {calls}", called()));
                    }
                }
                IdOp::Close => {
                    g = None;
                    let log = facts::parse_log(&driver::read_lines(&file));
                    let hs: Vec<&L> = log.iter().filter(|l| matches!(l, L::Header { .. })).collect();
                    if hs.len() != headers || log.iter().any(|l| matches!(l, L::Bad(_))) {
                        v.v("headers", format!("{seq:?}: {} of {headers} sessions in the log", hs.len()));
                    }
                    for h in hs {
                        if matches!(h, L::Header { key: k, .. } if Some(k) != key.as_ref()) {
                            v.v("headers", format!("{seq:?}: the log has {h:?}"));
                        }
                    }
                    let got = facts::statuses(&log);
                    for n in names {
                        if got.get(n).map(|x| &x.0) != st.get(n) {
                            v.v("record", format!("{seq:?}: the log says {:?} of {n}, should be {:?}", got.get(n), st.get(n)));
                        }
                    }
                }
                IdOp::Again(p) => {
                    let before = bytes();
                    match open(&["other"], KeyFn::Good, &paths[p]) {
                        Ok(o) => {
                            drop(o);
                            v.v("both", format!("{seq:?}: opened twice"));
                        }
                        Err(e) if !e.is_instance_of::<pyo3::exceptions::PyOSError>(py) => v.v("error", format!("{seq:?}: the second one fails with {e}")),
                        Err(_) => {}
                    }
                    if bytes() != before || called() != calls {
                        v.v("touched", format!("{seq:?}: the second one changed something"));
                    }
                }
                IdOp::Run(k, r) => {
                    let (o, roots, known) = g.as_mut().unwrap();
                    let n = names[k];
                    let d = PyDict::new(py);
                    d.set_item("storage_root", r).unwrap();
                    let cmd = vec!["/sim/task".to_string(), n.to_string()];
                    let valid = (r as usize) < roots.len();
                    let lost = matches!(st.get(n), Some(St::Done { ok: true, root, .. }) if *root as usize >= roots.len() && !n.is_empty());
                    let a = o.call_method(py, "add_task", (cmd, n), Some(d));
                    match (a, valid, lost) {
                        (Err(e), true, false) => v.v("add", format!("{seq:?}: the task is refused: {e}")),
                        (Err(e), _, _) => {
                            if !e.is_instance_of::<pyo3::exceptions::PyIndexError>(py) {
                                v.v("error", format!("{seq:?}: the task is refused with {e}"));
                            }
                        }
                        (Ok(_), true, false) => {
                            let new = known.insert(n);
                            s.begin_exec(0, execs);
                            simhook::set_active(true);
                            let x = o.call_method1(py, "execute", (py.None(), py.None(), py.None(), 0u32));
                            simhook::set_active(false);
                            s.end_exec();
                            execs += 1;
                            let x: Result<(u32, Vec<String>), String> = x.map(|x| x.extract(py).unwrap()).map_err(|e| e.to_string());
                            let mut want = vec![];
                            let old = st.get(n).cloned();
                            if new && (n.is_empty() || !matches!(old, Some(St::Done { ok: true, .. }))) {
                                let c = runs.entry(n).or_insert(0);
                                *c += 1;
                                let ok = k == 0 || k == 4 || (k == 2 && *c > 1);
                                let rc = match old {
                                    None => 0,
                                    Some(St::Ready(rc)) => rc,
                                    Some(St::Started(rc)) | Some(St::Done { rc, .. }) => rc + 1,
                                };
                                st.insert(n, St::Done { rc, root: r, ok });
                                want.push(n.to_string());
                            }
                            if x.as_ref().map(|x| &x.1) != Ok(&want) {
                                v.v("run", format!("{seq:?}: execute gave {x:?}, to run were {want:?}"));
                            }
                        }
                        (Ok(_), _, _) => v.v("root", format!("{seq:?}: the task in a root that does not exist was accepted")),
                    }
                }
                IdOp::Append(a) => {
                    let mut f = match LogFile::<LogFileRW>::new(&file) {
                        Ok(f) => f,
                        Err(e) => {
                            v.v("open", format!("{seq:?}: the log cannot be opened: {e}"));
                            break;
                        }
                    };
                    let rc = match st.get("k3") {
                        None => 0,
                        Some(St::Ready(rc)) => *rc,
                        Some(St::Started(rc)) | Some(St::Done { rc, .. }) => rc + 1,
                    };
                    f.write(LogEntry::new_ready("k3", rc, "c", 1)).unwrap();
                    st.insert("k3", St::Ready(rc));
                    if a > 0 {
                        f.write(LogEntry::new_started("k3", "h", 1, "".into())).unwrap();
                        st.insert("k3", St::Started(rc));
                    }
                    if a > 1 {
                        f.write(LogEntry::new_finished("k3", 0, vec![])).unwrap();
                        st.insert("k3", St::Done { rc, root: 1, ok: true });
                    }
                }
                IdOp::Spoil(k) => {
                    let good = bytes();
                    let head = good.split_inclusive(|c| *c == b'\n').next().unwrap().to_vec();
                    let head = String::from_utf8_lossy(&head).to_string();
                    let line = |s: String| [good.clone(), s.into_bytes()].concat();
                    let bad = match k {
                        0 => line(head.replace("\"version\":4", "\"version\":3")),
                        1 => line(head.replace("\"version\":4", "\"version\":5")),
                        2 => line(head.replace(key.as_ref().unwrap().as_str(), "another")),
                        3 => [b"{\n".to_vec(), good.clone()].concat(),
                        4 => line("not a log\n".into()),
                        5 => line("\n".into()),
                        6 => [good.clone(), vec![0xff, 0xfe, b'\n']].concat(),
                        7 => line("{\"Ready\":{\"key\":7}}\n".into()),
                        // entries that do not follow from each other
                        _ => {
                            let e = [
                                LogEntry::new_ready("z", 0, "c", 0),
                                LogEntry::new_started("z", "h", 1, "".into()),
                                LogEntry::new_started("z", "h", 1, "".into()),
                                LogEntry::new_ready("z", 0, "c", 0),
                                LogEntry::new_finished("z", 0, vec![]),
                            ];
                            let e = match k {
                                8 => &e[1..2],
                                9 => &e[4..],
                                10 => &e[0..3],
                                _ => &e[3..],
                            };
                            let e: String = e.iter().map(|e| serde_json::to_string(e).unwrap() + "\n").collect();
                            let _ = std::fs::remove_file(&out);
                            let vals = py.eval("[__import__('json').loads(l) for l in t.splitlines()]", Some([("t", &e)].into_py_dict(py)), None).unwrap();
                            match m.call_method1(py, "write_logfile", (out.as_str(), vals)) {
                                Err(e) if e.is_instance_of::<pyo3::exceptions::PyOSError>(py) => {}
                                r => v.v("error", format!("{seq:?}: writing such a log gave {r:?}")),
                            }
                            line(e)
                        }
                    };
                    std::fs::write(&file, &bad).unwrap();
                    match open(&["other"], KeyFn::Good, &paths[0]) {
                        Ok(o) => {
                            drop(o);
                            v.v("spoiled", format!("{seq:?}: opened"));
                        }
                        Err(e) => {
                            let t = if k < 2 { e.is_instance_of::<pyo3::exceptions::PyRuntimeError>(py) } else { e.is_instance_of::<pyo3::exceptions::PyOSError>(py) };
                            if !t {
                                v.v("error", format!("{seq:?}: fails with {e}"));
                            }
                        }
                    }
                    if bytes() != bad || called() != calls {
                        v.v("touched", format!("{seq:?}: the log that could not be opened was changed"));
                    }
                    std::fs::write(&file, &good).unwrap();
                }
            }
            // what the workflow says about itself
            if let (Some((o, roots, _)), true) = (&g, v.viols.is_empty()) {
                let k: String = o.call_method0(py, "key").unwrap().extract(py).unwrap();
                if Some(&k) != key.as_ref() {
                    v.v("key", format!("{seq:?}: the key is {k:?}, should be {key:?}"));
                }
                let rs: Vec<PathBuf> = o.call_method0(py, "all_storage_roots").unwrap().extract(py).unwrap();
                if rs != *roots {
                    v.v("roots", format!("{seq:?}: the storage roots are {rs:?}, should be {roots:?}"));
                }
                for n in names {
                    let x = o.call_method1(py, "logfile_runcount", (n,));
                    let want = match st.get(n) {
                        None => Some((0, None)),
                        Some(St::Ready(rc)) => Some((*rc, None)),
                        Some(St::Started(rc)) | Some(St::Done { rc, ok: false, .. }) => Some((rc + 1, None)),
                        // what has no key is never up to date
                        Some(St::Done { rc, .. }) if n.is_empty() => Some((rc + 1, None)),
                        Some(St::Done { rc, root, .. }) => roots.get(*root as usize).map(|p| (*rc, Some(p.join(format!("{n}.{rc}"))))),
                    };
                    let got = match x {
                        Ok(x) => Some(x.extract::<(u32, Option<PathBuf>)>(py).unwrap()),
                        Err(e) => {
                            if !e.is_instance_of::<pyo3::exceptions::PyIndexError>(py) {
                                v.v("error", format!("{seq:?}: asking for the run of {n} fails with {e}"));
                            }
                            None
                        }
                    };
                    if got != want {
                        v.v("where", format!("{seq:?}: the run of {n} is {got:?}, should be {want:?}"));
                    }
                }
            }
            if !v.viols.is_empty() {
                break;
            }
        }
        note(s, format!("{seq:?}"));
        drop(g);
    });
}
