//! What happened, distilled from the trace and the log of one execution.
use crate::driver::{RunOut, SessOut};
use crate::sim::{Ev, Scenario, Session, TEv};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum L {
    Header { roots: Vec<String>, key: String },
    Ready { key: String, runcount: u32, command: String, root: u32, t: u64 },
    Started { key: String, host: String, pid: u32, jobid: String, t: u64 },
    Finished { key: String, status: i32, values: Vec<BTreeMap<String, String>>, t: u64 },
    Backref { key: String },
    Bad(String),
}
impl L {
    pub fn key(&self) -> &str {
        match self {
            L::Ready { key, .. } | L::Started { key, .. } | L::Finished { key, .. } | L::Backref { key } => key,
            _ => "",
        }
    }
}
fn time(v: &Value) -> u64 {
    let s = v["time"]["secs_since_epoch"].as_u64().unwrap_or(0);
    let n = v["time"]["nanos_since_epoch"].as_u64().unwrap_or(0);
    s.saturating_sub(1_800_000_000) * 1_000_000_000 + n
}
pub fn parse_line(s: &str) -> L {
    let bad = || L::Bad(s.to_string());
    let Ok(v) = serde_json::from_str::<Value>(s) else { return bad() };
    let Some(o) = v.as_object() else { return bad() };
    let Some((k, v)) = o.iter().next() else { return bad() };
    let st = |f: &str| v[f].as_str().unwrap_or("\u{0}missing").to_string();
    match k.as_str() {
        "Header" => L::Header {
            roots: v["storage_roots"]
                .as_array()
                .map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect())
                .unwrap_or_default(),
            key: st("workflow_key"),
        },
        "Ready" => L::Ready {
            key: st("key"),
            runcount: v["runcount"].as_u64().unwrap_or(u64::MAX) as u32,
            command: st("command"),
            root: v["r"].as_u64().unwrap_or(u64::MAX) as u32,
            t: time(v),
        },
        "Started" => L::Started {
            key: st("key"),
            host: st("host"),
            pid: v["pid"].as_u64().unwrap_or(u64::MAX) as u32,
            jobid: st("slurm_jobid"),
            t: time(v),
        },
        "Finished" => L::Finished {
            key: st("key"),
            status: v["status"].as_i64().unwrap_or(i64::MAX) as i32,
            values: serde_json::from_value(v["values"].clone()).unwrap_or_default(),
            t: time(v),
        },
        "Backref" => L::Backref { key: st("key") },
        _ => bad(),
    }
}
pub fn parse_log(v: &[String]) -> Vec<L> {
    v.iter().map(|s| parse_line(s)).collect()
}

/// Reference reading of a log: last known status per key.
#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Ready(u32),
    Started(u32),
    Done { rc: u32, root: u32, ok: bool },
}
pub fn statuses(log: &[L]) -> HashMap<String, (St, u32)> {
    let mut m: HashMap<String, (St, u32)> = HashMap::new();
    for l in log {
        match l {
            L::Ready { key, runcount, root, .. } => {
                m.insert(key.clone(), (St::Ready(*runcount), *root));
            }
            L::Started { key, .. } => {
                if let Some((St::Ready(rc), r)) = m.get(key).cloned() {
                    m.insert(key.clone(), (St::Started(rc), r));
                }
            }
            L::Finished { key, status, .. } => {
                if let Some((St::Started(rc), r)) = m.get(key).cloned() {
                    m.insert(key.clone(), (St::Done { rc, root: r, ok: *status == 0 }, r));
                }
            }
            _ => {}
        }
    }
    m
}

#[derive(Clone, Debug, PartialEq)]
pub enum How {
    Local { pid: u32, console: bool },
    Fail,
    Remote { client: usize, txn: u32 },
}
#[derive(Clone, Debug)]
pub struct Start {
    pub pos: usize,
    pub t: u64,
    pub epoch: u32,
    pub idx: usize,
    pub how: How,
    /// how it ended: position, time, epoch, status
    pub end: Option<(usize, u64, u32, i32)>,
    /// the engine sent the local child a signal first
    pub killed: bool,
    /// the worker dropped out or was refused
    pub lost: bool,
    /// the worker's report was turned down
    pub refused: bool,
    pub begun: Option<(usize, u64, u32)>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    Sigint,
    ProvExit,
    Soft,
    Hard,
}
pub struct Exec<'a> {
    pub si: usize,
    pub ei: usize,
    pub spec: &'a crate::sim::Exec,
    pub sess: &'a Session,
    pub so: &'a SessOut,
    pub evs: &'a [TEv],
    /// task ids (add_task results) known when it ran
    pub ntasks: usize,
    pub log_before: Vec<L>,
    /// None when the call did not return
    pub log: Option<Vec<L>>,
    pub result: Option<Result<(u32, Vec<String>), String>>,
    pub alive: Vec<(u32, String)>,
    pub starts: Vec<Start>,
    pub stops: Vec<(usize, u64, u32, Stop)>,
    /// keys that finished in an earlier execute call of the same session, with success
    pub earlier: HashMap<String, bool>,
}

pub fn execs<'a>(sc: &'a Scenario, r: &'a RunOut) -> Vec<Exec<'a>> {
    let mut v = vec![];
    let mut si = 0usize;
    let mut i = 0;
    let mut earlier: HashMap<String, bool> = HashMap::new();
    while i < r.trace.len() {
        match &r.trace[i].ev {
            Ev::Session(s) => {
                si = *s;
                earlier.clear();
                i += 1;
            }
            Ev::ExecStart(ei) => {
                let ei = *ei;
                let mut j = i + 1;
                while j < r.trace.len()
                    && !matches!(r.trace[j].ev, Ev::ExecStart(_) | Ev::Session(_))
                {
                    if matches!(r.trace[j].ev, Ev::ExecEnd(_)) {
                        j += 1;
                        break;
                    }
                    j += 1;
                }
                let evs = &r.trace[i..j];
                let so = &r.sess[si];
                let spec = &sc.sessions[si].execs[ei];
                let before = if ei == 0 {
                    so.log_before
                } else {
                    so.execs.get(ei - 1).map_or(so.log_before, |e| e.log.len())
                };
                let src = so.execs.get(ei).map(|e| &e.log).unwrap_or(&so.log);
                let log_before = parse_log(&src[..before.min(src.len())]);
                let log = so.execs.get(ei).map(|e| parse_log(&e.log[before.min(e.log.len())..]));
                let (starts, stops) = distil(evs, &sc.sessions[si]);
                let x = Exec {
                    si,
                    ei,
                    spec,
                    sess: &sc.sessions[si],
                    so,
                    evs,
                    ntasks: spec.ntasks.unwrap_or(sc.sessions[si].tasks.len()),
                    log_before,
                    log,
                    result: so.execs.get(ei).and_then(|e| e.result.clone()),
                    alive: so.execs.get(ei).map(|e| e.alive.clone()).unwrap_or_default(),
                    starts,
                    stops,
                    earlier: earlier.clone(),
                };
                if let Some(log) = &x.log {
                    for l in log {
                        if let L::Finished { key, status, .. } = l {
                            earlier.insert(key.clone(), *status == 0);
                        }
                    }
                }
                v.push(x);
                i = j;
            }
            _ => i += 1,
        }
    }
    v
}

fn distil(evs: &[TEv], sess: &Session) -> (Vec<Start>, Vec<(usize, u64, u32, Stop)>) {
    let mut starts: Vec<Start> = vec![];
    let mut stops = vec![];
    for (pos, e) in evs.iter().enumerate() {
        let mk = |idx: usize, how: How| Start {
            pos,
            t: e.t,
            epoch: e.epoch,
            idx,
            how,
            end: None,
            killed: false,
            lost: false,
            refused: false,
            begun: None,
        };
        match &e.ev {
            Ev::Spawn { pid, idx, console, .. } => {
                starts.push(mk(*idx, How::Local { pid: *pid, console: *console }))
            }
            Ev::SpawnFail { idx, .. } => {
                let mut s = mk(*idx, How::Fail);
                s.end = Some((pos, e.t, e.epoch, -1));
                starts.push(s)
            }
            Ev::Handout { client, idx, txn, .. } => starts.push(mk(*idx, How::Remote { client: *client, txn: *txn })),
            Ev::Exit { pid, status, .. } => {
                for s in starts.iter_mut() {
                    if matches!(s.how, How::Local { pid: p, .. } if p == *pid) {
                        s.end = Some((pos, e.t, e.epoch, *status));
                    }
                }
            }
            Ev::Signal { pid, .. } => {
                for s in starts.iter_mut() {
                    if matches!(s.how, How::Local { pid: p, .. } if p == *pid) && s.end.is_none() {
                        s.killed = true;
                    }
                }
            }
            Ev::Resp { client, what, code, txn } if what == "end" || what == "begun" => {
                for s in starts.iter_mut() {
                    if s.how == (How::Remote { client: *client, txn: *txn }) {
                        match (what.as_str(), *code) {
                            ("begun", 200) if s.begun.is_none() => s.begun = Some((pos, e.t, e.epoch)),
                            ("begun", 400 | 401 | 404) => s.lost = true,
                            ("end", 400 | 401 | 404) => s.refused = true,
                            _ => {}
                        }
                    }
                }
            }
            Ev::Act(a) => {
                let k = if a.starts_with("Sigint") {
                    Stop::Sigint
                } else if a.starts_with("Soft") {
                    Stop::Soft
                } else if a.starts_with("Hard") {
                    Stop::Hard
                } else {
                    Stop::ProvExit
                };
                stops.push((pos, e.t, e.epoch, k));
            }
            _ => {}
        }
    }
    let st = |i: usize| sess.tasks.get(i).map_or(0, |t| crate::sim::remote_status(&t.out));
    // remote ends: the request, once it has been answered or the piggybacked start went on waiting
    for (pos, e) in evs.iter().enumerate() {
        if let Ev::Req { client, what, txn } = &e.ev {
            if what == "end" {
                for s in starts.iter_mut() {
                    if s.how == (How::Remote { client: *client, txn: *txn }) && s.end.is_none() {
                        // the real worker program may have something else to say
                        let said = evs[..pos].iter().rev().find_map(|q| match &q.ev {
                            Ev::WReq { client: c, what, txn: t, body, .. } if c == client && what == "end" && t == txn => {
                                body["status"].as_i64()
                            }
                            _ => None,
                        });
                        s.end = Some((pos, e.t, e.epoch, said.map_or(st(s.idx), |s| s as i32)));
                    }
                }
            }
        }
    }
    for s in starts.iter_mut() {
        if s.refused {
            s.end = None;
            s.lost = true;
        }
    }
    (starts, stops)
}

impl Exec<'_> {
    pub fn key(&self, idx: usize) -> &str {
        self.sess.tasks.get(idx).map_or("?", |t| t.key.as_str())
    }
    pub fn idx_of(&self, key: &str) -> Option<usize> {
        self.sess.tasks.iter().position(|t| t.key == key)
    }
    /// Tasks this call has to consider: all, or the target with everything it needs.
    pub fn needed(&self) -> BTreeSet<usize> {
        match self.spec.target {
            None => (0..self.ntasks).collect(),
            Some(t) => {
                let mut s = BTreeSet::new();
                let mut st = vec![t as usize];
                while let Some(i) = st.pop() {
                    if s.insert(i) {
                        st.extend(self.sess.tasks[i].deps.iter().map(|d| *d as usize));
                    }
                }
                s
            }
        }
    }
    pub fn deps(&self, i: usize) -> impl Iterator<Item = usize> + '_ {
        self.sess.tasks[i].deps.iter().map(|d| *d as usize)
    }
    /// Success on record before this call: in the log, or earlier in this session.
    pub fn satisfied(&self) -> BTreeSet<usize> {
        let st = statuses(&self.log_before);
        (0..self.ntasks)
            .filter(|i| matches!(st.get(self.key(*i)), Some((St::Done { ok: true, .. }, _))))
            // what has no key is never up to date
            .filter(|i| !self.key(*i).is_empty() || self.earlier.contains_key(""))
            .collect()
    }
    /// Failures that this call must not attempt again.
    pub fn blocked(&self) -> BTreeSet<usize> {
        let st = statuses(&self.log_before);
        (0..self.ntasks)
            .filter(|i| {
                let k = self.key(*i);
                if matches!(st.get(k), Some((St::Done { ok: false, .. }, _))) {
                    (!self.sess.rerun && !k.is_empty()) || self.earlier.contains_key(k)
                } else {
                    false
                }
            })
            .collect()
    }
    /// Which tasks had to run, given what actually succeeded: smallest set closed under "every
    /// prerequisite is on record as successful, or ran and succeeded in this call".
    pub fn expected(&self, succeeded: &BTreeSet<usize>) -> BTreeSet<usize> {
        let needed = self.needed();
        let sat = self.satisfied();
        let blocked = self.blocked();
        let mut exp = BTreeSet::new();
        loop {
            let mut more = false;
            for &i in &needed {
                if exp.contains(&i) || sat.contains(&i) || blocked.contains(&i) {
                    continue;
                }
                if self.deps(i).all(|d| sat.contains(&d) || (exp.contains(&d) && succeeded.contains(&d))) {
                    exp.insert(i);
                    more = true;
                }
            }
            if !more {
                return exp;
            }
        }
    }
    pub fn finished_log(&self) -> Vec<(String, i32)> {
        self.log
            .iter()
            .flatten()
            .filter_map(|l| match l {
                L::Finished { key, status, .. } => Some((key.clone(), *status)),
                _ => None,
            })
            .collect()
    }
    pub fn logged_success(&self) -> BTreeSet<usize> {
        self.finished_log().iter().filter(|f| f.1 == 0).filter_map(|f| self.idx_of(&f.0)).collect()
    }
    pub fn start_of(&self, idx: usize) -> Option<&Start> {
        self.starts.iter().find(|s| s.idx == idx)
    }
    pub fn panics(&self) -> Vec<String> {
        self.evs
            .iter()
            .filter_map(|e| match &e.ev {
                Ev::Panic { msg, loc } => Some(format!("{msg} at {loc}")),
                _ => None,
            })
            .collect()
    }
    pub fn returned(&self) -> bool {
        matches!(self.result, Some(Ok(_)))
    }
}
