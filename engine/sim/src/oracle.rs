//! Judges one execution against one property, from what could be observed of it.
//!
//! The judgement is about behaviour only and is tolerant of every order of events that are not
//! causally separated: "later" means after the system had come to rest in between (`epoch`).
use crate::driver::RunOut;
use crate::facts::{self, Exec, How, Start, Stop, L};
use crate::facts::St;
use crate::sim::{AbortWhy, Act, Consume, Ev, Fault, Op, Out, Scenario, MS, SEC};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub type ValueMaps = Vec<HashMap<String, String>>;

/// Shell words, as far as the workloads use them: blanks, quotes and backslashes. None: malformed.
pub fn shell_words(s: &str) -> Option<Vec<String>> {
    let mut v = vec![];
    let mut cur: Option<String> = None;
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            ' ' | '\t' | '\n' => {
                if let Some(w) = cur.take() {
                    v.push(w);
                }
            }
            '\'' => {
                let w = cur.get_or_insert_with(String::new);
                loop {
                    match it.next()? {
                        '\'' => break,
                        c => w.push(c),
                    }
                }
            }
            '"' => {
                let w = cur.get_or_insert_with(String::new);
                loop {
                    match it.next()? {
                        '"' => break,
                        '\\' => match it.next()? {
                            c @ ('$' | '`' | '"' | '\\') => w.push(c),
                            '\n' => {}
                            c => {
                                w.push('\\');
                                w.push(c);
                            }
                        },
                        c => w.push(c),
                    }
                }
            }
            '\\' => {
                let c = it.next()?;
                cur.get_or_insert_with(String::new).push(c);
            }
            c => cur.get_or_insert_with(String::new).push(c),
        }
    }
    if let Some(w) = cur {
        v.push(w);
    }
    Some(v)
}
/// Reference parser for the fd3 channel: one map per line, shell words of the form key=value.
pub fn parse_values(b: &[u8]) -> ValueMaps {
    let Ok(s) = std::str::from_utf8(b) else { return vec![] };
    s.lines()
        .filter_map(|l| {
            Some(
                shell_words(l)?
                    .iter()
                    .filter_map(|w| w.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())))
                    .collect(),
            )
        })
        .collect()
}

pub struct V {
    pub prop: String,
    pub sig: String,
    pub msg: String,
}
pub fn crash_counts(prop: &str) -> bool {
    prop == "C03"
}

struct Ck<'a> {
    prop: &'a str,
    sc: &'a Scenario,
    out: Vec<V>,
    relevant: bool,
}
impl Ck<'_> {
    fn v(&mut self, kind: &str, msg: String) {
        if self.out.len() < 20 {
            self.out.push(V {
                prop: self.prop.to_string(),
                sig: format!("{kind}@{}", self.sc.name),
                msg,
            });
        }
    }
}

pub fn check(prop: &str, sc: &Scenario, r: &RunOut) -> (Vec<V>, bool) {
    let xs = facts::execs(sc, r);
    let mut c = Ck { prop, sc, out: vec![], relevant: false };
    match prop {
        "C01" => xs.iter().for_each(|x| c01(&mut c, x)),
        "C02" => c02(&mut c, &xs),
        "C03" => {
            xs.iter().for_each(|x| {
                c.relevant |= x.starts.len() > 1 || !x.stops.is_empty();
                returns(&mut c, x);
                complete(&mut c, x)
            });
            if r.abort == Some(AbortWhy::TooLong) {
                c.v("livelock", "no end after two million steps".into());
            }
        }
        "C04" => xs.iter().for_each(|x| c04(&mut c, x)),
        "C05" => xs.iter().for_each(|x| c05(&mut c, x)),
        "C06" => xs.iter().for_each(|x| c06(&mut c, x)),
        "C07" => xs.iter().for_each(|x| c07(&mut c, x)),
        "C08" => {
            xs.iter().for_each(|x| c08(&mut c, x));
            headers(&mut c, r);
        }
        "C09" => c09(&mut c, &xs, r),
        "C10" => c10(&mut c, &xs, r),
        "C11" => xs.iter().for_each(|x| c11(&mut c, x)),
        "C12" => xs.iter().for_each(|x| c12(&mut c, x)),
        "C27" => xs.iter().for_each(|x| c27(&mut c, x, r)),
        "C28" => xs.iter().for_each(|x| c28(&mut c, x, r)),
        "C13" => xs.iter().for_each(|x| c13(&mut c, x)),
        "C14" => xs.iter().for_each(|x| c14(&mut c, x)),
        "C15" => xs.iter().for_each(|x| c15(&mut c, x)),
        "C16" => xs.iter().for_each(|x| c16(&mut c, x)),
        "C17" => xs.iter().for_each(|x| c17(&mut c, x)),
        "C18" => xs.iter().for_each(|x| c18(&mut c, x)),
        "C19" => xs.iter().for_each(|x| c19(&mut c, x)),
        "C20" => xs.iter().for_each(|x| c20(&mut c, x)),
        "C21" => xs.iter().for_each(|x| c21(&mut c, x)),
        "C22" => c22(&mut c, r),
        "C30" => c30(&mut c, &xs, r),
        "C25" => xs.iter().for_each(|x| c25(&mut c, x)),
        "C23" | "C24" | "C26" | "C29" => {
            c.relevant = r.hist.relevant;
            for (k, m) in &r.hist.viols {
                c.v(k, m.clone());
            }
        }
        _ => panic!("no oracle for {prop}"),
    }
    (c.out, c.relevant)
}

// ------------------------------------------------------------------------------- helpers

fn fa(x: &Exec) -> usize {
    if x.sess.fa == 0 {
        usize::MAX
    } else {
        x.sess.fa as usize
    }
}
/// Nothing ended the call early: no shutdown of any kind, failure limit not reached.
fn quiet(x: &Exec) -> bool {
    x.stops.is_empty() && x.returned() && x.finished_log().iter().filter(|f| f.1 != 0).count() < fa(x)
}
fn name(x: &Exec) -> String {
    format!("session {} execute {}", x.si, x.ei)
}
/// How the started task ended by itself, if it did and nothing interfered.
fn natural(x: &Exec, s: &Start) -> Option<i32> {
    let (_, t, ep, st) = s.end?;
    if s.killed || s.lost || x.stops.iter().any(|p| p.2 <= ep) {
        return None;
    }
    // a failure that reaches the limit cancels younger tasks, which may end in the same moment
    let mut f: Vec<(u64, u32)> = x
        .starts
        .iter()
        .filter_map(|s| s.end)
        .filter(|e| e.3 != 0)
        .map(|e| (e.1, e.2))
        .collect();
    f.sort();
    if let Some(k) = f.get(fa(x).saturating_sub(1)) {
        if (t, ep) >= *k && fa(x) != usize::MAX {
            // the failure itself counts, unless two of them fall together
            if f.iter().filter(|q| q.1 == k.1).count() > 1 || ep > k.1 || st == 0 {
                return None;
            }
        }
    }
    Some(st)
}
fn returns(c: &mut Ck, x: &Exec) {
    if x.evs.iter().any(|e| matches!(e.ev, Ev::Hang)) {
        c.v("hang", format!("{} never returns", name(x)));
        return;
    }
    for p in x.panics() {
        let short: String = p.chars().take(60).collect();
        c.v("panic", format!("{}: {short}: {p}", name(x)));
    }
    if let Some(Err(e)) = &x.result {
        c.v("error", format!("{} raised {e}", name(x)));
    }
}
fn complete(c: &mut Ck, x: &Exec) {
    if !x.returned() {
        return;
    }
    let fin: BTreeSet<usize> = x.finished_log().iter().filter_map(|f| x.idx_of(&f.0)).collect();
    for s in &x.starts {
        if !fin.contains(&s.idx) {
            c.v("unfinished", format!("{}: {} was started but its end is not on record", name(x), x.key(s.idx)));
        }
    }
    if quiet(x) {
        let exp = x.expected(&x.logged_success());
        for i in exp.difference(&fin) {
            c.v("not-run", format!("{}: {} should have run and did not", name(x), x.key(*i)));
        }
        for i in fin.difference(&exp) {
            c.v("extra-run", format!("{}: {} should not have run", name(x), x.key(*i)));
        }
    }
}

// ----------------------------------------------------------------------------- C01 .. C04

fn c01(c: &mut Ck, x: &Exec) {
    let sat = x.satisfied();
    for s in &x.starts {
        if s.idx >= x.sess.tasks.len() {
            c.v("unknown", format!("{}: something that is no task was started", name(x)));
            continue;
        }
        for d in x.deps(s.idx) {
            c.relevant = true;
            if sat.contains(&d) {
                continue;
            }
            let ok = x.starts.iter().any(|p| {
                p.idx == d && matches!(p.end, Some((pos, _, _, 0)) if pos < s.pos) && !p.killed && !p.lost
            });
            if !ok {
                c.v(
                    "order",
                    format!("{}: {} was started before its dependency {} had succeeded", name(x), x.key(s.idx), x.key(d)),
                );
            }
        }
    }
    // the record must say the same
    let mut done: HashSet<String> = sat.iter().map(|i| x.key(*i).to_string()).collect();
    for l in x.log.iter().flatten() {
        match l {
            L::Finished { key, status: 0, .. } => {
                done.insert(key.clone());
            }
            L::Started { key, .. } => {
                if let Some(i) = x.idx_of(key) {
                    for d in x.deps(i) {
                        if !done.contains(x.key(d)) {
                            c.v("log-order", format!("{}: start of {key} is on record before success of {}", name(x), x.key(d)));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    c.relevant |= x.starts.iter().any(|s| {
        matches!(s.end, Some((_, _, _, st)) if st != 0) && x.sess.tasks.iter().any(|t| t.deps.contains(&(s.idx as u32)))
    });
}

fn c02(c: &mut Ck, xs: &[Exec]) {
    let mut won: HashSet<String> = HashSet::new();
    for x in xs {
        c.relevant |= x.starts.len() > 1;
        let mut seen = HashSet::new();
        for s in &x.starts {
            let k = x.key(s.idx).to_string();
            if !seen.insert(k.clone()) {
                c.v("twice", format!("{}: {k} was started twice", name(x)));
            }
            if won.contains(&k) {
                c.v("again", format!("{}: {k} was started although its success is on record", name(x)));
            }
        }
        for s in &x.starts {
            if s.end.map_or(false, |e| e.3 == 0) && !s.killed && !s.lost && x.log.is_some() {
                // only what reached the record counts
                if x.logged_success().contains(&s.idx) {
                    won.insert(x.key(s.idx).to_string());
                }
            }
        }
        for i in x.logged_success() {
            won.insert(x.key(i).to_string());
        }
    }
}

fn c04(c: &mut Ck, x: &Exec) {
    let Some(Ok((nf, order))) = &x.result else { return };
    let fin = x.finished_log();
    c.relevant |= fin.len() > 1;
    let bad = fin.iter().filter(|f| f.1 != 0).count();
    if bad != *nf as usize {
        c.v("count", format!("{}: reports {nf} failures, {bad} tasks failed", name(x)));
    }
    let mut a: Vec<&String> = fin.iter().map(|f| &f.0).collect();
    let mut b: Vec<&String> = order.iter().collect();
    a.sort();
    b.sort();
    if a != b {
        c.v("set", format!("{}: reports {order:?} as finished, {:?} finished", name(x), fin));
    }
    if quiet(x) {
        let act = x.starts.iter().filter(|s| !s.lost && !matches!(s.end, Some((_, _, _, 0)))).count();
        let lost = x.starts.iter().any(|s| s.lost || s.end.is_none());
        if !lost && act != *nf as usize {
            c.v("actual", format!("{}: reports {nf} failures, {act} tasks failed", name(x)));
        }
    }
    let ep: HashMap<&str, u32> = x
        .starts
        .iter()
        .filter(|s| natural(x, s).is_some())
        .map(|s| (x.key(s.idx), s.end.unwrap().2))
        .collect();
    for w in 0..order.len() {
        for z in w + 1..order.len() {
            if let (Some(a), Some(b)) = (ep.get(order[w].as_str()), ep.get(order[z].as_str())) {
                if a > b {
                    c.v("order", format!("{}: reports {} before {}, which finished earlier", name(x), order[w], order[z]));
                }
            }
        }
    }
}

// ----------------------------------------------------------------------------- C05 .. C07

/// (position, time, epoch) of the failure that reaches the limit.
fn limit(x: &Exec) -> Option<(usize, u64, u32)> {
    if x.sess.fa == 0 {
        return None;
    }
    let mut f: Vec<(usize, u64, u32)> = x
        .starts
        .iter()
        .filter(|s| !s.killed && !s.lost)
        .filter_map(|s| {
            let (p, t, e, st) = s.end?;
            let from = match s.how {
                How::Remote { .. } => s.begun?.1,
                _ => s.t,
            };
            (st != 0 && t - from < 4500 * MS).then_some((p, t, e))
        })
        .collect();
    f.sort();
    f.get(x.sess.fa as usize - 1).copied()
}
fn c05(c: &mut Ck, x: &Exec) {
    if x.stops.iter().any(|s| s.3 != Stop::ProvExit) {
        return;
    }
    let hang = x.evs.iter().any(|e| matches!(e.ev, Ev::Hang));
    let Some((p, t, e)) = limit(x) else {
        // below the limit everything that can run does
        if x.returned() && x.stops.is_empty() {
            let fin: BTreeSet<usize> = x.finished_log().iter().filter_map(|f| x.idx_of(&f.0)).collect();
            c.relevant |= x.finished_log().iter().any(|f| f.1 != 0);
            let near = x.starts.iter().filter(|s| !s.killed && !s.lost && s.end.map_or(false, |e| e.3 != 0 && e.1 - s.t < 5500 * MS)).count();
            for s in x.starts.iter().filter(|s| s.killed && near < fa(x)) {
                c.v("cancelled", format!("{}: {} was cancelled although the failure limit was not reached", name(x), x.key(s.idx)));
            }
            for i in x.expected(&x.logged_success()).difference(&fin) {
                c.v("early", format!("{}: {} did not run although the failure limit was not reached", name(x), x.key(*i)));
            }
        } else if hang {
            c.v("hang", format!("{} never returns", name(x)));
        }
        return;
    };
    c.relevant = true;
    if hang {
        c.v("hang", format!("{} never returns after the failure limit", name(x)));
        return;
    }
    for s in &x.starts {
        if s.epoch > e {
            c.v("start", format!("{}: {} was started after the failure limit had been reached", name(x), x.key(s.idx)));
        }
        let remote = matches!(s.how, How::Remote { .. });
        let running = s.pos < p && s.end.map_or(true, |q| q.2 > e || (s.killed && q.0 > p));
        if !running || remote || s.how == How::Fail {
            continue;
        }
        let age = t - s.t;
        if age < 4500 * MS {
            let sig = x.evs.iter().find(|v| matches!(v.ev, Ev::Signal { pid, .. } if How::Local { pid, console: true } == s.how || How::Local { pid, console: false } == s.how));
            if !sig.map_or(false, |v| v.t <= t + 500 * MS) {
                c.v("keep", format!("{}: {} had just been started and was not cancelled", name(x), x.key(s.idx)));
            }
        } else if age > 5500 * MS && s.killed {
            c.v("kill", format!("{}: {} had been running for {}s and was not left to finish", name(x), x.key(s.idx), age / SEC));
        }
    }
    if x.returned() {
        for s in &x.starts {
            let old = s.pos < p && t - s.t > 5500 * MS;
            if let (true, Some((_, at, _, st)), How::Remote { .. }) = (s.pos < p, s.end, &s.how) {
                let log = x.finished_log().iter().find(|f| f.0 == x.key(s.idx)).map(|f| f.1);
                if old && !s.lost && log != Some(st) {
                    c.v("kill", format!("{}: {} had been running remotely for {}s and was not left to finish: it ended with {st}, on record {log:?}", name(x), x.key(s.idx), (t - s.t) / SEC));
                }
                if t - s.t < 4500 * MS && at > t + SEC && log != Some(-1) {
                    c.v("keep", format!("{}: {} had just been handed out and was not given up: {log:?} is on record", name(x), x.key(s.idx)));
                }
            }
            if let (true, Some((_, _, _, st)), How::Local { .. }) = (old, s.end, &s.how) {
                let log = x.finished_log().iter().find(|f| f.0 == x.key(s.idx)).map(|f| f.1);
                if !s.killed && log != Some(st) {
                    c.v("status", format!("{}: {} ended with {st}, on record {log:?}", name(x), x.key(s.idx)));
                }
            }
        }
        // no time is lost
        let last = x.starts.iter().filter_map(|s| s.end).map(|e| e.1).max().unwrap_or(t).max(t);
        let ret = x.evs.last().map_or(0, |e| e.t);
        let waiting = x.starts.iter().any(|s| s.end.is_none());
        if ret > last + 2 * SEC && !waiting {
            c.v("slow", format!("{}: returned {}ms after the last task had ended", name(x), (ret - last) / MS));
        }
        complete(c, x);
    }
}

/// The end of a remote task is on record although its worker has neither reported it nor fallen silent.
fn gave_up(x: &Exec, s: &Start) -> bool {
    x.log.iter().flatten().any(|l| match l {
        L::Finished { key, t, .. } => key == x.key(s.idx) && *t < s.begun.map_or(s.t, |b| b.1).max(s.t) + 25 * SEC,
        _ => false,
    })
}

fn c06(c: &mut Ck, x: &Exec) {
    let Some((p, _, e, _)) = x.stops.iter().find(|s| s.3 == Stop::Soft).cloned() else { return };
    if x.stops.iter().any(|s| s.3 != Stop::Soft) || limit(x).is_some() {
        return;
    }
    c.relevant = true;
    let Some(resp) = x.evs.iter().skip(p).find(|v| matches!(&v.ev, Ev::Resp { what, code: 200, .. } if what == "shutdown")) else {
        // the call was over already
        return;
    };
    if x.evs.iter().any(|e| matches!(e.ev, Ev::Hang)) {
        c.v("hang", format!("{} never returns after a soft shutdown", name(x)));
        return;
    }
    for q in x.panics() {
        c.v("panic", format!("{}: {q}", name(x)));
    }
    if !x.returned() {
        c.v("error", format!("{}: {:?}", name(x), x.result));
        return;
    }
    for s in &x.starts {
        if s.epoch > resp.epoch {
            c.v("start", format!("{}: {} was started after the soft shutdown", name(x), x.key(s.idx)));
        }
        if s.epoch < e {
            if s.killed {
                c.v("kill", format!("{}: {} was running and was not left to finish", name(x), x.key(s.idx)));
            } else if let Some((_, _, _, st)) = s.end {
                let log = x.finished_log().iter().find(|f| f.0 == x.key(s.idx)).map(|f| f.1);
                if !s.lost && log != Some(st) {
                    c.v("status", format!("{}: {} ended with {st}, on record {log:?}", name(x), x.key(s.idx)));
                }
            } else if matches!(s.how, How::Remote { .. }) && gave_up(x, s) {
                c.v("kill", format!("{}: {} had been given to a worker and was not left to finish", name(x), x.key(s.idx)));
            } else if !s.lost && matches!(s.how, How::Local { .. }) {
                c.v("left", format!("{}: returned while {} was running", name(x), x.key(s.idx)));
            }
        }
    }
    let last = x
        .starts
        .iter()
        .filter(|s| s.epoch <= e)
        .filter_map(|s| s.end)
        .map(|e| e.1)
        .max()
        .unwrap_or(0)
        .max(resp.t);
    let ret = x.evs.last().map_or(0, |e| e.t);
    if ret > last + 2 * SEC && !x.starts.iter().any(|s| s.end.is_none()) {
        c.v("slow", format!("{}: returned {}ms after the last task had ended", name(x), (ret - last) / MS));
    }
    for v in x.evs.iter().filter(|v| v.epoch > resp.epoch) {
        if let Ev::Status { reply, .. } = &v.ev {
            if reply.queues.iter().any(|q| q.1 != 0) {
                c.v("ready", format!("{}: reports ready tasks after the soft shutdown: {:?}", name(x), reply.queues));
            }
        }
    }
    if !x.alive.is_empty() {
        c.v("alive", format!("{}: still running on return: {:?}", name(x), x.alive));
    }
    complete(c, x);
}

fn c07(c: &mut Ck, x: &Exec) {
    let Some((_, t, e, how)) = x.stops.iter().find(|s| s.3 != Stop::Soft).cloned() else { return };
    c.relevant = true;
    if x.evs.iter().any(|e| matches!(e.ev, Ev::Hang)) {
        c.v("hang", format!("{} never returns after {how:?}", name(x)));
        return;
    }
    for q in x.panics() {
        c.v("panic", format!("{}: {q}", name(x)));
    }
    if !x.returned() {
        c.v("error", format!("{}: {:?}", name(x), x.result));
        return;
    }
    let ret = x.evs.iter().find(|v| matches!(v.ev, Ev::ExecEnd(_))).map_or(0, |e| e.t);
    // long polls that are still open may delay the end of the server
    let mut open = 0;
    if let Some(p) = &x.spec.prov {
        for o in p.clients.iter().flat_map(|c| &c.ops) {
            if let Op::Status { timemin, timeout, .. } | Op::Poll { timemin, timeout } = o {
                open = open.max(*timemin.max(timeout));
            }
        }
    }
    if ret > t + 2 * SEC + open * MS {
        c.v("slow", format!("{}: returned {}ms after {how:?}", name(x), (ret - t) / MS));
    }
    if !x.alive.is_empty() {
        c.v("alive", format!("{}: still running on return: {:?}", name(x), x.alive));
    }
    if let Some(p) = x.evs.iter().position(|e| matches!(e.ev, Ev::Prov { .. })) {
        match x.evs[p..].iter().map(|e| &e.ev).find(|e| matches!(e, Ev::ProvExit | Ev::ProvSignal { .. } | Ev::ExecEnd(_))) {
            Some(Ev::ProvExit) | Some(Ev::ProvSignal { sig: 2 | 15, .. }) => {}
            Some(Ev::ProvSignal { sig, .. }) => c.v("provisioner", format!("{}: the provisioner is not told to stop, it gets signal {sig}", name(x))),
            _ => c.v("provisioner", format!("{}: the provisioner is left running", name(x))),
        }
    }
    let fin = x.finished_log();
    for s in &x.starts {
        let k = x.key(s.idx);
        if s.epoch > e {
            c.v("start", format!("{}: {k} was started after {how:?}", name(x)));
        }
        let log: Vec<i32> = fin.iter().filter(|f| f.0 == k).map(|f| f.1).collect();
        if log.len() != 1 {
            c.v("record", format!("{}: {} ends on record for {k}, which was started", name(x), log.len()));
            continue;
        }
        match s.end {
            // it had ended before the stop
            Some((_, _, ep, st)) if ep < e && !s.killed && !s.lost => {
                if limit(x).is_none() && log[0] != st {
                    c.v("status", format!("{}: {k} had ended with {st}, on record {}", name(x), log[0]));
                }
            }
            Some((_, _, _, 0)) if !s.killed => {}
            _ => {
                if log[0] == 0 {
                    c.v("success", format!("{}: {k} was interrupted and is on record as successful", name(x)));
                }
            }
        }
    }
    let st: BTreeSet<&str> = x.starts.iter().map(|s| x.key(s.idx)).collect();
    let dropped = x.evs.iter().any(|e| matches!(e.ev, Ev::Dropped { .. }));
    for (k, s) in &fin {
        // a worker may have been given it without hearing about it
        let remote = x.idx_of(k).map_or(false, |i| x.sess.tasks[i].affinity & !3 != 0);
        if !st.contains(k.as_str()) && !dropped && (!remote || *s == 0) {
            c.v("phantom", format!("{}: the end of {k} is on record but it was not started", name(x)));
        }
    }
}

// ----------------------------------------------------------------------------- C08 .. C11

fn display(t: &crate::sim::Task) -> String {
    match &t.display {
        Some(d) => d.clone(),
        None => {
            let mut v = vec!["/sim/task".to_string(), t.key.clone()];
            v.extend(t.extra_args.iter().cloned());
            crate::sim::lossy(&v.join(" ")).replace("\\\n", " ").replace('\t', "\\t")
        }
    }
}
fn c08(c: &mut Ck, x: &Exec) {
    let Some(log) = &x.log else { return };
    // 0 nothing in this call, 1 ready, 2 started, 3 finished
    let mut st: BTreeMap<&str, u8> = BTreeMap::new();
    let n = name(x);
    for (li, l) in log.iter().enumerate() {
        let k = l.key();
        if let L::Bad(s) = l {
            c.v("line", format!("{n}: unreadable line {s:?}"));
            continue;
        }
        if matches!(l, L::Header { .. }) {
            // (it reaches the file with the first flush)
            if li == 0 && x.so.execs[..x.ei].iter().all(|e| e.log.len() <= x.so.log_before) {
                continue;
            }
            c.v("header", format!("{n}: header in the middle"));
            continue;
        }
        let Some(i) = x.idx_of(k) else {
            c.v("key", format!("{n}: line for unknown key {k:?}"));
            continue;
        };
        let t = &x.sess.tasks[i];
        c.relevant = true;
        let s = st.entry(k).or_insert(0);
        match l {
            L::Ready { command, root, .. } => {
                if *s != 0 {
                    c.v("ready", format!("{n}: {k} ready more than once"));
                }
                *s = 1;
                if *command != display(t) {
                    c.v("command", format!("{n}: {k} command {command:?}, is {:?}", display(t)));
                }
                if *root != t.storage_root {
                    c.v("root", format!("{n}: {k} storage root {root}, is {}", t.storage_root));
                }
            }
            L::Started { pid, jobid, host, .. } => {
                if *s != 1 {
                    c.v("started", format!("{n}: {k} started in state {s}"));
                }
                *s = 2;
                let Some(a) = x.start_of(i) else {
                    let dropped = x.evs.iter().any(|e| matches!(e.ev, Ev::Dropped { .. }));
                    let remote = t.affinity & !3 != 0;
                    if !dropped && !(remote && !x.stops.is_empty()) {
                        c.v("phantom", format!("{n}: {k} on record as started, was not"));
                    }
                    continue;
                };
                let eh = match &a.how {
                    How::Remote { client, .. } => Some(crate::sim::host_of(*client)),
                    _ => None,
                };
                let (ep, ej) = match &a.how {
                    How::Local { pid, .. } => (*pid, String::new()),
                    How::Fail => (0, String::new()),
                    How::Remote { client, .. } => {
                        let j = x.spec.prov.as_ref().map_or("", |p| &p.clients[*client].jobid);
                        (crate::sim::pid_of(*client), j.to_string())
                    }
                };
                // a worker that never reported the beginning leaves nothing to record
                let unknown = matches!(a.how, How::Remote { .. }) && a.begun.is_none() || t.pre_fails;
                let nobody = *pid == 0 && host.is_empty() && jobid.is_empty();
                if unknown && matches!(a.how, How::Remote { .. }) && !nobody && (*pid != ep || *jobid != ej) {
                    c.v("who", format!("{n}: {k} on record as started by {host:?} {pid} {jobid:?}, nobody ever said so"));
                }
                if !unknown && (*pid != ep || *jobid != ej || host.is_empty() || eh.as_ref().map_or(false, |h| h != host)) {
                    c.v("who", format!("{n}: {k} on record as started by {host:?} {pid} {jobid:?}, was {ep} {ej:?}"));
                }
            }
            L::Finished { status, values, .. } => {
                if *s != 2 {
                    c.v("finished", format!("{n}: {k} finished in state {s}"));
                }
                *s = 3;
                let Some(a) = x.start_of(i) else { continue };
                let nat = natural(x, a);
                if let Some(e) = nat.or((*status == 0 && !a.killed && !a.lost).then_some(0)) {
                    if nat.is_some() && e != *status {
                        c.v("status", format!("{n}: {k} ended with {e}, on record {status}"));
                    }
                    let run_ok = a.how != How::Fail;
                    let want: Vec<BTreeMap<String, String>> = if run_ok {
                        parse_values(&t.fd3).into_iter().map(|m| m.into_iter().collect()).collect()
                    } else {
                        vec![]
                    };
                    if *values != want {
                        c.v("values", format!("{n}: {k} wrote {want:?}, on record {values:?}"));
                    }
                } else if (a.killed || a.lost) && *status == 0 {
                    c.v("killed", format!("{n}: {k} was interrupted, on record as successful"));
                }
            }
            _ => {
                *s = (*s).max(0);
            }
        }
    }
    for (k, s) in st {
        if s == 2 && x.returned() {
            c.v("open", format!("{n}: {k} is left as started"));
        }
    }
    if x.returned() {
        for s in &x.starts {
            if !log.iter().any(|l| matches!(l, L::Started { key, .. } if key == x.key(s.idx))) {
                c.v("missing", format!("{n}: the start of {} is not on record", x.key(s.idx)));
            }
        }
    }
}
fn headers(c: &mut Ck, r: &RunOut) {
    for (si, s) in r.sess.iter().enumerate() {
        if s.new_err.is_some() {
            continue;
        }
        let l = facts::parse_log(&s.log[s.log_before.min(s.log.len())..]);
        let n = l.iter().filter(|l| matches!(l, L::Header { .. })).count();
        if n != 1 || !matches!(l.first(), Some(L::Header { .. })) {
            if s.execs.is_empty() && l.is_empty() {
                continue;
            }
            c.v("header", format!("session {si}: {n} headers on record"));
        }
    }
}

fn c09(c: &mut Ck, xs: &[Exec], r: &RunOut) {
    for (si, s) in r.sess.iter().enumerate() {
        if let Some(e) = &s.new_err {
            c.v("open", format!("session {si} cannot be opened: {e}"));
        }
    }
    for x in xs {
        let n = name(x);
        c.relevant |= x.si > 0;
        let sat = x.satisfied();
        let blocked = x.blocked();
        for s in &x.starts {
            if sat.contains(&s.idx) {
                c.v("again", format!("{n}: {} was started although its success is on record", x.key(s.idx)));
            }
            if blocked.contains(&s.idx) {
                c.v("failed", format!("{n}: {} was started although its failure is on record", x.key(s.idx)));
            }
        }
        if x.si > 0 || x.ei > 0 {
            complete(c, x);
            returns(c, x);
        }
        // the current view keeps what was reused
        if x.si > 0 && x.returned() {
            let all = facts::parse_log(&x.so.log);
            let cut = x.so.log_before.min(all.len());
            let mut old: HashMap<&str, bool> = HashMap::new();
            for l in &all[..cut] {
                match l {
                    L::Finished { key, status, .. } => {
                        old.insert(key, *status == 0);
                    }
                    L::Ready { key, .. } => {
                        old.remove(key.as_str());
                    }
                    _ => {}
                }
            }
            let mut refs: HashMap<&str, usize> = HashMap::new();
            for l in &all[cut..] {
                if let L::Backref { key } = l {
                    *refs.entry(key).or_insert(0) += 1;
                }
            }
            for i in x.needed() {
                let k = x.key(i);
                let want = match old.get(k) {
                    _ if k.is_empty() => false,
                    Some(true) => true,
                    Some(false) => {
                        // reused only if nothing it needs failed, too
                        !x.sess.rerun && !downstream_of_blocked(x, i)
                    }
                    None => false,
                };
                if want && !refs.contains_key(k) {
                    c.v("backref", format!("{n}: {k} was reused but the log does not refer back to it"));
                }
            }
            for (k, m) in refs {
                if m > 1 || !old.contains_key(k) {
                    c.v("stray", format!("{n}: {m} references to {k}"));
                }
            }
        }
    }
}
fn downstream_of_blocked(x: &Exec, i: usize) -> bool {
    let b = x.blocked();
    let sat = x.satisfied();
    let mut st: Vec<usize> = x.deps(i).collect();
    let mut seen = HashSet::new();
    while let Some(d) = st.pop() {
        if sat.contains(&d) || !seen.insert(d) {
            continue;
        }
        if b.contains(&d) {
            return true;
        }
        st.extend(x.deps(d));
    }
    false
}

/// The session was not killed.
fn went_well(sc: &Scenario, si: usize) -> bool {
    sc.cuts.get(si).map_or(true, |c| *c == crate::sim::Cut::No)
}
fn c10(c: &mut Ck, xs: &[Exec], r: &RunOut) {
    let sc = c.sc;
    // (key, run number) of everything that was ever started
    let mut started: HashSet<(String, u32)> = HashSet::new();
    for (si, so) in r.sess.iter().enumerate() {
        if so.new_err.is_some() {
            continue;
        }
        let sess = &c.sc.sessions[si];
        let all = facts::parse_log(&so.log);
        let cut = so.log_before.min(all.len());
        // tasks added before the first execute call; later ones see the calls before
        let mut added = 0;
        for (ei, ex) in sess.execs.iter().enumerate() {
            let n = ex.ntasks.unwrap_or(sess.tasks.len());
            let before = if ei == 0 { cut } else { so.execs.get(ei - 1).map_or(cut, |e| e.log.len()) };
            let stat = facts::statuses(&all[..before.min(all.len())]);
            let roots: Vec<String> = sess.storage_roots.iter().map(|s| s.replace("$KEY", "default-key-value")).collect();
            while added < n && added < so.runcount.len() {
                let k = &sess.tasks[added].key;
                let (rc, path) = &so.runcount[added];
                let (want, wpath) = match stat.get(k) {
                    None => (0, None),
                    Some((facts::St::Ready(rc), _)) => (*rc, None),
                    Some((facts::St::Started(rc), _)) => (rc + 1, None),
                    Some((facts::St::Done { rc, ok: false, .. }, _)) => (rc + 1, None),
                    Some((facts::St::Done { rc, ok: true, .. }, _)) if k.is_empty() => (rc + 1, None),
                    Some((facts::St::Done { rc, ok: true, root }, _)) => (*rc, roots.get(*root as usize).map(|r| (r.clone(), *rc))),
                };
                c.relevant |= stat.contains_key(k);
                if *rc != want {
                    c.v("number", format!("session {si}: run number of {k} is {rc}, should be {want}"));
                }
                match (path, wpath) {
                    (None, None) => {}
                    (Some(p), Some((root, n))) => {
                        let p = p.to_string_lossy();
                        let end = if root.is_empty() { format!("/{k}.{n}") } else { format!("{root}/{k}.{n}") };
                        if !p.starts_with('/') || !p.ends_with(&end) {
                            c.v("dir", format!("session {si}: directory of {k} is {p}, should end in {end}"));
                        }
                    }
                    (a, b) => c.v("dir", format!("session {si}: directory of {k} is {a:?}, should be {b:?}")),
                }
                added += 1;
            }
        }
    }
    // what survived of a session that was killed
    let survived = |si: usize, key: &str, rc: u32| {
        let Some(next) = r.sess.get(si + 1) else { return true };
        if went_well(sc, si) {
            return true;
        }
        let all = facts::parse_log(&next.log);
        let mut at = None;
        all[..next.log_before.min(all.len())].iter().any(|l| match l {
            L::Ready { key: k, runcount, .. } if k == key => {
                at = Some(*runcount);
                false
            }
            L::Started { key: k, .. } => k == key && at == Some(rc),
            _ => false,
        })
    };
    for x in xs {
        let n = name(x);
        let mut rc: HashMap<&str, u32> = HashMap::new();
        for l in x.log.iter().flatten() {
            match l {
                L::Ready { key, runcount, .. } => {
                    rc.insert(key, *runcount);
                    if let (Some(i), 0) = (x.idx_of(key), x.ei) {
                        if x.so.runcount.get(i).map(|r| r.0) != Some(*runcount) {
                            c.v("record", format!("{n}: run {runcount} of {key} on record, announced was {:?}", x.so.runcount.get(i)));
                        }
                    }
                }
                L::Started { key, .. } => {
                    if let Some(r) = rc.get(key.as_str()) {
                        if survived(x.si, key, *r) && !started.insert((key.clone(), *r)) {
                            c.v("reuse", format!("{n}: run {r} of {key} was started before"));
                        }
                    }
                }
                _ => {}
            }
        }
    }
}

fn c11(c: &mut Ck, x: &Exec) {
    if x.spec.target.is_none() {
        return;
    }
    let need = x.needed();
    c.relevant |= need.len() < x.ntasks;
    for s in &x.starts {
        if !need.contains(&s.idx) {
            c.v("extra", format!("{}: {} was started, which the target does not need", name(x), x.key(s.idx)));
        }
    }
    for l in x.log.iter().flatten() {
        if let L::Ready { key, .. } | L::Backref { key } = l {
            if x.idx_of(key).map_or(true, |i| !need.contains(&i)) {
                c.v("log", format!("{}: {key} is on record, which the target does not need", name(x)));
            }
        }
    }
    returns(c, x);
    complete(c, x);
}

// ----------------------------------------------------------------------------- C12, C13

/// First position of the epoch after that of `pos`.
fn rest(x: &Exec, e: u32) -> usize {
    x.evs.iter().position(|v| v.epoch > e).unwrap_or(x.evs.len())
}
/// Ended by itself before `pos`.
fn ended(s: &Start, pos: usize) -> bool {
    matches!(s.end, Some((p, ..)) if p < pos)
}
/// Tasks that may run at `pos` and have not been started before.
fn ready_at(x: &Exec, pos: usize, need: &BTreeSet<usize>, sat: &BTreeSet<usize>, bl: &BTreeSet<usize>) -> BTreeSet<usize> {
    let mut started = BTreeSet::new();
    let mut won = BTreeSet::new();
    for s in &x.starts {
        if s.pos < pos {
            started.insert(s.idx);
        }
        if matches!(s.end, Some((p, _, _, 0)) if p < pos) && !s.killed && !s.lost {
            won.insert(s.idx);
        }
    }
    need.iter()
        .copied()
        .filter(|i| {
            !sat.contains(i)
                && !bl.contains(i)
                && !started.contains(i)
                && x.deps(*i).all(|d| sat.contains(&d) || won.contains(&d))
        })
        .collect()
}
fn horizon(x: &Exec) -> usize {
    // up to the first stop, or the first failure that may reach the limit
    let mut h = x.evs.len();
    for s in &x.stops {
        h = h.min(s.0);
    }
    if fa(x) != usize::MAX {
        let mut f: Vec<usize> = x.starts.iter().filter_map(|s| s.end).filter(|e| e.3 != 0).map(|e| e.0).collect();
        f.sort();
        if let Some(p) = f.get(fa(x) - 1) {
            h = h.min(*p);
        }
    }
    h
}
fn c12(c: &mut Ck, x: &Exec) {
    let n = name(x);
    let np = x.sess.np as usize;
    let prov = x.spec.prov.as_ref();
    for s in &x.starts {
        let aff = x.sess.tasks[s.idx].affinity;
        let k = x.key(s.idx);
        match &s.how {
            How::Local { console, .. } => {
                if np == 0 {
                    c.v("none", format!("{n}: {k} was started locally without local slots"));
                }
                let bit = if *console { 2 } else { 1 };
                if aff & bit == 0 {
                    c.v("queue", format!("{n}: {k} with affinity {aff:#x} was started locally (console {console})"));
                }
            }
            How::Remote { client, .. } => {
                let rt = prov.map_or(0, |p| p.clients[*client].rt);
                if aff.checked_shr(rt).unwrap_or(0) & 1 == 0 {
                    c.v("queue", format!("{n}: {k} with affinity {aff:#x} was given to a worker for queue {rt}"));
                }
            }
            How::Fail => {
                if (aff & 3 == 0 || np == 0) && !x.sess.tasks[s.idx].pre_fails {
                    c.v("queue", format!("{n}: {k} with affinity {aff:#x} was started locally"));
                }
            }
        }
    }
    let (mut norm, mut cons) = (0usize, 0usize);
    let mut full = false;
    for (p, e) in x.evs.iter().enumerate() {
        match &e.ev {
            Ev::Spawn { console, .. } => {
                if *console {
                    cons += 1
                } else {
                    norm += 1
                }
                full |= norm == np;
                if norm > np {
                    c.v("over", format!("{n}: {norm} local tasks at once, {np} allowed"));
                }
                if cons > 1 {
                    c.v("console", format!("{n}: {cons} tasks on the console at once"));
                }
            }
            Ev::Exit { pid, .. } => {
                if let Some(s) = x.starts.iter().find(|s| matches!(s.how, How::Local { pid: q, .. } if q == *pid) && s.pos < p) {
                    if matches!(s.how, How::Local { console: true, .. }) {
                        cons = cons.saturating_sub(1)
                    } else {
                        norm = norm.saturating_sub(1)
                    }
                }
            }
            _ => {}
        }
    }
    c.relevant |= full || prov.is_some() || x.starts.iter().any(|s| matches!(s.how, How::Local { console: true, .. }));
    // nothing waits while there is a free slot for it
    if x.spec.rate != 0 || x.evs.iter().any(|e| matches!(&e.ev, Ev::Resp { what, .. } if what == "ratelimit")) {
        return;
    }
    let (need, sat, bl) = (x.needed(), x.satisfied(), x.blocked());
    let h = horizon(x);
    let hang = x.evs.iter().position(|e| matches!(e.ev, Ev::Hang));
    let mut at: Vec<usize> = (1..x.evs.len()).filter(|p| x.evs[*p].epoch > x.evs[*p - 1].epoch && *p <= h).collect();
    at.extend(hang);
    for p in at {
        let ready = ready_at(x, p, &need, &sat, &bl);
        if ready.is_empty() {
            continue;
        }
        let run = |console: bool| {
            x.starts
                .iter()
                .filter(|s| s.pos < p && !ended(s, p) && matches!(s.how, How::Local { console: q, .. } if q == console))
                .count()
        };
        let mut idle: HashMap<usize, usize> = HashMap::new();
        for e in &x.evs[..p] {
            match &e.ev {
                Ev::Req { client, what, .. } if what == "start" => {
                    idle.insert(*client, 1);
                }
                Ev::Resp { client, what, .. } | Ev::Refused { client, what } if what == "start" => {
                    idle.remove(client);
                }
                Ev::Dropped { client } => {
                    idle.remove(client);
                }
                // a released job gets nothing any more
                Ev::Marked { rep, .. } => {
                    idle.retain(|c, _| !prov.map_or(false, |p| rep.contains(&p.clients[*c].jobid)));
                }
                _ => {}
            }
        }
        for i in &ready {
            let aff = x.sess.tasks[*i].affinity;
            let k = x.key(*i);
            let t = x.evs[p - 1].t / MS;
            if aff & 1 != 0 && run(false) < np {
                c.v("idle", format!("{n}: at {t}ms {k} waits although only {} of {np} slots are taken", run(false)));
            }
            if aff & 2 != 0 && np > 0 && run(true) == 0 {
                c.v("idle-console", format!("{n}: at {t}ms {k} waits although the console is free"));
            }
            for ci in idle.keys() {
                let rt = prov.map_or(0, |p| p.clients[*ci].rt);
                if aff.checked_shr(rt).unwrap_or(0) & 1 != 0 {
                    c.v("idle-worker", format!("{n}: at {t}ms {k} waits although worker {ci} asks for work"));
                }
            }
        }
    }
}

fn depth(x: &Exec, i: usize) -> u32 {
    x.deps(i).map(|d| 1 + depth(x, d)).max().unwrap_or(0)
}
fn c13(c: &mut Ck, x: &Exec) {
    let (need, sat, bl) = (x.needed(), x.satisfied(), x.blocked());
    let h = horizon(x);
    for s in &x.starts {
        if s.pos >= h || s.epoch == 0 {
            continue;
        }
        // ready when everything had come to rest before this epoch, and not started in it
        let from = x.evs.iter().position(|v| v.epoch >= s.epoch).unwrap_or(0);
        let to = rest(x, s.epoch);
        let r0 = ready_at(x, from, &need, &sat, &bl);
        let r1 = ready_at(x, to, &need, &sat, &bl);
        let queue = match &s.how {
            How::Local { console, .. } => u32::from(*console),
            How::Remote { client, .. } => x.spec.prov.as_ref().map_or(0, |p| p.clients[*client].rt),
            How::Fail => continue,
        };
        for i in r0.intersection(&r1) {
            if x.sess.tasks[*i].affinity.checked_shr(queue).unwrap_or(0) & 1 != 0 {
                c.relevant = true;
                if depth(x, *i) > depth(x, s.idx) {
                    c.v(
                        "priority",
                        format!("{}: {} was started while the deeper {} was waiting", name(x), x.key(s.idx), x.key(*i)),
                    );
                }
            }
        }
    }
}

// ----------------------------------------------------------------------------- C14

fn graph_size(x: &Exec) -> BTreeSet<usize> {
    let (sat, bl) = (x.satisfied(), x.blocked());
    x.needed()
        .into_iter()
        .filter(|i| !sat.contains(i) && !bl.contains(i) && !downstream_of_blocked(x, *i))
        .collect()
}
/// queue -> (ready, inflight), tasks that never became ready
fn counts(x: &Exec, pos: usize, g: &BTreeSet<usize>, sat: &BTreeSet<usize>) -> (BTreeMap<u64, (u32, u32)>, u32) {
    let mut q: BTreeMap<u64, (u32, u32)> = BTreeMap::new();
    let none = BTreeSet::new();
    let ready = ready_at(x, pos, g, sat, &none);
    let mut ever = ready.len();
    for i in &ready {
        q.entry(x.sess.tasks[*i].affinity).or_default().0 += 1;
    }
    for s in x.starts.iter().filter(|s| s.pos < pos) {
        ever += 1;
        if !ended(s, pos) {
            q.entry(x.sess.tasks[s.idx].affinity).or_default().1 += 1;
        }
    }
    (q, (g.len() - ever.min(g.len())) as u32)
}
fn c14(c: &mut Ck, x: &Exec) {
    let n = name(x);
    for p in x.panics() {
        c.v("panic", format!("{n}: {p}"));
    }
    let (sat, g) = (x.satisfied(), graph_size(x));
    let h = horizon(x);
    let lost = x.starts.iter().any(|s| s.lost) || x.evs.iter().any(|e| matches!(e.ev, Ev::Dropped { .. }));
    let mut last: Option<(u32, u64, usize)> = None;
    let mut per: HashMap<usize, (usize, u64)> = HashMap::new();
    let mut replies: Vec<(u32, u64, Vec<(u64, u32, u32)>)> = vec![];
    // when tasks became ready: (position, time)
    let mut news: Vec<(usize, u64, u32)> = vec![];
    let mut seen = ready_at(x, 0, &g, &sat, &BTreeSet::new());
    for (p, e) in x.evs.iter().enumerate() {
        let r = ready_at(x, p + 1, &g, &sat, &BTreeSet::new());
        if r.iter().any(|i| !seen.contains(i)) {
            news.push((p, e.t, e.epoch));
        }
        seen.extend(r);
    }
    let h_epoch = x.evs.get(h).map_or(u32::MAX, |e| e.epoch);
    for (p, e) in x.evs.iter().enumerate() {
        let Ev::Status { client, want, sent, timemin, timeout, reply } = &e.ev else { continue };
        c.relevant = true;
        // always: at most as many as there are
        let sum: u64 = reply.queues.iter().map(|q| q.1 as u64 + q.2 as u64).sum();
        if sum > g.len() as u64 {
            c.v("excess", format!("{n}: {sum} tasks in {:?}, there are {}", reply.queues, g.len()));
        }
        if reply.total != g.len() as u32 {
            c.v("total", format!("{n}: {} tasks reported, there are {}", reply.total, g.len()));
        }
        if e.epoch >= h_epoch {
            continue;
        }
        // every state within this epoch, and the one it began in, is acceptable
        let from = x.evs.iter().position(|v| v.epoch >= e.epoch).unwrap_or(0);
        let to = rest(x, e.epoch);
        let st: Vec<_> = (from..=to).map(|q| counts(x, q, &g, &sat)).collect();
        let get = |s: &BTreeMap<u64, (u32, u32)>, a: u64| s.get(&a).copied().unwrap_or((0, 0));
        let mut affs: BTreeSet<u64> = st.iter().flat_map(|s| s.0.keys().copied()).collect();
        affs.extend(reply.queues.iter().map(|q| q.0));
        if !lost {
            for a in affs {
                let (rr, ri) = reply.queues.iter().find(|q| q.0 == a).map_or((0, 0), |q| (q.1, q.2));
                let lo = st.iter().map(|s| get(&s.0, a)).fold((u32::MAX, u32::MAX), |m, v| (m.0.min(v.0), m.1.min(v.1)));
                let hi = st.iter().map(|s| get(&s.0, a)).fold((0, 0), |m, v| (m.0.max(v.0), m.1.max(v.1)));
                // one that could not be started was in flight for a moment
                let fails = x.evs[from..=to.min(x.evs.len() - 1)]
                    .iter()
                    .filter(|v| matches!(&v.ev, Ev::SpawnFail { idx, .. } if x.sess.tasks[*idx].affinity == a))
                    .count() as u32;
                if rr < lo.0 || rr > hi.0 || ri < lo.1 || ri > hi.1 + fails {
                    c.v(
                        "counts",
                        format!("{n}: at {}ms queue {a:#x} reported as {rr} ready, {ri} in flight; is {lo:?} to {hi:?}", e.t / MS),
                    );
                }
            }
            let lo = st.iter().map(|s| s.1).min().unwrap();
            let hi = st.iter().map(|s| s.1).max().unwrap();
            if reply.unready < lo || reply.unready > hi {
                c.v("unready", format!("{n}: {} not yet ready tasks reported, there are {lo} to {hi}", reply.unready));
            }
        }
        // what recent tasks took: of those that succeeded on a runner
        if !lost && x.starts.iter().all(|s| matches!(s.how, How::Local { .. })) {
            let mut fin: Vec<(usize, u64)> = x
                .starts
                .iter()
                .filter(|s| !s.killed)
                .filter_map(|s| s.end.filter(|d| d.3 == 0).map(|d| (d.0, (d.1 - s.t) / MS)))
                .collect();
            fin.sort();
            let some = fin.iter().take_while(|f| f.0 < from).count();
            let ok = (some..=fin.iter().take_while(|f| f.0 < to).count()).any(|k| {
                let mean = fin[..k].iter().map(|f| f.1).sum::<u64>() / k.max(1) as u64;
                reply.avg_ms.abs_diff(mean) <= 3
            });
            if fin.len() < 100 && !ok {
                c.v("average", format!("{n}: at {}ms tasks reported to take {}ms, the successful ones took {fin:?}", e.t / MS, reply.avg_ms));
            }
        }
        // how fast tasks have been started, lately
        let t0 = x.evs[0].t;
        if !lost && e.t >= t0 + SEC && x.starts.iter().all(|s| matches!(s.how, How::Local { .. } | How::Fail)) {
            let at = |t: u64| (-(((e.t.max(t) - t) as f64) / SEC as f64) / 30.0).exp();
            let sum = |to: usize| x.starts.iter().filter(|s| s.pos < to).map(|s| at(s.t) / 30.0).sum::<f64>() / (1.0 - at(t0));
            let (lo, hi) = (sum(from), sum(to));
            if reply.rate < lo * 0.98 || reply.rate > hi * 1.02 {
                c.v("launched", format!("{n}: at {}ms a rate of {} starts a second reported, is {lo} to {hi}", e.t / MS, reply.rate));
            }
        }
        // the version goes up when tasks become ready
        if let Some((le, lt, lp)) = last {
            if e.epoch > le {
                if reply.etag < lt {
                    c.v("etag-back", format!("{n}: version {} after {lt}", reply.etag));
                }
                if reply.etag == lt && news.iter().any(|w| w.0 > lp && w.2 > le && w.2 < e.epoch) {
                    c.v("etag-same", format!("{n}: version still {lt} although tasks became ready"));
                }
            }
        }
        last = Some((e.epoch, reply.etag, p));
        // and only then; what a version has been given out for does not grow
        let first = x.evs.first().map_or(0, |v| v.epoch);
        for (re, rt, _) in &replies {
            if *re <= first || *re >= e.epoch || news.iter().any(|w| w.2 >= *re && w.2 <= e.epoch) {
                continue;
            }
            if reply.etag > *rt {
                c.v("etag-invented", format!("{n}: version {} after {rt} although nothing became ready", reply.etag));
            }
        }
        for (re, rt, rq) in &replies {
            if lost || *re <= first || *re >= e.epoch || reply.etag != *rt || news.iter().any(|w| w.2 == e.epoch) {
                continue;
            }
            for (a, r, i) in reply.queues.iter() {
                let before = rq.iter().find(|q| q.0 == *a).map_or(0, |q| q.1 + q.2);
                if r + i > before {
                    c.v("etag-grown", format!("{n}: version {rt} reported with {before} tasks in queue {a:#x}, later with {}", r + i));
                }
            }
        }
        replies.push((e.epoch, reply.etag, reply.queues.clone()));
        // long polls
        let t0 = *sent;
        let (tmin, tout) = (t0 + timemin * MS, t0 + timeout * MS);
        if e.t + 2 * MS < tmin {
            c.v("poll-early", format!("{n}: answered after {}ms, asked for at least {timemin}ms", (e.t - t0) / MS));
        }
        if e.t > tmin.max(tout) + 5 * MS {
            c.v("poll-late", format!("{n}: answered after {}ms, asked for {timemin}..{timeout}ms", (e.t - t0) / MS));
        }
        if reply.etag <= *want && e.t + 2 * MS < tout {
            c.v("poll-empty", format!("{n}: answered after {}ms of {timeout}ms without news", (e.t - t0) / MS));
        }
        if let Some((lp, le)) = per.get(client) {
            if le == want {
                if let Some(w) = news.iter().filter(|w| w.0 > *lp).map(|w| w.1).min() {
                    if e.t > tmin.max(w).max(t0) + 5 * MS {
                        c.v("poll-asleep", format!("{n}: tasks became ready at {}ms, the poll was answered at {}ms", w / MS, e.t / MS));
                    }
                }
            }
        }
        per.insert(*client, (rest(x, e.epoch).saturating_sub(1), reply.etag));
    }
}

// ----------------------------------------------------------------------------- C15 .. C18

fn c15(c: &mut Ck, x: &Exec) {
    let n = name(x);
    if !x.stops.iter().all(|s| s.3 == Stop::ProvExit) {
        return;
    }
    let end = x.stops.first().map_or(u64::MAX, |s| s.1);
    let fin = x.log.iter().flatten().filter_map(|l| match l {
        L::Finished { key, status, t, .. } => Some((key.clone(), *status, *t)),
        _ => None,
    });
    let fin: HashMap<String, (i32, u64)> = fin.map(|f| (f.0, (f.1, f.2))).collect();
    let now = x.evs.last().map_or(0, |e| e.t);
    for s in &x.starts {
        let How::Remote { client, txn } = s.how else { continue };
        let k = x.key(s.idx);
        if s.end.is_some() && !s.lost {
            // it reported: so it was alive, and that is what counts
            c.relevant = true;
            if let (Some(f), Some(st)) = (fin.get(k), natural(x, s)) {
                if f.0 != st {
                    c.v("status", format!("{n}: {k} ended with {st}, on record {}", f.0));
                }
            }
            continue;
        }
        // contacts in time order
        let seen: Vec<u64> = std::iter::once(s.t)
            .chain(x.evs.iter().filter_map(|e| match &e.ev {
                Ev::Req { client: q, what, txn: w } if *q == client && *w == txn && what == "ping" => Some(e.t),
                _ => None,
            }))
            .collect();
        match fin.get(k) {
            Some((st, t)) if *t < end => {
                c.relevant = true;
                // (a ping that arrives in the very moment may be too late)
                let contact = seen.iter().filter(|c| **c < *t).max().copied().unwrap_or(s.t);
                if *st == 0 {
                    c.v("success", format!("{n}: {k} is on record as successful but its worker never said so"));
                }
                if *t < contact + 30 * SEC {
                    c.v("early", format!("{n}: {k} given up {}ms after the last sign of life", (*t - contact) / MS));
                }
                if *t > contact + 40 * SEC {
                    c.v("late", format!("{n}: {k} given up {}ms after the last sign of life", (*t - contact) / MS));
                }
            }
            _ => {
                let contact = seen.iter().max().copied().unwrap_or(s.t);
                if now.min(end) > contact + 40 * SEC {
                    c.v("never", format!("{n}: {k} not given up {}ms after the last sign of life", (now.min(end) - contact) / MS));
                }
            }
        }
    }
    // what the worker wanted to be said about it
    if let (Some(p), true) = (&x.spec.prov, x.stops.is_empty() && x.returned()) {
        for cl in p.clients.iter().filter(|c| !c.msg.is_empty()) {
            let given_up = x
                .starts
                .iter()
                .filter(|s| match s.how {
                    How::Remote { client, .. } => p.clients[client].msg == cl.msg && (s.end.is_none() || s.lost) && fin.get(x.key(s.idx)).is_some(),
                    _ => false,
                })
                .count();
            let shown = count_of(&x.so.console, &cl.msg);
            if shown != given_up {
                c.v("message", format!("{n}: {:?} shown {shown} times for {given_up} tasks that were given up", cl.msg));
            }
        }
    }
    returns(c, x);
    complete(c, x);
}

fn c16(c: &mut Ck, x: &Exec) {
    let n = name(x);
    let Some(prov) = &x.spec.prov else { return };
    for e in x.evs.iter() {
        if let Ev::Secret { idx } = &e.ev {
            c.v("secret", format!("{n}: {} is given the token", x.sess.tasks[*idx].key));
        }
    }
    // pair each refused request with what it was
    let mut open: HashMap<usize, usize> = HashMap::new();
    for (p, e) in x.evs.iter().enumerate() {
        match &e.ev {
            Ev::Req { client, what, .. } if what.starts_with("bad/") => {
                open.insert(*client, p);
            }
            Ev::Resp { client, what, code, txn } if what.starts_with("bad/") => {
                let Some(rp) = open.remove(client) else { continue };
                c.relevant = true;
                // which op was it?
                let nth = x.evs[..=rp]
                    .iter()
                    .filter(|v| matches!(&v.ev, Ev::Req { client: q, what: w, .. } if q == client && w.starts_with("bad/")))
                    .count();
                let Some(Op::Bad { path, token, wrong, jobid, .. }) =
                    prov.clients[*client].ops.iter().filter(|o| matches!(o, Op::Bad { .. })).nth(nth - 1)
                else {
                    continue;
                };
                // is the transaction open, and whose is it?
                let owner = x.starts.iter().find(|s| matches!(s.how, How::Remote { txn: t, .. } if t == *txn));
                let opened = owner.map_or(false, |s| s.pos < rp && s.end.map_or(true, |q| q.2 >= x.evs[rp].epoch));
                let own_job = owner.and_then(|s| match s.how {
                    How::Remote { client, .. } => Some(prov.clients[client].jobid.clone()),
                    _ => None,
                });
                let stop = x.stops.iter().any(|s| s.0 < p);
                if stop {
                    continue;
                }
                let mut want: Vec<u16> = vec![];
                if !token {
                    want.push(401);
                    if *wrong > 0 {
                        want.push(400);
                    }
                } else {
                    match path.as_str() {
                        "/begun" | "/end" => {
                            if jobid.is_none() {
                                want.push(400);
                            }
                            if !opened || (path == "/end" && jobid.is_some() && *jobid != own_job) {
                                want.push(404);
                            }
                            if want.is_empty() {
                                want.push(200);
                            }
                        }
                        "/ping" => want.push(200),
                        "/start" => {
                            if jobid.is_none() {
                                want.push(400)
                            } else {
                                want.extend([200, 410, 429])
                            }
                        }
                        _ => want.push(200),
                    }
                }
                if !want.contains(code) {
                    c.v(
                        "code",
                        format!("{n}: {path} token={token} job={jobid:?} open={opened}: answered {code}, expected {want:?}"),
                    );
                }
            }
            Ev::Resp { client, what, code, .. } if what == "start" && prov.clients[*client].rt >= 64 => {
                if !(*code == 404 || *code == 410 || *code == 429) {
                    c.v("type", format!("{n}: a worker for queue {} is answered {code}", prov.clients[*client].rt));
                }
            }
            Ev::Resp { client, what, code, txn } if what == "end" || what == "begun" => {
                // an honest worker is served, as long as it is not overdue
                let Some(s) = x.starts.iter().find(|s| s.how == (How::Remote { client: *client, txn: *txn })) else { continue };
                let first = x.evs[..p].iter().filter(|v| matches!(&v.ev, Ev::Resp { client: q, what: w, txn: t, .. } if q == client && w == what && t == txn)).count() == 0;
                if *code != 200 && e.t < s.t + 30 * SEC && !x.stops.iter().any(|q| q.0 < p) && first && limit(x).is_none() {
                    // 410/429 on a report only concern the request for more work
                    if !(what == "end" && matches!(code, 410 | 429)) {
                        c.v("refused", format!("{n}: /{what} of worker {client} for its task was answered {code}"));
                    }
                }
            }
            _ => {}
        }
    }
    returns(c, x);
    complete(c, x);
    // each task has the end its own worker reported
    for s in &x.starts {
        if let (Some(st), How::Remote { .. }) = (natural(x, s), &s.how) {
            let log: Vec<i32> = x.finished_log().iter().filter(|f| f.0 == x.key(s.idx)).map(|f| f.1).collect();
            if x.returned() && log != vec![st] {
                c.v("status", format!("{n}: {} ended with {st}, on record {log:?}", x.key(s.idx)));
            }
        }
    }
    let mut txns = HashSet::new();
    for s in &x.starts {
        if let How::Remote { txn, .. } = s.how {
            if !txns.insert(txn) {
                c.v("txn", format!("{n}: transaction {txn} was used twice"));
            }
        }
    }
}

fn c17(c: &mut Ck, x: &Exec) {
    let n = name(x);
    let Some(prov) = &x.spec.prov else { return };
    let mut gone: HashMap<String, usize> = HashMap::new();
    for (p, e) in x.evs.iter().enumerate() {
        match &e.ev {
            Ev::Marked { req, rep, .. } => {
                for j in rep {
                    c.relevant = true;
                    if !req.contains(j) {
                        c.v("stray", format!("{n}: {j} released, which was not asked for"));
                    }
                    gone.insert(j.clone(), p);
                    // it must not be working on anything
                    for s in &x.starts {
                        if let How::Remote { client, .. } = s.how {
                            if prov.clients[client].jobid == *j && s.epoch < e.epoch && s.end.map_or(true, |q| q.2 > e.epoch) && !s.lost {
                                let t = s.t;
                                if e.t < t + 30 * SEC {
                                    c.v("busy", format!("{n}: job {j} released for cancellation while it runs {}", x.key(s.idx)));
                                }
                            }
                        }
                    }
                }
                // and what is idle and not asking is released
                for j in req {
                    if rep.contains(j) {
                        continue;
                    }
                    let touched = x.evs.iter().any(|v| match &v.ev {
                        Ev::Req { client, .. } => prov.clients[*client].jobid == *j && v.epoch <= e.epoch,
                        _ => false,
                    });
                    if !touched {
                        c.v("kept", format!("{n}: job {j} never asked for work and is not released"));
                    }
                    // also if it was released before: the reply may have been lost
                    let busy = x.starts.iter().any(|s| match s.how {
                        How::Remote { client, .. } => {
                            prov.clients[client].jobid == *j && s.epoch <= e.epoch && (s.lost || s.end.map_or(true, |q| q.2 >= e.epoch))
                        }
                        _ => false,
                    });
                    if touched && !busy {
                        c.v("kept", format!("{n}: job {j} has nothing to do and is not released"));
                    }
                }
            }
            Ev::Handout { client, key, .. } => {
                let j = &prov.clients[*client].jobid;
                if gone.contains_key(j) {
                    c.v("handout", format!("{n}: {key} was given to job {j} after its release for cancellation"));
                }
            }
            _ => {}
        }
    }
    returns(c, x);
    complete(c, x);
}

fn c18(c: &mut Ck, x: &Exec) {
    let n = name(x);
    // rate over time: initial, then as set by the administrator
    let mut rates: Vec<(u64, u64)> = vec![(x.evs[0].t, x.spec.rate as u64)];
    let clients = x.spec.prov.as_ref().map_or(0, |p| p.clients.len());
    if let Some(p) = &x.spec.prov {
        for (ci, cl) in p.clients.iter().enumerate() {
            let mut want = cl.ops.iter().filter_map(|o| match o {
                Op::AdminRate(r) => Some(*r as u64),
                _ => None,
            });
            for e in x.evs {
                if let Ev::Req { client, what, .. } = &e.ev {
                    if *client == ci && what == "ratelimit" {
                        rates.push((e.t, want.next().unwrap_or(0)));
                    }
                }
            }
        }
    }
    rates.sort_by_key(|r| r.0);
    let slack = x.sess.np as u64 + u64::from(x.sess.np > 0) + clients as u64;
    let end = x.evs.last().unwrap().t;
    let mut ts: Vec<u64> = x.starts.iter().map(|s| s.t).collect();
    ts.sort();
    for (i, (from, r)) in rates.iter().enumerate() {
        let to = rates.get(i + 1).map_or(end + 1, |n| n.0);
        if *r == 0 {
            continue;
        }
        let w: Vec<u64> = ts.iter().copied().filter(|t| *t > *from && *t < to).collect();
        c.relevant |= w.len() > 2;
        for a in 0..w.len() {
            for b in a..w.len() {
                let dt = w[b] - w[a];
                let cnt = (b - a + 1) as u64;
                if cnt > r * dt / SEC + 1 + r + slack {
                    c.v("rate", format!("{n}: {cnt} starts within {}ms at a limit of {r}/s", dt / MS));
                }
            }
        }
        // and it is a rate, not a stop
        if rates.len() == 1 && x.returned() && x.stops.is_empty() && c.sc.name.starts_with("rate") {
            let serial: u64 = x.starts.iter().map(|s| x.sess.tasks[s.idx].min_ms * MS).sum();
            let need = (ts.len() as u64 + slack + r) * SEC / r + serial + 5 * SEC;
            if ts.last().map_or(0, |t| t - from) > need {
                c.v("slow", format!("{n}: {} starts took {}ms at a limit of {r}/s", ts.len(), (ts.last().unwrap() - from) / MS));
            }
        }
    }
    if x.spec.rate == 0 && rates.len() == 1 {
        return;
    }
    returns(c, x);
    complete(c, x);
}

// ----------------------------------------------------------------------------- C28

/// One task in the hands of the worker program.
struct Job {
    txn: u32,
    given: (usize, u64),
    spawn: Option<(usize, u64, u32)>,
    begun: Option<(usize, u64, serde_json::Value)>,
    ends: Vec<(usize, u64, serde_json::Value)>,
    done: Option<(usize, u64, i32, Option<Vec<u8>>)>,
    terms: Vec<(usize, u64, i32, bool)>,
}
fn c28(c: &mut Ck, x: &Exec, r: &RunOut) {
    let sc = c.sc;
    let Some(p) = &sc.script else { return };
    let Op::Real(args, _) = &x.spec.prov.as_ref().unwrap().clients[0].ops[0] else { return };
    let spec = &x.spec.prov.as_ref().unwrap().clients[0];
    let secs = |o: &str| args.iter().position(|a| a == o).and_then(|i| args.get(i + 1)).and_then(|s| s.parse::<u64>().ok());
    let lost = spec.msg.replace("%j", &spec.jobid);
    let t0 = x.evs[0].t;
    let max = secs("--max-time-accepting-tasks").map(|s| t0 + s * SEC);
    let deadline = secs("--duration").map(|s| t0 + if s > 120 { (s - 60) * SEC } else { s * SEC });
    for e in x.evs.iter() {
        if let Ev::Secret { idx } = &e.ev {
            c.v("secret", format!("{} is given the token of the worker", x.sess.tasks[*idx].key));
        }
    }
    for m in x.panics() {
        c.v("panic", m);
    }
    if let Some(a) = r.abort {
        c.v(if a == AbortWhy::TooLong { "busy" } else { "stuck" }, format!("the worker does not come to an end: {a:?}"));
        return;
    }
    let mut jobs: Vec<Job> = vec![];
    let mut usr1: Option<(usize, u32)> = None;
    let mut slurm: Option<(usize, u64)> = None;
    let mut msg = String::new();
    let mut exit: Option<(usize, u64)> = None;
    let mut pongs: Vec<(usize, u64)> = vec![];
    let mut trouble: Option<(usize, u64)> = None;
    // when a refusal or an error reaches the worker
    let mut bad: Option<(u64, u32)> = None;
    let mut starts = 0;
    let mut sent: Vec<(usize, u64)> = vec![];
    for (pos, e) in x.evs.iter().enumerate() {
        match &e.ev {
            Ev::WResp { what, next: Some(n), .. } => {
                c.relevant = true;
                if x.evs[..pos].iter().rev().find_map(|f| match &f.ev {
                    Ev::WFault { kind, what: w, .. } if w == what => Some(*kind == Fault::NoReply && f.t == e.t),
                    Ev::WReq { what: w, .. } if w == what => Some(false),
                    _ => None,
                }) == Some(true)
                {
                    continue;
                }
                jobs.push(Job { txn: *n, given: (pos, e.t), spawn: None, begun: None, ends: vec![], done: None, terms: vec![] });
            }
            Ev::WSpawn { pid, idx, argv, stdio, fds, .. } => {
                let t = &x.sess.tasks[*idx];
                let txn = 100 + *idx as u32;
                let mut want = vec!["/sim/task".to_string(), t.key.clone()];
                want.extend(t.extra_args.iter().cloned());
                if *argv != want {
                    c.v("argv", format!("{} was run as {argv:?}", t.key));
                }
                let mut f: Vec<i32> = fds.clone();
                f.sort();
                let mut wf = vec![3];
                wf.extend(t.fd_input.iter().map(|f| f.0));
                wf.sort();
                if *stdio != [0, 1, 1] || f != wf {
                    c.v("fds", format!("{} runs with standard streams {stdio:?} and descriptors {f:?}", t.key));
                }
                match jobs.iter_mut().find(|j| j.txn == txn) {
                    None => c.v("spawn", format!("{} is run without having been given out", t.key)),
                    Some(j) if j.spawn.is_some() => c.v("spawn", format!("{} is run twice", t.key)),
                    Some(j) => j.spawn = Some((pos, e.t, *pid)),
                }
            }
            Ev::WSpawnFail { idx, .. } => {
                if let Some(j) = jobs.iter_mut().find(|j| j.txn == 100 + *idx as u32) {
                    j.spawn = Some((pos, e.t, 0));
                    j.done = Some((pos, e.t, 13, None));
                }
            }
            Ev::WDone { pid, status, read, idx: Some(_), .. } => {
                if let Some(j) = jobs.iter_mut().find(|j| j.spawn.map(|s| s.2) == Some(*pid)) {
                    j.done = Some((pos, e.t, *status, read.clone()));
                }
            }
            Ev::WSignal { pid, sig, alive, .. } => {
                if let Some(j) = jobs.iter_mut().find(|j| j.spawn.map(|s| s.2) == Some(*pid)) {
                    j.terms.push((pos, e.t, *sig, *alive));
                }
            }
            Ev::WAct { what, .. } if what.starts_with("Usr1") => usr1 = Some((pos, e.epoch)),
            Ev::WAct { what, .. } if what.starts_with("Slurm") => {
                // what was written
                if let Some(Act::Slurm(_, m)) = x.spec.acts.iter().map(|a| &a.act).find(|a| format!("{a:?}") == *what) {
                    if slurm.is_none() {
                        msg += m;
                    }
                    if slurm.is_none() && (msg.contains("CANCELLED") || msg.contains("FAILED") || msg.contains("ERROR")) {
                        slurm = Some((pos, e.t));
                    }
                }
            }
            Ev::WReq { what, txn, body, auth, job, .. } => {
                if auth.as_deref() != Some("Bearer dG9rZW4=") {
                    c.v("auth", format!("/{what} is sent with the authorization {auth:?}"));
                }
                if job.as_deref() != Some(spec.jobid.as_str()) {
                    c.v("job", format!("/{what} is sent for job {job:?}"));
                }
                if body.is_null() {
                    c.v("body", format!("/{what} cannot be decoded"));
                    continue;
                }
                let sr = if what == "start" { Some(body) } else { body.get("start_request").filter(|s| !s.is_null()) };
                if let Some(sr) = sr {
                    if sr["runnertypeid"] != spec.rt || sr["disconnect_error_message"] != lost.as_str() {
                        c.v("body", format!("asks for a task with {sr}"));
                    }
                    if usr1.map_or(false, |u| u.1 < e.epoch) {
                        c.v("usr1", format!("/{what} asks for another task after SIGUSR1"));
                    }
                    if what == "end" && max.map_or(false, |m| e.t > m) {
                        c.v("max", format!("/{what} asks for another task although the time for that is over"));
                    }
                } else if what == "end" && usr1.is_none() && max.map_or(true, |m| e.t < m) && slurm.is_none() {
                    c.v("leaves", "/end does not ask for another task although nothing says so".into());
                }
                match what.as_str() {
                    "start" => {
                        starts += 1;
                        if starts > 1 {
                            c.v("start", "/start is sent twice".into());
                        }
                    }
                    "ping" => {
                        sent.push((pos, e.t));
                        if !jobs.iter().any(|j| j.txn == *txn) {
                            c.v("ping", format!("a ping for {txn}, which it was not given"));
                        }
                    }
                    "begun" => match jobs.iter_mut().find(|j| j.txn == *txn) {
                        None => c.v("begun", format!("/begun for {txn}, which it was not given")),
                        Some(j) if j.begun.is_some() => c.v("begun", format!("/begun is sent twice for {txn}")),
                        Some(j) => j.begun = Some((pos, e.t, body.clone())),
                    },
                    "end" => match jobs.iter_mut().find(|j| j.txn == *txn) {
                        None => c.v("end", format!("/end for {txn}, which it was not given")),
                        Some(j) => j.ends.push((pos, e.t, body.clone())),
                    },
                    _ => c.v("path", format!("sends /{what}")),
                }
            }
            Ev::WResp { what, code, txn, .. } => {
                if what == "ping" && *code == 200 {
                    pongs.push((pos, e.t));
                }
                if *code != 200 && bad.is_none() {
                    bad = Some((e.t, *txn));
                }
            }
            Ev::WFault { kind, txn, .. } => {
                if trouble.is_none() {
                    trouble = Some((pos, e.t));
                }
                if matches!(kind, Fault::Unreachable | Fault::NoReply) && bad.is_none() {
                    bad = Some((e.t, *txn));
                }
            }
            Ev::WExit { alive, .. } => {
                exit = Some((pos, e.t));
                if !alive.is_empty() {
                    c.v("orphans", format!("the worker is gone and leaves the processes {alive:?} behind"));
                }
            }
            _ => {}
        }
    }
    let Some(exit) = exit else {
        c.v("exit", "the worker does not end".into());
        return;
    };
    for (k, j) in jobs.iter().enumerate() {
        let idx = (j.txn - 100) as usize;
        let t = &x.sess.tasks[idx];
        let n = &t.key;
        let Some(sp) = j.spawn else {
            c.v("lost", format!("{n} was given out and not run"));
            continue;
        };
        match &j.begun {
            None => c.v("begun", format!("no /begun for {n}")),
            Some(b) => {
                if b.2["pid"] != sp.2 || b.0 < sp.0 || b.1 > sp.1 + SEC {
                    c.v("begun", format!("{n} runs as {}, /begun says {}", sp.2, b.2));
                }
            }
        }
        if j.ends.len() > 1 {
            c.v("end", format!("/end is sent {} times for {n}", j.ends.len()));
        }
        let own = j.done.as_ref();
        let due = deadline.filter(|d| sp.1 <= *d || sp.2 != 0).map(|d| d.max(sp.1));
        for e in &j.ends {
            let b = &e.2;
            let err = b["stderr"].as_str().unwrap_or("").to_string();
            let late = due.map_or(false, |d| d < e.1 && own.map_or(true, |o| o.1 > d));
            let gasp = slurm.map_or(false, |s| s.0 < e.0) && b["status"] == -15 && err.contains(msg.trim_end());
            if gasp {
                if !b["start_request"].is_null() {
                    c.v("slurm", "asks for another task when the job is over".into());
                }
                let overdue = j.terms.iter().any(|q| q.2 == 15 && q.3 && q.0 < slurm.unwrap().0 && due == Some(q.1));
                if overdue && !err.contains("CANCELLED DUE TO TIME LIMIT") {
                    c.v("why", format!("/end for {n} does not say that its time was over: {err:?}"));
                }
                continue;
            }
            match own {
                Some(o) if o.0 < e.0 => {
                    if b["status"] != o.2 {
                        c.v("status", format!("{n} ended with {}, /end says {}", o.2, b["status"]));
                    }
                    let out = String::from_utf8_lossy(&t.stdout).to_string();
                    let killed = j.terms.iter().any(|s| s.3 && s.0 < o.0) && !t.ignore_term;
                    if sp.2 != 0 && !killed {
                        let er = String::from_utf8_lossy(&t.stderr).to_string();
                        if b["stdout"] != out.as_str() || !err.ends_with(er.as_str()) {
                            c.v("output", format!("what {n} printed is not what /end says"));
                        }
                        let want = serde_json::to_value(parse_values(&t.fd3)).unwrap();
                        if b["values"] != want {
                            c.v("values", format!("{n} gave {want}, /end says {}", b["values"]));
                        }
                        let said = err.contains("CANCELLED DUE TO TIME LIMIT");
                        if due.map_or(true, |d| d != o.1) && said != late {
                            c.v("why", format!("/end for {n} says {err:?}"));
                        }
                    }
                    if let (Some((_, d)), Some(rd)) = (&t.fd_input, &o.3) {
                        if t.consume == Consume::Eof && !killed && d != rd {
                            c.v("input", format!("{n} was given {} bytes of {}", rd.len(), d.len()));
                        }
                    }
                }
                _ => c.v("early", format!("/end is sent for {n} before it has ended")),
            }
        }
        // the signal at the deadline, once, and none without a reason
        let terms: Vec<_> = j.terms.iter().filter(|s| s.2 == 15 && s.3).collect();
        let leaving = exit.1;
        if let Some(d) = due {
            let alive = sp.2 != 0 && own.map_or(true, |o| o.1 > d) && leaving > d;
            let before_end = terms.iter().filter(|s| s.1 == d).count();
            let handled = j.begun.as_ref().map_or(false, |_| bad.map_or(true, |b| b.0 > d)) && trouble.is_none() && slurm.map_or(true, |s| s.1 > d);
            if alive && handled && before_end != 1 {
                c.v("deadline", format!("{n} got {before_end} SIGTERM at its deadline"));
            }
        }
        for s in &j.terms {
            let at_due = due.map_or(false, |d| s.1 >= d);
            let why = at_due || slurm.map_or(false, |q| q.0 < s.0) || trouble.is_some();
            if s.3 && s.2 == 15 && !why {
                c.v("killed", format!("{n} got a signal for no reason"));
            }
            if s.3 && s.2 == 9 && !terms.iter().any(|q| q.1 + 5 * SEC <= s.1) {
                c.v("sigkill", format!("{n} was killed without having had 5 s to end"));
            }
            if s.3 && s.2 == 9 && !terms.iter().any(|q| q.0 < s.0 && q.1 + 6 * SEC >= s.1) {
                c.v("sigkill", format!("{n} was killed long after it was told to end"));
            }
        }
        // one for the deadline, one for the end of the job, one when the worker leaves
        let both = due.is_some() && slurm.is_some();
        if terms.len() > if both { 3 } else { 2 } {
            c.v("flood", format!("{n} got {} SIGTERM", terms.len()));
        }
        // one end for everyone when all is well
        if trouble.is_none() && slurm.is_none() && j.ends.len() != 1 {
            c.v("end", format!("/end is sent {} times for {n}", j.ends.len()));
        }
        // promptly
        if let (Some(o), Some(e), None, None) = (own, j.ends.first(), trouble, slurm) {
            if e.1 > o.1 + SEC {
                c.v("slow", format!("{n} ended, /end is sent {}ms later", (e.1 - o.1) / MS));
            }
        }
        // sign of life while it has the task and nothing went wrong
        let over = j.ends.first().map_or(exit.1, |e| e.1).min(exit.1);
        let till = trouble.map_or(over, |t| t.1.min(over)).min(slurm.map_or(over, |s| s.1));
        let mut last = j.given.1;
        for s in sent.iter().map(|s| s.1).filter(|s| *s >= j.given.1 && *s <= till).chain([till]) {
            if s > last + p.ping_ms * MS + SEC {
                c.v("ping", format!("no ping for {}ms while it has {n}", (s - last) / MS));
            }
            last = s;
        }
        // the next one only when this one is over
        if let Some(q) = jobs.get(k + 1) {
            if own.map_or(true, |o| o.0 > q.given.0) {
                c.v("two", format!("has {n} and another task"));
            }
        }
    }
    // out of touch: 2 ping intervals after the last answer it stops, at once when it is refused
    let stopped = |from: u64, only: Option<u32>, what: &str, c: &mut Ck| {
        for j in jobs.iter().filter(|j| only.map_or(true, |t| t == j.txn)) {
            let Some(sp) = j.spawn else { continue };
            if sp.2 == 0 || sp.1 > from {
                continue;
            }
            let over = j.done.as_ref().map_or(false, |o| o.1 <= from);
            if !over && !j.terms.iter().any(|s| s.1 <= from + SEC) {
                c.v("out_of_touch", format!("{} goes on although {what}", x.key((j.txn - 100) as usize)));
            }
        }
        if x.evs.iter().any(|e| matches!(&e.ev, Ev::WReq { what, .. } if what == "start" || what == "begun") && e.t > from + SEC) {
            c.v("goes_on", format!("the worker takes on more although {what}"));
        }
    };
    // an answer about a task that it is already done with does not matter any more
    if let Some((b, txn)) = bad {
        if jobs.iter().find(|j| j.txn == txn).map_or(true, |j| j.ends.first().map_or(true, |e| e.1 > b)) {
            stopped(b, Some(txn), "it was turned down", c);
        }
    }
    let cut = x.evs.iter().position(|e| matches!(&e.ev, Ev::WFault { kind: Fault::Partition, .. }));
    if let Some(cut) = cut {
        let heard = x.evs.iter().rev().find(|e| matches!(e.ev, Ev::WResp { .. })).map_or(t0, |e| e.t);
        let given = jobs.iter().any(|j| j.given.0 < cut);
        if given {
            stopped(heard + 3 * p.ping_ms * MS, None, "nothing has been heard for three ping intervals", c);
        }
    }
    if let Some(s) = slurm {
        for j in &jobs {
            let Some(sp) = j.spawn else { continue };
            let over = j.done.as_ref().map_or(false, |o| o.0 < s.0);
            if sp.2 == 0 || sp.0 > s.0 || over || bad.is_some() || trouble.is_some() {
                continue;
            }
            if j.begun.as_ref().map_or(true, |b| b.0 > s.0) {
                continue;
            }
            if !j.terms.iter().any(|q| q.1 <= s.1 + SEC) {
                c.v("slurm", format!("{} is not told that the job is over", x.key((j.txn - 100) as usize)));
            }
            if !j.ends.iter().any(|e| e.2["status"] == -15 && e.2["stderr"].as_str().map_or(false, |m| m.contains(msg.trim_end())) && e.1 <= s.1 + SEC) {
                c.v("slurm", format!("the message about the end of the job is not passed on for {}", x.key((j.txn - 100) as usize)));
            }
        }
    }
}

/// Real workers and the real controller together.
fn c27(c: &mut Ck, x: &Exec, r: &RunOut) {
    let n = name(x);
    let Some(prov) = &x.spec.prov else { return };
    returns(c, x);
    if r.abort == Some(AbortWhy::TooLong) {
        c.v("busy", format!("{n} does not come to an end"));
    }
    if !x.returned() {
        return;
    }
    struct P {
        t: u64,
        client: Option<usize>,
        pid: u32,
        idx: usize,
        end: Option<(usize, u64, i32, Option<Vec<u8>>)>,
        sig: bool,
    }
    let mut ps: Vec<P> = vec![];
    let mut hurt = vec![false; prov.clients.len()];
    let mut slurm = vec![false; prov.clients.len()];
    let sat = x.satisfied();
    let mut order = vec![];
    for (pos, e) in x.evs.iter().enumerate() {
        let mk = |idx: usize, client, pid| P { t: e.t, client, pid, idx, end: None, sig: false };
        match &e.ev {
            Ev::WSpawn { client, pid, idx, argv, .. } => {
                let t = &x.sess.tasks[*idx];
                let mut want = vec!["/sim/task".to_string(), t.key.clone()];
                want.extend(t.extra_args.iter().cloned());
                if *argv != want {
                    c.v("argv", format!("{n}: {} was run as {argv:?}", t.key));
                }
                order.push((*idx, pos));
                ps.push(mk(*idx, Some(*client), *pid));
            }
            Ev::Spawn { pid, idx, .. } => {
                order.push((*idx, pos));
                ps.push(mk(*idx, None, *pid))
            }
            Ev::WSpawnFail { client, idx, .. } => {
                order.push((*idx, pos));
                let mut p = mk(*idx, Some(*client), 0);
                p.end = Some((pos, e.t, 13, None));
                ps.push(p)
            }
            Ev::SpawnFail { idx, .. } => order.push((*idx, pos)),
            Ev::WDone { pid, status, read, .. } => {
                for p in ps.iter_mut().filter(|p| p.client.is_some() && p.pid == *pid) {
                    p.end = Some((pos, e.t, *status, read.clone()));
                }
            }
            Ev::Exit { pid, status, .. } => {
                for p in ps.iter_mut().filter(|p| p.client.is_none() && p.pid == *pid) {
                    p.end = Some((pos, e.t, *status, None));
                }
            }
            Ev::WSignal { pid, alive: true, .. } | Ev::Signal { pid, .. } => ps.iter_mut().filter(|p| p.pid == *pid).for_each(|p| p.sig = true),
            Ev::WFault { client, kind, .. } if !matches!(kind, Fault::Slow(_)) => hurt[*client] = true,
            Ev::WAct { client, what } if what.starts_with("WKill") => hurt[*client] = true,
            Ev::WAct { client, what } if what.starts_with("Slurm") => slurm[*client] = true,
            Ev::WExit { client, alive, .. } => {
                let crashed = x.evs[..pos].iter().any(|e| matches!(&e.ev, Ev::WAct { client: k, what } if k == client && what.starts_with("WKill")));
                if !alive.is_empty() && !crashed {
                    c.v("orphans", format!("{n}: worker {client} is gone and leaves the processes {alive:?} behind"));
                }
            }
            _ => {}
        }
    }
    // never twice, never early
    for (i, t) in x.sess.tasks.iter().enumerate() {
        let k = order.iter().filter(|o| o.0 == i).count();
        c.relevant |= k > 0;
        if k > 1 {
            c.v("twice", format!("{n}: {} was run {k} times", t.key));
        }
    }
    for (i, pos) in &order {
        for d in x.deps(*i) {
            let ok = ps.iter().any(|p| p.idx == d && p.end.as_ref().map_or(false, |e| e.2 == 0 && e.0 < *pos));
            if !sat.contains(&d) && !ok {
                c.v("order", format!("{n}: {} was started before its dependency {} had succeeded", x.key(*i), x.key(d)));
            }
        }
    }
    // the record against the truth
    let calm = x.stops.is_empty();
    let fin = x.finished_log();
    for l in x.log.iter().flatten() {
        match l {
            L::Started { key, pid, jobid, .. } => {
                let Some(p) = x.idx_of(key).and_then(|i| ps.iter().find(|p| p.idx == i)) else { continue };
                let Some(k) = p.client else { continue };
                if !hurt[k] && calm && !slurm[k] && (*pid != p.pid || *jobid != prov.clients[k].jobid) {
                    c.v("who", format!("{n}: {key} runs as {} in {}, on record as {pid} in {jobid:?}", p.pid, prov.clients[k].jobid));
                }
            }
            L::Finished { key, status, values, t, .. } => {
                let Some(i) = x.idx_of(key) else { continue };
                let p = ps.iter().find(|p| p.idx == i);
                let truth = p.and_then(|p| p.end.as_ref()).map(|e| e.2);
                if *status == 0 && truth != Some(0) {
                    c.v("success", format!("{n}: {key} is on record as a success, really {truth:?}"));
                }
                let Some(p) = p else { continue };
                let sound = p.client.map_or(true, |k| !hurt[k]) && calm;
                let told = p.client.map_or(false, |k| slurm[k]) && *status == -15;
                if sound && !told && truth != Some(*status) {
                    c.v("status", format!("{n}: {key} ended with {truth:?}, on record as {status}"));
                }
                if sound && !told && !p.sig && p.pid != 0 {
                    let want: Vec<BTreeMap<String, String>> = parse_values(&x.sess.tasks[i].fd3).into_iter().map(|m| m.into_iter().collect()).collect();
                    if *values != want {
                        c.v("values", format!("{n}: {key} gave {want:?}, on record {values:?}"));
                    }
                    if let (Some((_, d)), Some((_, _, _, Some(rd)))) = (&x.sess.tasks[i].fd_input, &p.end) {
                        if truth.map_or(false, |t| t >= 0) && d != rd {
                            c.v("input", format!("{n}: {key} was given {} bytes of {}", rd.len(), d.len()));
                        }
                    }
                    let txt = String::from_utf8_lossy(&x.sess.tasks[i].stdout).to_string();
                    if !txt.is_empty() && count_of(&x.so.console, &txt) != 1 {
                        c.v("output", format!("{n}: what {key} printed is shown {} times", count_of(&x.so.console, &txt)));
                    }
                }
                // given up: what is left of it is stopped by its worker
                let crashed = p.client.map_or(false, |k| x.evs.iter().any(|e| matches!(&e.ev, Ev::WAct { client, what } if *client == k && what.starts_with("WKill"))));
                let over = p.end.as_ref().map_or(x.evs.last().map_or(0, |e| e.t), |e| e.1);
                if !crashed && over > *t + 12 * SEC {
                    c.v("survivor", format!("{n}: {key} still runs long after it was given up"));
                }
            }
            _ => {}
        }
    }
    // what is reported
    if let Some(Ok((fails, keys))) = &x.result {
        let bad = fin.iter().filter(|f| f.1 != 0).count();
        if *fails as usize != bad {
            c.v("count", format!("{n}: reports {fails} failures, {bad} on record"));
        }
        let a: BTreeSet<&String> = keys.iter().collect();
        let b: BTreeSet<&String> = fin.iter().map(|f| &f.0).collect();
        if a != b || keys.len() != b.len() {
            c.v("list", format!("{n}: reports {keys:?}, on record {b:?}"));
        }
    }
    complete(c, x);
}

// ----------------------------------------------------------------------------- C19 .. C21

fn c19(c: &mut Ck, x: &Exec) {
    let n = name(x);
    let size = graph_size(x).len() as u64;
    let fin = x.finished_log();
    for (i, t) in x.sess.tasks.iter().enumerate().take(x.ntasks) {
        let pre: Vec<usize> = x.evs.iter().enumerate().filter(|(_, e)| matches!(e.ev, Ev::Pre { idx } if idx == i)).map(|(p, _)| p).collect();
        let post: Vec<(usize, u32, u32, u64)> = x
            .evs
            .iter()
            .enumerate()
            .filter_map(|(p, e)| match e.ev {
                Ev::Post { idx, success, runcount, ntasks } if idx == i => Some((p, success, runcount, ntasks)),
                _ => None,
            })
            .collect();
        let k = &t.key;
        let s = x.start_of(i);
        let f: Vec<i32> = fin.iter().filter(|f| f.0 == *k).map(|f| f.1).collect();
        let given = x.evs.iter().any(|e| matches!(e.ev, Ev::Dropped { .. })) || !x.stops.is_empty();
        if t.pre {
            c.relevant |= !pre.is_empty();
            if t.pre_fails {
                if let Some(a) = x.starts.iter().find(|s| s.idx == i && s.how != How::Fail) {
                    c.v("pre-ignored", format!("{n}: {k} was started ({:?}) although its preamble failed", a.how));
                }
                if f.iter().any(|f| *f == 0) {
                    c.v("pre-success", format!("{n}: {k} is on record as successful although its preamble failed"));
                }
            }
            if pre.len() > 1 {
                c.v("pre-twice", format!("{n}: preamble of {k} called {} times", pre.len()));
            }
            if let Some(s) = s {
                if pre.is_empty() {
                    c.v("pre-missing", format!("{n}: preamble of {k} was not called"));
                } else if pre[0] > s.pos {
                    c.v("pre-late", format!("{n}: preamble of {k} called after its start"));
                }
            } else if !pre.is_empty() && !given && limit(x).is_none() {
                c.v("pre-stray", format!("{n}: preamble of {k} called, but it was not started"));
            }
        }
        if t.post && x.returned() {
            c.relevant |= !post.is_empty();
            if post.len() != f.len() {
                c.v("post-count", format!("{n}: postamble of {k} called {} times, it ended {} times", post.len(), f.len()));
            }
            for (p, ok, rc, nt) in &post {
                if f.len() == 1 && (f[0] == 0) != (*ok == 1) {
                    c.v("post-status", format!("{n}: postamble of {k} told {ok}, its status was {}", f[0]));
                }
                if x.ei == 0 && x.so.runcount.get(i).map(|r| r.0) != Some(*rc) {
                    c.v("post-run", format!("{n}: postamble of {k} told run {rc}"));
                }
                if *nt != size {
                    c.v("post-size", format!("{n}: postamble of {k} told {nt} tasks, there are {size}"));
                }
                if let Some(s) = s {
                    if *p < s.pos || s.end.map_or(false, |e| *p < e.0 && natural(x, s).is_some()) {
                        c.v("post-early", format!("{n}: postamble of {k} called before its end"));
                    }
                    if natural(x, s).map_or(false, |st| (st == 0) != (*ok == 1)) {
                        c.v("post-actual", format!("{n}: postamble of {k} told {ok}, it ended with {:?}", s.end));
                    }
                }
                // dependents start afterwards
                for d in &x.starts {
                    if x.sess.tasks[d.idx].deps.contains(&(i as u32)) && d.pos < *p {
                        c.v("post-order", format!("{n}: {} was started before the postamble of {k}", x.key(d.idx)));
                    }
                }
            }
        }
    }
    for p in x.panics() {
        c.v("panic", format!("{n}: {p}"));
    }
}

fn count_of(hay: &str, needle: &str) -> usize {
    if needle.is_empty() {
        return 0;
    }
    hay.matches(needle).count()
}
fn progress_numbers(s: &str) -> Vec<(u32, u32)> {
    let f = |r: &str| {
        let (p, q) = r.split_once("] ")?.0.split_once('/')?;
        Some((p.parse().ok()?, q.parse().ok()?))
    };
    s.match_indices('[').filter_map(|(i, _)| f(&s[i + 1..])).collect()
}
/// Where "[i/n] " ends, for each one.
fn progress(s: &str) -> Vec<usize> {
    s.match_indices('[')
        .filter_map(|(i, _)| {
            let r = &s[i + 1..];
            let (a, _) = r.split_once("] ")?;
            let (p, q) = a.split_once('/')?;
            (p.parse::<u32>().is_ok() && q.parse::<u32>().is_ok()).then_some(i + 1 + a.len() + 2)
        })
        .collect()
}
fn c20(c: &mut Ck, x: &Exec) {
    let n = name(x);
    if x.so.screen != x.so.mirror && !(x.so.screen.is_empty() && x.so.mirror == x.so.console.as_bytes()) {
        let (a, b) = (&x.so.screen, &x.so.mirror);
        let k = a.iter().zip(b).take_while(|p| p.0 == p.1).count();
        c.v("mirror", format!("{n}: the console got {} bytes, log.txt {}; they differ from byte {k} on", a.len(), b.len()));
    }
    returns(c, x);
    let multi = x.sess.execs.len() > 1;
    for s in &x.starts {
        let t = &x.sess.tasks[s.idx];
        let k = &t.key;
        let mut argv = vec!["/sim/task".to_string(), k.clone()];
        argv.extend(t.extra_args.iter().cloned());
        if let Ev::Spawn { argv: a, stdio, console, .. } = &x.evs[s.pos].ev {
            if *a != argv {
                c.v("argv", format!("{n}: {k} started as {a:?}, should be {argv:?}"));
            }
            let want = if *console { [2, 2, 2] } else { [0, 1, 1] };
            if *stdio != want {
                c.v("stdio", format!("{n}: {k} (console {console}) started with stdio {stdio:?}"));
            }
        }
        if let Ev::Handout { argv: a, fd_input, .. } = &x.evs[s.pos].ev {
            if *a != argv {
                c.v("argv", format!("{n}: {k} given out as {a:?}, should be {argv:?}"));
            }
            if *fd_input != t.fd_input {
                c.v("input", format!("{n}: {k} given out with input {fd_input:?}"));
            }
        }
        let Some(st) = natural(x, s) else { continue };
        c.relevant = true;
        if let How::Local { console, .. } = s.how {
            if let Some((p, ..)) = s.end {
                if let Ev::Exit { read, .. } = &x.evs[p].ev {
                    match (&t.fd_input, read) {
                        (None, None) => {}
                        (Some((_, b)), Some(r)) => {
                            if (t.consume == Consume::Eof || t.consume == Consume::All && t.min_ms > 0) && r != b {
                                c.v("input", format!("{n}: {k} got {} bytes of its input, {} expected", r.len(), b.len()));
                            }
                        }
                        (a, b) => c.v("input", format!("{n}: {k} input {:?}, pipe {:?}", a.is_some(), b.is_some())),
                    }
                }
            }
            if console || multi || !quiet(x) {
                continue;
            }
        }
        if multi || !quiet(x) || s.how == How::Fail {
            continue;
        }
        for (what, b) in [("stdout", &t.stdout), ("stderr", &t.stderr)] {
            let txt = String::from_utf8_lossy(b).to_string();
            if !txt.is_empty() && count_of(&x.so.console, &txt) != 1 {
                c.v("output", format!("{n}: {what} of {k} shown {} times", count_of(&x.so.console, &txt)));
            }
        }
        let shown = display(t);
        if st == 0 {
            if !progress(&x.so.console).iter().any(|p| x.so.console[*p..].starts_with(&format!("{shown}\n"))) && !shown.contains('\n') {
                c.v("line", format!("{n}: the success of {k} is not shown"));
            }
        } else if !x.so.console.lines().any(|l| l.contains(&format!("wrk/{k}.{:x}: {shown}", x.so.runcount[s.idx].0))) && !shown.contains('\n') {
            c.v("line", format!("{n}: the failure of {k} is not shown"));
        }
    }
    // progress counts what has ended, out of what there is to do
    if quiet(x) && !multi && x.so.log_before == 0 {
        let nums: Vec<(u32, u32)> = progress_numbers(&x.so.console);
        let size = graph_size(x).len() as u32;
        let fin = x.finished_log();
        let want: Vec<(u32, u32)> = (1..).zip(&fin).filter(|f| f.1 .1 == 0).map(|f| (f.0, size)).collect();
        let own = x.sess.tasks.iter().any(|t| t.stdout.contains(&b'[') || t.stderr.contains(&b'['));
        if !own && nums != want {
            c.v("count", format!("{n}: progress shown as {nums:?}, was {want:?}"));
        }
    }
    if quiet(x) && !multi {
        let good = x.finished_log().iter().filter(|f| f.1 == 0).count();
        let lines = progress(&x.so.console).len();
        let own: usize = x.sess.tasks.iter().filter(|t| t.stdout.starts_with(b"[") || t.stderr.starts_with(b"[")).count();
        if own == 0 && lines != good {
            c.v("progress", format!("{n}: {lines} progress lines, {good} successes"));
        }
    }
    // what the record keeps of it
    for l in x.log.iter().flatten() {
        if let L::Finished { key, values, .. } = l {
            let Some(i) = x.idx_of(key) else { continue };
            let Some(s) = x.start_of(i) else { continue };
            if natural(x, s).is_some() && s.how != How::Fail {
                let want: Vec<BTreeMap<String, String>> =
                    parse_values(&x.sess.tasks[i].fd3).into_iter().map(|m| m.into_iter().collect()).collect();
                if *values != want {
                    c.v("values", format!("{n}: {key} wrote {want:?}, on record {values:?}"));
                }
            }
        }
    }
}

fn c21(c: &mut Ck, x: &Exec) {
    let n = name(x);
    let Some(prov) = &x.spec.prov else { return };
    // (request position, response position, value)
    let mut rate: Vec<(usize, usize, u32)> = vec![(0, 0, x.spec.rate)];
    let mut info: Vec<(usize, usize, Option<String>)> = vec![(0, 0, prov.info.clone())];
    for (ci, cl) in prov.clients.iter().enumerate() {
        let mut rs = cl.ops.iter().filter_map(|o| match o {
            Op::AdminRate(r) => Some(*r),
            _ => None,
        });
        let mut is = cl.ops.iter().filter_map(|o| match o {
            Op::AdminInfo(s) => Some(s.clone()),
            _ => None,
        });
        for (p, e) in x.evs.iter().enumerate() {
            if let Ev::Req { client, what, .. } = &e.ev {
                if *client != ci {
                    continue;
                }
                let done = x
                    .evs
                    .iter()
                    .enumerate()
                    .skip(p)
                    .find(|(_, v)| matches!(&v.ev, Ev::Resp { client: q, what: w, .. } | Ev::Refused { client: q, what: w } if *q == ci && w == what))
                    .map_or(usize::MAX, |v| v.0);
                if what == "ratelimit" {
                    if let Some(r) = rs.next() {
                        rate.push((p, done, r));
                    }
                } else if what == "provisioner_info" {
                    if let Some(i) = is.next() {
                        info.push((p, done, i));
                    }
                }
            }
        }
    }
    for (p, e) in x.evs.iter().enumerate() {
        let Ev::Status { client, sent, reply, .. } = &e.ev else { continue };
        c.relevant |= rate.len() + info.len() > 2;
        // acceptable: any update not superseded by one that was confirmed before the request
        let q = x
            .evs
            .iter()
            .take(p)
            .rposition(|v| matches!(&v.ev, Ev::Req { client: r, .. } if r == client) && v.t == *sent)
            .unwrap_or(p);
        let mut ok_r = HashSet::new();
        let mut ok_i = HashSet::new();
        for u in &rate {
            // (the reply to an update is no older than that update)
            let own = rate.iter().any(|w| w.0 == q && q > u.1);
            if u.0 < p && !own && !rate.iter().any(|w| w.0 > u.1 && w.1 < q) {
                ok_r.insert(u.2);
            }
        }
        for u in &info {
            let own = info.iter().any(|w| w.0 == q && q > u.1);
            if u.0 < p && !own && !info.iter().any(|w| w.0 > u.1 && w.1 < q) {
                ok_i.insert(u.2.clone());
            }
        }
        if !ok_r.contains(&reply.ratelimit) {
            c.v("rate", format!("{n}: rate limit {} reported, set was {ok_r:?}", reply.ratelimit));
        }
        if !ok_i.contains(&reply.info) {
            c.v("info", format!("{n}: info {:?} reported, set was {ok_i:?}", reply.info));
        }
    }
    for p in x.panics() {
        c.v("panic", format!("{n}: {p}"));
    }
    returns(c, x);
    complete(c, x);
}

#[allow(dead_code)]
fn unused(_: &Out) {}

// ------------------------------------------------------------------------------- C22

/// The whole lines of a log that a killed process left behind.
fn whole_lines(b: &[u8]) -> Vec<String> {
    b.split_inclusive(|c| *c == b'\n')
        .filter(|l| serde_json::from_slice::<serde_json::Value>(l).is_ok())
        .map(|l| String::from_utf8_lossy(l).trim_end().to_string())
        .collect()
}
fn c22(c: &mut Ck, r: &RunOut) {
    let mut runs: HashMap<String, usize> = HashMap::new();
    let mut spawned: Vec<Vec<String>> = vec![];
    for e in &r.trace {
        match &e.ev {
            Ev::Session(_) => spawned.push(vec![]),
            Ev::Spawn { key, .. } | Ev::SpawnFail { key, .. } => spawned.last_mut().unwrap().push(key.clone()),
            _ => {}
        }
    }
    for (si, s) in r.sess.iter().enumerate() {
        let spec = &c.sc.sessions[si];
        let n = format!("session {si}");
        let before = whole_lines(&s.raw_before);
        let log = facts::parse_log(&before);
        c.relevant |= !s.raw_before.is_empty() && s.raw_before.last() != Some(&b'\n');
        if let Some(rd) = &s.read_before {
            match rd {
                Ok(v) if *v == before => {}
                Ok(v) => c.v("read", format!("{n}: a reader finds {} entries in the log that holds {} whole ones", v.len(), before.len())),
                Err(e) => c.v("read", format!("{n}: the log cannot be read: {e}")),
            }
        }
        if let Some(e) = &s.new_err {
            c.v("open", format!("{n} cannot be opened: {e}"));
            return;
        }
        for e in &r.trace {
            if let Ev::Panic { msg, loc } = &e.ev {
                c.v("panic", format!("{msg} at {loc}"));
                return;
            }
        }
        if s.execs.len() < spec.execs.len() {
            c.v("noreturn", format!("{n}: execute did not return"));
            return;
        }
        // what is known of every task
        let st = facts::statuses(&log);
        let roots = log.iter().rev().find_map(|l| match l {
            L::Header { roots, .. } => Some(roots.clone()),
            _ => None,
        });
        let _ = roots;
        let mut state: Vec<i32> = vec![]; // 1 done, 0 failed or blocked
        let mut want_runs: Vec<String> = vec![];
        for (i, t) in spec.tasks.iter().enumerate() {
            let want = match st.get(&t.key).map(|x| &x.0) {
                None => 0,
                Some(St::Ready(rc)) => *rc,
                Some(St::Started(rc)) => rc + 1,
                Some(St::Done { rc, ok, .. }) => rc + u32::from(!ok),
            };
            let done = matches!(st.get(&t.key), Some((St::Done { ok: true, .. }, _)));
            let failed = matches!(st.get(&t.key), Some((St::Done { ok: false, .. }, _)));
            match s.runcount.get(i) {
                Some((rc, dir)) if *rc == want && dir.is_some() == done => {}
                x => c.v("runcount", format!("{n}: the run number of {} is {x:?} where the log says {want}", t.key)),
            }
            if done {
                state.push(1);
            } else if t.deps.iter().any(|d| state[*d as usize] == 0) || (failed && !spec.rerun) {
                state.push(0);
            } else {
                let k = runs.get(&t.key).copied().unwrap_or(0);
                let out = if k == 0 { Some(&t.out) } else { t.later.get(k - 1).or(Some(&t.out)) };
                state.push(i32::from(out == Some(&Out::Exit(0))));
                want_runs.push(t.key.clone());
            }
        }
        let mut got = spawned.get(si).cloned().unwrap_or_default();
        for k in &got {
            *runs.entry(k.clone()).or_insert(0) += 1;
        }
        got.sort();
        want_runs.sort();
        if got != want_runs {
            c.v("runs", format!("{n}: ran {got:?} where the log left {want_runs:?} to run"));
        }
        // the log goes on after its whole lines
        let after: Vec<&[u8]> = s.raw_after.split_inclusive(|c| *c == b'\n').collect();
        for (i, l) in after.iter().enumerate() {
            let t = String::from_utf8_lossy(l).trim_end().to_string();
            if i < before.len() && t != before[i] {
                c.v("lost", format!("{n}: line {i} of the log was {} and is {t}", before[i]));
                break;
            }
            if l.last() != Some(&b'\n') || matches!(facts::parse_line(&t), L::Bad(_)) {
                c.v("garbled", format!("{n}: line {i} of the log is {t}"));
                break;
            }
        }
        if after.len() <= before.len() {
            c.v("lost", format!("{n}: the log has {} lines where it had {}", after.len(), before.len()));
        }
        if let Some(rd) = &s.read_after {
            if !matches!(rd, Ok(v) if v.len() == after.len()) {
                c.v("read", format!("{n}: reading the log again gives {:?}", rd.as_ref().map(|v| v.len())));
            }
        }
    }
}

/// Disks fill up: what goes wrong with a write must not hang or bring down the workflow, must be told
/// to the caller, must not put anything untrue on record, and must not keep the next session from going on.
fn c30(c: &mut Ck, xs: &[Exec], r: &RunOut) {
    let mut wrong: Vec<(usize, crate::faultio::Io)> = vec![];
    let mut exited: HashMap<String, Vec<i32>> = HashMap::new();
    for e in &r.trace {
        if let Ev::Io { target, kind, .. } = &e.ev {
            wrong.push((*target, *kind));
        }
    }
    c.relevant |= !wrong.is_empty();
    let log_full = wrong.iter().any(|w| *w == (0, crate::faultio::Io::Full));
    for x in xs.iter().filter(|x| x.si == 0) {
        let n = name(x);
        if x.evs.iter().any(|e| matches!(e.ev, Ev::Hang)) {
            c.v("hang", format!("{n} never returns after {wrong:?}"));
            return;
        }
        for p in x.panics() {
            c.v("panic", format!("{n}: {p} after {wrong:?}"));
        }
        if r.panicked || r.abort.is_some() {
            c.v("panic", format!("{n}: did not return properly: {:?} after {wrong:?}", r.abort));
            return;
        }
        let inside = x.evs.iter().filter(|e| matches!(e.ev, Ev::Io { target: 0, kind: crate::faultio::Io::Full, .. })).count();
        if inside > 0 && log_full && matches!(x.result, Some(Ok(_))) {
            c.v("silent", format!("{n} returned {:?} although the log could not be written", x.result));
        }
        if let (true, Some(Err(e))) = (wrong.is_empty(), &x.result) {
            c.v("error", format!("{n} raised {e}"));
        }
        if !x.alive.is_empty() {
            c.v("alive", format!("{n}: returned {:?} and left {:?} running", x.result, x.alive));
        }
        if matches!(x.result, Some(Ok(_))) {
            returns(c, x);
            complete(c, x);
        }
        for s in &x.starts {
            if let Some(e) = s.end {
                exited.entry(x.key(s.idx).to_string()).or_default().push(e.3);
            }
        }
    }
    // what is on record is true
    let Some(s0) = r.sess.first() else { return };
    let whole = whole_lines(&s0.raw_after);
    let log = facts::parse_log(&whole);
    for (i, l) in log.iter().enumerate() {
        match l {
            L::Bad(b) => c.v("garbled", format!("line {i} of the log is {b} after {wrong:?}")),
            L::Finished { key, status: 0, .. } if !exited.get(key).map_or(false, |v| v.contains(&0)) => {
                c.v("untrue", format!("{key} is on record as finished well, it ended with {:?}", exited.get(key)))
            }
            _ => {}
        }
    }
    // and the next session goes on from there
    let Some(s1) = r.sess.get(1) else { return };
    if let Some(e) = &s1.new_err {
        c.v("open", format!("the log cannot be opened again: {e} after {wrong:?}"));
        return;
    }
    let done: BTreeSet<String> =
        facts::statuses(&log).iter().filter(|s| matches!(s.1 .0, St::Done { ok: true, .. })).map(|s| s.0.clone()).collect();
    for x in xs.iter().filter(|x| x.si == 1) {
        returns(c, x);
        let ran: BTreeSet<String> = x.starts.iter().map(|s| x.key(s.idx).to_string()).collect();
        let all: BTreeSet<String> = (0..x.ntasks).map(|i| x.key(i).to_string()).collect();
        let want: BTreeSet<String> = all.difference(&done).cloned().collect();
        if ran != want {
            c.v("again", format!("{}: ran {ran:?} where {done:?} of {all:?} were on record, after {wrong:?}", name(x)));
        }
    }
}

/// What has happened is in the files on disk a quarter of a second later, or when the call returns.
fn c25(c: &mut Ck, x: &Exec) {
    const LAG: u64 = 250_000_000;
    let n = name(x);
    let Some(log) = &x.log else { return };
    let mut sizes: Vec<(u64, u64, u64)> = vec![];
    for e in x.evs {
        if let Ev::Disk { log, con } = &e.ev {
            sizes.push((e.t, *log, *con));
        }
    }
    let end = x.evs.last().map_or(0, |e| e.t);
    let due = |t: u64| (t + LAG).min(end);
    let mut off: u64 = x.so.log.iter().take(x.log_before.len()).map(|l| l.len() as u64 + 1).sum();
    for (i, l) in log.iter().enumerate() {
        off += x.so.log.get(x.log_before.len() + i).map_or(0, |l| l.len() as u64 + 1);
        let find = |k: &str| x.starts.iter().find(|s| x.sess.tasks.get(s.idx).map_or(false, |t| t.key == k));
        let t = match l {
            L::Ready { t, .. } => Some(*t),
            L::Started { key, t, .. } => match find(key) {
                Some(s) if matches!(s.how, How::Remote { .. }) => s.begun.map(|b| b.1),
                Some(s) => Some(s.t.min(*t)),
                None => Some(*t),
            },
            L::Finished { key, t, .. } => match find(key) {
                Some(s) if s.refused || s.lost => Some(*t),
                Some(s) => s.end.map(|e| e.1.min(*t)).or(Some(*t)),
                None => Some(*t),
            },
            _ => None,
        };
        let Some(t) = t else { continue };
        let seen = sizes.iter().find(|s| s.1 >= off).map(|s| s.0);
        c.relevant |= t + LAG < end;
        if seen.map_or(true, |s| s > due(t)) {
            c.v("log", format!("{n}: {l:?} of {} ms was in the file at {:?} ms", t / 1_000_000, seen.map(|s| s / 1_000_000)));
        }
    }
    // the display of a success or a failure names the command
    for s in &x.starts {
        let Some((_, t, _, st)) = s.end else { continue };
        if s.refused || s.lost || !x.stops.is_empty() || (st != 0 && fa(x) != usize::MAX) {
            continue;
        }
        let d = display(&x.sess.tasks[s.idx]);
        let k = count_of(&x.so.console, &d);
        if k == 0 && x.returned() {
            c.v("console-missing", format!("{n}: the end of k{} at {} ms was not shown when execute returned", s.idx, t / 1_000_000));
        }
        if k != 1 {
            continue;
        }
        let Some(p) = x.so.console.find(&d) else { continue };
        let p = (p + d.len()) as u64;
        let seen = sizes.iter().find(|v| v.2 >= p).map(|v| v.0);
        c.relevant |= t + LAG < end;
        if seen.map_or(true, |s| s > due(t)) {
            c.v("console", format!("{n}: the end of k{} at {} ms was shown at {:?} ms", s.idx, t / 1_000_000, seen.map(|s| s / 1_000_000)));
        }
    }
    returns(c, x);
}
