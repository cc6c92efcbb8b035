//! Stateless depth-first exploration of every execution of a scenario within its bounds, on a pool
//! of worker processes.
use crate::driver::{self, RunOut};
use crate::oracle;
use crate::sim::{AbortWhy, Scenario};
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Viol {
    pub prop: String,
    /// identifies what fails, independently of the schedule
    pub sig: String,
    pub msg: String,
    pub scenario: Scenario,
    pub plan: Vec<u16>,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub scenarios: u64,
    pub execs: u64,
    pub choices: u64,
    pub states: u64,
    pub abandoned: u64,
    #[serde(default)]
    pub diverged: u64,
    pub points: u64,
    pub capped: u64,
    pub relevant: u64,
    pub max_depth: u64,
    pub samples: Vec<serde_json::Value>,
}
#[derive(Serialize, Deserialize)]
enum Line {
    /// item, round
    Stats(usize, usize, Stats),
    Viol(Viol),
}

const PLAN_MAX: usize = 16384;
#[repr(C)]
struct Slot {
    item: AtomicUsize,
    beat: AtomicU64,
    unwinding: AtomicU32,
    plan_len: AtomicUsize,
    plan: [u16; PLAN_MAX],
}
#[repr(C)]
struct Shared {
    next: AtomicUsize,
    stop: AtomicBool,
    slots: [Slot; 16],
    /// items explored to the end of their bounds
    done: [AtomicBool; ITEMS_MAX],
}
const ITEMS_MAX: usize = 65536;
/// Every item gets a slice of the budget, fewest deviations first, then a slice depth first, and
/// then, in order, all the time that is left.
const ROUNDS: usize = 3;

pub struct Report {
    pub stats: Stats,
    pub distinct: u64,
    pub distinct_relevant: u64,
    pub viols: Vec<Viol>,
    pub timed_out: bool,
}

pub fn trace_hash(r: &RunOut) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for e in &r.trace {
        format!("{:?}", e.ev).hash(&mut h);
    }
    for s in &r.sess {
        for l in &s.log {
            // time stamps are virtual, hence part of the behaviour, but the pid is not
            if !l.starts_with("{\"Header") {
                l.hash(&mut h);
            }
        }
        s.console.hash(&mut h);
    }
    h.finish()
}

pub struct Opts {
    pub prop: String,
    pub workers: usize,
    pub budget: Duration,
    /// signatures (property, prefix) that do not stop the exploration
    pub known: Vec<(String, String)>,
    pub dir: String,
}

fn shards(sc: &Scenario) -> usize {
    if sc.sched.bound >= 2 || sc.sched.points || !sc.cuts.is_empty() || sc.hist.is_some() {
        8
    } else if sc.sched.bound == 1 {
        2
    } else {
        1
    }
}

/// Executions per (scenario, shard).
struct Dfs<'a> {
    sc: &'a Arc<Scenario>,
    shard: usize,
    nshards: usize,
    prop: &'a str,
    dir: &'a str,
    deadline: Instant,
    known: &'a [(String, String)],
    /// explore the executions with the fewest deviations first
    breadth: bool,
}

/// Plans to run: a stack, or, with `breadth`, a queue for each number of deviations.
struct Frontier {
    breadth: bool,
    q: Vec<std::collections::VecDeque<(Vec<u16>, usize, u32)>>,
    len: usize,
    dropped: bool,
}
impl Frontier {
    fn push(&mut self, e: (Vec<u16>, usize, u32)) {
        if self.breadth && self.len > 100_000 {
            self.dropped = true;
            return;
        }
        let k = if self.breadth { e.0.iter().filter(|x| **x != 0).count() } else { 0 };
        while self.q.len() <= k {
            self.q.push(Default::default());
        }
        self.q[k].push_back(e);
        self.len += 1;
    }
    fn pop(&mut self) -> Option<(Vec<u16>, usize, u32)> {
        let breadth = self.breadth;
        let r = self.q.iter_mut().find(|q| !q.is_empty()).and_then(|q| if breadth { q.pop_front() } else { q.pop_back() });
        self.len -= usize::from(r.is_some());
        r
    }
}

impl Dfs<'_> {
    fn run(
        &self,
        st: &mut Stats,
        hashes: &mut HashMap<u64, bool>,
        viols: &mut Vec<Viol>,
        seen: &mut HashSet<String>,
        sh: &Shared,
        slot: &Slot,
    ) -> bool {
        let maxb = self.sc.sched.bound;
        let first = if maxb >= 2 && !self.breadth { 1 } else { maxb };
        let mut execs_here = 0u64;
        for b in first..=maxb {
            let last = b == maxb;
            // (plan, index of the last forced choice + 1, deviations)
            let mut stack = Frontier { breadth: self.breadth, q: vec![], len: 0, dropped: false };
            stack.push((vec![], 0, 0));
            let mut top = true;
            while let Some((plan, from, devs)) = stack.pop() {
                if sh.stop.load(SeqCst) {
                    return false;
                }
                if Instant::now() > self.deadline || execs_here > self.sc.sched.max_execs {
                    if last || b == maxb {
                        st.capped += 1;
                    }
                    return false;
                }
                slot.plan_len.store(plan.len().min(PLAN_MAX), SeqCst);
                unsafe {
                    let p = slot.plan.as_ptr() as *mut u16;
                    std::ptr::copy_nonoverlapping(plan.as_ptr(), p, plan.len().min(PLAN_MAX));
                }
                slot.beat.fetch_add(1, SeqCst);
                execs_here += 1;
                let mut r = driver::run(self.sc, plan.clone(), self.dir);
                // a replayed prefix has to meet the same choices; if the machine got in between, once more
                for _ in 0..4 {
                    if !matches!(r.abort, Some(AbortWhy::Diverged)) {
                        break;
                    }
                    r = driver::run(self.sc, plan.clone(), self.dir);
                }
                if matches!(r.abort, Some(AbortWhy::Diverged)) {
                    // not explored any further, and counted
                    st.diverged += 1;
                    continue;
                }
                let is_root = top;
                top = false;
                // expand
                let choices = &r.choices;
                for i in (from..choices.len()).rev() {
                    let c = &choices[i];
                    let cost = if c.free { 0 } else { 1 };
                    if devs + cost > b {
                        continue;
                    }
                    for alt in (c.chosen + 1..c.n).rev() {
                        if is_root && (i * 31 + alt as usize) % self.nshards != self.shard {
                            continue;
                        }
                        let mut p: Vec<u16> = choices[..i].iter().map(|c| c.chosen).collect();
                        p.push(alt);
                        stack.push((p, i + 1, devs + cost));
                    }
                }
                if !last || (is_root && self.shard != 0) {
                    // counted in the final pass, by shard 0
                    if !last {
                        if let Some(v) = self.judge(&r, st, None, seen) {
                            let stop = v.iter().any(|v| !self.is_known(v));
                            viols.extend(v);
                            if stop {
                                sh.stop.store(true, SeqCst);
                                return false;
                            }
                        }
                    }
                    continue;
                }
                st.execs += 1;
                st.choices += choices.len() as u64;
                st.states += r.trace.len() as u64;
                st.points += r.npoints;
                st.max_depth = st.max_depth.max(choices.len() as u64);
                match r.abort {
                    Some(AbortWhy::Abandoned) => {
                        st.abandoned += 1;
                        continue;
                    }
                    _ => {}
                }
                if let Some(v) = self.judge(&r, st, Some(hashes), seen) {
                    let stop = v.iter().any(|v| !self.is_known(v));
                    viols.extend(v);
                    if stop {
                        sh.stop.store(true, SeqCst);
                        return false;
                    }
                }
            }
            if stack.dropped {
                st.capped += 1;
                return false;
            }
        }
        true
    }
    fn is_known(&self, v: &Viol) -> bool {
        is_known(self.known, v)
    }
    fn judge(
        &self,
        r: &RunOut,
        st: &mut Stats,
        hashes: Option<&mut HashMap<u64, bool>>,
        seen: &mut HashSet<String>,
    ) -> Option<Vec<Viol>> {
        if matches!(r.abort, Some(AbortWhy::Abandoned) | Some(AbortWhy::Diverged)) {
            return None;
        }
        let (vs, relevant) = oracle::check(self.prop, self.sc, r);
        if let Some(hashes) = hashes {
            if relevant {
                st.relevant += 1;
            }
            let h = trace_hash(r);
            let fresh = hashes.insert(h, relevant).is_none();
            if fresh && relevant && st.samples.len() < 2 && r.choices.iter().any(|c| c.chosen != 0) {
                st.samples.push(serde_json::json!({
                    "scenario": self.sc.name,
                    "choices": r.choices.iter().map(|c| c.chosen).collect::<Vec<_>>(),
                    "trace": r.trace.iter().take(60).map(|e| format!("{}ms {:?}", e.t / 1_000_000, e.ev)).collect::<Vec<_>>(),
                }));
            }
        }
        let mut out = vec![];
        for v in vs {
            if seen.insert(format!("{} {}", v.prop, v.sig)) {
                let mut plan: Vec<u16> = r.choices.iter().map(|c| c.chosen).collect();
                while plan.last() == Some(&0) {
                    plan.pop();
                }
                out.push(Viol { prop: v.prop, sig: v.sig, msg: v.msg, scenario: (**self.sc).clone(), plan });
            }
        }
        if out.is_empty() {
            None
        } else {
            Some(out)
        }
    }
}

pub fn is_known(known: &[(String, String)], v: &Viol) -> bool {
    known.iter().any(|(p, s)| *p == v.prop && v.sig.starts_with(s.as_str()))
}

fn worker(scs: &[Arc<Scenario>], items: &[(usize, usize, usize)], o: &Opts, wi: usize, sh: &Shared, deadline: Instant) {
    let dir = format!("{}/w{wi}", o.dir);
    let _ = std::fs::create_dir_all(&dir);
    driver::init_process(&dir);
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(format!("{}/w{wi}.out", o.dir)).unwrap();
    let mut hf = std::fs::OpenOptions::new().append(true).create(true).open(format!("{}/w{wi}.hash", o.dir)).unwrap();
    let slot = &sh.slots[wi];
    loop {
        if sh.stop.load(SeqCst) {
            break;
        }
        let next = sh.next.fetch_add(1, SeqCst);
        let (round, i) = (next / items.len(), next % items.len());
        if round >= ROUNDS {
            break;
        }
        if sh.done[i].load(SeqCst) {
            continue;
        }
        let until = if round + 1 == ROUNDS {
            deadline
        } else {
            if Instant::now() > deadline {
                break;
            }
            let left = (0..items.len()).filter(|i| !sh.done[*i].load(SeqCst)).count().max(1);
            let slice = o.budget.mul_f64(0.3 * o.workers as f64 / if round == 0 { items.len() } else { left } as f64);
            deadline.min(Instant::now() + slice)
        };
        slot.item.store(i + 1, SeqCst);
        let (si, shard, nshards) = items[i];
        let d = Dfs {
            sc: &scs[si],
            shard,
            nshards,
            prop: &o.prop,
            dir: &dir,
            deadline: until,
            known: &o.known,
            breadth: round == 0,
        };
        let mut st = Stats { scenarios: u64::from(shard == 0), ..Default::default() };
        let mut hashes = HashMap::new();
        let mut viols = vec![];
        let mut seen = HashSet::new();
        let complete = d.run(&mut st, &mut hashes, &mut viols, &mut seen, sh, slot);
        for v in viols {
            writeln!(f, "{}", serde_json::to_string(&Line::Viol(v)).unwrap()).unwrap();
        }
        writeln!(f, "{}", serde_json::to_string(&Line::Stats(i, round, st)).unwrap()).unwrap();
        let mut b = Vec::with_capacity(hashes.len() * 13);
        for (h, rel) in hashes {
            b.extend((si as u32).to_le_bytes());
            b.extend(h.to_le_bytes());
            b.push(u8::from(rel));
        }
        hf.write_all(&b).unwrap();
        if complete {
            sh.done[i].store(true, SeqCst);
        }
        slot.item.store(0, SeqCst);
    }
}

fn spawn_worker(f: impl FnOnce()) -> i32 {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
            libc::dup2(n, 0);
            libc::dup2(n, 1);
            if std::env::var("SIM_DEBUG").is_err() {
                libc::dup2(n, 2);
            }
            f();
            libc::_exit(0);
        }
        pid
    }
}

pub fn explore(scs: Vec<Scenario>, o: &Opts) -> Report {
    let t0 = Instant::now();
    let deadline = t0 + o.budget;
    let scs: Vec<Arc<Scenario>> = scs.into_iter().map(Arc::new).collect();
    let mut items: Vec<(usize, usize, usize)> = vec![];
    for (i, s) in scs.iter().enumerate() {
        let k = shards(s);
        for j in 0..k {
            items.push((i, j, k));
        }
    }
    assert!(items.len() <= ITEMS_MAX);
    let sh: &'static Shared = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    };
    let _ = std::fs::create_dir_all(&o.dir);
    let n = o.workers.min(16).min(items.len()).max(1);
    let mut pids: Vec<i32> = vec![0; n];
    for wi in 0..n {
        let _ = std::fs::remove_file(format!("{}/w{wi}.out", o.dir));
        let _ = std::fs::remove_file(format!("{}/w{wi}.hash", o.dir));
        pids[wi] = spawn_worker(|| worker(&scs, &items, o, wi, sh, deadline));
    }
    let mut beats = vec![(0u64, Instant::now()); n];
    let mut viols: Vec<Viol> = vec![];
    let mut crashes = 0;
    loop {
        let mut live = false;
        for wi in 0..n {
            if pids[wi] == 0 {
                continue;
            }
            live = true;
            let mut st = 0;
            let r = unsafe { libc::waitpid(pids[wi], &mut st, libc::WNOHANG) };
            let slot = &sh.slots[wi];
            let stuck = {
                let b = slot.beat.load(SeqCst);
                if b != beats[wi].0 {
                    beats[wi] = (b, Instant::now());
                }
                beats[wi].1.elapsed() > Duration::from_secs(60)
            };
            if r == 0 && stuck {
                unsafe { libc::kill(pids[wi], libc::SIGKILL) };
                unsafe { libc::waitpid(pids[wi], &mut st, 0) };
            } else if r == 0 {
                continue;
            }
            pids[wi] = 0;
            let ok = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0;
            if ok {
                continue;
            }
            // the process died or is stuck inside an execution: try it again alone
            let item = slot.item.load(SeqCst);
            crashes += 1;
            if item > 0 {
                let (si, _, _) = items[item - 1];
                let len = slot.plan_len.load(SeqCst);
                let plan = slot.plan[..len].to_vec();
                let how = if stuck { "stuck".to_string() } else { format!("wait status {st}") };
                if confirm_crash(&scs[si], &plan, o) {
                    viols.push(Viol {
                        prop: o.prop.clone(),
                        sig: format!("crash {}", scs[si].name),
                        msg: format!("the process running the workflow died or got stuck without yielding ({how})"),
                        scenario: (*scs[si]).clone(),
                        plan,
                    });
                    if oracle::crash_counts(&o.prop) {
                        sh.stop.store(true, SeqCst);
                    }
                }
            }
            if crashes < 20 {
                slot.item.store(0, SeqCst);
                beats[wi] = (slot.beat.load(SeqCst), Instant::now());
                pids[wi] = spawn_worker(|| worker(&scs, &items, o, wi, sh, deadline));
            }
        }
        if !live {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    if !oracle::crash_counts(&o.prop) {
        viols.retain(|v| !v.sig.starts_with("crash "));
    }
    let mut st = Stats::default();
    let mut seen: HashSet<(u32, u64)> = HashSet::new();
    let mut rel: HashSet<(u32, u64)> = HashSet::new();
    // what its last round says of an item: (round, capped, scenarios)
    let mut last: HashMap<usize, (usize, u64, u64)> = HashMap::new();
    for wi in 0..n {
        let s = std::fs::read_to_string(format!("{}/w{wi}.out", o.dir)).unwrap_or_default();
        for l in s.lines() {
            match serde_json::from_str::<Line>(l) {
                Ok(Line::Viol(v)) => viols.push(v),
                Ok(Line::Stats(i, round, x)) => {
                    // executions of an earlier round may be repeated in a later one
                    st.execs += x.execs;
                    st.choices += x.choices;
                    st.states += x.states;
                    st.abandoned += x.abandoned;
                    st.diverged += x.diverged;
                    st.points += x.points;
                    st.relevant += x.relevant;
                    st.max_depth = st.max_depth.max(x.max_depth);
                    if st.samples.len() < 5 {
                        st.samples.extend(x.samples);
                    }
                    let e = last.entry(i).or_insert((round, x.capped, x.scenarios));
                    if e.0 < round {
                        *e = (round, x.capped, x.scenarios);
                    }
                }
                Err(_) => {}
            }
        }
        let b = std::fs::read(format!("{}/w{wi}.hash", o.dir)).unwrap_or_default();
        for c in b.chunks_exact(13) {
            let k = (
                u32::from_le_bytes(c[0..4].try_into().unwrap()),
                u64::from_le_bytes(c[4..12].try_into().unwrap()),
            );
            seen.insert(k);
            if c[12] != 0 {
                rel.insert(k);
            }
        }
    }
    for (_, capped, scenarios) in last.values() {
        st.scenarios += scenarios;
        st.capped += capped;
    }
    st.samples.truncate(5);
    let timed_out = Instant::now() > deadline && st.capped > 0;
    Report { stats: st, distinct: seen.len() as u64, distinct_relevant: rel.len() as u64, viols, timed_out }
}

fn confirm_crash(sc: &Arc<Scenario>, plan: &[u16], o: &Opts) -> bool {
    let dir = format!("{}/confirm", o.dir);
    let _ = std::fs::create_dir_all(&dir);
    let pid = spawn_worker(|| {
        driver::init_process(&dir);
        driver::run(sc, plan.to_vec(), &dir);
    });
    let t = Instant::now();
    loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r != 0 {
            return !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0);
        }
        if t.elapsed() > Duration::from_secs(60) {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
            }
            return true;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}
