//! The bounded spaces that are enumerated, per property.
use crate::faultio::{Io, IoPlan};
use crate::sim::*;

pub fn assumptions() -> Vec<String> {
    [
        "tokio's scheduler, timers, processes and pipes, hyper's connections and the clock are replaced by controlled equivalents; the execgraph crate itself is compiled from /repo unchanged",
        "one thread runs at a time: interleavings are sequentially consistent, weak memory effects are not explored",
        "an execution in which a thread would have to wait for a blocking lock held by a preempted one is abandoned; the same conflict is explored from the other side",
        "children, provisioner and workers end at the earliest time their scenario allows, in every order",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}

/// Real workers and the real controller together.
fn f_e2e(th: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let a = |at_ms, after_starts, act| EnvAct { at_ms, after_starts, act };
    let graphs: Vec<(&str, Vec<Vec<u32>>)> = vec![
        ("one", vec![vec![]]),
        ("chain", vec![vec![], vec![0]]),
        ("two", vec![vec![], vec![]]),
        ("fork", vec![vec![], vec![0], vec![0]]),
        ("join", vec![vec![], vec![], vec![0, 1]]),
    ];
    let acts: Vec<(&str, Vec<EnvAct>)> = vec![
        ("-", vec![]),
        ("usr", vec![a(0, 1, Act::Usr1(0))]),
        ("kill", vec![a(0, 1, Act::WKill(0))]),
        ("kill2", vec![a(0, 2, Act::WKill(0))]),
        ("slurm", vec![a(0, 1, Act::Slurm(0, "slurmstepd: error: *** JOB 7 CANCELLED AT now ***\n".into()))]),
        ("int", vec![a(0, 1, Act::Sigint)]),
        ("int10", vec![a(10_000, 1, Act::Sigint)]),
    ];
    for (gn, d) in &graphs {
        let n = d.len();
        for w in words(n, if n < 3 || th { 3 } else { 2 }) {
            // how long they take, and who may run them
            for (ln, ms) in [("quick", [0u64, 0, 0]), ("slow", [20_000, 3_000, 40_000]), ("long", [100_000, 50_000, 70_000])] {
                if ln != "quick" && w.iter().filter(|o| **o != 0).count() > 1 && !th {
                    continue;
                }
                for q in [4u64, 5] {
                    if q == 5 && (ln == "long" || n < 2) {
                        continue;
                    }
                    for (an, act) in &acts {
                        for faults in 0..if th { 3u32 } else { 2 } {
                            if faults > 0 && (*an != "-" || (q == 5 && !th)) {
                                continue;
                            }
                            if faults > 1 && (n > 2 || ln == "long") {
                                continue;
                            }
                            let mut ts = graph(d);
                            for (i, t) in ts.iter_mut().enumerate() {
                                t.out = OUTS[w[i]].clone();
                                t.affinity = if i == 0 { 4 } else { q };
                                t.min_ms = ms[i];
                                t.stdout = format!("<out{i}>").into();
                                t.fd3 = format!("a={i}\n").into();
                                if i < 2 {
                                    t.fd_input = Some((4 + i as i32, vec![1, 2, 3]));
                                    t.consume = Consume::Eof;
                                }
                                t.leaves = if i == 1 { vec![(NEVER, false)] } else { vec![] };
                            }
                            let real = |k: usize, f: u32| vec![Op::Real(vec!["--slurm-error-logfile".into(), "$ERR".into()], f); k];
                            let cl = vec![client("7_0", 2, real(1, faults)), client("7_1", 2, real(12, 0))];
                            let mut s = remote(
                                format!("e2e:{gn} out{} {ln} q{q} {an} f{faults}", wname(&w)),
                                ts,
                                if q == 5 { 1 } else { 0 },
                                cl,
                                Sched { bound: 1, max_execs: if th { 30_000 } else { 3_000 }, ..Sched::env_only() },
                            );
                            s.sessions[0].execs[0].acts = act.clone();
                            v.push(s);
                        }
                    }
                }
            }
        }
    }
    v
}

/// The worker program against a scripted controller.
fn f_worker(th: bool) -> Vec<Scenario> {
    use Fault::*;
    let mut v = vec![];
    let kinds = vec![Code(404), Unreachable, NoReply, BlackHole, Partition, Slow(12_000)];
    let opts: Vec<(&str, Vec<&str>)> = vec![
        ("plain", vec![]),
        ("max", vec!["--max-time-accepting-tasks", "35"]),
        ("long", vec!["--duration", "200"]),
        ("short", vec!["--duration", "50"]),
        ("err", vec!["--slurm-error-logfile", "$ERR"]),
        ("errshort", vec!["--slurm-error-logfile", "$ERR", "--duration", "50"]),
    ];
    // how the tasks are
    let shapes: Vec<(&str, Vec<Task>)> = vec![
        ("quick", tasks(3, |i, t| t.out = [Out::Exit(0), Out::Exit(7), Out::Signal(11)][i].clone())),
        ("mixed", tasks(3, |i, t| {
            t.min_ms = [20_000, 0, 50_000][i];
            t.out = [Out::Exit(0), Out::SpawnFail, Out::Exit(1)][i].clone();
            t.leaves = [vec![(1_000, false)], vec![], vec![(NEVER, true), (NEVER, false)]][i].clone();
        })),
        ("stubborn", tasks(2, |i, t| {
            t.min_ms = [70_000, 100_000][i];
            t.ignore_term = true;
            t.fd_input = Some((5, b"0123456789".to_vec()));
            t.stdout = b"out\n".to_vec();
            t.stderr = b"err\n".to_vec();
            t.fd3 = b"a=1\n".to_vec();
        })),
        ("hours", tasks(2, |i, t| {
            t.min_ms = [170_000, 400_000][i];
            t.ignore_term = i == 1;
            t.leaves = vec![(2_000, i == 0)];
        })),
        ("big", tasks(2, |_, t| {
            t.min_ms = 1_000;
            t.extra_args = vec!["x".repeat(300)];
            t.fd_input = Some((9, vec![7; 100_000]));
            t.consume = Consume::Eof;
            t.stdout = vec![b'y'; 30_000];
        })),
    ];
    for (on, o) in &opts {
        for (sn, ts) in &shapes {
            let acts: Vec<(String, Vec<EnvAct>)> = {
                let a = |at_ms, after_starts, act| EnvAct { at_ms, after_starts, act };
                let mut v = vec![("-".to_string(), vec![])];
                if *on == "errshort" {
                    for at in [49_000, 50_000, 51_000, 60_000] {
                        v.push((format!("slurm0-{at}"), vec![a(at, 0, Act::Slurm(0, "slurmstepd: error: *** JOB 1 CANCELLED AT now ***\n".into()))]));
                    }
                }
                for n in 0..if *on == "errshort" { 0 } else { 3 } {
                    for at in [0, 30_000] {
                        v.push((format!("usr{n}-{at}"), vec![a(at, n, Act::Usr1(0))]));
                    }
                }
                if *on == "err" {
                    for n in 0..2 {
                        for at in [0, 25_000] {
                            v.push((format!("slurm{n}-{at}"), vec![a(at, n, Act::Slurm(0, "slurmstepd: error: *** JOB 1 CANCELLED AT now ***\n".into()))]));
                            v.push((
                                format!("slurms{n}-{at}"),
                                vec![a(at, n, Act::Slurm(0, "slurmstepd: nothing\n".into())), a(at + 1_000, n, Act::Slurm(0, "slurmstepd: error: FAILED\n".into()))],
                            ));
                        }
                    }
                    v.push(("note".to_string(), vec![a(1_000, 0, Act::Slurm(0, "slurmstepd: nothing to see\n".into()))]));
                }
                v
            };
            for (an, a) in acts {
                for faults in 0..if th { 4 } else { 3u32 } {
                    let heavy = faults > 0 && (*sn == "hours" || faults > 1);
                    if heavy && an != "-" && !an.starts_with("slurm1-0") {
                        continue;
                    }
                    if faults > 2 && (*sn == "hours" || an != "-") {
                        continue;
                    }
                    for ping in if th || *on == "plain" { vec![15_000u64, 4_000] } else { vec![15_000] } {
                        if ping == 4_000 && *sn == "hours" {
                            continue;
                        }
                        let args: Vec<String> = o.iter().map(|s| s.to_string()).collect();
                        let mut cl = client("77_3", 2, vec![Op::Real(args, faults)]);
                        cl.msg = "lost %j".into();
                        let mut s = remote(
                            format!("worker:{on} {sn} {an} f{faults} ping{ping}"),
                            ts.clone(),
                            0,
                            vec![cl],
                            Sched { selects: th && faults == 0, bound: 1, max_execs: if th { 200_000 } else { 4_000 }, ..Sched::env_only() },
                        );
                        s.sessions[0].execs[0].acts = a.clone();
                        s.script = Some(Script { ping_ms: ping, kinds: kinds.clone(), until_ms: 300_000 });
                        v.push(s);
                    }
                }
            }
        }
    }
    v
}

pub fn sess(np: i32, tasks: Vec<Task>) -> Session {
    Session { np, fa: 0, rerun: true, storage_roots: vec!["".into()], tasks, execs: vec![Exec::default()] }
}
pub fn one(name: String, s: Session, sched: Sched) -> Scenario {
    Scenario { name, sessions: vec![s], sched, seed: 7, cuts: vec![], hist: None, disk: false, script: None, io: None }
}
/// All DAGs over n tasks in which dependencies point to earlier tasks.
pub fn dags(n: usize) -> Vec<Vec<Vec<u32>>> {
    let m = n * (n - 1) / 2;
    (0..1u32 << m)
        .map(|b| {
            let mut k = 0;
            (0..n)
                .map(|i| {
                    (0..i)
                        .filter(|_| {
                            k += 1;
                            b >> (k - 1) & 1 == 1
                        })
                        .map(|j| j as u32)
                        .collect()
                })
                .collect()
        })
        .collect()
}
pub fn graph(d: &[Vec<u32>]) -> Vec<Task> {
    d.iter()
        .enumerate()
        .map(|(i, d)| {
            let mut t = Task::new(i);
            t.deps = d.clone();
            t
        })
        .collect()
}
pub fn gname(d: &[Vec<u32>]) -> String {
    d.iter().map(|d| d.iter().map(|x| x.to_string()).collect::<String>()).collect::<Vec<_>>().join(".")
}
/// All words of length n over 0..k.
pub fn words(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v
            .into_iter()
            .flat_map(|w| {
                (0..k).map(move |x| {
                    let mut w = w.clone();
                    w.push(x);
                    w
                })
            })
            .collect();
    }
    v
}
fn wname(w: &[usize]) -> String {
    w.iter().map(|x| x.to_string()).collect()
}
const OUTS: [Out; 4] = [Out::Exit(0), Out::Exit(3), Out::Signal(9), Out::SpawnFail];

fn f_dag(n: usize, nouts: usize, nps: &[i32], sched: Sched) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for w in words(n, nouts) {
            for np in nps {
                let mut ts = graph(&d);
                for (t, o) in ts.iter_mut().zip(&w) {
                    t.out = OUTS[*o].clone();
                }
                v.push(one(format!("dag{n}:{} out{} np{np}", gname(&d), wname(&w)), sess(*np, ts), sched.clone()));
            }
        }
    }
    v
}
/// A dependency that is named more than once.
fn f_named() -> Vec<Scenario> {
    let mut v = vec![];
    let lists = |k: usize, max: usize| (0..=max).flat_map(|n| words(n, k)).map(|w| w.into_iter().map(|x| x as u32).collect::<Vec<u32>>()).collect::<Vec<_>>();
    for d1 in lists(1, 3) {
        for d2 in lists(2, 3) {
            if d1.len() < 2 && d2.iter().collect::<std::collections::HashSet<_>>().len() == d2.len() {
                continue;
            }
            for w in words(3, 2) {
                if w[2] == 1 {
                    continue;
                }
                for target in [None, Some(2)] {
                    let mut ts = graph(&[vec![], d1.clone(), d2.clone(), vec![2, 2]]);
                    for (t, o) in ts.iter_mut().zip(&w) {
                        t.out = OUTS[*o].clone();
                        t.later = vec![Out::Exit(0)];
                    }
                    let mut s1 = sess(2, ts.clone());
                    s1.execs[0].target = target;
                    let s2 = sess(1, ts);
                    v.push(Scenario {
                        name: format!("named:{} out{} target{target:?}", gname(&[d1.clone(), d2.clone()]), wname(&w)),
                        sessions: vec![s1, s2],
                        sched: Sched { max_execs: 400, ..Sched::env_only() },
                        seed: 7, cuts: vec![], hist: None, disk: false, script: None, io: None,
                    });
                }
            }
        }
    }
    v
}
/// Two sessions over the same graph: what happened in the first decides what the second runs.
fn f_two(n: usize, nps: &[i32]) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for w in words(n, 2) {
            for rerun in [true, false] {
                for np in nps {
                    let mut ts = graph(&d);
                    for (t, o) in ts.iter_mut().zip(&w) {
                        t.out = OUTS[*o].clone();
                        t.later = vec![Out::Exit(0)];
                    }
                    let s1 = sess(*np, ts.clone());
                    let mut s2 = sess(*np, ts.clone());
                    s2.rerun = rerun;
                    v.push(Scenario {
                        name: format!("two{n}:{} out{} rerun{rerun} np{np}", gname(&d), wname(&w)),
                        sessions: vec![s1, s2.clone(), s2],
                        sched: Sched::env_only(),
                        seed: 7, cuts: vec![], hist: None, disk: false, script: None, io: None,
                    });
                }
            }
        }
    }
    v
}
/// A task without a key.
fn f_nokey(n: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for sc in f_two(n, &[2]) {
        for (i, x) in (0..n).map(|i| (i, false)).chain([(0, true)]) {
            let name = format!("nokey{i}{}:{}", if x { "twice" } else { "" }, sc.name);
            let mut q = Scenario { name, ..sc.clone() };
            for s in &mut q.sessions {
                s.tasks[i].key = String::new();
                if x {
                    s.execs.push(Exec::default());
                }
            }
            v.push(q);
        }
    }
    v
}
/// First session interrupted, then resumed.
fn f_cut(n: usize, acts: &[Act]) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for w in words(n, 2) {
            for (ai, act) in acts.iter().enumerate() {
                let mut ts = graph(&d);
                for (t, o) in ts.iter_mut().zip(&w) {
                    t.out = OUTS[*o].clone();
                    t.later = vec![Out::Exit(0)];
                }
                let mut s1 = sess(2, ts.clone());
                s1.execs[0].acts = vec![EnvAct { at_ms: 0, after_starts: 1, act: act.clone() }];
                let s2 = sess(2, ts.clone());
                let mut s3 = sess(2, ts);
                s3.rerun = false;
                v.push(Scenario {
                    name: format!("cut{n}:{} out{} act{ai}", gname(&d), wname(&w)),
                    sessions: vec![s1, s2, s3],
                    sched: Sched::env_only(),
                    seed: 7, cuts: vec![], hist: None, disk: false, script: None, io: None,
                });
            }
        }
    }
    v
}
/// Two execute calls in one session (and one more session after), with every pair of targets.
fn f_calls(n: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for w in words(n, 2) {
            for rerun in [true, false] {
                for a in 0..n + 1 {
                    let mut ts = graph(&d);
                    for (t, o) in ts.iter_mut().zip(&w) {
                        t.out = OUTS[*o].clone();
                    }
                    let mut s = sess(2, ts.clone());
                    s.rerun = rerun;
                    let first = if a < n {
                        Exec { target: Some(a as u32), ..Default::default() }
                    } else {
                        Exec { ntasks: Some(n - 1), ..Default::default() }
                    };
                    s.execs = vec![first, Exec::default()];
                    let mut s2 = sess(2, ts);
                    s2.rerun = rerun;
                    s2.execs.insert(0, s.execs[0].clone());
                    v.push(Scenario {
                        name: format!("calls{n}:{} out{} rerun{rerun} t{a}", gname(&d), wname(&w)),
                        sessions: vec![s, s2],
                        sched: Sched::env_only(),
                        seed: 7, cuts: vec![], hist: None, disk: false, script: None, io: None,
                    });
                }
            }
        }
    }
    v
}
/// Interrupted call, followed by another in the same session.
fn f_again(n: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for w in words(n, 2) {
            let mut ts = graph(&d);
            for (t, o) in ts.iter_mut().zip(&w) {
                t.out = OUTS[*o].clone();
            }
            let mut s = sess(2, ts.clone());
            let mut e = Exec::default();
            e.acts = vec![EnvAct { at_ms: 0, after_starts: 1, act: Act::Sigint }];
            s.execs = vec![e, Exec::default()];
            v.push(Scenario {
                name: format!("again{n}:{} out{}", gname(&d), wname(&w)),
                sessions: vec![s, sess(2, ts)],
                sched: Sched { picks: false, early: true, points: false, selects: true, burst: false, window: None, bound: 1, max_execs: 4000 },
                seed: 7, cuts: vec![], hist: None, disk: false, script: None, io: None,
            });
        }
    }
    v
}
fn f_target(n: usize, nouts: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for w in words(n, nouts) {
            for t in 0..n {
                let mut ts = graph(&d);
                for (t, o) in ts.iter_mut().zip(&w) {
                    t.out = OUTS[*o].clone();
                }
                let mut s = sess(2, ts.clone());
                s.execs[0].target = Some(t as u32);
                v.push(one(format!("target{n}:{} out{} t{t}", gname(&d), wname(&w)), s, Sched::env_only()));
            }
        }
    }
    v
}
/// Targets one after the other in one session, and then everything in the next; with some of
/// the tasks on a worker.
fn f_targets(n: usize, nouts: usize, calls: usize, worker: bool) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for w in words(n, nouts) {
            for ts_ in words(calls, n + 1) {
                for rerun in [true, false] {
                    if !rerun && nouts == 1 {
                        continue;
                    }
                    let mut ts = graph(&d);
                    for (i, (t, o)) in ts.iter_mut().zip(&w).enumerate() {
                        t.out = OUTS[*o].clone();
                        if worker {
                            t.affinity = [4, 1, 5, 4, 1][i];
                        }
                    }
                    let mut s = sess(2, ts.clone());
                    s.rerun = rerun;
                    s.execs = ts_
                        .iter()
                        .map(|t| Exec {
                            target: (*t < n).then_some(*t as u32),
                            prov: if worker { prov(vec![client("j0", 2, vec![Op::Serve(9)])]) } else { None },
                            ..Default::default()
                        })
                        .collect();
                    let mut s2 = sess(2, ts);
                    if worker {
                        s2.execs[0].prov = prov(vec![client("j0", 2, vec![Op::Serve(9)])]);
                    }
                    v.push(Scenario {
                        name: format!("targets{n}:{} out{} t{} rerun{rerun} w{worker}", gname(&d), wname(&w), wname(&ts_)),
                        sessions: vec![s, s2],
                        sched: Sched::env_only(),
                        seed: 7, cuts: vec![], hist: None, disk: false, script: None, io: None,
                    });
                }
            }
        }
    }
    v
}
fn client(job: &str, rt: u32, ops: Vec<Op>) -> Client {
    Client { jobid: job.into(), rt, msg: format!("lost {job}"), at_ms: 0, ops }
}
fn prov(clients: Vec<Client>) -> Option<Prov> {
    Some(Prov { info: Some("p".into()), clients })
}
fn remote(name: String, tasks: Vec<Task>, np: i32, clients: Vec<Client>, sched: Sched) -> Scenario {
    let mut s = sess(np, tasks);
    s.execs[0].prov = prov(clients);
    one(name, s, sched)
}
/// Graphs over local, remote and shared queues, served by honest workers.
fn f_remote(n: usize, nouts: usize, nclients: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for w in words(n, nouts) {
            for a in words(n, 3) {
                let mut ts = graph(&d);
                for i in 0..n {
                    ts[i].out = OUTS[w[i]].clone();
                    ts[i].affinity = [4, 5, 1][a[i]];
                    ts[i].stdout = format!("out{i}\n").into();
                    ts[i].fd3 = format!("a={i}\n").into();
                }
                let cl = (0..nclients).map(|i| client(&format!("j{i}"), 2, vec![Op::Serve(9)])).collect();
                v.push(remote(format!("remote{n}:{} out{} q{} c{nclients}", gname(&d), wname(&w), wname(&a)), ts, 1, cl, Sched::env_only()));
            }
        }
    }
    v
}
fn tasks(n: usize, f: impl Fn(usize, &mut Task)) -> Vec<Task> {
    (0..n)
        .map(|i| {
            let mut t = Task::new(i);
            f(i, &mut t);
            t
        })
        .collect()
}
/// Interleavings of the code itself around the interesting graphs.
fn f_inter(sched: &dyn Fn() -> Sched, all: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let g: Vec<(&str, Vec<Vec<u32>>)> = vec![
        ("two", vec![vec![], vec![]]),
        ("join", vec![vec![], vec![], vec![0, 1]]),
        ("fork", vec![vec![], vec![0], vec![0]]),
        ("diamond", vec![vec![], vec![0], vec![0], vec![1, 2]]),
    ];
    for (n, d) in &g {
        for bad in [None, Some(0), Some(1)] {
            if !all && *n == "diamond" && bad.is_none() {
                continue;
            }
            let mut ts = graph(d);
            if let Some(b) = bad {
                ts[b].out = Out::Exit(1);
            }
            v.push(one(format!("inter:{n} bad{bad:?}"), sess(2, ts), sched()));
        }
    }
    // a task that two queues offer
    let ts = tasks(2, |_, t| t.affinity = 3);
    v.push(one("inter:shared".into(), sess(1, ts), sched()));
    let ts = tasks(1, |_, t| t.affinity = 5);
    v.push(remote("inter:local-or-remote".into(), ts, 1, vec![client("j0", 2, vec![Op::Serve(3)])], sched()));
    let ts = tasks(2, |i, t| {
        t.affinity = 4;
        t.deps = (0..i as u32).collect();
    });
    v.push(remote(
        "inter:workers".into(),
        ts,
        0,
        vec![client("j0", 2, vec![Op::Serve(3)]), client("j1", 2, vec![Op::Serve(3)])],
        sched(),
    ));
    v
}

// -------------------------------------------------------------------------- early ends

fn f_limit(full: bool) -> Vec<Scenario> {
    let mut v = vec![];
    // who fails, how long the others have been at it
    let ages: &[u64] = if full { &[0, 1_000, 3_000, 6_000, 9_000, 20_000] } else { &[0, 1_000, 6_000, 9_000] };
    for fa in [1u32, 2] {
        for &a in ages {
            for &b in ages {
                for late in [0u64, 2_000, 4_300, 5_700, 7_000] {
                    if late % 1_000 != 0 && !(full || a == 9_000 || b == 0) {
                        continue;
                    }
                    for how in [Out::Exit(1), Out::SpawnFail, Out::Signal(9)] {
                        if how != Out::Exit(1) && !(full || (a == 1_000 && b == 9_000)) {
                            continue;
                        }
                        // 0: gate before the failing ones; 1, 2: bystanders; 3, 4: fail at once; 5, 6: waiting
                        let mut ts = tasks(8, |_, _| {});
                        ts[0].min_ms = late;
                        ts[1].min_ms = a;
                        ts[2].min_ms = late + b;
                        ts[3].deps = vec![0];
                        ts[3].out = how.clone();
                        ts[4].deps = vec![0];
                        ts[4].out = how.clone();
                        ts[5].deps = vec![3];
                        ts[6].deps = vec![1];
                        ts[7].deps = vec![2];
                        for np in [3, 5] {
                            let mut s = sess(np, ts.clone());
                            s.fa = fa;
                            v.push(one(format!("limit:{fa} a{a} b{b} gate{late} np{np} {how:?}"), s, Sched::env_only()));
                        }
                    }
                }
            }
        }
    }
    v
}
/// Below the limit, slow failures, exactly at it.
fn f_limit_dag(n: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for w in words(n, 3) {
            for fa in [1, 2, 3] {
                let mut ts = graph(&d);
                for (t, o) in ts.iter_mut().zip(&w) {
                    t.out = if *o > 0 { Out::Exit(1) } else { Out::Exit(0) };
                    t.min_ms = if *o == 2 { 7_000 } else { 10 };
                }
                let mut s = sess(2, ts);
                s.fa = fa;
                v.push(one(format!("limitdag{n}:{} out{} fa{fa}", gname(&d), wname(&w)), s, Sched::env_only()));
            }
        }
    }
    v
}
/// Failures on either side of what counts as short.
/// Many failures.
fn f_limit_wide() -> Vec<Scenario> {
    let mut v = vec![];
    for (n, fa) in [(40, 0), (130, 0), (260, 0), (1_100, 0), (70, 65), (300, 255), (300, 256)] {
        for k in 0..2 {
            let ts = tasks(n, |i, t| {
                t.out = Out::Exit(1);
                t.min_ms = k * (i as u64 % 7) * 100;
            });
            let mut s = sess(4, ts);
            s.fa = fa;
            v.push(one(format!("limitwide:{n} fa{fa} k{k}"), s, Sched { max_execs: 2, ..Sched::env_only() }));
        }
    }
    v
}
fn f_limit_short(n: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for w in words(n, 3) {
            for fa in [1, 2] {
                for np in [1, 3] {
                    let mut ts = graph(&d);
                    for (t, o) in ts.iter_mut().zip(&w) {
                        t.out = if *o > 0 { Out::Exit(1) } else { Out::Exit(0) };
                        t.min_ms = [20, 4_300, 5_700][*o];
                    }
                    let mut s = sess(np, ts);
                    s.fa = fa;
                    v.push(one(format!("limitshort{n}:{} out{} fa{fa} np{np}", gname(&d), wname(&w)), s, Sched::env_only()));
                }
            }
        }
    }
    v
}
fn f_limit_remote() -> Vec<Scenario> {
    let mut v = vec![];
    for fa in [1u32, 2] {
        for gate in [0, 7_000u64] {
            let mut ts = tasks(6, |_, t| t.affinity = 4);
            ts[0].min_ms = 20_000;
            ts[1].min_ms = gate;
            ts[2].deps = vec![1];
            ts[2].out = Out::Exit(1);
            ts[3].deps = vec![1];
            ts[3].out = Out::Exit(1);
            ts[4].deps = vec![1];
            ts[4].min_ms = 20_000;
            ts[5].deps = vec![2];
            let cl = (0..4).map(|i| client(&format!("j{i}"), 2, vec![Op::Serve(9)])).collect();
            let mut s = remote(format!("limitremote:{fa} gate{gate}"), ts, 0, cl, Sched { max_execs: 3000, ..Sched::env_only() });
            s.sessions[0].fa = fa;
            v.push(s);
        }
        // the age of a bystander around the cutoff, reported with and without /begun
        for age in [0u64, 3_000, 4_000, 4_400, 5_600, 6_000, 8_000] {
            for k in 0..3 {
                let mut ts = tasks(5, |_, t| t.affinity = 4);
                ts[0].min_ms = 12_000;
                ts[1].min_ms = age;
                ts[1].affinity = 1;
                for t in &mut ts[2..4] {
                    t.deps = vec![1];
                    t.out = Out::Exit(1);
                }
                ts[4].deps = vec![0];
                let first = match k {
                    0 => vec![Op::AutoPing(true), Op::Start, Op::Run, Op::End(false), Op::Serve(9)],
                    1 => vec![Op::AutoPing(true), Op::Start, Op::Begun, Op::Run, Op::End(true), Op::Begun, Op::Run, Op::End(false)],
                    _ => vec![Op::Serve(9)],
                };
                let mut cl = vec![client("j0", 2, first)];
                cl.push(Client { at_ms: age, ..client("j1", 2, vec![Op::Serve(9)]) });
                if k == 2 {
                    ts[2].affinity = 1;
                    ts[3].affinity = 1;
                    cl.pop();
                }
                let mut s = remote(format!("limitage:{fa} age{age} k{k}"), ts, 2, cl, Sched { max_execs: 2000, ..Sched::env_only() });
                s.sessions[0].fa = fa;
                v.push(s);
            }
        }
    }
    v
}
fn soft_admin(at: u64) -> Client {
    Client { at_ms: at, ..client("", 9, vec![Op::AdminShutdown(true)]) }
}
fn f_soft(n: usize, sched: &dyn Fn() -> Sched) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for w in words(n, 2) {
            for np in [1, 2] {
                for slow in [0u64, 3_000] {
                    let mut ts = graph(&d);
                    for (t, o) in ts.iter_mut().zip(&w) {
                        t.out = OUTS[*o].clone();
                        t.min_ms = slow;
                    }
                    v.push(remote(format!("soft{n}:{} out{} np{np} slow{slow}", gname(&d), wname(&w)), ts, np, vec![soft_admin(0)], sched()));
                }
            }
        }
    }
    v
}
/// Soft shutdown with workers, status polls, nothing in flight, twice, followed by a hard one.
fn f_soft_more(sched: &dyn Fn() -> Sched) -> Vec<Scenario> {
    let mut v = vec![];
    for nc in 0..3usize {
        for k in 0..3 {
            for at in [0u64, 500] {
                let ts = tasks(3, |i, t| {
                    t.affinity = 4;
                    t.min_ms = 1_000 * k;
                    t.deps = if i == 2 { vec![0] } else { vec![] };
                });
                let mut cl = vec![Client {
                    at_ms: at,
                    ..client("", 9, vec![Op::AdminShutdown(true), Op::Status { etag: 0, timemin: 0, timeout: 0 }, Op::AdminStatus])
                }];
                cl.extend((0..nc).map(|i| client(&format!("j{i}"), 2, vec![Op::Serve(9)])));
                v.push(remote(format!("softremote:c{nc} k{k} at{at}"), ts, 0, cl, sched()));
            }
        }
    }
    // a worker is slow to say that it has begun what it was given
    for gap in [200u64, 900, 3_000] {
        for k in 0..3u64 {
            let ts = tasks(4, |i, t| {
                t.affinity = if i == 3 { 1 } else { 4 };
                t.min_ms = 400 + 700 * k;
            });
            let slow = |j: &str| client(j, 2, vec![Op::Start, Op::Sleep(gap), Op::Begun, Op::Run, Op::End(true), Op::Serve(9)]);
            let cl = vec![
                Client { at_ms: 100, ..client("", 9, vec![Op::AdminShutdown(true), Op::AdminStatus]) },
                slow("j0"),
                client("j1", 2, vec![Op::Serve(9)]),
            ];
            v.push(remote(format!("softremote:gap{gap} k{k}"), ts, 1, cl, sched()));
        }
    }
    // nothing is running: everything waits for a worker that never comes
    let ts = tasks(2, |_, t| t.affinity = 8);
    v.push(remote("softremote:idle".into(), ts, 1, vec![soft_admin(0)], sched()));
    let ts = tasks(3, |i, t| t.min_ms = 1000 * i as u64);
    let twice = vec![client("", 9, vec![Op::AdminShutdown(true), Op::AdminShutdown(true), Op::AdminStatus])];
    v.push(remote("softremote:twice".into(), ts.clone(), 2, twice, sched()));
    v
}
fn f_hard(n: usize, kinds: &[usize], sched: &dyn Fn() -> Sched) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for w in words(n, 2) {
            for &kind in kinds {
                for slow in [0u64, 3_000] {
                    let mut ts = graph(&d);
                    for (t, o) in ts.iter_mut().zip(&w) {
                        t.out = OUTS[*o].clone();
                        t.min_ms = slow;
                        t.ignore_term = slow > 0;
                    }
                    let mut s = sess(2, ts);
                    let at = slow / 2;
                    match kind {
                        0 => s.execs[0].acts = vec![EnvAct { at_ms: at, after_starts: 0, act: Act::Sigint }],
                        1 => {
                            s.execs[0].prov = prov(vec![]);
                            s.execs[0].acts = vec![EnvAct { at_ms: at, after_starts: 0, act: Act::ProvExit(1) }];
                        }
                        _ => s.execs[0].prov = prov(vec![Client { at_ms: at, ..client("", 9, vec![Op::AdminShutdown(false)]) }]),
                    }
                    v.push(one(format!("hard{n}:{} out{} kind{kind} slow{slow}", gname(&d), wname(&w)), s, sched()));
                }
            }
        }
    }
    v
}
fn f_hard_remote(sched: &dyn Fn() -> Sched) -> Vec<Scenario> {
    let mut v = vec![];
    for kind in 0..4 {
        for nc in 1..3usize {
            for slow in [0u64, 4_000] {
                let ts = tasks(3, |i, t| {
                    t.affinity = if i == 1 { 5 } else { 4 };
                    t.min_ms = slow;
                    t.deps = if i == 2 { vec![0] } else { vec![] };
                });
                let mut cl: Vec<Client> = (0..nc).map(|i| client(&format!("j{i}"), 2, vec![Op::Serve(9)])).collect();
                let mut acts = vec![];
                let at = slow / 2;
                match kind {
                    0 => acts.push(EnvAct { at_ms: at, after_starts: 0, act: Act::Sigint }),
                    1 => acts.push(EnvAct { at_ms: at, after_starts: 0, act: Act::ProvExit(0) }),
                    2 => cl.push(Client { at_ms: at, ..client("", 9, vec![Op::AdminShutdown(false)]) }),
                    _ => cl.push(Client { at_ms: at, ..client("", 9, vec![Op::AdminShutdown(true), Op::AdminShutdown(false)]) }),
                }
                let mut s = remote(format!("hardremote:kind{kind} c{nc} slow{slow}"), ts, 1, cl, sched());
                s.sessions[0].execs[0].acts = acts;
                v.push(s);
            }
        }
    }
    v
}
/// Stop while somebody has begun a request and does not complete it.
fn f_hard_silent() -> Vec<Scenario> {
    let mut v = vec![];
    for kind in 0..3 {
        for at in [0u64, 1_500] {
            let ts = tasks(2, |_, t| t.min_ms = 4_000);
            let mut cl = vec![Client { at_ms: at, ..client("", 9, vec![Op::Silent(300_000)]) }];
            let mut acts = vec![];
            match kind {
                0 => acts.push(EnvAct { at_ms: 2_000, after_starts: 0, act: Act::Sigint }),
                1 => acts.push(EnvAct { at_ms: 2_000, after_starts: 0, act: Act::ProvExit(0) }),
                _ => cl.push(Client { at_ms: 2_000, ..client("", 9, vec![Op::AdminShutdown(false)]) }),
            }
            let mut s = remote(format!("silent:kind{kind} at{at}"), ts, 1, cl, Sched::env_only());
            s.sessions[0].execs[0].acts = acts;
            v.push(s);
        }
    }
    v
}
/// Stop with special tasks in flight.
fn f_hard_more(sched: &dyn Fn() -> Sched) -> Vec<Scenario> {
    let mut v = vec![];
    for (k, act) in [Act::Sigint, Act::ProvExit(0)].into_iter().enumerate() {
        let mut ts = tasks(4, |i, t| {
            t.min_ms = [NEVER, 100, 0, NEVER][i];
            t.ignore_term = true;
        });
        ts[1].affinity = 2;
        ts[2].out = Out::SpawnFail;
        ts[3].fd_input = Some((4, vec![b'x'; 10]));
        let mut s = sess(3, ts);
        s.execs[0].prov = prov(vec![]);
        s.execs[0].acts = vec![EnvAct { at_ms: 50, after_starts: 0, act: act.clone() }];
        v.push(one(format!("hardmix:{k}"), s.clone(), sched()));
        // twice, and together with the failure limit
        s.execs[0].acts.push(EnvAct { at_ms: 50, after_starts: 0, act: Act::Sigint });
        v.push(one(format!("hardtwice:{k}"), s.clone(), sched()));
        s.fa = 1;
        s.execs[0].acts.pop();
        s.execs[0].acts[0].at_ms = 0;
        v.push(one(format!("hardlimit:{k}"), s, sched()));
    }
    v
}
/// The failure limit is reached in the moment of a hard stop, when other tasks are old enough to
/// be left to finish after the former but not after the latter.
fn f_hard_old(sched: &dyn Fn() -> Sched) -> Vec<Scenario> {
    let mut v = vec![];
    for (k, n, at) in (0..3).flat_map(|k| (2..4usize).flat_map(move |n| [8_000, 4_000_000].map(|at| (k, n, at)))) {
        {
            let ts = tasks(n, |i, t| {
                t.min_ms = if i == 0 { at } else { NEVER };
                t.deps = vec![];
                t.ignore_term = i == 2;
            });
            // k0 makes room for the one that fails
            let mut ts = ts;
            let mut last = Task::new(n);
            last.deps = vec![0];
            last.out = Out::Exit(1);
            ts.push(last);
            let mut s = sess(3, ts);
            s.fa = 1;
            match k {
                0 => s.execs[0].acts = vec![EnvAct { at_ms: at, after_starts: n as u32 + 1, act: Act::Sigint }],
                1 => {
                    s.execs[0].prov = prov(vec![]);
                    s.execs[0].acts = vec![EnvAct { at_ms: at, after_starts: n as u32 + 1, act: Act::ProvExit(0) }];
                }
                _ => s.execs[0].prov = prov(vec![Client { at_ms: at, ..client("", 9, vec![Op::AdminShutdown(false)]) }]),
            }
            v.push(one(format!("hardold:{k} n{n} at{at}"), s, sched()));
        }
    }
    v
}

// ----------------------------------------------------------------------------- many of everything

/// Workflows that are large: every shape, size, place of failure and way to run it of these lists.
fn f_big(th: bool, modes: &[&str]) -> Vec<Scenario> {
    let shape = |name: &str, n: usize, i: usize| -> Vec<u32> {
        let v: Vec<usize> = match name {
            "chain" => i.checked_sub(1).into_iter().collect(),
            "fanin" => if i == n - 1 { (0..i).collect() } else { vec![] },
            "fanout" => if i > 0 { vec![0] } else { vec![] },
            "hourglass" => match i.cmp(&(n / 2)) {
                std::cmp::Ordering::Less => vec![],
                std::cmp::Ordering::Equal => (0..i).collect(),
                _ => vec![n / 2],
            },
            "layers" => if i < 6 { vec![] } else { (i / 6 * 6 - 6..i / 6 * 6).collect() },
            "tree" => i.checked_sub(1).map(|i| i / 2).into_iter().collect(),
            "window" => (i.saturating_sub(3)..i).collect(),
            "pairs" => if i % 2 == 1 { vec![i - 1] } else { vec![] },
            "twice" => i.checked_sub(1).map(|i| vec![i / 3, i / 3]).unwrap_or_default(),
            _ => vec![],
        };
        v.into_iter().map(|d| d as u32).collect()
    };
    let mut v = vec![];
    for n in if th { vec![12usize, 40, 70, 130, 300, 700] } else { vec![12, 40, 70, 270] } {
        for sh in ["chain", "fanin", "fanout", "hourglass", "layers", "tree", "window", "pairs", "twice", "none"] {
            for bad in ["ok", "first", "mid", "some"] {
                for mode in modes {
                    if n > 100 && !th && (bad == "mid" || bad == "first" && *mode != "np3") {
                        continue;
                    }
                    let mut ts = tasks(n, |i, t| {
                        t.deps = shape(sh, n, i);
                        let f = match bad {
                            "first" => i == 0,
                            "mid" => i == n / 2,
                            "some" => i % 7 == 3,
                            _ => false,
                        };
                        if f {
                            t.out = [Out::Exit(1), Out::Signal(9), Out::SpawnFail][i % 3].clone();
                            t.later = vec![Out::Exit(0)];
                        }
                        t.min_ms = i as u64 % 3 * 400;
                    });
                    let mut ss = vec![];
                    let mut s = match *mode {
                        "np1" => sess(1, ts.clone()),
                        "np3" => sess(3, ts.clone()),
                        "np40" => sess(40, ts.clone()),
                        "remote" => {
                            for (i, t) in ts.iter_mut().enumerate() {
                                t.affinity = [4, 5, 1, 12, 8][i % 5];
                            }
                            let cl = (0..4).map(|i| client(&format!("j{i}"), 2 + i % 2, vec![Op::Serve(999)])).collect();
                            let s = remote(String::new(), ts.clone(), 2, cl, Sched::env_only());
                            s.sessions.into_iter().next().unwrap()
                        }
                        "polls" => {
                            for (i, t) in ts.iter_mut().enumerate() {
                                t.affinity = [4, 5, 1][i % 3];
                            }
                            let ops = (0..15).map(|i| Op::Poll { timemin: i % 3 * 40, timeout: 300 + i * 50 }).collect();
                            let cl = vec![client("j0", 2, vec![Op::Serve(999)]), client("", 9, ops), client("j1", 2, vec![Op::Serve(999)])];
                            let s = remote(String::new(), ts.clone(), 2, cl, Sched::env_only());
                            s.sessions.into_iter().next().unwrap()
                        }
                        "sigint" | "prov" | "soft" | "hard" => {
                            for (i, t) in ts.iter_mut().enumerate() {
                                t.affinity = [4, 5, 1][i % 3];
                            }
                            let mut cl = vec![client("j0", 2, vec![Op::Serve(999)]), client("j1", 2, vec![Op::Serve(999)])];
                            let at_ms = 700 + 400 * (n as u64 % 7);
                            if let "soft" | "hard" = *mode {
                                cl.push(Client { at_ms, ..client("", 9, vec![Op::AdminShutdown(*mode == "soft")]) });
                            }
                            let s = remote(String::new(), ts.clone(), 3, cl, Sched::env_only());
                            let mut s = s.sessions.into_iter().next().unwrap();
                            match *mode {
                                "sigint" => s.execs[0].acts = vec![EnvAct { at_ms, after_starts: 0, act: Act::Sigint }],
                                "prov" => s.execs[0].acts = vec![EnvAct { at_ms, after_starts: 0, act: Act::ProvExit(0) }],
                                _ => {}
                            }
                            s
                        }
                        "two" => {
                            let mut s = sess(3, ts.clone());
                            s.rerun = n % 4 == 0;
                            ss.push(s.clone());
                            s.rerun = true;
                            ss.push(s.clone());
                            s
                        }
                        "cut" => {
                            let mut s = sess(3, ts.clone());
                            let at = n as u32 / 2;
                            s.execs[0].acts = vec![EnvAct { at_ms: 0, after_starts: at, act: Act::Sigint }];
                            ss.push(s);
                            sess(5, ts.clone())
                        }
                        "calls" => {
                            let mut s = sess(2, ts.clone());
                            s.execs = (0..6)
                                .map(|k| Exec { ntasks: Some((n * (k / 2 + 1)).div_ceil(3)), ..Default::default() })
                                .collect();
                            s
                        }
                        "targets" => {
                            let mut s = sess(2, ts.clone());
                            s.execs = [n / 3, n - 1, 0, n / 2]
                                .iter()
                                .map(|t| Exec { target: Some(*t as u32), ..Default::default() })
                                .chain([Exec::default()])
                                .collect();
                            s
                        }
                        m => unreachable!("{m}"),
                    };
                    s.fa = if bad == "mid" { 3 } else { 0 };
                    if *mode == "remote" && n > 100 && sh != "layers" && sh != "tree" && sh != "fanin" && !th {
                        continue;
                    }
                    ss.push(s);
                    let name = format!("big:{mode} {sh} n{n} {bad}");
                    let sched = Sched { max_execs: if n > 100 { 1 } else { 2 }, ..Sched::env_only() };
                    v.push(Scenario { name, sessions: ss, sched, seed: 7, cuts: vec![], hist: None, disk: false, script: None, io: None });
                }
            }
        }
    }
    v
}
/// Every exit code and every signal, here and from a worker.
fn f_codes() -> Vec<Scenario> {
    let all: Vec<Out> = (0..256).map(Out::Exit).chain((1..65).map(Out::Signal)).chain((1..12).map(|s| Out::Signal(s | 0x80))).collect();
    let mut v = vec![];
    for (q, part) in [1u64, 4].iter().flat_map(|q| all.chunks(83).map(move |p| (*q, p))) {
        let n = part.len();
        let ts = tasks(2 * n, |i, t| {
            t.affinity = q;
            t.out = if i < n { part[i].clone() } else { Out::Exit(0) };
            t.later = vec![Out::Exit(0)];
            t.deps = if i < n { vec![] } else { vec![(i - n) as u32] };
        });
        let cl = vec![client("j0", 2, vec![Op::Serve(999)])];
        let mut s = remote(format!("codes:q{q} {:?}", part[0]), ts, 2, cl, Sched { max_execs: 2, ..Sched::env_only() });
        if q == 1 {
            s.sessions[0].execs[0].prov = None;
        }
        let again = s.sessions[0].clone();
        s.sessions.push(again);
        v.push(s);
    }
    v
}
/// One log for many sessions and for many calls: tasks that fail each time, now and then, never.
fn f_often(th: bool) -> Vec<Scenario> {
    let mut v = vec![];
    for times in if th { vec![20usize, 70, 300] } else { vec![20, 70] } {
        for k in 0..4 {
            let ts = tasks(5, |i, t| {
                t.deps = if i == 4 { vec![2] } else { vec![] };
                let outs: Vec<Out> = (0..times + 1)
                    .map(|r| match i {
                        0 => Out::Exit(1),
                        1 => Out::Exit((r % 3 == 0 || r < 12) as i32),
                        2 => Out::Exit((r < 17) as i32),
                        _ => Out::Exit(0),
                    })
                    .collect();
                t.out = outs[0].clone();
                t.later = outs[1..].to_vec();
                if i == 3 {
                    t.min_ms = 50;
                }
                if k == 3 {
                    t.affinity = 4;
                }
            });
            let mut one = sess(2, ts);
            if k == 3 {
                one.execs[0].prov = prov(vec![client("j0", 2, vec![Op::Serve(99)])]);
            }
            let mut ss: Vec<Session> = match k {
                // many calls in one session
                1 => {
                    one.execs = vec![one.execs[0].clone(); times];
                    vec![one]
                }
                _ => vec![one; times],
            };
            if k == 2 {
                for (i, s) in ss.iter_mut().enumerate() {
                    s.rerun = i % 4 != 3;
                    if i % 5 == 2 {
                        s.execs[0].acts = vec![EnvAct { at_ms: 0, after_starts: 1, act: Act::Sigint }];
                    }
                }
            }
            v.push(Scenario {
                name: format!("often{times}:k{k}"),
                sessions: ss,
                sched: Sched { max_execs: 3, ..Sched::env_only() },
                seed: 7, cuts: vec![], hist: None, disk: false, script: None, io: None,
            });
        }
    }
    v
}
/// Every kind of worker that there can be.
fn f_queues() -> Vec<Scenario> {
    let mut v = vec![];
    for rt in 2..64u32 {
        let other = if rt == 63 { 2 } else { rt + 1 };
        let ts = tasks(5, |i, t| {
            t.affinity = [1 << rt, 1 << other, 1 << rt | 1 << other, u64::MAX, 1 << rt | 1][i];
            t.min_ms = 10;
        });
        for (k, rts) in [vec![rt, other], vec![other, rt], vec![rt, rt, other]].into_iter().enumerate() {
            let cl = rts.iter().enumerate().map(|(i, r)| client(&format!("j{i}"), *r, vec![Op::Serve(9)])).collect();
            v.push(remote(format!("queues:{rt} k{k}"), ts.clone(), (k % 2) as i32, cl, Sched { max_execs: 30, ..Sched::env_only() }));
        }
    }
    v
}
/// Workers for queues that do not exist, however their number is cut to size, and for the two that
/// are served locally as well.
fn f_types() -> Vec<Scenario> {
    let mut v = vec![];
    for rt in [64u32, 65, 66, 127, 128, 129, 130, 191, 192, 194, 255, 256, 257, 258, 511, 512, 514, 65_535, 65_536, 65_538, 1 << 31, u32::MAX - 61, u32::MAX] {
        for all in [false, true] {
            for how in 0..3 {
                let ts = tasks(3, |i, t| {
                    t.affinity = if all { u64::MAX } else { 1 << (rt % 64) | 4 };
                    t.deps = if i == 2 { vec![0] } else { vec![] };
                    t.min_ms = 50;
                });
                let ops = match how {
                    0 => vec![Op::Serve(9)],
                    1 => vec![Op::Start, Op::Start, Op::Begun, Op::Run, Op::End(true), Op::Serve(3)],
                    _ => vec![Op::Sleep(60), Op::Serve(9)],
                };
                let cl = vec![client("j0", rt, ops), client("j1", 2, vec![Op::Sleep(1), Op::Serve(9)])];
                v.push(remote(format!("types:{rt} all{all} how{how}"), ts, 0, cl, Sched { max_execs: 30, ..Sched::env_only() }));
            }
        }
    }
    v
}
/// Keys, arguments and descriptions that are unusual.
fn f_names() -> Vec<Scenario> {
    let odd = [
        "a b", " ", "a\nb", "a\tb", "\"", "'", "\\", "{}", "[1]", "null", "0", "-1", "../x", "\u{e4}\u{20ac}", "\u{1f600}", "\u{0}x", "\u{1b}[31m", "\u{2028}", "%s", "$KEY", "a,b", "a=b", "Ready", "\r", "\u{7f}", "\u{85}", "k\u{301}", ".", "..", "#", "\u{feff}k",
    ];
    let mut names: Vec<String> = odd.iter().map(|s| s.to_string()).collect();
    names.push("x".repeat(255));
    names.push("y".repeat(5_000));
    names.push("\u{e4}".repeat(3_000));
    let mut v = vec![];
    for (ni, name) in names.iter().enumerate() {
        for k in 0..4 {
            let ts = tasks(3, |i, t| {
                if i == 0 {
                    if k < 2 {
                        t.key = name.clone();
                    } else {
                        t.display = Some(name.clone());
                        if !name.contains('\0') {
                            t.extra_args = vec![name.clone(), String::new(), name.clone()];
                        }
                    }
                }
                t.deps = if i == 2 { vec![0] } else { vec![] };
                t.affinity = if k % 2 == 1 { 4 } else { 1 };
                if i == 1 {
                    t.out = Out::Exit(1);
                    t.later = vec![Out::Exit(0)];
                }
            });
            if k < 2 && name.contains('\0') {
                continue;
            }
            let mut s = sess(1, ts);
            if k % 2 == 1 {
                s.execs[0].prov = prov(vec![client("j0", 2, vec![Op::Serve(99)])]);
            }
            v.push(Scenario {
                name: format!("names:{ni} k{k}"),
                sessions: vec![s.clone(), s.clone(), s],
                sched: Sched { max_execs: 10, ..Sched::env_only() },
                seed: 7, cuts: vec![], hist: None, disk: false, script: None, io: None,
            });
        }
    }
    v
}

// ----------------------------------------------------------------------------- queues

fn f_slots(n: usize, full: bool) -> Vec<Scenario> {
    let mut v = vec![];
    for a in words(n, 4) {
        for np in if full { vec![0, 1, 2, 3] } else { vec![1, 2] } {
            for k in 0..2 {
                let ts = tasks(n, |i, t| {
                    t.affinity = [1, 2, 3, 7][a[i]];
                    t.deps = if k == 1 && i == n - 1 { vec![0] } else { vec![] };
                });
                if np == 0 {
                    continue;
                }
                v.push(one(format!("slots{n}:q{} np{np} k{k}", wname(&a)), sess(np, ts), Sched::env_only()));
            }
        }
    }
    v
}
/// Many slots and more tasks than that.
fn f_slots_many() -> Vec<Scenario> {
    let mut v = vec![];
    for np in [3, 4, 5, 6, 7, 8, 12, 16, 33] {
        let n = np as usize + np as usize / 2 + 3;
        for k in 0..4 {
            let ts = tasks(n, |i, t| {
                t.min_ms = [0, 1_000, 1_000 * (i as u64 % 3), 1_000 * (n - i) as u64][k];
                t.affinity = if k == 2 && i % 3 == 2 { 3 } else { 1 };
                t.deps = if k == 3 && i > 0 && i % 4 == 0 { vec![i as u32 - 1] } else { vec![] };
            });
            v.push(one(format!("manyslots:np{np} k{k}"), sess(np, ts), Sched { max_execs: 40, ..Sched::env_only() }));
        }
    }
    v
}
/// No local slots: everything is for the workers.
fn f_noslots() -> Vec<Scenario> {
    let mut v = vec![];
    for a in words(3, 3) {
        for rts in [vec![2u32, 3], vec![3, 2], vec![2, 63]] {
            let ts = tasks(3, |i, t| {
                t.affinity = [1 << 2, 1 << rts[1], 1 << 2 | 1 << rts[1] | 3][a[i]] | if a[i] == 1 && rts[1] == 2 { 8 } else { 0 };
                if rts.contains(&3) && !rts.contains(&2) {
                    t.affinity |= 8;
                }
            });
            let cl = rts.iter().enumerate().map(|(i, r)| client(&format!("j{i}"), *r, vec![Op::Serve(9)])).collect();
            v.push(remote(format!("noslots:q{} r{rts:?}", wname(&a)), ts, 0, cl, Sched::env_only()));
        }
    }
    v
}
/// Several tasks of different depth wait for one slot.
/// An earlier session ran some of the tasks without what they depend on now.
fn f_regraph(n: usize, nouts: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for w in words(n, nouts) {
            for mask in 1..1u32 << n {
                for t in 0..n + 1 {
                    if mask == (1 << n) - 1 && t == n {
                        continue;
                    }
                    let mut ts = graph(&d);
                    for (t, o) in ts.iter_mut().zip(&w) {
                        t.out = OUTS[*o].clone();
                        t.later = vec![Out::Exit(0)];
                    }
                    let first = (0..n).filter(|i| mask >> i & 1 == 1).map(|i| {
                        let mut t = ts[i].clone();
                        t.deps = vec![];
                        t
                    });
                    let s1 = sess(1, first.collect());
                    let mut s2 = sess(2, ts);
                    s2.execs[0].target = if t < n { Some(t as u32) } else { None };
                    v.push(Scenario {
                        name: format!("regraph{n}:{} out{} first{mask} t{t}", gname(&d), wname(&w)),
                        sessions: vec![s1, s2],
                        sched: Sched::env_only(),
                        seed: 7, cuts: vec![], hist: None, disk: false, script: None, io: None,
                    });
                }
            }
        }
    }
    v
}
/// The graph grows between two calls.
fn f_prio_grow(n: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for first in 1..n {
            for np in [1, 2] {
                let mut s = sess(np, graph(&d));
                s.execs = vec![Exec { ntasks: Some(first), ..Default::default() }, Exec::default()];
                v.push(one(format!("priogrow{n}:{} first{first} np{np}", gname(&d)), s, Sched::env_only()));
            }
        }
    }
    v
}
/// Some of the tasks are left over from an earlier session, or one asks for a target first.
fn f_prio_two(n: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for x in 0..2 * n {
            let mut ts = graph(&d);
            let mut ss = vec![];
            if x < n {
                ts[x].out = Out::Exit(1);
                ts[x].later = vec![Out::Exit(0)];
                ss.push(sess(1, ts.clone()));
                ss.push(sess(1, ts));
            } else {
                let mut s = sess(1, ts);
                s.execs = vec![Exec { target: Some((x - n) as u32), ..Default::default() }, Exec::default()];
                ss.push(s);
            }
            v.push(Scenario {
                name: format!("priotwo{n}:{} x{x}", gname(&d)),
                sessions: ss,
                sched: Sched::env_only(),
                seed: 7, cuts: vec![], hist: None, disk: false, script: None, io: None,
            });
        }
    }
    v
}
/// The first session is killed at every point of its log, twice perhaps; then it goes on.
fn f_killed(th: bool) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(if th { 3 } else { 2 }) {
        for w in words(d.len(), 2) {
            for cuts in [vec![Cut::Lines, Cut::No, Cut::No], vec![Cut::No, Cut::Lines, Cut::No], vec![Cut::Lines, Cut::Lines, Cut::No]] {
                let mut ts = graph(&d);
                for (t, o) in ts.iter_mut().zip(&w) {
                    t.out = OUTS[*o].clone();
                    t.later = vec![OUTS[*o].clone(), Out::Exit(0)];
                    t.storage_root = 1;
                }
                let ss: Vec<Session> = (0..3)
                    .map(|_| {
                        let mut s = sess(2, ts.clone());
                        s.storage_roots = vec!["".into(), "sub/$KEY".into()];
                        s
                    })
                    .collect();
                let sc = Scenario {
                    name: format!("killed:{} out{} cuts{cuts:?}", gname(&d), wname(&w)),
                    sessions: ss,
                    sched: Sched { max_execs: 200_000, ..Sched::env_only() },
                    seed: 7, cuts, hist: None, disk: false, script: None, io: None,
                };
                // the same with a task that has no key
                for i in 0..if th || d.len() < 2 { d.len() } else { 1 } {
                    let mut q = Scenario { name: format!("{} nokey{i}", sc.name), ..sc.clone() };
                    for s in &mut q.sessions {
                        s.tasks[i].key = String::new();
                    }
                    v.push(q);
                }
                v.push(sc);
            }
        }
    }
    v
}
fn f_prio(n: usize, nps: &[i32]) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for np in nps {
            v.push(one(format!("prio{n}:{} np{np}", gname(&d)), sess(*np, graph(&d)), Sched::env_only()));
        }
    }
    v
}
/// Many tasks of many depths become ready at once, in every order: they hang on a chain that has run.
fn f_prio_wide(th: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let mut shapes: Vec<(String, usize, Vec<usize>)> = vec![];
    let depths = [0usize, 2, 5, 8];
    for n in if th { vec![3, 4, 5, 6] } else { vec![3, 4, 5] } {
        for w in words(n, depths.len()) {
            shapes.push((wname(&w), 8, w.iter().map(|i| depths[*i]).collect()));
        }
    }
    for step in 1..9 {
        for from in 0..if th { 9 } else { 3 } {
            shapes.push((format!("s{step}-{from}"), 8, (0..18).map(|i| (from + i * step) % 9).collect()));
        }
    }
    // more depths than fit into a byte
    for rot in 0..if th { 5 } else { 2 } {
        let mut ds = vec![40, 300, 256, 255, 299];
        ds.rotate_left(rot);
        shapes.push((format!("deep{rot}"), 300, ds));
    }
    for (name, spine, ds) in shapes {
        for kind in 0..4 {
            if !th && (ds.len() == 5 || spine > 8) && (kind == 1 || kind == 2) {
                continue;
            }
            let n = spine + ds.len();
            let ts = tasks(n, |i, t| {
                t.deps = match i {
                    0 => vec![],
                    _ if i < spine => vec![i as u32 - 1],
                    // at depth d: depends on the d-th of the chain
                    _ => ds[i - spine].checked_sub(1).map(|d| d as u32).into_iter().collect(),
                };
                t.affinity = match kind {
                    2 => [1, 5, 4][i % 3],
                    3 => [1, 3, 2][i % 3],
                    _ => 1,
                };
            });
            let mut s = sess(1 + i32::from(kind == 1), ts);
            if kind != 1 {
                // the chain has run before
                s.execs = vec![Exec { target: Some(spine as u32 - 1), ..Default::default() }, Exec::default()];
            }
            if kind == 2 {
                for e in &mut s.execs {
                    e.prov = prov(vec![client("j0", 2, vec![Op::Serve(40)])]);
                }
            }
            v.push(one(format!("priowide:{name} kind{kind}"), s, Sched { max_execs: 50, ..Sched::env_only() }));
        }
    }
    v
}
fn f_prio_remote(n: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        let mut ts = graph(&d);
        ts.iter_mut().for_each(|t| t.affinity = 4);
        v.push(remote(format!("prioremote{n}:{}", gname(&d)), ts, 0, vec![client("j0", 2, vec![Op::Serve(9)])], Sched::env_only()));
    }
    v
}

// ----------------------------------------------------------------------------- server

fn f_status(n: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for w in words(n, 2) {
            for a in 0..4 {
                let mut ts = graph(&d);
                for (i, (t, o)) in ts.iter_mut().zip(&w).enumerate() {
                    t.out = OUTS[*o].clone();
                    t.affinity = match a {
                        0 => 1,
                        1 => 4,
                        2 => 5,
                        _ => [4, 1, 2][i % 3],
                    };
                }
                let st = Op::Status { etag: 0, timemin: 0, timeout: 0 };
                let mut cl = vec![client("", 9, vec![st.clone(), st.clone(), Op::AdminStatus, st])];
                if a > 0 {
                    cl.push(client("j0", 2, vec![Op::Serve(9)]));
                }
                v.push(remote(format!("status{n}:{} out{} q{a}", gname(&d), wname(&w)), ts, 1, cl, Sched { max_execs: 3000, ..Sched::env_only() }));
            }
        }
    }
    v
}
/// Observation goes on while tasks run for some time; a second session sees only what is left.
fn f_poll(n: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for (tmin, tout) in [(0u64, 700u64), (300, 300), (500, 100), (3000, 700), (400, 3000), (700, 3000), (900, 5000), (0, 60_000)] {
            for np in [1, 2] {
                let mut ts = graph(&d);
                for (i, t) in ts.iter_mut().enumerate() {
                    t.min_ms = [250, 600, 350, 900][i % 4];
                }
                let ops = vec![Op::Poll { timemin: tmin, timeout: tout }; 5];
                v.push(remote(format!("poll{n}:{} {tmin}-{tout} np{np}", gname(&d)), ts, np, vec![client("", 9, ops)], Sched { max_execs: 2000, ..Sched::env_only() }));
            }
        }
    }
    v
}
fn f_average() -> Vec<Scenario> {
    let mut v = vec![];
    for w in words(3, 3) {
        for np in [1, 3] {
            let mut ts = tasks(3, |i, t| t.min_ms = [250, 6000, 1350][i]);
            for (t, o) in ts.iter_mut().zip(&w) {
                t.out = OUTS[*o].clone();
            }
            let mut ops = vec![];
            for _ in 0..5 {
                ops.extend([Op::Status { etag: 0, timemin: 0, timeout: 0 }, Op::Sleep(1600)]);
            }
            v.push(remote(format!("average:{} np{np}", wname(&w)), ts, np, vec![client("", 9, ops)], Sched { max_execs: 500, ..Sched::env_only() }));
        }
    }
    v
}
fn f_poll_inter(sched: &dyn Fn() -> Sched) -> Vec<Scenario> {
    let mut v = vec![];
    let ts = tasks(2, |i, t| {
        t.deps = (0..i as u32).collect();
        t.min_ms = 200 + 700 * i as u64;
    });
    let ops = vec![Op::Poll { timemin: 0, timeout: 5000 }, Op::Poll { timemin: 0, timeout: 600 }];
    v.push(remote("pollinter".into(), ts.clone(), 1, vec![client("", 9, ops)], sched()));
    let ops = vec![Op::Poll { timemin: 0, timeout: 0 }, Op::Poll { timemin: 0, timeout: 600 }];
    v.push(remote("pollinter0".into(), ts, 1, vec![client("", 9, ops)], sched()));
    // what becomes ready stays so: there is no worker
    for fan in [1, 2] {
        let ts = tasks(1 + fan, |i, t| {
            t.min_ms = 300;
            if i > 0 {
                t.deps = vec![0];
                t.affinity = if i == 1 { 4 } else { 16 };
            }
        });
        let p = |timemin, timeout| Op::Poll { timemin, timeout };
        for (nm, ops) in [("wait", vec![p(0, 0), p(0, 2000), p(0, 400)]), ("min", vec![p(0, 0), p(600, 2000), p(0, 400)])] {
            let mut s = remote(format!("pollready{fan}{nm}"), ts.clone(), 1, vec![client("", 9, ops)], sched());
            s.sessions[0].execs[0].acts = vec![EnvAct { at_ms: 20_000, after_starts: 0, act: Act::ProvExit(0) }];
            v.push(s);
        }
    }
    v
}
/// Polls that begin in the moment there is news, and several at once.
fn f_poll_race(sched: &dyn Fn() -> Sched) -> Vec<Scenario> {
    let mut v = vec![];
    let p = |timemin, timeout| Op::Poll { timemin, timeout };
    for np in 1..4usize {
        for at in [100u64, 300] {
            for tmin in [0u64, 300] {
                for first in [false, true] {
                    for via in [false, true] {
                        // k0 is with a worker or here, k1 stays ready
                        let ts = tasks(2, |i, t| {
                            t.affinity = if i == 1 { 16 } else if via { 4 } else { 1 };
                            t.deps = (0..i as u32).collect();
                            t.min_ms = 300;
                        });
                        let mut cl: Vec<Client> = (0..np)
                            .map(|k| client("", 9, vec![p(0, 0), Op::Sleep(if k == 0 { at } else { 50 * k as u64 }), p(tmin, 2000), p(0, 400)]))
                            .collect();
                        if via {
                            let w = client("j0", 2, vec![Op::AutoPing(true), Op::Start, Op::Begun, Op::Sleep(300), Op::End(false)]);
                            if first {
                                cl.insert(0, w);
                            } else {
                                cl.push(w);
                            }
                        } else if first {
                            continue;
                        }
                        let mut s = remote(format!("pollrace:n{np} at{at} min{tmin} first{first} via{via}"), ts, 1, cl, sched());
                        s.sessions[0].execs[0].acts = vec![EnvAct { at_ms: 20_000, after_starts: 0, act: Act::ProvExit(0) }];
                        v.push(s);
                    }
                }
            }
        }
    }
    v
}
fn f_heart(full: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let ping = |ms: u64| vec![Op::Sleep(ms), Op::Ping];
    let mut scripts: Vec<(String, Vec<Op>)> = vec![
        ("honest".into(), vec![Op::Serve(3)]),
        ("vanish".into(), vec![Op::Start, Op::Vanish]),
        ("vanish-begun".into(), vec![Op::Start, Op::Begun, Op::Vanish]),
    ];
    for ms in [1_000u64, 14_000, 15_000, 29_000] {
        for k in 1..if full { 4 } else { 3 } {
            let mut o = vec![Op::AutoPing(false), Op::Start, Op::Begun];
            for _ in 0..k {
                o.extend(ping(ms));
            }
            let mut end = o.clone();
            end.extend([Op::Sleep(ms), Op::End(false), Op::Serve(2)]);
            v.push(("".to_string(), 0u64));
            scripts.push((format!("ping{ms}x{k}-end"), end));
            let mut gone = o.clone();
            gone.push(Op::Vanish);
            scripts.push((format!("ping{ms}x{k}-vanish"), gone));
            let mut late = o;
            late.extend([Op::Sleep(45_000), Op::Ping, Op::End(false), Op::Serve(2)]);
            scripts.push((format!("ping{ms}x{k}-late"), late));
        }
    }
    let mut out = vec![];
    for (n, ops) in scripts {
        for long in [1_000u64, 100_000] {
            for two in [false, true] {
                let ts = tasks(3, |i, t| {
                    t.affinity = 4;
                    t.min_ms = if i == 0 { long } else { 500 };
                    t.deps = if i == 2 { vec![0] } else { vec![] };
                });
                let mut ops = ops.clone();
                if ops[0] == Op::AutoPing(false) {
                    ops.insert(0, Op::Sleep(0));
                    // pings are scripted: off again once the first gate has passed
                    ops.swap(0, 1);
                }
                let mut cl = vec![client("j0", 2, ops)];
                cl.push(Client { at_ms: 200, ..client("j1", 2, vec![Op::Serve(9)]) });
                if two {
                    cl.push(Client { at_ms: 150, ..client("j2", 2, vec![Op::Start, Op::Begun, Op::Vanish]) });
                }
                for (i, c) in cl.iter_mut().enumerate() {
                    c.msg = format!("worker {i} is lost\n");
                }
                // workers give up after 30s without work, so others come later
                for k in 0..6u64 {
                    cl.push(Client { at_ms: 40_000 + 25_000 * k, ..client(&format!("s{k}"), 2, vec![Op::Serve(9)]) });
                }
                let mut s = remote(format!("heart:{n} long{long} two{two}"), ts, 0, cl, Sched { max_execs: 400, ..Sched::env_only() });
                s.sessions[0].execs[0].acts = vec![EnvAct { at_ms: 400_000, after_starts: 0, act: Act::ProvExit(0) }];
                out.push(s);
            }
        }
    }
    out
}
/// Reports around the time a worker is given up, many workers whose timers share slots, and work
/// that outlasts the timers many times over.
fn f_heart2(full: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let spare = |v: &mut Vec<Client>, from: u64, to: u64| {
        let mut at = from;
        while at < to {
            v.push(Client { at_ms: at, ..client(&format!("s{at}"), 2, vec![Op::Serve(9)]) });
            at += 25_000;
        }
    };
    // a report that comes that long after the last sign of life, from workers that began at
    // different times in relation to the ticks of the server
    let mut silences: Vec<u64> = vec![25_000, 28_000, 29_900, 41_000, 45_000];
    let (step, phases): (u64, Vec<u64>) = if full { (40, (0..14).map(|k| 50 + k * 10).collect()) } else { (80, vec![50, 75, 95, 120, 140]) };
    let mut ms = 33_000;
    while ms < 37_000 {
        silences.push(ms);
        ms += if (34_500..35_300).contains(&ms) { step / 4 } else { step };
    }
    for si in silences {
        for ph in &phases {
            for (pings, begun) in [(0, true), (0, false), (2, true)] {
                for kind in 0..2 {
                    let ts = tasks(2, |i, t| {
                        t.affinity = 4;
                        t.deps = if i == 1 { vec![0] } else { vec![] };
                        t.min_ms = 10;
                        t.out = Out::Exit(if kind == 1 { 3 } else { 0 });
                    });
                    let mut ops = vec![Op::AutoPing(false), Op::Start];
                    if begun {
                        ops.push(Op::Begun);
                    }
                    for _ in 0..pings {
                        ops.extend([Op::Sleep(14_000), Op::Ping]);
                    }
                    ops.push(Op::Sleep(si));
                    if !begun {
                        ops.push(Op::Begun);
                    }
                    // or a ping first
                    if kind == 1 {
                        ops.push(Op::Ping);
                    }
                    ops.extend([Op::Run, Op::End(false), Op::Serve(2)]);
                    let mut cl = vec![Client { at_ms: *ph, ..client("j0", 2, ops) }];
                    spare(&mut cl, 40_000, 160_000);
                    let sched = if full { Sched { max_execs: 300, ..Sched::all(1) } } else { Sched { max_execs: 6, ..Sched::env_only() } };
                    let mut s = remote(format!("heart2:{si} ph{ph} pings{pings} begun{begun} kind{kind}"), ts, 0, cl, sched);
                    s.sessions[0].execs[0].acts = vec![EnvAct { at_ms: 300_000, after_starts: 0, act: Act::ProvExit(0) }];
                    out.push(s);
                }
            }
        }
    }
    // in the very moment (35s are 255 ticks of 35001/256 ms)
    for si in 34_811..34_818 {
        for what in 0..5 {
            let ts = tasks(3, |i, t| {
                t.affinity = 4;
                t.deps = if i == 2 { vec![0] } else { vec![] };
                t.min_ms = if i == 1 { 60_000 } else { 10 };
            });
            let mut ops = vec![Op::AutoPing(false), Op::Start];
            if what != 2 {
                ops.push(Op::Begun);
            }
            ops.push(Op::Sleep(si));
            match what {
                0 => ops.extend([Op::Run, Op::End(false)]),
                1 => ops.extend([Op::Ping, Op::Run, Op::End(false)]),
                2 => ops.extend([Op::Begun, Op::Run, Op::End(false)]),
                3 => ops.extend([Op::Ping, Op::Sleep(14_000), Op::Ping, Op::Run, Op::End(false)]),
                _ => ops.extend([Op::Run, Op::End(true)]),
            }
            ops.push(Op::Serve(2));
            let mut cl = vec![Client { at_ms: 50, ..client("j0", 2, ops) }, client("j1", 2, vec![Op::Serve(2)])];
            spare(&mut cl, 40_000, 130_000);
            let w = Some((34_800, 34_900));
            let sched = if full { Sched { window: w, max_execs: 200_000, ..Sched::bursts(2) } } else { Sched { window: w, max_execs: 20_000, ..Sched::bursts(2) } };
            let mut s = remote(format!("heart2:moment{si} what{what}"), ts, 0, cl, sched);
            s.sessions[0].execs[0].acts = vec![EnvAct { at_ms: 300_000, after_starts: 0, act: Act::ProvExit(0) }];
            out.push(s);
        }
    }
    // many at once
    for n in if full { vec![8usize, 40, 120] } else { vec![8, 40] } {
        for gap in [0u64, 3, 137, 700] {
            for who in 0..5 {
                let quiet = |i: usize| match who {
                    0 => i % 2 == 0,
                    1 => i % 2 == 1,
                    2 => i == n / 2,
                    3 => i != n / 2,
                    _ => false,
                };
                let ts = tasks(n, |i, t| {
                    t.affinity = 4;
                    t.min_ms = 50_000 + 400 * (i as u64 % 4);
                });
                let mut cl: Vec<Client> = (0..n)
                    .map(|i| {
                        let mut ops = vec![Op::AutoPing(false), Op::Start, Op::Begun];
                        if quiet(i) {
                            if i % 3 == 0 {
                                ops.extend([Op::Sleep(10_000), Op::Ping]);
                            }
                            ops.push(Op::Vanish);
                        } else {
                            for _ in 0..3 {
                                ops.extend([Op::Sleep(15_000), Op::Ping]);
                            }
                            ops.extend([Op::Run, Op::End(false)]);
                        }
                        Client { at_ms: 50 + gap * i as u64, ..client(&format!("j{i}"), 2, ops) }
                    })
                    .collect();
                for (i, c) in cl.iter_mut().enumerate() {
                    c.msg = format!("worker {i} of many is lost\n");
                }
                let mut s = remote(format!("heart2:many{n} gap{gap} who{who}"), ts, 0, cl, Sched { max_execs: 3, ..Sched::env_only() });
                s.sessions[0].execs[0].acts = vec![EnvAct { at_ms: 300_000, after_starts: 0, act: Act::ProvExit(0) }];
                out.push(s);
            }
        }
    }
    // longer than the timers go round
    for period in [5_000u64, 14_990, 15_000, 29_000] {
        for total in if full { vec![100_000u64, 400_000, 2_000_000] } else { vec![100_000, 400_000] } {
            // a worker may take its time to say that it has begun
            for (vanish, begun) in [(false, 0), (true, 0), (false, 1), (true, 1), (false, 2), (true, 2), (false, 3)] {
                if begun > 0 && total > 400_000 {
                    continue;
                }
                let ts = tasks(2, |_, t| {
                    t.affinity = 4;
                    t.min_ms = 0;
                });
                let mut ops = vec![Op::AutoPing(false), Op::Start];
                if begun == 0 {
                    ops.push(Op::Begun);
                }
                let n = total / period;
                for k in 0..n {
                    ops.extend([Op::Sleep(period), Op::Ping]);
                    if begun == 1 && k == n / 2 {
                        ops.push(Op::Begun);
                    }
                }
                if begun == 2 && !vanish {
                    ops.push(Op::Begun);
                }
                if vanish {
                    ops.push(Op::Vanish);
                } else {
                    ops.extend([Op::Run, Op::End(false), Op::Serve(1)]);
                }
                let cl = vec![client("j0", 2, ops), Client { at_ms: 200, ..client("j1", 2, vec![Op::Serve(1)]) }];
                let mut s = remote(format!("heart2:long{total} every{period} vanish{vanish} begun{begun}"), ts, 0, cl, Sched { max_execs: 3, ..Sched::env_only() });
                s.sessions[0].execs[0].acts = vec![EnvAct { at_ms: total + 200_000, after_starts: 0, act: Act::ProvExit(0) }];
                out.push(s);
            }
        }
    }
    out
}
fn bad(path: &str, token: bool, job: Option<&str>, txn: Txn) -> Op {
    Op::Bad { path: path.into(), token, wrong: 0, jobid: job.map(|s| s.into()), txn }
}
fn f_auth(full: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let mut bads: Vec<Op> = vec![];
    for p in ["/begun", "/end", "/ping", "/start"] {
        for j in [None, Some("j0"), Some("j1")] {
            for t in [Txn::Mine, Txn::Of(0), Txn::Of(1), Txn::Bogus] {
                bads.push(bad(p, false, j, t.clone()));
                // with a token, only what has to be turned down
                match p {
                    "/end" if (j == Some("j0") && t == Txn::Of(0)) || (j == Some("j1") && matches!(t, Txn::Of(1) | Txn::Mine)) => {}
                    "/begun" if t != Txn::Bogus && j.is_some() => {}
                    "/start" if j.is_some() => {}
                    _ => bads.push(bad(p, true, j, t)),
                }
            }
        }
    }
    bads.push(bad("/mark-slurm-job-cancelation", false, None, Txn::Bogus));
    // a token that almost is the right one
    let near = bads.len();
    for w in 1..15 {
        for p in ["/begun", "/end", "/ping", "/start", "/mark-slurm-job-cancelation"] {
            bads.push(Op::Bad { path: p.into(), token: false, wrong: w, jobid: Some("j0".into()), txn: Txn::Of(0) });
        }
    }
    for (bi, b) in bads.into_iter().enumerate() {
        for phase in 0..5 {
            if !full && (phase == 4 || bi >= near && phase != 2) {
                continue;
            }
            // j1 misbehaves before, while and after it has a task of its own; j0 is honest
            let ops = match phase {
                0 => vec![b.clone(), Op::Serve(3)],
                1 => vec![Op::Start, b.clone(), Op::Begun, Op::Run, Op::End(false), Op::Serve(3)],
                2 => vec![Op::Start, Op::Begun, b.clone(), Op::Run, Op::End(false), Op::Serve(3)],
                3 => vec![Op::Start, Op::Begun, Op::Run, Op::End(false), b.clone(), Op::Serve(3)],
                _ => vec![Op::Start, Op::Begun, b.clone(), b.clone(), Op::Run, Op::End(true), Op::Serve(3)],
            };
            let ts = tasks(3, |i, t| {
                t.affinity = 4;
                t.out = if i == 1 { Out::Exit(5) } else { Out::Exit(0) };
                t.deps = if i == 2 { vec![0] } else { vec![] };
            });
            let cl = vec![client("j0", 2, vec![Op::Serve(9)]), client("j1", 2, ops)];
            v.push(remote(format!("auth:{bi} phase{phase}"), ts, 0, cl, Sched { max_execs: if bi < near { 500 } else { 20 }, ..Sched::env_only() }));
        }
    }
    v
}
/// Repeated, late and out of order reports.
fn f_dup() -> Vec<Scenario> {
    let mut v = vec![];
    let scripts: Vec<(&str, Vec<Op>)> = vec![
        ("begun2", vec![Op::Start, Op::Begun, Op::Begun, Op::Run, Op::End(false), Op::Serve(3)]),
        ("nobegun", vec![Op::Start, Op::Run, Op::End(false), Op::Serve(3)]),
        ("end2", vec![Op::Start, Op::Begun, Op::Run, Op::End(false), bad("/end", true, Some("j1"), Txn::Last), Op::Serve(3)]),
        ("endbegun", vec![Op::Start, Op::Run, Op::End(false), bad("/begun", true, Some("j1"), Txn::Last), Op::Serve(3)]),
        ("start2", vec![Op::Start, Op::Begun, Op::Ping, Op::Ping, Op::Run, Op::End(true), Op::Serve(3)]),
        ("pingbogus", vec![bad("/ping", true, Some("j1"), Txn::Bogus), Op::Serve(3)]),
    ];
    for (n, ops) in scripts {
        for c in 0..2 {
            let ts = tasks(3, |i, t| {
                t.affinity = 4;
                t.deps = if i == 2 { vec![0] } else { vec![] };
                t.out = if i == 1 { Out::Exit(1) } else { Out::Exit(0) };
            });
            let mut cl = vec![client("j0", 2, if c == 0 { vec![] } else { vec![Op::Serve(9)] }), client("j1", 2, ops.clone())];
            cl.push(client("j2", 2, vec![Op::Serve(9)]));
            v.push(remote(format!("dup:{n} c{c}"), ts, 0, cl, Sched { max_execs: 2000, ..Sched::env_only() }));
        }
    }
    v
}
fn f_cancel(sched: &dyn Fn() -> Sched) -> Vec<Scenario> {
    let mut v = vec![];
    let mark = |j: &[&str]| Op::MarkCancel(j.iter().map(|s| s.to_string()).collect());
    let admins: Vec<(&str, Vec<Op>)> = vec![
        ("one", vec![mark(&["j0"])]),
        ("both", vec![mark(&["j0", "j1", "jx"])]),
        ("twice", vec![mark(&["j0"]), mark(&["j0", "j1"])]),
        ("unknown", vec![mark(&["jx"]), mark(&["j1", "jx"])]),
        ("each", vec![mark(&["j0"]), mark(&["j1"])]),
        ("many", vec![mark(&["j1"]), mark(&["jx", "j0"]), mark(&[]), mark(&["jy"])]),
    ];
    for (n, ops) in admins {
        for k in 0..3 {
            for late in [0u64, 300] {
                for w in 0..4 {
                    let ts = tasks(3, |i, t| {
                        t.affinity = 4;
                        t.deps = match k {
                            0 => vec![],
                            1 => (0..i as u32).collect(),
                            _ => {
                                if i == 0 {
                                    vec![]
                                } else {
                                    vec![0]
                                }
                            }
                        };
                        if i == 0 && k == 1 {
                            t.affinity = 1;
                            t.min_ms = 100;
                        }
                    });
                    let work = match w {
                        0 | 3 => vec![Op::Serve(9)],
                        1 => vec![Op::Start, Op::Begun, Op::Run, Op::End(false), Op::Start, Op::Begun, Op::Run, Op::End(true), Op::Serve(2)],
                        _ => vec![Op::Start, Op::Begun, Op::Run, Op::End(true), Op::Begun, Op::Run, Op::End(false), Op::Serve(2)],
                    };
                    let mut cl = vec![client("j0", 2, work.clone()), client("j1", 2, work), client("adm", 9, ops.clone())];
                    cl[2].at_ms = late;
                    if w == 3 {
                        cl[0].at_ms = late + 200;
                        cl[1].at_ms = late + 200;
                    }
                    cl.push(client("safe", 2, vec![Op::Serve(9)]));
                    cl[3].at_ms = 1_000;
                    v.push(remote(format!("cancel:{n} k{k} at{late} w{w}"), ts, 1, cl, sched()));
                }
            }
        }
    }
    v
}
fn f_rate(full: bool) -> Vec<Scenario> {
    let mut v = vec![];
    for rate in if full { vec![1u32, 2, 3, 5, 10] } else { vec![1, 2, 5] } {
        for np in [1, 3] {
            for dur in [0u64, 300, 1_500] {
                for shape in 0..3 {
                    let n = if rate >= 5 { 40 } else { 20 };
                    let ts = tasks(n, |i, t| {
                        t.min_ms = dur;
                        t.deps = match shape {
                            0 => vec![],
                            1 => {
                                if i == 0 {
                                    vec![]
                                } else {
                                    vec![0]
                                }
                            }
                            _ => {
                                if i < 10 {
                                    vec![]
                                } else {
                                    vec![i as u32 - 10]
                                }
                            }
                        };
                    });
                    let mut s = sess(np, ts);
                    s.execs[0].rate = rate;
                    v.push(one(format!("rate:{rate} np{np} dur{dur} shape{shape}"), s, Sched { max_execs: 25, ..Sched::env_only() }));
                }
            }
        }
        // workers
        for nc in [1usize, 3] {
            let ts = tasks(15, |_, t| t.affinity = 4);
            let mut cl: Vec<Client> = (0..nc).map(|i| client(&format!("j{i}"), 2, vec![Op::Serve(99)])).collect();
            cl[0].at_ms = 0;
            let mut s = remote(format!("rateremote:{rate} c{nc}"), ts, 0, cl, Sched { max_execs: 40, ..Sched::env_only() });
            s.sessions[0].execs[0].rate = rate;
            v.push(s);
        }
    }
    for (a, b) in [(0u32, 2u32), (1, 5), (5, 1), (1, 0), (2, 1)] {
        for at in [0u64, 1_500, 4_200] {
            let ts = tasks(30, |_, t| t.min_ms = 50);
            let cl = vec![Client { at_ms: at, ..client("", 9, vec![Op::AdminRate(b)]) }];
            let mut s = remote(format!("rateadmin:{a}-{b} at{at}"), ts, 2, cl, Sched { max_execs: 40, ..Sched::env_only() });
            s.sessions[0].execs[0].rate = a;
            v.push(s);
        }
    }
    v
}
/// Bursts of ready tasks with pauses in between: task 0, 1, .. are the pauses.
fn f_pauses(full: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let gaps: &[u64] = if full { &[0, 700, 2_500, 12_000, 70_000] } else { &[0, 700, 4_000, 70_000] };
    for rate in if full { vec![1u32, 2, 3, 7, 20] } else { vec![1, 3, 7] } {
        for g in words(if full { 3 } else { 2 }, gaps.len()) {
            for burst in if full { vec![rate + 1, 2 * rate + 3] } else { vec![2 * rate + 3] } {
                for kind in 0..3 {
                    let m = g.len();
                    let ts = tasks(m + m * burst as usize, |i, t| {
                        if i < m {
                            // a worker does not wait for longer than half a minute
                            t.min_ms = if kind == 2 { gaps[g[i]].min(9_000) } else { gaps[g[i]] };
                            t.deps = (0..i as u32).rev().take(1).collect();
                        } else {
                            t.deps = vec![((i - m) / burst as usize) as u32];
                            if kind == 2 {
                                t.affinity = 4;
                            }
                        }
                    });
                    let name = format!("ratepause:{rate} gaps{} burst{burst} kind{kind}", wname(&g));
                    let sched = Sched { max_execs: if full { 400 } else { 60 }, ..Sched::env_only() };
                    let mut s = if kind == 2 {
                        remote(name, ts, 2, vec![client("j0", 2, vec![Op::Serve(999)])], sched)
                    } else {
                        one(name, sess(if kind == 0 { 2 } else { 9 }, ts), sched)
                    };
                    s.sessions[0].execs[0].rate = rate;
                    v.push(s);
                }
            }
        }
    }
    // the limit changes after a pause, or while tasks wait for it
    for (a, b) in [(0u32, 2u32), (1, 6), (6, 1), (3, 0), (2, 3), (20, 2)] {
        for at in [0u64, 900, 5_000, 20_000] {
            for gap in [0u64, 4_000, 20_000] {
                let ts = tasks(31, |i, t| {
                    if i == 0 {
                        t.min_ms = gap;
                    } else {
                        t.deps = vec![0];
                    }
                });
                let cl = vec![Client { at_ms: at, ..client("", 9, vec![Op::AdminRate(b)]) }];
                let mut s = remote(format!("ratechange:{a}-{b} at{at} gap{gap}"), ts, 3, cl, Sched { max_execs: 100, ..Sched::env_only() });
                s.sessions[0].execs[0].rate = a;
                v.push(s);
            }
        }
    }
    v
}
fn f_admin() -> Vec<Scenario> {
    let mut v = vec![];
    let st = Op::Status { etag: 0, timemin: 0, timeout: 0 };
    let scripts: Vec<(&str, Vec<Op>, Vec<Op>)> = vec![
        ("rate", vec![Op::AdminRate(7), st.clone(), Op::AdminStatus, Op::AdminRate(0), st.clone()], vec![st.clone(), Op::AdminStatus]),
        (
            "info",
            vec![Op::AdminInfo(Some("x".into())), st.clone(), Op::AdminInfo(None), Op::AdminStatus, Op::AdminInfo(Some("".into())), st.clone()],
            vec![st.clone(), Op::AdminStatus],
        ),
        ("both", vec![Op::AdminRate(100), Op::AdminInfo(Some("y".into())), st.clone()], vec![Op::AdminInfo(Some("z".into())), st.clone(), Op::AdminRate(1000), st.clone()]),
        ("same", vec![Op::AdminRate(3), Op::AdminRate(3), st.clone(), Op::AdminRate(1), st.clone()], vec![Op::AdminRate(20), st.clone()]),
    ];
    for (n, a, b) in scripts {
        for rate in [0u32, 4] {
            for np in [1, 2] {
                for k in 0..2 {
                    let ts = tasks(3, |i, t| {
                        t.min_ms = 10 * k;
                        t.deps = if i == 2 { vec![0] } else { vec![] }
                    });
                    let cl = vec![client("", 9, a.clone()), client("", 9, b.clone())];
                    let mut s = remote(format!("admin:{n} r{rate} np{np} k{k}"), ts, np, cl, Sched { max_execs: 2500, ..Sched::env_only() });
                    s.sessions[0].execs[0].rate = rate;
                    v.push(s);
                }
            }
        }
    }
    v
}
fn with_hooks(mut v: Vec<Scenario>, tag: &str) -> Vec<Scenario> {
    for s in &mut v {
        s.name = format!("hooks-{tag}-{}", s.name);
        for q in &mut s.sessions {
            for t in &mut q.tasks {
                t.pre = true;
                t.post = true;
            }
        }
    }
    v
}
/// Preambles that report an error.
fn f_prefail(n: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for d in dags(n) {
        for bad in 1..1u32 << n {
            for q in [1u64, 2, 4, 5] {
                let mut ts = graph(&d);
                for (i, t) in ts.iter_mut().enumerate() {
                    t.affinity = q;
                    t.pre = true;
                    t.post = true;
                    t.pre_fails = bad >> i & 1 == 1;
                }
                let mut cl = vec![];
                if q & 4 != 0 {
                    // a refused worker does not come back
                    for k in 0..n as u64 + 1 {
                        cl.push(Client { at_ms: 100 * k, ..client(&format!("j{k}"), 2, vec![Op::Serve(9)]) });
                    }
                }
                v.push(remote(format!("prefail{n}:{} b{bad} q{q}", gname(&d)), ts, if q == 4 { 0 } else { 2 }, cl, Sched { max_execs: 600, ..Sched::env_only() }));
            }
        }
    }
    v
}
fn f_faults() -> Vec<Scenario> {
    let mut v = vec![];
    let scripts: Vec<(&str, Vec<Op>)> = vec![
        ("vanish", vec![Op::Start, Op::Vanish]),
        ("vanish-begun", vec![Op::Start, Op::Begun, Op::Vanish]),
        ("vanish-run", vec![Op::Start, Op::Begun, Op::Run, Op::Vanish]),
        ("drop", vec![Op::StartDrop(5), Op::Serve(5)]),
        ("drop0", vec![Op::StartDrop(0), Op::Vanish]),
    ];
    for (n, ops) in scripts {
        for d in dags(3) {
            for rate in [0u32, 2] {
                let mut ts = graph(&d);
                ts.iter_mut().for_each(|t| t.affinity = 4);
                let mut cl = vec![client("j0", 2, ops.clone()), client("j1", 2, vec![Op::Serve(9)])];
                for k in 0..4u64 {
                    cl.push(Client { at_ms: 31_000 + 25_000 * k, ..client(&format!("s{k}"), 2, vec![Op::Serve(9)]) });
                }
                let mut s = remote(format!("fault:{n} {} r{rate}", gname(&d)), ts, 0, cl, Sched { max_execs: 500, ..Sched::env_only() });
                s.sessions[0].execs[0].rate = rate;
                v.push(s);
            }
        }
    }
    v
}

// ----------------------------------------------------------------------------- I/O

fn f_io(full: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let outs: Vec<Vec<u8>> = vec![
        vec![],
        b"plain output\n".to_vec(),
        b"no newline".to_vec(),
        b"two\nlines\n".to_vec(),
        "caf\u{e9} \u{2603}\n".as_bytes().to_vec(),
        vec![b'b', 0xff, 0xfe, b'e', b'\n'],
        b"{} {0} %s \x1b[1m\n".to_vec(),
        vec![b'y'; 70_000],
        vec![b'z'; 200_000],
        b"nul\0byte\n".to_vec(),
        b"one\r\ntwo\nthree".to_vec(),
        b"  leading\n\n\ntrailing \t \n".to_vec(),
        b"over\rwritten\r\n\x08\x7f".to_vec(),
        (0..9_000).flat_map(|i| format!("line {i}\n").into_bytes()).collect(),
        [vec![b'a'; 65_535], "\u{2603}".as_bytes().to_vec(), vec![b'b'; 8_191], "\u{1f980}\n".as_bytes().to_vec()].concat(),
    ];
    let vals: Vec<Vec<u8>> = vec![
        b"a=1 b=2\n".to_vec(),
        b"a=1\nb=2\n".to_vec(),
        b"a=1".to_vec(),
        b"a='x y' b=\"q r\"\n".to_vec(),
        b"a=b=c d\n".to_vec(),
        b"a=1 a=2\n".to_vec(),
        b"\n\nk=v\n".to_vec(),
        b"bad='x\nok=1\n".to_vec(),
        b"=v x=\n".to_vec(),
        vec![b'a', b'=', 0xff, b'\n'],
        "k=caf\u{e9} q=\\ z\n".as_bytes().to_vec(),
        b"noeq\n".to_vec(),
        (0..3000).flat_map(|i| format!("key{i}=value{i}\n").into_bytes()).collect(),
    ];
    for (i, o) in outs.iter().enumerate() {
        for st in [Out::Exit(0), Out::Exit(7)] {
            for aff in [1u64, 4] {
                let ts = tasks(2, |k, t| {
                    t.affinity = aff;
                    t.out = st.clone();
                    if k == 0 {
                        t.stdout = o.clone();
                        t.stderr = outs[(i + 1) % outs.len()].clone();
                    } else {
                        t.stdout = b"the other one\n".to_vec();
                    }
                });
                let np = if aff == 1 { 2 } else { 0 };
                let mut s = sess(np, ts);
                if aff == 4 {
                    s.execs[0].prov = prov(vec![client("j0", 2, vec![Op::Serve(9)])]);
                }
                v.push(one(format!("io:out{i} {st:?} q{aff}"), s, Sched::env_only()));
            }
        }
    }
    for (i, b) in vals.iter().enumerate() {
        for aff in [1u64, 2, 4] {
            let ts = tasks(1, |_, t| {
                t.affinity = aff;
                t.fd3 = b.clone();
                t.out = if i % 2 == 0 { Out::Exit(0) } else { Out::Exit(2) };
            });
            let mut s = sess(if aff == 4 { 0 } else { 1 }, ts);
            if aff == 4 {
                s.execs[0].prov = prov(vec![client("j0", 2, vec![Op::Serve(9)])]);
            }
            v.push(one(format!("io:fd3-{i} q{aff}"), s, Sched::env_only()));
        }
    }
    for sz in [0usize, 1, 8192, 65_536, 65_537, 300_000] {
        for con in [Consume::All, Consume::Eof, Consume::None, Consume::Close] {
            for ms in [0u64, 20] {
                for fd in [0, 4, 9] {
                    if fd != 4 && !full && sz != 1 {
                        continue;
                    }
                    let ts = tasks(2, |k, t| {
                        t.deps = (0..k as u32).collect();
                        if k == 0 {
                            t.fd_input = Some((fd, (0..sz).map(|i| (i % 251) as u8).collect()));
                            t.consume = con.clone();
                            t.min_ms = ms;
                        }
                    });
                    v.push(one(format!("io:in{sz} {con:?} {ms} fd{fd}"), sess(1, ts), Sched::env_only()));
                }
            }
        }
    }
    // input for a worker
    for (i, (fd, b)) in [(4, vec![0, 1, 2, 255]), (4, vec![]), (0, vec![]), (0, vec![b'x'; 9_000]), (7, (0..300_000).map(|i| (i % 253) as u8).collect())].into_iter().enumerate() {
        let ts = tasks(2, |k, t| {
            t.affinity = 4;
            if k == 0 {
                t.fd_input = Some((fd, b.clone()));
            }
        });
        v.push(remote(format!("io:remote-in{i}"), ts, 0, vec![client("j0", 2, vec![Op::Serve(2)])], Sched::env_only()));
    }
    // much output
    let mut seed = 1u32;
    let mut hex = |n: usize| -> Vec<u8> {
        let mut next = || {
            seed ^= seed << 13;
            seed ^= seed >> 17;
            seed ^= seed << 5;
            b"0123456789abcdef"[seed as usize % 16]
        };
        (0..n).map(|_| next()).collect()
    };
    for (i, sz) in [1_000_000usize, 2_500_000, 6_000_000].into_iter().enumerate() {
        for aff in [1u64, 4] {
            for err in [false, true] {
                let b = hex(sz);
                let ts = tasks(2, |k, t| {
                    t.affinity = aff;
                    if k == 0 {
                        if err {
                            t.stderr = b.clone();
                        } else {
                            t.stdout = b.clone();
                        }
                    }
                });
                let cl = if aff == 4 { vec![client("j0", 2, vec![Op::Serve(9)])] } else { vec![] };
                v.push(remote(format!("io:much{i} q{aff} err{err}"), ts, if aff == 4 { 0 } else { 1 }, cl, Sched { max_execs: 3, ..Sched::env_only() }));
            }
        }
    }
    // more than the pipes take, in every order of writing
    for (i, (o, e, f)) in [(65_537, 0, 0), (70_000, 140_000, 0), (140_000, 65_536, 70_000), (10, 70_000, 70_000), (200_000, 200_000, 200_000)]
        .into_iter()
        .enumerate()
    {
        for worder in 0..3 {
            for aff in [1u64, 2, 4] {
                let val: Vec<u8> = (0..f / 10).flat_map(|k| format!("k{k:05}=v\n ").into_bytes()).take(f).collect();
                let ts = tasks(2, |k, t| {
                    t.affinity = aff;
                    if k == 0 {
                        t.worder = worder;
                        t.stdout = vec![b'o'; o];
                        t.stderr = vec![b'e'; e];
                        t.fd3 = val.clone();
                        t.out = Out::Exit(if worder == 1 { 3 } else { 0 });
                    }
                });
                let cl = if aff == 4 { vec![client("j0", 2, vec![Op::Serve(9)])] } else { vec![] };
                v.push(remote(format!("io:pipes{i} o{worder} q{aff}"), ts, if aff == 4 { 0 } else { 1 }, cl, Sched::env_only()));
            }
        }
    }
    // writes that are cut short or interrupted
    for (i, sz) in [10usize, 9_000, 40_000].into_iter().enumerate() {
        for st in [Out::Exit(0), Out::Exit(1)] {
            let text: Vec<u8> = (0..sz / 10).flat_map(|k| format!("{k:08}\n ").into_bytes()).collect();
            let ts = tasks(3, |k, t| {
                t.min_ms = [0, 0, 500][k];
                t.out = if k == 1 { st.clone() } else { Out::Exit(0) };
                t.stdout = [b"small\n".to_vec(), text.clone(), b"last".to_vec()][k].clone();
                t.stderr = [vec![], b"also\n".to_vec(), text[..sz / 2].iter().map(|b| b | 64).collect()][k].clone();
            });
            let mut s = one(format!("io:short{i} {st:?}"), sess(2, ts), Sched { max_execs: 4000, ..Sched::env_only() });
            s.io = Some(IoPlan { kinds: vec![Io::Short, Io::Intr], budget: if full { 3 } else { 2 }, targets: [true; 3] });
            v.push(s);
        }
    }
    // how tasks are shown
    let shows: Vec<(Option<&str>, Vec<&str>)> = vec![
        (None, vec!["a", "b c"]),
        (Some("shown instead"), vec!["hidden"]),
        (None, vec!["tab\there"]),
        (None, vec!["cont\\\ninued"]),
        (Some("with \"quotes\" and \\"), vec![]),
        (Some(""), vec![]),
        (None, vec![""]),
        (None, vec!["\u{e0ff}"]),
        (None, vec!["-x", "caf\u{e0e9}\u{e080}\t", "\u{e0c3}"]),
        (Some("plain"), vec!["\u{e0fe}\u{e0ff}"]),
    ];
    for (i, (d, a)) in shows.iter().enumerate() {
        for st in [Out::Exit(0), Out::Exit(1), Out::Signal(11), Out::SpawnFail] {
            let ts = tasks(1, |_, t| {
                t.display = d.map(|s| s.to_string());
                t.extra_args = a.iter().map(|s| s.to_string()).collect();
                t.out = st.clone();
            });
            v.push(one(format!("io:show{i} {st:?}"), sess(1, ts), Sched::env_only()));
        }
    }
    for w in words(3, 4) {
        let ts = tasks(3, |i, t| {
            t.out = OUTS[w[i]].clone();
            t.stdout = format!("<out {i}>\n").into();
            t.stderr = format!("<err {i}>\n").into();
            t.fd3 = format!("i={i}\n").into();
        });
        v.push(one(format!("io:mix{}", wname(&w)), sess(2, ts), Sched::env_only()));
    }
    v
}
/// Disks that fill up, for a moment or for good, and a second session with enough space.
fn f_full(th: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let mut some = |n: usize, fa: u32, kinds: &[Io], sched: &dyn Fn() -> Sched, tag: &str| {
        for d in dags(n) {
            for bad in 0..1u32 << n.min(2) {
                for q in [1u64, 2, 4, 5] {
                    if q == 5 && n < 2 {
                        continue;
                    }
                    for (ti, target) in ["log", "mirror", "console"].iter().enumerate() {
                        // entries that do not fit in the buffer are written at once
                        let wide = tag.starts_with("wide");
                        if wide && ti != 0 {
                            continue;
                        }
                        for kind in kinds {
                            let mut ts = graph(&d);
                            for (i, t) in ts.iter_mut().enumerate() {
                                if wide {
                                    t.display = Some("d".repeat(9_000));
                                    t.fd3 = format!("value={}\n", "v".repeat(9_000)).into_bytes();
                                }
                                t.affinity = q;
                                t.min_ms = [300, 0, 700][i];
                                t.out = if bad >> i & 1 == 1 { Out::Exit(1) } else { Out::Exit(0) };
                                t.later = vec![Out::Exit(0)];
                                if i == 0 {
                                    t.stdout = b"some output\n".to_vec();
                                }
                            }
                            let rem = q & 4 != 0;
                            let cl = if rem { vec![client("j0", 2, vec![Op::Serve(9)])] } else { vec![] };
                            let mut s = remote(format!("full{tag}{n}:{} b{bad} q{q} {target} {kind:?} fa{fa}", gname(&d)), ts, if q == 4 { 0 } else { 2 }, cl, Sched { max_execs: 3000, ..sched() });
                            if !rem {
                                s.sessions[0].execs[0].prov = None;
                            }
                            s.sessions[0].rerun = true;
                            let mut again = s.sessions[0].clone();
                            again.tasks.iter_mut().for_each(|t| t.out = Out::Exit(0));
                            s.sessions[0].fa = fa;
                            s.sessions.push(again);
                            let mut targets = [false; 3];
                            targets[ti] = true;
                            s.io = Some(IoPlan { kinds: vec![*kind], budget: 1, targets });
                            v.push(s);
                        }
                    }
                }
            }
        }
    };
    let env = || Sched::env_only();
    let t1 = || Sched::tasks(1);
    let t2 = || Sched::tasks(2);
    for n in 1..=3 {
        some(n, 0, &[Io::Once, Io::Full], &env, "");
        some(n, 1, &[Io::Once, Io::Full], &env, "");
    }
    for n in 1..=3 {
        some(n, 0, &[Io::Once, Io::Full], &env, "wide");
    }
    some(2, 0, &[Io::Full], &t1, "t1-");
    some(2, 1, &[Io::Full], &t1, "t1-");
    if th {
        some(2, 0, &[Io::Once, Io::Full], &t1, "wide-t1-");
        some(2, 0, &[Io::Once], &t1, "t1-");
        some(3, 0, &[Io::Full], &t1, "t1-");
        some(2, 0, &[Io::Full], &t2, "t2-");
    }
    v
}
fn f_runs(n: usize) -> Vec<Scenario> {
    // several sessions, tasks that fail, are interrupted, wait or succeed; several storage roots
    let mut v = vec![];
    for w in words(n, 4) {
        for cut in [None, Some(0), Some(1)] {
            for root in 0..2u32 {
                let mut ts = tasks(n, |i, t| {
                    t.deps = if i == n - 1 { vec![0] } else { vec![] };
                    t.storage_root = if i % 2 == 0 { root } else { 0 };
                    match w[i] {
                        0 => {}
                        1 => {
                            t.out = Out::Exit(1);
                            t.later = vec![Out::Exit(0)];
                        }
                        2 => {
                            t.out = Out::Exit(1);
                            t.later = vec![Out::SpawnFail, Out::Exit(1), Out::Exit(0)];
                        }
                        _ => t.min_ms = 100,
                    }
                });
                ts[0].display = Some("zero".into());
                let roots = vec!["".to_string(), "sub/$KEY".to_string()];
                let ss: Vec<Session> = (0..4)
                    .map(|k| {
                        let mut s = sess(1 + (k as i32 & 1), ts.clone());
                        s.storage_roots = if k == 2 { vec!["/abs/$KEY".into(), "other".into()] } else { roots.clone() };
                        if cut == Some(k) {
                            s.execs[0].acts = vec![EnvAct { at_ms: 0, after_starts: 1, act: Act::Sigint }];
                        }
                        s
                    })
                    .collect();
                v.push(Scenario {
                    name: format!("runs{n}:{} cut{cut:?} root{root}", wname(&w)),
                    sessions: ss,
                    sched: Sched { max_execs: 60, ..Sched::env_only() },
                    seed: 7, cuts: vec![], hist: None, disk: false, script: None, io: None,
                });
            }
        }
    }
    v
}

/// The process running a session is killed; the next session finds what had been written.
fn f_crash(th: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let build = |w: &[usize], shape: usize| {
        tasks(w.len(), |i, t| {
            t.deps = match shape {
                0 => vec![],
                1 => (0..i as u32).rev().take(1).collect(),
                _ => {
                    if i == 0 {
                        vec![]
                    } else {
                        vec![0]
                    }
                }
            };
            if i == 1 {
                t.key = "k\u{e9}\u{2603}1".into();
            }
            if w[i] == 1 {
                t.out = Out::Exit(1);
                t.later = vec![Out::Exit(0)];
            }
            if w[i] == 2 {
                t.out = Out::Exit(1);
                t.later = vec![Out::Exit(1)];
            }
            t.fd3 = "a=\u{e4}\nb=2\n".as_bytes().to_vec();
        })
    };
    let plans: Vec<(&str, Vec<Cut>)> = vec![
        ("bytes", vec![Cut::Bytes, Cut::No, Cut::No]),
        ("zeros", vec![Cut::Zeros, Cut::No, Cut::No]),
        ("second", vec![Cut::No, Cut::Bytes, Cut::No]),
        ("both", vec![Cut::Lines, Cut::Lines, Cut::No]),
        ("three", vec![Cut::Lines, Cut::Lines, Cut::Lines, Cut::No]),
        ("deep", vec![Cut::Lines, Cut::Bytes, Cut::No]),
    ];
    for (pn, cuts) in plans {
        for shape in 0..3 {
            for w in words(2, 3).into_iter().chain(if th { words(3, 3) } else { vec![] }) {
                for rerun in [true, false] {
                    if (pn == "three" || pn == "deep") && (w.len() > 2 || (!th && (pn == "three" || shape != 1 || w != [1, 0]))) {
                        continue;
                    }
                    let ts = build(&w, shape);
                    let ss: Vec<Session> = (0..cuts.len())
                        .map(|k| {
                            let mut s = sess(1, ts.clone());
                            s.rerun = rerun || k == 0;
                            s
                        })
                        .collect();
                    v.push(Scenario {
                        name: format!("crash:{pn} shape{shape} out{} rerun{rerun}", wname(&w)),
                        sessions: ss,
                        sched: Sched { max_execs: 2_000_000, ..Sched::env_only() },
                        seed: 7,
                        cuts: cuts.clone(),
                        hist: None, disk: false, script: None, io: None,
                    });
                }
            }
        }
    }
    v
}
/// A torn line that is longer than all that the next session writes.
fn f_crash_long(th: bool) -> Vec<Scenario> {
    let mut v = vec![];
    for (i, n) in if th { vec![(0, 1_500usize), (1, 4_000), (2, 9_000)] } else { vec![(0, 1_500)] } {
        for cuts in [vec![Cut::Bytes, Cut::No, Cut::No], vec![Cut::Bytes, Cut::Lines, Cut::No]] {
            if i > 0 && cuts[1] != Cut::No {
                continue;
            }
            let ss: Vec<Session> = (0..3)
                .map(|k| {
                    let ts = tasks(1, |_, t| {
                        if k == 0 {
                            t.fd3 = format!("a={}\n", "v".repeat(n)).into_bytes();
                        }
                    });
                    sess(1, ts)
                })
                .collect();
            v.push(Scenario {
                name: format!("crash:long{n} {:?}", cuts[1]),
                sessions: ss,
                sched: Sched { max_execs: 2_000_000, ..Sched::env_only() },
                seed: 7,
                cuts,
                hist: None, disk: false, script: None, io: None,
            });
        }
    }
    v
}
fn with_values(mut v: Vec<Scenario>) -> Vec<Scenario> {
    for s in &mut v {
        s.name = format!("values {}", s.name);
        for x in &mut s.sessions {
            for (i, t) in x.tasks.iter_mut().enumerate() {
                t.fd3 = format!("i={i} j=\"a b\"\nn=2\n").into();
            }
        }
    }
    v
}
/// Tasks that take their time, watched from outside through the files.
fn f_disk(th: bool) -> Vec<Scenario> {
    let env = Sched::env_only;
    let mut v = f_dag(3, if th { 4 } else { 2 }, &[1, 2], env());
    v.extend(f_dag(2, 4, &[1, 2], env()));
    v.extend(f_remote(2, 2, 1));
    v.extend(f_remote(3, 1, 2));
    v.extend(f_limit_dag(if th { 3 } else { 2 }));
    v.extend(f_limit_remote());
    v.extend(f_soft(2, &env));
    v.extend(f_soft_more(&env));
    v.extend(f_faults());
    v.extend(f_soft(3, &env));
    v.extend(f_dag(4, 2, &[2], env()));
    v.extend(f_hard(2, &[0, 1, 2], &env));
    v.extend(f_hard_remote(&env));
    v.extend(f_calls(2));
    v.extend(f_targets(3, 2, 2, false));
    v.extend(f_targets(2, 2, 2, true));
    v.extend(f_limit_short(2));
    v.extend(f_limit(false));
    v.extend(f_heart(false));
    if th {
        v.extend(f_io(false));
        v.extend(f_dag(4, 3, &[1, 2], env()));
        v.extend(f_calls(3));
        v.extend(f_targets(3, 2, 3, true));
        v.extend(f_remote(3, 2, 2));
        v.extend(f_soft(2, &|| Sched { max_execs: 20_000, ..Sched::tasks(1) }));
        v.extend(f_limit_dag(3).into_iter().map(|mut s| {
            s.sched = Sched { max_execs: 5_000, ..Sched::tasks(1) };
            s.name += "-1";
            s
        }));
    }
    for s in &mut v {
        s.name = format!("disk {}", s.name);
        s.disk = true;
        for x in &mut s.sessions {
            for (i, t) in x.tasks.iter_mut().enumerate() {
                if t.min_ms == 0 {
                    t.min_ms = [700, 1130, 320, 2500][i % 4];
                }
            }
        }
    }
    v
}

const KINDS: [&str; 16] = [
    "end", "fail", "exit", "lfail", "start", "mark", "soft", "hard", "sigint", "prov", "rate", "poll", "drop", "ping", "info", "unrate",
];
/// Things that happen in the same moment: every choice of `n` kinds of which one is in `must`.
fn f_burst(n: usize, must: &[&str], sched: &dyn Fn() -> Sched) -> Vec<Scenario> {
    const T: u64 = 1_000;
    let mut v = vec![];
    for set in words(n, KINDS.len()) {
        if set.windows(2).any(|w| w[0] >= w[1]) {
            continue;
        }
        let has = |k: &str| set.iter().any(|i| KINDS[*i] == k);
        if !must.is_empty() && !must.iter().any(|k| has(k)) {
            continue;
        }
        let clash = [("end", "fail"), ("exit", "lfail"), ("end", "ping"), ("fail", "ping"), ("rate", "unrate")];
        if clash.iter().any(|(a, b)| has(a) && has(b)) {
            continue;
        }
        for fa in [0u32, 1] {
            if fa == 1 && !has("fail") && !has("lfail") {
                continue;
            }
            let ts = tasks(6, |i, t| {
                let (deps, aff): (Vec<u32>, u64) =
                    [(vec![], 4), (vec![], 1), (vec![0], 5), (vec![1], 4), (vec![0, 1], 1), (vec![], 16)][i].clone();
                t.deps = deps;
                t.affinity = aff;
                t.min_ms = match i {
                    0 => if has("end") || has("fail") { T } else { T + 500 },
                    1 => if has("exit") || has("lfail") { T } else { T + 700 },
                    _ => 30,
                };
                if i == 0 && has("fail") || i == 1 && has("lfail") {
                    t.out = Out::Exit(1);
                }
                t.stdout = format!("out of {i}\n").into();
                t.fd3 = format!("i={i}\n").into();
            });
            let mut j0 = vec![Op::Serve(9)];
            if has("ping") {
                j0 = vec![Op::AutoPing(false), Op::Start, Op::Begun, Op::Sleep(T), Op::Ping, Op::Run, Op::End(false), Op::Serve(9)];
            }
            let j1 = if has("drop") { vec![Op::StartDrop(T - 100), Op::Serve(9)] } else { vec![Op::Serve(9)] };
            let mut cl = vec![
                client("j0", 2, j0),
                Client { at_ms: 100, ..client("j1", 2, j1) },
                Client { at_ms: T + 1_500, ..client("j8", 2, vec![Op::Serve(9)]) },
                Client { at_ms: T + 1_500, ..client("j9", 4, vec![Op::Serve(9)]) },
            ];
            let mut at = |rt: u32, job: &str, ops: Vec<Op>| cl.push(Client { at_ms: T, ..client(job, rt, ops) });
            let mut acts = vec![];
            for k in &set {
                match KINDS[*k] {
                    "start" => at(2, "j2", vec![Op::Serve(9)]),
                    "mark" => at(9, "", vec![Op::MarkCancel(vec!["j0".into(), "j1".into(), "j2".into()])]),
                    "soft" => at(9, "", vec![Op::AdminShutdown(true)]),
                    "hard" => at(9, "", vec![Op::AdminShutdown(false)]),
                    "rate" => at(9, "", vec![Op::AdminRate(2), Op::Status { etag: 0, timemin: 0, timeout: 0 }]),
                    "unrate" => at(9, "", vec![Op::AdminRate(0), Op::AdminStatus]),
                    "info" => at(9, "", vec![Op::AdminInfo(Some("new".into())), Op::Status { etag: 0, timemin: 0, timeout: 0 }]),
                    "poll" => at(9, "", vec![Op::Status { etag: 0, timemin: 0, timeout: 0 }, Op::Poll { timemin: 0, timeout: 300 }]),
                    "sigint" => acts.push(EnvAct { at_ms: T, after_starts: 0, act: Act::Sigint }),
                    "prov" => acts.push(EnvAct { at_ms: T, after_starts: 0, act: Act::ProvExit(0) }),
                    _ => {}
                }
            }
            let tags: Vec<&str> = set.iter().map(|k| KINDS[*k]).collect();
            let mut s = remote(format!("burst:{} fa{fa}", tags.join("+")), ts, 1, cl, Sched { window: Some((T, T + 2)), ..sched() });
            s.sessions[0].execs[0].acts = acts;
            s.sessions[0].fa = fa;
            if has("unrate") {
                s.sessions[0].execs[0].rate = 1;
            }
            v.push(s);
        }
    }
    v
}

pub fn scenarios(prop: &str, th: bool) -> Vec<Scenario> {
    let env = Sched::env_only;
    let t1 = || Sched { max_execs: 20_000, ..Sched::tasks(1) };
    let p1 = || Sched { max_execs: if th { 200_000 } else { 20_000 }, ..Sched::all(1) };
    let t2 = || Sched { max_execs: if th { 400_000 } else { 30_000 }, ..Sched::tasks(2) };
    let inter = || {
        let mut v = f_inter(&p1, th);
        let mut w = f_inter(&t2, th);
        for s in &mut w {
            s.name = format!("{}-2", s.name);
        }
        v.extend(w);
        v
    };
    let mut v: Vec<Scenario> = vec![];
    let must: Option<&[&str]> = match prop {
        "C01" => Some(&["lfail"]),
        "C02" => Some(&["drop", "start"]),
        "C03" => Some(&["drop", "ping"]),
        "C04" => Some(&["fail"]),
        "C05" => Some(&["fail", "lfail"]),
        "C06" => Some(&["soft"]),
        "C07" => Some(&["sigint", "prov"]),
        "C08" => Some(&["hard"]),
        "C12" => Some(&["start", "drop"]),
        "C14" => Some(&["poll"]),
        "C15" => Some(&["ping"]),
        "C16" => Some(&["end"]),
        "C17" => Some(&["mark"]),
        "C18" => Some(&["rate", "unrate"]),
        "C19" => Some(&["end", "exit"]),
        "C21" => Some(&["rate", "info"]),
        _ => None,
    };
    let mut burst = vec![];
    if let Some(must) = must {
        burst = f_burst(2, must, &|| Sched { max_execs: 60_000, ..Sched::bursts(1) });
        if th {
            let more = |mut v: Vec<Scenario>, tag: &str| {
                for s in &mut v {
                    s.name += tag;
                }
                v
            };
            burst.extend(more(f_burst(2, &[], &|| Sched { max_execs: 400_000, ..Sched::bursts(2) }), "-2"));
            burst.extend(more(f_burst(3, must, &|| Sched { max_execs: 100_000, ..Sched::bursts(1) }), "-3"));
        }
        // a limit that is reached is a matter of its own
        burst.retain(|s| match prop {
            "C05" => s.sessions[0].fa > 0,
            "C15" => s.sessions[0].fa == 0,
            _ => true,
        });
    }
    v.extend(burst);
    match prop {
        "C01" => {
            v.extend(f_named());
            v.extend(f_big(th, &["np3", "remote", "two", "cut", "calls", "targets"]));
            v.extend(f_codes());
            v.extend(f_dag(3, 4, &[2], env()));
            v.extend(f_dag(4, 2, &[2], env()));
            v.extend(f_two(3, &[2]));
            v.extend(f_calls(3));
            v.extend(f_remote(3, 2, 2));
            v.extend(f_faults());
            v.extend(f_cut(3, &[Act::Sigint]));
            v.extend(inter());
            if th {
                v.extend(f_dag(5, 2, &[3], env()));
                v.extend(f_dag(3, 2, &[2], t2()));
            }
        }
        "C02" => {
            v.extend(f_types());
            v.extend(f_named());
            v.extend(f_big(th, &["np3", "remote", "calls", "targets", "two"]));
            v.extend(f_often(th));
            v.extend(f_queues());
            v.extend(f_names());
            v.extend(f_slots(3, false));
            v.extend(f_two(3, &[2]));
            v.extend(f_calls(3));
            v.extend(f_again(2));
            v.extend(f_remote(3, 1, 2));
            v.extend(f_faults());
            v.extend(f_noslots());
            v.extend(f_dag(4, 1, &[1, 3], env()));
            v.extend(inter());
            if th {
                v.extend(f_slots(4, true));
                v.extend(f_again(3));
                v.extend(f_dag(4, 2, &[2], t1()));
            }
        }
        "C03" => {
            v.extend(f_named());
            v.extend(f_big(th, &["np3", "np40", "remote"]));
            v.extend(f_codes());
            v.extend(f_queues());
            v.extend(f_names());
            v.extend(f_dag(3, 4, &[1, 2], env()));
            v.extend(f_dag(4, 2, &[1, 3], env()));
            v.extend(f_two(2, &[1]));
            v.extend(f_calls(3));
            v.extend(f_slots(3, false));
            v.extend(f_remote(3, 1, 1));
            v.extend(f_remote(2, 2, 2));
            v.extend(f_faults());
            v.extend(f_dup());
            v.extend(f_io(false).into_iter().filter(|s| s.name.contains("io:in") || s.name.contains("io:show")));
            v.extend(f_prefail(2));
            v.extend(f_limit_dag(3));
            v.extend(f_soft_more(&env));
            v.extend(f_hard_remote(&env));
            v.extend(inter());
            if th {
                v.extend(f_dag(5, 2, &[2], env()));
                v.extend(f_dag(3, 3, &[2], t2()));
                v.extend(f_soft(3, &t1));
            }
        }
        "C04" => {
            v.extend(f_named());
            v.extend(f_big(th, &["np1", "np40", "remote", "two"]));
            v.extend(f_codes());
            v.extend(f_dag(4, 2, &[1, 2, 4], env()));
            v.extend(f_dag(3, 4, &[2], env()));
            v.extend(f_two(3, &[2]));
            v.extend(f_remote(3, 2, 1));
            v.extend(f_faults());
            v.extend(f_hard(2, &[0, 1, 2], &t1));
            v.extend(f_limit_dag(3));
            v.extend(f_soft(2, &env));
            v.extend(f_again(2));
            v.extend(inter());
            if th {
                v.extend(f_dag(5, 2, &[3], env()));
                v.extend(f_hard(3, &[0, 1], &t1));
            }
        }
        "C05" => {
            v.extend(f_limit_wide());
            v.extend(f_limit_dag(3));
            v.extend(f_limit_short(3));
            v.extend(f_limit(th));
            v.extend(f_limit_remote());
            for mut s in f_inter(&t1, true).into_iter().chain(f_inter(&p1, false)) {
                s.sessions[0].fa = 1;
                v.push(s);
            }
            if th {
                v.extend(f_limit_dag(4));
                for mut s in f_inter(&t2, true) {
                    s.sessions[0].fa = 1;
                    s.name += "-2";
                    v.push(s);
                }
            }
        }
        "C06" => {
            v.extend(f_big(th, &["soft"]));
            v.extend(f_soft_more(&t1));
            v.extend(f_soft(2, &t1));
            v.extend(f_soft(3, &env));
            v.extend(f_soft_more(&p1).into_iter().filter(|s| th || s.name.contains("c1 k0 at0") || s.name.contains("idle")));
            if th {
                v.extend(f_soft(3, &t1));
                v.extend(f_soft(2, &t2));
            }
        }
        "C07" => {
            v.extend(f_big(th, &["sigint", "prov", "hard"]));
            v.extend(f_hard_silent());
            v.extend(f_hard_more(&t1));
            v.extend(f_hard_old(&t2));
            v.extend(f_hard_remote(&env));
            v.extend(f_hard(3, &[0, 1, 2], &env));
            v.extend(f_hard(2, &[0, 1, 2], &t1));
            v.extend(f_hard_remote(&t1));
            v.extend(f_hard(1, &[0, 1, 2], &p1));
            if th {
                v.extend(f_hard(3, &[0, 1, 2], &t1));
                v.extend(f_hard(2, &[0, 1, 2], &p1));
                v.extend(f_hard_remote(&p1));
            }
        }
        "C08" => {
            v.extend(f_named());
            v.extend(with_values(f_big(th, &["np3", "remote", "sigint", "soft", "hard"])));
            v.extend(f_codes());
            v.extend(f_often(th));
            v.extend(f_names());
            v.extend(f_dag(3, 4, &[1, 2], env()));
            v.extend(f_remote(3, 2, 1));
            v.extend(f_io(false).into_iter().filter(|s| s.name.contains("fd3") || s.name.contains("show") || s.name.contains("mix")));
            v.extend(f_runs(2));
            v.extend(f_dup());
            v.extend(f_faults());
            v.extend(with_values(f_hard(2, &[0, 1, 2], &t1)));
            v.extend(with_values(f_hard_remote(&t1)));
            v.extend(f_limit_dag(2));
            v.extend(with_values(f_soft_more(&env)));
            v.extend(f_two(3, &[2]));
            v.extend(inter());
            if th {
                v.extend(f_hard(3, &[0, 1, 2], &t1));
                v.extend(f_runs(3));
                v.extend(f_dag(4, 3, &[2], env()));
            }
        }
        "C09" => {
            v.extend(f_named());
            v.extend(f_big(th, &["two", "cut", "calls"]));
            v.extend(f_often(th));
            v.extend(f_names());
            v.extend(f_two(3, &[1, 2]));
            v.extend(f_nokey(2));
            v.extend(f_cut(3, &[Act::Sigint]));
            v.extend(f_calls(3));
            v.extend(f_again(3));
            v.extend(f_runs(2));
            if th {
                v.extend(f_two(4, &[2]));
                v.extend(f_cut(4, &[Act::Sigint]));
                v.extend(f_runs(3));
            }
        }
        "C10" => {
            v.extend(f_big(th, &["two", "cut", "calls"]));
            v.extend(f_often(th));
            v.extend(f_names());
            v.extend(f_runs(2));
            v.extend(f_runs(3));
            v.extend(f_nokey(2));
            v.extend(f_again(2));
            v.extend(f_cut(2, &[Act::Sigint]));
            v.extend(f_calls(2));
            v.extend(f_killed(th));
            v.extend(f_regraph(2, 2));
            if th {
                v.extend(f_regraph(3, 2));
                v.extend(f_cut(3, &[Act::Sigint]));
                v.extend(f_again(3));
            }
        }
        "C11" => {
            v.extend(f_named());
            v.extend(f_big(th, &["targets"]));
            v.extend(f_target(4, 2));
            v.extend(f_calls(3));
            v.extend(f_regraph(3, 2));
            v.extend(f_target(5, 1));
            v.extend(f_calls(4));
            v.extend(f_targets(3, 2, 3, false));
            v.extend(f_targets(3, 2, 2, true));
            v.extend(f_targets(4, 1, 2, false));
            if th {
                v.extend(f_targets(4, 2, 3, false));
                v.extend(f_targets(4, 2, 2, true));
                v.extend(f_targets(5, 1, 2, false));
                v.extend(f_target(5, 2));
                v.extend(f_target(6, 1));
            }
        }
        "C12" => {
            v.extend(f_types());
            v.extend(f_big(th, &["np3", "np40", "remote"]));
            v.extend(f_queues());
            v.extend(f_slots(3, true));
            v.extend(f_slots_many());
            v.extend(f_noslots());
            v.extend(f_cancel(&env).into_iter().filter(|s| s.name.contains(" k1 ")));
            v.extend(f_remote(3, 1, 2));
            v.extend(f_dag(4, 2, &[1, 2], env()));
            v.extend(f_limit_dag(2));
            v.extend(f_slots(2, false).into_iter().map(|mut s| {
                s.sched = t1();
                s
            }));
            v.extend(inter());
            if th {
                v.extend(f_slots(4, true));
                v.extend(f_remote(3, 2, 2));
            }
        }
        "C13" => {
            v.extend(f_named());
            v.extend(f_big(th, &["np1", "np3", "remote", "calls", "targets"]).into_iter().filter(|s| s.sessions[0].tasks.len() < 100));
            v.extend(f_prio(4, &[1, 2]));
            v.extend(f_prio_remote(4));
            v.extend(f_prio_grow(4));
            v.extend(f_prio_two(4));
            v.extend(f_prio_wide(th));
            v.extend(if th { f_prio(5, &[1, 2]) } else { f_prio(5, &[1]) });
            if th {
                v.extend(f_prio_remote(5));
            }
        }
        "C14" => {
            v.extend(f_named());
            v.extend(f_big(th, &["polls"]));
            v.extend(f_status(3));
            v.extend(f_poll(3));
            v.extend(f_average());
            v.extend(f_poll_inter(&p1));
            v.extend(f_poll_inter(&t2));
            v.extend(f_poll_race(&|| Sched { window: Some((295, 305)), max_execs: 5_000, ..Sched::bursts(1) }));
            if th {
                v.extend(f_poll_race(&|| Sched { window: Some((295, 305)), max_execs: 400_000, ..Sched::bursts(2) }));
                v.extend(f_status(3).into_iter().step_by(5).map(|mut s| {
                    s.sched = t1();
                    s.name += "-1";
                    s
                }));
                v.extend(f_poll(4));
            }
        }
        "C15" => {
            v.extend(f_heart(th));
            v.extend(f_heart2(th));
            v.extend(f_faults());
        }
        "C16" => {
            v.extend(f_types());
            v.extend(f_dup());
            v.extend(f_auth(th));
            if th {
                v.extend(f_dup().into_iter().map(|mut s| {
                    s.sched = t1();
                    s.name += "-1";
                    s
                }));
            }
        }
        "C17" => {
            v.extend(f_cancel(&|| Sched { max_execs: 1500, ..Sched::env_only() }));
            let small = |s: &Scenario| s.name.contains("one k0 at0 w0") || s.name.contains("one k2 at0 w2") || s.name.contains("one k1 at0 w0");
            v.extend(f_cancel(&p1).into_iter().filter(small).map(|mut s| {
                s.name += "-p";
                s
            }));
            if th {
                v.extend(f_cancel(&|| Sched { max_execs: 40_000, ..Sched::tasks(1) }).into_iter().map(|mut s| {
                    s.name += "-t";
                    s
                }));
            }
        }
        "C18" => {
            v.extend(f_rate(th));
            v.extend(f_pauses(th));
        }
        "C19" => {
            v.extend(f_named());
            v.extend(with_hooks(f_big(th, &["np3", "remote", "soft", "hard", "two"]).into_iter().filter(|s| s.sessions[0].tasks.len() < 100).collect(), "big"));
            v.extend(with_hooks(f_dag(3, 4, &[2], env()), "dag"));
            v.extend(with_hooks(f_remote(3, 2, 1), "remote"));
            v.extend(with_hooks(f_two(2, &[2]), "two"));
            v.extend(f_prefail(3));
            v.extend(with_hooks(f_faults(), "fault"));
            v.extend(with_hooks(f_dup(), "dup"));
            v.extend(with_hooks(f_hard(2, &[0, 1, 2], &t1), "hard"));
            v.extend(with_hooks(f_limit_dag(2), "limit"));
            v.extend(with_hooks(f_soft(2, &env), "soft"));
            v.extend(with_hooks(f_inter(&p1, th), "inter"));
            if th {
                v.extend(with_hooks(f_dag(4, 3, &[2], env()), "dag"));
                v.extend(with_hooks(f_hard(3, &[0, 1, 2], &t1), "hard"));
            }
        }
        "C20" => v.extend(f_io(th)),
        "C22" => {
            v.extend(f_crash_long(th));
            v.extend(f_crash(th));
        }
        "C27" => v.extend(f_e2e(th)),
        "C28" => v.extend(f_worker(th)),
        "C30" => v.extend(f_full(th)),
        "C25" => v.extend(f_disk(th)),
        "C23" | "C24" | "C26" | "C29" => v.extend(crate::hist::scenarios(prop, th)),
        "C21" => {
            v.extend(f_admin());
            if th {
                v.extend(f_admin().into_iter().map(|mut s| {
                    s.sched = t1();
                    s.name += "-1";
                    s
                }));
            }
        }
        _ => {}
    }
    v
}
