mod driver;
mod explore;
mod facts;
mod faultio;
mod hist;
mod oracle;
mod rt;
mod scen;
mod sim;
#[cfg(feature = "worker")]
mod wk;
#[cfg(not(feature = "worker"))]
#[path = "nowk.rs"]
mod wk;
use serde_json::json;
use std::time::{Duration, Instant};

fn usage() -> ! {
    eprintln!("sim check PROP --tier quick|thorough --evidence FILE --replays DIR --known FILE [--budget SECONDS] | sim replay FILE | sim list PROP TIER");
    std::process::exit(2)
}

/// Lines "known: property=C01 sig=<prefix of the signature> what=<text>".
fn known(file: &str) -> Vec<(String, String, String)> {
    std::fs::read_to_string(file)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, l) = l.split_once(" sig=")?;
            let (s, w) = l.split_once(" what=")?;
            Some((p.to_string(), s.to_string(), w.to_string()))
        })
        .collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let scratch = format!("/dev/shm/vsim-{}", std::process::id());
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = a[2].clone();
            let tier = opt("--tier").unwrap_or("quick".into());
            let thorough = tier == "thorough";
            let budget = opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(match (thorough, prop.as_str()) {
                (true, _) => 600,
                (_, "C22" | "C23") => 20,
                (_, "C29" | "C30") => 15,
                _ => 10,
            });
            let kn = opt("--known").map(|f| known(&f)).unwrap_or_default();
            let replays = opt("--replays").unwrap_or("/tmp".into());
            if cfg!(not(feature = "worker")) && (prop == "C27" || prop == "C28") {
                println!("the worker program could not be compiled as a simulated process");
                std::process::exit(2);
            }
            let mut scs = scen::scenarios(&prop, thorough);
            // for trying things out
            if let Some(only) = opt("--only") {
                scs.retain(|s| s.name.contains(&only));
            }
            let nsc = scs.len();
            let t0 = Instant::now();
            let o = explore::Opts {
                prop: prop.clone(),
                workers: std::thread::available_parallelism().map_or(4, |n| n.get()).min(8),
                budget: Duration::from_secs(budget),
                known: kn.iter().map(|k| (k.0.clone(), k.1.clone())).collect(),
                dir: scratch.clone(),
            };
            std::fs::create_dir_all(&scratch).unwrap();
            let rep = explore::explore(scs, &o);
            let _ = std::fs::remove_dir_all(&scratch);
            let mut bad = 0;
            let mut shown = std::collections::HashSet::new();
            for v in &rep.viols {
                if v.prop == "ENGINE" {
                    println!("ENGINE: {} {} plan {:?}", v.msg, v.scenario.name, v.plan);
                    std::process::exit(2);
                }
                let kind = v.sig.split('@').next().unwrap_or("").to_string();
                if let Some(k) = kn.iter().find(|k| k.0 == v.prop && v.sig.starts_with(&k.1)) {
                    if shown.insert(format!("known {}", k.1)) {
                        println!("KNOWN-FINDING: property={} {}", v.prop, k.2);
                    }
                    continue;
                }
                bad += 1;
                if !shown.insert(kind.clone()) || shown.len() > 8 {
                    continue;
                }
                let _ = std::fs::create_dir_all(&replays);
                let f = format!("{replays}/{}-{}.json", v.prop, kind.replace(|c: char| !c.is_ascii_alphanumeric(), "_"));
                std::fs::write(&f, serde_json::to_string(v).unwrap()).unwrap();
                println!("VIOLATION property={} replay={f}", v.prop);
                println!("  {} [{}]", v.msg, v.scenario.name);
            }
            let st = &rep.stats;
            let ev = json!({
                "property": prop,
                "tier": tier,
                "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
                "level": "exploration",
                "coverage": {
                    "evaluations": st.execs,
                    "distinct_nontrivial": rep.distinct_relevant,
                    "rule": "one evaluation = one complete execution of the real code under the controlled scheduler, along one sequence of scheduling/environment choices; distinct by the sequence of observable events and log lines; nontrivial when the property's premise occurs in it",
                    "exhaustive": st.capped == 0 && bad == 0,
                    "scenarios": nsc,
                    "scenarios_capped": st.capped,
                    "distinct_executions": rep.distinct,
                    "choice_points": st.choices,
                    "events": st.states,
                    "preemption_points": st.points,
                    "abandoned_at_contended_lock": st.abandoned,
                    "prefixes_that_could_not_be_replayed": st.diverged,
                    "max_choices_in_one_execution": st.max_depth,
                    "samples": st.samples,
                },
                "assumptions": scen::assumptions(),
                "violations": bad,
                "wall_s": t0.elapsed().as_secs_f64(),
            });
            if let Some(f) = opt("--evidence") {
                let _ = std::fs::create_dir_all(std::path::Path::new(&f).parent().unwrap());
                std::fs::write(&f, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
            }
            println!(
                "{prop}: {} scenarios ({} capped), {} executions, {} distinct, {} of them relevant, {} choices, {:.1}s",
                nsc, st.capped, st.execs, rep.distinct, rep.distinct_relevant, st.choices, t0.elapsed().as_secs_f64()
            );
            if st.execs == 0 && bad == 0 {
                println!("nothing was explored");
                std::process::exit(2);
            }
            std::process::exit(if bad > 0 { 1 } else { 0 });
        }
        Some("list") => {
            for s in scen::scenarios(&a[2], a.get(3).map_or(false, |t| t == "thorough")) {
                println!("{} bound {} max {}", s.name, s.sched.bound, s.sched.max_execs);
            }
        }
        // `replay FILE`: a reported violation again; `trace PROPERTY TIER NAME`: one execution of a scenario
        Some(cmd @ ("replay" | "trace")) => {
            let v: explore::Viol = if cmd == "replay" {
                serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap()
            } else {
                let scenario = scen::scenarios(&a[2], a[3] == "thorough").into_iter().find(|s| s.name.contains(&a[4])).expect("no such scenario");
                println!("{}", scenario.name);
                explore::Viol { prop: a[2].clone(), sig: String::new(), msg: String::new(), scenario, plan: vec![] }
            };
            std::fs::create_dir_all(&scratch).unwrap();
            driver::init_process(&scratch);
            let sc = std::sync::Arc::new(v.scenario.clone());
            let r = driver::run(&sc, v.plan.clone(), &scratch);
            for e in &r.trace {
                println!("{:>10.3} e{} {:?}", e.t as f64 / 1e6, e.epoch, e.ev);
            }
            for (i, s) in r.sess.iter().enumerate() {
                println!("session {i} {:?}", s.new_err);
                for l in &s.log {
                    println!("  {l}");
                }
                println!("  console {:?}", s.console);
                for e in &s.execs {
                    println!("  {:?} alive {:?}", e.result, e.alive);
                }
            }
            println!("{:?}", r.abort);
            let (vs, _) = oracle::check(&v.prop, &sc, &r);
            let _ = std::fs::remove_dir_all(&scratch);
            for x in &vs {
                println!("VIOLATION property={} replay={}", x.prop, a[2]);
                println!("  {} {}", x.sig, x.msg);
            }
            std::process::exit(if vs.is_empty() { 0 } else { 1 });
        }
        _ => usage(),
    }
}
