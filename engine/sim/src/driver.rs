//! Runs one execution: the real Python-level API of the crate under the controller in `sim`.
use crate::rt;
use crate::sim::{self, Abort, AbortWhy, Choice, Cut, Ev, Scenario, Sim, TEv};
use pyo3::prelude::*;
use pyo3::types::{PyBytes, PyDict};
use std::os::raw::c_void;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Arc;

#[derive(Clone, Debug, Default)]
pub struct ExecOut {
    pub result: Option<Result<(u32, Vec<String>), String>>,
    pub alive: Vec<(u32, String)>,
    /// the log after the call returned
    pub log: Vec<String>,
}
#[derive(Clone, Debug, Default)]
pub struct SessOut {
    /// construction failed
    pub new_err: Option<String>,
    pub roots: Vec<PathBuf>,
    /// per task: what logfile_runcount said before it was added
    pub runcount: Vec<(u32, Option<PathBuf>)>,
    pub ids: Vec<Result<u32, String>>,
    pub execs: Vec<ExecOut>,
    /// lines present when the session was opened
    pub log_before: usize,
    /// the whole log after the session was closed
    pub log: Vec<String>,
    pub console: String,
    pub lock_left: bool,
    /// what was shown on the console, and what its mirror has of this session (only if writes are watched)
    pub screen: Vec<u8>,
    pub mirror: Vec<u8>,
    /// the file when the session was opened, and after it was closed
    pub raw_before: Vec<u8>,
    pub raw_after: Vec<u8>,
    /// what a reader of the log was told before the session was opened, and after it was closed
    pub read_before: Option<Result<Vec<String>, String>>,
    pub read_after: Option<Result<Vec<String>, String>>,
}
#[derive(Clone, Debug)]
pub struct RunOut {
    pub choices: Vec<Choice>,
    pub trace: Vec<TEv>,
    pub sess: Vec<SessOut>,
    pub abort: Option<AbortWhy>,
    pub panicked: bool,
    pub npoints: u64,
    pub epochs: u32,
    pub hist: crate::hist::Verdict,
}

pub static mut MODULE: Option<Py<PyAny>> = None;

/// Once per process, before the first execution.
pub fn init_process(scratch: &str) {
    rt::set_scratch(scratch);
    let _ = std::fs::create_dir_all(format!("{scratch}/run/user"));
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max;
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    unsafe {
        extern "C" {
            static mut Py_UTF8Mode: i32;
        }
        Py_UTF8Mode = 1;
    }
    pyo3::prepare_freethreaded_python();
    Python::with_gil(|py| unsafe {
        MODULE = Some(pyo3::wrap_pymodule!(execgraph::pylib::execgraph)(py).into());
    });
    simhook::set_handler(sim::point_handler);
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        if p.is::<Abort>() || p.is::<simhook::LockContended>() {
            return;
        }
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("SIM_DEBUG").is_ok() {
            eprintln!("panic: {msg} at {loc}");
        }
        if rt::on() {
            PANICKED.with(|p| p.set(true));
            sim::record(Ev::Panic { msg, loc });
        }
    }));
}
thread_local! {
    static PANICKED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

extern "C" fn capsule_fn(ctx: *const c_void, success: u32, runcount: u32, _sig: u32, ntasks: u64) -> i32 {
    let c = ctx as usize;
    let idx = c >> 1;
    if c & 1 == 0 {
        sim::record(Ev::Pre { idx });
        return sim::sim().preamble(idx);
    } else {
        sim::record(Ev::Post { idx, success, runcount, ntasks });
    }
    0
}
fn capsule(py: Python, idx: usize, post: bool) -> PyObject {
    const NAME: &[u8] = b"Execgraph::Capsule-v3\0";
    unsafe {
        let c = pyo3::ffi::PyCapsule_New(capsule_fn as *const () as *mut c_void, NAME.as_ptr() as *const _, None);
        pyo3::ffi::PyCapsule_SetContext(c, (idx << 1 | post as usize) as *mut c_void);
        PyObject::from_owned_ptr(py, c)
    }
}

pub fn read_lines(p: &str) -> Vec<String> {
    let b = std::fs::read(p).unwrap_or_default();
    String::from_utf8_lossy(&b).lines().map(|s| s.to_string()).collect()
}

pub fn reset_dir(dir: &str) {
    for f in ["wf.log", ".wrk.lock", "log.txt"] {
        let _ = std::fs::remove_file(format!("{dir}/{f}"));
    }
}

/// Run one execution on a fresh thread.
pub fn run(sc: &Arc<Scenario>, plan: Vec<u16>, dir: &str) -> RunOut {
    reset_dir(dir);
    let sc = sc.clone();
    let dir = dir.to_string();
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || run_here(sc, plan, &dir))
        .unwrap()
        .join()
        .expect("simulation thread")
}

/// All entries of the log, as a reader gets them.
fn read_all(dir: &str) -> Result<Vec<String>, String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut l = execgraph::logfile2::LogFileSnapshotReader::open(PathBuf::from(format!("{dir}/wf.log")))
            .map_err(|e| e.to_string())?;
        let v = l.read().map_err(|e| e.to_string())?;
        l.read_current_and_outdated().map_err(|e| e.to_string())?;
        Ok(v.iter().map(|e| serde_json::to_string(e).unwrap()).collect())
    }));
    r.unwrap_or_else(|_| Err("panic".into()))
}
fn cut(s: &Sim, how: Cut, from: usize, dir: &str) {
    if how == Cut::No {
        return;
    }
    let p = format!("{dir}/wf.log");
    let b = std::fs::read(&p).unwrap_or_default();
    let mut keep: Vec<usize> = (from..b.len()).rev().collect();
    if how == Cut::Lines {
        let ends: Vec<usize> = (from..b.len()).filter(|i| b[*i] == b'\n').collect();
        keep.clear();
        let mut a = from;
        for e in ends {
            keep.extend([a, a + 1, a + (e - a) / 2, e - 1, e]);
            a = e + 1;
        }
        keep.retain(|k| *k >= from && *k < b.len());
        keep.reverse();
        keep.dedup();
    }
    let i = s.choose(keep.len() + 1, true);
    let k = if i == 0 { b.len() } else { keep[i - 1] };
    s.record(Ev::Cut { keep: k, of: b.len() });
    let mut c = b[..k].to_vec();
    if how == Cut::Zeros {
        c.resize(b.len(), 0);
    }
    std::fs::write(&p, &c).unwrap();
    // nobody is left to remove the lock file either
    std::fs::write(format!("{dir}/.wrk.lock"), "{\"Header\":{\"stale\":1}}").unwrap();
}

fn run_here(sc: Arc<Scenario>, plan: Vec<u16>, dir: &str) -> RunOut {
    rt::enable(sc.seed);
    rt::set_kill_hook(Some(sim::kill_handler));
    let s = Sim::new(sc.clone(), plan);
    sim::set_cur(Some(s.clone()));
    tokio::sim::set_hook(Some(s.clone()));
    if sc.disk {
        *s.disk_dir.borrow_mut() = Some(dir.to_string());
    }
    let mut outs: Vec<SessOut> = vec![];
    let hist = match &sc.hist {
        Some(h) => crate::hist::run(h, &s, dir),
        None => Default::default(),
    };
    *s.dir.borrow_mut() = dir.to_string();
    let crashy = !sc.cuts.is_empty();
    let mut stop = false;
    for si in 0..sc.sessions.len() {
        if stop || sc.hist.is_some() {
            break;
        }
        let mut o = SessOut { log_before: read_lines(&format!("{dir}/wf.log")).len(), ..Default::default() };
        if crashy {
            o.raw_before = std::fs::read(format!("{dir}/wf.log")).unwrap_or_default();
            if si > 0 {
                o.read_before = Some(read_all(dir));
            }
        }
        let con_before = std::fs::metadata(format!("{dir}/log.txt")).map(|m| m.len()).unwrap_or(0);
        s.record(Ev::Session(si));
        if let Some(io) = sc.io.as_ref().filter(|_| si == 0) {
            let _ = execgraph::logging::flush_logging();
            crate::faultio::begin(io, dir);
        }
        let r = catch_unwind(AssertUnwindSafe(|| {
            if sc.script.is_some() {
                crate::wk::alone(&s, &sc)
            } else {
                session(&s, &sc, si, dir, &mut o)
            }
        }));
        if sc.io.is_some() && si == 0 {
            crate::faultio::heal();
            let _ = execgraph::logging::flush_logging();
            o.screen = crate::faultio::end();
        }
        simhook::set_active(false);
        if s.aborted().is_none() && simhook::abandoned() {
            s.set_aborted(AbortWhy::Abandoned);
        }
        if r.is_err() || s.aborted().is_some() {
            s.end_exec();
            stop = true;
        }
        o.log = read_lines(&format!("{dir}/wf.log"));
        let con = std::fs::read(format!("{dir}/log.txt")).unwrap_or_default();
        o.mirror = if sc.io.is_some() { con[con_before as usize..].to_vec() } else { vec![] };
        o.console = String::from_utf8_lossy(con.get(con_before as usize..).unwrap_or(&[])).to_string();
        o.lock_left = std::path::Path::new(&format!("{dir}/.wrk.lock")).exists();
        if crashy || sc.io.is_some() {
            o.raw_after = std::fs::read(format!("{dir}/wf.log")).unwrap_or_default();
            o.read_after = Some(read_all(dir));
        }
        let from = o.raw_before.len();
        outs.push(o);
        if let Some(how) = sc.cuts.get(si) {
            if !stop {
                cut(&s, *how, from, dir);
            }
        }
    }
    tokio::sim::set_hook(None);
    sim::set_cur(None);
    rt::set_kill_hook(None);
    rt::disable();
    tokio::sim::reset_fds();
    let w = s.w.borrow();
    let out = RunOut {
        choices: s.rec.borrow().clone(),
        trace: w.trace.clone(),
        sess: outs,
        abort: s.aborted(),
        panicked: PANICKED.with(|p| p.get()),
        npoints: s.npoints.get(),
        epochs: w.epoch,
        hist,
    };
    drop(w);
    out
}

fn session(s: &Sim, sc: &Scenario, si: usize, dir: &str, o: &mut SessOut) {
    Python::with_gil(|py| {
        let spec = &sc.sessions[si];
        #[allow(static_mut_refs)]
        let m = unsafe { MODULE.as_ref().unwrap() };
        let cls = m.getattr(py, "ExecGraph").unwrap();
        let roots: Vec<PathBuf> = spec.storage_roots.iter().map(PathBuf::from).collect();
        crate::faultio::arm(true);
        let g = cls.call1(
            py,
            (spec.np, PathBuf::from(format!("{dir}/wf.log")), roots, spec.fa, py.None(), spec.rerun),
        );
        crate::faultio::arm(false);
        let g = match g {
            Ok(g) => g,
            Err(e) => {
                o.new_err = Some(e.to_string());
                return;
            }
        };
        o.roots = g.call_method0(py, "all_storage_roots").unwrap().extract(py).unwrap();
        let mut added = 0;
        let mut add = |n: usize, o: &mut SessOut| {
            while added < n {
                let t = &spec.tasks[added];
                let rc: (u32, Option<PathBuf>) =
                    g.call_method1(py, "logfile_runcount", (t.key.as_str(),)).unwrap().extract(py).unwrap();
                o.runcount.push(rc);
                let mut cmdline: Vec<std::ffi::OsString> = vec!["/sim/task".into(), t.key.clone().into()];
                cmdline.extend(t.extra_args.iter().map(|a| sim::os(a)));
                let d = PyDict::new(py);
                d.set_item("dependencies", t.deps.clone()).unwrap();
                d.set_item("display", t.display.clone()).unwrap();
                d.set_item("affinity", t.affinity).unwrap();
                d.set_item("storage_root", t.storage_root).unwrap();
                if let Some((fd, b)) = &t.fd_input {
                    d.set_item("fd_input", (*fd, PyBytes::new(py, b))).unwrap();
                }
                if t.pre {
                    d.set_item("preamble", capsule(py, added, false)).unwrap();
                }
                if t.post {
                    d.set_item("postamble", capsule(py, added, true)).unwrap();
                }
                let r = g.call_method(py, "add_task", (cmdline, t.key.as_str()), Some(d));
                let r = r.map(|v| v.extract::<u32>(py).unwrap()).map_err(|e| e.to_string());
                s.record(Ev::Added { idx: added, id: r.clone() });
                o.ids.push(r);
                added += 1;
            }
        };
        for (ei, ex) in spec.execs.iter().enumerate() {
            add(ex.ntasks.unwrap_or(spec.tasks.len()), o);
            s.begin_exec(si, ei);
            s.record(Ev::ExecStart(ei));
            let prov = ex.prov.as_ref().map(|_| "/sim/prov".to_string());
            let info = ex.prov.as_ref().and_then(|p| p.info.clone());
            simhook::set_active(true);
            crate::faultio::arm(true);
            let r = g.call_method1(py, "execute", (ex.target, prov, info, ex.rate));
            crate::faultio::arm(false);
            simhook::set_active(false);
            let r: Result<(u32, Vec<String>), String> =
                r.map(|v| v.extract(py).unwrap()).map_err(|e| e.to_string());
            s.disk();
            s.record(Ev::ExecEnd(r.clone()));
            let alive = s.alive();
            let mut eo = ExecOut { result: Some(r), alive, log: vec![] };
            eo.log = read_lines(&format!("{dir}/wf.log"));
            o.execs.push(eo);
            s.end_exec();
        }
        drop(add);
        crate::faultio::arm(true);
        drop(g);
        crate::faultio::arm(false);
    });
}
