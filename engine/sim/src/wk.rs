//! The real worker program (execgraph-remote), running as a simulated process that talks either to
//! the real controller or to a script.
use crate::sim::{self, *};
use execgraph::httpinterface as hi;
use std::cell::RefCell;
use std::collections::HashMap;
use std::future::Future;
use std::rc::Rc;
use std::task::Poll;
use std::time::Duration;

struct St {
    cl: Rc<Cl>,
    faults: u32,
    cut_off: bool,
}
thread_local! {
    static ST: RefCell<HashMap<usize, St>> = RefCell::new(HashMap::new());
    static NEXT: RefCell<usize> = const { RefCell::new(0) };
}
struct Host;
impl wctl::Host for Host {
    fn children(&self, g: u32) -> Vec<(i32, bool)> {
        let Some(s) = sim::cur() else { return vec![] };
        let w = s.w.borrow();
        w.children(g).into_iter().map(|c| (c.1 as i32, c.2)).collect()
    }
    fn reap(&self, g: u32) -> Option<(i32, i32)> {
        let s = sim::cur()?;
        let mut w = s.w.borrow_mut();
        let c = w.children(g).into_iter().find(|c| c.2)?;
        Some((c.1 as i32, w.reap(c.0)))
    }
    fn note(&self, _: u32, _: &str) {}
}
/// Before and after every execution.
pub fn reset() {
    let old = ST.with(|s| std::mem::take(&mut *s.borrow_mut()));
    drop(old);
    NEXT.with(|n| *n.borrow_mut() = 0);
    wctl::reset();
    wctl::set_host(Some(Rc::new(Host)));
    reqwest::sim::set(Some(Rc::new(|req| {
        let g = tokio::sim::group();
        Box::pin(Outside(Box::pin(route((g.max(GID0) - GID0) as usize, req))))
    })));
}
fn gid(c: usize) -> u32 {
    GID0 + c as u32
}
pub fn running(c: usize) -> bool {
    !wctl::dead(gid(c))
}
pub fn listening(c: usize, sig: i32) -> bool {
    wctl::listening(gid(c), sig)
}
pub fn usr1(c: usize) {
    wctl::raise(gid(c), libc::SIGUSR1);
}
pub fn kill(c: usize) {
    wctl::kill(gid(c), Some(-9));
}
fn err_file(s: &Sim, c: usize) -> String {
    format!("{}/slurm{c}.err", s.dir.borrow())
}
pub fn slurm(s: &Sim, c: usize, msg: &str) {
    use std::io::Write;
    let p = err_file(s, c);
    if let Ok(mut f) = std::fs::OpenOptions::new().append(true).open(&p) {
        let _ = f.write_all(msg.as_bytes());
    }
    wctl::modified(gid(c), std::path::Path::new(&p));
}

/// Polls what is not part of the worker program.
struct Outside<F>(std::pin::Pin<Box<F>>);
impl<F: Future> Future for Outside<F> {
    type Output = F::Output;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<F::Output> {
        let old = tokio::sim::set_group(0);
        let r = self.0.as_mut().poll(cx);
        tokio::sim::set_group(old);
        r
    }
}
impl<F> Drop for Outside<F> {
    fn drop(&mut self) {
        // what it holds is dropped after this in the group of whoever drops it, which is fine
    }
}

/// The token of the scripted controller.
pub const TOKEN: &str = "dG9rZW4=";
/// What a task would inherit from a worker.
pub fn env(g: u32) -> Vec<String> {
    wctl::with(g, |g| g.env.values().cloned().collect()).unwrap_or_default()
}

/// The worker program from its start to its end.
pub async fn worker(ci: usize, spec: &Client, token: &str, more: &[String], faults: u32) {
    let s = sim::sim();
    let err = err_file(&s, ci);
    let _ = std::fs::write(&err, b"");
    let mut args: Vec<String> = vec!["execgraph-remote".into(), s.w.borrow().url(), spec.rt.to_string()];
    args.extend(["--disconnect-err-msg".to_string(), spec.msg.clone()]);
    args.extend(more.iter().map(|a| a.replace("$ERR", &err)));
    let (job, task) = spec.jobid.split_once('_').unwrap_or((&spec.jobid, ""));
    let env = [
        ("EXECGRAPH_AUTHORIZATION_TOKEN", token),
        ("SLURM_ARRAY_JOB_ID", job),
        ("SLURM_ARRAY_TASK_ID", task),
        ("SLURM_JOB_ID", job),
    ];
    let g = gid(ci);
    s.w.borrow_mut().autoping(ci, false);
    ST.with(|x| {
        let cl = Rc::new(Cl { ci, spec: spec.clone(), token: token.to_string() });
        x.borrow_mut().insert(ci, St { cl, faults, cut_off: false })
    });
    wctl::create(
        g,
        wctl::Group::new(g, args.clone(), env.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()),
    );
    record(Ev::WStart { client: ci, args });
    let mut f = Box::pin(worker::run(g));
    let r = std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
        Poll::Ready(r) => Poll::Ready(Some(r)),
        Poll::Pending if wctl::dead(g) => Poll::Ready(None),
        Poll::Pending => Poll::Pending,
    })
    .await;
    let ok = match r {
        Some(r) => {
            wctl::kill(g, Some(if r.is_ok() { 0 } else { 1 }));
            r.is_ok()
        }
        None => wctl::with(g, |g| g.exit_code == Some(0)).unwrap_or(false),
    };
    drop(f);
    let c = s.w.borrow().children(g);
    let alive = c.iter().filter(|c| !c.2).map(|c| c.1).collect();
    let zombies = c.iter().filter(|c| c.2).map(|c| c.1).collect();
    record(Ev::WExit { client: ci, ok, alive, zombies });
}

type Out = Result<http::Response<hyper::Body>, reqwest::sim::BoxError>;
async fn route(ci: usize, req: http::Request<Vec<u8>>) -> Out {
    let s = sim::sim();
    let (parts, body) = req.into_parts();
    let what = parts.uri.path().trim_start_matches('/').to_string();
    let r = Reply { code: 0, headers: parts.headers.clone(), body: body.clone() };
    let mut txn = 0;
    let mut asks = false;
    let json = match what.as_str() {
        "start" => decode::<hi::StartRequest>(&r).map(|x| {
            asks = true;
            serde_json::to_value(&x).unwrap()
        }),
        "begun" => decode::<hi::BegunRequest>(&r).map(|x| {
            txn = x.transaction_id;
            serde_json::to_value(&x).unwrap()
        }),
        "ping" => decode::<hi::Ping>(&r).map(|x| {
            txn = x.transaction_id;
            serde_json::to_value(&x).unwrap()
        }),
        "end" => decode::<hi::EndRequest>(&r).map(|x| {
            txn = x.transaction_id;
            asks = x.start_request.is_some();
            serde_json::to_value(&x).unwrap()
        }),
        _ => None,
    };
    let h = |n: &str| parts.headers.get(n).and_then(|v| v.to_str().ok()).map(|s| s.to_string());
    record(Ev::WReq {
        client: ci,
        what: what.clone(),
        txn,
        body: json.unwrap_or(serde_json::Value::Null),
        auth: h("authorization"),
        job: h("x-execgraph-slurm-job-id"),
    });
    let Some((cl, left, cut_off)) = ST.with(|x| x.borrow().get(&ci).map(|s| (s.cl.clone(), s.faults, s.cut_off))) else {
        return Err("nobody".into());
    };
    let script = s.w.borrow().sc.script.clone();
    let kinds = match &script {
        Some(p) => p.kinds.clone(),
        None => vec![Fault::Unreachable, Fault::NoReply, Fault::BlackHole, Fault::Partition, Fault::Slow(12_000)],
    };
    let mut fault = None;
    if left > 0 && !cut_off {
        let c = s.choose(1 + kinds.len(), true);
        if c > 0 {
            fault = Some(kinds[c - 1]);
            ST.with(|x| {
                if let Some(s) = x.borrow_mut().get_mut(&ci) {
                    s.faults -= 1;
                    s.cut_off = fault == Some(Fault::Partition);
                }
            });
        }
    }
    if cut_off {
        fault = Some(Fault::Partition);
    }
    if let Some(kind) = fault {
        record(Ev::WFault { client: ci, what: what.clone(), txn, kind });
    }
    match fault {
        Some(Fault::Unreachable) => return Err("connection refused".into()),
        Some(Fault::BlackHole | Fault::Partition) => std::future::pending().await,
        Some(Fault::Slow(ms)) => tokio::time::sleep(Duration::from_millis(ms)).await,
        _ => {}
    }
    let out = match &script {
        Some(p) => scripted(ci, p, &what, txn, asks, fault),
        None => real(&cl, &what, txn, parts, body, fault).await,
    };
    if fault == Some(Fault::NoReply) {
        return Err("connection reset".into());
    }
    out
}

async fn real(cl: &Cl, what: &str, txn: u32, parts: http::request::Parts, body: Vec<u8>, fault: Option<Fault>) -> Out {
    let ci = cl.ci;
    record(Ev::Req { client: ci, what: what.into(), txn });
    let method = match parts.method.as_str() {
        "GET" => "GET",
        _ => "POST",
    };
    let path = parts.uri.path().to_string();
    let more = parts.headers.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    match call(ReqSpec { more, kind: 0, method, path, token: None, jobid: None, ctype: None, body }).await {
        None => {
            record(Ev::Refused { client: ci, what: what.into() });
            Err("connection refused".into())
        }
        Some(r) => {
            let lost = fault == Some(Fault::NoReply);
            let via = |v: &str| if lost { "lost".to_string() } else { v.to_string() };
            if what == "start" && r.code == 200 {
                if let Some(x) = decode::<hi::StartResponse>(&r) {
                    cl.handout(x, &via("start"));
                }
            }
            if !lost {
                record(Ev::Resp { client: ci, what: what.into(), code: r.code, txn });
            }
            if what == "end" {
                cl.set_cur(None);
                if r.code == 200 {
                    if let Some(x) = decode::<hi::EndResponse>(&r).and_then(|e| e.start_response) {
                        cl.handout(x, &via("end"));
                    }
                }
            }
            let mut b = http::Response::builder().status(r.code);
            *b.headers_mut().unwrap() = r.headers;
            Ok(b.body(hyper::Body::from(r.body)).unwrap())
        }
    }
}

fn scripted(ci: usize, p: &Script, what: &str, txn: u32, asks: bool, fault: Option<Fault>) -> Out {
    let s = sim::sim();
    let code = match fault {
        Some(Fault::Code(c)) => c,
        _ => 200,
    };
    let mut next = None;
    if code == 200 && asks && (what == "start" || what == "end") {
        let mut w = s.w.borrow_mut();
        let ts = &w.sc.sessions[w.sess].tasks;
        let n = NEXT.with(|n| *n.borrow());
        if let (Some(t), true) = (ts.get(n), crate::rt::vt() < w.t0() + p.until_ms * MS) {
            NEXT.with(|n| *n.borrow_mut() += 1);
            let mut cmdline = vec!["/sim/task".to_string(), t.key.clone()];
            cmdline.extend(t.extra_args.iter().cloned());
            let key = t.key.clone();
            next = Some(hi::StartResponse {
                transaction_id: 100 + n as u32,
                cmdline: cmdline.iter().map(|a| sim::os(a)).collect(),
                fd_input: t.fd_input.clone(),
                ping_interval_msecs: p.ping_ms,
            });
            w.handed_out(&key);
        }
    }
    let mut code = code;
    if code == 200 && what == "start" && next.is_none() {
        code = 429;
    }
    record(Ev::WResp { client: ci, what: what.into(), txn, code, next: next.as_ref().map(|n| n.transaction_id) });
    let body = match what {
        "start" => next.map(|n| postcard::to_allocvec(&n).unwrap()).unwrap_or_default(),
        "end" => postcard::to_allocvec(&hi::EndResponse { start_response: next }).unwrap(),
        _ => vec![],
    };
    let b = http::Response::builder().status(code).header("content-type", "application/postcard");
    Ok(b.body(hyper::Body::from(body)).unwrap())
}

/// An execution without the controller.
pub fn alone(s: &Rc<Sim>, sc: &Scenario) {
    s.begin_exec(0, 0);
    s.record(Ev::ExecStart(0));
    let clients = sc.sessions[0].execs[0].prov.as_ref().unwrap().clients.clone();
    s.w.borrow_mut().set_clients(clients.len());
    s.w.borrow_mut().set_url("http://127.0.0.1:1/");
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let mut v = vec![];
        for (ci, c) in clients.iter().enumerate() {
            let c = c.clone();
            v.push(tokio::spawn(AssertSend(Box::pin(async move {
                let Some(Op::Real(args, faults)) = c.ops.first() else { return };
                worker(ci, &c, TOKEN, args, *faults).await;
            }))));
        }
        for h in v {
            let _ = h.await;
        }
    });
    drop(rt);
    s.record(Ev::ExecEnd(Ok((0, vec![]))));
    s.end_exec();
}
