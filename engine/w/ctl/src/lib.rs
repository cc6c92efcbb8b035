//! Simulated processes ("groups"): the worker program runs inside the simulator's thread, with its
//! own environment, arguments, statics, signals, children, and death.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

#[derive(Default)]
pub struct Group {
    pub pid: u32,
    pub args: Vec<String>,
    pub env: BTreeMap<String, String>,
    pub dead: bool,
    pub exit_code: Option<i32>,
    wakers: Vec<Waker>,
    /// one entry per listener: signal number, pending, waker
    sigs: Vec<(i32, bool, Option<Waker>)>,
    watches: Vec<(std::path::PathBuf, usize)>,
    slots: HashMap<usize, Rc<dyn Any>>,
    atoms: HashMap<usize, u64>,
}
impl Group {
    pub fn new(pid: u32, args: Vec<String>, env: BTreeMap<String, String>) -> Group {
        Group { pid, args, env, ..Default::default() }
    }
}
pub trait Host {
    /// (pid, exited)
    fn children(&self, group: u32) -> Vec<(i32, bool)>;
    /// reap one exited child: pid and wait status
    fn reap(&self, group: u32) -> Option<(i32, i32)>;
    fn note(&self, group: u32, what: &str);
}
thread_local! {
    static G: RefCell<HashMap<u32, Group>> = RefCell::new(HashMap::new());
    static HOST: RefCell<Option<Rc<dyn Host>>> = const { RefCell::new(None) };
}
pub fn cur() -> u32 {
    tokio::sim::group()
}
pub fn set_host(h: Option<Rc<dyn Host>>) {
    HOST.with(|x| *x.borrow_mut() = h);
}
pub fn host() -> Option<Rc<dyn Host>> {
    HOST.try_with(|x| x.borrow().clone()).ok().flatten()
}
pub fn reset() {
    let old = G.with(|g| std::mem::take(&mut *g.borrow_mut()));
    drop(old);
    let old = WATCHERS.with(|g| std::mem::take(&mut *g.borrow_mut()));
    drop(old);
}
pub fn create(id: u32, g: Group) {
    G.with(|x| x.borrow_mut().insert(id, g));
}
pub fn with<R>(id: u32, f: impl FnOnce(&mut Group) -> R) -> Option<R> {
    G.try_with(|x| x.borrow_mut().get_mut(&id).map(f)).ok().flatten()
}
pub fn dead(id: u32) -> bool {
    id != 0 && with(id, |g| g.dead).unwrap_or(true)
}
/// The process is gone: none of its tasks runs any more.
pub fn kill(id: u32, code: Option<i32>) {
    let w = with(id, |g| {
        if !g.dead {
            g.dead = true;
            g.exit_code = code;
        }
        std::mem::take(&mut g.wakers)
    });
    for w in w.into_iter().flatten() {
        w.wake();
    }
}
pub fn raise(id: u32, sig: i32) -> bool {
    let w: Option<Vec<Option<Waker>>> = with(id, |g| {
        g.sigs
            .iter_mut()
            .filter(|s| s.0 == sig)
            .map(|s| {
                s.1 = true;
                s.2.take()
            })
            .collect()
    });
    let Some(v) = w else { return false };
    let any = !v.is_empty();
    v.into_iter().flatten().for_each(|w| w.wake());
    any
}
pub fn listening(id: u32, sig: i32) -> bool {
    with(id, |g| !g.dead && g.sigs.iter().any(|s| s.0 == sig)).unwrap_or(false)
}
pub fn listen(sig: i32) -> usize {
    with(cur(), |g| {
        g.sigs.push((sig, false, None));
        g.sigs.len() - 1
    })
    .unwrap_or(0)
}
pub fn poll_signal(i: usize, cx: &mut Context<'_>) -> Poll<()> {
    with(cur(), |g| match g.sigs.get_mut(i) {
        Some(s) if s.1 => {
            s.1 = false;
            Poll::Ready(())
        }
        Some(s) => {
            s.2 = Some(cx.waker().clone());
            Poll::Pending
        }
        None => Poll::Pending,
    })
    .unwrap_or(Poll::Pending)
}

// --- statics: one value per process ---------------------------------------------------------
pub fn slot<T: 'static>(addr: usize, init: fn() -> T) -> &'static T {
    let id = cur();
    if let Some(Some(r)) = with(id, |g| g.slots.get(&addr).cloned()) {
        let p: *const T = r.downcast_ref::<T>().expect("type of a static");
        return unsafe { &*p };
    }
    let v: Rc<dyn Any> = Rc::new(init());
    let p: *const T = v.downcast_ref::<T>().unwrap();
    if with(id, |g| g.slots.insert(addr, v.clone())).is_none() {
        std::mem::forget(v);
    }
    unsafe { &*p }
}
pub fn atom(addr: usize, init: u64) -> u64 {
    with(cur(), |g| *g.atoms.entry(addr).or_insert(init)).unwrap_or(init)
}
pub fn atom_set(addr: usize, v: u64) {
    with(cur(), |g| g.atoms.insert(addr, v));
}
pub fn atom_drop(addr: usize) {
    with(cur(), |g| g.atoms.remove(&addr));
}

// --- file watching ----------------------------------------------------------------------------
thread_local! {
    static WATCHERS: RefCell<HashMap<usize, Box<dyn FnMut()>>> = RefCell::new(HashMap::new());
    static NEXT: Cell<usize> = const { Cell::new(1) };
}
pub fn add_watcher(f: Box<dyn FnMut()>) -> usize {
    let id = NEXT.with(|n| n.replace(n.get() + 1));
    WATCHERS.with(|w| w.borrow_mut().insert(id, f));
    id
}
pub fn drop_watcher(id: usize) {
    let f = WATCHERS.try_with(|w| w.borrow_mut().remove(&id));
    drop(f);
}
pub fn watch(id: usize, p: std::path::PathBuf) {
    with(cur(), |g| g.watches.push((p, id)));
}
/// A file was modified: tell the watchers of the process.
pub fn modified(group: u32, p: &std::path::Path) {
    let ids: Vec<usize> =
        with(group, |g| g.watches.iter().filter(|w| w.0 == p).map(|w| w.1).collect()).unwrap_or_default();
    for id in ids {
        let f = WATCHERS.with(|w| w.borrow_mut().remove(&id));
        if let Some(mut f) = f {
            let old = tokio::sim::set_group(group);
            f();
            tokio::sim::set_group(old);
            WATCHERS.with(|w| w.borrow_mut().insert(id, f));
        }
    }
}

// --- tasks of a process -----------------------------------------------------------------------
pub struct Exit(pub i32);
pub fn exit(code: i32) -> ! {
    kill(cur(), Some(code));
    resume_unwind(Box::new(Exit(code)))
}
pub struct Grouped<F> {
    f: Option<Pin<Box<F>>>,
    group: u32,
    registered: bool,
}
impl<F> Grouped<F> {
    pub fn new(f: F) -> Self {
        Self::in_group(cur(), f)
    }
    pub fn in_group(group: u32, f: F) -> Self {
        Grouped { f: Some(Box::pin(f)), group, registered: false }
    }
}
unsafe impl<F> Send for Grouped<F> {}
impl<F: Future> Future for Grouped<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let g = self.group;
        if dead(g) {
            let old = tokio::sim::set_group(g);
            self.f = None;
            tokio::sim::set_group(old);
            return Poll::Pending;
        }
        if !self.registered {
            self.registered = true;
            with(g, |x| x.wakers.push(cx.waker().clone()));
        }
        let Some(f) = self.f.as_mut() else { return Poll::Pending };
        let old = tokio::sim::set_group(g);
        let r = catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(cx)));
        if r.is_ok() && dead(g) {
            self.f = None;
        }
        tokio::sim::set_group(old);
        match r {
            Ok(r) => {
                if dead(g) {
                    return Poll::Pending;
                }
                r
            }
            Err(e) if e.is::<Exit>() => {
                self.f = None;
                Poll::Pending
            }
            Err(e) => resume_unwind(e),
        }
    }
}

// --- the main task can block: it has a stack of its own ----------------------------------------
const STACK: usize = 2 << 20;
struct Fib {
    me: libc::ucontext_t,
    back: libc::ucontext_t,
    stack: *mut libc::c_void,
    body: Option<Box<dyn FnOnce()>>,
    done: bool,
    panic: Option<Box<dyn Any + Send>>,
    /// how long the body wants to sleep
    sleep: Option<Duration>,
    waiting: bool,
}
thread_local! {
    static FIB: Cell<*mut Fib> = const { Cell::new(std::ptr::null_mut()) };
}
extern "C" fn entry(lo: u32, hi: u32) {
    let p = ((hi as usize) << 32 | lo as usize) as *mut Fib;
    unsafe {
        let body = (*p).body.take().unwrap();
        if let Err(e) = catch_unwind(AssertUnwindSafe(body)) {
            (*p).panic = Some(e);
        }
        (*p).done = true;
        libc::swapcontext(&mut (*p).me, &(*p).back);
    }
    unreachable!();
}
unsafe fn resume(p: *mut Fib) {
    let old = FIB.with(|f| f.replace(p));
    libc::swapcontext(&mut (*p).back, &(*p).me);
    FIB.with(|f| f.set(old));
}
unsafe fn yield_now(p: *mut Fib) {
    libc::swapcontext(&mut (*p).me, &(*p).back);
}
/// `std::thread::sleep` of a simulated process.
pub fn block_sleep(d: Duration) {
    let p = FIB.with(|f| f.get());
    if p.is_null() {
        return;
    }
    unsafe {
        (*p).sleep = Some(d);
        let old = tokio::sim::group();
        yield_now(p);
        tokio::sim::set_group(old);
    }
}
/// Runs `f` (which makes and polls the future once) on the fibre until it returns, sleeping in between.
pub struct Main<F: Future> {
    fut: Option<Pin<Box<F>>>,
    fib: *mut Fib,
    out: Rc<RefCell<Option<Poll<F::Output>>>>,
    timer: Option<Pin<Box<tokio::time::Sleep>>>,
}
impl<F: Future + 'static> Main<F>
where
    F::Output: 'static,
{
    pub fn new(f: F) -> Self {
        Main { fut: Some(Box::pin(f)), fib: std::ptr::null_mut(), out: Default::default(), timer: None }
    }
}
impl<F: Future + 'static> Future for Main<F>
where
    F::Output: 'static,
{
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        loop {
            if let Some(t) = self.timer.as_mut() {
                if t.as_mut().poll(cx).is_pending() {
                    return Poll::Pending;
                }
                self.timer = None;
            }
            unsafe {
                if self.fib.is_null() {
                    let fut: *mut Pin<Box<F>> = self.fut.as_mut().unwrap();
                    let out = self.out.clone();
                    let w = cx.waker().clone();
                    let body: Box<dyn FnOnce()> = Box::new(move || {
                        let mut cx = Context::from_waker(&w);
                        let r = (*fut).as_mut().poll(&mut cx);
                        *out.borrow_mut() = Some(r);
                    });
                    let stack = libc::mmap(
                        std::ptr::null_mut(),
                        STACK,
                        libc::PROT_READ | libc::PROT_WRITE,
                        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                        -1,
                        0,
                    );
                    assert!(stack != libc::MAP_FAILED);
                    let p = Box::into_raw(Box::new(Fib {
                        me: std::mem::zeroed(),
                        back: std::mem::zeroed(),
                        stack,
                        body: Some(body),
                        done: false,
                        panic: None,
                        sleep: None,
                        waiting: false,
                    }));
                    libc::getcontext(&mut (*p).me);
                    (*p).me.uc_stack.ss_sp = stack;
                    (*p).me.uc_stack.ss_size = STACK;
                    (*p).me.uc_link = std::ptr::null_mut();
                    let f: extern "C" fn() = std::mem::transmute(entry as extern "C" fn(u32, u32));
                    libc::makecontext(&mut (*p).me, f, 2, p as usize as u32, (p as usize >> 32) as u32);
                    self.fib = p;
                }
                let p = self.fib;
                (*p).waiting = false;
                resume(p);
                if (*p).done {
                    let panic = (*p).panic.take();
                    libc::munmap((*p).stack, STACK);
                    drop(Box::from_raw(p));
                    self.fib = std::ptr::null_mut();
                    if let Some(e) = panic {
                        resume_unwind(e);
                    }
                    let r = self.out.borrow_mut().take().unwrap();
                    return r;
                }
                let d = (*p).sleep.take().unwrap_or_default();
                self.timer = Some(Box::pin(tokio::time::sleep(d)));
            }
        }
    }
}
impl<F: Future> Drop for Main<F> {
    fn drop(&mut self) {
        unsafe {
            if !self.fib.is_null() {
                // suspended: what is on its stack is leaked, and so is the future it was polling
                libc::munmap((*self.fib).stack, STACK);
                drop(Box::from_raw(self.fib));
                std::mem::forget(self.fut.take());
            }
        }
    }
}
