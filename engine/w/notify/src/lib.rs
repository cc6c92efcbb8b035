//! notify as seen by the worker program: the simulator says when a file has been modified.
pub use notify::*;
pub struct SimWatcher(usize);
pub type RecommendedWatcher = SimWatcher;
impl std::fmt::Debug for SimWatcher {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "SimWatcher")
    }
}
pub fn recommended_watcher<F: EventHandler>(mut f: F) -> Result<RecommendedWatcher> {
    let id = wctl::add_watcher(Box::new(move || {
        f.handle_event(Ok(Event::new(EventKind::Modify(event::ModifyKind::Data(event::DataChange::Any)))))
    }));
    Ok(SimWatcher(id))
}
impl Watcher for SimWatcher {
    fn new<F: EventHandler>(f: F, _: Config) -> Result<Self> {
        recommended_watcher(f)
    }
    fn watch(&mut self, p: &std::path::Path, _: RecursiveMode) -> Result<()> {
        wctl::watch(self.0, p.to_path_buf());
        Ok(())
    }
    fn unwatch(&mut self, _: &std::path::Path) -> Result<()> {
        Ok(())
    }
    fn kind() -> WatcherKind {
        WatcherKind::Inotify
    }
}
impl Drop for SimWatcher {
    fn drop(&mut self) {
        wctl::drop_watcher(self.0)
    }
}
