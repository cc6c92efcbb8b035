//! tokio as seen by the worker program: its tasks and signals belong to the simulated process.
pub use tokio::*;
pub use wmain::main;
use std::future::Future;

pub fn spawn<F>(f: F) -> task::JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    tokio::spawn(wctl::Grouped::new(f))
}
pub mod task {
    pub use super::spawn;
    pub use tokio::task::*;
}
pub mod signal {
    pub use tokio::signal::*;
    pub mod unix {
        pub use tokio::signal::unix::*;
        pub struct Signal(usize);
        pub fn signal(k: SignalKind) -> std::io::Result<Signal> {
            Ok(Signal(wctl::listen(k.as_raw_value())))
        }
        impl Signal {
            pub async fn recv(&mut self) -> Option<()> {
                let i = self.0;
                std::future::poll_fn(move |cx| wctl::poll_signal(i, cx)).await;
                Some(())
            }
            pub fn poll_recv(&mut self, cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<()>> {
                wctl::poll_signal(self.0, cx).map(Some)
            }
        }
    }
}
