//! execgraph-remote, compiled from /repo's working tree to run as a simulated process.
#![allow(dead_code, unused_imports)]
mod remote {
    include!(concat!(env!("OUT_DIR"), "/remote.rs"));
    pub async fn start() -> Result<(), String> {
        main().await.map_err(|e| format!("{:?}", e))
    }
}
/// Run the program in the given group; the result is how `main` ended.
pub fn run(group: u32) -> wctl::Grouped<wctl::Main<impl ::core::future::Future<Output = Result<(), String>>>> {
    wctl::Grouped::in_group(group, wctl::Main::new(remote::start()))
}
