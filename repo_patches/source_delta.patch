From 6a459d0a5e8f7ae20f5dd4713d2a806cfaae87e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:57 +0000
Subject: [PATCH 01/25] fix: keep tasks downstream of a failure from running in
 a later execute() of the session

---
 src/execgraph.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 6cb05a5..1160922 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -497,10 +497,11 @@ fn get_subgraph<'a, 'b: 'a>(
     // or if we've already exeuted the task in a previous call to execute
     let mut filtered_subgraph = subgraph.filter_map(
         |_n, &w| {
-            if completed.contains(&w.key) {
+            if completed.contains(&w.key) && !logfile.has_failure(&w.key) {
                 // if we already ran this command within this process, don't record it
                 // in reused_old_keys. that's only for stuff that was run in a previous
-                // session
+                // session. (if it failed, it's dealt with below, because its downstream
+                // tasks need to be removed too.)
                 trace!(
                     "Skipping {} because it was already run successfully within this session",
                     w.key
@@ -524,24 +525,27 @@ fn get_subgraph<'a, 'b: 'a>(
 
     // If we are skipping failures, we need to further filter the graph down
     // to not include the failures or any downstream tasks, and add the failures
-    // that were important to `reused_old_keys`.
-    if !rerun_failures {
+    // that were important to `reused_old_keys`. Tasks that failed earlier within this
+    // same session are always skipped.
+    let failures = filtered_subgraph
+        .node_indices()
+        .filter(|&n| {
+            let w = filtered_subgraph[n];
+            logfile.has_failure(&w.key) && (!rerun_failures || completed.contains(&w.key))
+        })
+        .collect::<HashSet<NodeIndex>>();
+    if !failures.is_empty() {
         trace!("Recomputing transitive closure of filtered subgraph");
         let tc = transitive_closure_dag(&filtered_subgraph)?;
-        let failures = tc
-            .node_indices()
-            .filter(|&n| {
-                let w = tc[n];
-                logfile.has_failure(&w.key)
-            })
-            .collect::<HashSet<NodeIndex>>();
 
         trace!("Found N={} commands that previously failed", failures.len());
         filtered_subgraph = filtered_subgraph.filter_map(
             |n, &w| {
                 if failures.contains(&n) {
                     trace!("Skipping {} because it previously failed", w.key);
-                    reused_old_keys.insert(w.key.clone());
+                    if !completed.contains(&w.key) {
+                        reused_old_keys.insert(w.key.clone());
+                    }
                     return None;
                 }
                 for e in tc.edges_directed(n, Direction::Incoming) {
-- 
2.43.0


From 487782a552e04cc89d7262b23d805f60e8b9eb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:06 +0000
Subject: [PATCH 02/25] fix: a child that does not read its fd_input no longer
 panics or blocks the runner

---
 src/bin/execgraph-remote.rs | 13 ++++---------
 src/localrunner.rs          | 24 +++++++++++++++---------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index a3ab2f8..79dae1f 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -5,7 +5,7 @@ use execgraph::{
     http_extensions::reqwest::{RequestBuilderExt, ResponseExt},
     httpinterface::*,
     localrunner::{
-        wait_with_output, ChildOutput, ChildProcessError
+        wait_with_output, write_fd_input, ChildOutput, ChildProcessError
     },
 };
 use execgraph::logfile2::ValueMaps;
@@ -18,7 +18,6 @@ use notify::Watcher;
 use reqwest::header::{HeaderMap, HeaderValue};
 use std::{convert::TryInto, io::Read, os::unix::prelude::AsRawFd, sync::atomic::AtomicBool, time::Duration};
 use thiserror::Error;
-use tokio::io::AsyncWriteExt;
 use tokio_command_fds::{CommandFdExt, FdMapping};
 use tokio_util::sync::CancellationToken;
 use tracing::warn;
@@ -390,13 +389,8 @@ async fn run_command(
         }
     };
 
-    // dump input into fd4 immediately
-    if let Some(p) = fd4_write_pipe {
-        let (_fd, buf) = start.fd_input.as_ref().unwrap();
-        let mut writer = tokio::io::BufWriter::new(p);
-        writer.write_all(buf).await.unwrap();
-        writer.flush().await.unwrap();
-    }
+    // dump input into fd4 while the child is running
+    let mut write_input = std::pin::pin!(write_fd_input(fd4_write_pipe, start.fd_input.as_ref()));
 
     let pid = child
        .id()
@@ -428,6 +422,7 @@ async fn run_command(
             maybe_output = &mut child_futures => {
                 maybe_output?
             },
+            _ = &mut write_input => unreachable!(),
             _ = token3.cancelled() => {
                 return Err(RemoteError::PingTimeout("Failed to receive server pong (343)".to_owned()));
             },
diff --git a/src/localrunner.rs b/src/localrunner.rs
index f521600..5fcbb3a 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -16,7 +16,7 @@ use tokio::{
     process::Command,
 };
 use tokio_command_fds::{CommandFdExt, FdMapping};
-use tokio_pipe::PipeRead;
+use tokio_pipe::{PipeRead, PipeWrite};
 use tracing::debug;
 
 use crate::{
@@ -113,14 +113,6 @@ pub async fn run_local_process_loop(
             }
         };
 
-        // Dump input into fd4 immediately
-        if let Some(p) = fd4_write_pipe {
-            let (_fd, buf) = cmd.fd_input.as_ref().unwrap();
-            let mut writer = tokio::io::BufWriter::new(p);
-            writer.write_all(buf).await.unwrap();
-            writer.flush().await.unwrap();
-        }
-
         // Get PID from fd3, or if it doesn't send one, just the child PID
         let pid = child
             .id()
@@ -144,6 +136,8 @@ pub async fn run_local_process_loop(
             output = wait_with_output(child, fd3_read_pipe) => {
                 output.unwrap()
             }
+            // Dump input into fd4 while the child is running
+            _ = write_fd_input(fd4_write_pipe, cmd.fd_input.as_ref()) => unreachable!(),
         };
 
         tracing::debug!("Finished cmd");
@@ -158,6 +152,18 @@ pub async fn run_local_process_loop(
     );
 }
 
+/// Feed a child process its ``fd_input``, close the pipe, and then never return. This is meant to
+/// run concurrently with waiting for the child, because the child might produce output before
+/// reading all of its input, or not read it at all.
+pub async fn write_fd_input(pipe: Option<PipeWrite>, fd_input: Option<&(i32, Vec<u8>)>) {
+    if let (Some(mut pipe), Some((_fd, buf))) = (pipe, fd_input) {
+        if let Err(e) = pipe.write_all(buf).await {
+            debug!("Child did not read all of its fd_input: {}", e);
+        }
+    }
+    futures::future::pending().await
+}
+
 pub async fn wait_with_output(
     mut child: tokio::process::Child,
     fd: PipeRead,
-- 
2.43.0


From 20e8f7be6071fb0228c013c6e9b58ea960701560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:43 +0000
Subject: [PATCH 03/25] fix: call the preamble once per task

---
 src/localrunner.rs | 4 ++--
 src/server.rs      | 3 ---
 src/sync.rs        | 2 --
 3 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/localrunner.rs b/src/localrunner.rs
index 5fcbb3a..cd0b9f4 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -98,7 +98,7 @@ pub async fn run_local_process_loop(
             Ok(child) => child,
             Err(e) => {
                 tracker
-                    .send_started(subgraph_node_id, cmd, &hostname, 0, "".to_string())
+                    .send_started(subgraph_node_id, &hostname, 0, "".to_string())
                     .await;
                 tracker
                     .send_finished(
@@ -119,7 +119,7 @@ pub async fn run_local_process_loop(
             .expect("child hasn't been waited for yet, so its pid should exist");
 
         tracker
-            .send_started(subgraph_node_id, cmd, &hostname, pid, "".to_string())
+            .send_started(subgraph_node_id, &hostname, pid, "".to_string())
             .await;
 
         let output: ChildOutput = tokio::select! {
diff --git a/src/server.rs b/src/server.rs
index ddc1ffe..b47c24e 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -47,7 +47,6 @@ lazy_static::lazy_static! {
 #[derive(Debug)]
 struct ConnectionState {
     node_id: NodeIndex,
-    cmd: Cmd,
     start_time_approx: Instant,
     timer_id: TimerID,
     disconnect_error_message: String,
@@ -383,7 +382,6 @@ async fn start_request_impl(
         ConnectionState {
             start_time_approx: std::time::Instant::now(),
             timer_id,
-            cmd: cmd.clone(),
             node_id,
             disconnect_error_message: request.disconnect_error_message,
             slurm_jobid: runner_slurm_jobid,
@@ -428,7 +426,6 @@ async fn begun_handler(
         .tracker
         .send_started(
             cstate.node_id,
-            &cstate.cmd,
             &request.host,
             request.pid,
             runner_slurm_jobid,
diff --git a/src/sync.rs b/src/sync.rs
index 1af1d8d..d05d1d7 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -644,12 +644,10 @@ impl ReadyTrackerClient {
     pub async fn send_started(
         &self,
         v: NodeIndex,
-        cmd: &Cmd,
         host: &str,
         pid: u32,
         slurm_jobid: String,
     ) {
-        cmd.call_preamble();
         let r = self
             .s
             .send(Event::Started(StartedEvent {
-- 
2.43.0


From 9cda623c12221fb120c0f8d6f77eff8d43bcebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:26 +0000
Subject: [PATCH 04/25] fix: a repeated /begun no longer brings down the
 workflow

---
 src/server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index b47c24e..cc244f4 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -47,6 +47,7 @@ lazy_static::lazy_static! {
 #[derive(Debug)]
 struct ConnectionState {
     node_id: NodeIndex,
+    begun: bool,
     start_time_approx: Instant,
     timer_id: TimerID,
     disconnect_error_message: String,
@@ -383,6 +384,7 @@ async fn start_request_impl(
             start_time_approx: std::time::Instant::now(),
             timer_id,
             node_id,
+            begun: false,
             disconnect_error_message: request.disconnect_error_message,
             slurm_jobid: runner_slurm_jobid,
         },
@@ -406,7 +408,7 @@ async fn begun_handler(
     if authorization.token() != state.authorization_token {
         return Err(AppError::Unauthorized);
     };
-    let cstate = state
+    let mut cstate = state
         .connections
         .get_mut(&request.transaction_id)
         .ok_or(AppError::NoSuchTransaction)?;
@@ -422,6 +424,11 @@ async fn begun_handler(
         None => return Err(AppError::BadRequest),
     };
 
+    // the request might be a duplicate of one that we already processed
+    if std::mem::replace(&mut cstate.begun, true) {
+        return Ok((StatusCode::OK, "").into_response());
+    }
+
     state
         .tracker
         .send_started(
-- 
2.43.0


From e267a12e70f1ec2ff15b71e54de51cf169cd783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:26 +0000
Subject: [PATCH 05/25] fix: an /end from the wrong slurm job no longer loses
 the task

---
 src/server.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index cc244f4..8815c2c 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -464,18 +464,18 @@ async fn end_handler(
         None => return Err(AppError::BadRequest),
     };
 
+    // If the RPC trying to end a job is coming from a different slurm jobid
+    // than the RPC which started the job, something fishy is going on, and the
+    // transaction remains open.
     let cstate = {
         let (_transaction_id, cstate) = state
             .connections
-            .remove(&request.transaction_id)
+            .remove_if(&request.transaction_id, |_, cstate| {
+                cstate.slurm_jobid == runner_slurm_jobid
+            })
             .ok_or(AppError::NoSuchTransaction)?;
         cstate
     };
-    // If the RPC trying to end a job is coming from a different slurm jobid
-    // than the RPC which started the job, something fishy is going on.
-    if cstate.slurm_jobid != runner_slurm_jobid {
-        return Err(AppError::NoSuchTransaction);
-    };
 
     state.timeouts.cancel(cstate.timer_id);
     let flag = AsyncFlag::new();
-- 
2.43.0


From 32a1cbbe186352d8f11ab041be36ea07b9da1897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:26 +0000
Subject: [PATCH 06/25] fix: reaping soft-cancelled connections races with /end

---
 src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 8815c2c..6f00507 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -136,7 +136,10 @@ impl<'a> State<'a> {
                     }
                 }
                 for key in keys_to_remove {
-                    expired.push(self.connections.remove(&key).unwrap().1);
+                    // it might have been ended in the meantime
+                    if let Some((_, cstate)) = self.connections.remove(&key) {
+                        expired.push(cstate);
+                    }
                 }
             }
 
-- 
2.43.0


From 5bfb4a7f7922da67e2d2f566e4b580a801fefe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:26 +0000
Subject: [PATCH 07/25] fix: tasks left in the ready queue are not started
 during shutdown

---
 src/sync.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sync.rs b/src/sync.rs
index d05d1d7..48a485f 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -632,6 +632,12 @@ impl ReadyTrackerClient {
             let (task, _priority) = receiver.recv().await?;
             if !task.taken.fetch_or(true, SeqCst) {
                 let mut x = self.queuestate.get_mut(&task.affinity.data).expect("bar");
+                // The server first closes the channels and then sets num_ready = 0, so this has to be
+                // checked while we're holding on to `x`.
+                if receiver.is_closed() {
+                    // we're shutting down, and this task shouldn't be started anymore
+                    return Err(ReadyTrackerClientError::SoftShutdown);
+                }
                 x.num_ready -= 1;
                 x.num_inflight += 1;
                 self.ratecounter_launch.update(std::time::Instant::now());
-- 
2.43.0


From d2ccdc21486f7b2a1e1e9c38347e642f59639b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:26 +0000
Subject: [PATCH 08/25] fix: a soft shutdown ends when nothing is in flight,
 and not before

---
 src/sync.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sync.rs b/src/sync.rs
index 48a485f..463a69d 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -339,7 +339,7 @@ impl<'a> ReadyTrackerServer<'a> {
                                 self.shutdown_state = ShutdownState::SoftShutdown;
                             }
 
-                            if self.n_ready_or_inflight == 0 || (self.shutdown_state == ShutdownState::SoftShutdown && self.inflight.is_empty()) {
+                            if self.n_ready_or_inflight == 0 || (self.shutdown_state == ShutdownState::SoftShutdown && self.nothing_inflight()) {
                                 // Drop the send side of the `self.ready` channel. This will cause the receive side
                                 // to start returning errors when localrunner.rs and server.rs call recv(), which is exactl
                                 // what we want and will break the run_local_process_loop runners at the point where they're
@@ -363,6 +363,10 @@ impl<'a> ReadyTrackerServer<'a> {
                     }
                     self.shutdown_state = ShutdownState::SoftShutdown;
                     self.soft_shutdown_trigger.unset();
+                    if self.nothing_inflight() {
+                        debug!("background_serve breaking on soft shutdown with nothing inflight");
+                        break;
+                    }
                 },
                 _ = token.hard_cancelled() => {
                     debug!("background_serve breaking on token cancellation");
@@ -389,6 +393,13 @@ impl<'a> ReadyTrackerServer<'a> {
         Ok(())
     }
 
+    /// Have all of the tasks that were taken out of the ready queues finished? Unlike `self.inflight`,
+    /// this also covers the tasks that were handed out to a runner which hasn't reported that it
+    /// started them yet.
+    fn nothing_inflight(&self) -> bool {
+        self.queuestate.iter().all(|q| q.num_inflight == 0)
+    }
+
     async fn _finished_bookkeeping(&mut self, e: &mut FinishedEvent) -> Result<()> {
         self._finished_bookkeeping_1(e)?;
         let out = self._finished_bookkeeping_2(e).await;
-- 
2.43.0


From b5517c35f75dbe5f0c5bed10b39ac2f09ca9bd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:18 +0000
Subject: [PATCH 09/25] fix: record the real host, pid and job id of tasks
 started during shutdown

---
 src/sync.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sync.rs b/src/sync.rs
index 463a69d..56c8240 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -189,9 +189,9 @@ impl<'a> ReadyTrackerServer<'a> {
                     let cmd = self.g[e.id];
                     self.logfile.write(LogEntry::new_started(
                         &cmd.key,
-                        "host",
-                        0,
-                        "".to_string(),
+                        &e.host,
+                        e.pid,
+                        e.slurm_jobid,
                     ))?;
                     assert!(inflight.insert(e.id, Instant::now()).is_none());
                 }
-- 
2.43.0


From 90d7337005634093fd9c4dd9f11bc0be3ea4f08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:18 +0000
Subject: [PATCH 10/25] fix: tasks that finish or are killed during shutdown
 count as finished in this session

---
 src/sync.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sync.rs b/src/sync.rs
index 56c8240..1d442df 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -197,6 +197,7 @@ impl<'a> ReadyTrackerServer<'a> {
                 }
                 Ok(Event::Finished(e)) => {
                     let cmd = self.g[e.id];
+                    self.finished_order.push(e.id);
                     self._finished_bookkeeping_1(&e)?;
                     if inflight.remove(&e.id).is_none() {
                         // With execgraph-remote workers, it's  possible to get a FinishedEvent
@@ -233,6 +234,7 @@ impl<'a> ReadyTrackerServer<'a> {
         for (k, _) in inflight.iter() {
             let cmd = self.g[*k];
             let e = FinishedEvent::new_disconnected(k.to_owned(), "".to_owned());
+            self.finished_order.push(e.id);
             self._finished_bookkeeping_1(&e)?;
             self.logfile.write(LogEntry::new_finished(
                 &cmd.key,
-- 
2.43.0


From da18d18f4a7c89b3dbd8b3321c267cb695e6a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:53 +0000
Subject: [PATCH 11/25] fix: record the end of tasks handed out to remote
 runners when the workflow is stopped

---
 src/execgraph.rs |  1 +
 src/server.rs    | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 1160922..9eb97fd 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -358,6 +358,7 @@ impl ExecGraph {
                 debug!("Joining server tasks");
                 stop_reaping_pings_tx.send(()).unwrap();
                 jh.await.unwrap();
+                state.disconnect_all().await;
                 token1.cancel(CancellationState::HardCancelled);
                 debug!("Server task exited");
             }));
diff --git a/src/server.rs b/src/server.rs
index 6f00507..97fa184 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -160,6 +160,26 @@ impl<'a> State<'a> {
             };
         }
     }
+
+    /// Give up on all of the tasks that remote runners are working on, including the ones for which
+    /// we haven't received a /begun request yet. To be called once the server has stopped.
+    pub async fn disconnect_all(&self) {
+        let transaction_ids = self
+            .connections
+            .iter()
+            .map(|entry| *entry.key())
+            .collect::<Vec<u32>>();
+        for transaction_id in transaction_ids {
+            if let Some((_, cstate)) = self.connections.remove(&transaction_id) {
+                self.tracker
+                    .send_finished(FinishedEvent::new_disconnected(
+                        cstate.node_id,
+                        "".to_owned(),
+                    ))
+                    .await;
+            }
+        }
+    }
 }
 
 #[derive(Debug)]
-- 
2.43.0


From d69b0dbc2b1be92536ec1b91447191457f4473d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:25 +0000
Subject: [PATCH 12/25] fix: do not hand out tasks to slurm jobs released for
 cancellation while they were waiting

---
 src/server.rs | 71 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 44 insertions(+), 27 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 97fa184..9d03acf 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -21,7 +21,9 @@ use petgraph::graph::{DiGraph, NodeIndex};
 use serde_json::json;
 use std::{
     collections::{HashMap, HashSet},
+    future::Future,
     sync::{Arc, RwLock},
+    task::Poll,
     time::Instant,
 };
 use std::{sync::Mutex, time::Duration};
@@ -370,11 +372,51 @@ async fn start_request_impl(
     request: StartRequest,
     runner_slurm_jobid: String,
 ) -> Result<StartResponse, AppError> {
+    // Taking the task and opening the connection happen together, with a read lock on
+    // cancelled_slurm_jobids, so mark_slurm_job_cancelation either finds that this job is
+    // running something, or we find that it has been cancelled while we were waiting.
+    let mut recv = std::pin::pin!(state.tracker.recv(request.runnertypeid));
+    let take_task = std::future::poll_fn(|cx| {
+        let cancelled_slurm_jobids = state.cancelled_slurm_jobids.read().unwrap();
+        if cancelled_slurm_jobids.contains(&runner_slurm_jobid) {
+            return Poll::Ready(Err(AppError::Shutdown));
+        }
+        let node_id = match std::task::ready!(recv.as_mut().poll(cx)) {
+            Ok(node_id) => node_id,
+            Err(e) => {
+                return Poll::Ready(Err(match e {
+                    crate::sync::ReadyTrackerClientError::ChannelRecvError(_) => AppError::Shutdown,
+                    crate::sync::ReadyTrackerClientError::SoftShutdown => AppError::Shutdown,
+                    crate::sync::ReadyTrackerClientError::NoSuchRunnerType => AppError::NoSuchRunnerType,
+                    crate::sync::ReadyTrackerClientError::ChannelTryRecvError(_) => unreachable!(),
+                }))
+            }
+        };
+
+        let transaction_id = rand::random::<u32>();
+        let timer_id = state.timeouts.insert(
+            std::time::Duration::from_millis(PING_TIMEOUT_MSECS),
+            transaction_id,
+        );
+        state.connections.insert(
+            transaction_id,
+            ConnectionState {
+                start_time_approx: std::time::Instant::now(),
+                timer_id,
+                node_id,
+                begun: false,
+                disconnect_error_message: request.disconnect_error_message.clone(),
+                slurm_jobid: runner_slurm_jobid.clone(),
+            },
+        );
+        Poll::Ready(Ok((node_id, transaction_id)))
+    });
+
     // Grab the next task off the ready queue, which might pause if we're rate limited.
     // Hold the connection for up to ``HOLD_RATELIMITED_TIME`` (30 seconds), and then if
     // we're still rate limited, respond to the execgraph-remote with a "RateLimited"
     // (a 429 http code) which will cause it to exit.
-    let node_id = async {
+    let (node_id, transaction_id) = async {
         tokio::select! {
             _ = state.token.hard_cancelled() => {
                 Err(AppError::Shutdown)
@@ -382,36 +424,11 @@ async fn start_request_impl(
             _ = tokio::time::sleep(HOLD_RATETIMITED_TIME) => {
                 Err(AppError::RateLimited)
             }
-            r = state.tracker.recv(request.runnertypeid) => {
-                r.map_err(|e| match e {
-                    crate::sync::ReadyTrackerClientError::ChannelRecvError(_) => AppError::Shutdown,
-                    crate::sync::ReadyTrackerClientError::SoftShutdown => AppError::Shutdown,
-                    crate::sync::ReadyTrackerClientError::NoSuchRunnerType => AppError::NoSuchRunnerType,
-                    crate::sync::ReadyTrackerClientError::ChannelTryRecvError(_) => unreachable!(),
-                })
-            }
+            r = take_task => r,
         }
     }.await?;
     let cmd = state.subgraph[node_id];
     cmd.call_preamble();
-    let transaction_id = rand::random::<u32>();
-
-    let timer_id = state.timeouts.insert(
-        std::time::Duration::from_millis(PING_TIMEOUT_MSECS),
-        transaction_id,
-    );
-
-    state.connections.insert(
-        transaction_id,
-        ConnectionState {
-            start_time_approx: std::time::Instant::now(),
-            timer_id,
-            node_id,
-            begun: false,
-            disconnect_error_message: request.disconnect_error_message,
-            slurm_jobid: runner_slurm_jobid,
-        },
-    );
 
     Ok(StartResponse {
         transaction_id,
-- 
2.43.0


From 421d6dd1fea437e29f4b8376cbd245aaaf6ea9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:07 +0000
Subject: [PATCH 13/25] fix: a soft cancel can no longer overwrite a concurrent
 hard cancel

---
 src/fancy_cancellation_token.rs | 36 ++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/fancy_cancellation_token.rs b/src/fancy_cancellation_token.rs
index f3fcfcf..b4ec833 100644
--- a/src/fancy_cancellation_token.rs
+++ b/src/fancy_cancellation_token.rs
@@ -77,24 +77,28 @@ impl CancellationToken {
     }
 
     pub fn cancel(&self, state: CancellationState) {
-        if let CancellationState::CancelledAfterTime(new_time) = state {
-            // if we're trying to do a soft cancel, check the current state
-            let existing = self.inner.receiver.borrow();
-            match *existing {
-                Some(CancellationState::CancelledAfterTime(existing_time))
-                    if new_time > existing_time =>
-                {
-                    // if the existing time is older than the new time, no need to do anything
-                    return;
-                }
-                Some(CancellationState::HardCancelled) => {
-                    // if we're already hard canceled, don't override it with a new soft cancel
-                    return;
+        // the check of the current state and the update have to be one atomic operation, because
+        // there might be a concurrent hard cancel
+        self.inner.sender.send_if_modified(|existing| {
+            if let CancellationState::CancelledAfterTime(new_time) = state {
+                // if we're trying to do a soft cancel, check the current state
+                match *existing {
+                    Some(CancellationState::CancelledAfterTime(existing_time))
+                        if new_time > existing_time =>
+                    {
+                        // if the existing time is older than the new time, no need to do anything
+                        return false;
+                    }
+                    Some(CancellationState::HardCancelled) => {
+                        // if we're already hard canceled, don't override it with a new soft cancel
+                        return false;
+                    }
+                    _ => {}
                 }
-                _ => {}
             }
-        }
-        self.inner.sender.send_replace(Some(state));
+            *existing = Some(state);
+            true
+        });
     }
 }
 
-- 
2.43.0


From ea0009f7c165b0b530adba4f7e42728a8f299278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:29 +0000
Subject: [PATCH 14/25] fix: open logs whose last line is incomplete, and do
 not append to it

---
 src/logfile2.rs | 66 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 17 deletions(-)

diff --git a/src/logfile2.rs b/src/logfile2.rs
index 583a37c..ba50b52 100644
--- a/src/logfile2.rs
+++ b/src/logfile2.rs
@@ -180,6 +180,13 @@ pub enum RuncountStatus {
     },
 }
 
+/// How the file ends. If the process that wrote it was killed, the last line may be incomplete.
+enum Tail {
+    Complete,
+    MissingNewline,
+    Torn(u64),
+}
+
 impl LogFile<LogFileRW> {
     #[tracing::instrument]
     pub fn new<P: AsRef<std::path::Path> + std::fmt::Debug>(path: P) -> Result<Self> {
@@ -199,7 +206,15 @@ impl LogFile<LogFileRW> {
             .create(true)
             .write(true)
             .open(&path)?;
-        let (runcounts, header) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
+        let (runcounts, header, tail) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
+        match tail {
+            Tail::Complete => {}
+            Tail::MissingNewline => f.write_all(&[b'\n'])?,
+            Tail::Torn(offset) => {
+                f.set_len(offset)?;
+                f.seek(std::io::SeekFrom::Start(offset))?;
+            }
+        }
         Ok(LogFile {
             f: BufReaderWriter::new_reader(f),
             path: path.as_ref().to_path_buf().canonicalize()?,
@@ -281,7 +296,7 @@ impl LogFile<LogFileRO> {
     #[tracing::instrument]
     fn new<P: AsRef<std::path::Path> + std::fmt::Debug>(path: P) -> Result<Self> {
         let mut f = std::fs::OpenOptions::new().read(true).open(&path)?;
-        let (runcounts, header) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
+        let (runcounts, header, _) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
         Ok(LogFile {
             f: BufReaderWriter::new_reader(f),
             path: path.as_ref().to_path_buf().canonicalize()?,
@@ -296,27 +311,45 @@ impl LogFile<LogFileRO> {
 impl<T> LogFile<T> {
     fn load_runcounts(
         f: &mut std::fs::File,
-    ) -> Result<(HashMap<String, RuncountStatus>, Option<HeaderEntry>)> {
+    ) -> Result<(HashMap<String, RuncountStatus>, Option<HeaderEntry>, Tail)> {
         let mut runcounts = HashMap::new();
         let mut header = None;
         let mut workflow_key = None;
 
         let mut reader = std::io::BufReader::new(f);
-        let mut line = String::new();
+        let mut line = Vec::new();
         let mut iline = 0;
+        let mut offset = 0;
+        let mut tail = Tail::Complete;
         loop {
             line.clear();
-            let nbytes = reader.read_line(&mut line)?;
+            let nbytes = reader.read_until(b'\n', &mut line)?;
             if nbytes == 0 {
                 break;
             }
-            let len = line.trim_end_matches(&['\r', '\n'][..]).len();
-            line.truncate(len);
-            let value: LogEntry = serde_json::from_str(&line).map_err(|e| {
-                tracing::error!("Unable to parse {}th line. Got {}", iline, line);
-                e
-            })?;
+            let is_complete = line.ends_with(&[b'\n']);
+            let value: LogEntry = match serde_json::from_slice(&line) {
+                Ok(value) => value,
+                Err(_) if !is_complete => {
+                    // The process that was writing this line was killed, or its disk was full.
+                    tracing::warn!("Ignoring the incomplete {}th line", iline);
+                    tail = Tail::Torn(offset);
+                    break;
+                }
+                Err(e) => {
+                    tracing::error!(
+                        "Unable to parse {}th line. Got {}",
+                        iline,
+                        String::from_utf8_lossy(&line)
+                    );
+                    return Err(e.into());
+                }
+            };
+            if !is_complete {
+                tail = Tail::MissingNewline;
+            }
             iline += 1;
+            offset += nbytes as u64;
             match value {
                 LogEntry::Header(h) => {
                     match workflow_key {
@@ -386,7 +419,7 @@ impl<T> LogFile<T> {
             }
         }
 
-        Ok((runcounts, header))
+        Ok((runcounts, header, tail))
     }
 
     pub fn workflow_key(&self) -> Option<String> {
@@ -572,16 +605,15 @@ impl LogFileSnapshotReader {
         self.f.seek(std::io::SeekFrom::Start(0))?;
         let mut reader = std::io::BufReader::new(&self.f);
         let mut v = Vec::new();
-        let mut line = String::new();
+        let mut line = Vec::new();
         loop {
             line.clear();
-            let nbytes = reader.read_line(&mut line)?;
+            // the last line may end in the middle of a character
+            let nbytes = reader.read_until(b'\n', &mut line)?;
             if nbytes == 0 {
                 break;
             }
-            let len = line.trim_end_matches(&['\r', '\n'][..]).len();
-            line.truncate(len);
-            match serde_json::from_str(&line) {
+            match serde_json::from_slice(&line) {
                 Ok(value) => v.push(value),
                 Err(e) if e.is_data() => {}
                 Err(e) => {
-- 
2.43.0


From a631999c1f186a2ee5889373f014283dc88eebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 15/25] fix: the lock on a log keeps everybody else out until
 what was written is in the file

---
 src/logfile2.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/logfile2.rs b/src/logfile2.rs
index ba50b52..468cbd4 100644
--- a/src/logfile2.rs
+++ b/src/logfile2.rs
@@ -6,6 +6,7 @@ use std::{
     env,
     io::{BufRead, Seek, Write},
     marker::PhantomData,
+    os::unix::fs::MetadataExt,
     path::PathBuf,
     time::SystemTime,
 };
@@ -192,11 +193,22 @@ impl LogFile<LogFileRW> {
     pub fn new<P: AsRef<std::path::Path> + std::fmt::Debug>(path: P) -> Result<Self> {
         // acquire the lock file and write something to it
         let lockf_path = path.as_ref().with_file_name(".wrk.lock");
-        let lockf = std::fs::OpenOptions::new()
-            .create(true)
-            .write(true)
-            .open(&lockf_path)?;
-        lockf.try_lock(FileLockMode::Exclusive)?;
+        let lockf = loop {
+            let lockf = std::fs::OpenOptions::new()
+                .create(true)
+                .write(true)
+                .open(&lockf_path)?;
+            lockf.try_lock(FileLockMode::Exclusive)?;
+            // The previous holder may have removed the file between our opening and our locking
+            // it, in which case our lock wouldn't keep anybody out.
+            let ours = lockf.metadata()?;
+            match std::fs::metadata(&lockf_path) {
+                Ok(m) if m.dev() == ours.dev() && m.ino() == ours.ino() => break lockf,
+                Ok(_) => continue,
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => continue,
+                Err(e) => return Err(e.into()),
+            }
+        };
         let mut lockf = std::io::BufWriter::new(lockf);
         serde_json::to_writer(&mut lockf, &LogEntry::new_header("", vec![])?)?;
         lockf.flush()?;
@@ -487,6 +499,10 @@ impl<T> LogFile<T> {
 impl<T> Drop for LogFile<T> {
     fn drop(&mut self) {
         if let Some((_f, lockf_path)) = self.lockf.as_ref() {
+            // What was written has to be in the file before anybody else can take the lock.
+            if let Err(e) = self.f.flush() {
+                tracing::error!("Unable to flush the log: {}", e);
+            }
             drop(std::fs::remove_file(lockf_path));
         }
     }
-- 
2.43.0


From 56facf651ddab8071965423963eef9ed34a0455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:15 +0000
Subject: [PATCH 16/25] fix: send SIGTERM once at the deadline

After the deadline the worker's loop found the timer expired again at once, every
time: it spun at full speed, sending SIGTERM to the task without end until the task
was gone.
---
 src/bin/execgraph-remote.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index 79dae1f..7957acd 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -454,7 +454,7 @@ async fn run_command(
                     }
                 return Err(RemoteError::Sigterm)
             },
-            _ = tokio::time::sleep_until(time_to_sigterm_child.deadline) => {
+            _ = tokio::time::sleep_until(time_to_sigterm_child.deadline), if stderr_prefix.is_none() => {
                 // send sigterm to child, but then go back into this loop and continue, waiting for the child to
                 // hopefully actually exit itself.
                 unsafe { libc::kill(pid.try_into().unwrap(), libc::SIGTERM); }
-- 
2.43.0


From 6326c6354d4e9c3c03efc4b62cb0a87c991c717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 17/25] fix: a command line that is not utf-8 no longer brings
 down the workflow

---
 src/execgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 9eb97fd..4606d82 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -126,7 +126,7 @@ impl Cmd {
                     }
                     buffer.push(item);
                 }
-                let s = buffer.into_string().expect("cmdline must be utf-8");
+                let s = buffer.to_string_lossy();
                 let mut dst = String::new();
                 ESCAPED_NEWLINE_OR_TAB.replace_all_with(&s, &mut dst, |_m, t, d| {
                     if t == "\\\n" {
-- 
2.43.0


From 8f50fb94b82a2a3eca78efead04e4774f5d1f062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 18/25] fix: reject fd_input on the descriptor of the key-value
 pairs, which made execute hang

---
 src/execgraph.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 4606d82..cbe057f 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -223,6 +223,11 @@ impl ExecGraph {
             return Err(anyhow!("cmd={:?}: cmdline size == 0", cmd));
         }
 
+        // the runners use this descriptor for the key-value pairs
+        if matches!(cmd.fd_input, Some((3, _))) {
+            return Err(anyhow!("cmd={:?}: fd_input cannot be fd 3", cmd));
+        }
+
         let key = cmd.key.clone();
         let new_node = self.deps.add_node(cmd);
         for dep in dependencies.iter().map(|&i| NodeIndex::from(i)) {
-- 
2.43.0


From dfd4fce009a238ab75e8bf0cf549dc83dae25ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 19/25] fix: accept the results of remote tasks with more than
 2 MB of output

---
 src/server.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 9d03acf..61ba1d9 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -656,5 +656,7 @@ pub fn router(state: Arc<State<'static>>) -> Router {
             post(mark_slurm_job_cancelation),
         )
         .fallback(fallback)
+        // tasks may produce any amount of output
+        .layer(axum::extract::DefaultBodyLimit::disable())
         .layer(middleware.into_inner())
 }
-- 
2.43.0


From 462644bd66c0c97ccd0ae8023f6df6e162a30860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 20/25] fix: a failing preamble fails its task, instead of
 hanging execute

---
 src/execgraph.rs   | 26 ++++++++++++--------------
 src/localrunner.rs | 14 +++++++++++++-
 src/server.rs      | 17 ++++++++++++++++-
 3 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index cbe057f..0e4d598 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -143,21 +143,19 @@ impl Cmd {
         }
     }
 
-    pub fn call_preamble(&self) {
+    pub fn call_preamble(&self) -> Result<()> {
         match &self.preamble {
-            Some(preamble) => {
-                match preamble.call(false, 0, 0) {
-                    Ok(i) if i != 0 => {
-                        panic!("Preamble failed with error code {}", i);
-                    }
-                    Ok(_) => {}
-                    Err(e) => {
-                        panic!("Invalid preamble in cmd `{}`: {}", self.display(), e);
-                    }
-                };
-            }
-            None => {}
-        };
+            Some(preamble) => match preamble.call(false, 0, 0) {
+                Ok(i) if i != 0 => Err(anyhow!("Preamble failed with error code {}\n", i)),
+                Ok(_) => Ok(()),
+                Err(e) => Err(anyhow!(
+                    "Invalid preamble in cmd `{}`: {}\n",
+                    self.display(),
+                    e
+                )),
+            },
+            None => Ok(()),
+        }
     }
 
     pub fn call_postamble(&self, success: bool, runcount: u32, ntasks: u64) {
diff --git a/src/localrunner.rs b/src/localrunner.rs
index cd0b9f4..18750ed 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -45,7 +45,19 @@ pub async fn run_local_process_loop(
 
     while let Ok(subgraph_node_id) = tracker.recv(runnertypeid).await {
         let cmd = subgraph[subgraph_node_id];
-        cmd.call_preamble();
+        if let Err(e) = cmd.call_preamble() {
+            tracker
+                .send_started(subgraph_node_id, &hostname, 0, "".to_string())
+                .await;
+            tracker
+                .send_finished(FinishedEvent::new_error(
+                    subgraph_node_id,
+                    -1,
+                    e.to_string(),
+                ))
+                .await;
+            continue;
+        }
 
         // we're making a pipe to pass to the child process as fd3.
         let (fd3_read_pipe, fd3_write_pipe) = tokio_pipe::pipe().expect("Cannot create pipe");
diff --git a/src/server.rs b/src/server.rs
index 61ba1d9..0110ed5 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -192,6 +192,7 @@ pub enum AppError {
     RateLimited,
     Unauthorized,
     BadRequest,
+    PreambleFailed,
 }
 
 impl IntoResponse for AppError {
@@ -203,6 +204,7 @@ impl IntoResponse for AppError {
             AppError::RateLimited => StatusCode::TOO_MANY_REQUESTS,
             AppError::Unauthorized => StatusCode::UNAUTHORIZED,
             AppError::BadRequest => StatusCode::BAD_REQUEST,
+            AppError::PreambleFailed => StatusCode::INTERNAL_SERVER_ERROR,
         };
         let body = Json(json!({ "message": format!("{:#?}", self) }));
 
@@ -428,7 +430,20 @@ async fn start_request_impl(
         }
     }.await?;
     let cmd = state.subgraph[node_id];
-    cmd.call_preamble();
+    if let Err(e) = cmd.call_preamble() {
+        if let Some((_, cstate)) = state.connections.remove(&transaction_id) {
+            state.timeouts.cancel(cstate.timer_id);
+            state
+                .tracker
+                .send_started(node_id, "", 0, cstate.slurm_jobid)
+                .await;
+            state
+                .tracker
+                .send_finished(FinishedEvent::new_error(node_id, -1, e.to_string()))
+                .await;
+        }
+        return Err(AppError::PreambleFailed);
+    }
 
     Ok(StartResponse {
         transaction_id,
-- 
2.43.0


From 4cf40336867d7ce1a30b4d335f4f8c9ff5c0376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 21/25] fix: show all output on the console when a signal
 interrupts the write

---
 src/logging.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/logging.rs b/src/logging.rs
index a1f7d22..f0e00e7 100644
--- a/src/logging.rs
+++ b/src/logging.rs
@@ -73,11 +73,11 @@ impl ConsoleAndFile {
 impl<'a> std::io::Write for &'a ConsoleAndFile {
     fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
         let mut guard = self.0.lock().unwrap();
-        guard.1.write(buf)?;
-        match guard.0.as_mut() {
-            Some(f) => f.write(buf),
-            None => Ok(0),
+        guard.1.write_all(buf)?;
+        if let Some(f) = guard.0.as_mut() {
+            f.write_all(buf)?;
         }
+        Ok(buf.len())
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
-- 
2.43.0


From b844d1a5305b1bb8b967fdfb9dafdf81b9ed63c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 22/25] fix: report an error of the log after the runners have
 ended, instead of panicking while they use the tracker

---
 src/execgraph.rs | 12 ++++++------
 src/sync.rs      |  5 +++++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 0e4d598..001b2e7 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -7,7 +7,7 @@ use crate::{
     server::{router, State as ServerState},
     sync::new_ready_tracker,
 };
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, Context, Result};
 use base64::{engine::general_purpose::STANDARD as b64, Engine};
 use bitvec::array::BitArray;
 use derivative::Derivative;
@@ -389,16 +389,16 @@ impl ExecGraph {
         // run the background service that will send commands to the ready channel
         // to be picked up by the tasks spawned above. background_serve should wait for
         // sigint
-        servicer
-            .background_serve(token.clone())
-            .await
-            .expect("background_serve failed");
+        let served = servicer.background_serve(token.clone()).await;
+        servicer.close_ready_queues();
         token.cancel(CancellationState::HardCancelled);
 
+        // the tasks refer to the tracker, so that they have to end before we can return an error
         debug!("Joining {} handles", handles.len());
         join_all(handles).await;
+        served.context("background_serve failed")?;
         debug!("Draining servicer");
-        servicer.drain().expect("failed to drain queue");
+        servicer.drain().context("failed to drain queue")?;
 
         let n_failed = servicer.n_failed;
 
diff --git a/src/sync.rs b/src/sync.rs
index 1d442df..144af0d 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -395,6 +395,11 @@ impl<'a> ReadyTrackerServer<'a> {
         Ok(())
     }
 
+    /// Do not let the runners take any more tasks, so that they end.
+    pub fn close_ready_queues(&mut self) {
+        self.ready = None;
+    }
+
     /// Have all of the tasks that were taken out of the ready queues finished? Unlike `self.inflight`,
     /// this also covers the tasks that were handed out to a runner which hasn't reported that it
     /// started them yet.
-- 
2.43.0


From 3e15766f7e5d83bd7dd85c8ead6b88b6c87babb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 23/25] fix: a storage root that does not exist is an error,
 instead of a panic in the next session

---
 src/pylib.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/pylib.rs b/src/pylib.rs
index 55d719f..6250288 100644
--- a/src/pylib.rs
+++ b/src/pylib.rs
@@ -1,4 +1,3 @@
-use anyhow::Context;
 use bitvec::array::BitArray;
 use pyo3::{
     exceptions::{PyIOError, PyIndexError, PyOSError, PyRuntimeError, PyValueError},
@@ -131,8 +130,8 @@ impl PyExecGraph {
     }
 
     /// Get the runcount that should be used for a task with this key.
-    fn logfile_runcount(&self, key: &str) -> (u32, Option<PathBuf>) {
-        match self.g.logfile.runcount(key) {
+    fn logfile_runcount(&self, key: &str) -> PyResult<(u32, Option<PathBuf>)> {
+        Ok(match self.g.logfile.runcount(key) {
             // The task is new and has never been executed before.
             // obviously this calls for a runcount of zero, and we don't
             // know the task directory yet -- caller will be able to choose.
@@ -159,16 +158,18 @@ impl PyExecGraph {
                     self.g
                         .logfile
                         .storage_root(storage_root)
-                        .with_context(|| {
-                            format!("getting {}th entry from this logfile", storage_root)
-                        })
-                        .expect("Unable to find storage root")
+                        .ok_or_else(|| {
+                            PyIndexError::new_err(format!(
+                                "{} was stored in the {}th storage root, which this workflow does not have",
+                                key, storage_root
+                            ))
+                        })?
                         .join(format!("{}.{}", key, runcount)),
                 ),
             ),
             // New directory for the next run, as above.
             Some(logfile2::RuncountStatus::Finished { runcount, .. }) => (runcount + 1, None),
-        }
+        })
     }
 
     /// Get the workflow-level key, created by the ``newkeyfn``
@@ -269,7 +270,10 @@ impl PyExecGraph {
         postamble: Option<PyObject>,
         storage_root: u32,
     ) -> PyResult<u32> {
-        let runcount = self.logfile_runcount(&key as &str).0;
+        if self.g.logfile.storage_root(storage_root).is_none() {
+            return Err(PyIndexError::new_err("Invalid storage_root index"));
+        }
+        let runcount = self.logfile_runcount(&key as &str)?.0;
         let cmd = Cmd {
             cmdline,
             key,
-- 
2.43.0


From 7253f8a9faef0724db8aba0a5fdf355008ed4eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 24/25] fix: a log whose entries do not follow from each other
 is an error, instead of a panic

---
 src/logfile2.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/logfile2.rs b/src/logfile2.rs
index 468cbd4..bea7998 100644
--- a/src/logfile2.rs
+++ b/src/logfile2.rs
@@ -256,7 +256,7 @@ impl LogFile<LogFileRW> {
                 let r = self
                     .runcounts
                     .remove(&s.key)
-                    .expect("I see a Started entry, but no Ready entry");
+                    .ok_or(LogfileError::OutOfOrder("Started"))?;
                 if let RuncountStatus::Ready {
                     runcount: c,
                     storage_root: srt,
@@ -270,14 +270,14 @@ impl LogFile<LogFileRW> {
                         },
                     );
                 } else {
-                    panic!("Malformed?");
+                    return Err(LogfileError::OutOfOrder("Started"));
                 }
             }
             LogEntry::Finished(ref f) => {
                 let r = self
                     .runcounts
                     .remove(&f.key)
-                    .expect("I see a Finished entry, but no prior entry");
+                    .ok_or(LogfileError::OutOfOrder("Finished"))?;
                 if let RuncountStatus::Started {
                     runcount: c,
                     storage_root: srt,
@@ -292,7 +292,7 @@ impl LogFile<LogFileRW> {
                         },
                     );
                 } else {
-                    panic!("Malformed");
+                    return Err(LogfileError::OutOfOrder("Finished"));
                 }
             }
             LogEntry::Backref(_) => {}
@@ -389,7 +389,7 @@ impl<T> LogFile<T> {
                 LogEntry::Started(s) => {
                     let r = runcounts
                         .remove(&s.key)
-                        .expect("I see a Started entry, but no Ready entry");
+                        .ok_or(LogfileError::OutOfOrder("Started"))?;
                     if let RuncountStatus::Ready {
                         runcount: c,
                         storage_root: srt,
@@ -403,13 +403,13 @@ impl<T> LogFile<T> {
                             },
                         );
                     } else {
-                        panic!("Malformed?");
+                        return Err(LogfileError::OutOfOrder("Started"));
                     }
                 }
                 LogEntry::Finished(f) => {
                     let r = runcounts
                         .remove(&f.key)
-                        .expect("I see a Finished entry, but no prior entry");
+                        .ok_or(LogfileError::OutOfOrder("Finished"))?;
                     if let RuncountStatus::Started {
                         runcount: c,
                         storage_root: srt,
@@ -424,7 +424,7 @@ impl<T> LogFile<T> {
                             },
                         );
                     } else {
-                        panic!("Malformed");
+                        return Err(LogfileError::OutOfOrder("Finished"));
                     }
                 }
                 _ => {}
@@ -666,6 +666,9 @@ pub enum LogfileError {
         found: u32,
     },
 
+    #[error("malformed log: a {0} entry does not follow from the entries before it")]
+    OutOfOrder(&'static str),
+
     #[error("the log is locked")]
     AlreadyLocked,
 }
-- 
2.43.0


From 338f39590eaea1a3b35b10c301db53f8246e3b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 25/25] fix: a task with an empty key is never up to date, as
 documented

---
 src/execgraph.rs | 6 ++++--
 src/pylib.rs     | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 001b2e7..67b82a9 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -512,7 +512,8 @@ fn get_subgraph<'a, 'b: 'a>(
                 );
                 return None; // returning none excludes it from filtered_subgraph
             }
-            if logfile.has_success(&w.key) {
+            // a task without a key is never up to date
+            if logfile.has_success(&w.key) && !w.key.is_empty() {
                 trace!(
                     "Skipping {} because it already ran successfully accord to the log file",
                     w.key
@@ -535,7 +536,8 @@ fn get_subgraph<'a, 'b: 'a>(
         .node_indices()
         .filter(|&n| {
             let w = filtered_subgraph[n];
-            logfile.has_failure(&w.key) && (!rerun_failures || completed.contains(&w.key))
+            logfile.has_failure(&w.key)
+                && (completed.contains(&w.key) || !(rerun_failures || w.key.is_empty()))
         })
         .collect::<HashSet<NodeIndex>>();
     if !failures.is_empty() {
diff --git a/src/pylib.rs b/src/pylib.rs
index 6250288..f1a27cd 100644
--- a/src/pylib.rs
+++ b/src/pylib.rs
@@ -152,7 +152,7 @@ impl PyExecGraph {
                 runcount,
                 storage_root,
                 success,
-            }) if success => (
+            }) if success && !key.is_empty() => (
                 runcount,
                 Some(
                     self.g
-- 
2.43.0

