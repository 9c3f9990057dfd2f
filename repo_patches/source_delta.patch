From 968b5a33e971bddba1b788e77d30848e8d6d8827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 01/34] fix: kill every session a kill request names even if
 one kill fails

---
 libshpool/src/daemon/server.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 20814ea..a7df3ca 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -744,7 +744,12 @@ impl Server {
             let mut to_remove = Vec::with_capacity(request.sessions.len());
             for session in request.sessions.into_iter() {
                 if let Some(s) = shells.get(&session) {
-                    s.kill().context("killing shell proc")?;
+                    // One session we fail to kill must not keep the others
+                    // in the request from being processed.
+                    if let Err(err) = s.kill() {
+                        error!("killing shell proc for '{}': {:?}", session, err);
+                        continue;
+                    }
 
                     // we don't need to wait since the dedicated reaping thread is active
                     // even when a tty is not attached
-- 
2.43.0


From 077201cebd2afbb8765a524012380eafe5cca910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 02/34] fix: announce a killed session once even if it is named
 twice

---
 libshpool/src/daemon/server.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index a7df3ca..c933d09 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -760,8 +760,10 @@ impl Server {
             }
 
             for session in to_remove.iter() {
-                shells.remove(session);
-                self.events_bus.publish(&events::Event::SessionRemoved);
+                // A request may name the same session twice.
+                if shells.remove(session).is_some() {
+                    self.events_bus.publish(&events::Event::SessionRemoved);
+                }
             }
             if !to_remove.is_empty() {
                 test_hooks::emit("daemon-handle-kill-removed-shells");
-- 
2.43.0


From 81a7cf949a097149573031d2b742576665518fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 03/34] fix: bound detach's wait for each session and keep
 going past a broken one

---
 libshpool/src/daemon/server.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index c933d09..cbd7283 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -632,14 +632,27 @@ impl Server {
                 if let Some(s) = shells.get(&session) {
                     let _s = span!(Level::INFO, "lock(shell_to_client_ctl)", s = session).entered();
                     let shell_to_client_ctl = s.shell_to_client_ctl.lock();
-                    shell_to_client_ctl
+                    // We hold the session table lock, so the shell->client thread
+                    // only gets a bounded amount of time to respond, and a session
+                    // that can't respond must not affect the others.
+                    let res = shell_to_client_ctl
                         .client_connection
-                        .send(shell::ClientConnectionMsg::Disconnect)
-                        .context("sending client detach to shell->client")?;
-                    let status = shell_to_client_ctl
-                        .client_connection_ack
-                        .recv()
-                        .context("getting client conn ack")?;
+                        .send_timeout(shell::ClientConnectionMsg::Disconnect, SESSION_MSG_TIMEOUT)
+                        .context("sending client detach to shell->client")
+                        .and_then(|_| {
+                            shell_to_client_ctl
+                                .client_connection_ack
+                                .recv_timeout(SESSION_MSG_TIMEOUT)
+                                .context("getting client conn ack")
+                        });
+                    let status = match res {
+                        Ok(status) => status,
+                        Err(err) => {
+                            error!("detaching session '{}': {:?}", session, err);
+                            not_attached_sessions.push(session);
+                            continue;
+                        }
+                    };
                     info!("detached session({}), status = {:?}", session, status);
                     if let shell::ClientConnectionStatus::DetachNone = status {
                         not_attached_sessions.push(session);
-- 
2.43.0


From d28cea4e5c3e3ec768102fdb8e6caf3488201024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 04/34] fix: broadcast a variable change to all sessions and
 answer even if one is gone

---
 libshpool/src/daemon/server.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index cbd7283..4eb1757 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -738,9 +738,13 @@ impl Server {
         }
         for ctl in ctls.into_iter() {
             let ctl = ctl.lock();
-            ctl.maybe_switch
-                .send_timeout(maybe_switch.clone(), SESSION_MSG_TIMEOUT)
-                .context("broadcasting maybe_switch")?;
+            // A session whose shell->client thread is gone or stuck must not
+            // keep the others from hearing about the change.
+            if let Err(err) =
+                ctl.maybe_switch.send_timeout(maybe_switch.clone(), SESSION_MSG_TIMEOUT)
+            {
+                warn!("broadcasting maybe_switch: {:?}", err);
+            }
         }
 
         write_reply(&mut stream, ModifyVarReply {}).context("writing modify var reply")?;
-- 
2.43.0


From 1619bde28604f4a8fc551ff493f97f527d934141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 05/34] fix: never let an old session's ttl kill a later
 session of the same name

---
 libshpool/src/daemon/server.rs     | 23 +++++++-----
 libshpool/src/daemon/ttl_reaper.rs | 57 +++++++++++++-----------------
 2 files changed, 39 insertions(+), 41 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 4eb1757..b83124e 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -74,7 +74,7 @@ pub struct Server {
     /// the main thread to become available to accept new connections.
     shells: Arc<Mutex<HashMap<String, Box<shell::Session>>>>,
     runtime_dir: PathBuf,
-    register_new_reapable_session: crossbeam_channel::Sender<(String, Instant)>,
+    register_new_reapable_session: crossbeam_channel::Sender<ttl_reaper::Reapable>,
     hooks: Box<dyn hooks::Hooks + Send + Sync>,
     events_bus: Arc<events::EventBus>,
     daily_messenger: Arc<show_motd::DailyMessenger>,
@@ -536,6 +536,7 @@ impl Server {
             session_name_template: header.name_template.clone(),
             pid: peer_pid,
         });
+        let child_exit_notifier = Arc::clone(&session.child_exit_notifier);
         {
             let _s = span!(Level::INFO, "select_shell_lock_2(shells)").entered();
             let mut shells = self.shells.lock();
@@ -549,6 +550,19 @@ impl Server {
             self.events_bus.publish(&events::Event::SessionAttached);
         }
 
+        // Only register once the session is in the table, so that the reaper
+        // can't look for it before it is there.
+        if let Some(ttl_secs) = header.ttl_secs {
+            info!("registering session with ttl with the reaper");
+            self.register_new_reapable_session
+                .send(ttl_reaper::Reapable {
+                    session_name: header.name.clone(),
+                    child_exit_notifier,
+                    reap_at: Instant::now().add(Duration::from_secs(ttl_secs)),
+                })
+                .context("sending reapable session registration msg")?;
+        }
+
         // we unwrap to propagate the poison as an unwind
         let _s = span!(Level::INFO, "select_shell_lock_3(shells)").entered();
         let shells = self.shells.lock();
@@ -1186,13 +1200,6 @@ impl Server {
                 child_exit_notifier: shell_to_client_child_exit_notifier,
             })?);
 
-        if let Some(ttl_secs) = header.ttl_secs {
-            info!("registering session with ttl with the reaper");
-            self.register_new_reapable_session
-                .send((header.name.clone(), Instant::now().add(Duration::from_secs(ttl_secs))))
-                .context("sending reapable session registration msg")?;
-        }
-
         Ok(shell::Session {
             shell_to_client_ctl,
             pager_ctl: Arc::new(Mutex::new(None)),
diff --git a/libshpool/src/daemon/ttl_reaper.rs b/libshpool/src/daemon/ttl_reaper.rs
index ad4da2e..c982bda 100644
--- a/libshpool/src/daemon/ttl_reaper.rs
+++ b/libshpool/src/daemon/ttl_reaper.rs
@@ -14,8 +14,8 @@
 
 /*! The ttl reaper is responsible to reaping sessions which
   have a ttl set. It uses a channel for a mailbox to listen
-  for newly woken threads, adds a generation id to session
-  names to avoid clobbering fresh session with the same
+  for newly woken threads, remembers each session's exit notifier
+  to avoid clobbering fresh session with the same
   session name as a previous session, and uses a min heap
   to schedule wakeups in order to reap threads on time.
 */
@@ -31,32 +31,30 @@ use parking_lot::Mutex;
 use tracing::{info, span, warn, Level};
 
 use super::events;
+use super::exit_notify::ExitNotifier;
 use super::shell;
 
 /// Run the reaper thread loop. Should be invoked in a dedicated
 /// thread.
 pub fn run(
-    new_sess: crossbeam_channel::Receiver<(String, Instant)>,
+    new_sess: crossbeam_channel::Receiver<Reapable>,
     shells: Arc<Mutex<HashMap<String, Box<shell::Session>>>>,
     events_bus: Arc<events::EventBus>,
 ) -> anyhow::Result<()> {
     let _s = span!(Level::INFO, "ttl_reaper").entered();
 
     let mut heap = BinaryHeap::new();
-    let mut gen_ids = HashMap::new();
 
     loop {
         // empty heap loop, just waiting for new sessions to watch
         while heap.is_empty() {
             match new_sess.recv() {
-                Ok((session_name, reap_at)) => {
-                    let gen_id = gen_ids.entry(session_name.clone()).or_insert(0);
-                    *gen_id += 1;
+                Ok(new) => {
                     info!(
-                        "scheduling first sess {}:{} to be reaped at {:?}",
-                        &session_name, *gen_id, reap_at
+                        "scheduling first sess {} to be reaped at {:?}",
+                        &new.session_name, new.reap_at
                     );
-                    heap.push(Reapable { session_name, gen_id: *gen_id, reap_at });
+                    heap.push(new);
                 }
                 Err(crossbeam_channel::RecvError) => {
                     info!("bailing due to RecvError in empty heap loop");
@@ -76,16 +74,10 @@ pub fn run(
             crossbeam_channel::select! {
                 recv(new_sess) -> new_sess_msg => {
                     match new_sess_msg {
-                        Ok((session_name, reap_at)) => {
-                            let gen_id = gen_ids.entry(session_name.clone()).or_insert(0);
-                            *gen_id += 1;
-                            info!("scheduling {}:{} to be reaped at {:?}",
-                                  &session_name, *gen_id, reap_at);
-                            heap.push(Reapable {
-                                session_name,
-                                gen_id: *gen_id,
-                                reap_at,
-                            });
+                        Ok(new) => {
+                            info!("scheduling {} to be reaped at {:?}",
+                                  &new.session_name, new.reap_at);
+                            heap.push(new);
                         }
                         Err(crossbeam_channel::RecvError) => {
                             info!("bailing due to RecvError");
@@ -96,18 +88,16 @@ pub fn run(
                 recv(crossbeam_channel::at(wake_at)) -> _ => {
                     let reapable = heap.pop()
                         .expect("there to be an entry in a non-empty heap");
-                    info!("waking up to reap {:?}", reapable);
-                    let current_gen = gen_ids.get(&reapable.session_name)
-                        .copied().unwrap_or(0);
-                    if current_gen != reapable.gen_id {
-                        info!("ignoring {}:{} because current gen is {:?}",
-                              &reapable.session_name, reapable.gen_id, current_gen);
-                        continue;
-                    }
+                    info!("waking up to reap {}", &reapable.session_name);
 
                     let _s = span!(Level::INFO, "lock(shells)").entered();
                     let mut shells = shells.lock();
                     if let Some(sess) = shells.get(&reapable.session_name) {
+                        if !Arc::ptr_eq(&sess.child_exit_notifier, &reapable.child_exit_notifier) {
+                            info!("ignoring {} because a later session reuses the name",
+                                  &reapable.session_name);
+                            continue;
+                        }
                         if let Err(e) = sess.kill() {
                             warn!("error trying to kill '{}': {:?}",
                                   reapable.session_name, e);
@@ -127,11 +117,12 @@ pub fn run(
 
 /// A record in the min heap that we use to track the
 /// sessions that need to be cleaned up.
-#[derive(Debug)]
-struct Reapable {
-    session_name: String,
-    gen_id: usize,
-    reap_at: Instant,
+pub struct Reapable {
+    pub session_name: String,
+    /// Identifies the session the record is about, since another session
+    /// might have taken over the name by the time the ttl runs out.
+    pub child_exit_notifier: Arc<ExitNotifier>,
+    pub reap_at: Instant,
 }
 
 impl cmp::PartialEq for Reapable {
-- 
2.43.0


From fb4df358ff4a6fc68d98e64412d6506cf082571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 06/34] fix: keep attach bookkeeping straight on every exit and
 creation race

However serving an attached client ends, its session is now either removed or
recorded as detached, and only if the table entry is still the same session.
A session is never replaced while its shell runs: neither by the loser of a
creation race nor because its shell->client thread is gone. The new session's
attach lock is taken before it becomes visible instead of blocking on it with
the session table locked.
---
 libshpool/src/daemon/server.rs | 392 +++++++++++++++++++--------------
 1 file changed, 223 insertions(+), 169 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index b83124e..0671f4a 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -267,7 +267,7 @@ impl Server {
         let shell_env = self.build_shell_env(&user_info, &header).context("building shell env")?;
 
         test_hooks::emit("handle-attach-before-select-shell");
-        let (shell_results, status) = match self
+        let (child_exit_notifier, mut inner, pager_ctl_slot, status) = match self
             .select_shell_desc(stream, conn_id, &header, &user_info, &shell_env, peer_pid)
         {
             Ok(t) => t,
@@ -282,118 +282,148 @@ impl Server {
             Err(err) => return Err(err)?,
         };
 
-        self.link_ssh_auth_sock(&header).context("linking SSH_AUTH_SOCK")?;
-        self.populate_session_env_file(&header).context("populating session env file")?;
-
-        test_hooks::emit("handle-attach-before-inner-session-lock");
+        // From here on the client is recorded as attached, so however serving
+        // it ends we must fall through to the bookkeeping below.
+        let res = self.serve_attached_client(
+            conn_id,
+            &header,
+            &shell_env,
+            status,
+            &child_exit_notifier,
+            &mut inner,
+            pager_ctl_slot,
+        );
+        let child_done = match &res {
+            Ok(done) => *done,
+            Err(_) => {
+                child_exit_notifier.wait(Some(time::Duration::from_millis(0))).is_some()
+            }
+        };
+        // Make sure the client hears about it if we bailed before handing its
+        // stream over.
+        drop(inner.client_stream.take());
+
+        if child_done {
+            info!("'{}' exited, removing from session table", header.name);
+            if let Err(err) = self.hooks.on_shell_disconnect(&header.name) {
+                warn!("shell_disconnect hook: {:?}", err);
+            }
 
-        if let Some((child_exit_notifier, mut inner, pager_ctl_slot)) = shell_results {
-            let mut child_done = false;
-            let client_stream = match inner.client_stream.as_mut() {
-                Some(s) => s,
-                None => {
-                    return Err(anyhow!("no client stream, should be impossible"));
+            {
+                let _s = span!(Level::INFO, "2_lock(shells)").entered();
+                let mut shells = self.shells.lock();
+                // A concurrent kill or reaper may have already removed the
+                // entry (and published) while we were waiting for the lock,
+                // and another session may have taken over the name since.
+                let is_ours = shells
+                    .get(&header.name)
+                    .map(|s| Arc::ptr_eq(&s.child_exit_notifier, &child_exit_notifier))
+                    .unwrap_or(false);
+                if is_ours && shells.remove(&header.name).is_some() {
+                    self.events_bus.publish(&events::Event::SessionRemoved);
                 }
-            };
-
-            let reply_status =
-                write_reply(client_stream, AttachReplyHeader { status: status.clone() });
-            if let Err(e) = reply_status {
-                error!("error writing reply status: {:?}", e);
             }
 
-            // If in pager motd mode, launch the pager and block until it is
-            // done, picking up any tty size change that happened while the
-            // user was examining the motd.
-            let motd_mode = self.config.get().motd.clone().unwrap_or_default();
-            let init_tty_size = if matches!(motd_mode, MotdDisplayMode::Pager { .. }) {
-                match self.daily_messenger.display_in_pager(
-                    client_stream,
-                    pager_ctl_slot,
-                    header.local_tty_size.clone(),
-                    &shell_env,
-                ) {
-                    Ok(Some(new_size)) => {
-                        info!("motd pager finished, reporting new tty size: {:?}", new_size);
-                        new_size
-                    }
-                    Ok(None) => {
-                        info!("not time to show the motd in the pager yet");
-                        header.local_tty_size.clone()
+            // The child shell has exited, so the shell->client thread should
+            // attempt to read from its stdout and get an error, causing
+            // it to exit. That means we should be safe to join. We use
+            // a separate if statement to avoid holding the shells lock
+            // while we join the old thread.
+            if let (Ok(_), Some(h)) = (&res, inner.shell_to_client_join_h.take()) {
+                h.join()
+                    .map_err(|e| anyhow!("joining shell->client after child exit: {:?}", e))?
+                    .context("within shell->client thread after child exit")?;
+            }
+        } else {
+            // Client disconnected but shell is still running - set last_disconnected_at
+            {
+                let _s = span!(Level::INFO, "disconnect_lock(shells)").entered();
+                let shells = self.shells.lock();
+                if let Some(session) = shells.get(&header.name) {
+                    if Arc::ptr_eq(&session.child_exit_notifier, &child_exit_notifier) {
+                        session.lifecycle.record_detached();
+                        self.events_bus.publish(&events::Event::SessionDetached);
                     }
-                    Err(e) => match e.downcast::<PagerError>() {
-                        Ok(PagerError::ClientHangup) => {
-                            info!("client hung up while talking to pager, bailing");
-                            return Ok(());
-                        }
-                        Err(e) => {
-                            return Err(e).context("showing motd in pager")?;
-                        }
-                    },
                 }
-            } else {
-                header.local_tty_size.clone()
-            };
+            }
+            if let Err(err) = self.hooks.on_client_disconnect(&header.name) {
+                warn!("client_disconnect hook: {:?}", err);
+            }
+        }
 
-            info!("starting bidi stream loop");
-            match inner.bidi_stream(conn_id, init_tty_size, child_exit_notifier) {
-                Ok(done) => {
-                    child_done = done;
-                }
-                Err(e) => {
-                    error!("error shuffling bytes: {:?}", e);
-                }
+        info!("finished attach streaming section");
+        res.map(|_| ())
+    }
+
+    /// Serve a client that has been recorded as attached to a session until it
+    /// goes away or the shell exits. Returns true if the shell has exited.
+    #[allow(clippy::too_many_arguments)]
+    fn serve_attached_client(
+        &self,
+        conn_id: usize,
+        header: &AttachHeader,
+        shell_env: &[(OsString, OsString)],
+        status: AttachStatus,
+        child_exit_notifier: &Arc<ExitNotifier>,
+        inner: &mut shell::SessionInner,
+        pager_ctl_slot: Arc<Mutex<Option<pager::PagerCtl>>>,
+    ) -> anyhow::Result<bool> {
+        self.link_ssh_auth_sock(header).context("linking SSH_AUTH_SOCK")?;
+        self.populate_session_env_file(header).context("populating session env file")?;
+
+        test_hooks::emit("handle-attach-before-inner-session-lock");
+
+        let client_stream = match inner.client_stream.as_mut() {
+            Some(s) => s,
+            None => {
+                return Err(anyhow!("no client stream, should be impossible"));
             }
-            info!("bidi stream loop finished child_done={}", child_done);
+        };
 
-            if child_done {
-                info!("'{}' exited, removing from session table", header.name);
-                if let Err(err) = self.hooks.on_shell_disconnect(&header.name) {
-                    warn!("shell_disconnect hook: {:?}", err);
-                }
+        let reply_status = write_reply(client_stream, AttachReplyHeader { status });
+        if let Err(e) = reply_status {
+            error!("error writing reply status: {:?}", e);
+        }
 
-                {
-                    let _s = span!(Level::INFO, "2_lock(shells)").entered();
-                    let mut shells = self.shells.lock();
-                    // The publish below is gated on `is_some()` because a
-                    // concurrent kill or reaper may have already removed the
-                    // entry (and published) while we were waiting for the lock.
-                    if shells.remove(&header.name).is_some() {
-                        self.events_bus.publish(&events::Event::SessionRemoved);
-                    }
+        // If in pager motd mode, launch the pager and block until it is
+        // done, picking up any tty size change that happened while the
+        // user was examining the motd.
+        let motd_mode = self.config.get().motd.clone().unwrap_or_default();
+        let init_tty_size = if matches!(motd_mode, MotdDisplayMode::Pager { .. }) {
+            match self.daily_messenger.display_in_pager(
+                client_stream,
+                pager_ctl_slot,
+                header.local_tty_size.clone(),
+                shell_env,
+            ) {
+                Ok(Some(new_size)) => {
+                    info!("motd pager finished, reporting new tty size: {:?}", new_size);
+                    new_size
                 }
-
-                // The child shell has exited, so the shell->client thread should
-                // attempt to read from its stdout and get an error, causing
-                // it to exit. That means we should be safe to join. We use
-                // a separate if statement to avoid holding the shells lock
-                // while we join the old thread.
-                if let Some(h) = inner.shell_to_client_join_h.take() {
-                    h.join()
-                        .map_err(|e| anyhow!("joining shell->client after child exit: {:?}", e))?
-                        .context("within shell->client thread after child exit")?;
+                Ok(None) => {
+                    info!("not time to show the motd in the pager yet");
+                    header.local_tty_size.clone()
                 }
-            } else {
-                // Client disconnected but shell is still running - set last_disconnected_at
-                {
-                    let _s = span!(Level::INFO, "disconnect_lock(shells)").entered();
-                    let shells = self.shells.lock();
-                    if let Some(session) = shells.get(&header.name) {
-                        session.lifecycle.record_detached();
-                        self.events_bus.publish(&events::Event::SessionDetached);
+                Err(e) => match e.downcast::<PagerError>() {
+                    Ok(PagerError::ClientHangup) => {
+                        info!("client hung up while talking to pager, bailing");
+                        return Ok(false);
                     }
-                }
-                if let Err(err) = self.hooks.on_client_disconnect(&header.name) {
-                    warn!("client_disconnect hook: {:?}", err);
-                }
+                    Err(e) => {
+                        return Err(e).context("showing motd in pager")?;
+                    }
+                },
             }
-
-            info!("finished attach streaming section");
         } else {
-            error!("internal error: failed to fetch just inserted session");
-        }
+            header.local_tty_size.clone()
+        };
 
-        Ok(())
+        info!("starting bidi stream loop");
+        let child_done = inner
+            .bidi_stream(conn_id, init_tty_size, Arc::clone(child_exit_notifier))
+            .context("shuffling bytes")?;
+        info!("bidi stream loop finished child_done={}", child_done);
+        Ok(child_done)
     }
 
     #[allow(clippy::type_complexity)]
@@ -406,11 +436,9 @@ impl Server {
         shell_env: &[(OsString, OsString)],
         peer_pid: libc::pid_t,
     ) -> anyhow::Result<(
-        Option<(
-            Arc<ExitNotifier>,
-            ArcMutexGuard<RawMutex, shell::SessionInner>,
-            Arc<Mutex<Option<pager::PagerCtl>>>,
-        )>,
+        Arc<ExitNotifier>,
+        ArcMutexGuard<RawMutex, shell::SessionInner>,
+        Arc<Mutex<Option<pager::PagerCtl>>>,
         AttachStatus,
     )> {
         let warnings = vec![];
@@ -439,7 +467,33 @@ impl Server {
                     // not ever cause problems, and there is no real way to avoid some
                     // sort of race without just always creating a new session when
                     // a shell exits, which would break `exit` typed at the shell prompt.
-                    match session.child_exit_notifier.wait(Some(time::Duration::from_millis(0))) {
+                    let relay_finished = inner
+                        .shell_to_client_join_h
+                        .as_ref()
+                        .map(|h| h.is_finished())
+                        .unwrap_or(false);
+                    // If the shell->client thread is gone already, the shell is most
+                    // likely exiting right now, so give it a moment.
+                    let exit_wait = if relay_finished {
+                        SESSION_MSG_TIMEOUT
+                    } else {
+                        time::Duration::from_millis(0)
+                    };
+                    match session.child_exit_notifier.wait(Some(exit_wait)) {
+                        None if relay_finished => {
+                            // The shell is still there, so we must not clobber it, but
+                            // there is nobody left to shuffle its output to a client.
+                            warn!("shell running, but shell->client thread has exited");
+                            write_reply(
+                                &mut stream,
+                                AttachReplyHeader {
+                                    status: AttachStatus::UnexpectedError(String::from(
+                                        "session can no longer be attached to, try killing it",
+                                    )),
+                                },
+                            )?;
+                            return Err(anyhow!("shell->client thread exited before the shell"));
+                        }
                         None => {
                             // the channel is still open so the subshell is still running
                             info!("taking over existing session inner");
@@ -448,36 +502,20 @@ impl Server {
                                 session_name_template: header.name_template.clone(),
                                 pid: peer_pid,
                             });
-
-                            if inner
-                                .shell_to_client_join_h
-                                .as_ref()
-                                .map(|h| h.is_finished())
-                                .unwrap_or(false)
-                            {
-                                warn!(
-                                    "child_exited chan unclosed, but shell->client thread has exited, clobbering with new subshell"
-                                );
-                            } else {
-                                // Reattach confirmed; the create path won't run
-                                // and clobber the entry, so it's safe to publish.
-                                self.events_bus.publish(&events::Event::SessionAttached);
-                                if let Err(err) = self.hooks.on_reattach(&header.name) {
-                                    warn!("reattach hook: {:?}", err);
-                                }
-                                // Immediately return so that we never give
-                                // up the inner lock for a session we are
-                                // reattaching to. We only want to give it
-                                // up when creating a new session.
-                                return Ok((
-                                    Some((
-                                        Arc::clone(&session.child_exit_notifier),
-                                        inner,
-                                        Arc::clone(&session.pager_ctl),
-                                    )),
-                                    AttachStatus::Attached { warnings },
-                                ));
+                            self.events_bus.publish(&events::Event::SessionAttached);
+                            if let Err(err) = self.hooks.on_reattach(&header.name) {
+                                warn!("reattach hook: {:?}", err);
                             }
+                            // Immediately return so that we never give
+                            // up the inner lock for a session we are
+                            // reattaching to. We only want to give it
+                            // up when creating a new session.
+                            return Ok((
+                                Arc::clone(&session.child_exit_notifier),
+                                inner,
+                                Arc::clone(&session.pager_ctl),
+                                AttachStatus::Attached { warnings },
+                            ));
                         }
                         Some(exit_status) => {
                             // the channel is closed so we know the subshell exited
@@ -496,9 +534,12 @@ impl Server {
                     {
                         info!("shell->client thread finished, joining");
                         if let Some(h) = inner.shell_to_client_join_h.take() {
-                            h.join()
-                                .map_err(|e| anyhow!("joining shell->client on reattach: {:?}", e))?
-                                .context("within shell->client thread on reattach")?;
+                            // How the old thread ended is no concern of the new session.
+                            match h.join() {
+                                Ok(Ok(())) => {}
+                                Ok(Err(e)) => warn!("within shell->client on reattach: {:?}", e),
+                                Err(e) => warn!("joining shell->client on reattach: {:?}", e),
+                            }
                         }
                     }
 
@@ -537,51 +578,64 @@ impl Server {
             pid: peer_pid,
         });
         let child_exit_notifier = Arc::clone(&session.child_exit_notifier);
-        {
+        let pager_ctl = Arc::clone(&session.pager_ctl);
+        // Nobody else can know about the new session yet, so this never
+        // contends. Holding the lock from the start means that nobody can
+        // take the session over before we start serving its first client.
+        let mut inner = session.inner.lock_arc();
+        let lost_race = {
             let _s = span!(Level::INFO, "select_shell_lock_2(shells)").entered();
             let mut shells = self.shells.lock();
-            // If we're replacing a stale entry whose shell process is
-            // gone, surface that to subscribers before announcing the
-            // replacement.
-            if shells.insert(header.name.clone(), Box::new(session)).is_some() {
-                self.events_bus.publish(&events::Event::SessionRemoved);
+            // We gave up the table lock while starting the shell, so another
+            // client might have created the session in the meantime.
+            let name_taken = shells
+                .get(&header.name)
+                .map(|s| s.child_exit_notifier.wait(Some(time::Duration::from_millis(0))).is_none())
+                .unwrap_or(false);
+            if name_taken {
+                Some(session)
+            } else {
+                // If we're replacing a stale entry whose shell process is
+                // gone, surface that to subscribers before announcing the
+                // replacement.
+                if shells.insert(header.name.clone(), Box::new(session)).is_some() {
+                    self.events_bus.publish(&events::Event::SessionRemoved);
+                }
+                self.events_bus.publish(&events::Event::SessionCreated);
+                self.events_bus.publish(&events::Event::SessionAttached);
+                None
+            }
+        };
+        if let Some(session) = lost_race {
+            info!("another client created the session first, doing nothing");
+            if let Err(err) = session.kill() {
+                warn!("killing superfluous shell: {:?}", err);
+            }
+            if let Some(mut stream) = inner.client_stream.take() {
+                write_reply(&mut stream, AttachReplyHeader { status: AttachStatus::Busy })?;
+                stream.shutdown(net::Shutdown::Both).context("closing stream")?;
             }
-            self.events_bus.publish(&events::Event::SessionCreated);
-            self.events_bus.publish(&events::Event::SessionAttached);
+            if let Err(err) = self.hooks.on_busy(&header.name) {
+                warn!("busy hook: {:?}", err);
+            }
+            return Err(ShellSelectionError::BusyShellSession)?;
         }
 
         // Only register once the session is in the table, so that the reaper
         // can't look for it before it is there.
         if let Some(ttl_secs) = header.ttl_secs {
             info!("registering session with ttl with the reaper");
-            self.register_new_reapable_session
-                .send(ttl_reaper::Reapable {
-                    session_name: header.name.clone(),
-                    child_exit_notifier,
-                    reap_at: Instant::now().add(Duration::from_secs(ttl_secs)),
-                })
-                .context("sending reapable session registration msg")?;
+            let res = self.register_new_reapable_session.send(ttl_reaper::Reapable {
+                session_name: header.name.clone(),
+                child_exit_notifier: Arc::clone(&child_exit_notifier),
+                reap_at: Instant::now().add(Duration::from_secs(ttl_secs)),
+            });
+            if let Err(err) = res {
+                error!("sending reapable session registration msg: {:?}", err);
+            }
         }
 
-        // we unwrap to propagate the poison as an unwind
-        let _s = span!(Level::INFO, "select_shell_lock_3(shells)").entered();
-        let shells = self.shells.lock();
-
-        // return a reference to the inner session so that
-        // we can work with it without the global session
-        // table lock held
-        if let Some(session) = shells.get(&header.name) {
-            Ok((
-                Some((
-                    Arc::clone(&session.child_exit_notifier),
-                    session.inner.lock_arc(),
-                    Arc::clone(&session.pager_ctl),
-                )),
-                AttachStatus::Created { warnings },
-            ))
-        } else {
-            Ok((None, AttachStatus::UnexpectedError(String::from("selecting session"))))
-        }
+        Ok((child_exit_notifier, inner, pager_ctl, AttachStatus::Created { warnings }))
     }
 
     #[instrument(skip_all)]
-- 
2.43.0


From 2b210adb6bd55e43bcf9c40f664a43e4136fd0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 07/34] fix: take the control socket before replacing the
 events socket

---
 libshpool/src/daemon/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libshpool/src/daemon/mod.rs b/libshpool/src/daemon/mod.rs
index fa26992..ca64d6b 100644
--- a/libshpool/src/daemon/mod.rs
+++ b/libshpool/src/daemon/mod.rs
@@ -68,12 +68,8 @@ pub fn run(
 
     info!("\n\n======================== STARTING DAEMON ============================\n\n");
 
-    let events_socket = events::socket_path(&socket);
-    let (events_bus, _events_handle) =
-        events::EventBus::start(events_socket.clone()).context("starting events bus")?;
-    let server =
-        server::Server::new(config_manager, hooks, runtime_dir, log_level_handle, events_bus)?;
-
+    // Get hold of the control socket first. If another daemon is serving it
+    // we must bail out before touching anything else that daemon uses.
     let (cleanup_socket, listener) = match systemd::activation_socket() {
         Ok(l) => {
             info!("using systemd activation socket");
@@ -93,6 +89,12 @@ pub fn run(
         }
     };
 
+    let events_socket = events::socket_path(&socket);
+    let (events_bus, _events_handle) =
+        events::EventBus::start(events_socket.clone()).context("starting events bus")?;
+    let server =
+        server::Server::new(config_manager, hooks, runtime_dir, log_level_handle, events_bus)?;
+
     // spawn the signal handler thread in the background. Both sockets need
     // explicit cleanup on signal exit because the process exits before any
     // RAII guard can run -- the signal path bypasses the sink's RAII socket
-- 
2.43.0


From fa6bd5fbf21d84d08cc331c73e0adbb32e87adb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 08/34] fix: keep the user's umask when daemonizing

The daemon writes files derived from the client environment and starts the
user's shells, so an empty umask leaks to both.
---
 libshpool/src/daemonize.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/libshpool/src/daemonize.rs b/libshpool/src/daemonize.rs
index d359a9b..2f0ec2c 100644
--- a/libshpool/src/daemonize.rs
+++ b/libshpool/src/daemonize.rs
@@ -147,9 +147,6 @@ impl std::ops::Drop for PidFileGuard {
 ///
 /// Safety: see nix::unistd::fork for preconditions.
 pub unsafe fn daemonize(pid_path: PathBuf) -> anyhow::Result<PidFileGuard> {
-    let old_mask = nix::sys::stat::umask(nix::sys::stat::Mode::empty());
-    info!("set empty umask (old mask: {:?})", old_mask);
-
     // `cd /` in order to avoid holding open the directory the user
     // happened to launch `shpool attach` in so that we don't block
     // deletes of that directory the whole time that the daemon
-- 
2.43.0


From c2d0ccc94e9bd05f9c6a7c80fb88975a4b48dbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 09/34] fix: keep the pid file locked for as long as the daemon
 runs

---
 libshpool/src/daemonize.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/daemonize.rs b/libshpool/src/daemonize.rs
index 2f0ec2c..0e1a0f4 100644
--- a/libshpool/src/daemonize.rs
+++ b/libshpool/src/daemonize.rs
@@ -125,6 +125,9 @@ where
 
 pub struct PidFileGuard {
     p: PathBuf,
+    /// Held for as long as the daemon runs, so that another daemon can tell
+    /// that the pid file is in use.
+    _lock: fcntl::Flock<fs::File>,
 }
 
 impl PidFileGuard {
@@ -196,7 +199,7 @@ pub unsafe fn daemonize(pid_path: PathBuf) -> anyhow::Result<PidFileGuard> {
     // now.
     unsafe { redirect_std_fds_to_null()? };
 
-    Ok(PidFileGuard { p: pid_path })
+    Ok(PidFileGuard { p: pid_path, _lock: pid_file })
 }
 
 // Safety: callers MUST NOT call this when the std file descriptors are
-- 
2.43.0


From 7f2de98405f0482e6d9360fd96e0fd9342f25515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 10/34] fix: don't read the config again while already holding
 a config read guard

---
 libshpool/src/daemon/server.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 0671f4a..468b3ad 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -1232,18 +1232,19 @@ impl Server {
             supports_sentinels,
         };
         let child_pid = session_inner.pty_master.child_pid().ok_or(anyhow!("no child pid"))?;
+        let scrollback_lines = {
+            let config = self.config.get();
+            match (config.output_spool_lines, &config.session_restore_mode) {
+                (Some(l), _) => l,
+                (None, Some(config::SessionRestoreMode::Lines(l))) => *l as usize,
+                (None, _) => DEFAULT_OUTPUT_SPOOL_LINES,
+            }
+        };
         session_inner.shell_to_client_join_h =
             Some(session_inner.spawn_shell_to_client(shell::ShellToClientArgs {
                 conn_id,
                 tty_size: header.local_tty_size.clone(),
-                scrollback_lines: match (
-                    self.config.get().output_spool_lines,
-                    &self.config.get().session_restore_mode,
-                ) {
-                    (Some(l), _) => l,
-                    (None, Some(config::SessionRestoreMode::Lines(l))) => *l as usize,
-                    (None, _) => DEFAULT_OUTPUT_SPOOL_LINES,
-                },
+                scrollback_lines,
                 client_connection: client_connection_rx,
                 client_connection_ack: client_connection_ack_tx,
                 tty_size_change: tty_size_change_rx,
@@ -1352,7 +1353,7 @@ impl Server {
         }
 
         // parse and load /etc/environment unless we've been asked not to
-        if !self.config.get().noread_etc_environment.unwrap_or(false) {
+        if !config.noread_etc_environment.unwrap_or(false) {
             match fs::File::open("/etc/environment") {
                 Ok(f) => {
                     let pairs = etc_environment::parse_compat(io::BufReader::new(f))?;
-- 
2.43.0


From 99b78809aff9f242e99f6222ffbc5a4e4322259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 11/34] fix: don't panic on an extreme ttl or terminal size
 from a client

---
 libshpool/src/daemon/server.rs | 21 ++++++++++++---------
 libshpool/src/daemon/shell.rs  |  4 ++--
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 468b3ad..076b1ea 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -17,7 +17,6 @@ use std::{
     env,
     ffi::OsString,
     fs, io, net,
-    ops::Add,
     os,
     os::unix::{
         fs::PermissionsExt as _,
@@ -624,14 +623,18 @@ impl Server {
         // Only register once the session is in the table, so that the reaper
         // can't look for it before it is there.
         if let Some(ttl_secs) = header.ttl_secs {
-            info!("registering session with ttl with the reaper");
-            let res = self.register_new_reapable_session.send(ttl_reaper::Reapable {
-                session_name: header.name.clone(),
-                child_exit_notifier: Arc::clone(&child_exit_notifier),
-                reap_at: Instant::now().add(Duration::from_secs(ttl_secs)),
-            });
-            if let Err(err) = res {
-                error!("sending reapable session registration msg: {:?}", err);
+            if let Some(reap_at) = Instant::now().checked_add(Duration::from_secs(ttl_secs)) {
+                info!("registering session with ttl with the reaper");
+                let res = self.register_new_reapable_session.send(ttl_reaper::Reapable {
+                    session_name: header.name.clone(),
+                    child_exit_notifier: Arc::clone(&child_exit_notifier),
+                    reap_at,
+                });
+                if let Err(err) = res {
+                    error!("sending reapable session registration msg: {:?}", err);
+                }
+            } else {
+                warn!("ttl of {} seconds is beyond the end of time, ignoring it", ttl_secs);
             }
         }
 
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 9ab07b5..15a4a9f 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -336,8 +336,8 @@ impl SessionInner {
                                 // can "bake" for a little bit, which emacs seems
                                 // to require in order to pick up the jiggle.
                                 let oversize = TtySize {
-                                    rows: conn.size.rows + 1,
-                                    cols: conn.size.cols + 1,
+                                    rows: conn.size.rows.saturating_add(1),
+                                    cols: conn.size.cols.saturating_add(1),
                                     xpixel: conn.size.xpixel,
                                     ypixel: conn.size.ypixel,
                                 };
-- 
2.43.0


From 3a5475b61854fd34472a7e9d8505fef7746e955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:50 +0000
Subject: [PATCH 12/34] fix: don't let a client with a 0x0 terminal panic its
 session

---
 libshpool/src/session_restore.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/libshpool/src/session_restore.rs b/libshpool/src/session_restore.rs
index 01a3c9d..201a6a8 100644
--- a/libshpool/src/session_restore.rs
+++ b/libshpool/src/session_restore.rs
@@ -80,7 +80,7 @@ pub struct Vt100Screen {
 
 impl SessionSpool for Vt100Screen {
     fn resize(&mut self, size: TtySize) {
-        self.parser.screen_mut().set_size(size.rows, self.config.vterm_width());
+        self.parser.screen_mut().set_size(nonzero(size.rows), self.config.vterm_width());
     }
 
     fn restore_buffer(&self) -> Vec<u8> {
@@ -113,7 +113,7 @@ pub struct Vt100Lines {
 
 impl SessionSpool for Vt100Lines {
     fn resize(&mut self, size: TtySize) {
-        self.parser.screen_mut().set_size(size.rows, self.config.vterm_width());
+        self.parser.screen_mut().set_size(nonzero(size.rows), self.config.vterm_width());
     }
 
     fn restore_buffer(&self) -> Vec<u8> {
@@ -140,8 +140,10 @@ pub struct Vterm {
 
 impl SessionSpool for Vterm {
     fn resize(&mut self, size: TtySize) {
-        self.term
-            .resize(shpool_vterm::Size { height: size.rows as usize, width: size.cols as usize });
+        self.term.resize(shpool_vterm::Size {
+            height: nonzero(size.rows) as usize,
+            width: nonzero(size.cols) as usize,
+        });
     }
 
     fn restore_buffer(&self) -> Vec<u8> {
@@ -159,6 +161,12 @@ impl SessionSpool for Vterm {
     }
 }
 
+/// A tty nobody has set a size for reports itself as 0x0, but the terminal
+/// emulators can panic if they are asked to model an empty screen.
+fn nonzero(dim: u16) -> u16 {
+    dim.max(1)
+}
+
 /// Creates a spool given a `mode`.
 pub fn new(
     config: config::Manager,
@@ -171,18 +179,21 @@ pub fn new(
     match (mode, restore_engine) {
         (SessionRestoreMode::Simple, _) => Box::new(NullSpool),
         (SessionRestoreMode::Screen, SessionRestoreEngine::Vt100) => Box::new(Vt100Screen {
-            parser: shpool_vt100::Parser::new(size.rows, vterm_width, scrollback_lines),
+            parser: shpool_vt100::Parser::new(nonzero(size.rows), vterm_width, scrollback_lines),
             config,
         }),
         (SessionRestoreMode::Lines(nlines), SessionRestoreEngine::Vt100) => Box::new(Vt100Lines {
-            parser: shpool_vt100::Parser::new(size.rows, vterm_width, scrollback_lines),
+            parser: shpool_vt100::Parser::new(nonzero(size.rows), vterm_width, scrollback_lines),
             nlines,
             config,
         }),
         (mode, SessionRestoreEngine::Vterm) => Box::new(Vterm {
             term: shpool_vterm::Term::new(
                 scrollback_lines,
-                shpool_vterm::Size { width: size.cols as usize, height: size.rows as usize },
+                shpool_vterm::Size {
+                    width: nonzero(size.cols) as usize,
+                    height: nonzero(size.rows) as usize,
+                },
             ),
             mode,
         }),
-- 
2.43.0


From 15dc26f2c9a2cfce9a40facd0264cf95f42cf882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 13/34] fix: never signal the pid of a shell that is known to
 have exited

---
 libshpool/src/daemon/exit_notify.rs | 9 ++++-----
 libshpool/src/daemon/shell.rs       | 6 ++++++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/libshpool/src/daemon/exit_notify.rs b/libshpool/src/daemon/exit_notify.rs
index 7e627e6..6c6db21 100644
--- a/libshpool/src/daemon/exit_notify.rs
+++ b/libshpool/src/daemon/exit_notify.rs
@@ -47,11 +47,10 @@ impl ExitNotifier {
 
         match timeout {
             Some(t) => {
-                if self.cond.wait_for(&mut slot, t).timed_out() {
-                    None
-                } else {
-                    *slot
-                }
+                // The process might have exited right as we timed out, so
+                // what counts is the slot.
+                self.cond.wait_for(&mut slot, t);
+                *slot
             }
             None => {
                 self.cond.wait(&mut slot);
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 15a4a9f..c49f843 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -130,6 +130,12 @@ impl Session {
         // from a process. We can't use the normal SIGTERM graceful-shutdown
         // signal since shells just forward those to their child process,
         // but for shells SIGHUP serves as the graceful shutdown signal.
+        //
+        // Once the child is known to have exited it has been reaped, so its pid
+        // might belong to some other process by now.
+        if self.child_exit_notifier.wait(Some(time::Duration::from_millis(0))).is_some() {
+            return Ok(());
+        }
         match signal::kill(Pid::from_raw(self.child_pid), Some(signal::Signal::SIGHUP)) {
             // ESRCH means "no such process", so the child is already gone and
             // there is nothing left to kill.
-- 
2.43.0


From e25a42003ecf92b1bd9f716d74193a63f7d2970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 14/34] fix: put every config file affected by a file event
 back under watch

---
 libshpool/src/config_watcher.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/libshpool/src/config_watcher.rs b/libshpool/src/config_watcher.rs
index 41b5acc..6e0d533 100644
--- a/libshpool/src/config_watcher.rs
+++ b/libshpool/src/config_watcher.rs
@@ -19,7 +19,7 @@ use notify::{
     Watcher as _,
 };
 use std::{
-    collections::{hash_map::Entry, HashMap},
+    collections::{hash_map::Entry, HashMap, HashSet},
     path::{Path, PathBuf},
     thread::{self, JoinHandle},
     time::{Duration, Instant},
@@ -343,15 +343,25 @@ impl<Handler> ConfigWatcherInner<Handler> {
 
     /// Do rewatch according to the enum, return whether reload is necessary
     fn rewatch(&mut self, rewatch: ReWatch) -> bool {
-        let rewatch_paths = match rewatch {
-            ReWatch::Some(rewatch_paths) => rewatch_paths,
+        let mut rewatch_paths: HashMap<PathBuf, PathBuf> = match rewatch {
+            ReWatch::Some(rewatch_paths) => rewatch_paths.into_iter().collect(),
             ReWatch::All => {
                 // drain paths and collect into vec first, to avoid keeping a mutable borrow on
                 // self.paths
                 self.paths.drain().map(|(path, (watched_path, _))| (path, watched_path)).collect()
             }
         };
-        rewatch_paths.into_iter().any(|(path, watched_path)| {
+
+        // Several paths can share a watch, so before adding any watch we need
+        // to drop all of them, and everything which depends on a watch we drop
+        // must be put back.
+        let unwatch_paths: HashSet<PathBuf> = rewatch_paths.values().cloned().collect();
+        for (path, (watched_path, _)) in self.paths.iter() {
+            if unwatch_paths.contains(watched_path) {
+                rewatch_paths.insert(path.to_owned(), watched_path.to_owned());
+            }
+        }
+        for watched_path in unwatch_paths {
             if let Err(err) = self.watcher.unwatch(&watched_path) {
                 // error sometimes is expected if the watched_path was simply removed, in that
                 // case notify will automatically remove the watch.
@@ -359,10 +369,15 @@ impl<Handler> ConfigWatcherInner<Handler> {
             } else {
                 debug!("unwatched {}", watched_path.display());
             }
-            watch_and_add(&mut self.watcher, self.paths.entry(path))
+        }
+
+        let mut reload = false;
+        for path in rewatch_paths.into_keys() {
+            reload |= watch_and_add(&mut self.watcher, self.paths.entry(path))
                 .map_err(|err| error!("Failed to add watch: {:?}", err))
-                .unwrap_or(true)
-        })
+                .unwrap_or(true);
+        }
+        reload
     }
 }
 
-- 
2.43.0


From 153a7b22d366d42a9e490f3471d10de543fc487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 15/34] fix: don't mix up Ctrl-x and Ctrl-y in key bindings

---
 libshpool/src/daemon/keybindings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libshpool/src/daemon/keybindings.rs b/libshpool/src/daemon/keybindings.rs
index ddb9ade..2bd8028 100644
--- a/libshpool/src/daemon/keybindings.rs
+++ b/libshpool/src/daemon/keybindings.rs
@@ -458,8 +458,8 @@ const CONTROL_CODES: [(&str, u8); 42] = [
     ("Ctrl-u", 21),
     ("Ctrl-v", 22),
     ("Ctrl-w", 23),
-    ("Ctrl-y", 24),
-    ("Ctrl-x", 25),
+    ("Ctrl-x", 24),
+    ("Ctrl-y", 25),
     ("Ctrl-z", 26),
     ("Ctrl-@", 0),
     ("Ctrl-2", 0),
-- 
2.43.0


From b1dd41e87a2e92df21c75f8664f8d64089b03f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 16/34] fix: let key bindings spell the same key in different
 ways

---
 libshpool/src/daemon/keybindings.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemon/keybindings.rs b/libshpool/src/daemon/keybindings.rs
index 2bd8028..bab6028 100644
--- a/libshpool/src/daemon/keybindings.rs
+++ b/libshpool/src/daemon/keybindings.rs
@@ -129,11 +129,14 @@ impl Bindings {
             let tokens =
                 tokenizer.tokenize(binding_src.chars()).context("tokenizing keybinding")?;
             let sequence = parse(tokens).context("parsing keybinding")?;
+            let mut atoms = Vec::with_capacity(sequence.0.len());
             for chord in sequence.0.iter() {
                 // resolving the key code will also check the validity
                 let code = chord.key_code()?;
 
-                let chord_atom = chord_atom_tab.entry(chord.clone()).or_insert_with(|| {
+                // Several chords can generate the same code, in which case there
+                // is no way to tell them apart.
+                let chord_atom = chord_atom_tab.entry(code).or_insert_with(|| {
                     let atom = ChordAtom(chord_atom_counter as u8);
                     chord_atom_counter += 1;
                     atom
@@ -146,9 +149,9 @@ impl Bindings {
                 }
 
                 chords.insert(vec![code].into_iter(), *chord_atom);
+                atoms.push(*chord_atom);
             }
-            sequences
-                .insert(sequence.0.iter().map(|chord| *chord_atom_tab.get(chord).unwrap()), action);
+            sequences.insert(atoms.into_iter(), action);
         }
 
         Ok(Bindings {
-- 
2.43.0


From e990886227b6d39d6578845d50cf46f79abeb061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 17/34] fix: keep a forked child out of daemon code and away
 from daemon descriptors

---
 libshpool/src/daemon/pager.rs  |  8 +++----
 libshpool/src/daemon/server.rs | 12 +++++-----
 libshpool/src/tty.rs           | 40 ++++++++++++++++++++++++++++++++++
 3 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/libshpool/src/daemon/pager.rs b/libshpool/src/daemon/pager.rs
index 49723a9..8eb6d7c 100644
--- a/libshpool/src/daemon/pager.rs
+++ b/libshpool/src/daemon/pager.rs
@@ -51,7 +51,7 @@ use parking_lot::Mutex;
 use shpool_protocol::{Chunk, ChunkKind, TtySize};
 use tracing::{error, info, instrument, span, trace, warn, Level};
 
-use crate::{consts, protocol::ChunkExt as _, tty::TtySizeExt as _};
+use crate::{consts, protocol::ChunkExt as _, tty, tty::TtySizeExt as _};
 
 // poll relatively quickly to pick up pager exits reasonably fast,
 // but still slow enough to spend most of the time parked.
@@ -138,11 +138,9 @@ impl Pager {
         // fork, leaving us with a handle in the master branch
         // and execing the pty wrapped pager in the child.
         info!("forking pager pty proc");
-        let fork = shpool_pty::fork::Fork::from_ptmx().context("forking pty")?;
+        let fork = tty::fork_ptmx()?;
         if fork.is_child().is_ok() {
-            for fd in consts::STDERR_FD + 1..(nix::unistd::SysconfVar::OPEN_MAX as i32) {
-                let _ = nix::unistd::close(fd);
-            }
+            tty::close_non_stdio_fds();
             let err = cmd.exec();
             eprintln!("pager exec err: {err:?}");
             std::process::exit(1);
diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 076b1ea..804e9b7 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -1103,14 +1103,16 @@ impl Server {
 
         let noecho = self.config.get().noecho.unwrap_or(false);
         info!("about to fork subshell noecho={}", noecho);
-        let mut fork = shpool_pty::fork::Fork::from_ptmx().context("forking pty")?;
+        let mut fork = tty::fork_ptmx()?;
         if let Ok(slave) = fork.is_child() {
             if noecho {
-                tty::disable_echo(slave.borrow_fd()).context("disabling echo on pty")?;
-            }
-            for fd in consts::STDERR_FD + 1..(nix::unistd::SysconfVar::OPEN_MAX as i32) {
-                let _ = nix::unistd::close(fd);
+                if let Err(err) = tty::disable_echo(slave.borrow_fd()) {
+                    // don't return, this is not the daemon any more
+                    eprintln!("disabling echo on pty: {err:?}");
+                    std::process::exit(1);
+                }
             }
+            tty::close_non_stdio_fds();
             let err = cmd.exec();
             eprintln!("shell exec err: {err:?}");
             std::process::exit(1);
diff --git a/libshpool/src/tty.rs b/libshpool/src/tty.rs
index e7addf6..9a6033b 100644
--- a/libshpool/src/tty.rs
+++ b/libshpool/src/tty.rs
@@ -15,6 +15,7 @@
 use std::{
     io,
     os::{fd::BorrowedFd, unix::io::RawFd},
+    process,
 };
 
 use anyhow::Context;
@@ -23,6 +24,7 @@ use nix::{
         termios,
         termios::{ControlFlags, InputFlags, LocalFlags, OutputFlags, SetArg},
     },
+    unistd,
     unistd::isatty,
 };
 use shpool_protocol::TtySize;
@@ -79,6 +81,44 @@ impl TtySizeExt for TtySize {
     }
 }
 
+/// fork with a new pty as the child's controlling terminal. Only ever returns
+/// an error in the parent: the child must never unwind into daemon code, so
+/// it exits if its half of the setup does not work.
+pub fn fork_ptmx() -> anyhow::Result<shpool_pty::fork::Fork> {
+    let parent_pid = process::id();
+    match shpool_pty::fork::Fork::from_ptmx() {
+        Ok(fork) => Ok(fork),
+        Err(err) if process::id() != parent_pid => {
+            eprintln!("setting up pty in child: {err:?}");
+            process::exit(1);
+        }
+        Err(err) => Err(err).context("forking pty"),
+    }
+}
+
+/// close every file descriptor except for the stdio ones. Meant to be called
+/// in a forked child that is about to exec.
+pub fn close_non_stdio_fds() {
+    let first = consts::STDERR_FD + 1;
+
+    // Safety: the caller does not use any of the closed fds any more.
+    #[cfg(target_os = "linux")]
+    if unsafe { libc::syscall(libc::SYS_close_range, first as libc::c_uint, libc::c_uint::MAX, 0) }
+        == 0
+    {
+        return;
+    }
+
+    const MAX_FDS: libc::c_long = 1 << 16;
+    let limit = match unistd::sysconf(unistd::SysconfVar::OPEN_MAX) {
+        Ok(Some(limit)) => std::cmp::min(limit, MAX_FDS),
+        _ => MAX_FDS,
+    };
+    for fd in first..(limit as i32) {
+        let _ = unistd::close(fd);
+    }
+}
+
 pub fn disable_echo(fd: BorrowedFd<'_>) -> anyhow::Result<()> {
     let mut term = termios::tcgetattr(fd).context("grabbing term flags")?;
     term.local_flags &= !LocalFlags::ECHO;
-- 
2.43.0


From 6cb92588a099a3bd5c6aae879cb3115b38809aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 18/34] fix: make the sessions dir private even when no agent
 socket is forwarded

---
 libshpool/src/daemon/server.rs | 40 +++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 804e9b7..baf6282 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -649,21 +649,9 @@ impl Server {
 
         if let Some(ssh_auth_sock) = header.local_env_get("SSH_AUTH_SOCK") {
             let symlink = self.ssh_auth_sock_symlink(PathBuf::from(&header.name));
-            fs::create_dir_all(symlink.parent().ok_or(anyhow!("no symlink parent dir"))?)
+            self.create_session_dir(&header.name)
                 .context("could not create directory for SSH_AUTH_SOCK symlink")?;
 
-            let sessions_dir =
-                symlink.parent().and_then(|d| d.parent()).ok_or(anyhow!("no sessions dir"))?;
-            let sessions_meta = fs::metadata(sessions_dir).context("stating sessions dir")?;
-
-            // set RWX bits for user and no one else
-            let mut sessions_perm = sessions_meta.permissions();
-            if sessions_perm.mode() != 0o700 {
-                sessions_perm.set_mode(0o700);
-                fs::set_permissions(sessions_dir, sessions_perm)
-                    .context("locking down permissions for sessions dir")?;
-            }
-
             let _ = fs::remove_file(&symlink); // clean up the link if it exists already
             os::unix::fs::symlink(ssh_auth_sock, &symlink).context(format!(
                 "could not symlink '{symlink:?}' to point to '{ssh_auth_sock:?}'"
@@ -675,13 +663,31 @@ impl Server {
         Ok(())
     }
 
+    /// Make sure the directory for the given session exists and that nobody
+    /// but the user can get at anything in the sessions dir.
+    fn create_session_dir(&self, session_name: &str) -> anyhow::Result<()> {
+        let session_dir = self.session_dir(session_name);
+        fs::create_dir_all(&session_dir).context("making session dir")?;
+
+        let sessions_dir = session_dir.parent().ok_or(anyhow!("no sessions dir"))?;
+        let sessions_meta = fs::metadata(sessions_dir).context("stating sessions dir")?;
+
+        // set RWX bits for user and no one else
+        let mut sessions_perm = sessions_meta.permissions();
+        if sessions_perm.mode() != 0o700 {
+            sessions_perm.set_mode(0o700);
+            fs::set_permissions(sessions_dir, sessions_perm)
+                .context("locking down permissions for sessions dir")?;
+        }
+
+        Ok(())
+    }
+
     #[instrument(skip_all)]
     fn populate_session_env_file(&self, header: &AttachHeader) -> anyhow::Result<()> {
-        let session_name = PathBuf::from(&header.name);
-        fs::create_dir_all(self.session_dir(session_name.clone()))
-            .context("creating session dir")?;
+        self.create_session_dir(&header.name).context("creating session dir")?;
 
-        let session_env_file = self.session_env_file(session_name);
+        let session_env_file = self.session_env_file(PathBuf::from(&header.name));
         info!("populating {:?}", session_env_file);
         fs::write(
             session_env_file,
-- 
2.43.0


From 6e0b00b360de1d3552dafe86cecc493715582780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 19/34] fix: dump the motd in chunks the client accepts and
 whatever the current mode

---
 libshpool/src/daemon/show_motd.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/libshpool/src/daemon/show_motd.rs b/libshpool/src/daemon/show_motd.rs
index 750f111..6722562 100644
--- a/libshpool/src/daemon/show_motd.rs
+++ b/libshpool/src/daemon/show_motd.rs
@@ -20,7 +20,7 @@ use shpool_protocol::{Chunk, ChunkKind, TtySize};
 use tracing::{info, instrument};
 
 use crate::{
-    config,
+    config, consts,
     daemon::pager::{Pager, PagerCtl},
     duration,
     protocol::ChunkExt as _,
@@ -60,16 +60,17 @@ impl DailyMessenger {
         mut stream: W,
         term_db: &termini::TermInfo,
     ) -> anyhow::Result<()> {
-        assert!(matches!(
-            self.config.get().motd.clone().unwrap_or_default(),
-            config::MotdDisplayMode::Dump
-        ));
-
+        // N.B. the session was set up to dump the motd, but the config may well
+        // have been reloaded with a different mode since then.
         let raw_motd_value = self.raw_motd_value(term_db)?;
 
-        let chunk = Chunk { kind: ChunkKind::Data, buf: raw_motd_value.as_slice() };
+        // The client refuses chunks that don't fit in its buffer.
+        for block in raw_motd_value.chunks(consts::BUF_SIZE) {
+            let chunk = Chunk { kind: ChunkKind::Data, buf: block };
+            chunk.write_to(&mut stream).context("dumping motd")?;
+        }
 
-        chunk.write_to(&mut stream).context("dumping motd")
+        Ok(())
     }
 
     /// Display the motd in a pager. Callers should do a downcast error
-- 
2.43.0


From 294e2e462eb79912cf9ae4b932ea62cce663e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 20/34] fix: never send an attached client a variable set it
 can't receive

---
 libshpool/src/daemon/server.rs | 19 +++++++++++++++----
 libshpool/src/daemon/shell.rs  |  4 ++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index baf6282..30a5fda 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -794,16 +794,27 @@ impl Server {
     ) -> anyhow::Result<()> {
         let maybe_switch = {
             let mut vars = self.vars.lock();
+            let mut new_vars = vars.clone();
             if let Some(val) = request.val {
-                vars.insert(request.var, val);
+                new_vars.insert(request.var, val);
             } else {
-                vars.remove(&request.var);
+                new_vars.remove(&request.var);
             }
 
-            MaybeSwitch {
+            let maybe_switch = MaybeSwitch {
                 switch_to: None,
-                vars: vars.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
+                vars: new_vars.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
+            };
+
+            // Attached clients get the variables in a single chunk.
+            let mut encoded = Vec::new();
+            protocol::encode_to(&maybe_switch, &mut encoded).context("encoding vars")?;
+            if encoded.len() > consts::BUF_SIZE {
+                return Err(anyhow!("variables would take up {} bytes, too many", encoded.len()));
             }
+
+            *vars = new_vars;
+            maybe_switch
         };
 
         let mut ctls = Vec::new();
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index c49f843..a940cad 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -469,6 +469,10 @@ impl SessionInner {
                             error!("error encoding MaybeSwitch: {:?}", e);
                             continue;
                         }
+                        if encoded.len() > consts::BUF_SIZE {
+                            error!("dropping MaybeSwitch of {} bytes, too big", encoded.len());
+                            continue;
+                        }
 
                         let chunk = Chunk { kind: ChunkKind::MaybeSwitch, buf: &encoded[..] };
                         match chunk.write_to(&mut conn.sink).and_then(|_| conn.sink.flush()) {
-- 
2.43.0


From bce74245cd9c83aaeed4788d51c9f0cd20acac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 21/34] fix: stop looking for the prompt sentinel once it was
 seen

---
 libshpool/src/daemon/shell.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index a940cad..f43b9a1 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -598,6 +598,7 @@ impl SessionInner {
 
                             // drop everything up to and including the sentinel
                             buf = &buf[i + 1..];
+                            break;
                         }
                     }
                 }
-- 
2.43.0


From b36cd2085e334fecd545b627ebdfec1314de1076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 22/34] fix: forward output that is still pending when the pty
 hangs up

---
 libshpool/src/daemon/shell.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index f43b9a1..635cc04 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -556,11 +556,23 @@ impl SessionInner {
                 if nready != 1 {
                     return Err(anyhow!("shell->client thread: expected exactly 1 ready fd"));
                 }
-                let hangup = poll_fds[0]
-                    .revents()
-                    .map(|r| r.intersects(PollFlags::POLLHUP | PollFlags::POLLERR))
-                    .unwrap_or(false);
-                if hangup {
+                let revents = poll_fds[0].revents().unwrap_or(PollFlags::empty());
+                let hangup = revents.intersects(PollFlags::POLLHUP | PollFlags::POLLERR);
+                // Output that the shell wrote right before it went away can still
+                // be read after the hangup, so we are only done once there is
+                // none left.
+                let len = if hangup && !revents.contains(PollFlags::POLLIN) {
+                    0
+                } else {
+                    match pty_master.read(&mut buf) {
+                        Ok(l) => l,
+                        Err(e) => {
+                            error!("reading chunk from pty master: {:?}", e);
+                            return Err(e).context("reading pty master chunk")?;
+                        }
+                    }
+                };
+                if hangup && len == 0 {
                     info!("pty master hung up, exiting shell->client thread");
 
                     // If we have an attached client conn, make a best effort attempt
@@ -574,13 +586,6 @@ impl SessionInner {
                     }
                     return Ok(());
                 }
-                let len = match pty_master.read(&mut buf) {
-                    Ok(l) => l,
-                    Err(e) => {
-                        error!("reading chunk from pty master: {:?}", e);
-                        return Err(e).context("reading pty master chunk")?;
-                    }
-                };
                 if len == 0 {
                     continue;
                 }
-- 
2.43.0


From b8bbc2e6b45476eb6e6c83b997df2bd27b021351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 23/34] fix: forward output that is still pending when the
 shell exits

---
 libshpool/src/daemon/shell.rs | 65 ++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 635cc04..0ac9808 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -63,6 +63,10 @@ const SHELL_TO_CLIENT_POLL_MS: u16 = 50;
 // shell->client thread.
 const SHELL_TO_CLIENT_CTL_TIMEOUT: time::Duration = time::Duration::from_millis(300);
 
+// How long to keep forwarding output after the shell has exited. Must leave
+// enough of SHELL_TO_CLIENT_CTL_TIMEOUT to ack the disconnect message.
+const EXIT_DRAIN_DUR: time::Duration = time::Duration::from_millis(100);
+
 /// Lifecycle state tracking when sessions were last connected/disconnected and
 /// by whom. The fields update in lockstep, so they live behind a single private
 /// lock that only this type's methods take, exactly once per update or read.
@@ -317,6 +321,10 @@ impl SessionInner {
                 None
             };
 
+            // The exit status of the shell and the time to stop forwarding output
+            // at once we have been told about the shell's exit.
+            let mut pending_exit: Option<(i32, time::Instant)> = None;
+
             loop {
                 let mut do_reattach = false;
                 crossbeam_channel::select! {
@@ -375,26 +383,14 @@ impl SessionInner {
                                     .context("sending client disconnect ack")?;
                             }
                             Ok(ClientConnectionMsg::DisconnectExit(exit_status)) => {
-                                let ack = if let ClientConnectionMsg::New(mut old_conn) = client_conn {
-                                    info!("disconnectexit({}), shutting down client stream",
-                                           exit_status);
-
-                                    // write an exit status frame so the attach process
-                                    // can exit with the same exit code as the child shell
-                                    Self::write_exit_chunk(&mut old_conn.sink, exit_status);
-                                    shutdown_socket(&old_conn.stream, net::Shutdown::Both)?;
-
-                                    ClientConnectionStatus::Detached
-                                } else {
-                                    info!(
-                                        "disconnectexit({}), no client stream to shut down",
-                                          exit_status);
-                                    ClientConnectionStatus::DetachNone
-                                };
-                                args.client_connection_ack.send(ack)
-                                    .context("sending client disconnect exit ack")?;
-
-                                return Ok(());
+                                // The shell is gone, but some of its output might still
+                                // be waiting for us, so only hang up once we have
+                                // forwarded that.
+                                info!("disconnectexit({}), draining output", exit_status);
+                                pending_exit = Some((
+                                    exit_status,
+                                    time::Instant::now().add(EXIT_DRAIN_DUR),
+                                ));
                             }
 
                             // SessionInner getting dropped, so this thread should go away.
@@ -542,13 +538,40 @@ impl SessionInner {
                 // Block until the shell has some data for us so we can be sure our reads
                 // always succeed. We don't want to end up blocked forever on a read while
                 // a client is trying to attach.
-                let nready = match poll::poll(&mut poll_fds, SHELL_TO_CLIENT_POLL_MS) {
+                let poll_ms = if pending_exit.is_some() { 0 } else { SHELL_TO_CLIENT_POLL_MS };
+                let nready = match poll::poll(&mut poll_fds, poll_ms) {
                     Ok(n) => n,
                     Err(e) => {
                         error!("polling pty master: {:?}", e);
                         return Err(e)?;
                     }
                 };
+                if let Some((exit_status, drain_until)) = pending_exit {
+                    let has_output = poll_fds[0]
+                        .revents()
+                        .map(|r| r.contains(PollFlags::POLLIN))
+                        .unwrap_or(false);
+                    if !has_output || time::Instant::now() >= drain_until {
+                        let ack = if let ClientConnectionMsg::New(mut old_conn) = client_conn {
+                            info!("disconnectexit({}), shutting down client stream", exit_status);
+
+                            // write an exit status frame so the attach process
+                            // can exit with the same exit code as the child shell
+                            Self::write_exit_chunk(&mut old_conn.sink, exit_status);
+                            shutdown_socket(&old_conn.stream, net::Shutdown::Both)?;
+
+                            ClientConnectionStatus::Detached
+                        } else {
+                            info!("disconnectexit({}), no client stream to shut down", exit_status);
+                            ClientConnectionStatus::DetachNone
+                        };
+                        args.client_connection_ack
+                            .send(ack)
+                            .context("sending client disconnect exit ack")?;
+
+                        return Ok(());
+                    }
+                }
                 if nready == 0 {
                     // if timeout
                     continue;
-- 
2.43.0


From cb874741dbbca538d731f303529f88d07152c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 24/34] fix: don't acknowledge a log level change that did not
 happen

---
 libshpool/src/daemon/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 30a5fda..c64773c 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -765,9 +765,9 @@ impl Server {
             LogLevel::Debug => tracing_subscriber::filter::LevelFilter::DEBUG,
             LogLevel::Trace => tracing_subscriber::filter::LevelFilter::TRACE,
         };
-        if let Err(e) = self.log_level_handle.modify(|filter| *filter = level_filter) {
-            error!("modifying log level: {}", e);
-        }
+        self.log_level_handle
+            .modify(|filter| *filter = level_filter)
+            .context("modifying log level")?;
 
         write_reply(&mut stream, SetLogLevelReply {}).context("writing set log level reply")?;
         Ok(())
-- 
2.43.0


From cd4a963ed5f68dd1e3410a01c52c9a4d2577a39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 25/34] fix: warn about a daemon version that can't be parsed
 instead of giving up

---
 libshpool/src/protocol.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/protocol.rs b/libshpool/src/protocol.rs
index e1ec02b..584c037 100644
--- a/libshpool/src/protocol.rs
+++ b/libshpool/src/protocol.rs
@@ -166,9 +166,20 @@ impl Client {
         };
         info!("read daemon version header: {:?}", daemon_version);
 
-        match Self::version_ord(shpool_protocol::VERSION, &daemon_version.version)
-            .context("comparing versions")?
-        {
+        let ord = match Self::version_ord(shpool_protocol::VERSION, &daemon_version.version) {
+            Ok(ord) => ord,
+            Err(e) => {
+                warn!("error comparing versions: {:?}", e);
+                return Ok(ClientResult::VersionMismatch {
+                    warning: format!(
+                        "could not make sense of daemon protocol version {:?}",
+                        daemon_version.version,
+                    ),
+                    client: Client { stream },
+                });
+            }
+        };
+        match ord {
             cmp::Ordering::Equal => Ok(ClientResult::JustClient(Client { stream })),
             cmp::Ordering::Less => Ok(ClientResult::VersionMismatch {
                 warning: format!(
-- 
2.43.0


From 050f05db5c071bd29baf882ae9adef3b2280d665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 26/34] fix: handle termination signals as soon as the control
 socket is bound

---
 libshpool/src/daemon/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libshpool/src/daemon/mod.rs b/libshpool/src/daemon/mod.rs
index ca64d6b..efb93d7 100644
--- a/libshpool/src/daemon/mod.rs
+++ b/libshpool/src/daemon/mod.rs
@@ -90,10 +90,6 @@ pub fn run(
     };
 
     let events_socket = events::socket_path(&socket);
-    let (events_bus, _events_handle) =
-        events::EventBus::start(events_socket.clone()).context("starting events bus")?;
-    let server =
-        server::Server::new(config_manager, hooks, runtime_dir, log_level_handle, events_bus)?;
 
     // spawn the signal handler thread in the background. Both sockets need
     // explicit cleanup on signal exit because the process exits before any
@@ -106,6 +102,11 @@ pub fn run(
     }
     signals::Handler::new(socks_to_clean).spawn().context("spawning signal handler")?;
 
+    let (events_bus, _events_handle) =
+        events::EventBus::start(events_socket).context("starting events bus")?;
+    let server =
+        server::Server::new(config_manager, hooks, runtime_dir, log_level_handle, events_bus)?;
+
     server::Server::serve(server, listener)?;
 
     if let Some(sock) = cleanup_socket {
-- 
2.43.0


From 45f28a5a5eeb56d8f916115e7b7ed375beead2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 27/34] fix: report missing and not attached sessions of one
 detach

A detach of several sessions that found some missing and others not
attached only named the missing ones.
---
 libshpool/src/detach.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/detach.rs b/libshpool/src/detach.rs
index 3d74cf6..753d8da 100644
--- a/libshpool/src/detach.rs
+++ b/libshpool/src/detach.rs
@@ -46,12 +46,19 @@ where
 
     let reply: DetachReply = client.read_reply().context("reading reply")?;
 
+    // A request for several sessions can run into both problems, so report
+    // all of them before failing.
     if !reply.not_found_sessions.is_empty() {
         eprintln!("not found: {}", reply.not_found_sessions.join(" "));
-        return Err(anyhow!("not found: {}", reply.not_found_sessions.join(" ")));
     }
     if !reply.not_attached_sessions.is_empty() {
         eprintln!("not attached: {}", reply.not_attached_sessions.join(" "));
+    }
+
+    if !reply.not_found_sessions.is_empty() {
+        return Err(anyhow!("not found: {}", reply.not_found_sessions.join(" ")));
+    }
+    if !reply.not_attached_sessions.is_empty() {
         return Err(anyhow!("not attached: {}", reply.not_attached_sessions.join(" ")));
     }
 
-- 
2.43.0


From d62e2471f4952376a4ef1608b3bfe11e295f427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 28/34] fix: default every protocol field a peer did not send

Messages whose fields had no serde default could not be decoded if the
peer left one out.
---
 shpool-protocol/src/lib.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/shpool-protocol/src/lib.rs b/shpool-protocol/src/lib.rs
index 3da6585..bd74585 100644
--- a/shpool-protocol/src/lib.rs
+++ b/shpool-protocol/src/lib.rs
@@ -29,6 +29,7 @@ pub const VERSION: &str = env!("CARGO_PKG_VERSION");
 /// versions).
 #[derive(Serialize, Deserialize, Debug)]
 pub struct VersionHeader {
+    #[serde(default)]
     pub version: String,
 }
 
@@ -128,9 +129,11 @@ pub struct SetLogLevelReply {}
 
 #[derive(Serialize, Deserialize, Debug)]
 pub struct ModifyVarRequest {
+    #[serde(default)]
     pub var: String,
     /// If none, this is a request to remove the var from the
     /// environment entirely.
+    #[serde(default)]
     pub val: Option<String>,
 }
 
@@ -329,12 +332,18 @@ pub enum AttachStatus {
     /// NOTE: warnings is not currently used, but it used to be, and we
     /// might want it in the future, so it is not worth breaking the protocol
     /// over.
-    Attached { warnings: Vec<String> },
+    Attached {
+        #[serde(default)]
+        warnings: Vec<String>,
+    },
     /// Created indicates that there was no existing shell session with the
     /// given name, so `shpool` created a new one.
     ///
     /// NOTE: warnings is not currently used, see above.
-    Created { warnings: Vec<String> },
+    Created {
+        #[serde(default)]
+        warnings: Vec<String>,
+    },
     /// Busy indicates that there is an existing shell session with the given
     /// name, but another shpool session is currently connected to
     /// it, so the connection attempt was rejected.
@@ -354,9 +363,13 @@ impl Default for AttachStatus {
 
 #[derive(Serialize, Deserialize, Debug, Default, Clone)]
 pub struct TtySize {
+    #[serde(default)]
     pub rows: u16,
+    #[serde(default)]
     pub cols: u16,
+    #[serde(default)]
     pub xpixel: u16,
+    #[serde(default)]
     pub ypixel: u16,
 }
 
@@ -371,10 +384,12 @@ pub struct MaybeSwitch {
     /// so the attach process should exit and display an error to the
     /// user if it gets a MaybeSwitch telling to to switch to a specific
     /// session name.
+    #[serde(default)]
     pub switch_to: Option<String>,
     /// The shpool wide variable environment. The attach process should
     /// hang up and reattach if it has a session name template which
     /// produces a new result with this new environment.
+    #[serde(default)]
     pub vars: Vec<(String, String)>,
 }
 
-- 
2.43.0


From c855db7b17cf477bd4c9dac2f2b4b2e4bb7d0616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 29/34] fix: never detach another client when a background
 attach lets go of its session

---
 libshpool/src/attach.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libshpool/src/attach.rs b/libshpool/src/attach.rs
index 6693e6a..4bd83df 100644
--- a/libshpool/src/attach.rs
+++ b/libshpool/src/attach.rs
@@ -203,10 +203,9 @@ impl Attach {
         info!("got attach client");
 
         if self.background {
-            // Close the attached connection first so the daemon can observe EOF.
-            // We still send an explicit Detach on a fresh connection as a best-effort
-            // fallback in case EOF processing is delayed.
-            drop(attach_client);
+            // Ask the daemon to detach us on a fresh connection while the attached
+            // connection is still open. If it was closed first, some other client
+            // could attach in the meantime and we would kick it out.
             let mut client = self.dial_client(true)?;
             client
                 .write_connect_header(ConnectHeader::Detach(DetachRequest {
@@ -214,6 +213,8 @@ impl Attach {
                 }))
                 .context("writing detach request header")?;
             let detach_reply: DetachReply = client.read_reply().context("reading reply")?;
+            // Even if the request had no effect the daemon will observe EOF.
+            drop(attach_client);
             if !detach_reply.not_found_sessions.is_empty() {
                 warn!("could not find session '{}' to detach it", resolved.session_name);
             }
-- 
2.43.0


From 5e39e3ee2f00d3902de08290fe88c965b1b50384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 30/34] fix: call the busy hook even if the refused client is
 gone already

The reply cannot be written to a client that has hung up, and bailing out
there skipped the hook.
---
 libshpool/src/daemon/server.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index c64773c..0ada3d9 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -545,12 +545,12 @@ impl Server {
                     // fallthrough to bidi streaming
                 } else {
                     info!("busy shell session, doing nothing");
-                    // The stream is busy, so we just inform the client and close the stream.
-                    write_reply(&mut stream, AttachReplyHeader { status: AttachStatus::Busy })?;
-                    stream.shutdown(net::Shutdown::Both).context("closing stream")?;
                     if let Err(err) = self.hooks.on_busy(&header.name) {
                         warn!("busy hook: {:?}", err);
                     }
+                    // The stream is busy, so we just inform the client and close the stream.
+                    write_reply(&mut stream, AttachReplyHeader { status: AttachStatus::Busy })?;
+                    stream.shutdown(net::Shutdown::Both).context("closing stream")?;
                     Err(ShellSelectionError::BusyShellSession)?;
                 }
             } else {
@@ -610,13 +610,13 @@ impl Server {
             if let Err(err) = session.kill() {
                 warn!("killing superfluous shell: {:?}", err);
             }
+            if let Err(err) = self.hooks.on_busy(&header.name) {
+                warn!("busy hook: {:?}", err);
+            }
             if let Some(mut stream) = inner.client_stream.take() {
                 write_reply(&mut stream, AttachReplyHeader { status: AttachStatus::Busy })?;
                 stream.shutdown(net::Shutdown::Both).context("closing stream")?;
             }
-            if let Err(err) = self.hooks.on_busy(&header.name) {
-                warn!("busy hook: {:?}", err);
-            }
             return Err(ShellSelectionError::BusyShellSession)?;
         }
 
-- 
2.43.0


From ee7174bb6352aed4573b6c79705de397f8640aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:47 +0000
Subject: [PATCH 31/34] fix: apply a new size to the terminal before
 acknowledging it

---
 libshpool/src/daemon/shell.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 0ac9808..d423033 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -405,12 +405,14 @@ impl SessionInner {
                             Ok(size) => {
                                 info!("resize size={:?}", size);
                                 output_spool.resize(size.clone());
-                                resize_cmd = Some(ResizeCmd {
-                                    size,
-                                    // No delay needed for ordinary resizes, just
-                                    // for reconnects.
-                                    when: time::Instant::now(),
-                                });
+                                // No delay needed for ordinary resizes, just
+                                // for reconnects. The resize must be done by the
+                                // time we ack it, and it supersedes any resize
+                                // that is still pending.
+                                if let Err(e) = size.set_fd(pty_master.raw_fd()) {
+                                    warn!("error resizing pty: {}", e);
+                                }
+                                resize_cmd = None;
                                 args.tty_size_change_ack.send(())
                                     .context("sending size change ack")?;
                             }
-- 
2.43.0


From e514efdacd6122b6fbd8af970dc663a8cec8464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 32/34] fix: refuse session names with a NUL byte

A session's name becomes part of the names of its threads and of a
directory, and a NUL in it made the daemon panic while spawning the
shell->client thread, leaving the shell behind.
---
 libshpool/src/daemon/server.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 0ada3d9..a59a35f 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -249,6 +249,8 @@ impl Server {
             || header.name == "."
             || header.name == ".."
             || header.name.is_empty()
+            // neither a file nor a thread can have such a name
+            || header.name.contains('\0')
         {
             write_reply(
                 &mut stream,
-- 
2.43.0


From 09c9021beb60ccd605a1b057b980c27aa327d9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:50 +0000
Subject: [PATCH 33/34] fix: refuse ttls which are too large instead of
 wrapping around

---
 libshpool/src/duration.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/libshpool/src/duration.rs b/libshpool/src/duration.rs
index 076dfec..ab8bb58 100644
--- a/libshpool/src/duration.rs
+++ b/libshpool/src/duration.rs
@@ -41,17 +41,17 @@ fn parse_colon_duration(src: &str) -> anyhow::Result<time::Duration> {
     if parts.len() == 1 {
         return Ok(time::Duration::from_secs(secs));
     }
-    secs += parts[1].parse::<u64>().context("parsing minutes part")? * 60;
+    secs = add_secs(secs, parts[1].parse().context("parsing minutes part")?, 60)?;
     dbg!(secs);
     if parts.len() == 2 {
         return Ok(time::Duration::from_secs(secs));
     }
-    secs += parts[2].parse::<u64>().context("parsing hours part")? * 60 * 60;
+    secs = add_secs(secs, parts[2].parse().context("parsing hours part")?, 60 * 60)?;
     dbg!(secs);
     if parts.len() == 3 {
         return Ok(time::Duration::from_secs(secs));
     }
-    secs += parts[3].parse::<u64>().context("parsing days part")? * 60 * 60 * 24;
+    secs = add_secs(secs, parts[3].parse().context("parsing days part")?, 60 * 60 * 24)?;
     dbg!(secs);
     if parts.len() != 4 {
         bail!("colon duration cannot have more than 4 parts");
@@ -65,17 +65,25 @@ fn parse_suffix_duration(src: &str) -> anyhow::Result<time::Duration> {
     let num: String = src.chars().take_while(|c| c.is_numeric()).collect();
     let c = src.chars().last().ok_or(anyhow!("internal error: no suffix"))?;
     make_suffix_duration(num.parse::<u64>().context("parsing num part of duration")?, c)
-        .ok_or(anyhow!("unknown time unit '{}'", c))
 }
 
-fn make_suffix_duration(n: u64, c: char) -> Option<time::Duration> {
-    match c {
-        's' => Some(time::Duration::from_secs(n)),
-        'm' => Some(time::Duration::from_secs(n * 60)),
-        'h' => Some(time::Duration::from_secs(n * 60 * 60)),
-        'd' => Some(time::Duration::from_secs(n * 60 * 60 * 24)),
-        _ => None,
-    }
+fn make_suffix_duration(n: u64, c: char) -> anyhow::Result<time::Duration> {
+    let unit = match c {
+        's' => 1,
+        'm' => 60,
+        'h' => 60 * 60,
+        'd' => 60 * 60 * 24,
+        _ => bail!("unknown time unit '{}'", c),
+    };
+    Ok(time::Duration::from_secs(add_secs(0, n, unit)?))
+}
+
+/// Adds n units of the given number of seconds, refusing durations
+/// which are too large to represent.
+fn add_secs(secs: u64, n: u64, unit: u64) -> anyhow::Result<u64> {
+    n.checked_mul(unit)
+        .and_then(|n| secs.checked_add(n))
+        .ok_or_else(|| anyhow!("duration is too large"))
 }
 
 #[cfg(test)]
-- 
2.43.0


From e82d388f0b0665d34734a2c4dbaa22c4eea28cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:18 +0000
Subject: [PATCH 34/34] fix: refuse ttls with anything between the number and
 the unit

Only the leading digits and the last character of a ttl were looked at, so
that for example 1d12h was taken to mean one hour.
---
 libshpool/src/duration.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/duration.rs b/libshpool/src/duration.rs
index ab8bb58..2fd51a4 100644
--- a/libshpool/src/duration.rs
+++ b/libshpool/src/duration.rs
@@ -62,8 +62,9 @@ fn parse_colon_duration(src: &str) -> anyhow::Result<time::Duration> {
 
 /// Parses 20d, 3h, 14m ect
 fn parse_suffix_duration(src: &str) -> anyhow::Result<time::Duration> {
-    let num: String = src.chars().take_while(|c| c.is_numeric()).collect();
     let c = src.chars().last().ok_or(anyhow!("internal error: no suffix"))?;
+    // everything in front of the unit has to be part of the number
+    let num = src.strip_suffix(c).unwrap_or(src);
     make_suffix_duration(num.parse::<u64>().context("parsing num part of duration")?, c)
 }
 
-- 
2.43.0

