From 28c6ff276d8e605d3e4c7b0a4cc4faab4d379dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 01/18] Scheduling points for verification harness (no-op
 unless --cfg pizauth_verif)

---
 src/server/eventer.rs   | 4 ++++
 src/server/mod.rs       | 9 +++++++++
 src/server/notifier.rs  | 2 ++
 src/server/refresher.rs | 2 ++
 src/server/state.rs     | 4 ++++
 5 files changed, 21 insertions(+)

diff --git a/src/server/eventer.rs b/src/server/eventer.rs
index 0be2e67..d2ff9ec 100644
--- a/src/server/eventer.rs
+++ b/src/server/eventer.rs
@@ -52,6 +52,7 @@ impl Eventer {
 
     pub fn eventer(self: Arc<Self>, pstate: Arc<AuthenticatorState>) -> Result<(), Box<dyn Error>> {
         thread::spawn(move || loop {
+            super::sched_point();
             let mut eventer_lk = self.pred.lock().unwrap();
             while !*eventer_lk {
                 eventer_lk = self.condvar.wait(eventer_lk).unwrap();
@@ -60,6 +61,7 @@ impl Eventer {
             drop(eventer_lk);
 
             loop {
+                super::sched_point();
                 let (act_name, event) =
                     if let Some((act_name, event)) = self.event_queue.lock().unwrap().pop_front() {
                         (act_name, event)
@@ -113,7 +115,9 @@ impl Eventer {
     }
 
     pub fn token_event(&self, act_name: String, kind: TokenEvent) {
+        super::sched_point();
         self.event_queue.lock().unwrap().push_back((act_name, kind));
+        super::sched_point();
         let mut event_lk = self.pred.lock().unwrap();
         *event_lk = true;
         self.condvar.notify_one();
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 331bd7b..9366666 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -54,6 +54,15 @@ const STATE_LEN: usize = 8;
 /// even less likely, we choose a prime number.
 const MAX_WAIT_SECS: u64 = 37;
 
+/// A point at which a schedule-controlling test harness may suspend the current thread. This does
+/// nothing unless pizauth is compiled with `--cfg pizauth_verif`.
+#[inline(always)]
+#[allow(unexpected_cfgs)]
+pub(crate) fn sched_point() {
+    #[cfg(pizauth_verif)]
+    std::thread::yield_now();
+}
+
 pub fn sock_path(cache_path: &Path) -> PathBuf {
     let mut p = cache_path.to_owned();
     p.push(PIZAUTH_CACHE_SOCK_LEAF);
diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index f4b54fe..0a56703 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -33,6 +33,7 @@ impl Notifier {
     ) -> Result<(), Box<dyn Error>> {
         thread::spawn(move || loop {
             let next_wakeup = self.next_wakeup(&pstate);
+            super::sched_point();
             let mut notify_lk = self.pred.lock().unwrap();
             while !*notify_lk {
                 match next_wakeup {
@@ -114,6 +115,7 @@ impl Notifier {
     }
 
     pub fn notify_changes(&self) {
+        super::sched_point();
         let mut notify_lk = self.pred.lock().unwrap();
         *notify_lk = true;
         self.condvar.notify_one();
diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 00795ad..f4532ed 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -433,6 +433,7 @@ impl Refresher {
     /// Notify the refresher that one or more [TokenState]s is likely to have changed in a way that
     /// effects the refresher.
     pub fn notify_changes(&self) {
+        super::sched_point();
         let mut refresh_lk = self.pred.lock().unwrap();
         *refresh_lk = true;
         self.condvar.notify_one();
@@ -446,6 +447,7 @@ impl Refresher {
         let refresher = Arc::clone(&self);
         thread::spawn(move || loop {
             let next_wakeup = refresher.next_wakeup(&pstate);
+            super::sched_point();
             let mut refresh_lk = refresher.pred.lock().unwrap();
             while !*refresh_lk {
                 match next_wakeup {
diff --git a/src/server/state.rs b/src/server/state.rs
index f0ebc24..ad70fb1 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -88,6 +88,7 @@ impl AuthenticatorState {
     /// to be done in such a case, as it is likely that pizauth is in an inconsistent, and
     /// irretrievable, state.
     pub fn ct_lock(&self) -> CTGuard {
+        super::sched_point();
         CTGuard::new(self.locked_state.lock().unwrap())
     }
 
@@ -95,6 +96,7 @@ impl AuthenticatorState {
     /// guarantee that by the time this function calls the configuration is still the same as
     /// `new_conf` since another thread(s) may also have called this function.
     pub fn update_conf(&self, new_conf: Config) {
+        super::sched_point();
         {
             let mut lk = self.locked_state.lock().unwrap();
             lk.update_conf(new_conf);
@@ -104,6 +106,7 @@ impl AuthenticatorState {
     }
 
     pub fn dump(&self) -> Result<Vec<u8>, Box<dyn Error>> {
+        super::sched_point();
         let lk = self.locked_state.lock().unwrap();
         let d = lk.dump()?;
         drop(lk);
@@ -136,6 +139,7 @@ impl AuthenticatorState {
             .decrypt(Nonce::from_slice(nonce), encrypted.as_ref())
             .map_err(|_| "Restoring dump failed")?;
 
+        super::sched_point();
         let lk = self.locked_state.lock().unwrap().restore(d);
         drop(lk);
         self.notifier.notify_changes();
-- 
2.43.0


From 93a2b12a097d0a43f54688d05ce8d779e8e90dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 02/18] fix: don't lose an authorisation if a reminder is sent
 during the exchange

Updating `last_notification` changed the AccountId, so an exchange with the
provider that was underway when the notifier sent a reminder was considered
out of date: its (successful or unsuccessful) outcome was silently dropped.
---
 src/server/notifier.rs |  7 +++----
 src/server/state.rs    | 29 +++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index 0a56703..428412a 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -60,9 +60,9 @@ impl Notifier {
             let now = Instant::now();
             let notify_interval = ct_lk.config().auth_notify_interval; // Pulled out to avoid borrow checker problems.
             for act_id in ct_lk.act_ids().collect::<Vec<_>>() {
-                let mut ts = ct_lk.tokenstate(act_id).clone();
+                let ts = ct_lk.tokenstate(act_id).clone();
                 if let TokenState::Pending {
-                    ref mut last_notification,
+                    last_notification,
                     ref url,
                     ..
                 } = ts
@@ -74,13 +74,12 @@ impl Notifier {
                             }
                         }
                     }
-                    *last_notification = Some(now);
                     let url = url.clone();
                     let act = ct_lk.account(act_id);
                     if let Some(ref cmd) = ct_lk.config().auth_notify_cmd {
                         auth_cmds.push((act.name.to_owned(), cmd.clone(), url));
                     }
-                    ct_lk.tokenstate_replace(act_id, ts);
+                    ct_lk.tokenstate_set_last_notification(act_id, now);
                 }
             }
             drop(ct_lk);
diff --git a/src/server/state.rs b/src/server/state.rs
index ad70fb1..9e58977 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -384,6 +384,35 @@ impl<'a> CTGuard<'a> {
         unreachable!();
     }
 
+    /// If `act_id` is `Pending`, set `last_notification` to `new_last_notification`. Note that this
+    /// does not change the [AccountId]: notifying the user (again) of a pending request must not
+    /// invalidate an exchange for that same request which is already underway.
+    ///
+    /// # Panics
+    ///
+    /// If `act_id` is not valid or is not `Pending`.
+    pub fn tokenstate_set_last_notification(
+        &mut self,
+        act_id: AccountId,
+        new_last_notification: Instant,
+    ) {
+        let ts = self
+            .guard
+            .details
+            .iter_mut()
+            .find(|x| x.1 == act_id)
+            .unwrap();
+        if let TokenState::Pending {
+            ref mut last_notification,
+            ..
+        } = ts.2
+        {
+            *last_notification = Some(new_last_notification);
+            return;
+        }
+        unreachable!();
+    }
+
     /// Update the tokenstate for `act_id` to `new_tokenstate` returning a new [AccountId]
     /// valid for the new tokenstate, updating the tokenstate version.
     ///
-- 
2.43.0


From 44055972094e7b46278d89b01de08e0faa52e804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 03/18] fix: report an error if a dump cannot be restored

The result of LockedState::restore was dropped, so `pizauth restore` succeeded
for dumps of an unknown version or with undecodable contents.
---
 src/server/state.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/state.rs b/src/server/state.rs
index 9e58977..a82435c 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -140,8 +140,7 @@ impl AuthenticatorState {
             .map_err(|_| "Restoring dump failed")?;
 
         super::sched_point();
-        let lk = self.locked_state.lock().unwrap().restore(d);
-        drop(lk);
+        self.locked_state.lock().unwrap().restore(d)?;
         self.notifier.notify_changes();
         self.refresher.notify_changes();
         Ok(())
-- 
2.43.0


From a501e8bebe44c3e2ea3cfa2c1debddbc31207c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 04/18] fix: pass login_hint to the authorisation URI

The (deprecated) login_hint option was accepted but otherwise ignored.
---
 src/config.rs               | 18 +++++++++++++++---
 src/server/request_token.rs |  3 ++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index ac01eb8..e81cb15 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -348,6 +348,7 @@ pub struct Account {
     pub auth_uri_fields: Vec<(String, String)>,
     pub client_id: String,
     pub client_secret: Option<String>,
+    login_hint: Option<String>,
     redirect_uri: String,
     refresh_at_least: Option<Duration>,
     refresh_before_expiry: Option<Duration>,
@@ -488,6 +489,7 @@ impl Account {
             auth_uri_fields: auth_uri_fields.unwrap_or_default(),
             client_id,
             client_secret,
+            login_hint,
             redirect_uri: redirect_uri.unwrap_or_else(|| "http://localhost/".to_owned()),
             refresh_at_least,
             refresh_before_expiry,
@@ -510,7 +512,7 @@ impl Account {
         // sorry: if in doubt, it is better to have more, rather than fewer, fields compared here.
         self.name == other.name
             && self.auth_uri == other.auth_uri
-            && self.auth_uri_fields == other.auth_uri_fields
+            && self.all_auth_uri_fields() == other.all_auth_uri_fields()
             && self.client_id == other.client_id
             && self.client_secret == other.client_secret
             && self.redirect_uri == other.redirect_uri
@@ -521,7 +523,7 @@ impl Account {
     pub fn dump(&self) -> AccountDump {
         AccountDump {
             auth_uri: self.auth_uri.clone(),
-            auth_uri_fields: self.auth_uri_fields.clone(),
+            auth_uri_fields: self.all_auth_uri_fields(),
             client_id: self.client_id.clone(),
             client_secret: self.client_secret.clone(),
             redirect_uri: self.redirect_uri.clone(),
@@ -536,7 +538,7 @@ impl Account {
     /// `Account`'s tokenstate from a dump.
     pub fn secure_restorable(&self, act_dump: &AccountDump) -> bool {
         self.auth_uri == act_dump.auth_uri
-            && self.auth_uri_fields == act_dump.auth_uri_fields
+            && self.all_auth_uri_fields() == act_dump.auth_uri_fields
             && self.client_id == act_dump.client_id
             && self.client_secret == act_dump.client_secret
             && self.redirect_uri == act_dump.redirect_uri
@@ -544,6 +546,16 @@ impl Account {
             && self.token_uri == act_dump.token_uri
     }
 
+    /// Return all the fields that need to be added to the authorisation URI: the deprecated
+    /// `login_hint` attribute is equivalent to a field of the same name in `auth_uri_fields`.
+    pub fn all_auth_uri_fields(&self) -> Vec<(String, String)> {
+        let mut fields = self.auth_uri_fields.clone();
+        if let Some(x) = &self.login_hint {
+            fields.push(("login_hint".to_owned(), x.clone()));
+        }
+        fields
+    }
+
     pub fn redirect_uri(
         &self,
         http_port: Option<u16>,
diff --git a/src/server/request_token.rs b/src/server/request_token.rs
index 7d524af..ac22c75 100644
--- a/src/server/request_token.rs
+++ b/src/server/request_token.rs
@@ -47,7 +47,8 @@ pub fn request_token(
     if !act.scopes.is_empty() {
         params.push(("scope", scopes_join.as_str()));
     }
-    for (k, v) in &act.auth_uri_fields {
+    let auth_uri_fields = act.all_auth_uri_fields();
+    for (k, v) in &auth_uri_fields {
         params.push((k.as_str(), v.as_str()));
     }
     let url = Url::parse_with_params(ct_lk.account(act_id).auth_uri.as_str(), &params)?;
-- 
2.43.0


From cb1a0438437154021d650d7293a6a2270b718cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 05/18] fix: no token_invalidated event if
 transient_error_if_cmd outlives the token

If the account was e.g. revoked or reauthorised while transient_error_if_cmd
was running, no token is invalidated when the command fails.
---
 src/server/refresher.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index f4532ed..fb6163d 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -125,13 +125,15 @@ impl Refresher {
                                                                 act_id,
                                                                 TokenState::Empty,
                                                             );
+                                                            drop(ct_lk);
+                                                            info!("Permanent refresh error for {act_name} : {e}");
+                                                            pstate.eventer.token_event(
+                                                                act_name,
+                                                                TokenEvent::Invalidated,
+                                                            );
+                                                        } else {
+                                                            drop(ct_lk);
                                                         }
-                                                        drop(ct_lk);
-                                                        info!("Permanent refresh error for {act_name} : {e}");
-                                                        pstate.eventer.token_event(
-                                                            act_name,
-                                                            TokenEvent::Invalidated,
-                                                        );
                                                     }
                                                 };
                                             } else {
-- 
2.43.0


From 5b8ec2c7a4ae8cd4fbe83c66054bbb0be38bf428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 06/18] fix: send token_invalidated when an access token
 without refresh token is dropped

---
 src/server/refresher.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index fb6163d..858a198 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -71,7 +71,12 @@ impl Refresher {
                         let act_name = ct_lk.account(act_id).name.clone();
                         match refresher.inner_refresh(&pstate, ct_lk, act_id) {
                             RefreshKind::AccountOrTokenStateChanged => (),
-                            RefreshKind::NoRefreshToken => (),
+                            RefreshKind::NoRefreshToken => {
+                                info!("No refresh token for {act_name}");
+                                pstate
+                                    .eventer
+                                    .token_event(act_name, TokenEvent::Invalidated);
+                            }
                             RefreshKind::PermanentError(msg) => {
                                 info!("Permanent refresh error for {act_name}: {msg}");
                                 pstate
-- 
2.43.0


From 89604f148c0002fa64a4ee3edeb6c2f6b9197e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 07/18] fix: don't panic if scopes or auth_uri_fields are
 repeated and empty

Both options can legitimately be empty, so in debug builds repeating one of
them panicked rather than reporting an error.
---
 src/config.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index e81cb15..b68a5eb 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -383,7 +383,6 @@ impl Account {
                 }
                 config_ast::AccountField::AuthUriFields(span, spans) => {
                     if auth_uri_fields.is_some() {
-                        debug_assert!(!spans.is_empty());
                         return Err(error_at_span(
                             lexer,
                             span,
@@ -451,7 +450,6 @@ impl Account {
                 }
                 config_ast::AccountField::Scopes(span, spans) => {
                     if scopes.is_some() {
-                        debug_assert!(!spans.is_empty());
                         return Err(error_at_span(
                             lexer,
                             span,
-- 
2.43.0


From 4520f6cd72296df85d40caf83dae0bd33d1cafae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 08/18] fix: report an authorisation whose expiry can't be
 represented as failed

The account was left pending, even though its code had been used up.
---
 src/server/http_server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index c232e0e..1296fc1 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -219,7 +219,14 @@ fn request<T: Read + Write>(
     ) {
         (Some("Bearer"), Some(expires_in), Some(access_token), refresh_token) => {
             let now = Instant::now();
-            let expiry = expiry_instant(&ct_lk, act_id, now, expires_in)?;
+            let expiry = match expiry_instant(&ct_lk, act_id, now, expires_in) {
+                Ok(x) => x,
+                Err(e) => {
+                    drop(ct_lk);
+                    fail(pstate, act_id, &e.to_string())?;
+                    return Ok(());
+                }
+            };
             let act_name = ct_lk.account(act_id).name.to_owned();
             ct_lk.tokenstate_replace(
                 act_id,
-- 
2.43.0


From 859e78eb88dd99f9beb6ad95773e6a5ec7ef3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 09/18] fix: don't panic in 'pizauth status' if an expiry is
 too far in the future

A provider can send any expires_in: if the resulting date was beyond the year
9999 then status panicked, terminating the server.
---
 src/server/mod.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index 9366666..58940a2 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -12,11 +12,11 @@ use std::{
     os::unix::net::{UnixListener, UnixStream},
     path::{Path, PathBuf},
     sync::Arc,
-    time::{Duration, SystemTime},
+    time::{Duration, SystemTime, UNIX_EPOCH},
 };
 
 use boot_time::Instant;
-use chrono::{DateTime, Local};
+use chrono::{DateTime, Datelike, Local};
 use log::warn;
 use nix::sys::signal::{raise, Signal};
 #[cfg(target_os = "openbsd")]
@@ -313,18 +313,29 @@ fn request(pstate: Arc<AuthenticatorState>, mut stream: UnixStream) -> Result<()
 /// Attempt to print an [Instant] as a user-readable string. By the very nature of [Instant]s,
 /// there is no guarantee this is possible or that the time presented is accurate.
 fn instant_fmt(i: Instant) -> String {
+    fn fmt(st: SystemTime) -> Option<String> {
+        // Neither converting a [SystemTime] to a [DateTime] nor `to_rfc2822` are fallible: they
+        // panic if they are asked to represent times too far into the future.
+        let d = st.duration_since(UNIX_EPOCH).ok()?;
+        let secs = i64::try_from(d.as_secs()).ok()?;
+        let dt = DateTime::from_timestamp(secs, d.subsec_nanos())?.with_timezone(&Local);
+        if (0..=9999).contains(&dt.year()) {
+            Some(dt.to_rfc2822())
+        } else {
+            None
+        }
+    }
+
     let now = Instant::now();
     if i < now {
         if let Some(d) = now.checked_duration_since(i) {
-            if let Some(st) = SystemTime::now().checked_sub(d) {
-                let dt: DateTime<Local> = st.into();
-                return dt.to_rfc2822();
+            if let Some(s) = SystemTime::now().checked_sub(d).and_then(fmt) {
+                return s;
             }
         }
     } else if let Some(d) = i.checked_duration_since(now) {
-        if let Some(st) = SystemTime::now().checked_add(d) {
-            let dt: DateTime<Local> = st.into();
-            return dt.to_rfc2822();
+        if let Some(s) = SystemTime::now().checked_add(d).and_then(fmt) {
+            return s;
         }
     }
     "<unknown time>".into()
-- 
2.43.0


From 0e638556510b45f97d4dd406e1eede643302643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 10/18] fix: bound the size of a single line in an HTTP request

MAX_HTTP_REQUEST_SIZE was only checked between lines, so a client that never
sends a newline could make the server read, and store, unbounded data.
---
 src/server/http_server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index 1296fc1..93d6718 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -287,7 +287,10 @@ fn fail(
 /// A very literal, and rather unforgiving, implementation of RFC2616 (HTTP/1.1), returning the URL
 /// of GET requests: returns `Err` for anything else.
 fn parse_get<T: Read + Write>(stream: &mut T, is_https: bool) -> Result<Url, Box<dyn Error>> {
-    let mut rdr = BufReader::new(stream);
+    // Since lines can be of unbounded length, we need to limit what we read as well as checking how
+    // much we've read: a request that is truncated by this limit is at least
+    // `MAX_HTTP_REQUEST_SIZE` bytes long.
+    let mut rdr = BufReader::new(stream.take(MAX_HTTP_REQUEST_SIZE as u64));
     let mut req_line = String::new();
     rdr.read_line(&mut req_line)?;
     let mut http_req_size = req_line.len();
-- 
2.43.0


From aca9b10f26e381f6e698955e83646d43085e1ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 11/18] fix: report an error if a dump can't be written

---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 5cae972..e180f0f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -159,7 +159,11 @@ fn main() {
                 .unwrap();
             match user_sender::dump(&cache_path) {
                 Ok(d) => {
-                    stdout().write_all(&d).ok();
+                    let mut out = stdout();
+                    if let Err(e) = out.write_all(&d).and_then(|()| out.flush()) {
+                        error!("Couldn't write dump: {e:}");
+                        process::exit(1);
+                    }
                 }
                 Err(e) => {
                     error!("{e:}");
-- 
2.43.0


From 893f458c0c8513b11ada76c24a692940c542a458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 12/18] fix: 'pizauth dump' fails if the server goes away
 without answering

---
 src/user_sender.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/user_sender.rs b/src/user_sender.rs
index 22d0ab7..d5e4511 100644
--- a/src/user_sender.rs
+++ b/src/user_sender.rs
@@ -19,6 +19,9 @@ pub fn dump(cache_path: &Path) -> Result<Vec<u8>, Box<dyn Error>> {
 
     let mut buf = Vec::new();
     stream.read_to_end(&mut buf)?;
+    if buf.is_empty() {
+        return Err("No dump received".into());
+    }
     Ok(buf)
 }
 
-- 
2.43.0


From 1026665e12e8827623422597e5f7bef7e43df9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 13/18] fix: do not retry at once if refresh_retry is too large
 to represent

---
 src/server/refresher.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 858a198..9e74e94 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -401,9 +401,8 @@ impl Refresher {
                     //      expiry).
                     // If the second case occurs, we assume that the user knows that the token
                     // really needs refreshing, and we treat the token as if it had expired.
-                    if let Some(t) = lra.checked_add(act.refresh_retry(ct_lk.config())) {
-                        return Some(t.to_owned());
-                    }
+                    // If the retry interval is too big to be represented, it never elapses.
+                    return lra.checked_add(act.refresh_retry(ct_lk.config()));
                 }
 
                 let mut expiry = access_token_expiry
-- 
2.43.0


From aa68371c44037dd0b5649f2baa7ace90716df6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 14/18] fix: a too large refresh_before_expiry made the
 refresher spin without refreshing

---
 src/server/refresher.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 9e74e94..4246f08 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -405,9 +405,11 @@ impl Refresher {
                     return lra.checked_add(act.refresh_retry(ct_lk.config()));
                 }
 
+                // If `expiry - d` precedes the earliest representable Instant, the token has been due
+                // for refreshing ever since we obtained it.
                 let mut expiry = access_token_expiry
                     .checked_sub(act.refresh_before_expiry(ct_lk.config()))
-                    .unwrap_or_else(|| cmp::min(Instant::now(), *access_token_expiry));
+                    .unwrap_or_else(|| cmp::min(*access_token_obtained, *access_token_expiry));
 
                 // There is no concept of Instant::MAX, so if `access_token_obtained + d` exceeds
                 // Instant's bounds, there's nothing we can fall back on.
-- 
2.43.0


From 3dbd1d3b8a37fe4be4797c064d23ef5c8f592f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 15/18] fix: do not repeat notifications if
 auth_notify_interval is too large to represent

---
 src/server/notifier.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index 428412a..5b707bd 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -68,10 +68,11 @@ impl Notifier {
                 } = ts
                 {
                     if let Some(t) = last_notification {
-                        if let Some(t) = t.checked_add(notify_interval) {
-                            if t > now {
-                                continue;
-                            }
+                        match t.checked_add(notify_interval) {
+                            Some(t) if t <= now => (),
+                            // Either it isn't yet time for the next notification, or the interval
+                            // is too big to be represented i.e. it never elapses.
+                            _ => continue,
                         }
                     }
                     let url = url.clone();
-- 
2.43.0


From bbbe04717b3fdff5b131582b95606e9b2a781c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 16/18] fix: keep touching the control socket when in the
 background

The thread that sets the socket's times every 6 hours was started before
the server daemonises, and threads other than the caller's do not survive
the fork in daemon(3).
---
 src/main.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e180f0f..1266579 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -306,22 +306,6 @@ fn main() {
                 fs::remove_file(&sock_path).ok();
             }
 
-            // The XDG spec says of `$XDG_RUNTIME_DIR` (where our socket file will live):
-            //   Files in this directory MAY be subjected to periodic clean-up. To ensure that your files
-            //   are not removed, they should have their access time timestamp modified at least once every
-            //   6 hours of monotonic time
-            let sock_path_cl = sock_path.clone();
-            thread::spawn(move || loop {
-                thread::sleep(Duration::from_secs(6 * 60 * 60));
-                let _ = utimensat(
-                    None,
-                    &sock_path_cl,
-                    &TimeSpec::UTIME_NOW,
-                    &TimeSpec::UTIME_NOW,
-                    UtimensatFlags::NoFollowSymlink,
-                );
-            });
-
             let conf_path = conf_path(&matches);
             let conf = Config::from_path(&conf_path).unwrap_or_else(|m| fatal(&m));
 
@@ -351,6 +335,23 @@ fn main() {
                     .init()
                     .unwrap();
             }
+
+            // The XDG spec says of `$XDG_RUNTIME_DIR` (where our socket file will live):
+            //   Files in this directory MAY be subjected to periodic clean-up. To ensure that your files
+            //   are not removed, they should have their access time timestamp modified at least once every
+            //   6 hours of monotonic time
+            let sock_path_cl = sock_path.clone();
+            thread::spawn(move || loop {
+                thread::sleep(Duration::from_secs(6 * 60 * 60));
+                let _ = utimensat(
+                    None,
+                    &sock_path_cl,
+                    &TimeSpec::UTIME_NOW,
+                    &TimeSpec::UTIME_NOW,
+                    UtimensatFlags::NoFollowSymlink,
+                );
+            });
+
             if let Err(e) = server::server(conf_path, conf, cache_path.as_path()) {
                 error!("{e:}");
                 process::exit(1);
-- 
2.43.0


From cd5877b095985613c2864307a64142803bc7ddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:51 +0000
Subject: [PATCH 17/18] Every locking of a mutex is a scheduling point (no-op
 unless --cfg pizauth_verif)

---
 src/server/eventer.rs   |  4 +--
 src/server/mod.rs       | 55 ++++++++++++++++++++++++++++++++++++++++-
 src/server/notifier.rs  |  4 +--
 src/server/refresher.rs |  4 +--
 src/server/state.rs     |  4 +--
 5 files changed, 62 insertions(+), 9 deletions(-)

diff --git a/src/server/eventer.rs b/src/server/eventer.rs
index d2ff9ec..f4bc677 100644
--- a/src/server/eventer.rs
+++ b/src/server/eventer.rs
@@ -4,7 +4,7 @@ use std::{
     error::Error,
     fmt::{self, Display, Formatter},
     process::Command,
-    sync::{Arc, Condvar, Mutex},
+    sync::{Arc, Condvar},
     thread,
     time::Duration,
 };
@@ -12,7 +12,7 @@ use std::{
 use log::error;
 use wait_timeout::ChildExt;
 
-use super::AuthenticatorState;
+use super::{AuthenticatorState, Mutex};
 
 /// How long to run `not_transient_error_if` commands before killing them?
 const NEW_ACCESS_TOKEN_CMD_TIMEOUT: Duration = Duration::from_secs(30);
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 58940a2..606615f 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -60,7 +60,60 @@ const MAX_WAIT_SECS: u64 = 37;
 #[allow(unexpected_cfgs)]
 pub(crate) fn sched_point() {
     #[cfg(pizauth_verif)]
-    std::thread::yield_now();
+    verif::sched_point();
+}
+
+use verif::Mutex;
+
+/// [std::sync::Mutex], except that with `--cfg pizauth_verif` every locking of it is a scheduling
+/// point (see [sched_point]).
+#[allow(unexpected_cfgs)]
+mod verif {
+    #[cfg(not(pizauth_verif))]
+    pub(crate) use std::sync::Mutex;
+
+    #[cfg(pizauth_verif)]
+    pub(crate) use inner::*;
+
+    #[cfg(pizauth_verif)]
+    mod inner {
+        use std::{cell::Cell, ops::Deref, sync};
+
+        thread_local! {
+            /// Has this thread been at a scheduling point since it last locked a mutex?
+            static AT_POINT: Cell<bool> = const { Cell::new(false) };
+        }
+
+        pub(crate) fn sched_point() {
+            AT_POINT.set(true);
+            std::thread::yield_now();
+        }
+
+        #[derive(Debug, Default)]
+        pub(crate) struct Mutex<T>(sync::Mutex<T>);
+
+        impl<T> Mutex<T> {
+            pub(crate) const fn new(v: T) -> Self {
+                Mutex(sync::Mutex::new(v))
+            }
+
+            pub(crate) fn lock(&self) -> sync::LockResult<sync::MutexGuard<'_, T>> {
+                if !AT_POINT.get() {
+                    sched_point();
+                }
+                AT_POINT.set(false);
+                self.0.lock()
+            }
+        }
+
+        impl<T> Deref for Mutex<T> {
+            type Target = sync::Mutex<T>;
+
+            fn deref(&self) -> &sync::Mutex<T> {
+                &self.0
+            }
+        }
+    }
 }
 
 pub fn sock_path(cache_path: &Path) -> PathBuf {
diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index 5b707bd..5d7db35 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -2,7 +2,7 @@ use std::{
     cmp, env,
     error::Error,
     process::Command,
-    sync::{Arc, Condvar, Mutex},
+    sync::{Arc, Condvar},
     thread,
     time::Duration,
 };
@@ -12,7 +12,7 @@ use boot_time::Instant;
 use log::debug;
 use log::error;
 
-use super::{AccountId, AuthenticatorState, CTGuard, TokenState, MAX_WAIT_SECS};
+use super::{AccountId, AuthenticatorState, CTGuard, Mutex, TokenState, MAX_WAIT_SECS};
 
 pub struct Notifier {
     pred: Mutex<bool>,
diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 4246f08..7884a27 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -4,7 +4,7 @@ use std::{
     env,
     error::Error,
     process::{Command, Stdio},
-    sync::{Arc, Condvar, Mutex},
+    sync::{Arc, Condvar},
     thread,
     time::Duration,
 };
@@ -17,7 +17,7 @@ use serde_json::Value;
 use wait_timeout::ChildExt;
 
 use super::{
-    eventer::TokenEvent, expiry_instant, AccountId, AuthenticatorState, CTGuard, TokenState,
+    eventer::TokenEvent, expiry_instant, AccountId, AuthenticatorState, CTGuard, Mutex, TokenState,
     MAX_WAIT_SECS, UREQ_TIMEOUT,
 };
 
diff --git a/src/server/state.rs b/src/server/state.rs
index a82435c..40b232f 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -15,7 +15,7 @@ use std::{
     collections::HashMap,
     error::Error,
     path::PathBuf,
-    sync::{Arc, Mutex, MutexGuard},
+    sync::{Arc, MutexGuard},
     time::SystemTime,
 };
 
@@ -28,7 +28,7 @@ use rand::{rng, Rng};
 use serde::{Deserialize, Serialize};
 use url::Url;
 
-use super::{eventer::Eventer, notifier::Notifier, refresher::Refresher};
+use super::{eventer::Eventer, notifier::Notifier, refresher::Refresher, Mutex};
 use crate::config::{Account, AccountDump, Config};
 
 /// We lightly encrypt the dump output to make it at least resistant to simple string-based
-- 
2.43.0


From 2b549f85cf912f98f6dfaa99c966d06acdfdd6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:40 +0000
Subject: [PATCH 18/18] fix: run error_notify_cmd even if the reason contains a
 NUL or is very long

---
 src/server/notifier.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index 5d7db35..39dfe8c 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -14,6 +14,9 @@ use log::error;
 
 use super::{AccountId, AuthenticatorState, CTGuard, Mutex, TokenState, MAX_WAIT_SECS};
 
+/// The maximum length in bytes of a message passed to `error_notify_cmd`.
+const MAX_ENV_MSG_LEN: usize = 64 * 1024;
+
 pub struct Notifier {
     pred: Mutex<bool>,
     condvar: Condvar,
@@ -143,6 +146,7 @@ impl Notifier {
     ) -> Result<(), Box<dyn std::error::Error>> {
         match pstate.ct_lock().config().error_notify_cmd.clone() {
             Some(cmd) => {
+                let msg = env_msg(&msg);
                 thread::spawn(move || match env::var("SHELL") {
                     Ok(s) => {
                         match Command::new(s)
@@ -172,6 +176,18 @@ impl Notifier {
     }
 }
 
+/// Return `msg` in a form that can be passed in an environment variable: those can't contain NUL
+/// characters or be arbitrarily long.
+fn env_msg(msg: &str) -> String {
+    let mut msg = msg.replace('\0', "\u{FFFD}");
+    let mut len = cmp::min(msg.len(), MAX_ENV_MSG_LEN);
+    while !msg.is_char_boundary(len) {
+        len -= 1;
+    }
+    msg.truncate(len);
+    msg
+}
+
 /// If `act_id` has a pending token, return the next time when that user should be notified that
 /// it is pending.
 fn notify_at(_pstate: &AuthenticatorState, ct_lk: &CTGuard, act_id: AccountId) -> Option<Instant> {
-- 
2.43.0

