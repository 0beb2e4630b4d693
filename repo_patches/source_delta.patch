From 1192fc5cb2e70796e07b42acd94af8064c8edc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 01/28] fix: a panicking action no longer kills its pool worker

---
 wruster/src/thread_pool/dynamic_pool.rs | 12 ++++++++++--
 wruster/src/thread_pool/static_pool.rs  |  8 ++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/wruster/src/thread_pool/dynamic_pool.rs b/wruster/src/thread_pool/dynamic_pool.rs
index 76b7437..a34abea 100644
--- a/wruster/src/thread_pool/dynamic_pool.rs
+++ b/wruster/src/thread_pool/dynamic_pool.rs
@@ -1,4 +1,5 @@
 use std::collections::VecDeque;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::mpsc::{sync_channel, RecvTimeoutError, SyncSender, TrySendError};
 use std::sync::{Arc, RwLock};
@@ -31,12 +32,19 @@ impl DynamicWorker {
             // When the worker is created it will execute, at least, one action
             // so we don't want to timeout waiting for it.
             t_initialized.store(true, Ordering::SeqCst);
-            first_action();
+            // A panic in an action must not stop the worker before it gives
+            // its cell back.
+            let run = |action: Action| {
+                if catch_unwind(AssertUnwindSafe(action)).is_err() {
+                    error!("worker: {}, the action panicked", id);
+                }
+            };
+            run(first_action);
             loop {
                 let res = receiver.recv_timeout(timeout);
                 match res {
                     Ok(action) => {
-                        action();
+                        run(action);
                         debug!("action executed");
                         continue;
                     }
diff --git a/wruster/src/thread_pool/static_pool.rs b/wruster/src/thread_pool/static_pool.rs
index a419048..6ab14d6 100644
--- a/wruster/src/thread_pool/static_pool.rs
+++ b/wruster/src/thread_pool/static_pool.rs
@@ -1,3 +1,4 @@
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::mpsc::{sync_channel, SyncSender, TrySendError};
 use std::sync::Arc;
@@ -20,7 +21,10 @@ impl Worker {
             t_initialized.store(true, Ordering::SeqCst);
             let res = receiver.recv();
             if let Ok(action) = res {
-                action();
+                // A panic in an action must not stop the worker.
+                if catch_unwind(AssertUnwindSafe(action)).is_err() {
+                    error!("worker: {}, the action panicked", id.to_string());
+                }
                 debug!("action executed");
                 continue;
             }
@@ -44,7 +48,7 @@ impl Worker {
             Ok(()) => Ok(()),
             Err(err) => match err {
                 TrySendError::Full(action) => Err(action),
-                TrySendError::Disconnected(_) => unreachable!(),
+                TrySendError::Disconnected(action) => Err(action),
             },
         }
     }
-- 
2.43.0


From e453886333a98810fa89a590f43b98404ca599cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 02/28] fix: a header line without a colon is an error, not an
 out of bounds access

---
 wruster/src/http/headers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 51e3f52..1ac67c0 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -277,7 +277,7 @@ impl Header {
             return Err(InvalidRequest("invalid header name line".to_string()));
         };
         // After the token we MUST receive a colon.
-        if line[i] != b':' {
+        if i >= line.len() || line[i] != b':' {
             error!(
                 "invalid header line: {}, missing semicolon",
                 String::from_utf8_lossy(line)
-- 
2.43.0


From 2b3e6909e685c9da3324d218fe961a0fd5bd82f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 03/28] fix: reading headers stops when the stream ends

---
 wruster/src/http/headers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 1ac67c0..9eba219 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -228,8 +228,13 @@ impl Header {
         let mut line = Vec::<u8>::new();
         loop {
             let mut header_chunk = Vec::<u8>::new();
-            from.read_until(b'\n', &mut header_chunk)
+            let read = from
+                .read_until(b'\n', &mut header_chunk)
                 .map_err(HttpError::from)?;
+            if read == 0 {
+                // The peer closed the connection before sending the whole header.
+                return Err(HttpError::ConnectionClosed);
+            }
             line.append(&mut header_chunk);
             debug!("header chunk read: {}", String::from_utf8_lossy(&line));
             let len = line.len();
-- 
2.43.0


From f5f8f0f00cbef6b4951e65470db523e94fcbc769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 04/28] fix: normalized header names do not depend on the case
 sent by the peer

---
 wruster/src/http/headers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 9eba219..2807cda 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -398,7 +398,7 @@ fn normalize_header_name(name: String) -> String {
         if c == char::from(b' ') || c == char::from(b'-') {
             next_alfanum_upper = true;
         }
-        normalized.push(c);
+        normalized.push(c.to_ascii_lowercase());
     }
     normalized
 }
-- 
2.43.0


From f86bdf8e80effab249282a4f1201c844bda55164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 05/28] fix: the optional white space after a header value is
 not part of it

---
 wruster/src/http/headers.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 2807cda..24976c0 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -320,6 +320,8 @@ impl Header {
             }
             field_value.push(c);
         }
+        // Remove the final optional white space if any.
+        let field_value = field_value.trim_end_matches([' ', '\t']).to_string();
         name = normalize_header_name(name);
         let header = Header {
             name,
-- 
2.43.0


From 8784eae74a175dc15983b393897c96a3e677527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 06/28] fix: start lines are always written entirely

---
 wruster/src/http/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index a08d922..de02306 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -291,7 +291,7 @@ impl HttpRequestLine {
         // Request-Line   = Method SP Request-URI SP HTTP-Version CRLF
         // https://www.w3.org/Protocols/rfc2616/rfc2616-sec5.html
         let line = format!("{:#} {} {}\r\n", self.method, self.uri, self.version);
-        to.write(line.as_bytes()).map_err(HttpError::from)?;
+        to.write_all(line.as_bytes()).map_err(HttpError::from)?;
         Ok(())
     }
 }
@@ -826,7 +826,7 @@ impl HttpResponseLine {
         // https://datatracker.ietf.org/doc/html/rfc7230#section-3.1.2
         // let payload = format!("HTTP/1.1 {:#}\r\n", self.status);
         let payload = format!("{} {}\r\n", self.http_version, self.status_code);
-        if let Err(err) = to.write(payload.as_bytes()) {
+        if let Err(err) = to.write_all(payload.as_bytes()) {
             return Err(HttpError::Unknown(err.to_string()));
         };
         Ok(())
-- 
2.43.0


From 06235fabead46fd4e1fecdfcb1d9121ca8389513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 07/28] fix: errors flushing a large body are reported

---
 wruster/src/http/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index de02306..fd7a05a 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -378,7 +378,7 @@ impl Body {
             x if x > u64::pow(2, 20) * 2 => {
                 let buff_size = usize::pow(2, 20);
                 let mut dest = BufWriter::with_capacity(buff_size, to);
-                io::copy(src, &mut dest)
+                io::copy(src, &mut dest).and_then(|copied| dest.flush().map(|_| copied))
             }
             _ => io::copy(src, to),
         };
-- 
2.43.0


From b50214df20c0d48e50cafe96a386b8070872f286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 08/28] fix: a body writes exactly the number of bytes it
 announces

---
 wruster/src/http/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index fd7a05a..83e638a 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -368,7 +368,8 @@ impl Body {
     to the ``to`` paramerer.
     */
     pub fn write<T: io::Write>(&mut self, to: &mut T) -> HttpResult<()> {
-        let src = &mut self.content;
+        // Never write more bytes than the announced length.
+        let src = &mut self.content.by_ref().take(self.content_length);
 
         // When the content to write is large (>2MB's) the io::copy function
         // uses buffers that are too short, to avoid that we use this technique:
@@ -384,6 +385,9 @@ impl Body {
         };
         match res {
             Err(err) => Err(HttpError::Unknown(err.to_string())),
+            Ok(copied) if copied < self.content_length => Err(HttpError::Unknown(
+                "the content of the body is shorter than its length".to_string(),
+            )),
             Ok(_) => Ok(()),
         }
     }
-- 
2.43.0


From 0b1856cd84535d33f628e143bf0ffe458d6024d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 09/28] fix: ensure_read does not underflow for a body read
 past its length

---
 wruster/src/http/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 83e638a..1cc74df 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -479,7 +479,7 @@ impl Body {
     Ensures the content length specified in the body is read from the underlying reader.
     */
     pub fn ensure_read(&mut self) -> Result<(), HttpError> {
-        if self.bytes_read == self.content_length {
+        if self.bytes_read >= self.content_length {
             return Ok(());
         }
         let n = self.content_length - self.bytes_read;
-- 
2.43.0


From fb45c8ea35c4fcea7b63909b3b2325eb444df2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 10/28] fix: a response always carries exactly one generated
 Content-Length

---
 wruster/src/http/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 1cc74df..332baa4 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -622,10 +622,11 @@ impl Response {
             reason_phrase: self.status.clone().into(),
         };
         start_line.write(to)?;
-        if self.body.is_none() {
+        if self.headers.get("Content-Length").is_none() {
+            let length = self.body.as_ref().map_or(0, |body| body.content_length);
             self.headers.add(Header {
                 name: String::from("Content-Length"),
-                value: String::from("0"),
+                value: length.to_string(),
             })
         }
         self.headers.write(to)?;
-- 
2.43.0


From 64398dd0df3409b1c4bc5ffbd3c6af92fbfafd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 11/28] fix: a failing TLS set up only affects its own
 connection

---
 wruster/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index a14071f..b3405eb 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -267,7 +267,7 @@ impl Server {
         cert: Certificate,
     ) -> ServerResult {
         self.start(addr, routes, move |stream: TcpStream| {
-            let stream = tls::Stream::new(stream, key.clone(), cert.clone()).unwrap();
+            let stream = tls::Stream::new(stream, key.clone(), cert.clone())?;
             CancellableStream::new(stream)
         })
     }
-- 
2.43.0


From b369de416dbd2f7f23df80720d1614ddec24a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 12/28] fix: an error accepting one connection does not stop
 the server

---
 wruster/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index b3405eb..c4606a8 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -359,11 +359,16 @@ impl Server {
                 if evt.key != 1 {
                     continue;
                 }
+                // Rearm the listener before accepting, so no failure in a
+                // single connection prevents to accept the next ones.
+                epoller.modify(&listener, Event::readable(1))?;
                 let (stream, src_addr) = match listener.accept() {
-                    Err(err) => return Err(Box::new(err)),
+                    Err(err) => {
+                        error!("error accepting connection: {}", err.to_string());
+                        continue;
+                    }
                     Ok(connection) => connection,
                 };
-                epoller.modify(&listener, Event::readable(1)).unwrap();
                 info!("accepting connection from {}", src_addr);
                 let cconfig = Arc::clone(&routes);
                 let action_timeouts = timeouts.clone();
-- 
2.43.0


From 6c308efdaaab1ad64aa208b5ea4b3e352c3d7e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 13/28] fix: timeouts account for fractions of a second

---
 wruster/src/streams/timeout_stream.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/wruster/src/streams/timeout_stream.rs b/wruster/src/streams/timeout_stream.rs
index 115b2b0..ea44152 100644
--- a/wruster/src/streams/timeout_stream.rs
+++ b/wruster/src/streams/timeout_stream.rs
@@ -113,7 +113,7 @@ where
             Some(operation) => operation,
         };
         let next_timeout = read.next_timeout();
-        if next_timeout.as_secs() == 0 {
+        if next_timeout.is_zero() {
             return Err(io::Error::from(io::ErrorKind::TimedOut));
         }
         let stream = &self.stream;
@@ -157,7 +157,7 @@ where
             Some(operation) => operation,
         };
         let next_timeout = write.next_timeout();
-        if next_timeout.as_secs() == 0 {
+        if next_timeout.is_zero() {
             return Err(io::Error::from(io::ErrorKind::TimedOut));
         }
         if let Err(err) = stream.set_write_timeout(Some(next_timeout)) {
@@ -185,7 +185,7 @@ where
 struct Operation {
     timeout: Duration,
     started: Option<Instant>,
-    elapsed_secs: u64,
+    elapsed: Duration,
 }
 
 impl Operation {
@@ -193,17 +193,12 @@ impl Operation {
         Operation {
             timeout,
             started: None,
-            elapsed_secs: 0,
+            elapsed: Duration::ZERO,
         }
     }
 
     fn next_timeout(&mut self) -> Duration {
-        if self.elapsed_secs >= self.timeout.as_secs() {
-            Duration::from_secs(0)
-        } else {
-            let remaining = self.timeout.as_secs() - self.elapsed_secs;
-            Duration::from_secs(remaining)
-        }
+        self.timeout.saturating_sub(self.elapsed)
     }
 
     fn start(&mut self) {
@@ -212,8 +207,7 @@ impl Operation {
 
     fn stop(&mut self) {
         if let Some(started) = self.started {
-            let elapsed = started.elapsed().as_secs();
-            self.elapsed_secs += elapsed;
+            self.elapsed += started.elapsed();
         } else {
             println!("operation not initialized stopped");
         }
-- 
2.43.0


From f30995c6f6efd75d3ec91a361c7df817bb4fe4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 14/28] fix: bytes buffered by a TLS stream are read without
 waiting for more

---
 wruster/src/streams/cancellable_stream.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index 52d1b52..ac836f6 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -58,6 +58,13 @@ where
     }
 
     fn read_int(&self, buf: &mut [u8]) -> io::Result<usize> {
+        // The stream can hold bytes already taken from the socket (TLS), there
+        // won't be any event for them, so read before waiting.
+        match self.stream.read_buf(buf) {
+            Ok(n) if n > 0 => return Ok(n),
+            Err(err) if err.kind() != io::ErrorKind::WouldBlock => return Err(err),
+            _ => (),
+        }
         self.poller
             .modify(self.stream.as_raw(), Event::readable(1))?;
         let mut events = Vec::new();
-- 
2.43.0


From 9108f33834db1d5a855e7128896a25ff0573b956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 15/28] fix: a failing write does not make the stream blocking

---
 wruster/src/streams/cancellable_stream.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index ac836f6..ba1a6e8 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -157,10 +157,7 @@ where
                     Err(err) if err.kind() == io::ErrorKind::WouldBlock => {
                         break;
                     }
-                    Err(err) => {
-                        self.stream.set_nonblocking(false)?;
-                        return Err(err);
-                    }
+                    Err(err) => return Err(err),
                 };
                 break;
             }
-- 
2.43.0


From 173edfc5b9e6b63ea0c7ff453263a78eaaf75714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 16/28] fix: a full connection pool makes room for the released
 connection

---
 wruster/src/http/client/connection_pool.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/wruster/src/http/client/connection_pool.rs b/wruster/src/http/client/connection_pool.rs
index b66be95..ec087b5 100644
--- a/wruster/src/http/client/connection_pool.rs
+++ b/wruster/src/http/client/connection_pool.rs
@@ -114,12 +114,10 @@ where
     pub fn insert(&self, key: &str, connection: PoolResource<T>) {
         let mut connections = self.resources.write().unwrap();
         let connections = connections.borrow_mut();
-        match connections.len() {
-            MAX_RESOURCES => Self::remove_lru(connections),
-            _ => {
-                connections.insert(key.to_string(), connection);
-            }
+        if connections.len() >= MAX_RESOURCES && !connections.contains_key(key) {
+            Self::remove_lru(connections);
         }
+        connections.insert(key.to_string(), connection);
     }
 
     /**
-- 
2.43.0


From 4a723499d2e5f1a63b84bde38df62d320c1edf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 17/28] fix: the client does not hold the pool lock while
 connecting

---
 wruster/src/http/client/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index 73315f7..7fcd540 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -92,8 +92,12 @@ impl<'a> Client {
         let conn = {
             match request.is_connection_persistent() {
                 true => {
-                    let pool = self.connection_pool.lock().map_err(HttpError::from)?;
-                    match pool.get(addr) {
+                    // Don't hold the lock of the pool while connecting.
+                    let pooled = {
+                        let pool = self.connection_pool.lock().map_err(HttpError::from)?;
+                        pool.get(addr)
+                    };
+                    match pooled {
                         Some(conn) => conn.resource(),
                         None => Self::connect(addr).map(Arc::new)?,
                     }
-- 
2.43.0


From 14ae610779b68864df06cdbed33157d7da103b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 18/28] fix: only connections with nothing left to read are
 reused by the client

---
 wruster/src/http/client/mod.rs | 37 ++++++++++++++++------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index 7fcd540..ea258bc 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -29,6 +29,7 @@ pub struct ClientResponse {
     conn: TcpStream,
     pool: Weak<Mutex<Pool<Arc<TcpStream>>>>,
     addr: String,
+    reusable: bool,
 }
 
 impl Deref for ClientResponse {
@@ -47,14 +48,20 @@ impl DerefMut for ClientResponse {
 
 impl Drop for ClientResponse {
     fn drop(&mut self) {
+        // A connection that is going to be closed or that can contain bytes of
+        // the response not read yet, must not be used by other request.
+        if !self.reusable {
+            return;
+        }
         if let Some(pool) = self.pool.upgrade() {
             if let Some(body) = self.response.body.as_mut() {
-                body.ensure_read().consume_error(|err| {
+                if let Err(err) = body.ensure_read() {
                     error!(
                         "error ensuring body in request has completely read: {}",
                         err
                     );
-                });
+                    return;
+                }
             }
 
             let pool = match pool.lock() {
@@ -89,8 +96,9 @@ impl<'a> Client {
     }
 
     pub fn run(&'a self, addr: &str, request: Request) -> Result<ClientResponse, HttpError> {
+        let persistent = request.is_connection_persistent();
         let conn = {
-            match request.is_connection_persistent() {
+            match persistent {
                 true => {
                     // Don't hold the lock of the pool while connecting.
                     let pooled = {
@@ -120,12 +128,18 @@ impl<'a> Client {
         };
         // TODO: when the response does not have body we can just return back
         // the connection to the pool here.
+        let close = match response.headers.get("Connection") {
+            Some(values) => values.iter().any(|value| value.to_lowercase() == "close"),
+            None => false,
+        };
+        let delimited = response.headers.get("Content-Length").is_some();
         let response_pool = Arc::clone(&self.connection_pool);
         let response = ClientResponse {
             response,
             conn: response_conn,
             pool: Arc::downgrade(&response_pool),
             addr: addr.to_string(),
+            reusable: persistent && delimited && !close,
         };
         Ok(response)
     }
@@ -154,20 +168,3 @@ impl Drop for Client {
         }
     }
 }
-
-trait ConsumeIfError<F, E> {
-    fn consume_error(self, consumer: F)
-    where
-        F: FnOnce(E);
-}
-
-impl<T, E, F> ConsumeIfError<F, E> for Result<T, E> {
-    fn consume_error(self, consumer: F)
-    where
-        F: FnOnce(E),
-    {
-        if let Err(err) = self {
-            consumer(err)
-        }
-    }
-}
-- 
2.43.0


From 51ce6150cb2d8852b0e41097c2046093b99db9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 19/28] fix: a listener that cannot be set up is an error, not
 a panic

---
 wruster/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index c4606a8..707f9c0 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -292,9 +292,9 @@ impl Server {
             Ok(listener) => listener,
             Err(err) => return Err(Box::new(err)),
         };
-        listener.set_nonblocking(true).unwrap();
-        let poller = polling::Poller::new().unwrap();
-        poller.add(&listener, Event::readable(1)).unwrap();
+        listener.set_nonblocking(true)?;
+        let poller = polling::Poller::new()?;
+        poller.add(&listener, Event::readable(1))?;
         let poller = Arc::new(poller);
         let epoller = Arc::clone(&poller);
         self.poller = Some(poller);
-- 
2.43.0


From cb1d55aa4aa629601fbac01fec89211ae7bae2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:42 +0000
Subject: [PATCH 20/28] fix: a body taken by an action is not read as the next
 request

---
 wruster/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 707f9c0..85ab07e 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -596,8 +596,13 @@ where
 
     let (request, mut response) = match Request::read_from(timeout_stream) {
         Ok(mut request) => {
-            connection_open = is_connection_persistent(&request);
+            let persistent = is_connection_persistent(&request);
+            let has_body = request.body.is_some();
             let response = run_action(&mut request, routes);
+            // What remains unread of a body taken by the action can not be
+            // skipped, so no other request can be read from the connection.
+            let body_taken = has_body && request.body.is_none();
+            connection_open = persistent && !body_taken;
             (Some(request), response)
         }
         Err(err) => match err {
-- 
2.43.0


From f7199ec9e5d0b3e9c6b90fabb47730026c97d602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:10 +0000
Subject: [PATCH 21/28] fix: a request without body carries Content-Length only
 once

---
 wruster/src/http/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 332baa4..7bcd6ac 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -134,7 +134,7 @@ impl Request {
         };
 
         start_line.write(to)?;
-        if self.body.is_none() {
+        if self.body.is_none() && self.headers.get("Content-Length").is_none() {
             self.headers.add(Header {
                 name: String::from("Content-Length"),
                 value: String::from("0"),
-- 
2.43.0


From 253fc22ca33f468bfa87e9fd50bafe6f77974836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:46 +0000
Subject: [PATCH 22/28] fix: the client announces the length of the body of a
 request

---
 wruster/src/http/client/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index ea258bc..50e6f11 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -10,6 +10,7 @@ use std::time;
 
 use connection_pool::{Pool, PoolResource};
 
+use crate::http::headers::Header;
 use crate::http::*;
 use crate::streams::timeout_stream::TimeoutStream;
 
@@ -95,7 +96,13 @@ impl<'a> Client {
         Self { connection_pool }
     }
 
-    pub fn run(&'a self, addr: &str, request: Request) -> Result<ClientResponse, HttpError> {
+    pub fn run(&'a self, addr: &str, mut request: Request) -> Result<ClientResponse, HttpError> {
+        // Without a length the server doesn't know there is a body to read.
+        if let (Some(body), None) = (&request.body, request.headers.get("Content-Length")) {
+            let value = body.content_length.to_string();
+            let name = String::from("Content-Length");
+            request.headers.add(Header { name, value });
+        }
         let persistent = request.is_connection_persistent();
         let conn = {
             match persistent {
-- 
2.43.0


From 6c931c18ed7b6ca8c092d975617a0fd9c428a8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:31 +0000
Subject: [PATCH 23/28] fix: an interrupted wait for events does not stop the
 server

---
 wruster/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 85ab07e..3dd19f0 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -354,7 +354,12 @@ impl Server {
         loop {
             debug!("tracked streams {}", active_streams.len());
             events.clear();
-            epoller.wait(&mut events, None)?;
+            if let Err(err) = epoller.wait(&mut events, None) {
+                // A signal, even just resuming the process, interrupts the wait.
+                if err.kind() != ErrorKind::Interrupted {
+                    return Err(Box::new(err));
+                }
+            }
             for evt in &events {
                 if evt.key != 1 {
                     continue;
-- 
2.43.0


From c3e852c19f114c771aec4ff1421aea22e114a93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 24/28] fix: a connection is not reused when the body was taken
 out of the response

---
 wruster/src/http/client/mod.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index 50e6f11..20ed551 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -31,6 +31,7 @@ pub struct ClientResponse {
     pool: Weak<Mutex<Pool<Arc<TcpStream>>>>,
     addr: String,
     reusable: bool,
+    has_body: bool,
 }
 
 impl Deref for ClientResponse {
@@ -55,14 +56,20 @@ impl Drop for ClientResponse {
             return;
         }
         if let Some(pool) = self.pool.upgrade() {
-            if let Some(body) = self.response.body.as_mut() {
-                if let Err(err) = body.ensure_read() {
-                    error!(
-                        "error ensuring body in request has completely read: {}",
-                        err
-                    );
-                    return;
+            match self.response.body.as_mut() {
+                Some(body) => {
+                    if let Err(err) = body.ensure_read() {
+                        error!(
+                            "error ensuring body in request has completely read: {}",
+                            err
+                        );
+                        return;
+                    }
                 }
+                // The body was taken out of the response, so its owner could
+                // still be reading it from the connection.
+                None if self.has_body => return,
+                None => (),
             }
 
             let pool = match pool.lock() {
@@ -141,12 +148,14 @@ impl<'a> Client {
         };
         let delimited = response.headers.get("Content-Length").is_some();
         let response_pool = Arc::clone(&self.connection_pool);
+        let has_body = response.body.is_some();
         let response = ClientResponse {
             response,
             conn: response_conn,
             pool: Arc::downgrade(&response_pool),
             addr: addr.to_string(),
             reusable: persistent && delimited && !close,
+            has_body,
         };
         Ok(response)
     }
-- 
2.43.0


From e835d00bec0bbabf96ba3fa026ed28841b7798e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:46 +0000
Subject: [PATCH 25/28] fix: only files are served, a directory is not found

---
 wruster_handlers/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index b87f6f3..a2c1d3f 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -56,6 +56,10 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
             return Response::from_status(StatusCode::InternalServerError);
         }
     };
+    // Only the content of a file can be served.
+    if !metadata.is_file() {
+        return Response::from_status(StatusCode::NotFound);
+    }
 
     let content = match fs::File::open(&path) {
         Ok(content) => content,
-- 
2.43.0


From 7ea57b0dee15b179181eadf197681e7cac03e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 26/28] fix: a directory that can not be resolved is answered,
 not a panic

---
 wruster_handlers/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index a2c1d3f..5f6d80c 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -36,7 +36,13 @@ server.wait().unwrap();
 ```
 */
 pub fn serve_static(dir: &str, request: &Request) -> Response {
-    let base_path: PathBuf = PathBuf::from(dir).canonicalize().unwrap();
+    let base_path: PathBuf = match PathBuf::from(dir).canonicalize() {
+        Ok(base_path) => base_path,
+        Err(err) => {
+            error!("error: resolving directory {}, error info: {}", dir, err);
+            return Response::from_status(StatusCode::InternalServerError);
+        }
+    };
     let mut uri = request.uri.as_str();
     if uri.starts_with('/') {
         if uri.len() < 2 {
-- 
2.43.0


From 2b2ea420632fefe82957f5dc1ef026a055497440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:19 +0000
Subject: [PATCH 27/28] fix: a timeout or a closed connection is reported as
 such wherever it happens

---
 wruster/src/http/headers.rs | 10 +++++-----
 wruster/src/http/mod.rs     | 18 +++++++-----------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 24976c0..ac71c83 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -182,7 +182,7 @@ impl Headers {
 
         let written = to.write_all("\r\n".as_bytes());
         if let Err(err) = written {
-            return Err(HttpError::Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         Ok(())
     }
@@ -364,19 +364,19 @@ impl Header {
         let mut written = to.write_all(self.name.as_bytes());
         if let Err(err) = written {
             debug!("error writing Header: {:?}", err);
-            return Err(HttpError::Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         written = to.write_all(": ".as_bytes());
         if let Err(err) = written {
-            return Err(HttpError::Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         written = to.write_all(self.value.as_bytes());
         if let Err(err) = written {
-            return Err(HttpError::Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         written = to.write_all("\r\n".as_bytes());
         if let Err(err) = written {
-            return Err(HttpError::Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         Ok(())
     }
diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 7bcd6ac..3520b5e 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -20,7 +20,7 @@ use headers::*;
 use mime::Mime;
 
 use crate::errors::HttpError;
-use crate::errors::HttpError::{ConnectionClosed, InvalidRequest, Timeout, Unknown};
+use crate::errors::HttpError::{ConnectionClosed, InvalidRequest, Unknown};
 
 /// Contains a HTTP client implementation.
 pub mod client;
@@ -260,7 +260,7 @@ impl HttpRequestLine {
 
         let mut uri = Vec::new();
         if let Err(err) = from.read_until(b' ', &mut uri) {
-            return Err(Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         if uri.len() < 2 {
             return Err(InvalidRequest("invalid request line".to_string()));
@@ -384,7 +384,7 @@ impl Body {
             _ => io::copy(src, to),
         };
         match res {
-            Err(err) => Err(HttpError::Unknown(err.to_string())),
+            Err(err) => Err(HttpError::from(err)),
             Ok(copied) if copied < self.content_length => Err(HttpError::Unknown(
                 "the content of the body is shorter than its length".to_string(),
             )),
@@ -751,11 +751,7 @@ impl HttpResponseLine {
         // Status-Line = HTTP-Version SP Status-Code SP Reason-Phrase CRLF
         let mut http_version = Vec::new();
         if let Err(err) = from.read_until(b' ', &mut http_version) {
-            let err = match err.kind() {
-                io::ErrorKind::TimedOut => Err(Timeout),
-                _ => Err(Unknown(err.to_string())),
-            };
-            return err;
+            return Err(HttpError::from(err));
         };
 
         if http_version.is_empty() {
@@ -767,7 +763,7 @@ impl HttpResponseLine {
         Self::validate_version(&http_version)?;
         let mut status_code = Vec::new();
         if let Err(err) = from.read_until(b' ', &mut status_code) {
-            return Err(Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         let mut status_code = String::from_utf8_lossy(&status_code).to_string();
         if status_code.len() != 4 {
@@ -781,7 +777,7 @@ impl HttpResponseLine {
         let status_code = StatusCode::from(status_code);
         let mut reason_phrase = Vec::new();
         if let Err(err) = from.read_until(b'\n', &mut reason_phrase) {
-            return Err(Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         if reason_phrase.len() < 3 {
             return Err(Unknown(String::from("invalid reason phrase")));
@@ -832,7 +828,7 @@ impl HttpResponseLine {
         // let payload = format!("HTTP/1.1 {:#}\r\n", self.status);
         let payload = format!("{} {}\r\n", self.http_version, self.status_code);
         if let Err(err) = to.write_all(payload.as_bytes()) {
-            return Err(HttpError::Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         Ok(())
     }
-- 
2.43.0


From b5b51804fefc663a4c87b1c89612031dcb70fbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 28/28] fix: an interrupted write reports what it has already
 written

---
 wruster/src/streams/cancellable_stream.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index ba1a6e8..0d3d71f 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -132,7 +132,15 @@ where
             events.clear();
             self.poller
                 .modify(self.stream.as_raw(), Event::writable(1))?;
-            if self.poller.wait(&mut events, *timeout)? == 0 {
+            let ready = match self.poller.wait(&mut events, *timeout) {
+                // An interrupted operation is retried by the writer from its
+                // start, so what is already written has to be reported.
+                Err(err) if err.kind() == io::ErrorKind::Interrupted && bytes_written > 0 => {
+                    return Ok(bytes_written)
+                }
+                ready => ready?,
+            };
+            if ready == 0 {
                 let stop = self.done.load(atomic::Ordering::SeqCst);
                 if stop {
                     return Err(io::Error::from(io::ErrorKind::NotConnected));
@@ -154,7 +162,10 @@ where
                     Ok(n) => {
                         bytes_written += n;
                     }
-                    Err(err) if err.kind() == io::ErrorKind::WouldBlock => {
+                    Err(err)
+                        if err.kind() == io::ErrorKind::WouldBlock
+                            || err.kind() == io::ErrorKind::Interrupted =>
+                    {
                         break;
                     }
                     Err(err) => return Err(err),
-- 
2.43.0

