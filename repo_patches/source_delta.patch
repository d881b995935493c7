From b32126ffa87547534110c33d1be42f9acd5b00ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 01/38] fix: reject a header line without a colon instead of
 panicking

---
 wruster/src/http/headers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 51e3f52..1ac67c0 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -277,7 +277,7 @@ impl Header {
             return Err(InvalidRequest("invalid header name line".to_string()));
         };
         // After the token we MUST receive a colon.
-        if line[i] != b':' {
+        if i >= line.len() || line[i] != b':' {
             error!(
                 "invalid header line: {}, missing semicolon",
                 String::from_utf8_lossy(line)
-- 
2.43.0


From 450b08f583f4fc1732dc0163a5bbe08f81e8ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 02/38] fix: do not loop forever when the stream ends in the
 middle of the headers

---
 wruster/src/http/headers.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 1ac67c0..e37d6ff 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -228,8 +228,15 @@ impl Header {
         let mut line = Vec::<u8>::new();
         loop {
             let mut header_chunk = Vec::<u8>::new();
-            from.read_until(b'\n', &mut header_chunk)
+            let read = from
+                .read_until(b'\n', &mut header_chunk)
                 .map_err(HttpError::from)?;
+            if read == 0 {
+                // The stream ended before the end of the headers.
+                return Err(HttpError::from(io::Error::from(
+                    io::ErrorKind::UnexpectedEof,
+                )));
+            }
             line.append(&mut header_chunk);
             debug!("header chunk read: {}", String::from_utf8_lossy(&line));
             let len = line.len();
-- 
2.43.0


From 1888764e76b108dec0ff11c3778d43430551240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 03/38] fix: header names are case-insensitive, normalize all
 of their characters

---
 wruster/src/http/headers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index e37d6ff..dec6baa 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -400,7 +400,7 @@ fn normalize_header_name(name: String) -> String {
         if c == char::from(b' ') || c == char::from(b'-') {
             next_alfanum_upper = true;
         }
-        normalized.push(c);
+        normalized.push(c.to_ascii_lowercase());
     }
     normalized
 }
-- 
2.43.0


From ac7e3e701f600d8244bcafbfe605383b76f4da7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 04/38] fix: a Content-Length is made only of digits,
 surrounding white space is not part of it

---
 wruster/src/http/headers.rs | 9 ++++++++-
 wruster/src/http/mod.rs     | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index dec6baa..ab293b1 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -309,7 +309,14 @@ impl Header {
             j += 1;
         }
         header_value_start = j;
-        for j in header_value_start..line.len() {
+        // The trailing optional white space is not part of the value.
+        let mut header_value_end = line.len();
+        while header_value_end > header_value_start
+            && (line[header_value_end - 1] as char).is_optional_white_space()
+        {
+            header_value_end -= 1;
+        }
+        for j in header_value_start..header_value_end {
             let c = line[j] as char;
             if !c.is_valid_field_content() {
                 debug!(
diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index a08d922..16c0dc0 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -433,6 +433,10 @@ impl Body {
             }
         };
 
+        if !len.bytes().all(|digit| digit.is_ascii_digit()) {
+            let msg = format!("invalid Content-Length header, {}", len);
+            return Err(Unknown(msg));
+        }
         let len = match usize::from_str(len) {
             Err(err) => {
                 let msg = format!("invalid Content-Length header, {}", err);
-- 
2.43.0


From b60909d33e52f9f36167ec1fb2f9e54ef8cea723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:07 +0000
Subject: [PATCH 05/38] fix: write the start lines completely when the writer
 takes only part of them

---
 wruster/src/http/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 16c0dc0..fe42368 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -291,7 +291,7 @@ impl HttpRequestLine {
         // Request-Line   = Method SP Request-URI SP HTTP-Version CRLF
         // https://www.w3.org/Protocols/rfc2616/rfc2616-sec5.html
         let line = format!("{:#} {} {}\r\n", self.method, self.uri, self.version);
-        to.write(line.as_bytes()).map_err(HttpError::from)?;
+        to.write_all(line.as_bytes()).map_err(HttpError::from)?;
         Ok(())
     }
 }
@@ -830,7 +830,7 @@ impl HttpResponseLine {
         // https://datatracker.ietf.org/doc/html/rfc7230#section-3.1.2
         // let payload = format!("HTTP/1.1 {:#}\r\n", self.status);
         let payload = format!("{} {}\r\n", self.http_version, self.status_code);
-        if let Err(err) = to.write(payload.as_bytes()) {
+        if let Err(err) = to.write_all(payload.as_bytes()) {
             return Err(HttpError::Unknown(err.to_string()));
         };
         Ok(())
-- 
2.43.0


From 9e97d3168f35a6af44511cefa5fe3b14b8aa71bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:08 +0000
Subject: [PATCH 06/38] fix: parse the request line up to its end and reject
 the ones that are malformed

---
 wruster/src/http/mod.rs | 45 +++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index fe42368..1c2930d 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -242,48 +242,35 @@ impl HttpRequestLine {
         // Request-Line   = Method SP Request-URI SP HTTP-Version CRLF
         // https://www.w3.org/Protocols/rfc2616/rfc2616-sec5.html
 
-        let mut method = Vec::new();
-        from.read_until(b' ', &mut method)
+        let mut line = Vec::new();
+        from.read_until(b'\n', &mut line)
             .map_err(HttpError::from)?;
-        if method.is_empty() {
+        if line.is_empty() {
             return Err(ConnectionClosed);
         }
-        if method.len() < 2 {
-            let msg = format!("invalid request line {:?}", method);
+        if !line.ends_with(b"\r\n") {
+            return Err(InvalidRequest("invalid request line".to_string()));
+        }
+        let line = String::from_utf8_lossy(&line[..line.len() - 2]);
+        let parts: Vec<&str> = line.split(' ').collect();
+        if parts.len() != 3 || parts.iter().any(|part| part.is_empty()) {
+            let msg = format!("invalid request line {:?}", line);
             return Err(InvalidRequest(msg));
         };
-        let method = String::from_utf8_lossy(&method[..method.len() - 1]);
-        let method = match HttpMethod::from_str(&method) {
+        let method = match HttpMethod::from_str(parts[0]) {
             Err(err) => return Err(InvalidRequest(err)),
             Ok(method) => method,
         };
-
-        let mut uri = Vec::new();
-        if let Err(err) = from.read_until(b' ', &mut uri) {
-            return Err(Unknown(err.to_string()));
-        };
-        if uri.len() < 2 {
-            return Err(InvalidRequest("invalid request line".to_string()));
-        };
-
-        let uri = String::from_utf8_lossy(&uri[..uri.len() - 1]);
-
-        let mut version = Vec::new();
-        from.read_until(b'\n', &mut version)
-            .map_err(HttpError::from)?;
-        if version.len() < 3 {
-            return Err(InvalidRequest("invalid request line".to_string()));
+        let uri = parts[1];
+        let version = match Version::from_str(parts[2]) {
+            Err(err) => return Err(InvalidRequest(err.to_string())),
+            Ok(version) => version,
         };
 
-        if version[version.len() - 2] != (b'\r') {
-            return Err(InvalidRequest("invalid request line".to_string()));
-        }
-        let version = String::from_utf8_lossy(&version[..version.len() - 2]);
-
         Ok(HttpRequestLine {
             method,
             uri: String::from(uri),
-            version: String::from(version),
+            version: version.to_string(),
         })
     }
 
-- 
2.43.0


From c1df9861a29c3931d280a48363af7aa54a52c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 07/38] fix: a handler that panics does not kill the worker
 that runs it

---
 wruster/src/thread_pool/dynamic_pool.rs |  6 +++---
 wruster/src/thread_pool/mod.rs          | 14 +++++++++++++-
 wruster/src/thread_pool/static_pool.rs  |  4 ++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/wruster/src/thread_pool/dynamic_pool.rs b/wruster/src/thread_pool/dynamic_pool.rs
index 76b7437..f385de3 100644
--- a/wruster/src/thread_pool/dynamic_pool.rs
+++ b/wruster/src/thread_pool/dynamic_pool.rs
@@ -7,7 +7,7 @@ use std::time::Duration;
 
 use atomic_refcell::AtomicRefCell;
 
-use super::{Action, PoolError};
+use super::{execute, Action, PoolError};
 
 type DynamicWorkerFinished = Box<dyn FnOnce() + Send>;
 
@@ -31,12 +31,12 @@ impl DynamicWorker {
             // When the worker is created it will execute, at least, one action
             // so we don't want to timeout waiting for it.
             t_initialized.store(true, Ordering::SeqCst);
-            first_action();
+            execute(first_action);
             loop {
                 let res = receiver.recv_timeout(timeout);
                 match res {
                     Ok(action) => {
-                        action();
+                        execute(action);
                         debug!("action executed");
                         continue;
                     }
diff --git a/wruster/src/thread_pool/mod.rs b/wruster/src/thread_pool/mod.rs
index 7193301..a73e5c6 100644
--- a/wruster/src/thread_pool/mod.rs
+++ b/wruster/src/thread_pool/mod.rs
@@ -1,4 +1,8 @@
-use std::{fmt::Debug, time::Duration};
+use std::{
+    fmt::Debug,
+    panic::{catch_unwind, AssertUnwindSafe},
+    time::Duration,
+};
 
 mod dynamic_pool;
 mod static_pool;
@@ -9,6 +13,14 @@ type Action = Box<dyn FnOnce() + Send + 'static>;
 
 const DEFAULT_TIMEOUT: Duration = Duration::from_secs(10);
 
+/// Executes an action ensuring that, if it panics, the worker running it
+/// remains available for executing other actions.
+fn execute(action: Action) {
+    if catch_unwind(AssertUnwindSafe(action)).is_err() {
+        error!("an action executed by the pool panicked");
+    }
+}
+
 pub struct PoolError {
     pub action: Action,
 }
diff --git a/wruster/src/thread_pool/static_pool.rs b/wruster/src/thread_pool/static_pool.rs
index a419048..a21f172 100644
--- a/wruster/src/thread_pool/static_pool.rs
+++ b/wruster/src/thread_pool/static_pool.rs
@@ -3,7 +3,7 @@ use std::sync::mpsc::{sync_channel, SyncSender, TrySendError};
 use std::sync::Arc;
 use std::thread;
 
-use super::{Action, PoolError};
+use super::{execute, Action, PoolError};
 
 struct Worker {
     id: usize,
@@ -20,7 +20,7 @@ impl Worker {
             t_initialized.store(true, Ordering::SeqCst);
             let res = receiver.recv();
             if let Ok(action) = res {
-                action();
+                execute(action);
                 debug!("action executed");
                 continue;
             }
-- 
2.43.0


From 8b6cade9f0dde9545da311094d52490a4a688cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 08/38] fix: an error creating a TLS stream does not kill the
 thread accepting connections

---
 wruster/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index a14071f..b3405eb 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -267,7 +267,7 @@ impl Server {
         cert: Certificate,
     ) -> ServerResult {
         self.start(addr, routes, move |stream: TcpStream| {
-            let stream = tls::Stream::new(stream, key.clone(), cert.clone()).unwrap();
+            let stream = tls::Stream::new(stream, key.clone(), cert.clone())?;
             CancellableStream::new(stream)
         })
     }
-- 
2.43.0


From c8f41a4d54eca1484a92f94b3be3026134beba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 09/38] fix: an error accepting a connection does not stop the
 server

---
 wruster/src/lib.rs | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index b3405eb..f926550 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -83,6 +83,10 @@ pub const DEFAULT_READ_REQUEST_TIMEOUT: time::Duration = time::Duration::from_se
 /// Defines the default max time for a response to be written
 pub const DEFAULT_WRITE_RESPONSE_TIMEOUT: time::Duration = time::Duration::from_secs(60);
 
+/// Time to wait before accepting again when there was an error accepting a
+/// connection because of the lack of resources.
+const ACCEPT_ERROR_DELAY: time::Duration = time::Duration::from_millis(10);
+
 /// Defines the result type returned from the [``Server``] methods.
 pub type ServerResult = Result<(), Box<dyn StdError>>;
 
@@ -354,16 +358,31 @@ impl Server {
         loop {
             debug!("tracked streams {}", active_streams.len());
             events.clear();
-            epoller.wait(&mut events, None)?;
+            if let Err(err) = epoller.wait(&mut events, None) {
+                if err.kind() != ErrorKind::Interrupted {
+                    return Err(Box::new(err));
+                }
+            }
             for evt in &events {
                 if evt.key != 1 {
                     continue;
                 }
-                let (stream, src_addr) = match listener.accept() {
-                    Err(err) => return Err(Box::new(err)),
+                let connection = listener.accept();
+                epoller.modify(&listener, Event::readable(1))?;
+                let (stream, src_addr) = match connection {
+                    Err(err) => {
+                        // An error accepting one connection, e.g.: the client
+                        // is already gone or there are no file descriptors
+                        // left, must not prevent the server from accepting
+                        // the next ones.
+                        error!("error accepting a connection: {}", err);
+                        if !is_connection_error(&err) {
+                            thread::sleep(ACCEPT_ERROR_DELAY);
+                        }
+                        continue;
+                    }
                     Ok(connection) => connection,
                 };
-                epoller.modify(&listener, Event::readable(1)).unwrap();
                 info!("accepting connection from {}", src_addr);
                 let cconfig = Arc::clone(&routes);
                 let action_timeouts = timeouts.clone();
@@ -522,6 +541,18 @@ impl Default for Server {
     }
 }
 
+/// Returns true if the error returned by an accept affects only to the
+/// connection that was being accepted.
+fn is_connection_error(err: &Error) -> bool {
+    matches!(
+        err.kind(),
+        ErrorKind::WouldBlock
+            | ErrorKind::Interrupted
+            | ErrorKind::ConnectionAborted
+            | ErrorKind::ConnectionReset
+    )
+}
+
 fn handle_busy<T>(stream: ObservedStream<T>, timeouts: Timeouts, src_addr: SocketAddr)
 where
     T: Stream,
-- 
2.43.0


From 31d44ffaf0ee4462ecba4f11c19744b5612e69fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 10/38] fix: measure the timeouts with the precision of the
 clock instead of in whole seconds

---
 wruster/src/streams/timeout_stream.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/wruster/src/streams/timeout_stream.rs b/wruster/src/streams/timeout_stream.rs
index 115b2b0..ea44152 100644
--- a/wruster/src/streams/timeout_stream.rs
+++ b/wruster/src/streams/timeout_stream.rs
@@ -113,7 +113,7 @@ where
             Some(operation) => operation,
         };
         let next_timeout = read.next_timeout();
-        if next_timeout.as_secs() == 0 {
+        if next_timeout.is_zero() {
             return Err(io::Error::from(io::ErrorKind::TimedOut));
         }
         let stream = &self.stream;
@@ -157,7 +157,7 @@ where
             Some(operation) => operation,
         };
         let next_timeout = write.next_timeout();
-        if next_timeout.as_secs() == 0 {
+        if next_timeout.is_zero() {
             return Err(io::Error::from(io::ErrorKind::TimedOut));
         }
         if let Err(err) = stream.set_write_timeout(Some(next_timeout)) {
@@ -185,7 +185,7 @@ where
 struct Operation {
     timeout: Duration,
     started: Option<Instant>,
-    elapsed_secs: u64,
+    elapsed: Duration,
 }
 
 impl Operation {
@@ -193,17 +193,12 @@ impl Operation {
         Operation {
             timeout,
             started: None,
-            elapsed_secs: 0,
+            elapsed: Duration::ZERO,
         }
     }
 
     fn next_timeout(&mut self) -> Duration {
-        if self.elapsed_secs >= self.timeout.as_secs() {
-            Duration::from_secs(0)
-        } else {
-            let remaining = self.timeout.as_secs() - self.elapsed_secs;
-            Duration::from_secs(remaining)
-        }
+        self.timeout.saturating_sub(self.elapsed)
     }
 
     fn start(&mut self) {
@@ -212,8 +207,7 @@ impl Operation {
 
     fn stop(&mut self) {
         if let Some(started) = self.started {
-            let elapsed = started.elapsed().as_secs();
-            self.elapsed_secs += elapsed;
+            self.elapsed += started.elapsed();
         } else {
             println!("operation not initialized stopped");
         }
-- 
2.43.0


From 7a247d2bf8429d48638634e1618d434576b3314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 11/38] fix: report the bytes written by an incomplete write
 and enforce its timeout as a whole

---
 wruster/src/streams/cancellable_stream.rs | 78 ++++++++++++-----------
 1 file changed, 42 insertions(+), 36 deletions(-)

diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index 52d1b52..882e2fe 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -5,7 +5,7 @@ use std::{
         atomic::{self, AtomicBool, Ordering},
         Arc, RwLock,
     },
-    time::Duration,
+    time::{Duration, Instant},
 };
 
 use polling::Event;
@@ -116,46 +116,52 @@ where
         Ok(bytes_read)
     }
 
-    fn write_int(&self, buf: &[u8]) -> io::Result<usize> {
+    /// Waits until the stream is ready for the given kind of events or the
+    /// deadline, if any, is reached.
+    fn wait_ready(&self, interest: Event, deadline: Option<Instant>) -> io::Result<()> {
         let mut events = Vec::new();
-        let timeout = &self.write_timeout.write().unwrap().clone();
-        let mut bytes_written = 0;
-        let buf_len = buf.len();
-        while bytes_written < buf_len {
-            events.clear();
-            self.poller
-                .modify(self.stream.as_raw(), Event::writable(1))?;
-            if self.poller.wait(&mut events, *timeout)? == 0 {
-                let stop = self.done.load(atomic::Ordering::SeqCst);
-                if stop {
+        loop {
+            let timeout = deadline.map(|d| d.saturating_duration_since(Instant::now()));
+            self.poller.modify(self.stream.as_raw(), interest)?;
+            match self.poller.wait(&mut events, timeout) {
+                Ok(0) => (),
+                Ok(_) => return Ok(()),
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => (),
+                Err(err) => return Err(err),
+            }
+            // The OS can return no events before the timeout has passed, so we
+            // have to check it ourselves.
+            if deadline.map_or(false, |d| d <= Instant::now()) {
+                if self.done.load(Ordering::SeqCst) {
                     return Err(io::Error::from(io::ErrorKind::NotConnected));
-                };
-                // TODO: Actually we could be here not only because the timeout
-                // passed without the stream being ready to accept writes, but
-                // also because the OS returned no events spuriously, so we
-                // should check ourselves if the timeout period has passed, and
-                // if not, retry the wait.
+                }
                 return Err(io::Error::from(io::ErrorKind::TimedOut));
             }
-            for evt in &events {
-                if evt.key != 1 || !evt.writable {
-                    continue;
+        }
+    }
+
+    fn write_int(&self, buf: &[u8]) -> io::Result<usize> {
+        let timeout = *self.write_timeout.read().unwrap();
+        let deadline = timeout.and_then(|t| Instant::now().checked_add(t));
+        let mut bytes_written = 0;
+        let buf_len = buf.len();
+        while bytes_written < buf_len {
+            let result = self
+                .wait_ready(Event::writable(1), deadline)
+                .and_then(|_| self.stream.write_buf(&buf[bytes_written..]));
+            match result {
+                Ok(0) => break,
+                Ok(n) => bytes_written += n,
+                Err(err)
+                    if err.kind() == io::ErrorKind::WouldBlock
+                        || err.kind() == io::ErrorKind::Interrupted =>
+                {
+                    continue
                 }
-                let write_buf = &buf[bytes_written..];
-                let s = &self.stream;
-                match s.write_buf(write_buf) {
-                    Ok(n) => {
-                        bytes_written += n;
-                    }
-                    Err(err) if err.kind() == io::ErrorKind::WouldBlock => {
-                        break;
-                    }
-                    Err(err) => {
-                        self.stream.set_nonblocking(false)?;
-                        return Err(err);
-                    }
-                };
-                break;
+                // The bytes already written must be reported to the caller, if
+                // the error persists the next write will return it.
+                Err(_) if bytes_written > 0 => break,
+                Err(err) => return Err(err),
             }
         }
         Ok(bytes_written)
-- 
2.43.0


From b26fa2f9a45ad6449a78fe7e2c0b871b7b607045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:45 +0000
Subject: [PATCH 12/38] fix: do not wait for the socket when a TLS stream has
 data available or needs to flush it

---
 wruster/src/streams/cancellable_stream.rs | 80 ++++++++---------------
 wruster/src/streams/mod.rs                | 30 ++++++++-
 wruster/src/streams/tls/mod.rs            | 12 ++++
 3 files changed, 70 insertions(+), 52 deletions(-)

diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index 882e2fe..41d776e 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -58,62 +58,40 @@ where
     }
 
     fn read_int(&self, buf: &mut [u8]) -> io::Result<usize> {
-        self.poller
-            .modify(self.stream.as_raw(), Event::readable(1))?;
-        let mut events = Vec::new();
-        let timeout = &self.read_timeout.write().unwrap().clone();
-        let mut bytes_read = 0;
-        let buf_len = buf.len();
-        if self.poller.wait(&mut events, *timeout)? == 0 {
-            let stop = self.done.load(atomic::Ordering::SeqCst);
-            if stop {
-                return Err(io::Error::from(io::ErrorKind::NotConnected));
-            };
-            // TODO: Actually we could be here not only because the timeout
-            // passed without read operations available, but also because the
-            // OS returned no events spuriously, so we should check ourselves
-            // if the timeout period has passed, and if not, retry the wait.
-            return Err(io::Error::from(io::ErrorKind::TimedOut));
+        if buf.is_empty() {
+            return Ok(0);
         }
-        for evt in &events {
-            if evt.key != 1 {
-                continue;
-            }
-            let read_buf = &mut buf[bytes_read..];
-            let s = &self.stream;
-
-            let result = match s.read_buf(read_buf) {
+        let timeout = *self.read_timeout.read().unwrap();
+        let deadline = timeout.and_then(|t| Instant::now().checked_add(t));
+        loop {
+            // The stream could have data already available, even if there is
+            // nothing to be read from the underlying socket, so we have to try
+            // to read before waiting.
+            match self.stream.read_buf(buf) {
                 Ok(0) if self.done.load(Ordering::SeqCst) => {
-                    Err(io::Error::from(io::ErrorKind::NotConnected))
-                }
-                Ok(n) => Ok(n),
-                Err(err) => Err(err),
-            };
-            match result {
-                Ok(n) => {
-                    bytes_read += n;
-                }
-                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {
-                    // If we are unable to read anything we signal the reader
-                    // that is safe to retry the operation by returning and
-                    // error of kind: Interrupted. Reference:
-                    // https://doc.rust-lang.org/std/io/trait.Read.html#errors.
-                    return Err(io::Error::from(io::ErrorKind::Interrupted));
+                    return Err(io::Error::from(io::ErrorKind::NotConnected))
                 }
+                Ok(0) => return Err(io::Error::from(io::ErrorKind::ConnectionReset)),
+                Ok(n) => return Ok(n),
+                Err(err) if err.kind() == io::ErrorKind::WouldBlock => (),
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
                 Err(err) => return Err(err),
             };
-            // TODO: Actually this is not correct, we should read all the
-            // events returned by wait, even if we end up reading more bytes
-            // than the len of the buffer provide by the caller.
-            if bytes_read == buf_len {
-                break;
-            }
+            self.wait_ready(self.stream.read_interest(), deadline)?;
         }
+    }
 
-        if bytes_read == 0 {
-            return Err(io::Error::from(io::ErrorKind::ConnectionReset));
+    fn flush_int(&self) -> io::Result<()> {
+        let timeout = *self.write_timeout.read().unwrap();
+        let deadline = timeout.and_then(|t| Instant::now().checked_add(t));
+        loop {
+            match self.stream.flush_data() {
+                Err(err) if err.kind() == io::ErrorKind::WouldBlock => (),
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                res => return res,
+            }
+            self.wait_ready(self.stream.write_interest(), deadline)?;
         }
-        Ok(bytes_read)
     }
 
     /// Waits until the stream is ready for the given kind of events or the
@@ -147,7 +125,7 @@ where
         let buf_len = buf.len();
         while bytes_written < buf_len {
             let result = self
-                .wait_ready(Event::writable(1), deadline)
+                .wait_ready(self.stream.write_interest(), deadline)
                 .and_then(|_| self.stream.write_buf(&buf[bytes_written..]));
             match result {
                 Ok(0) => break,
@@ -186,7 +164,7 @@ where
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        self.stream.flush_data()
+        self.flush_int()
     }
 }
 
@@ -210,6 +188,6 @@ where
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        self.stream.flush_data()
+        self.flush_int()
     }
 }
diff --git a/wruster/src/streams/mod.rs b/wruster/src/streams/mod.rs
index 04a281d..2b97105 100644
--- a/wruster/src/streams/mod.rs
+++ b/wruster/src/streams/mod.rs
@@ -6,7 +6,7 @@ use std::io::{self, Write};
 use std::net::{Shutdown, TcpStream};
 use std::time::Duration;
 
-use polling::Source;
+use polling::{Event, Source};
 
 pub mod cancellable_stream;
 pub mod observable;
@@ -22,6 +22,18 @@ pub trait BaseStream {
     fn write_buf(&self, buf: &[u8]) -> io::Result<usize>;
     fn read_buf(&self, buf: &mut [u8]) -> io::Result<usize>;
     fn flush_data(&self) -> io::Result<()>;
+
+    /// Returns the events to wait for, with the key 1, before trying again a
+    /// read that would have blocked.
+    fn read_interest(&self) -> Event {
+        Event::readable(1)
+    }
+
+    /// Returns the events to wait for, with the key 1, before trying again a
+    /// write or a flush that would have blocked.
+    fn write_interest(&self) -> Event {
+        Event::writable(1)
+    }
 }
 
 impl BaseStream for TcpStream {
@@ -93,6 +105,22 @@ impl BaseStream for tls::Stream {
     fn flush_data(&self) -> io::Result<()> {
         self.flush_data()
     }
+
+    fn read_interest(&self) -> Event {
+        if self.wants_write() {
+            Event::all(1)
+        } else {
+            Event::readable(1)
+        }
+    }
+
+    fn write_interest(&self) -> Event {
+        if self.is_handshaking() && !self.wants_write() {
+            Event::readable(1)
+        } else {
+            Event::writable(1)
+        }
+    }
 }
 
 /**
diff --git a/wruster/src/streams/tls/mod.rs b/wruster/src/streams/tls/mod.rs
index 4077332..bdb5881 100644
--- a/wruster/src/streams/tls/mod.rs
+++ b/wruster/src/streams/tls/mod.rs
@@ -85,6 +85,18 @@ impl Stream {
     }
 }
 
+impl Stream {
+    /// Returns true if there is TLS data pending to be sent to the peer.
+    pub fn wants_write(&self) -> bool {
+        self.stream.lock().unwrap().conn.wants_write()
+    }
+
+    /// Returns true while the TLS handshake is not completed.
+    pub fn is_handshaking(&self) -> bool {
+        self.stream.lock().unwrap().conn.is_handshaking()
+    }
+}
+
 impl Read for Stream {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         self.read_int(buf)
-- 
2.43.0


From 38ef9ad5161efffe605034d732e1b2b2d5d24169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:46 +0000
Subject: [PATCH 13/38] fix: flushing a stream is part of the write operation
 its timeout limits

---
 wruster/src/streams/timeout_stream.rs | 28 ++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/wruster/src/streams/timeout_stream.rs b/wruster/src/streams/timeout_stream.rs
index ea44152..3eef92f 100644
--- a/wruster/src/streams/timeout_stream.rs
+++ b/wruster/src/streams/timeout_stream.rs
@@ -140,17 +140,32 @@ where
     T: Read + Write + Timeout,
 {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        self.timed_write(|stream| stream.write(buf))
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.timed_write(|stream| stream.flush())
+    }
+}
+
+impl<T> TimeoutStream<T>
+where
+    T: Read + Write + Timeout,
+{
+    /// Executes an operation that writes to the underlying stream enforcing
+    /// the write timeout.
+    fn timed_write<R>(&mut self, op: impl FnOnce(&mut T) -> io::Result<R>) -> io::Result<R> {
         // If no timeout has set for write, we just pass through to the
         // underlying writer.
         let stream = &mut self.stream;
         let timeout = match self.write {
-            None => return stream.write(buf),
+            None => return op(stream),
             Some(timeout) => timeout,
         };
         let write = match self.ongoing_write.as_mut() {
             None => {
-                // If no timeout has set for write, we just pass through to the
-                // underlying writer.
+                // If there is no current ongoing write operation create a new
+                // one.
                 self.ongoing_write = Some(Operation::from_timeout(timeout));
                 self.ongoing_write.as_mut().unwrap()
             }
@@ -164,7 +179,7 @@ where
             return io::Result::Err(err);
         }
         write.start();
-        let res = stream.write(buf).map_err(|err| {
+        let res = op(stream).map_err(|err| {
             // REVIEW: In some cases a read operation over a stream returns
             // WouldBlock instead of the expected TimedOut.
             match err.kind() {
@@ -175,11 +190,6 @@ where
         write.stop();
         res
     }
-
-    fn flush(&mut self) -> io::Result<()> {
-        let stream = &mut self.stream;
-        stream.flush()
-    }
 }
 
 struct Operation {
-- 
2.43.0


From 822253235a3271bb2d8c3c10d28e9b68ca2d5ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 14/38] fix: report the errors writing the last part of a large
 body

---
 wruster/src/http/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 1c2930d..1d0abf3 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -365,7 +365,7 @@ impl Body {
             x if x > u64::pow(2, 20) * 2 => {
                 let buff_size = usize::pow(2, 20);
                 let mut dest = BufWriter::with_capacity(buff_size, to);
-                io::copy(src, &mut dest)
+                io::copy(src, &mut dest).and_then(|n| dest.flush().map(|_| n))
             }
             _ => io::copy(src, to),
         };
-- 
2.43.0


From dace5b2f7a5306b6b392f91b45ea84aabcdab64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 15/38] fix: write exactly the number of bytes of a body that
 are announced by its length

---
 wruster/src/http/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 1d0abf3..8ed8014 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -355,7 +355,9 @@ impl Body {
     to the ``to`` paramerer.
     */
     pub fn write<T: io::Write>(&mut self, to: &mut T) -> HttpResult<()> {
-        let src = &mut self.content;
+        // Writing more bytes than the announced ones would break the framing of
+        // the message.
+        let src = &mut self.content.by_ref().take(self.content_length);
 
         // When the content to write is large (>2MB's) the io::copy function
         // uses buffers that are too short, to avoid that we use this technique:
@@ -371,6 +373,10 @@ impl Body {
         };
         match res {
             Err(err) => Err(HttpError::Unknown(err.to_string())),
+            Ok(n) if n != self.content_length => {
+                let msg = format!("body too short, {} bytes of {}", n, self.content_length);
+                Err(HttpError::Unknown(msg))
+            }
             Ok(_) => Ok(()),
         }
     }
-- 
2.43.0


From 39119448a315f1221f12f3a401f26fc1c8fae6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 16/38] fix: a response announces the length of its body

---
 wruster/src/http/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 8ed8014..9033c31 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -615,10 +615,14 @@ impl Response {
             reason_phrase: self.status.clone().into(),
         };
         start_line.write(to)?;
-        if self.body.is_none() {
+        // Without the length of the body the client is not able to know where
+        // the response ends in a persistent connection.
+        let is_content_length = |name: &str| name.eq_ignore_ascii_case("Content-Length");
+        if !self.headers.iter().any(|(name, _)| is_content_length(name)) {
+            let length = self.body.as_ref().map_or(0, |body| body.content_length);
             self.headers.add(Header {
                 name: String::from("Content-Length"),
-                value: String::from("0"),
+                value: length.to_string(),
             })
         }
         self.headers.write(to)?;
-- 
2.43.0


From f3320c8d43b029e16a9a6eb50d36133f565c1e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:29 +0000
Subject: [PATCH 17/38] fix: the reason phrase of a response can be empty

---
 wruster/src/http/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 9033c31..106acc8 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -779,7 +779,7 @@ impl HttpResponseLine {
         if let Err(err) = from.read_until(b'\n', &mut reason_phrase) {
             return Err(Unknown(err.to_string()));
         };
-        if reason_phrase.len() < 3 {
+        if !reason_phrase.ends_with(b"\r\n") {
             return Err(Unknown(String::from("invalid reason phrase")));
         };
         let reason_phrase =
-- 
2.43.0


From 65b07acb583e29c92c2660331b7a976666996e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 18/38] fix: shutting down the server does not cut the
 responses to the ongoing requests

---
 wruster/src/lib.rs                        | 6 ++++--
 wruster/src/streams/cancellable_stream.rs | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index f926550..9e9b062 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -411,7 +411,9 @@ impl Server {
                 for p in pending {
                     match p.upgrade() {
                         Some(p) => {
-                            match p.shutdown(net::Shutdown::Both) {
+                            // Only the reads are shut down, so the response to
+                            // an ongoing request can be sent.
+                            match p.shutdown(net::Shutdown::Read) {
                                 Ok(()) => debug!("pending active connection closed"),
                                 Err(err) => {
                                     error!("error closing a pending active connection {}", err)
@@ -590,7 +592,7 @@ fn handle_conversation<T>(
             Arc::clone(&routes),
             source_addr,
             timeouts.clone(),
-        );
+        ) && !stream.is_shutdown();
         if let Err(err) = stream.flush() {
             error!("error flushing to: {}, {}", source_addr, err);
             return;
diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index 41d776e..b44195a 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -57,6 +57,11 @@ where
         self.stream.shutdown(how)
     }
 
+    /// Returns true if the stream has been shut down.
+    pub fn is_shutdown(&self) -> bool {
+        self.done.load(Ordering::SeqCst)
+    }
+
     fn read_int(&self, buf: &mut [u8]) -> io::Result<usize> {
         if buf.is_empty() {
             return Ok(0);
-- 
2.43.0


From 6ecbe5197a7920cd35f8c973ab7a7b3bb8c31669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:58 +0000
Subject: [PATCH 19/38] fix: do not lose nor mix up the requests that share a
 connection

---
 wruster/src/http/mod.rs               |  9 ++-
 wruster/src/lib.rs                    | 36 ++++++++++--
 wruster/src/streams/mod.rs            |  1 +
 wruster/src/streams/shared_reader.rs  | 82 +++++++++++++++++++++++++++
 wruster/src/streams/timeout_stream.rs |  6 ++
 5 files changed, 128 insertions(+), 6 deletions(-)
 create mode 100644 wruster/src/streams/shared_reader.rs

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 106acc8..9d8cc9e 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -61,8 +61,15 @@ impl Request {
     does not conform to the spec: https://datatracker.ietf.org/doc/html/rfc7230.
     */
     pub fn read_from<T: io::Read + 'static>(from: T) -> HttpResult<Request> {
+        Self::read_from_buffered(io::BufReader::new(from))
+    }
+
+    /// Reads a request using the given reader, that must not contain any
+    /// buffered data.
+    pub(crate) fn read_from_buffered<T: io::Read + 'static>(
+        mut reader: io::BufReader<T>,
+    ) -> HttpResult<Request> {
         debug!("parsing request");
-        let mut reader = io::BufReader::new(from);
         let request_line = match HttpRequestLine::read_from(&mut reader) {
             Ok(request) => request,
             Err(err) => return Err(err),
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 9e9b062..feb93b7 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -63,6 +63,7 @@ pub use streams::tls::{Certificate, PrivateKey};
 use streams::{
     cancellable_stream::CancellableStream,
     observable::{ObservedStream, ObservedStreamList},
+    shared_reader::SharedReader,
     timeout_stream::TimeoutStream,
     tls, Stream,
 };
@@ -585,9 +586,15 @@ fn handle_conversation<T>(
 {
     debug!("handling conversation with {}", source_addr);
     let mut connection_open = true;
+    let mut reader = SharedReader::new(TimeoutStream::from(
+        stream.clone(),
+        Some(timeouts.read_request_timeout),
+        None,
+    ));
     while connection_open {
         let handle_stream = stream.clone();
         connection_open = handle_connection(
+            &mut reader,
             handle_stream,
             Arc::clone(&routes),
             source_addr,
@@ -607,6 +614,7 @@ fn handle_conversation<T>(
 }
 
 fn handle_connection<T>(
+    reader: &mut SharedReader<ObservedStream<T>>,
     stream: ObservedStream<T>,
     routes: Arc<Router>,
     source_addr: SocketAddr,
@@ -619,11 +627,13 @@ where
     let read_timeout = Some(timeouts.read_request_timeout);
     let write_timeout = Some(timeouts.write_response_timeout);
 
-    let resp_stream = stream.clone();
-    let timeout_stream = TimeoutStream::from(stream, read_timeout, write_timeout);
-
-    let (request, mut response) = match Request::read_from(timeout_stream) {
+    // The position in the stream where the request ends.
+    let mut request_end = 0;
+    reader.start_read();
+    let (request, mut response) = match Request::read_from_buffered(reader.unbuffered()) {
         Ok(mut request) => {
+            let body_length = request.body.as_ref().map_or(0, |body| body.content_length);
+            request_end = reader.consumed().saturating_add(body_length);
             connection_open = is_connection_persistent(&request);
             let response = run_action(&mut request, routes);
             (Some(request), response)
@@ -653,8 +663,17 @@ where
         }
     }
 
+    // The handler could have taken the body out of the request, if it's not
+    // used by the response it has to be read now.
+    if !reader.is_shared() {
+        if let Err(err) = reader.skip_to(request_end) {
+            error!("error reading request body, error info: {}", err);
+            return false;
+        }
+    }
+
     // Write the response.
-    let mut timeout_stream = TimeoutStream::from(resp_stream, read_timeout, write_timeout);
+    let mut timeout_stream = TimeoutStream::from(stream, read_timeout, write_timeout);
     if let Err(err) = response.write(&mut timeout_stream) {
         error!(
             "error writing response to: {}, error info: {}",
@@ -662,6 +681,13 @@ where
         );
         return false;
     };
+
+    // What remains of the body must not be taken as the next request.
+    drop(response);
+    if let Err(err) = reader.skip_to(request_end) {
+        error!("error reading request body, error info: {}", err);
+        return false;
+    }
     connection_open
 }
 
diff --git a/wruster/src/streams/mod.rs b/wruster/src/streams/mod.rs
index 2b97105..fe3db0b 100644
--- a/wruster/src/streams/mod.rs
+++ b/wruster/src/streams/mod.rs
@@ -10,6 +10,7 @@ use polling::{Event, Source};
 
 pub mod cancellable_stream;
 pub mod observable;
+pub mod shared_reader;
 pub mod timeout_stream;
 pub mod tls;
 
diff --git a/wruster/src/streams/shared_reader.rs b/wruster/src/streams/shared_reader.rs
new file mode 100644
index 0000000..ea30ea1
--- /dev/null
+++ b/wruster/src/streams/shared_reader.rs
@@ -0,0 +1,82 @@
+use std::{
+    cell::RefCell,
+    io::{self, BufReader, Read, Write},
+    rc::Rc,
+};
+
+use super::timeout_stream::{Timeout, TimeoutStream};
+
+/**
+Reads the requests received, one after the other, through the same stream. The
+bytes the clones of a [SharedReader] get from the stream but don't use, e.g.:
+the ones belonging to the next request, are available for the other clones.
+*/
+pub struct SharedReader<T>
+where
+    T: Read + Write + Timeout,
+{
+    inner: Rc<RefCell<Inner<T>>>,
+}
+
+struct Inner<T>
+where
+    T: Read + Write + Timeout,
+{
+    reader: BufReader<TimeoutStream<T>>,
+    consumed: u64,
+}
+
+impl<T> SharedReader<T>
+where
+    T: Read + Write + Timeout,
+{
+    pub fn new(stream: TimeoutStream<T>) -> SharedReader<T> {
+        let reader = BufReader::new(stream);
+        let consumed = 0;
+        SharedReader {
+            inner: Rc::new(RefCell::new(Inner { reader, consumed })),
+        }
+    }
+
+    /// Starts a new read operation, so the read timeout is counted from now.
+    pub fn start_read(&self) {
+        self.inner.borrow_mut().reader.get_mut().reset_read();
+    }
+
+    /// Returns a reader that only takes from the stream the bytes it returns.
+    pub fn unbuffered(&self) -> BufReader<SharedReader<T>> {
+        let inner = Rc::clone(&self.inner);
+        BufReader::with_capacity(1, SharedReader { inner })
+    }
+
+    /// Returns the number of bytes read by all the clones of the reader.
+    pub fn consumed(&self) -> u64 {
+        self.inner.borrow().consumed
+    }
+
+    /// Returns true if there is any other clone of the reader.
+    pub fn is_shared(&self) -> bool {
+        Rc::strong_count(&self.inner) > 1
+    }
+
+    /// Reads and discards bytes until the total number of bytes read is `end`.
+    pub fn skip_to(&mut self, end: u64) -> io::Result<()> {
+        let pending = end.saturating_sub(self.consumed());
+        if io::copy(&mut self.by_ref().take(pending), &mut io::sink())? < pending {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
+        }
+        Ok(())
+    }
+}
+
+impl<T> Read for SharedReader<T>
+where
+    T: Read + Write + Timeout,
+{
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let mut inner = self.inner.borrow_mut();
+        let n = inner.reader.read(buf)?;
+        inner.consumed += n as u64;
+        Ok(n)
+    }
+}
diff --git a/wruster/src/streams/timeout_stream.rs b/wruster/src/streams/timeout_stream.rs
index 3eef92f..def2daf 100644
--- a/wruster/src/streams/timeout_stream.rs
+++ b/wruster/src/streams/timeout_stream.rs
@@ -89,6 +89,12 @@ where
             write: write_timeout,
         }
     }
+
+    /// Forgets the time spent in the previous reads, so the next one starts a
+    /// new read operation.
+    pub fn reset_read(&mut self) {
+        self.ongoing_read = None;
+    }
 }
 
 impl<T> Read for TimeoutStream<T>
-- 
2.43.0


From 85f61694f04f948c8f0c5c396da006713c0614a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 20/38] fix: a slow client does not block the accept of
 connections when the server is busy

---
 wruster/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index feb93b7..990adf1 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -88,6 +88,9 @@ pub const DEFAULT_WRITE_RESPONSE_TIMEOUT: time::Duration = time::Duration::from_
 /// connection because of the lack of resources.
 const ACCEPT_ERROR_DELAY: time::Duration = time::Duration::from_millis(10);
 
+/// Maximum time for telling to a client that the server is too busy.
+const BUSY_RESPONSE_TIMEOUT: time::Duration = time::Duration::from_secs(1);
+
 /// Defines the result type returned from the [``Server``] methods.
 pub type ServerResult = Result<(), Box<dyn StdError>>;
 
@@ -561,12 +564,15 @@ where
     T: Stream,
 {
     debug!("sending too busy to {}", src_addr);
-    let write_timeout = Some(timeouts.write_response_timeout);
+    // This function runs in the thread that accepts connections, so a slow
+    // client must not be able to block it.
+    let write_timeout = Some(timeouts.write_response_timeout.min(BUSY_RESPONSE_TIMEOUT));
     let read_timeout = Some(timeouts.read_request_timeout);
     let shutdown_stream = stream.clone();
     let mut timeout_stream = TimeoutStream::from(stream, read_timeout, write_timeout);
     let mut resp = Response::from_status(StatusCode::ServiceUnavailable);
-    if let Err(err) = resp.write(&mut timeout_stream) {
+    let res = resp.write(&mut timeout_stream);
+    if let Err(err) = res.and_then(|_| Ok(timeout_stream.flush()?)) {
         error!("sending too busy to {}: {}", src_addr, err.to_string())
     }
     let s = &*shutdown_stream;
-- 
2.43.0


From 2ea7e3b2aa6b6b72f4d730ad2b950961d33cd581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 21/38] fix: flush the response within its write timeout and
 close the connection if it fails

---
 wruster/src/lib.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 990adf1..2b3c905 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -583,7 +583,7 @@ where
 }
 
 fn handle_conversation<T>(
-    mut stream: ObservedStream<T>,
+    stream: ObservedStream<T>,
     routes: Arc<Router>,
     timeouts: Timeouts,
     source_addr: SocketAddr,
@@ -606,11 +606,6 @@ fn handle_conversation<T>(
             source_addr,
             timeouts.clone(),
         ) && !stream.is_shutdown();
-        if let Err(err) = stream.flush() {
-            error!("error flushing to: {}, {}", source_addr, err);
-            return;
-        }
-        debug!("connection flushed");
     }
 
     if let Err(err) = stream.shutdown(net::Shutdown::Both) {
@@ -680,7 +675,8 @@ where
 
     // Write the response.
     let mut timeout_stream = TimeoutStream::from(stream, read_timeout, write_timeout);
-    if let Err(err) = response.write(&mut timeout_stream) {
+    let res = response.write(&mut timeout_stream);
+    if let Err(err) = res.and_then(|_| Ok(timeout_stream.flush()?)) {
         error!(
             "error writing response to: {}, error info: {}",
             source_addr, err
-- 
2.43.0


From 1ab5dacb56b165b55169122346aa453e796019de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 22/38] fix: serve only regular files and do not panic when the
 served directory is not available

---
 wruster_handlers/src/lib.rs | 42 ++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index b87f6f3..8cec390 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -36,7 +36,10 @@ server.wait().unwrap();
 ```
 */
 pub fn serve_static(dir: &str, request: &Request) -> Response {
-    let base_path: PathBuf = PathBuf::from(dir).canonicalize().unwrap();
+    let base_path: PathBuf = match PathBuf::from(dir).canonicalize() {
+        Ok(path) => path,
+        Err(err) => return response_from_error(&err),
+    };
     let mut uri = request.uri.as_str();
     if uri.starts_with('/') {
         if uri.len() < 2 {
@@ -47,24 +50,19 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
     let mut path = base_path;
     path.push(uri);
 
-    let metadata = match fs::metadata(&path) {
-        Ok(metadata) => metadata,
-        Err(err) => {
-            if let io::ErrorKind::NotFound = err.kind() {
-                return Response::from_status(StatusCode::NotFound);
-            }
-            return Response::from_status(StatusCode::InternalServerError);
-        }
+    // Only regular files can be served, opening other kinds of files, e.g.:
+    // a named pipe, could even block.
+    match fs::metadata(&path) {
+        Ok(metadata) if metadata.is_file() => (),
+        Ok(_) => return Response::from_status(StatusCode::NotFound),
+        Err(err) => return response_from_error(&err),
     };
 
-    let content = match fs::File::open(&path) {
-        Ok(content) => content,
-        Err(err) => {
-            if let io::ErrorKind::NotFound = err.kind() {
-                return Response::from_status(StatusCode::NotFound);
-            }
-            return Response::from_status(StatusCode::InternalServerError);
-        }
+    // The length of the content must be the one of the file actually opened.
+    let opened = fs::File::open(&path).and_then(|file| Ok((file.metadata()?, file)));
+    let (metadata, content) = match opened {
+        Ok(opened) => opened,
+        Err(err) => return response_from_error(&err),
     };
     let mime_type = mime_guess::from_path(path).first_or_octet_stream();
     let mut headers = Headers::new();
@@ -85,6 +83,16 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
     }
 }
 
+/// Returns the response to send when there is an error opening a file.
+fn response_from_error(err: &io::Error) -> Response {
+    match err.kind() {
+        io::ErrorKind::NotFound | io::ErrorKind::NotADirectory => {
+            Response::from_status(StatusCode::NotFound)
+        }
+        _ => Response::from_status(StatusCode::InternalServerError),
+    }
+}
+
 /**
 A middleware that uses the log to print the request and response to
 the standard output with INFO level.
-- 
2.43.0


From 6a182e60b4772c069ddd3d1018095976103a1993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 23/38] fix: keep the last used connection when the client pool
 is full

---
 wruster/src/http/client/connection_pool.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/wruster/src/http/client/connection_pool.rs b/wruster/src/http/client/connection_pool.rs
index b66be95..ec087b5 100644
--- a/wruster/src/http/client/connection_pool.rs
+++ b/wruster/src/http/client/connection_pool.rs
@@ -114,12 +114,10 @@ where
     pub fn insert(&self, key: &str, connection: PoolResource<T>) {
         let mut connections = self.resources.write().unwrap();
         let connections = connections.borrow_mut();
-        match connections.len() {
-            MAX_RESOURCES => Self::remove_lru(connections),
-            _ => {
-                connections.insert(key.to_string(), connection);
-            }
+        if connections.len() >= MAX_RESOURCES && !connections.contains_key(key) {
+            Self::remove_lru(connections);
         }
+        connections.insert(key.to_string(), connection);
     }
 
     /**
-- 
2.43.0


From 5666e2302a8817a29b7aa7f79761c4ab0cb7504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 24/38] fix: a body that ends before its announced length is an
 error

---
 wruster/src/http/mod.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 9d8cc9e..aec4096 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -464,8 +464,10 @@ impl Body {
                 Some(mtype)
             }
         };
-        let c = from.take(len as u64);
-        let content = Box::new(c);
+        let content = Box::new(ExactReader {
+            reader: from,
+            pending: len as u64,
+        });
         let body = Body {
             content,
             content_type,
@@ -504,6 +506,24 @@ impl Body {
     }
 }
 
+/// Reads exactly the given number of bytes from a reader, so the end of the
+/// reader is an error if it's found before.
+struct ExactReader<T: Read> {
+    reader: T,
+    pending: u64,
+}
+
+impl<T: Read> Read for ExactReader<T> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let n = self.reader.by_ref().take(self.pending).read(buf)?;
+        self.pending -= n as u64;
+        if n == 0 && self.pending > 0 && !buf.is_empty() {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
+        }
+        Ok(n)
+    }
+}
+
 impl Read for Body {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         match self.content.read(buf) {
-- 
2.43.0


From 12adebcc3e982f2ee55e37e1b91f64a8bfb2ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 25/38] fix: the client only reuses idle connections with
 nothing left from the previous response

---
 wruster/src/http/client/mod.rs       | 152 +++++++++++++++++----------
 wruster/src/http/mod.rs              |  28 ++++-
 wruster/src/streams/shared_reader.rs |   5 +
 3 files changed, 124 insertions(+), 61 deletions(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index 73315f7..b387504 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -1,4 +1,5 @@
 #![allow(missing_docs)]
+use std::io::ErrorKind;
 use std::net::SocketAddr;
 use std::net::TcpStream;
 use std::net::ToSocketAddrs;
@@ -11,6 +12,7 @@ use std::time;
 use connection_pool::{Pool, PoolResource};
 
 use crate::http::*;
+use crate::streams::shared_reader::SharedReader;
 use crate::streams::timeout_stream::TimeoutStream;
 
 mod connection_pool;
@@ -26,7 +28,11 @@ pub const DEFAULT_WRITE_REQUEST_TIMEOUT: time::Duration = time::Duration::from_s
 
 pub struct ClientResponse {
     response: Response,
-    conn: TcpStream,
+    conn: Arc<TcpStream>,
+    reader: SharedReader<TcpStream>,
+    // Position, in the stream read by the reader, where the response ends. It's
+    // None when the connection can not be used again.
+    response_end: Option<u64>,
     pool: Weak<Mutex<Pool<Arc<TcpStream>>>>,
     addr: String,
 }
@@ -47,14 +53,26 @@ impl DerefMut for ClientResponse {
 
 impl Drop for ClientResponse {
     fn drop(&mut self) {
+        let response_end = match self.response_end {
+            Some(end) => end,
+            None => return,
+        };
         if let Some(pool) = self.pool.upgrade() {
-            if let Some(body) = self.response.body.as_mut() {
-                body.ensure_read().consume_error(|err| {
-                    error!(
-                        "error ensuring body in request has completely read: {}",
-                        err
-                    );
-                });
+            // The connection can only be used again when there is nothing of
+            // this response left to be read, and no one able to read from it.
+            drop(self.response.body.take());
+            if self.reader.is_shared() {
+                return;
+            }
+            if let Err(err) = self.reader.skip_to(response_end) {
+                error!(
+                    "error ensuring body in request has completely read: {}",
+                    err
+                );
+                return;
+            }
+            if self.reader.has_buffered() {
+                return;
             }
 
             let pool = match pool.lock() {
@@ -64,16 +82,7 @@ impl Drop for ClientResponse {
                     return;
                 }
             };
-
-            let conn = match self.conn.try_clone() {
-                Ok(conn) => conn,
-                Err(err) => {
-                    error!("error cloning stream {}", err);
-                    return;
-                }
-            };
-            let conn = Arc::new(conn);
-            pool.insert(&self.addr, PoolResource::new(conn))
+            pool.insert(&self.addr, PoolResource::new(Arc::clone(&self.conn)))
         };
     }
 }
@@ -89,43 +98,87 @@ impl<'a> Client {
     }
 
     pub fn run(&'a self, addr: &str, request: Request) -> Result<ClientResponse, HttpError> {
-        let conn = {
-            match request.is_connection_persistent() {
-                true => {
-                    let pool = self.connection_pool.lock().map_err(HttpError::from)?;
-                    match pool.get(addr) {
-                        Some(conn) => conn.resource(),
-                        None => Self::connect(addr).map(Arc::new)?,
-                    }
-                }
-                false => Self::connect(addr).map(Arc::new)?,
-            }
+        let persistent = request.is_connection_persistent();
+        let conn = match persistent {
+            true => self.idle_connection(addr)?,
+            false => None,
+        };
+        let conn = match conn {
+            Some(conn) => conn,
+            None => Self::connect(addr).map(Arc::new)?,
         };
         let read_timeout = DEFAULT_READ_RESPONSE_TIMEOUT;
         let write_timeout = DEFAULT_WRITE_REQUEST_TIMEOUT;
 
-        let conn = conn.try_clone().map_err(HttpError::from)?;
-        let response_conn = conn.try_clone().map_err(HttpError::from)?;
-        let mut stream = TimeoutStream::from(conn, Some(read_timeout), Some(write_timeout));
+        let stream = conn.try_clone().map_err(HttpError::from)?;
+        let mut stream = TimeoutStream::from(stream, Some(read_timeout), Some(write_timeout));
+        let may_have_body = !matches!(request.method, HttpMethod::HEAD);
         request.write(&mut stream)?;
         stream.flush().map_err(HttpError::from)?;
-        let stream = Box::new(stream);
-        let response = match Response::read_from(stream) {
-            Ok(response) => response,
-            Err(err) => return Err(err),
+        let reader = SharedReader::new(stream);
+        let (response, version) =
+            Response::read_from_buffered(reader.unbuffered(), may_have_body)?;
+        let body_length = response.body.as_ref().map_or(0, |body| body.content_length);
+        let reusable = persistent && Self::is_reusable(&response, &version, may_have_body);
+        let response_end = match reusable {
+            true => reader.consumed().checked_add(body_length),
+            false => None,
         };
-        // TODO: when the response does not have body we can just return back
-        // the connection to the pool here.
-        let response_pool = Arc::clone(&self.connection_pool);
         let response = ClientResponse {
             response,
-            conn: response_conn,
-            pool: Arc::downgrade(&response_pool),
+            conn,
+            reader,
+            response_end,
+            pool: Arc::downgrade(&self.connection_pool),
             addr: addr.to_string(),
         };
         Ok(response)
     }
 
+    /// Returns a connection of the pool the server has not closed, if any.
+    fn idle_connection(&self, addr: &str) -> Result<Option<Arc<TcpStream>>, HttpError> {
+        let conn = {
+            let pool = self.connection_pool.lock().map_err(HttpError::from)?;
+            pool.get(addr)
+        };
+        Ok(conn
+            .map(|conn| conn.resource())
+            .filter(|conn| Self::is_idle(conn)))
+    }
+
+    /// Returns true if the connection is open and there is nothing to be read
+    /// from it.
+    fn is_idle(conn: &TcpStream) -> bool {
+        if conn.set_nonblocking(true).is_err() {
+            return false;
+        }
+        let idle = match conn.peek(&mut [0; 1]) {
+            Ok(_) => false,
+            Err(err) => err.kind() == ErrorKind::WouldBlock,
+        };
+        conn.set_nonblocking(false).is_ok() && idle
+    }
+
+    /// Returns true if, according to a response, its connection can be used
+    /// for other requests.
+    fn is_reusable(response: &Response, version: &str, may_have_body: bool) -> bool {
+        let connection = match response.headers.get("Connection") {
+            None => String::new(),
+            Some(values) => values.join(",").to_lowercase(),
+        };
+        let has_option = |option| connection.split(',').any(|value| value.trim() == option);
+        if has_option("close") || (version != "HTTP/1.1" && !has_option("keep-alive")) {
+            return false;
+        }
+        match response.status {
+            StatusCode::Continue | StatusCode::SwitchingProtocols => false,
+            StatusCode::NoContent | StatusCode::NotModified => true,
+            // Without the length of the body the response ends when the
+            // connection is closed.
+            _ => !may_have_body || response.headers.get("Content-Length").is_some(),
+        }
+    }
+
     fn connect(addr: &str) -> Result<TcpStream, HttpError> {
         let addrs = addr.to_socket_addrs().map_err(HttpError::from)?;
         let addrs = addrs.collect::<Vec<SocketAddr>>();
@@ -150,20 +203,3 @@ impl Drop for Client {
         }
     }
 }
-
-trait ConsumeIfError<F, E> {
-    fn consume_error(self, consumer: F)
-    where
-        F: FnOnce(E);
-}
-
-impl<T, E, F> ConsumeIfError<F, E> for Result<T, E> {
-    fn consume_error(self, consumer: F)
-    where
-        F: FnOnce(E),
-    {
-        if let Err(err) = self {
-            consumer(err)
-        }
-    }
-}
diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index aec4096..f68d2aa 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -716,6 +716,17 @@ impl Response {
     does not conform to the spec: https://datatracker.ietf.org/doc/html/rfc7230.
     */
     pub fn read_from<T: io::Read + 'static>(from: T) -> Result<Response, HttpError> {
+        Self::read_from_buffered(io::BufReader::new(from), true).map(|(response, _)| response)
+    }
+
+    /// Reads a response, and the version of the protocol it uses, from the
+    /// given reader, that must not contain any buffered data. The parameter
+    /// ``may_have_body`` must be false when the request the response belongs to
+    /// prevents it from having a body.
+    pub(crate) fn read_from_buffered<T: io::Read + 'static>(
+        mut reader: io::BufReader<T>,
+        may_have_body: bool,
+    ) -> Result<(Response, String), HttpError> {
         // https://www.w3.org/Protocols/rfc2616/rfc2616-sec6.html
         //    Status-Line
         //                    *(( general-header
@@ -724,14 +735,25 @@ impl Response {
         //                    CRLF
         //                    [ message-body ]
         debug!("parsing response");
-        let mut reader = io::BufReader::new(from);
         let status_line = HttpResponseLine::read_from(&mut reader)?;
         debug!("response status line parsed: {:?}", status_line);
 
         let headers = Headers::read_from(&mut reader)?;
         debug!("headers parsed: {:?}", headers);
 
-        let body = Body::read_from(reader, &headers)?;
+        // https://httpwg.org/specs/rfc7230.html#rfc.section.3.3.3
+        let may_have_body = may_have_body
+            && !matches!(
+                status_line.status_code,
+                StatusCode::Continue
+                    | StatusCode::SwitchingProtocols
+                    | StatusCode::NoContent
+                    | StatusCode::NotModified
+            );
+        let body = match may_have_body {
+            true => Body::read_from(reader, &headers)?,
+            false => None,
+        };
         debug!("body read, length: {:?}", body);
 
         let response = Response {
@@ -740,7 +762,7 @@ impl Response {
             headers,
         };
         debug!("response parsed: {:?}", response);
-        Ok(response)
+        Ok((response, status_line.http_version))
     }
 }
 
diff --git a/wruster/src/streams/shared_reader.rs b/wruster/src/streams/shared_reader.rs
index ea30ea1..8805371 100644
--- a/wruster/src/streams/shared_reader.rs
+++ b/wruster/src/streams/shared_reader.rs
@@ -59,6 +59,11 @@ where
         Rc::strong_count(&self.inner) > 1
     }
 
+    /// Returns true if there are bytes got from the stream and not read yet.
+    pub fn has_buffered(&self) -> bool {
+        !self.inner.borrow().reader.buffer().is_empty()
+    }
+
     /// Reads and discards bytes until the total number of bytes read is `end`.
     pub fn skip_to(&mut self, end: u64) -> io::Result<()> {
         let pending = end.saturating_sub(self.consumed());
-- 
2.43.0


From 5feb4932c02fef29aec3e383b6e8b540da450c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 26/38] fix: the lack of threads does not kill the thread
 accepting connections

---
 wruster/src/thread_pool/dynamic_pool.rs | 38 +++++++++++++++++++------
 wruster/src/thread_pool/static_pool.rs  | 24 ++++++++++++----
 2 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/wruster/src/thread_pool/dynamic_pool.rs b/wruster/src/thread_pool/dynamic_pool.rs
index f385de3..d7d696c 100644
--- a/wruster/src/thread_pool/dynamic_pool.rs
+++ b/wruster/src/thread_pool/dynamic_pool.rs
@@ -1,7 +1,7 @@
 use std::collections::VecDeque;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::mpsc::{sync_channel, RecvTimeoutError, SyncSender, TrySendError};
-use std::sync::{Arc, RwLock};
+use std::sync::{Arc, Mutex, RwLock};
 use std::thread;
 use std::time::Duration;
 
@@ -23,15 +23,20 @@ impl DynamicWorker {
         timeout: Duration,
         first_action: Action,
         finished: DynamicWorkerFinished,
-    ) -> DynamicWorker {
+    ) -> Result<DynamicWorker, Action> {
         let (sender, receiver) = sync_channel::<Action>(0);
         let initialized = Arc::new(AtomicBool::new(false));
         let t_initialized = Arc::clone(&initialized);
-        let handle = std::thread::spawn(move || {
+        // The action is shared with the thread so it's not lost if the thread
+        // can not be created.
+        let first_action = Arc::new(Mutex::new(Some(first_action)));
+        let t_first_action = Arc::clone(&first_action);
+        let take = |action: &Mutex<Option<Action>>| action.lock().unwrap().take().unwrap();
+        let handle = thread::Builder::new().spawn(move || {
             // When the worker is created it will execute, at least, one action
             // so we don't want to timeout waiting for it.
             t_initialized.store(true, Ordering::SeqCst);
-            execute(first_action);
+            execute(take(&t_first_action));
             loop {
                 let res = receiver.recv_timeout(timeout);
                 match res {
@@ -50,10 +55,16 @@ impl DynamicWorker {
                 break;
             }
         });
-        DynamicWorker {
-            id,
-            handle: Some(handle),
-            sender: Some(sender),
+        match handle {
+            Ok(handle) => Ok(DynamicWorker {
+                id,
+                handle: Some(handle),
+                sender: Some(sender),
+            }),
+            Err(err) => {
+                error!("error creating a worker: {}", err);
+                Err(take(&first_action))
+            }
         }
     }
 
@@ -113,6 +124,8 @@ impl Dynamic {
             None => return Err(action),
         };
 
+        drop(free_cells);
+
         let free_cells = Arc::downgrade(&self.free_cells);
         let finished = move || {
             if let Some(free_cells) = free_cells.upgrade() {
@@ -120,7 +133,14 @@ impl Dynamic {
                 free_cells.push_back(index);
             }
         };
-        let worker = DynamicWorker::new(index, self.timeout, action, Box::new(finished));
+        let worker =
+            match DynamicWorker::new(index, self.timeout, action, Box::new(finished)) {
+                Ok(worker) => worker,
+                Err(action) => {
+                    self.free_cells.write().unwrap().push_back(index);
+                    return Err(action);
+                }
+            };
         self.workers[index] = Arc::new(AtomicRefCell::new(Some(worker)));
         Ok(index)
     }
diff --git a/wruster/src/thread_pool/static_pool.rs b/wruster/src/thread_pool/static_pool.rs
index a21f172..8dd82e3 100644
--- a/wruster/src/thread_pool/static_pool.rs
+++ b/wruster/src/thread_pool/static_pool.rs
@@ -1,3 +1,4 @@
+use std::io;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::mpsc::{sync_channel, SyncSender, TrySendError};
 use std::sync::Arc;
@@ -12,11 +13,11 @@ struct Worker {
 }
 
 impl Worker {
-    fn new(id: usize) -> Worker {
+    fn new(id: usize) -> io::Result<Worker> {
         let (sender, receiver) = sync_channel::<Action>(0);
         let initialized = Arc::new(AtomicBool::new(false));
         let t_initialized = Arc::clone(&initialized);
-        let handle = std::thread::spawn(move || loop {
+        let handle = thread::Builder::new().spawn(move || loop {
             t_initialized.store(true, Ordering::SeqCst);
             let res = receiver.recv();
             if let Ok(action) = res {
@@ -26,16 +27,16 @@ impl Worker {
             }
             debug!("woker: {} stopped", id.to_string());
             break;
-        });
+        })?;
         // Wait for the thread to be initialized.
         while !initialized.load(Ordering::SeqCst) {
             thread::yield_now();
         }
-        Worker {
+        Ok(Worker {
             id,
             handle: Some(handle),
             sender: Some(sender),
-        }
+        })
     }
 
     fn exec(&self, action: Action) -> Result<(), Action> {
@@ -68,8 +69,16 @@ impl Static {
     pub fn new(size: usize) -> Static {
         let mut workers = Vec::with_capacity(size);
         for i in 0..size {
-            workers.push(Worker::new(i));
+            match Worker::new(i) {
+                Ok(worker) => workers.push(worker),
+                Err(err) => {
+                    error!("error creating a worker: {}", err);
+                    break;
+                }
+            }
         }
+        // There could be less workers than the requested ones.
+        let size = workers.len();
         Static {
             size,
             next: 0,
@@ -78,6 +87,9 @@ impl Static {
     }
 
     pub fn run(&mut self, action: Action) -> Result<(), PoolError> {
+        if self.size == 0 {
+            return Err(PoolError { action });
+        }
         let mut action = match self.workers[self.next].exec(action) {
             Ok(_) => {
                 debug!(
-- 
2.43.0


From 51f9fba0d0ef0965269b3929f8810c388cbf8a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:05 +0000
Subject: [PATCH 27/38] fix: starting the server returns the errors of the
 system instead of panicking

---
 wruster/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 2b3c905..852f23b 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -300,12 +300,11 @@ impl Server {
             Ok(listener) => listener,
             Err(err) => return Err(Box::new(err)),
         };
-        listener.set_nonblocking(true).unwrap();
-        let poller = polling::Poller::new().unwrap();
-        poller.add(&listener, Event::readable(1)).unwrap();
+        listener.set_nonblocking(true)?;
+        let poller = polling::Poller::new()?;
+        poller.add(&listener, Event::readable(1))?;
         let poller = Arc::new(poller);
         let epoller = Arc::clone(&poller);
-        self.poller = Some(poller);
         info!("listening on {}", &addr);
         let routes = Arc::new(routes);
         let execunits = match thread::available_parallelism() {
@@ -327,7 +326,7 @@ impl Server {
         let stop = Arc::clone(&self.stop);
         let timeouts = self.timeouts.clone();
 
-        let handle = thread::spawn(move || {
+        let handle = thread::Builder::new().spawn(move || {
             Self::accept_connections(
                 timeouts,
                 stop,
@@ -337,8 +336,9 @@ impl Server {
                 routes,
                 stream_builder,
             )
-        });
+        })?;
 
+        self.poller = Some(poller);
         self.handle = Some(handle);
         self.addr = Some(String::from(addr));
         Ok(())
-- 
2.43.0


From 2d4275bf78f44b926ab9336618909dccdd08d251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:05 +0000
Subject: [PATCH 28/38] fix: do not repeat the Content-Length of a request
 without body

---
 wruster/src/http/headers.rs | 6 ++++++
 wruster/src/http/mod.rs     | 5 ++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index ab293b1..e7d0c57 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -138,6 +138,12 @@ impl Headers {
         self.headers.get(name)
     }
 
+    /// Returns true if the headers announce the length of the body.
+    pub(crate) fn has_content_length(&self) -> bool {
+        self.iter()
+            .any(|(name, _)| name.eq_ignore_ascii_case("Content-Length"))
+    }
+
     /**
     Writes the headers to a type implementing [``io::Write``]
     according to the spec: <https://datatracker.ietf.org/doc/html/rfc7230>.
diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index f68d2aa..2e10d67 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -141,7 +141,7 @@ impl Request {
         };
 
         start_line.write(to)?;
-        if self.body.is_none() {
+        if self.body.is_none() && !self.headers.has_content_length() {
             self.headers.add(Header {
                 name: String::from("Content-Length"),
                 value: String::from("0"),
@@ -644,8 +644,7 @@ impl Response {
         start_line.write(to)?;
         // Without the length of the body the client is not able to know where
         // the response ends in a persistent connection.
-        let is_content_length = |name: &str| name.eq_ignore_ascii_case("Content-Length");
-        if !self.headers.iter().any(|(name, _)| is_content_length(name)) {
+        if !self.headers.has_content_length() {
             let length = self.body.as_ref().map_or(0, |body| body.content_length);
             self.headers.add(Header {
                 name: String::from("Content-Length"),
-- 
2.43.0


From a94fc637768b1099369fbf21596feab5bf8d0db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 29/38] fix: the client announces the length of the body of a
 request

---
 wruster/src/http/client/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index b387504..f9404c2 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -97,7 +97,7 @@ impl<'a> Client {
         Self { connection_pool }
     }
 
-    pub fn run(&'a self, addr: &str, request: Request) -> Result<ClientResponse, HttpError> {
+    pub fn run(&'a self, addr: &str, mut request: Request) -> Result<ClientResponse, HttpError> {
         let persistent = request.is_connection_persistent();
         let conn = match persistent {
             true => self.idle_connection(addr)?,
@@ -113,6 +113,16 @@ impl<'a> Client {
         let stream = conn.try_clone().map_err(HttpError::from)?;
         let mut stream = TimeoutStream::from(stream, Some(read_timeout), Some(write_timeout));
         let may_have_body = !matches!(request.method, HttpMethod::HEAD);
+        // Without the length of the body the server is not able to know where
+        // the request ends.
+        if let Some(length) = request.body.as_ref().map(|body| body.content_length) {
+            if !request.headers.has_content_length() {
+                request.headers.add(Header {
+                    name: String::from("Content-Length"),
+                    value: length.to_string(),
+                });
+            }
+        }
         request.write(&mut stream)?;
         stream.flush().map_err(HttpError::from)?;
         let reader = SharedReader::new(stream);
-- 
2.43.0


From 7777b61fb9b7568887504d57efa6c27985ac145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 30/38] fix: the client skips the interim responses

---
 wruster/src/http/client/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index f9404c2..8413b59 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -126,8 +126,14 @@ impl<'a> Client {
         request.write(&mut stream)?;
         stream.flush().map_err(HttpError::from)?;
         let reader = SharedReader::new(stream);
-        let (response, version) =
-            Response::read_from_buffered(reader.unbuffered(), may_have_body)?;
+        let (response, version) = loop {
+            let (response, version) =
+                Response::read_from_buffered(reader.unbuffered(), may_have_body)?;
+            // The final response comes after the interim ones.
+            if !Self::is_interim(&response) {
+                break (response, version);
+            }
+        };
         let body_length = response.body.as_ref().map_or(0, |body| body.content_length);
         let reusable = persistent && Self::is_reusable(&response, &version, may_have_body);
         let response_end = match reusable {
@@ -169,6 +175,13 @@ impl<'a> Client {
         conn.set_nonblocking(false).is_ok() && idle
     }
 
+    /// Returns true if there is another response to the same request after the
+    /// given one.
+    fn is_interim(response: &Response) -> bool {
+        let code: usize = (&response.status).into();
+        (100..200).contains(&code) && code != 101
+    }
+
     /// Returns true if, according to a response, its connection can be used
     /// for other requests.
     fn is_reusable(response: &Response, version: &str, may_have_body: bool) -> bool {
-- 
2.43.0


From 7b0e749c0ad433ae4933d8a042ddb1feddc10898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:55 +0000
Subject: [PATCH 31/38] fix: accept header fields with an empty value

---
 wruster/src/http/headers.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index e7d0c57..cfa1f1c 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -297,16 +297,8 @@ impl Header {
             );
             return Err(InvalidRequest("invalid header name line".to_string()));
         };
-        // The header value must have at least one octed.
+        // The value of a header can be empty.
         let mut header_value_start = i + 1;
-        let header_value_length = line.len() - header_value_start;
-        if header_value_length < 1 {
-            debug!(
-                "invalid header value line: {}",
-                String::from_utf8_lossy(line)
-            );
-            return Err(InvalidRequest("invalid header name value".to_string()));
-        };
         // We don't support folding so the field-value = field-content.
         let mut field_value = String::new();
         // Skip the initial optional white space if any.
-- 
2.43.0


From 62eb606a86f5ab1f00a9781777404ce7a59c0109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:37 +0000
Subject: [PATCH 32/38] fix: no bytes after the headers in the responses to
 HEAD requests and with status 204 or 304

---
 wruster/src/http/mod.rs | 25 ++++++++++++++++++++-----
 wruster/src/lib.rs      |  5 ++++-
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 2e10d67..98bbe93 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -642,6 +642,26 @@ impl Response {
             reason_phrase: self.status.clone().into(),
         };
         start_line.write(to)?;
+        self.ensure_content_length();
+        self.headers.write(to)?;
+        match self.body.as_mut() {
+            // The responses with these statuses end with their headers.
+            Some(_) if matches!(self.status, StatusCode::NoContent | StatusCode::NotModified) => {
+                Ok(())
+            }
+            Some(body) => body.write(to).map_err(HttpError::from),
+            None => Ok(()),
+        }
+    }
+
+    /// Removes the body of the response but not its length, that's the way to
+    /// answer a HEAD request.
+    pub(crate) fn discard_body(&mut self) {
+        self.ensure_content_length();
+        self.body = None;
+    }
+
+    fn ensure_content_length(&mut self) {
         // Without the length of the body the client is not able to know where
         // the response ends in a persistent connection.
         if !self.headers.has_content_length() {
@@ -651,11 +671,6 @@ impl Response {
                 value: length.to_string(),
             })
         }
-        self.headers.write(to)?;
-        match self.body.as_mut() {
-            Some(body) => body.write(to).map_err(HttpError::from),
-            None => Ok(()),
-        }
     }
 
     /// Creates a Request with the given http [``StatusCode``].
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 852f23b..88214ef 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -636,7 +636,10 @@ where
             let body_length = request.body.as_ref().map_or(0, |body| body.content_length);
             request_end = reader.consumed().saturating_add(body_length);
             connection_open = is_connection_persistent(&request);
-            let response = run_action(&mut request, routes);
+            let mut response = run_action(&mut request, routes);
+            if request.method == HttpMethod::HEAD {
+                response.discard_body();
+            }
             (Some(request), response)
         }
         Err(err) => match err {
-- 
2.43.0


From c706f9e3fa149a7ace02ad4a36b09783ca672d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 33/38] fix: a handler that changes the method of a request
 broke the framing of its response

---
 wruster/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 88214ef..dc16970 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -636,8 +636,10 @@ where
             let body_length = request.body.as_ref().map_or(0, |body| body.content_length);
             request_end = reader.consumed().saturating_add(body_length);
             connection_open = is_connection_persistent(&request);
+            // The handler can change the method of the request.
+            let is_head = request.method == HttpMethod::HEAD;
             let mut response = run_action(&mut request, routes);
-            if request.method == HttpMethod::HEAD {
+            if is_head {
                 response.discard_body();
             }
             (Some(request), response)
-- 
2.43.0


From c4da5fe25338adb92cdbaf6640ab734881404c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 34/38] fix: run_tls returns an error when the key or the
 certificate can not be used

The server started with any key and certificate and then failed every
connection.
---
 wruster/src/lib.rs             |  3 +++
 wruster/src/streams/tls/mod.rs | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index dc16970..1a6c426 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -265,6 +265,7 @@ impl Server {
     This function will return an error if:
     * The address is wrong formatted or not free.
     * The server is already started.
+    * The key or the certificate can not be used.
 
      */
     pub fn run_tls(
@@ -274,6 +275,8 @@ impl Server {
         key: PrivateKey,
         cert: Certificate,
     ) -> ServerResult {
+        // Otherwise the server would start and fail every connection.
+        tls::server_config(key.clone(), cert.clone())?;
         self.start(addr, routes, move |stream: TcpStream| {
             let stream = tls::Stream::new(stream, key.clone(), cert.clone())?;
             CancellableStream::new(stream)
diff --git a/wruster/src/streams/tls/mod.rs b/wruster/src/streams/tls/mod.rs
index bdb5881..f7ee6a4 100644
--- a/wruster/src/streams/tls/mod.rs
+++ b/wruster/src/streams/tls/mod.rs
@@ -21,18 +21,24 @@ pub struct Stream {
     stream: Mutex<StreamOwned<ServerConnection, TcpStream>>,
 }
 
+/// Builds the TLS configuration of a server, it returns an error if the given
+/// key or certificate can not be used.
+pub fn server_config(private_key: PrivateKey, cert: Certificate) -> io::Result<ServerConfig> {
+    let cert_chain = vec![cert.0];
+    ServerConfig::builder()
+        .with_safe_defaults()
+        .with_no_client_auth()
+        .with_single_cert(cert_chain, private_key.0)
+        .map_err(|err| io::Error::new(io::ErrorKind::Other, err))
+}
+
 impl Stream {
     pub fn new(
         stream: TcpStream,
         private_key: PrivateKey,
         cert: Certificate,
     ) -> Result<Self, io::Error> {
-        let cert_chain = vec![cert.0];
-        let tls_config = ServerConfig::builder()
-            .with_safe_defaults()
-            .with_no_client_auth()
-            .with_single_cert(cert_chain, private_key.0)
-            .map_err(|err| io::Error::new(io::ErrorKind::Other, err))?;
+        let tls_config = server_config(private_key, cert)?;
         let plain_stream = stream.try_clone()?;
         let tls_config = Arc::new(tls_config);
         let connection = ServerConnection::new(Arc::clone(&tls_config))
-- 
2.43.0


From cfff407f4230f8fddc0777335e97695d20e2c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:58 +0000
Subject: [PATCH 35/38] fix: wrusdummy refuses to start with a status that is
 not one

A status without exactly three digits in the configuration produced
responses with a malformed status line.
---
 wrusdummy/src/main.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wrusdummy/src/main.rs b/wrusdummy/src/main.rs
index db507ab..24aea0a 100644
--- a/wrusdummy/src/main.rs
+++ b/wrusdummy/src/main.rs
@@ -36,6 +36,13 @@ fn main() {
             error!("parsing http method in route {}: {}", &name, err);
             process::exit(1);
         });
+        if !(100..=999).contains(&route.response.status) {
+            error!(
+                "invalid status in route {}: {}",
+                &name, route.response.status
+            );
+            process::exit(1);
+        }
         let status = StatusCode::from(route.response.status as usize);
         let path = route.path.clone();
         let content = route.response.content.clone();
-- 
2.43.0


From ba5d7ea393df5d0bfff807cd85b96ec03fa434ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 36/38] fix: PrivateKey::read_from finds a key that comes after
 other items of the file

---
 wruster/src/streams/tls/mod.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/wruster/src/streams/tls/mod.rs b/wruster/src/streams/tls/mod.rs
index f7ee6a4..1bd2f76 100644
--- a/wruster/src/streams/tls/mod.rs
+++ b/wruster/src/streams/tls/mod.rs
@@ -225,18 +225,23 @@ impl PrivateKey {
             }
         })?;
         let mut reader = BufReader::new(keyfile);
-        match rustls_pemfile::read_one(&mut reader)? {
-            Some(rustls_pemfile::Item::RSAKey(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
-            Some(rustls_pemfile::Item::PKCS8Key(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
-            Some(rustls_pemfile::Item::ECKey(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
-            None => Err(io::Error::new(
-                io::ErrorKind::Other,
-                format!("no private key found in {} ", path),
-            )),
-            _ => Err(io::Error::new(
-                io::ErrorKind::Other,
-                format!("no private key found in {} ", path),
-            )),
+        // The file can also contain other items, e.g.: a certificate, before the
+        // private key.
+        loop {
+            match rustls_pemfile::read_one(&mut reader)? {
+                Some(rustls_pemfile::Item::RSAKey(key))
+                | Some(rustls_pemfile::Item::PKCS8Key(key))
+                | Some(rustls_pemfile::Item::ECKey(key)) => {
+                    return Ok(PrivateKey(rustls::PrivateKey(key)))
+                }
+                Some(_) => continue,
+                None => {
+                    return Err(io::Error::new(
+                        io::ErrorKind::Other,
+                        format!("no private key found in {} ", path),
+                    ))
+                }
+            }
         }
     }
 }
-- 
2.43.0


From acd1161cb9c8e4660f6cacbc0bc8f002a5e13b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 37/38] fix: an exceeded time limit is reported as a timeout
 wherever it happens in a message

---
 wruster/src/http/headers.rs | 10 +++++-----
 wruster/src/http/mod.rs     | 16 ++++++----------
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index cfa1f1c..d0ed02c 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -188,7 +188,7 @@ impl Headers {
 
         let written = to.write_all("\r\n".as_bytes());
         if let Err(err) = written {
-            return Err(HttpError::Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         Ok(())
     }
@@ -369,19 +369,19 @@ impl Header {
         let mut written = to.write_all(self.name.as_bytes());
         if let Err(err) = written {
             debug!("error writing Header: {:?}", err);
-            return Err(HttpError::Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         written = to.write_all(": ".as_bytes());
         if let Err(err) = written {
-            return Err(HttpError::Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         written = to.write_all(self.value.as_bytes());
         if let Err(err) = written {
-            return Err(HttpError::Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         written = to.write_all("\r\n".as_bytes());
         if let Err(err) = written {
-            return Err(HttpError::Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         Ok(())
     }
diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 98bbe93..b0f576f 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -20,7 +20,7 @@ use headers::*;
 use mime::Mime;
 
 use crate::errors::HttpError;
-use crate::errors::HttpError::{ConnectionClosed, InvalidRequest, Timeout, Unknown};
+use crate::errors::HttpError::{ConnectionClosed, InvalidRequest, Unknown};
 
 /// Contains a HTTP client implementation.
 pub mod client;
@@ -379,7 +379,7 @@ impl Body {
             _ => io::copy(src, to),
         };
         match res {
-            Err(err) => Err(HttpError::Unknown(err.to_string())),
+            Err(err) => Err(HttpError::from(err)),
             Ok(n) if n != self.content_length => {
                 let msg = format!("body too short, {} bytes of {}", n, self.content_length);
                 Err(HttpError::Unknown(msg))
@@ -810,11 +810,7 @@ impl HttpResponseLine {
         // Status-Line = HTTP-Version SP Status-Code SP Reason-Phrase CRLF
         let mut http_version = Vec::new();
         if let Err(err) = from.read_until(b' ', &mut http_version) {
-            let err = match err.kind() {
-                io::ErrorKind::TimedOut => Err(Timeout),
-                _ => Err(Unknown(err.to_string())),
-            };
-            return err;
+            return Err(HttpError::from(err));
         };
 
         if http_version.is_empty() {
@@ -826,7 +822,7 @@ impl HttpResponseLine {
         Self::validate_version(&http_version)?;
         let mut status_code = Vec::new();
         if let Err(err) = from.read_until(b' ', &mut status_code) {
-            return Err(Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         let mut status_code = String::from_utf8_lossy(&status_code).to_string();
         if status_code.len() != 4 {
@@ -840,7 +836,7 @@ impl HttpResponseLine {
         let status_code = StatusCode::from(status_code);
         let mut reason_phrase = Vec::new();
         if let Err(err) = from.read_until(b'\n', &mut reason_phrase) {
-            return Err(Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         if !reason_phrase.ends_with(b"\r\n") {
             return Err(Unknown(String::from("invalid reason phrase")));
@@ -891,7 +887,7 @@ impl HttpResponseLine {
         // let payload = format!("HTTP/1.1 {:#}\r\n", self.status);
         let payload = format!("{} {}\r\n", self.http_version, self.status_code);
         if let Err(err) = to.write_all(payload.as_bytes()) {
-            return Err(HttpError::Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         Ok(())
     }
-- 
2.43.0


From 5207fbafd2912bfefca1e3c32f2c8dc22280dae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:28 +0000
Subject: [PATCH 38/38] fix: reject responses whose status code or version has
 a sign or white space

---
 wruster/src/http/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index b0f576f..fb361db 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -818,7 +818,9 @@ impl HttpResponseLine {
         }
 
         let mut http_version = String::from_utf8_lossy(&http_version).to_string();
-        http_version = http_version.trim_end().to_string();
+        if http_version.ends_with(' ') {
+            http_version.pop();
+        }
         Self::validate_version(&http_version)?;
         let mut status_code = Vec::new();
         if let Err(err) = from.read_until(b' ', &mut status_code) {
@@ -829,6 +831,10 @@ impl HttpResponseLine {
             return Err(Unknown(format!("invalid status code: {}", status_code)));
         };
         status_code = status_code.trim_end().to_string();
+        // Status-Code = 3DIGIT
+        if status_code.len() != 3 || !status_code.bytes().all(|c| c.is_ascii_digit()) {
+            return Err(Unknown(format!("invalid status code: {}", status_code)));
+        };
         let status_code = match status_code.parse::<usize>() {
             Err(error) => return Err(Unknown(error.to_string())),
             Ok(code) => code,
@@ -866,6 +872,12 @@ impl HttpResponseLine {
             return Err(Unknown(format!("invalid http version: {}", version)));
         }
 
+        // The parser of integers also accepts a sign.
+        let is_digit = |c: u8| c.is_ascii_digit() || c == b'.';
+        if !parts[1].bytes().all(is_digit) {
+            return Err(Unknown(format!("invalid http version: {}", version)));
+        }
+
         if let Err(error) = digits_parts[0].parse::<u8>() {
             return Err(Unknown(format!(
                 "invalid http version: {} {}",
-- 
2.43.0

