From 452a5240855d97612a6b863461c490ee2b6277cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 01/12] fix: escape a dot at the very beginning of a message

---
 src/codec.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index b91bcdf..f37a87c 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -6,7 +6,7 @@ use tokio::io::{AsyncWrite as Write, AsyncWriteExt};
 use futures::io;
 
 /// The codec used for transparency
-#[derive(Default, Clone, Copy, Debug)]
+#[derive(Clone, Copy, Debug)]
 pub struct ClientCodec {
     escape_count: u8,
 }
@@ -14,7 +14,8 @@ pub struct ClientCodec {
 impl ClientCodec {
     /// Creates a new client codec
     pub fn new() -> Self {
-        ClientCodec::default()
+        // A message begins at the start of a line.
+        ClientCodec { escape_count: 2 }
     }
 }
 
@@ -31,7 +32,7 @@ impl ClientCodec {
                     2 => buf.write_all(b".\r\n").await?,
                     _ => unreachable!(),
                 }
-                self.escape_count = 0;
+                self.escape_count = 2;
                 Ok(())
             }
             _ => {
-- 
2.43.0


From bbbf47702eeb02126519451dd69f14ce35bb5ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 02/12] fix: escape a dot on a line after CR CR LF

---
 src/codec.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index f37a87c..6fbcc8f 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -40,7 +40,15 @@ impl ClientCodec {
                 for (idx, byte) in frame.iter().enumerate() {
                     match self.escape_count {
                         0 => self.escape_count = if *byte == b'\r' { 1 } else { 0 },
-                        1 => self.escape_count = if *byte == b'\n' { 2 } else { 0 },
+                        1 => {
+                            self.escape_count = if *byte == b'\n' {
+                                2
+                            } else if *byte == b'\r' {
+                                1
+                            } else {
+                                0
+                            }
+                        }
                         2 => {
                             self.escape_count = if *byte == b'.' {
                                 3
-- 
2.43.0


From 80fac6ad91a0b9e8723d619c4823ba500965e57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 03/12] fix: end each message once and without an additional
 blank line

---
 src/stream.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index cf8153b..d05dd23 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -108,8 +108,11 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
         message_reader.read_to_end(&mut message_bytes).await?;
 
         let res: Result<(), Error> = async {
-            codec.encode(&message_bytes, &mut self.inner).await?;
-            self.inner.write_all(b"\r\n.\r\n").await?;
+            if !message_bytes.is_empty() {
+                codec.encode(&message_bytes, &mut self.inner).await?;
+            }
+            // An empty frame ends the message, adding CRLF only if the last line is not complete.
+            codec.encode(&[], &mut self.inner).await?;
             self.inner.flush().await?;
             Ok(())
         }
-- 
2.43.0


From a0c6bc8a5a86bb10ba4cd3e7b8cce21617d6b3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 04/12] fix: accept replies without text after the code

---
 src/response.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 82c7966..1effead 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -9,7 +9,7 @@ use std::string::ToString;
 use nom::{
     branch::alt,
     bytes::streaming::{tag, take_until},
-    combinator::{complete, map},
+    combinator::{complete, map, peek},
     multi::many0,
     sequence::{preceded, tuple},
     IResult,
@@ -227,8 +227,14 @@ pub(crate) fn parse_response(i: &str) -> IResult<&str, Response> {
         preceded(tag("-"), take_until("\r\n")),
         tag("\r\n"),
     )))(i)?;
-    let (i, (last_code, last_line)) =
-        tuple((parse_code, preceded(tag(" "), take_until("\r\n"))))(i)?;
+    let (i, (last_code, last_line)) = tuple((
+        parse_code,
+        alt((
+            preceded(tag(" "), take_until("\r\n")),
+            // The text may be left out together with the space.
+            map(peek(tag("\r\n")), |_| ""),
+        )),
+    ))(i)?;
     let (i, _) = complete(tag("\r\n"))(i)?;
 
     // Check that all codes are equal.
-- 
2.43.0


From 040d1e94d0c7f4cd72b4323ca4b95fb2a4d0205d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 05/12] fix: encode all control characters as two hexadecimal
 digits in xtext

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e6fa07d..27ba38e 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -11,13 +11,13 @@ pub struct XText<'a>(pub &'a str);
 impl<'a> Display for XText<'a> {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         let mut rest = self.0;
-        while let Some(idx) = rest.find(|c| c < '!' || c == '+' || c == '=') {
+        while let Some(idx) = rest.find(|c| c < '!' || c == '+' || c == '=' || c == '\x7f') {
             let (start, end) = rest.split_at(idx);
             f.write_str(start)?;
 
             let mut end_iter = end.char_indices();
             let (_, c) = end_iter.next().expect("char");
-            write!(f, "+{:X}", c as u8)?;
+            write!(f, "+{:02X}", c as u8)?;
 
             if let Some((idx, _)) = end_iter.next() {
                 rest = &end[idx..];
-- 
2.43.0


From d62e069f38846ccc07fa76eeb819ef7971c4bb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 06/12] fix: match EHLO keywords in any case and not in the
 greeting line

---
 src/extension.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extension.rs b/src/extension.rs
index c4a53ae..71c320a 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -143,13 +143,15 @@ impl ServerInfo {
 
         let mut features: HashSet<Extension> = HashSet::new();
 
-        for line in response.message.as_slice() {
+        // The first line is the greeting, the others hold the extensions.
+        for line in response.message.iter().skip(1) {
             if line.is_empty() {
                 continue;
             }
 
             let split: Vec<&str> = line.split_whitespace().collect();
-            match split.first().copied() {
+            // Keywords are case-insensitive.
+            match split.first().map(|s| s.to_ascii_uppercase()).as_deref() {
                 Some("PIPELINING") => {
                     features.insert(Extension::Pipelining);
                 }
-- 
2.43.0


From ba2be345554e9a785350f0c14edd76c4f553768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 07/12] fix: report a read error in the middle of a reply line
 instead of panicking

---
 src/stream.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index d05dd23..9346748 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -69,15 +69,22 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
     /// Read an SMTP response from the wire.
     pub async fn read_response(&mut self) -> SmtpResult {
         let reader = &mut self.inner;
-        let mut buffer = String::with_capacity(100);
+        let mut buffer = Vec::with_capacity(100);
 
         loop {
-            let read = reader.read_line(&mut buffer).await?;
+            // `read_line` of async-std panics if reading fails in the middle of a line.
+            let read = reader.read_until(b'\n', &mut buffer).await?;
             if read == 0 {
                 break;
             }
-            debug!("<< {}", escape_crlf(&buffer));
-            match parse_response(&buffer) {
+            let buffer = std::str::from_utf8(&buffer).map_err(|_| {
+                std::io::Error::new(
+                    std::io::ErrorKind::InvalidData,
+                    "stream did not contain valid UTF-8",
+                )
+            })?;
+            debug!("<< {}", escape_crlf(buffer));
+            match parse_response(buffer) {
                 Ok((_remaining, response)) => {
                     if response.is_positive() {
                         return Ok(response);
-- 
2.43.0


From e7aedf32d76a84ae736ad61781770a167a8b65b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 08/12] fix: read the message before starting the transaction

---
 src/smtp_client.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 0dc3697..254bd4c 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -10,9 +10,9 @@ use crate::stream::SmtpStream;
 use crate::SendableEmail;
 
 #[cfg(feature = "runtime-async-std")]
-use async_std::io::{BufRead, Write};
+use async_std::io::{BufRead, ReadExt, Write};
 #[cfg(feature = "runtime-tokio")]
-use tokio::io::{AsyncBufRead as BufRead, AsyncWrite as Write};
+use tokio::io::{AsyncBufRead as BufRead, AsyncReadExt, AsyncWrite as Write};
 
 /// Contains client configuration
 #[derive(Debug)]
@@ -196,6 +196,13 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
     /// Sends an email.
     pub async fn send(&mut self, email: SendableEmail) -> SmtpResult {
+        // Read the whole message before the server is told about it: when reading fails,
+        // there is no transaction to take back.
+        let envelope = email.envelope().clone();
+        let mut message = Vec::new();
+        email.message().read_to_end(&mut message).await?;
+        let email = SendableEmail::new(envelope, message);
+
         // Mail
         let mut mail_options = vec![];
 
-- 
2.43.0


From e55ff5da5783c6c9a47ae7f70cd10bba7016533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 09/12] fix: keep pipelined replies in step after a rejection

---
 src/smtp_client.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 254bd4c..05f3b3d 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -234,13 +234,24 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
                 sent_commands += 1;
             }
 
-            // Data
-            self.stream.send_command(DataCommand).await?;
-            sent_commands += 1;
-
+            // Read all replies, also those after a rejection.
+            let mut rejection = None;
             for _ in 0..sent_commands {
-                self.stream.read_response().await?;
+                match self.stream.read_response().await {
+                    Ok(_) => {}
+                    Err(err) if matches!(err, Error::Transient(_) | Error::Permanent(_)) => {
+                        rejection.get_or_insert(err);
+                    }
+                    Err(err) => return Err(rejection.unwrap_or(err)),
+                }
+            }
+            if let Some(err) = rejection {
+                return Err(err);
             }
+
+            // Data, only when nothing was rejected: otherwise the server may start to wait
+            // for the message.
+            self.stream.command(DataCommand).await?;
         } else {
             self.stream
                 .command(MailCommand::new(
-- 
2.43.0


From 80f04d100d9c0ce3756d216031ab24f78d013c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 10/12] fix: bound the data in flight when pipelining

---
 src/smtp_client.rs | 56 +++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 05f3b3d..fed3fd6 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -14,6 +14,10 @@ use async_std::io::{BufRead, ReadExt, Write};
 #[cfg(feature = "runtime-tokio")]
 use tokio::io::{AsyncBufRead as BufRead, AsyncReadExt, AsyncWrite as Write};
 
+/// Limit for the commands sent before their replies are read. A server that cannot send its
+/// replies may stop reading commands, so without a limit both sides could wait forever.
+const MAX_PIPELINED_BYTES: usize = 4096;
+
 /// Contains client configuration
 #[derive(Debug)]
 pub struct SmtpClient {
@@ -194,6 +198,23 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
         }
     }
 
+    /// Reads the replies to pipelined commands, also those after a rejection.
+    ///
+    /// Returns the first rejection.
+    async fn read_pipelined_replies(&mut self, sent_commands: usize) -> Result<(), Error> {
+        let mut rejection = None;
+        for _ in 0..sent_commands {
+            match self.stream.read_response().await {
+                Ok(_) => {}
+                Err(err) if matches!(err, Error::Transient(_) | Error::Permanent(_)) => {
+                    rejection.get_or_insert(err);
+                }
+                Err(err) => return Err(rejection.unwrap_or(err)),
+            }
+        }
+        rejection.map_or(Ok(()), Err)
+    }
+
     /// Sends an email.
     pub async fn send(&mut self, email: SendableEmail) -> SmtpResult {
         // Read the whole message before the server is told about it: when reading fails,
@@ -218,36 +239,25 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             self.supports_feature(Extension::Pipelining) && self.client_info.pipelining;
 
         if pipelining {
-            self.stream
-                .send_command(MailCommand::new(
-                    email.envelope().from().cloned(),
-                    mail_options,
-                ))
-                .await?;
+            let mail = MailCommand::new(email.envelope().from().cloned(), mail_options).to_string();
+            let mut sent_bytes = mail.len();
+            self.stream.send_command(mail).await?;
             let mut sent_commands = 1;
 
             // Recipient
             for to_address in email.envelope().to() {
-                self.stream
-                    .send_command(RcptCommand::new(to_address.clone(), vec![]))
-                    .await?;
+                let rcpt = RcptCommand::new(to_address.clone(), vec![]).to_string();
+                if sent_bytes + rcpt.len() > MAX_PIPELINED_BYTES {
+                    self.read_pipelined_replies(sent_commands).await?;
+                    sent_commands = 0;
+                    sent_bytes = 0;
+                }
+                sent_bytes += rcpt.len();
+                self.stream.send_command(rcpt).await?;
                 sent_commands += 1;
             }
 
-            // Read all replies, also those after a rejection.
-            let mut rejection = None;
-            for _ in 0..sent_commands {
-                match self.stream.read_response().await {
-                    Ok(_) => {}
-                    Err(err) if matches!(err, Error::Transient(_) | Error::Permanent(_)) => {
-                        rejection.get_or_insert(err);
-                    }
-                    Err(err) => return Err(rejection.unwrap_or(err)),
-                }
-            }
-            if let Some(err) = rejection {
-                return Err(err);
-            }
+            self.read_pipelined_replies(sent_commands).await?;
 
             // Data, only when nothing was rejected: otherwise the server may start to wait
             // for the message.
-- 
2.43.0


From c2c0cfdb82973fb94f014c6d937b1df522934a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 11/12] fix: reset the transaction after a rejected envelope

---
 src/smtp_client.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index fed3fd6..85941f0 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -224,6 +224,31 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
         email.message().read_to_end(&mut message).await?;
         let email = SendableEmail::new(envelope, message);
 
+        if let Err(err) = self.send_envelope(&email).await {
+            // Take back what the server accepted, so the next email can be sent. The result
+            // does not matter. After 421 the server closes the connection.
+            if matches!(&err, Error::Transient(r) | Error::Permanent(r) if !r.has_code(421)) {
+                let _ = self.stream.command(RsetCommand).await;
+            }
+            return Err(err);
+        }
+
+        let res = self.stream.message(email.message()).await;
+
+        // Message content
+        if let Ok(result) = &res {
+            // Log the message
+            debug!(
+                "status=sent ({})",
+                result.message.get(0).unwrap_or(&"no response".to_string())
+            );
+        }
+
+        res
+    }
+
+    /// Sends the commands that precede the message.
+    async fn send_envelope(&mut self, email: &SendableEmail) -> Result<(), Error> {
         // Mail
         let mut mail_options = vec![];
 
@@ -283,17 +308,6 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             self.stream.command(DataCommand).await?;
         }
 
-        let res = self.stream.message(email.message()).await;
-
-        // Message content
-        if let Ok(result) = &res {
-            // Log the message
-            debug!(
-                "status=sent ({})",
-                result.message.get(0).unwrap_or(&"no response".to_string())
-            );
-        }
-
-        res
+        Ok(())
     }
 }
-- 
2.43.0


From 787431f5ed6e51dc201d44e33d4733805a01ab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 12/12] fix: cancel a login whose challenge cannot be answered

---
 src/smtp_client.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 85941f0..88e8f60 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -181,23 +181,28 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
         while challenges > 0 && response.has_code(334) {
             challenges -= 1;
-            response = self
-                .stream
-                .command(AuthCommand::new_from_response(
-                    mechanism,
-                    credentials.clone(),
-                    &response,
-                )?)
-                .await?;
+            let answer = AuthCommand::new_from_response(mechanism, credentials.clone(), &response);
+            if answer.is_err() {
+                self.cancel_auth().await;
+            }
+            response = self.stream.command(answer?).await?;
         }
 
-        if challenges == 0 {
+        if response.has_code(334) {
+            self.cancel_auth().await;
             Err(Error::ResponseParsing("Unexpected number of challenges"))
         } else {
             Ok(response)
         }
     }
 
+    /// Cancels a login while the server waits for the answer to a challenge.
+    ///
+    /// The server has to reject the login then, so the result does not matter.
+    async fn cancel_auth(&mut self) {
+        let _ = self.stream.command("*\r\n").await;
+    }
+
     /// Reads the replies to pipelined commands, also those after a rejection.
     ///
     /// Returns the first rejection.
-- 
2.43.0

