From 10c43b86e575fdf45571628d13f123229344fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 1/8] fix: dot-stuff a message that starts with a dot

---
 src/codec.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index b91bcdf..e0eabb3 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -6,7 +6,7 @@ use tokio::io::{AsyncWrite as Write, AsyncWriteExt};
 use futures::io;
 
 /// The codec used for transparency
-#[derive(Default, Clone, Copy, Debug)]
+#[derive(Clone, Copy, Debug)]
 pub struct ClientCodec {
     escape_count: u8,
 }
@@ -14,7 +14,15 @@ pub struct ClientCodec {
 impl ClientCodec {
     /// Creates a new client codec
     pub fn new() -> Self {
-        ClientCodec::default()
+        // The message starts at the beginning of a line,
+        // so a leading dot has to be escaped.
+        ClientCodec { escape_count: 2 }
+    }
+}
+
+impl Default for ClientCodec {
+    fn default() -> Self {
+        Self::new()
     }
 }
 
-- 
2.43.0


From f739d4c3ba2c715413a2df5c3d2a2c0669c30dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 2/8] fix: dot-stuff after a line ending preceded by a CR

---
 src/codec.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index e0eabb3..339dd55 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -47,7 +47,13 @@ impl ClientCodec {
                 for (idx, byte) in frame.iter().enumerate() {
                     match self.escape_count {
                         0 => self.escape_count = if *byte == b'\r' { 1 } else { 0 },
-                        1 => self.escape_count = if *byte == b'\n' { 2 } else { 0 },
+                        1 => {
+                            self.escape_count = match *byte {
+                                b'\n' => 2,
+                                b'\r' => 1,
+                                _ => 0,
+                            }
+                        }
                         2 => {
                             self.escape_count = if *byte == b'.' {
                                 3
-- 
2.43.0


From 2d2f3cddbd2c112fcabfa463907cd2111a86850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 3/8] fix: send the end-of-data marker only once for an empty
 message

---
 src/stream.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index cf8153b..69053e1 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -108,7 +108,9 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
         message_reader.read_to_end(&mut message_bytes).await?;
 
         let res: Result<(), Error> = async {
-            codec.encode(&message_bytes, &mut self.inner).await?;
+            if !message_bytes.is_empty() {
+                codec.encode(&message_bytes, &mut self.inner).await?;
+            }
             self.inner.write_all(b"\r\n.\r\n").await?;
             self.inner.flush().await?;
             Ok(())
-- 
2.43.0


From 51d775ce593c3401a67e9025265c1c68afa44fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:30 +0000
Subject: [PATCH 4/8] fix: consume all replies to a pipelined group before
 failing

Returning at the first rejection left the replies to the remaining
commands unread, so that they were taken for the replies to later
commands. DATA is not pipelined anymore, because there is no way to
abort the transaction if DATA is accepted although a recipient was
rejected.
---
 src/smtp_client.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 0dc3697..a036df2 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -227,12 +227,20 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
                 sent_commands += 1;
             }
 
-            // Data
-            self.stream.send_command(DataCommand).await?;
-            sent_commands += 1;
-
+            // Consume the replies to all commands even if some of them are rejected,
+            // so that replies and commands do not get out of step.
+            let mut rejection = None;
             for _ in 0..sent_commands {
-                self.stream.read_response().await?;
+                match self.stream.read_response().await {
+                    Ok(_) => {}
+                    Err(err @ Error::Transient(_)) | Err(err @ Error::Permanent(_)) => {
+                        rejection.get_or_insert(err);
+                    }
+                    Err(err) => return Err(err),
+                }
+            }
+            if let Some(err) = rejection {
+                return Err(err);
             }
         } else {
             self.stream
@@ -250,11 +258,14 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
                 // Log the rcpt command
                 debug!("to=<{}>", to_address);
             }
-
-            // Data
-            self.stream.command(DataCommand).await?;
         }
 
+        // Data
+        //
+        // Not part of the pipelined group: if it was accepted although some of
+        // the recipients were rejected, the transaction could not be aborted anymore.
+        self.stream.command(DataCommand).await?;
+
         let res = self.stream.message(email.message()).await;
 
         // Message content
-- 
2.43.0


From 00e89345870a6c8207222857184fd60de7083ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 5/8] fix: never leave an AUTH exchange open and accept success
 after the last challenge

---
 src/smtp_client.rs | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index a036df2..6e18af3 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -175,23 +175,28 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             .command(AuthCommand::new(mechanism, credentials.clone(), None)?)
             .await?;
 
-        while challenges > 0 && response.has_code(334) {
-            challenges -= 1;
-            response = self
-                .stream
-                .command(AuthCommand::new_from_response(
-                    mechanism,
-                    credentials.clone(),
-                    &response,
-                )?)
-                .await?;
+        while response.has_code(334) {
+            let command = if challenges > 0 {
+                challenges -= 1;
+                AuthCommand::new_from_response(mechanism, credentials.clone(), &response)
+            } else {
+                Err(Error::ResponseParsing("Unexpected number of challenges"))
+            };
+            match command {
+                Ok(command) => response = self.stream.command(command).await?,
+                Err(err) => {
+                    // The server is waiting for a response, so cancel the exchange.
+                    // Otherwise the next command would be taken for the response.
+                    match self.stream.command("*\r\n").await {
+                        Ok(_) | Err(Error::Transient(_)) | Err(Error::Permanent(_)) => {}
+                        Err(err) => return Err(err),
+                    }
+                    return Err(err);
+                }
+            }
         }
 
-        if challenges == 0 {
-            Err(Error::ResponseParsing("Unexpected number of challenges"))
-        } else {
-            Ok(response)
-        }
+        Ok(response)
     }
 
     /// Sends an email.
-- 
2.43.0


From 80754ef53e6886e6ad9643dbe273b5bb854cdea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 6/8] fix: accept replies without text

---
 src/response.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 82c7966..a0d4bc7 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -9,7 +9,7 @@ use std::string::ToString;
 use nom::{
     branch::alt,
     bytes::streaming::{tag, take_until},
-    combinator::{complete, map},
+    combinator::{complete, map, peek},
     multi::many0,
     sequence::{preceded, tuple},
     IResult,
@@ -227,8 +227,14 @@ pub(crate) fn parse_response(i: &str) -> IResult<&str, Response> {
         preceded(tag("-"), take_until("\r\n")),
         tag("\r\n"),
     )))(i)?;
-    let (i, (last_code, last_line)) =
-        tuple((parse_code, preceded(tag(" "), take_until("\r\n"))))(i)?;
+    let (i, (last_code, last_line)) = tuple((
+        parse_code,
+        alt((
+            preceded(tag(" "), take_until("\r\n")),
+            // The space and the text are optional.
+            map(peek(tag("\r\n")), |_| ""),
+        )),
+    ))(i)?;
     let (i, _) = complete(tag("\r\n"))(i)?;
 
     // Check that all codes are equal.
-- 
2.43.0


From 4e0caaff0f1c1ea65f80c9c87be18fb0c6cb701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 7/8] fix: recognise EHLO keywords regardless of their case

---
 src/extension.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/extension.rs b/src/extension.rs
index c4a53ae..659c0d1 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -148,6 +148,8 @@ impl ServerInfo {
                 continue;
             }
 
+            // Keywords are case insensitive.
+            let line = line.to_ascii_uppercase();
             let split: Vec<&str> = line.split_whitespace().collect();
             match split.first().copied() {
                 Some("PIPELINING") => {
-- 
2.43.0


From 5cd22f705652bbd8263f1d31e414c84eaa7a04cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 8/8] fix: encode all control characters as two digits in xtext

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e6fa07d..27ba38e 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -11,13 +11,13 @@ pub struct XText<'a>(pub &'a str);
 impl<'a> Display for XText<'a> {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         let mut rest = self.0;
-        while let Some(idx) = rest.find(|c| c < '!' || c == '+' || c == '=') {
+        while let Some(idx) = rest.find(|c| c < '!' || c == '+' || c == '=' || c == '\x7f') {
             let (start, end) = rest.split_at(idx);
             f.write_str(start)?;
 
             let mut end_iter = end.char_indices();
             let (_, c) = end_iter.next().expect("char");
-            write!(f, "+{:X}", c as u8)?;
+            write!(f, "+{:02X}", c as u8)?;
 
             if let Some((idx, _)) = end_iter.next() {
                 rest = &end[idx..];
-- 
2.43.0

