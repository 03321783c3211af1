From 975bbac61635c607bd5fb68c5567eb7e233fd938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 01/30] verif: add verification hooks, compiled only with --cfg
 plusendi_verif

---
 src/crc16.rs |  13 +++++++
 src/fbb.rs   | 101 +++++++++++++++++++++++++++++++++++++++++++++++++++
 src/lib.rs   |   8 ++++
 src/lzhuf.rs |  22 +++++++++++
 4 files changed, 144 insertions(+)

diff --git a/src/crc16.rs b/src/crc16.rs
index 910f466..6eca151 100644
--- a/src/crc16.rs
+++ b/src/crc16.rs
@@ -73,3 +73,16 @@ mod tests {
 
     }
 }
+
+/// Verification hooks: compiled only with `--cfg plusendi_verif`.
+#[cfg(plusendi_verif)]
+pub mod verif {
+    use super::*;
+
+    /// The CRC of `data`.
+    pub fn crc16(data: &[u8]) -> u16 {
+        let mut crc = Crc16::new();
+        data.iter().for_each(|&b| crc.update(b));
+        crc.finish()
+    }
+}
diff --git a/src/fbb.rs b/src/fbb.rs
index 4e58cbb..270bd66 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -415,3 +415,104 @@ mod tests {
     //     Err(color_eyre::eyre::eyre!("just need a forced failure"))
     // }
 }
+
+/// Verification hooks: compiled only with `--cfg plusendi_verif`.
+#[cfg(plusendi_verif)]
+pub mod verif {
+    use super::*;
+
+    /// What a parser made of its input.
+    #[derive(Debug)]
+    pub enum Outcome<T> {
+        /// Parsed, with this many bytes left over.
+        Parsed { rest: usize, value: T },
+        /// More input is needed: at least this much, when known.
+        Incomplete(Option<usize>),
+        /// Not acceptable.
+        Rejected,
+    }
+
+    fn outcome<T>(result: IResult<&[u8], T, VerboseError<&[u8]>>) -> Outcome<T> {
+        match result {
+            Ok((rest, value)) => Outcome::Parsed { rest: rest.len(), value },
+            Err(nom::Err::Incomplete(nom::Needed::Size(n))) => Outcome::Incomplete(Some(n.get())),
+            Err(nom::Err::Incomplete(nom::Needed::Unknown)) => Outcome::Incomplete(None),
+            Err(_) => Outcome::Rejected,
+        }
+    }
+
+    #[derive(Debug)]
+    pub struct MessageBlock {
+        pub title: String,
+        pub offset: u64,
+        pub crc16: u16,
+        pub uncompressed_size: u32,
+        pub compressed: Vec<u8>,
+        /// The text; `None` when the compressed data ends early or when it was not asked for.
+        pub text: Option<Vec<u8>>,
+    }
+
+    /// Receives one message block, decompressing it if `decompress`.
+    pub fn message_block(data: &[u8], decompress: bool) -> Outcome<MessageBlock> {
+        outcome(b2_message_block(data).map(|(rest, m)| (rest, MessageBlock {
+            title: m.title.to_owned(),
+            offset: m.offset as u64,
+            crc16: m.crc16,
+            uncompressed_size: m.uncompressed_size,
+            compressed: m.blocks.iter().flat_map(|b| b.iter().copied()).collect(),
+            text: if decompress { m.decompress().ok() } else { None },
+        })))
+    }
+
+    #[derive(Debug)]
+    pub struct FbbProposal {
+        pub message_type: MessageType,
+        pub sender: String,
+        pub mbo: String,
+        pub recipient: String,
+        pub message_id: String,
+        pub size: u64,
+    }
+
+    pub fn proposal(data: &[u8]) -> Outcome<FbbProposal> {
+        outcome(fbb_proposal(data).map(|(rest, p)| (rest, FbbProposal {
+            message_type: p.message_type,
+            sender: p.sender.to_string(),
+            mbo: p.addressee.mbo.to_string(),
+            recipient: p.addressee.recipient.to_string(),
+            message_id: p.message_id.to_string(),
+            size: p.message_size as u64,
+        })))
+    }
+
+    #[derive(Debug)]
+    pub struct B2Proposal {
+        pub message_id: String,
+        pub uncompressed_size: u64,
+        pub compressed_size: u64,
+        /// Sender, mailbox, recipient.
+        pub extension: Option<[String; 3]>,
+    }
+
+    pub fn b2_proposal(data: &[u8]) -> Outcome<B2Proposal> {
+        outcome(winlink_proposal(data).map(|(rest, p)| (rest, B2Proposal {
+            message_id: p.message_id.to_string(),
+            uncompressed_size: p.uncompressed_message_size as u64,
+            compressed_size: p.compressed_message_size as u64,
+            extension: p.bqp_extension.map(|x| [
+                x.sender.to_string(),
+                x.addressee.mbo.to_string(),
+                x.addressee.recipient.to_string(),
+            ]),
+        })))
+    }
+
+    /// Reads the answer to `P` proposals; accepted ones give their offset.
+    pub fn selection_of<const P: usize>(data: &[u8]) -> Outcome<Vec<(char, u64)>> {
+        outcome(selection::<P>(data).map(|(rest, choices)| (rest, choices.iter().map(|c| match c {
+            MessageChoice::Accept { offset } => ('+', *offset as u64),
+            MessageChoice::Defer => ('=', 0),
+            MessageChoice::Reject => ('-', 0),
+        }).collect())))
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index dd1adf7..62e35c6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,6 +11,14 @@ mod parser;
 pub use modem::Modem;
 pub use types::{StationId, StationIdRef};
 
+/// Verification hooks: compiled only with `--cfg plusendi_verif`.
+#[cfg(plusendi_verif)]
+pub mod verif {
+    pub use crate::crc16::verif as crc16;
+    pub use crate::fbb::verif as fbb;
+    pub use crate::lzhuf::verif as lzhuf;
+}
+
 #[derive(Debug, PartialEq, Eq)]
 pub struct Traffic {
     pub header: TrafficHeader,
diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index b807f61..1a21210 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -848,3 +848,25 @@ mod tests2 {
         Ok(())
     }
 }
+
+/// Verification hooks: compiled only with `--cfg plusendi_verif`.
+#[cfg(plusendi_verif)]
+pub mod verif {
+    use super::*;
+
+    /// Compresses `input` into a fresh buffer.
+    pub fn encode(input: &[u8]) -> Vec<u8> {
+        let mut output = Vec::new();
+        let mut encoder = Encoder::new(&mut output);
+        encoder.encode(input.iter().copied());
+        encoder.finish();
+        output
+    }
+
+    /// Decompresses `size` bytes from `input`; `None` when the data ends early.
+    pub fn decode(input: &[u8], size: usize) -> Option<Vec<u8>> {
+        let mut buffer = vec![0; size];
+        Decoder::new(input.iter().copied()).decode(&mut buffer).ok()?;
+        Some(buffer)
+    }
+}
-- 
2.43.0


From 79b8f2489712c2be66f4d29637cdd70f635dd56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 02/30] fix: decode LZHUF match positions beyond 255 bytes

The upper bits of a match position were shifted as a u8, so every match
reaching further back than 256 bytes copied the wrong text.
---
 src/lzhuf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index 1a21210..bd49f79 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -655,14 +655,14 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
     #[tracing::instrument(skip(self))]
     fn decode_position(&mut self) -> Option<u16> {
         let mut i = self.stream.get_byte()? as u16;
-        let c = DECODE_CODE[i as usize] << 6;
+        let c = (DECODE_CODE[i as usize] as u16) << 6;
         let mut j = DECODE_LEN[i as usize];
 
         j -= 2;
         for _ in (1..=j).rev() {
             i = (i << 1) + self.stream.get_bit()? as u16;
         }
-        Some(c as u16 | (i & 0x3f))
+        Some(c | (i & 0x3f))
     }
 }
 
-- 
2.43.0


From 3645b66a850e1675f34c67d598afaf351870a2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 03/30] fix: emit LZHUF codes of 16 bits and more in full

A skewed symbol distribution gives rare symbols codes longer than 16 bits,
whose leading bits were dropped; a code of exactly 16 bits at a byte boundary
overflowed a shift.
---
 src/lzhuf.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index bd49f79..c6d84bc 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -176,7 +176,7 @@ impl<'a> Bitbuffer<'a> {
                 self.output.push(self.bit_buffer as u8);
                 // self.codesize += 2;
                 self.bit_pos -= 8;
-                self.bit_buffer = c << (l - self.bit_pos) as usize;
+                self.bit_buffer = ((c as u32) << (l - self.bit_pos)) as u16;
             } else {
                 self.bit_buffer = self.bit_buffer << 8;
                 // self.codesize += 1;
@@ -497,13 +497,13 @@ impl<'a> Encoder<'a> {
     }
 
     fn encode_char(&mut self, c: u16) {
-        let mut i = 0u16;
+        let mut i = 0u32;
         let mut j = 0u8;
         let mut k = self.state.parents[(c + T) as usize];
         loop {
             i = i >> 1;
             if k & 1 != 0 {
-                i = i.wrapping_add(0x8000);
+                i = i.wrapping_add(0x8000_0000);
             }
             j += 1;
 
@@ -513,7 +513,13 @@ impl<'a> Encoder<'a> {
             }
         }
 
-        self.output.put_code(j, i);
+        // A rare symbol's code can be longer than 16 bits.
+        if j > 16 {
+            self.output.put_code(16, (i >> 16) as u16);
+            self.output.put_code(j - 16, i as u16);
+        } else {
+            self.output.put_code(j, (i >> 16) as u16);
+        }
         self.state.update(c as u16);
     }
 
-- 
2.43.0


From 5b6921c5ca8117ede6f6f536579fec2fa36f1dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 04/30] fix: compress an empty message to nothing instead of
 underflowing

---
 src/lzhuf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index c6d84bc..88f9f23 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -542,6 +542,9 @@ impl<'a> Encoder<'a> {
             }
             len += 1;
         }
+        if len == 0 {
+            return;
+        }
         for i in 1..=F {
             self.insert_node(r - i);
         }
-- 
2.43.0


From 9018eefe802afde463711e52e3e2ead6ba52feee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 05/30] fix: stop decompressing at the declared size

A match running past the declared size of the message indexed past the end of
the output and panicked.
---
 src/lzhuf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index 88f9f23..881cf90 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -639,6 +639,9 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
                 let i = (self.state.r.wrapping_sub(self.decode_position().ok_or(UnexpectedEof)?).wrapping_sub(1)) & (N - 1);
                 let j = c - 255 + THRESHOLD;
                 for k in 0..j {
+                    if count == buffer.len() {
+                        break;
+                    }
                     let c = self.state.text_buffer[((i + k) & (N - 1)) as usize];
                     buffer[count] = c;
                     self.state.update_text_buffer(c);
-- 
2.43.0


From 890254e7b52172cca2ac55a7202949d7c20648e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 06/30] fix: end the modem task when the TNC closes the control
 connection

---
 src/modem/vara.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index bc204d1..e7afe21 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -483,6 +483,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
     match stream.try_read_buf(upd_buffer) {
         Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(to_acknowledge),
         Err(err) => return Err(err.into()),
+        Ok(0) => return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "command port closed by tnc").into()),
         Ok(bytes) => {
             tracing::trace!(bytes, "received bytes from command port");
         }
-- 
2.43.0


From eb3a2f7e65a46f6ccb708dd8735f61af428136c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 07/30] fix: wait for the TNC while draining replies instead of
 spinning

---
 src/modem/vara.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index e7afe21..682d670 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -456,6 +456,7 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
     }
     tracing::info!(expected_replies = response_queue.len(), "command input closed");
     while !response_queue.is_empty() {
+        stream.readable().await?;
         let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
         for result in results {
             if let Some(reply) = response_queue.pop_front() {
-- 
2.43.0


From 1e745b5a30b952c53bf91e920bd7eaf5d2711b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 08/30] fix: log TNC lines that are not UTF-8 without panicking

---
 src/modem/vara.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 682d670..59b57b5 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -495,7 +495,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
         while data.len() > 0 {
             match line(&data).try_map_into_str().map_err(stringify_input) {
                 Ok((remaining, line)) => {
-                    tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                    tracing::trace!(line = String::from_utf8_lossy(line).as_ref(), remaining = String::from_utf8_lossy(remaining).as_ref(), "received complete line");
                     data = remaining;
 
                     match nom::combinator::all_consuming(tnc_response)(line).try_map_into_str().map_err(stringify_input).finish() {
@@ -539,7 +539,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
                     }
                 },
                 Err(err) if err.is_incomplete() => {
-                    tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                    tracing::trace!(buffer = String::from_utf8_lossy(data).as_ref(), "incomplete");
                     break
                 },
                 Err(err) => {
-- 
2.43.0


From b68c9aa3058d5ed8dd40bf24506d4e7334122c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 09/30] fix: deliver replies that precede a malformed line or
 the end of the link

---
 src/modem/vara.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 59b57b5..c074dfe 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -443,7 +443,8 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
                 }
             },
             _ = stream.readable() => {
-                let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
+                let mut results = Vec::new();
+                let outcome = do_a_thing(&mut stream, &mut upd_buffer, &mut tx, &mut results);
                 for result in results {
                     if let Some(reply) = response_queue.pop_front() {
                         let _ = reply.send(result);
@@ -451,13 +452,15 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
                         tracing::warn!("mismatched reply queue");
                     }
                 }
+                outcome?;
             }
         );
     }
     tracing::info!(expected_replies = response_queue.len(), "command input closed");
     while !response_queue.is_empty() {
         stream.readable().await?;
-        let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
+        let mut results = Vec::new();
+        let outcome = do_a_thing(&mut stream, &mut upd_buffer, &mut tx, &mut results);
         for result in results {
             if let Some(reply) = response_queue.pop_front() {
                 let _ = reply.send(result);
@@ -465,6 +468,7 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
                 tracing::warn!("mismatched reply queue");
             }
         }
+        outcome?;
     }
     tracing::info!("all replies sent; exiting command loop");
     Ok(())
@@ -478,11 +482,10 @@ fn stringify_input<T: std::fmt::Display>(error: nom::Err<VerboseError<T>>) -> no
     })
 }
 
-#[tracing::instrument(skip(stream, upd_buffer, tx), err)]
-fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut TncStatusSender) -> color_eyre::Result<Vec<CommandResult>> {
-    let mut to_acknowledge = Vec::new();
+#[tracing::instrument(skip(stream, upd_buffer, tx, to_acknowledge), err)]
+fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut TncStatusSender, to_acknowledge: &mut Vec<CommandResult>) -> color_eyre::Result<()> {
     match stream.try_read_buf(upd_buffer) {
-        Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(to_acknowledge),
+        Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(()),
         Err(err) => return Err(err.into()),
         Ok(0) => return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "command port closed by tnc").into()),
         Ok(bytes) => {
@@ -556,7 +559,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
         *upd_buffer = new;
         tracing::trace!(bytes = upd_buffer.len(), "retained incomplete parts");
     }
-    Ok(to_acknowledge)
+    Ok(())
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 3af2f1b16b46fb03ca52209cdf3798f27cb97e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 10/30] fix: let only reports made after it began settle a
 connect

---
 src/modem/vara.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index c074dfe..02ad4ed 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -755,6 +755,9 @@ impl VaraTnc {
 
     #[tracing::instrument(skip(self), err)]
     pub async fn connect<'a>(&'a mut self, from: StationId, to: StationId) -> color_eyre::Result<VaraStream<'a>> {
+        // What earlier sessions reported says nothing about this one.
+        self.status.connection.borrow_and_update();
+
         self.send_command(Command::Connect(ConnectCommand {
             origin: from,
             target: to,
-- 
2.43.0


From 2c79065dea8827cca6392fb392032992ef3a28ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 11/30] fix: discard what an earlier session left on the data
 connection

---
 src/modem/vara.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 02ad4ed..486fd80 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -757,6 +757,8 @@ impl VaraTnc {
     pub async fn connect<'a>(&'a mut self, from: StationId, to: StationId) -> color_eyre::Result<VaraStream<'a>> {
         // What earlier sessions reported says nothing about this one.
         self.status.connection.borrow_and_update();
+        let mut leftover = [0; 1024];
+        while matches!(self.data.try_read(&mut leftover), Ok(n) if n > 0) {}
 
         self.send_command(Command::Connect(ConnectCommand {
             origin: from,
-- 
2.43.0


From 984a1c51823416b2349e124103ae1f862671430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 12/30] fix: end the stream when the control session ends

---
 src/modem/vara.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 486fd80..9352772 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -783,8 +783,7 @@ impl VaraTnc {
             let (remote_dc, remote_disconnect) = tokio::sync::oneshot::channel();
             let _remote_dc = tokio::spawn(async move {
                 loop {
-                    let _ = subscriber.changed().await;
-                    if subscriber.borrow().is_disconnected() {
+                    if subscriber.changed().await.is_err() || subscriber.borrow().is_disconnected() {
                         let _ = remote_dc.send(());
                         break;
                     }
-- 
2.43.0


From 63c77cb44d11b603555d19e586a03d233be76ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 13/30] fix: do not ask for a second disconnect after a
 successful one

---
 src/modem/vara.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 9352772..4f1e6be 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -816,12 +816,16 @@ pub struct VaraStream<'a> {
 }
 
 impl<'a> VaraStream<'a> {
-    pub async fn disconnect(self) -> color_eyre::Result<()> {
-        self.tnc.send_disconnect().await
+    pub async fn disconnect(mut self) -> color_eyre::Result<()> {
+        self.tnc.send_disconnect().await?;
+        self.force_disconnect = None;
+        Ok(())
     }
 
-    pub async fn abort(self) -> color_eyre::Result<()> {
-        self.tnc.send_abort().await
+    pub async fn abort(mut self) -> color_eyre::Result<()> {
+        self.tnc.send_abort().await?;
+        self.force_disconnect = None;
+        Ok(())
     }
 }
 
-- 
2.43.0


From ba674ba2c4a1faabec0199f72d41676a6f1f52e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 14/30] fix: deliver data that arrived before the link went
 down

---
 src/modem/vara.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 4f1e6be..8a4d291 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -845,14 +845,12 @@ impl<'a> PinnedDrop for VaraStream<'a> {
 impl<'a> AsyncRead for VaraStream<'a> {
     fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        match Pin::new(&mut **this.tnc).pinned_data().poll_read(cx, buf) {
             Poll::Pending => {}
-            Poll::Ready(_) => {
-                return Poll::Ready(Ok(()));
-            }
+            ready => return ready,
         }
 
-        Pin::new(&mut **this.tnc).pinned_data().poll_read(cx, buf)
+        Pin::new(this.remote_disconnect).poll(cx).map(|_| Ok(()))
     }
 }
 
-- 
2.43.0


From 9990a5bcf665087ab4e07b724841f4a80b504980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 15/30] fix: keep the end of a stream final and wake both of
 its halves

---
 src/modem/vara.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 8a4d291..1912da8 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -780,11 +780,13 @@ impl VaraTnc {
 
         if self.status.connection.borrow().is_connected() {
             let mut subscriber = self.status.connection.clone();
-            let (remote_dc, remote_disconnect) = tokio::sync::oneshot::channel();
+            let (read_dc, read_disconnect) = tokio::sync::oneshot::channel();
+            let (write_dc, write_disconnect) = tokio::sync::oneshot::channel();
             let _remote_dc = tokio::spawn(async move {
                 loop {
                     if subscriber.changed().await.is_err() || subscriber.borrow().is_disconnected() {
-                        let _ = remote_dc.send(());
+                        let _ = read_dc.send(());
+                        let _ = write_dc.send(());
                         break;
                     }
                 }
@@ -793,7 +795,8 @@ impl VaraTnc {
             Ok(VaraStream {
                 tnc: self,
                 force_disconnect: Some(force_dc),
-                remote_disconnect: remote_disconnect,
+                read_disconnect: Some(read_disconnect),
+                write_disconnect: Some(write_disconnect),
             })
         } else if self.status.connection.borrow().is_disconnected() {
             Err(color_eyre::eyre::eyre!("failed to connect"))
@@ -812,7 +815,19 @@ impl VaraTnc {
 pub struct VaraStream<'a> {
     tnc: &'a mut VaraTnc,
     force_disconnect: Option<tokio::sync::oneshot::Sender<()>>,
-    remote_disconnect: tokio::sync::oneshot::Receiver<()>,
+    read_disconnect: Option<tokio::sync::oneshot::Receiver<()>>,
+    write_disconnect: Option<tokio::sync::oneshot::Receiver<()>>,
+}
+
+/// Ready once the signal has been given, and ever after.
+fn poll_signal(signal: &mut Option<tokio::sync::oneshot::Receiver<()>>, cx: &mut Context<'_>) -> Poll<()> {
+    if let Some(receiver) = signal {
+        if Pin::new(receiver).poll(cx).is_pending() {
+            return Poll::Pending;
+        }
+        *signal = None;
+    }
+    Poll::Ready(())
 }
 
 impl<'a> VaraStream<'a> {
@@ -850,14 +865,14 @@ impl<'a> AsyncRead for VaraStream<'a> {
             ready => return ready,
         }
 
-        Pin::new(this.remote_disconnect).poll(cx).map(|_| Ok(()))
+        poll_signal(this.read_disconnect, cx).map(Ok)
     }
 }
 
 impl<'a> AsyncWrite for VaraStream<'a> {
     fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize, Error>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        match poll_signal(this.write_disconnect, cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
@@ -869,7 +884,7 @@ impl<'a> AsyncWrite for VaraStream<'a> {
 
     fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        match poll_signal(this.write_disconnect, cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
@@ -881,7 +896,7 @@ impl<'a> AsyncWrite for VaraStream<'a> {
 
     fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        match poll_signal(this.write_disconnect, cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
@@ -893,7 +908,7 @@ impl<'a> AsyncWrite for VaraStream<'a> {
 
     fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<Result<usize, Error>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        match poll_signal(this.write_disconnect, cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
-- 
2.43.0


From 4a0a93e232a8bb7a03c80e7ae3c0338286bd580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:46 +0000
Subject: [PATCH 16/30] fix: send the release of a dropped stream before the
 next connect

---
 src/modem/vara.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 1912da8..841d77a 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -569,6 +569,7 @@ pub struct VaraTnc {
     control_channel: Sender<(Command, tokio::sync::oneshot::Sender<CommandResult>)>,
     status: TncStatusReceiver,
     managing_thread: tokio::task::JoinHandle<color_eyre::Result<()>>,
+    release: Option<tokio::task::JoinHandle<()>>,
 }
 
 fn channel() -> (TncStatusSender, TncStatusReceiver) {
@@ -654,6 +655,7 @@ impl VaraTncBuilder {
             control_channel: control_tx,
             status: status_rx,
             managing_thread,
+            release: None,
         })
     }
 
@@ -755,6 +757,11 @@ impl VaraTnc {
 
     #[tracing::instrument(skip(self), err)]
     pub async fn connect<'a>(&'a mut self, from: StationId, to: StationId) -> color_eyre::Result<VaraStream<'a>> {
+        if let Some(release) = self.release.as_mut() {
+            let _ = release.await;
+            self.release = None;
+        }
+
         // What earlier sessions reported says nothing about this one.
         self.status.connection.borrow_and_update();
         let mut leftover = [0; 1024];
@@ -768,7 +775,7 @@ impl VaraTnc {
 
         let (force_dc, force_disconnect) = tokio::sync::oneshot::channel();
         let cloned_control = self.control_channel.clone();
-        let _force_dc = tokio::spawn(async move {
+        let force_dc_task = tokio::spawn(async move {
             if let Ok(()) = force_disconnect.await {
                 let (tx, rx) = tokio::sync::oneshot::channel();
                 let _ = cloned_control.send((Command::Disconnect, tx)).await;
@@ -794,7 +801,7 @@ impl VaraTnc {
 
             Ok(VaraStream {
                 tnc: self,
-                force_disconnect: Some(force_dc),
+                force_disconnect: Some((force_dc, force_dc_task)),
                 read_disconnect: Some(read_disconnect),
                 write_disconnect: Some(write_disconnect),
             })
@@ -814,7 +821,7 @@ impl VaraTnc {
 #[pin_project::pin_project(PinnedDrop)]
 pub struct VaraStream<'a> {
     tnc: &'a mut VaraTnc,
-    force_disconnect: Option<tokio::sync::oneshot::Sender<()>>,
+    force_disconnect: Option<(tokio::sync::oneshot::Sender<()>, tokio::task::JoinHandle<()>)>,
     read_disconnect: Option<tokio::sync::oneshot::Receiver<()>>,
     write_disconnect: Option<tokio::sync::oneshot::Receiver<()>>,
 }
@@ -849,8 +856,9 @@ impl<'a> PinnedDrop for VaraStream<'a> {
     fn drop(self: Pin<&mut Self>) {
         if !self.tnc.status.connection.borrow().is_disconnected() {
             let this = self.project();
-            if let Some(dc) = this.force_disconnect.take() {
+            if let Some((dc, task)) = this.force_disconnect.take() {
                 let _ = dc.send(());
+                this.tnc.release = Some(task);
             }
             // let _ = this.force_disconnect.send(());
         }
-- 
2.43.0


From a7661ffb63bb6788f7f7497cc3f19778677367ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 17/30] fix: separate the two-hop path from the target station

---
 src/modem/vara.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 841d77a..b821456 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -202,7 +202,7 @@ impl fmt::Display for ConnectPath {
         match self {
             ConnectPath::Direct => Ok(()),
             ConnectPath::OneHop { digipeater } => write!(f, " via {}", digipeater),
-            ConnectPath::TwoHops { first, second } => write!(f, "via {} {}", first, second),
+            ConnectPath::TwoHops { first, second } => write!(f, " via {} {}", first, second),
         }
     }
 }
-- 
2.43.0


From 9b58a614c0353c810c1a0678f383910ffbede820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 18/30] fix: accept a station id only if all of it is one

---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 1fb387c..a49af35 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -5,7 +5,7 @@ use nom::error::VerboseError;
 use regex::Regex;
 use thiserror::Error;
 
-static STATION: Lazy<Regex> = lazy_regex!(r#"([0-9]?[A-Za-z]+)([0-9]+)([A-Za-z][A-Za-z0-9]*)"#);
+static STATION: Lazy<Regex> = lazy_regex!(r#"\A([0-9]?[A-Za-z]+)([0-9]+)([A-Za-z][A-Za-z0-9]*)(-[A-Za-z0-9]{1,2})?\z"#);
 
 #[derive(Debug, Error)]
 #[error("invalid station identity")]
-- 
2.43.0


From b39e72f513a01d79acb9c0faaf9f4a1d329609cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 19/30] fix: read station ids with an SSID in TNC reports

---
 src/types.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index a49af35..3a4f29e 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -33,7 +33,14 @@ impl aliri_braid::Normalizer for StationId {
 }
 
 pub fn callsign(s: &[u8]) -> nom::IResult<&[u8], &StationIdRef, VerboseError<&[u8]>> {
-    let (rest, result) = nom::bytes::complete::take_while_m_n(3,7, |c: u8| c.is_ascii_uppercase() || c.is_ascii_digit())(s)?;
+    let alphanumeric = |c: u8| c.is_ascii_uppercase() || c.is_ascii_digit();
+    let (rest, result) = nom::combinator::recognize(nom::sequence::pair(
+        nom::bytes::complete::take_while_m_n(3, 7, alphanumeric),
+        nom::combinator::opt(nom::sequence::preceded(
+            nom::bytes::complete::tag("-"),
+            nom::bytes::complete::take_while_m_n(1, 2, alphanumeric),
+        )),
+    ))(s)?;
     // let cow = if result.iter().any(|&b| b'a' <= b && b <= b'z') {
     //     Cow::Owned(unsafe { String::from_utf8_unchecked(result.to_ascii_uppercase()) })
     // } else {
-- 
2.43.0


From 7abdf2b2b4fbd775feafb898c8d559f3a0924592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 20/30] fix: end the rig task when the radio link ends

---
 src/rig/elecraft/kx3.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index c2575d3..b280ffb 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -64,6 +64,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
             result = stream.read_buf(&mut upd_buffer) => {
                 match result {
                     Err(err) => return Err(err.into()),
+                    Ok(0) => return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "radio link closed").into()),
                     Ok(bytes) => {
                         tracing::trace!(bytes, "received bytes from command port");
                     }
-- 
2.43.0


From d53c8f57e34c9ac268df1af4a674fda90467ee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 21/30] fix: keep the rig task alive when the radio sends an
 empty response

---
 src/rig/elecraft/kx3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index b280ffb..0b4b3da 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -40,7 +40,7 @@ pub enum Update<'a> {
 }
 
 fn line(data: &[u8]) -> IResult<&[u8], &[u8]> {
-    nom::sequence::terminated(nom::bytes::streaming::take_until1(";"), nom::bytes::streaming::tag(";"))(data)
+    nom::sequence::terminated(nom::bytes::streaming::take_until(";"), nom::bytes::streaming::tag(";"))(data)
 }
 
 #[tracing::instrument(skip(rx, stream), err)]
-- 
2.43.0


From 5a8758b07bb88219bb51bb9aa01b8a06b97a3d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 22/30] fix: log radio responses that are not UTF-8 without
 panicking

---
 src/rig/elecraft/kx3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index 0b4b3da..08cc9c7 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -74,7 +74,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
                     while data.len() > 0 {
                         match line(&data) {
                             Ok((remaining, line)) => {
-                                tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                                tracing::trace!(line = String::from_utf8_lossy(line).as_ref(), remaining = String::from_utf8_lossy(remaining).as_ref(), "received complete line");
                                 data = remaining;
                                 //
                                 // match nom::combinator::all_consuming(update)(line).map_err(|e| e.map_input(|i| String::from_utf8(i.into()).unwrap())).finish() {
@@ -103,7 +103,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
                                 // }
                             },
                             Err(err) if err.is_incomplete() => {
-                                tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                                tracing::trace!(buffer = String::from_utf8_lossy(data).as_ref(), "incomplete");
                                 break
                             },
                             Err(err) => {
-- 
2.43.0


From 12c847a09251a8bc19798c2d76adce1b88701b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 23/30] fix: log remote lines that are not UTF-8 without
 panicking

---
 src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e7f0714..a9feb1e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -114,7 +114,7 @@ async fn main() -> color_eyre::Result<()> {
             while data.len() > 0 {
                 match line(&data) {
                     Ok((remaining, line)) => {
-                        tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                        tracing::trace!(line = String::from_utf8_lossy(line).as_ref(), remaining = String::from_utf8_lossy(remaining).as_ref(), "received complete line");
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                         if line.ends_with(&[b'>']) {
@@ -122,7 +122,7 @@ async fn main() -> color_eyre::Result<()> {
                         }
                     },
                     Err(err) if err.is_incomplete() => {
-                        tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                        tracing::trace!(buffer = String::from_utf8_lossy(data).as_ref(), "incomplete");
                         break
                     },
                     Err(err) => {
@@ -165,12 +165,12 @@ async fn main() -> color_eyre::Result<()> {
             while data.len() > 0 {
                 match line(&data) {
                     Ok((remaining, line)) => {
-                        tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                        tracing::trace!(line = String::from_utf8_lossy(line).as_ref(), remaining = String::from_utf8_lossy(remaining).as_ref(), "received complete line");
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                     },
                     Err(err) if err.is_incomplete() => {
-                        tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                        tracing::trace!(buffer = String::from_utf8_lossy(data).as_ref(), "incomplete");
                         break
                     },
                     Err(err) => {
-- 
2.43.0


From ced7cdc64df58d57c8f401aedd91311d8844eded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 24/30] fix: print blank lines from the remote instead of
 failing

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a9feb1e..c12e41a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -104,7 +104,7 @@ async fn main() -> color_eyre::Result<()> {
     let mut read = bytes::BytesMut::new();
 
     fn line(data: &[u8]) -> nom::IResult<&[u8], &[u8]> {
-        nom::sequence::terminated(nom::bytes::streaming::take_until1("\r"), nom::bytes::streaming::tag("\r"))(data)
+        nom::sequence::terminated(nom::bytes::streaming::take_until("\r"), nom::bytes::streaming::tag("\r"))(data)
     }
 
     'out: loop {
-- 
2.43.0


From 97e031a087d62c012a16541d7b36114f1ca484ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 25/30] fix: stop when the link ends before the remote's prompt

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index c12e41a..fb0f9ed 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -108,7 +108,9 @@ async fn main() -> color_eyre::Result<()> {
     }
 
     'out: loop {
-        vara_stream.read_buf(&mut read).await?;
+        if vara_stream.read_buf(&mut read).await? == 0 {
+            return Err(color_eyre::eyre::eyre!("link ended before the remote's prompt"));
+        }
         let retain_after = {
             let mut data = &read[..];
             while data.len() > 0 {
-- 
2.43.0


From 8565a472d0cb435a9fc4aa13ef3807c4b8c83a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 26/30] fix: read message sizes and offsets of up to six digits

---
 src/fbb.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index 270bd66..707e0eb 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -174,7 +174,7 @@ fn select_tag(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 pub enum MessageChoice {
-    Accept { offset: u16 },
+    Accept { offset: u32 },
     Defer,
     Reject,
 }
@@ -188,7 +188,7 @@ fn selection_element(data: &[u8]) -> IResult<&[u8], MessageChoice, VerboseError<
         value(MessageChoice::Accept { offset: 0 }, alt((tag("+"), tag("Y"), tag("H")))),
         map(preceded(
             alt((tag("!"), tag("A"))),
-            map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u16::from_str_radix(s, 10)),
+            map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u32::from_str_radix(s, 10)),
         ), |offset| MessageChoice::Accept { offset }),
         value(MessageChoice::Defer, alt((tag("="), tag("L")))),
         value(MessageChoice::Reject, alt((tag("-"), tag("N"), tag("R"), tag("E")))),
@@ -262,8 +262,8 @@ fn message_id(data: &[u8]) -> IResult<&[u8], &MessageIdRef, VerboseError<&[u8]>>
     map(map_res(take_while_m_n(1, 12, |x| !delimiter(x)), std::str::from_utf8), MessageIdRef::from_str)(data)
 }
 
-fn message_size(data: &[u8]) -> IResult<&[u8], u16, VerboseError<&[u8]>> {
-    map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u16::from_str_radix(s, 10))(data)
+fn message_size(data: &[u8]) -> IResult<&[u8], u32, VerboseError<&[u8]>> {
+    map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u32::from_str_radix(s, 10))(data)
 }
 
 fn fbb_proposal(data: &[u8]) -> IResult<&[u8], Proposal, VerboseError<&[u8]>> {
@@ -285,11 +285,11 @@ struct Proposal<'a> {
     sender: &'a SenderRef,
     addressee: Addressee<'a>,
     message_id: &'a MessageIdRef,
-    message_size: u16,
+    message_size: u32,
 }
 
 impl<'a> Proposal<'a> {
-    fn from_parts((message_type, sender, addressee, message_id, message_size): (MessageType, &'a SenderRef, Addressee<'a>, &'a MessageIdRef, u16)) -> Self {
+    fn from_parts((message_type, sender, addressee, message_id, message_size): (MessageType, &'a SenderRef, Addressee<'a>, &'a MessageIdRef, u32)) -> Self {
         Self {
             message_type,
             sender,
@@ -321,13 +321,13 @@ fn winlink_proposal(data: &[u8]) -> IResult<&[u8], WinlinkProposal, VerboseError
 
 struct WinlinkProposal<'a> {
     message_id: &'a MessageIdRef,
-    compressed_message_size: u16,
-    uncompressed_message_size: u16,
+    compressed_message_size: u32,
+    uncompressed_message_size: u32,
     bqp_extension: Option<BqpProposalExtension<'a>>
 }
 
 impl<'a> WinlinkProposal<'a> {
-    fn from_parts((_, message_id, uncompressed_message_size, compressed_message_size, bqp_extension): (&[u8], &'a MessageIdRef, u16, u16, Option<BqpProposalExtension<'a>>)) -> Self {
+    fn from_parts((_, message_id, uncompressed_message_size, compressed_message_size, bqp_extension): (&[u8], &'a MessageIdRef, u32, u32, Option<BqpProposalExtension<'a>>)) -> Self {
         Self {
             message_id,
             uncompressed_message_size,
-- 
2.43.0


From 66144d979dadec76add483e7f632fd570629682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:37 +0000
Subject: [PATCH 27/30] fix: print what follows the prompt in the same read

---
 src/main.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index fb0f9ed..2a66bc2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -120,6 +120,9 @@ async fn main() -> color_eyre::Result<()> {
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                         if line.ends_with(&[b'>']) {
+                            // What follows the prompt is for later.
+                            let consumed = read.len() - data.len();
+                            read = read.split_off(consumed);
                             break 'out;
                         }
                     },
@@ -156,12 +159,7 @@ async fn main() -> color_eyre::Result<()> {
     let ident = format!("{}-{}", env!("CARGO_BIN_NAME"), env!("CARGO_PKG_VERSION"));
     let to_be_sent = format!("[{}-B2FWIHJM$]\rFF\r", ident);
     vara_stream.write_all(to_be_sent.as_bytes()).await?;
-    read.clear();
     loop {
-        let count = vara_stream.read_buf(&mut read).await?;
-        if count == 0 {
-            break;
-        }
         let retain_after = {
             let mut data = &read[..];
             while data.len() > 0 {
@@ -189,6 +187,10 @@ async fn main() -> color_eyre::Result<()> {
             read = new;
             tracing::trace!(bytes = read.len(), "retained incomplete parts");
         }
+
+        if vara_stream.read_buf(&mut read).await? == 0 {
+            break;
+        }
     }
 
     // data.write_all(b"[Plusendi-0.0.1-B2FWIHJM$]\rFF\r");
-- 
2.43.0


From 076fdb22bdc2a3221da1455a3c1bffb86b25170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:22 +0000
Subject: [PATCH 28/30] fix: report a checksum of 0x80 without overflowing

---
 src/fbb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index 707e0eb..4ba72e7 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -71,7 +71,7 @@ fn b2_message_block(data: &[u8]) -> IResult<&[u8], CompressedMessage, VerboseErr
                 let checksum_ok = checksum.wrapping_add(check) == 0;
 
                 if !checksum_ok {
-                    tracing::warn!(sum = format!("{:#04X}", check).as_str(), expected = format!("{:#04X}", checksum).as_str(), actual = format!("{:#04X}", -(check as i8)).as_str(), "checksum mismatch");
+                    tracing::warn!(sum = format!("{:#04X}", check).as_str(), expected = format!("{:#04X}", checksum).as_str(), actual = format!("{:#04X}", check.wrapping_neg()).as_str(), "checksum mismatch");
                 }
 
                 let mut crc = Crc16::new();
-- 
2.43.0


From 2397e27b189b40ea53387bdeaecbe30ed1160f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 29/30] fix: a link reported down stays down whatever is
 reported next

---
 src/modem/vara.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index b821456..997c61d 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -524,7 +524,11 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
                                             tx.registered_calls.send_replace(tx.calls.clone());
                                         }
                                         Update::Connection(state) => {
-                                            tx.connection.send_replace(state.into_owned());
+                                            let state = state.into_owned();
+                                            if state.is_disconnected() {
+                                                tx.links_ended += 1;
+                                            }
+                                            tx.connection.send_replace((state, tx.links_ended));
                                         }
                                         Update::RemoteRegistration(registration) => {
                                             tx.remote_registration.send_replace(registration);
@@ -578,12 +582,13 @@ fn channel() -> (TncStatusSender, TncStatusReceiver) {
     let (buffer_tx, buffer_rx) = channel(0);
     let (registered_calls_tx, registered_calls_rx) = channel(std::collections::HashSet::new());
     let (heartbeat_tx, heartbeat_rx) = channel(Instant::now());
-    let (connection_tx, connection_rx) = channel(ConnectionStateOwned::Disconnected);
+    let (connection_tx, connection_rx) = channel((ConnectionStateOwned::Disconnected, 0));
     let (transceiver_tx, transceiver_rx) = channel(TransceiverCommand::Receive);
     let (remote_registration_tx, remote_registration_rx) = channel(Registration::Unregistered);
 
     let sender = TncStatusSender {
         calls: Default::default(),
+        links_ended: 0,
         busy_state: busy_tx,
         buffer: buffer_tx,
         registered_calls: registered_calls_tx,
@@ -609,11 +614,13 @@ fn channel() -> (TncStatusSender, TncStatusReceiver) {
 #[derive(Debug)]
 struct TncStatusSender {
     calls: std::collections::HashSet<StationId>,
+    links_ended: u64,
     busy_state: tokio::sync::watch::Sender<BusyState>,
     buffer: tokio::sync::watch::Sender<usize>,
     registered_calls: tokio::sync::watch::Sender<std::collections::HashSet<StationId>>,
     last_heartbeat: tokio::sync::watch::Sender<std::time::Instant>,
-    connection: tokio::sync::watch::Sender<ConnectionStateOwned>,
+    // The latest report and how many have said disconnected so far.
+    connection: tokio::sync::watch::Sender<(ConnectionStateOwned, u64)>,
     transceiver_control: tokio::sync::watch::Sender<TransceiverCommand>,
     remote_registration: tokio::sync::watch::Sender<Registration>,
 }
@@ -624,7 +631,7 @@ struct TncStatusReceiver {
     buffer: tokio::sync::watch::Receiver<usize>,
     registered_calls: tokio::sync::watch::Receiver<std::collections::HashSet<StationId>>,
     last_heartbeat: tokio::sync::watch::Receiver<std::time::Instant>,
-    connection: tokio::sync::watch::Receiver<ConnectionStateOwned>,
+    connection: tokio::sync::watch::Receiver<(ConnectionStateOwned, u64)>,
     transceiver_control: tokio::sync::watch::Receiver<TransceiverCommand>,
     remote_registration: tokio::sync::watch::Receiver<Registration>,
 }
@@ -785,13 +792,14 @@ impl VaraTnc {
 
         self.status.connection.changed().await?;
 
-        if self.status.connection.borrow().is_connected() {
+        let (state, links_ended) = self.status.connection.borrow().clone();
+        if state.is_connected() {
             let mut subscriber = self.status.connection.clone();
             let (read_dc, read_disconnect) = tokio::sync::oneshot::channel();
             let (write_dc, write_disconnect) = tokio::sync::oneshot::channel();
             let _remote_dc = tokio::spawn(async move {
                 loop {
-                    if subscriber.changed().await.is_err() || subscriber.borrow().is_disconnected() {
+                    if subscriber.changed().await.is_err() || subscriber.borrow().1 != links_ended {
                         let _ = read_dc.send(());
                         let _ = write_dc.send(());
                         break;
@@ -801,11 +809,12 @@ impl VaraTnc {
 
             Ok(VaraStream {
                 tnc: self,
+                links_ended,
                 force_disconnect: Some((force_dc, force_dc_task)),
                 read_disconnect: Some(read_disconnect),
                 write_disconnect: Some(write_disconnect),
             })
-        } else if self.status.connection.borrow().is_disconnected() {
+        } else if state.is_disconnected() {
             Err(color_eyre::eyre::eyre!("failed to connect"))
         } else {
             Err(color_eyre::eyre::eyre!("connection state unexpected"))
@@ -821,6 +830,7 @@ impl VaraTnc {
 #[pin_project::pin_project(PinnedDrop)]
 pub struct VaraStream<'a> {
     tnc: &'a mut VaraTnc,
+    links_ended: u64,
     force_disconnect: Option<(tokio::sync::oneshot::Sender<()>, tokio::task::JoinHandle<()>)>,
     read_disconnect: Option<tokio::sync::oneshot::Receiver<()>>,
     write_disconnect: Option<tokio::sync::oneshot::Receiver<()>>,
@@ -854,7 +864,9 @@ impl<'a> VaraStream<'a> {
 #[pin_project::pinned_drop]
 impl<'a> PinnedDrop for VaraStream<'a> {
     fn drop(self: Pin<&mut Self>) {
-        if !self.tnc.status.connection.borrow().is_disconnected() {
+        // Whatever was reported since, a link that has ended needs no release.
+        let links_ended = self.tnc.status.connection.borrow().1;
+        if links_ended == self.links_ended {
             let this = self.project();
             if let Some((dc, task)) = this.force_disconnect.take() {
                 let _ = dc.send(());
-- 
2.43.0


From aba61a502215d51076666cc9c759d6969767bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:45 +0000
Subject: [PATCH 30/30] fix: a log setting the program cannot use is refused,
 not a panic

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 2a66bc2..6bdf6e2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -43,7 +43,7 @@ async fn main() -> color_eyre::Result<()> {
 
     let opt: Opt = Opt::from_args();
 
-    let env_filter = EnvFilter::try_new(&opt.log).unwrap();
+    let env_filter = EnvFilter::try_new(&opt.log)?;
     let fmt_layer = tracing_subscriber::fmt::layer();
 
     tracing_subscriber::registry()
-- 
2.43.0

