From 97c57f00ef9197c45b4e0007556377e9fef923b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:15 +0000
Subject: [PATCH 01/35] Add verification entry points behind
 cfg(plusendi_verif)

---
 src/crc16.rs |  12 ++++++
 src/fbb.rs   | 117 +++++++++++++++++++++++++++++++++++++++++++++++++++
 src/lib.rs   |   8 ++++
 src/lzhuf.rs |  22 ++++++++++
 4 files changed, 159 insertions(+)

diff --git a/src/crc16.rs b/src/crc16.rs
index 910f466..1a7907e 100644
--- a/src/crc16.rs
+++ b/src/crc16.rs
@@ -73,3 +73,15 @@ mod tests {
 
     }
 }
+
+/// Verification hooks: owned-value entry point to the private checksum.
+#[cfg(plusendi_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn crc16(input: &[u8]) -> u16 {
+        let mut crc = Crc16::new();
+        input.iter().for_each(|&b| crc.update(b));
+        crc.finish()
+    }
+}
diff --git a/src/fbb.rs b/src/fbb.rs
index 4e58cbb..bd3e54b 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -415,3 +415,120 @@ mod tests {
     //     Err(color_eyre::eyre::eyre!("just need a forced failure"))
     // }
 }
+
+/// Verification hooks: owned-value entry points to the private parsers.
+#[cfg(plusendi_verif)]
+pub mod verif {
+    use super::*;
+
+    #[derive(Clone, Debug, PartialEq, Eq)]
+    pub enum Outcome<T> {
+        /// Parsed value, and how many bytes of the input were left over.
+        Done(T, usize),
+        /// More input needed, with the number of bytes asked for if known.
+        Incomplete(Option<usize>),
+        Error,
+    }
+
+    fn outcome<I, O, T>(result: IResult<&[u8], O, I>, f: impl FnOnce(O) -> T) -> Outcome<T> {
+        match result {
+            Ok((rest, value)) => Outcome::Done(f(value), rest.len()),
+            Err(nom::Err::Incomplete(nom::Needed::Size(n))) => Outcome::Incomplete(Some(n.get())),
+            Err(nom::Err::Incomplete(nom::Needed::Unknown)) => Outcome::Incomplete(None),
+            Err(_) => Outcome::Error,
+        }
+    }
+
+    #[derive(Clone, Debug, PartialEq, Eq)]
+    pub struct Message {
+        pub title: String,
+        pub offset: u64,
+        pub crc16: u16,
+        pub uncompressed_size: u64,
+        pub blocks: Vec<Vec<u8>>,
+    }
+
+    pub fn message(data: &[u8]) -> Outcome<Message> {
+        outcome(b2_message_block(data), |m| Message {
+            title: m.title.to_string(),
+            offset: m.offset as u64,
+            crc16: m.crc16,
+            uncompressed_size: m.uncompressed_size as u64,
+            blocks: m.blocks.iter().map(|b| b.to_vec()).collect(),
+        })
+    }
+
+    /// Parses one message and decompresses it; `Err(())` is the decompressor's own error.
+    pub fn message_text(data: &[u8]) -> Outcome<Result<Vec<u8>, ()>> {
+        outcome(b2_message_block(data), |m| m.decompress().map_err(|_| ()))
+    }
+
+    #[derive(Clone, Debug, PartialEq, Eq)]
+    pub struct FbbProposal {
+        pub message_type: MessageType,
+        pub sender: String,
+        pub at_bbs: String,
+        pub recipient: String,
+        pub message_id: String,
+        pub size: u64,
+    }
+
+    pub fn fbb_proposal(data: &[u8]) -> Outcome<FbbProposal> {
+        outcome(super::fbb_proposal(data), |p| FbbProposal {
+            message_type: p.message_type,
+            sender: p.sender.as_str().to_string(),
+            at_bbs: p.addressee.mbo.as_str().to_string(),
+            recipient: p.addressee.recipient.as_str().to_string(),
+            message_id: p.message_id.as_str().to_string(),
+            size: p.message_size as u64,
+        })
+    }
+
+    #[derive(Clone, Debug, PartialEq, Eq)]
+    pub struct WinlinkProposal {
+        pub message_id: String,
+        pub uncompressed_size: u64,
+        pub compressed_size: u64,
+        /// Sender, mailbox and recipient.
+        pub extension: Option<(String, String, String)>,
+    }
+
+    pub fn winlink_proposal(data: &[u8]) -> Outcome<WinlinkProposal> {
+        outcome(super::winlink_proposal(data), |p| WinlinkProposal {
+            message_id: p.message_id.as_str().to_string(),
+            uncompressed_size: p.uncompressed_message_size as u64,
+            compressed_size: p.compressed_message_size as u64,
+            extension: p.bqp_extension.map(|e| (
+                e.sender.as_str().to_string(),
+                e.addressee.mbo.as_str().to_string(),
+                e.addressee.recipient.as_str().to_string(),
+            )),
+        })
+    }
+
+    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
+    pub enum Choice {
+        Accept(u64),
+        Defer,
+        Reject,
+    }
+
+    /// Parses the answer to `count` proposals (1 to 5, the most one batch holds).
+    pub fn selection(data: &[u8], count: usize) -> Outcome<Vec<Choice>> {
+        fn owned<const P: usize>(data: &[u8]) -> Outcome<Vec<Choice>> {
+            outcome(super::selection::<P>(data), |choices| choices.iter().map(|c| match *c {
+                MessageChoice::Accept { offset } => Choice::Accept(offset as u64),
+                MessageChoice::Defer => Choice::Defer,
+                MessageChoice::Reject => Choice::Reject,
+            }).collect())
+        }
+        match count {
+            1 => owned::<1>(data),
+            2 => owned::<2>(data),
+            3 => owned::<3>(data),
+            4 => owned::<4>(data),
+            5 => owned::<5>(data),
+            _ => panic!("a batch holds 1 to 5 proposals"),
+        }
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index dd1adf7..4a89a06 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,6 +11,14 @@ mod parser;
 pub use modem::Modem;
 pub use types::{StationId, StationIdRef};
 
+/// Entry points for the verification harness, compiled only with `--cfg plusendi_verif`.
+#[cfg(plusendi_verif)]
+pub mod verif {
+    pub use crate::crc16::verif as crc16;
+    pub use crate::fbb::verif as fbb;
+    pub use crate::lzhuf::verif as lzhuf;
+}
+
 #[derive(Debug, PartialEq, Eq)]
 pub struct Traffic {
     pub header: TrafficHeader,
diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index b807f61..d25cec5 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -848,3 +848,25 @@ mod tests2 {
         Ok(())
     }
 }
+
+/// Verification hooks: owned-value entry points to the private codec.
+#[cfg(plusendi_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn encode(input: &[u8]) -> Vec<u8> {
+        let mut output = Vec::new();
+        let mut encoder = Encoder::new(&mut output);
+        encoder.encode(input.iter().copied());
+        encoder.finish();
+        output
+    }
+
+    /// Decodes into a buffer of `size` bytes; `Err(())` is the decoder's own error.
+    pub fn decode(input: &[u8], size: usize) -> Result<Vec<u8>, ()> {
+        let mut buffer = vec![0; size];
+        let mut decoder = Decoder::new(input.iter().copied());
+        decoder.decode(&mut buffer).map_err(|_| ())?;
+        Ok(buffer)
+    }
+}
-- 
2.43.0


From c8b904903d285096f61a1caeac33d067931f701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:36 +0000
Subject: [PATCH 02/35] fix: keep the high bits of LZHUF repeat positions when
 decoding

DECODE_CODE was shifted left by six within a byte, so every repeat further
than 256 bytes back copied the wrong text.
---
 src/lzhuf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index d25cec5..3ec86c0 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -655,14 +655,14 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
     #[tracing::instrument(skip(self))]
     fn decode_position(&mut self) -> Option<u16> {
         let mut i = self.stream.get_byte()? as u16;
-        let c = DECODE_CODE[i as usize] << 6;
+        let c = (DECODE_CODE[i as usize] as u16) << 6;
         let mut j = DECODE_LEN[i as usize];
 
         j -= 2;
         for _ in (1..=j).rev() {
             i = (i << 1) + self.stream.get_bit()? as u16;
         }
-        Some(c as u16 | (i & 0x3f))
+        Some(c | (i & 0x3f))
     }
 }
 
-- 
2.43.0


From 2d1cf03f4788a45c60aa8f9740b2408047e5ac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:33 +0000
Subject: [PATCH 03/35] fix: compress the empty message to nothing instead of
 panicking

---
 src/lzhuf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index 3ec86c0..a51643e 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -536,6 +536,9 @@ impl<'a> Encoder<'a> {
             }
             len += 1;
         }
+        if len == 0 {
+            return;
+        }
         for i in 1..=F {
             self.insert_node(r - i);
         }
-- 
2.43.0


From 03398a59b711ab7f8d1c79ce2c3a965e89d035c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:31 +0000
Subject: [PATCH 04/35] fix: emit LZHUF codes of 16 or more bits in full

A 16-bit code starting on a byte boundary was shifted by its whole width (a
panic in debug builds, garbage otherwise), and longer codes, which rare symbols
get in skewed texts, lost their last bits.
---
 src/lzhuf.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index a51643e..6a4e540 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -176,7 +176,7 @@ impl<'a> Bitbuffer<'a> {
                 self.output.push(self.bit_buffer as u8);
                 // self.codesize += 2;
                 self.bit_pos -= 8;
-                self.bit_buffer = c << (l - self.bit_pos) as usize;
+                self.bit_buffer = c.checked_shl((l - self.bit_pos) as u32).unwrap_or(0);
             } else {
                 self.bit_buffer = self.bit_buffer << 8;
                 // self.codesize += 1;
@@ -497,13 +497,14 @@ impl<'a> Encoder<'a> {
     }
 
     fn encode_char(&mut self, c: u16) {
-        let mut i = 0u16;
+        // The adaptive code can exceed 16 bits for rare symbols.
+        let mut i = 0u32;
         let mut j = 0u8;
         let mut k = self.state.parents[(c + T) as usize];
         loop {
             i = i >> 1;
             if k & 1 != 0 {
-                i = i.wrapping_add(0x8000);
+                i |= 0x8000_0000;
             }
             j += 1;
 
@@ -513,7 +514,10 @@ impl<'a> Encoder<'a> {
             }
         }
 
-        self.output.put_code(j, i);
+        self.output.put_code(j.min(16), (i >> 16) as u16);
+        if j > 16 {
+            self.output.put_code(j - 16, i as u16);
+        }
         self.state.update(c as u16);
     }
 
-- 
2.43.0


From 0b4b25a5aecb9e9da6a7777de75b080a337e0864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 05/35] fix: stop LZHUF decoding at the requested length inside
 a repeat

A repeat running past the end of the output buffer indexed out of bounds, so
a wrong size in a received message panicked.
---
 src/lzhuf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index 6a4e540..69996da 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -637,6 +637,9 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
                 let i = (self.state.r.wrapping_sub(self.decode_position().ok_or(UnexpectedEof)?).wrapping_sub(1)) & (N - 1);
                 let j = c - 255 + THRESHOLD;
                 for k in 0..j {
+                    if count == buffer.len() {
+                        break;
+                    }
                     let c = self.state.text_buffer[((i + k) & (N - 1)) as usize];
                     buffer[count] = c;
                     self.state.update_text_buffer(c);
-- 
2.43.0


From 8136340d8ad21a6bf37b2194733279444348243c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 06/35] fix: do not overflow while logging a checksum mismatch

A message whose bytes sum to 0x80 made the warning about its wrong checksum
panic in builds with overflow checks.
---
 src/fbb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index bd3e54b..4235864 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -71,7 +71,7 @@ fn b2_message_block(data: &[u8]) -> IResult<&[u8], CompressedMessage, VerboseErr
                 let checksum_ok = checksum.wrapping_add(check) == 0;
 
                 if !checksum_ok {
-                    tracing::warn!(sum = format!("{:#04X}", check).as_str(), expected = format!("{:#04X}", checksum).as_str(), actual = format!("{:#04X}", -(check as i8)).as_str(), "checksum mismatch");
+                    tracing::warn!(sum = format!("{:#04X}", check).as_str(), expected = format!("{:#04X}", checksum).as_str(), actual = format!("{:#04X}", check.wrapping_neg()).as_str(), "checksum mismatch");
                 }
 
                 let mut crc = Crc16::new();
-- 
2.43.0


From 51131015d4f32c1ad904943a79e3e24b99225c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:50 +0000
Subject: [PATCH 07/35] fix: reject a complete message header that lacks a
 separator

The separators were matched as if more header bytes could follow, so a complete
but malformed header was reported as incomplete and waited on.
---
 src/fbb.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index 4235864..05305ad 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -18,8 +18,9 @@ fn soh(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
     tag(&[0x01])(data)
 }
 
+/// Only used inside a header that has been received completely.
 fn nul(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
-    tag(&[0x00])(data)
+    nom::bytes::complete::tag(&[0x00])(data)
 }
 
 fn stx(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
-- 
2.43.0


From 47fde8b289f001e4ff6ec4919de228389f90a418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 08/35] fix: read six-digit message sizes and resume offsets

Sizes and offsets have up to six digits but were parsed into 16 bits, so
proposals of and answers about messages above 65535 bytes were rejected.
---
 src/fbb.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index 05305ad..8544434 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -175,7 +175,7 @@ fn select_tag(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 pub enum MessageChoice {
-    Accept { offset: u16 },
+    Accept { offset: u32 },
     Defer,
     Reject,
 }
@@ -189,7 +189,7 @@ fn selection_element(data: &[u8]) -> IResult<&[u8], MessageChoice, VerboseError<
         value(MessageChoice::Accept { offset: 0 }, alt((tag("+"), tag("Y"), tag("H")))),
         map(preceded(
             alt((tag("!"), tag("A"))),
-            map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u16::from_str_radix(s, 10)),
+            map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u32::from_str_radix(s, 10)),
         ), |offset| MessageChoice::Accept { offset }),
         value(MessageChoice::Defer, alt((tag("="), tag("L")))),
         value(MessageChoice::Reject, alt((tag("-"), tag("N"), tag("R"), tag("E")))),
@@ -263,8 +263,8 @@ fn message_id(data: &[u8]) -> IResult<&[u8], &MessageIdRef, VerboseError<&[u8]>>
     map(map_res(take_while_m_n(1, 12, |x| !delimiter(x)), std::str::from_utf8), MessageIdRef::from_str)(data)
 }
 
-fn message_size(data: &[u8]) -> IResult<&[u8], u16, VerboseError<&[u8]>> {
-    map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u16::from_str_radix(s, 10))(data)
+fn message_size(data: &[u8]) -> IResult<&[u8], u32, VerboseError<&[u8]>> {
+    map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u32::from_str_radix(s, 10))(data)
 }
 
 fn fbb_proposal(data: &[u8]) -> IResult<&[u8], Proposal, VerboseError<&[u8]>> {
@@ -286,11 +286,11 @@ struct Proposal<'a> {
     sender: &'a SenderRef,
     addressee: Addressee<'a>,
     message_id: &'a MessageIdRef,
-    message_size: u16,
+    message_size: u32,
 }
 
 impl<'a> Proposal<'a> {
-    fn from_parts((message_type, sender, addressee, message_id, message_size): (MessageType, &'a SenderRef, Addressee<'a>, &'a MessageIdRef, u16)) -> Self {
+    fn from_parts((message_type, sender, addressee, message_id, message_size): (MessageType, &'a SenderRef, Addressee<'a>, &'a MessageIdRef, u32)) -> Self {
         Self {
             message_type,
             sender,
@@ -322,13 +322,13 @@ fn winlink_proposal(data: &[u8]) -> IResult<&[u8], WinlinkProposal, VerboseError
 
 struct WinlinkProposal<'a> {
     message_id: &'a MessageIdRef,
-    compressed_message_size: u16,
-    uncompressed_message_size: u16,
+    compressed_message_size: u32,
+    uncompressed_message_size: u32,
     bqp_extension: Option<BqpProposalExtension<'a>>
 }
 
 impl<'a> WinlinkProposal<'a> {
-    fn from_parts((_, message_id, uncompressed_message_size, compressed_message_size, bqp_extension): (&[u8], &'a MessageIdRef, u16, u16, Option<BqpProposalExtension<'a>>)) -> Self {
+    fn from_parts((_, message_id, uncompressed_message_size, compressed_message_size, bqp_extension): (&[u8], &'a MessageIdRef, u32, u32, Option<BqpProposalExtension<'a>>)) -> Self {
         Self {
             message_id,
             uncompressed_message_size,
-- 
2.43.0


From 46ac5bfa3cbca82bc0479dcaa99b8f503f9032d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 09/35] fix: validate the whole text of a station identity

The pattern was not anchored, so any text containing a callsign was accepted,
even one with spaces or carriage returns that end up inside modem commands.
---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 1fb387c..a49af35 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -5,7 +5,7 @@ use nom::error::VerboseError;
 use regex::Regex;
 use thiserror::Error;
 
-static STATION: Lazy<Regex> = lazy_regex!(r#"([0-9]?[A-Za-z]+)([0-9]+)([A-Za-z][A-Za-z0-9]*)"#);
+static STATION: Lazy<Regex> = lazy_regex!(r#"\A([0-9]?[A-Za-z]+)([0-9]+)([A-Za-z][A-Za-z0-9]*)(-[A-Za-z0-9]{1,2})?\z"#);
 
 #[derive(Debug, Error)]
 #[error("invalid station identity")]
-- 
2.43.0


From 03246642a747aec29e5dd0e5371a2d8ee8adf626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:42 +0000
Subject: [PATCH 10/35] fix: separate the target from two digipeaters in
 CONNECT

---
 src/modem/vara.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index bc204d1..b32d553 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -202,7 +202,7 @@ impl fmt::Display for ConnectPath {
         match self {
             ConnectPath::Direct => Ok(()),
             ConnectPath::OneHop { digipeater } => write!(f, " via {}", digipeater),
-            ConnectPath::TwoHops { first, second } => write!(f, "via {} {}", first, second),
+            ConnectPath::TwoHops { first, second } => write!(f, " via {} {}", first, second),
         }
     }
 }
-- 
2.43.0


From 0a2a814378d3d5303585c6b409d3b8cc802d18a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 11/35] fix: accept callsigns with an SSID in the modem's
 status lines

---
 src/types.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index a49af35..4eb3cea 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -33,7 +33,17 @@ impl aliri_braid::Normalizer for StationId {
 }
 
 pub fn callsign(s: &[u8]) -> nom::IResult<&[u8], &StationIdRef, VerboseError<&[u8]>> {
-    let (rest, result) = nom::bytes::complete::take_while_m_n(3,7, |c: u8| c.is_ascii_uppercase() || c.is_ascii_digit())(s)?;
+    fn is_callsign_char(c: u8) -> bool {
+        c.is_ascii_uppercase() || c.is_ascii_digit()
+    }
+
+    let (rest, result) = nom::combinator::recognize(nom::sequence::pair(
+        nom::bytes::complete::take_while_m_n(3, 7, is_callsign_char),
+        nom::combinator::opt(nom::sequence::preceded(
+            nom::bytes::complete::tag("-"),
+            nom::bytes::complete::take_while_m_n(1, 2, is_callsign_char),
+        )),
+    ))(s)?;
     // let cow = if result.iter().any(|&b| b'a' <= b && b <= b'z') {
     //     Cow::Owned(unsafe { String::from_utf8_unchecked(result.to_ascii_uppercase()) })
     // } else {
-- 
2.43.0


From ebd588df0fdfa15075bf3f5cb1aa4d063260f93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 12/35] fix: do not take an earlier connection report for the
 outcome of connect

---
 src/modem/vara.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index b32d553..802e569 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -750,6 +750,9 @@ impl VaraTnc {
 
     #[tracing::instrument(skip(self), err)]
     pub async fn connect<'a>(&'a mut self, from: StationId, to: StationId) -> color_eyre::Result<VaraStream<'a>> {
+        // only reports that follow the request tell its outcome
+        self.status.connection.borrow_and_update();
+
         self.send_command(Command::Connect(ConnectCommand {
             origin: from,
             target: to,
-- 
2.43.0


From fe1a8654213e0cf0573613b5ffcaff7c84a8b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 13/35] fix: notice when the modem closes the control
 connection

---
 src/modem/vara.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 802e569..c05f307 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -483,6 +483,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
     match stream.try_read_buf(upd_buffer) {
         Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(to_acknowledge),
         Err(err) => return Err(err.into()),
+        Ok(0) => return Err(Error::new(std::io::ErrorKind::UnexpectedEof, "command port closed by tnc").into()),
         Ok(bytes) => {
             tracing::trace!(bytes, "received bytes from command port");
         }
-- 
2.43.0


From a00c47883d5220783949c99c3b50e446e6a0cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 14/35] fix: end the link when the modem connection is lost

---
 src/modem/vara.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index c05f307..d94b948 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -777,8 +777,8 @@ impl VaraTnc {
             let (remote_dc, remote_disconnect) = tokio::sync::oneshot::channel();
             let _remote_dc = tokio::spawn(async move {
                 loop {
-                    let _ = subscriber.changed().await;
-                    if subscriber.borrow().is_disconnected() {
+                    let tnc_lost = subscriber.changed().await.is_err();
+                    if tnc_lost || subscriber.borrow().is_disconnected() {
                         let _ = remote_dc.send(());
                         break;
                     }
-- 
2.43.0


From b49bb5f249c1276dcf83f439f90e267a04bd4fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 15/35] fix: wait for outstanding replies without busy-looping

---
 src/modem/vara.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index d94b948..82400e6 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -456,6 +456,7 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
     }
     tracing::info!(expected_replies = response_queue.len(), "command input closed");
     while !response_queue.is_empty() {
+        stream.readable().await?;
         let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
         for result in results {
             if let Some(reply) = response_queue.pop_front() {
-- 
2.43.0


From 5c28f7df5e22abb2319ace545b89b26d7a48d8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 16/35] fix: do not panic when tracing modem input that is not
 UTF-8

---
 src/modem/vara.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 82400e6..91bf037 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -495,7 +495,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
         while data.len() > 0 {
             match line(&data).try_map_into_str().map_err(stringify_input) {
                 Ok((remaining, line)) => {
-                    tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                    tracing::trace!(line = %String::from_utf8_lossy(line), remaining = %String::from_utf8_lossy(remaining), "received complete line");
                     data = remaining;
 
                     match nom::combinator::all_consuming(tnc_response)(line).try_map_into_str().map_err(stringify_input).finish() {
@@ -539,7 +539,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
                     }
                 },
                 Err(err) if err.is_incomplete() => {
-                    tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                    tracing::trace!(buffer = %String::from_utf8_lossy(data), "incomplete");
                     break
                 },
                 Err(err) => {
-- 
2.43.0


From 02994ba8641d42e4d46029d19370c2d17057755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:29 +0000
Subject: [PATCH 17/35] fix: deliver replies that precede malformed modem input

---
 src/modem/vara.rs | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 91bf037..b7e5514 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -443,28 +443,14 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
                 }
             },
             _ = stream.readable() => {
-                let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
-                for result in results {
-                    if let Some(reply) = response_queue.pop_front() {
-                        let _ = reply.send(result);
-                    } else {
-                        tracing::warn!("mismatched reply queue");
-                    }
-                }
+                do_a_thing(&mut stream, &mut upd_buffer, &mut tx, &mut response_queue)?;
             }
         );
     }
     tracing::info!(expected_replies = response_queue.len(), "command input closed");
     while !response_queue.is_empty() {
         stream.readable().await?;
-        let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
-        for result in results {
-            if let Some(reply) = response_queue.pop_front() {
-                let _ = reply.send(result);
-            } else {
-                tracing::warn!("mismatched reply queue");
-            }
-        }
+        do_a_thing(&mut stream, &mut upd_buffer, &mut tx, &mut response_queue)?;
     }
     tracing::info!("all replies sent; exiting command loop");
     Ok(())
@@ -478,11 +464,10 @@ fn stringify_input<T: std::fmt::Display>(error: nom::Err<VerboseError<T>>) -> no
     })
 }
 
-#[tracing::instrument(skip(stream, upd_buffer, tx), err)]
-fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut TncStatusSender) -> color_eyre::Result<Vec<CommandResult>> {
-    let mut to_acknowledge = Vec::new();
+#[tracing::instrument(skip(stream, upd_buffer, tx, response_queue), err)]
+fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut TncStatusSender, response_queue: &mut VecDeque<tokio::sync::oneshot::Sender<CommandResult>>) -> color_eyre::Result<()> {
     match stream.try_read_buf(upd_buffer) {
-        Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(to_acknowledge),
+        Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(()),
         Err(err) => return Err(err.into()),
         Ok(0) => return Err(Error::new(std::io::ErrorKind::UnexpectedEof, "command port closed by tnc").into()),
         Ok(bytes) => {
@@ -503,7 +488,12 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
                             tracing::debug!(?response, "received tnc data");
                             match response {
                                 TncResponse::CommandResult(result) => {
-                                    to_acknowledge.push(result);
+                                    // replied at once, so that malformed input later on cannot take it away
+                                    if let Some(reply) = response_queue.pop_front() {
+                                        let _ = reply.send(result);
+                                    } else {
+                                        tracing::warn!("mismatched reply queue");
+                                    }
                                 }
                                 TncResponse::Update(update) => {
                                     match update {
@@ -556,7 +546,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
         *upd_buffer = new;
         tracing::trace!(bytes = upd_buffer.len(), "retained incomplete parts");
     }
-    Ok(to_acknowledge)
+    Ok(())
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 8385547b37281da1cb947b06e8ad6552baf7dfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:15 +0000
Subject: [PATCH 18/35] fix: do not panic when a link is used again after the
 remote disconnect

---
 src/modem/vara.rs | 55 ++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index b7e5514..cd90fbb 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -779,7 +779,7 @@ impl VaraTnc {
             Ok(VaraStream {
                 tnc: self,
                 force_disconnect: Some(force_dc),
-                remote_disconnect: remote_disconnect,
+                remote_disconnect: RemoteDisconnect { notice: remote_disconnect, seen: false },
             })
         } else if self.status.connection.borrow().is_disconnected() {
             Err(color_eyre::eyre::eyre!("failed to connect"))
@@ -793,12 +793,28 @@ impl VaraTnc {
     }
 }
 
+/// Notice that the link has been closed by the remote end; remembered once seen.
+#[derive(Debug)]
+struct RemoteDisconnect {
+    notice: tokio::sync::oneshot::Receiver<()>,
+    seen: bool,
+}
+
+impl RemoteDisconnect {
+    fn poll_seen(&mut self, cx: &mut Context<'_>) -> bool {
+        if !self.seen {
+            self.seen = Pin::new(&mut self.notice).poll(cx).is_ready();
+        }
+        self.seen
+    }
+}
+
 #[derive(Debug)]
 #[pin_project::pin_project(PinnedDrop)]
 pub struct VaraStream<'a> {
     tnc: &'a mut VaraTnc,
     force_disconnect: Option<tokio::sync::oneshot::Sender<()>>,
-    remote_disconnect: tokio::sync::oneshot::Receiver<()>,
+    remote_disconnect: RemoteDisconnect,
 }
 
 impl<'a> VaraStream<'a> {
@@ -827,11 +843,8 @@ impl<'a> PinnedDrop for VaraStream<'a> {
 impl<'a> AsyncRead for VaraStream<'a> {
     fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
-            Poll::Pending => {}
-            Poll::Ready(_) => {
-                return Poll::Ready(Ok(()));
-            }
+        if this.remote_disconnect.poll_seen(cx) {
+            return Poll::Ready(Ok(()));
         }
 
         Pin::new(&mut **this.tnc).pinned_data().poll_read(cx, buf)
@@ -841,11 +854,8 @@ impl<'a> AsyncRead for VaraStream<'a> {
 impl<'a> AsyncWrite for VaraStream<'a> {
     fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize, Error>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
-            Poll::Pending => {}
-            Poll::Ready(_) => {
-                return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
-            }
+        if this.remote_disconnect.poll_seen(cx) {
+            return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
         }
 
         Pin::new(&mut **this.tnc).pinned_data().poll_write(cx, buf)
@@ -853,11 +863,8 @@ impl<'a> AsyncWrite for VaraStream<'a> {
 
     fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
-            Poll::Pending => {}
-            Poll::Ready(_) => {
-                return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
-            }
+        if this.remote_disconnect.poll_seen(cx) {
+            return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
         }
 
         Pin::new(&mut **this.tnc).pinned_data().poll_flush(cx)
@@ -865,11 +872,8 @@ impl<'a> AsyncWrite for VaraStream<'a> {
 
     fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
-            Poll::Pending => {}
-            Poll::Ready(_) => {
-                return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
-            }
+        if this.remote_disconnect.poll_seen(cx) {
+            return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
         }
 
         Pin::new(&mut **this.tnc).pinned_data().poll_shutdown(cx)
@@ -877,11 +881,8 @@ impl<'a> AsyncWrite for VaraStream<'a> {
 
     fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<Result<usize, Error>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
-            Poll::Pending => {}
-            Poll::Ready(_) => {
-                return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
-            }
+        if this.remote_disconnect.poll_seen(cx) {
+            return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
         }
 
         Pin::new(&mut **this.tnc).pinned_data().poll_write_vectored(cx, bufs)
-- 
2.43.0


From 184549c9b19267b6303e1aa07ca89cbc998810fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:41 +0000
Subject: [PATCH 19/35] fix: read data that arrived before the remote
 disconnect

---
 src/modem/vara.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index cd90fbb..0188804 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -780,6 +780,7 @@ impl VaraTnc {
                 tnc: self,
                 force_disconnect: Some(force_dc),
                 remote_disconnect: RemoteDisconnect { notice: remote_disconnect, seen: false },
+                read_to_end: false,
             })
         } else if self.status.connection.borrow().is_disconnected() {
             Err(color_eyre::eyre::eyre!("failed to connect"))
@@ -815,6 +816,7 @@ pub struct VaraStream<'a> {
     tnc: &'a mut VaraTnc,
     force_disconnect: Option<tokio::sync::oneshot::Sender<()>>,
     remote_disconnect: RemoteDisconnect,
+    read_to_end: bool,
 }
 
 impl<'a> VaraStream<'a> {
@@ -844,6 +846,16 @@ impl<'a> AsyncRead for VaraStream<'a> {
     fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
         let this = self.project();
         if this.remote_disconnect.poll_seen(cx) {
+            if !*this.read_to_end {
+                // data that arrived before the disconnect is still to be read
+                match this.tnc.data.try_read(buf.initialize_unfilled()) {
+                    Ok(0) if buf.remaining() == 0 => {}
+                    Ok(0) => *this.read_to_end = true,
+                    Ok(bytes) => buf.advance(bytes),
+                    Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => *this.read_to_end = true,
+                    Err(err) => return Poll::Ready(Err(err)),
+                }
+            }
             return Poll::Ready(Ok(()));
         }
 
-- 
2.43.0


From 9d84246e68c197d35e2109716db5caf1f364fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 20/35] fix: notice a remote disconnect that other reports
 follow at once

---
 src/modem/vara.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 0188804..d04918c 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -300,6 +300,13 @@ impl ConnectionStateOwned {
     }
 }
 
+/// The latest connection state, and how often the modem has reported a disconnect so far.
+#[derive(Clone, Debug, PartialEq, Eq)]
+struct ConnectionReport {
+    state: ConnectionStateOwned,
+    disconnects: usize,
+}
+
 impl<'a> ConnectionState<'a> {
     fn into_owned(self) -> ConnectionStateOwned {
         match self {
@@ -511,7 +518,9 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
                                             tx.registered_calls.send_replace(tx.calls.clone());
                                         }
                                         Update::Connection(state) => {
-                                            tx.connection.send_replace(state.into_owned());
+                                            let state = state.into_owned();
+                                            let disconnects = tx.connection.borrow().disconnects + usize::from(state.is_disconnected());
+                                            tx.connection.send_replace(ConnectionReport { state, disconnects });
                                         }
                                         Update::RemoteRegistration(registration) => {
                                             tx.remote_registration.send_replace(registration);
@@ -564,7 +573,7 @@ fn channel() -> (TncStatusSender, TncStatusReceiver) {
     let (buffer_tx, buffer_rx) = channel(0);
     let (registered_calls_tx, registered_calls_rx) = channel(std::collections::HashSet::new());
     let (heartbeat_tx, heartbeat_rx) = channel(Instant::now());
-    let (connection_tx, connection_rx) = channel(ConnectionStateOwned::Disconnected);
+    let (connection_tx, connection_rx) = channel(ConnectionReport { state: ConnectionStateOwned::Disconnected, disconnects: 0 });
     let (transceiver_tx, transceiver_rx) = channel(TransceiverCommand::Receive);
     let (remote_registration_tx, remote_registration_rx) = channel(Registration::Unregistered);
 
@@ -599,7 +608,7 @@ struct TncStatusSender {
     buffer: tokio::sync::watch::Sender<usize>,
     registered_calls: tokio::sync::watch::Sender<std::collections::HashSet<StationId>>,
     last_heartbeat: tokio::sync::watch::Sender<std::time::Instant>,
-    connection: tokio::sync::watch::Sender<ConnectionStateOwned>,
+    connection: tokio::sync::watch::Sender<ConnectionReport>,
     transceiver_control: tokio::sync::watch::Sender<TransceiverCommand>,
     remote_registration: tokio::sync::watch::Sender<Registration>,
 }
@@ -610,7 +619,7 @@ struct TncStatusReceiver {
     buffer: tokio::sync::watch::Receiver<usize>,
     registered_calls: tokio::sync::watch::Receiver<std::collections::HashSet<StationId>>,
     last_heartbeat: tokio::sync::watch::Receiver<std::time::Instant>,
-    connection: tokio::sync::watch::Receiver<ConnectionStateOwned>,
+    connection: tokio::sync::watch::Receiver<ConnectionReport>,
     transceiver_control: tokio::sync::watch::Receiver<TransceiverCommand>,
     remote_registration: tokio::sync::watch::Receiver<Registration>,
 }
@@ -763,17 +772,19 @@ impl VaraTnc {
 
         self.status.connection.changed().await?;
 
-        if self.status.connection.borrow().is_connected() {
+        let report = self.status.connection.borrow().clone();
+        if report.state.is_connected() {
+            let disconnects = report.disconnects;
             let mut subscriber = self.status.connection.clone();
             let (remote_dc, remote_disconnect) = tokio::sync::oneshot::channel();
             let _remote_dc = tokio::spawn(async move {
-                loop {
-                    let tnc_lost = subscriber.changed().await.is_err();
-                    if tnc_lost || subscriber.borrow().is_disconnected() {
-                        let _ = remote_dc.send(());
+                // other reports may follow a disconnect before it is seen here
+                while subscriber.borrow().disconnects == disconnects {
+                    if subscriber.changed().await.is_err() {
                         break;
                     }
                 }
+                let _ = remote_dc.send(());
             });
 
             Ok(VaraStream {
@@ -781,8 +792,9 @@ impl VaraTnc {
                 force_disconnect: Some(force_dc),
                 remote_disconnect: RemoteDisconnect { notice: remote_disconnect, seen: false },
                 read_to_end: false,
+                disconnects,
             })
-        } else if self.status.connection.borrow().is_disconnected() {
+        } else if report.state.is_disconnected() {
             Err(color_eyre::eyre::eyre!("failed to connect"))
         } else {
             Err(color_eyre::eyre::eyre!("connection state unexpected"))
@@ -817,6 +829,7 @@ pub struct VaraStream<'a> {
     force_disconnect: Option<tokio::sync::oneshot::Sender<()>>,
     remote_disconnect: RemoteDisconnect,
     read_to_end: bool,
+    disconnects: usize,
 }
 
 impl<'a> VaraStream<'a> {
@@ -832,7 +845,7 @@ impl<'a> VaraStream<'a> {
 #[pin_project::pinned_drop]
 impl<'a> PinnedDrop for VaraStream<'a> {
     fn drop(self: Pin<&mut Self>) {
-        if !self.tnc.status.connection.borrow().is_disconnected() {
+        if self.tnc.status.connection.borrow().disconnects == self.disconnects {
             let this = self.project();
             if let Some(dc) = this.force_disconnect.take() {
                 let _ = dc.send(());
-- 
2.43.0


From d1078327118efffe4e1e362bb27cf254e8c18e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 21/35] fix: wake both a waiting reader and a waiting writer at
 the remote disconnect

---
 src/modem/vara.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index d04918c..5c989db 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -776,7 +776,9 @@ impl VaraTnc {
         if report.state.is_connected() {
             let disconnects = report.disconnects;
             let mut subscriber = self.status.connection.clone();
-            let (remote_dc, remote_disconnect) = tokio::sync::oneshot::channel();
+            // reading and writing may wait in different tasks: each has its own notice
+            let (remote_dc_read, read_notice) = tokio::sync::oneshot::channel();
+            let (remote_dc_write, write_notice) = tokio::sync::oneshot::channel();
             let _remote_dc = tokio::spawn(async move {
                 // other reports may follow a disconnect before it is seen here
                 while subscriber.borrow().disconnects == disconnects {
@@ -784,13 +786,15 @@ impl VaraTnc {
                         break;
                     }
                 }
-                let _ = remote_dc.send(());
+                let _ = remote_dc_read.send(());
+                let _ = remote_dc_write.send(());
             });
 
             Ok(VaraStream {
                 tnc: self,
                 force_disconnect: Some(force_dc),
-                remote_disconnect: RemoteDisconnect { notice: remote_disconnect, seen: false },
+                read_disconnect: RemoteDisconnect { notice: read_notice, seen: false },
+                write_disconnect: RemoteDisconnect { notice: write_notice, seen: false },
                 read_to_end: false,
                 disconnects,
             })
@@ -814,9 +818,9 @@ struct RemoteDisconnect {
 }
 
 impl RemoteDisconnect {
-    fn poll_seen(&mut self, cx: &mut Context<'_>) -> bool {
+    fn poll_seen(&mut self, reported: bool, cx: &mut Context<'_>) -> bool {
         if !self.seen {
-            self.seen = Pin::new(&mut self.notice).poll(cx).is_ready();
+            self.seen = reported || Pin::new(&mut self.notice).poll(cx).is_ready();
         }
         self.seen
     }
@@ -827,12 +831,17 @@ impl RemoteDisconnect {
 pub struct VaraStream<'a> {
     tnc: &'a mut VaraTnc,
     force_disconnect: Option<tokio::sync::oneshot::Sender<()>>,
-    remote_disconnect: RemoteDisconnect,
+    read_disconnect: RemoteDisconnect,
+    write_disconnect: RemoteDisconnect,
     read_to_end: bool,
     disconnects: usize,
 }
 
 impl<'a> VaraStream<'a> {
+    fn disconnect_reported(&self) -> bool {
+        self.tnc.status.connection.borrow().disconnects != self.disconnects
+    }
+
     pub async fn disconnect(self) -> color_eyre::Result<()> {
         self.tnc.send_disconnect().await
     }
@@ -845,7 +854,7 @@ impl<'a> VaraStream<'a> {
 #[pin_project::pinned_drop]
 impl<'a> PinnedDrop for VaraStream<'a> {
     fn drop(self: Pin<&mut Self>) {
-        if self.tnc.status.connection.borrow().disconnects == self.disconnects {
+        if !self.disconnect_reported() {
             let this = self.project();
             if let Some(dc) = this.force_disconnect.take() {
                 let _ = dc.send(());
@@ -857,8 +866,9 @@ impl<'a> PinnedDrop for VaraStream<'a> {
 
 impl<'a> AsyncRead for VaraStream<'a> {
     fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
+        let reported = self.disconnect_reported();
         let this = self.project();
-        if this.remote_disconnect.poll_seen(cx) {
+        if this.read_disconnect.poll_seen(reported, cx) {
             if !*this.read_to_end {
                 // data that arrived before the disconnect is still to be read
                 match this.tnc.data.try_read(buf.initialize_unfilled()) {
@@ -878,8 +888,9 @@ impl<'a> AsyncRead for VaraStream<'a> {
 
 impl<'a> AsyncWrite for VaraStream<'a> {
     fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize, Error>> {
+        let reported = self.disconnect_reported();
         let this = self.project();
-        if this.remote_disconnect.poll_seen(cx) {
+        if this.write_disconnect.poll_seen(reported, cx) {
             return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
         }
 
@@ -887,8 +898,9 @@ impl<'a> AsyncWrite for VaraStream<'a> {
     }
 
     fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
+        let reported = self.disconnect_reported();
         let this = self.project();
-        if this.remote_disconnect.poll_seen(cx) {
+        if this.write_disconnect.poll_seen(reported, cx) {
             return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
         }
 
@@ -896,8 +908,9 @@ impl<'a> AsyncWrite for VaraStream<'a> {
     }
 
     fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
+        let reported = self.disconnect_reported();
         let this = self.project();
-        if this.remote_disconnect.poll_seen(cx) {
+        if this.write_disconnect.poll_seen(reported, cx) {
             return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
         }
 
@@ -905,8 +918,9 @@ impl<'a> AsyncWrite for VaraStream<'a> {
     }
 
     fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<Result<usize, Error>> {
+        let reported = self.disconnect_reported();
         let this = self.project();
-        if this.remote_disconnect.poll_seen(cx) {
+        if this.write_disconnect.poll_seen(reported, cx) {
             return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
         }
 
-- 
2.43.0


From a0577005068a4bb393f9224df1eea87ba2c62e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 22/35] fix: do not send DISCONNECT again after an accepted
 disconnect or abort

---
 src/modem/vara.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 5c989db..7911a9e 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -842,12 +842,18 @@ impl<'a> VaraStream<'a> {
         self.tnc.status.connection.borrow().disconnects != self.disconnects
     }
 
-    pub async fn disconnect(self) -> color_eyre::Result<()> {
-        self.tnc.send_disconnect().await
+    pub async fn disconnect(mut self) -> color_eyre::Result<()> {
+        self.tnc.send_disconnect().await?;
+        // accepted: nothing is left for the drop handler to end
+        self.force_disconnect = None;
+        Ok(())
     }
 
-    pub async fn abort(self) -> color_eyre::Result<()> {
-        self.tnc.send_abort().await
+    pub async fn abort(mut self) -> color_eyre::Result<()> {
+        self.tnc.send_abort().await?;
+        // accepted: nothing is left for the drop handler to end
+        self.force_disconnect = None;
+        Ok(())
     }
 }
 
-- 
2.43.0


From 600d185568b15ceecb78381b67121b5b9437c839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:55 +0000
Subject: [PATCH 23/35] fix: do not panic when tracing rig output that is not
 UTF-8

---
 src/rig/elecraft/kx3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index c2575d3..60287c4 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -73,7 +73,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
                     while data.len() > 0 {
                         match line(&data) {
                             Ok((remaining, line)) => {
-                                tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                                tracing::trace!(line = %String::from_utf8_lossy(line), remaining = %String::from_utf8_lossy(remaining), "received complete line");
                                 data = remaining;
                                 //
                                 // match nom::combinator::all_consuming(update)(line).map_err(|e| e.map_input(|i| String::from_utf8(i.into()).unwrap())).finish() {
@@ -102,7 +102,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
                                 // }
                             },
                             Err(err) if err.is_incomplete() => {
-                                tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                                tracing::trace!(buffer = %String::from_utf8_lossy(data), "incomplete");
                                 break
                             },
                             Err(err) => {
-- 
2.43.0


From b36d0f6cf02dc0de2a7d5302ecc3ef4114a2ca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:28 +0000
Subject: [PATCH 24/35] fix: do not stop rig control at an empty response

---
 src/rig/elecraft/kx3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index 60287c4..7d2aee2 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -40,7 +40,7 @@ pub enum Update<'a> {
 }
 
 fn line(data: &[u8]) -> IResult<&[u8], &[u8]> {
-    nom::sequence::terminated(nom::bytes::streaming::take_until1(";"), nom::bytes::streaming::tag(";"))(data)
+    nom::sequence::terminated(nom::bytes::streaming::take_until(";"), nom::bytes::streaming::tag(";"))(data)
 }
 
 #[tracing::instrument(skip(rx, stream), err)]
-- 
2.43.0


From b352de2c278f023a25f0260c280df1b234990a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 25/35] fix: stop rig control when the rig's stream ends

---
 src/rig/elecraft/kx3.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index 7d2aee2..d4f6965 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -64,6 +64,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
             result = stream.read_buf(&mut upd_buffer) => {
                 match result {
                     Err(err) => return Err(err.into()),
+                    Ok(0) => return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into()),
                     Ok(bytes) => {
                         tracing::trace!(bytes, "received bytes from command port");
                     }
-- 
2.43.0


From aa3eaa33b9fb968d728b077bf7b094fc91783eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:03 +0000
Subject: [PATCH 26/35] fix: print empty lines from the remote instead of
 failing

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index e7f0714..c8ab38f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -104,7 +104,7 @@ async fn main() -> color_eyre::Result<()> {
     let mut read = bytes::BytesMut::new();
 
     fn line(data: &[u8]) -> nom::IResult<&[u8], &[u8]> {
-        nom::sequence::terminated(nom::bytes::streaming::take_until1("\r"), nom::bytes::streaming::tag("\r"))(data)
+        nom::sequence::terminated(nom::bytes::streaming::take_until("\r"), nom::bytes::streaming::tag("\r"))(data)
     }
 
     'out: loop {
-- 
2.43.0


From 8b2a00d5a10bca89492c920ba9860da9130c1712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:35 +0000
Subject: [PATCH 27/35] fix: do not panic when tracing remote text that is not
 UTF-8

---
 src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index c8ab38f..208d820 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -114,7 +114,7 @@ async fn main() -> color_eyre::Result<()> {
             while data.len() > 0 {
                 match line(&data) {
                     Ok((remaining, line)) => {
-                        tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                        tracing::trace!(line = %String::from_utf8_lossy(line), remaining = %String::from_utf8_lossy(remaining), "received complete line");
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                         if line.ends_with(&[b'>']) {
@@ -122,7 +122,7 @@ async fn main() -> color_eyre::Result<()> {
                         }
                     },
                     Err(err) if err.is_incomplete() => {
-                        tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                        tracing::trace!(buffer = %String::from_utf8_lossy(data), "incomplete");
                         break
                     },
                     Err(err) => {
@@ -165,12 +165,12 @@ async fn main() -> color_eyre::Result<()> {
             while data.len() > 0 {
                 match line(&data) {
                     Ok((remaining, line)) => {
-                        tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                        tracing::trace!(line = %String::from_utf8_lossy(line), remaining = %String::from_utf8_lossy(remaining), "received complete line");
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                     },
                     Err(err) if err.is_incomplete() => {
-                        tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                        tracing::trace!(buffer = %String::from_utf8_lossy(data), "incomplete");
                         break
                     },
                     Err(err) => {
-- 
2.43.0


From 0673a8f452bd6aa6373249bd58cdc7e37714c797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:32 +0000
Subject: [PATCH 28/35] fix: end with an error when the remote disconnects
 before its prompt

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 208d820..cfb6fa1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -108,7 +108,10 @@ async fn main() -> color_eyre::Result<()> {
     }
 
     'out: loop {
-        vara_stream.read_buf(&mut read).await?;
+        let count = vara_stream.read_buf(&mut read).await?;
+        if count == 0 {
+            return Err(color_eyre::eyre::eyre!("the remote disconnected before its prompt"));
+        }
         let retain_after = {
             let mut data = &read[..];
             while data.len() > 0 {
-- 
2.43.0


From 83642ccce2b8b062f8428e367b0d2f320ef8b794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:30 +0000
Subject: [PATCH 29/35] fix: print remote lines that follow the prompt in the
 same segment

---
 src/main.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index cfb6fa1..5b92bbe 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -107,22 +107,21 @@ async fn main() -> color_eyre::Result<()> {
         nom::sequence::terminated(nom::bytes::streaming::take_until("\r"), nom::bytes::streaming::tag("\r"))(data)
     }
 
-    'out: loop {
+    let mut prompted = false;
+    while !prompted {
         let count = vara_stream.read_buf(&mut read).await?;
         if count == 0 {
             return Err(color_eyre::eyre::eyre!("the remote disconnected before its prompt"));
         }
         let retain_after = {
             let mut data = &read[..];
-            while data.len() > 0 {
+            while !prompted && data.len() > 0 {
                 match line(&data) {
                     Ok((remaining, line)) => {
                         tracing::trace!(line = %String::from_utf8_lossy(line), remaining = %String::from_utf8_lossy(remaining), "received complete line");
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
-                        if line.ends_with(&[b'>']) {
-                            break 'out;
-                        }
+                        prompted = line.ends_with(&[b'>']);
                     },
                     Err(err) if err.is_incomplete() => {
                         tracing::trace!(buffer = %String::from_utf8_lossy(data), "incomplete");
@@ -157,12 +156,7 @@ async fn main() -> color_eyre::Result<()> {
     let ident = format!("{}-{}", env!("CARGO_BIN_NAME"), env!("CARGO_PKG_VERSION"));
     let to_be_sent = format!("[{}-B2FWIHJM$]\rFF\r", ident);
     vara_stream.write_all(to_be_sent.as_bytes()).await?;
-    read.clear();
     loop {
-        let count = vara_stream.read_buf(&mut read).await?;
-        if count == 0 {
-            break;
-        }
         let retain_after = {
             let mut data = &read[..];
             while data.len() > 0 {
@@ -190,6 +184,10 @@ async fn main() -> color_eyre::Result<()> {
             read = new;
             tracing::trace!(bytes = read.len(), "retained incomplete parts");
         }
+        let count = vara_stream.read_buf(&mut read).await?;
+        if count == 0 {
+            break;
+        }
     }
 
     // data.write_all(b"[Plusendi-0.0.1-B2FWIHJM$]\rFF\r");
-- 
2.43.0


From 8ff7533ba4997cf156f8bbff62873bddc3ea4990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:40 +0000
Subject: [PATCH 30/35] fix: fail a command sent just as the modem connection
 is lost

---
 src/modem/vara.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 7911a9e..0e55bb9 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -685,11 +685,18 @@ impl VaraTnc {
     }
 
     async fn send_command(&self, command: Command) -> color_eyre::Result<()> {
-        let (cmd_tx, cmd_rx) = tokio::sync::oneshot::channel();
+        let (cmd_tx, mut cmd_rx) = tokio::sync::oneshot::channel();
 
         self.control_channel.send((command, cmd_tx)).await?;
 
-        if cmd_rx.await? == CommandResult::Wrong {
+        let reply = tokio::select!(
+            biased;
+            reply = &mut cmd_rx => reply?,
+            // a command sent just as the managing task ends may never be taken up
+            _ = self.control_channel.closed() => cmd_rx.try_recv()?,
+        );
+
+        if reply == CommandResult::Wrong {
             return Err(color_eyre::eyre::eyre!("failed to send connect command to tnc"));
         }
 
-- 
2.43.0


From e7d27176b91f365c49b135d3f4a53b34e5f526c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 31/35] fix: an incoming call's notice next to its outcome
 failed a connect

---
 src/modem/vara.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 0e55bb9..546943f 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -517,6 +517,10 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
                                             tx.calls.insert(my_call.to_owned());
                                             tx.registered_calls.send_replace(tx.calls.clone());
                                         }
+                                        Update::Connection(state @ (ConnectionState::Pending | ConnectionState::Canceled)) => {
+                                            // an incoming call is no news about our own connection
+                                            tracing::debug!(?state, "incoming call");
+                                        }
                                         Update::Connection(state) => {
                                             let state = state.into_owned();
                                             let disconnects = tx.connection.borrow().disconnects + usize::from(state.is_disconnected());
-- 
2.43.0


From 13630cacca121a4fb124aba26a58649243a4c462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 32/35] fix: a connect right after dropping a live link was
 sent before the link's DISCONNECT

---
 src/modem/vara.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 546943f..ce990fb 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -569,6 +569,8 @@ pub struct VaraTnc {
     control_channel: Sender<(Command, tokio::sync::oneshot::Sender<CommandResult>)>,
     status: TncStatusReceiver,
     managing_thread: tokio::task::JoinHandle<color_eyre::Result<()>>,
+    /// Ends a link that was dropped while it was live.
+    forced_disconnect: Option<tokio::task::JoinHandle<()>>,
 }
 
 fn channel() -> (TncStatusSender, TncStatusReceiver) {
@@ -654,6 +656,7 @@ impl VaraTncBuilder {
             control_channel: control_tx,
             status: status_rx,
             managing_thread,
+            forced_disconnect: None,
         })
     }
 
@@ -762,6 +765,12 @@ impl VaraTnc {
 
     #[tracing::instrument(skip(self), err)]
     pub async fn connect<'a>(&'a mut self, from: StationId, to: StationId) -> color_eyre::Result<VaraStream<'a>> {
+        // the disconnect of a link dropped before must not end the new one
+        if let Some(forced) = &mut self.forced_disconnect {
+            let _ = forced.await;
+            self.forced_disconnect = None;
+        }
+
         // only reports that follow the request tell its outcome
         self.status.connection.borrow_and_update();
 
@@ -773,7 +782,7 @@ impl VaraTnc {
 
         let (force_dc, force_disconnect) = tokio::sync::oneshot::channel();
         let cloned_control = self.control_channel.clone();
-        let _force_dc = tokio::spawn(async move {
+        let force_dc_task = tokio::spawn(async move {
             if let Ok(()) = force_disconnect.await {
                 let (tx, rx) = tokio::sync::oneshot::channel();
                 let _ = cloned_control.send((Command::Disconnect, tx)).await;
@@ -803,7 +812,7 @@ impl VaraTnc {
 
             Ok(VaraStream {
                 tnc: self,
-                force_disconnect: Some(force_dc),
+                force_disconnect: Some((force_dc, force_dc_task)),
                 read_disconnect: RemoteDisconnect { notice: read_notice, seen: false },
                 write_disconnect: RemoteDisconnect { notice: write_notice, seen: false },
                 read_to_end: false,
@@ -841,7 +850,7 @@ impl RemoteDisconnect {
 #[pin_project::pin_project(PinnedDrop)]
 pub struct VaraStream<'a> {
     tnc: &'a mut VaraTnc,
-    force_disconnect: Option<tokio::sync::oneshot::Sender<()>>,
+    force_disconnect: Option<(tokio::sync::oneshot::Sender<()>, tokio::task::JoinHandle<()>)>,
     read_disconnect: RemoteDisconnect,
     write_disconnect: RemoteDisconnect,
     read_to_end: bool,
@@ -873,8 +882,9 @@ impl<'a> PinnedDrop for VaraStream<'a> {
     fn drop(self: Pin<&mut Self>) {
         if !self.disconnect_reported() {
             let this = self.project();
-            if let Some(dc) = this.force_disconnect.take() {
+            if let Some((dc, task)) = this.force_disconnect.take() {
                 let _ = dc.send(());
+                this.tnc.forced_disconnect = Some(task);
             }
             // let _ = this.force_disconnect.send(());
         }
-- 
2.43.0


From e032fb72ddce81c9c2ce6d065970e4478e1ef021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 33/35] fix: connect took a report made before the modem
 accepted the request as its outcome

---
 src/modem/vara.rs | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index ce990fb..0c86acc 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -300,10 +300,14 @@ impl ConnectionStateOwned {
     }
 }
 
-/// The latest connection state, and how often the modem has reported a disconnect so far.
+/// A command's result, and how many connection reports had come before it.
+type Reply = (CommandResult, usize);
+
+/// The latest connection state, and how often the modem has reported one or a disconnect so far.
 #[derive(Clone, Debug, PartialEq, Eq)]
 struct ConnectionReport {
     state: ConnectionStateOwned,
+    reports: usize,
     disconnects: usize,
 }
 
@@ -429,7 +433,7 @@ fn line(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
 }
 
 #[tracing::instrument(skip(rx, tx, stream), err)]
-async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Sender<CommandResult>)>, mut tx: TncStatusSender, mut stream: TcpStream) -> color_eyre::Result<()> {
+async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Sender<Reply>)>, mut tx: TncStatusSender, mut stream: TcpStream) -> color_eyre::Result<()> {
     let mut cmd_buffer = String::with_capacity(32);
     let mut upd_buffer = bytes::BytesMut::with_capacity(32);
     let mut response_queue = VecDeque::with_capacity(4);
@@ -472,7 +476,7 @@ fn stringify_input<T: std::fmt::Display>(error: nom::Err<VerboseError<T>>) -> no
 }
 
 #[tracing::instrument(skip(stream, upd_buffer, tx, response_queue), err)]
-fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut TncStatusSender, response_queue: &mut VecDeque<tokio::sync::oneshot::Sender<CommandResult>>) -> color_eyre::Result<()> {
+fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut TncStatusSender, response_queue: &mut VecDeque<tokio::sync::oneshot::Sender<Reply>>) -> color_eyre::Result<()> {
     match stream.try_read_buf(upd_buffer) {
         Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(()),
         Err(err) => return Err(err.into()),
@@ -497,7 +501,8 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
                                 TncResponse::CommandResult(result) => {
                                     // replied at once, so that malformed input later on cannot take it away
                                     if let Some(reply) = response_queue.pop_front() {
-                                        let _ = reply.send(result);
+                                        let reports = tx.connection.borrow().reports;
+                                        let _ = reply.send((result, reports));
                                     } else {
                                         tracing::warn!("mismatched reply queue");
                                     }
@@ -523,8 +528,9 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
                                         }
                                         Update::Connection(state) => {
                                             let state = state.into_owned();
+                                            let reports = tx.connection.borrow().reports + 1;
                                             let disconnects = tx.connection.borrow().disconnects + usize::from(state.is_disconnected());
-                                            tx.connection.send_replace(ConnectionReport { state, disconnects });
+                                            tx.connection.send_replace(ConnectionReport { state, reports, disconnects });
                                         }
                                         Update::RemoteRegistration(registration) => {
                                             tx.remote_registration.send_replace(registration);
@@ -566,7 +572,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
 #[pin_project::pin_project]
 pub struct VaraTnc {
     data: TcpStream,
-    control_channel: Sender<(Command, tokio::sync::oneshot::Sender<CommandResult>)>,
+    control_channel: Sender<(Command, tokio::sync::oneshot::Sender<Reply>)>,
     status: TncStatusReceiver,
     managing_thread: tokio::task::JoinHandle<color_eyre::Result<()>>,
     /// Ends a link that was dropped while it was live.
@@ -579,7 +585,7 @@ fn channel() -> (TncStatusSender, TncStatusReceiver) {
     let (buffer_tx, buffer_rx) = channel(0);
     let (registered_calls_tx, registered_calls_rx) = channel(std::collections::HashSet::new());
     let (heartbeat_tx, heartbeat_rx) = channel(Instant::now());
-    let (connection_tx, connection_rx) = channel(ConnectionReport { state: ConnectionStateOwned::Disconnected, disconnects: 0 });
+    let (connection_tx, connection_rx) = channel(ConnectionReport { state: ConnectionStateOwned::Disconnected, reports: 0, disconnects: 0 });
     let (transceiver_tx, transceiver_rx) = channel(TransceiverCommand::Receive);
     let (remote_registration_tx, remote_registration_rx) = channel(Registration::Unregistered);
 
@@ -691,12 +697,13 @@ impl VaraTnc {
         }
     }
 
-    async fn send_command(&self, command: Command) -> color_eyre::Result<()> {
+    /// Returns how many connection reports had come before the reply.
+    async fn send_command(&self, command: Command) -> color_eyre::Result<usize> {
         let (cmd_tx, mut cmd_rx) = tokio::sync::oneshot::channel();
 
         self.control_channel.send((command, cmd_tx)).await?;
 
-        let reply = tokio::select!(
+        let (reply, reports) = tokio::select!(
             biased;
             reply = &mut cmd_rx => reply?,
             // a command sent just as the managing task ends may never be taken up
@@ -707,32 +714,32 @@ impl VaraTnc {
             return Err(color_eyre::eyre::eyre!("failed to send connect command to tnc"));
         }
 
-        Ok(())
+        Ok(reports)
     }
 
     #[tracing::instrument(skip(self), err)]
     pub async fn send_callsign<T: Into<MyCallSigns> + Debug>(&self, cs: T) -> color_eyre::Result<()> {
-        self.send_command(Command::SetCall(cs.into())).await
+        self.send_command(Command::SetCall(cs.into())).await.map(drop)
     }
 
     #[tracing::instrument(skip(self), err)]
     pub async fn send_compression(&self, mode: CompressionMode) -> color_eyre::Result<()> {
-        self.send_command(Command::SetCompression(mode)).await
+        self.send_command(Command::SetCompression(mode)).await.map(drop)
     }
 
     #[tracing::instrument(skip(self), err)]
     pub async fn send_bandwidth(&self, mode: BandwidthMode) -> color_eyre::Result<()> {
-        self.send_command(Command::SetBandwidth(mode)).await
+        self.send_command(Command::SetBandwidth(mode)).await.map(drop)
     }
 
     #[tracing::instrument(skip(self), err)]
     pub async fn send_disconnect(&self) -> color_eyre::Result<()> {
-        self.send_command(Command::Disconnect).await
+        self.send_command(Command::Disconnect).await.map(drop)
     }
 
     #[tracing::instrument(skip(self), err)]
     pub async fn send_abort(&self) -> color_eyre::Result<()> {
-        self.send_command(Command::Abort).await
+        self.send_command(Command::Abort).await.map(drop)
     }
 
     pub fn subscribe_rig_command(&self) -> tokio::sync::watch::Receiver<TransceiverCommand> {
@@ -771,10 +778,7 @@ impl VaraTnc {
             self.forced_disconnect = None;
         }
 
-        // only reports that follow the request tell its outcome
-        self.status.connection.borrow_and_update();
-
-        self.send_command(Command::Connect(ConnectCommand {
+        let reports = self.send_command(Command::Connect(ConnectCommand {
             origin: from,
             target: to,
             path: ConnectPath::Direct,
@@ -790,7 +794,10 @@ impl VaraTnc {
             }
         });
 
-        self.status.connection.changed().await?;
+        // only reports that follow the modem's acceptance tell the outcome
+        while self.status.connection.borrow().reports == reports {
+            self.status.connection.changed().await?;
+        }
 
         let report = self.status.connection.borrow().clone();
         if report.state.is_connected() {
-- 
2.43.0


From 616a7dc2d905cb092bc4aa3b2012005378b9b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 34/35] fix: report a log filter that cannot be read instead of
 panicking

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 5b92bbe..f80e3a5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -43,7 +43,7 @@ async fn main() -> color_eyre::Result<()> {
 
     let opt: Opt = Opt::from_args();
 
-    let env_filter = EnvFilter::try_new(&opt.log).unwrap();
+    let env_filter = EnvFilter::try_new(&opt.log)?;
     let fmt_layer = tracing_subscriber::fmt::layer();
 
     tracing_subscriber::registry()
-- 
2.43.0


From a35078e2e165de01cb4459e9655465adba721b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:50 +0000
Subject: [PATCH 35/35] fix: pass each of the modem's transmit requests to the
 rig only once

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index f80e3a5..8d06606 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -85,7 +85,7 @@ async fn main() -> color_eyre::Result<()> {
     let _thread3 = tokio::spawn(async move {
         while let Ok(()) = transceiver_cmd.changed().await {
             let request = {
-                let cmd = *transceiver_cmd.borrow();
+                let cmd = *transceiver_cmd.borrow_and_update();
                 tracing::trace!(?cmd, "received automated rig control request");
                 match cmd {
                     plusendi::modem::vara::TransceiverCommand::Transmit => plusendi::rig::elecraft::kx3::TransmitState::Transmit,
-- 
2.43.0

