From 86666708c4518f7a93f5d564dd58aa29b4547aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 01/28] fix: keep a read limit that is as large as the
 enclosing one

take() ignored a nested limit that was not smaller than the current one, but
reset_limit() popped it nevertheless. A property block that filled the rest of
its packet therefore removed the limit of the packet: PUBLISH with properties
and empty payload failed to decode, UNSUBACK without codes read into the next
packet.
---
 src/byte_reader.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 48da1a3..2e85e89 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -49,10 +49,12 @@ impl<R: Read> ByteReader<R> {
     /// sets a limit of reading, has to be used together
     /// with has_more() and reset_limit()
     pub fn take(&mut self, len: u32) {
+        let mut len = len;
         if let Some(l) = self.curr_limit {
-            if len >= l {
-                return;
-            }
+            // a nested region can not be larger than the one around it, but
+            // it has to be tracked even if it is just as large, since
+            // reset_limit() is going to close it
+            len = len.min(l);
             // push alread subtracted number
             self.read_limits.push(l - len);
         }
-- 
2.43.0


From f33f0c0177fc005f8d749b056447e023bc833dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 02/28] fix: refuse variable byte integers of more than 4 bytes

A continuation bit in the 4th byte was ignored, so the rest of the over-long
integer was taken for the contents of the packet.
---
 src/byte_reader.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 2e85e89..2646c25 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -162,13 +162,14 @@ impl<R: Read> ByteReader<R> {
             num += mult * (next & VARBYTEINT_MASK);
             mult *= 0x80;
             if next & VARBYTEINT_FIN_MASK == 0 {
-                break;
+                return Ok(num);
             }
         }
-        if num > VARBYTEINT_MAX {
-            return Err(format!("Invalid variable int {}", num));
-        }
-        Ok(num)
+        // the 4th byte still announces another one
+        Err(format!(
+            "Invalid variable int, more than 4 bytes or larger than {}",
+            VARBYTEINT_MAX
+        ))
     }
 
     pub fn has_more(&mut self) -> bool {
-- 
2.43.0


From 71eb5ecb9a2e9138d235d941342253ead58bfc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 03/28] fix: always continue with the next packet at its
 declared start

After an error inside of a property block only the block was discarded, and
after a successful decode surplus bytes were not discarded at all, so the rest
of the packet was decoded as if it was the next one.
---
 src/byte_reader.rs | 20 ++++++++++++++++++++
 src/packet.rs      | 19 +++++++++++++------
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 2646c25..f85fcde 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -61,6 +61,26 @@ impl<R: Read> ByteReader<R> {
         self.curr_limit = Some(len);
     }
 
+    /// number of limits that are currently set
+    pub(crate) fn limit_depth(&self) -> usize {
+        match self.curr_limit {
+            Some(_) => self.read_limits.len() + 1,
+            None => 0,
+        }
+    }
+
+    /// discards everything that is left of the packet whose limit was set
+    /// at the given depth, including nested limits a failed decode left behind.
+    /// Returns the number of discarded bytes
+    pub(crate) fn finish_packet(&mut self, depth: usize) -> Res<usize> {
+        while self.limit_depth() > depth + 1 {
+            self.reset_limit();
+        }
+        let rest = self.consume()?;
+        self.reset_limit();
+        Ok(rest.len())
+    }
+
     // this function tracks the curr_limit and imitates behaviour
     // of "Reader::take" while actually reading
     fn limit(&mut self, l: u32) {
diff --git a/src/packet.rs b/src/packet.rs
index 389d327..b87355a 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -167,15 +167,22 @@ impl<R: io::Read> PacketDecoder<R> {
     ///
     /// ```
     pub fn decode_packet(&mut self, protocol_version: u8) -> Res<MqttPacket> {
+        let depth = self.reader.limit_depth();
         let (length, fixed) = self.reader.read_header()?;
         let dec = self.decode_by_type(fixed, length, protocol_version);
-        if dec.is_err() {
-            // TODO: this should probably return an Error that indicates some
-            // critical failure
-            self.reader.consume()?;
+        // the next packet starts exactly `length` bytes later, no matter
+        // how far decoding this one got
+        // TODO: this should probably return an Error that indicates some
+        // critical failure
+        let rest = self.reader.finish_packet(depth);
+        let packet = dec?;
+        match rest? {
+            0 => Ok(packet),
+            n => Err(format!(
+                "Malformed packet, {} unexpected bytes after its end",
+                n
+            )),
         }
-        self.reader.reset_limit();
-        dec
     }
 
     pub fn has_more(&mut self) -> bool {
-- 
2.43.0


From 46aea52f3e97a08020d695ea75f4048f1771eb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 04/28] fix: stop decoding once the position in the stream is
 lost

After a failed read inside of a packet or an invalid remaining length the
decoder went on at an arbitrary position and could return packets that were
never sent.
---
 src/byte_reader.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index f85fcde..db4655e 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -8,6 +8,10 @@ pub struct ByteReader<R: Read> {
     reader: BufReader<R>,
     curr_limit: Option<u32>,
     read_limits: Vec<u32>,
+    /// set once the position in the stream is lost, i.e. reading failed inside
+    /// of a packet or a packet has no valid length. Whatever the stream
+    /// delivers afterwards can't be told apart from garbage
+    broken: bool,
 }
 
 impl<R: Read> ByteReader<R> {
@@ -16,6 +20,7 @@ impl<R: Read> ByteReader<R> {
             reader,
             curr_limit: None,
             read_limits: vec![],
+            broken: false,
         }
     }
 
@@ -25,6 +30,10 @@ impl<R: Read> ByteReader<R> {
         let fixed = FixedHeader::from_byte(first);
         // always read variable length to know how much we need to discard
         let length = self.read_variable_int();
+        if length.is_err() {
+            // without a length there is no way to find the next packet
+            self.broken = true;
+        }
         let fixed = match fixed {
             Err(e) => {
                 if let Ok(len) = length {
@@ -112,6 +121,9 @@ impl<R: Read> ByteReader<R> {
     }
 
     pub fn read_len(&mut self, len: u32) -> Result<Vec<u8>, String> {
+        if self.broken {
+            return Err("Position in stream is lost after a previous error".to_string());
+        }
         self.ensure_limit(len)?;
         let mut buf = vec![0; len as usize];
         match self.reader.read_exact(&mut buf) {
@@ -119,7 +131,12 @@ impl<R: Read> ByteReader<R> {
                 self.limit(len);
                 Ok(buf)
             }
-            Err(e) => Err(format!("Failed to read {} bytes. Reason: {:?}", len, e)),
+            Err(e) => {
+                // some of the bytes might be gone already, only a failure
+                // to start a new packet can be retried
+                self.broken = len > 1 || self.curr_limit.is_some();
+                Err(format!("Failed to read {} bytes. Reason: {:?}", len, e))
+            }
         }
     }
 
@@ -193,6 +210,9 @@ impl<R: Read> ByteReader<R> {
     }
 
     pub fn has_more(&mut self) -> bool {
+        if self.broken {
+            return false;
+        }
         // if curr_limit is anything other than Some(0)
         // rely on fill_buf
         if let Some(0) = self.curr_limit {
-- 
2.43.0


From 4dcc0a4d32dc4e81e47551d3b1f77ba881fb4f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 05/28] fix: a signal or the end of the stream is not the end
 of a packet

has_more() asked the stream even within a packet, so a list or property block
that was cut between two elements, or interrupted by a signal there, was
returned as a complete packet. Outside of a packet a signal looked like the
end of the stream.
---
 src/byte_reader.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index db4655e..4df0e6a 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -1,5 +1,5 @@
 use crate::structure::*;
-use std::io::{BufRead, BufReader, Read};
+use std::io::{BufRead, BufReader, ErrorKind, Read};
 
 static VARBYTEINT_MASK: u32 = 0x7F;
 static VARBYTEINT_FIN_MASK: u32 = 0x80;
@@ -213,15 +213,19 @@ impl<R: Read> ByteReader<R> {
         if self.broken {
             return false;
         }
-        // if curr_limit is anything other than Some(0)
-        // rely on fill_buf
-        if let Some(0) = self.curr_limit {
-            return false;
+        // within a limit the bytes are known to be due, if the stream
+        // can't deliver them reading has to fail
+        if let Some(n) = self.curr_limit {
+            return n > 0;
         }
         // TODO: switch to a better way to do this
-        match self.reader.fill_buf() {
-            Ok(v) => !v.is_empty(),
-            Err(_) => false,
+        loop {
+            match self.reader.fill_buf() {
+                Ok(v) => return !v.is_empty(),
+                // a signal is not the end of the stream
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                Err(_) => return false,
+            }
         }
     }
 
-- 
2.43.0


From 897f08bdf11e00f19ea4131bac42b5b7e56b642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 06/28] fix: don't allocate memory for bytes that did not
 arrive

A packet header that claims 256MB allocated all of it up front.
---
 src/byte_reader.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 4df0e6a..9da5980 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -3,6 +3,8 @@ use std::io::{BufRead, BufReader, ErrorKind, Read};
 
 static VARBYTEINT_MASK: u32 = 0x7F;
 static VARBYTEINT_FIN_MASK: u32 = 0x80;
+/// memory is only allocated in steps of this size while bytes arrive
+const READ_CHUNK: usize = 16 * 1024;
 
 pub struct ByteReader<R: Read> {
     reader: BufReader<R>,
@@ -125,19 +127,22 @@ impl<R: Read> ByteReader<R> {
             return Err("Position in stream is lost after a previous error".to_string());
         }
         self.ensure_limit(len)?;
-        let mut buf = vec![0; len as usize];
-        match self.reader.read_exact(&mut buf) {
-            Ok(_) => {
-                self.limit(len);
-                Ok(buf)
-            }
-            Err(e) => {
+        // len is whatever the other side claims, so don't allocate all of it
+        // before the bytes are actually there
+        let total = len as usize;
+        let mut buf = Vec::new();
+        while buf.len() < total {
+            let start = buf.len();
+            buf.resize(start + READ_CHUNK.min(total - start), 0);
+            if let Err(e) = self.reader.read_exact(&mut buf[start..]) {
                 // some of the bytes might be gone already, only a failure
                 // to start a new packet can be retried
                 self.broken = len > 1 || self.curr_limit.is_some();
-                Err(format!("Failed to read {} bytes. Reason: {:?}", len, e))
+                return Err(format!("Failed to read {} bytes. Reason: {:?}", len, e));
             }
         }
+        self.limit(len);
+        Ok(buf)
     }
 
     pub fn read_u8(&mut self) -> Result<u8, String> {
-- 
2.43.0


From 3e4ad9b421208b3953973b72f3cd314ddfaa5912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 07/28] fix: refuse properties that reach beyond the end of
 their packet

---
 src/byte_reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 9da5980..5a4f06b 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -236,6 +236,8 @@ impl<R: Read> ByteReader<R> {
 
     fn start_properties_decode(&mut self) -> Res<u32> {
         let length = self.read_variable_int()?;
+        // properties can't reach beyond the end of the packet
+        self.ensure_limit(length)?;
         if length > 0 {
             self.take(length);
         }
-- 
2.43.0


From 28448d8f8384921821ea9ef9b556e34ccaa26bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 08/28] fix: encode an empty property set as property length 0

It was encoded as length 1 followed by the invalid property code 0, or without
any length if it only had user properties without values.
---
 src/structure/properties.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/structure/properties.rs b/src/structure/properties.rs
index 6ffcf10..55f8c36 100644
--- a/src/structure/properties.rs
+++ b/src/structure/properties.rs
@@ -15,9 +15,6 @@ pub(crate) trait Properties: Sized {
     fn encode(&self) -> Res<Vec<u8>> {
         // Confirm should not add empty property length with no properties (rfc 3.4.2.2.1)
         let pairs = self.to_pairs()?;
-        if pairs.is_empty() {
-            return Ok(vec![0]); // empty properties
-        }
         // TODO: calculate size of properties before allocating buffer
         let mut writer = MqttWriter::new(100);
         writer.write_properties(pairs)?;
@@ -29,6 +26,9 @@ pub(crate) trait Properties: Sized {
         if protocol_version == 5 {
             if let Some(p) = props {
                 let enc = p.encode()?;
+                if enc.is_empty() {
+                    return Ok((vec![0], vec![])); // empty properties
+                }
                 Ok((MqttWriter::encode_variable_num(enc.len() as u32), enc))
             } else {
                 Ok((vec![0], vec![])) // empty properties
-- 
2.43.0


From c4209f4131f1ea20bd28f3261e21728a8e4ca715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 09/28] fix: count the reason code in the length of v5
 acknowledgements

PUBACK, PUBREC, PUBREL and PUBCOMP with a reason code other than Success or
with properties announced one byte less than they wrote.
---
 src/confirmation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/confirmation.rs b/src/confirmation.rs
index ae6d084..1821576 100644
--- a/src/confirmation.rs
+++ b/src/confirmation.rs
@@ -225,7 +225,10 @@ impl Packet for ConfirmationPacket {
         // Remaining Length of 2.
         match (code, properties_data.is_empty()) {
             (Some(0), true) => length = 2,
-            _ => length += properties_data.len() + props_len.len(),
+            // reason code and properties
+            (Some(_), _) => length += 1 + properties_data.len() + props_len.len(),
+            // neither of them exists in MQTT < 5
+            (None, _) => {}
         };
 
         let mut writer = MqttWriter::new(length);
-- 
2.43.0


From ac71d91ef9775eeef700bc14f3f9b470210a543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 10/28] fix: accept v5 DISCONNECT without reason code or
 properties

Both can be omitted (3.14.2.1, 3.14.2.2.1), the decoder tried to read the
property length nevertheless.
---
 src/disconnect.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index 5a03629..6379602 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -24,11 +24,13 @@ impl Packet for DisconnectPacket {
             } else {
                 packet.reason_code = Some(DisconnectCode::NormalDisconnection);
             }
-            // properies mqtt 5
-            packet.properties = match reader.read_properties()? {
-                None => None,
-                Some(props) => Some(DisconnectProperties::from_properties(props)?),
-            };
+            // properies mqtt 5, can be omitted together with their length
+            if length > 1 {
+                packet.properties = match reader.read_properties()? {
+                    None => None,
+                    Some(props) => Some(DisconnectProperties::from_properties(props)?),
+                };
+            }
         }
 
         Ok(packet)
-- 
2.43.0


From edd86c2de4713600578ae6defaabe60ddc2cbac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 11/28] fix: write the reason code that is counted in the
 length of v5 DISCONNECT

A packet with reason_code None announced one byte more than it wrote.
---
 src/disconnect.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index 6379602..8912278 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -48,8 +48,13 @@ impl Packet for DisconnectPacket {
         // Length
         writer.write_variable_num(length as u32)?;
         // reason code in header
-        if protocol_version == 5 && self.reason_code.is_some() {
-            writer.write_u8(self.reason_code.as_ref().unwrap().to_byte());
+        if protocol_version == 5 {
+            // a packet without reason code is a normal disconnection
+            let reason_code = self
+                .reason_code
+                .as_ref()
+                .unwrap_or(&DisconnectCode::NormalDisconnection);
+            writer.write_u8(reason_code.to_byte());
         }
         // properies mqtt 5
         writer.write_sized(&properties_data, &props_len)?;
-- 
2.43.0


From d122132568d1ce97141d79a5bc6f5cde77020f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 12/28] fix: accept AUTH without reason code and properties

---
 src/auth.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auth.rs b/src/auth.rs
index b5bd7e2..4e3fa15 100644
--- a/src/auth.rs
+++ b/src/auth.rs
@@ -38,7 +38,7 @@ impl Packet for AuthPacket {
     fn decode<R: io::Read>(
         reader: &mut ByteReader<R>,
         _: FixedHeader,
-        _: u32,
+        length: u32,
         protocol_version: u8,
     ) -> Res<AuthPacket> {
         if protocol_version != 5 {
@@ -49,6 +49,10 @@ impl Packet for AuthPacket {
             reason_code: AuthCode::Success,
             properties: None,
         };
+        // reason code and properties can be omitted for Success (3.15.2.1)
+        if length == 0 {
+            return Ok(packet);
+        }
         packet.reason_code = AuthCode::from_byte(reader.read_u8()?)?;
         // properies mqtt 5
         packet.properties = match reader.read_properties()? {
-- 
2.43.0


From 4804c613af59c6f96ab500b41262c11d218907b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 13/28] fix: refuse strings and binary data that don't fit
 their length prefix

The length was truncated to 16 bits but all bytes were written.
---
 src/connect.rs     | 10 +++++-----
 src/mqtt_writer.rs | 49 +++++++++++++++++++++++++++++-----------------
 src/publish.rs     |  2 +-
 src/subscribe.rs   |  2 +-
 src/unsubscribe.rs |  2 +-
 5 files changed, 39 insertions(+), 26 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index 728bb0b..64fca73 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -149,24 +149,24 @@ impl Packet for ConnectPacket {
 
         writer.write_sized(&properties_data, &props_len)?;
         // client id
-        writer.write_utf8_str(client_id);
+        writer.write_utf8_str(client_id)?;
         // will properties
         if protocol_version == 5 {
             writer.write_sized(&will_properties, &will_props_len)?;
         }
         // will topic and payload
         if has_will {
-            writer.write_utf8_str(will_topic);
-            writer.write_utf8_str(will_payload);
+            writer.write_utf8_str(will_topic)?;
+            writer.write_utf8_str(will_payload)?;
         }
 
         // username
         if let Some(u) = user_name {
-            writer.write_utf8_str(u);
+            writer.write_utf8_str(u)?;
         }
         // password
         if let Some(p) = password {
-            writer.write_utf8_str(p);
+            writer.write_utf8_str(p)?;
         }
         Ok(writer.into_vec())
     }
diff --git a/src/mqtt_writer.rs b/src/mqtt_writer.rs
index cb92fda..f173b37 100644
--- a/src/mqtt_writer.rs
+++ b/src/mqtt_writer.rs
@@ -34,19 +34,19 @@ impl MqttWriter {
                 }
                 (code, PropType::String(v)) => {
                     self.write_u8(code);
-                    self.write_utf8_string(v)
+                    self.write_utf8_string(v)?;
                 }
                 (code, PropType::Str(v)) => {
                     self.write_u8(code);
-                    self.write_utf8_str(v)
+                    self.write_utf8_str(v)?;
                 }
                 (code, PropType::Binary(v)) => {
                     self.write_u8(code);
-                    self.write_binary(v)
+                    self.write_binary(v)?;
                 }
                 (code, PropType::BinaryRef(v)) => {
                     self.write_u8(code);
-                    self.write_binary_ref(v)
+                    self.write_binary_ref(v)?;
                 }
                 // should never happen actually
                 (_, PropType::Pair(_, _)) => {}
@@ -57,8 +57,8 @@ impl MqttWriter {
                         // split into pairs
                         for val in v {
                             self.write_u8(code);
-                            self.write_utf8_str(&k);
-                            self.write_utf8_str(&val);
+                            self.write_utf8_str(&k)?;
+                            self.write_utf8_str(&val)?;
                         }
                     }
                 }
@@ -67,8 +67,8 @@ impl MqttWriter {
                         // split into pairs
                         for val in v {
                             self.write_u8(code);
-                            self.write_utf8_str(k);
-                            self.write_utf8_str(val);
+                            self.write_utf8_str(k)?;
+                            self.write_utf8_str(val)?;
                         }
                     }
                 }
@@ -121,29 +121,42 @@ impl MqttWriter {
         Ok(())
     }
 
-    pub fn write_utf8_string(&mut self, s: String) {
-        self.write_u16(s.len() as u16);
-        for b in s.bytes() {
-            self.buf.push(b);
+    /// strings and binary data are prefixed with a two byte length
+    fn write_len(&mut self, len: usize) -> Res<()> {
+        if len > u16::MAX as usize {
+            return Err(format!(
+                "Invalid length {}, strings and binary data are limited to {} bytes",
+                len,
+                u16::MAX
+            ));
         }
+        self.write_u16(len as u16);
+        Ok(())
+    }
+
+    pub fn write_utf8_string(&mut self, s: String) -> Res<()> {
+        self.write_utf8_str(&s)
     }
 
-    pub fn write_utf8_str(&mut self, s: &str) {
-        self.write_u16(s.len() as u16);
+    pub fn write_utf8_str(&mut self, s: &str) -> Res<()> {
+        self.write_len(s.len())?;
         for b in s.bytes() {
             self.buf.push(b);
         }
+        Ok(())
     }
 
     /// a Binary vector should never be empty
-    pub fn write_binary(&mut self, s: Vec<u8>) {
-        self.write_u16(s.len() as u16);
+    pub fn write_binary(&mut self, s: Vec<u8>) -> Res<()> {
+        self.write_len(s.len())?;
         self.write_vec(s);
+        Ok(())
     }
 
-    pub fn write_binary_ref(&mut self, s: &[u8]) {
-        self.write_u16(s.len() as u16);
+    pub fn write_binary_ref(&mut self, s: &[u8]) -> Res<()> {
+        self.write_len(s.len())?;
         self.write_slice(s);
+        Ok(())
     }
 
     pub fn write_u16(&mut self, length: u16) {
diff --git a/src/publish.rs b/src/publish.rs
index 766e571..29abeba 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -86,7 +86,7 @@ impl Packet for PublishPacket {
         writer.write_variable_num(length as u32)?;
 
         // Topic
-        writer.write_utf8_str(topic);
+        writer.write_utf8_str(topic)?;
 
         // Message ID
         if *qos > 0 {
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 76043cb..1372b9e 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -127,7 +127,7 @@ impl Packet for SubscribePacket {
 
         // subscriptions payload
         for sub in self.subscriptions.iter() {
-            writer.write_utf8_str(&sub.topic);
+            writer.write_utf8_str(&sub.topic)?;
             let mut options = sub.qos.to_byte();
             if protocol_version == 5 {
                 let nl = (sub.nl as u8) << SUBSCRIBE_OPTIONS_NL_SHIFT;
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index c9e4989..bc61530 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -34,7 +34,7 @@ impl Packet for UnsubscribePacket {
 
     // Unsubs
     for unsub in self.unsubscriptions.iter() {
-      writer.write_utf8_str(unsub);
+      writer.write_utf8_str(unsub)?;
     }
     Ok(writer.into_vec())
   }
-- 
2.43.0


From 51900dde0cbb1871c73a002cc64f53d4889620f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 14/28] fix: refuse to encode an invalid QoS

Surplus bits were written to the other flags or the packet type.
---
 src/connect.rs | 3 +++
 src/publish.rs | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/connect.rs b/src/connect.rs
index 64fca73..bd01046 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -78,6 +78,9 @@ impl Packet for ConnectPacket {
                 qos,
                 retain,
             } = will;
+            if *qos > 2 {
+                return Err("Invalid will QoS, must be <= 2".to_string());
+            }
             has_will = true;
             will_retain = *retain;
             will_qos = Some(qos);
diff --git a/src/publish.rs b/src/publish.rs
index 29abeba..acaa182 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -61,6 +61,11 @@ impl Packet for PublishPacket {
         // Get the payload length
         length += payload.len();
 
+        // there are only 2 bits for it in the header
+        if *qos > 2 {
+            return Err("Invalid QoS, must be <= 2".to_string());
+        }
+
         // Message ID must a number if qos > 0
         if *qos > 0 {
             if message_id.is_none() {
-- 
2.43.0


From d38e272e31c44831e4e0dba0e565ac163d5be4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 15/28] fix: refuse to encode a last will without topic

Without a topic its length was written, but not counted.
---
 src/connect.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index bd01046..67ed810 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -86,12 +86,12 @@ impl Packet for ConnectPacket {
             will_qos = Some(qos);
             // It must have non-empty topic
             // add topic length if any
-            if let Some(t) = topic.as_ref() {
-                if t.is_empty() {
-                    return Err("Not allowed to use empty will topic".to_string());
+            match topic.as_ref() {
+                Some(t) if !t.is_empty() => {
+                    will_topic = t;
+                    length += t.len() + 2;
                 }
-                will_topic = t;
-                length += t.len() + 2;
+                _ => return Err("Not allowed to use empty will topic".to_string()),
             }
             // Payload
             length += 2; // payload length
-- 
2.43.0


From 8a0a7c70d08ffd0dd502b6364c8fff4184d084a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 16/28] fix: don't write reason codes into UNSUBACK before MQTT
 5

---
 src/unsuback.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/unsuback.rs b/src/unsuback.rs
index 60bc6fd..f886057 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -9,8 +9,14 @@ impl Packet for UnsubackPacket {
         // Check message ID
         let mut length = 2;
 
+        // reason codes exist only in mqtt 5
+        let granted = if protocol_version == 5 {
+            self.granted.as_slice()
+        } else {
+            &[]
+        };
         // add length of unsubscriptions
-        length += self.granted.len();
+        length += granted.len();
 
         // properies mqtt 5
         let (props_len, properties_data) =
@@ -30,7 +36,7 @@ impl Packet for UnsubackPacket {
         writer.write_sized(&properties_data, &props_len)?;
 
         // Granted
-        for g in self.granted.iter() {
+        for g in granted.iter() {
             writer.write_u8(g.to_byte());
         }
         Ok(writer.into_vec())
-- 
2.43.0


From 44ff4309ea2ae0b5c461b06c65ed502c2796e66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 17/28] fix: refuse to encode SUBSCRIBE, SUBACK and UNSUBSCRIBE
 without payload

They are malformed and refused by the decoder.
---
 src/suback.rs      | 3 +++
 src/subscribe.rs   | 5 ++++-
 src/unsubscribe.rs | 5 +++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/suback.rs b/src/suback.rs
index 3d60ed8..f844324 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -89,6 +89,9 @@ impl Packet for SubackPacket {
         } else {
             self.granted.iter().map(|code| code.to_byte()).collect()
         };
+        if granted.is_empty() {
+            return Err("Invalid suback - no granted QoS or reason code".to_string());
+        }
         length += granted.len();
 
         // properies mqtt 5
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 1372b9e..d9e8595 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -90,7 +90,10 @@ impl Packet for SubscribePacket {
         // Check message ID
         let mut length = 2;
 
-        // check subscriptions
+        // check subscriptions, the payload must contain at least one
+        if self.subscriptions.is_empty() {
+            return Err("Invalid subscriptions - no topic".to_string());
+        }
         for sub in self.subscriptions.iter() {
             if sub.topic.is_empty() {
                 return Err("Invalid subscriptions - empty topic".to_string());
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index bc61530..51fe5cf 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -9,6 +9,11 @@ impl Packet for UnsubscribePacket {
     // Check message ID
     let mut length = 2;
 
+    // the payload must contain at least one topic
+    if self.unsubscriptions.is_empty() {
+      return Err("Invalid unsubscriptions - no topic".to_string());
+    }
+
     // add length of unsubscriptions
     length += self
       .unsubscriptions
-- 
2.43.0


From a7c0799b1333ca5dbbf9f1aeb67a69d91a8ec41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 18/28] fix: refuse to encode an acknowledgement of another
 packet type

---
 src/confirmation.rs |  4 ++++
 src/packet.rs       | 11 +++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/confirmation.rs b/src/confirmation.rs
index 1821576..92b88a4 100644
--- a/src/confirmation.rs
+++ b/src/confirmation.rs
@@ -183,6 +183,10 @@ impl Packet for ConfirmationPacket {
             message_id,
             ..
         } = &self;
+        match cmd {
+            PacketType::Puback | PacketType::Pubrec | PacketType::Pubrel | PacketType::Pubcomp => {}
+            t => return Err(format!("Invalid confirmation type {:?}", t)),
+        }
         // let mut length = if protocol_version == 5 { 3 } else { 2 };
         let mut length = 2;
         // Bits 3,2,1 and 0 of the Fixed Header in the PUBREL packet are reserved
diff --git a/src/packet.rs b/src/packet.rs
index b87355a..bc7b582 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -69,6 +69,17 @@ impl MqttPacket {
     /// ```
     ///
     pub fn encode(self, protocol_version: u8) -> Res<Vec<u8>> {
+        // acknowledgements carry their type themselves
+        let (expected, actual) = match &self {
+            MqttPacket::Puback(packet) => (PacketType::Puback, packet.cmd),
+            MqttPacket::Pubrec(packet) => (PacketType::Pubrec, packet.cmd),
+            MqttPacket::Pubrel(packet) => (PacketType::Pubrel, packet.cmd),
+            MqttPacket::Pubcomp(packet) => (PacketType::Pubcomp, packet.cmd),
+            _ => (PacketType::Reserved, PacketType::Reserved),
+        };
+        if expected != actual {
+            return Err(format!("Invalid type {:?} for {:?}", actual, expected));
+        }
         match self {
             MqttPacket::Puback(packet)
             | MqttPacket::Pubrec(packet)
-- 
2.43.0


From 9bfbe4cf8a76f4514eeee1ec0009019608bd8a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 19/28] fix: refuse CONNECT with will QoS 3

---
 src/connect.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/connect.rs b/src/connect.rs
index 67ed810..4a4f126 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -292,6 +292,11 @@ impl ConnectFlags {
             }
         }
 
+        // [MQTT-3.1.2-14], [MQTT-3.1.2-12] in MQTT 5
+        if connect_flags.will_qos > 2 {
+            return Err("Will QoS must not be 3".to_string());
+        }
+
         let will_flags = if connect_flags.will {
             Some(LastWill {
                 topic: None,
-- 
2.43.0


From a7b181f69159445b6a20dab39aab9095fabc00ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 20/28] fix: CONNACK features are available if they are not
 mentioned

Wildcard, shared subscriptions and subscription identifiers are supported if
their property is absent (3.2.2.3.11-13).
---
 src/structure/properties.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/structure/properties.rs b/src/structure/properties.rs
index 55f8c36..7f04825 100644
--- a/src/structure/properties.rs
+++ b/src/structure/properties.rs
@@ -409,9 +409,10 @@ impl Default for ConnackProperties {
             maximum_qos: 2,
             // retained messages available by default
             retain_available: true,
-            wildcard_subscription_available: false,
-            subscription_identifiers_available: false,
-            shared_subscription_available: false,
+            // available unless the server says otherwise
+            wildcard_subscription_available: true,
+            subscription_identifiers_available: true,
+            shared_subscription_available: true,
         }
     }
 }
-- 
2.43.0


From 052cbaa582697baed12478bb407e21e42401f458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 21/28] fix: refuse v5 CONNACK without reason code

---
 src/connack.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/connack.rs b/src/connack.rs
index 32af8fa..774c2a4 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -48,17 +48,14 @@ impl Packet for ConnackPacket {
             ..ConnackPacket::default()
         };
 
+        if length < 2 {
+            return Err("Packet too short".to_string());
+        }
+        let code = Some(reader.read_u8()?);
         if protocol_version == 5 {
-            packet.reason_code = if length >= 2 {
-                Some(reader.read_u8()?)
-            } else {
-                Some(0)
-            };
+            packet.reason_code = code;
         } else {
-            if length < 2 {
-                return Err("Packet too short".to_string());
-            }
-            packet.return_code = Some(reader.read_u8()?);
+            packet.return_code = code;
         }
         // mqtt 5 properties
         if protocol_version == 5 && reader.has_more() {
-- 
2.43.0


From 593faba9e55d1020e0083c6f04dbb71b94378680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 22/28] fix: mqtt 5 allows a password without a user name

---
 src/connect.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connect.rs b/src/connect.rs
index 4a4f126..2fde52c 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -118,7 +118,8 @@ impl Packet for ConnectPacket {
         // Password
         let mut has_password = false;
         if let Some(pass) = &password {
-            if !has_username {
+            // only mqtt 5 allows a password without a user name
+            if !has_username && protocol_version != 5 {
                 return Err("Username is required to use password".to_string());
             }
             has_password = true;
-- 
2.43.0


From a15f9fb289ccd6284694021e2b23c91a3cab762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:18 +0000
Subject: [PATCH 23/28] fix: mqtt 5 allows an empty client id without clean
 start

---
 src/connect.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connect.rs b/src/connect.rs
index 2fde52c..31b72fa 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -39,8 +39,9 @@ impl Packet for ConnectPacket {
             return Err("Invalid protocol version".to_string());
         }
 
-        // ClientId might be omitted in 3.1.1 and 5, but only if cleanSession is set to 1
+        // ClientId might be omitted in 3.1.1 and 5, but in 3.1.1 only if cleanSession is set to 1
         if (client_id.is_empty() && protocol_version >= 4 && *clean_session)
+            || (client_id.is_empty() && protocol_version == 5)
             || !client_id.is_empty()
         {
             length += client_id.len() + 2;
-- 
2.43.0


From ef14a68455fa63ef888bfb96f724960917d8acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 24/28] fix: mqtt 5 allows an alias in place of the topic of a
 PUBLISH

---
 src/publish.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/publish.rs b/src/publish.rs
index acaa182..2ab4f64 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -54,7 +54,12 @@ impl Packet for PublishPacket {
 
         // Topic must be a non-empty string or Buffer
         length += 2 + topic.len();
-        if topic.is_empty() {
+        // in mqtt 5 an alias may take the place of the topic
+        let has_alias = protocol_version == 5
+            && properties
+                .as_ref()
+                .map_or(false, |p| p.topic_alias.is_some());
+        if topic.is_empty() && !has_alias {
             return Err("Invalid topic".to_string());
         }
 
-- 
2.43.0


From d22d2ef4d2f1a7444a1bcdf9e3ea66fa2bfc591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 25/28] fix: a packet that claims more than the limit around it
 holds was returned truncated

---
 src/byte_reader.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 5a4f06b..d1bd54e 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -51,6 +51,11 @@ impl<R: Read> ByteReader<R> {
         match length {
             Err(e) => Err(e),
             Ok(len) => {
+                // a packet can't reach beyond the end of the region it is read in
+                if let Err(e) = self.ensure_limit(len) {
+                    self.consume()?;
+                    return Err(e);
+                }
                 self.take(len);
                 Ok((len, fixed))
             }
-- 
2.43.0


From 507bb47931f542b0c6c6c183cdd16d30bfaf09b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 26/28] fix: a header written for PUBREL lacked the flag that
 reading it requires

---
 src/structure/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure/common.rs b/src/structure/common.rs
index 6076842..062ab24 100644
--- a/src/structure/common.rs
+++ b/src/structure/common.rs
@@ -216,7 +216,7 @@ impl FixedHeader {
             PacketType::Publish => {
                 message_type | ((self.dup as u8) << 3) | (self.qos << 1) | self.retain as u8
             }
-            PacketType::Unsubscribe | PacketType::Subscribe => {
+            PacketType::Pubrel | PacketType::Unsubscribe | PacketType::Subscribe => {
                 message_type | 2 // Bits 3,2,1 and 0 need to ALWAYS be set to 0, 0, 1, 0 respectively
             }
             _ => message_type,
-- 
2.43.0


From b099b695e88f3ef8e6af4c1f9d864df3a189d859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 27/28] fix: an UNSUBSCRIBE with an empty topic filter was
 encoded

---
 src/unsubscribe.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index 51fe5cf..fec4aba 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -13,6 +13,9 @@ impl Packet for UnsubscribePacket {
     if self.unsubscriptions.is_empty() {
       return Err("Invalid unsubscriptions - no topic".to_string());
     }
+    if self.unsubscriptions.iter().any(|topic| topic.is_empty()) {
+      return Err("Invalid unsubscriptions - empty topic".to_string());
+    }
 
     // add length of unsubscriptions
     length += self
-- 
2.43.0


From b0a9e96f9971760edf2e37c1a799462ff5c44370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 28/28] fix: the length of a packet of 4 GiB and more was cut
 to 32 bits

---
 src/auth.rs         | 2 +-
 src/confirmation.rs | 2 +-
 src/connack.rs      | 2 +-
 src/connect.rs      | 2 +-
 src/disconnect.rs   | 2 +-
 src/mqtt_writer.rs  | 9 +++++++++
 src/publish.rs      | 2 +-
 src/suback.rs       | 2 +-
 src/subscribe.rs    | 2 +-
 src/unsuback.rs     | 2 +-
 src/unsubscribe.rs  | 2 +-
 11 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/auth.rs b/src/auth.rs
index 4e3fa15..24292cf 100644
--- a/src/auth.rs
+++ b/src/auth.rs
@@ -24,7 +24,7 @@ impl Packet for AuthPacket {
         writer.write_header(FixedHeader::for_type(PacketType::Auth));
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // reason code
         writer.write_u8(self.reason_code.to_byte());
diff --git a/src/confirmation.rs b/src/confirmation.rs
index 92b88a4..7020097 100644
--- a/src/confirmation.rs
+++ b/src/confirmation.rs
@@ -247,7 +247,7 @@ impl Packet for ConfirmationPacket {
         writer.write_u8(header);
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(*message_id);
diff --git a/src/connack.rs b/src/connack.rs
index 774c2a4..86a15ed 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -23,7 +23,7 @@ impl Packet for ConnackPacket {
         let mut writer = MqttWriter::new(length);
         writer.write_u8(FixedHeader::for_type(PacketType::Connack).encode());
         // length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
         writer.write_u8(if self.session_present { 0x01 } else { 0x0 });
         writer.write_u8(rc);
         writer.write_sized(&properties_data, &props_len)?;
diff --git a/src/connect.rs b/src/connect.rs
index 31b72fa..ae6182c 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -131,7 +131,7 @@ impl Packet for ConnectPacket {
         // write header
         writer.write_u8(FixedHeader::for_type(PacketType::Connect).encode());
         // length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
         // protocol id and protocol version
         let proto_vec = match protocol_id {
             Protocol::MQIsdp => MQISDP_BUF.to_vec(),
diff --git a/src/disconnect.rs b/src/disconnect.rs
index 8912278..5978200 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -46,7 +46,7 @@ impl Packet for DisconnectPacket {
         // Header
         writer.write_header(FixedHeader::for_type(PacketType::Disconnect));
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
         // reason code in header
         if protocol_version == 5 {
             // a packet without reason code is a normal disconnection
diff --git a/src/mqtt_writer.rs b/src/mqtt_writer.rs
index f173b37..c554dd0 100644
--- a/src/mqtt_writer.rs
+++ b/src/mqtt_writer.rs
@@ -121,6 +121,15 @@ impl MqttWriter {
         Ok(())
     }
 
+    /// the remaining length of a packet
+    pub fn write_length(&mut self, length: usize) -> Res<()> {
+        // has to be checked before it is cut to 32 bits
+        if length > VARBYTEINT_MAX as usize {
+            return Err(format!("Invalid packet length {}", length));
+        }
+        self.write_variable_num(length as u32)
+    }
+
     /// strings and binary data are prefixed with a two byte length
     fn write_len(&mut self, len: usize) -> Res<()> {
         if len > u16::MAX as usize {
diff --git a/src/publish.rs b/src/publish.rs
index 2ab4f64..30f81c8 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -93,7 +93,7 @@ impl Packet for PublishPacket {
         });
 
         // Remaining length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Topic
         writer.write_utf8_str(topic)?;
diff --git a/src/suback.rs b/src/suback.rs
index f844324..70948b7 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -103,7 +103,7 @@ impl Packet for SubackPacket {
         writer.write_header(FixedHeader::for_type(PacketType::Suback));
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(self.message_id);
diff --git a/src/subscribe.rs b/src/subscribe.rs
index d9e8595..b2e66b5 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -120,7 +120,7 @@ impl Packet for SubscribePacket {
         });
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(self.message_id);
diff --git a/src/unsuback.rs b/src/unsuback.rs
index f886057..7687c66 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -27,7 +27,7 @@ impl Packet for UnsubackPacket {
         writer.write_header(FixedHeader::for_type(PacketType::Unsuback));
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(self.message_id);
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index fec4aba..7eff5af 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -32,7 +32,7 @@ impl Packet for UnsubscribePacket {
     writer.write_header(FixedHeader::for_type(PacketType::Unsubscribe));
 
     // Length
-    writer.write_variable_num(length as u32)?;
+    writer.write_length(length)?;
 
     // Message ID
     writer.write_u16(self.message_id);
-- 
2.43.0

