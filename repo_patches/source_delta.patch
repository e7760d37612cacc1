From 797f4faf3453d39b279bc6bf0380139f9cdfbca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:02 +0000
Subject: [PATCH 01/31] fix: name decompression no longer panics or loops on
 malformed names

---
 src/buffer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 38f4717..b416682 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -136,8 +136,14 @@ impl<'a> DnsBuffer<'a> {
 
         let mut data = Vec::<Vec<u8>>::new();
         let mut org_pos = None;
+        // Start of the labels that are currently being read. A compression pointer has to refer to
+        // data prior to it, otherwise resolving a chain of pointers might never terminate.
+        let mut labels_start = self.pos;
         loop {
-            let len = self.data[self.pos];
+            let len = *self
+                .data
+                .get(self.pos)
+                .ok_or(DnsError::LengthViolation)?;
             if len & COMPRESSION_MASK == COMPRESSION_MASK {
                 // Instead of returning an error we should look up what the pointer value is
                 // and reolve the fqdn here
@@ -149,11 +155,12 @@ impl<'a> DnsBuffer<'a> {
                 self.pos = (u16::from_be_bytes(self.peek_bytes(2)?.try_into()?)
                     & !COMPRESSION_MASK_U16) as usize;
 
-                if self.pos >= org_pos.unwrap_or(0) {
+                if self.pos >= labels_start {
                     self.pos = org_pos.unwrap_or(0);
                     return Err(DnsError::UnresolveableCompressionPointer);
                 }
-            } else if self.pos + len as usize > self.data.len() {
+                labels_start = self.pos;
+            } else if self.pos + len as usize >= self.data.len() {
                 // Length encoded in FQDN would run out of the buffer
                 return Err(DnsError::LengthViolation);
             } else if len == 0 {
-- 
2.43.0


From b87aefdedeace0a56cca172c53aaa62f71e5b3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:05 +0000
Subject: [PATCH 02/31] fix: DnsBuffer length checks do not overflow for huge
 lengths

---
 src/buffer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index b416682..f073222 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -18,7 +18,7 @@ impl<'a> DnsBuffer<'a> {
     /// but with a custom length parameter. The start of the new buffer is at index 0 of
     /// the parent buffer.
     pub fn sub_buffer(&mut self, mut len: usize) -> Result<DnsBuffer, DnsError> {
-        len += self.pos;
+        len = len.saturating_add(self.pos);
         if len > self.data.len() {
             return Err(DnsError::LengthViolation);
         }
@@ -50,7 +50,7 @@ impl<'a> DnsBuffer<'a> {
 
     /// Advances the current index by `len` bytes.
     pub fn advance(&mut self, mut len: usize) -> Result<(), DnsError> {
-        len += self.pos;
+        len = len.saturating_add(self.pos);
         if len > self.data.len() {
             return Err(DnsError::LengthViolation);
         }
@@ -61,7 +61,7 @@ impl<'a> DnsBuffer<'a> {
     /// Returns a read-only view into the buffer that starts at the current index and ends at
     /// the current position + len without modifying the internal state (e.g. the current index).
     pub fn peek_bytes(&self, len: usize) -> Result<&[u8], DnsError> {
-        if self.pos + len > self.data.len() {
+        if self.pos.saturating_add(len) > self.data.len() {
             return Err(DnsError::LengthViolation);
         }
         Ok(&self.data[self.pos..self.pos + len])
@@ -70,7 +70,7 @@ impl<'a> DnsBuffer<'a> {
     /// Returns a read-only view into the buffer that starts at the current index and ends at
     /// the current position + len and sets the current index to the end of the returned slice.
     pub fn extract_bytes(&mut self, len: usize) -> Result<&[u8], DnsError> {
-        if self.pos + len > self.data.len() {
+        if self.pos.saturating_add(len) > self.data.len() {
             return Err(DnsError::LengthViolation);
         }
 
-- 
2.43.0


From df1d864e3e034c9641ae2057cf09b5a8d79349d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:10 +0000
Subject: [PATCH 03/31] fix: reject reserved label types when extracting a
 domain name

---
 src/buffer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index f073222..7f0449f 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -160,6 +160,9 @@ impl<'a> DnsBuffer<'a> {
                     return Err(DnsError::UnresolveableCompressionPointer);
                 }
                 labels_start = self.pos;
+            } else if len & COMPRESSION_MASK != 0 {
+                // The label types 0b01 and 0b10 are reserved and no label is longer than 63 bytes
+                return Err(DnsError::LengthViolation);
             } else if self.pos + len as usize >= self.data.len() {
                 // Length encoded in FQDN would run out of the buffer
                 return Err(DnsError::LengthViolation);
-- 
2.43.0


From abae4f8d6e3a25b347ae16b2c5f2456695469aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:55 +0000
Subject: [PATCH 04/31] fix: reject headers with an unknown response code
 instead of panicking later

---
 src/header.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 91497a3..52dd08a 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -203,14 +203,18 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Header {
     type Error = DnsError;
 
     fn try_from(buffer: &mut DnsBuffer) -> Result<Self, Self::Error> {
-        Ok(Header {
+        let header = Header {
             id: buffer.extract_u16()?,
             flags: FlagBitfield::from_bytes(buffer.extract_bytes(2)?.try_into()?),
             ques_count: buffer.extract_u16()?,
             ans_count: buffer.extract_u16()?,
             auth_count: buffer.extract_u16()?,
             add_count: buffer.extract_u16()?,
-        })
+        };
+
+        // Only accept response codes that can be represented by `ResponseCode`
+        ResponseCode::try_from(header.flags.rcode())?;
+        Ok(header)
     }
 }
 
-- 
2.43.0


From d94fef90f45fa03f0087e6ed66e184515c954c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:57 +0000
Subject: [PATCH 05/31] fix: keep the section counts of a packet in sync with
 its sections

---
 src/packet.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index d542777..9b3a21f 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -76,8 +76,10 @@ impl Packet {
     /// This sets the necessary flags to make it a query dns packet. Other fields remain defaulted.
     /// This should only be used to query information from a name server.
     pub fn with_questions(id: u16, rc: bool, questions: Vec<Question>) -> Self {
+        let mut header = Header::new_query(id, rc);
+        header.ques_count = questions.len() as u16;
         Packet {
-            header: Header::new_query(id, rc),
+            header,
             questions,
             answers: Vec::new(),
             authorities: Vec::new(),
@@ -173,7 +175,7 @@ impl Packet {
 
     pub fn add_question(&mut self, question: Question) {
         self.questions.push(question);
-        self.header.ques_count += 1;
+        self.header.ques_count = self.questions.len() as u16;
     }
 
     pub fn set_questions(&mut self, questions: Vec<Question>) {
@@ -192,7 +194,7 @@ impl Packet {
 
     pub fn add_answer(&mut self, answer: ResourceRecord) {
         self.answers.push(answer);
-        self.header.ans_count += 1;
+        self.header.ans_count = self.answers.len() as u16;
     }
 
     pub fn set_answers(&mut self, answers: Vec<ResourceRecord>) {
@@ -205,13 +207,13 @@ impl Packet {
     }
 
     pub fn take_authorities(&mut self) -> Vec<ResourceRecord> {
-        self.header.ans_count = 0;
+        self.header.auth_count = 0;
         std::mem::take(&mut self.authorities)
     }
 
     pub fn add_authority(&mut self, auth: ResourceRecord) {
         self.authorities.push(auth);
-        self.header.auth_count += 1;
+        self.header.auth_count = self.authorities.len() as u16;
     }
 
     pub fn set_authorities(&mut self, authorities: Vec<ResourceRecord>) {
@@ -230,7 +232,7 @@ impl Packet {
 
     pub fn add_additional(&mut self, add: ResourceRecord) {
         self.additional.push(add);
-        self.header.add_count += 1;
+        self.header.add_count = self.additional.len() as u16;
     }
 
     pub fn set_additionals(&mut self, additionals: Vec<ResourceRecord>) {
@@ -244,6 +246,12 @@ impl Packet {
 
         let mut bin = self.header.to_bytes();
 
+        // Set correct number of element into the header
+        bin[4..6].copy_from_slice(&(self.questions.len() as u16).to_be_bytes());
+        bin[6..8].copy_from_slice(&(self.answers.len() as u16).to_be_bytes());
+        bin[8..10].copy_from_slice(&(self.authorities.len() as u16).to_be_bytes());
+        bin[10..12].copy_from_slice(&(self.additional.len() as u16).to_be_bytes());
+
         for ques in self.questions.iter() {
             bin.extend_from_slice(&ques.to_bytes_compressed(&mut used_fqdn, bin.len()));
         }
-- 
2.43.0


From 07ed7d1759812f4422500b6d18181f1f0ae11ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:00 +0000
Subject: [PATCH 06/31] fix: DnsError::source does not return the error itself

---
 src/error.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index ff3b1e0..b99fbc5 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -80,7 +80,10 @@ pub enum DnsError {
 
 impl std::error::Error for DnsError {
     fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
-        Some(self)
+        match self {
+            Self::InvalidDnsSecSignatureTimespan(err) => Some(err),
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0


From 69a911169ee7f73556b4a568c863f06e891681f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:03 +0000
Subject: [PATCH 07/31] fix: FQDN::is_empty is true for a name without labels

---
 src/fqdn.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index d1f37ed..260dd96 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -35,7 +35,7 @@ impl FQDN {
 
     /// Checks if the FQDN does not contain any labels.
     pub fn is_empty(&self) -> bool {
-        self.byte_size() == 0
+        self.data.is_empty()
     }
 
     /// Returns the byte-size of this FQDN in its binary representation.
-- 
2.43.0


From 138bf0765c0aedae3de530da8164921fd6834461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:06 +0000
Subject: [PATCH 08/31] fix: displaying an FQDN with non UTF-8 labels is no
 undefined behaviour

---
 src/fqdn.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index 260dd96..b8026bc 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -87,8 +87,8 @@ impl FQDN {
 impl Display for FQDN {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         for (idx, name_part) in self.iter().enumerate() {
-            // SAFETY: Safe because the u8 in self.data are parsed from a &str in the constructor
-            write!(f, "{}", unsafe { std::str::from_utf8_unchecked(name_part) })?;
+            // Labels that are parsed from a packet can contain any bytes
+            write!(f, "{}", String::from_utf8_lossy(name_part))?;
             if idx + 1 != self.data.len() {
                 write!(f, ".")?;
             }
-- 
2.43.0


From c10176fa5ce56dc016a1f428e3671e38d62bcc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:24 +0000
Subject: [PATCH 09/31] fix: do not create compression pointers to offsets that
 do not fit into 14 bits

---
 src/fqdn.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index b8026bc..143c65a 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -204,7 +204,10 @@ impl CompressedByteConvertible for FQDN {
                 size += 2;
                 return size;
             } else {
-                names.insert(remaining_hash, offset);
+                // A pointer only has 14 bits to represent the offset of the name
+                if offset <= !COMPRESSION_MASK_U16 as usize {
+                    names.insert(remaining_hash, offset);
+                }
                 offset += self.data[i].len() + 1;
                 size += self.data[i].len() + 1;
             }
@@ -229,7 +232,10 @@ impl CompressedByteConvertible for FQDN {
                 buffer.push(self.data[i].len() as u8);
                 buffer.extend_from_slice(&self.data[i]);
 
-                names.insert(remaining_hash, offset);
+                // A pointer only has 14 bits to represent the offset of the name
+                if offset <= !COMPRESSION_MASK_U16 as usize {
+                    names.insert(remaining_hash, offset);
+                }
                 offset += self.data[i].len() + 1;
             }
         }
-- 
2.43.0


From 6fdb699159c2bd6d0d056c36ba37a7d996a452a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:30 +0000
Subject: [PATCH 10/31] fix: empty labels do not terminate a compressed name
 early

---
 src/fqdn.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index 143c65a..0f83073 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -196,6 +196,11 @@ impl CompressedByteConvertible for FQDN {
     fn byte_size_compressed(&self, names: &mut HashMap<u64, usize>, mut offset: usize) -> usize {
         let mut size = 0;
         for i in 0..self.data.len() {
+            if self.data[i].is_empty() {
+                // Empty labels are not part of the binary representation
+                continue;
+            }
+
             let remaining_fqdn = &self.data[i..];
             let remaining_hash = hash_fqdn(remaining_fqdn);
 
@@ -221,6 +226,11 @@ impl CompressedByteConvertible for FQDN {
         let mut buffer = Vec::new();
 
         for i in 0..self.data.len() {
+            if self.data[i].is_empty() {
+                // Empty labels are not part of the binary representation
+                continue;
+            }
+
             let remaining_fqdn = &self.data[i..];
             let remaining_hash = hash_fqdn(remaining_fqdn);
 
-- 
2.43.0


From 1ef1d0be5ebb385cf0ebfb514b0755b96752d612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:48 +0000
Subject: [PATCH 11/31] fix: Opt::byte_size counts the option headers

---
 src/rdata/opt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rdata/opt.rs b/src/rdata/opt.rs
index e9ec4fa..fa5c74d 100644
--- a/src/rdata/opt.rs
+++ b/src/rdata/opt.rs
@@ -53,7 +53,9 @@ impl RData for Opt {
 
 impl ByteConvertible for Opt {
     fn byte_size(&self) -> usize {
-        (2 * std::mem::size_of::<u8>()) + self.0.iter().fold(0, |acc, elem| acc + elem.1.len())
+        self.0
+            .iter()
+            .fold(0, |acc, elem| acc + (2 * std::mem::size_of::<u16>()) + elem.1.len())
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From c0bf09066323a5b166e15cb8adb085130189b89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:51 +0000
Subject: [PATCH 12/31] fix: Caa::byte_size counts the tag

---
 src/rdata/caa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/caa.rs b/src/rdata/caa.rs
index 79a13f0..108ea95 100644
--- a/src/rdata/caa.rs
+++ b/src/rdata/caa.rs
@@ -68,7 +68,7 @@ impl RData for Caa {
 
 impl ByteConvertible for Caa {
     fn byte_size(&self) -> usize {
-        (2 * std::mem::size_of::<u8>()) + self.value.len()
+        (2 * std::mem::size_of::<u8>()) + self.tag.len() + self.value.len()
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From e0069217a9f59d3e49d35f2dce08951d5701513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:55 +0000
Subject: [PATCH 13/31] fix: the SSHFP fingerprint has no length prefix

---
 src/rdata/sshfp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/sshfp.rs b/src/rdata/sshfp.rs
index 701afa1..80755e3 100644
--- a/src/rdata/sshfp.rs
+++ b/src/rdata/sshfp.rs
@@ -36,7 +36,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Sshfp {
         Ok(Self {
             algorithm: buffer.extract_u8()?.try_into()?,
             fingerprint_type: buffer.extract_u8()?.try_into()?,
-            fingerprint: buffer.extract_character_string()?,
+            fingerprint: buffer.extract_bytes(buffer.remaining())?.to_vec(),
         })
     }
 }
-- 
2.43.0


From fa3e2ccc5e0dcccd35c1802fe9f7d40594cb857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:58 +0000
Subject: [PATCH 14/31] fix: read the full length of the APL address part

---
 src/rdata/apl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rdata/apl.rs b/src/rdata/apl.rs
index f2febbe..45b45cc 100644
--- a/src/rdata/apl.rs
+++ b/src/rdata/apl.rs
@@ -52,9 +52,11 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Apl {
         let prefix = buffer.extract_u8()?;
         let coded_byte = buffer.extract_u8()?;
         let n = coded_byte & 0x80 != 0;
-        let mut afd_bytes = buffer.extract_bytes((coded_byte & 0x7E) as usize)?.to_vec();
+        let mut afd_bytes = buffer.extract_bytes((coded_byte & 0x7F) as usize)?.to_vec();
 
         let afd_part = match family {
+            1 if afd_bytes.len() > 4 => return Err(DnsError::LengthViolation),
+            2 if afd_bytes.len() > 16 => return Err(DnsError::LengthViolation),
             1 => {
                 afd_bytes.resize(4, 0);
                 Afd::IpV4(Ipv4Addr::new(
-- 
2.43.0


From abf24b13d8c8c31d21296187b2159ee92ea4a626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:03 +0000
Subject: [PATCH 15/31] fix: reject type bitmap windows longer than 32 bytes

---
 src/rdata/csync.rs  | 3 +++
 src/rdata/dnssec.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/rdata/csync.rs b/src/rdata/csync.rs
index 5bd957e..b1ea398 100644
--- a/src/rdata/csync.rs
+++ b/src/rdata/csync.rs
@@ -85,6 +85,9 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Csync {
         while buffer.remaining() > 0 {
             let window_num = buffer.extract_u8()? as u16;
             let window_len = buffer.extract_u8()? as u16;
+            if window_len > 32 {
+                return Err(DnsError::LengthViolation);
+            }
 
             // By extracting the RRTypes from the bitmap it is "guaranteed" that the resulting vec
             // self.types is sorted
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index ac8fa45..9c20742 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -62,6 +62,9 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Nsec {
         while buffer.remaining() > 0 {
             let window_num = buffer.extract_u8()? as u16;
             let window_len = buffer.extract_u8()? as u16;
+            if window_len > 32 {
+                return Err(DnsError::LengthViolation);
+            }
 
             // By extracting the RRTypes from the bitmap it is "guaranteed" that the resulting vec
             // self.types is sorted
-- 
2.43.0


From 33b6a7bcc4d7a11bcf1ccae83f27767051d08caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:35 +0000
Subject: [PATCH 16/31] fix: no empty windows in the type bitmaps of NSEC and
 CSYNC records

---
 src/rdata/csync.rs  | 19 ++++++++++++-------
 src/rdata/dnssec.rs | 38 ++++++++++++++++++++++++--------------
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/rdata/csync.rs b/src/rdata/csync.rs
index b1ea398..78582bf 100644
--- a/src/rdata/csync.rs
+++ b/src/rdata/csync.rs
@@ -131,9 +131,11 @@ impl ByteConvertible for Csync {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -161,10 +163,13 @@ impl ByteConvertible for Csync {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Finish block by pushing it into the output buffer. Blocks with no types present
+                // must not be included
+                if block_data.iter().any(|octet| *octet != 0) {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 9c20742..8429744 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -97,9 +97,11 @@ impl ByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -126,10 +128,13 @@ impl ByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Finish block by pushing it into the output buffer. Blocks with no types present
+                // must not be included
+                if block_data.iter().any(|octet| *octet != 0) {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
@@ -157,9 +162,11 @@ impl CompressedByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -190,10 +197,13 @@ impl CompressedByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Finish block by pushing it into the output buffer. Blocks with no types present
+                // must not be included
+                if block_data.iter().any(|octet| *octet != 0) {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
-- 
2.43.0


From 70052adb223b1165734a1a23ddd198747cdcff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:51 +0000
Subject: [PATCH 17/31] fix: serialising a TSIG record does not print to stdout

---
 src/rdata/tsig.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rdata/tsig.rs b/src/rdata/tsig.rs
index 7db281f..5238c08 100644
--- a/src/rdata/tsig.rs
+++ b/src/rdata/tsig.rs
@@ -106,7 +106,6 @@ impl ByteConvertible for Tsig {
 
     fn to_bytes(&self) -> Vec<u8> {
         let mut buf = Vec::with_capacity(self.byte_size());
-        println!("Test: {:?}", self.algorithm.to_bytes());
         buf.extend(self.algorithm.to_bytes());
         buf.extend(&self.time_signed.to_be_bytes()[2..]); // 48 bytes
         buf.extend(self.fudge.to_be_bytes()); // 16 b
-- 
2.43.0


From 0a2fe1d72e62440dad1db2a96434495d29f808ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:55 +0000
Subject: [PATCH 18/31] fix: RDLENGTH is the length of the serialised record
 data

---
 src/resource.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resource.rs b/src/resource.rs
index d79acb8..a51f2de 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -444,9 +444,10 @@ impl ByteConvertible for ResourceRecord {
 
         buffer.extend_from_slice(&u32::to_be_bytes(self.time_to_live));
 
-        buffer.extend_from_slice(&u16::to_be_bytes(self.rdata.byte_size() as u16));
+        let rdata = self.rdata.to_bytes();
+        buffer.extend_from_slice(&u16::to_be_bytes(rdata.len() as u16));
 
-        buffer.extend_from_slice(&self.rdata.to_bytes());
+        buffer.extend_from_slice(&rdata);
 
         buffer
     }
-- 
2.43.0


From 2a4cddb630556ac92b99d3feb3c81269c2c33cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:14 +0000
Subject: [PATCH 19/31] fix: CDS and CDNSKEY records and questions can be
 parsed

---
 src/question.rs | 4 ++++
 src/resource.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/question.rs b/src/question.rs
index 89667f3..59e5199 100644
--- a/src/question.rs
+++ b/src/question.rs
@@ -159,6 +159,10 @@ impl TryFrom<u16> for QType {
             49 => Ok(Self::DHCID),
             52 => Ok(Self::TLSA),
             55 => Ok(Self::HIP),
+            #[cfg(feature = "dnssec")]
+            59 => Ok(Self::CDS),
+            #[cfg(feature = "dnssec")]
+            60 => Ok(Self::CDNSKEY),
             61 => Ok(Self::OPENPGPKEY),
             62 => Ok(Self::CSYNC),
             64 => Ok(Self::SVCB),
diff --git a/src/resource.rs b/src/resource.rs
index a51f2de..37880d1 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -193,6 +193,10 @@ impl TryFrom<u16> for RecordType {
             49 => Ok(Self::DHCID),
             52 => Ok(Self::TLSA),
             55 => Ok(Self::HIP),
+            #[cfg(feature = "dnssec")]
+            59 => Ok(Self::CDS),
+            #[cfg(feature = "dnssec")]
+            60 => Ok(Self::CDNSKEY),
             61 => Ok(Self::OPENPGPKEY),
             62 => Ok(Self::CSYNC),
             64 => Ok(Self::SVCB),
-- 
2.43.0


From 0118d353447808a93e10c2b5da3b6563398044e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:18 +0000
Subject: [PATCH 20/31] fix: SVCB parameter values have exactly the announced
 length

---
 src/rdata/svcb.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/rdata/svcb.rs b/src/rdata/svcb.rs
index f790ac8..3144900 100644
--- a/src/rdata/svcb.rs
+++ b/src/rdata/svcb.rs
@@ -199,38 +199,44 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Param {
 
     fn try_from(buffer: &mut DnsBuffer<'a>) -> Result<Self, Self::Error> {
         let key = ParamKey::try_from(buffer.extract_u16()?)?;
-        let mut len = buffer.extract_u16()? as usize;
+        let len = buffer.extract_u16()? as usize;
+        let mut value = buffer.sub_buffer(len)?;
         let val = match key {
             ParamKey::Mandatory => {
                 let mut keys = BTreeSet::default();
-                while len > 0 {
-                    keys.insert(buffer.extract_u16()?.try_into()?);
-                    len -= 2;
+                while value.remaining() > 0 {
+                    keys.insert(value.extract_u16()?.try_into()?);
                 }
                 Self::Mandatory(keys)
             }
             ParamKey::Alpn => {
                 let mut alpn = Vec::default();
-                while len > 0 {
-                    let inner_len = buffer.extract_u8()? as usize;
-                    alpn.push(buffer.extract_bytes(inner_len)?.to_vec());
-                    len -= inner_len + 1;
+                while value.remaining() > 0 {
+                    let inner_len = value.extract_u8()? as usize;
+                    alpn.push(value.extract_bytes(inner_len)?.to_vec());
                 }
                 Self::Alpn(alpn)
             }
             ParamKey::NoDefaultAlpn => Self::NoDefaultAlpn,
-            ParamKey::Port => Self::Port(buffer.extract_u16()?),
-            ParamKey::IpV4Hint => Self::IpV4Hint(Ipv4Addr::from(buffer.extract_u32()?)),
-            ParamKey::Ech => Self::Ech(buffer.extract_bytes(len)?.to_vec()),
+            ParamKey::Port => Self::Port(value.extract_u16()?),
+            ParamKey::IpV4Hint => Self::IpV4Hint(Ipv4Addr::from(value.extract_u32()?)),
+            ParamKey::Ech => Self::Ech(value.extract_bytes(len)?.to_vec()),
             ParamKey::IpV6Hint => Self::IpV6Hint(Ipv6Addr::from(u128::from_be_bytes(
-                buffer.extract_bytes(16)?.try_into()?,
+                value.extract_bytes(16)?.try_into()?,
             ))),
             ParamKey::Private(val) => Self::Private {
                 num: val,
-                bytes: buffer.extract_bytes(len)?.to_vec(),
+                bytes: value.extract_bytes(len)?.to_vec(),
             },
             ParamKey::Invalid => Self::Invalid,
         };
+
+        // The value has to consist of exactly `len` bytes
+        if value.remaining() > 0 {
+            return Err(DnsError::LengthViolation);
+        }
+        buffer.advance(len)?;
+
         Ok(val)
     }
 }
-- 
2.43.0


From de21558fd3fbde3883380b83933997d022a72d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:38 +0000
Subject: [PATCH 21/31] fix: Rrsig::byte_size counts all fixed size fields

---
 src/rdata/dnssec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 8429744..a82e4f2 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -720,7 +720,7 @@ impl RData for Rrsig {
 impl ByteConvertible for Rrsig {
     #[inline(always)]
     fn byte_size(&self) -> usize {
-        17 + self.signers_name.len() + self.signature.len()
+        18 + self.signers_name.len() + self.signature.len()
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From ea9d9de6d7a7e31d3f0793159b9adfb7c5f05203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:41 +0000
Subject: [PATCH 22/31] fix: RRSIG inception and expiration are in seconds

---
 src/rdata/dnssec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index a82e4f2..d1bfd22 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -484,11 +484,11 @@ impl Rrsig {
         let expiration = expiration
             .duration_since(UNIX_EPOCH)
             .map_err(DnsError::InvalidDnsSecSignatureTimespan)?
-            .as_millis() as u32;
+            .as_secs() as u32;
         let inception = inception
             .duration_since(UNIX_EPOCH)
             .map_err(DnsError::InvalidDnsSecSignatureTimespan)?
-            .as_millis() as u32;
+            .as_secs() as u32;
 
         let mut rrsig = Self {
             type_covered: rr_set.set_type(),
-- 
2.43.0


From e498de4c657c0c507ed65eaca07c8902a4ee5c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:43 +0000
Subject: [PATCH 23/31] fix: failing RSA signing returns an error instead of
 panicking

---
 src/rdata/dnssec.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index d1bfd22..0c6520c 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -836,28 +836,28 @@ impl Algorithm {
                 let rsa_key_pair = ring::rsa::KeyPair::from_pkcs8(private_key)
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let mut signature = vec![0; rsa_key_pair.public().modulus_len()];
-                let _ = rsa_key_pair
+                rsa_key_pair
                     .sign(
                         &ring::signature::RSA_PKCS1_SHA256,
                         &rng,
                         data,
                         &mut signature,
                     )
-                    .map_err(|_| todo!());
+                    .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 Ok(signature)
             }
             Self::RSA_SHA512 => {
                 let rsa_key_pair = ring::rsa::KeyPair::from_pkcs8(private_key)
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let mut signature = vec![0; rsa_key_pair.public().modulus_len()];
-                let _ = rsa_key_pair
+                rsa_key_pair
                     .sign(
                         &ring::signature::RSA_PKCS1_SHA512,
                         &rng,
                         data,
                         &mut signature,
                     )
-                    .map_err(|_| todo!());
+                    .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 Ok(signature)
             }
             Self::ECDSA_P256 => {
-- 
2.43.0


From 8cb5883298e6c4513f7a057a2d2d2621c2736d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:00 +0000
Subject: [PATCH 24/31] fix: the RRSIG labels field does not count the wildcard
 label

---
 src/rdata/dnssec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 0c6520c..a05f3f1 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -490,10 +490,13 @@ impl Rrsig {
             .map_err(DnsError::InvalidDnsSecSignatureTimespan)?
             .as_secs() as u32;
 
+        // The leftmost label of a wildcard owner name is not counted
+        let is_wildcard = rr_set.name().iter().next().is_some_and(|l| l == b"*");
+
         let mut rrsig = Self {
             type_covered: rr_set.set_type(),
             algorithm: dnskey.algorithm,
-            labels: rr_set.name().label_count(),
+            labels: rr_set.name().label_count() - is_wildcard as u8,
             original_ttl: rr_set.ttl(),
             sig_expiration: expiration,
             sig_inception: inception,
-- 
2.43.0


From 9ab8d3ea45e28a4ad319fcb8cc6e482510690638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:32 +0000
Subject: [PATCH 25/31] fix: the header counts do not decide how much memory is
 reserved

---
 src/packet.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 9b3a21f..d62e9e3 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -355,15 +355,20 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Packet {
 
         packet.set_header(Header::try_from(buffer as &mut _)?);
 
+        // The counts in the header are not trustworthy. Each element of a section needs at least one
+        // byte, so never reserve space for more elements than there are bytes left
+
         // Parse questions from buffer
-        let mut questions = Vec::with_capacity(packet.header.ques_count as usize);
+        let mut questions =
+            Vec::with_capacity(usize::from(packet.header.ques_count).min(buffer.remaining()));
         for _ in 0..packet.header.ques_count {
             questions.push(Question::try_from(buffer as &mut _)?);
         }
         packet.questions = questions;
 
         // Parse answer records from buffer
-        let mut answers = Vec::with_capacity(packet.header.ans_count as usize);
+        let mut answers =
+            Vec::with_capacity(usize::from(packet.header.ans_count).min(buffer.remaining()));
         for _ in 0..packet.header.ans_count {
             // packet.add_answer(ResourceRecord::try_from(buffer as &mut _)?);
             answers.push(ResourceRecord::try_from(buffer as &mut _)?);
@@ -371,14 +376,16 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Packet {
         packet.answers = answers;
 
         // Parse authority records from buffer
-        let mut authorities = Vec::with_capacity(packet.header.auth_count as usize);
+        let mut authorities =
+            Vec::with_capacity(usize::from(packet.header.auth_count).min(buffer.remaining()));
         for _ in 0..packet.header.auth_count {
             authorities.push(ResourceRecord::try_from(buffer as &mut _)?);
         }
         packet.authorities = authorities;
 
         // Parse additional records from buffer
-        let mut additionals = Vec::with_capacity(packet.header.add_count as usize);
+        let mut additionals =
+            Vec::with_capacity(usize::from(packet.header.add_count).min(buffer.remaining()));
         for _ in 0..packet.header.add_count {
             additionals.push(ResourceRecord::try_from(buffer as &mut _)?);
         }
-- 
2.43.0


From 84c6ba28757be21d7029dbeb9a823eeeb317e669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:25 +0000
Subject: [PATCH 26/31] fix: key tags of RSA/MD5 keys

---
 src/rdata/dnssec.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index a05f3f1..b11a7cc 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -268,6 +268,15 @@ impl DnsKey {
     /// First octet of the key tag is the most significant 8 bits of the return value
     /// Second octet of the key tag is the least significant 8 bits of the return value
     fn compute_key_tag(&self) -> u16 {
+        if self.algorithm == Algorithm::RSA_MD5 {
+            // The key tag of this algorithm is taken from the least significant octets of the
+            // modulus, see RFC 4034 appendix B.1
+            return match self.public_key[..] {
+                [.., high, low, _] => u16::from_be_bytes([high, low]),
+                _ => 0,
+            };
+        }
+
         let mut key_tag = self
             .to_bytes()
             .iter()
-- 
2.43.0


From 4f9bd723875e7b668442c36a035b6ac6711f56ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:27 +0000
Subject: [PATCH 27/31] fix: verify a set with the original TTL of the RRSIG

---
 src/rdata/dnssec.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index b11a7cc..cccf720 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -554,7 +554,17 @@ impl Rrsig {
         sig.extend(u32::to_be_bytes(self.sig_inception));
         sig.extend(u16::to_be_bytes(self.key_tag));
         sig.extend(self.signers_name.to_bytes());
-        sig.extend(rr_set.to_bytes());
+        // The records are signed with their original TTL, the current one may have been decremented
+        sig.extend(
+            ResourceRecordSet::new(
+                rr_set.name(),
+                rr_set.set_type(),
+                rr_set.set_class(),
+                self.original_ttl,
+                rr_set.records().to_vec(),
+            )
+            .to_bytes(),
+        );
 
         // For some algorithms the hash is calculated independently of the verification algorithm
         let sig = match self.algorithm {
-- 
2.43.0


From 1e274459bff77584b08de2fc906159d8a5a64e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:28 +0000
Subject: [PATCH 28/31] fix: verify with ECDSA keys in the format of RFC 6605

---
 src/rdata/dnssec.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index cccf720..64e2896 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -658,17 +658,17 @@ impl Rrsig {
                 // 64 bytes (x | y)
                 let verifier = ring::signature::UnparsedPublicKey::new(
                     &ring::signature::ECDSA_P256_SHA256_FIXED,
-                    public_key_data.extract_bytes(public_key_data.remaining())?,
+                    uncompressed_point(&dnskey.public_key, 64),
                 );
 
                 Ok(verifier.verify(&sig, &self.signature).is_ok())
             }
             Algorithm::ECDSA_P384 => {
                 // Key data field:
-                // 97 bytes (x | y)
+                // 96 bytes (x | y)
                 let verifier = ring::signature::UnparsedPublicKey::new(
                     &ring::signature::ECDSA_P384_SHA384_FIXED,
-                    public_key_data.extract_bytes(public_key_data.remaining())?,
+                    uncompressed_point(&dnskey.public_key, 96),
                 );
 
                 Ok(verifier.verify(&sig, &self.signature).is_ok())
@@ -711,6 +711,17 @@ impl Rrsig {
     }
 }
 
+/// DNSKEY records hold the coordinates of an elliptic curve point only, without the octet that marks
+/// an uncompressed point
+fn uncompressed_point(public_key: &[u8], size: usize) -> Vec<u8> {
+    let mut point = Vec::with_capacity(1 + public_key.len());
+    if public_key.len() == size {
+        point.push(0x04);
+    }
+    point.extend_from_slice(public_key);
+    point
+}
+
 impl<'a> TryFrom<&mut DnsBuffer<'a>> for Rrsig {
     type Error = DnsError;
 
-- 
2.43.0


From a207c1e34c00e73da692e348a42e84b3b8ec5ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:30 +0000
Subject: [PATCH 29/31] fix: RSA signatures carry the prefix of their hash
 algorithm

---
 src/rdata/dnssec.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 64e2896..5912b2a 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -620,7 +620,7 @@ impl Rrsig {
 
                 Ok(verifier
                     .verify(
-                        rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
+                        self.algorithm.pkcs1v15_scheme(),
                         &sig,
                         &self.signature,
                     )
@@ -804,6 +804,22 @@ impl Algorithm {
         }
     }
 
+    /// PKCS #1 v1.5 signature scheme of the RSA algorithms: the digest is preceded by the prefix that
+    /// names its hash algorithm (RFC 3110 section 3, RFC 8017 section 9.2)
+    fn pkcs1v15_scheme(&self) -> rsa::pkcs1v15::Pkcs1v15Sign {
+        let prefix: &[u8] = match self {
+            Self::RSA_MD5 => b"\x30\x20\x30\x0c\x06\x08\x2a\x86\x48\x86\xf7\x0d\x02\x05\x05\x00\x04\x10",
+            Self::RSA_SHA1 => b"\x30\x21\x30\x09\x06\x05\x2b\x0e\x03\x02\x1a\x05\x00\x04\x14",
+            Self::RSA_SHA256 => return rsa::pkcs1v15::Pkcs1v15Sign::new::<rsa::sha2::Sha256>(),
+            Self::RSA_SHA512 => return rsa::pkcs1v15::Pkcs1v15Sign::new::<rsa::sha2::Sha512>(),
+            _ => return rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
+        };
+        rsa::pkcs1v15::Pkcs1v15Sign {
+            hash_len: None,
+            prefix: prefix.into(),
+        }
+    }
+
     pub fn sign_data(&self, data: &[u8], private_key: &[u8]) -> Result<Vec<u8>, DnsError> {
         let rng = ring::rand::SystemRandom::new();
 
@@ -820,10 +836,7 @@ impl Algorithm {
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
 
                 let signature = private_key
-                    .sign(
-                        rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
-                        digest.as_ref(),
-                    )
+                    .sign(self.pkcs1v15_scheme(), digest.as_ref())
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
 
                 Ok(signature)
@@ -857,10 +870,7 @@ impl Algorithm {
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
 
                 let signature = private_key
-                    .sign(
-                        rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
-                        digest.as_ref(),
-                    )
+                    .sign(self.pkcs1v15_scheme(), digest.as_ref())
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
 
                 Ok(signature)
-- 
2.43.0


From a965fba7506bdbbad26a68d5517d0c86fd23f896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:17 +0000
Subject: [PATCH 30/31] fix: DSA signatures in the format of RFC 2536

---
 src/rdata/dnssec.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 5912b2a..2675d09 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -627,7 +627,7 @@ impl Rrsig {
                     .is_ok())
             }
             Algorithm::DSA_SHA1 => {
-                use dsa::signature::Verifier;
+                use dsa::signature::hazmat::PrehashVerifier;
 
                 // Key data field:
                 // T         1  octet
@@ -648,10 +648,17 @@ impl Rrsig {
                 )
                 .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
-                let signature = dsa::Signature::try_from(self.signature.as_slice())
-                    .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
+                // Signature field: T (1 octet), R (20 octets), S (20 octets)
+                if self.signature.len() != 41 {
+                    return Ok(false);
+                }
+                let signature = dsa::Signature::from_components(
+                    BigUint::from_bytes_be(&self.signature[1..21]),
+                    BigUint::from_bytes_be(&self.signature[21..]),
+                )
+                .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
-                Ok(verifier.verify(&sig, &signature).is_ok())
+                Ok(verifier.verify_prehash(&sig, &signature).is_ok())
             }
             Algorithm::ECDSA_P256 => {
                 // Key data field:
@@ -853,8 +860,16 @@ impl Algorithm {
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let signature = signing_key.sign_digest(hasher);
 
-                let mut sign_data = signature.r().to_bytes_be();
-                sign_data.extend_from_slice(&signature.s().to_bytes_be());
+                // T (1 octet), R (20 octets), S (20 octets), see RFC 2536 section 3
+                let prime_len = signing_key.verifying_key().components().p().bits().div_ceil(8);
+                let (r, s) = (signature.r().to_bytes_be(), signature.s().to_bytes_be());
+                if prime_len < 64 || r.len() > 20 || s.len() > 20 {
+                    return Err(DnsError::DnsSecSigningError("Unsupported key size".into()));
+                }
+                let mut sign_data = vec![0; 41];
+                sign_data[0] = ((prime_len - 64) / 8) as u8;
+                sign_data[21 - r.len()..21].copy_from_slice(&r);
+                sign_data[41 - s.len()..].copy_from_slice(&s);
 
                 Ok(sign_data)
             }
-- 
2.43.0


From e28170eb0f8d423db2f6e0a7b8e3e12fee6e8a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:56 +0000
Subject: [PATCH 31/31] fix: TLSA selector and matching type errors name their
 own kind

---
 src/rdata/tlsa.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rdata/tlsa.rs b/src/rdata/tlsa.rs
index 8093f05..ec0ea5a 100644
--- a/src/rdata/tlsa.rs
+++ b/src/rdata/tlsa.rs
@@ -138,7 +138,7 @@ impl TryFrom<u8> for Selector {
         match value {
             0 => Ok(Self::Full),
             1 => Ok(Self::SubjectPublicKeyInfo),
-            _ => Err(DnsError::InvalidSSHFPAlgorithm(value)),
+            _ => Err(DnsError::InvalidTLSASelector(value)),
         }
     }
 }
@@ -167,7 +167,7 @@ impl TryFrom<u8> for MatchingType {
             0 => Ok(Self::ExactMatch),
             1 => Ok(Self::SHA256),
             2 => Ok(Self::SHA512),
-            _ => Err(DnsError::InvalidSSHFPAlgorithm(value)),
+            _ => Err(DnsError::InvalidTLSAMatchingType(value)),
         }
     }
 }
-- 
2.43.0

