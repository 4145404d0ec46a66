From 22d21c46d2b487d0c13195da60177948e376e319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:19 +0000
Subject: [PATCH 01/34] fix: byte sizes of TimeCode, SongPositionPointer and
 TuneRequest

The byte representation of Time Code is two bytes, Song Position Pointer
three and Tune Request one.  The declared sizes rejected complete Time Code
messages, dropped the second data byte of Song Position Pointers (or indexed
past the end of the buffer) and required a spurious byte for Tune Request.
---
 midi2/src/system_common.rs                       | 2 +-
 midi2/src/system_common/song_position_pointer.rs | 2 +-
 midi2/src/system_common/time_code.rs             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi2/src/system_common.rs b/midi2/src/system_common.rs
index f3122ac..500ce5e 100644
--- a/midi2/src/system_common.rs
+++ b/midi2/src/system_common.rs
@@ -20,7 +20,7 @@ mod tune_request {
         Via(system_common::SystemCommon),
         FixedSize,
         MinSizeUmp(1),
-        MinSizeBytes(2)
+        MinSizeBytes(1)
     )]
     struct TuneRequest {
         #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
diff --git a/midi2/src/system_common/song_position_pointer.rs b/midi2/src/system_common/song_position_pointer.rs
index ea23dd6..1753655 100644
--- a/midi2/src/system_common/song_position_pointer.rs
+++ b/midi2/src/system_common/song_position_pointer.rs
@@ -12,7 +12,7 @@ pub const STATUS: u8 = 0xF2;
     Via(system_common::SystemCommon),
     FixedSize,
     MinSizeUmp(1),
-    MinSizeBytes(2)
+    MinSizeBytes(3)
 )]
 struct SongPositionPointer {
     #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
diff --git a/midi2/src/system_common/time_code.rs b/midi2/src/system_common/time_code.rs
index 97ba7cd..74ece8b 100644
--- a/midi2/src/system_common/time_code.rs
+++ b/midi2/src/system_common/time_code.rs
@@ -12,7 +12,7 @@ pub const STATUS: u8 = 0xF1;
     Via(system_common::SystemCommon),
     FixedSize,
     MinSizeUmp(1),
-    MinSizeBytes(3)
+    MinSizeBytes(2)
 )]
 struct TimeCode {
     #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
-- 
2.43.0


From bde5196bdf20b44716a453a870f3663bf64630a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 02/34] fix: controller numbers of the fifth effect depth and
 of the chorus send level

---
 midi2/src/channel_voice2/controller.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/midi2/src/channel_voice2/controller.rs b/midi2/src/channel_voice2/controller.rs
index bf385c5..5073580 100644
--- a/midi2/src/channel_voice2/controller.rs
+++ b/midi2/src/channel_voice2/controller.rs
@@ -118,8 +118,9 @@ pub fn to_index_and_data(c: Controller) -> (u8, u32) {
         Controller::ReverbSendLevel(data) => (91, data),
         Controller::EffectDepth { index: 2, data } => (92, data),
         Controller::EffectDepth { index: 3, data } => (93, data),
-        Controller::ChorusSendLevel(data) => (91, data),
+        Controller::ChorusSendLevel(data) => (93, data),
         Controller::EffectDepth { index: 4, data } => (94, data),
+        Controller::EffectDepth { index: 5, data } => (95, data),
         _ => unreachable!(),
     }
 }
-- 
2.43.0


From 1234255783e51c3a7c1d7a5f58514dedd9a52349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 03/34] fix: setting a key signature of zero flats

---
 midi2/src/flex_data/set_key_signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/flex_data/set_key_signature.rs b/midi2/src/flex_data/set_key_signature.rs
index e45f479..9845121 100644
--- a/midi2/src/flex_data/set_key_signature.rs
+++ b/midi2/src/flex_data/set_key_signature.rs
@@ -76,7 +76,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
             0,
             match v {
                 SharpsFlats::Sharps(v) => u4::from(v),
-                SharpsFlats::Flats(v) => u4::new((!u8::from(v) & 0b0000_1111) + 1),
+                SharpsFlats::Flats(v) => u4::new(u8::from(v).wrapping_neg() & 0b0000_1111),
                 SharpsFlats::NonStandard => u4::new(0x8),
             },
         );
-- 
2.43.0


From 16eb76cecd0f6f61ecfe2aeebbbfd69bb33fb517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 04/34] fix: ignore a trailing incomplete packet when
 validating packet formats

---
 midi2/src/detail/helpers.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 148bfb1..b415967 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -56,6 +56,12 @@ pub fn validate_sysex_group_statuses<
 ) -> Result<(), crate::error::InvalidData> {
     use crate::{detail::BitOps, error::InvalidData};
 
+    // an incomplete packet after the first isn't part of the message
+    let buffer = match buffer.len() % stride {
+        partial if buffer.len() > stride => &buffer[..buffer.len() - partial],
+        _ => buffer,
+    };
+
     let mut iter = buffer
         .chunks(stride)
         .take_while(|chunk| chunk[0].nibble(0) == ump_type)
-- 
2.43.0


From 675691287ebd4403b007652ca353f1bb7d44a971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 05/34] fix: check status and bank only in the packets of the
 message itself

---
 midi2/src/flex_data.rs                      | 22 +++++++++++----------
 midi2/src/ump_stream.rs                     | 18 ++++++++++++-----
 midi2/src/ump_stream/function_block_name.rs |  4 +---
 3 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 13ad909..3a1b713 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -926,11 +926,7 @@ impl<const STATUS: u8, B: Ump> Property<B> for StatusProperty<STATUS> {
 impl<'a, const STATUS: u8, B: Ump> ReadProperty<'a, B> for StatusProperty<STATUS> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer
-            .buffer()
-            .chunks_exact(4)
-            .all(|packet| packet[0].octet(3) == STATUS)
-        {
+        if message_packets(buffer.buffer()).all(|packet| packet[0].octet(3) == STATUS) {
             Ok(())
         } else {
             Err(crate::error::InvalidData("Incorrect message status"))
@@ -957,11 +953,7 @@ impl<const BANK: u8, B: Ump> Property<B> for BankProperty<BANK> {
 impl<'a, const BANK: u8, B: Ump> ReadProperty<'a, B> for BankProperty<BANK> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer
-            .buffer()
-            .chunks_exact(4)
-            .all(|packet| packet[0].octet(2) == BANK)
-        {
+        if message_packets(buffer.buffer()).all(|packet| packet[0].octet(2) == BANK) {
             Ok(())
         } else {
             Err(crate::error::InvalidData("Incorrect message bank"))
@@ -1165,6 +1157,16 @@ fn flex_data_dyn_size<B: crate::buffer::Ump>(buffer: &B) -> usize {
         + 4
 }
 
+// the packets of the message at the start of the buffer
+fn message_packets(buffer: &[u32]) -> impl Iterator<Item = &[u32]> {
+    let mut end = false;
+    buffer.chunks_exact(4).take_while(move |packet| {
+        let format = u8::from(packet[0].crumb(4));
+        let is_last = format == COMPLETE_FORMAT || format == END_FORMAT;
+        !core::mem::replace(&mut end, is_last)
+    })
+}
+
 fn bank_from_buffer(buffer: &[u32]) -> u8 {
     buffer[0].octet(2)
 }
diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 8123312..39a1c9a 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -123,11 +123,7 @@ impl<const STATUS: u16, B: Ump> property::Property<B> for StatusProperty<STATUS>
 impl<'a, const STATUS: u16, B: Ump> property::ReadProperty<'a, B> for StatusProperty<STATUS> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer
-            .buffer()
-            .chunks_exact(4)
-            .all(|packet| status_from_buffer(packet) == STATUS)
-        {
+        if message_packets(buffer.buffer()).all(|packet| status_from_buffer(packet) == STATUS) {
             Ok(())
         } else {
             Err(crate::error::InvalidData("Incorrect message status"))
@@ -430,6 +426,18 @@ fn message_size<B: crate::buffer::Ump>(buffer: &B) -> usize {
         + 4
 }
 
+// the packets of the message at the start of the buffer
+fn message_packets(buffer: &[u32]) -> impl Iterator<Item = &[u32]> {
+    use crate::detail::BitOps;
+
+    let mut end = false;
+    buffer.chunks_exact(4).take_while(move |packet| {
+        let format = u8::from(packet[0].crumb(2));
+        let is_last = format == COMPLETE_FORMAT || format == END_FORMAT;
+        !core::mem::replace(&mut end, is_last)
+    })
+}
+
 fn status_from_buffer(buffer: &[u32]) -> u16 {
     ((buffer[0] & 0x03FF_0000) >> 16) as u16
 }
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index 04f0d4b..732f1c9 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -47,9 +47,7 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for FunctionBlockProperty {
         use crate::detail::BitOps;
 
         let function_block = buffer.buffer()[0].octet(2);
-        if !buffer
-            .buffer()
-            .chunks_exact(4)
+        if !ump_stream::message_packets(buffer.buffer())
             .all(|packet| packet[0].octet(2) == function_block)
         {
             Err(crate::error::InvalidData(
-- 
2.43.0


From 44f49c5b9c62d605d2fb2a94ce611a41b1cc081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:37 +0000
Subject: [PATCH 06/34] fix: recognise accompanying performer name, recording
 date and recording location messages

---
 midi2/src/flex_data.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 3a1b713..f7ffe5f 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -874,11 +874,11 @@ impl<'a> TryFrom<&'a [u32]> for FlexData<&'a [u32]> {
             0x01_09 => PrimaryPerformerName(
                 primary_performer_name::PrimaryPerformerName::try_from(value)?,
             ),
-            0x01_10 => AccompanyingPerformerName(
+            0x01_0A => AccompanyingPerformerName(
                 accompanying_performer_name::AccompanyingPerformerName::try_from(value)?,
             ),
-            0x01_11 => RecordingDate(recording_date::RecordingDate::try_from(value)?),
-            0x01_12 => RecordingLocation(recording_location::RecordingLocation::try_from(value)?),
+            0x01_0B => RecordingDate(recording_date::RecordingDate::try_from(value)?),
+            0x01_0C => RecordingLocation(recording_location::RecordingLocation::try_from(value)?),
             0x02_00 => UnknownPerformanceText(
                 unknown_performance_text::UnknownPerformanceText::try_from(value)?,
             ),
-- 
2.43.0


From 009977f6f6bd4fbd942af0e43e604a7cb4c63173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 07/34] fix: write the stream id of system exclusive 8 messages
 to its own field

---
 midi2/src/sysex8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 0328a6a..93424ab 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -177,7 +177,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
             .chunks_exact_mut(4)
             .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
         {
-            packet[0].set_octet(3, id);
+            packet[0].set_octet(2, id);
         }
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
-- 
2.43.0


From 132a4af8bb1c510a8c2bf4c5186e207e4a0bfbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 08/34] fix: give the packets added to a system exclusive 8
 message its stream id

---
 midi2/src/sysex8.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 93424ab..66e8083 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -517,6 +517,7 @@ fn try_resize<
         .take(buffer_size / 4)
         .peekable();
     let mut group = None;
+    let mut stream_id = None;
 
     const MESSAGE_TYPE: u4 = u4::new(UMP_MESSAGE_TYPE);
     const STATUS_COMPLETE: u4 = u4::new(0x0);
@@ -528,6 +529,7 @@ fn try_resize<
     if let Some(first_packet) = iter.next() {
         first_packet[0].set_nibble(0, MESSAGE_TYPE);
         group = Some(first_packet[0].nibble(1));
+        stream_id = Some(stream_id_from_packet(first_packet));
         if iter.peek().is_some() {
             // start packet
             first_packet[0].set_nibble(2, STATUS_START);
@@ -542,6 +544,7 @@ fn try_resize<
     while let Some(chunk) = iter.next() {
         chunk[0].set_nibble(0, MESSAGE_TYPE);
         chunk[0].set_nibble(1, group.unwrap());
+        chunk[0].set_octet(2, stream_id.unwrap());
         if iter.peek().is_some() {
             // middle packet
             chunk[0].set_nibble(2, STATUS_CONTINUE);
-- 
2.43.0


From 010adaf094ffd9b49201afa0e604a27be6121a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:23 +0000
Subject: [PATCH 09/34] fix: overwrite the whole byte when writing system
 exclusive 7 payload to packets

---
 midi2/src/sysex7.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index e754d17..4b0311c 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -591,7 +591,7 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                 let buffer_index = 2 * (payload_index / 6);
                 let byte_index = payload_index % 6;
                 self.0.specialise_u32_mut()[buffer_index + (byte_index + 2) / 4]
-                    .set_septet((byte_index + 2) % 4, datum);
+                    .set_octet((byte_index + 2) % 4, datum.into());
             }
             _ => unreachable!(),
         }
-- 
2.43.0


From 5483424332b85ffa32daea9e7c241a852578d3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 10/34] fix: decide whether a system exclusive message is
 compact from each of its own packets

---
 midi2/src/sysex7.rs | 8 +-------
 midi2/src/sysex8.rs | 7 +------
 2 files changed, 2 insertions(+), 13 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 4b0311c..1838e13 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -664,13 +664,7 @@ fn is_compact<B: crate::buffer::Buffer>(sysex: &Sysex7<B>) -> bool {
         crate::buffer::UNIT_ID_U8 => true,
         crate::buffer::UNIT_ID_U32 => {
             use crate::detail::BitOps;
-            for chunk in sysex
-                .0
-                .buffer()
-                .specialise_u32()
-                .chunks_exact(4)
-                .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-            {
+            for chunk in sysex.data().specialise_u32().chunks_exact(2) {
                 let status: u8 = chunk[0].nibble(2).into();
                 let is_begin = status == 0x1;
                 let is_continue = status == 0x2;
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 66e8083..2485474 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -585,12 +585,7 @@ fn buffer_size_from_payload_size(payload_size: usize) -> usize {
 // will determine whether the payload data in the message is maximally
 // compact in the underlying buffer
 fn is_compact<B: crate::buffer::Buffer<Unit = u32>>(sysex: &Sysex8<B>) -> bool {
-    for chunk in sysex
-        .0
-        .buffer()
-        .chunks_exact(4)
-        .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-    {
+    for chunk in sysex.data().chunks_exact(4) {
         let status: u8 = chunk[0].nibble(2).into();
         let is_begin = status == 0x1;
         let is_continue = status == 0x2;
-- 
2.43.0


From a5843d99d66b7ad88f3eb7f9bd0a2afb71d26508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 11/34] fix: erase stale end bytes when a system exclusive byte
 message grows

---
 midi2/src/sysex7.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 1838e13..4c3c465 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -535,7 +535,8 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                 self.0.resize(buffer_sz);
                 if payload_size > old_payload_size {
                     // erase old end bit
-                    self.0.specialise_u8_mut()[old_payload_size + 1] = 0;
+                    // and any other left over in the added bytes
+                    self.0.specialise_u8_mut()[old_payload_size + 1..payload_size + 1].fill(0);
                 }
                 self.0.specialise_u8_mut()[buffer_sz - 1] = END_BYTE;
             }
@@ -563,9 +564,10 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                     buffer_sz = self.0.buffer().len();
                     crate::traits::SysexTryResizeError(buffer_sz.saturating_sub(2))
                 });
-                if buffer_sz > old_payload_size {
+                if buffer_sz > old_payload_size + 2 {
                     // erase old end bit
-                    self.0.specialise_u8_mut()[old_payload_size + 1] = 0;
+                    // and any other left over in the added bytes
+                    self.0.specialise_u8_mut()[old_payload_size + 1..buffer_sz - 1].fill(0);
                 }
                 self.0.specialise_u8_mut()[buffer_sz - 1] = END_BYTE;
                 result
-- 
2.43.0


From d8d76425ffaef7e78e18fd09c5d68ad775fe7d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:11 +0000
Subject: [PATCH 12/34] fix: check packet sizes only in the packets of a system
 exclusive message itself

---
 midi2/src/sysex7.rs |  1 +
 midi2/src/sysex8.rs | 13 +++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 4c3c465..5a15d64 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -173,6 +173,7 @@ impl<'a, B: crate::buffer::Buffer> crate::detail::property::ReadProperty<'a, B>
             if buffer
                 .specialise_u32()
                 .chunks_exact(2)
+                .take_while(|p| u8::from(p[0].nibble(0)) == UMP_MESSAGE_TYPE)
                 .any(|p| u8::from(p[0].nibble(3)) > 6)
             {
                 Err(crate::error::InvalidData(ERR_INVALID_PACKET_SIZE))
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 2485474..5d86d4d 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -66,10 +66,15 @@ impl<B: crate::buffer::Ump> crate::detail::property::Property<B> for ValidPacket
 impl<'a, B: crate::buffer::Ump> crate::detail::property::ReadProperty<'a, B> for ValidPacketSizes {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer.buffer().chunks_exact(4).any(|p| {
-            let number_bytes = u8::from(p[0].nibble(3));
-            !(1..=14).contains(&number_bytes)
-        }) {
+        if buffer
+            .buffer()
+            .chunks_exact(4)
+            .take_while(|p| u8::from(p[0].nibble(0)) == UMP_MESSAGE_TYPE)
+            .any(|p| {
+                let number_bytes = u8::from(p[0].nibble(3));
+                !(1..=14).contains(&number_bytes)
+            })
+        {
             Err(crate::error::InvalidData(
                 ERR_INVALID_NUMBER_OF_PAYLOAD_BYTES,
             ))
-- 
2.43.0


From 3de5f8706ee86779e6605d19a3254577bc9015ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:50 +0000
Subject: [PATCH 13/34] fix: keep nth on system exclusive payloads within the
 message

---
 midi2/src/sysex7.rs | 2 +-
 midi2/src/sysex8.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 5a15d64..4eebd0d 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -437,7 +437,7 @@ impl<B: crate::buffer::Buffer> Sysex<B> for Sysex7<B> {
                     .map(PayloadIterator::<B::Unit>::packet_size)
                     .sum::<usize>();
                 PayloadIterator {
-                    data: self.0.buffer(),
+                    data: self.data(),
                     payload_index: 0,
                     packet_index: 0,
                     size_cache,
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 5d86d4d..dc73d69 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -281,7 +281,7 @@ impl core::iter::Iterator for PayloadIterator<'_> {
         if ret.is_none() {
             // if we failed it means we ran out of data
             // so we set the iterator into finished state
-            self.packet_index = self.data.len() / 2;
+            self.packet_index = self.data.len() / 4;
             self.size_cache = 0;
         }
         ret
@@ -344,7 +344,7 @@ impl<B: crate::buffer::Ump> Sysex<B> for Sysex8<B> {
         <B as crate::buffer::Buffer>::Unit: 'a,
     {
         PayloadIterator {
-            data: self.0.buffer(),
+            data: self.data(),
             packet_index: 0,
             payload_index: 0,
             size_cache: self
-- 
2.43.0


From a800b6a23d5b3d9ad3786bc04d8eeceee3db7c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:50 +0000
Subject: [PATCH 14/34] fix: read system exclusive payload bytes with a set top
 bit without panicking

---
 midi2/src/sysex7.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 4eebd0d..23fb530 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -858,7 +858,7 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
                 if self.payload_index >= data.len() {
                     None
                 } else {
-                    let ret = Some(u7::new(data[self.payload_index]));
+                    let ret = Some(data[self.payload_index].septet(0));
                     self.payload_index += 1;
                     ret
                 }
-- 
2.43.0


From b6493bec8cbea337bbe4319f5b5c90dac86f5ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:50 +0000
Subject: [PATCH 15/34] fix: size hint and nth of system exclusive payloads
 over bytes

---
 midi2/src/sysex7.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 23fb530..e1c622a 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -887,7 +887,7 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
         match U::UNIT_ID {
             crate::buffer::UNIT_ID_U8 => {
-                self.payload_index += n;
+                self.payload_index += n.min(ExactSizeIterator::len(self));
                 self.next()
             }
             crate::buffer::UNIT_ID_U32 => {
@@ -950,7 +950,8 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.size_cache, Some(self.size_cache))
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
-- 
2.43.0


From 78f492e62cc1b7c80ca216df5cc71f4e8579af0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 16/34] fix: overwrite the whole byte when setting a system
 exclusive 7 byte

---
 midi2/src/sysex7.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index e1c622a..495c53d 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -475,7 +475,7 @@ impl<B: crate::buffer::Buffer> Sysex<B> for Sysex7<B> {
         match <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID {
             crate::buffer::UNIT_ID_U8 => {
                 let buffer = self.buffer_access_mut().specialise_u8_mut();
-                buffer[index + 1].set_septet(0, byte);
+                buffer[index + 1] = byte.into();
             }
             crate::buffer::UNIT_ID_U32 => {
                 // can't assume a compact payload here:
-- 
2.43.0


From 8e2d68883968b0ff8667066d42cf8a06ebce2b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 17/34] fix: panic when setting a system exclusive byte beyond
 the payload, as documented

---
 midi2/src/sysex7.rs | 1 +
 midi2/src/sysex8.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 495c53d..75f8781 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -472,6 +472,7 @@ impl<B: crate::buffer::Buffer> Sysex<B> for Sysex7<B> {
     where
         B: crate::buffer::BufferMut,
     {
+        assert!(index < self.payload_size(), "index out of bounds");
         match <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID {
             crate::buffer::UNIT_ID_U8 => {
                 let buffer = self.buffer_access_mut().specialise_u8_mut();
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index dc73d69..0f96b86 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -380,6 +380,7 @@ impl<B: crate::buffer::Ump> Sysex<B> for Sysex8<B> {
     where
         B: crate::buffer::BufferMut,
     {
+        assert!(index < self.payload_size(), "index out of bounds");
         // can't assume a compact payload here:
         // linear complexity
 
-- 
2.43.0


From 4434041f073746edfb3c8fcbaab2303a873b20b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:17 +0000
Subject: [PATCH 18/34] fix: keep the payload where it is when a splice meets a
 full buffer

---
 midi2/src/detail/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index b415967..5a05245 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -235,7 +235,7 @@ mod detail {
                     ) {
                         // failed. we'll work with what we've got
                         running_data_size_estimate = sz.saturating_sub(initial_size - splice_size);
-                        to = splice_begin + running_data_size_estimate - splice_size;
+                        to = splice_begin + running_data_size_estimate;
                     };
                 }
 
-- 
2.43.0


From 0a71266ab0f1b62fe9bd452039751b9ef11a8a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:18 +0000
Subject: [PATCH 19/34] fix: panic when splicing system exclusive payload
 beyond its end, as documented

---
 midi2/src/detail/helpers.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 5a05245..e6a3607 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -174,6 +174,10 @@ mod detail {
             core::ops::Bound::Excluded(&v) => v,
             core::ops::Bound::Unbounded => initial_size,
         };
+        assert!(
+            splice_begin <= splice_end && splice_end <= initial_size,
+            "Splice range exceeds the payload"
+        );
         let splice_size = splice_end - splice_begin;
 
         let mut running_data_size_estimate = match data.size_hint() {
-- 
2.43.0


From 7e31dc4cd44286a8b8b3892cc8153e9487fb6cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:29 +0000
Subject: [PATCH 20/34] fix: keep nth on packet payloads within the packet and
 advance past the byte returned

---
 midi2/src/sysex7/packet.rs | 4 ++--
 midi2/src/sysex8/packet.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/midi2/src/sysex7/packet.rs b/midi2/src/sysex7/packet.rs
index 9797cd6..9bf11e4 100644
--- a/midi2/src/sysex7/packet.rs
+++ b/midi2/src/sysex7/packet.rs
@@ -94,8 +94,8 @@ impl core::iter::Iterator for PayloadIterator<'_> {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         use crate::detail::BitOps;
-        if self.index + n >= self.packet_size() {
-            self.index = (self.index + n).min(6);
+        if n >= self.len() {
+            self.index = self.packet_size();
             return None;
         }
         let v = self.data[(self.index + n + 2) / 4].septet((self.index + n + 2) % 4);
diff --git a/midi2/src/sysex8/packet.rs b/midi2/src/sysex8/packet.rs
index 21a807e..98f2afc 100644
--- a/midi2/src/sysex8/packet.rs
+++ b/midi2/src/sysex8/packet.rs
@@ -122,12 +122,12 @@ impl core::iter::Iterator for PayloadIterator<'_> {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         use crate::detail::BitOps;
-        if self.index + n >= self.packet_size() {
-            self.index += n;
+        if n >= self.len() {
+            self.index = self.packet_size();
             return None;
         }
         let v = self.data[(self.index + n + 3) / 4].octet((self.index + n + 3) % 4);
-        self.index = (self.index + n).min(13);
+        self.index += n + 1;
         Some(v)
     }
 
-- 
2.43.0


From 4c6fbcbbb496b2c9b7437d29927ad92495b4e094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:46 +0000
Subject: [PATCH 21/34] fix: refuse system exclusive 8 packets with an invalid
 number of bytes

---
 midi2/src/sysex8/packet.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/midi2/src/sysex8/packet.rs b/midi2/src/sysex8/packet.rs
index 98f2afc..5bad75b 100644
--- a/midi2/src/sysex8/packet.rs
+++ b/midi2/src/sysex8/packet.rs
@@ -31,7 +31,17 @@ impl<'a> core::convert::TryFrom<&'a [u32]> for Packet {
             ));
         }
 
-        status_from_data(data)?;
+        let status = status_from_data(data)?;
+        let valid_size = match u8::from(data[0].nibble(3)) {
+            0x0 => false,
+            0xF => status == Status::UnexpectedEnd(PreviousDataValidity::Invalid),
+            _ => true,
+        };
+        if !valid_size {
+            return Err(error::InvalidData(
+                sysex8::ERR_INVALID_NUMBER_OF_PAYLOAD_BYTES,
+            ));
+        }
 
         Ok(Packet({
             let mut buffer = [0x0; 4];
@@ -152,9 +162,11 @@ impl core::iter::ExactSizeIterator for PayloadIterator<'_> {
 impl PayloadIterator<'_> {
     fn packet_size(&self) -> usize {
         use crate::detail::BitOps;
-        let len = u8::from(self.data[0].nibble(3)) as usize - 1;
-        debug_assert!(len <= 13);
-        len
+        match u8::from(self.data[0].nibble(3)) {
+            // unexpected end
+            0xF => 0,
+            sz => sz as usize - 1,
+        }
     }
 }
 
-- 
2.43.0


From b5ca429924b250d33b6a0346091b22169d52543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:21 +0000
Subject: [PATCH 22/34] fix: read the last byte of a full last packet of flex
 data texts

---
 midi2/src/flex_data/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/flex_data/text.rs b/midi2/src/flex_data/text.rs
index d097c26..4211f0d 100644
--- a/midi2/src/flex_data/text.rs
+++ b/midi2/src/flex_data/text.rs
@@ -143,7 +143,7 @@ impl core::iter::FusedIterator for TextBytesIterator<'_> {}
 
 impl TextBytesIterator<'_> {
     fn finished(&self) -> bool {
-        self.packet_index == self.buffer.len() / 4 - 1 && self.byte_index == 11
+        self.buffer.len() / 4 <= self.packet_index
     }
     fn advance(&mut self) {
         self.byte_index += 1;
-- 
2.43.0


From ba9c316c25551cc21e6946db75c18a89009ffe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:31 +0000
Subject: [PATCH 23/34] fix: read texts only from the packets of the message
 itself

---
 midi2/src/flex_data/text.rs                 | 2 +-
 midi2/src/ump_stream.rs                     | 2 +-
 midi2/src/ump_stream/function_block_name.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi2/src/flex_data/text.rs b/midi2/src/flex_data/text.rs
index 4211f0d..97943b4 100644
--- a/midi2/src/flex_data/text.rs
+++ b/midi2/src/flex_data/text.rs
@@ -170,7 +170,7 @@ impl<'a, B: Ump> Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as Property<B>>::Type {
         TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: &buffer.buffer()[..flex_data::flex_data_dyn_size(buffer)],
             packet_index: 0,
             byte_index: 0,
         }
diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 39a1c9a..41d2a12 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -302,7 +302,7 @@ impl<'a, B: Ump> property::Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as property::Property<B>>::Type {
         TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: &buffer.buffer()[..message_size(buffer)],
             packet_index: 0,
             byte_index: 0,
             offset: 0,
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index 732f1c9..85c8316 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -87,7 +87,7 @@ impl<'a, B: Ump> property::Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as property::Property<B>>::Type {
         ump_stream::TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: &buffer.buffer()[..ump_stream::message_size(buffer)],
             packet_index: 0,
             byte_index: 0,
             offset: 1,
-- 
2.43.0


From f4be6b52e6763d59efff57b0e60d9f520cbea2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:40 +0000
Subject: [PATCH 24/34] fix: size hint of text iterators

---
 midi2/src/flex_data/text.rs | 3 ++-
 midi2/src/ump_stream.rs     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/midi2/src/flex_data/text.rs b/midi2/src/flex_data/text.rs
index 97943b4..df0f0a7 100644
--- a/midi2/src/flex_data/text.rs
+++ b/midi2/src/flex_data/text.rs
@@ -135,7 +135,8 @@ impl core::iter::Iterator for TextBytesIterator<'_> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        ((self.buffer.len() - 1) * 12, Some(self.buffer.len() * 12))
+        let packets = (self.buffer.len() / 4).saturating_sub(self.packet_index);
+        (0, Some(packets * 12))
     }
 }
 
diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 41d2a12..321269c 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -267,7 +267,8 @@ impl core::iter::Iterator for TextBytesIterator<'_> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        ((self.buffer.len() - 1) * 14, Some(self.buffer.len() * 14))
+        let packets = (self.buffer.len() / 4).saturating_sub(self.packet_index);
+        (0, Some(packets * 14))
     }
 }
 
-- 
2.43.0


From 88e383251af1f5df53fc49acbc87a2eee9690fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:49 +0000
Subject: [PATCH 25/34] fix: set the channel of every packet of a flex data
 message

---
 midi2/src/flex_data.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index f7ffe5f..56b77d2 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -1015,9 +1015,13 @@ impl<'a, B: Ump> ReadProperty<'a, B> for OptionalChannelProperty {
 
 impl<B: Ump + BufferMut> WriteProperty<B> for OptionalChannelProperty {
     fn write(buffer: &mut B, v: Self::Type) {
-        let buffer_slice = buffer.buffer_mut();
-        let data = buffer_slice;
-        optional_channel_to_slice(data, v);
+        for packet in buffer
+            .buffer_mut()
+            .chunks_exact_mut(4)
+            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
+        {
+            optional_channel_to_slice(packet, v);
+        }
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
         Ok(())
-- 
2.43.0


From 0fa422d17d3c4c8279e8b6bd2880321868950135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:00 +0000
Subject: [PATCH 26/34] fix: repeat the function block in every packet of a
 function block name

---
 midi2/src/ump_stream.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 321269c..df7aa67 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -226,7 +226,7 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
         buffer.resize(buffer_size);
         clear_payload::<OFFSET>(buffer.buffer_mut());
 
-        write_message_header_data(buffer.buffer_mut(), buffer_size);
+        write_message_header_data::<OFFSET>(buffer.buffer_mut(), buffer_size);
         set_format_fields(buffer.buffer_mut());
     }
 
@@ -238,7 +238,7 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
         buffer.try_resize(buffer_size)?;
         clear_payload::<OFFSET>(buffer.buffer_mut());
 
-        write_message_header_data(buffer.buffer_mut(), buffer_size);
+        write_message_header_data::<OFFSET>(buffer.buffer_mut(), buffer_size);
         set_format_fields(buffer.buffer_mut());
 
         Ok(())
@@ -395,16 +395,21 @@ fn required_buffer_size_for_str<const OFFSET: usize>(s: &str) -> usize {
     }
 }
 
-fn write_message_header_data(buffer: &mut [u32], size: usize) {
+fn write_message_header_data<const OFFSET: usize>(buffer: &mut [u32], size: usize) {
     use crate::detail::BitOps;
     use crate::ux::u4;
 
     let status = status_from_buffer(buffer);
+    let header_byte = buffer[0].octet(2);
 
     for packet in buffer[..size].chunks_exact_mut(4) {
         packet[0].set_nibble(0, u4::new(UMP_MESSAGE_TYPE));
         packet[0] &= !0x03FF_0000;
         packet[0] |= (status as u32) << 16;
+        if OFFSET > 0 {
+            // the byte before the text is the same in every packet
+            packet[0].set_octet(2, header_byte);
+        }
     }
 
     for packet in buffer[size..].chunks_exact_mut(4) {
-- 
2.43.0


From e5fc452eff61c708ce8c651272a95abf4c41a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:51 +0000
Subject: [PATCH 27/34] fix: accept single-packet stream messages that are
 followed by other stream messages

Messages which always fit one packet checked the formats of all stream
packets that follow in the slice, so a discovery message followed by any
other stream message was refused.
---
 midi2/src/ump_stream.rs                       | 32 +++++++++++++++++++
 midi2/src/ump_stream/device_identity.rs       |  4 +--
 midi2/src/ump_stream/end_of_clip.rs           |  4 +--
 midi2/src/ump_stream/endpoint_discovery.rs    |  4 +--
 midi2/src/ump_stream/endpoint_info.rs         |  4 +--
 .../ump_stream/function_block_discovery.rs    |  4 +--
 midi2/src/ump_stream/function_block_info.rs   |  4 +--
 midi2/src/ump_stream/start_of_clip.rs         |  4 +--
 .../stream_configuration_notification.rs      |  4 +--
 .../stream_configuration_request.rs           |  4 +--
 10 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index df7aa67..c51f90d 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -179,6 +179,38 @@ impl<B: Ump + BufferMut> property::WriteProperty<B> for ConsistentFormatsPropert
     }
 }
 
+// The format of messages which always fit a single packet
+struct CompleteFormatProperty;
+
+impl<B: Ump> property::Property<B> for CompleteFormatProperty {
+    type Type = ();
+}
+
+impl<'a, B: Ump> property::ReadProperty<'a, B> for CompleteFormatProperty {
+    fn read(_buffer: &'a B) -> Self::Type {}
+    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
+        use crate::detail::{helpers::ERR_SYSEX_EXPECTED_COMPLETE, BitOps};
+
+        if u8::from(buffer.buffer()[0].crumb(2)) == COMPLETE_FORMAT {
+            Ok(())
+        } else {
+            Err(crate::error::InvalidData(ERR_SYSEX_EXPECTED_COMPLETE))
+        }
+    }
+}
+
+impl<B: Ump + BufferMut> property::WriteProperty<B> for CompleteFormatProperty {
+    fn default() -> Self::Type {}
+    fn write(buffer: &mut B, _v: Self::Type) {
+        use crate::{detail::BitOps, ux::u2};
+
+        buffer.buffer_mut()[0].set_crumb(2, u2::new(COMPLETE_FORMAT));
+    }
+    fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
+        Ok(())
+    }
+}
+
 struct TextWriteStrProperty<'a, const OFFSET: usize>(core::marker::PhantomData<&'a u8>);
 
 impl<'a, const OFFSET: usize, B: Ump> property::Property<B> for TextWriteStrProperty<'a, OFFSET> {
diff --git a/midi2/src/ump_stream/device_identity.rs b/midi2/src/ump_stream/device_identity.rs
index 3718afd..6ffc7e6 100644
--- a/midi2/src/ump_stream/device_identity.rs
+++ b/midi2/src/ump_stream/device_identity.rs
@@ -13,8 +13,8 @@ struct DeviceIdentity {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
     #[property(common_properties::UmpSchemaProperty<[u7; 3], schema::Ump<0x0, 0x007F_7F7F, 0x0, 0x0>>)]
     device_manufacturer: [u7; 3],
     #[property(common_properties::UmpSchemaProperty<u14, schema::Ump<0x0, 0x0, 0x7F7F_0000, 0x0>>)]
diff --git a/midi2/src/ump_stream/end_of_clip.rs b/midi2/src/ump_stream/end_of_clip.rs
index 91e151d..c2490c4 100644
--- a/midi2/src/ump_stream/end_of_clip.rs
+++ b/midi2/src/ump_stream/end_of_clip.rs
@@ -8,8 +8,8 @@ struct EndOfClip {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
 }
 
 #[cfg(test)]
diff --git a/midi2/src/ump_stream/endpoint_discovery.rs b/midi2/src/ump_stream/endpoint_discovery.rs
index 2a2e782..e3a51b7 100644
--- a/midi2/src/ump_stream/endpoint_discovery.rs
+++ b/midi2/src/ump_stream/endpoint_discovery.rs
@@ -12,8 +12,8 @@ struct EndpointDiscovery {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     ump_version_major: u8,
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_00FF, 0x0, 0x0, 0x0>>)]
diff --git a/midi2/src/ump_stream/endpoint_info.rs b/midi2/src/ump_stream/endpoint_info.rs
index 0d1dc37..ee50688 100644
--- a/midi2/src/ump_stream/endpoint_info.rs
+++ b/midi2/src/ump_stream/endpoint_info.rs
@@ -13,8 +13,8 @@ struct EndpointInfo {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     ump_version_major: u8,
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_00FF, 0x0, 0x0, 0x0>>)]
diff --git a/midi2/src/ump_stream/function_block_discovery.rs b/midi2/src/ump_stream/function_block_discovery.rs
index 78c7595..5498610 100644
--- a/midi2/src/ump_stream/function_block_discovery.rs
+++ b/midi2/src/ump_stream/function_block_discovery.rs
@@ -12,8 +12,8 @@ struct FunctionBlockDiscovery {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
 
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     function_block_number: u8,
diff --git a/midi2/src/ump_stream/function_block_info.rs b/midi2/src/ump_stream/function_block_info.rs
index 410945b..037a2c9 100644
--- a/midi2/src/ump_stream/function_block_info.rs
+++ b/midi2/src/ump_stream/function_block_info.rs
@@ -13,8 +13,8 @@ struct FunctionBlockInfo {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_1000_0000_0000_0000, 0x0, 0x0, 0x0>>)]
     active: bool,
     #[property(common_properties::UmpSchemaProperty<u7, schema::Ump<0x0000_7F00, 0x0, 0x0, 0x0>>)]
diff --git a/midi2/src/ump_stream/start_of_clip.rs b/midi2/src/ump_stream/start_of_clip.rs
index ac94fb9..b15c65a 100644
--- a/midi2/src/ump_stream/start_of_clip.rs
+++ b/midi2/src/ump_stream/start_of_clip.rs
@@ -8,8 +8,8 @@ struct StartOfClip {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
 }
 
 #[cfg(test)]
diff --git a/midi2/src/ump_stream/stream_configuration_notification.rs b/midi2/src/ump_stream/stream_configuration_notification.rs
index 554bdeb..ba353c6 100644
--- a/midi2/src/ump_stream/stream_configuration_notification.rs
+++ b/midi2/src/ump_stream/stream_configuration_notification.rs
@@ -12,8 +12,8 @@ struct StreamConfigurationNotification {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     protocol: u8,
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_0000_0000_0000_0010, 0x0, 0x0, 0x0>>)]
diff --git a/midi2/src/ump_stream/stream_configuration_request.rs b/midi2/src/ump_stream/stream_configuration_request.rs
index 8cf3879..764fb36 100644
--- a/midi2/src/ump_stream/stream_configuration_request.rs
+++ b/midi2/src/ump_stream/stream_configuration_request.rs
@@ -12,8 +12,8 @@ struct StreamConfigurationRequest {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     protocol: u8,
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_0000_0000_0000_0010, 0x0, 0x0, 0x0>>)]
-- 
2.43.0


From eaacd02a260969f48cb01e4f178d90451c6d7686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:04 +0000
Subject: [PATCH 28/34] fix: no unused import left by reading payload bytes
 with a set top bit

---
 midi2/src/sysex7.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 75f8781..0577ee3 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -859,7 +859,7 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
                 if self.payload_index >= data.len() {
                     None
                 } else {
-                    let ret = Some(data[self.payload_index].septet(0));
+                    let ret = Some(u7::new(data[self.payload_index] & 0x7F));
                     self.payload_index += 1;
                     ret
                 }
-- 
2.43.0


From e2f671feed01e9a4e43d3da95905c445f048aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:33 +0000
Subject: [PATCH 29/34] fix: CI messages shorter than their minimum size were
 accepted when data followed them

---
 midi2_proc/src/generate_ci.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/midi2_proc/src/generate_ci.rs b/midi2_proc/src/generate_ci.rs
index 3850a26..be368f0 100644
--- a/midi2_proc/src/generate_ci.rs
+++ b/midi2_proc/src/generate_ci.rs
@@ -548,6 +548,9 @@ fn try_from_slice_impl(root_ident: &syn::Ident, properties: &[Property]) -> Toke
                     return Err(crate::error::InvalidData("Incorrect CI version"));
                 }
                 let sysex7 = crate::sysex7::Sysex7::try_from(buffer)?;
+                if crate::traits::Data::data(&sysex7).len() < <Self as crate::traits::MinSize<&[u8]>>::MIN_SIZE {
+                    return Err(crate::error::InvalidData(crate::detail::common_err_strings::ERR_SLICE_TOO_SHORT));
+                }
                 let buffer = sysex7.buffer_access();
                 #validation_steps
                 Ok(#root_ident(sysex7))
-- 
2.43.0


From fe1486af29215d4416292c7681ca459cac8121e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:50 +0000
Subject: [PATCH 30/34] fix: parsing an unsupported CI version panicked on
 short input

---
 midi2_proc/src/generate_ci.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/midi2_proc/src/generate_ci.rs b/midi2_proc/src/generate_ci.rs
index be368f0..49f069b 100644
--- a/midi2_proc/src/generate_ci.rs
+++ b/midi2_proc/src/generate_ci.rs
@@ -428,6 +428,12 @@ fn ci_version_impls(root_ident: &syn::Ident, args: &GenerateCiArgs) -> TokenStre
 fn min_size_impl(root_ident: &syn::Ident, args: &GenerateCiArgs) -> TokenStream {
     // each supported version defines a min size
     let mut match_arms = TokenStream::new();
+    let largest_min_size = args
+        .supported_versions
+        .iter()
+        .map(|v| v.min_size)
+        .max()
+        .expect("Must support at least one version");
     for supported_version in &args.supported_versions {
         let version_lit = supported_version.version;
         let min_size = supported_version.min_size;
@@ -441,7 +447,7 @@ fn min_size_impl(root_ident: &syn::Ident, args: &GenerateCiArgs) -> TokenStream
         impl<const VERSION: u8, B: crate::buffer::Bytes> crate::traits::MinSize<B> for #root_ident<VERSION, B> {
             const MIN_SIZE: usize = match VERSION {
                 #match_arms
-                _ => <crate::sysex7::Sysex7<B> as crate::traits::MinSize<B>>::MIN_SIZE,
+                _ => #largest_min_size,
             };
         }
     }
-- 
2.43.0


From a297387bdcec59700f7770f0f50c6ffcb0b12572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:01 +0000
Subject: [PATCH 31/34] fix: reading a CI discovery query field panicked on
 bytes above 0x7F

---
 midi2/src/ci/discovery.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/midi2/src/ci/discovery.rs b/midi2/src/ci/discovery.rs
index 16db2d8..83f3478 100644
--- a/midi2/src/ci/discovery.rs
+++ b/midi2/src/ci/discovery.rs
@@ -66,9 +66,9 @@ impl<B: crate::buffer::Bytes> property::Property<B> for DeviceManufacturerProper
 impl<'a, B: crate::buffer::Bytes> property::ReadProperty<'a, B> for DeviceManufacturerProperty {
     fn read(buffer: &'a B) -> Self::Type {
         [
-            ux::u7::new(buffer.buffer()[14]),
-            ux::u7::new(buffer.buffer()[15]),
-            ux::u7::new(buffer.buffer()[16]),
+            ux::u7::new(buffer.buffer()[14] & 0x7F),
+            ux::u7::new(buffer.buffer()[15] & 0x7F),
+            ux::u7::new(buffer.buffer()[16] & 0x7F),
         ]
     }
     fn validate(_buffer: &B) -> Result<(), crate::error::InvalidData> {
@@ -163,10 +163,10 @@ impl<B: crate::buffer::Bytes> property::Property<B> for SoftwareVersionProperty
 impl<'a, B: crate::buffer::Bytes> property::ReadProperty<'a, B> for SoftwareVersionProperty {
     fn read(buffer: &'a B) -> Self::Type {
         [
-            ux::u7::new(buffer.buffer()[21]),
-            ux::u7::new(buffer.buffer()[22]),
-            ux::u7::new(buffer.buffer()[23]),
-            ux::u7::new(buffer.buffer()[24]),
+            ux::u7::new(buffer.buffer()[21] & 0x7F),
+            ux::u7::new(buffer.buffer()[22] & 0x7F),
+            ux::u7::new(buffer.buffer()[23] & 0x7F),
+            ux::u7::new(buffer.buffer()[24] & 0x7F),
         ]
     }
     fn validate(_buffer: &B) -> Result<(), crate::error::InvalidData> {
@@ -266,7 +266,7 @@ impl<'a, B: crate::buffer::Bytes> property::ReadProperty<'a, B> for OutputPathId
         Ok(())
     }
     fn read(buffer: &'a B) -> Self::Type {
-        ux::u7::new(buffer.buffer()[30])
+        ux::u7::new(buffer.buffer()[30] & 0x7F)
     }
 }
 
-- 
2.43.0


From 2c495d7044897f2057ad7644546b495106397033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:07 +0000
Subject: [PATCH 32/34] fix: size arithmetic overflowed for payload sources
 with enormous size hints

---
 midi2/src/detail/helpers.rs | 4 ++--
 midi2/src/sysex7.rs         | 2 +-
 midi2/src/sysex8.rs         | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index e6a3607..6f8d7fe 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -189,12 +189,12 @@ mod detail {
         let mut additional_size_for_overflow = 1;
         let mut data = data.peekable();
 
-        if splice_end < splice_end + running_data_size_estimate - splice_size {
+        if splice_size < running_data_size_estimate {
             // we need to grow
             // initial buffer resize
             if let Err(SysexTryResizeError(sz)) = resize(
                 sysex,
-                running_data_size_estimate + initial_size - splice_size,
+                running_data_size_estimate.saturating_add(initial_size - splice_size),
             ) {
                 // failed. we'll work with what we've got
                 running_data_size_estimate = sz.saturating_sub(initial_size - splice_size);
diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 0577ee3..837c4c8 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -561,7 +561,7 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
         match <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID {
             crate::buffer::UNIT_ID_U8 => {
                 let old_payload_size = self.payload_size();
-                let mut buffer_sz = payload_size + 2;
+                let mut buffer_sz = payload_size.saturating_add(2);
                 let result = self.0.try_resize(buffer_sz).map_err(|_| {
                     buffer_sz = self.0.buffer().len();
                     crate::traits::SysexTryResizeError(buffer_sz.saturating_sub(2))
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 0f96b86..b1b65b2 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -581,7 +581,7 @@ fn buffer_size_from_payload_size(payload_size: usize) -> usize {
         if payload_size == 0 {
             4
         } else {
-            payload_size * 4 / 13
+            payload_size / 13 * 4
         }
     } else {
         4 * (payload_size / 13 + 1)
-- 
2.43.0


From c12c4fe8ee449000869cb96edbd497d7fa976316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:06 +0000
Subject: [PATCH 33/34] fix: a new stream text message is one packet whatever
 its buffer held

---
 midi2/src/ump_stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index c51f90d..767d033 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -172,7 +172,8 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for ConsistentFormatsProperty {
 impl<B: Ump + BufferMut> property::WriteProperty<B> for ConsistentFormatsProperty {
     fn default() -> Self::Type {}
     fn write(buffer: &mut B, _v: Self::Type) {
-        set_format_fields(buffer.buffer_mut())
+        // a new message is a single packet, whatever follows it in the buffer
+        set_format_fields(&mut buffer.buffer_mut()[..4])
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
         Ok(())
-- 
2.43.0


From c37418d4d7e24aa6551f583fd11dccf1e6c22b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:29 +0000
Subject: [PATCH 34/34] fix: clearing a note attribute left the old attribute
 data in the message

---
 midi2/src/channel_voice2/attribute.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/midi2/src/channel_voice2/attribute.rs b/midi2/src/channel_voice2/attribute.rs
index cd2de49..5fb7f19 100644
--- a/midi2/src/channel_voice2/attribute.rs
+++ b/midi2/src/channel_voice2/attribute.rs
@@ -36,6 +36,7 @@ pub fn write_attribute(bytes: &mut [u32], attr: Option<Attribute>) -> &mut [u32]
     match attr {
         None => {
             bytes[0].set_octet(3, 0x0);
+            bytes[1].set_word(1, 0x0);
         }
         Some(a) => match a {
             Attribute::ManufacturerSpecific(d) => {
-- 
2.43.0

